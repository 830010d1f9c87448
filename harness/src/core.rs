//! Case runner: seeded cases, monitors' counters, verdicts, evidence, watchdog and supervisor.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

// ---------------------------------------------------------------- random numbers

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- panics

/// Panics with this prefix are part of a workload (a service that is told to panic).
pub const INTENDED: &str = "vp-intended-panic";

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static UNEXPECTED_PANICS: AtomicU64 = AtomicU64::new(0);
static HARNESS_PANICS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg.starts_with(INTENDED) {
            return;
        }
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if loc.starts_with("src/") {
            // in the harness itself; perhaps because of another panic
            HARNESS_PANICS.fetch_add(1, SeqCst);
            eprintln!("panic in the harness at {loc}: {msg}");
            return;
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("panic at {loc}: {msg}");
        }
        UNEXPECTED_PANICS.fetch_add(1, SeqCst);
        if !IN_CASE.load(SeqCst) {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------- context

pub struct Violation {
    pub group: String,
    pub idx: u64,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub inconclusive: u64,
    pub groups: BTreeMap<String, u64>,
}

impl Stats {
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            if let Some(v) = self.counters.get_mut(name) {
                *v += n;
            } else {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, v: u64) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub verbose: bool,
    pub start: Instant,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub verif: String,
    pub time_cap: Duration,
    /// group whose cases were not all run because of the time cap
    pub capped: Vec<String>,
    /// scales all case counts (sanitizer runs use less)
    pub scale_pct: u64,
    /// a sanitizer judges, not the monitors
    pub deaf: bool,
    /// runs only the cases whose index leaves the first when divided by the second
    pub part: Option<(u64, u64)>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub stats: &'a mut Stats,
    pub thorough: bool,
    pub verbose: bool,
}

impl Case<'_> {
    /// Counts the case as non-trivial; `key` tells distinct ones apart.
    pub fn nontrivial(&mut self, key: u64) {
        if self.stats.distinct.len() < 4_000_000 {
            self.stats.distinct.insert(key);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        self.stats.count(name, n)
    }
    pub fn max(&mut self, name: &str, v: u64) {
        self.stats.max(name, v)
    }
    pub fn sample(&mut self, cap: usize, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < cap {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.stats.samples.push(s);
        }
    }
}

/// Result of a case that could not be decided.
pub const INCONCLUSIVE: &str = "INCONCLUSIVE:";

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, verif: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            only: None,
            verbose: false,
            start: Instant::now(),
            stats: Stats::default(),
            violations: vec![],
            known: vec![],
            rule: String::new(),
            assumptions: vec![],
            level: "exploration",
            verif: verif.into(),
            time_cap: Duration::from_secs(if thorough { 3600 } else { 400 }),
            capped: vec![],
            scale_pct: 100,
            deaf: false,
            part: None,
        }
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // the timed and the sanitized checks spend their seconds elsewhere
        let few = ["C17", "C24", "C26", "C31", "C38", "C39", "C42"];
        let n = if self.thorough {
            thorough
        } else if few.contains(&self.prop.as_str()) {
            quick
        } else {
            (3 * quick).min(thorough.max(quick))
        };
        (n * self.scale_pct / 100).max(1)
    }

    pub fn stop(&self) -> bool {
        self.violations.len() >= 3
    }

    /// Runs `n` seeded cases of one group.
    pub fn cases(&mut self, group: &str, n: u64, mut f: impl FnMut(&mut Case) -> R) {
        let base = mix(self.seed ^ hash_bytes(format!("{}/{}", self.prop, group).as_bytes()));
        if self.deaf {
            eprintln!("{:.1} s: {group}", self.start.elapsed().as_secs_f64());
        }
        let mut idx = 0;
        while idx < n {
            if self.stop() {
                return;
            }
            if let Some((g, i)) = &self.only {
                if g != group {
                    return;
                }
                if idx != *i {
                    if idx > *i {
                        return;
                    }
                    idx = *i;
                }
            }
            if self.part.is_some_and(|(i, m)| idx % m != i) {
                idx += 1;
                continue;
            }
            if self.start.elapsed() > self.time_cap {
                self.capped.push(format!("{group}: {idx} of {n}"));
                return;
            }
            self.one(group, idx, base, &mut f);
            idx += 1;
        }
    }

    fn one(&mut self, group: &str, idx: u64, base: u64, f: &mut dyn FnMut(&mut Case) -> R) {
        let panics_before = UNEXPECTED_PANICS.load(SeqCst);
        let harness_before = HARNESS_PANICS.load(SeqCst);
        case_begin(&self.prop, group, idx, self.seed);
        let (verbose, thorough) = (self.verbose, self.thorough);
        let stats = &mut self.stats;
        stats.evaluations += 1;
        *stats.groups.entry(group.to_string()).or_insert(0) += 1;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut case = Case {
                rng: Rng::new(base ^ mix(idx)),
                idx,
                stats,
                thorough,
                verbose,
            };
            f(&mut case)
        }));
        case_end();
        let mut res = match res {
            Ok(r) => r,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "?".into()
                };
                if UNEXPECTED_PANICS.load(SeqCst) == panics_before {
                    eprintln!("harness error in {group}:{idx}: {m}");
                    std::process::exit(3);
                }
                Err(format!("{}", last_panic()))
            }
        };
        if res.is_ok() && UNEXPECTED_PANICS.load(SeqCst) != panics_before {
            res = Err(format!("unexpected panic in a task: {}", last_panic()));
        }
        if res.is_ok() && HARNESS_PANICS.load(SeqCst) != harness_before {
            eprintln!("harness error in {group}:{idx}");
            std::process::exit(3);
        }
        match res {
            Ok(()) => (),
            Err(e) if e.starts_with(INCONCLUSIVE) => {
                self.stats.inconclusive += 1;
                eprintln!("{group}:{idx}: {e}");
            }
            Err(e) if e.starts_with(KNOWN) => {
                let e = e[KNOWN.len()..].to_string();
                if !self.known.contains(&e) {
                    self.known.push(e);
                }
            }
            Err(_) if self.deaf => self.stats.count("cases a monitor objected to (not judged here)", 1),
            Err(detail) => {
                eprintln!("{} {group}:{idx}: {}", self.prop, clip(&detail, 2000));
                self.violations.push(Violation {
                    group: group.to_string(),
                    idx,
                    detail,
                });
            }
        }
    }

    /// Requires that a monitor actually observed something.
    pub fn require(&mut self, counter: &str, min: u64) {
        if self.only.is_some() || self.deaf || !self.violations.is_empty() {
            return;
        }
        let v = self.stats.counters.get(counter).copied().unwrap_or(0);
        if v < min && !self.capped.is_empty() {
            // a slow machine: what was explored is in the evidence, with where it was capped
            eprintln!("{counter} = {v} within the time there was");
        } else if v < min {
            eprintln!("monitor starved: {counter} = {v}, expected at least {min}");
            self.stats.inconclusive += 1_000_000;
        }
    }
}

/// Prefix of panics raised by the harness itself (never a verdict).
pub const HARNESS: &str = "vp-harness:";
/// Prefix of results that match a listed known finding.
pub const KNOWN: &str = "KNOWN:";

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn hexc(b: &[u8]) -> String {
    if b.len() > 400 {
        format!("{}...({} bytes)", hex(&b[..400]), b.len())
    } else {
        hex(b)
    }
}

// ---------------------------------------------------------------- current case, shared with the supervisor

pub static IN_CASE: AtomicBool = AtomicBool::new(false);
static CASE_SEQ: AtomicU64 = AtomicU64::new(0);
static SHARED: Mutex<Option<usize>> = Mutex::new(None);
pub const SHARED_LEN: usize = 4096;

pub fn map_shared(path: &str) {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHARED_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p != libc::MAP_FAILED {
            *SHARED.lock().unwrap() = Some(p as usize);
        }
    }
}

fn share(s: &str) {
    if let Some(p) = *SHARED.lock().unwrap() {
        let b = s.as_bytes();
        let n = b.len().min(SHARED_LEN - 1);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, n);
            *(p as *mut u8).add(n) = 0;
        }
    }
}

static CURRENT: Mutex<(String, String, u64)> = Mutex::new((String::new(), String::new(), 0));

fn case_begin(prop: &str, group: &str, idx: u64, seed: u64) {
    {
        let mut c = CURRENT.lock().unwrap();
        if c.1 != group {
            c.0 = prop.to_string();
            c.1 = group.to_string();
        }
        c.2 = idx;
    }
    share(&format!("{prop} {group} {idx} {seed}"));
    CASE_SEQ.fetch_add(1, SeqCst);
    IN_CASE.store(true, SeqCst);
}

fn case_end() {
    IN_CASE.store(false, SeqCst);
    share("");
}

// ---------------------------------------------------------------- watchdog

pub fn cpu_time() -> Duration {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// True if every other thread of this process sleeps and none got CPU time since `prev`.
fn asleep(prev: &mut BTreeMap<String, (u64, u64)>) -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    let mut now = BTreeMap::new();
    let mut quiet = true;
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for e in dir.flatten() {
            let tid = e.file_name().to_string_lossy().to_string();
            if tid == me {
                continue;
            }
            let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
            let rest = stat.rsplit(") ").next().unwrap_or("");
            let f: Vec<&str> = rest.split(' ').collect();
            if f.len() < 15 {
                quiet = false;
                continue;
            }
            if f[0] != "S" {
                quiet = false;
            }
            let sw = std::fs::read_to_string(e.path().join("schedstat")).unwrap_or_default();
            let run: u64 = sw.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
            let cpu: u64 = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
            if prev.get(&tid) != Some(&(run, cpu)) {
                quiet = false;
            }
            now.insert(tid, (run, cpu));
        }
    } else {
        quiet = false;
    }
    *prev = now;
    quiet
}

/// A case that burns 150 s of CPU time, or leaves every thread asleep for 40 s with nothing
/// scheduled, will never end: that is a verdict. Wall-clock time alone never is.
pub fn start_watchdog(report: impl Fn(&str, &str, u64, &str) + Send + 'static, wall_cap: Duration) {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let t0 = Instant::now();
            let mut seq = 0;
            let mut cpu0 = cpu_time();
            let mut prev = BTreeMap::new();
            let mut quiet = 0;
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let s = CASE_SEQ.load(SeqCst);
                if s != seq || !IN_CASE.load(SeqCst) {
                    seq = s;
                    cpu0 = cpu_time();
                    quiet = 0;
                    if t0.elapsed() > wall_cap {
                        eprintln!("wall-clock cap reached: inconclusive");
                        unsafe { libc::_exit(2) };
                    }
                    continue;
                }
                if asleep(&mut prev) {
                    quiet += 1;
                } else {
                    quiet = 0;
                }
                let why = if cpu_time() - cpu0 > Duration::from_secs(150) {
                    "does not terminate: 150 s of CPU time spent on one case"
                } else if quiet >= 20 {
                    "hangs: every thread asleep for 40 s with nothing scheduled"
                } else if t0.elapsed() > wall_cap {
                    eprintln!("wall-clock cap reached: inconclusive");
                    unsafe { libc::_exit(2) };
                } else {
                    continue;
                };
                let c = CURRENT.lock().unwrap().clone();
                report(&c.0, &c.1, c.2, why);
                unsafe { libc::_exit(1) };
            }
        })
        .unwrap();
}

// ---------------------------------------------------------------- evidence

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(verif: &str, prop: &str, group: &str, idx: u64, seed: u64, thorough: bool, detail: &str) -> String {
    let dir = format!("{verif}/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{}-{idx}.txt", group.replace(' ', "_"));
    let tier = if thorough { "thorough" } else { "quick" };
    let text = format!(
        "property={prop}\ngroup={group}\ncase={idx}\nseed={seed}\ntier={tier}\nreplay with: VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop} --case {group}:{idx}\n\n{detail}\n"
    );
    let _ = std::fs::write(&path, text);
    path
}

pub fn write_evidence(ctx: &Ctx) {
    if ctx.only.is_some() {
        return;
    }
    let s = &ctx.stats;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {},", js(&ctx.prop));
    let _ = writeln!(o, " \"tier\": {},", js(if ctx.thorough { "thorough" } else { "quick" }));
    let _ = writeln!(o, " \"seed\": {},", ctx.seed);
    let _ = writeln!(o, " \"level\": {},", js(ctx.level));
    let _ = writeln!(o, " \"coverage\": {{");
    let _ = writeln!(o, "  \"evaluations\": {},", s.evaluations);
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", s.distinct.len());
    let _ = writeln!(o, "  \"rule\": {},", js(&ctx.rule));
    let items: Vec<String> = s.samples.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "  \"samples\": [{}],", items.join(", "));
    let items: Vec<String> = s.groups.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "  \"cases_per_group\": {{{}}},", items.join(", "));
    let items: Vec<String> = s.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "  \"observed\": {{{}}},", items.join(", "));
    let items: Vec<String> = s.maxima.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, "  \"observed_maxima\": {{{}}},", items.join(", "));
    let items: Vec<String> = ctx.capped.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "  \"stopped_by_time_cap\": [{}],", items.join(", "));
    let _ = writeln!(o, "  \"inconclusive_cases\": {},", s.inconclusive);
    let items: Vec<String> = ctx.known.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "  \"known_findings_seen\": [{}]", items.join(", "));
    let _ = writeln!(o, " }},");
    let items: Vec<String> = ctx.assumptions.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, " \"assumptions\": [{}],", items.join(", "));
    let _ = writeln!(o, " \"wall_s\": {:.2},", ctx.start.elapsed().as_secs_f64());
    let _ = writeln!(o, " \"violations\": {}", ctx.violations.len());
    o.push_str("}\n");
    let _ = std::fs::create_dir_all(format!("{}/evidence", ctx.verif));
    let _ = std::fs::write(format!("{}/evidence/{}.json", ctx.verif, ctx.prop), o);
}

// ---------------------------------------------------------------- allocation monitor

pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

    pub struct Counting;
    static LIVE: AtomicIsize = AtomicIsize::new(0);
    static PEAK: AtomicIsize = AtomicIsize::new(0);
    static BIGGEST: AtomicUsize = AtomicUsize::new(0);

    thread_local! {
        static CHAOS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    }

    /// Injects random delays into this thread's allocations (0: off), which widens the windows
    /// inside the code under test.
    pub fn chaos(seed: u64) {
        CHAOS.with(|c| c.set(seed));
    }

    fn delay() {
        let _ = CHAOS.try_with(|c| {
            let mut x = c.get();
            if x == 0 {
                return;
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c.set(x);
            match x >> 59 {
                0..=3 => {
                    for _ in 0..(x >> 20) & 0x3ff {
                        std::hint::spin_loop();
                    }
                }
                4 => std::thread::yield_now(),
                _ => (),
            }
        });
    }

    fn add(n: usize) {
        delay();
        let l = LIVE.fetch_add(n as isize, Relaxed) + n as isize;
        PEAK.fetch_max(l, Relaxed);
        BIGGEST.fetch_max(n, Relaxed);
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as isize, Relaxed);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n);
            LIVE.fetch_sub(l.size() as isize, Relaxed);
            System.realloc(p, l, n)
        }
    }

    pub struct Mark(isize);

    /// Starts measuring.
    pub fn mark() -> Mark {
        let l = LIVE.load(Relaxed);
        PEAK.store(l, Relaxed);
        BIGGEST.store(0, Relaxed);
        Mark(l)
    }

    impl Mark {
        /// Peak of live bytes above the start.
        pub fn peak(&self) -> usize {
            (PEAK.load(Relaxed) - self.0).max(0) as usize
        }
        pub fn biggest(&self) -> usize {
            BIGGEST.load(Relaxed)
        }
        pub fn live(&self) -> isize {
            LIVE.load(Relaxed) - self.0
        }
    }
}
