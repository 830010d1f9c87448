//! Runtime monitors for rust-haproxy. `vp <property> [--case group:idx]`.

mod core;
mod gen;
mod mon;
mod p_agent;
mod p_codec;
mod p_conn;
mod p_more;
mod p_wait;
mod p_multi;
mod p_reasm;
mod p_san;
mod session;
mod sim;
mod wire;

use std::os::unix::process::ExitStatusExt;
use std::time::Duration;

use crate::core::*;

#[global_allocator]
static ALLOC: crate::core::alloc::Counting = crate::core::alloc::Counting;

type Run = fn(&mut Ctx);

const PROPS: &[(&str, Run)] = &[
    ("C01", p_codec::c01),
    ("C02", p_codec::c02),
    ("C03", p_codec::c03),
    ("C04", p_codec::c04),
    ("C05", p_codec::c05),
    ("C06", p_codec::c06),
    ("C07", p_codec::c07),
    ("C08", p_codec::c08),
    ("C09", p_reasm::c09),
    ("C10", p_reasm::c10),
    ("C11", p_reasm::c11),
    ("C12", p_reasm::c12),
    ("C13", p_reasm::c13),
    ("C14", p_conn::c14),
    ("C15", p_conn::c15),
    ("C16", p_conn::c16),
    ("C17", p_conn::c17),
    ("C18", p_conn::c18),
    ("C19", p_conn::c19),
    ("C20", p_conn::c20),
    ("C21", p_conn::c21),
    ("C22", p_conn::c22),
    ("C23", p_conn::c23),
    ("C24", p_agent::c24),
    ("C25", p_agent::c25),
    ("C26", p_agent::c26),
    ("C27", p_conn::c27),
    ("C28", p_codec::c28),
    ("C29", p_codec::c29),
    ("C30", p_conn::c30),
    ("C32", p_more::c32),
    ("C33", p_more::c33),
    ("C34", p_more::c34),
    ("C35", p_more::c35),
    ("C36", p_more::c36),
    ("C37", p_more::c37),
    ("C38", p_multi::c38),
    ("C39", p_more::c39),
    ("C40", p_more::c40),
    ("C41", p_more::c41),
    ("C42", p_wait::c42),
    ("C43", p_wait::c43),
];

struct Args {
    prop: String,
    only: Option<(String, u64)>,
    worker: bool,
    scale: u64,
    shared: Option<String>,
    san: Option<String>,
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        only: None,
        worker: false,
        scale: 100,
        shared: None,
        san: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--case" => {
                let v = it.next().expect("--case group:idx");
                let (g, i) = v.rsplit_once(':').expect("--case group:idx");
                a.only = Some((g.replace('_', " "), i.parse().expect("--case group:idx")));
            }
            "--worker" => a.worker = true,
            "--scale" => a.scale = it.next().unwrap().parse().unwrap(),
            "--shared" => a.shared = it.next(),
            "--san" => a.san = it.next(),
            p => a.prop = p.to_string(),
        }
    }
    a
}

fn verif_dir() -> String {
    std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn main() {
    let a = args();
    if a.prop == "--version" {
        // tells that the interpreter can run this
        println!("vp");
        return;
    }
    if a.worker {
        std::process::exit(worker(a));
    }
    if a.prop == "C31" {
        std::process::exit(p_san::supervise(&verif_dir(), seed(), thorough()));
    }
    std::process::exit(supervise(a));
}

/// Known findings: `known: property=<id> <key>` lines of /verif/known-findings.txt.
pub fn known_findings(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let prefix = format!("known: property={prop} ");
    text.lines().filter_map(|l| l.strip_prefix(&prefix)).map(|l| l.trim().to_string()).collect()
}

fn worker(a: Args) -> i32 {
    let Some(run) = PROPS.iter().find(|p| p.0 == a.prop).map(|p| p.1).or(a.san.is_some().then_some(p_codec::c04)) else {
        eprintln!("unknown property {}", a.prop);
        return 3;
    };
    install_panic_hook();
    if let Some(p) = &a.shared {
        map_shared(p);
    }
    let thorough = thorough();
    let verif = verif_dir();
    let (seed, prop) = (seed(), a.prop.clone());
    // A check is given 900 s, a thorough run of one as long as it takes.
    let wall_cap = Duration::from_secs(if thorough { 7200 } else { 800 });
    if a.san.is_none() {
        let (verif, prop) = (verif.clone(), prop.clone());
        start_watchdog(
            move |_, group, idx, why| {
                let path = write_replay(&verif, &prop, group, idx, seed, thorough, why);
                eprintln!("{prop} {group}:{idx}: {why}");
                println!("VIOLATION property={prop} replay={path}");
            },
            wall_cap,
        );
    }
    let mut ctx = Ctx::new(&prop, seed, thorough, &verif);
    ctx.only = a.only.clone();
    ctx.verbose = a.only.is_some();
    ctx.scale_pct = a.scale;
    if let Some(tool) = &a.san {
        let (tool, part) = tool.split_once(':').unwrap_or((tool, ""));
        ctx.part = part.split_once('/').and_then(|(i, n)| Some((i.parse().ok()?, n.parse().ok()?)));
        p_san::c31(&mut ctx, tool);
        println!("evaluations {}", ctx.stats.evaluations);
        println!("groups {}", ctx.stats.distinct.len());
        print!("{}", p_san::counters(&ctx));
        return 0;
    }
    run(&mut ctx);
    if ctx.only.is_some() && ctx.stats.evaluations == 0 {
        eprintln!("no such case");
        return 3;
    }
    let mut out = vec![];
    for v in &ctx.violations {
        let path = write_replay(&verif, &prop, &v.group.replace(' ', "_"), v.idx, seed, thorough, &v.detail);
        out.push(path);
    }
    write_evidence(&ctx);
    if !ctx.violations.is_empty() {
        for p in &out {
            println!("VIOLATION property={prop} replay={p}");
        }
        return 1;
    }
    for k in &ctx.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let s = &ctx.stats;
    println!(
        "{prop}: held in {} cases ({} distinct non-trivial), {:.1} s",
        s.evaluations,
        s.distinct.len(),
        ctx.start.elapsed().as_secs_f64()
    );
    if s.inconclusive * 50 > s.evaluations {
        eprintln!("inconclusive: {} of {} cases", s.inconclusive, s.evaluations);
        return 2;
    }
    0
}

/// Runs the worker in a process of its own, so that an abort, a stack overflow or a crash in a
/// case is observed and attributed.
fn supervise(a: Args) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let dir = std::env::temp_dir().join(format!("vp-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let shared = dir.join("case");
    let _ = std::fs::write(&shared, vec![0u8; SHARED_LEN]);
    let mut cmd = std::process::Command::new(exe);
    cmd.arg(&a.prop).arg("--worker").arg("--shared").arg(&shared);
    cmd.arg("--scale").arg(a.scale.to_string());
    if let Some((g, i)) = &a.only {
        cmd.arg("--case").arg(format!("{g}:{i}"));
    }
    let st = cmd.status();
    let case = std::fs::read(&shared).unwrap_or_default();
    let case: Vec<u8> = case.into_iter().take_while(|b| *b != 0).collect();
    let case = String::from_utf8_lossy(&case).to_string();
    let _ = std::fs::remove_dir_all(&dir);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return 3;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    let crash = [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP];
    if crash.contains(&sig) && !case.is_empty() {
        let mut f = case.rsplitn(2, ' ');
        let _seed = f.next();
        let rest = f.next().unwrap_or("").to_string();
        let (g, idx) = rest.rsplit_once(' ').unwrap_or((&rest, "0"));
        let g = g.split_once(' ').map(|x| x.1).unwrap_or(g);
        let path = write_replay(
            &verif_dir(),
            &a.prop,
            &g.replace(' ', "_"),
            idx.parse().unwrap_or(0),
            seed(),
            thorough(),
            &format!("the process died of signal {sig} in this case"),
        );
        eprintln!("the process died of signal {sig} in case {case}");
        println!("VIOLATION property={} replay={path}", a.prop);
        return 1;
    }
    eprintln!("the worker died of signal {sig} ({case})");
    2
}
