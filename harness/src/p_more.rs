//! C32-C37, C39-C41: what is left behind, integers, kinds, errors, logging, handlers, backpressure.

use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

use bytes::{Buf, BufMut};
use futures::StreamExt;
use haproxy_spoa::runtime::{Builder, Dispatcher, Processor};
use haproxy_spoa::Connection;
use haproxy_spop::{
    varint, Action, AgentAck, AsyncHandler, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, HaproxyNotify, Message, Reassembly,
    Scope, Typed,
};
use tokio::io::AsyncWriteExt;
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::Semaphore;
use tokio::time::{sleep, timeout};
use tokio_util::sync::CancellationToken;
use tower::service_fn;

use crate::core::*;
use crate::gen;
use crate::mon::*;
use crate::p_codec;
use crate::session::*;
use crate::sim::*;
use crate::wire;

const MS: Duration = Duration::from_millis(1);

// ---------------------------------------------------------------- C32

/// An item that is counted while it exists.
#[derive(Debug)]
struct Counted(#[allow(dead_code)] u64, Arc<AtomicUsize>);

impl Counted {
    fn new(n: u64, live: &Arc<AtomicUsize>) -> Self {
        live.fetch_add(1, SeqCst);
        Counted(n, live.clone())
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        self.1.fetch_sub(1, SeqCst);
    }
}

fn left(what: &str, c: &mut Case, base: &alloc::Mark, slack: isize, n: u64) -> R {
    let l = base.live();
    c.max(&format!("{what}: bytes more than before"), l.max(0) as u64);
    if l > slack {
        return Err(format!("{what}: {l} bytes more are held than before {n} more were handled"));
    }
    Ok(())
}

/// Runs `round` often enough for one-time memory to be there, then many times more, and asks that
/// nothing more is held than before.
fn steady(c: &mut Case, what: &str, slack: isize, warm: u64, more: u64, mut round: impl FnMut(&mut Rng, u64) -> R) -> R {
    let mut r = c.rng.fork();
    for i in 0..warm {
        round(&mut r, i)?;
    }
    let base = alloc::mark();
    for i in 0..more {
        round(&mut r, warm + i)?;
    }
    c.count(&format!("{what}: rounds"), more);
    left(what, c, &base, slack, more)
}

/// Different ids for every round, related in different ways.
struct Ids(u64, u64);

impl Ids {
    fn new(r: &mut Rng) -> Ids {
        Ids(r.below(5), r.next() | 1)
    }
    fn at(&self, i: u64) -> (u64, u64) {
        match self.0 {
            0 => (i, 1),
            1 => (7, i + 1),
            2 => (i, i + 1),
            3 => (i.wrapping_mul(self.1), (i ^ self.1).max(1)),
            _ => (i << 32, u64::MAX - i),
        }
    }
}

fn leak_raw(c: &mut Case) -> R {
    let live = Arc::new(AtomicUsize::new(0));
    let re: Reassembly<Counted> = Reassembly::default();
    let ids = Ids::new(&mut c.rng);
    let mode = c.rng.below(4);
    let l2 = live.clone();
    steady(c, "pairs completed", 8192, 3000, 9000, |r, i| {
        let (s, f) = ids.at(i);
        let n = match mode {
            0 => 0,
            1 => 1,
            _ => r.below(4),
        };
        let mut put = 0;
        let mut feed = |frag: bool, r: &mut Rng| {
            let k = if mode == 3 { r.below(2) } else { r.below(4) };
            put += k;
            re.reassemble(frag, s, f, (0..k).map(|x| Counted::new(x, &l2)).collect())
        };
        for _ in 0..n {
            if feed(true, r).map_err(|e| format!("fails with {e:?}"))?.is_some() {
                return Err("a fragment completed its pair".into());
            }
        }
        let got = feed(false, r).map_err(|e| format!("fails with {e:?}"))?.ok_or("not completed")?;
        if got.len() as u64 != put {
            return Err(format!("{put} items given, {} came back", got.len()));
        }
        drop(got);
        match l2.load(SeqCst) {
            0 => Ok(()),
            n => Err(format!("{n} items still exist after all pairs were completed and their items dropped")),
        }
    })
}

fn leak_frames(c: &mut Case) -> R {
    let mut re: Reassembly<Message> = Reassembly::default();
    let mut ra: Reassembly<Action> = Reassembly::default();
    let ids = Ids::new(&mut c.rng);
    steady(c, "notifications and ACKs reassembled", 8192, 2500, 5000, |r, i| {
        let (s, f) = ids.at(i);
        let n = r.below(4);
        for k in 0..=n {
            let fragmented = k < n;
            let a = drive(re.handle_frame(Frame::HaproxyNotify(HaproxyNotify {
                fragmented,
                stream_id: s,
                frame_id: f,
                messages: (0..r.below(3)).map(|k| gen::small_message(r, k)).collect(),
            })))?
            .map_err(|e| format!("fails with {e:?}"))?;
            let b = drive(ra.handle_frame(Frame::AgentAck(AgentAck {
                fragmented,
                aborted: !fragmented && r.chance(10),
                stream_id: s,
                frame_id: f,
                actions: (0..r.below(3)).map(|_| gen::small_action(r)).collect(),
            })))?
            .map_err(|e| format!("fails with {e:?}"))?;
            if a.is_some() == fragmented || b.is_some() == fragmented {
                return Err("completed at the wrong fragment".into());
            }
        }
        Ok(())
    })
}

fn leak_dispatch(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let ids = Ids::new(&mut c.rng);
    let late = c.rng.chance(30);
    let other = d.clone();
    let cloning = c.rng.chance(40);
    steady(c, "notifications dispatched", 8192, 2000, 6000, |r, i| {
        let (s, f) = ids.at(i);
        let n = r.below(4);
        let mut acked = None;
        let mut work = None;
        let mut given = 0;
        for k in 0..=n {
            let m = r.below(3);
            let gone = work.is_none() && k > 0;
            if !gone {
                given += m;
            }
            let d = if cloning && r.chance(50) { &other } else { &d };
            let got = d
                .recieve_messages(HaproxyNotify {
                    fragmented: k < n,
                    stream_id: s,
                    frame_id: f,
                    messages: (0..m).map(|k| gen::small_message(r, k)).collect(),
                })
                .map_err(|e| format!("fails with {e}"))?;
            if let Some(x) = got {
                acked = Some(x);
            }
            if k == 0 {
                work = drive(p.next())?;
                if !late && r.chance(10) {
                    // the consumer loses interest
                    work = None;
                }
            }
        }
        if let Some((mut acker, mut msgs)) = work {
            let mut seen = 0;
            while drive(msgs.next())?.is_some() {
                seen += 1;
            }
            if seen != given {
                return Err(format!("{given} messages given, {seen} came out"));
            }
            for _ in 0..r.below(3) {
                acker.set_var(Scope::Session, "x", r.below(9));
            }
            match r.below(4) {
                0 => drop(acker),
                1 => drop(acker.abort()),
                2 => {
                    acked = None;
                    drop(acker.complete());
                }
                _ => drop(acker.complete()),
            }
        }
        if let Some(x) = acked {
            let _ = drive(x)?;
        }
        Ok(())
    })
}

/// Replies that nobody waits for any more, before or after they are given, small and large.
fn leak_ackers(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let ids = Ids::new(&mut c.rng);
    let len = *c.rng.pick(&[0, 1, 40, 300, 5000]);
    steady(c, "replies abandoned", 8192, 500, 3000, |r, i| {
        let (s, f) = ids.at(i);
        let mut acked = d
            .recieve_messages(HaproxyNotify { fragmented: false, stream_id: s, frame_id: f, messages: vec![gen::small_message(r, 0)] })
            .map_err(|e| format!("fails with {e}"))?;
        if r.chance(30) {
            acked = None;
        }
        let (mut acker, msgs) = drive(p.next())?.ok_or("nothing is processed")?;
        let mut msgs = Some(msgs);
        let n = r.below(4);
        for k in 0..n {
            if r.chance(30) {
                acked = None;
            }
            if r.chance(20) {
                msgs = None;
            }
            match r.below(4) {
                0 => acker.unset_var(Scope::Session, format!("v{k}")),
                _ => acker.set_var(Scope::Session, format!("v{k}"), "z".repeat(len)),
            }
        }
        if r.chance(40) {
            acked = None;
        }
        for _ in 0..1 + r.below(2) {
            match r.below(3) {
                0 => drop(acker.abort()),
                1 => drop(acker.complete()),
                _ => break,
            }
        }
        drop(acker);
        drop(msgs);
        match r.below(2) {
            0 => drop(acked),
            _ => {
                if let Some(x) = acked {
                    let _ = drive(x)?;
                }
            }
        }
        Ok(())
    })
}

fn leak_codec(c: &mut Case) -> R {
    let big = c.rng.chance(30);
    let framer = Framer::new(1 << 22);
    steady(c, "frames written and read", 4096, 300, 1500, |r, i| {
        let f = if big && i % 50 == 0 { gen::big_frame_of(r, 1 << 20) } else { p_codec::small_frame(r) };
        let mut v = vec![];
        let _ = drive(framer.write_frame(&mut v, f))?;
        if r.chance(30) {
            let n = r.usize(v.len() + 1);
            v.truncate(n);
        }
        if v.len() > 4 && r.chance(30) {
            let n = 4 + r.usize(v.len() - 4);
            v[n] ^= 1 << r.below(8);
        }
        let _ = drive(framer.read_frame(&v[..]))?;
        Ok(())
    })
}

/// Blocks of headers, hardly any name of which was seen before.
fn leak_headers(c: &mut Case) -> R {
    steady(c, "header blocks read", 4096, 300, 3000, |r, i| {
        let mut b = vec![];
        let mut put = |s: &[u8]| {
            wire::varint(&mut b, s.len() as u64);
            b.extend_from_slice(s);
        };
        for k in 0..r.below(6) {
            put(format!("x-{i}-{k}{}", "y".repeat(r.usize(80))).as_bytes());
            put(format!("{}{}", r.next(), "z".repeat(r.usize(80))).as_bytes());
        }
        put(b"");
        put(b"");
        match r.below(10) {
            0 => {
                let n = r.usize(b.len() + 1);
                b.truncate(n);
            }
            1 => {
                let n = r.usize(b.len());
                b[n] ^= 1 << r.below(8);
            }
            _ => (),
        }
        let _ = haproxy_spoa::req::hdrs_bin(&b[..]);
        Ok(())
    })
}

/// What the factory of `quiet_rt` does: 0 makes a service, 1 fails, 2 never ends, 3 panics,
/// 4 fails to be ready.
pub type Mood = Arc<AtomicUsize>;

struct Moody<F>(F, Mood);

impl<F: tower::Service<(), Error = SvcError>> tower::Service<()> for Moody<F> {
    type Response = F::Response;
    type Error = SvcError;
    type Future = F::Future;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), SvcError>> {
        if self.1.load(SeqCst) == 4 {
            return std::task::Poll::Ready(Err(SvcError("the factory is not ready".into())));
        }
        self.0.poll_ready(cx)
    }
    fn call(&mut self, _: ()) -> F::Future {
        self.0.call(())
    }
}

pub fn quiet_rt(
    limit: Option<Duration>,
    mood: Mood,
) -> Arc<
    haproxy_spoa::Runtime<
        impl tower::Service<(), Response = impl tower::Service<Vec<Message>, Response = Vec<Action>, Error = SvcError, Future = impl Send + 'static> + Send, Error = SvcError, Future = impl Send>
            + Send
            + Sync,
        (),
    >,
> {
    let mut b = Builder::new().fragmentation().pipelining();
    if let Some(d) = limit {
        b = b.max_process_time(d);
    }
    let m2 = mood.clone();
    let factory = service_fn(move |_: ()| {
        let m = m2.load(SeqCst);
        async move {
            match m {
                1 => return Err(SvcError("no service today".into())),
                2 => std::future::pending().await,
                3 => panic!("{INTENDED}: factory"),
                _ => (),
            }
            // what a service holds
            let own = vec![1u8; 160];
            Ok::<_, SvcError>(service_fn(move |m: Vec<Message>| {
                let _ = &own;
                answer(m)
            }))
        }
    });
    b.make_service(Moody(factory, mood), ())
}

async fn answer(m: Vec<Message>) -> Result<Vec<Action>, SvcError> {
    match m.first().map(|m| m.name.as_str()) {
        Some("never") => std::future::pending().await,
        Some("panic") => panic!("{INTENDED}: service"),
        Some("huge") => Ok(vec![Action::set_var(Scope::Session, "n", "x".repeat(20_000))]),
        Some("large") => Ok(vec![Action::set_var(Scope::Session, "n", "x".repeat(16_000))]),
        // an error with a text of its own, of any length
        Some("fail") => {
            let n = m[0].args.len();
            Err(SvcError(format!("failed {:?} {}", m[0].args, "y".repeat(n * 10_000))))
        }
        Some("slow") => {
            sleep(MS * 20).await;
            Ok(vec![])
        }
        _ => Ok(m
            .iter()
            .flat_map(|m| &m.args)
            .map(|(k, v)| Action::set_var(Scope::Session, k.clone(), v.clone()))
            .chain([Action::set_var(Scope::Session, "n", m.len() as u64)])
            .collect()),
    }
}

/// One long session: what it holds does not grow with what it has handled.
fn leak_session(c: &mut Case) -> R {
    let vrt = virtual_rt();
    let mut r = c.rng.fork();
    let ids = Ids::new(&mut r);
    let mode = r.below(3);
    vrt.block_on(async {
        let (mut ours, theirs) = tokio::io::duplex(1 << 16);
        let rt = quiet_rt(None, Mood::default());
        let serve = tokio::spawn(async move { Connection::new(rt, theirs, CancellationToken::new()).serve().await.is_ok() });
        ours.write_all(&plain_hello(16384, gen::CAPS).bytes()).await.map_err(|e| e.to_string())?;
        let peer = Framer::new(16384);
        let hung = |_| "the agent does not answer".to_string();
        timeout(HOUR, peer.read_frame(&mut ours)).await.map_err(hung)?.map_err(|e| format!("{e:?}"))?;
        let mut base = alloc::mark();
        let (warm, more) = (400u64, 1600u64);
        for i in 0..warm + more {
            if i == warm {
                base = alloc::mark();
            }
            let (s, f) = ids.at(i);
            let n = match mode {
                0 => 0,
                1 => r.below(4),
                _ => 2,
            };
            let name = if mode == 1 && r.chance(5) { "slow".to_string() } else { format!("name {i}") };
            for k in 0..=n {
                let m: Vec<Message> = (0..r.below(3)).map(|k| Message { name: name.clone(), args: vec![(format!("k{i}"), Typed::Uint64(k)), ("t".into(), Typed::String(format!("text {i}")))] }).collect();
                ours.write_all(&Inp::notify(k < n, s, f, &m).bytes()).await.map_err(|e| e.to_string())?;
            }
            let got = timeout(HOUR, peer.read_frame(&mut ours)).await.map_err(hung)?.map_err(|e| format!("{e:?}"))?;
            if !matches!(&got, Frame::AgentAck(a) if a.stream_id == s && a.frame_id == f) {
                return Err(format!("notification {i} is answered by {got:?}"));
            }
        }
        left("notifications of one session", c, &base, 8192, more)?;
        c.count("notifications of one session: rounds", more);
        drop(ours);
        timeout(HOUR, serve).await.map_err(|_| "the connection did not end".to_string())?.map_err(|e| e.to_string())?;
        Ok(())
    })
}

const FATES: u64 = 24;

/// Many sessions of one runtime, ended in every way or all in the same way: nothing of them stays,
/// however different the things they said.
fn leak_sessions(c: &mut Case) -> R {
    let vrt = virtual_rt();
    let mut r = c.rng.fork();
    let mood = Mood::default();
    let rt = quiet_rt(Some(Duration::from_secs(5)), mood.clone());
    // all of one kind, or mixed
    let only = (c.idx % (FATES + 6)).checked_sub(6);
    let ending = if c.idx / (FATES + 6) % 2 == 0 { None } else { Some(r.below(6)) };
    let (warm, more) = (150, 500);
    let mut judged = 0;
    let base = vrt.block_on(async {
        let mut base = alloc::mark();
        let mut keep = vec![];
        for i in 0..warm + more {
            if i == warm {
                // the neighbours that stay for a while are there in both measurements
                keep.clear();
                sleep(HOUR).await;
                base = alloc::mark();
            }
            let (mut ours, theirs) = tokio::io::duplex(1 << 16);
            let (rt, tok) = (rt.clone(), CancellationToken::new());
            let t2 = tok.clone();
            let serve = tokio::spawn(async move { Connection::new(rt, theirs, t2).serve().await.is_ok() });
            let mut h = hello_of();
            h.engine_id = r.chance(80).then(|| format!("engine {i}"));
            h.max_frame_size = 16_384 + i as u32;
            let hello = wire::wire(&Frame::HaproxyHello(h.clone()));
            let n = |frag: bool, w: &str| {
                let args = vec![(format!("arg {i}"), Typed::String(format!("value {i}")))];
                let more = Message { name: format!("message {i}"), args: args.clone() };
                Inp::notify(frag, 1000 + i, 1, &[Message { name: w.into(), args }, more]).bytes()
            };
            let mut b = hello.clone();
            let fate = only.unwrap_or_else(|| r.below(FATES));
            match fate {
                0 => b = vec![],
                1 => b = r.bytes(60),
                2 => b.extend(r.bytes(60)),
                3 => b.extend(n(false, "fail")),
                4 => b.extend(n(false, "never")),
                5 => b.extend([n(true, "a"), n(true, "b")].concat()),
                6 => b.extend([n(false, "a"), n(false, "slow"), n(true, "b")].concat()),
                7 => b.extend(&n(false, "a")[..7]),
                8 => b.extend(wire::wire(&Frame::HaproxyDisconnect(gen::disconnect(&mut r)))),
                9 => {
                    h.healthcheck = Some(true);
                    b = wire::wire(&Frame::HaproxyHello(h.clone()));
                }
                10 => b = b[..r.usize(b.len())].to_vec(),
                11 => {
                    // no version in common
                    h.supported_versions = vec![haproxy_spop::Version::new(1, i as u8)];
                    b = wire::wire(&Frame::HaproxyHello(h.clone()));
                }
                12 => {
                    // an item is missing
                    let mut items = wire::hello_items(&h);
                    items.remove(r.usize(3));
                    b = Inp::Payload(wire::kv_frame(wire::T_HAPROXY_HELLO, &items)).bytes();
                }
                13 => b = n(false, "early"),
                14 => b.extend([n(false, "a"), hello.clone()].concat()),
                15 => b.extend([&n(false, "a")[..], &[0, 1, 0, 0], &[3; 500]].concat()),
                16 => b.extend(n(false, "panic")),
                17 => b.extend(n(false, "huge")),
                // a peer that does not read
                18 => b.extend(n(false, "large").repeat(6)),
                // the factory
                19..=22 => b.extend(n(false, "a")),
                _ => b.extend([n(true, "a"), n(true, "x"), n(false, "b"), n(false, "c")].concat()),
            }
            mood.store(if let 19..=22 = fate { fate as usize - 18 } else { 0 }, SeqCst);
            ours.write_all(&b).await.map_err(|e| e.to_string())?;
            sleep(MS * r.below(100) as u32 + MS).await;
            match ending.unwrap_or_else(|| r.below(6)) {
                0 => tok.cancel(),
                1 => serve.abort(),
                2 | 3 => ours.shutdown().await.map_err(|e| e.to_string())?,
                // the agent's own time limit
                4 => sleep(Duration::from_secs(6)).await,
                _ => (),
            }
            if r.chance(20) && i < warm && fate != 20 {
                keep.push(ours);
                continue;
            }
            drop(ours);
            judged += 1;
            if fate == 20 {
                // nothing but this ends a service's endless creation
                serve.abort();
            }
            match timeout(HOUR, serve).await {
                Ok(Err(e)) if e.is_panic() && fate != 16 && fate != 21 => return Err(format!("serving panicked: {}", last_panic())),
                Ok(_) => (),
                Err(_) => return Err(format!("connection {i} (kind {fate}) did not end although its peer is gone")),
            }
        }
        Ok(base)
    })?;
    mood.store(0, SeqCst);
    c.count("sessions ended: rounds", judged);
    left("sessions ended", c, &base, 8192, 500)?;
    if Arc::strong_count(&rt) != 1 {
        return Err(format!("{} connections still hold the runtime", Arc::strong_count(&rt) - 1));
    }
    Ok(())
}

fn hello_of() -> haproxy_spop::HaproxyHello {
    hello(&[haproxy_spop::Version::new(2, 0)], 16384, gen::CAPS)
}

pub fn c32(ctx: &mut Ctx) {
    ctx.rule = "a case handles many units of work of one kind, measures the live bytes of the process, handles many more, and measures again; items, services and runtimes are counted as well; non-trivial: every case, told apart by its seed".into();
    ctx.assumptions.push("a few kilobytes of slack for tables and channels that keep their capacity".into());
    let groups: [(&str, u64, u64, fn(&mut Case) -> R); 8] = [
        ("abandoned replies", 12, 200, leak_ackers),
        ("pairs", 16, 200, leak_raw),
        ("frames reassembled", 10, 150, leak_frames),
        ("dispatched notifications", 12, 200, leak_dispatch),
        ("frames", 6, 100, leak_codec),
        ("header blocks", 6, 100, leak_headers),
        ("one session", 6, 80, leak_session),
        ("sessions", 36, 480, leak_sessions),
    ];
    for (name, quick, thorough, f) in groups {
        let n = ctx.n(quick, thorough);
        ctx.cases(name, n, |c| {
            let key = c.rng.clone().next();
            c.nontrivial(key);
            f(c)
        });
    }
    let n = ctx.n(2, 30);
    ctx.cases("connections of an agent", n, |c| {
        let key = c.rng.clone().next();
        c.nontrivial(key);
        crate::p_multi::leak_agent(c)
    });
    ctx.require("pairs completed: rounds", 50_000);
    ctx.require("sessions ended: rounds", 2000);
}

// ---------------------------------------------------------------- C33

fn varint_one(n: u64) -> R {
    let mut want = vec![];
    wire::varint(&mut want, n);
    let mut v = vec![];
    let k = varint::put(&mut v, n);
    if v != want || k != v.len() {
        return Err(format!("{n} is written as {} ({k} bytes reported), expected {}", hex(&v), hex(&want)));
    }
    if varint::size_of(n) != v.len() {
        return Err(format!("the size of {n} is given as {}, it takes {} bytes", varint::size_of(n), v.len()));
    }
    let mut b = &v[..];
    match varint::get(&mut b) {
        Some(m) if m == n && b.is_empty() => (),
        x => return Err(format!("{n}, written as {}, is read as {x:?} with {} bytes left", hex(&v), b.len())),
    }
    for k in 0..v.len() {
        if let Some(m) = varint::get(&v[..k]) {
            return Err(format!("{n} cut to {} is read as {m}", hex(&v[..k])));
        }
    }
    Ok(())
}

/// What bytes mean: the number and how many there are of it, or nothing.
fn varint_model(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    if first < 240 {
        return Some((first as u64, 1));
    }
    let mut n = first as u128;
    for (i, x) in b[1..].iter().enumerate() {
        if i >= 9 {
            return None;
        }
        n += (*x as u128) << (4 + 7 * i);
        if *x < 128 {
            return u64::try_from(n).ok().map(|n| (n, i + 2));
        }
    }
    None
}

fn varint_bytes(c: &mut Case, b: &[u8], step: usize) -> R {
    let want = varint_model(b);
    let mut s = b;
    let got = varint::get(&mut s);
    let used = b.len() - s.len();
    if got != want.map(|w| w.0) || want.is_some_and(|w| w.1 != used) {
        return Err(format!("{} is read as {got:?} ({used} bytes), expected {want:?}", hex(b)));
    }
    let mut p = p_codec::Pieces::new(b, step, 7);
    let got = varint::get(&mut p);
    let used = b.len() - p.remaining();
    if got != want.map(|w| w.0) || want.is_some_and(|w| w.1 != used) {
        return Err(format!("{} in pieces of up to {step} is read as {got:?} ({used} bytes), expected {want:?}", hex(b)));
    }
    if let Some((n, k)) = want {
        c.count("byte strings that are a number", 1);
        let mut v = vec![];
        varint::put(&mut v, n);
        if v != b[..k] {
            return Err(format!("{} means {n}, which is written {}", hex(&b[..k]), hex(&v)));
        }
    } else {
        c.count("byte strings that are none", 1);
    }
    Ok(())
}

pub fn c33(ctx: &mut Ctx) {
    ctx.rule = "numbers (all around every boundary, and random ones of every length) are written, sized and read back, cut everywhere; byte strings (all of up to two bytes, and three in the thorough run) are read and compared with a 128-bit reference; non-trivial: distinct numbers and strings".into();
    ctx.cases("boundaries", 1, |c| {
        let mut edges: Vec<u64> = vec![0, 240, u64::MAX];
        let mut b = 240u64;
        for i in 0..9 {
            let Some(x) = 1u64.checked_shl(4 + 7 * (i + 1)).filter(|x| *x > 0) else { break };
            b = b.wrapping_add(x);
            edges.push(b);
        }
        for i in 0..64 {
            edges.push(1 << i);
            edges.push((1u64 << i).wrapping_mul(15));
            edges.push((1u64 << i).wrapping_mul(127));
        }
        for e in edges {
            for d in 0..1200u64 {
                for n in [e.wrapping_add(d), e.wrapping_sub(d)] {
                    varint_one(n)?;
                    c.count("numbers", 1);
                    if d < 3 {
                        c.nontrivial(n);
                    }
                }
            }
        }
        Ok(())
    });
    let n = ctx.n(200, 5000);
    ctx.cases("numbers", n, |c| {
        for _ in 0..1000 {
            let bits = c.rng.range(1, 64);
            let n = c.rng.next() >> (64 - bits);
            varint_one(n)?;
            c.nontrivial(n);
        }
        c.count("numbers", 1000);
        Ok(())
    });
    let n = ctx.n(200, 5000);
    ctx.cases("lists", n, |c| {
        // one after the other, read from pieces; written to memory of two parts
        let v: Vec<u64> = (0..c.rng.range(1, 60)).map(|_| if c.rng.chance(30) { c.rng.below(300) } else { gen::int(&mut c.rng) }).collect();
        let mut want = vec![];
        for n in &v {
            wire::varint(&mut want, *n);
        }
        let mut mem = vec![0u8; want.len()];
        let cut = c.rng.usize(want.len() + 1);
        {
            let (a, b) = mem.split_at_mut(cut);
            let mut out = a.chain_mut(b);
            let mut total = 0;
            for n in &v {
                total += varint::put(&mut out, *n);
            }
            if total != want.len() {
                return Err(format!("{total} bytes reported for {v:?}, expected {}", want.len()));
            }
        }
        if mem != want {
            return Err(format!("{v:?} is written in two parts of memory as {}, expected {}", hexc(&mem), hexc(&want)));
        }
        let step = 1 + c.rng.usize(5);
        let mut p = p_codec::Pieces::new(&want, step, c.rng.next());
        for n in &v {
            let got = varint::get(&mut p);
            if got != Some(*n) {
                return Err(format!("{v:?} in pieces: {n} is read as {got:?}"));
            }
        }
        if p.has_remaining() || varint::get(&mut p).is_some() {
            return Err("more was read than written".into());
        }
        c.count("numbers", v.len() as u64);
        c.nontrivial(hash_bytes(&want));
        Ok(())
    });
    let n = ctx.n(300, 10_000);
    ctx.cases("byte strings", n, |c| {
        for _ in 0..300 {
            let k = c.rng.usize(14);
            let hard = c.rng.below(4);
            let mut b: Vec<u8> = (0..k)
                .map(|_| match hard {
                    0 => c.rng.next() as u8,
                    1 => 0x80 | c.rng.next() as u8,
                    2 => *c.rng.pick(&[0xff, 0x80, 0xf0, 0x81, 0xfe]),
                    _ => 0xff,
                })
                .collect();
            if k > 0 {
                if c.rng.chance(80) {
                    b[0] |= 0xf0;
                }
                if c.rng.chance(70) {
                    b[k - 1] &= 0x7f >> c.rng.below(8);
                }
            }
            c.nontrivial(hash_bytes(&b));
            let step = 1 + c.rng.usize(4);
            varint_bytes(c, &b, step)?;
        }
        Ok(())
    });
    ctx.cases("all short strings", 256, |c| {
        let a = c.idx as u8;
        varint_bytes(c, &[a], 1)?;
        for b in 0..=255u8 {
            varint_bytes(c, &[a, b], 1)?;
            if a >= 0xf0 && b >= 0x80 && (c.thorough || (a == 0xff && b % 16 == 15)) {
                for d in 0..=255u8 {
                    varint_bytes(c, &[a, b, d], 2)?;
                }
            }
        }
        Ok(())
    });
    ctx.require("numbers", 300_000);
    ctx.require("byte strings that are a number", 10_000);
    ctx.require("byte strings that are none", 5_000);
}

// ---------------------------------------------------------------- C34

fn kind(f: &Frame) -> usize {
    match f {
        Frame::Unset => 0,
        Frame::HaproxyHello(_) => 1,
        Frame::HaproxyDisconnect(_) => 2,
        Frame::HaproxyNotify(_) => 3,
        Frame::AgentHello(_) => 4,
        Frame::AgentDisconnect(_) => 5,
        Frame::AgentAck(_) => 6,
    }
}

const CODES: [u8; 7] = [0, 1, 2, 3, 101, 102, 103];

fn kind_case(c: &mut Case, f: Frame) -> R {
    let k = kind(&f);
    let p = wire::payload(&f);
    let fail = |x: String| Err(format!("{x}: {}", clip(&format!("{f:?}"), 600)));
    if f.frame_type() as u8 != CODES[k] || u8::from(f.frame_type()) != p[0] {
        return fail(format!("its type is given as {}, on the wire it is {}", f.frame_type() as u8, p[0]));
    }
    let is = [
        f.is_unset(),
        f.is_haproxy_hello(),
        f.is_haproxy_disconnect(),
        f.is_haproxy_notify(),
        f.is_agent_hello(),
        f.is_agent_disconnect(),
        f.is_agent_ack(),
    ];
    for (i, x) in is.iter().enumerate() {
        if *x != (i == k) {
            return fail(format!("asked whether it is of type {}, it says {x}", CODES[i]));
        }
    }
    fn same<T, E>(f: &Frame, got: Result<T, E>, input: impl Fn(E) -> Frame, mine: bool, back: impl Fn(T) -> Frame) -> bool {
        match got {
            Ok(x) => mine && back(x) == *f,
            Err(e) => !mine && input(e) == *f,
        }
    }
    let un = [
        same(&f, f.clone().try_unwrap_unset(), |e| e.input, k == 0, |_| Frame::Unset),
        same(&f, f.clone().try_unwrap_haproxy_hello(), |e| e.input, k == 1, Frame::HaproxyHello),
        same(&f, f.clone().try_unwrap_haproxy_disconnect(), |e| e.input, k == 2, Frame::HaproxyDisconnect),
        same(&f, f.clone().try_unwrap_haproxy_notify(), |e| e.input, k == 3, Frame::HaproxyNotify),
        same(&f, f.clone().try_unwrap_agent_hello(), |e| e.input, k == 4, Frame::AgentHello),
        same(&f, f.clone().try_unwrap_agent_disconnect(), |e| e.input, k == 5, Frame::AgentDisconnect),
        same(&f, f.clone().try_unwrap_agent_ack(), |e| e.input, k == 6, Frame::AgentAck),
    ];
    if let Some(i) = un.iter().position(|x| !x) {
        return fail(format!("taking the contents of a frame of type {} out of it goes wrong", CODES[i]));
    }
    let m = f.metadata();
    if m.is_some() != (k == 3 || k == 6) {
        return fail(format!("metadata {m:?}"));
    }
    let Some(m) = m else {
        return Ok(());
    };
    let (frag, abort, sid, fid) = match &f {
        Frame::HaproxyNotify(n) => (n.fragmented, false, n.stream_id, n.frame_id),
        Frame::AgentAck(a) => (a.fragmented, a.aborted, a.stream_id, a.frame_id),
        _ => unreachable!(),
    };
    let flags = u32::from_be_bytes(p[1..5].try_into().unwrap());
    let size = 4 + wire::varint_len(sid) + wire::varint_len(fid);
    if m.fragmented() != frag || m.is_final() == frag || m.aborted() != abort || m.stream_id != sid || m.frame_id != fid || m.flags.bits() != flags {
        return fail(format!("metadata {m:?}, on the wire the flags are {flags}"));
    }
    if m.size() != size {
        return fail(format!("the size of its metadata is given as {}, on the wire it is {size}", m.size()));
    }
    let own = match &f {
        Frame::HaproxyNotify(n) => n.metadata(),
        Frame::AgentAck(a) => a.metadata(),
        _ => unreachable!(),
    };
    if own != m {
        return fail(format!("metadata {m:?}, its contents say {own:?}"));
    }
    c.count("metadata judged", 1);
    c.count("aborted fragments", (frag && abort) as u64);
    // and of the frame that is read
    if fid != 0 && p.len() <= 60_000 {
        let mut v = vec![];
        let n = drive(Framer::new(1 << 20).write_frame(&mut v, f.clone()))?;
        if n.is_err() {
            return Ok(());
        }
        let g = drive(Framer::new(1 << 20).read_frame(&v[..]))?.map_err(|e| format!("not read back: {e:?}"))?;
        if g.metadata().as_ref() != Some(&m) || g.frame_type() as u8 != CODES[k] {
            return fail(format!("read back with metadata {:?}", g.metadata()));
        }
    }
    Ok(())
}

pub fn c34(ctx: &mut Ctx) {
    ctx.rule = "every question a frame answers about itself is compared with its independently encoded bytes; non-trivial: distinct frames".into();
    let n = ctx.n(20_000, 500_000);
    ctx.cases("frames", n, |c| {
        let f = match c.rng.below(10) {
            0 => Frame::Unset,
            1..=4 => Frame::AgentAck(AgentAck {
                fragmented: c.rng.chance(50),
                aborted: c.rng.chance(50),
                stream_id: gen::int(&mut c.rng),
                frame_id: gen::int(&mut c.rng),
                actions: (0..c.rng.below(3)).map(|_| gen::small_action(&mut c.rng)).collect(),
            }),
            5 | 6 => Frame::HaproxyNotify(HaproxyNotify {
                fragmented: c.rng.chance(50),
                stream_id: gen::int(&mut c.rng),
                frame_id: gen::int(&mut c.rng),
                messages: (0..c.rng.below(3)).map(|i| gen::small_message(&mut c.rng, i)).collect(),
            }),
            _ => gen::frame(&mut c.rng),
        };
        c.nontrivial(hash_bytes(&wire::payload(&f)));
        c.count(&format!("frames of type {}", CODES[kind(&f)]), 1);
        kind_case(c, f)
    });
    ctx.require("metadata judged", 5000);
    ctx.require("aborted fragments", 500);
}

// ---------------------------------------------------------------- C35

use haproxy_spoa::Error as AgentError;

fn wrap(source: Box<dyn std::error::Error + Send + Sync>, text: String, leak: bool) -> AgentError {
    if leak {
        const TEXTS: [&str; 3] = ["", "expected something", "what, happened?"];
        let t: &'static str = TEXTS[text.len() % 3];
        AgentError::Context { source, context: Box::new(t) }
    } else {
        AgentError::Context { source, context: Box::new(text) }
    }
}

pub fn error_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let st = r.pick(wire::STATUS_TABLE).0;
    let depth = *r.pick(&[0u64, 0, 1, 1, 2, 3, 4, 8, 30]);
    // (error, its status, its text, what the peer should be told)
    let (mut e, status, mut text): (AgentError, Option<Status>, String) = match r.below(7) {
        0 | 1 => (AgentError::Status(st), Some(st), st.to_string()),
        2 => {
            let e: AgentError = st.into();
            (e, Some(st), st.to_string())
        }
        3 => {
            let t = gen::text(r, 40);
            (AgentError::Io(std::io::Error::new(std::io::ErrorKind::Other, t.clone())), None, t)
        }
        4 => (AgentError::Closed, None, "closed".into()),
        5 => {
            let x = std::str::from_utf8(&[0x66, 0xff]).unwrap_err();
            let t = x.to_string();
            (AgentError::Utf8(x), None, t)
        }
        _ => {
            let x = http::HeaderName::from_bytes(b"a b").unwrap_err();
            let t = x.to_string();
            (AgentError::InvalidHeaderName(x), None, t)
        }
    };
    let bare = matches!(&e, AgentError::Status(_)) && r.chance(40);
    let mut outer = None;
    for i in 0..depth {
        let source: Box<dyn std::error::Error + Send + Sync> = if i == 0 && bare {
            Box::new(st)
        } else if i == 0 && status.is_none() && r.chance(30) {
            let t = gen::text(r, 30);
            text = t.clone();
            Box::new(SvcError(t))
        } else {
            Box::new(e)
        };
        let t = gen::text(r, 60);
        e = wrap(source, t, r.chance(30));
        let AgentError::Context { context, .. } = &e else { unreachable!() };
        let t = context.to_string();
        text = format!("{t}, {text}");
        outer = Some(t);
    }
    let shown = format!("{e:?}");
    let fail = |x: String| Err(format!("{x}: {}", clip(&shown, 800)));
    if e.to_string() != text {
        return fail(format!("its text is {:?}, expected {text:?}", e.to_string()));
    }
    if e.status() != status {
        return fail(format!("its status is given as {:?}, expected {status:?}", e.status()));
    }
    let d = Disconnect::from(e);
    let code = |s: Status| wire::STATUS_TABLE.iter().find(|x| x.0 == s).unwrap().1;
    let want = match (status, outer) {
        (Some(s), Some(t)) => Disconnect { status_code: code(s), message: t },
        (Some(s), None) => Disconnect { status_code: code(s), message: s.to_string() },
        (None, _) => Disconnect { status_code: 99, message: text },
    };
    if d != want {
        return fail(format!("the peer is told {d:?}, expected {want:?}"));
    }
    c.count("errors with a status", status.is_some() as u64);
    c.count("errors without one", status.is_none() as u64);
    c.max("layers of context", depth);
    c.nontrivial(hash_bytes(shown.as_bytes()));
    c.sample(6, || format!("{} => {d:?}", clip(&shown, 300)));
    Ok(())
}

/// The disconnect a connection is told to send.
pub fn disconnect_case(c: &mut Case) -> R {
    let r = &mut c.rng;
    let st = r.pick(wire::STATUS_TABLE).0;
    let text = gen::text(r, 300);
    let max = *r.pick(&[64usize, 256, 16384, 100_000]);
    let s = stream(r);
    let vrt = virtual_rt();
    let rt = Cfg { max: Some(max), ..Cfg::default() }.build(&Log::default(), Behave::default(), r);
    let d = Disconnect { status_code: wire::STATUS_TABLE.iter().find(|x| x.0 == st).unwrap().1, message: text.clone() };
    let want = wire::wire(&Frame::AgentDisconnect(d));
    let mut conn = Connection::new(rt, Io(s.clone()), CancellationToken::new());
    let res = vrt.block_on(async { timeout(HOUR, conn.disconnect(st, text.as_str())).await });
    let Ok(res) = res else { return Err("sending a disconnect does not end".into()) };
    let sent = s.sent();
    let fits = want.len() - 4 <= max;
    if fits && (res.is_err() || sent != want) {
        return Err(format!("told to disconnect with {st:?} and {text:?}, it sends {} ({res:?}), expected {}", hexc(&sent), hexc(&want)));
    }
    if !fits && (res.as_ref().err().and_then(|e| e.status()) != Some(Status::TooBig) || !sent.is_empty()) {
        return Err(format!("a disconnect that does not fit: {res:?}, {} bytes sent", sent.len()));
    }
    c.count(if fits { "disconnects sent" } else { "disconnects that do not fit" }, 1);
    c.nontrivial(hash_bytes(&want) ^ mix(max as u64));
    Ok(())
}

pub fn c35(ctx: &mut Ctx) {
    ctx.rule = "errors built of every kind and under any number of layers are turned into a disconnect; connections are told to disconnect; non-trivial: distinct errors and disconnects".into();
    let n = ctx.n(20_000, 500_000);
    ctx.cases("errors", n, error_case);
    let n = ctx.n(3000, 60_000);
    ctx.cases("disconnects", n, disconnect_case);
    ctx.require("errors with a status", 2000);
    ctx.require("errors without one", 2000);
    ctx.require("disconnects sent", 1000);
    ctx.require("disconnects that do not fit", 100);
}

// ---------------------------------------------------------------- C36

/// Formats whatever it is told.
struct Listener {
    next: AtomicU64,
    said: Arc<AtomicU64>,
    bytes: Arc<AtomicU64>,
}

struct Formatter(u64, u64);

impl tracing::field::Visit for Formatter {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn Debug) {
        self.0 += 1;
        self.1 += format!("{field}={value:?} {value:#?}").len() as u64;
    }
}

impl Listener {
    fn note(&self, v: Formatter) {
        self.said.fetch_add(1, SeqCst);
        self.bytes.fetch_add(v.1, SeqCst);
    }
}

impl tracing::Subscriber for Listener {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut v = Formatter(0, 0);
        a.record(&mut v);
        self.note(v);
        tracing::span::Id::from_u64(self.next.fetch_add(1, SeqCst) + 1)
    }
    fn record(&self, _: &tracing::span::Id, x: &tracing::span::Record<'_>) {
        let mut v = Formatter(0, 0);
        x.record(&mut v);
        self.note(v);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut v = Formatter(0, 0);
        e.record(&mut v);
        self.note(v);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn logged<T>(c: &mut Case, f: impl FnOnce() -> T) -> T {
    let (said, bytes) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let l = Listener { next: AtomicU64::new(0), said: said.clone(), bytes: bytes.clone() };
    let x = tracing::subscriber::with_default(l, f);
    c.count("log records formatted", said.load(SeqCst));
    c.count("bytes of log text", bytes.load(SeqCst));
    x
}

pub fn log_codec(c: &mut Case) -> R {
    let (b, what): (Vec<u8>, &str) = match c.rng.below(4) {
        0 => (wire::framed(&p_codec::hostile(&mut c.rng)), "hostile"),
        1 => (wire::wire(&gen::frame(&mut c.rng)), "valid"),
        2 => {
            let n = c.rng.usize(40);
            (wire::framed(&c.rng.bytes(n)), "random")
        }
        _ => {
            let mut b = wire::wire(&gen::frame(&mut c.rng));
            let n = c.rng.usize(b.len() + 1);
            b.truncate(n);
            (b, "cut")
        }
    };
    let max = *c.rng.pick(&[0usize, 10, 1000, 16384, 1 << 20]);
    let codec = c.rng.chance(50);
    let seed = c.rng.fork();
    let go = || {
        let s = Stream::new(b.clone(), End::Eof, seed.clone()).rough();
        let r = drive(async {
            if codec {
                Codec::buffered(Io(s.clone()), Framer::new(max)).read_frame().await
            } else {
                Framer::new(max).read_frame(Io(s.clone())).await
            }
        });
        (format!("{r:?}"), if codec { 0 } else { s.consumed() })
    };
    let plain = go();
    let with = logged(c, go);
    if plain != with {
        return Err(format!("{what} {} is read as {} ({} bytes), with logging as {} ({} bytes)", hexc(&b), clip(&plain.0, 400), plain.1, clip(&with.0, 400), with.1));
    }
    let f = gen::frame(&mut c.rng);
    let seed = c.rng.fork();
    let go = || {
        let s = Stream::new(vec![], End::Eof, seed.clone()).rough();
        let r = drive(async {
            if codec {
                Codec::new(Io(s.clone()), Framer::new(max)).write_frame(f.clone()).await
            } else {
                Framer::new(max).write_frame(Io(s.clone()), f.clone()).await
            }
        });
        (format!("{r:?}"), s.sent())
    };
    let plain = go();
    let with = logged(c, go);
    if plain != with {
        return Err(format!("{} is written as {} {}, with logging as {} {}", clip(&format!("{f:?}"), 300), plain.0, hexc(&plain.1), with.0, hexc(&with.1)));
    }
    c.nontrivial(hash_bytes(&b) ^ hash_bytes(&plain.1));
    c.count("frames read and written with and without a log", 2);
    Ok(())
}

pub fn log_session(c: &mut Case) -> R {
    let s = crate::p_conn::any_session(&mut c.rng);
    let (g, inputs, make, acts) = s;
    let e = model(&g, &inputs, &make, &acts);
    let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
    let steps = deliver(&bytes, &mut c.rng);
    let seed = c.rng.fork();
    let r0 = c.rng.fork();
    let go = || {
        let behave = Behave {
            make: {
                let make = make.clone();
                Arc::new(move |_| (Ready::Now, make.clone()))
            },
            call: by_call(acts.clone()),
            ..Behave::default()
        };
        let s = stream(&mut seed.clone());
        let plan = Plan { steps: steps.clone(), horizon: HOUR };
        alone(&g, behave, s, plan, &mut r0.clone())
    };
    let (plain, l0) = go();
    let (with, l1) = logged(c, go);
    let fail = |x: String| format!("{x}\nagent: {g:?}\ninputs: {}", list(&inputs));
    check_all(&e, &with, &l1).map_err(|x| fail(format!("with logging: {x}")))?;
    // the capabilities of an agent's hello have no order
    let told = |s: &Seen| -> Vec<(Duration, Vec<u8>)> { s.frames.iter().map(|(t, p)| (*t, if p[0] == 101 { vec![] } else { p.clone() })).collect() };
    if told(&plain) != told(&with) || plain.closed != with.closed || plain.result.is_some() != with.result.is_some() {
        return Err(fail(format!(
            "{} frames, closed {:?}, with logging {} frames, closed {:?}",
            plain.frames.len(),
            plain.closed,
            with.frames.len(),
            with.closed
        )));
    }
    if l0.calls() != l1.calls() {
        return Err(fail("other calls are made with logging".into()));
    }
    c.count("sessions with and without a log", 1);
    c.nontrivial(hash_bytes(&bytes.concat()));
    Ok(())
}

/// A monitor of another property, while everything logged on its thread is formatted.
fn under_log(f: fn(&mut Case) -> R) -> impl FnMut(&mut Case) -> R {
    move |c| {
        let (said, bytes) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        let l = Listener { next: AtomicU64::new(0), said: said.clone(), bytes: bytes.clone() };
        let r = tracing::subscriber::with_default(l, || f(c));
        c.count("log records formatted", said.load(SeqCst));
        c.count("bytes of log text", bytes.load(SeqCst));
        r.map_err(|x| format!("with logging: {x}"))
    }
}

pub fn c36(ctx: &mut Ctx) {
    ctx.rule = "the same frames and sessions with and without a subscriber that formats every field of every record; results, bytes, calls and times compared; non-trivial: distinct inputs".into();
    let n = ctx.n(2500, 60_000);
    ctx.cases("frames", n, log_codec);
    let n = ctx.n(1200, 30_000);
    ctx.cases("sessions", n, log_session);
    ctx.require("sessions with and without a log", 500);
    let groups: [(&str, fn(&mut Case) -> R, u64); 11] = [
        ("shared runtime under a log", crate::p_agent::shared, 150),
        ("agents under a log", crate::p_agent::tcp_neighbours, 4),
        ("stopping connections under a log", crate::p_agent::shutdown_one, 150),
        ("stopping agents under a log", crate::p_agent::shutdown_agent, 6),
        ("exhausted agents under a log", |c| crate::p_agent::exhausted(c, 60), 2),
        ("dispatching under a log", crate::p_reasm::dispatch_history, 200),
        ("waking under a log", crate::p_reasm::wake_case, 200),
        ("acknowledging under a log", crate::p_reasm::acker_case, 200),
        ("handling under a log", handler_case, 200),
        ("disconnects under a log", disconnect_case, 200),
        ("flow under a log", duplex, 30),
    ];
    for (name, f, n) in groups {
        let n = ctx.n(n, n * 20);
        ctx.cases(name, n, under_log(f));
    }
}

// ---------------------------------------------------------------- C37

pub fn handler_case(c: &mut Case) -> R {
    let notify = c.rng.chance(50);
    let mut rn: Reassembly<Message> = Reassembly::default();
    let mut ra: Reassembly<Action> = Reassembly::default();
    let ks: Vec<(u64, u64)> = {
        let mut k = crate::p_reasm::keys(&mut c.rng);
        k.truncate(4);
        k
    };
    let mut open_n: HashMap<(u64, u64), Vec<Message>> = HashMap::new();
    let mut open_a: HashMap<(u64, u64), Vec<Action>> = HashMap::new();
    let mut h = 0;
    for step in 0..c.rng.range(3, 60) {
        let r = &mut c.rng;
        let k = *r.pick(&ks);
        let fragmented = r.chance(60);
        let f = match r.below(12) {
            0..=3 => Frame::HaproxyNotify(HaproxyNotify {
                fragmented,
                stream_id: k.0,
                frame_id: k.1,
                messages: (0..r.below(4)).map(|i| gen::small_message(r, i + step * 10)).collect(),
            }),
            4..=7 => Frame::AgentAck(AgentAck {
                fragmented,
                aborted: r.chance(30),
                stream_id: k.0,
                frame_id: k.1,
                actions: (0..r.below(4)).map(|_| gen::small_action(r)).collect(),
            }),
            8 => Frame::HaproxyDisconnect(gen::disconnect(r)),
            9 => Frame::AgentDisconnect(gen::disconnect(r)),
            10 => {
                if r.chance(50) {
                    Frame::Unset
                } else {
                    Frame::HaproxyHello(gen::hello(r))
                }
            }
            _ => Frame::AgentHello(haproxy_spop::AgentHello {
                version: gen::version(r),
                max_frame_size: gen::size(r),
                capabilities: gen::caps(r),
            }),
        };
        h = mix(h ^ hash_bytes(&wire::payload(&f)));
        let shown = clip(&format!("{f:?}"), 300);
        // as the frame says, or called directly with the same contents
        if notify {
            let want = match &f {
                Frame::HaproxyNotify(n) => {
                    open_n.entry(k).or_default().extend(n.messages.clone());
                    Ok(if n.fragmented { None } else { open_n.remove(&k) })
                }
                Frame::HaproxyDisconnect(_) => Err(Status::Normal),
                _ => Err(Status::Invalid),
            };
            let got = match f {
                Frame::HaproxyNotify(n) if c.rng.chance(25) => rn.reassemble(n.fragmented, k.0, k.1, n.messages),
                f => drive(rn.handle_frame(f))?,
            };
            if got != want {
                return Err(format!("step {step}: {shown} is answered by {}, expected {}", clip(&format!("{got:?}"), 400), clip(&format!("{want:?}"), 400)));
            }
            c.count("completed by a frame", matches!(want, Ok(Some(_))) as u64);
            c.count("refused", want.is_err() as u64);
        } else {
            let want = match &f {
                Frame::AgentAck(n) => {
                    open_a.entry(k).or_default().extend(n.actions.clone());
                    Ok(if n.fragmented { None } else { open_a.remove(&k) })
                }
                Frame::AgentDisconnect(_) => Err(Status::Normal),
                _ => Err(Status::Invalid),
            };
            let got = match f {
                Frame::AgentAck(n) if c.rng.chance(25) => ra.reassemble(n.fragmented, k.0, k.1, n.actions),
                f => drive(ra.handle_frame(f))?,
            };
            if got != want {
                return Err(format!("step {step}: {shown} is answered by {}, expected {}", clip(&format!("{got:?}"), 400), clip(&format!("{want:?}"), 400)));
            }
            c.count("completed by a frame", matches!(want, Ok(Some(_))) as u64);
            c.count("refused", want.is_err() as u64);
        }
        c.count("frames handled", 1);
    }
    c.nontrivial(h);
    Ok(())
}

pub fn c37(ctx: &mut Ctx) {
    ctx.rule = "histories of frames of all kinds given to a reassembler of messages or of actions, beside a model; non-trivial: distinct histories".into();
    let n = ctx.n(6000, 200_000);
    ctx.cases("histories", n, handler_case);
    ctx.require("completed by a frame", 10_000);
    ctx.require("refused", 10_000);
}

// ---------------------------------------------------------------- C39

/// A peer that sends without end while a call is unfinished, or without reading.
fn flood(c: &mut Case) -> R {
    let r = &mut c.rng;
    let max = *r.pick(&[256usize, 1000, 16384, 16384, 65536, 200_000]);
    let g = Cfg { max: Some(max), caps: gen::CAPS.to_vec(), limit: Some(HOUR * 1000), state: 1, ..Cfg::default() };
    let before = r.usize(6);
    let stalled = r.chance(50);
    let hi = plain_hello(u32::MAX, if r.chance(50) { gen::CAPS } else { &[] });
    // (bytes, whether it completes a notification)
    let mut all = hi.bytes();
    let mut ends = vec![all.len()];
    let total = 1_000_000 + 4 * max;
    let fill = *r.pick(&[10usize, max / 2, max - 40, max - 40]);
    let mut n = 0u64;
    let mut want = vec![];
    while all.len() < total {
        let t = Typed::String("x".repeat(r.usize(fill.min(max - 60) + 1)));
        let m = Message { name: "m".into(), args: vec![("t".into(), t), ("n".into(), Typed::Uint64(n))] };
        let p = wire::notify_frame(wire::FIN, n, 1, std::slice::from_ref(&m));
        if p.len() > max {
            continue;
        }
        all.extend(wire::framed(&p));
        ends.push(all.len());
        want.push(m);
        n += 1;
    }
    let gate = Arc::new(Semaphore::new(0));
    let g2 = gate.clone();
    let answer = r.below(3);
    let reply = move |i: usize| -> Vec<Action> { (0..answer).map(|k| Action::SetVar { scope: Scope::Request, name: format!("a{k}"), value: Typed::Uint64(i as u64) }).collect() };
    let busy = before.min(want.len() - 1);
    let reply2 = reply.clone();
    let behave = Behave {
        call: Arc::new(move |_, i, _| if !stalled && i == busy { Act::Gate(g2.clone(), reply2(i)) } else { Act::Reply(reply2(i)) }),
        ..Behave::default()
    };
    // what the peer reads before it stops
    let hello_len = wire::wire(&Frame::AgentHello(negotiate(&g, &match wire::decode(&hi.bytes()[4..]) {
        wire::Verdict::Frame(Frame::HaproxyHello(h)) => h,
        _ => unreachable!(),
    })
    .unwrap()))
    .len();
    let ack = |i: usize| 4 + ack_len(i as u64, 1, &reply(i));
    let mut out = hello_len;
    for i in 0..busy {
        out += ack(i);
    }
    let stall = out + r.usize(ack(busy));
    let s = Stream::new(vec![], End::Open, r.fork());
    let s = if r.chance(30) { s.with(|w| w.pending_pct = 10) } else { s };
    if stalled {
        s.0.lock().unwrap().stall_write_at = Some(stall);
    }
    let log = Log::default();
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let split = r.chance(50);
    let pause = MS * *r.pick(&[0u32, 1, 1000, 100_000]);
    let res: R = vrt.block_on(async {
        let (rt2, s2, tok) = (rt.clone(), s.clone(), CancellationToken::new());
        let t2 = tok.clone();
        s.feed(&all[..ends[0]]);
        if split {
            s.feed(&all[ends[0]..ends[busy + 1]]);
        }
        let serve = tokio::spawn(async move { Connection::new(rt2, Io(s2), t2).serve().await.is_ok() });
        sleep(MS * 10).await;
        let rest = all[if split { ends[busy + 1] } else { ends[0] }..].to_vec();
        s.feed(&rest);
        sleep(MS * 10 + pause).await;
        // what was taken while nothing more could be done
        let taken = s.consumed();
        let bound = ends[busy + 1] + max + (256 << 10);
        if taken > bound {
            return Err(format!(
                "{taken} bytes were taken from the peer while the notification that ends at byte {} is {}; frames are up to {max} bytes",
                ends[busy + 1],
                if stalled { "not yet acknowledged, as the peer does not read" } else { "being processed" }
            ));
        }
        let calls = log.calls().len();
        if calls > busy + 1 {
            return Err(format!("{calls} calls were made, although the {}th is {}", busy + 1, if stalled { "unanswered as the peer does not read" } else { "unfinished" }));
        }
        if calls != busy + 1 {
            return Err(format!("{calls} calls were made, expected {}", busy + 1));
        }
        // then it goes on
        gate.add_permits(1);
        s.unstall();
        let k = want.len() + 1;
        if timeout(HOUR, s.wait_frames(k)).await.is_err() {
            return Err(format!("only {} of {} frames were answered once the {} was over", wire::split(&s.sent()).0.len(), k, if stalled { "stall" } else { "call" }));
        }
        s.end(End::Eof);
        let _ = timeout(HOUR, serve).await;
        Ok(())
    });
    res.map_err(|e| format!("{e}\nagent: {g:?}; {} notifications of up to {fill} bytes", want.len()))?;
    let calls = log.calls();
    if calls.len() != want.len() || calls.iter().zip(&want).any(|(a, b)| a.1 != [b.clone()]) {
        return Err(format!("{} of {} notifications were processed, or others", calls.len(), want.len()));
    }
    let sent = s.sent();
    let (frames, _) = wire::split(&sent);
    for (i, f) in frames.iter().skip(1).enumerate() {
        match_out(f, &Out::Ack { sid: i as u64, fid: 1, actions: reply(i) })?;
    }
    c.count("notifications held back, then answered", (want.len() - busy) as u64);
    c.count(if stalled { "peers that did not read" } else { "unfinished calls" }, 1);
    c.max("bytes sent against one busy connection", all.len() as u64);
    c.nontrivial(hash_bytes(&all[..ends[busy + 1]]) ^ mix(stall as u64));
    Ok(())
}

pub fn c39(ctx: &mut Ctx) {
    ctx.rule = "a case keeps one call unfinished, or stops reading at a byte of the output, while hundreds of kilobytes are sent, looks at what was taken and held, then goes on and checks every answer; non-trivial: distinct sessions and places".into();
    let n = ctx.n(100, 4000);
    ctx.cases("floods", n, flood);
    ctx.require("peers that did not read", 30);
    ctx.require("unfinished calls", 30);
}

// ---------------------------------------------------------------- C40

pub fn orphan(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let ds = [d.clone(), d];
    let mut p = Some(Processor(rx));
    let ids = Ids::new(&mut c.rng);
    let mut r = c.rng.fork();
    let note = |r: &mut Rng, k: (u64, u64), fragmented: bool| HaproxyNotify {
        fragmented,
        stream_id: k.0,
        frame_id: k.1,
        messages: (0..r.below(4)).map(|i| gen::small_message(r, i)).collect(),
    };
    // some before the processor goes
    let early = r.below(6);
    let mut open = vec![];
    let mut acks = vec![];
    let mut works = vec![];
    for i in 0..early {
        let frag = r.chance(60);
        let n = note(&mut r, ids.at(i), frag);
        if frag {
            open.push((ids.at(i), n.messages.clone()));
        }
        let a = r.pick(&ds).recieve_messages(n).map_err(|e| format!("fails although the processor is there: {e}"))?;
        acks.push(a.ok_or("no acknowledgement for a first fragment")?);
        if frag {
        }
        let w = drive(p.as_mut().unwrap().next())?.ok_or("no work")?;
        if frag {
            works.push(w);
        }
    }
    drop(p.take());
    // the work taken before goes on
    for ((k, mut msgs), (acker, mut stream)) in open.into_iter().zip(works) {
        let n = note(&mut r, k, false);
        msgs.extend(n.messages.clone());
        if r.pick(&ds).recieve_messages(n).map_err(|e| format!("work taken before the processor went fails: {e}"))?.is_some() {
            return Err("a later fragment got an acknowledgement of its own".into());
        }
        let mut got = vec![];
        while let Some(m) = drive(stream.next())? {
            got.push(m);
        }
        if got != msgs {
            return Err(format!("work taken before the processor went got {got:?}, expected {msgs:?}"));
        }
        drop(acker);
        c.count("work that outlived the processor", 1);
    }
    // everything else fails, every time
    let ids = Ids::new(&mut r);
    let pairs: Vec<(u64, u64)> = (0..4).map(|i| ids.at(1000 + i)).collect();
    let mut log = vec![];
    for _ in 0..r.range(1, 20) {
        let k = *r.pick(&pairs);
        let frag = r.chance(60);
        log.push((k, frag));
        match r.pick(&ds).recieve_messages(note(&mut r, k, frag)) {
            Err(_) => c.count("refusals without a processor", 1),
            Ok(x) => {
                return Err(format!(
                    "dispatching without a processor succeeds ({}) for the last of {log:?} (pair, fragmented)",
                    if x.is_some() { "with an acknowledgement to wait for" } else { "without one" }
                ))
            }
        }
    }
    c.nontrivial(hash_bytes(format!("{early}{log:?}").as_bytes()));
    Ok(())
}

fn orphan_memory(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    drop(rx);
    let ids = Ids::new(&mut c.rng);
    let key = c.rng.clone().next();
    c.nontrivial(key);
    steady(c, "notifications refused", 8192, 2000, 6000, |r, i| {
        let k = ids.at(i);
        let _ = d.recieve_messages(HaproxyNotify {
            fragmented: r.chance(70),
            stream_id: k.0,
            frame_id: k.1,
            messages: (0..r.below(4)).map(|i| gen::small_message(r, i)).collect(),
        });
        Ok(())
    })
}

pub fn c40(ctx: &mut Ctx) {
    ctx.rule = "histories of notifications given to a dispatcher before and after its processor is gone; non-trivial: distinct histories".into();
    let n = ctx.n(5000, 200_000);
    ctx.cases("histories", n, orphan);
    let n = ctx.n(4, 60);
    ctx.cases("memory", n, orphan_memory);
    ctx.require("refusals without a processor", 10_000);
    ctx.require("work that outlived the processor", 2000);
}

// ---------------------------------------------------------------- C41

enum Any {
    Plain(Codec<Io>),
    Buffered(BufCodec<Io>),
}

pub fn duplex(c: &mut Case) -> R {
    let r = &mut c.rng;
    let s = stream(r);
    let mut max = *r.pick(&[100usize, 1000, 16384]);
    let mut codec = if r.chance(50) { Any::Plain(Codec::new(Io(s.clone()), Framer::new(max))) } else { Any::Buffered(Codec::buffered(Io(s.clone()), Framer::new(max))) };
    let mut fed: std::collections::VecDeque<Frame> = Default::default();
    let mut out = vec![];
    let mut log: Vec<String> = vec![];
    let steps = r.range(5, 60);
    for _ in 0..steps {
        match r.below(10) {
            // ahead of what is read
            0..=2 => {
                for _ in 0..r.range(1, 4) {
                    let f = if r.chance(30) { gen::frame(r) } else { p_codec::small_frame(r) };
                    let p = wire::payload(&f);
                    if p.len() > 30_000 || !matches!(wire::decode(&p), wire::Verdict::Frame(g) if g == f) {
                        continue;
                    }
                    s.feed(&wire::framed(&p));
                    log.push(format!("peer sends {}", p.len()));
                    fed.push_back(f);
                }
            }
            3..=5 => {
                let Some(f) = fed.front() else { continue };
                if wire::payload(f).len() > max {
                    continue; // waits for a larger limit
                }
                let f = fed.pop_front().unwrap();
                let got = match &mut codec {
                    Any::Plain(k) => drive(k.read_frame())?,
                    Any::Buffered(k) => drive(k.read_frame())?,
                };
                log.push(format!("read {}", wire::payload(&f).len()));
                if got.as_ref() != Ok(&f) {
                    return Err(format!("{} is read instead of {}; {log:?}", clip(&format!("{got:?}"), 300), clip(&format!("{f:?}"), 300)));
                }
                c.stats.count("frames read", 1);
            }
            6..=8 => {
                let f = if r.chance(30) { gen::frame(r) } else { p_codec::small_frame(r) };
                let w = wire::wire(&f);
                let args = matches!(&f, Frame::HaproxyNotify(n) if n.messages.iter().any(|m| m.args.len() > 255));
                let fits = w.len() - 4 <= max && !args;
                let before = s.sent().len();
                let got = match &mut codec {
                    Any::Plain(k) => drive(k.write_frame(f))?,
                    Any::Buffered(k) => drive(k.write_frame(f))?,
                };
                log.push(format!("write {} with at most {max}: {got:?}", w.len() - 4));
                if fits {
                    out.extend_from_slice(&w);
                    if got != Ok(w.len()) || s.sent().len() != out.len() {
                        return Err(format!("a frame of {} bytes is written with {got:?}, {} bytes sent; {log:?}", w.len(), s.sent().len() - before));
                    }
                    c.stats.count("frames written", 1);
                } else {
                    if got != Err(Status::TooBig) || s.sent().len() != before {
                        return Err(format!("a frame that does not fit is written with {got:?}, {} bytes sent; {log:?}", s.sent().len() - before));
                    }
                    c.stats.count("frames that do not fit", 1);
                }
            }
            _ => {
                max = match r.below(5) {
                    4 => *r.pick(&[0, 0, 1, 4, 7, 8, 12]),
                    0 => 1 << 20,
                    1 => r.range(20, 200) as usize,
                    2 => fed.front().map(|f| wire::payload(f).len()).unwrap_or(50),
                    _ => r.range(20, 20_000) as usize,
                };
                match &mut codec {
                    Any::Plain(k) => k.set_max_frame_size(max),
                    Any::Buffered(k) => k.set_max_frame_size(max),
                }
                log.push(format!("at most {max}"));
                c.stats.count("changes of the limit", 1);
            }
        }
    }
    // the rest, then one that is too long by one byte
    match &mut codec {
        Any::Plain(k) => k.set_max_frame_size(1 << 20),
        Any::Buffered(k) => k.set_max_frame_size(1 << 20),
    }
    while let Some(f) = fed.pop_front() {
        let got = match &mut codec {
            Any::Plain(k) => drive(k.read_frame())?,
            Any::Buffered(k) => drive(k.read_frame())?,
        };
        if got.as_ref() != Ok(&f) {
            return Err(format!("at the end {} is read instead of {}; {log:?}", clip(&format!("{got:?}"), 300), clip(&format!("{f:?}"), 300)));
        }
        c.stats.count("frames read", 1);
    }
    if s.sent() != out {
        return Err("other bytes were sent than the frames written".into());
    }
    let f = p_codec::small_frame(r);
    let n = wire::payload(&f).len();
    s.feed(&wire::wire(&f));
    let less = if r.chance(70) { n - 1 } else { r.usize(n) };
    match &mut codec {
        Any::Plain(k) => k.set_max_frame_size(less),
        Any::Buffered(k) => k.set_max_frame_size(less),
    }
    let got = match &mut codec {
        Any::Plain(k) => drive(k.read_frame())?,
        Any::Buffered(k) => drive(k.read_frame())?,
    };
    if got != Err(Status::BadFrameSize) {
        return Err(format!("a frame of {n} bytes is read with a limit of {less}: {got:?}"));
    }
    c.nontrivial(hash_bytes(format!("{log:?}").as_bytes()));
    Ok(())
}

pub fn c41(ctx: &mut Ctx) {
    ctx.rule = "histories of reads, writes and limits on one codec whose peer sends ahead; non-trivial: distinct histories".into();
    let n = ctx.n(4000, 120_000);
    ctx.cases("histories", n, duplex);
    ctx.require("frames read", 5000);
    ctx.require("frames written", 5000);
    ctx.require("changes of the limit", 3000);
    ctx.require("frames that do not fit", 1000);
}
