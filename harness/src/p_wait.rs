//! C42, C43: what waiting costs, and what serving a connection returns.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use futures::StreamExt;
use haproxy_spoa::runtime::{Dispatcher, Processor};
use haproxy_spoa::Connection;
use haproxy_spop::{Codec, Error as Status, Framer, HaproxyNotify, Message, Scope};
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::Semaphore;
use tokio::time::{sleep, timeout, Instant};
use tokio_util::sync::CancellationToken;

use crate::core::*;
use crate::gen;
use crate::mon::*;
use crate::p_agent;
use crate::p_codec;
use crate::p_conn;
use crate::session::*;
use crate::sim::*;
use crate::wire;

const MS: Duration = Duration::from_millis(1);
const MINUTE: Duration = Duration::from_secs(60);

// ---------------------------------------------------------------- C42

/// Counts how often a task runs. One that runs without end is stopped, so that time can go on.
struct Watched<F> {
    f: Pin<Box<F>>,
    runs: Arc<AtomicU64>,
    most: u64,
}

impl<F: Future> Future for Watched<F> {
    type Output = F::Output;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        if self.runs.fetch_add(1, SeqCst) > self.most {
            return Poll::Pending;
        }
        self.f.as_mut().poll(cx)
    }
}

/// One connection that waits for long, at every point where it can.
fn waiting_connection(c: &mut Case) -> R {
    let r = &mut c.rng;
    let far = Duration::from_secs(3600 * 24 * 365);
    let g = Cfg { caps: gen::CAPS.to_vec(), state: r.next(), limit: Some(far * 2), ..Cfg::default() };
    let mut inputs = vec![plain_hello(16384, gen::CAPS)];
    let mut acts = vec![];
    let mut readies = vec![];
    let long = |r: &mut Rng| match r.below(4) {
        0 => Duration::ZERO,
        1 => MS * r.range(1, 10_000) as u32,
        _ => MINUTE * r.range(10, 6000) as u32,
    };
    let k = r.usize(5);
    for i in 0..k as u64 {
        let (sid, fid) = (gen::int(r), gen::fid(r));
        for _ in 0..r.below(3) {
            if r.chance(40) {
                inputs.push(Inp::notify(true, sid, fid, &[gen::small_message(r, i)]));
            }
        }
        inputs.push(Inp::notify(false, sid, fid, &[gen::small_message(r, i)]));
        acts.push(Act::Ok(long(r), vec![gen::small_action(r)]));
        readies.push(match r.below(3) {
            0 => Ready::After(long(r)),
            _ => Ready::Now,
        });
    }
    if r.chance(30) {
        inputs.push(Inp::notify(true, 5, 6, &[]));
    }
    let factory = if r.chance(50) { Ready::After(long(r)) } else { Ready::Now };
    let making = long(r);
    let e = model(&g, &inputs, &Make::Ok(making), &acts);
    let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
    // where the peer pauses: anywhere, and around the ends of frames
    let mut places: Vec<usize> = (0..r.below(4)).map(|_| r.usize(bytes.len())).collect();
    let mut at = 0;
    for i in &inputs {
        at += i.bytes().len();
        if r.chance(30) {
            places.push(at);
        }
        if r.chance(20) {
            places.push((at + r.usize(7)).min(bytes.len()));
        }
    }
    places.push(bytes.len());
    places.sort();
    places.dedup();
    let pauses: Vec<Duration> = places.iter().map(|_| if r.chance(60) { MINUTE * r.range(10, 3000) as u32 } else { Duration::ZERO }).collect();
    let first = if r.chance(40) { MINUTE * 300 } else { Duration::ZERO };
    let s = stream(r);
    let deaf = r.chance(30).then(|| (r.usize(120), MINUTE * r.range(10, 3000) as u32));
    if let Some((n, _)) = deaf {
        s.0.lock().unwrap().stall_write_at = Some(n);
    }
    let rough = s.0.lock().unwrap().pending_pct > 0;
    let log = Log::default();
    let (mk, rd) = (factory.clone(), readies.clone());
    let behave = Behave {
        make: Arc::new(move |_| (mk.clone(), Make::Ok(making))),
        ready: Arc::new(move |_, i| rd.get(i).cloned().unwrap_or(Ready::Now)),
        call: by_call(acts.clone()),
    };
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let runs = Arc::new(AtomicU64::new(0));
    let n_out = e.out.len();
    let (frames, rest, waited, closed, counts) = vrt.block_on(async {
        let t0 = Instant::now();
        let (s2, runs2) = (s.clone(), runs.clone());
        let task = tokio::spawn(async move {
            let mut conn = Connection::new(rt, Io(s2), CancellationToken::new());
            let f = async move { conn.serve().await };
            Watched { f: Box::pin(f), runs: runs2, most: 1_000_000 }.await
        });
        // whoever watches sees how often it ran in every ten minutes
        let (runs3, counts) = (runs.clone(), Arc::new(std::sync::Mutex::new(vec![0u64])));
        let counts2 = counts.clone();
        let watch = tokio::spawn(async move {
            loop {
                sleep(MINUTE * 10).await;
                counts2.lock().unwrap().push(runs3.load(SeqCst));
            }
        });
        if let Some((_, d)) = deaf {
            let s = s.clone();
            tokio::spawn(async move {
                sleep(d).await;
                s.unstall();
            });
        }
        sleep(first).await;
        let mut p = 0;
        for (q, d) in places.iter().zip(&pauses) {
            s.feed(&bytes[p..*q]);
            p = *q;
            sleep(*d).await;
        }
        let stuck = timeout(far, s.wait_frames(n_out)).await.is_err();
        sleep(MINUTE * 600).await;
        watch.abort();
        let closed = task.is_finished();
        task.abort();
        let sent = s.sent();
        let (v, rest) = wire::split(&sent);
        let frames: Vec<(Duration, Vec<u8>)> = v.iter().map(|x| (Duration::ZERO, x.to_vec())).collect();
        let counts = counts.lock().unwrap().clone();
        let _ = stuck;
        (frames, rest.to_vec(), t0.elapsed(), closed, counts)
    });
    let n = runs.load(SeqCst);
    let w = s.0.lock().unwrap();
    // what can have woken it: the peer, timers of the factory, the service and its readiness, and the transport's own false alarms
    let woken = places.len() as u64 + 3 + 4 * (k as u64 + 1);
    let most = 3 * woken + if rough { w.read_calls + w.write_calls + w.flush_calls } else { (w.read_calls + w.write_calls + w.flush_calls) / 100 };
    let fail = |x: String| {
        format!(
            "{x}\nruns per ten minutes: {}\npauses {pauses:?}, factory {factory:?} then {making:?}, service {readies:?} then {acts:?}, deaf {deaf:?}\ninputs: {}",
            clip(&format!("{:?}", counts.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>()), 600),
            list(&inputs)
        )
    };
    if n > most {
        return Err(fail(format!("the connection's task ran {n} times while it had at most {most} reasons in {waited:?}")));
    }
    // almost all of the time nothing happens
    let busy = counts.windows(2).filter(|w| w[1] > w[0]).count() as u64;
    if busy > woken + 2 {
        return Err(fail(format!("the connection's task ran in {busy} of {} periods of ten minutes, with at most {woken} reasons", counts.len() - 1)));
    }
    check_frames(&frames, &rest, &e.out).map_err(&fail)?;
    check_calls(&log, &e.calls).map_err(&fail)?;
    if closed {
        return Err(fail("the connection ended by itself".into()));
    }
    c.stats.count("connections that waited", 1);
    c.stats.count("runs of a connection's task", n);
    c.stats.max("longest waiting of a connection, hours", waited.as_secs() / 3600);
    c.stats.count("hours of waiting", waited.as_secs() / 3600);
    c.nontrivial(hash_bytes(format!("{pauses:?}{factory:?}{making:?}{acts:?}{readies:?}{deaf:?}").as_bytes()) ^ hash_bytes(&bytes));
    Ok(())
}

struct Rings(AtomicU64);

impl Wake for Rings {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// Polls something that cannot go on: it is not woken before it can.
fn quiet<T>(what: &str, bell: &Arc<Rings>, mut poll: impl FnMut(&mut Context<'_>) -> Poll<T>, times: u64) -> R {
    let w = Waker::from(bell.clone());
    let mut cx = Context::from_waker(&w);
    let before = bell.0.load(SeqCst);
    for i in 0..times {
        if poll(&mut cx).is_ready() {
            return Err(format!("{what}: is there before anything was given"));
        }
        let n = bell.0.load(SeqCst) - before;
        if n > 0 {
            return Err(format!("{what}: woken {n} times while it waits, at poll {i}"));
        }
    }
    Ok(())
}

pub fn consumers(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let bell = Arc::new(Rings(AtomicU64::new(0)));
    let r = &mut c.rng;
    let mut key = vec![];
    for i in 0..r.range(1, 6) {
        let times = r.range(1, 30);
        quiet("work", &bell, |cx| p.poll_next_unpin(cx), times)?;
        let (sid, fid) = (gen::int(r) ^ (i << 40), gen::fid(r));
        let n = r.below(4);
        let mut acked = None;
        let mut work: Option<(haproxy_spoa::runtime::Acker, futures::stream::BoxStream<'static, Message>)> = None;
        for k in 0..=n {
            let m = r.below(3);
            key.push((n, k, m));
            let before = bell.0.load(SeqCst);
            let got = d
                .recieve_messages(HaproxyNotify { fragmented: k < n, stream_id: sid, frame_id: fid, messages: (0..m).map(|x| gen::small_message(r, x)).collect() })
                .map_err(|e| format!("fails with {e}"))?;
            if let Some(x) = got {
                acked = Some(Box::pin(x));
            }
            let rings = bell.0.load(SeqCst) - before;
            if rings > m + 2 {
                return Err(format!("a consumer was woken {rings} times for a fragment of {m} messages"));
            }
            if k == 0 {
                let (a, ms) = drive(p.next())?.ok_or("no work")?;
                work = Some((a, ms.boxed()));
            }
            let (_, ms) = work.as_mut().expect("vp-harness: work");
            for _ in 0..m {
                drive(ms.next())?.ok_or("a message is missing")?;
            }
            if k < n {
                quiet("messages", &bell, |cx| ms.poll_next_unpin(cx), r.range(1, 30))?;
                c.stats.count("waits of consumers", 1);
            }
        }
        let (mut acker, mut ms) = work.expect("vp-harness: work");
        if drive(ms.next())?.is_some() {
            return Err("one message too many".into());
        }
        let mut acked = acked.ok_or("no acknowledgement to wait for")?;
        for _ in 0..r.below(5) {
            quiet("the acknowledgement", &bell, |cx| acked.as_mut().poll(cx), r.range(1, 10))?;
            acker.set_var(Scope::Session, "v", r.below(9));
            c.stats.count("waits of consumers", 1);
        }
        quiet("the acknowledgement", &bell, |cx| acked.as_mut().poll(cx), 2)?;
        let _ = acker.complete();
        let _ = drive(acked)?;
    }
    quiet("work", &bell, |cx| p.poll_next_unpin(cx), 3)?;
    c.nontrivial(hash_bytes(format!("{key:?}").as_bytes()));
    Ok(())
}

/// A reader and a writer of frames whose transport has nothing, or takes nothing.
pub fn waiting_frames(c: &mut Case) -> R {
    let r = &mut c.rng;
    let bell = Arc::new(Rings(AtomicU64::new(0)));
    let f = loop {
        let f = p_codec::small_frame(r);
        if wire::payload(&f).len() <= 4000 {
            break f;
        }
    };
    let b = wire::wire(&f);
    let s = Stream::new(vec![], End::Open, r.fork()).with(|w| {
        w.max_read = *w.rng.pick(&[1, 3, usize::MAX]);
        w.max_write = *w.rng.pick(&[1, 3, usize::MAX]);
    });
    let kind = r.below(3);
    let framer = Framer::new(1 << 20);
    let (mut plain, mut buffered);
    let io = Io(s.clone());
    let mut io3 = Io(s.clone());
    let mut cuts: Vec<usize> = (0..r.below(6)).map(|_| r.usize(b.len())).collect();
    cuts.sort();
    {
        let mut read: Pin<Box<dyn Future<Output = Result<haproxy_spop::Frame, Status>> + '_>> = match kind {
            0 => Box::pin(framer.read_frame(&mut io3)),
            1 => {
                plain = Codec::new(io, framer);
                Box::pin(plain.read_frame())
            }
            _ => {
                buffered = Codec::buffered(io, framer);
                Box::pin(buffered.read_frame())
            }
        };
        let mut p = 0;
        for q in cuts.iter().copied() {
            s.feed(&b[p..q]);
            p = q;
            let w = Waker::from(bell.clone());
            // what arrived is taken
            let _ = read.as_mut().poll(&mut Context::from_waker(&w)).is_ready();
            quiet("reading", &fresh(), |cx| read.as_mut().poll(cx), r.range(1, 30))?;
            c.stats.count("waits of readers", 1);
        }
        s.feed(&b[p..]);
        match drive(read)? {
            Ok(g) if g == f => (),
            x => return Err(format!("read {}", clip(&format!("{x:?}"), 300))),
        }
    }
    // the peer does not read
    let stops: Vec<usize> = (0..1 + r.below(4)).map(|_| r.usize(b.len())).collect();
    let framer = Framer::new(1 << 20);
    let s = Stream::new(vec![], End::Open, r.fork()).with(|w| w.max_write = *w.rng.pick(&[1, 3, usize::MAX]));
    let mut stops = stops;
    stops.sort();
    let (mut plain, mut buffered);
    let io = Io(s.clone());
    let mut io3 = Io(s.clone());
    s.0.lock().unwrap().stall_write_at = Some(stops[0]);
    let want = f.clone();
    let mut write: Pin<Box<dyn Future<Output = Result<usize, Status>> + '_>> = match kind {
        0 => Box::pin(framer.write_frame(&mut io3, f)),
        1 => {
            plain = Codec::new(io, framer);
            Box::pin(plain.write_frame(f))
        }
        _ => {
            buffered = Codec::buffered(io, framer);
            Box::pin(buffered.write_frame(f))
        }
    };
    for q in &stops {
        s.0.lock().unwrap().stall_write_at = Some(*q);
        let w = Waker::from(bell.clone());
        let _ = write.as_mut().poll(&mut Context::from_waker(&w)).is_ready();
        quiet("writing", &fresh(), |cx| write.as_mut().poll(cx), r.range(1, 30))?;
        c.stats.count("waits of writers", 1);
    }
    s.unstall();
    match drive(write)? {
        Ok(n) if n == b.len() && s.sent() == b => (),
        x => return Err(format!("writing {} returned {x:?}", clip(&format!("{want:?}"), 300))),
    }
    c.nontrivial(hash_bytes(&b) ^ hash_bytes(format!("{kind}{cuts:?}{stops:?}").as_bytes()));
    Ok(())
}

/// Wake-ups for what was given before do not count.
fn fresh() -> Arc<Rings> {
    Arc::new(Rings(AtomicU64::new(0)))
}

pub fn thread_time() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

fn runs_of_tasks() -> u64 {
    let m = tokio::runtime::Handle::current().metrics();
    (0..m.num_workers()).map(|i| m.worker_poll_count(i)).sum()
}

/// An agent with connections in every phase, for half an hour in which nothing happens.
fn idle_agent(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let stats = &mut c.stats;
    p_agent::live(0, async {
        let gate = Arc::new(Semaphore::new(0));
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, limit: Some(HOUR * 1000), ..Cfg::default() };
        let a = p_agent::start(&g, p_agent::by_name(gate.clone()), r.chance(50), &mut r)?;
        let n = r.range(0, 40);
        let mut peers = vec![];
        for i in 0..n {
            let mut p = p_agent::Peer::connect(a.addr).await?;
            let hello = plain_hello(16384, gen::CAPS).bytes();
            let kind = r.below(5);
            match kind {
                0 => (),
                1 => {
                    let k = 1 + r.usize(hello.len() - 1);
                    p.send(&hello[..k]).await?;
                }
                _ => {
                    p.send(&hello).await?;
                    p.frame().await?.ok_or("closed")?;
                    let (m, fragmented) = match kind {
                        2 => ("gate", false),
                        _ => ("x", true),
                    };
                    let b = Inp::notify(fragmented, 1, 1, &[p_agent::named(m, i)]).bytes();
                    let k = if kind == 3 { 1 + r.usize(b.len() - 1) } else { b.len() };
                    p.send(&b[..k]).await?;
                }
            }
            peers.push((kind, p));
        }
        p_agent::a_while().await;
        p_agent::a_while().await;
        let before = runs_of_tasks();
        p_agent::half_an_hour(0).await;
        let ran = runs_of_tasks() - before;
        stats.max("runs of all tasks of an idle agent", ran);
        // late arrivals only
        if ran > 3 * n + 50 {
            return Err(format!("an agent and {n} connections that all wait ran {ran} times in half an hour"));
        }
        stats.count("idle agents", 1);
        // it still serves
        let (inputs, out) = p_agent::tcp_good(&mut r, 1);
        p_agent::tcp_session(a.addr, inputs, out, true).await?;
        drop(peers);
        gate.add_permits(1000);
        a.tok.cancel();
        let mut serve = a.serve;
        match p_agent::eventually("serving ends", &mut serve).await? {
            Ok(Ok(())) => Ok(()),
            other => Err(format!("serving failed: {other:?}")),
        }
    })?;
    c.nontrivial(key);
    Ok(())
}

/// An agent that cannot accept.
fn starved_agent(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let stats = &mut c.stats;
    p_agent::live(0, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = p_agent::start(&g, p_agent::by_name(Arc::new(Semaphore::new(0))), r.chance(50), &mut r)?;
        let (inputs, out) = p_agent::tcp_good(&mut r, 1);
        p_agent::tcp_session(a.addr, inputs, out, true).await?;
        let mut socks: Vec<_> = (0..r.range(1, 5)).map(|_| p_agent::socket_for(a.addr)).collect();
        let mut pending = vec![];
        let (ran, used);
        {
            let _limit = p_agent::Limit::lower(200);
            let mut fill = vec![];
            while let Ok(f) = std::fs::File::open("/dev/null") {
                fill.push(f);
            }
            for s in socks.drain(..) {
                pending.push(p_agent::eventually("connecting", s.connect(a.addr)).await?.map_err(|e| format!("vp-harness: connect {e}"))?);
            }
            sleep(MS * 100).await;
            let (n, t) = (runs_of_tasks(), thread_time());
            sleep(MS * 800).await;
            (ran, used) = (runs_of_tasks() - n, thread_time() - t);
        }
        stats.max("runs of an agent that cannot accept, in 0.8 s", ran);
        stats.max("processor time of an agent that cannot accept, in 0.8 s, in us", used.as_micros() as u64);
        if ran > 800 || used > MS * 300 {
            return Err(format!("an agent that cannot accept ran {ran} times in 800 ms and used {used:?} of the processor"));
        }
        stats.count("agents that could not accept", 1);
        drop(pending);
        a.tok.cancel();
        let mut serve = a.serve;
        match p_agent::eventually("serving ends", &mut serve).await? {
            Ok(Ok(())) => Ok(()),
            other => Err(format!("serving failed: {other:?}")),
        }
    })?;
    c.nontrivial(key);
    Ok(())
}

pub fn c42(ctx: &mut Ctx) {
    ctx.rule = "case key: the waits and what is waited for; non-trivial: something waited while its runs and wake-ups were counted".into();
    let n = ctx.n(3000, 100_000);
    ctx.cases("connections", n, waiting_connection);
    let n = ctx.n(2000, 60_000);
    ctx.cases("consumers", n, consumers);
    ctx.cases("frames", n, waiting_frames);
    let n = ctx.n(12, 200);
    ctx.cases("idle agents", n, idle_agent);
    let n = ctx.n(4, 40);
    ctx.cases("agents that cannot accept", n, starved_agent);
    ctx.require("connections that waited", 1000);
    ctx.require("hours of waiting", 20_000);
    ctx.require("waits of consumers", 1000);
    ctx.require("waits of readers", 1000);
    ctx.require("waits of writers", 1000);
    ctx.require("idle agents", 5);
    ctx.require("agents that could not accept", 2);
}

// ---------------------------------------------------------------- C43

#[derive(Debug)]
struct Ended {
    /// `None`: it did not end.
    result: Option<Result<(), (Option<Status>, String)>>,
    bytes: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Eof,
    Reset,
    /// once so many frames were seen
    Cancel(usize),
    /// the peer stays
    Stay,
}

fn serve_twice(g: &Cfg, behave: Behave, s: Stream, steps: Vec<Step>, how: How, r: &mut Rng) -> Result<(Ended, Log), String> {
    let log = Log::default();
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let again = r.below(4);
    let ended = vrt.block_on(async {
        let tok = CancellationToken::new();
        let (s2, tok2, log2) = (s.clone(), tok.clone(), log.clone());
        let task = tokio::spawn(async move {
            let mut conn = Connection::new(rt, Io(s2.clone()), tok2);
            let res = conn.serve().await.map_err(|e| (e.status(), e.to_string()));
            // over is over
            let state = |s: &Stream| {
                let w = s.0.lock().unwrap();
                (w.out.len(), w.pos, w.read_calls, w.write_calls)
            };
            let before = (state(&s2), log2.all().len());
            let bytes = s2.sent();
            for i in 0..again {
                if timeout(MS * 1000, conn.serve()).await.is_err() {
                    return Err(format!("serving again, for the {i}th time, a connection that ended with {res:?} does not return"));
                }
                let after = (state(&s2), log2.all().len());
                if before != after {
                    return Err(format!(
                        "serving again a connection that ended with {res:?}: (bytes out, bytes in, reads, writes), events were {before:?} and are {after:?}"
                    ));
                }
            }
            Ok((res, bytes))
        });
        for x in steps {
            match x {
                Step::Feed(b) => s.feed(&b),
                Step::Sleep(d) => sleep(d).await,
                Step::Frames(n) => {
                    let _ = timeout(HOUR * 1000, s.wait_frames(n)).await;
                }
                _ => return Err(format!("{HARNESS} step")),
            }
        }
        match how {
            How::Eof => s.end(End::Eof),
            How::Reset => s.end(End::Reset),
            How::Cancel(n) => {
                let _ = timeout(HOUR * 1000, s.wait_frames(n)).await;
                sleep(MS).await;
                tok.cancel();
            }
            How::Stay => (),
        }
        match timeout(HOUR * 10_000, task).await {
            Ok(Ok(Ok((res, bytes)))) => Ok(Ended { result: Some(res), bytes }),
            Ok(Ok(Err(x))) => Err(x),
            Ok(Err(_)) => Err(format!("serving panicked: {}", last_panic())),
            Err(_) => Ok(Ended { result: None, bytes: s.sent() }),
        }
    })?;
    Ok((ended, log))
}

fn expect_end(e: &Ended, want: Option<Result<(), Status>>) -> R {
    let ok = match (&e.result, &want) {
        (None, None) => true,
        (Some(Ok(())), Some(Ok(()))) => true,
        (Some(Err((s, _))), Some(Err(w))) => s.as_ref() == Some(w),
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!("serving returned {:?}, expected {want:?}", e.result))
}

pub fn endings(c: &mut Case) -> R {
    let (g, inputs, make, acts) = p_conn::any_session(&mut c.rng);
    let r = &mut c.rng;
    let behave = || {
        let m = make.clone();
        Behave { make: Arc::new(move |_| (Ready::Now, m.clone())), call: by_call(acts.clone()), ..Behave::default() }
    };
    let frames: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
    let all: Vec<u8> = frames.concat();
    let whole = model(&g, &inputs, &make, &acts);
    let cut_at = match r.below(3) {
        0 => all.len(),
        _ => r.usize(all.len() + 1),
    };
    // what has arrived for certain by then
    let mut arrived = vec![];
    let mut at = 0;
    for (i, b) in inputs.iter().zip(&frames) {
        // one that is too long is known by its length
        let long = matches!(i, Inp::Raw(..)) || b.len() as u64 - 4 > model(&g, &arrived, &make, &acts).max;
        let need = if long { 4 } else { b.len() };
        if at + need > cut_at {
            break;
        }
        arrived.push(i.clone());
        at += b.len();
    }
    let e = model(&g, &arrived, &make, &acts);
    let kind = r.below(5);
    let (how, upto) = match kind {
        0 => (How::Eof, cut_at),
        1 => (How::Reset, cut_at),
        2 => (How::Cancel(e.out.len()), cut_at),
        3 => (How::Stay, cut_at),
        _ => (How::Stay, all.len()),
    };
    let mut steps = vec![];
    let mut p = 0;
    let pieces = r.below(4);
    for _ in 0..pieces {
        let q = p + r.usize(upto - p + 1);
        steps.push(Step::Feed(all[p..q].to_vec()));
        steps.push(Step::Sleep(MS * r.below(5000) as u32));
        p = q;
    }
    steps.push(Step::Feed(all[p..upto].to_vec()));
    let text = |x: String| format!("{x}\nagent: {g:?}\ncut at {cut_at} of {} bytes, {how:?}\ninputs: {}", all.len(), list(&inputs));
    let fault = kind == 4;
    if fault {
        // the peer goes while it is written to
        let s = stream(r);
        let (one, _) = serve_twice(&g, behave(), s.clone(), steps.clone(), How::Stay, r).map_err(text)?;
        expect_end(&one, whole.closed.then_some(Ok(()))).map_err(text)?;
        let n = one.bytes.len();
        if n == 0 {
            return Ok(());
        }
        let k = r.usize(n);
        let flush = r.chance(30);
        let s = stream(r);
        {
            let mut w = s.0.lock().unwrap();
            if flush {
                w.fail_flush_from = Some(k + 1);
            } else {
                w.fail_write_at = Some(k);
            }
        }
        let (two, _) = serve_twice(&g, behave(), s, steps, How::Stay, r).map_err(text)?;
        expect_end(&two, Some(Err(Status::Io))).map_err(|x| text(format!("{x}; {} fails at byte {k} of {n}", if flush { "flushing" } else { "writing" })))?;
        c.stats.count("endings by a failing write", 1);
    } else {
        let want = match how {
            _ if e.closed => Some(Ok(())),
            How::Eof | How::Reset => Some(Err(Status::Io)),
            How::Cancel(_) => Some(Ok(())),
            How::Stay => None,
        };
        let s = stream(r);
        let (one, _) = serve_twice(&g, behave(), s, steps, how, r).map_err(text)?;
        expect_end(&one, want).map_err(text)?;
        c.stats.count(
            match (e.closed, how) {
                (true, _) => "endings by the agent",
                (_, How::Cancel(_)) => "endings by cancellation",
                (_, How::Stay) => "no ending",
                _ => "endings by the peer's going",
            },
            1,
        );
    }
    c.nontrivial(hash_bytes(&all) ^ mix(cut_at as u64 ^ kind << 32));
    Ok(())
}

pub fn c43(ctx: &mut Ctx) {
    ctx.rule = "case key: the session, the cut and the kind of ending; non-trivial: what serving returned was judged".into();
    let n = ctx.n(8000, 250_000);
    ctx.cases("endings", n, endings);
    ctx.require("endings by the agent", 300);
    ctx.require("endings by cancellation", 300);
    ctx.require("endings by the peer's going", 300);
    ctx.require("endings by a failing write", 300);
    ctx.require("no ending", 100);
}

