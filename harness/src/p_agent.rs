//! C24-C26: agents with many connections, shutdown, and failures to accept.

use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener as StdListener, TcpStream as StdStream};
use std::os::fd::AsRawFd;
use std::sync::Arc;
use std::time::Duration;

use haproxy_spoa::Agent;
use haproxy_spop::{Action, Capability, Disconnect, Frame, HaproxyHello, Message, Typed, Version};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::sync::Semaphore;
use tokio::task::JoinHandle;
use tokio::time::{sleep, timeout};
use tokio_util::sync::CancellationToken;

use crate::core::*;
use crate::gen;
use crate::mon::*;
use crate::session::*;
use crate::sim::*;
use crate::wire;

const MS: Duration = Duration::from_millis(1);

// ---------------------------------------------------------------- waiting in real time

/// Waits for something that has to happen. Gives up after so many turns of the runtime, spread
/// over so long a time, that it never will.
pub async fn eventually<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    let mut f = std::pin::pin!(f);
    for _ in 0..2500 {
        if let Ok(x) = timeout(MS * 10, f.as_mut()).await {
            return Ok(x);
        }
    }
    Err(format!("{what}: did not happen within 2500 ticks of 10 ms"))
}

pub async fn until(what: &str, f: impl Fn() -> bool) -> R {
    eventually(what, async {
        while !f() {
            sleep(MS).await;
        }
    })
    .await
}

/// A few turns in which nothing may happen.
pub async fn a_while() {
    for _ in 0..10 {
        sleep(MS * 2).await;
        tokio::task::yield_now().await;
    }
}

/// Half an hour passes, where the clock can be set: on a single thread.
pub async fn half_an_hour(threads: usize) {
    if threads == 0 {
        tokio::time::pause();
        sleep(Duration::from_secs(1800)).await;
        tokio::time::resume();
    }
    a_while().await;
}

/// What has to happen without any time passing: the clock is stopped meanwhile, where it can be,
/// so that nothing that waits for a timer goes on.
pub async fn at_once<T>(threads: usize, what: &str, f: impl std::future::Future<Output = Result<T, String>>) -> Result<T, String> {
    if threads > 0 {
        return f.await;
    }
    let mut f = std::pin::pin!(f);
    tokio::time::pause();
    let t = std::time::Instant::now();
    let x = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        std::task::Poll::Pending if t.elapsed() < Duration::from_secs(20) => {
            // a runtime that is not idle does not advance a stopped clock
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
        std::task::Poll::Pending => std::task::Poll::Ready(Err(format!("{what}: did not happen while the clock stood still"))),
        x => x,
    })
    .await;
    tokio::time::resume();
    x
}

// ---------------------------------------------------------------- agents and peers on loopback

pub struct Live {
    pub addr: SocketAddr,
    pub tok: CancellationToken,
    pub serve: JoinHandle<Result<(), String>>,
    pub log: Log,
}

pub fn listener(blocking: bool) -> StdListener {
    let l = StdListener::bind("127.0.0.1:0").expect("vp-harness: bind");
    if !blocking {
        l.set_nonblocking(true).expect("vp-harness: nonblocking");
    }
    l
}

/// A listener on one of the machine's own addresses, or on all of them, and an address to reach it at.
pub fn listener_any(blocking: bool, r: &mut Rng) -> (StdListener, SocketAddr) {
    use std::net::{Ipv4Addr, Ipv6Addr};
    let (bind, to) = match r.below(8) {
        0 | 1 => ("[::1]:0", Ipv6Addr::LOCALHOST.into()),
        2 => ("[::]:0", Ipv6Addr::LOCALHOST.into()),
        3 => ("[::]:0", Ipv4Addr::LOCALHOST.into()),
        4 => ("0.0.0.0:0", Ipv4Addr::LOCALHOST.into()),
        5 => ("127.0.0.1:0", Ipv4Addr::LOCALHOST.into()),
        6 => ("127.0.0.7:0", Ipv4Addr::new(127, 0, 0, 7).into()),
        _ => return {
            let l = listener(blocking);
            let a = l.local_addr().expect("vp-harness: addr");
            (l, a)
        },
    };
    if let Ok(l) = StdListener::bind(bind) {
        let addr = SocketAddr::new(to, l.local_addr().expect("vp-harness: addr").port());
        // not everywhere is there a version 6, or one that takes connections of version 4
        if StdStream::connect(addr).is_ok() {
            drop(l.accept());
            l.set_nonblocking(!blocking).expect("vp-harness: nonblocking");
            return (l, addr);
        }
    }
    let l = listener(blocking);
    let a = l.local_addr().expect("vp-harness: addr");
    (l, a)
}

pub fn start(cfg: &Cfg, behave: Behave, blocking: bool, r: &mut Rng) -> Result<Live, String> {
    let log = Log::default();
    let rt = cfg.build(&log, behave, r);
    let (l, addr) = listener_any(blocking, r);
    let agent = Agent::new(rt, l).map_err(|e| format!("the agent refused an ordinary listener: {e}"))?;
    let tok = agent.shutdown();
    let serve = tokio::spawn(async move { agent.serve().await.map_err(|e| e.to_string()) });
    Ok(Live { addr, tok, serve, log })
}

pub struct Peer {
    s: TcpStream,
    buf: Vec<u8>,
}

impl Peer {
    pub async fn connect(addr: SocketAddr) -> Result<Peer, String> {
        match eventually("connecting", TcpStream::connect(addr)).await? {
            Ok(s) => {
                let _ = s.set_nodelay(true);
                Ok(Peer { s, buf: vec![] })
            }
            Err(e) => Err(format!("connecting: {e}")),
        }
    }
    pub async fn send(&mut self, b: &[u8]) -> R {
        eventually("sending", self.s.write_all(b)).await?.map_err(|e| format!("sending: {e}"))
    }
    /// The next frame; `None` at the end of the stream.
    pub async fn frame(&mut self) -> Result<Option<Vec<u8>>, String> {
        eventually("an answer of the agent", async {
            loop {
                let (v, _) = wire::split(&self.buf);
                if let Some(p) = v.first() {
                    let p = p.to_vec();
                    self.buf.drain(..4 + p.len());
                    return Ok(Some(p));
                }
                let mut b = [0u8; 4096];
                match self.s.read(&mut b).await {
                    Ok(0) if self.buf.is_empty() => return Ok(None),
                    Ok(0) => return Err(format!("the stream ended within a frame: {}", hexc(&self.buf))),
                    Ok(n) => self.buf.extend_from_slice(&b[..n]),
                    Err(e) => return Err(format!("reading: {e}")),
                }
            }
        })
        .await?
    }
    pub async fn expect(&mut self, o: &Out) -> R {
        match self.frame().await? {
            Some(p) => match_out(&p, o),
            None => Err(format!("the agent closed the connection, expected {}", clip(&format!("{o:?}"), 300))),
        }
    }
    pub async fn end(&mut self) -> R {
        match self.frame().await? {
            Some(p) => Err(format!("the agent sent {}, expected the end", show(&p))),
            None => Ok(()),
        }
    }
    pub fn reset(self) {
        // unread data or not, the other side sees a reset
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }
}

pub fn rt(threads: usize) -> tokio::runtime::Runtime {
    let mut b = if threads == 0 {
        tokio::runtime::Builder::new_current_thread()
    } else {
        let mut b = tokio::runtime::Builder::new_multi_thread();
        b.worker_threads(threads);
        b
    };
    b.enable_all().build().expect("vp-harness: runtime")
}

/// Starts things, runs `f`, and does not wait for what is left.
pub fn live<F: std::future::Future<Output = R>>(threads: usize, f: F) -> R {
    let rt = rt(threads);
    let r = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_millis(500));
    r
}

pub fn named(name: &str, tok: u64) -> Message {
    Message { name: name.into(), args: vec![("tok".into(), Typed::Uint64(tok))] }
}

fn tok_of(m: &Message) -> u64 {
    match m.args.first() {
        Some((_, Typed::Uint64(n))) => *n,
        _ => u64::MAX,
    }
}

/// The answer every service gives to a message, told by its contents alone.
pub fn echo(msgs: &[Message]) -> Vec<Action> {
    msgs.iter()
        .map(|m| Action::SetVar { scope: haproxy_spop::Scope::Request, name: m.name.clone(), value: Typed::Uint64(tok_of(m)) })
        .collect()
}

pub fn by_name(gate: Arc<Semaphore>) -> Behave {
    Behave {
        call: Arc::new(move |_, _, m| match m.first().map(|m| m.name.as_str()) {
            Some("slow") => Act::Ok(MS * 1500, echo(m)),
            Some("fail") => Act::Err(Duration::ZERO, "failed".into()),
            Some("never") => Act::Never,
            Some("panic") => Act::Panic,
            Some("panic now") => Act::PanicNow,
            Some("gate") => Act::Gate(gate.clone(), echo(m)),
            _ => Act::Reply(echo(m)),
        }),
        ..Behave::default()
    }
}

// ---------------------------------------------------------------- C24

/// What a connection does to annoy others, after its hello.
fn nuisance(r: &mut Rng, ids: &[(u64, u64)], s: &Stream) -> (&'static str, Vec<Step>) {
    let hello = engine_hello(r).bytes();
    let (sid, fid) = *r.pick(ids);
    let n = |what: &str| Inp::notify(false, sid, fid, &[named(what, 0)]).bytes();
    match r.below(16) {
        0 => ("garbage", vec![Step::Feed(r.bytes(200))]),
        1 => ("garbage after the hello", vec![Step::Feed(hello), Step::Feed(r.bytes(200))]),
        2 => ("silence", vec![]),
        3 => ("half a hello", vec![Step::Feed(hello[..r.range(1, 20) as usize].to_vec())]),
        4 => ("half a frame", vec![Step::Feed(hello), Step::Feed(n("x")[..6].to_vec())]),
        5 => ("end", vec![Step::Feed(hello), Step::End(End::Eof)]),
        6 => ("reset", vec![Step::Feed(hello), Step::End(End::Reset)]),
        7 => ("a panicking call", vec![Step::Feed(hello), Step::Feed(n("panic"))]),
        8 => ("a panic in call", vec![Step::Feed(hello), Step::Feed(n("panic now"))]),
        9 => ("a failing call", vec![Step::Feed(hello), Step::Feed(n("fail"))]),
        10 => ("an endless call", vec![Step::Feed(hello), Step::Feed(n("never"))]),
        11 => {
            let mut v = vec![Step::Feed(hello)];
            for (a, b) in ids {
                v.push(Step::Feed(Inp::notify(true, *a, *b, &[named("leak", 666)]).bytes()));
            }
            ("unfinished fragments", v)
        }
        12 => {
            s.0.lock().unwrap().stall_write_at = Some(r.usize(120));
            let mut v = vec![Step::Feed(hello)];
            for _ in 0..20 {
                v.push(Step::Feed(n("ok")));
            }
            ("a peer that does not read", v)
        }
        13 => {
            let mut v = vec![Step::Feed(hello)];
            for (a, b) in ids {
                v.push(Step::Feed(Inp::notify(true, *a, *b, &[named("leak", 666)]).bytes()));
            }
            v.push(Step::End(End::Reset));
            ("unfinished fragments and a reset", v)
        }
        14 => ("an aborted call", vec![Step::Feed(hello), Step::Feed(n("never")), Step::Sleep(MS * 10), Step::Abort]),
        _ => {
            let engine_id = r.chance(50).then(|| "engine".to_string());
            let h = HaproxyHello { healthcheck: Some(true), engine_id, ..hello_of() };
            ("a health check", vec![Step::Feed(wire::wire(&Frame::HaproxyHello(h)))])
        }
    }
}

pub fn hello_of() -> HaproxyHello {
    hello(&[Version::new(2, 0)], 16384, gen::CAPS)
}

struct Good {
    inputs: Vec<Inp>,
    acts: Vec<Act>,
    steps: Vec<Step>,
    toks: Vec<u64>,
}

fn good(r: &mut Rng, ids: &[(u64, u64)], id: u64) -> Good {
    let mut inputs = vec![engine_hello(r)];
    let mut acts = vec![];
    let mut toks = vec![];
    let mut open: Vec<((u64, u64), Vec<Message>)> = vec![];
    let mut t = id * 1000;
    for _ in 0..r.range(1, 12) {
        let key = *r.pick(ids);
        let fragmented = r.chance(35);
        t += 1;
        let name = if r.chance(15) { "slow" } else { "good" };
        let m = named(name, t);
        toks.push(t);
        inputs.push(Inp::notify(fragmented, key.0, key.1, std::slice::from_ref(&m)));
        match open.iter_mut().find(|x| x.0 == key) {
            Some(x) => x.1.push(m),
            None => open.push((key, vec![m])),
        }
        if !fragmented {
            let p = open.iter().position(|x| x.0 == key).unwrap();
            let msgs = open.remove(p).1;
            let d = if msgs[0].name == "slow" { MS * 1500 } else { Duration::ZERO };
            acts.push(Act::Ok(d, echo(&msgs)));
        }
    }
    let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
    let steps = deliver(&bytes, r);
    Good { inputs, acts, steps, toks }
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "case key: what the other connections do, and the well-behaved sessions; non-trivial: at least one of each".into();
    let n = ctx.n(2500, 60_000);
    ctx.cases("shared runtime", n, |c| shared(c));
    let n = ctx.n(24, 400);
    ctx.cases("agent", n, |c| tcp_neighbours(c));
    let n = ctx.n(2, 20);
    ctx.cases("very many", n, |c| crowd(c));
    let n = ctx.n(16, 160);
    ctx.cases("much trouble", n, |c| trouble(c));
    ctx.require("sessions judged", 1000);
    ctx.require("sessions over TCP judged", 50);
    ctx.require("stuck or failing service creations", 200);
}

pub fn shared(c: &mut Case) -> R {
    let r = &mut c.rng;
    let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, limit: r.chance(30).then(|| Duration::from_secs(30)), ..Cfg::default() };
    let ids = vec![(gen::int(r), gen::fid(r)), (1, 1), (0, 2)];
    // connections whose service is never made, or late, or not at all
    let makers: Vec<Make> = (0..r.usize(3))
        .map(|_| match r.below(5) {
            0 | 1 => Make::Never,
            2 => Make::Ok(MS * r.range(1, 100_000) as u32),
            3 => Make::Err(MS * r.below(1000) as u32, "no service".into()),
            _ => {
                if r.chance(50) {
                    Make::Panic
                } else {
                    Make::PanicNow
                }
            }
        })
        .collect();
    let m2 = makers.clone();
    let behave = Behave {
        make: Arc::new(move |i| (Ready::Now, m2.get(i).cloned().unwrap_or(Make::Ok(Duration::ZERO)))),
        ..by_name(Arc::new(Semaphore::new(0)))
    };
    let mut names: Vec<String> = makers.iter().map(|m| format!("{m:?}")).collect();
    let mut bad = vec![];
    for _ in 0..r.range(1, 5) {
        let s = stream(r);
        let (name, steps) = nuisance(r, &ids, &s);
        names.push(name.into());
        bad.push((s, steps, MS * r.below(1000) as u32));
    }
    let goods: Vec<(Good, Stream, Duration)> = (0..r.range(1, 3)).map(|i| (good(r, &ids, i + 1), stream(r), MS * r.below(1000) as u32)).collect();
    // the same sessions, alone
    let mut lonely = vec![];
    for (x, s, _) in &goods {
        let s2 = Stream(Arc::new(std::sync::Mutex::new({
            let w = s.0.lock().unwrap();
            Wire::like(&w)
        })));
        let e = model(&g, &x.inputs, &Make::Ok(Duration::ZERO), &x.acts);
        let (seen, log) = alone(&g, by_name(Arc::new(Semaphore::new(0))), s2, Plan { steps: x.steps.clone(), horizon: MS * 10 }, r);
        check_all(&e, &seen, &log).map_err(|e| format!("alone: {e}"))?;
        lonely.push((e, seen));
    }
    let log = Log::default();
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let want_makes = makers.len();
    let seens = vrt.block_on(async {
        let mut others = vec![];
        for i in 0..want_makes {
            let s = Stream::new(engine_hello(&mut Rng::new(i as u64)).bytes(), End::Open, Rng::new(i as u64));
            others.push(tokio::spawn(session(rt.clone(), log.clone(), s, Plan { steps: vec![], horizon: HOUR })));
            while log.makes() <= i {
                // a factory call that panics is logged before it does
                let t = timeout(HOUR, async {
                    while log.makes() <= i {
                        sleep(MS).await;
                    }
                });
                if t.await.is_err() {
                    return Err("a connection's service was not asked for while another's was being made".to_string());
                }
            }
        }
        let mut hs = vec![];
        for (s, steps, d) in bad {
            let (rt, log) = (rt.clone(), log.clone());
            others.push(tokio::spawn(async move {
                sleep(d).await;
                session(rt, log, s, Plan { steps, horizon: HOUR }).await
            }));
        }
        for (x, s, d) in &goods {
            let (rt, log, s, steps, d) = (rt.clone(), log.clone(), s.clone(), x.steps.clone(), *d);
            hs.push(tokio::spawn(async move {
                sleep(d).await;
                session(rt, log, s, Plan { steps, horizon: MS * 10 }).await
            }));
        }
        let mut v = vec![];
        for h in hs {
            v.push(h.await.expect("vp-harness: session"));
        }
        for o in &others {
            o.abort();
        }
        Ok(v)
    });
    let fail = |x: String| format!("{x}\nother connections: {names:?}");
    let seens = seens.map_err(fail)?;
    let calls = log.calls();
    for (i, seen) in seens.iter().enumerate() {
        let (e, before) = &lonely[i];
        let x = &goods[i].0;
        check_frames(&seen.frames, &seen.rest, &e.out).map_err(fail)?;
        if seen.closed.is_some() {
            return Err(fail(format!("the agent closed a well-behaved connection: {:?}", seen.result)));
        }
        // its messages, all on one service, and nothing else there
        let mine: Vec<&(usize, Vec<Message>)> = calls.iter().filter(|k| k.1.iter().any(|m| x.toks.contains(&tok_of(m)))).collect();
        let got: Vec<Vec<Message>> = mine.iter().map(|k| k.1.clone()).collect();
        if got != e.calls {
            return Err(fail(format!("the service got {}, expected {}", clip(&format!("{got:?}"), 500), clip(&format!("{:?}", e.calls), 500))));
        }
        if let Some(first) = mine.first() {
            let all = calls.iter().filter(|k| k.0 == first.0).count();
            if mine.iter().any(|k| k.0 != first.0) || all != mine.len() {
                return Err(fail("connections share a service".into()));
            }
        }
        for (a, b) in seen.frames.iter().zip(&before.frames) {
            let late = a.0.saturating_sub(b.0);
            if late > MS * 3 {
                return Err(fail(format!("an answer came {late:?} later than it does without the other connections")));
            }
        }
        c.stats.count("sessions judged", 1);
        c.stats.count("answers compared with those given alone", seen.frames.len() as u64);
    }
    for n in &names {
        let n = n.split([' ', '(']).next().unwrap_or("").to_string();
        c.stats.count(&format!("neighbour: {n}"), 1);
    }
    c.stats.count("stuck or failing service creations", makers.len() as u64);
    c.nontrivial(hash_bytes(format!("{names:?}{}", list(&goods[0].0.inputs)).as_bytes()));
    c.sample(4, || format!("{} well-behaved sessions beside {names:?}", goods.len()));
    Ok(())
}

/// A session over TCP, from the connection to the end; returns the number of answers.
pub async fn tcp_session(addr: SocketAddr, inputs: Vec<Inp>, out: Vec<Out>, lockstep: bool) -> Result<u64, String> {
    let mut p = Peer::connect(addr).await?;
    if lockstep {
        for (i, o) in inputs.iter().zip(&out) {
            p.send(&i.bytes()).await?;
            p.expect(o).await?;
        }
    } else {
        p.send(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()).await?;
        for o in &out {
            p.expect(o).await?;
        }
    }
    p.send(&wire::wire(&Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: "".into() }))).await?;
    p.expect(&Out::Disc { status: vec![0], text: None }).await?;
    p.end().await?;
    Ok(out.len() as u64)
}

pub fn tcp_good(r: &mut Rng, id: u64) -> (Vec<Inp>, Vec<Out>) {
    let g = Cfg { caps: gen::CAPS.to_vec(), ..Cfg::default() };
    let mut inputs = vec![engine_hello(r)];
    let mut acts = vec![];
    for i in 0..r.range(1, 15) {
        let msgs: Vec<Message> = (0..r.range(1, 3)).map(|k| named("good", id * 1000 + i * 10 + k)).collect();
        acts.push(Act::Reply(echo(&msgs)));
        inputs.push(Inp::notify(false, r.below(3), r.range(1, 3), &msgs));
    }
    let e = model(&g, &inputs, &Make::Ok(Duration::ZERO), &acts);
    (inputs, e.out)
}

/// As many connections at a time as descriptors allow, each within a handshake, idle or within a
/// call: one more is served like the first.
pub fn crowd(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let threads = *r.pick(&[0usize, 2]);
    let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim);
        lim.rlim_cur = lim.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim);
    }
    let many = ((lim.rlim_cur as usize).saturating_sub(200) / 2).min(1100);
    let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(Duration::from_secs(3600)), state: 1, ..Cfg::default() };
    let mut judged = 0;
    live(threads, async {
        let behave = Behave {
            make: Arc::new(move |i| (Ready::Now, if i % 7 == 3 { Make::Never } else { Make::Ok(Duration::ZERO) })),
            ..by_name(Arc::new(Semaphore::new(0)))
        };
        let a = start(&g, behave, false, &mut r)?;
        let hello = engine_hello(&mut r).bytes();
        let mut keep = vec![];
        let mut made = 0;
        for _ in 0..many {
            let mut p = Peer::connect(a.addr).await?;
            match r.below(4) {
                0 => (),
                1 => p.send(&hello[..9]).await?,
                k => {
                    p.send(&hello).await?;
                    until("a service is made for each connection", || a.log.makes() > made).await?;
                    made += 1;
                    if made % 7 != 4 {
                        p.expect(&Out::Hello(negotiate(&g, &hello_of()).unwrap())).await?;
                        if k == 3 {
                            p.send(&Inp::notify(r.chance(50), 1, 1, &[named("never", 0)]).bytes()).await?;
                        }
                    }
                }
            }
            keep.push(p);
        }
        // services for these are made
        while made % 7 != 4 {
            let mut p = Peer::connect(a.addr).await?;
            p.send(&hello).await?;
            until("a service is made for each connection", || a.log.makes() > made).await?;
            made += 1;
            keep.push(p);
        }
        for i in 0..3 {
            let (inputs, out) = tcp_good(&mut r, 1 + i);
            judged += tcp_session(a.addr, inputs, out, true).await?;
        }
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        Ok(())
    })?;
    c.max("connections open at a time", many as u64);
    c.count("answers beside very many connections", judged);
    c.nontrivial(c.idx);
    Ok(())
}

/// Hundreds of connections in trouble of one kind, one after another or at once, and others
/// between and after them.
pub fn trouble(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let threads = *r.pick(&[0usize, 2]);
    let kind = c.idx % 8;
    let many = r.range(100, 400);
    let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(Duration::from_secs(3600)), state: 1, ..Cfg::default() };
    let mut judged = 0;
    live(threads, async {
        let odd = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let o2 = odd.clone();
        let behave = Behave {
            make: Arc::new(move |_| match o2.load(std::sync::atomic::Ordering::SeqCst) {
                true if kind == 0 => (Ready::Now, Make::Err(Duration::ZERO, "no service".into())),
                true if kind == 1 => (Ready::Now, Make::Panic),
                _ => (Ready::Now, Make::Ok(Duration::ZERO)),
            }),
            ..by_name(Arc::new(Semaphore::new(0)))
        };
        let a = start(&g, behave, false, &mut r)?;
        let hello = engine_hello(&mut r).bytes();
        for i in 0..many {
            odd.store(true, std::sync::atomic::Ordering::SeqCst);
            let makes = a.log.makes();
            let mut p = Peer::connect(a.addr).await?;
            let n = |what: &str| Inp::notify(false, 1, 1, &[named(what, 0)]).bytes();
            match kind {
                0 | 1 => {
                    p.send(&hello).await?;
                    until("a service is asked for", || a.log.makes() > makes).await?;
                    while let Ok(Some(_)) = p.frame().await {}
                }
                7 => {
                    p.send(&r.bytes(60)).await?;
                    p.reset();
                }
                _ => {
                    p.send(&hello).await?;
                    p.expect(&Out::Hello(negotiate(&g, &hello_of()).unwrap())).await?;
                    match kind {
                        2 => p.send(&n("panic")).await?,
                        3 => p.send(&n("panic now")).await?,
                        4 => p.send(&n("fail")).await?,
                        5 => p.send(&[0xff; 40]).await?,
                        _ => {
                            p.send(&n("never")).await?;
                            until("the call begins", || a.log.calls().len() as u64 > i).await?;
                        }
                    }
                    if kind != 6 {
                        while let Ok(Some(_)) = p.frame().await {}
                    }
                }
            }
            odd.store(false, std::sync::atomic::Ordering::SeqCst);
            if kind != 6 && (i % 16 == 5 || i + 1 == many) {
                let (inputs, out) = tcp_good(&mut r, 1 + i);
                judged += tcp_session(a.addr, inputs, out, true).await.map_err(|e| format!("after {} connections in trouble: {e}", i + 1))?;
            }
        }
        let (inputs, out) = tcp_good(&mut r, 1 + many);
        judged += tcp_session(a.addr, inputs, out, true).await.map_err(|e| format!("after {many} connections in trouble: {e}"))?;
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        Ok(())
    })?;
    c.count("connections in trouble", many);
    c.count("answers beside connections in trouble", judged);
    c.nontrivial(mix(c.idx));
    Ok(())
}

pub fn tcp_neighbours(c: &mut Case) -> R {
    let seed = c.rng.fork();
    let mut r = c.rng.fork();
    let threads = *r.pick(&[0usize, 1, 2, 4]);
    let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(Duration::from_secs(3600)), state: 1, ..Cfg::default() };
    let stats = &mut c.stats;
    let mut judged = 0;
    let res = live(threads, async {
        let stuck = r.below(3) as usize;
        let behave = Behave {
            make: Arc::new(move |i| (Ready::Now, if i < stuck { Make::Never } else { Make::Ok(Duration::ZERO) })),
            ..by_name(Arc::new(Semaphore::new(0)))
        };
        let a = start(&g, behave, false, &mut r)?;
        let hello = engine_hello(&mut r).bytes();
        let mut keep = vec![];
        for i in 0..stuck {
            let mut p = Peer::connect(a.addr).await?;
            p.send(&hello).await?;
            until("a service is asked for while another is being made", || a.log.makes() > i).await?;
            keep.push(p);
        }
        let mut tasks = vec![];
        for i in 0..r.range(3, 10) {
            // neighbours, none of whose troubles matter here
            let mut p = Peer::connect(a.addr).await?;
            let n = |w: &str| Inp::notify(false, 1, 1, &[named(w, 0)]).bytes();
            match r.below(14) {
                0 => drop(p.send(&r.bytes(300)).await),
                // says nothing, or not all, and stays
                10 => keep.push(p),
                11 | 12 => {
                    p.send(&hello[..r.range(1, hello.len() as u64 - 1) as usize]).await?;
                    keep.push(p);
                }
                13 => {
                    let n = r.range(1, 3) as usize;
                    p.send(&hello[..n]).await?;
                    keep.push(p);
                }
                1 => p.reset(),
                2 => {
                    p.send(&hello).await?;
                    p.reset();
                }
                3 => drop(p),
                k => {
                    p.send(&hello).await?;
                    p.expect(&Out::Hello(negotiate(&g, &hello_of()).unwrap())).await?;
                    let w = ["never", "panic", "panic now", "fail", "never", "never"][(k - 4) as usize];
                    if k == 8 {
                        p.send(&Inp::notify(true, 1, 1, &[named("leak", 666)]).bytes()).await?;
                    } else if k == 9 {
                        p.send(&n("x")[..9]).await?;
                    } else {
                        p.send(&n(w)).await?;
                    }
                    keep.push(p);
                }
            }
            let (inputs, out) = tcp_good(&mut r, 1 + i);
            tasks.push(tokio::spawn(tcp_session(a.addr, inputs, out, r.chance(50))));
        }
        for t in tasks {
            judged += t.await.map_err(|e| format!("vp-harness: {e}"))??;
        }
        if a.log.calls().iter().any(|k| k.1.iter().any(|m| m.name == "good") && k.1.iter().any(|m| m.name != "good")) {
            return Err("a service was given messages of two connections".into());
        }
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        stats.count("sessions over TCP judged", 1);
        Ok(())
    });
    res?;
    c.stats.count("sessions over TCP judged", 2);
    c.stats.count("answers over TCP", judged);
    c.nontrivial(hash_bytes(format!("{seed:?}").as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------- C27, over TCP

/// A peer that half-closes or vanishes after any byte.
pub fn tcp_cut(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 1, 2]);
    let stats = &mut c.stats;
    let res = live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), false, &mut r)?;
        for id in 0..r.range(1, 6) {
            let (inputs, _) = tcp_good(&mut r, 1 + id);
            let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
            let mut ends = vec![0];
            for i in &inputs {
                ends.push(ends.last().unwrap() + i.bytes().len());
            }
            let cut = match r.below(3) {
                0 => bytes.len(),
                1 => *r.pick(&ends),
                _ => r.usize(bytes.len()),
            };
            let arrived = ends.iter().filter(|e| **e <= cut).count() - 1;
            let replies: Vec<Act> = inputs[1..]
                .iter()
                .map(|i| match i {
                    Inp::Payload(p) => match wire::decode(p) {
                        wire::Verdict::Frame(Frame::HaproxyNotify(n)) => Act::Reply(echo(&n.messages)),
                        x => panic!("{HARNESS} {x:?}"),
                    },
                    x => panic!("{HARNESS} {x:?}"),
                })
                .collect();
            let e = model(&g, &inputs[..arrived], &Make::Ok(Duration::ZERO), &replies);
            let before = a.log.calls().len();
            let mut p = Peer::connect(a.addr).await?;
            let half = r.chance(75);
            let at = r.usize(cut + 1);
            p.send(&bytes[..at]).await?;
            if r.chance(50) {
                sleep(MS).await;
            }
            p.send(&bytes[at..cut]).await?;
            let what = format!("a connection {} after {cut} of {} bytes ({arrived} frames)", if half { "half-closed" } else { "reset" }, bytes.len());
            if half {
                if r.chance(30) {
                    // everything is answered already when the end comes
                    for o in &e.out {
                        p.expect(o).await.map_err(|x| format!("{what}: {x}"))?;
                    }
                    p.s.shutdown().await.map_err(|e| format!("vp-harness: shutdown {e}"))?;
                } else {
                    p.s.shutdown().await.map_err(|e| format!("vp-harness: shutdown {e}"))?;
                    for o in &e.out {
                        p.expect(o).await.map_err(|x| format!("{what}: {x}"))?;
                    }
                }
                p.end().await.map_err(|x| format!("{what}: {x}"))?;
                let calls = a.log.calls()[before..].to_vec();
                let got: Vec<Vec<Message>> = calls.iter().map(|k| k.1.clone()).collect();
                if got != e.calls {
                    return Err(format!("{what}: the service got {got:?}, expected {:?}", e.calls));
                }
                stats.count("half-closed connections ended by the agent", 1);
            } else {
                for o in &e.out {
                    p.expect(o).await.map_err(|x| format!("{what}: {x}"))?;
                }
                p.reset();
                stats.count("reset connections", 1);
            }
            until("the service of a connection that ended is released", || a.log.made() == a.log.dropped()).await.map_err(|x| format!("{what}: {x}"))?;
        }
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        Ok(())
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

// ---------------------------------------------------------------- C25

pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "case key: phase of every connection when shutdown is requested; non-trivial: shutdown was requested while at least one connection existed or serving had not begun".into();
    let n = ctx.n(4000, 100_000);
    ctx.cases("one connection", n, |c| shutdown_one(c));
    let n = ctx.n(60, 1500);
    ctx.cases("more to read", n, |c| shutdown_flood(c));
    let n = ctx.n(60, 1500);
    ctx.cases("agent", n, |c| shutdown_agent(c));
    let n = ctx.n(80, 2000);
    ctx.cases("late connections", n, |c| shutdown_late(c));
    for x in ["idle connections shut down", "calls finished after shutdown", "agents shut down", "late connections refused"] {
        ctx.require(x, 50);
    }
    ctx.require("shutdowns done with the clock stopped", 5);
}

/// A frame the agent may send on its own account when it shuts a connection.
pub fn goodbye(p: &[u8]) -> bool {
    match_out(p, &Out::Disc { status: vec![0], text: None }).is_ok()
}

pub fn shutdown_one(c: &mut Case) -> R {
    let r = &mut c.rng;
    let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
    let h = plain_hello(16384, gen::CAPS);
    let mut steps = vec![];
    let mut out = vec![];
    let phase = r.below(7);
    let hello_out = Out::Hello(negotiate(&g, &hello_of()).unwrap());
    let mut busy = None;
    let mut acts = vec![];
    if phase > 1 {
        steps.extend([Step::Feed(h.bytes()), Step::Frames(1)]);
        out.push(hello_out);
        for i in 0..r.usize(4) {
            let a = vec![gen::small_action(r)];
            steps.extend([Step::Feed(Inp::notify(false, i as u64, 1, &[named("x", i as u64)]).bytes()), Step::Frames(2 + i)]);
            out.push(Out::Ack { sid: i as u64, fid: 1, actions: a.clone() });
            acts.push(Act::Reply(a));
        }
    }
    if r.chance(30) {
        steps.push(Step::Sleep(MS * r.below(50_000) as u32));
    }
    let b = h.bytes();
    match phase {
        0 => (),
        1 => {
            let k = r.range(1, b.len() as u64 - 1) as usize;
            steps.push(Step::Feed(b[..k].to_vec()));
        }
        2 => (),
        3 => {
            let f = Inp::notify(false, 7, 7, &[named("cut", 7)]).bytes();
            let k = r.range(1, f.len() as u64 - 1) as usize;
            steps.push(Step::Feed(f[..k].to_vec()));
        }
        4 => steps.push(Step::Feed(Inp::notify(true, 7, 7, &[named("fragment", 7)]).bytes())),
        _ => {
            // in the middle of a call
            let d = MS * r.range(10, 14_000) as u32;
            let a = vec![gen::small_action(r)];
            let (sid, fid) = (gen::int(r), gen::fid(r));
            out.push(Out::Ack { sid, fid, actions: a.clone() });
            acts.push(Act::Ok(d, a));
            busy = Some(d);
            steps.push(Step::Feed(Inp::notify(false, sid, fid, &[named("busy", 9)]).bytes()));
        }
    }
    // let it settle
    let before = match busy {
        Some(d) => {
            let t = MS * r.range(2, d.as_millis() as u64 - 3) as u32;
            steps.push(Step::Sleep(t));
            t
        }
        None => {
            steps.push(Step::Sleep(MS * 2));
            MS * 2
        }
    };
    steps.push(Step::Cancel);
    let behave = Behave { call: by_call(acts), ..Behave::default() };
    let s = Stream::new(vec![], End::Open, r.fork());
    let log = Log::default();
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let st = s.clone();
    let (seen, at) = vrt.block_on(async {
        let t0 = tokio::time::Instant::now();
        let steps2 = steps[..steps.len() - 1].to_vec();
        let total: Duration = steps2.iter().map(|s| if let Step::Sleep(d) = s { *d } else { Duration::ZERO }).sum();
        let seen = session(rt.clone(), log.clone(), st, Plan::new(steps)).await;
        let _ = t0;
        (seen, total)
    });
    let fail = |x: String| format!("{x} (phase {phase}, shutdown requested at {at:?}, call {busy:?} begun {before:?} before)");
    if let Some((p, rest)) = seen.frames.split_last().filter(|x| x.1.len() == out.len() && goodbye(&x.0 .1)) {
        let _ = p;
        check_frames(rest, &seen.rest, &out).map_err(fail)?;
    } else {
        check_frames(&seen.frames, &seen.rest, &out).map_err(fail)?;
    }
    let due = at + busy.map(|d| d - before).unwrap_or_default();
    match seen.closed {
        None => return Err(fail("the connection was not closed".into())),
        Some(t) if t > due + MS * 3 => return Err(fail(format!("the connection was closed at {t:?}, {due:?} was due"))),
        Some(t) if t + MS * 3 < due => return Err(fail(format!("the connection was closed at {t:?}, before the call was answered at {due:?}"))),
        _ => (),
    }
    if log.made() != log.dropped() {
        return Err(fail("the service was not released".into()));
    }
    c.stats.count(if busy.is_some() { "calls finished after shutdown" } else { "idle connections shut down" }, 1);
    c.nontrivial(mix(phase) ^ mix(before.as_nanos() as u64) ^ mix(seen.frames.len() as u64 + 99) ^ mix(seen.consumed as u64));
    Ok(())
}

/// What is not being processed yet does not put a shutdown off, however much of it there is.
pub fn shutdown_flood(c: &mut Case) -> R {
    let r = &mut c.rng;
    let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
    let many = 2500u64;
    let kind = r.below(4);
    let at = r.usize(40);
    let wait = MS * r.below(20) as u32;
    let mut bytes = engine_hello(r).bytes();
    for i in 0..many {
        // fragments need no answer
        let fragmented = kind == 1 || kind == 2 && i % 3 != 0;
        bytes.extend(Inp::notify(fragmented, if kind == 1 { i } else { i % 3 }, 1 + i, &[named("x", i)]).bytes());
    }
    let s = Stream::new(vec![], End::Open, r.fork()).with(|w| w.max_read = *Rng::pick(&mut w.rng, &[100, 1000, usize::MAX]));
    let log = Log::default();
    let tok = tokio_util::sync::CancellationToken::new();
    let t2 = tok.clone();
    let behave = Behave {
        // requested from within a call, or by the peer
        call: Arc::new(move |_, k, _| {
            if k == at {
                t2.cancel();
                Act::Ok(wait, vec![])
            } else {
                Act::Reply(vec![])
            }
        }),
        ..Behave::default()
    };
    let vrt = virtual_rt();
    let rt = g.build(&log, behave, r);
    let s2 = s.clone();
    let ended = vrt.block_on(async {
        let mut conn = haproxy_spoa::Connection::new(rt, Io(s2.clone()), tok.clone());
        s2.feed(&bytes);
        let task = tokio::spawn(async move {
            let r = conn.serve().await;
            drop(conn);
            r.is_ok()
        });
        if kind == 1 {
            tok.cancel();
        }
        tokio::time::timeout(HOUR, task).await.is_ok()
    });
    let calls = log.calls().len() as u64;
    if !ended {
        return Err(format!("a connection with more to read was not closed by a shutdown (after call {at}); {calls} calls of {many}"));
    }
    let left = bytes.len() - s.consumed();
    // of some 60 kB
    if calls > at as u64 + 500 || left < 8192 {
        return Err(format!("a shutdown after call {at} was put off by what the peer had sent: {calls} calls, {left} bytes left unread (kind {kind})"));
    }
    let (frames, rest) = {
        let sent = s.sent();
        let (f, rest) = wire::split(&sent);
        (f.len() as u64, rest.len())
    };
    // every call is acknowledged
    let hello = 1;
    let done = s.sent();
    let acks = wire::split(&done).0.iter().filter(|p| matches!(wire::decode(p), wire::Verdict::Frame(Frame::AgentAck(_)))).count() as u64;
    if acks != calls || rest != 0 {
        return Err(format!("{calls} calls, but {acks} ACKs of {frames} frames, {rest} bytes more"));
    }
    let _ = hello;
    c.stats.count("shutdowns of a connection with more to read", 1);
    c.stats.max("calls begun after a shutdown", calls.saturating_sub(at as u64 + 1));
    c.nontrivial(mix(kind) ^ mix(at as u64 + 7) ^ mix(wait.as_nanos() as u64 + 3) ^ mix(calls));
    Ok(())
}

pub fn shutdown_agent(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 1, 2, 4]);
    let g = Cfg { caps: gen::CAPS.to_vec(), limit: Some(Duration::from_secs(3600)), state: 1, ..Cfg::default() };
    let stats = &mut c.stats;
    let res = live(threads, async {
        let gate = Arc::new(Semaphore::new(0));
        let a = start(&g, by_name(gate.clone()), false, &mut r)?;
        let hello = engine_hello(&mut r).bytes();
        let agent_hello = Out::Hello(negotiate(&g, &hello_of()).unwrap());
        let mut idle = vec![];
        let mut busy = vec![];
        for i in 0..r.usize(8) as u64 {
            let mut p = Peer::connect(a.addr).await?;
            let phase = r.below(8);
            if phase < 2 {
                // before or within the hello
                if phase == 1 {
                    p.send(&hello[..7]).await?;
                }
                idle.push(p);
                continue;
            }
            p.send(&hello).await?;
            p.expect(&agent_hello).await?;
            match phase {
                2 => idle.push(p),
                3 => {
                    p.send(&Inp::notify(false, 1, 1, &[named("ok", i)]).bytes()).await?;
                    p.expect(&Out::Ack { sid: 1, fid: 1, actions: echo(&[named("ok", i)]) }).await?;
                    idle.push(p);
                }
                4 => {
                    p.send(&Inp::notify(false, 1, 1, &[named("cut", i)]).bytes()[..8]).await?;
                    idle.push(p);
                }
                // gone already
                5 => {
                    if r.chance(50) {
                        p.reset()
                    }
                }
                6 => {
                    // ended by the agent already
                    let n = |w: &str| Inp::notify(false, 1, 1, &[named(w, i)]).bytes();
                    match r.below(6) {
                        0 => {
                            p.send(&wire::framed(&[0xff; 9])).await?;
                            p.expect(&Out::Disc { status: vec![4], text: None }).await?;
                        }
                        1 => p.send(&n("panic")).await?,
                        2 => p.send(&n("panic now")).await?,
                        3 => {
                            p.send(&n("fail")).await?;
                            p.expect(&Out::Disc { status: vec![99], text: None }).await?;
                        }
                        4 => {
                            // a health check beside it
                            let h = HaproxyHello { healthcheck: Some(true), ..hello_of() };
                            let mut q = Peer::connect(a.addr).await?;
                            q.send(&wire::wire(&Frame::HaproxyHello(h))).await?;
                            q.expect(&agent_hello).await?;
                            q.end().await?;
                            p.reset();
                            continue;
                        }
                        _ => {
                            p.send(&wire::wire(&Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: "".into() }))).await?;
                            p.expect(&Out::Disc { status: vec![0], text: None }).await?;
                        }
                    }
                    p.end().await?;
                    stats.count("connections that had ended before the shutdown", 1);
                }
                _ => {
                    let n = a.log.calls().len();
                    p.send(&Inp::notify(false, i, 1, &[named("gate", i)]).bytes()).await?;
                    until("a call", || a.log.calls().len() > n).await?;
                    busy.push((i, p));
                }
            }
        }
        // the connections that have not said anything have been accepted
        tcp_session(a.addr, vec![plain_hello(16384, gen::CAPS)], vec![agent_hello.clone()], true).await?;
        a.tok.cancel();
        let (ni, nb) = (idle.len() as u64, busy.len() as u64);
        at_once(threads, "closing of idle connections by a shutdown", async {
            for mut p in idle {
                match p.frame().await {
                    Ok(None) => (),
                    Ok(Some(f)) if goodbye(&f) => p.end().await?,
                    // what it had sent was not read any more
                    Err(e) if e.starts_with("reading: ") => (),
                    Ok(Some(f)) => return Err(format!("an idle connection got {}", show(&f))),
                    Err(e) => return Err(format!("an idle connection was not closed by a shutdown: {e}")),
                }
            }
            Ok(())
        })
        .await?;
        if !busy.is_empty() {
            half_an_hour(threads).await;
            if a.serve.is_finished() {
                return Err(format!("serving returned with {} calls unfinished", busy.len()));
            }
        }
        gate.add_permits(busy.len());
        let mut serve = a.serve;
        at_once(threads, "the end of serving after the last call", async {
            for (i, p) in busy.iter_mut() {
                p.expect(&Out::Ack { sid: *i, fid: 1, actions: echo(&[named("gate", *i)]) })
                    .await
                    .map_err(|e| format!("a call unfinished at the shutdown was not acknowledged: {e}"))?;
                match p.frame().await? {
                    None => (),
                    Some(f) if goodbye(&f) => p.end().await?,
                    Some(f) => return Err(format!("after its ACK a connection got {}", show(&f))),
                }
            }
            match eventually("serving ends", &mut serve).await? {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(format!("serving failed: {e}")),
                Err(e) => Err(format!("serving panicked: {e}")),
            }
        })
        .await?;
        if threads == 0 {
            stats.count("shutdowns done with the clock stopped", 1);
        }
        let (made, dropped) = (a.log.made(), a.log.dropped());
        if made != dropped {
            return Err(format!("serving ended with {} services not released", made - dropped));
        }
        stats.count("agents shut down", 1);
        stats.count("idle connections shut down over TCP", ni);
        stats.count("calls finished after shutdown over TCP", nb);
        Ok(())
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

/// Connections made after the shutdown was requested, before serving has noticed or begun.
pub fn shutdown_late(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let before_serving = c.idx % 2 == 0;
    let stats = &mut c.stats;
    let res = live(0, async {
        let g = Cfg { state: 1, ..Cfg::default() };
        let log = Log::default();
        let rt = g.build(&log, Behave::default(), &mut r);
        let l = listener(false);
        let addr = l.local_addr().expect("vp-harness: addr");
        let agent = Agent::new(rt, l).map_err(|e| format!("the agent refused an ordinary listener: {e}"))?;
        let tok = agent.shutdown();
        let mut early = vec![];
        let serve;
        if before_serving {
            tok.cancel();
            serve = None;
        } else {
            serve = Some(());
        }
        let agent = Arc::new(agent);
        let mut task = None;
        if serve.is_some() {
            let a2 = agent.clone();
            task = Some(tokio::spawn(async move { a2.serve().await.map_err(|e| e.to_string()) }));
            for _ in 0..r.usize(3) {
                let mut p = Peer::connect(addr).await?;
                p.send(&plain_hello(16384, &[]).bytes()).await?;
                p.frame().await?;
                early.push(p);
            }
            tok.cancel();
        }
        // no await from here on: the agent has not run since
        let mut late = vec![];
        for _ in 0..r.range(1, 3) {
            let mut s = StdStream::connect(addr).map_err(|e| format!("vp-harness: connect {e}"))?;
            s.write_all(&plain_hello(16384, &[]).bytes()).map_err(|e| format!("vp-harness: write {e}"))?;
            late.push(s);
        }
        let made = log.makes();
        let mut task = match task {
            Some(t) => t,
            None => {
                if r.chance(50) {
                    // the runtime learns of the pending connections
                    sleep(MS).await;
                }
                let a2 = agent.clone();
                tokio::spawn(async move { a2.serve().await.map_err(|e| e.to_string()) })
            }
        };
        match eventually("serving ends after the shutdown", &mut task).await? {
            Ok(Ok(())) => (),
            other => return Err(format!("serving failed: {other:?}")),
        }
        if log.makes() != made {
            return Err("a connection made after the shutdown was requested was served".into());
        }
        drop(agent);
        for mut s in late {
            s.set_nonblocking(false).ok();
            s.set_read_timeout(Some(Duration::from_secs(20))).ok();
            let mut b = [0u8; 64];
            match s.read(&mut b) {
                Ok(n) if n > 0 => return Err(format!("a connection made after the shutdown was answered: {}", hexc(&b[..n]))),
                _ => (),
            }
            stats.count("late connections refused", 1);
        }
        Ok(())
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

// ---------------------------------------------------------------- C26

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "case key: the episode's shape; non-trivial: accepting was made to fail, or peers vanished, and connections were served afterwards".into();
    let n = ctx.n(14, 200);
    ctx.cases("no descriptors", n, |c| exhausted(c, 60));
    let n = ctx.n(2, 20);
    ctx.cases("no descriptors for long", n, |c| exhausted(c, if c.thorough { 20_000 } else { 6000 }));
    let n = ctx.n(30, 500);
    ctx.cases("vanishing peers", n, |c| vanishing(c, 40));
    let n = ctx.n(2, 20);
    ctx.cases("very many peers", n, |c| vanishing(c, if c.thorough { 20_000 } else { 3000 }));
    let n = ctx.n(12, 200);
    ctx.cases("returning peers", n, returning);
    ctx.cases("no descriptors for hours", ctx.n(3, 20), |c| exhausted_hours(c));
    ctx.cases("more peers than sixteen bits count", ctx.n(1, 4), |c| procession(c));
    ctx.require("connections pending while no descriptor was free, then served", 10);
    ctx.require("connections that vanished", 100);
    ctx.require("connections from the port of an earlier one", 40);
    ctx.require("connections served", 100);
}

pub fn socket_for(a: SocketAddr) -> tokio::net::TcpSocket {
    match a {
        SocketAddr::V4(_) => tokio::net::TcpSocket::new_v4(),
        SocketAddr::V6(_) => tokio::net::TcpSocket::new_v6(),
    }
    .expect("vp-harness: socket")
}

pub struct Limit(libc::rlimit);

impl Limit {
    pub fn lower(n: u64) -> Limit {
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let new = libc::rlimit { rlim_cur: n.min(old.rlim_max), rlim_max: old.rlim_max };
            libc::setrlimit(libc::RLIMIT_NOFILE, &new);
        }
        Limit(old)
    }
}

impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

pub fn exhausted(c: &mut Case, ms: u64) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 1, 2]);
    let stats = &mut c.stats;
    let res = live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), r.chance(50), &mut r)?;
        for i in 0..r.usize(3) {
            let (inputs, out) = tcp_good(&mut r, i as u64);
            tcp_session(a.addr, inputs, out, true).await?;
        }
        for _ in 0..if ms > 100 { 1 } else { r.range(1, 3) } {
            let k = r.range(1, 5);
            let sockets: Vec<tokio::net::TcpSocket> =
                (0..k).map(|_| socket_for(a.addr)).collect();
            let mut pending = vec![];
            {
                let _limit = Limit::lower(200);
                let mut fill = vec![];
                while let Ok(f) = std::fs::File::open("/dev/null") {
                    fill.push(f);
                }
                stats.max("descriptors held", fill.len() as u64);
                for s in sockets {
                    let s = eventually("connecting", s.connect(a.addr)).await?.map_err(|e| format!("vp-harness: connect {e}"))?;
                    pending.push(Peer { s, buf: vec![] });
                }
                // accepting fails now
                for _ in 0..r.range(2, 12).max(ms / 10) {
                    sleep(MS * 5).await;
                }
                if a.serve.is_finished() {
                    return Err("the agent gave up when accepting failed".into());
                }
            }
            for (i, mut p) in pending.into_iter().enumerate() {
                let (inputs, out) = tcp_good(&mut r, 50 + i as u64);
                p.send(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()).await?;
                for o in &out {
                    p.expect(o).await.map_err(|e| format!("a connection pending while accepting failed: {e}"))?;
                }
                stats.count("connections pending while no descriptor was free, then served", 1);
            }
            let (inputs, out) = tcp_good(&mut r, 90);
            tcp_session(a.addr, inputs, out, false).await.map_err(|e| format!("a connection made after accepting had failed: {e}"))?;
            stats.count("connections served", 1);
        }
        a.tok.cancel();
        let mut serve = a.serve;
        match eventually("serving ends", &mut serve).await? {
            Ok(Ok(())) => Ok(()),
            other => Err(format!("serving failed: {other:?}")),
        }
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

/// No descriptor is free for hours, on a clock that is set forward; then there are.
pub fn exhausted_hours(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let hours = r.range(1, 8);
    let stats = &mut c.stats;
    live(0, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), r.chance(50), &mut r)?;
        let (inputs, out) = tcp_good(&mut r, 1);
        tcp_session(a.addr, inputs, out, true).await?;
        let socket = socket_for(a.addr);
        let mut p;
        {
            let _limit = Limit::lower(200);
            let mut fill = vec![];
            while let Ok(f) = std::fs::File::open("/dev/null") {
                fill.push(f);
            }
            let s = eventually("connecting", socket.connect(a.addr)).await?.map_err(|e| format!("vp-harness: connect {e}"))?;
            p = Peer { s, buf: vec![] };
            a_while().await;
            tokio::time::pause();
            sleep(Duration::from_secs(3600 * hours)).await;
            tokio::time::resume();
            if a.serve.is_finished() {
                return Err("the agent gave up when accepting failed".into());
            }
        }
        // at most a quarter of an hour later
        let made = a.log.makes();
        let (inputs, out) = tcp_good(&mut r, 50);
        p.send(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()).await?;
        for _ in 0..150 {
            if a.log.makes() > made {
                break;
            }
            tokio::time::pause();
            sleep(Duration::from_secs(6)).await;
            tokio::time::resume();
            sleep(MS * 2).await;
        }
        if a.log.makes() == made {
            return Err(format!("a quarter of an hour after {hours} hours without descriptors, a pending connection is not accepted"));
        }
        for o in &out {
            p.expect(o).await.map_err(|e| format!("a connection pending while accepting failed for hours: {e}"))?;
        }
        stats.count("connections pending while no descriptor was free, then served", 1);
        stats.max("hours without descriptors", hours);
        let (inputs, out) = tcp_good(&mut r, 90);
        tcp_session(a.addr, inputs, out, false).await?;
        stats.count("connections served", 1);
        Ok(())
    })?;
    c.nontrivial(mix(c.idx));
    Ok(())
}

/// More connections, one after another, than sixteen bits can count.
pub fn procession(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let threads = *r.pick(&[0usize, 2]);
    let stats = &mut c.stats;
    live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), false, &mut r)?;
        for i in 0..66_000u64 {
            if i % 60 == 0 || i > 65_480 && i < 65_560 {
                // those before have been accepted
                let (inputs, out) = tcp_good(&mut r, i);
                tcp_session(a.addr, inputs, out, true).await.map_err(|e| format!("connection {i}: {e}"))?;
                stats.count("connections served", 1);
            } else {
                Peer::connect(a.addr).await?.reset();
                stats.count("connections that vanished", 1);
            }
        }
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        Ok(())
    })?;
    c.nontrivial(mix(c.idx));
    Ok(())
}

pub fn vanishing(c: &mut Case, most: u64) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 1, 2, 4]);
    let stats = &mut c.stats;
    let res = live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), r.chance(50), &mut r)?;
        stats.count(if a.addr.is_ipv6() { "agents reached by IPv6" } else { "agents reached by IPv4" }, 1);
        let hello = engine_hello(&mut r).bytes();
        let mut vanished = 0u64;
        for round in 0..if most > 40 { 1 } else { r.range(1, 4) } {
            for _ in 0..if most > 40 { most } else { r.range(1, 40) } {
                let mut p = Peer::connect(a.addr).await?;
                match r.below(6) {
                    0 => drop(p),
                    1 => p.reset(),
                    2 => {
                        let _ = p.send(&hello).await;
                        p.reset();
                    }
                    3 => {
                        let _ = p.send(&hello[..5]).await;
                        drop(p);
                    }
                    4 => {
                        let _ = p.send(&hello).await;
                        let _ = p.send(&Inp::notify(false, 1, 1, &[named(*r.pick(&["ok", "panic", "fail"]), 1)]).bytes()).await;
                        drop(p);
                    }
                    _ => {
                        let _ = p.send(&hello).await;
                        let _ = p.frame().await;
                        p.reset();
                    }
                }
                vanished += 1;
                if r.chance(10) {
                    tokio::task::yield_now().await;
                }
            }
            let mut tasks = vec![];
            for i in 0..r.range(1, 6) {
                let (inputs, out) = tcp_good(&mut r, 1 + round * 10 + i);
                tasks.push(tokio::spawn(tcp_session(a.addr, inputs, out, i % 2 == 0)));
            }
            for t in tasks {
                t.await.map_err(|e| format!("vp-harness: {e}"))?.map_err(|e| format!("after {vanished} peers had vanished: {e}"))?;
                stats.count("connections served", 1);
            }
        }
        // whatever they left behind is released
        until("services of vanished peers are released", || a.log.made() == a.log.dropped()).await?;
        stats.count("connections that vanished", vanished);
        if a.serve.is_finished() {
            return Err("the agent stopped serving".into());
        }
        a.tok.cancel();
        let mut serve = a.serve;
        match eventually("serving ends", &mut serve).await? {
            Ok(Ok(())) => Ok(()),
            other => Err(format!("serving failed: {other:?}")),
        }
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

/// Peers that come again from the address and port they had, however their connections ended.
pub fn returning(c: &mut Case) -> R {
    let mut r = c.rng.fork();
    let key = r.next();
    let threads = *r.pick(&[0usize, 1, 2, 4]);
    let stats = &mut c.stats;
    let res = live(threads, async {
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 1, ..Cfg::default() };
        let a = start(&g, by_name(Arc::new(Semaphore::new(0))), r.chance(50), &mut r)?;
        let mut from: Vec<SocketAddr> = (0..r.range(1, 4))
            .map(|i| match a.addr {
                SocketAddr::V4(_) => SocketAddr::from(([127, 0, 0, 1 + (i as u8 / 2) * 7], 0)),
                SocketAddr::V6(_) => SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], 0)),
            })
            .collect();
        let mut how = vec![];
        for round in 0..r.range(3, 9) {
            for i in 0..from.len() {
                let s = socket_for(a.addr);
                s.set_reuseaddr(true).expect("vp-harness: reuse");
                if s.bind(from[i]).is_err() {
                    // taken by somebody else
                    from[i].set_port(0);
                    continue;
                }
                let again = from[i].port() != 0;
                from[i] = s.local_addr().expect("vp-harness: address");
                let s = match eventually("connecting", s.connect(a.addr)).await? {
                    Ok(s) => s,
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::AddrNotAvailable | std::io::ErrorKind::AddrInUse) => {
                        from[i].set_port(0);
                        continue;
                    }
                    Err(e) => return Err(format!("connecting: {e}")),
                };
                let _ = s.set_nodelay(true);
                let mut p = Peer { s, buf: vec![] };
                let (inputs, out) = tcp_good(&mut r, 1 + round * 10 + i as u64);
                let end = r.below(7);
                let served: R = async {
                    if end == 0 {
                        // nothing said
                        return Ok(());
                    }
                    p.send(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()).await?;
                    for o in &out {
                        p.expect(o).await?;
                    }
                    match end {
                        1 => {
                            p.send(&wire::wire(&Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: "".into() }))).await?;
                            p.expect(&Out::Disc { status: vec![0], text: None }).await?;
                            p.end().await?;
                        }
                        2 => p.send(&[0, 0, 0]).await?,
                        3 => {
                            p.send(&wire::framed(&[77; 20])).await?;
                            p.expect(&Out::Disc { status: vec![4], text: None }).await?;
                            p.end().await?;
                        }
                        4 => {
                            p.send(&Inp::notify(false, 1, 1, &[named("fail", 1)]).bytes()).await?;
                            p.frame().await?;
                            p.end().await?;
                        }
                        5 => p.send(&Inp::notify(false, 1, 1, &[named("panic", 1)]).bytes()).await?,
                        _ => (),
                    }
                    Ok(())
                }
                .await;
                served.map_err(|e| {
                    let what = if again { "a connection from the address and port of an earlier one" } else { "a connection" };
                    format!("{what}: {e}; earlier ones ended as {how:?}")
                })?;
                how.push(end);
                // so that the port is free at once
                p.reset();
                if again {
                    stats.count("connections from the port of an earlier one", 1);
                }
                stats.count("connections served", 1);
            }
            until("services of earlier connections are released", || a.log.made() == a.log.dropped()).await?;
        }
        a.tok.cancel();
        let mut serve = a.serve;
        match eventually("serving ends", &mut serve).await? {
            Ok(Ok(())) => Ok(()),
            other => Err(format!("serving failed: {other:?}")),
        }
    });
    res?;
    c.nontrivial(key);
    Ok(())
}

#[allow(dead_code)]
pub fn caps() -> &'static [Capability] {
    gen::CAPS
}
