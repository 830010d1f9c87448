//! Connections over simulated transports under a virtual clock: a scripted peer, what it saw,
//! and a reference agent that says what it should have seen.

use std::sync::Arc;
use std::time::Duration;

use haproxy_spoa::runtime::{Builder, Runtime};
use haproxy_spoa::Connection;
use haproxy_spop::{Action, AgentHello, Capability, Frame, HaproxyHello, Message, Version};
use tokio::time::{sleep, timeout, Instant};
use tokio_util::sync::CancellationToken;

use crate::core::*;
use crate::gen;
use crate::mon::*;
use crate::sim::*;
use crate::wire::{self, Verdict};

pub type Rt = Arc<Runtime<Factory, Token>>;

// ---------------------------------------------------------------- configuration

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// Empty: not set.
    pub versions: Vec<Version>,
    pub caps: Vec<Capability>,
    pub max: Option<usize>,
    pub limit: Option<Duration>,
    pub state: u64,
}

impl Cfg {
    pub fn eff_versions(&self) -> Vec<Version> {
        if self.versions.is_empty() {
            vec![Version::new(2, 0)]
        } else {
            self.versions.clone()
        }
    }
    pub fn eff_max(&self) -> u64 {
        self.max.unwrap_or(16384) as u64
    }
    pub fn eff_limit(&self) -> Duration {
        self.limit.unwrap_or(Duration::from_secs(15))
    }

    pub fn build(&self, log: &Log, behave: Behave, r: &mut Rng) -> Rt {
        let mut b = if r.chance(50) { Builder::new() } else { Builder::default() };
        for v in &self.versions {
            b = b.version(*v);
        }
        // some one by one, some as lists, in any order
        let mut i = 0;
        while i < self.caps.len() {
            let k = if r.chance(50) { 1 } else { 1 + r.usize(self.caps.len() - i) };
            let part = &self.caps[i..i + k];
            b = match part {
                [Capability::Fragmentation] if r.chance(60) => b.fragmentation(),
                [Capability::Pipelining] if r.chance(60) => b.pipelining(),
                [Capability::Async] if r.chance(60) => b.asynchronous(),
                [c] if r.chance(60) => b.capability(*c),
                _ => b.capabilities(part.to_vec()),
            };
            i += k;
            if r.chance(10) {
                b = b.capabilities(vec![]);
            }
        }
        // the last setting counts
        if let Some(n) = self.max {
            if r.chance(10) {
                b = b.max_frame_size(1 + r.usize(100_000));
            }
            b = b.max_frame_size(n);
        }
        if let Some(d) = self.limit {
            if r.chance(10) {
                b = b.max_process_time(Duration::from_millis(r.below(100_000)));
            }
            b = b.max_process_time(d);
        }
        b.make_service(
            Factory::new(log.clone(), behave),
            Token { value: self.state, generation: 0 },
        )
    }
}

pub fn hello(versions: &[Version], size: u32, caps: &[Capability]) -> HaproxyHello {
    HaproxyHello {
        supported_versions: versions.to_vec(),
        max_frame_size: size,
        capabilities: caps.to_vec(),
        healthcheck: None,
        engine_id: None,
    }
}

/// The hello most sessions start with.
pub fn plain_hello(size: u32, caps: &[Capability]) -> Inp {
    Inp::Payload(wire::payload(&Frame::HaproxyHello(hello(&[Version::new(2, 0)], size, caps))))
}

/// The connections of one engine have its id in common.
pub fn engine_hello(r: &mut Rng) -> Inp {
    let mut h = hello(&[Version::new(2, 0)], 16384, gen::CAPS);
    h.engine_id = match r.below(4) {
        0 => None,
        1 => Some(gen::text(r, 30)),
        2 => Some("3e1f".into()),
        _ => Some("engine".into()),
    };
    Inp::Payload(wire::payload(&Frame::HaproxyHello(h)))
}

// ---------------------------------------------------------------- the peer

#[derive(Clone, Debug)]
pub enum Step {
    Feed(Vec<u8>),
    /// Waits until the peer has seen this many frames.
    Frames(usize),
    Calls(usize),
    Sleep(Duration),
    End(End),
    Cancel,
    /// Drops the connection while it serves.
    Abort,
}

#[derive(Debug, Default)]
pub struct Seen {
    /// What the peer received, and when its last byte was written.
    pub frames: Vec<(Duration, Vec<u8>)>,
    pub rest: Vec<u8>,
    /// When serving ended, by itself.
    pub closed: Option<Duration>,
    /// Serving ended after the peer then closed its end.
    pub closed_late: bool,
    pub panicked: bool,
    pub aborted: bool,
    pub result: Option<Result<(), String>>,
    pub consumed: usize,
    /// A peer step that was not answered in time.
    pub stuck: Option<String>,
    /// Services made and released when serving had ended.
    pub made: usize,
    pub dropped: usize,
    pub t0: Option<Instant>,
    pub bytes: Vec<u8>,
}

pub const HOUR: Duration = Duration::from_secs(3600);

pub struct Plan {
    pub steps: Vec<Step>,
    /// How long the peer watches afterwards.
    pub horizon: Duration,
}

impl Plan {
    pub fn new(steps: Vec<Step>) -> Plan {
        Plan { steps, horizon: HOUR }
    }
}

/// One connection from start to end. Runs on a virtual clock.
pub async fn session(rt: Rt, log: Log, stream: Stream, plan: Plan) -> Seen {
    let t0 = Instant::now();
    stream.0.lock().unwrap().stamp = true;
    let tok = CancellationToken::new();
    let mut conn = Connection::new(rt, Io(stream.clone()), tok.clone());
    let mut task = tokio::spawn(async move {
        let r = conn.serve().await;
        let t = Instant::now();
        drop(conn);
        (t, r.map_err(|e| e.to_string()))
    });
    let mut seen = Seen { t0: Some(t0), ..Seen::default() };
    let week = HOUR * 24 * 7;
    for s in plan.steps {
        match s {
            Step::Feed(b) => stream.feed(&b),
            Step::Frames(n) => {
                if timeout(week, stream.wait_frames(n)).await.is_err() {
                    seen.stuck = Some(format!("{n} frames"));
                }
            }
            Step::Calls(n) => {
                let w = async {
                    while !log.wait_calls(n) {
                        sleep(Duration::from_millis(1)).await;
                    }
                };
                if timeout(Duration::from_secs(120), w).await.is_err() {
                    seen.stuck = Some(format!("{n} calls"));
                }
            }
            Step::Sleep(d) => sleep(d).await,
            Step::End(e) => stream.end(e),
            Step::Cancel => tok.cancel(),
            Step::Abort => {
                task.abort();
                seen.aborted = true;
            }
        }
    }
    let mut res = timeout(plan.horizon, &mut task).await;
    if res.is_err() {
        stream.end(End::Eof);
        res = timeout(week, &mut task).await;
        seen.closed_late = res.is_ok();
    }
    match res {
        Ok(Ok((t, r))) => {
            if !seen.closed_late {
                seen.closed = Some(t - t0);
            }
            seen.result = Some(r);
        }
        Ok(Err(e)) => {
            seen.panicked = e.is_panic();
            if !seen.closed_late {
                seen.closed = Some(Instant::now() - t0);
            }
        }
        Err(_) => {
            task.abort();
            let _ = task.await;
        }
    }
    seen.made = log.made();
    seen.dropped = log.dropped();
    seen.consumed = stream.consumed();
    let sent = stream.sent();
    let marks = stream.0.lock().unwrap().out_marks.clone();
    let (frames, rest) = wire::split(&sent);
    let mut end = 0;
    for f in frames {
        end += 4 + f.len();
        let at = marks.iter().find(|m| m.0 >= end).map(|m| m.1 - t0).unwrap_or_default();
        seen.frames.push((at, f.to_vec()));
    }
    seen.rest = rest.to_vec();
    seen.bytes = sent;
    seen
}

/// A session on a runtime of its own.
pub fn alone(cfg: &Cfg, behave: Behave, stream: Stream, plan: Plan, r: &mut Rng) -> (Seen, Log) {
    let log = Log::default();
    let vrt = virtual_rt();
    let rt = cfg.build(&log, behave, r);
    let seen = vrt.block_on(session(rt.clone(), log.clone(), stream, plan));
    drop(rt);
    (seen, log)
}

/// Delivers frames in one of many ways.
pub fn deliver(inputs: &[Vec<u8>], r: &mut Rng) -> Vec<Step> {
    let all: Vec<u8> = inputs.concat();
    match r.below(5) {
        // everything at once, the hello included
        0 => vec![Step::Feed(all)],
        // frame by frame
        1 => inputs.iter().map(|b| Step::Feed(b.clone())).collect(),
        // the hello first, then everything else at once
        2 => {
            let n = inputs.first().map(|b| b.len()).unwrap_or(0);
            vec![Step::Feed(all[..n].to_vec()), Step::Frames(1), Step::Feed(all[n..].to_vec())]
        }
        // in pieces, with pauses
        _ => {
            let mut steps = vec![];
            let mut p = 0;
            // pauses up to seconds, minutes, or hours
            let slow = *r.pick(&[0, 0, 0, 3_000_000, 3_000_000, 200_000_000, 20_000_000_000u64]);
            let mut total = 0;
            while p < all.len() {
                let n = match r.below(4) {
                    0 => 1 + r.usize(4),
                    1 => 1 + r.usize(40),
                    _ => 1 + r.usize(2000),
                }
                .min(all.len() - p);
                steps.push(Step::Feed(all[p..p + n].to_vec()));
                p += n;
                if slow > 0 && total < 12 * 3600 * 1_000_000 && r.chance(70) {
                    let d = r.below(slow);
                    total += d;
                    steps.push(Step::Sleep(Duration::from_micros(d)));
                }
            }
            steps
        }
    }
}

pub fn stream(r: &mut Rng) -> Stream {
    let s = Stream::new(vec![], End::Open, r.fork());
    match r.below(3) {
        0 => s,
        1 => s.rough(),
        _ => s.rough().with(|w| w.buffered = true),
    }
}

// ---------------------------------------------------------------- the reference agent

#[derive(Clone, Debug)]
pub enum Inp {
    Payload(Vec<u8>),
    /// An announced length, and what follows.
    Raw(u32, Vec<u8>),
}

impl Inp {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Inp::Payload(p) => wire::framed(p),
            Inp::Raw(n, b) => {
                let mut o = n.to_be_bytes().to_vec();
                o.extend_from_slice(b);
                o
            }
        }
    }
    fn len(&self) -> u64 {
        match self {
            Inp::Payload(p) => p.len() as u64,
            Inp::Raw(n, _) => *n as u64,
        }
    }
    fn payload(&self) -> &[u8] {
        match self {
            Inp::Payload(p) => p,
            Inp::Raw(_, b) => b,
        }
    }
    pub fn notify(fragmented: bool, sid: u64, fid: u64, msgs: &[Message]) -> Inp {
        Inp::Payload(wire::notify_frame(if fragmented { 0 } else { wire::FIN }, sid, fid, msgs))
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Hello(AgentHello),
    Ack { sid: u64, fid: u64, actions: Vec<Action> },
    Disc { status: Vec<u32>, text: Option<String> },
}

#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub out: Vec<Out>,
    pub calls: Vec<Vec<Message>>,
    pub made: bool,
    pub closed: bool,
    /// inputs looked at before the end
    pub used: usize,
    pub max: u64,
}

pub fn negotiate(cfg: &Cfg, h: &HaproxyHello) -> Option<AgentHello> {
    let ours = cfg.eff_versions();
    let version = *h
        .supported_versions
        .iter()
        .filter(|v| ours.contains(v))
        .max_by_key(|v| (v.major, v.minor))?;
    let mut capabilities = vec![];
    for c in gen::CAPS {
        if cfg.caps.contains(c) && h.capabilities.contains(c) {
            capabilities.push(*c);
        }
    }
    Some(AgentHello {
        version,
        max_frame_size: (h.max_frame_size as u64).min(cfg.eff_max()) as u32,
        capabilities,
    })
}

fn codes(list: &[haproxy_spop::Error]) -> Vec<u32> {
    if list.is_empty() {
        vec![4, 5, 6, 7, 8]
    } else {
        list.iter().map(|e| wire::STATUS_TABLE.iter().find(|s| s.0 == *e).unwrap().1).collect()
    }
}

pub fn ack_len(sid: u64, fid: u64, actions: &[Action]) -> usize {
    let mut o = vec![];
    wire::head(&mut o, wire::T_AGENT_ACK, wire::FIN, sid, fid);
    for a in actions {
        wire::action(&mut o, a);
    }
    o.len()
}

/// What a conforming agent does with these inputs, its service answering with `acts` in turn.
/// The ids of a frame of type UNSET, when they can be read.
pub fn unset_ids(p: &[u8]) -> Option<(u64, u64)> {
    let mut d = wire::Dec::new(p.get(5..)?);
    Some((d.varint().ok()?, d.varint().ok()?))
}

pub fn unset_frame(flags: u32, sid: u64, fid: u64, body: &[u8]) -> Vec<u8> {
    let mut p = vec![wire::T_UNSET];
    p.extend(flags.to_be_bytes());
    wire::varint(&mut p, sid);
    wire::varint(&mut p, fid);
    p.extend_from_slice(body);
    p
}

pub fn model(cfg: &Cfg, inputs: &[Inp], make: &Make, acts: &[Act]) -> Expect {
    let mut e = Expect { max: cfg.eff_max(), ..Expect::default() };
    let disc = |e: &mut Expect, status: Vec<u32>, text: Option<String>| {
        let text = text.filter(|t| (t.len() as u64) + 100 <= e.max);
        e.out.push(Out::Disc { status, text });
        e.closed = true;
    };
    let mut fragments: Vec<((u64, u64), Vec<Message>)> = vec![];
    let mut negotiated: Option<AgentHello> = None;
    for i in inputs {
        if e.closed {
            break;
        }
        e.used += 1;
        if i.len() > e.max {
            disc(&mut e, vec![9], None);
            continue;
        }
        let frame = match wire::decode(i.payload()) {
            Verdict::Frame(f) => f,
            Verdict::Bad(list, _) => {
                disc(&mut e, codes(&list), None);
                continue;
            }
            // what continues nothing; the statuses for that
            Verdict::Open(_) if i.payload().first() == Some(&wire::T_UNSET) && (negotiated.is_none() || unset_ids(i.payload()).is_some_and(|k| fragments.iter().all(|x| x.0 != k))) => {
                disc(&mut e, if negotiated.is_none() { vec![4] } else { vec![4, 10, 11, 12] }, None);
                continue;
            }
            Verdict::Open(w) => panic!("{HARNESS} a workload without a defined answer: {w}"),
        };
        let Some(n) = &negotiated else {
            let Frame::HaproxyHello(h) = frame else {
                disc(&mut e, vec![4], None);
                continue;
            };
            let Some(n) = negotiate(cfg, &h) else {
                disc(&mut e, vec![8], None);
                continue;
            };
            if h.healthcheck == Some(true) {
                e.out.push(Out::Hello(n));
                e.closed = true;
                continue;
            }
            e.made = true;
            match make {
                Make::Ok(_) => {
                    e.max = n.max_frame_size as u64;
                    e.out.push(Out::Hello(n.clone()));
                    negotiated = Some(n);
                }
                Make::Err(_, t) => disc(&mut e, vec![99], Some(t.clone())),
                Make::Panic | Make::PanicNow => e.closed = true,
                Make::Never => break,
            }
            continue;
        };
        match frame {
            Frame::HaproxyNotify(f) => {
                let fragmentation = n.capabilities.contains(&Capability::Fragmentation);
                let key = (f.stream_id, f.frame_id);
                if f.fragmented {
                    if !fragmentation {
                        disc(&mut e, vec![10], None);
                        continue;
                    }
                    match fragments.iter_mut().find(|x| x.0 == key) {
                        Some(x) => x.1.extend(f.messages),
                        None => fragments.push((key, f.messages)),
                    }
                    continue;
                }
                let msgs = match fragments.iter().position(|x| x.0 == key) {
                    Some(p) => {
                        let mut v = fragments.remove(p).1;
                        v.extend(f.messages);
                        v
                    }
                    None => f.messages,
                };
                let act = acts.get(e.calls.len()).cloned().unwrap_or(Act::Reply(vec![]));
                e.calls.push(msgs);
                let answer = match act {
                    Act::Reply(a) => Ok(a),
                    Act::Ok(d, a) if d < cfg.eff_limit() => Ok(a),
                    Act::Err(d, t) if d.is_zero() || d < cfg.eff_limit() => Err((99, Some(t))),
                    Act::Ok(..) | Act::Err(..) => Err((2, None)),
                    Act::Gate(..) => panic!("{HARNESS} not a gate"),
                    Act::Never if cfg.eff_limit() > HOUR * 24 * 365 => break,
                    Act::Never => Err((2, None)),
                    Act::Panic | Act::PanicNow => {
                        e.closed = true;
                        continue;
                    }
                };
                match answer {
                    Ok(actions) if ack_len(key.0, key.1, &actions) as u64 > e.max => disc(&mut e, vec![3], None),
                    Ok(actions) => e.out.push(Out::Ack { sid: key.0, fid: key.1, actions }),
                    Err((s, t)) => disc(&mut e, vec![s], t),
                }
            }
            Frame::HaproxyDisconnect(_) => disc(&mut e, vec![0], None),
            // also when its contents are fine
            Frame::HaproxyHello(_) | Frame::AgentHello(_) => disc(&mut e, vec![4], None),
            _ => disc(&mut e, vec![4], None),
        }
    }
    e
}

pub fn show(p: &[u8]) -> String {
    match wire::decode(p) {
        Verdict::Frame(f) => clip(&format!("{f:?}"), 300),
        Verdict::Bad(_, w) => format!("malformed ({w}) {}", hexc(p)),
        Verdict::Open(w) => format!("odd ({w}) {}", hexc(p)),
    }
}

pub fn match_out(p: &[u8], want: &Out) -> R {
    let f = match wire::decode(p) {
        Verdict::Frame(f) => f,
        _ => return Err(format!("the agent sent {}, expected {want:?}", show(p))),
    };
    let bad = |f: &Frame| Err(format!("the agent sent {}, expected {}", clip(&format!("{f:?}"), 600), clip(&format!("{want:?}"), 600)));
    match (&f, want) {
        (Frame::AgentHello(h), Out::Hello(w)) => {
            let mut caps = vec![];
            for c in gen::CAPS {
                for x in &h.capabilities {
                    if x == c {
                        caps.push(*c);
                    }
                }
            }
            if h.version != w.version || h.max_frame_size != w.max_frame_size || caps != w.capabilities {
                return bad(&f);
            }
        }
        (Frame::AgentAck(a), Out::Ack { sid, fid, actions }) => {
            if a.fragmented || a.aborted || a.stream_id != *sid || a.frame_id != *fid || a.actions != *actions {
                return bad(&f);
            }
        }
        (Frame::AgentDisconnect(d), Out::Disc { status, text }) => {
            if !status.contains(&d.status_code) {
                return bad(&f);
            }
            if let Some(t) = text {
                if !d.message.contains(t.as_str()) {
                    return bad(&f);
                }
            }
        }
        _ => return bad(&f),
    }
    Ok(())
}

pub fn check_frames(frames: &[(Duration, Vec<u8>)], rest: &[u8], want: &[Out]) -> R {
    for (i, w) in want.iter().enumerate() {
        match frames.get(i) {
            Some((_, p)) => match_out(p, w).map_err(|e| format!("frame {i} of {}: {e}", want.len()))?,
            None => {
                return Err(format!(
                    "the agent sent {} frames, expected {}; missing {}",
                    frames.len(),
                    want.len(),
                    clip(&format!("{w:?}"), 600)
                ))
            }
        }
    }
    if let Some((_, p)) = frames.get(want.len()) {
        return Err(format!("the agent sent {} more than the {} expected frames: {}", frames.len() - want.len(), want.len(), show(p)));
    }
    if !rest.is_empty() {
        return Err(format!("the agent sent part of a frame: {}", hexc(rest)));
    }
    Ok(())
}

pub fn check_calls(log: &Log, want: &[Vec<Message>]) -> R {
    let calls = log.calls();
    for (i, w) in want.iter().enumerate() {
        match calls.get(i) {
            Some((_, m)) if m == w => (),
            Some((_, m)) => {
                return Err(format!(
                    "call {i} of the service got {}, expected {}",
                    clip(&format!("{m:?}"), 500),
                    clip(&format!("{w:?}"), 500)
                ))
            }
            None => return Err(format!("the service was called {} times, expected {}", calls.len(), want.len())),
        }
    }
    if calls.len() > want.len() {
        return Err(format!(
            "the service was called {} times, expected {}; with {}",
            calls.len(),
            want.len(),
            clip(&format!("{:?}", calls[want.len()].1), 500)
        ));
    }
    Ok(())
}

pub fn check_all(e: &Expect, seen: &Seen, log: &Log) -> R {
    check_frames(&seen.frames, &seen.rest, &e.out)?;
    check_calls(log, &e.calls)?;
    let made = log.makes();
    if made != e.made as usize {
        return Err(format!("{made} services were asked for, expected {}", e.made as usize));
    }
    if e.closed && seen.closed.is_none() {
        return Err("the agent did not close the connection".into());
    }
    if !e.closed && seen.closed.is_some() {
        return Err(format!("the agent closed the connection: {:?}", seen.result));
    }
    if seen.panicked {
        return Err(format!("serving panicked: {}", last_panic()));
    }
    Ok(())
}

/// Runs and checks a session the model describes fully.
pub fn run(c: &mut Case, cfg: &Cfg, inputs: &[Inp], make: Make, acts: Vec<Act>) -> Result<(Expect, Seen, Log), String> {
    run_ready(c, cfg, inputs, Ready::Now, make, acts)
}

/// The same, with a factory that is ready some time or never.
pub fn run_ready(c: &mut Case, cfg: &Cfg, inputs: &[Inp], ready: Ready, make: Make, acts: Vec<Act>) -> Result<(Expect, Seen, Log), String> {
    let e = model(cfg, inputs, &make, &acts);
    let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
    let steps = deliver(&bytes, &mut c.rng);
    let s = stream(&mut c.rng);
    let behave = Behave { make: Arc::new(move |_| (ready.clone(), make.clone())), call: by_call(acts), ..Behave::default() };
    let (seen, log) = alone(cfg, behave, s, Plan::new(steps), &mut c.rng);
    observe(c, &seen, &log);
    if let Err(x) = check_all(&e, &seen, &log) {
        return Err(format!("{x}\nagent: {cfg:?}\ninputs: {}", list(inputs)));
    }
    Ok((e, seen, log))
}

pub fn observe(c: &mut Case, seen: &Seen, log: &Log) {
    c.count("frames the peer received", seen.frames.len() as u64);
    c.count("service calls", log.calls().len() as u64);
    c.count("connections closed by the agent", seen.closed.is_some() as u64);
    c.count("connections still open at the horizon", (seen.closed.is_none()) as u64);
    c.count("virtual seconds", seen.frames.last().map(|f| f.0.as_secs()).unwrap_or(0));
    c.max("most frames received in one session", seen.frames.len() as u64);
}

pub fn list(inputs: &[Inp]) -> String {
    let mut s = String::new();
    for (i, x) in inputs.iter().enumerate().take(40) {
        s.push_str(&match x {
            Inp::Payload(p) => format!("\n  {i}: {}", show(p)),
            Inp::Raw(n, b) => format!("\n  {i}: announces {n} bytes, {} follow", b.len()),
        });
    }
    s
}
