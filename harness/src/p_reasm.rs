//! C09-C13: reassembly, dispatch, wake-ups and acknowledgements.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use futures::StreamExt;
use haproxy_spoa::runtime::{Acker, Dispatcher, Processor};
use haproxy_spop::{Action, AgentAck, AsyncHandler, Frame, HaproxyNotify, Message, Reassembly, Typed};
use tokio::sync::mpsc::unbounded_channel;
use tokio::sync::oneshot;

use crate::core::*;
use crate::gen;
use crate::sim::drive;

type Key = (u64, u64);

pub fn keys(r: &mut Rng) -> Vec<Key> {
    let a = gen::int(r);
    let b = gen::fid(r);
    let mut v = vec![(a, b), (b, a.max(1)), (a, b.wrapping_add(1).max(1)), (a ^ 1, b), (0, 1), (1, 1), (u64::MAX, u64::MAX)];
    for _ in 0..r.usize(6) {
        v.push((gen::int(r), gen::fid(r)));
    }
    v.push((a.wrapping_add(1), b.wrapping_sub(1).max(1)));
    v.push((a ^ (1 << 32), b));
    v.push((a, b ^ (1 << 63) | 1));
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    let n = 1 + r.usize(v.len());
    v.truncate(n);
    v
}

fn tok(n: u64) -> Message {
    Message {
        name: format!("m{n}"),
        args: vec![("tok".into(), Typed::Uint64(n))],
    }
}

fn tok_of(m: &Message) -> u64 {
    match m.args.first() {
        Some((_, Typed::Uint64(n))) => *n,
        _ => u64::MAX,
    }
}

// ---------------------------------------------------------------- C09

/// A reassembler used in one of three ways, always with unique numbers as items.
#[derive(Clone)]
pub enum Re {
    Raw(Reassembly<u64>),
    Notify(Reassembly<Message>),
    Ack(Reassembly<Action>),
}

impl Re {
    fn feed(&mut self, fragmented: bool, k: Key, items: &[u64], abort: bool) -> Result<Option<Vec<u64>>, String> {
        match self {
            Re::Raw(r) => r
                .reassemble(fragmented, k.0, k.1, items.to_vec())
                .map_err(|e| format!("fails with {e:?}")),
            Re::Notify(r) => {
                let f = Frame::HaproxyNotify(HaproxyNotify {
                    fragmented,
                    stream_id: k.0,
                    frame_id: k.1,
                    messages: items.iter().map(|n| tok(*n)).collect(),
                });
                let o = drive(r.handle_frame(f))?.map_err(|e| format!("fails with {e:?}"))?;
                Ok(o.map(|v| v.iter().map(tok_of).collect()))
            }
            Re::Ack(r) => {
                let f = Frame::AgentAck(AgentAck {
                    fragmented,
                    aborted: abort,
                    stream_id: k.0,
                    frame_id: k.1,
                    actions: items
                        .iter()
                        .map(|n| Action::set_var(gen::SCOPES[(*n % 5) as usize], format!("a{n}"), *n))
                        .collect(),
                });
                let o = drive(r.handle_frame(f))?.map_err(|e| format!("fails with {e:?}"))?;
                Ok(o.map(|v| {
                    v.iter()
                        .map(|a| match a {
                            Action::SetVar { value: Typed::Uint64(n), scope, name } if *scope == gen::SCOPES[(*n % 5) as usize] && *name == format!("a{n}") => *n,
                            _ => u64::MAX,
                        })
                        .collect()
                }))
            }
        }
    }

    /// A frame that is no fragment: must not influence any pair.
    fn disturb(&mut self, r: &mut Rng) -> Result<(), String> {
        let f = match r.below(4) {
            0 => Frame::HaproxyDisconnect(gen::disconnect(r)),
            1 => Frame::AgentDisconnect(gen::disconnect(r)),
            2 => Frame::HaproxyHello(gen::hello(r)),
            _ => Frame::Unset,
        };
        let e = match self {
            Re::Raw(_) => return Ok(()),
            Re::Notify(re) => drive(re.handle_frame(f.clone()))?.is_err(),
            Re::Ack(re) => drive(re.handle_frame(f.clone()))?.is_err(),
        };
        if e {
            Ok(())
        } else {
            Err(format!("{f:?} taken for a fragment"))
        }
    }
}

pub fn sequential(c: &mut Case, keys: Vec<Key>, steps: usize, re: Re) -> R {
    let mut re = re;
    let mut model: HashMap<Key, Vec<u64>> = HashMap::new();
    let mut next = 0u64;
    let mut log: Vec<String> = vec![];
    let mut h = 0u64;
    let final_pct = *c.rng.pick(&[10, 30, 60]);
    // copies that go on by themselves
    let copying = keys.len() < 100 && c.rng.chance(25);
    let mut others = vec![];
    for _ in 0..steps {
        if copying && c.rng.chance(4) && others.len() < 4 {
            others.push((re.clone(), model.clone()));
            log.push("copy".into());
            c.count("reassemblers copied", 1);
        }
        if !others.is_empty() && c.rng.chance(20) {
            let i = c.rng.usize(others.len());
            let (re2, model2) = &mut others[i];
            std::mem::swap(&mut re, re2);
            std::mem::swap(&mut model, model2);
            log.push(format!("copy {i} and this change places"));
        }
        if c.rng.chance(2) {
            let mut r = c.rng.fork();
            re.disturb(&mut r)?;
            log.push("other frame".into());
            continue;
        }
        let k = *c.rng.pick(&keys);
        let fragmented = !c.rng.chance(final_pct);
        let n = match c.rng.below(12) {
            0 | 1 => 0,
            2 => c.rng.usize(300),
            _ => 1 + c.rng.usize(4),
        };
        let items: Vec<u64> = (0..n).map(|i| next + i as u64).collect();
        next += n as u64;
        let abort = c.rng.chance(5);
        let got = re.feed(fragmented, k, &items, abort);
        let open = model.contains_key(&k);
        let want = if fragmented {
            model.entry(k).or_default().extend(&items);
            None
        } else {
            let mut v = model.remove(&k).unwrap_or_default();
            v.extend(&items);
            Some(v)
        };
        log.push(format!("{}{k:?}{}{n}", if fragmented { "frag" } else { "final" }, if open { "+" } else { "=" }));
        h = mix(h ^ hash_bytes(log.last().unwrap().as_bytes()));
        c.count("fragments fed", 1);
        match got {
            Ok(g) if g == want => {
                if let (Some(v), true) = (&g, open) {
                    c.count("pairs completed from several fragments", 1);
                    c.max("items of one completed pair", v.len() as u64);
                }
            }
            Ok(g) => {
                return Err(format!(
                    "step {} {}: expected {}, got {}; last steps {:?}",
                    log.len(),
                    log.last().unwrap(),
                    clip(&format!("{want:?}"), 300),
                    clip(&format!("{g:?}"), 300),
                    &log[log.len().saturating_sub(30)..]
                ))
            }
            Err(e) => return Err(format!("step {} {}: {e}; steps {:?}", log.len(), log.last().unwrap(), &log[log.len().saturating_sub(30)..])),
        }
        c.max("pairs open at a time", model.len() as u64);
    }
    // drain: every open pair still holds exactly its items
    others.push((re, model));
    for (mut re, model) in others {
        let mut open: Vec<(Key, Vec<u64>)> = model.into_iter().collect();
        open.sort();
        for (k, want) in open {
            let got = re.feed(false, k, &[], false)?;
            if got.as_ref() != Some(&want) {
                return Err(format!("draining {k:?}: expected {want:?}, got {got:?}; steps {:?}", &log[log.len().saturating_sub(30)..]));
            }
        }
    }
    c.nontrivial(h);
    c.sample(3, || clip(&log.join(" "), 300));
    Ok(())
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "a case feeds a seeded history of fragments of several (similar) pairs, with empty and long fragments and foreign frames in between, to the reassembler (raw, or as NOTIFY or ACK frames) beside a reference model, and drains it; non-trivial: distinct histories".into();
    let n = ctx.n(6_000, 300_000);
    ctx.cases("histories", n, |c| {
        let ks = keys(&mut c.rng);
        let steps = 5 + c.rng.usize(120);
        let re = match c.rng.below(3) {
            0 => Re::Raw(Reassembly::default()),
            1 => Re::Notify(Reassembly::default()),
            _ => Re::Ack(Reassembly::default()),
        };
        sequential(c, ks, steps, re)
    });
    let n = ctx.n(6, 60);
    ctx.cases("many pairs", n, |c| {
        let m = 200 + c.rng.usize(20_000);
        let base = c.rng.next();
        let step = *c.rng.pick(&[1u64, 1 << 32, 0x1_0000_0001]);
        let ks: Vec<Key> = (0..m as u64).map(|i| (base.wrapping_add((i % 300).wrapping_mul(step)), (i / 300).wrapping_mul(step).wrapping_add(1).max(1))).collect();
        sequential(c, ks, 60_000, Re::Raw(Reassembly::default()))
    });
    let n = ctx.n(30, 500);
    ctx.cases("long chains", n, |c| {
        let ks: Vec<Key> = vec![(c.rng.next(), c.rng.next() | 1), (1, 1)];
        let re = if c.idx % 2 == 0 { Re::Raw(Reassembly::default()) } else { Re::Notify(Reassembly::default()) };
        let mut re = re;
        let m = 2000 + c.rng.usize(3000) as u64;
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..m {
            let (k, v) = if c.rng.chance(70) { (0, &mut a) } else { (1, &mut b) };
            v.push(i);
            if re.feed(true, ks[k], &[i], false)?.is_some() {
                return Err(format!("fragment {i} of {m} completed the pair"));
            }
        }
        c.count("fragments fed", m);
        c.nontrivial(c.idx);
        for (k, v) in [(0, a), (1, b)] {
            if re.feed(false, ks[k], &[], false)? != Some(v) {
                return Err(format!("chain of {m} fragments not completed exactly"));
            }
            c.count("pairs completed from several fragments", 1);
        }
        Ok(())
    });
    let n = ctx.n(8, 60);
    ctx.cases("very many items", n, |c| {
        // much in one frame, beside others
        let mut re = if c.idx % 4 == 3 { Re::Notify(Reassembly::default()) } else { Re::Raw(Reassembly::default()) };
        let total = match re {
            Re::Raw(_) => 300_000 + c.rng.below(900_000),
            _ => 70_000 + c.rng.below(100_000),
        };
        let ks: Vec<Key> = vec![(c.rng.next(), c.rng.next() | 1), (1, 1)];
        let (mut v, mut w) = (0u64, vec![]);
        let most = *c.rng.pick(&[500u64, 20_000, 200_000, 2_000_000]);
        while v < total {
            let n = c.rng.range(1, most).min(total - v);
            let items: Vec<u64> = (v..v + n).collect();
            v += n;
            if re.feed(true, ks[0], &items, false)?.is_some() {
                return Err(format!("a fragment completed the pair after {v} items"));
            }
            if c.rng.chance(20) {
                w.push(v);
                if re.feed(true, ks[1], &[v], false)?.is_some() {
                    return Err("a fragment completed the other pair".into());
                }
            }
        }
        c.count("fragments fed", 1);
        let got = re.feed(false, ks[0], &[total], false)?;
        let ok = got.as_ref().is_some_and(|g| g.len() as u64 == total + 1 && g.iter().enumerate().all(|(i, x)| i as u64 == *x));
        if !ok {
            return Err(format!("{} items given in fragments of up to {most}, {:?} came out", total + 1, got.map(|g| g.len())));
        }
        if re.feed(false, ks[1], &[], false)? != Some(w) {
            return Err("the other pair was not completed exactly".into());
        }
        c.max("items of one frame", total);
        c.nontrivial(total);
        Ok(())
    });
    ctx.require("fragments fed", 100_000);
    ctx.require("pairs completed from several fragments", 2_000);
    ctx.require("reassemblers copied", 500);
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug)]
pub struct Op {
    thread: usize,
    inv: u64,
    ret: u64,
    key: usize,
    items: Vec<u64>,
    fin: bool,
    out: Option<Vec<u64>>,
}

/// Decides exactly whether the calls on one pair have a legal one-at-a-time order. Items are
/// unique and every fragment has some, so the lists returned fix the order within a segment.
pub fn linearizable(ops: &[Op], nkeys: usize) -> Result<u64, String> {
    let mut hash = 0;
    for key in 0..nkeys {
        let of: Vec<&Op> = ops.iter().filter(|o| o.key == key).collect();
        let mut by_first: HashMap<u64, usize> = HashMap::new();
        for (i, o) in of.iter().enumerate() {
            by_first.insert(o.items[0], i);
        }
        let mut segs: Vec<Vec<usize>> = vec![];
        let mut used = vec![false; of.len()];
        for (i, o) in of.iter().enumerate() {
            match (&o.out, o.fin) {
                (None, false) => continue,
                (None, true) => return Err(format!("the final fragment of {o:?} returned nothing")),
                (Some(v), false) => return Err(format!("a fragment that is not final returned {v:?}")),
                (Some(out), true) => {
                    let mut seg = vec![];
                    let mut p = 0;
                    while p < out.len() {
                        let Some(&j) = by_first.get(&out[p]) else {
                            return Err(format!("item {} was delivered out of place (another pair's, torn or reordered): {out:?}", out[p]));
                        };
                        let it = &of[j].items;
                        if out.len() < p + it.len() || out[p..p + it.len()] != it[..] {
                            return Err(format!("the items of one fragment {it:?} do not stay together in {out:?}"));
                        }
                        if used[j] {
                            return Err(format!("fragment {it:?} was delivered twice"));
                        }
                        used[j] = true;
                        p += it.len();
                        seg.push(j);
                        hash = mix(hash ^ (of[j].thread as u64) << 8 ^ p as u64);
                    }
                    if seg.last() != Some(&i) {
                        return Err(format!("a final fragment's own items {:?} are not at the end of {out:?}", o.items));
                    }
                    if seg[..seg.len() - 1].iter().any(|j| of[*j].fin) {
                        return Err(format!("a final fragment's items were delivered by another call: {out:?}"));
                    }
                    for a in 0..seg.len() {
                        for b in a + 1..seg.len() {
                            if of[seg[b]].ret < of[seg[a]].inv {
                                return Err(format!("call {:?} had returned before {:?} started, but was ordered after it", of[seg[b]].items, of[seg[a]].items));
                            }
                        }
                    }
                    segs.push(seg);
                }
            }
        }
        if let Some(j) = used.iter().position(|u| !u) {
            return Err(format!("lost: the items {:?} were never delivered", of[j].items));
        }
        // order of segments: A before B if some call of A returned before some call of B started
        let n = segs.len();
        let span: Vec<(u64, u64)> = segs
            .iter()
            .map(|s| (s.iter().map(|j| of[*j].ret).min().unwrap(), s.iter().map(|j| of[*j].inv).max().unwrap()))
            .collect();
        let before = |a: usize, b: usize| span[a].0 < span[b].1;
        let mut done = vec![false; n];
        for _ in 0..n {
            let next = (0..n).find(|&x| !done[x] && (0..n).all(|y| y == x || done[y] || !before(y, x)));
            match next {
                Some(x) => done[x] = true,
                None => return Err(format!("no one-at-a-time order explains the results of pair {key}")),
            }
        }
    }
    Ok(hash)
}

/// Threads that meet at a spinning barrier before every round.
pub struct Barrier {
    n: usize,
    count: AtomicUsize,
    gen: AtomicUsize,
}

impl Barrier {
    pub fn new(n: usize) -> Self {
        Barrier { n, count: AtomicUsize::new(0), gen: AtomicUsize::new(0) }
    }
    pub fn wait(&self) {
        let g = self.gen.load(SeqCst);
        if self.count.fetch_add(1, SeqCst) + 1 == self.n {
            self.count.store(0, SeqCst);
            self.gen.store(g + 1, SeqCst);
        } else {
            let mut spins = 0u32;
            while self.gen.load(SeqCst) == g {
                spins += 1;
                if spins < 2000 {
                    std::hint::spin_loop();
                } else {
                    std::thread::yield_now();
                }
            }
        }
    }
}

type Step = (usize, bool, Vec<u64>);

/// Several rounds of calls on one shared reassembler, then a drain, then the verdict.
pub fn concurrent(c: &mut Case, threads: usize, per: usize, rounds: usize, nkeys: usize, final_pct: u64) -> R {
    let re = Arc::new(Reassembly::<u64>::default());
    let mut ks: Vec<Key> = keys(&mut c.rng);
    while ks.len() < nkeys {
        ks.push((c.rng.next(), c.rng.next() | 1));
    }
    ks.truncate(nkeys);
    let ks = Arc::new(ks);
    let mut next = 0u64;
    let mut plans: Vec<Vec<Vec<Step>>> = vec![];
    for _ in 0..threads {
        let mut mine = vec![];
        for _ in 0..rounds {
            let mut round = vec![];
            for _ in 0..per {
                let n = 1 + c.rng.usize(4) as u64;
                round.push((c.rng.usize(nkeys), c.rng.chance(final_pct), (next..next + n).collect()));
                next += n;
            }
            mine.push(round);
        }
        plans.push(mine);
    }
    let clock = Arc::new(AtomicU64::new(1));
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = plans
        .into_iter()
        .enumerate()
        .map(|(t, plan)| {
            let (re, ks, clock, bar) = (re.clone(), ks.clone(), clock.clone(), bar.clone());
            let seed = if c.rng.chance(60) { c.rng.next() | 1 } else { 0 };
            std::thread::spawn(move || {
                let mut log = Vec::with_capacity(plan.len());
                for round in plan {
                    bar.wait();
                    for (key, fin, items) in round {
                        let (s, f) = ks[key];
                        alloc::chaos(seed);
                        let inv = clock.fetch_add(1, SeqCst);
                        let out = re.reassemble(!fin, s, f, items.clone());
                        let ret = clock.fetch_add(1, SeqCst);
                        alloc::chaos(0);
                        log.push((Op { thread: t, inv, ret, key, items, fin, out: None }, out.map_err(|e| format!("{e:?}"))));
                    }
                }
                log
            })
        })
        .collect();
    let mut ops = vec![];
    for h in hs {
        for (mut o, out) in h.join().map_err(|_| format!("panic: {}", last_panic()))? {
            o.out = out?;
            ops.push(o);
        }
    }
    for key in 0..nkeys {
        let inv = clock.fetch_add(1, SeqCst);
        let items = vec![next];
        next += 1;
        let out = re.reassemble(false, ks[key].0, ks[key].1, items.clone()).map_err(|e| format!("{e:?}"))?;
        let ret = clock.fetch_add(1, SeqCst);
        ops.push(Op { thread: threads, inv, ret, key, items, fin: true, out });
    }
    let mut sorted: Vec<&Op> = ops.iter().collect();
    sorted.sort_by_key(|o| o.inv);
    let overlapping = sorted.windows(2).filter(|w| w[1].inv < w[0].ret).count() as u64;
    c.count("calls", ops.len() as u64);
    c.count("calls overlapping the next one", overlapping);
    let h = linearizable(&ops, nkeys).map_err(|e| {
        let mut s = String::new();
        for o in sorted.iter().take(400) {
            s += &format!("\n t{} [{},{}] pair {} {} {:?} -> {:?}", o.thread, o.inv, o.ret, o.key, if o.fin { "final" } else { "frag" }, o.items, o.out);
        }
        format!("{e}\nhistory:{s}")
    })?;
    c.nontrivial(h);
    c.sample(2, || {
        sorted.iter().take(8).map(|o| format!("t{} [{},{}] pair {} {} {:?} -> {:?}", o.thread, o.inv, o.ret, o.key, if o.fin { "final" } else { "frag" }, o.items, o.out)).collect::<Vec<_>>().join("; ")
    });
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "a case runs 2 to 8 threads in barrier-started rounds of calls on one shared reassembler (with delays injected into allocations), logs invocation and return times, drains it, and decides linearizability of the recorded history exactly; non-trivial: distinct delivered orders".into();
    let n = ctx.n(700, 30_000);
    ctx.cases("short rounds", n, |c| {
        let t = 2 + c.rng.usize(7);
        let (k, p) = (1 + c.rng.usize(3), *c.rng.pick(&[10, 25, 50]));
        concurrent(c, t, 1, 60, k, p)
    });
    let n = ctx.n(400, 20_000);
    ctx.cases("free running", n, |c| {
        let t = 2 + c.rng.usize(7);
        let (k, p) = (1 + c.rng.usize(12), *c.rng.pick(&[5, 20, 50]));
        concurrent(c, t, 60, 2, k, p)
    });
    ctx.require("calls", 100_000);
    ctx.require("calls overlapping the next one", 2_000);
}

// ---------------------------------------------------------------- C11

fn notify(k: Key, fragmented: bool, toks: &[u64]) -> HaproxyNotify {
    HaproxyNotify {
        fragmented,
        stream_id: k.0,
        frame_id: k.1,
        messages: toks.iter().map(|t| tok(*t)).collect(),
    }
}

/// The next item of a stream if it is there now; `Err(ended)` otherwise.
fn now<S: futures::Stream + Unpin>(s: &mut S) -> Result<S::Item, bool> {
    let waker = Waker::noop();
    let mut cx = Context::from_waker(waker);
    match s.poll_next_unpin(&mut cx) {
        Poll::Ready(Some(x)) => Ok(x),
        Poll::Ready(None) => Err(true),
        Poll::Pending => Err(false),
    }
}

fn dispatch(d: &Dispatcher, n: HaproxyNotify) -> Result<Option<oneshot::Receiver<AgentAck>>, String> {
    d.recieve_messages(n).map_err(|e| format!("dispatching fails with {e}"))
}

/// Checks what a work item says once complete: its ids (through the ACK) and its receiver.
fn close_item(k: Key, mut acker: Acker, mut rx: oneshot::Receiver<AgentAck>) -> R {
    let mark = format!("{k:?}");
    acker.set_var(haproxy_spop::Scope::Request, "k", mark.as_str());
    acker.complete().map_err(|e| format!("work item of {k:?}: completing fails with {e}"))?;
    let ack = rx.try_recv().map_err(|_| format!("work item of {k:?}: the caller of its first fragment got no ACK"))?;
    let want = AgentAck {
        fragmented: false,
        aborted: false,
        stream_id: k.0,
        frame_id: k.1,
        actions: vec![Action::set_var(haproxy_spop::Scope::Request, "k", mark.as_str())],
    };
    if ack != want {
        return Err(format!("work item of {k:?} acknowledged as {ack:?}"));
    }
    Ok(())
}

struct Open {
    want: Vec<u64>,
    got: Vec<u64>,
    done: bool,
    ended: bool,
}

/// A dispatcher and its processor, on their own or those of a runtime.
fn pair(c: &mut Case) -> (Dispatcher, Processor) {
    if c.rng.chance(70) {
        let (tx, rx) = unbounded_channel();
        return (Dispatcher::new(tx), Processor(rx));
    }
    let rt = haproxy_spoa::runtime::Builder::new().make_service(
        tower::service_fn(|_: ()| async {
            Ok::<_, std::convert::Infallible>(tower::service_fn(|_: Vec<Message>| async { Ok::<Vec<Action>, std::convert::Infallible>(vec![]) }))
        }),
        (),
    );
    let rt = Arc::into_inner(rt).expect("the only one");
    c.count("pairs of a runtime", 1);
    (rt.dispatcher, rt.processor)
}

pub fn dispatch_history(c: &mut Case) -> R {
    let (d, mut proc) = pair(c);
    // clones of a dispatcher act as one
    let mut d = vec![d];
    let cloning = c.rng.chance(40);
    let ks = keys(&mut c.rng);
    let steps = 5 + c.rng.usize(80);
    let mut open: HashMap<Key, usize> = HashMap::new();
    let mut items: Vec<(Key, Open)> = vec![];
    let mut recv = vec![];
    let mut work = vec![];
    let mut next = 0u64;
    let mut h = 0;
    // a consumer that gave up on some items must not disturb the rest
    let abandon = c.rng.chance(20);
    let mut abandoned = BTreeSet::new();
    for _ in 0..steps {
        let k = *c.rng.pick(&ks);
        let fragmented = c.rng.chance(60);
        let n = if c.rng.chance(20) { 0 } else { 1 + c.rng.usize(4) as u64 };
        let toks: Vec<u64> = (next..next + n).collect();
        next += n;
        h = mix(h ^ k.0 ^ k.1.rotate_left(7) ^ n << 3 ^ fragmented as u64);
        if cloning && c.rng.chance(20) {
            let x = c.rng.pick(&d).clone();
            d.push(x);
            if c.rng.chance(50) {
                let i = c.rng.usize(d.len());
                d.swap_remove(i);
            }
            c.count("dispatchers cloned", 1);
        }
        let got = dispatch(c.rng.pick(&d), notify(k, fragmented, &toks))?;
        c.count("notifications dispatched", 1);
        match (open.get(&k).copied(), got) {
            (Some(_), Some(_)) => return Err(format!("a later fragment of {k:?} returned a receiver")),
            (None, None) => return Err(format!("the first fragment of {k:?} returned no receiver")),
            (Some(i), None) => {
                items[i].1.want.extend(&toks);
                c.count("later fragments", 1);
            }
            (None, Some(r)) => {
                open.insert(k, items.len());
                items.push((k, Open { want: toks.clone(), got: vec![], done: false, ended: false }));
                recv.push(Some(r));
            }
        }
        if !fragmented {
            let i = open.remove(&k).unwrap();
            items[i].1.done = true;
        }
        // sometimes look at what has been delivered so far
        if c.rng.chance(50) {
            while let Ok(w) = now(&mut proc) {
                work.push(Some(w));
            }
            if work.len() != items.len() {
                return Err(format!("{} work items for {} notifications", work.len(), items.len()));
            }
            for (i, w) in work.iter_mut().enumerate() {
                if let Some((_, m)) = w {
                    if items[i].1.ended {
                        continue;
                    }
                    loop {
                        match now(m) {
                            Ok(x) => items[i].1.got.push(tok_of(&x)),
                            Err(e) => {
                                items[i].1.ended = e;
                                break;
                            }
                        }
                    }
                    let o = &items[i].1;
                    if o.got != o.want || o.ended != o.done {
                        return Err(format!(
                            "work item {i} {:?}: messages {:?} ended {}, expected {:?} ended {}",
                            items[i].0, o.got, o.ended, o.want, o.done
                        ));
                    }
                    if abandon && c.rng.chance(10) {
                        abandoned.insert(i);
                        *w = None;
                        c.count("work items abandoned", 1);
                    }
                }
            }
        }
    }
    let mut rest: Vec<Key> = open.keys().copied().collect();
    rest.sort();
    for k in rest {
        let i = open.remove(&k).unwrap();
        if dispatch(c.rng.pick(&d), notify(k, false, &[]))?.is_some() {
            return Err(format!("the final fragment of {k:?} returned a receiver"));
        }
        items[i].1.done = true;
    }
    while let Ok(w) = now(&mut proc) {
        work.push(Some(w));
    }
    if work.len() != items.len() {
        return Err(format!("{} work items for {} notifications", work.len(), items.len()));
    }
    for (i, w) in work.into_iter().enumerate() {
        let Some((acker, mut m)) = w else { continue };
        let (k, mut o) = (items[i].0, std::mem::replace(&mut items[i].1, Open { want: vec![], got: vec![], done: true, ended: true }));
        while !o.ended {
            match now(&mut m) {
                Ok(x) => o.got.push(tok_of(&x)),
                Err(true) => o.ended = true,
                Err(false) => return Err(format!("the messages of {k:?} do not end although it is complete")),
            }
        }
        if o.got != o.want {
            return Err(format!("work item {i} {k:?}: messages {:?}, expected {:?}", o.got, o.want));
        }
        c.count("messages compared", o.got.len() as u64);
        close_item(k, acker, recv[i].take().unwrap())?;
        c.count("work items compared", 1);
    }
    // the dispatcher gone, the processor's stream ends
    drop(d);
    match now(&mut proc) {
        Err(true) => (),
        Err(false) => return Err("the stream of work items does not end".into()),
        Ok(_) => return Err("an additional work item".into()),
    }
    c.nontrivial(h);
    c.sample(3, || format!("{} notifications of pairs {:?} -> {} work items", steps, ks, items.len()));
    Ok(())
}

/// Very many notifications open at a time, or very many messages in one, nobody taking any yet.
pub fn dispatch_crowd(c: &mut Case) -> R {
    let (d, mut proc) = pair(c);
    let few = c.rng.chance(50);
    let pairs = if few { 1 + c.rng.usize(3) } else { 1 + gen::crowd(&mut c.rng) / 4 };
    let (base, step) = (c.rng.next(), *c.rng.pick(&[1u64, 1 << 32, 256]));
    let key = |i: usize| (base.wrapping_add((i as u64).wrapping_mul(step)), 1u64);
    let mut want: Vec<Vec<u64>> = vec![vec![]; pairs];
    let mut acked = vec![];
    let mut next = 0u64;
    let rounds = 1 + c.rng.usize(3);
    for round in 0..rounds {
        for (i, w) in want.iter_mut().enumerate() {
            let k = if few { gen::crowd(&mut c.rng) } else { c.rng.usize(3) };
            let toks: Vec<u64> = (next..next + k as u64).collect();
            next += k as u64;
            let a = dispatch(&d, notify(key(i), round + 1 < rounds, &toks))?;
            if a.is_some() != (round == 0) {
                return Err(format!("fragment {round} of notification {i} of {pairs}: receiver returned: {}", a.is_some()));
            }
            acked.extend(a);
            w.extend(toks);
        }
    }
    for (i, (w, a)) in want.iter().zip(acked).enumerate() {
        let (acker, mut m) = now(&mut proc).map_err(|_| format!("{i} work items for {pairs} notifications"))?;
        let mut got = vec![];
        loop {
            match now(&mut m) {
                Ok(x) => got.push(tok_of(&x)),
                Err(true) => break,
                Err(false) => return Err(format!("the messages of notification {i} do not end")),
            }
        }
        if got != *w {
            let at = got.iter().zip(w).position(|(x, y)| x != y).unwrap_or(got.len().min(w.len()));
            return Err(format!("notification {i} of {pairs}: {} messages, expected {}; they differ at {at}", got.len(), w.len()));
        }
        c.max("messages of one notification", got.len() as u64);
        c.count("messages compared", got.len() as u64);
        close_item(key(i), acker, a)?;
        c.count("work items compared", 1);
    }
    c.max("notifications open at a time", pairs as u64);
    c.nontrivial(base ^ pairs as u64);
    match now(&mut proc) {
        Err(false) => Ok(()),
        _ => Err("an additional work item, or the end of them".into()),
    }
}

/// Threads dispatch their own notifications (and fragments handed on to them) at the same time.
pub fn dispatch_threads(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Arc::new(Dispatcher::new(tx));
    let cloning = c.rng.chance(50);
    let threads = 2 + c.rng.usize(6);
    let per = 40;
    let bar = Arc::new(Barrier::new(threads));
    let base = c.rng.next();
    let same = c.rng.chance(50);
    // notification j of thread t has several fragments; in "relay" mode fragment i is dispatched
    // by thread (t + i) % threads, one after the other
    let relay = c.rng.chance(50);
    let key = move |t: usize, j: usize| {
        if same {
            (base, 1 + (j * 64 + t) as u64)
        } else {
            (base.wrapping_add((t * 1000 + j) as u64), 1)
        }
    };
    let mut plan: BTreeMap<Key, Vec<Vec<u64>>> = BTreeMap::new();
    let mut next = 0;
    for t in 0..threads {
        for j in 0..per {
            let n = 1 + c.rng.usize(4);
            let frags = (0..n)
                .map(|_| {
                    let m = c.rng.below(4);
                    next += m;
                    (next - m..next).collect()
                })
                .collect();
            plan.insert(key(t, j), frags);
        }
    }
    let plan = Arc::new(plan);
    let turn: Arc<HashMap<Key, AtomicUsize>> = Arc::new(plan.keys().map(|k| (*k, AtomicUsize::new(0))).collect());
    let recv: Arc<Mutex<HashMap<Key, Vec<oneshot::Receiver<AgentAck>>>>> = Arc::new(Mutex::new(HashMap::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for t in 0..threads {
        let own = if cloning { Arc::new(Dispatcher::clone(&d)) } else { d.clone() };
        let (d, plan, turn, bar, recv, stop) = (own, plan.clone(), turn.clone(), bar.clone(), recv.clone(), stop.clone());
        let seed = if c.rng.chance(60) { c.rng.next() | 1 } else { 0 };
        hs.push(std::thread::spawn(move || -> R {
            bar.wait();
            for j in 0..per {
                let owners: Vec<usize> = if relay { (0..threads).collect() } else { vec![t] };
                for o in owners {
                    let k = key(o, j);
                    let frags = &plan[&k];
                    for (i, f) in frags.iter().enumerate() {
                        if relay && (o + i) % threads != t {
                            continue;
                        }
                        while turn[&k].load(SeqCst) != i {
                            if stop.load(SeqCst) {
                                return Ok(());
                            }
                            std::thread::yield_now();
                        }
                        alloc::chaos(seed);
                        let r = dispatch(&d, notify(k, i + 1 < frags.len(), f));
                        alloc::chaos(0);
                        match r {
                            Ok(Some(r)) => recv.lock().unwrap().entry(k).or_default().push(r),
                            Ok(None) => (),
                            Err(e) => {
                                stop.store(true, SeqCst);
                                return Err(e);
                            }
                        }
                        turn[&k].store(i + 1, SeqCst);
                    }
                }
            }
            Ok(())
        }));
    }
    for h in hs {
        h.join().map_err(|_| format!("panic: {}", last_panic()))??;
    }
    drop(d);
    let mut proc = Processor(rx);
    let mut recv = std::mem::take(&mut *recv.lock().unwrap());
    let mut seen = BTreeSet::new();
    let mut h = 0u64;
    loop {
        match now(&mut proc) {
            Ok((mut acker, mut m)) => {
                acker.set_var(haproxy_spop::Scope::Session, "n", 1u32);
                let mut got = vec![];
                loop {
                    match now(&mut m) {
                        Ok(x) => got.push(tok_of(&x)),
                        Err(true) => break,
                        Err(false) => return Err(format!("messages {got:?} do not end")),
                    }
                }
                acker.complete().map_err(|e| format!("completing fails with {e}"))?;
                let mut done = None;
                for (k, rs) in recv.iter_mut() {
                    for r in rs.iter_mut() {
                        if let Ok(a) = r.try_recv() {
                            if done.is_some() {
                                return Err("one acknowledgement reached two receivers".into());
                            }
                            done = Some((*k, a));
                        }
                    }
                }
                let Some((k, a)) = done else {
                    return Err(format!("no caller holds the receiver of the work item with messages {got:?}"));
                };
                if (a.stream_id, a.frame_id) != k {
                    return Err(format!("the caller for {k:?} got the ACK of {:?}", (a.stream_id, a.frame_id)));
                }
                let want: Vec<u64> = plan[&k].concat();
                if got != want {
                    return Err(format!("{k:?}: messages {got:?}, expected {want:?}"));
                }
                if !seen.insert(k) {
                    return Err(format!("two work items for {k:?}"));
                }
                h = mix(h ^ k.0 ^ k.1);
                c.count("work items compared", 1);
                c.count("messages compared", got.len() as u64);
            }
            Err(true) => break,
            Err(false) => return Err("the stream of work items does not end".into()),
        }
    }
    if seen.len() != plan.len() {
        return Err(format!("{} work items for {} notifications", seen.len(), plan.len()));
    }
    if recv.values().any(|v| v.len() != 1) {
        return Err("not exactly one receiver per notification".into());
    }
    c.count("notifications dispatched by threads", plan.len() as u64);
    c.nontrivial(h);
    Ok(())
}

/// Fragments of one notification dispatched at the same time: one work item, nothing lost.
pub fn dispatch_race(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let d = Arc::new(Dispatcher::new(tx));
    let cloning = c.rng.chance(50);
    let threads = 2 + c.rng.usize(5);
    let rounds = 60u64;
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads as u64)
        .map(|t| {
            let own = if cloning { Arc::new(Dispatcher::clone(&d)) } else { d.clone() };
            let (d, bar) = (own, bar.clone());
            let seed = if c.rng.chance(60) { c.rng.next() | 1 } else { 0 };
            std::thread::spawn(move || -> Result<Vec<(u64, oneshot::Receiver<AgentAck>)>, String> {
                let mut v = vec![];
                for j in 0..rounds {
                    let toks: Vec<u64> = (0..3).map(|i| j * 1000 + t * 10 + i).collect();
                    bar.wait();
                    alloc::chaos(seed);
                    let r = dispatch(&d, notify((7, j + 1), true, &toks));
                    alloc::chaos(0);
                    if let Some(r) = r? {
                        v.push((j, r));
                    }
                }
                Ok(v)
            })
        })
        .collect();
    let mut recv: BTreeMap<u64, Vec<oneshot::Receiver<AgentAck>>> = BTreeMap::new();
    for h in hs {
        for (j, r) in h.join().map_err(|_| format!("panic: {}", last_panic()))?? {
            recv.entry(j).or_default().push(r);
        }
    }
    for j in 0..rounds {
        if dispatch(&d, notify((7, j + 1), false, &[j * 1000 + 999]))?.is_some() {
            return Err("the final fragment returned a receiver".into());
        }
        match recv.get(&j).map(|v| v.len()) {
            Some(1) => (),
            n => return Err(format!("{n:?} callers got a receiver for one notification")),
        }
    }
    drop(d);
    let mut proc = Processor(rx);
    let mut n = 0;
    while let Ok((acker, mut m)) = now(&mut proc) {
        let mut got = vec![];
        while let Ok(x) = now(&mut m) {
            got.push(tok_of(&x));
        }
        let j = got.first().copied().unwrap_or(0) / 1000;
        let mut sorted = got.clone();
        sorted.sort();
        let mut want: Vec<u64> = (0..threads as u64).flat_map(|t| (0..3).map(move |i| j * 1000 + t * 10 + i)).collect();
        want.push(j * 1000 + 999);
        if sorted != want {
            return Err(format!("notification {j}: messages {got:?}"));
        }
        for t in 0..threads as u64 {
            let mine: Vec<u64> = got.iter().copied().filter(|x| (x % 1000) / 10 == t && x % 1000 != 999).collect();
            if mine.windows(2).any(|w| w[0] > w[1]) {
                return Err(format!("notification {j}: the messages of one fragment changed order: {got:?}"));
            }
        }
        if got.last() != Some(&(j * 1000 + 999)) {
            return Err(format!("notification {j}: the final fragment's message is not last: {got:?}"));
        }
        let rx = recv.get_mut(&j).and_then(|v| v.pop()).ok_or("two work items for one notification")?;
        close_item((7, j + 1), acker, rx)?;
        n += 1;
        c.nontrivial(got.iter().fold(0, |h, x| mix(h ^ x)));
        c.count("work items compared", 1);
    }
    if n != rounds {
        return Err(format!("{n} work items for {rounds} notifications"));
    }
    c.count("racing first fragments", rounds * threads as u64);
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "a case dispatches a seeded history of notifications and fragments (one thread, several threads, relayed between threads, or racing) and compares work items, message streams, their ends and the receivers with a model; non-trivial: distinct histories and delivery orders".into();
    let n = ctx.n(8_000, 300_000);
    ctx.cases("histories", n, dispatch_history);
    let n = ctx.n(24, 400);
    ctx.cases("very many", n, dispatch_crowd);
    let n = ctx.n(60, 3_000);
    ctx.cases("threads", n, dispatch_threads);
    let n = ctx.n(60, 3_000);
    ctx.cases("races", n, dispatch_race);
    ctx.require("later fragments", 2_000);
    ctx.require("work items compared", 5_000);
    ctx.require("racing first fragments", 1_000);
    ctx.require("dispatchers cloned", 1_000);
    ctx.require("pairs of a runtime", 500);
}

// ---------------------------------------------------------------- C12

struct TaskFlag(AtomicBool, AtomicU64);

impl Wake for TaskFlag {
    fn wake(self: Arc<Self>) {
        self.1.fetch_add(1, SeqCst);
        self.0.store(true, SeqCst);
    }
}

/// Runs tasks in a seeded order, each only when woken. `Err` names the tasks left asleep.
/// Returns how often each was polled.
fn schedule(mut tasks: Vec<(&'static str, Pin<Box<dyn Future<Output = ()>>>)>, rng: &mut Rng) -> Result<Vec<u64>, String> {
    let flags: Vec<Arc<TaskFlag>> = tasks.iter().map(|_| Arc::new(TaskFlag(AtomicBool::new(true), AtomicU64::new(0)))).collect();
    let mut done = vec![false; tasks.len()];
    let mut polls = vec![0u64; tasks.len()];
    let mut total = 0u64;
    loop {
        let ready: Vec<usize> = (0..tasks.len()).filter(|&i| !done[i] && flags[i].0.load(SeqCst)).collect();
        if ready.is_empty() {
            let left: Vec<&str> = (0..tasks.len()).filter(|&i| !done[i]).map(|i| tasks[i].0).collect();
            return if left.is_empty() {
                Ok(polls)
            } else {
                Err(format!("{left:?} waits although everything was sent: it was not woken"))
            };
        }
        let i = *rng.pick(&ready);
        flags[i].0.store(false, SeqCst);
        polls[i] += 1;
        total += 1;
        if total > 5_000_000 {
            return Err("the tasks do not come to rest".into());
        }
        let waker = Waker::from(flags[i].clone());
        let mut cx = Context::from_waker(&waker);
        if tasks[i].1.as_mut().poll(&mut cx).is_ready() {
            done[i] = true;
        }
    }
}

async fn yields(n: u64) {
    for _ in 0..n {
        let mut once = false;
        std::future::poll_fn(|cx| {
            if once {
                Poll::Ready(())
            } else {
                once = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }
}

pub fn wake_case(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let notes = 1 + c.rng.usize(6);
    let mut plan: Vec<(u64, HaproxyNotify)> = vec![];
    let mut next = 0;
    let mut want: Vec<Vec<u64>> = vec![vec![]; notes];
    let long = c.rng.chance(20);
    for k in 0..notes {
        let frags = 1 + c.rng.usize(4);
        for f in 0..frags {
            let n = c.rng.below(4);
            let toks: Vec<u64> = (next..next + n).collect();
            next += n;
            want[k].extend(&toks);
            let pause = match c.rng.below(4) {
                0 => 0,
                1 => 1,
                2 => c.rng.below(8),
                _ => {
                    if long {
                        2_000
                    } else {
                        c.rng.below(40)
                    }
                }
            };
            plan.push((pause, notify((1, k as u64 + 1), f + 1 < frags, &toks)));
        }
    }
    // interleave the notifications, keeping each one's own order
    let mut order: Vec<u64> = plan.iter().map(|p| p.1.frame_id).collect();
    c.rng.shuffle(&mut order);
    let mut queues: BTreeMap<u64, std::collections::VecDeque<(u64, HaproxyNotify)>> = BTreeMap::new();
    for p in plan {
        queues.entry(p.1.frame_id).or_default().push_back(p);
    }
    let plan: Vec<(u64, HaproxyNotify)> = order.iter().map(|f| queues.get_mut(f).unwrap().pop_front().unwrap()).collect();
    let sends = plan.len() as u64 + next;
    let tail = c.rng.below(50);

    let got: Arc<Mutex<Vec<(usize, Vec<u64>)>>> = Arc::new(Mutex::new(vec![]));
    let ended = Arc::new(AtomicBool::new(false));
    let d = Dispatcher::new(tx);
    let recvs = Arc::new(Mutex::new(vec![]));
    let producer = {
        let recvs = recvs.clone();
        Box::pin(async move {
            for (pause, n) in plan {
                yields(pause).await;
                match dispatch(&d, n) {
                    Ok(Some(r)) => recvs.lock().unwrap().push(r),
                    Ok(None) => (),
                    Err(e) => panic!("{e}"),
                }
            }
            yields(tail).await;
            drop(d);
        })
    };
    let joined = c.rng.chance(50);
    let consumer = {
        let (got, ended) = (got.clone(), ended.clone());
        Box::pin(async move {
            let mut proc = Processor(rx);
            if joined {
                // all message streams at the same time
                let mut all = futures::stream::FuturesUnordered::new();
                let mut i = 0;
                let mut open = true;
                loop {
                    if !open && all.is_empty() {
                        break;
                    }
                    tokio::select! {
                        w = proc.next(), if open => match w {
                            Some((acker, m)) => {
                                let at = i;
                                i += 1;
                                all.push(async move {
                                    let v: Vec<u64> = m.map(|x| tok_of(&x)).collect().await;
                                    drop(acker);
                                    (at, v)
                                });
                            }
                            None => open = false,
                        },
                        Some(x) = all.next() => got.lock().unwrap().push(x),
                    }
                }
            } else {
                let mut i = 0;
                while let Some((acker, m)) = proc.next().await {
                    let v: Vec<u64> = m.map(|x| tok_of(&x)).collect().await;
                    drop(acker);
                    got.lock().unwrap().push((i, v));
                    i += 1;
                }
            }
            ended.store(true, SeqCst);
        })
    };
    let mut first = order.clone();
    let mut seen = BTreeSet::new();
    first.retain(|f| seen.insert(*f));
    let polls = schedule(vec![("producer", producer), ("consumer", consumer)], &mut c.rng)?;
    c.count("consumer polls", polls[1]);
    c.count("items and ends delivered", sends + 1);
    if polls[1] > 10 * (sends + notes as u64 + 10) + 50 {
        return Err(format!("the consumer polls: {} polls for {sends} events", polls[1]));
    }
    let mut got = got.lock().unwrap().clone();
    got.sort();
    let want: Vec<(usize, Vec<u64>)> = first.iter().enumerate().map(|(i, f)| (i, want[*f as usize - 1].clone())).collect();
    if got != want || !ended.load(SeqCst) {
        return Err(format!("received {got:?} (end {}), expected {want:?}", ended.load(SeqCst)));
    }
    // every acknowledgement (dropped handle) is there, and its waiter is woken too
    for r in recvs.lock().unwrap().drain(..) {
        drive(r)?.map_err(|_| "an acknowledgement was lost".to_string())?;
    }
    c.nontrivial(mix(polls[0] << 32 ^ polls[1]) ^ order.iter().fold(0, |h, x| mix(h ^ x)));
    c.sample(3, || format!("{} fragments of {} notifications, consumer polled {} times", order.len(), notes, polls[1]));
    Ok(())
}

struct Bell(std::sync::atomic::AtomicU64);

impl std::task::Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// Streams of items and of messages that pass from one waiting task to another: the task that waited last is
/// woken.
pub fn wake_last(c: &mut Case) -> R {
    use std::task::Poll;
    let (d, mut proc) = pair(c);
    let mut d = Some(d);
    let bells: Vec<Arc<Bell>> = (0..3).map(|_| Arc::new(Bell(0.into()))).collect();
    // the notification being received, and what waits: (who, rung so far)
    let mut open: Option<(u64, Acker, futures::stream::BoxStream<'static, Message>, std::collections::VecDeque<u64>, bool)> = None;
    let mut queued: std::collections::VecDeque<(u64, u64)> = Default::default();
    let mut next = 0u64;
    let mut wait_p: Option<(usize, u64)> = None;
    let mut wait_m: Option<(usize, u64)> = None;
    let mut log: Vec<String> = vec![];
    let mut receivers = vec![];
    let steps = 5 + c.rng.usize(40);
    for _ in 0..steps {
        let who = c.rng.usize(3);
        let waker = std::task::Waker::from(bells[who].clone());
        let mut cx = std::task::Context::from_waker(&waker);
        match c.rng.below(10) {
            0..=2 => {
                log.push(format!("task {who} asks for an item"));
                match (proc.poll_next_unpin(&mut cx), queued.pop_front()) {
                    (Poll::Ready(Some((a, m))), Some((fid, tok))) => {
                        wait_p = None;
                        wait_m = None;
                        open = Some((fid, a, m.boxed(), [tok].into(), false));
                    }
                    (Poll::Pending, None) => {
                        // a waker is asked for when the task waits
                        wait_p = Some((who, bells[who].0.load(SeqCst)));
                    }
                    (x, q) => return Err(format!("{log:?}: an item {}, expected {q:?}", x.is_ready())),
                }
            }
            3..=5 => {
                if let Some((fid, _, m, toks, ended)) = open.as_mut() {
                    log.push(format!("task {who} asks for a message of {fid}"));
                    match (m.poll_next_unpin(&mut cx), toks.pop_front()) {
                        (Poll::Ready(Some(x)), Some(t)) if tok_of(&x) == t => wait_m = None,
                        (Poll::Ready(None), None) if *ended => wait_m = None,
                        (Poll::Pending, None) if !*ended => wait_m = Some((who, bells[who].0.load(SeqCst))),
                        (x, t) => return Err(format!("{log:?}: got {x:?}, expected {t:?}, ended {ended}")),
                    }
                }
            }
            6 => {
                let Some(d) = d.as_ref() else { continue };
                next += 1;
                log.push(format!("notification {next}"));
                receivers.extend(dispatch(d, notify((1, next), true, &[next]))?);
                queued.push_back((next, next));
                if let Some((w, n)) = wait_p.take() {
                    if bells[w].0.load(SeqCst) == n {
                        return Err(format!("{log:?}: task {w} waited last for an item, and was not woken"));
                    }
                    c.count("waits that passed between tasks", 1);
                }
            }
            7 | 8 => {
                let (Some(d), Some((fid, _, _, toks, ended))) = (d.as_ref(), open.as_mut()) else { continue };
                if *ended {
                    continue;
                }
                let last = c.rng.chance(30);
                let n = c.rng.below(3);
                let v: Vec<u64> = (0..n).map(|i| next * 100 + i).collect();
                log.push(format!("{n} messages of {fid}, last {last}"));
                if dispatch(d, notify((1, *fid), !last, &v))?.is_some() {
                    return Err(format!("{log:?}: a receiver for a later fragment"));
                }
                toks.extend(&v);
                *ended = last;
                if n > 0 || last {
                    if let Some((w, n)) = wait_m.take() {
                        if bells[w].0.load(SeqCst) == n {
                            return Err(format!("{log:?}: task {w} waited last for a message, and was not woken"));
                        }
                        c.count("waits that passed between tasks", 1);
                    }
                }
            }
            _ => {
                if !c.rng.chance(20) {
                    continue;
                }
                log.push("the dispatcher is gone".into());
                d = None;
                if let Some((_, _, _, _, ended)) = open.as_mut() {
                    let was = std::mem::replace(ended, true);
                    if let (false, Some((w, n))) = (was, wait_m.take()) {
                        if bells[w].0.load(SeqCst) == n {
                            return Err(format!("{log:?}: task {w} waited last for a message, and was not woken at the end"));
                        }
                    }
                }
                if let Some((w, n)) = wait_p.take() {
                    if bells[w].0.load(SeqCst) == n {
                        return Err(format!("{log:?}: task {w} waited last for an item, and was not woken at the end"));
                    }
                    c.count("waits that passed between tasks", 1);
                }
                break;
            }
        }
    }
    c.nontrivial(hash_bytes(log.join("|").as_bytes()));
    c.sample(2, || log.join(", "));
    Ok(())
}

/// Real threads: the consumer parks, and must be unparked.
pub fn wake_threads(c: &mut Case) -> R {
    let (tx, rx) = unbounded_channel();
    let n = 50 + c.rng.below(200);
    let mut r = c.rng.fork();
    let consumer = std::thread::spawn(move || {
        futures::executor::block_on(async move {
            let mut proc = Processor(rx);
            let mut got = vec![];
            while let Some((mut acker, m)) = proc.next().await {
                let v: Vec<u64> = m.map(|x| tok_of(&x)).collect().await;
                let _ = acker.complete();
                got.push(v);
            }
            got
        })
    });
    let d = Dispatcher::new(tx);
    let mut want = vec![];
    for k in 0..n {
        let spin = r.below(3000);
        for _ in 0..spin {
            std::hint::spin_loop();
        }
        let frags = 1 + r.below(3);
        let mut acked = None;
        let mut all = vec![];
        for f in 0..frags {
            let toks = vec![k * 10 + f];
            all.extend(&toks);
            if let Some(a) = dispatch(&d, notify((k, 1), f + 1 < frags, &toks))? {
                acked = Some(a);
            }
            if r.chance(20) {
                std::thread::yield_now();
            }
        }
        want.push(all);
        if r.chance(50) {
            // wait for the answer: blocks for good if the consumer was not woken
            let a = futures::executor::block_on(acked.unwrap()).map_err(|_| "no acknowledgement")?;
            if (a.stream_id, a.frame_id) != (k, 1) {
                return Err(format!("wrong acknowledgement {a:?}"));
            }
        }
    }
    drop(d);
    let got = consumer.join().map_err(|_| format!("panic: {}", last_panic()))?;
    if got != want {
        return Err("the parked consumer received something else".into());
    }
    c.count("items delivered to a parked thread", n);
    c.nontrivial(c.idx | 1 << 60);
    Ok(())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "a case runs a dispatching task and a consuming task on a seeded scheduler that polls a task only after it was woken, so that a missing wake-up leaves it asleep; and a parked consumer thread (a hang there is seen by the watchdog); non-trivial: distinct schedules".into();
    let n = ctx.n(6_000, 300_000);
    ctx.cases("schedules", n, wake_case);
    let n = ctx.n(60, 3_000);
    ctx.cases("threads", n, wake_threads);
    let n = ctx.n(8_000, 400_000);
    ctx.cases("from task to task", n, wake_last);
    ctx.require("waits that passed between tasks", 2_000);
    ctx.require("items and ends delivered", 20_000);
    ctx.require("items delivered to a parked thread", 1_000);
}

// ---------------------------------------------------------------- C13

pub fn acker_case(c: &mut Case) -> R {
    let (sid, fid) = (gen::int(&mut c.rng), gen::int(&mut c.rng));
    let (mut acker, rx) = Acker::new(sid, fid);
    let mut rx = Some(rx);
    let mut want: Option<AgentAck> = None;
    let mut actions: Vec<Action> = vec![];
    let mut log = vec![];
    let mut got: Option<AgentAck> = None;
    let steps = c.rng.usize(14);
    let rx_drop = c.rng.chance(25);
    let fin_pct = *c.rng.pick(&[0, 10, 30]);
    for _ in 0..steps {
        if rx_drop && rx.is_some() && c.rng.chance(20) {
            rx = None;
            log.push("receiver dropped".to_string());
        }
        match c.rng.below(100) {
            x if x < fin_pct => {
                let abort = c.rng.chance(50);
                let res = if abort { acker.abort() } else { acker.complete() };
                log.push(if abort { "abort" } else { "complete" }.into());
                let first = want.is_none();
                if first {
                    want = Some(AgentAck { fragmented: false, aborted: abort, stream_id: sid, frame_id: fid, actions: actions.clone() });
                }
                match res {
                    Ok(()) if first && rx.is_some() => (),
                    Err(haproxy_spoa::Error::Closed) if !first || rx.is_none() => (),
                    Ok(()) => return Err(format!("{log:?}: reported success although {}", if first { "the receiver is gone" } else { "already done" })),
                    Err(e) => return Err(format!("{log:?}: reported {e:?}")),
                }
                c.count(if first { "first completions" } else { "repeated completions" }, 1);
            }
            x if x < 70 => {
                let a = gen::action(&mut c.rng);
                log.push(clip(&format!("{a:?}"), 60));
                match &a {
                    Action::SetVar { scope, name, value } => acker.set_var(*scope, name.clone(), value.clone()),
                    Action::UnsetVar { scope, name } => acker.unset_var(*scope, name.clone()),
                }
                if want.is_none() {
                    actions.push(a);
                }
            }
            _ => {
                if let Some(r) = rx.as_mut() {
                    if got.is_none() {
                        match (r.try_recv(), want.is_some()) {
                            (Ok(a), true) => got = Some(a),
                            (Err(oneshot::error::TryRecvError::Empty), false) => (),
                            (x, _) => return Err(format!("{log:?}: receiver sees {x:?}")),
                        }
                        log.push("receive".into());
                    }
                }
            }
        }
    }
    log.push("drop".into());
    if c.rng.chance(30) {
        std::thread::spawn(move || drop(acker)).join().map_err(|_| "panic while dropping")?;
    } else {
        drop(acker);
    }
    let want = want.unwrap_or(AgentAck { fragmented: false, aborted: false, stream_id: sid, frame_id: fid, actions });
    if let Some(r) = rx {
        let got = match got {
            Some(g) => g,
            None => drive(r)?.map_err(|_| format!("{log:?}: the receiver got nothing"))?,
        };
        if got != want {
            return Err(format!("{log:?}: received {got:?}, expected {want:?}"));
        }
        c.count("acknowledgements compared", 1);
        c.count(if got.aborted { "aborted" } else { "not aborted" }, 1);
        c.max("actions in one acknowledgement", got.actions.len() as u64);
    } else {
        c.count("receiver gone first", 1);
    }
    c.nontrivial(hash_bytes(log.join("|").as_bytes()) ^ sid ^ fid.rotate_left(9));
    c.sample(4, || log.join(", "));
    Ok(())
}

/// A handle with very many actions, completed in one way or another, a panic among them.
pub fn acker_crowd(c: &mut Case) -> R {
    let (sid, fid) = (gen::int(&mut c.rng), gen::int(&mut c.rng));
    let (mut acker, rx) = Acker::new(sid, fid);
    let k = gen::crowd(&mut c.rng);
    let actions: Vec<Action> = (0..k)
        .map(|i| {
            if c.rng.chance(30) {
                Action::set_var(gen::SCOPES[i % 5], format!("s{i}"), i as u32)
            } else {
                gen::tiny_action(&mut c.rng, i)
            }
        })
        .collect();
    for a in &actions {
        match a {
            Action::SetVar { scope, name, value } => acker.set_var(*scope, name.clone(), value.clone()),
            Action::UnsetVar { scope, name } => acker.unset_var(*scope, name.clone()),
        }
    }
    let how = c.rng.below(5);
    match how {
        0 => acker.complete().map_err(|e| format!("completing: {e}"))?,
        1 => acker.abort().map_err(|e| format!("aborting: {e}"))?,
        2 => drop(acker),
        3 => {
            // the processor panics with the handle in its hand
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _held = acker;
                std::panic::resume_unwind(Box::new("vp-planned"));
            }));
            if r.is_ok() {
                return Err("vp-harness: no panic".into());
            }
            c.count("handles dropped by a panic", 1);
        }
        _ => {
            let r = std::thread::spawn(move || {
                let _held = acker;
                std::panic::resume_unwind(Box::new("vp-planned"));
            })
            .join();
            if r.is_ok() {
                return Err("vp-harness: no panic".into());
            }
            c.count("handles dropped by a panic", 1);
        }
    }
    let got = drive(rx)?.map_err(|_| format!("{k} actions, ended by {how}: the receiver got nothing"))?;
    if (got.stream_id, got.frame_id, got.aborted, got.fragmented) != (sid, fid, how == 1, false) {
        return Err(format!("ended by {how}: received ids {} {}, aborted {}, fragmented {}", got.stream_id, got.frame_id, got.aborted, got.fragmented));
    }
    if got.actions != actions {
        return Err(format!("{} actions received of {k}", got.actions.len()));
    }
    c.max("actions in one acknowledgement", k as u64);
    c.count("acknowledgements compared", 1);
    c.nontrivial(sid ^ fid.rotate_left(7) ^ k as u64);
    Ok(())
}

/// Handles completed, aborted or dropped by another thread while the receiver waits.
pub fn acker_threads(c: &mut Case) -> R {
    let seed = c.rng.next();
    let pairs: Vec<_> = (0..8u64).map(|i| (i, Acker::new(seed, i))).collect();
    let (mut handles, mut rxs) = (vec![], vec![]);
    for (i, (a, r)) in pairs {
        handles.push((i, a));
        rxs.push((i, r));
    }
    let t = std::thread::spawn(move || {
        for (i, mut a) in handles {
            for k in 0..i {
                a.set_var(haproxy_spop::Scope::Process, format!("v{k}"), k);
            }
            match i % 3 {
                0 => drop(a),
                1 => {
                    let _ = a.complete();
                    let _ = a.abort();
                }
                _ => {
                    let _ = a.abort();
                    let _ = a.complete();
                }
            }
        }
    });
    for (i, r) in rxs {
        let a = futures::executor::block_on(r).map_err(|_| format!("handle {i}: nothing received"))?;
        let want = AgentAck {
            fragmented: false,
            aborted: i % 3 == 2,
            stream_id: seed,
            frame_id: i,
            actions: (0..i).map(|k| Action::set_var(haproxy_spop::Scope::Process, format!("v{k}"), k)).collect(),
        };
        if a != want {
            return Err(format!("handle {i}: received {a:?}"));
        }
        c.count("acknowledgements compared", 1);
    }
    t.join().map_err(|_| format!("panic: {}", last_panic()))?;
    c.nontrivial(seed);
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "a case applies a seeded sequence of set, unset, complete, abort, receive, receiver-drop and drop to an acknowledgement handle beside a model; non-trivial: distinct sequences".into();
    let n = ctx.n(20_000, 1_000_000);
    ctx.cases("sequences", n, acker_case);
    let n = ctx.n(200, 4_000);
    ctx.cases("very many", n, acker_crowd);
    let n = ctx.n(300, 10_000);
    ctx.cases("threads", n, acker_threads);
    ctx.require("handles dropped by a panic", 30);
    ctx.require("acknowledgements compared", 10_000);
    ctx.require("aborted", 500);
    ctx.require("repeated completions", 500);
    ctx.require("receiver gone first", 500);
}
