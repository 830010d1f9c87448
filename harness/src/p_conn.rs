//! C14-C23, C27, C30: one connection of an agent.

use std::sync::Arc;
use std::time::Duration;

use haproxy_spop::{Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, Message, Typed, Version};

use crate::core::*;
use crate::gen;
use crate::p_codec::with_unknown_caps;
use crate::mon::*;
use crate::session::*;
use crate::sim::*;
use crate::wire::{self, Verdict};

const MS: Duration = Duration::from_millis(1);

fn pick_caps(r: &mut Rng) -> Vec<Capability> {
    let mut v: Vec<Capability> = gen::CAPS.iter().copied().filter(|_| r.chance(50)).collect();
    r.shuffle(&mut v);
    v
}

fn pick_version(r: &mut Rng) -> Version {
    if r.chance(20) {
        Version::new(r.next() as u8, r.next() as u8)
    } else {
        Version::new(r.range(1, 3) as u8, *r.pick(&[0, 0, 1, 2, 9, 10, 11]))
    }
}

fn cfg(r: &mut Rng) -> Cfg {
    Cfg {
        versions: if r.chance(40) { vec![] } else { (0..r.range(1, 5)).map(|_| pick_version(r)).collect() },
        caps: pick_caps(r),
        max: match r.below(6) {
            0 | 1 => None,
            2 => Some(*r.pick(&[256usize, 257, 1024, 16380, 16384, 65536, 1 << 20, i32::MAX as usize])),
            3 => Some(*r.pick(&[u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 300, usize::MAX >> 1, usize::MAX])),
            _ => Some(r.range(256, 40_000) as usize),
        },
        limit: None,
        state: r.next(),
    }
}

/// A hello that shares a version with the agent and fits its frames.
fn hello_for(r: &mut Rng, g: &Cfg) -> HaproxyHello {
    let ours = g.eff_versions();
    loop {
        let mut vs: Vec<Version> = (0..r.usize(5)).map(|_| pick_version(r)).collect();
        for _ in 0..r.range(1, 3) {
            vs.push(*r.pick(&ours));
        }
        r.shuffle(&mut vs);
        let mut caps = pick_caps(r);
        if r.chance(30) && !caps.is_empty() {
            let c = *r.pick(&caps);
            caps.push(c);
        }
        let h = HaproxyHello {
            supported_versions: vs,
            max_frame_size: match r.below(5) {
                0 => *r.pick(&[0, 1, 255, 256, 257, 16380, 16383, 16384, 16385, u32::MAX, u32::MAX - 1, i32::MAX as u32, i32::MAX as u32 + 1]),
                1 => (g.eff_max() as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1),
                2 => gen::int(r) as u32,
                _ => r.range(256, 40_000) as u32,
            },
            capabilities: caps,
            healthcheck: *r.pick(&[None, None, Some(false)]),
            engine_id: r.chance(50).then(|| gen::text(r, 100)),
        };
        if wire::payload(&Frame::HaproxyHello(h.clone())).len() as u64 <= g.eff_max() {
            return h;
        }
    }
}

/// A hello that lists a great many versions, of which the agent has one or a few, or none.
fn many_versions(r: &mut Rng, none: bool) -> (Cfg, Vec<u8>) {
    let mut all: Vec<Version> = (0..=255u8).flat_map(|a| [0, 1, 2, 9, 10, 99, 255].map(|b| Version::new(a, b))).collect();
    r.shuffle(&mut all);
    let k = 1 + r.usize(5);
    let ours = all.split_off(all.len() - k);
    let n = *r.pick(&[6, 12, 40, 200, 600, 1500]);
    let mut theirs: Vec<Version> = all[..n].to_vec();
    if !none {
        for _ in 0..1 + r.usize(2) {
            theirs.push(*r.pick(&ours));
        }
    }
    match r.below(4) {
        0 => theirs.sort(),
        1 => {
            theirs.sort();
            theirs.reverse();
        }
        2 => r.shuffle(&mut theirs),
        _ => {
            let v = theirs.clone();
            theirs.extend(v);
        }
    }
    let g = Cfg { versions: ours, max: Some(r.range(40_000, 100_000) as usize), state: r.next(), ..Cfg::default() };
    let h = HaproxyHello { supported_versions: theirs, max_frame_size: r.range(256, 80_000) as u32, capabilities: vec![], healthcheck: None, engine_id: None };
    (g, wire::payload(&Frame::HaproxyHello(h)))
}

/// The same hello, written the way another implementation might.
fn hello_payload(r: &mut Rng, h: &HaproxyHello) -> Vec<u8> {
    let plain = wire::payload(&Frame::HaproxyHello(h.clone()));
    if r.chance(50) {
        return plain;
    }
    let mut items = wire::hello_items(h);
    for (k, v) in items.iter_mut() {
        if k == "max-frame-size" {
            let n = h.max_frame_size;
            *v = match r.below(3) {
                0 => Typed::Uint64(n as u64),
                1 => Typed::Int64(n as i64),
                _ if n <= i32::MAX as u32 => Typed::Int32(n as i32),
                _ => Typed::Uint32(n),
            };
        } else if (k == "supported-versions" || k == "capabilities") && r.chance(50) {
            if let Typed::String(s) = v {
                *s = s.replace(',', " , ");
            }
        }
        if k == "capabilities" && r.chance(30) {
            *v = Typed::String(with_unknown_caps(r, &h.capabilities).join(","));
        }
    }
    if r.chance(40) {
        items.push(("x-unknown".into(), gen::typed(r, 10)));
    }
    r.shuffle(&mut items);
    let p = wire::kv_frame(wire::T_HAPROXY_HELLO, &items);
    match wire::decode(&p) {
        Verdict::Frame(Frame::HaproxyHello(x)) if x == *h => p,
        _ => plain,
    }
}

fn ok_make() -> Make {
    Make::Ok(Duration::ZERO)
}

// ---------------------------------------------------------------- C14

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "case key: agent settings and hello; non-trivial: an AGENT-HELLO was judged".into();
    let n = ctx.n(5000, 150_000);
    ctx.cases("negotiation", n, |c| {
        let g = cfg(&mut c.rng);
        let h = hello_for(&mut c.rng, &g);
        let p = hello_payload(&mut c.rng, &h);
        if p.len() as u64 > g.eff_max() {
            return Ok(());
        }
        c.nontrivial(hash_bytes(format!("{g:?}{h:?}").as_bytes()));
        let inputs = [Inp::Payload(p)];
        let make = if c.rng.chance(30) { Make::Ok(MS * c.rng.range(1, 60_000) as u32) } else { ok_make() };
        let (e, _, log) = run(c, &g, &inputs, make, vec![])?;
        c.count("AGENT-HELLO judged", e.out.len() as u64);
        if log.made() != 1 {
            return Err("no service was made".into());
        }
        c.sample(6, || format!("{g:?} <- {h:?} => {:?}", e.out));
        Ok(())
    });
    ctx.cases("many versions", ctx.n(400, 12_000), |c| {
        let (g, p) = many_versions(&mut c.rng, false);
        c.nontrivial(hash_bytes(format!("{g:?}{p:?}").as_bytes()));
        let (e, ..) = run(c, &g, &[Inp::Payload(p)], ok_make(), vec![])?;
        c.count("long lists of versions judged", e.out.len() as u64);
        Ok(())
    });
    ctx.require("long lists of versions judged", 100);
    // sizes that only a 64-bit item can hold
    ctx.cases("wide sizes", ctx.n(300, 9000), |c| {
        let r = &mut c.rng;
        let mut g = cfg(r);
        g.max = Some(r.range(400, 100_000) as usize);
        let h = HaproxyHello { max_frame_size: u32::MAX, ..hello_for(r, &g) };
        let n = match r.below(3) {
            0 => 1u64 << r.range(32, 62),
            1 => (1 << 32) + r.below(g.eff_max() * 2),
            _ => (r.range(1, 1 << 20) << 32) + r.below(1 << 32),
        };
        let mut items = wire::hello_items(&h);
        for (k, v) in items.iter_mut() {
            if k == "max-frame-size" {
                *v = if r.chance(50) { Typed::Uint64(n) } else { Typed::Int64(n as i64) };
            }
        }
        let p = wire::kv_frame(wire::T_HAPROXY_HELLO, &items);
        if p.len() as u64 > g.eff_max() {
            return Ok(());
        }
        c.nontrivial(hash_bytes(format!("{g:?}{n}").as_bytes()));
        let log = Log::default();
        let vrt = virtual_rt();
        let rt = g.build(&log, Behave::default(), &mut c.rng);
        let s = stream(&mut c.rng);
        let seen = vrt.block_on(session(rt, log, s, Plan { steps: vec![Step::Feed(Inp::Payload(p).bytes())], horizon: MS * 100 }));
        let e = model(&g, &[Inp::Payload(wire::payload(&Frame::HaproxyHello(h.clone())))], &ok_make(), &[]);
        check_frames(&seen.frames, &seen.rest, &e.out).map_err(|x| format!("{x}\nagent: {g:?}\nhello: size {n}, otherwise {h:?}"))?;
        c.count("sizes beyond 32 bits judged", 1);
        Ok(())
    });
    ctx.require("sizes beyond 32 bits judged", 100);
    ctx.cases("several on one runtime", ctx.n(500, 15_000), |c| {
        let r = &mut c.rng;
        let g = cfg(r);
        let engines = [None, Some("engine".to_string()), Some(gen::text(r, 40)), Some(String::new())];
        let at_once = r.chance(40);
        let mut all = vec![];
        for _ in 0..r.range(2, 12) {
            let mut h = hello_for(r, &g);
            if r.chance(80) {
                h.engine_id = r.pick(&engines).clone();
            }
            if r.chance(15) {
                h.healthcheck = Some(true);
            }
            if r.chance(10) {
                // fails
                h.supported_versions = vec![Version::new(77, 77)];
            }
            let p = hello_payload(r, &h);
            if p.len() as u64 <= g.eff_max() {
                all.push((h, Inp::Payload(p), stream(r), MS * r.below(50) as u32));
            }
        }
        let log = Log::default();
        let vrt = virtual_rt();
        let rt = g.build(&log, Behave::default(), r);
        let seens = vrt.block_on(async {
            let mut v = vec![];
            let mut hs = vec![];
            for (_, i, s, d) in &all {
                let (rt, log, i, s, d) = (rt.clone(), log.clone(), i.bytes(), s.clone(), *d);
                let h = tokio::spawn(async move {
                    if at_once {
                        tokio::time::sleep(d).await;
                    }
                    session(rt, log, s, Plan { steps: vec![Step::Feed(i)], horizon: MS * 100 }).await
                });
                if at_once {
                    hs.push(h);
                } else {
                    v.push(h.await.expect("vp-harness: session"));
                }
            }
            for h in hs {
                v.push(h.await.expect("vp-harness: session"));
            }
            v
        });
        for (k, ((h, i, ..), seen)) in all.iter().zip(&seens).enumerate() {
            let e = model(&g, std::slice::from_ref(i), &ok_make(), &[]);
            let fail = |x: String| format!("connection {k} of {}: {x}\nagent: {g:?}\nhello: {h:?}\nall: {:?}", all.len(), all.iter().map(|x| &x.0).collect::<Vec<_>>());
            check_frames(&seen.frames, &seen.rest, &e.out).map_err(fail)?;
            if e.closed != seen.closed.is_some() {
                return Err(fail(format!("closed: {:?}, expected {}", seen.closed, e.closed)));
            }
            c.stats.count("AGENT-HELLO judged", e.out.len() as u64);
            c.stats.count("handshakes beside or after others", (k > 0) as u64);
        }
        c.nontrivial(hash_bytes(format!("{g:?}{:?}", all.iter().map(|x| &x.0).collect::<Vec<_>>()).as_bytes()));
        Ok(())
    });
    ctx.cases("defaults", ctx.n(300, 3000), |c| {
        let g = Cfg { state: 1, ..Cfg::default() };
        let mut h = hello_for(&mut c.rng, &g);
        h.max_frame_size = *c.rng.pick(&[16383, 16384, 16385, u32::MAX, 20_000]);
        let h = HaproxyHello { engine_id: None, ..h };
        c.nontrivial(hash_bytes(format!("{h:?}").as_bytes()));
        let want = AgentHello { version: Version::new(2, 0), max_frame_size: h.max_frame_size.min(16384), capabilities: vec![] };
        let (e, seen, _) = run(c, &g, &[Inp::Payload(wire::payload(&Frame::HaproxyHello(h)))], ok_make(), vec![])?;
        check_frames(&seen.frames, &seen.rest, &[Out::Hello(want)])?;
        c.count("AGENT-HELLO judged", e.out.len() as u64);
        Ok(())
    });
    ctx.require("AGENT-HELLO judged", 100);
}

// ---------------------------------------------------------------- C15

/// Frames after the one that decides; none of them may have an effect.
fn extras(r: &mut Rng) -> Vec<Inp> {
    let mut v = vec![];
    for _ in 0..r.usize(4) {
        v.push(match r.below(4) {
            0 => plain_hello(16384, gen::CAPS),
            1 | 2 => {
                let m = gen::small_message(r, 77);
                Inp::notify(r.chance(20), gen::int(r), gen::fid(r), &[m])
            }
            _ => Inp::Payload(wire::payload(&Frame::HaproxyDisconnect(gen::disconnect(r)))),
        });
    }
    v
}

fn small_frame(r: &mut Rng) -> Vec<u8> {
    loop {
        let f = gen::frame(r);
        let p = wire::payload(&f);
        if p.len() <= 250 {
            return p;
        }
    }
}

/// Damages a payload so that no reader may accept it. `None`: it did not work out.
fn damaged(r: &mut Rng, mut p: Vec<u8>) -> Option<Vec<u8>> {
    if r.chance(8) {
        // too short for any frame, or nothing at all
        p.truncate(r.usize(8));
        return matches!(wire::decode(&p), Verdict::Bad(..)).then_some(p);
    }
    for _ in 0..1 + r.usize(2) {
        match r.below(5) {
            0 => p.truncate(r.usize(p.len())),
            1 => {
                let i = r.usize(p.len().max(1));
                *p.get_mut(i)? ^= 1 << r.below(8);
            }
            2 => {
                let i = r.usize(p.len().max(1));
                *p.get_mut(i)? = r.next() as u8;
            }
            3 => {
                let k = 1 + r.usize(8);
                p.extend(r.bytes(k));
            }
            _ => {
                let k = r.usize(60);
                p = r.bytes(k);
            }
        }
    }
    matches!(wire::decode(&p), Verdict::Bad(..)).then_some(p)
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "case key: agent settings and first frame; non-trivial: a refusal was judged".into();
    let n = ctx.n(6000, 200_000);
    ctx.cases("first frame", n, |c| {
        let mut g = cfg(&mut c.rng);
        let r = &mut c.rng;
        let kind = r.below(7);
        let first = match kind {
            0 if r.chance(20) => {
                let n = r.usize(20);
                let body = r.bytes(n);
                Inp::Payload(unset_frame(r.below(4) as u32, gen::int(r), gen::int(r), &body))
            }
            0 => {
                // not a hello
                let p = small_frame(r);
                if p[0] == wire::T_HAPROXY_HELLO {
                    return Ok(());
                }
                Inp::Payload(p)
            }
            1 => {
                let p = small_frame(r);
                match damaged(r, p) {
                    Some(p) => Inp::Payload(p),
                    None => return Ok(()),
                }
            }
            2 => {
                let p = wire::payload(&Frame::HaproxyHello(hello_for(r, &g)));
                match damaged(r, p) {
                    Some(p) => Inp::Payload(p),
                    None => return Ok(()),
                }
            }
            3 => {
                // over-long
                g.max = Some(r.range(256, 20_000) as usize);
                let m = g.max.unwrap_or_default() as u32;
                let k = r.usize(600);
                let n = match r.below(4) {
                    0 => m + 1,
                    1 => u32::MAX,
                    2 => m + r.range(1, 300) as u32,
                    _ => 0x4745_5420, // "GET "
                };
                let body = if r.chance(30) {
                    // a hello that would be fine if it were not too long
                    let mut h = hello_for(r, &g);
                    h.engine_id = Some("e".repeat(m as usize));
                    let p = wire::payload(&Frame::HaproxyHello(h));
                    return refused(c, &g, Inp::Raw(p.len() as u32, p), kind);
                } else {
                    r.bytes(k)
                };
                Inp::Raw(n, body)
            }
            4 => {
                // items are missing
                let h = hello_for(r, &g);
                let mut items = wire::hello_items(&h);
                let gone = 1 + r.below(7);
                items.retain(|(k, _)| {
                    !(k == "supported-versions" && gone & 1 != 0
                        || k == "max-frame-size" && gone & 2 != 0
                        || k == "capabilities" && gone & 4 != 0)
                });
                r.shuffle(&mut items);
                Inp::Payload(wire::kv_frame(wire::T_HAPROXY_HELLO, &items))
            }
            _ => {
                // no version in common
                let mut h = hello_for(r, &g);
                let ours = g.eff_versions();
                h.supported_versions.retain(|v| !ours.contains(v));
                for _ in 0..r.range(1, 3) {
                    let v = pick_version(r);
                    if !ours.contains(&v) {
                        h.supported_versions.push(v);
                    }
                }
                if h.supported_versions.is_empty() {
                    return Ok(());
                }
                h.healthcheck = *r.pick(&[None, Some(true), Some(false)]);
                Inp::Payload(wire::payload(&Frame::HaproxyHello(h)))
            }
        };
        refused(c, &g, first, kind)
    });
    let n = ctx.n(400, 12_000);
    ctx.cases("many versions", n, |c| {
        let (g, p) = many_versions(&mut c.rng, true);
        refused(c, &g, Inp::Payload(p), 5)?;
        c.count("long lists without a version in common", 1);
        Ok(())
    });
    ctx.require("long lists without a version in common", 100);
    ctx.require("refusals judged", 100);
    for k in 0..7 {
        ctx.require(&format!("refusals of kind {k}"), 10);
    }
}

/// Sessions whose bytes arrive slowly, or in any pieces: what is read does not depend on it.
pub fn slow_sessions(c: &mut Case) -> R {
    let (g, mut inputs, acts, _) = prologue(&mut c.rng);
    let r = &mut c.rng;
    if r.chance(25) {
        let x = note(r, 300, false);
        if let Some(p) = damaged(r, wire::notify_frame(1, x.sid, x.fid, &x.msgs)) {
            inputs.push(Inp::Payload(p));
        }
    }
    let e = model(&g, &inputs, &ok_make(), &acts);
    let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
    // a few pauses, at any places, of any length
    let mut places: Vec<usize> = (0..r.range(1, 6)).map(|_| r.usize(bytes.len())).collect();
    places.sort();
    let mut steps = vec![];
    let mut p = 0;
    let mut paused = 0;
    for q in places {
        steps.push(Step::Feed(bytes[p..q].to_vec()));
        let d = match r.below(5) {
            0 => Duration::from_micros(r.below(2_000_000)),
            1 => Duration::from_secs(*r.pick(&[1, 5, 10, 15, 30, 60, 300, 600, 3600, 86_400])),
            2 => Duration::from_millis(r.below(100_000)),
            3 => Duration::from_secs(r.below(4000)),
            _ => Duration::from_secs(r.below(200_000)),
        };
        paused += d.as_secs();
        steps.push(Step::Sleep(d));
        p = q;
    }
    steps.push(Step::Feed(bytes[p..].to_vec()));
    let s = stream(r);
    let behave = Behave { call: by_call(acts), ..Behave::default() };
    let (seen, log) = alone(&g, behave, s, Plan::new(steps.clone()), &mut c.rng);
    observe(c, &seen, &log);
    c.count("virtual seconds paused within sessions", paused);
    c.count("sessions read slowly", 1);
    c.nontrivial(hash_bytes(&bytes) ^ hash_bytes(format!("{steps:?}").as_bytes()));
    check_all(&e, &seen, &log).map_err(|x| {
        let pauses: Vec<String> = steps.iter().map(|s| match s {
            Step::Feed(b) => format!("{} bytes", b.len()),
            s => format!("{s:?}"),
        }).collect();
        format!("{x}\nagent: {g:?}\ndelivery: {pauses:?}\ninputs: {}", list(&inputs))
    })
}

fn refused(c: &mut Case, g: &Cfg, first: Inp, kind: u64) -> R {
    if first.bytes().len() as u64 - 4 > g.eff_max() && !matches!(first, Inp::Raw(..)) {
        return Ok(());
    }
    if let Inp::Payload(p) = &first {
        if matches!(wire::decode(p), Verdict::Open(_)) && p[0] != wire::T_UNSET {
            return Ok(());
        }
    }
    c.nontrivial(hash_bytes(&first.bytes()) ^ mix(g.eff_max()));
    let mut inputs = vec![first];
    inputs.extend(extras(&mut c.rng));
    // a factory that must not be touched
    let make = if c.rng.chance(50) { Make::Panic } else { ok_make() };
    let m = model(g, &inputs, &make, &[]);
    if !m.closed || m.made || m.out.len() != 1 {
        return Ok(()); // the damaged hello is still a hello
    }
    let (e, _, _) = run(c, g, &inputs, make, vec![])?;
    c.count("refusals judged", 1);
    c.count(&format!("refusals of kind {kind}"), 1);
    c.sample(8, || format!("{} => {:?}", list(&inputs[..1]), e.out));
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "case key: settings and hello; non-trivial: the health-check item was judged".into();
    let n = ctx.n(3000, 80_000);
    ctx.cases("health check", n, |c| {
        let g = cfg(&mut c.rng);
        let mut h = hello_for(&mut c.rng, &g);
        h.healthcheck = Some(true);
        let p = hello_payload(&mut c.rng, &h);
        if p.len() as u64 > g.eff_max() {
            return Ok(());
        }
        let mut inputs = vec![Inp::Payload(p)];
        inputs.extend(extras(&mut c.rng));
        if c.rng.chance(20) {
            let k = c.rng.usize(40);
            inputs.push(Inp::Raw(c.rng.next() as u32, c.rng.bytes(k)));
        }
        c.nontrivial(hash_bytes(format!("{g:?}{h:?}").as_bytes()));
        // whatever the factory would do
        let make = match c.rng.below(4) {
            0 => Make::Never,
            1 => Make::Panic,
            2 => Make::Err(Duration::ZERO, "no".into()),
            _ => ok_make(),
        };
        // and whenever it is ready
        let ready = match c.rng.below(5) {
            0 => Ready::Never,
            1 => Ready::Err("not ready".into()),
            2 => Ready::After(MS * c.rng.range(1, 10_000_000) as u32),
            _ => Ready::Now,
        };
        if !matches!(ready, Ready::Now) {
            c.count("health checks of an agent that cannot make services", 1);
        }
        run_ready(c, &g, &inputs, ready, make, vec![])?;
        c.count("health checks", 1);
        Ok(())
    });
    ctx.cases("not a health check", n / 2, |c| {
        let g = Cfg { max: Some(4096), ..cfg(&mut c.rng) };
        let mut h = hello_for(&mut c.rng, &g);
        h.healthcheck = *c.rng.pick(&[None, Some(false)]);
        h.max_frame_size = h.max_frame_size.max(1024);
        let p = hello_payload(&mut c.rng, &h);
        let m = gen::small_message(&mut c.rng, 5);
        let inputs = [Inp::Payload(p), Inp::notify(false, gen::int(&mut c.rng), gen::fid(&mut c.rng), &[m])];
        c.nontrivial(hash_bytes(format!("{g:?}{h:?}").as_bytes()));
        run(c, &g, &inputs, ok_make(), vec![])?;
        c.count("ordinary connections", 1);
        Ok(())
    });
    ctx.require("health checks", 100);
    ctx.require("ordinary connections", 100);
}

// ---------------------------------------------------------------- workloads of notifications

pub struct Note {
    pub sid: u64,
    pub fid: u64,
    pub msgs: Vec<Message>,
}

fn note(r: &mut Rng, max: usize, rich: bool) -> Note {
    loop {
        let (sid, fid) = (gen::int(r), gen::fid(r));
        let msgs = if rich {
            gen::messages(r)
        } else {
            let t = r.next();
            (0..r.usize(4)).map(|_| gen::small_message(r, t)).collect()
        };
        if wire::notify_frame(1, sid, fid, &msgs).len() <= max {
            return Note { sid, fid, msgs };
        }
    }
}

fn answer(r: &mut Rng, n: &Note, max: usize, rich: bool) -> Vec<Action> {
    loop {
        let a = if rich { gen::actions(r) } else { (0..r.usize(4)).map(|_| gen::small_action(r)).collect() };
        if ack_len(n.sid, n.fid, &a) <= max {
            return a;
        }
    }
}

fn reply(r: &mut Rng, a: Vec<Action>, limit: Duration) -> Act {
    match r.below(4) {
        0 => {
            let cap = limit.as_millis().min(20_000) as u64;
            Act::Ok(MS * r.below(cap.max(3) - 2) as u32, a)
        }
        1 => Act::Ok(Duration::from_micros(r.below(900)), a),
        _ => Act::Reply(a),
    }
}

/// Agent and hello settings under which sessions run.
fn session_cfg(r: &mut Rng) -> (Cfg, Inp, usize) {
    let a = *r.pick(&[None, None, Some(2000usize), Some(16384), Some(70_000), Some(1 << 20)]);
    let g = Cfg {
        versions: vec![],
        caps: pick_caps(r),
        max: a,
        limit: None,
        state: r.next(),
    };
    let h = *r.pick(&[2000u32, 16384, 16384, 70_000, u32::MAX]);
    let max = (h as u64).min(g.eff_max()) as usize;
    (g, plain_hello(h, &pick_caps(r)), max)
}

// ---------------------------------------------------------------- C17

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "case key: the whole session; non-trivial: at least one NOTIFY was processed and judged".into();
    let n = ctx.n(2500, 60_000);
    for (group, rich, most) in [("rich contents", true, 6u64), ("many", false, 60)] {
        ctx.cases(group, n, |c| {
            let (g, h, max) = session_cfg(&mut c.rng);
            let r = &mut c.rng;
            let k = r.range(1, most);
            let mut notes: Vec<Note> = vec![];
            for _ in 0..k {
                let mut x = note(r, max, rich);
                if r.chance(25) && !notes.is_empty() {
                    // the same ids again
                    let y = r.pick(&notes);
                    (x.sid, x.fid) = (y.sid, y.fid);
                    if wire::notify_frame(1, x.sid, x.fid, &x.msgs).len() > max {
                        x.msgs.clear();
                    }
                }
                if r.chance(5) {
                    x.msgs.clear();
                }
                if r.chance(10) && !x.msgs.is_empty() {
                    let m = r.pick(&x.msgs).clone();
                    x.msgs.push(m);
                    if wire::notify_frame(1, x.sid, x.fid, &x.msgs).len() > max {
                        x.msgs.pop();
                    }
                }
                notes.push(x);
            }
            let mut inputs = vec![h];
            let mut acts = vec![];
            for x in &notes {
                inputs.push(Inp::notify(false, x.sid, x.fid, &x.msgs));
                let a = answer(r, x, max, rich);
                acts.push(reply(r, a, g.eff_limit()));
            }
            c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
            let (_, seen, _) = if c.rng.chance(40) {
                lockstep(c, &g, &inputs, acts)?
            } else {
                run(c, &g, &inputs, ok_make(), acts)?
            };
            c.count("ACKs judged", seen.frames.len() as u64 - 1);
            c.max("NOTIFYs in one session", k);
            c.sample(4, || format!("{} notifications, {} bytes out", k, seen.bytes.len()));
            Ok(())
        });
    }
    ctx.cases("long sessions", ctx.n(4, 40), |c| {
        let (g, h, max) = session_cfg(&mut c.rng);
        let r = &mut c.rng;
        let k = if c.thorough { 20_000 } else { 3000 };
        let mut inputs = vec![h];
        let mut acts = vec![];
        for i in 0..k {
            let x = Note { sid: i, fid: 1 + i % 7, msgs: vec![gen::small_message(r, i)] };
            inputs.push(Inp::notify(false, x.sid, x.fid, &x.msgs));
            let a = answer(r, &x, max, false);
            acts.push(reply(r, a, g.eff_limit()));
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (_, seen, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("ACKs judged", seen.frames.len() as u64 - 1);
        c.max("NOTIFYs in one session", k);
        Ok(())
    });
    ctx.cases("very long session", ctx.n(1, 6), |c| {
        let r = &mut c.rng;
        let g = Cfg { max: Some(16384), state: r.next(), ..Cfg::default() };
        // longer than sixteen bits can count
        let k = 65_600 + r.below(3000);
        let mut inputs = vec![plain_hello(16384, &[])];
        let mut acts = vec![];
        for i in 0..k {
            let msgs = if i % 3 == 0 { vec![gen::tiny_message(r, i)] } else { vec![] };
            inputs.push(Inp::notify(false, i, 1 + i % 7, &msgs));
            acts.push(Act::Reply(if i % 5 == 0 { vec![gen::tiny_action(r, i as usize)] } else { vec![] }));
        }
        c.nontrivial(c.idx);
        let (_, seen, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("ACKs judged", seen.frames.len() as u64 - 1);
        c.max("NOTIFYs in one session", k);
        Ok(())
    });
    ctx.cases("large", ctx.n(24, 400), |c| {
        let r = &mut c.rng;
        let g = Cfg { max: Some(1 << 24), state: r.next(), ..Cfg::default() };
        let mut inputs = vec![plain_hello(1 << 24, &[])];
        let mut acts = vec![];
        for i in 0..r.range(1, 3) {
            let sid = gen::int(r);
            let fid = gen::fid(r);
            let k = gen::crowd(r);
            let msgs: Vec<Message> = (0..k as u64).map(|j| gen::tiny_message(r, j)).collect();
            let a: Vec<Action> = (0..gen::crowd(r)).map(|j| gen::tiny_action(r, j)).collect();
            c.stats.max("messages of one NOTIFY", k as u64);
            c.stats.max("actions of one ACK", a.len() as u64);
            inputs.push(Inp::notify(false, sid, fid, &msgs));
            if i == 0 && r.chance(30) {
                // an empty one in between
                inputs.push(Inp::notify(false, sid, fid, &[]));
                acts.push(reply(r, a, g.eff_limit()));
                acts.push(Act::Reply(vec![]));
            } else {
                acts.push(reply(r, a, g.eff_limit()));
            }
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (_, seen, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("ACKs judged", seen.frames.len() as u64 - 1);
        Ok(())
    });
    ctx.require("ACKs judged", 1000);
}

/// The peer waits for every answer before it sends the next frame.
fn lockstep(c: &mut Case, g: &Cfg, inputs: &[Inp], acts: Vec<Act>) -> Result<(Expect, Seen, Log), String> {
    let e = model(g, inputs, &ok_make(), &acts);
    let mut steps = vec![];
    let parts = c.rng.chance(40);
    let mut sent = 0;
    for (i, x) in inputs.iter().enumerate() {
        let mut b = x.bytes()[sent..].to_vec();
        sent = 0;
        // some of the next frame arrives before this one is answered
        if let Some(y) = inputs.get(i + 1).filter(|_| parts && c.rng.chance(60)) {
            let y = y.bytes();
            sent = c.rng.range(1, y.len() as u64 - 1) as usize;
            b.extend(&y[..sent]);
            c.stats.count("answers awaited within the next frame", 1);
        }
        steps.push(Step::Feed(b));
        steps.push(Step::Frames(i + 1));
    }
    let behave = Behave { call: by_call(acts), ..Behave::default() };
    let s = stream(&mut c.rng);
    let (seen, log) = alone(g, behave, s, Plan::new(steps), &mut c.rng);
    observe(c, &seen, &log);
    let fail = |x: String| format!("{x}\nagent: {g:?}\nin lockstep: {}", list(inputs));
    if let Some(s) = &seen.stuck {
        if check_all(&e, &seen, &log).is_ok() {
            return Err(fail(format!("the peer waited in vain for {s}")));
        }
    }
    check_all(&e, &seen, &log).map_err(fail)?;
    Ok((e, seen, log))
}

// ---------------------------------------------------------------- C18

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "case key: the whole session; non-trivial: at least one fragmented NOTIFY".into();
    let n = ctx.n(3000, 80_000);
    ctx.cases("interleaved", n, |c| {
        let r = &mut c.rng;
        let g = Cfg { caps: { let mut v = pick_caps(r); v.push(Capability::Fragmentation); v }, state: 3, ..Cfg::default() };
        let mut hc = pick_caps(r);
        hc.push(Capability::Fragmentation);
        let mut inputs = vec![plain_hello(16384, &hc)];
        // pairs that differ in only one of their ids, too
        let (a, b) = (gen::int(r), gen::fid(r));
        let mut pairs = vec![(a, b), (a ^ 1, b), (a, if b == u64::MAX { 1 } else { b + 1 }), (b, a.max(1)), (0, 1), (a ^ (1 << 32), b)];
        pairs.sort();
        pairs.dedup();
        r.shuffle(&mut pairs);
        pairs.truncate(1 + r.usize(4));
        let mut acts = vec![];
        let mut t = 0;
        for _ in 0..r.range(2, 25) {
            let (sid, fid) = *r.pick(&pairs);
            let k = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
            let msgs: Vec<Message> = (0..k)
                .map(|_| {
                    t += 1;
                    gen::small_message(r, t)
                })
                .collect();
            let fragmented = r.chance(60);
            if !fragmented {
                let a = (0..r.usize(3)).map(|_| gen::small_action(r)).collect();
                acts.push(reply(r, a, Duration::from_secs(15)));
            }
            inputs.push(Inp::notify(fragmented, sid, fid, &msgs));
            c.stats.count("fragments sent", fragmented as u64);
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (e, _, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("notifications completed", e.calls.len() as u64);
        c.sample(4, || format!("{} => {} calls", list(&inputs), e.calls.len()));
        Ok(())
    });
    let m = ctx.n(12, 200);
    ctx.cases("many open", m, |c| {
        let r = &mut c.rng;
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 3, ..Cfg::default() };
        let mut inputs = vec![plain_hello(16384, gen::CAPS)];
        let k = *r.pick(&[70usize, 140, 300, 600, 1100, 2100, 5000]);
        let (base, step) = (r.next(), *r.pick(&[1u64, 1 << 32, 256]));
        let by_stream = r.chance(50);
        let id = |i: usize| {
            let x = base.wrapping_add((i as u64).wrapping_mul(step));
            if by_stream { (x, 7) } else { (7, x.max(1)) }
        };
        let mut acts = vec![];
        let mut order: Vec<(usize, bool)> = vec![];
        for _ in 0..2 {
            let mut o: Vec<usize> = (0..k).collect();
            if r.chance(50) {
                r.shuffle(&mut o);
            }
            order.extend(o.into_iter().map(|i| (i, true)));
        }
        let mut o: Vec<usize> = (0..k).collect();
        if r.chance(50) {
            r.shuffle(&mut o);
        }
        order.extend(o.into_iter().map(|i| (i, false)));
        for (n, (i, fragmented)) in order.into_iter().enumerate() {
            let (s, f) = id(i);
            inputs.push(Inp::notify(fragmented, s, f, &[gen::tiny_message(r, n as u64)]));
            if !fragmented {
                acts.push(Act::Reply(vec![gen::tiny_action(r, n)]));
            }
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (e, _, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("notifications completed", e.calls.len() as u64);
        c.max("notifications open at a time", k as u64);
        Ok(())
    });
    ctx.cases("many fragments", ctx.n(30, 500), |c| {
        let r = &mut c.rng;
        let g = Cfg { caps: gen::CAPS.to_vec(), state: 3, ..Cfg::default() };
        let mut inputs = vec![plain_hello(16384, gen::CAPS)];
        let mut acts = vec![];
        let pairs = [(r.next(), gen::fid(r)), (r.below(3), 5), (r.below(3), 6)];
        let k = *r.pick(&[300u64, 700, 1500, 5000]);
        for i in 0..k {
            let (s, f) = *r.pick(&pairs);
            let msgs: Vec<Message> = (0..*r.pick(&[0u64, 1, 1, 2])).map(|j| gen::tiny_message(r, i * 2 + j)).collect();
            inputs.push(Inp::notify(true, s, f, &msgs));
            c.stats.count("fragments sent", 1);
        }
        for (s, f) in pairs {
            inputs.push(Inp::notify(false, s, f, &[]));
            acts.push(Act::Reply(vec![gen::tiny_action(r, 1)]));
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (e, _, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("notifications completed", e.calls.len() as u64);
        c.max("messages of a NOTIFY in fragments", e.calls.iter().map(|m| m.len()).max().unwrap_or(0) as u64);
        Ok(())
    });
    ctx.cases("not negotiated", n, |c| {
        let r = &mut c.rng;
        let mut ours = pick_caps(r);
        let mut theirs = pick_caps(r);
        match r.below(3) {
            0 => ours.retain(|x| *x != Capability::Fragmentation),
            1 => theirs.retain(|x| *x != Capability::Fragmentation),
            _ => {
                ours.retain(|x| *x != Capability::Fragmentation);
                theirs.retain(|x| *x != Capability::Fragmentation);
            }
        }
        let g = Cfg { caps: ours, state: 3, ..Cfg::default() };
        let mut inputs = vec![plain_hello(16384, &theirs)];
        let mut acts = vec![];
        let (before, after) = (r.usize(4), r.usize(4));
        let at = before;
        for i in 0..before + 1 + after {
            let m = gen::small_message(r, i as u64);
            let msgs = if r.chance(15) { vec![] } else { vec![m] };
            inputs.push(Inp::notify(i == at, gen::int(r), gen::fid(r), &msgs));
            let a = (0..r.usize(3)).map(|_| gen::small_action(r)).collect();
            acts.push(reply(r, a, Duration::from_secs(15)));
        }
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        run(c, &g, &inputs, ok_make(), acts)?;
        c.count("refused fragments", 1);
        Ok(())
    });
    let known = crate::known_findings("C18");
    for (group, what) in [("continuation frames", CONTINUATION), ("aborted notification", ABORTED)] {
        let known = known.clone();
        ctx.cases(group, 20, |c| {
            let r = &mut c.rng;
            let g = Cfg { caps: vec![Capability::Fragmentation], state: 3, ..Cfg::default() };
            let (sid, fid) = (gen::int(r), gen::fid(r));
            let (m1, m2) = (gen::small_message(r, 1), gen::small_message(r, 2));
            let mut second = wire::notify_frame(wire::FIN, sid, fid, &[m2.clone()]);
            let mut whole = true;
            if group == "continuation frames" {
                second[0] = wire::T_UNSET;
            } else {
                second[4] |= wire::ABORT as u8;
                whole = false;
            }
            let bytes = vec![
                plain_hello(16384, &[Capability::Fragmentation]).bytes(),
                Inp::notify(true, sid, fid, &[m1.clone()]).bytes(),
                wire::framed(&second),
            ];
            let behave = Behave::default();
            let (seen, log) = alone(&g, behave, stream(r), Plan::new(deliver(&bytes, r)), r);
            observe(c, &seen, &log);
            let calls: Vec<Vec<Message>> = log.calls().into_iter().map(|x| x.1).collect();
            c.nontrivial(mix(c.idx) ^ hash_bytes(group.as_bytes()));
            let got = seen.frames.get(1).map(|f| wire::decode(&f.1));
            let right = if whole {
                calls == vec![vec![m1.clone(), m2.clone()]]
            } else {
                // given up, and answered by an aborted ACK or by nothing
                calls.is_empty()
            };
            if right {
                return Ok(());
            }
            // exactly the listed behaviour, nothing else
            let as_listed = if whole {
                calls.is_empty() && matches!(&got, Some(Verdict::Frame(Frame::AgentDisconnect(d))) if d.status_code == 4)
            } else {
                calls == vec![vec![m1, m2]] && matches!(&got, Some(Verdict::Frame(Frame::AgentAck(a))) if !a.aborted)
            };
            if as_listed && known.iter().any(|k| k == what) {
                return Err(format!("{KNOWN}{what}"));
            }
            Err(format!("{group}: the service got {calls:?}, the peer {got:?}"))
        });
    }
    ctx.require("notifications completed", 500);
    ctx.require("refused fragments", 100);
}

const CONTINUATION: &str = "a fragment continued in an UNSET (type 0) frame is refused with status 4 instead of completing the NOTIFY";
const ABORTED: &str = "a fragmented NOTIFY whose final fragment has the ABORT flag is processed and acknowledged as if it were complete";

// ---------------------------------------------------------------- C19, C20

fn prologue(r: &mut Rng) -> (Cfg, Vec<Inp>, Vec<Act>, usize) {
    let (mut g, mut h, mut max) = session_cfg(r);
    if r.chance(30) {
        // small frames
        g.max = Some(r.range(300, 3000) as usize);
        h = plain_hello(r.range(300, 3000) as u32, &pick_caps(r));
        if let Inp::Payload(p) = &h {
            if let Verdict::Frame(Frame::HaproxyHello(x)) = wire::decode(p) {
                max = (x.max_frame_size as u64).min(g.eff_max()) as usize;
            }
        }
    }
    let mut inputs = vec![h];
    let mut acts = vec![];
    for _ in 0..r.usize(5) {
        let x = note(r, max, false);
        inputs.push(Inp::notify(false, x.sid, x.fid, &x.msgs));
        let a = answer(r, &x, max, false);
        acts.push(reply(r, a, g.eff_limit()));
    }
    if r.chance(20) {
        // with something unfinished
        g.caps = vec![Capability::Fragmentation];
        inputs[0] = plain_hello(max as u32, gen::CAPS);
        let at = r.usize(inputs.len());
        inputs.insert(at + 1, Inp::notify(true, r.range(1 << 40, 1 << 50), r.range(1 << 40, 1 << 50), &[]));
    }
    (g, inputs, acts, max)
}

/// A session of any kind, ended in any way.
pub fn any_session(r: &mut Rng) -> (Cfg, Vec<Inp>, Make, Vec<Act>) {
    let (g, mut inputs, mut acts, max) = prologue(r);
    let mut make = ok_make();
    // with an engine, and names and texts of any length
    if let Some(Verdict::Frame(Frame::HaproxyHello(mut h))) = match &inputs[0] {
        Inp::Payload(p) if r.chance(60) => Some(wire::decode(p)),
        _ => None,
    } {
        h.engine_id = Some(gen::text(r, 80));
        h.healthcheck = *r.pick(&[None, Some(false)]);
        let p = wire::payload(&Frame::HaproxyHello(h));
        if p.len() as u64 <= g.eff_max() {
            inputs[0] = Inp::Payload(p);
        }
    }
    for _ in 0..r.usize(3) {
        let x = note(r, max, true);
        inputs.push(Inp::notify(false, x.sid, x.fid, &x.msgs));
        let a = answer(r, &x, max, true);
        acts.push(reply(r, a, g.eff_limit()));
    }
    match r.below(12) {
        0 => inputs.push(Inp::Payload(wire::payload(&Frame::HaproxyDisconnect(gen::disconnect(r))))),
        1 => {
            let n = r.usize(60);
            let p = r.bytes(n);
            if matches!(wire::decode(&p), Verdict::Bad(..)) {
                inputs.push(Inp::Payload(p));
            }
        }
        2 => {
            let p = small_frame(r);
            if let Some(p) = damaged(r, p) {
                inputs.push(Inp::Payload(p));
            }
        }
        3 => {
            if let Some(p) = match &inputs[0] {
                Inp::Payload(p) => damaged(r, p.clone()),
                _ => None,
            } {
                inputs[0] = Inp::Payload(p);
            }
        }
        4 => inputs.push(Inp::Raw(max as u32 + 1 + r.below(1000) as u32, vec![1; 30])),
        5 => {
            acts.push(Act::Err(Duration::ZERO, gen::text(r, 40)));
            inputs.push(Inp::notify(false, 1, 2, &[gen::small_message(r, 1)]));
        }
        6 => make = Make::Err(Duration::ZERO, gen::text(r, 40)),
        7 => {
            acts.push(Act::Ok(Duration::from_secs(100_000), vec![]));
            inputs.push(Inp::notify(false, 1, 2, &[gen::small_message(r, 1)]));
        }
        8 => {
            let x = note(r, max, false);
            inputs.push(Inp::notify(true, x.sid, x.fid, &x.msgs));
            inputs.push(Inp::notify(true, x.sid ^ 1, x.fid, &x.msgs));
            inputs.push(Inp::notify(false, x.sid, x.fid, &[]));
            acts.push(reply(r, vec![], g.eff_limit()));
        }
        9 => inputs.extend(extras(r)),
        _ => (),
    }
    (g, inputs, make, acts)
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "case key: the whole session; non-trivial: a violation was answered".into();
    let n = ctx.n(7000, 200_000);
    ctx.cases("violation", n, |c| {
        let (g, mut inputs, acts, max) = prologue(&mut c.rng);
        let r = &mut c.rng;
        let kind = r.below(8);
        let bad = match kind {
            7 => {
                // continues nothing: of ids that no fragment had
                let open: Vec<_> = inputs
                    .iter()
                    .filter_map(|i| match i {
                        Inp::Payload(p) => Some(p),
                        _ => None,
                    })
                    .filter_map(|p| match wire::decode(p) {
                        Verdict::Frame(Frame::HaproxyNotify(n)) if n.fragmented => Some((n.stream_id, n.frame_id)),
                        _ => None,
                    })
                    .collect();
                let (mut sid, mut fid) = match r.below(4) {
                    0 => (0, 0),
                    1 if !open.is_empty() => {
                        let k = *r.pick(&open);
                        *r.pick(&[(k.0, k.1 ^ 1), (k.0 ^ 1, k.1), (k.1, k.0)])
                    }
                    _ => (gen::int(r), gen::fid(r)),
                };
                while open.contains(&(sid, fid)) {
                    (sid, fid) = (gen::int(r), gen::fid(r));
                }
                let k = *r.pick(&[0, 0, 1, 5, 60]);
                let body = match r.below(3) {
                    0 => r.bytes(k),
                    _ => wire::payload(&Frame::notify(1, 1, [gen::small_message(r, 1)]))[7..].to_vec(),
                };
                let body = if r.chance(30) { vec![] } else { body };
                Inp::Payload(unset_frame(*r.pick(&[0, 1, 1, 2, 3]), sid, fid, &body))
            }
            0 => match r.below(4) {
                0 => plain_hello(16384, gen::CAPS),
                1 => inputs[0].clone(),
                k => {
                    let mut h = gen::hello(r);
                    if k == 2 || r.chance(50) {
                        h.supported_versions = vec![Version::new(2, 0)];
                    }
                    h.healthcheck = *r.pick(&[None, Some(false), Some(true), Some(true)]);
                    c.stats.count("second hellos that ask for a health check", (h.healthcheck == Some(true)) as u64);
                    Inp::Payload(wire::payload(&Frame::HaproxyHello(h)))
                }
            },
            1 => Inp::Payload(wire::payload(&Frame::AgentHello(AgentHello { version: gen::version(r), max_frame_size: gen::size(r), capabilities: gen::caps(r) }))),
            2 => Inp::Payload(wire::payload(&match r.below(3) {
                1 => Frame::AgentDisconnect(gen::disconnect(r)),
                0 => Frame::AgentDisconnect(Disconnect { status_code: r.below(12) as u32, message: "x".into() }),
                _ => Frame::AgentAck(AgentAck { fragmented: r.chance(20), aborted: r.chance(20), stream_id: gen::int(r), frame_id: gen::fid(r), actions: vec![gen::small_action(r)] }),
            })),
            3 => {
                // a type nobody knows
                let mut p = small_frame(r);
                p[0] = *r.pick(&[4, 5, 99, 100, 104, 105, 127, 128, 200, 255]);
                Inp::Payload(p)
            }
            4 => {
                let over = match r.below(4) {
                    0 => 1,
                    1 => r.range(1, 100) as u32,
                    _ => u32::MAX - max.max(g.eff_max() as usize) as u32,
                };
                let k = r.usize(300);
                Inp::Raw(max.max(g.eff_max() as usize) as u32 + over, r.bytes(k))
            }
            5 => {
                let x = note(r, max, false);
                match damaged(r, wire::notify_frame(1, x.sid, x.fid, &x.msgs)) {
                    Some(p) if p.len() <= max => Inp::Payload(p),
                    _ => return Ok(()),
                }
            }
            _ => {
                let p = small_frame(r);
                match damaged(r, p) {
                    Some(p) => Inp::Payload(p),
                    None => return Ok(()),
                }
            }
        };
        if let Inp::Payload(p) = &bad {
            // a continuation frame is a matter of C18
            if kind != 7 && p.first() == Some(&wire::T_UNSET) || p.len() > max {
                return Ok(());
            }
        }
        inputs.push(bad);
        inputs.extend(extras(r));
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        // a peer that waits for each answer sends nothing that gets none
        let waits = |i: &Inp| match i {
            Inp::Payload(p) => !matches!(wire::decode(p), Verdict::Frame(Frame::HaproxyNotify(n)) if n.fragmented),
            Inp::Raw(..) => false,
        };
        let e = if c.rng.chance(30) && inputs.iter().all(waits) {
            let k = inputs.len();
            let (e, ..) = lockstep(c, &g, &inputs[..k], acts)?;
            e
        } else {
            run(c, &g, &inputs, ok_make(), acts)?.0
        };
        c.count("violations answered", 1);
        c.count(&format!("violations of kind {kind}"), 1);
        c.sample(8, || format!("{} => {:?}", list(&inputs[e.used - 1..e.used]), e.out.last()));
        Ok(())
    });
    // every short payload
    ctx.cases("short frames", 8 * 6, |c| {
        let (g, mut inputs, acts, _) = prologue(&mut c.rng);
        let n = c.idx as usize / 6;
        let b = [1u8, 2, 3, 103, 7, 255][c.idx as usize % 6];
        let mut p = vec![b, 0, 0, 0, 1, 0, 0, 0];
        p.truncate(n);
        if !matches!(wire::decode(&p), Verdict::Bad(..)) {
            return Ok(());
        }
        inputs.push(Inp::Payload(p));
        inputs.extend(extras(&mut c.rng));
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        run(c, &g, &inputs, ok_make(), acts)?;
        c.count("short frames answered", 1);
        Ok(())
    });
    ctx.require("short frames answered", 20);
    ctx.require("violations answered", 500);
    for k in 0..8 {
        ctx.require(&format!("violations of kind {k}"), 10);
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "case key: the whole session; non-trivial: a disconnect was answered".into();
    let n = ctx.n(4000, 120_000);
    ctx.cases("peer disconnects", n, |c| {
        let (mut g, mut inputs, mut acts, max) = prologue(&mut c.rng);
        let r = &mut c.rng;
        if r.chance(30) {
            // with something unfinished
            g.caps = vec![Capability::Fragmentation];
            inputs[0] = plain_hello(max as u32, gen::CAPS);
            inputs.push(Inp::notify(true, 1, 1, &[]));
        }
        if r.chance(40) && !acts.is_empty() {
            // the last answer takes a while; the disconnect comes meanwhile
            let k = acts.len() - 1;
            if let Act::Reply(a) = &acts[k] {
                acts[k] = Act::Ok(Duration::from_millis(r.range(1, 14_000)), a.clone());
            }
        }
        let d = loop {
            let d = Disconnect {
                status_code: match r.below(3) {
                    0 => 0,
                    1 => r.pick(wire::STATUS_TABLE).1,
                    _ => gen::int(r) as u32,
                },
                message: gen::text(r, 3000),
            };
            if wire::payload(&Frame::HaproxyDisconnect(d.clone())).len() <= max {
                break d;
            }
        };
        let mut items = wire::disconnect_items(&d);
        if r.chance(30) {
            r.shuffle(&mut items);
        }
        inputs.push(Inp::Payload(wire::kv_frame(wire::T_HAPROXY_DISCON, &items)));
        inputs.extend(extras(r));
        c.nontrivial(hash_bytes(&inputs.iter().flat_map(|i| i.bytes()).collect::<Vec<_>>()));
        let (e, _, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("disconnects answered", 1);
        c.count("answers before a disconnect", e.out.len() as u64 - 2);
        Ok(())
    });
    ctx.require("disconnects answered", 500);
}

// ---------------------------------------------------------------- C21

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "case key: limit, delays and arrival; non-trivial: at least one call was timed".into();
    let n = ctx.n(4000, 120_000);
    ctx.cases("limit", n, |c| {
        let r = &mut c.rng;
        let limit = match r.below(7) {
            0 => None,
            1 => Some(Duration::MAX),
            2 => Some(Duration::ZERO),
            3 => Some(MS * r.range(4, 50) as u32),
            4 => Some(Duration::from_secs(r.range(1, 40_000))),
            5 => Some(Duration::from_micros(r.range(4000, 2_000_000))),
            _ => Some(*r.pick(&[Duration::from_secs(1), Duration::from_secs(15), Duration::from_secs(14), Duration::from_secs(30), MS * 100])),
        };
        let g = Cfg { limit, state: 1, ..Cfg::default() };
        let l = g.eff_limit();
        let endless = l == Duration::MAX;
        let within = |r: &mut Rng| -> Duration {
            if endless {
                return Duration::from_secs(r.below(60 * 86_400));
            }
            let room = l.saturating_sub(MS * 3).as_micros() as u64;
            match r.below(4) {
                0 => Duration::from_micros(room),
                1 => Duration::ZERO,
                _ => Duration::from_micros(r.below(room + 1)),
            }
        };
        let k = r.usize(6);
        let late = !endless && (l.is_zero() || r.chance(65));
        let mut acts = vec![];
        for _ in 0..(if l.is_zero() { 0 } else { k }) {
            let d = within(r);
            acts.push(Act::Ok(d, vec![gen::small_action(r)]));
        }
        if late {
            acts.push(match r.below(4) {
                0 => Act::Never,
                1 => Act::Ok(l + MS * 3, vec![gen::small_action(r)]),
                2 => Act::Err(l + MS * r.range(3, 5000) as u32, "too late".into()),
                _ => Act::Ok(l + Duration::from_micros(r.range(3000, 5_000_000_000)), vec![]),
            });
        }
        let m = acts.len();
        let mut inputs = vec![plain_hello(16384, &pick_caps(r))];
        for i in 0..m + r.usize(3) {
            inputs.push(Inp::notify(false, i as u64, 1 + gen::int(r).min(u64::MAX - 1), &[gen::small_message(r, i as u64)]));
        }
        if inputs.len() == 1 {
            return Ok(());
        }
        c.nontrivial(hash_bytes(format!("{limit:?}{acts:?}").as_bytes()));
        let r = &mut c.rng;
        // a peer that pipelines, waits, or sends while a call is running
        let mut steps = vec![];
        let mode = r.below(3);
        for (i, x) in inputs.iter().enumerate() {
            steps.push(Step::Feed(x.bytes()));
            match mode {
                0 => (),
                1 => steps.push(Step::Frames(i + 1)),
                _ => {
                    let t = if endless || l.is_zero() { 20_000_000 } else { (l.as_micros() as u64).min(1 << 40) };
                    steps.push(Step::Sleep(Duration::from_micros(r.below(t))));
                }
            }
        }
        let e = model(&g, &inputs, &ok_make(), &acts);
        let behave = Behave { call: by_call(acts.clone()), ..Behave::default() };
        let s = stream(r);
        let plan = Plan { steps, horizon: HOUR * 24 * 800 };
        let (seen, log) = alone(&g, behave, s, plan, r);
        observe(c, &seen, &log);
        let fail = |x: String| format!("{x}\nlimit {limit:?}, calls {}", clip(&format!("{acts:?}"), 800));
        check_all(&e, &seen, &log).map_err(fail)?;
        // when
        let t0 = seen.t0.unwrap();
        let ev = log.all();
        let rel = |t: &Option<tokio::time::Instant>| t.map(|t| t - t0).unwrap_or_default();
        let started: Vec<Duration> = ev.iter().filter(|x| matches!(x.1, Ev::Call { .. })).map(|x| rel(&x.0)).collect();
        for (i, at) in started.iter().enumerate() {
            let (took, end) = match &acts.get(i) {
                Some(Act::Ok(d, _)) if !late || i + 1 < m => (*d, false),
                None => (Duration::ZERO, false),
                _ => (l, true),
            };
            let sent = seen.frames[i + 1].0;
            let due = at.saturating_add(took);
            let tol = MS * 2;
            if sent + tol < due || sent > due + tol {
                return Err(fail(format!(
                    "call {i} began at {at:?}; its {} was due at {due:?} and was sent at {sent:?}",
                    if end { "timeout" } else { "ACK" }
                )));
            }
            c.count(if end { "timeouts timed" } else { "ACKs timed" }, 1);
            if end {
                let cancelled = ev.iter().find(|x| matches!(x.1, Ev::Cancelled { call, .. } if call == i)).map(|x| rel(&x.0));
                match cancelled {
                    Some(t) if t <= due + tol => (),
                    other => return Err(fail(format!("call {i} was due to be cancelled at {due:?}; it was: {other:?}"))),
                }
                match seen.closed {
                    Some(t) if t <= due + tol => (),
                    other => return Err(fail(format!("the connection was due to close at {due:?}; it did: {other:?}"))),
                }
            }
        }
        c.sample(5, || format!("limit {limit:?}, {} calls, late: {late}, closed {:?}", started.len(), seen.closed));
        Ok(())
    });
    let n = ctx.n(1500, 40_000);
    ctx.cases("readiness", n, |c| {
        let r = &mut c.rng;
        let limit = *r.pick(&[None, Some(Duration::from_secs(1)), Some(Duration::from_secs(100)), Some(MS * 200)]);
        let g = Cfg { state: 1, limit, ..Cfg::default() };
        let l = g.eff_limit();
        let k = r.range(1, 4) as usize;
        // the time is the service's to spend as it likes: getting ready, or in the call
        let plan: Vec<(Ready, Act)> = (0..k)
            .map(|i| {
                let last = i + 1 == k;
                let ready = match r.below(if last { 4 } else { 3 }) {
                    0 => Ready::Now,
                    3 => r.pick(&[Ready::Never, Ready::After(l * 2), Ready::After(l + MS * 10)]).clone(),
                    _ => Ready::After(l.mul_f64(r.below(10) as f64 / 20.0)),
                };
                let act = match r.below(if last { 4 } else { 3 }) {
                    0 => Act::Ok(Duration::ZERO, vec![gen::small_action(r)]),
                    3 => r.pick(&[Act::Never, Act::Ok(l, vec![]), Act::Ok(l.mul_f64(0.99), vec![])]).clone(),
                    _ => Act::Ok(l.mul_f64(r.below(9) as f64 / 20.0), vec![]),
                };
                (ready, act)
            })
            .collect();
        let spent: Vec<Duration> = plan
            .iter()
            .map(|(r, a)| {
                let r = match r {
                    Ready::Now => Duration::ZERO,
                    Ready::After(d) => *d,
                    _ => Duration::MAX,
                };
                r.saturating_add(match a {
                    Act::Ok(d, _) => *d,
                    _ => Duration::MAX,
                })
            })
            .collect();
        // too close to tell
        if spent.iter().any(|d| d.saturating_add(MS * 5) > l && *d < l.saturating_add(MS * 5)) {
            return Ok(());
        }
        let mut steps = vec![Step::Feed(plain_hello(16384, &[]).bytes()), Step::Frames(1)];
        for i in 0..k {
            if r.chance(30) {
                steps.push(Step::Sleep(l.mul_f64(r.below(30) as f64 / 10.0)));
            }
            steps.push(Step::Sleep(MS * 7));
            steps.push(Step::Feed(Inp::notify(false, i as u64, 1, &[]).bytes()));
            steps.push(Step::Frames(i + 2));
        }
        let (p1, p2) = (plan.clone(), plan.clone());
        let fed = Arc::new(std::sync::Mutex::new(vec![]));
        let f = fed.clone();
        let behave = Behave {
            ready: Arc::new(move |_, i| {
                // asked first when the frame has arrived
                let mut f = f.lock().unwrap();
                if f.len() == i {
                    f.push(tokio::time::Instant::now());
                }
                p1.get(i).map(|x| x.0.clone()).unwrap_or(Ready::Now)
            }),
            call: Arc::new(move |_, i, _| p2.get(i).map(|x| x.1.clone()).unwrap_or(Act::Reply(vec![]))),
            ..Behave::default()
        };
        let s = stream(r);
        let (seen, log) = alone(&g, behave, s, Plan { steps, horizon: HOUR * 24 }, r);
        observe(c, &seen, &log);
        let fail = |x: String| format!("{x}\nlimit {l:?}, readiness and calls {plan:?}");
        let t0 = seen.t0.unwrap();
        let fed = fed.lock().unwrap().clone();
        for (i, d) in spent.iter().enumerate() {
            let Some(at) = fed.get(i).map(|t| *t - t0) else {
                return Err(fail(format!("NOTIFY {i} never reached the service")));
            };
            let Some((t, p)) = seen.frames.get(i + 1) else {
                return Err(fail(format!("NOTIFY {i} was never answered")));
            };
            let late = *d > l;
            let due = at + l.min(*d);
            if *t + MS * 2 < due || *t > due + MS * 2 {
                return Err(fail(format!("NOTIFY {i} reached the service at {at:?}, its answer was due at {due:?} and was sent at {t:?}")));
            }
            if (p[0] == 102) != late {
                return Err(fail(format!("NOTIFY {i} is answered by {}", show(p))));
            }
            c.count(if late { "timeouts timed" } else { "ACKs timed" }, 1);
            if late {
                if seen.frames.len() > i + 2 || seen.closed.is_none_or(|t| t > due + MS * 2) {
                    return Err(fail(format!("{} frames after the timeout, closed {:?}", seen.frames.len() - i - 2, seen.closed)));
                }
                break;
            }
        }
        c.nontrivial(hash_bytes(format!("{plan:?}{limit:?}").as_bytes()));
        Ok(())
    });
    let n = ctx.n(1000, 30_000);
    ctx.cases("fragments", n, |c| {
        // the fragments take their time: the limit is for the processing
        let r = &mut c.rng;
        let limit = *r.pick(&[None, Some(Duration::from_secs(1)), Some(Duration::from_secs(100)), Some(MS * 200)]);
        let g = Cfg { state: 1, limit, caps: gen::CAPS.to_vec(), ..Cfg::default() };
        let l = g.eff_limit();
        let k = r.range(1, 4) as usize;
        let late = r.chance(40);
        let took: Vec<Duration> = (0..k)
            .map(|i| {
                if late && i + 1 == k {
                    l + MS * r.range(5, 5000) as u32
                } else {
                    l.mul_f64(r.below(96) as f64 / 100.0)
                }
            })
            .collect();
        let mut steps = vec![Step::Feed(plain_hello(16384, gen::CAPS).bytes()), Step::Frames(1)];
        let mut gaps = vec![];
        for i in 0..k {
            let pieces = r.range(1, 4);
            for j in 0..pieces {
                let d = if j == 0 { MS * 7 } else { l.mul_f64(r.below(150) as f64 / 100.0) };
                gaps.push(d);
                steps.push(Step::Sleep(d));
                steps.push(Step::Feed(Inp::notify(j + 1 < pieces, 5, i as u64 + 1, &[gen::small_message(r, j)]).bytes()));
            }
            steps.push(Step::Frames(i + 2));
        }
        let acts: Vec<Act> = took.iter().map(|d| Act::Ok(*d, vec![])).collect();
        let behave = Behave { call: by_call(acts), ..Behave::default() };
        let s = stream(r);
        let (seen, log) = alone(&g, behave, s, Plan { steps, horizon: HOUR * 24 }, r);
        observe(c, &seen, &log);
        let fail = |x: String| format!("{x}\nlimit {l:?}, calls take {took:?}, gaps {gaps:?}");
        let t0 = seen.t0.unwrap();
        let started: Vec<Duration> = log
            .all()
            .iter()
            .filter(|x| matches!(x.1, Ev::Call { .. }))
            .map(|x| x.0.map(|t| t - t0).unwrap_or_default())
            .collect();
        for (i, d) in took.iter().enumerate() {
            let end = *d > l;
            let Some(at) = started.get(i) else {
                return Err(fail(format!("NOTIFY {i} never reached the service")));
            };
            let Some((t, p)) = seen.frames.get(i + 1) else {
                return Err(fail(format!("NOTIFY {i} was never answered")));
            };
            let due = *at + l.min(*d);
            if *t + MS * 2 < due || *t > due + MS * 2 || (p[0] == 102) != end {
                return Err(fail(format!(
                    "NOTIFY {i} reached the service at {at:?}; {} was due at {due:?}, {} was sent at {t:?}",
                    if end { "the timeout" } else { "its ACK" },
                    show(p)
                )));
            }
            c.count(if end { "timeouts timed" } else { "ACKs timed" }, 1);
        }
        c.count("fragments that came slowly", gaps.iter().filter(|d| **d > l / 2).count() as u64);
        c.nontrivial(hash_bytes(format!("{took:?}{gaps:?}").as_bytes()));
        Ok(())
    });
    ctx.require("fragments that came slowly", 300);
    ctx.require("timeouts timed", 300);
    ctx.require("ACKs timed", 300);
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "case key: error text, sizes and place; non-trivial: a failure was reported".into();
    let text = |r: &mut Rng, max: usize| -> String {
        match r.below(8) {
            0 => String::new(),
            1 => gen::text(r, 300),
            2 => gen::text(r, 4000),
            3 => "x".repeat(max.saturating_sub(100)),
            4 => "y".repeat(max),
            5 => "z".repeat(max + r.usize(100)),
            6 => {
                let n = max.saturating_sub(r.usize(150));
                "é".repeat(n / 2)
            }
            _ => "w".repeat(max.saturating_sub(60).saturating_add(r.usize(80))),
        }
    };
    let n = ctx.n(4000, 120_000);
    ctx.cases("service error", n, |c| {
        let (g, mut inputs, mut acts, max) = prologue(&mut c.rng);
        let r = &mut c.rng;
        let x = note(r, max, false);
        let t = text(r, max);
        inputs.push(Inp::notify(false, x.sid, x.fid, &x.msgs));
        let d = if r.chance(50) { Duration::ZERO } else { Duration::from_millis(r.below(14_000)) };
        if r.chance(20) {
            // it does not become ready
            acts.push(Act::Err(Duration::ZERO, t.clone()));
            inputs.extend(extras(r));
            return unready(c, &g, &inputs, acts, t);
        }
        acts.push(Act::Err(d, t.clone()));
        inputs.extend(extras(r));
        c.nontrivial(hash_bytes(format!("{t}{max}").as_bytes()));
        let (e, _, _) = run(c, &g, &inputs, ok_make(), acts)?;
        c.count("service failures reported", 1);
        c.count("with their text", matches!(e.out.last(), Some(Out::Disc { text: Some(_), .. })) as u64);
        c.count("too long for a frame", (t.len() > max) as u64);
        Ok(())
    });
    ctx.cases("factory error", n, |c| {
        let r = &mut c.rng;
        let max = *r.pick(&[256usize, 300, 1000, 16384, 70_000]);
        let g = Cfg { max: Some(max), state: 2, caps: pick_caps(r), ..Cfg::default() };
        let t = text(r, max);
        let mut inputs = vec![plain_hello(max as u32, &pick_caps(r))];
        inputs.extend(extras(r));
        let d = if r.chance(50) { Duration::ZERO } else { Duration::from_millis(r.below(100_000)) };
        c.nontrivial(hash_bytes(format!("{t}{max}").as_bytes()));
        let (e, _, _) = run(c, &g, &inputs, Make::Err(d, t.clone()), vec![])?;
        c.count("factory failures reported", 1);
        c.count("with their text", matches!(e.out.last(), Some(Out::Disc { text: Some(_), .. })) as u64);
        c.count("too long for a frame", (t.len() > max) as u64);
        Ok(())
    });
    let n = ctx.n(1000, 20_000);
    ctx.cases("errors with a status", n, status_failure);
    ctx.require("service failures reported", 300);
    ctx.require("factory failures reported", 300);
    ctx.require("statuses of a factory reported", 200);
    ctx.require("statuses of a service reported", 200);
    ctx.require("failures to become ready reported", 100);
    ctx.require("too long for a frame", 100);
    ctx.require("with their text", 300);
}

/// The errors of a factory or a service are SPOP statuses themselves: that of a factory is told to
/// the peer, that of a service is the text of an unknown error.
pub fn status_failure(c: &mut Case) -> R {
    use haproxy_spop::Error as Status;

    #[derive(Clone)]
    enum Kind {
        Plain(Status),
        Agent(Status),
        Deep(Status),
        Other(String),
    }
    fn agent(k: &Kind) -> haproxy_spoa::Error {
        match k {
            Kind::Plain(s) | Kind::Agent(s) => (*s).into(),
            Kind::Deep(s) => haproxy_spoa::Error::Context {
                source: Box::new(haproxy_spoa::Error::from(*s)),
                context: Box::new("the pool is empty"),
            },
            Kind::Other(t) => std::io::Error::other(t.clone()).into(),
        }
    }
    struct Picky(Kind, bool);
    impl tower::Service<()> for Picky {
        type Response = tower::util::BoxService<Vec<Message>, Vec<Action>, Status>;
        type Error = haproxy_spoa::Error;
        type Future = std::future::Ready<Result<Self::Response, Self::Error>>;
        fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Self::Error>> {
            std::task::Poll::Ready(if self.1 { Err(agent(&self.0)) } else { Ok(()) })
        }
        fn call(&mut self, _: ()) -> Self::Future {
            std::future::ready(Err(agent(&self.0)))
        }
    }

    let r = &mut c.rng;
    let all: Vec<Status> = (0..100u32).filter_map(|n| Status::try_from(n).ok()).collect();
    let s = *r.pick(&all);
    let where_ = r.below(4);
    let kind = match r.below(4) {
        0 => Kind::Plain(s),
        1 => Kind::Agent(s),
        2 => Kind::Deep(s),
        _ => Kind::Other(format!("broken {}", r.below(1000))),
    };
    let (mut first, more) = (vec![plain_hello(16384, &pick_caps(r))], r.below(3));
    for i in 0..=more {
        first.push(Inp::notify(false, i, i + 1, &[Message::new("m", [("k", i)])]));
    }
    let mut bytes = vec![];
    for i in &first {
        bytes.extend(i.bytes());
    }
    let vrt = virtual_rt();
    let talk = |serve: BoxServe| -> Result<Vec<Frame>, String> {
        vrt.block_on(async {
            let (mut ours, theirs) = tokio::io::duplex(1 << 20);
            let task = tokio::spawn(serve(theirs));
            use tokio::io::AsyncWriteExt;
            ours.write_all(&bytes).await.map_err(|e| e.to_string())?;
            let peer = haproxy_spop::Framer::new(1 << 20);
            let mut got = vec![];
            loop {
                match tokio::time::timeout(Duration::from_secs(600), peer.read_frame(&mut ours)).await {
                    Ok(Ok(f)) => got.push(f),
                    Ok(Err(_)) => break,
                    Err(_) => return Err(format!("the connection was not closed after {got:?}")),
                }
            }
            task.await.map_err(|e| e.to_string())?;
            Ok(got)
        })
    };
    type BoxServe = Box<dyn FnOnce(tokio::io::DuplexStream) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>>;
    macro_rules! served {
        ($make:expr) => {{
            let rt = haproxy_spoa::runtime::Builder::new().make_service($make, ());
            Box::new(move |io| {
                let f: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> = Box::pin(async move {
                    let _ = haproxy_spoa::Connection::new(rt, io, tokio_util::sync::CancellationToken::new()).serve().await;
                });
                f
            }) as BoxServe
        }};
    }
    let own = |k: &Kind| match k {
        Kind::Plain(s) | Kind::Agent(s) | Kind::Deep(s) => (*s as u32, None),
        Kind::Other(t) => (99, Some(t.clone())),
    };
    let (serve, acks, status, text) = match where_ {
        // the factory, as it is asked to make a service or whether it is ready
        0 => {
            let s = match &kind {
                Kind::Plain(s) | Kind::Agent(s) | Kind::Deep(s) => *s,
                Kind::Other(_) => s,
            };
            let make = tower::service_fn(move |_: ()| async move { Err::<tower::util::BoxService<Vec<Message>, Vec<Action>, Status>, _>(s) });
            (served!(make), None, s as u32, None)
        }
        1 | 2 => {
            let (status, text) = own(&kind);
            (served!(Picky(kind.clone(), where_ == 1)), None, status, text)
        }
        _ => {
            // the service, at the last of its calls
            let k = kind.clone();
            let make = tower::service_fn(move |_: ()| {
                let k = k.clone();
                async move {
                    Ok::<_, std::convert::Infallible>(tower::service_fn(move |m: Vec<Message>| {
                        let res = if m[0].args[0].1 == haproxy_spop::Typed::Uint64(more) { Err(agent(&k)) } else { Ok::<Vec<Action>, _>(vec![]) };
                        std::future::ready(res)
                    }))
                }
            });
            (served!(make), Some(more), 99, Some(agent(&kind).to_string()))
        }
    };
    let got = talk(serve)?;
    let fail = |what: &str| Err(format!("{what}: expected {} ACKs and a disconnect with status {status} and {text:?} in it, got {got:?}", acks.unwrap_or(0)));
    let before = acks.map_or(0, |n| n as usize + 1);
    if got.len() != before + 1 {
        return fail("another number of frames");
    }
    if acks.is_some() && !matches!(&got[0], Frame::AgentHello(_)) || !got[..before].iter().skip(1).all(|f| matches!(f, Frame::AgentAck(_))) {
        return fail("other frames before");
    }
    match &got[before] {
        Frame::AgentDisconnect(d) if d.status_code == status && text.as_ref().is_none_or(|t| d.message.contains(t)) => (),
        _ => return fail("another end"),
    }
    c.count(if acks.is_some() { "statuses of a service reported" } else { "statuses of a factory reported" }, 1);
    c.nontrivial(hash_bytes(format!("{where_}{status}{text:?}{more}").as_bytes()));
    Ok(())
}

/// The last of the calls is not made, as the service fails to become ready for it.
fn unready(c: &mut Case, g: &Cfg, inputs: &[Inp], acts: Vec<Act>, t: String) -> R {
    let r = &mut c.rng;
    let k = acts.len();
    let mut e = model(g, inputs, &ok_make(), &acts);
    e.calls.truncate(k - 1);
    let t2 = t.clone();
    let behave = Behave {
        ready: Arc::new(move |_, i| if i + 1 == k { Ready::Err(t2.clone()) } else { Ready::Now }),
        call: by_call(acts),
        ..Behave::default()
    };
    let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
    let (seen, log) = alone(g, behave, stream(r), Plan::new(deliver(&bytes, r)), r);
    observe(c, &seen, &log);
    check_all(&e, &seen, &log).map_err(|x| format!("{x}\nthe service does not become ready for call {k}: {t:?}"))?;
    c.nontrivial(hash_bytes(format!("{t}unready").as_bytes()));
    c.count("failures to become ready reported", 1);
    Ok(())
}

// ---------------------------------------------------------------- C23

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "case key: the connections' scripts; non-trivial: at least one service was created".into();
    let n = ctx.n(2500, 60_000);
    ctx.cases("ends", n, |c| {
        let r = &mut c.rng;
        let g = Cfg { state: r.next(), caps: vec![Capability::Fragmentation], ..Cfg::default() };
        let conns = r.range(1, 4) as usize;
        let log = Log::default();
        // connections run at the same time, each ending its own way
        let mut plans = vec![];
        let mut kinds = vec![];
        let mut established = 0;
        let mut want_panic = vec![];
        for _ in 0..conns {
            let kind = r.below(14);
            let mut steps = vec![];
            if r.chance(50) {
                steps.push(Step::Sleep(MS * r.below(5000) as u32));
            }
            let s = stream(r);
            let hello = plain_hello(16384, gen::CAPS).bytes();
            let n = |r: &mut Rng, what: &str| {
                Inp::notify(false, gen::int(r), gen::fid(r), &[Message { name: what.into(), args: vec![] }]).bytes()
            };
            established += 1;
            want_panic.push(matches!(kind, 6 | 7));
            match kind {
                0 => steps.extend([Step::Feed(hello), Step::End(End::Eof)]),
                1 => steps.extend([Step::Feed(hello), Step::Frames(1), Step::Feed(n(r, "ok")), Step::Frames(2), Step::End(End::Reset)]),
                2 => {
                    let d = wire::wire(&Frame::HaproxyDisconnect(gen::disconnect(r)));
                    steps.extend([Step::Feed(hello), Step::Feed(n(r, "slow")), Step::Feed(d)]);
                }
                3 => steps.extend([Step::Feed(hello), Step::Feed(wire::framed(&[9, 9, 9]))]),
                4 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "ok")), Step::Feed(n(r, "fail"))]),
                5 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "never")), Step::Feed(n(r, "ok"))]),
                6 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "panic"))]),
                7 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "panic now"))]),
                8 => steps.extend([Step::Feed(hello), Step::Frames(1), Step::Cancel]),
                9 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "slow")), Step::Sleep(MS * 5), Step::Cancel]),
                10 => steps.extend([Step::Feed(hello), Step::Feed(n(r, "never")), Step::Sleep(MS * 500), Step::Abort]),
                11 => {
                    s.0.lock().unwrap().fail_write_at = Some(r.usize(200));
                    steps.extend([Step::Feed(hello), Step::Feed(n(r, "ok")), Step::Feed(n(r, "ok")), Step::End(End::Eof)]);
                }
                12 => {
                    // stays
                    steps.extend([Step::Feed(hello), Step::Feed(n(r, "ok")), Step::Feed(Inp::notify(true, 1, 1, &[]).bytes())]);
                }
                _ => {
                    established -= 1;
                    let mut h = hello_for(r, &g);
                    h.healthcheck = Some(true);
                    steps.extend([Step::Feed(wire::wire(&Frame::HaproxyHello(h)))]);
                }
            }
            kinds.push(kind);
            plans.push((s, Plan::new(steps)));
        }
        let slow_make = r.chance(30).then(|| MS * r.below(3000) as u32);
        let factory_ready = match r.below(3) {
            0 => Ready::After(MS * r.below(3000) as u32),
            _ => Ready::Now,
        };
        let ready = match r.below(3) {
            0 => Ready::After(MS * r.range(1, 2000) as u32),
            _ => Ready::Now,
        };
        let behave = Behave {
            make: Arc::new(move |_| (factory_ready.clone(), Make::Ok(slow_make.unwrap_or_default()))),
            ready: Arc::new(move |_, _| ready.clone()),
            call: Arc::new(|_, _, m| match m.first().map(|m| m.name.as_str()) {
                Some("slow") => Act::Ok(MS * 2000, vec![]),
                Some("fail") => Act::Err(MS, "failed".into()),
                Some("never") => Act::Never,
                Some("panic") => Act::Panic,
                Some("panic now") => Act::PanicNow,
                _ => Act::Reply(vec![]),
            }),
        };
        let vrt = virtual_rt();
        let rt = g.build(&log, behave, r);
        let seens = vrt.block_on(async {
            let mut hs = vec![];
            for (s, p) in plans {
                hs.push(tokio::spawn(session(rt.clone(), log.clone(), s, p)));
            }
            let mut v = vec![];
            for h in hs {
                v.push(h.await.expect("vp-harness: session"));
            }
            v
        });
        let fail = |x: String| format!("{x}\nconnections ended by {kinds:?}, factory made {slow_make:?}");
        for (s, kind) in seens.iter().zip(&kinds) {
            observe(c, s, &log);
            if s.closed.is_none() && !s.closed_late {
                return Err(fail(format!("the connection of kind {kind} never ended")));
            }
            if s.panicked && !matches!(kind, 6 | 7) {
                return Err(fail(format!("the connection of kind {kind} panicked: {}", last_panic())));
            }
        }
        // an aborted or cancelled connection may not have got as far as a service
        let unsure = kinds.iter().filter(|k| matches!(k, 9 | 10)).count();
        let makes = log.makes();
        if makes > established || makes + unsure < established {
            return Err(fail(format!("{established} connections were established, {makes} services made")));
        }
        lifecycle(c, &g, &log).map_err(fail)?;
        c.nontrivial(hash_bytes(format!("{kinds:?}{slow_make:?}").as_bytes()));
        for k in kinds {
            c.count(&format!("connections ended by {k}"), 1);
        }
        Ok(())
    });
    let n = ctx.n(2500, 60_000);
    ctx.cases("readiness", n, |c| {
        let r = &mut c.rng;
        let limit = *r.pick(&[None, Some(Duration::from_secs(1)), Some(MS * 100)]);
        let g = Cfg { state: r.next(), limit, ..Cfg::default() };
        let l = g.eff_limit();
        let k = r.range(1, 5) as usize;
        let mut plan = vec![];
        for i in 0..k {
            let last = i + 1 == k;
            let (ready, act) = match r.below(if last { 7 } else { 3 }) {
                0 | 1 => (Ready::After(l.mul_f64(0.4)), Act::Ok(l.mul_f64(r.below(5) as f64 / 10.0), vec![gen::small_action(r)])),
                2 => (Ready::Now, Act::Reply(vec![gen::small_action(r)])),
                3 => (Ready::Err(format!("not ready {}", r.below(1000))), Act::Reply(vec![])),
                4 => (Ready::Never, Act::Reply(vec![])),
                5 => (Ready::After(l.mul_f64(1.5)), Act::Reply(vec![])),
                _ => (Ready::After(l.mul_f64(0.7)), Act::Never),
            };
            plan.push((ready, act));
        }
        // the same thing, said of calls
        let equal: Vec<Act> = plan
            .iter()
            .map(|(r, a)| match r {
                Ready::Err(t) => Act::Err(Duration::ZERO, t.clone()),
                Ready::Never => Act::Never,
                Ready::After(d) if *d > l => Act::Never,
                _ => a.clone(),
            })
            .collect();
        let mut inputs = vec![plain_hello(16384, &[])];
        for i in 0..k + r.usize(2) {
            inputs.push(Inp::notify(false, i as u64, 1, &[gen::small_message(r, i as u64)]));
        }
        let mut e = model(&g, &inputs, &ok_make(), &equal);
        // a service that never became ready was not called
        if !matches!(plan[k - 1].0, Ready::Now) && !matches!(plan[k - 1].0, Ready::After(d) if d < l) {
            e.calls.truncate(k - 1);
        }
        let (p1, p2) = (plan.clone(), plan.clone());
        let behave = Behave {
            ready: Arc::new(move |_, i| p1.get(i).map(|x| x.0.clone()).unwrap_or(Ready::Now)),
            call: Arc::new(move |_, i, _| p2.get(i).map(|x| x.1.clone()).unwrap_or(Act::Reply(vec![]))),
            ..Behave::default()
        };
        let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
        let (seen, log) = alone(&g, behave, stream(r), Plan::new(deliver(&bytes, r)), r);
        observe(c, &seen, &log);
        let fail = |x: String| format!("{x}\nlimit {l:?}, readiness and calls {plan:?}");
        check_all(&e, &seen, &log).map_err(fail)?;
        lifecycle(c, &g, &log).map_err(fail)?;
        c.nontrivial(hash_bytes(format!("{plan:?}{limit:?}").as_bytes()));
        c.count("readiness plans", 1);
        Ok(())
    });
    ctx.cases("long sessions", ctx.n(12, 200), |c| {
        // one service, however much it is asked
        let r = &mut c.rng;
        let g = Cfg { state: r.next(), caps: vec![Capability::Fragmentation], ..Cfg::default() };
        let k = r.range(1100, 5500);
        let mut inputs = vec![plain_hello(16384, gen::CAPS)];
        let same = r.chance(30);
        for i in 0..k {
            let (sid, fid) = if same { (1, 1) } else { (i / 7, i % 7 + 1) };
            if r.chance(5) {
                inputs.push(Inp::notify(true, sid, fid, &[]));
            }
            inputs.push(Inp::notify(false, sid, fid, &[gen::small_message(r, i)]));
        }
        let e = model(&g, &inputs, &ok_make(), &[]);
        let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
        let s = Stream::new(vec![], End::Open, r.fork());
        let (seen, log) = alone(&g, Behave::default(), s, Plan { steps: vec![Step::Feed(bytes)], horizon: MS * 1000 }, r);
        observe(c, &seen, &log);
        check_all(&e, &seen, &log)?;
        lifecycle(c, &g, &log)?;
        if log.makes() != 1 {
            return Err(format!("{} services were made for one connection that sent {k} notifications", log.makes()));
        }
        c.max("notifications of one connection", k);
        c.nontrivial(k);
        Ok(())
    });
    ctx.cases("factory readiness", n / 2, |c| {
        let r = &mut c.rng;
        let g = Cfg { state: r.next(), ..Cfg::default() };
        let inputs = vec![plain_hello(16384, &[]), Inp::notify(false, 1, 1, &[])];
        let ready = match r.below(3) {
            0 => Ready::Err(format!("factory not ready {}", r.below(100))),
            1 => Ready::After(MS * r.range(1, 100_000) as u32),
            _ => Ready::Never,
        };
        let make = match &ready {
            Ready::Err(t) => Make::Err(Duration::ZERO, t.clone()),
            Ready::Never => Make::Never,
            _ => ok_make(),
        };
        let mut e = model(&g, &inputs, &make, &[]);
        e.made &= matches!(ready, Ready::After(_));
        let rd = ready.clone();
        let behave = Behave { make: Arc::new(move |_| (rd.clone(), ok_make())), ..Behave::default() };
        let bytes: Vec<Vec<u8>> = inputs.iter().map(|i| i.bytes()).collect();
        let (seen, log) = alone(&g, behave, stream(r), Plan::new(deliver(&bytes, r)), r);
        observe(c, &seen, &log);
        let fail = |x: String| format!("{x}\nfactory readiness {ready:?}");
        check_all(&e, &seen, &log).map_err(fail)?;
        lifecycle(c, &g, &log).map_err(fail)?;
        c.nontrivial(hash_bytes(format!("{ready:?}").as_bytes()));
        Ok(())
    });
    for k in 0..14 {
        ctx.require(&format!("connections ended by {k}"), 20);
    }
    ctx.require("services released", 1000);
}

/// What the monitors of factory and services have to say once every connection has ended.
fn lifecycle(c: &mut Case, g: &Cfg, log: &Log) -> R {
    if let Some(x) = log.contract() {
        return Err(x);
    }
    for (_, e) in log.all() {
        if let Ev::Make { state, generation, .. } = e {
            if state != g.state {
                return Err(format!("a service was made from state {state}, configured was {}", g.state));
            }
            if generation == 0 {
                return Err("a service was made from the configured state itself, not from a copy".into());
            }
        }
    }
    let (made, dropped) = (log.made(), log.dropped());
    if made != dropped {
        return Err(format!("{made} services were made, {dropped} released after the connections ended"));
    }
    c.count("services released", dropped as u64);
    Ok(())
}

// ---------------------------------------------------------------- C27

struct Script {
    g: Cfg,
    inputs: Vec<Inp>,
    acts: Vec<Act>,
}

fn script(r: &mut Rng, i: u64) -> Script {
    // at most one capability: the agent's answer has one spelling
    let frag = i % 3 == 1;
    let caps = if frag { vec![Capability::Fragmentation] } else { vec![] };
    let g = Cfg { caps: caps.clone(), state: 1, ..Cfg::default() };
    let mut h = hello(&[Version::new(2, 0)], 16384, &caps);
    if r.chance(50) {
        h.engine_id = Some(gen::text(r, 12));
    }
    let mut inputs = vec![Inp::Payload(wire::payload(&Frame::HaproxyHello(h)))];
    let mut acts = vec![];
    for t in 0..r.range(2, 5) {
        let m = gen::small_message(r, t);
        let fragmented = frag && r.chance(50);
        let (sid, fid) = (r.below(2), r.range(1, 2));
        inputs.push(Inp::notify(fragmented, sid, fid, &[m]));
        if !fragmented {
            let a = (0..r.usize(3)).map(|_| gen::small_action(r)).collect();
            acts.push(reply(r, a, g.eff_limit()));
        }
    }
    match r.below(4) {
        0 => inputs.push(Inp::Payload(wire::payload(&Frame::HaproxyDisconnect(gen::disconnect(r))))),
        1 => inputs.push(Inp::Payload(vec![77, 0, 0, 0, 1, 1, 1])),
        2 => {
            acts.push(Act::Err(Duration::ZERO, "failed".into()));
            inputs.push(Inp::notify(false, 9, 9, &[]));
        }
        _ => (),
    }
    Script { g, inputs, acts }
}

pub fn c27(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "case key: session, place and kind of the fault; non-trivial: the fault struck before the session's end".into();
    let scripts = ctx.n(24, 600);
    ctx.cases("every place", scripts, |c| {
        let s = script(&mut c.rng, c.idx);
        let bytes: Vec<u8> = s.inputs.iter().flat_map(|i| i.bytes()).collect();
        let mut ends = vec![0];
        for i in &s.inputs {
            ends.push(ends.last().unwrap() + i.bytes().len());
        }
        let go = |r: &mut Rng, st: Stream, steps: Vec<Step>| {
            let behave = Behave { call: by_call(s.acts.clone()), ..Behave::default() };
            alone(&s.g, behave, st, Plan { steps, horizon: HOUR }, r)
        };
        // without a fault
        let full = model(&s.g, &s.inputs, &ok_make(), &s.acts);
        let st = Stream::new(vec![], End::Open, c.rng.fork());
        let (whole, log) = go(&mut c.rng, st, vec![Step::Feed(bytes.clone())]);
        check_all(&full, &whole, &log).map_err(|e| format!("without a fault: {e}"))?;
        let settle = |what: String, seen: &Seen, log: &Log, calls: &[Vec<Message>], quiet: bool| -> R {
            let fail = |x: String| format!("{what}: {x}{}", list(&s.inputs));
            if !whole.bytes.starts_with(&seen.bytes) {
                return Err(fail(format!("what was sent is no prefix of what is sent without: {}", hexc(&seen.bytes))));
            }
            check_calls(log, calls).map_err(fail)?;
            if seen.panicked {
                return Err(fail(last_panic()));
            }
            if quiet && seen.closed.is_none() {
                return Err(fail("the connection did not end".into()));
            }
            if log.made() != log.dropped() {
                return Err(fail(format!("{} services made, {} released", log.made(), log.dropped())));
            }
            Ok(())
        };
        // input ends after any byte
        for cut in 0..=bytes.len() {
            let arrived = ends.iter().filter(|e| **e <= cut).count() - 1;
            let e = model(&s.g, &s.inputs[..arrived], &ok_make(), &s.acts);
            for end in [End::Eof, End::Reset] {
                let st = match c.rng.below(3) {
                    0 => Stream::new(vec![], End::Open, c.rng.fork()).rough(),
                    _ => Stream::new(vec![], End::Open, c.rng.fork()),
                };
                let mut steps = vec![Step::Feed(bytes[..cut].to_vec())];
                match c.rng.below(3) {
                    0 => steps.push(Step::Frames(e.out.len())),
                    1 => steps.push(Step::Sleep(MS * c.rng.below(30_000) as u32)),
                    _ => (),
                }
                steps.push(Step::End(end));
                let (seen, log) = go(&mut c.rng, st, steps);
                settle(format!("input cut after {cut} of {} bytes ({end:?})", bytes.len()), &seen, &log, &e.calls, true)?;
                check_frames(&seen.frames, &seen.rest, &e.out).map_err(|x| format!("input cut after {cut} bytes ({end:?}): {x}"))?;
                c.count("input cuts", 1);
                c.nontrivial(mix(c.idx) ^ mix(cut as u64) ^ mix(end as u64 + 5));
            }
        }
        // output fails at any byte, or when flushed
        let mut oends = vec![];
        let mut p = 0;
        for f in &whole.frames {
            p += 4 + f.1.len();
            oends.push(p);
        }
        for k in 0..whole.bytes.len() {
            for flush in [false, true] {
                let st = Stream::new(vec![], End::Open, c.rng.fork());
                let st = if c.rng.chance(30) { st.rough() } else { st };
                let st = st.with(|w| {
                    if flush {
                        w.buffered = true;
                        w.fail_flush_from = Some(k + 1);
                    } else {
                        w.fail_write_at = Some(k);
                    }
                });
                let (seen, log) = go(&mut c.rng, st.clone(), vec![Step::Feed(bytes.clone())]);
                // outputs that were entirely handed over
                let done = oends.iter().filter(|e| **e <= k).count();
                // the calls made up to the first answer that failed
                let upto = full.out[..done + 1].iter().filter(|o| matches!(o, Out::Ack { .. })).count()
                    + matches!(&full.out[done], Out::Disc { status, .. } if status == &[99]) as usize;
                let what = if flush { format!("flushing fails from byte {} on", k + 1) } else { format!("writing fails at byte {k} of {}", whole.bytes.len()) };
                settle(what.clone(), &seen, &log, &full.calls[..upto], true)?;
                let taken = st.accepted();
                if !whole.bytes.starts_with(&taken) {
                    return Err(format!("{what}: the transport was given {}", hexc(&taken)));
                }
                if !flush && taken.len() != k {
                    return Err(format!("{what}: the transport was given {} bytes", taken.len()));
                }
                c.count("output failures", 1);
                c.nontrivial(mix(c.idx) ^ mix(k as u64 + 1_000_000) ^ mix(flush as u64 + 9));
            }
        }
        c.sample(3, || format!("{} bytes in, {} bytes out: {}", bytes.len(), whole.bytes.len(), list(&s.inputs)));
        Ok(())
    });
    let n = ctx.n(60, 1200);
    ctx.cases("over TCP", n, |c| crate::p_agent::tcp_cut(c));
    ctx.require("input cuts", 2000);
    ctx.require("output failures", 2000);
    ctx.require("half-closed connections ended by the agent", 20);
}

// ---------------------------------------------------------------- C30

/// A message that makes a NOTIFY payload of exactly `n` bytes.
/// A frame of exactly `n` bytes: one long thing, or several.
fn sized_notify(r: &mut Rng, sid: u64, fid: u64, n: usize) -> Option<Vec<u8>> {
    let len = |m: &[Message]| wire::notify_frame(1, sid, fid, m).len();
    let mut before: Vec<Message> = vec![];
    if r.chance(50) {
        for _ in 0..r.usize(30) {
            let m = gen::small_message(r, 1);
            before.push(m);
            if len(&before) + 30 > n {
                before.pop();
            }
        }
    }
    let at = r.usize(before.len() + 1);
    let room = n.checked_sub(len(&before))?;
    // lengths jump by two where the length's encoding grows
    for name in ["m", "mm"] {
        for k in (room.saturating_sub(60)..room).rev() {
            let mut all = before.clone();
            all.insert(at, Message { name: name.into(), args: vec![("a".into(), Typed::String("x".repeat(k)))] });
            match len(&all) {
                l if l == n => return Some(wire::notify_frame(1, sid, fid, &all)),
                l if l < n => break,
                _ => (),
            }
        }
    }
    None
}

fn sized_actions(r: &mut Rng, sid: u64, fid: u64, n: usize) -> Option<Vec<Action>> {
    let mut before: Vec<Action> = vec![];
    if r.chance(50) {
        for _ in 0..r.usize(30) {
            before.push(gen::small_action(r));
            if ack_len(sid, fid, &before) + 30 > n {
                before.pop();
            }
        }
    }
    let at = r.usize(before.len() + 1);
    let room = n.checked_sub(ack_len(sid, fid, &before))?;
    for name in ["v", "vv"] {
        for k in (room.saturating_sub(60)..room).rev() {
            let mut all = before.clone();
            all.insert(at, Action::SetVar { scope: haproxy_spop::Scope::Session, name: name.into(), value: Typed::String("y".repeat(k)) });
            match ack_len(sid, fid, &all) {
                l if l == n => return Some(all),
                l if l < n => break,
                _ => (),
            }
        }
    }
    None
}

pub fn c30(ctx: &mut Ctx) {
    ctx.rule = "case key: both sizes, frame size and direction; non-trivial: the frame is within 40 bytes of the negotiated size, or between the two maxima".into();
    let n = ctx.n(6000, 150_000);
    ctx.cases("around the size", n, |c| {
        let r = &mut c.rng;
        let near = r.range(128, 5000);
        let other = near + match r.below(4) { 0 => 0, 1 => r.range(1, 3), 2 => r.below(3000), _ => 100_000 };
        let (a, h) = if r.chance(50) { (near, other) } else { (other, near) };
        // the hello itself has to fit the agent's frames
        let g = Cfg { max: Some(a as usize), state: 1, caps: if r.chance(40) { gen::CAPS.to_vec() } else { vec![] }, ..Cfg::default() };
        let hi = plain_hello(h as u32, if r.chance(40) { gen::CAPS } else { &[Capability::Fragmentation] });
        if hi.bytes().len() as u64 - 4 > a {
            return Ok(());
        }
        let frag = g.caps.contains(&Capability::Fragmentation);
        let n = a.min(h) as usize;
        let mut inputs = vec![hi];
        let mut acts = vec![];
        for i in 0..r.usize(3) {
            let x = Note { sid: i as u64, fid: 1, msgs: vec![] };
            inputs.push(Inp::notify(false, x.sid, x.fid, &[]));
            acts.push(Act::Reply(vec![]));
        }
        let (sid, fid) = (r.below(5000), r.range(1, 5000));
        let size = match r.below(6) {
            0 | 1 => n,
            2 | 3 => n + 1,
            4 => n - 1,
            _ => n + r.range(1, (other - near).max(1)) as usize,
        };
        let kind = r.below(4);
        match kind {
            0 | 1 => {
                let Some(p) = sized_notify(r, sid, fid, size) else { return Ok(()) };
                inputs.push(Inp::Payload(p));
                acts.push(Act::Reply(vec![]));
            }
            2 => {
                let Some(x) = sized_actions(r, sid, fid, size) else { return Ok(()) };
                inputs.push(Inp::notify(false, sid, fid, &[]));
                acts.push(Act::Reply(x));
            }
            _ => {
                if !frag {
                    return Ok(());
                }
                // fragments of exactly the size, together far more
                let Some(mut p) = sized_notify(r, sid, fid, n) else { return Ok(()) };
                let q = p.clone();
                p[4] = 0;
                for _ in 0..r.range(1, 4) {
                    inputs.push(Inp::Payload(p.clone()));
                }
                inputs.push(Inp::Payload(q));
                acts.push(Act::Reply(vec![]));
            }
        }
        inputs.push(Inp::notify(false, 1, 1, &[]));
        acts.push(Act::Reply(vec![]));
        c.nontrivial(mix(a) ^ mix(h).rotate_left(7) ^ mix(size as u64).rotate_left(21) ^ kind);
        let (e, seen, _) = run(c, &g, &inputs, ok_make(), acts).map_err(|x| format!("agent {a}, hello {h}, frame of {size} bytes: {x}"))?;
        for (_, f) in &seen.frames {
            c.max("largest frame sent, bytes", f.len() as u64);
            if f.len() > n {
                return Err(format!("agent {a}, hello {h}: the agent sent a frame of {} bytes", f.len()));
            }
        }
        let dir = if kind == 2 { "sent" } else { "received" };
        c.count(&format!("frames of exactly the size {dir}"), (size == n || kind == 3) as u64);
        c.count(&format!("frames too large, to be {dir}"), (size > n && kind != 3) as u64);
        c.count("frames between the two maxima", (size > n && kind < 2 && (size as u64) <= a) as u64);
        c.sample(6, || format!("agent {a}, hello {h}, {size} bytes {dir} => {:?}", e.out.last()));
        Ok(())
    });
    ctx.cases("large sizes", ctx.n(60, 1500), |c| {
        let r = &mut c.rng;
        let n = (*r.pick(&[32_768, 65_535, 65_536, 65_537, 70_000, 100_000, 131_072, 264_432, 1_000_000]) + r.usize(3)) as u64;
        let other = n + r.below(3) * r.below(200_000);
        let (a, h) = if r.chance(50) { (n, other) } else { (other, n) };
        let n = n as usize;
        let g = Cfg { max: Some(a as usize), state: 1, ..Cfg::default() };
        let size = n + 1 - r.usize(2);
        let recv = r.chance(50);
        let mut inputs = vec![plain_hello(h as u32, &[])];
        let mut acts = vec![];
        if recv {
            let Some(p) = sized_notify(r, 3, 4, size) else { return Ok(()) };
            inputs.push(Inp::Payload(p));
            acts.push(Act::Reply(vec![]));
        } else {
            let Some(x) = sized_actions(r, 3, 4, size) else { return Ok(()) };
            inputs.push(Inp::notify(false, 3, 4, &[]));
            acts.push(Act::Reply(x));
        }
        inputs.push(Inp::notify(false, 1, 1, &[]));
        acts.push(Act::Reply(vec![]));
        c.nontrivial(mix(a) ^ mix(h).rotate_left(7) ^ mix(size as u64).rotate_left(21) ^ recv as u64);
        let e = model(&g, &inputs, &ok_make(), &acts);
        let bytes: Vec<u8> = inputs.iter().flat_map(|i| i.bytes()).collect();
        let st = Stream::new(vec![], End::Open, c.rng.fork());
        let behave = Behave { call: by_call(acts), ..Behave::default() };
        let (seen, log) = alone(&g, behave, st, Plan::new(vec![Step::Feed(bytes)]), &mut c.rng);
        check_all(&e, &seen, &log).map_err(|x| format!("agent {a}, hello {h}, frame of {size} bytes: {x}"))?;
        c.count(if size == n { "large frames of exactly the size" } else { "large frames one byte too large" }, 1);
        Ok(())
    });
    ctx.cases("error texts", ctx.n(1500, 40_000), |c| {
        let r = &mut c.rng;
        let n = r.range(128, 2000) as usize;
        let other = n + r.usize(4000);
        let (a, h) = if r.chance(50) { (n, other) } else { (other, n) };
        let g = Cfg { max: Some(a), state: 1, ..Cfg::default() };
        let inputs = [plain_hello(h as u32, &[]), Inp::notify(false, 1, 1, &[])];
        let t = "e".repeat(n.saturating_sub(60) + r.usize(200));
        c.nontrivial(mix(a as u64) ^ mix(h as u64 + 77) ^ mix(t.len() as u64));
        let (_, seen, _) = run(c, &g, &inputs, ok_make(), vec![Act::Err(Duration::ZERO, t)])?;
        if let Some((_, f)) = seen.frames.iter().find(|f| f.1.len() > n) {
            return Err(format!("agent {a}, hello {h}: the agent sent a frame of {} bytes", f.len()));
        }
        Ok(())
    });
    ctx.require("large frames of exactly the size", 10);
    for x in ["frames of exactly the size sent", "frames of exactly the size received", "frames too large, to be sent", "frames too large, to be received", "frames between the two maxima"] {
        ctx.require(x, 100);
    }
}
