//! C01-C08, C28, C29: the frame codec, the header decoder and the value API.

use bytes::{Bytes, BytesMut};
use haproxy_spop::{
    Action, AgentAck, BufCodec, Capability, Codec, Disconnect, Error, Frame, Framer, HaproxyNotify,
    Message, Scope, Typed, Version,
};
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use crate::core::*;
use crate::gen;
use crate::sim::*;
use crate::wire::{self, Verdict};

fn err<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}

fn show(f: &Frame) -> String {
    clip(&format!("{f:?}"), 700)
}

/// Which of the three public ways to use the framing layer a case goes through.
#[derive(Clone, Copy, Debug)]
pub enum Via {
    Framer,
    Codec,
    Buffered,
}

pub fn via(r: &mut Rng) -> Via {
    *r.pick(&[Via::Framer, Via::Codec, Via::Buffered])
}

enum End_ {
    F(Framer, Io),
    C(Codec<Io>),
    B(BufCodec<Io>),
}

impl End_ {
    fn new(v: Via, limit: usize, s: &Stream) -> End_ {
        let io = Io(s.clone());
        let fr = Framer::new(limit);
        match v {
            Via::Framer => End_::F(fr, io),
            Via::Codec => End_::C(Codec::new(io, fr)),
            Via::Buffered => End_::B(Codec::buffered(io, fr)),
        }
    }
    fn read(&mut self) -> Result<Result<Frame, Error>, String> {
        match self {
            End_::F(f, io) => drive(f.read_frame(io)),
            End_::C(c) => drive(c.read_frame()),
            End_::B(c) => drive(c.read_frame()),
        }
    }
    fn write(&mut self, fr: Frame) -> Result<Result<usize, Error>, String> {
        match self {
            End_::F(f, io) => drive(f.write_frame(io, fr)),
            End_::C(c) => drive(c.write_frame(fr)),
            End_::B(c) => drive(c.write_frame(fr)),
        }
    }
}

fn kind(f: &Frame) -> &'static str {
    match f {
        Frame::Unset => "unset",
        Frame::HaproxyHello(_) => "haproxy_hello",
        Frame::HaproxyDisconnect(_) => "haproxy_disconnect",
        Frame::HaproxyNotify(_) => "notify",
        Frame::AgentHello(_) => "agent_hello",
        Frame::AgentDisconnect(_) => "agent_disconnect",
        Frame::AgentAck(_) => "ack",
    }
}

fn read_one(bytes: &[u8], limit: usize) -> Result<Result<Frame, Error>, String> {
    let s = Stream::new(bytes.to_vec(), End::Eof, Rng::new(1));
    End_::new(Via::Framer, limit, &s).read()
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "a case writes 1-4 generated frames (all six kinds; ids, lengths and values biased to the varint size classes) through Framer, Codec or BufCodec on a rough transport and reads them back; non-trivial: distinct wire bytes".into();
    let n = ctx.n(12_000, 400_000);
    ctx.cases("roundtrip", n, |c| {
        let k = 1 + c.rng.usize(4);
        let frames: Vec<Frame> = (0..k).map(|_| gen::frame(&mut c.rng)).collect();
        roundtrip(c, frames)
    });
    // every id around every size class, exhaustively
    let mut ids = vec![];
    for b in gen::BOUNDS {
        for d in -2i64..=2 {
            ids.push(b.wrapping_add(d as u64));
        }
    }
    for s in 0..64 {
        ids.push(1 << s);
        ids.push((1u64 << s) - 1);
    }
    ids.sort();
    ids.dedup();
    let m = ids.len() as u64;
    ctx.cases("ids", m, |c| {
        let a = ids[c.idx as usize];
        let mut fs = vec![];
        for &b in &[a, 1, 239, 240, 2288, u64::MAX] {
            fs.push(Frame::notify(a, b.max(1), [Message::new("m", [("v", Typed::Uint64(a))])]));
            fs.push(Frame::ack(b, a.max(1), [Action::set_var(Scope::Session, "v", Typed::Int64(a as i64))]));
        }
        roundtrip(c, fs)
    });
    // every length of a name, text, binary and list around the size classes
    ctx.cases("lengths", 700, |c| {
        let n = c.idx as usize + if c.idx >= 350 { 2288 - 525 } else { 0 };
        let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let mut fs = vec![
            Frame::notify(
                1,
                2,
                [Message::new(
                    s.clone(),
                    [(s.clone(), Typed::String(s.clone())), ("b".into(), Typed::Binary(Bytes::from(s.clone().into_bytes())))],
                )],
            ),
            Frame::ack(3, 4, [Action::set_var(Scope::Process, s.clone(), s.as_str()), Action::unset_var(Scope::Response, s.clone())]),
            Frame::agent_disconnect(Error::Io, s.clone()),
        ];
        if n <= 255 {
            fs.push(Frame::notify(5, 6, [Message::new("x", (0..n).map(|i| (format!("{i}"), Typed::Null)))]));
        }
        roundtrip(c, fs)
    });
    let n = ctx.n(250, 6_000);
    ctx.cases("long", n, |c| {
        let fs = vec![gen::big_frame(&mut c.rng), gen::frame(&mut c.rng)];
        c.count("very long frames", 1);
        roundtrip(c, fs)
    });
    let n = ctx.n(150, 6_000);
    ctx.cases("alike", n, |c| {
        let fs = alike(&mut c.rng);
        c.count("frames that differ in one place", fs.len() as u64 - 1);
        roundtrip(c, fs)
    });
    // the next size class of a length (more than 33 MB)
    let n = ctx.n(2, 11);
    ctx.cases("huge", n, |c| {
        let k = 33_818_863 + c.rng.usize(3);
        let f = loop {
            let f = gen::big_frame_of(&mut c.rng, k);
            if wire::payload(&f).len() > 30_000_000 {
                break f;
            }
        };
        huge(c, f)
    });
    ctx.require("frames read back", 1000);
    ctx.require("very long frames", 200);
    ctx.require("frames that differ in one place", 200);
}

/// Frames one after another that are of one length and differ in one place.
pub fn alike(r: &mut Rng) -> Vec<Frame> {
    let n = gen::len(r, 20_000).max(1);
    let mut text = vec![b'a'; n];
    let kind = r.below(4);
    let same = r.chance(20);
    (0..2 + r.usize(5))
        .map(|i| {
            if i > 0 && !same {
                let at = match r.below(3) {
                    0 => n - 1,
                    1 => 0,
                    _ => r.usize(n),
                };
                text[at] = b'a' + (text[at] - b'a' + 1 + r.below(25) as u8) % 26;
            }
            let s = String::from_utf8(text.clone()).unwrap();
            match kind {
                0 => Frame::notify(1, 2, [Message::new("m", [("x", Typed::String(s))])]),
                1 => Frame::notify(1, 2, [Message::new(s, [("x", Typed::Null)]), Message::new("n", [("y", Typed::Uint32(7))])]),
                2 => Frame::ack(1, 2, [Action::set_var(Scope::Session, "x", Typed::Binary(Bytes::from(s.into_bytes())))]),
                _ => Frame::agent_disconnect(Error::Io, s),
            }
        })
        .collect()
}

/// Without segmentation: a long way through a rough transport is slow.
fn huge(c: &mut Case, f: Frame) -> R {
    let n = wire::payload(&f).len();
    let out = Stream::new(vec![], End::Open, c.rng.fork());
    let v = via(&mut c.rng);
    match End_::new(v, n, &out).write(f.clone())? {
        Ok(k) if k == n + 4 && out.accepted().len() == k => (),
        x => return err(format!("write of a frame of {n} bytes reports {x:?}, put {}", out.accepted().len())),
    }
    let bytes = out.accepted();
    c.nontrivial(hash_bytes(&bytes[..1000]) ^ n as u64);
    c.max("longest frame", n as u64);
    let s = Stream::new(bytes, End::Eof, c.rng.fork());
    match End_::new(v, n, &s).read()? {
        Ok(g) if g == f => {
            c.count("frames read back", 1);
            Ok(())
        }
        x => err(format!("read back of a frame of {n} bytes: {}", clip(&format!("{x:?}"), 300))),
    }
}

pub fn roundtrip(c: &mut Case, frames: Vec<Frame>) -> R {
    let exact = c.rng.chance(50);
    let sizes: Vec<usize> = frames.iter().map(|f| wire::payload(f).len()).collect();
    let limit = *sizes.iter().max().unwrap() + if exact { 0 } else { c.rng.usize(5000) };
    let (vw, vr) = (via(&mut c.rng), via(&mut c.rng));
    let coarse = |w: &mut Wire| {
        if limit > 50_000 {
            w.max_read = w.max_read.max(1000);
            w.max_write = w.max_write.max(1000);
        }
    };
    let out = Stream::new(vec![], End::Open, c.rng.fork()).rough().with(coarse);
    let mut w = End_::new(vw, limit, &out);
    let mut ends = vec![];
    for f in &frames {
        let before = out.accepted().len();
        let n = match w.write(f.clone())? {
            Ok(n) => n,
            Err(e) => return err(format!("write of {} (limit {limit}) via {vw:?} failed: {e:?}", show(f))),
        };
        let put = out.accepted().len() - before;
        if n != put {
            return err(format!("write reported {n} bytes, put {put}: {}", show(f)));
        }
        ends.push(out.accepted().len());
    }
    let bytes = out.accepted();
    c.nontrivial(hash_bytes(&bytes));
    // what follows on the stream must be left alone
    let mut input = bytes.clone();
    let tail = c.rng.usize(20);
    let junk = c.rng.bytes(tail);
    input.extend_from_slice(&junk);
    let ins = Stream::new(input, End::Open, c.rng.fork()).rough().with(coarse);
    let mut r = End_::new(vr, limit, &ins);
    for (f, end) in frames.iter().zip(&ends) {
        match r.read()? {
            Ok(g) if g == *f => {
                c.count("frames read back", 1);
                c.count(&format!("kind {}", kind(f)), 1);
            }
            Ok(g) => return err(format!("read back differs:\n wrote {}\n read  {}\n bytes {}", show(f), show(&g), hexc(&bytes))),
            Err(e) => return err(format!("read back fails with {e:?}: {}\n bytes {}", show(f), hexc(&bytes))),
        }
        let used = ins.consumed();
        // a buffered reader may take more from the transport, never less
        let ok = match vr {
            Via::Buffered => used >= *end,
            _ => used == *end,
        };
        if !ok {
            return err(format!("read consumed {used} bytes, the frame ends at {end}: {}", show(f)));
        }
    }
    c.sample(3, || format!("{} -> {}", show(&frames[0]), hexc(&bytes)));
    Ok(())
}

// ---------------------------------------------------------------- C02

fn write_bytes(f: &Frame, limit: usize) -> Result<Result<Vec<u8>, Error>, String> {
    let s = Stream::new(vec![], End::Open, Rng::new(3));
    let mut e = End_::new(Via::Framer, limit, &s);
    Ok(e.write(f.clone())?.map(|_| s.accepted()))
}

fn conforms(f: &Frame, bytes: &[u8]) -> R {
    let (ps, rest) = wire::split(bytes);
    if ps.len() != 1 || !rest.is_empty() {
        return err(format!("length prefix wrong: {} frames and {} left-over bytes in {}", ps.len(), rest.len(), hexc(bytes)));
    }
    match wire::decode(ps[0]) {
        Verdict::Frame(g) if g == *f => (),
        Verdict::Frame(g) => return err(format!("an independent decoder reads\n {}\nfrom the bytes written for\n {}\n {}", show(&g), show(f), hexc(bytes))),
        Verdict::Bad(_, w) | Verdict::Open(w) => return err(format!("not conformant ({w}): written for {}: {}", show(f), hexc(bytes))),
    }
    let want = wire::payload(f);
    // the header is fixed; items of hello and disconnect may come in any order
    let ok = match f {
        Frame::HaproxyNotify(_) | Frame::AgentAck(_) => ps[0] == want,
        _ => {
            let mut a = ps[0][7.min(ps[0].len())..].to_vec();
            let mut b = want[7..].to_vec();
            a.sort();
            b.sort();
            ps[0].len() >= 7 && ps[0][..7] == want[..7] && a == b
        }
    };
    if !ok {
        return err(format!("bytes differ from the specification's for {}\n got  {}\n want {}", show(f), hexc(ps[0]), hexc(&want)));
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "a case writes one generated frame and decodes the bytes with the independent codec; groups enumerate every id size class, scope, action, status, version; non-trivial: distinct wire bytes".into();
    let n = ctx.n(25_000, 800_000);
    ctx.cases("frames", n, |c| {
        let f = gen::frame(&mut c.rng);
        let limit = wire::payload(&f).len() + c.rng.usize(100);
        match write_bytes(&f, limit)? {
            Ok(b) => {
                c.nontrivial(hash_bytes(&b));
                c.count("bytes checked", b.len() as u64);
                c.count(&format!("kind {}", kind(&f)), 1);
                c.sample(3, || format!("{} -> {}", show(&f), hexc(&b)));
                conforms(&f, &b)
            }
            Err(e) => err(format!("write of {} (limit {limit}) failed: {e:?}", show(&f))),
        }
    });
    let n = ctx.n(250, 6_000);
    ctx.cases("long", n, |c| {
        let f = gen::big_frame(&mut c.rng);
        let limit = wire::payload(&f).len() + c.rng.usize(100);
        match write_bytes(&f, limit)? {
            Ok(b) => {
                c.nontrivial(hash_bytes(&b));
                c.count("bytes checked", b.len() as u64);
                c.count("very long frames", 1);
                conforms(&f, &b)
            }
            Err(e) => err(format!("write of {} (limit {limit}) failed: {e:?}", show(&f))),
        }
    });
    ctx.cases("unset", 1, |c| {
        let b = write_bytes(&Frame::Unset, 100)?.map_err(|e| format!("{e:?}"))?;
        c.nontrivial(hash_bytes(&b));
        if b != [0, 0, 0, 7, 0, 0, 0, 0, 1, 0, 0] {
            return err(format!("an UNSET frame was written as {}", hexc(&b)));
        }
        Ok(())
    });
    ctx.cases("ids", gen::BOUNDS.len() as u64 * 3 + 128, |c| {
        let i = c.idx as usize;
        let v = if i < 128 {
            if i < 64 {
                1u64 << i
            } else {
                (1u64 << (i - 64)) - 1
            }
        } else {
            gen::BOUNDS[(i - 128) / 3].wrapping_add(((i - 128) % 3) as u64).wrapping_sub(1)
        };
        for f in [
            Frame::notify(v, 1, [Message::new("n", [("k", Typed::Uint64(v))])]),
            Frame::notify(1, v.max(1), [Message::new("n", [("k", Typed::Int64(v as i64))])]),
            Frame::ack(v, v.max(1), [Action::set_var(Scope::Request, "n", Typed::Int32(v as i32)), Action::set_var(Scope::Request, "n", Typed::Uint32(v as u32))]),
        ] {
            let b = write_bytes(&f, 100_000)?.map_err(|e| format!("{e:?}"))?;
            c.nontrivial(hash_bytes(&b));
            conforms(&f, &b)?;
        }
        Ok(())
    });
    ctx.cases("codes", (wire::STATUS_TABLE.len() * gen::SCOPES.len()) as u64, |c| {
        let (st, code) = wire::STATUS_TABLE[c.idx as usize / gen::SCOPES.len()];
        let sc = gen::SCOPES[c.idx as usize % gen::SCOPES.len()];
        let want = Frame::AgentDisconnect(Disconnect {
            status_code: code,
            message: "m".into(),
        });
        for (f, want) in [
            (Frame::agent_disconnect(st, "m"), want.clone()),
            (Frame::ack(1, 1, [Action::set_var(sc, "v", true), Action::unset_var(sc, "v")]), Frame::ack(1, 1, [Action::set_var(sc, "v", true), Action::unset_var(sc, "v")])),
        ] {
            let b = write_bytes(&f, 100_000)?.map_err(|e| format!("{e:?}"))?;
            c.nontrivial(hash_bytes(&b));
            conforms(&want, &b)?;
        }
        Ok(())
    });
    ctx.require("bytes checked", 10_000);
}

// ---------------------------------------------------------------- C03

fn int_as(r: &mut Rng, n: u32) -> Typed {
    match r.below(4) {
        0 if n <= i32::MAX as u32 => Typed::Int32(n as i32),
        1 => Typed::Int64(n as i64),
        2 => Typed::Uint64(n as u64),
        _ => Typed::Uint32(n),
    }
}

fn spaced(r: &mut Rng, items: &[String]) -> String {
    let mut o = String::new();
    let pad = |r: &mut Rng| (0..r.usize(3)).map(|_| if r.chance(30) { '\t' } else { ' ' }).collect::<String>();
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&pad(r));
        o.push_str(x);
        o.push_str(&pad(r));
    }
    o
}

/// The names of capabilities, with some nobody knows among them.
pub fn with_unknown_caps(r: &mut Rng, caps: &[Capability]) -> Vec<String> {
    let mut v: Vec<String> = caps.iter().map(|c| wire::cap_name(c).to_string()).collect();
    if r.chance(30) {
        for _ in 0..r.range(1, 3) {
            let x = r.pick(&["x", "compression", "Async", "asynchronous", "pipelining2", "fragmentation-v2", "no-async", "2.0", "tls=1;q", "fragment"]);
            let at = r.usize(v.len() + 1);
            v.insert(at, x.to_string());
        }
    }
    v
}

/// A conformant payload using the format's freedoms, and its contents.
pub fn free_payload(r: &mut Rng) -> (Vec<u8>, Frame) {
    let f = gen::frame(r);
    let mut o = vec![];
    let reserved = if r.chance(40) { (r.next() as u32) & !3 } else { 0 };
    let vflags = |r: &mut Rng| if r.chance(30) { r.below(16) as u8 } else { 0 };
    match &f {
        Frame::HaproxyNotify(n) => {
            let fl = reserved | if n.fragmented { 0 } else { wire::FIN };
            wire::head(&mut o, wire::T_HAPROXY_NOTIFY, fl, n.stream_id, n.frame_id);
            for m in &n.messages {
                wire::string(&mut o, m.name.as_bytes());
                o.push(m.args.len() as u8);
                for (k, v) in &m.args {
                    wire::string(&mut o, k.as_bytes());
                    wire::typed_with(&mut o, v, vflags(r));
                }
            }
        }
        Frame::AgentAck(a) => {
            let fl = reserved | if a.fragmented { 0 } else { wire::FIN } | if a.aborted { wire::ABORT } else { 0 };
            wire::head(&mut o, wire::T_AGENT_ACK, fl, a.stream_id, a.frame_id);
            for x in &a.actions {
                match x {
                    Action::SetVar { scope, name, value } => {
                        o.extend_from_slice(&[1, 3, wire::scope_code(*scope)]);
                        wire::string(&mut o, name.as_bytes());
                        wire::typed_with(&mut o, value, vflags(r));
                    }
                    _ => wire::action(&mut o, x),
                }
            }
        }
        _ => {
            let (ty, mut items, known): (u8, Vec<(String, Typed)>, &[&str]) = match &f {
                Frame::HaproxyHello(h) => {
                    let mut it = wire::hello_items(h);
                    let vs: Vec<String> = h.supported_versions.iter().map(wire::version_text).collect();
                    let cs = with_unknown_caps(r, &h.capabilities);
                    it[0].1 = Typed::String(spaced(r, &vs));
                    it[1].1 = int_as(r, h.max_frame_size);
                    it[2].1 = Typed::String(spaced(r, &cs));
                    (wire::T_HAPROXY_HELLO, it, &["supported-versions", "max-frame-size", "capabilities", "healthcheck", "engine-id"])
                }
                Frame::AgentHello(h) => {
                    let mut it = wire::agent_hello_items(h);
                    let cs = with_unknown_caps(r, &h.capabilities);
                    it[1].1 = int_as(r, h.max_frame_size);
                    it[2].1 = Typed::String(spaced(r, &cs));
                    (wire::T_AGENT_HELLO, it, &["version", "max-frame-size", "capabilities"])
                }
                Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) => {
                    let mut it = wire::disconnect_items(d);
                    it[0].1 = int_as(r, d.status_code);
                    let ty = if matches!(f, Frame::HaproxyDisconnect(_)) { wire::T_HAPROXY_DISCON } else { wire::T_AGENT_DISCON };
                    (ty, it, &["status-code", "message"])
                }
                _ => unreachable!(),
            };
            for _ in 0..r.usize(4) {
                let k = if r.chance(50) { gen::text(r, 20) } else { r.pick(&["Version", "x-size", "max-frame-size2", "capability", "engine", "status", "msg"]).to_string() };
                if !known.contains(&k.as_str()) {
                    items.push((k, gen::typed(r, 300)));
                }
            }
            if r.chance(70) {
                r.shuffle(&mut items);
            }
            wire::head(&mut o, ty, reserved | wire::FIN, 0, 0);
            for (k, v) in &items {
                wire::string(&mut o, k.as_bytes());
                wire::typed_with(&mut o, v, vflags(r));
            }
        }
    }
    (o, f)
}

/// A hello or disconnect with very many items that nobody knows among its own.
pub fn many_items(r: &mut Rng) -> (Vec<u8>, Frame) {
    let f = match r.below(4) {
        0 | 1 => Frame::HaproxyHello(gen::hello(r)),
        2 => loop {
            let f = gen::frame(r);
            if f.is_agent_hello() {
                break f;
            }
        },
        _ => Frame::AgentDisconnect(gen::disconnect(r)),
    };
    let (ty, mut items) = match &f {
        Frame::HaproxyHello(h) => (wire::T_HAPROXY_HELLO, wire::hello_items(h)),
        Frame::AgentHello(h) => (wire::T_AGENT_HELLO, wire::agent_hello_items(h)),
        Frame::AgentDisconnect(d) => (wire::T_AGENT_DISCON, wire::disconnect_items(d)),
        _ => unreachable!(),
    };
    let n = *r.pick(&[8usize, 16, 32, 64, 128, 256, 512, 1024, 4000]) + r.usize(8);
    let known = items.len();
    for i in 0..n {
        items.push((format!("x-{i}"), if r.chance(80) { Typed::Null } else { gen::typed(r, 20) }));
    }
    match r.below(3) {
        // the known ones first, last, or anywhere
        0 => (),
        1 => items.rotate_left(known),
        _ => r.shuffle(&mut items),
    }
    let mut o = vec![];
    wire::head(&mut o, ty, wire::FIN, 0, 0);
    for (k, v) in &items {
        wire::string(&mut o, k.as_bytes());
        wire::typed_with(&mut o, v, 0);
    }
    (o, f)
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "a case encodes generated contents with the independent encoder, using item order, unknown items, blanks, integer types and reserved bits freely, and reads the frame; non-trivial: distinct payloads that differ from the plain encoding".into();
    let n = ctx.n(25_000, 800_000);
    ctx.cases("freedoms", n, |c| {
        let (p, f) = free_payload(&mut c.rng);
        if !matches!(wire::decode(&p), Verdict::Frame(ref g) if *g == f) {
            panic!("{} reference decoder disagrees with the generator: {:?} {}", HARNESS, wire::decode(&p), show(&f));
        }
        if p != wire::payload(&f) {
            c.nontrivial(hash_bytes(&p));
        }
        c.count("frames read", 1);
        c.count(&format!("kind {}", kind(&f)), 1);
        c.sample(3, || format!("{} -> {}", hexc(&p), show(&f)));
        match read_one(&wire::framed(&p), p.len())? {
            Ok(g) if g == f => Ok(()),
            Ok(g) => err(format!("contents differ:\n sent {}\n read {}\n payload {}", show(&f), show(&g), hexc(&p))),
            Err(e) => err(format!("refused with {e:?}: {}\n payload {}", show(&f), hexc(&p))),
        }
    });
    let n = ctx.n(250, 6_000);
    ctx.cases("long", n, |c| {
        let (p, f) = if c.rng.chance(60) {
            let f = gen::big_frame(&mut c.rng);
            (wire::payload(&f), f)
        } else {
            c.count("frames with very many items", 1);
            many_items(&mut c.rng)
        };
        c.nontrivial(hash_bytes(&p));
        c.count("very long frames", 1);
        match read_one(&wire::framed(&p), p.len())? {
            Ok(g) if g == f => Ok(()),
            Ok(g) => err(format!("contents differ ({} bytes):\n sent {}\n read {}", p.len(), show(&f), show(&g))),
            Err(e) => err(format!("refused with {e:?} ({} bytes): {}", p.len(), show(&f))),
        }
    });
    let n = ctx.n(1000, 40_000);
    ctx.cases("32 bits", n, |c| {
        // negative values, some of which are not extended to 64 bits
        let r = &mut c.rng;
        let values: Vec<(i32, bool)> = (0..r.range(1, 6))
            .map(|_| {
                let n = match r.below(3) {
                    0 => -1 - r.below(300) as i32,
                    1 => i32::MIN + r.below(300) as i32,
                    _ => gen::int(r) as i32,
                };
                (n, r.chance(50))
            })
            .collect();
        let notify = r.chance(50);
        let mut p = vec![];
        wire::head(&mut p, if notify { wire::T_HAPROXY_NOTIFY } else { wire::T_AGENT_ACK }, wire::FIN, 7, 8);
        if notify {
            wire::string(&mut p, b"m");
            p.push(values.len() as u8);
        }
        for (n, extended) in &values {
            if !notify {
                p.extend_from_slice(&[1, 3, 2]);
            }
            wire::string(&mut p, b"n");
            p.push(2);
            wire::varint(&mut p, if *extended { *n as i64 as u64 } else { *n as u32 as u64 });
        }
        let f = if notify {
            Frame::notify(7, 8, [Message::new("m", values.iter().map(|(n, _)| ("n", Typed::Int32(*n))))])
        } else {
            Frame::ack(7, 8, values.iter().map(|(n, _)| Action::set_var(Scope::Transaction, "n", Typed::Int32(*n))))
        };
        c.nontrivial(hash_bytes(&p));
        c.count("32-bit values not extended", values.iter().filter(|x| !x.1 && x.0 < 0).count() as u64);
        match read_one(&wire::framed(&p), p.len())? {
            Ok(g) if g == f => Ok(()),
            x => err(format!("{values:?} (value, extended to 64 bits) is read as {}: {}", clip(&format!("{x:?}"), 500), hexc(&p))),
        }
    });
    ctx.require("frames read", 1000);
    ctx.require("very long frames", 200);
    ctx.require("32-bit values not extended", 200);
}

// ---------------------------------------------------------------- C04 / C05

pub fn hostile(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => {
            let n = r.usize(200);
            r.bytes(n)
        }
        1 => {
            // over-long integers wherever an integer is read
            let mut p = vec![*r.pick(&[0, 1, 2, 3, 101, 102, 103, 7]), 0, 0, 0, 1];
            let over = |r: &mut Rng, p: &mut Vec<u8>| {
                p.push(0xf0 | r.below(16) as u8);
                let k = r.usize(40);
                for _ in 0..k {
                    p.push(0x80 | r.next() as u8);
                }
                if r.chance(60) {
                    p.push(r.below(128) as u8);
                }
            };
            match r.below(4) {
                0 => over(r, &mut p),
                1 => {
                    p.push(0);
                    over(r, &mut p);
                }
                2 => {
                    p.extend_from_slice(&[r.below(2) as u8, r.below(2) as u8]);
                    over(r, &mut p);
                }
                _ => {
                    p.extend_from_slice(&[1, 1, 1, b'n', 1, 1, b'k', r.below(16) as u8]);
                    over(r, &mut p);
                }
            }
            let n = r.usize(12);
            let t = r.bytes(n);
            p.extend_from_slice(&t);
            p
        }
        2 => {
            // huge lengths and counts
            let mut p = vec![];
            let ty = *r.pick(&[1, 2, 3, 101, 102, 103]);
            let (a, b) = if ty == 3 || ty == 103 { (gen::int(r), gen::fid(r)) } else { (0, 0) };
            wire::head(&mut p, ty, 1, a, b);
            if ty == 103 {
                p.extend_from_slice(&[r.below(4) as u8, r.below(5) as u8, r.below(7) as u8]);
            }
            wire::varint(&mut p, if r.chance(50) { gen::int(r) } else { u64::MAX - r.below(20) });
            let n = r.usize(30);
            let t = r.bytes(n);
            p.extend_from_slice(&t);
            p
        }
        3 => {
            // as many tiny elements as fit
            let ty = *r.pick(&[3u8, 103, 1]);
            let mut p = vec![];
            wire::head(&mut p, ty, 1, if ty == 1 { 0 } else { 1 }, if ty == 1 { 0 } else { 1 });
            let n = r.usize(4000);
            let fill = *r.pick(&[0u8, 1, 2, 255, 0xf0]);
            for _ in 0..n {
                p.push(if r.chance(5) { r.next() as u8 } else { fill });
            }
            p
        }
        _ => {
            let (p, _) = free_payload(r);
            let k = 1 + r.usize(3);
            let mut p = p;
            for _ in 0..k {
                p = mutate(r, p);
            }
            p
        }
    }
}

fn mutate(r: &mut Rng, mut p: Vec<u8>) -> Vec<u8> {
    if p.is_empty() {
        return p;
    }
    match r.below(9) {
        0 => {
            let n = r.usize(p.len());
            p.truncate(n);
        }
        1 => {
            let i = r.usize(p.len());
            p[i] ^= 1 << r.below(8);
        }
        2 => {
            let i = r.usize(p.len());
            p[i] = r.next() as u8;
        }
        3 => {
            let i = r.usize(p.len());
            p.remove(i);
        }
        4 => {
            let i = r.usize(p.len() + 1);
            p.insert(i, r.next() as u8);
        }
        5 => {
            let i = r.usize(p.len());
            p[i] = *r.pick(&[0, 1, 0xef, 0xf0, 0xff, 0x7f, 0x80, 10, 15]);
        }
        6 => {
            let n = 1 + r.usize(8);
            let t = r.bytes(n);
            p.extend_from_slice(&t);
        }
        7 => {
            // cut near the end
            let n = p.len() - r.usize(p.len().min(12)) - 1;
            p.truncate(n);
        }
        _ => {
            let a = r.usize(p.len());
            let b = a + r.usize(p.len() - a);
            let part = p[a..b].to_vec();
            let at = r.usize(p.len() + 1);
            let tail = p.split_off(at);
            p.extend_from_slice(&part);
            p.extend_from_slice(&tail);
        }
    }
    p
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "a case presents hostile bytes (random, over-long integers, huge lengths and counts, many tiny elements, mutated conformant frames, wrong length prefixes) to a reader, watching for panics, non-termination, over-consumption and allocation; non-trivial: distinct payloads that reach the frame parser".into();
    let n = ctx.n(60_000, 3_000_000);
    ctx.cases("hostile", n, |c| {
        let p = hostile(&mut c.rng);
        let v = via(&mut c.rng);
        let limit = match c.rng.below(6) {
            0 => p.len(),
            1 => p.len() + c.rng.usize(100),
            2 => c.rng.usize(p.len() + 1),
            _ => 16384,
        };
        let announced = match c.rng.below(20) {
            0 => gen::int(&mut c.rng) as u32,
            1 => (p.len() as u32).wrapping_add(c.rng.below(5) as u32).wrapping_sub(2),
            _ => p.len() as u32,
        };
        let mut b = announced.to_be_bytes().to_vec();
        b.extend_from_slice(&p);
        let tail = c.rng.usize(10);
        let t = c.rng.bytes(tail);
        b.extend_from_slice(&t);
        total(c, b, announced as usize, limit, v)
    });
    // every truncation and every single-byte change of a few frames of each kind
    let m = ctx.n(60, 1500);
    ctx.cases("sweep", m, |c| {
        let p = loop {
            let (p, _) = free_payload(&mut c.rng);
            if p.len() < 160 {
                break p;
            }
        };
        for cut in 0..p.len() {
            let b = wire::framed(&p[..cut]);
            total(c, b, cut, 16384, Via::Framer)?;
        }
        for i in 0..p.len() {
            for x in [0u8, 1, 9, 10, 15, 0x7f, 0x80, 0xef, 0xf0, 0xf1, 0xff, p[i] ^ 1, p[i] ^ 0x10, p[i].wrapping_add(1)] {
                let mut q = p.clone();
                q[i] = x;
                let n = q.len();
                total(c, wire::framed(&q), n, 16384, Via::Framer)?;
            }
        }
        Ok(())
    });
    // on a stack as large as a worker thread's
    let n = ctx.n(60, 1500);
    ctx.cases("very many", n, |c| {
        let size = match c.rng.below(4) {
            0 => 16384,
            1 => 1 << 20,
            2 => 200_000 + c.rng.usize(200_000),
            _ => 4 << 20,
        };
        let mut p = gen::crowded(&mut c.rng, size);
        match c.rng.below(4) {
            0 => p.push(c.rng.next() as u8),
            1 => {
                p.pop();
            }
            2 => {
                let i = c.rng.usize(p.len());
                p[i] = c.rng.next() as u8;
            }
            _ => (),
        }
        let want = wire::decode(&p);
        let limit = p.len() + c.rng.usize(2);
        let v = via(&mut c.rng);
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, || {
                    let b = wire::framed(&p);
                    let s = Stream::new(b, End::Eof, Rng::new(1));
                    let m = alloc::mark();
                    let from = crate::p_wait::thread_time();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| End_::new(v, limit, &s).read()));
                    (r.map_err(|_| last_panic()), m.peak(), crate::p_wait::thread_time() - from)
                })
                .expect("vp-harness: thread")
                .join()
                .expect("vp-harness: thread")
        });
        let (res, peak) = (r.0.map_err(|e| format!("{e}; {}", hexc(&p)))??, r.1);
        let ok = match (&want, &res) {
            (Verdict::Frame(f), Ok(g)) => f == g,
            (Verdict::Frame(_), Err(_)) => false,
            (Verdict::Bad(..), Ok(_)) => false,
            _ => true,
        };
        if !ok {
            return err(format!("{} bytes of small elements, {}: {}", p.len(), clip(&format!("{want:?}"), 200), clip(&format!("{res:?}"), 200)));
        }
        // some fifty times what it takes
        if r.2 > std::time::Duration::from_secs(2) + std::time::Duration::from_micros(4) * p.len() as u32 {
            return err(format!("took {:?} of a processor for {} bytes of small elements: {}", r.2, p.len(), hexc(&p)));
        }
        c.max("microseconds for a frame of very many elements", r.2.as_micros() as u64);
        if peak > 64 * 1024 + 500 * limit {
            return err(format!("allocated {peak} bytes for {} bytes of small elements: {}", p.len(), hexc(&p)));
        }
        c.nontrivial(hash_bytes(&p));
        c.count("frames of very many elements", 1);
        c.max("bytes of small elements", p.len() as u64);
        Ok(())
    });
    ctx.require("reads finished", 10_000);
    ctx.require("frames of very many elements", 40);
}

pub fn total(c: &mut Case, b: Vec<u8>, announced: usize, limit: usize, v: Via) -> R {
    let s = Stream::new(b.clone(), End::Eof, c.rng.fork());
    let mut e = End_::new(v, limit, &s);
    let m = alloc::mark();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.read()));
    let (peak, biggest) = (m.peak(), m.biggest());
    let res = match res {
        Ok(r) => r.map_err(|e| format!("{e}; limit {limit}, bytes {}", hexc(&b)))?,
        Err(_) => return err(format!("{}; limit {limit}, bytes {}", last_panic(), hexc(&b))),
    };
    c.count("reads finished", 1);
    c.count(if res.is_ok() { "frames" } else { "errors" }, 1);
    if announced <= limit {
        c.nontrivial(hash_bytes(&b));
    }
    c.max("peak bytes allocated by one read", peak as u64);
    let used = s.consumed();
    let may = if announced <= limit { 4 + announced } else { 4 };
    if !matches!(v, Via::Buffered) && used > may {
        return err(format!("consumed {used} bytes of a frame announced as {announced} (limit {limit}): {}", hexc(&b)));
    }
    // a decoded element takes some 100 bytes of memory for at least two bytes of payload
    let bound = 64 * 1024 + 4 * limit + 400 * announced.min(limit);
    if peak > bound || biggest > bound {
        // again: what a first use sets up once and keeps (a compiled pattern, say) does not count
        let s = Stream::new(b.clone(), End::Eof, c.rng.fork());
        let mut e = End_::new(v, limit, &s);
        let m = alloc::mark();
        let _ = e.read();
        if m.peak() <= bound && m.biggest() <= bound {
            return Ok(());
        }
        return err(format!("allocated {peak} bytes (one piece of {biggest}) for a frame announced as {announced} (limit {limit}): {}", hexc(&b)));
    }
    c.sample(3, || format!("limit {limit} {} -> {}", hexc(&b), match &res {
        Ok(f) => show(f),
        Err(e) => format!("{e:?}"),
    }));
    Ok(())
}

pub fn judge(c: &mut Case, p: &[u8]) -> R {
    let v = wire::decode(p);
    // a sentinel tells a refusal from running into the end of the stream
    let next = Frame::notify(7, 9, [Message::new("next", [("n", p.len() as u64)])]);
    let mut b = wire::framed(p);
    b.extend(wire::wire(&next));
    let s = Stream::new(b, End::Eof, Rng::new(1));
    let mut e = End_::new(Via::Framer, p.len().max(64), &s);
    let res = e.read()?;
    if !matches!(&v, Verdict::Open(_)) {
        let at = s.consumed();
        if at != 4 + p.len() {
            return err(format!("reading {} took {at} bytes, the frame has {}; result {}", hexc(p), 4 + p.len(), clip(&format!("{res:?}"), 300)));
        }
        match e.read()? {
            Ok(g) if g == next => c.count("frames after it read", 1),
            x => return err(format!("after {} ({}), the next frame is read as {}", hexc(p), if res.is_ok() { "accepted" } else { "refused" }, clip(&format!("{x:?}"), 300))),
        }
    }
    match (&v, &res) {
        (Verdict::Open(_), _) => c.count("left open by the specification", 1),
        (Verdict::Frame(f), Ok(g)) if f == g => c.count("conformant and accepted", 1),
        (Verdict::Bad(..), Err(_)) => {
            c.count("malformed and refused", 1);
            c.nontrivial(hash_bytes(p));
        }
        (Verdict::Bad(_, w), Ok(g)) => {
            return err(format!("malformed ({w}) but accepted as {}\n payload {}", show(g), hexc(p)));
        }
        (Verdict::Frame(f), Ok(g)) => {
            return err(format!("contents differ:\n payload carries {}\n accepted as     {}\n payload {}", show(f), show(g), hexc(p)));
        }
        (Verdict::Frame(f), Err(e)) => {
            return err(format!("conformant but refused with {e:?}: {}\n payload {}", show(f), hexc(p)));
        }
    }
    if let Verdict::Bad(_, w) = &v {
        c.count(&format!("malformed: {w}"), 1);
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "a case damages a conformant payload (truncation, bit and byte changes, insertions, deletions, splices, over-long integers) and compares acceptance and contents with the independent strict decoder; non-trivial: distinct payloads that decoder calls malformed".into();
    let n = ctx.n(60_000, 3_000_000);
    ctx.cases("damaged", n, |c| {
        let p = hostile(&mut c.rng);
        c.sample(4, || format!("{} -> {:?}", hexc(&p), wire::decode(&p)));
        judge(c, &p)
    });
    let m = ctx.n(80, 3000);
    ctx.cases("truncations", m, |c| {
        let p = loop {
            let (p, _) = free_payload(&mut c.rng);
            if p.len() < 400 {
                break p;
            }
        };
        for cut in 0..p.len() {
            judge(c, &p[..cut])?;
        }
        if c.idx == 0 {
            for n in 0..8 {
                for x in [0u8, 1, 3, 103, 255] {
                    judge(c, &vec![x; n])?;
                }
            }
        }
        Ok(())
    });
    let m = ctx.n(40, 1500);
    ctx.cases("bytes", m, |c| {
        let p = loop {
            let (p, _) = free_payload(&mut c.rng);
            if p.len() < 90 {
                break p;
            }
        };
        for i in 0..p.len() {
            for x in 0..=255u8 {
                if x != p[i] {
                    let mut q = p.clone();
                    q[i] = x;
                    judge(c, &q)?;
                }
            }
        }
        Ok(())
    });
    // damage behind very much that is well-formed
    let n = ctx.n(400, 12_000);
    ctx.cases("at the end", n, |c| {
        let r = &mut c.rng;
        let mut p = match r.below(3) {
            0 => wire::payload(&gen::big_frame(r)),
            _ => many_items(r).0,
        };
        match r.below(6) {
            0 => (),
            1 | 2 => {
                let cut = r.range(1, 6).min(p.len() as u64) as usize;
                p.truncate(p.len() - cut);
            }
            3 => p.push(r.below(256) as u8),
            4 => {
                let n = r.range(1, 9) as usize;
                let x = r.bytes(n);
                p.extend(x);
            }
            _ => {
                let i = p.len() - 1 - r.usize(20.min(p.len()));
                p[i] ^= 1 << r.below(8);
            }
        }
        c.count("long payloads", 1);
        judge(c, &p)
    });
    // ids that do not fit the kind, and every frame type
    ctx.cases("kinds", 256 * 4, |c| {
        let ty = (c.idx / 4) as u8;
        let (sid, fid) = [(0, 0), (1, 0), (0, 1), (7, 300)][c.idx as usize % 4];
        let bodies: Vec<Vec<u8>> = {
            let strip = |v: Vec<u8>| v[7..].to_vec();
            vec![
                vec![],
                strip(wire::kv_frame(1, &wire::hello_items(&gen::hello(&mut c.rng)))),
                strip(wire::kv_frame(2, &wire::disconnect_items(&gen::disconnect(&mut c.rng)))),
                {
                    let mut o = vec![];
                    wire::message(&mut o, &gen::message(&mut c.rng));
                    o
                },
                {
                    let mut o = vec![];
                    wire::action(&mut o, &gen::action(&mut c.rng));
                    o
                },
            ]
        };
        for b in bodies {
            let mut p = vec![];
            wire::head(&mut p, ty, wire::FIN, sid, fid);
            p.extend_from_slice(&b);
            judge(c, &p)?;
        }
        Ok(())
    });
    ctx.require("malformed and refused", 10_000);
    ctx.require("conformant and accepted", 100);
}

// ---------------------------------------------------------------- C06

pub fn small_frame(r: &mut Rng) -> Frame {
    loop {
        let f = gen::frame(r);
        if wire::payload(&f).len() < 300 {
            return f;
        }
    }
}

fn bad_payload(r: &mut Rng) -> Vec<u8> {
    loop {
        let p = hostile(r);
        if p.len() < 400 && matches!(wire::decode(&p), Verdict::Bad(..)) {
            return p;
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "a case reads or writes a sequence of frames, some malformed, over a transport with seeded segmentation, pending points, short writes, buffering until flush, a cut or a failure; non-trivial: distinct (bytes, transport behaviour)".into();
    let n = ctx.n(8_000, 300_000);
    ctx.cases("segmented reads", n, |c| {
        let k = 1 + c.rng.usize(8);
        let mut bytes = vec![];
        let mut want = vec![];
        for _ in 0..k {
            if c.rng.chance(25) {
                bytes.extend(wire::framed(&bad_payload(&mut c.rng)));
                want.push(None);
            } else {
                let f = small_frame(&mut c.rng);
                bytes.extend(wire::wire(&f));
                want.push(Some(f));
            }
        }
        let v = via(&mut c.rng);
        let limit = 400 + c.rng.usize(20_000);
        let s = Stream::new(bytes.clone(), End::Eof, c.rng.fork()).rough();
        let mut e = End_::new(v, limit, &s);
        for (i, w) in want.iter().enumerate() {
            match (w, e.read()?) {
                (Some(f), Ok(g)) if *f == g => c.count("frames read", 1),
                (None, Err(Error::Io)) => return err(format!("malformed frame {i} of {k} reported as an I/O error; bytes {}", hexc(&bytes))),
                (None, Err(_)) => c.count("malformed frames skipped", 1),
                (w, g) => return err(format!("frame {i} of {k} via {v:?}: expected {w:?}, got {g:?}; bytes {}", hexc(&bytes))),
            }
        }
        match e.read()? {
            Err(Error::Io) => (),
            x => return err(format!("at the end of the stream: expected an I/O error, got {x:?}; bytes {}", hexc(&bytes))),
        }
        c.count("transport reads", s.0.lock().unwrap().read_calls);
        c.nontrivial(hash_bytes(&bytes) ^ s.0.lock().unwrap().read_calls);
        c.sample(2, || format!("{k} frames, {} bytes via {v:?} in {} reads", bytes.len(), s.0.lock().unwrap().read_calls));
        Ok(())
    });
    let n = ctx.n(60, 2500);
    ctx.cases("cuts", n, |c| {
        let k = 1 + c.rng.usize(3);
        let fs: Vec<Frame> = (0..k).map(|_| small_frame(&mut c.rng)).collect();
        let mut bytes = vec![];
        let mut ends = vec![];
        for f in &fs {
            bytes.extend(wire::wire(f));
            ends.push(bytes.len());
        }
        for cut in 0..bytes.len() {
            let v = via(&mut c.rng);
            let end = if c.rng.chance(50) { End::Eof } else { End::Reset };
            let s = Stream::new(bytes[..cut].to_vec(), end, c.rng.fork()).rough();
            let mut e = End_::new(v, 1000, &s);
            let whole = ends.iter().filter(|x| **x <= cut).count();
            for f in &fs[..whole] {
                match e.read()? {
                    Ok(g) if g == *f => (),
                    x => return err(format!("cut at {cut}: expected {f:?}, got {x:?}")),
                }
            }
            for again in 0..2 {
                match e.read()? {
                    Err(Error::Io) => c.count("cuts reported as I/O errors", 1),
                    x => return err(format!("stream cut at byte {cut} of {} ({end:?}, read {again} after it): expected an I/O error, got {x:?}", bytes.len())),
                }
                if end == End::Eof {
                    // a second read finds the same end
                    continue;
                }
                break;
            }
            c.nontrivial(hash_bytes(&bytes) ^ mix(cut as u64));
        }
        Ok(())
    });
    let n = ctx.n(6_000, 200_000);
    ctx.cases("writes", n, |c| {
        let k = 1 + c.rng.usize(5);
        let v = via(&mut c.rng);
        let s = Stream::new(vec![], End::Open, c.rng.fork()).rough().with(|w| {
            w.buffered = w.rng.chance(50);
        });
        let long = c.rng.chance(10);
        let mut e = End_::new(v, if long { 1 << 18 } else { 16384 }, &s);
        let mut bytes = vec![];
        let mut sent = vec![];
        for i in 0..k {
            let f = match c.rng.below(3) {
                0 if long => {
                    let n = 1 + c.rng.usize(1 << 18);
                    match sized(&mut c.rng, n) {
                        Some(f) => f,
                        None => small_frame(&mut c.rng),
                    }
                }
                _ => small_frame(&mut c.rng),
            };
            bytes.extend(wire::wire(&f));
            match e.write(f.clone())? {
                Ok(_) => (),
                Err(x) => return err(format!("write {i} failed: {x:?}")),
            }
            sent.push(f);
            let out = s.sent();
            let buffered = s.0.lock().unwrap().buffered;
            if out.len() != bytes.len() {
                return err(format!(
                    "after a completed write via {v:?} the peer has {} of {} bytes{}",
                    out.len(),
                    bytes.len(),
                    if buffered { " (transport buffers until flushed)" } else { "" }
                ));
            }
            c.count("frames written", 1);
        }
        let (ps, rest) = {
            let out = s.sent();
            let (p, r) = wire::split(&out);
            (p.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), r.len())
        };
        if rest != 0 || ps.len() != k {
            return err(format!("{} frames and {rest} bytes on the wire instead of {k} frames", ps.len()));
        }
        for (p, f) in ps.iter().zip(&sent) {
            match wire::decode(p) {
                Verdict::Frame(g) if g == *f => (),
                x => return err(format!("peer sees {x:?} instead of {}", show(f))),
            }
        }
        let w = s.0.lock().unwrap();
        c.count("transport writes", w.write_calls);
        c.nontrivial(hash_bytes(&w.out) ^ mix(w.write_calls));
        Ok(())
    });
    let n = ctx.n(80, 3000);
    ctx.cases("write failures", n, |c| {
        let f = small_frame(&mut c.rng);
        let b = wire::wire(&f);
        for k in 0..b.len() {
            let v = via(&mut c.rng);
            let s = Stream::new(vec![], End::Open, c.rng.fork()).rough().with(|w| w.fail_write_at = Some(k));
            match End_::new(v, 1000, &s).write(f.clone())? {
                Err(Error::Io) => c.count("write failures reported", 1),
                x => return err(format!("transport failed at byte {k} of {}, the write returned {x:?}", b.len())),
            }
            let out = s.accepted();
            if out.len() != k || (matches!(f, Frame::HaproxyNotify(_) | Frame::AgentAck(_)) && out[..] != b[..k]) {
                return err(format!("transport failed at byte {k}; accepted {} bytes {}", out.len(), hexc(&out)));
            }
        }
        let s = Stream::new(vec![], End::Open, c.rng.fork()).rough().with(|w| {
            w.buffered = true;
            w.fail_flush = true;
        });
        match End_::new(Via::Codec, 1000, &s).write(f.clone())? {
            Err(Error::Io) => c.count("flush failures reported", 1),
            x => return err(format!("transport failed to flush, the write returned {x:?}")),
        }
        c.nontrivial(hash_bytes(&b));
        Ok(())
    });
    let n = ctx.n(120, 3000);
    ctx.cases("tiny pieces", n, |c| {
        // long frames, a byte or two at a time, each way
        let k = 500 + c.rng.usize(60_000);
        let f = loop {
            if let Some(f) = sized(&mut c.rng, k) {
                break f;
            }
        };
        let b = wire::wire(&f);
        let step = 1 + c.rng.usize(3);
        let pct = *c.rng.pick(&[0, 0, 30, 60]);
        let tiny = |w: &mut Wire| {
            w.max_read = step;
            w.max_write = step;
            w.pending_pct = pct;
        };
        let buffered = c.rng.chance(50);
        let (vw, vr) = (via(&mut c.rng), via(&mut c.rng));
        let s = Stream::new([&b[..], &b[..]].concat(), End::Eof, c.rng.fork()).with(tiny);
        let mut e = End_::new(vr, k, &s);
        for i in 0..2 {
            match e.read()? {
                Ok(g) if g == f => (),
                x => return err(format!("a frame of {k} bytes, {step} bytes at a time, read {i} via {vr:?}: {}", clip(&format!("{x:?}"), 300))),
            }
        }
        let calls = s.0.lock().unwrap().read_calls;
        c.max("pieces of one frame", calls / 2);
        let s = Stream::new(vec![], End::Open, c.rng.fork()).with(|w| {
            tiny(w);
            w.buffered = buffered;
        });
        match End_::new(vw, k, &s).write(f)? {
            Ok(n) if n == k + 4 && s.sent() == b => (),
            x => return err(format!("a frame of {k} bytes, {step} bytes at a time, via {vw:?}: {x:?}, {} bytes written", s.sent().len())),
        }
        c.count("frames in very many pieces", 1);
        c.nontrivial(hash_bytes(&b) ^ step as u64);
        Ok(())
    });
    ctx.require("frames in very many pieces", 100);
    let n = ctx.n(2_500, 80_000);
    ctx.cases("sessions", n, |c| crate::p_conn::slow_sessions(c));
    ctx.require("sessions read slowly", 500);
    ctx.require("frames read", 1000);
    ctx.require("cuts reported as I/O errors", 1000);
    ctx.require("write failures reported", 500);
}

// ---------------------------------------------------------------- C07 / C08

/// A frame whose payload has exactly `n` bytes (None if that is impossible).
pub fn sized(r: &mut Rng, n: usize) -> Option<Frame> {
    for _ in 0..20 {
        let which = r.below(4);
        let (sid, fid) = (gen::int(r), gen::fid(r));
        let make = |k: usize| -> Frame {
            let s = "s".repeat(k);
            match which {
                0 => Frame::notify(sid, fid, [Message::new(s, Vec::<(String, Typed)>::new())]),
                1 => Frame::ack(sid, fid, [Action::set_var(Scope::Session, "v", s)]),
                2 => Frame::agent_disconnect(Error::Io, s),
                _ => Frame::notify(sid, fid, [Message::new("m", [("a", Typed::Binary(Bytes::from(s.into_bytes())))])]),
            }
        };
        let base = wire::payload(&make(0)).len();
        if n < base {
            continue;
        }
        for slack in 0..6 {
            if n >= base + slack {
                let f = make(n - base - slack);
                if wire::payload(&f).len() == n {
                    return Some(f);
                }
            }
        }
    }
    None
}

fn limit(r: &mut Rng) -> usize {
    match r.below(5) {
        0 => *r.pick(&[16, 64, 255, 256, 257, 4096, 16380, 16384, 65535, 65536]),
        1 => 9 + r.usize(40),
        2 => r.usize(1 << 17) + 9,
        _ => 60 + r.usize(3000),
    }
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "a case has a reader with a generated limit and a frame announced below, at, just above or far above it; non-trivial: distinct (limit, announced length)".into();
    let n = ctx.n(12_000, 500_000);
    ctx.cases("limits", n, |c| {
        let l = limit(&mut c.rng);
        let v = via(&mut c.rng);
        let over = c.rng.chance(50);
        if over {
            let a = match c.rng.below(6) {
                0 => l as u64 + 1,
                1 => l as u64 + 2 + c.rng.below(10),
                2 => u32::MAX as u64 - c.rng.below(3),
                3 => l as u64 + 256 * (1 + c.rng.below(50)),
                4 => (l as u64) << (1 + c.rng.below(10)),
                _ => l as u64 + 1 + c.rng.below(u32::MAX as u64 - l as u64),
            };
            let a = a.min(u32::MAX as u64) as u32;
            // a real frame of that length, if it is not too long to build
            let body = if a < 300_000 { sized(&mut c.rng, a as usize).map(|f| wire::payload(&f)) } else { None };
            let body = body.unwrap_or_else(|| c.rng.bytes(64));
            let mut b = a.to_be_bytes().to_vec();
            b.extend_from_slice(&body);
            let s = Stream::new(b, End::Open, c.rng.fork()).rough();
            let mut e = End_::new(v, l, &s);
            let m = alloc::mark();
            let res = e.read()?;
            let (peak, used) = (m.peak(), s.consumed());
            c.nontrivial(mix(l as u64) ^ a as u64);
            c.count("over-long frames refused", 1);
            match res {
                Err(Error::BadFrameSize) => (),
                x => return err(format!("frame announced as {a} with limit {l}: {x:?}")),
            }
            if !matches!(v, Via::Buffered) && used != 4 {
                return err(format!("frame announced as {a} with limit {l}: {used} bytes consumed"));
            }
            if peak > 64 * 1024 + l {
                return err(format!("frame announced as {a} with limit {l}: {peak} bytes allocated"));
            }
            c.sample(2, || format!("limit {l}, announced {a}: refused after {used} bytes"));
        } else {
            let k = match c.rng.below(4) {
                0 | 1 => l,
                2 => l - c.rng.usize(3).min(l - 8),
                _ => 8 + c.rng.usize(l - 8),
            };
            let Some(f) = sized(&mut c.rng, k) else { return Ok(()) };
            let s = Stream::new(wire::wire(&f), End::Open, c.rng.fork()).rough();
            let mut e = End_::new(v, l, &s);
            c.nontrivial(mix(l as u64) ^ k as u64);
            match e.read()? {
                Ok(g) if g == f => {
                    c.count("frames within the limit accepted", 1);
                    if k == l {
                        c.count("frames exactly at the limit accepted", 1);
                    }
                }
                x => return err(format!("frame of {k} bytes with limit {l}: expected {}, got {}", show(&f), clip(&format!("{x:?}"), 300))),
            }
            c.sample(4, || format!("limit {l}, length {k}: accepted"));
        }
        Ok(())
    });
    // limits beyond what a length can announce
    let n = ctx.n(400, 10_000);
    ctx.cases("no limit", n, |c| {
        let l = *c.rng.pick(&[u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1 << 32) + 300, 3 << 32, 1 << 40, isize::MAX as usize, usize::MAX - 4, usize::MAX]);
        let most = if c.rng.chance(10) { 200_000 } else { 3000 };
        let k = 8 + c.rng.usize(most);
        let Some(f) = sized(&mut c.rng, k) else { return Ok(()) };
        let v = via(&mut c.rng);
        let s = Stream::new(wire::wire(&f), End::Open, c.rng.fork()).rough();
        let mut e = End_::new(v, l, &s);
        c.nontrivial(mix(l as u64) ^ k as u64);
        match e.read()? {
            Ok(g) if g == f => c.count("frames accepted without a limit", 1),
            x => return err(format!("frame of {k} bytes with limit {l}: expected {}, got {}", show(&f), clip(&format!("{x:?}"), 300))),
        }
        Ok(())
    });
    ctx.cases("small lengths", 64, |c| {
        // lengths too small for any frame are malformed, not a hang or a frame
        let a = c.idx as u32 % 8;
        let b0 = c.rng.bytes(a as usize);
        let mut b = a.to_be_bytes().to_vec();
        b.extend_from_slice(&b0);
        let f = Frame::notify(1, 1, [Message::new("next", [("a", 1u32)])]);
        b.extend(wire::wire(&f));
        let s = Stream::new(b, End::Open, c.rng.fork()).rough();
        let mut e = End_::new(Via::Framer, 100, &s);
        if let Ok(x) = e.read()? {
            if a < 7 {
                return err(format!("a frame of {a} bytes was accepted as {x:?}"));
            }
        }
        match e.read()? {
            Ok(g) if g == f => Ok(()),
            x => err(format!("after a frame of {a} bytes: {x:?}")),
        }
    });
    ctx.require("over-long frames refused", 1000);
    ctx.require("frames exactly at the limit accepted", 300);
}

fn c08_case(c: &mut Case, l: usize, f: Frame, fits: bool, what: &str) -> R {
    let v = via(&mut c.rng);
    let s = Stream::new(vec![], End::Open, c.rng.fork()).rough().with(|w| w.buffered = w.rng.chance(30));
    let mut e = End_::new(v, l, &s);
    let res = e.write(f.clone())?;
    let put = s.accepted().len();
    if fits {
        if res.is_err() {
            return err(format!("{what}: within limits, but refused with {res:?} (limit {l}, payload {})", wire::payload(&f).len()));
        }
        c.count("frames within the limits written", 1);
        return Ok(());
    }
    c.count("frames beyond the limits offered", 1);
    match &res {
        Err(Error::Io) => return err(format!("{what}: reported as an I/O error")),
        Err(_) if put == 0 => (),
        Err(x) => return err(format!("{what}: refused with {x:?} after {put} bytes were put on the stream")),
        Ok(n) => return err(format!("{what}: written ({n} bytes, limit {l}) although the peer cannot read it back: {}", hexc(&s.accepted()[..put.min(60)]))),
    }
    // the stream is still usable
    let g = Frame::ack(1, 1, Vec::<Action>::new());
    if wire::payload(&g).len() <= l {
        match e.write(g.clone())? {
            Ok(_) => (),
            Err(x) => return err(format!("{what}: the next frame fails with {x:?}")),
        }
        let out = s.sent();
        let (ps, rest) = wire::split(&out);
        if ps.len() != 1 || !rest.is_empty() || !matches!(wire::decode(ps[0]), Verdict::Frame(ref x) if *x == g) {
            return err(format!("{what}: the next frame arrives as {}", hexc(&out)));
        }
    }
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "a case offers a frame below, at or above the writer's size limit, or a message with 0-600 arguments; non-trivial: distinct (limit, size, arguments) beyond the limits".into();
    let n = ctx.n(10_000, 300_000);
    ctx.cases("sizes", n, |c| {
        let l = limit(&mut c.rng);
        let k = match c.rng.below(6) {
            0 => l,
            1 => l + 1,
            2 => l + 1 + c.rng.usize(8),
            3 => l + 1 + c.rng.usize(2 * l),
            4 => l.saturating_sub(1),
            _ => 8 + c.rng.usize(l),
        };
        let Some(f) = sized(&mut c.rng, k) else { return Ok(()) };
        if k > l {
            c.nontrivial(mix(l as u64) ^ k as u64);
        }
        c.sample(3, || format!("limit {l}, payload {k}"));
        c08_case(c, l, f, k <= l, "size")
    });
    let n = ctx.n(1_500, 40_000);
    ctx.cases("arguments", n, |c| {
        let k = match c.rng.below(8) {
            0 => 254,
            1 => 255,
            2 => 256,
            3 => 257,
            4 => 511,
            5 => 512,
            _ => 200 + c.rng.usize(400),
        };
        let mut msgs: Vec<Message> = (0..c.rng.usize(3)).map(|i| gen::small_message(&mut c.rng, i as u64)).collect();
        let m = Message::new("many", (0..k).map(|i| (format!("{i}"), Typed::Uint32(i as u32))));
        let at = c.rng.usize(msgs.len() + 1);
        msgs.insert(at, m);
        let f = Frame::HaproxyNotify(HaproxyNotify {
            fragmented: c.rng.chance(20),
            stream_id: gen::int(&mut c.rng),
            frame_id: gen::fid(&mut c.rng),
            messages: msgs,
        });
        if k > 255 {
            c.nontrivial(mix(k as u64) ^ c.idx);
        }
        c.sample(5, || format!("message with {k} arguments"));
        c08_case(c, 1 << 20, f, k <= 255, "argument count")
    });
    let n = ctx.n(300, 8_000);
    ctx.cases("among very many messages", n, |c| {
        let k = *c.rng.pick(&[255usize, 256, 256, 257, 300]);
        let most = if c.rng.chance(20) { 5000 } else { 300 };
        let n = c.rng.usize(most);
        let mut msgs: Vec<Message> = (0..n).map(|i| gen::tiny_message(&mut c.rng, i as u64)).collect();
        let at = if c.rng.chance(30) { n } else { c.rng.usize(n + 1) };
        msgs.insert(at, Message::new("many", (0..k).map(|i| (format!("{i}"), Typed::Uint32(i as u32)))));
        let f = Frame::HaproxyNotify(HaproxyNotify { fragmented: c.rng.chance(20), stream_id: gen::int(&mut c.rng), frame_id: gen::fid(&mut c.rng), messages: msgs });
        if k > 255 {
            c.nontrivial(mix(k as u64) ^ mix(at as u64) ^ c.idx);
        }
        c08_case(c, 1 << 20, f, k <= 255, "argument count")
    });
    ctx.require("frames beyond the limits offered", 500);
    ctx.require("frames within the limits written", 500);
}

// ---------------------------------------------------------------- C28

pub fn header_block(r: &mut Rng) -> (Vec<u8>, Vec<(String, Vec<u8>)>) {
    const NAMES: &[&str] = &["host", "cookie", "x-forwarded-for", "Accept", "set-cookie", "user-agent", "x", "via", "accept-encoding"];
    let n = match r.below(10) {
        0 => 0,
        1 => r.usize(300),
        _ => 1 + r.usize(12),
    };
    let mut list = vec![];
    for _ in 0..n {
        let name = match r.below(3) {
            0 => {
                let k = 1 + gen::len(r, 3000);
                (0..k).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789-_!#$%&'*+.^`|~ABCXYZ") as char).collect()
            }
            _ => r.pick(NAMES).to_string(),
        };
        let k = gen::len(r, 5000);
        let value: Vec<u8> = (0..k)
            .map(|_| match r.below(20) {
                0 => b'\t',
                1 => 0x80 + r.below(128) as u8,
                _ => 0x20 + r.below(0x5f) as u8,
            })
            .collect();
        list.push((name, value));
    }
    let mut b = vec![];
    for (k, v) in &list {
        wire::string(&mut b, k.as_bytes());
        wire::string(&mut b, v);
    }
    b.extend_from_slice(&[0, 0]);
    (b, list)
}

/// A buffer in pieces, as a `Buf` may be.
pub struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    step: usize,
    seed: u64,
    end: usize,
}

impl<'a> Pieces<'a> {
    pub fn new(data: &'a [u8], step: usize, seed: u64) -> Pieces<'a> {
        let mut p = Pieces { data, pos: 0, step, seed, end: 0 };
        p.cut();
        p
    }
    fn cut(&mut self) {
        while self.end <= self.pos && self.end < self.data.len() {
            let k = 1 + (mix(self.seed ^ self.end as u64) as usize) % self.step;
            self.end = (self.end + k).min(self.data.len());
        }
    }
}

impl bytes::Buf for Pieces<'_> {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.data[self.pos..self.end.max(self.pos)]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "cannot advance past the end");
        self.pos += n;
        self.cut();
    }
}

pub fn check_headers(c: &mut Case, b: &[u8], list: &[(String, Vec<u8>)]) -> R {
    let how = c.rng.below(6);
    let res = match how {
        0 => haproxy_spoa::req::hdrs_bin(Bytes::copy_from_slice(b)),
        1 => {
            let k = c.rng.usize(b.len() + 1);
            haproxy_spoa::req::hdrs_bin(bytes::Buf::chain(&b[..k], &b[k..]))
        }
        2 | 3 => {
            let step = *c.rng.pick(&[1, 2, 3, 8, 100]);
            haproxy_spoa::req::hdrs_bin(Pieces::new(b, step, c.rng.next()))
        }
        _ => haproxy_spoa::req::hdrs_bin(b),
    };
    if (1..4).contains(&how) {
        c.count("blocks given in pieces", 1);
    }
    let map = match res {
        Ok(m) => m,
        Err(e) => return err(format!("refused a well-formed block of {} headers (form {how}) with {e}: {}", list.len(), hexc(b))),
    };
    let mut want: BTreeMap<String, Vec<&[u8]>> = BTreeMap::new();
    for (k, v) in list {
        want.entry(k.to_ascii_lowercase()).or_default().push(v);
    }
    if map.len() != list.len() {
        return err(format!("{} of {} headers decoded: {}", map.len(), list.len(), hexc(b)));
    }
    for (k, vs) in &want {
        let got: Vec<&[u8]> = map.get_all(k.as_str()).iter().map(|v| v.as_bytes()).collect();
        if got != *vs {
            return err(format!("header {k}: expected {vs:?}, got {got:?}"));
        }
        c.count("headers checked", vs.len() as u64);
        if vs.len() > 1 {
            c.count("repeated names checked", 1);
        }
    }
    for (_, v) in list {
        if v.len() >= 240 {
            c.count("values of 240 bytes and more checked", 1);
        }
    }
    Ok(())
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "a case decodes a generated header block (or arbitrary, truncated, mutated bytes); non-trivial: distinct blocks".into();
    let n = ctx.n(8_000, 300_000);
    ctx.cases("blocks", n, |c| {
        let (mut b, list) = header_block(&mut c.rng);
        let tail = if c.rng.chance(20) { c.rng.usize(20) } else { 0 };
        let t = c.rng.bytes(tail);
        b.extend_from_slice(&t);
        c.nontrivial(hash_bytes(&b));
        c.sample(2, || format!("{} headers: {}", list.len(), hexc(&b)));
        check_headers(c, &b, &list)
    });
    ctx.cases("lengths", 5000, |c| {
        let k = c.idx as usize;
        let list = vec![
            ("a".to_string(), vec![b'v'; k]),
            ("b".repeat(1 + k % 700), b"next".to_vec()),
            ("a".to_string(), vec![]),
        ];
        let mut b = vec![];
        for (k, v) in &list {
            wire::string(&mut b, k.as_bytes());
            wire::string(&mut b, v);
        }
        b.extend_from_slice(&[0, 0]);
        c.nontrivial(hash_bytes(&b));
        check_headers(c, &b, &list)
    });
    let n = ctx.n(400, 8_000);
    ctx.cases("very long", n, |c| {
        let k = |r: &mut Rng, top: u64| -> usize {
            let b = r.range(8, top);
            ((1u64 << b) as i64 + r.range(0, 4) as i64 - 2 + if r.chance(60) { r.below(1 << b) as i64 } else { 0 }) as usize
        };
        let n = k(&mut c.rng, 16).min(65_535);
        let list = vec![
            ("first".to_string(), vec![b'1'; k(&mut c.rng, 18)]),
            ("n".repeat(n), vec![b'2'; k(&mut c.rng, 15)]),
            ("first".to_string(), vec![b'3'; k(&mut c.rng, if c.idx % 20 == 0 { 22 } else { 17 })]),
            ("last".to_string(), b"4".to_vec()),
        ];
        let mut b = vec![];
        for (k, v) in &list {
            wire::string(&mut b, k.as_bytes());
            wire::string(&mut b, v);
            c.max("longest value", v.len() as u64);
            c.max("longest name", k.len() as u64);
        }
        b.extend_from_slice(&[0, 0]);
        c.nontrivial(hash_bytes(&b));
        check_headers(c, &b, &list).map_err(|e| clip(&e, 2000))
    });
    let n = ctx.n(2000, 50_000);
    ctx.cases("not allowed", n, |c| {
        let (_, mut list) = header_block(&mut c.rng);
        list.truncate(20);
        let r = &mut c.rng;
        let bad: (Vec<u8>, Vec<u8>) = match r.below(4) {
            // an empty pair is the end, this is none
            0 => {
                let n = 1 + r.usize(20);
                (vec![], vec![b'v'; n])
            }
            1 => {
                let mut n = b"x-name".to_vec();
                n.insert(r.usize(7), *r.pick(b" :\0\n\r\t(){},;/@[]\\\"\x7f\x80\xff"));
                (n, b"v".to_vec())
            }
            _ => {
                let mut v = b"some value".to_vec();
                v.insert(r.usize(11), *r.pick(b"\0\n\r\x01\x1f\x7f"));
                (b"name".to_vec(), v)
            }
        };
        let mut list: Vec<(Vec<u8>, Vec<u8>)> = list.into_iter().map(|(k, v)| (k.into_bytes(), v)).collect();
        let at = r.usize(list.len() + 1);
        list.insert(at, bad);
        let mut b = vec![];
        for (k, v) in &list {
            wire::string(&mut b, k);
            wire::string(&mut b, v);
        }
        b.extend_from_slice(&[0, 0]);
        c.nontrivial(hash_bytes(&b));
        c.count("headers that are not allowed", 1);
        match std::panic::catch_unwind(|| haproxy_spoa::req::hdrs_bin(&b[..]).map(|m| m.len())) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(n)) => err(format!("{n} of {} headers decoded, although one is not allowed: {}", list.len(), hexc(&b))),
            Err(_) => err(format!("{}: {}", last_panic(), hexc(&b))),
        }
    });
    let n = ctx.n(30_000, 1_500_000);
    ctx.cases("arbitrary", n, |c| {
        let mut b = if c.rng.chance(30) {
            let n = c.rng.usize(100);
            c.rng.bytes(n)
        } else {
            let (mut b, _) = header_block(&mut c.rng);
            if b.len() > 2000 {
                b.truncate(2000);
            }
            b
        };
        for _ in 0..c.rng.usize(3) {
            b = mutate(&mut c.rng, b);
        }
        c.nontrivial(hash_bytes(&b));
        let m = alloc::mark();
        let pieces = c.rng.chance(40).then(|| (1 + c.rng.usize(9), c.rng.next()));
        let ok = std::panic::catch_unwind(|| match pieces {
            Some((step, seed)) => haproxy_spoa::req::hdrs_bin(Pieces::new(&b, step, seed)).is_ok(),
            None => haproxy_spoa::req::hdrs_bin(&b[..]).is_ok(),
        });
        let peak = m.peak();
        match ok {
            Ok(ok) => c.count(if ok { "arbitrary bytes: map" } else { "arbitrary bytes: error" }, 1),
            Err(_) => return err(format!("{}: {}", last_panic(), hexc(&b))),
        }
        if peak > 64 * 1024 + 400 * b.len() {
            return err(format!("{peak} bytes allocated for a block of {}: {}", b.len(), hexc(&b)));
        }
        Ok(())
    });
    let n = ctx.n(4, 12);
    ctx.cases("very many", n, |c| {
        // more distinct names than a header map can hold: an error, never a panic
        let k = [20_000, 24_576, 33_000, 70_000][c.idx as usize % 4];
        let mut b = vec![];
        for i in 0..k {
            wire::string(&mut b, format!("h{i}").as_bytes());
            wire::string(&mut b, b"v");
        }
        b.extend_from_slice(&[0, 0]);
        match std::panic::catch_unwind(|| haproxy_spoa::req::hdrs_bin(&b[..]).map(|m| m.len())) {
            Ok(Ok(n)) if n == k => Ok(()),
            Ok(Ok(n)) => err(format!("{n} of {k} headers decoded")),
            Ok(Err(_)) if k > 24_000 => Ok(()),
            Ok(Err(e)) => err(format!("{k} headers refused: {e}")),
            Err(_) => err(format!("{k} distinct headers: {}", last_panic())),
        }
    });
    ctx.require("headers checked", 10_000);
    ctx.require("headers that are not allowed", 500);
    ctx.require("repeated names checked", 500);
    ctx.require("blocks given in pieces", 500);
    ctx.require("values of 240 bytes and more checked", 500);
}

// ---------------------------------------------------------------- C29

fn kinds_accepting(t: &Typed) -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! k {
        ($($ty:ty, $name:expr);*) => { $( if <$ty>::try_from(t.clone()).is_ok() { v.push($name); } )* };
    }
    k!(bool, "bool"; i32, "i32"; u32, "u32"; i64, "i64"; u64, "u64"; Ipv4Addr, "ipv4"; Ipv6Addr, "ipv6"; String, "string"; Bytes, "binary");
    v
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule = "a case converts generated values of every kind to typed data and back and tries every other kind; versions and status codes are enumerated; constructors are compared field by field; non-trivial: distinct values".into();
    let n = ctx.n(20_000, 1_000_000);
    ctx.cases("values", n, |c| {
        let r = &mut c.rng;
        macro_rules! back {
            ($ty:ty, $v:expr, $var:ident, $name:expr) => {{
                let v: $ty = $v;
                let t = Typed::from(v.clone());
                if !matches!(&t, Typed::$var(x) if *x == v) {
                    return err(format!("{v:?} becomes {t:?}"));
                }
                match <$ty>::try_from(t.clone()) {
                    Ok(x) if x == v => (),
                    x => return err(format!("{v:?} comes back as {:?}", x.ok())),
                }
                let ks = kinds_accepting(&t);
                if ks != [$name] {
                    return err(format!("{t:?} converts to {ks:?}"));
                }
                (t, $name)
            }};
        }
        let (t, k) = match r.below(9) {
            0 => back!(bool, r.chance(50), Boolean, "bool"),
            1 => back!(i32, gen::int(r) as i32, Int32, "i32"),
            2 => back!(u32, gen::int(r) as u32, Uint32, "u32"),
            3 => back!(i64, gen::int(r) as i64, Int64, "i64"),
            4 => back!(u64, gen::int(r), Uint64, "u64"),
            5 => back!(Ipv4Addr, Ipv4Addr::from(r.next() as u32), Ipv4, "ipv4"),
            6 => back!(Ipv6Addr, Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128), Ipv6, "ipv6"),
            7 if r.chance(10) => {
                let x = *r.pick(&["", "true", "1", "null", "127.0.0.1", "::1", "\0"]);
                back!(String, x.to_string(), String, "string")
            }
            7 => back!(String, gen::text(r, 600), String, "string"),
            8 if r.chance(30) => back!(Bytes, Bytes::from(gen::text(r, 600).into_bytes()), Binary, "binary"),
            _ => {
                let n = r.usize(300);
                back!(Bytes, Bytes::from(r.bytes(n)), Binary, "binary")
            }
        };
        // further ways in
        let s = gen::text(r, 50);
        let n = gen::len(r, 600);
        let b = match r.below(3) {
            0 => gen::text(r, 600).into_bytes(),
            _ => r.bytes(n),
        };
        let s = match r.below(4) {
            0 => r.pick(&["", "true", "false", "1", "-1", "null", "127.0.0.1", "::1", "0x1f", "async", "2.0", " ", "\0"]).to_string(),
            _ => s,
        };
        let v4 = Ipv4Addr::from(r.next() as u32);
        let v6 = Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128);
        let v4m = v4.to_ipv6_mapped();
        let bin = Typed::Binary(Bytes::from(b.clone()));
        let pairs = [
            (Typed::from(s.as_str()), Typed::String(s.clone())),
            (Typed::from(&b[..]), bin.clone()),
            (Typed::from(b.clone()), bin.clone()),
            (Typed::from(b.clone().into_boxed_slice()), bin.clone()),
            (Typed::from(BytesMut::from(&b[..])), bin),
            (Typed::from(IpAddr::V4(v4)), Typed::Ipv4(v4)),
            (Typed::from(IpAddr::V6(v6)), Typed::Ipv6(v6)),
            (Typed::from(IpAddr::V6(v4m)), Typed::Ipv6(v4m)),
            (Typed::from(()), Typed::Null),
        ];
        for (a, b) in pairs {
            if a != b {
                return err(format!("conversion gives {a:?} instead of {b:?}"));
            }
        }
        if !kinds_accepting(&Typed::Null).is_empty() {
            return err("null converts to a value");
        }
        c.count("values converted", 1);
        c.count(&format!("kind {k}"), 1);
        let key = hash_bytes(format!("{t:?}").as_bytes());
        c.nontrivial(key);
        c.sample(2, || format!("{t:?}"));
        Ok(())
    });
    ctx.cases("versions", 256, |c| {
        let a = c.idx as u8;
        for b in 0..=255u8 {
            let v = Version::new(a, b);
            let s = format!("{a}.{b}");
            if v.to_string() != s || v.major != a || v.minor != b {
                return err(format!("version {s} prints as {v}"));
            }
            match s.parse::<Version>() {
                Ok(x) if x == v => (),
                x => return err(format!("version {s} parses as {x:?}")),
            }
            let w = Version::new(c.rng.next() as u8, c.rng.next() as u8);
            if v.cmp(&w) != (a, b).cmp(&(w.major, w.minor)) {
                return err(format!("{v} and {w} compare as {:?}", v.cmp(&w)));
            }
            c.count("versions checked", 1);
        }
        c.nontrivial(a as u64);
        Ok(())
    });
    ctx.cases("names and codes", 1, |c| {
        if Version::default() != Version::new(2, 0) || Version::V2_0 != Version::new(2, 0) || !Version::SUPPORTED.contains(&Version::V2_0) {
            return err("version 2.0 is not the default supported version");
        }
        for (cap, s) in [(Capability::Fragmentation, "fragmentation"), (Capability::Pipelining, "pipelining"), (Capability::Async, "async")] {
            if cap.to_string() != s {
                return err(format!("{cap:?} prints as {cap}"));
            }
            if s.parse::<Capability>() != Ok(cap) {
                return err(format!("{s} parses as {:?}", s.parse::<Capability>()));
            }
            c.count("capabilities checked", 1);
        }
        for bad in ["", "Async", "pipeline", "async ", "fragmentation,async"] {
            if let Ok(x) = bad.parse::<Capability>() {
                return err(format!("{bad:?} parses as {x:?}"));
            }
        }
        for n in 0..100_000u32 {
            let want = wire::STATUS_TABLE.iter().find(|x| x.1 == n).map(|x| x.0);
            let got = Error::try_from(n).ok();
            if got != want {
                return err(format!("status code {n} is {got:?}, expected {want:?}"));
            }
        }
        for (e, n) in wire::STATUS_TABLE {
            if u32::from(*e) != *n || *e as u32 != *n {
                return err(format!("{e:?} has code {}", u32::from(*e)));
            }
            for (f, t) in [(Frame::agent_disconnect(*e, "why"), 102u8), (Frame::haproxy_disconnect(*e, "why"), 2)] {
                let (Frame::AgentDisconnect(d) | Frame::HaproxyDisconnect(d)) = &f else {
                    return err(format!("{f:?}"));
                };
                if d.status_code != *n || d.message != "why" || f.frame_type() as u8 != t {
                    return err(format!("disconnect for {e:?} is {f:?}"));
                }
                if *d != Disconnect::new(*e, "why") {
                    return err("disconnect constructors differ");
                }
            }
            c.count("status codes checked", 1);
        }
        Ok(())
    });
    let n = ctx.n(8_000, 300_000);
    ctx.cases("constructors", n, |c| {
        let r = &mut c.rng;
        let msgs = gen::messages(r);
        let acts = gen::actions(r);
        let (sid, fid) = (gen::int(r), gen::fid(r));
        for m in &msgs {
            let a = Message::new(m.name.clone(), m.args.clone());
            let mut b = Message::builder(m.name.as_str());
            let cut = r.usize(m.args.len() + 1);
            for (k, v) in &m.args[..cut] {
                b = b.arg(k.as_str(), v.clone());
            }
            let b = b.args(m.args[cut..].iter().cloned()).build();
            if a != *m || b != *m {
                return err(format!("message {m:?} built as {a:?} and {b:?}"));
            }
        }
        for a in &acts {
            let b = match a {
                Action::SetVar { scope, name, value } => Action::set_var(*scope, name.as_str(), value.clone()),
                Action::UnsetVar { scope, name } => Action::unset_var(*scope, name.as_str()),
            };
            if b != *a {
                return err(format!("action {a:?} built as {b:?}"));
            }
        }
        let n = Frame::notify(sid, fid, msgs.clone());
        let want = HaproxyNotify {
            fragmented: false,
            stream_id: sid,
            frame_id: fid,
            messages: msgs.clone(),
        };
        if n != Frame::HaproxyNotify(want.clone()) || n != Frame::from(want.clone()) {
            return err(format!("notify built as {}", show(&n)));
        }
        let a = Frame::ack(sid, fid, acts.clone());
        let empty = AgentAck::new(sid, fid);
        let want_a = AgentAck {
            fragmented: false,
            aborted: false,
            stream_id: sid,
            frame_id: fid,
            actions: acts.clone(),
        };
        if a != Frame::AgentAck(want_a.clone()) || empty != (AgentAck { actions: vec![], ..want_a.clone() }) {
            return err(format!("ack built as {}", show(&a)));
        }
        // metadata of any frame, against the independent encoding
        let f = gen::frame(r);
        let p = wire::payload(&f);
        let t = f.frame_type() as u8;
        if t != p[0] {
            return err(format!("frame type {t}: {}", show(&f)));
        }
        match (&f, f.metadata()) {
            (Frame::HaproxyNotify(HaproxyNotify { fragmented, stream_id, frame_id, .. }), Some(m)) => {
                if m.fragmented() != *fragmented || m.is_final() == *fragmented || m.aborted() || m.stream_id != *stream_id || m.frame_id != *frame_id {
                    return err(format!("metadata {m:?} of {}", show(&f)));
                }
                if m.size() != 4 + wire::varint_len(*stream_id) + wire::varint_len(*frame_id) {
                    return err(format!("metadata size {} of {}", m.size(), show(&f)));
                }
                c.count("metadata checked", 1);
            }
            (Frame::AgentAck(AgentAck { fragmented, aborted, stream_id, frame_id, .. }), Some(m)) => {
                if m.fragmented() != *fragmented || m.is_final() == *fragmented || m.aborted() != *aborted || m.stream_id != *stream_id || m.frame_id != *frame_id {
                    return err(format!("metadata {m:?} of {}", show(&f)));
                }
                if m.size() != 4 + wire::varint_len(*stream_id) + wire::varint_len(*frame_id) {
                    return err(format!("metadata size {} of {}", m.size(), show(&f)));
                }
                c.count("metadata checked", 1);
            }
            (Frame::HaproxyNotify(_) | Frame::AgentAck(_), None) => return err(format!("no metadata: {}", show(&f))),
            _ => (),
        }
        c.count("constructed frames checked", 2);
        c.nontrivial(hash_bytes(&p));
        Ok(())
    });
    ctx.require("versions checked", 65_536);
    ctx.require("metadata checked", 1000);
}
