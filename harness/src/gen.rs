//! Generators.

use std::net::{Ipv4Addr, Ipv6Addr};

use bytes::Bytes;
use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};

use crate::core::Rng;

pub const BOUNDS: &[u64] = &[
    0,
    239,
    240,
    2287,
    2288,
    264_431,
    264_432,
    33_818_863,
    33_818_864,
    0x1_0204_08ef,
    0x1_0204_08f0,
    0x81_0204_08ef,
    0x81_0204_08f0,
    0x4081_0204_08ef,
    0x4081_0204_08f0,
    0x20_4081_0204_08ef,
    0x20_4081_0204_08f0,
    0x1020_4081_0204_08ef,
    0x1020_4081_0204_08f0,
    u64::MAX,
];

pub fn int(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(300),
        1 => {
            let b = *r.pick(BOUNDS);
            match r.below(3) {
                0 => b,
                1 => b.wrapping_add(r.below(3)),
                _ => b.wrapping_sub(r.below(3)),
            }
        }
        2 => 1u64 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        4 => r.next() >> r.below(64),
        _ => r.next(),
    }
}

/// A number of any magnitude, of either sign.
pub fn signed(r: &mut Rng, bits: u32) -> i64 {
    let n = (r.next() >> (64 - bits) >> r.below(bits as u64)) as i64;
    let n = if r.chance(50) { n.wrapping_neg() } else { n };
    if r.chance(30) {
        // around a power of two
        let k = 1i64 << r.below(bits as u64);
        let k = if r.chance(50) { k.wrapping_neg() } else { k };
        return k.wrapping_add(r.below(5) as i64 - 2);
    }
    n
}

/// An integer exactly at the beginning or end of a varint size class.
pub fn len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(20) {
        0 => 239,
        1 => 240,
        2 => 241,
        3 => 255,
        4 => 256,
        5 => 2287,
        6 => 2288,
        7 => r.usize(4000),
        8..=10 => r.usize(300),
        11 => 0,
        _ => r.usize(16),
    };
    n.min(max)
}

const CHARS: &[char] = &['a', 'z', 'A', '_', '-', '.', '0', ' ', ',', '\0', '\n', '"', 'é', 'ß', '中', '🦀', '\u{7f}', '\u{80}', '\u{ffff}'];

pub fn text(r: &mut Rng, max: usize) -> String {
    let n = len(r, max);
    let mut s = String::with_capacity(n + 4);
    let ascii = r.chance(60);
    while s.len() < n {
        let c = if ascii { (b'a' + r.below(26) as u8) as char } else { *r.pick(CHARS) };
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}

pub fn name(r: &mut Rng) -> String {
    if r.chance(4) {
        text(r, 3000)
    } else {
        text(r, 12)
    }
}

pub fn typed(r: &mut Rng, max: usize) -> Typed {
    match r.below(10) {
        0 => Typed::Null,
        1 => Typed::Boolean(r.chance(50)),
        2 => Typed::Int32(match r.below(4) {
            0 => *r.pick(&[0, -1, 1, i32::MIN, i32::MAX, 239, 240, 2287, 2288, -240]),
            1 => int(r) as i32,
            2 => signed(r, 32) as i32,
            _ => r.next() as i32,
        }),
        3 => Typed::Uint32(match r.below(3) {
            0 => *r.pick(&[0, 1, u32::MAX, 239, 240, 2287, 2288, 264_431, 264_432]),
            _ => int(r) as u32,
        }),
        4 => Typed::Int64(match r.below(4) {
            0 => *r.pick(&[0, -1, i64::MIN, i64::MAX, 240, -240]),
            1 => signed(r, 64),
            2 => signed(r, 34),
            _ => int(r) as i64,
        }),
        5 => Typed::Uint64(int(r)),
        6 => Typed::Ipv4(Ipv4Addr::from(r.next() as u32)),
        7 => Typed::Ipv6(Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128)),
        8 => Typed::String(text(r, max)),
        _ => {
            let n = len(r, max);
            Typed::Binary(Bytes::from(r.bytes(n)))
        }
    }
}

pub fn message(r: &mut Rng) -> Message {
    let n = match r.below(40) {
        0 => 255,
        1 => 254,
        2 => 128,
        3 => 127,
        4..=9 => 0,
        _ => r.usize(6),
    };
    let big = n < 10;
    Message {
        name: name(r),
        args: (0..n)
            .map(|_| {
                let k = if big { name(r) } else { text(r, 4) };
                (k, typed(r, if big { 3000 } else { 6 }))
            })
            .collect(),
    }
}

pub fn messages(r: &mut Rng) -> Vec<Message> {
    let n = match r.below(20) {
        0 => 0,
        1 => r.usize(40),
        _ => 1 + r.usize(3),
    };
    (0..n).map(|_| message(r)).collect()
}

pub const SCOPES: &[Scope] = &[
    Scope::Process,
    Scope::Session,
    Scope::Transaction,
    Scope::Request,
    Scope::Response,
];

pub const CAPS: &[Capability] = &[
    Capability::Fragmentation,
    Capability::Pipelining,
    Capability::Async,
];

pub fn action(r: &mut Rng) -> Action {
    let scope = *r.pick(SCOPES);
    if r.chance(70) {
        Action::SetVar {
            scope,
            name: name(r),
            value: typed(r, 3000),
        }
    } else {
        Action::UnsetVar { scope, name: name(r) }
    }
}

pub fn actions(r: &mut Rng) -> Vec<Action> {
    let n = match r.below(20) {
        0..=2 => 0,
        3 => r.usize(300),
        _ => 1 + r.usize(4),
    };
    if n > 20 {
        // keep it small
        (0..n)
            .map(|_| Action::UnsetVar {
                scope: *r.pick(SCOPES),
                name: text(r, 5),
            })
            .collect()
    } else {
        (0..n).map(|_| action(r)).collect()
    }
}

pub fn fid(r: &mut Rng) -> u64 {
    int(r).max(1)
}

pub fn version(r: &mut Rng) -> Version {
    match r.below(4) {
        0 => Version::V2_0,
        1 => Version::new(r.next() as u8, r.next() as u8),
        _ => Version::new(r.below(4) as u8, r.below(12) as u8),
    }
}

pub fn caps(r: &mut Rng) -> Vec<Capability> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.usize(8),
        _ => r.usize(4),
    };
    (0..n).map(|_| *r.pick(CAPS)).collect()
}

pub fn size(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 256, 16380, 16384, u32::MAX, u32::MAX - 1, 239, 240]),
        1 => r.below(20000) as u32,
        _ => int(r) as u32,
    }
}

pub fn hello(r: &mut Rng) -> HaproxyHello {
    let nv = if r.chance(10) { 1 + r.usize(30) } else { 1 + r.usize(3) };
    HaproxyHello {
        supported_versions: (0..nv).map(|_| version(r)).collect(),
        max_frame_size: size(r),
        capabilities: caps(r),
        healthcheck: match r.below(3) {
            0 => None,
            1 => Some(true),
            _ => Some(false),
        },
        engine_id: r.chance(60).then(|| text(r, 3000)),
    }
}

pub fn disconnect(r: &mut Rng) -> Disconnect {
    Disconnect {
        status_code: if r.chance(60) { r.below(15) as u32 } else { size(r) },
        message: text(r, 3000),
    }
}

pub fn notify(r: &mut Rng) -> HaproxyNotify {
    HaproxyNotify {
        fragmented: r.chance(30),
        stream_id: int(r),
        frame_id: fid(r),
        messages: messages(r),
    }
}

/// Any frame that both ends can exchange.
pub fn frame(r: &mut Rng) -> Frame {
    match r.below(10) {
        0 => Frame::HaproxyHello(hello(r)),
        1 => Frame::AgentHello(AgentHello {
            version: version(r),
            max_frame_size: size(r),
            capabilities: caps(r),
        }),
        2 => Frame::HaproxyDisconnect(disconnect(r)),
        3 => Frame::AgentDisconnect(disconnect(r)),
        4..=6 => Frame::HaproxyNotify(notify(r)),
        _ => Frame::AgentAck(AgentAck {
            fragmented: r.chance(30),
            aborted: r.chance(30),
            stream_id: int(r),
            frame_id: fid(r),
            actions: actions(r),
        }),
    }
}

pub fn small_message(r: &mut Rng, token: u64) -> Message {
    let mut args = vec![("tok".to_string(), Typed::Uint64(token))];
    for _ in 0..r.usize(4) {
        args.push((text(r, 8), typed(r, 40)));
    }
    Message {
        name: text(r, 10),
        args,
    }
}

pub fn small_action(r: &mut Rng) -> Action {
    let scope = *r.pick(SCOPES);
    if r.chance(70) {
        Action::SetVar {
            scope,
            name: text(r, 10),
            value: typed(r, 40),
        }
    } else {
        Action::UnsetVar { scope, name: text(r, 10) }
    }
}

/// How many, when there are very many: around the limits someone may have in mind.
pub fn crowd(r: &mut Rng) -> usize {
    let k = *r.pick(&[0usize, 3, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_768, 65_536, 70_000]);
    (k + r.usize(3)).saturating_sub(1)
}

pub fn tiny_message(r: &mut Rng, token: u64) -> Message {
    Message { name: String::new(), args: if r.chance(40) { vec![("t".into(), Typed::Uint64(token))] } else { vec![] } }
}

pub fn tiny_action(r: &mut Rng, i: usize) -> Action {
    Action::unset_var(SCOPES[i % SCOPES.len()], if r.chance(30) { format!("v{i}") } else { String::new() })
}

/// Sizes at which a length is likely to be cut off, or its encoding to grow.
pub const BIG: &[usize] = &[
    4_095, 4_096, 16_383, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 65_775, 65_776, 131_071, 131_072, 264_430, 264_431, 264_432, 264_433,
    300_000, 524_288, 1_048_575, 1_048_576,
];

pub fn big_len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 | 1 => *r.pick(BIG),
        2 => r.usize(120_000),
        _ => (*r.pick(BIG) as i64 + r.below(7) as i64 - 3) as usize,
    }
}

pub fn long(r: &mut Rng, n: usize) -> String {
    let a = r.below(26) as usize;
    (0..n).map(|i| (b'a' + ((i * 7 + i / 26 + a) % 26) as u8) as char).collect()
}

/// A frame with one thing that is very long, of `n` bytes or elements.
pub fn big_frame_of(r: &mut Rng, n: usize) -> Frame {
    let (sid, f) = (int(r), fid(r));
    let few = n.min(140_000);
    match r.below(11) {
        0 => Frame::notify(sid, f, [Message::new("m", [("a", Typed::String(long(r, n))), ("z", Typed::Uint32(7))]), Message::new("next", [("b", true)])]),
        1 => Frame::notify(sid, f, [Message::new("m", [("a", Typed::Binary(Bytes::from(long(r, n).into_bytes()))), ("z", Typed::Null)])]),
        2 => Frame::notify(sid, f, [Message::new(long(r, n), [("b", 5u32)]), small_message(r, 9)]),
        3 => Frame::notify(sid, f, [Message::new("m", [(long(r, n), Typed::Int32(-1)), ("z".into(), Typed::Null)])]),
        4 => Frame::ack(sid, f, [Action::set_var(Scope::Request, "v", Typed::String(long(r, n))), Action::unset_var(Scope::Session, "w")]),
        5 => Frame::ack(sid, f, [Action::set_var(Scope::Response, long(r, n), Typed::Uint64(3)), Action::unset_var(Scope::Process, long(r, n))]),
        6 => Frame::AgentDisconnect(Disconnect { status_code: r.below(15) as u32, message: long(r, n) }),
        7 => Frame::HaproxyDisconnect(Disconnect { status_code: r.below(15) as u32, message: long(r, n) }),
        8 => {
            let mut h = hello(r);
            h.engine_id = Some(long(r, n));
            Frame::HaproxyHello(h)
        }
        // very many small things
        9 => Frame::notify(sid, f, (0..few / 3).map(|i| Message { name: "".into(), args: if i % 1000 == 7 { vec![("k".into(), Typed::Uint32(i as u32))] } else { vec![] } })),
        _ => Frame::ack(sid, f, (0..few / 4).map(|i| Action::unset_var(SCOPES[i % 5], if i % 900 == 3 { format!("n{i}") } else { String::new() }))),
    }
}

/// A payload with as many small elements as fit in `n` bytes, which may be well-formed or not.
pub fn crowded(r: &mut Rng, n: usize) -> Vec<u8> {
    use crate::wire::*;
    let mut p = vec![];
    let ty = *r.pick(&[3u8, 3, 103, 1, 101, 2, 102]);
    let (a, b) = if ty == 3 || ty == 103 { (int(r), fid(r)) } else { (0, 0) };
    head(&mut p, ty, *r.pick(&[0u32, 1, 1, 3]), a, b);
    match ty {
        3 => {
            let args = *r.pick(&[0usize, 0, 1, 2, 255]);
            let mut one = vec![];
            varint(&mut one, r.chance(50) as u64);
            if one[0] == 1 {
                one.push(b'm');
            }
            one.push(args as u8);
            for _ in 0..args {
                one.extend_from_slice(&[0, *r.pick(&[0u8, 1, 0x11])]);
            }
            // names all different: of the messages, or of their arguments
            if r.chance(40) {
                let mut i = 0u64;
                while p.len() + 16 + args * 12 <= n {
                    string(&mut p, format!("{i:x}").as_bytes());
                    p.push(args as u8);
                    for k in 0..args as u64 {
                        string(&mut p, format!("{:x}", i * 255 + k).as_bytes());
                        p.push(0);
                    }
                    i += 1;
                }
            }
            while p.len() + one.len() <= n {
                p.extend_from_slice(&one);
            }
        }
        103 if r.chance(40) => {
            let set = r.chance(50);
            let mut i = 0u64;
            while p.len() + 16 <= n {
                p.extend_from_slice(if set { &[1, 3, 2] } else { &[2, 2, 2] });
                string(&mut p, format!("{i:x}").as_bytes());
                if set {
                    p.push(0);
                }
                i += 1;
            }
        }
        103 => {
            let one: &[u8] = if r.chance(50) { &[2, 2, 1, 0] } else { &[1, 3, 4, 1, b'v', 0] };
            while p.len() + one.len() <= n {
                p.extend_from_slice(one);
            }
        }
        _ => match r.below(3) {
            // items, all different or all the same
            0 => {
                let same = r.chance(50);
                let mut i = 0u64;
                while p.len() + 12 <= n {
                    let k = if same { "k".to_string() } else { format!("{i:x}") };
                    varint(&mut p, k.len() as u64);
                    p.extend_from_slice(k.as_bytes());
                    p.push(0);
                    i += 1;
                }
            }
            // a long list of versions or capabilities
            k => {
                let (name, one) = if k == 1 { ("supported-versions", "2.0,") } else { ("capabilities", *r.pick(&[",", "async,", " ,", "fragmentation , "])) };
                let mut v = one.repeat(n.saturating_sub(60) / one.len());
                v.push_str(if k == 1 { "2.0" } else { "" });
                let mut items = vec![(name.to_string(), Typed::String(v)), ("max-frame-size".to_string(), Typed::Uint32(16384))];
                if k == 1 {
                    items.push(("capabilities".into(), Typed::String(String::new())));
                } else {
                    items.push(("supported-versions".into(), Typed::String("2.0".into())));
                }
                r.shuffle(&mut items);
                p = kv_frame(ty, &items);
            }
        },
    }
    p
}

pub fn big_frame(r: &mut Rng) -> Frame {
    let n = big_len(r);
    big_frame_of(r, n)
}
