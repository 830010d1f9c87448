//! An SPOP 2.0 codec written from the specification (HAProxy doc/SPOE.txt), independent of the
//! code under test; only the plain data types are shared with it.

use std::net::{Ipv4Addr, Ipv6Addr};

use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Error, Frame, HaproxyHello,
    HaproxyNotify, Message, Scope, Typed, Version,
};

pub const T_UNSET: u8 = 0;
pub const T_HAPROXY_HELLO: u8 = 1;
pub const T_HAPROXY_DISCON: u8 = 2;
pub const T_HAPROXY_NOTIFY: u8 = 3;
pub const T_AGENT_HELLO: u8 = 101;
pub const T_AGENT_DISCON: u8 = 102;
pub const T_AGENT_ACK: u8 = 103;

pub const FIN: u32 = 1;
pub const ABORT: u32 = 2;

// ---------------------------------------------------------------- encoding

pub fn varint(out: &mut Vec<u8>, n: u64) {
    if n < 240 {
        out.push(n as u8);
        return;
    }
    // first byte carries 4 bits, each following one 7 bits of what is left
    out.push((n & 0x0f) as u8 | 0xf0);
    let mut rest = (n - 240) >> 4;
    loop {
        if rest < 128 {
            out.push(rest as u8);
            return;
        }
        out.push((rest & 0x7f) as u8 | 0x80);
        rest = (rest - 128) >> 7;
    }
}

pub fn varint_len(n: u64) -> usize {
    let mut v = vec![];
    varint(&mut v, n);
    v.len()
}

pub fn string(out: &mut Vec<u8>, s: &[u8]) {
    varint(out, s.len() as u64);
    out.extend_from_slice(s);
}

/// `flags`: the upper four bits of the type octet for kinds without their own flag.
pub fn typed_with(out: &mut Vec<u8>, v: &Typed, flags: u8) {
    let f = flags << 4;
    match v {
        Typed::Null => out.push(f),
        // for booleans the lowest flag is the value, the others are reserved
        Typed::Boolean(b) => out.push(1 | (f & 0xe0) | if *b { 0x10 } else { 0 }),
        Typed::Int32(n) => {
            out.push(2 | f);
            varint(out, *n as i64 as u64);
        }
        Typed::Uint32(n) => {
            out.push(3 | f);
            varint(out, *n as u64);
        }
        Typed::Int64(n) => {
            out.push(4 | f);
            varint(out, *n as u64);
        }
        Typed::Uint64(n) => {
            out.push(5 | f);
            varint(out, *n);
        }
        Typed::Ipv4(a) => {
            out.push(6 | f);
            out.extend_from_slice(&a.octets());
        }
        Typed::Ipv6(a) => {
            out.push(7 | f);
            out.extend_from_slice(&a.octets());
        }
        Typed::String(s) => {
            out.push(8 | f);
            string(out, s.as_bytes());
        }
        Typed::Binary(b) => {
            out.push(9 | f);
            string(out, b);
        }
    }
}

pub fn typed(out: &mut Vec<u8>, v: &Typed) {
    typed_with(out, v, 0)
}

pub fn kv(out: &mut Vec<u8>, k: &str, v: &Typed) {
    string(out, k.as_bytes());
    typed(out, v);
}

pub fn head(out: &mut Vec<u8>, ty: u8, flags: u32, sid: u64, fid: u64) {
    out.push(ty);
    out.extend_from_slice(&flags.to_be_bytes());
    varint(out, sid);
    varint(out, fid);
}

pub fn scope_code(s: Scope) -> u8 {
    match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    }
}

pub fn cap_name(c: &Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}

pub fn version_text(v: &Version) -> String {
    format!("{}.{}", v.major, v.minor)
}

pub fn message(out: &mut Vec<u8>, m: &Message) {
    string(out, m.name.as_bytes());
    out.push(m.args.len() as u8);
    for (k, v) in &m.args {
        kv(out, k, v);
    }
}

pub fn action(out: &mut Vec<u8>, a: &Action) {
    match a {
        Action::SetVar { scope, name, value } => {
            out.extend_from_slice(&[1, 3, scope_code(*scope)]);
            string(out, name.as_bytes());
            typed(out, value);
        }
        Action::UnsetVar { scope, name } => {
            out.extend_from_slice(&[2, 2, scope_code(*scope)]);
            string(out, name.as_bytes());
        }
    }
}

pub fn hello_items(h: &HaproxyHello) -> Vec<(String, Typed)> {
    let vs: Vec<String> = h.supported_versions.iter().map(version_text).collect();
    let cs: Vec<&str> = h.capabilities.iter().map(cap_name).collect();
    let mut v = vec![
        ("supported-versions".to_string(), Typed::String(vs.join(","))),
        ("max-frame-size".to_string(), Typed::Uint32(h.max_frame_size)),
        ("capabilities".to_string(), Typed::String(cs.join(","))),
    ];
    if let Some(b) = h.healthcheck {
        v.push(("healthcheck".to_string(), Typed::Boolean(b)));
    }
    if let Some(e) = &h.engine_id {
        v.push(("engine-id".to_string(), Typed::String(e.clone())));
    }
    v
}

pub fn agent_hello_items(h: &AgentHello) -> Vec<(String, Typed)> {
    let cs: Vec<&str> = h.capabilities.iter().map(cap_name).collect();
    vec![
        ("version".to_string(), Typed::String(version_text(&h.version))),
        ("max-frame-size".to_string(), Typed::Uint32(h.max_frame_size)),
        ("capabilities".to_string(), Typed::String(cs.join(","))),
    ]
}

pub fn disconnect_items(d: &Disconnect) -> Vec<(String, Typed)> {
    vec![
        ("status-code".to_string(), Typed::Uint32(d.status_code)),
        ("message".to_string(), Typed::String(d.message.clone())),
    ]
}

pub fn kv_frame(ty: u8, items: &[(String, Typed)]) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, ty, FIN, 0, 0);
    for (k, v) in items {
        kv(&mut o, k, v);
    }
    o
}

pub fn notify_frame(flags: u32, sid: u64, fid: u64, msgs: &[Message]) -> Vec<u8> {
    let mut o = vec![];
    head(&mut o, T_HAPROXY_NOTIFY, flags, sid, fid);
    for m in msgs {
        message(&mut o, m);
    }
    o
}

/// The payload (without the length prefix) of a frame.
pub fn payload(f: &Frame) -> Vec<u8> {
    match f {
        Frame::Unset => kv_frame(0, &[]),
        Frame::HaproxyHello(h) => kv_frame(T_HAPROXY_HELLO, &hello_items(h)),
        Frame::AgentHello(h) => kv_frame(T_AGENT_HELLO, &agent_hello_items(h)),
        Frame::HaproxyDisconnect(d) => kv_frame(T_HAPROXY_DISCON, &disconnect_items(d)),
        Frame::AgentDisconnect(d) => kv_frame(T_AGENT_DISCON, &disconnect_items(d)),
        Frame::HaproxyNotify(n) => notify_frame(
            if n.fragmented { 0 } else { FIN },
            n.stream_id,
            n.frame_id,
            &n.messages,
        ),
        Frame::AgentAck(a) => {
            let mut o = vec![];
            let fl = if a.fragmented { 0 } else { FIN } | if a.aborted { ABORT } else { 0 };
            head(&mut o, T_AGENT_ACK, fl, a.stream_id, a.frame_id);
            for x in &a.actions {
                action(&mut o, x);
            }
            o
        }
    }
}

pub fn framed(payload: &[u8]) -> Vec<u8> {
    let mut o = (payload.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(payload);
    o
}

pub fn wire(f: &Frame) -> Vec<u8> {
    framed(&payload(f))
}

// ---------------------------------------------------------------- strict decoding

#[derive(Debug, Clone)]
pub enum Verdict {
    /// Conformant, with these contents.
    Frame(Frame),
    /// Not conformant; the acceptable errors (empty: any error).
    Bad(Vec<Error>, &'static str),
    /// The specification and this repository leave the outcome open.
    Open(&'static str),
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub open: Option<&'static str>,
}

type D<T> = Result<T, &'static str>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, open: None }
    }
    fn u8(&mut self) -> D<u8> {
        let (x, r) = self.b.split_first().ok_or("truncated")?;
        self.b = r;
        Ok(*x)
    }
    fn take(&mut self, n: u64) -> D<&'a [u8]> {
        if n > self.b.len() as u64 {
            return Err("length beyond the end");
        }
        let (x, r) = self.b.split_at(n as usize);
        self.b = r;
        Ok(x)
    }
    pub fn varint(&mut self) -> D<u64> {
        let b0 = self.u8().map_err(|_| "truncated integer")?;
        let mut n = b0 as u128;
        if b0 < 240 {
            return Ok(b0 as u64);
        }
        let mut shift = 4;
        loop {
            let b = self.u8().map_err(|_| "truncated integer")?;
            n += (b as u128) << shift;
            shift += 7;
            if n > u64::MAX as u128 {
                return Err("integer out of range");
            }
            if b < 128 {
                return Ok(n as u64);
            }
            if shift > 70 {
                return Err("integer out of range");
            }
        }
    }
    pub fn string(&mut self) -> D<String> {
        let n = self.varint()?;
        let b = self.take(n)?;
        String::from_utf8(b.to_vec()).map_err(|_| "invalid text")
    }
    pub fn typed(&mut self) -> D<Typed> {
        let b = self.u8()?;
        let t = match b & 0x0f {
            0 => Typed::Null,
            1 => Typed::Boolean(b & 0x10 != 0),
            2 => {
                let n = self.varint()? as i64;
                match i32::try_from(n) {
                    Ok(n) => Typed::Int32(n),
                    Err(_) => {
                        self.open = Some("32-bit value out of range");
                        Typed::Int32(n as i32)
                    }
                }
            }
            3 => {
                let n = self.varint()?;
                match u32::try_from(n) {
                    Ok(n) => Typed::Uint32(n),
                    Err(_) => {
                        self.open = Some("32-bit value out of range");
                        Typed::Uint32(n as u32)
                    }
                }
            }
            4 => Typed::Int64(self.varint()? as i64),
            5 => Typed::Uint64(self.varint()?),
            6 => {
                let b: [u8; 4] = self.take(4)?.try_into().unwrap();
                Typed::Ipv4(Ipv4Addr::from(b))
            }
            7 => {
                let b: [u8; 16] = self.take(16)?.try_into().unwrap();
                Typed::Ipv6(Ipv6Addr::from(b))
            }
            8 => Typed::String(self.string()?),
            9 => {
                let n = self.varint()?;
                Typed::Binary(bytes::Bytes::copy_from_slice(self.take(n)?))
            }
            _ => return Err("reserved value type"),
        };
        Ok(t)
    }
    fn message(&mut self) -> D<Message> {
        let name = self.string()?;
        let nb = self.u8()?;
        let mut args = vec![];
        for _ in 0..nb {
            let k = self.string()?;
            args.push((k, self.typed()?));
        }
        Ok(Message { name, args })
    }
    fn action(&mut self) -> D<Action> {
        let ty = self.u8()?;
        let nb = self.u8()?;
        match (ty, nb) {
            (1, 3) | (2, 2) => (),
            (1, _) | (2, _) => return Err("wrong number of action arguments"),
            _ => return Err("unknown action"),
        }
        let scope = match self.u8()? {
            0 => Scope::Process,
            1 => Scope::Session,
            2 => Scope::Transaction,
            3 => Scope::Request,
            4 => Scope::Response,
            _ => return Err("unknown scope"),
        };
        let name = self.string()?;
        Ok(if ty == 1 {
            let value = self.typed()?;
            Action::SetVar { scope, name, value }
        } else {
            Action::UnsetVar { scope, name }
        })
    }
    fn items(&mut self) -> D<Vec<(String, Typed)>> {
        let mut v = vec![];
        while !self.b.is_empty() {
            let k = self.string()?;
            v.push((k, self.typed()?));
        }
        Ok(v)
    }
}

enum Lst<T> {
    Ok(Vec<T>),
    Bad,
    Open,
}

fn version_list(s: &str) -> Lst<Version> {
    let mut v = vec![];
    let mut open = false;
    for e in s.split(',') {
        let e = e.trim_matches([' ', '\t']);
        if e.bytes().any(|b| !(b.is_ascii_digit() || b == b'.')) {
            if e.bytes().any(|b| !(b.is_ascii_graphic())) || e.starts_with('+') || e.contains(".+") {
                open = true;
                continue;
            }
            return Lst::Bad;
        }
        let p: Vec<&str> = e.split('.').collect();
        if p.len() != 2 || p.iter().any(|x| x.is_empty()) {
            if e.is_empty() {
                open = true;
                continue;
            }
            return Lst::Bad;
        }
        match (p[0].parse::<u8>(), p[1].parse::<u8>()) {
            (Ok(a), Ok(b)) => {
                if version_text(&Version::new(a, b)) != e {
                    open = true; // leading zeros
                }
                v.push(Version::new(a, b));
            }
            _ => return Lst::Bad,
        }
    }
    if open {
        Lst::Open
    } else {
        Lst::Ok(v)
    }
}

fn cap_list(s: &str) -> Lst<Capability> {
    if s.is_empty() {
        return Lst::Ok(vec![]);
    }
    let mut v = vec![];
    for e in s.split(',') {
        match e.trim_matches([' ', '\t']) {
            "fragmentation" => v.push(Capability::Fragmentation),
            "pipelining" => v.push(Capability::Pipelining),
            "async" => v.push(Capability::Async),
            // "unknown capabilities are silently ignored"
            e if !e.is_empty() && e.bytes().all(|b| b.is_ascii_graphic()) => {}
            _ => return Lst::Open,
        }
    }
    Lst::Ok(v)
}

/// `Err(None)`: a value outside what the specification allows for this item.
fn int_item(v: Option<&Typed>) -> Result<u32, Option<&'static str>> {
    match v {
        Some(Typed::Int32(n)) if *n >= 0 => Ok(*n as u32),
        Some(Typed::Uint32(n)) => Ok(*n),
        Some(Typed::Int64(n)) if (0..=u32::MAX as i64).contains(n) => Ok(*n as u32),
        Some(Typed::Uint64(n)) if *n <= u32::MAX as u64 => Ok(*n as u32),
        Some(Typed::Int32(_) | Typed::Int64(_) | Typed::Uint64(_)) => Err(None),
        Some(_) => Err(Some("wrong type")),
        None => Err(Some("missing")),
    }
}

pub fn decode(payload: &[u8]) -> Verdict {
    use Verdict::*;
    let inv = vec![Error::Invalid];
    let mut d = Dec::new(payload);
    let ty = match d.u8() {
        Ok(t) => t,
        Err(e) => return Bad(inv, e),
    };
    let flags = match d.take(4) {
        Ok(b) => u32::from_be_bytes(b.try_into().unwrap()),
        Err(e) => return Bad(inv, e),
    };
    let (sid, fid) = match d.varint().and_then(|a| d.varint().map(|b| (a, b))) {
        Ok(x) => x,
        Err(e) => return Bad(inv, e),
    };
    match ty {
        T_HAPROXY_HELLO | T_AGENT_HELLO | T_HAPROXY_DISCON | T_AGENT_DISCON => {
            if sid != 0 || fid != 0 {
                return Bad(inv, "ids must be 0");
            }
        }
        T_HAPROXY_NOTIFY | T_AGENT_ACK => {
            if fid == 0 {
                return Bad(inv, "frame id must not be 0");
            }
        }
        T_UNSET => return Open("continuation frame"),
        _ => return Bad(inv, "unknown frame type"),
    }
    match ty {
        T_HAPROXY_NOTIFY => {
            let mut messages = vec![];
            while !d.b.is_empty() {
                match d.message() {
                    Ok(m) => messages.push(m),
                    Err(e) => return Bad(inv, e),
                }
            }
            if let Some(o) = d.open {
                return Open(o);
            }
            if flags & ABORT != 0 {
                return Open("aborted notify");
            }
            Frame(haproxy_spop::Frame::HaproxyNotify(HaproxyNotify {
                fragmented: flags & FIN == 0,
                stream_id: sid,
                frame_id: fid,
                messages,
            }))
        }
        T_AGENT_ACK => {
            let mut actions = vec![];
            while !d.b.is_empty() {
                match d.action() {
                    Ok(m) => actions.push(m),
                    Err(e) => return Bad(inv, e),
                }
            }
            if let Some(o) = d.open {
                return Open(o);
            }
            Frame(haproxy_spop::Frame::AgentAck(AgentAck {
                fragmented: flags & FIN == 0,
                aborted: flags & ABORT != 0,
                stream_id: sid,
                frame_id: fid,
                actions,
            }))
        }
        _ => {
            let items = match d.items() {
                Ok(i) => i,
                // a damaged hello may also lack items
                Err(e) => return Bad(vec![], e),
            };
            if d.open.is_some() {
                return Open("32-bit value out of range");
            }
            if flags & (FIN | ABORT) != FIN {
                return Open("hello or disconnect not final");
            }
            let known: &[&str] = match ty {
                T_HAPROXY_HELLO => &[
                    "supported-versions",
                    "max-frame-size",
                    "capabilities",
                    "healthcheck",
                    "engine-id",
                ],
                T_AGENT_HELLO => &["version", "max-frame-size", "capabilities"],
                _ => &["status-code", "message"],
            };
            for k in known {
                if items.iter().filter(|(n, _)| n == k).count() > 1 {
                    return Open("repeated item");
                }
            }
            let get = |k: &str| items.iter().find(|(n, _)| n == k).map(|(_, v)| v);
            let text = |k: &str| match get(k) {
                Some(Typed::String(s)) => Some(s.as_str()),
                _ => None,
            };
            if ty == T_HAPROXY_DISCON || ty == T_AGENT_DISCON {
                let (Ok(status_code), Some(message)) = (int_item(get("status-code")), text("message")) else {
                    return Open("disconnect items missing or odd");
                };
                let d = Disconnect {
                    status_code,
                    message: message.to_string(),
                };
                return Frame(if ty == T_HAPROXY_DISCON {
                    haproxy_spop::Frame::HaproxyDisconnect(d)
                } else {
                    haproxy_spop::Frame::AgentDisconnect(d)
                });
            }
            // everything that is wrong with this hello; each is an acceptable answer
            let mut bad: Vec<Error> = vec![];
            let mut why = "";
            let mut open = false;
            let vkey = if ty == T_HAPROXY_HELLO { "supported-versions" } else { "version" };
            let versions = match text(vkey) {
                None => {
                    bad.push(Error::NoVersion);
                    why = "version missing";
                    vec![]
                }
                Some(s) => match version_list(s) {
                    Lst::Ok(v) => {
                        if ty == T_AGENT_HELLO && (v.len() != 1 || s.contains([' ', '\t'])) {
                            open = true;
                        }
                        v
                    }
                    Lst::Open => {
                        open = true;
                        vec![]
                    }
                    Lst::Bad => {
                        bad.extend([Error::Invalid, Error::BadVersion, Error::NoVersion]);
                        why = "version malformed";
                        vec![]
                    }
                },
            };
            let max_frame_size = match int_item(get("max-frame-size")) {
                Ok(n) => n,
                Err(None) => {
                    open = true;
                    0
                }
                Err(Some(_)) => {
                    bad.push(Error::NoFrameSize);
                    why = "size missing";
                    0
                }
            };
            let capabilities = match text("capabilities") {
                None => {
                    bad.push(Error::NoCapabilities);
                    why = "capabilities missing";
                    vec![]
                }
                Some(s) => match cap_list(s) {
                    Lst::Ok(v) => v,
                    _ => {
                        open = true;
                        vec![]
                    }
                },
            };
            if !bad.is_empty() && !open {
                return Bad(bad, why);
            }
            if open {
                return Open("hello item outside the specification");
            }
            if ty == T_AGENT_HELLO {
                return Frame(haproxy_spop::Frame::AgentHello(AgentHello {
                    version: versions[0],
                    max_frame_size,
                    capabilities,
                }));
            }
            let healthcheck = match get("healthcheck") {
                None => None,
                Some(Typed::Boolean(b)) => Some(*b),
                Some(_) => return Open("healthcheck of another type"),
            };
            let engine_id = match get("engine-id") {
                None => None,
                Some(Typed::String(s)) => Some(s.clone()),
                Some(_) => return Open("engine-id of another type"),
            };
            Frame(haproxy_spop::Frame::HaproxyHello(HaproxyHello {
                supported_versions: versions,
                max_frame_size,
                capabilities,
                healthcheck,
                engine_id,
            }))
        }
    }
}

/// Splits a byte stream in payloads; the rest is what is left of an unfinished frame.
pub fn split(mut b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = vec![];
    while b.len() >= 4 {
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        if b.len() - 4 < n {
            break;
        }
        v.push(&b[4..4 + n]);
        b = &b[4 + n..];
    }
    (v, b)
}

pub const STATUS_TABLE: &[(Error, u32)] = &[
    (Error::Normal, 0),
    (Error::Io, 1),
    (Error::Timeout, 2),
    (Error::TooBig, 3),
    (Error::Invalid, 4),
    (Error::NoVersion, 5),
    (Error::NoFrameSize, 6),
    (Error::NoCapabilities, 7),
    (Error::BadVersion, 8),
    (Error::BadFrameSize, 9),
    (Error::FragmentNotSupported, 10),
    (Error::InterlacedFrames, 11),
    (Error::FrameIdNotFound, 12),
    (Error::ResourceAllocErr, 13),
    (Error::Unknown, 99),
];
