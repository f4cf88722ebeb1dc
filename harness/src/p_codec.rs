//! Messages and their encodings.
use crate::fw::*;
use crate::gen::{Gen, REPLIES, REQUESTS};
use chrono::{TimeZone, Utc};
use over_there::cli::format::{convert_text, format as to_text, FormatOption};
use over_there::core::{reply, Content, Header, Msg, Reply, ReplyError, Request};
use proptest::prelude::*;
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::io;

fn show<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 400)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    /// a reply, not a request
    reply: bool,
    kind: u8,
    seed: u64,
    depth: u8,
}
fn one() -> impl Strategy<Value = One> {
    (any::<bool>(), any::<u8>(), any::<u64>(), 0..4u8).prop_map(|(reply, kind, seed, depth)| One { reply, kind, seed, depth })
}
fn header(g: &mut Gen) -> Header {
    let secs = match g.r.gen_range(0, 4) {
        0 => g.r.gen_range(-62_135_596_800i64, 253_402_300_799),
        1 => g.r.gen_range(-10i64, 10),
        _ => g.r.gen_range(1_500_000_000i64, 2_000_000_000),
    };
    let nanos = [0, 1, 999_999_999, 1_000, 1_000_000, 120_000_000][g.r.gen_range(0, 6)];
    let nanos = if g.bool() { nanos } else { g.r.gen_range(0, 1_000_000_000) };
    Header { id: g.u32(), creation_date: Utc.timestamp(secs, nanos) }
}
fn content(c: &One, g: &mut Gen) -> Content {
    if c.reply {
        Content::Reply(g.reply_kind(c.kind, c.depth))
    } else {
        Content::Request(g.request_kind(c.kind, c.depth))
    }
}
fn name(c: &Content) -> String {
    let s = format!("{:?}", c);
    s.split(|x: char| x == '{' || x == ' ').next().unwrap_or("").to_string()
}
fn msg_of(c: &One) -> Msg {
    let mut g = Gen::new(c.seed);
    let header_ = header(&mut g);
    let parent_header = if g.bool() { Some(header(&mut g)) } else { None };
    Msg { header: header_, parent_header, content: content(c, &mut g) }
}
fn cbor(c: &One) -> Verdict {
    (|| -> R<Info> {
        let m = msg_of(c);
        let v = match m.to_vec() {
            Ok(v) => v,
            Err(e) => return bad("not-encoded", format!("{}: {:?}", show(&m), e)),
        };
        match Msg::from_slice(&v) {
            Ok(x) => ensure!(x == m, "altered", "{} came back as {}", show(&m), show(&x)),
            Err(e) => return bad("not-decoded", format!("{}: {:?}", show(&m), e)),
        }
        let again = m.to_vec().map_err(|e| Bad::Env(e.to_string()))?;
        ensure!(again == v, "unstable", "two encodings of {} differ", show(&m));
        // anything cut short is refused
        let mut g = Gen::new(c.seed ^ 1);
        let cut = g.r.gen_range(0, v.len());
        if let Ok(x) = Msg::from_slice(&v[..cut]) {
            return bad("short-accepted", format!("{} of {} bytes decode as {}", cut, v.len(), show(&x)));
        }
        Ok(Info::new().nt(v.len() > 90).class(name(&m.content)))
    })()
    .into()
}
/// Bytes that resemble a message
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mangled {
    one: One,
    edits: Vec<(u16, u8, u8)>,
    raw: Option<Vec<u8>>,
}
fn mangled(c: &Mangled) -> Verdict {
    (|| -> R<Info> {
        let mut v = match &c.raw {
            Some(r) => r.clone(),
            None => msg_of(&c.one).to_vec().map_err(|e| Bad::Env(e.to_string()))?,
        };
        for (at, what, x) in &c.edits {
            if v.is_empty() {
                break;
            }
            let k = *at as usize % v.len();
            match what % 5 {
                0 => v[k] = *x,
                1 => v.insert(k, *x),
                2 => {
                    v.remove(k);
                }
                3 => v[k] ^= 1 << (x % 8),
                _ => {
                    let n = *x as usize % 20;
                    let piece: Vec<u8> = v.iter().skip(k).take(n).cloned().collect();
                    for (i, b) in piece.into_iter().enumerate() {
                        v.insert(k + i, b);
                    }
                }
            }
        }
        match Msg::from_slice(&v) {
            Ok(m) => {
                let w = match m.to_vec() {
                    Ok(w) => w,
                    // (replies may hold what has no encoding only in Reply::Ignore, which cannot be decoded)
                    Err(e) => return bad("not-encoded", format!("{} was decoded but cannot be encoded: {:?}", show(&m), e)),
                };
                match Msg::from_slice(&w) {
                    Ok(x) => ensure!(x == m, "altered", "{} came back as {}", show(&m), show(&x)),
                    Err(e) => return bad("not-decoded", format!("{}: {:?}", show(&m), e)),
                }
                Ok(Info::new().nt(true).class("decoded"))
            }
            Err(_) => Ok(Info::new().nt(v.len() > 20).class("refused")),
        }
    })()
    .into()
}
/// The textual formats of the command line
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    one: One,
    sexpr: bool,
}
/// An S-expression says the same as some JSON
fn same(v: &lexpr::Value, j: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    let list = |v: &lexpr::Value| -> Option<Vec<lexpr::Value>> {
        match v {
            lexpr::Value::Null | lexpr::Value::Nil => Some(vec![]),
            v => v.to_vec(),
        }
    };
    match (v, j) {
        (lexpr::Value::Null, J::Null) | (lexpr::Value::Nil, J::Null) => true,
        (lexpr::Value::Bool(a), J::Bool(b)) => a == b,
        (lexpr::Value::Number(a), J::Number(b)) => a.as_i64() == b.as_i64() && a.as_u64() == b.as_u64(),
        (lexpr::Value::String(a), J::String(b)) | (lexpr::Value::Symbol(a), J::String(b)) => **a == **b,
        (v, J::Object(m)) => match list(v) {
            Some(l) => {
                l.len() == m.len()
                    && l.iter().all(|e| match e {
                        lexpr::Value::Cons(c) => match c.car() {
                            lexpr::Value::Symbol(k) | lexpr::Value::String(k) => m.get(&**k).map(|j| same(c.cdr(), j)).unwrap_or(false),
                            _ => false,
                        },
                        _ => false,
                    })
            }
            None => false,
        },
        (v, J::Array(a)) => match list(v) {
            Some(l) => l.len() == a.len() && l.iter().zip(a).all(|(v, j)| same(v, j)),
            None => false,
        },
        // an optional value that is there
        (v, j) => match v.to_vec() {
            Some(l) => l.len() == 1 && same(&l[0], j),
            None => false,
        },
    }
}
fn text(c: &Text) -> Verdict {
    (|| -> R<Info> {
        let f = if c.sexpr { FormatOption::Sexpression } else { FormatOption::Json };
        let mut g = Gen::new(c.one.seed);
        let x = content(&c.one, &mut g);
        let t = match to_text(f, x.clone(), |_| Err("human".into())) {
            Ok(t) => t,
            Err(e) => return bad("not-written", format!("{}: {}", show(&x), e)),
        };
        ensure!(!t.contains('\n'), "several-lines", "{} is written on several lines: {:?}", show(&x), clip(&t, 300));
        if c.sexpr {
            let v = match lexpr::from_str(&t) {
                Ok(v) => v,
                Err(e) => return bad("not-an-s-expression", format!("{} written as {}: {}", show(&x), clip(&t, 300), e)),
            };
            let j = serde_json::to_value(&x).map_err(|e| Bad::Env(e.to_string()))?;
            ensure!(same(&v, &j), "altered", "{} written as {} which is not the same as {}", show(&x), clip(&t, 300), clip(&j.to_string(), 300));
            return match convert_text::<Content>(f, &t) {
                Ok(y) => {
                    ensure!(y == x, "altered", "{} written as {} reads as {}", show(&x), clip(&t, 300), show(&y));
                    Ok(Info::new().nt(t.len() > 60).class("s-expression").class(name(&x)))
                }
                Err(e) if e.to_string().contains("invalid type: symbol") => bad("s-expressions-not-read", format!("{} written as {}: {}", show(&x), clip(&t, 300), e)),
                Err(e) => bad("not-read", format!("{} written as {}: {}", show(&x), clip(&t, 300), e)),
            };
        }
        match convert_text::<Content>(f, &t) {
            Ok(y) => ensure!(y == x, "altered", "{} written as {} reads as {}", show(&x), clip(&t, 300), show(&y)),
            Err(e) => return bad("not-read", format!("{} written as {}: {}", show(&x), clip(&t, 300), e)),
        }
        match &x {
            Content::Request(r) => match convert_text::<Request>(f, &t) {
                Ok(y) => ensure!(y == *r, "altered", "{} reads as {}", show(r), show(&y)),
                Err(e) => return bad("not-read", format!("{}: {}", show(r), e)),
            },
            Content::Reply(r) => match convert_text::<Reply>(f, &t) {
                Ok(y) => ensure!(y == *r, "altered", "{} reads as {}", show(r), show(&y)),
                Err(e) => return bad("not-read", format!("{}: {}", show(r), e)),
            },
        }
        Ok(Info::new().nt(t.len() > 60).class(if c.sexpr { "s-expression" } else { "json" }).class(name(&x)))
    })()
    .into()
}

/// Errors of the operating system and of this library's own
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IoErr {
    os: Option<i32>,
    kind: u8,
    text: String,
    prefix: Option<String>,
}
const KINDS: [io::ErrorKind; 18] = {
    use io::ErrorKind::*;
    [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof,
    ]
};
fn io_err(c: &IoErr) -> Verdict {
    (|| -> R<Info> {
        let make = || match c.os {
            Some(n) => io::Error::from_raw_os_error(n),
            None => io::Error::new(KINDS[c.kind as usize % 18], c.text.clone()),
        };
        let e = make();
        let args = match &c.prefix {
            Some(p) => reply::IoErrorArgs::from_error_with_prefix(make(), p),
            None => reply::IoErrorArgs::from(make()),
        };
        ensure!(args.description == format!("{}{}", c.prefix.clone().unwrap_or_default(), e), "description", "{:?} described as {:?}", e, args.description);
        ensure!(args.to_string() == args.description, "description", "{:?} shown as {:?}", args, args.to_string());
        let m = Msg::from(Reply::Error(ReplyError::Io(args)));
        let v = m.to_vec().map_err(|e| Bad::Env(e.to_string()))?;
        let back = match Msg::from_slice(&v) {
            Ok(Msg { content: Content::Reply(Reply::Error(ReplyError::Io(a))), .. }) => a,
            x => return bad("altered", format!("{} came back as {}", show(&m), show(&x))),
        };
        let y: io::Error = back.into();
        ensure!(y.kind() == e.kind(), "kind", "{:?} became {:?}", e, y);
        ensure!(y.raw_os_error() == e.raw_os_error(), "os-code", "{:?} became {:?}", e, y);
        if c.os.is_none() {
            ensure!(y.to_string() == format!("{}{}", c.prefix.clone().unwrap_or_default(), c.text), "description", "{:?} became {:?}", e, y);
        }
        Ok(Info::new().nt(true).class(format!("{:?}", e.kind())).class_if(c.os.is_some(), "os-code"))
    })()
    .into()
}
// ------------------------------------------------------------------ what a client reports
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Told {
    kind: u8,
    seed: u64,
    os: Option<i32>,
    io: u8,
    simple: bool,
    cbor: bool,
}
fn told() -> impl Strategy<Value = Told> {
    (any::<u8>(), any::<u64>(), prop::option::of(1..134i32), any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(kind, seed, os, io, simple, cbor)| Told { kind, seed, os, io, simple, cbor })
}
/// Written and read again
fn again<T: Serialize + for<'a> Deserialize<'a> + std::fmt::Debug>(x: &T, cbor: bool) -> R<T> {
    let bad_ = |e: String| Bad::Fail("not-kept".into(), format!("{}: {}", show(x), e));
    if cbor {
        let v = serde_cbor::to_vec(x).map_err(|e| bad_(e.to_string()))?;
        serde_cbor::from_slice(&v).map_err(|e| bad_(e.to_string()))
    } else {
        let v = serde_json::to_string(x).map_err(|e| bad_(e.to_string()))?;
        serde_json::from_str(&v).map_err(|e| bad_(e.to_string()))
    }
}
fn run_told(c: &Told) -> Verdict {
    use over_there::core::{AskError, FileAskError, SendError};
    (|| -> R<Info> {
        let mut g = Gen::new(c.seed);
        let ask = match c.kind % 6 {
            0 => AskError::Failure { msg: g.string() },
            1 => AskError::InvalidResponse { reply: g.reply(2) },
            2 => AskError::Timeout,
            3 => AskError::EncodingFailed,
            4 => AskError::SendFailed,
            _ => AskError::CallbackLost,
        };
        let back = again(&ask, c.cbor)?;
        ensure!(back == ask && back.to_string() == ask.to_string(), "altered", "{:?} became {:?}", ask, back);
        let send = if c.kind & 64 == 0 { SendError::EncodingFailed } else { SendError::SendFailed };
        let back = again(&send, c.cbor)?;
        ensure!(back == send, "altered", "{:?} became {:?}", send, back);
        let e = match (c.os, c.simple) {
            (Some(n), _) => io::Error::from_raw_os_error(n),
            (None, true) => io::Error::from(KINDS[c.io as usize % 18]),
            (None, false) => io::Error::new(KINDS[c.io as usize % 18], g.string()),
        };
        let (kind, os, text) = (e.kind(), e.raw_os_error(), e.to_string());
        match again(&FileAskError::IoError(e), c.cbor)? {
            FileAskError::IoError(y) => ensure!(y.kind() == kind && y.raw_os_error() == os && y.to_string() == text, "altered", "{:?} {:?} {:?} became {:?}", kind, os, text, y),
            x => return bad("altered", format!("an I/O error became {:?}", x)),
        }
        let id = g.u32();
        match again(&FileAskError::FileSignatureChanged { id }, c.cbor)? {
            FileAskError::FileSignatureChanged { id: i } if i == id => {}
            x => return bad("altered", format!("a changed signature of {} became {:?}", id, x)),
        }
        let shown = format!("{}", ask);
        match again(&FileAskError::GeneralAskFailed(ask), c.cbor)? {
            FileAskError::GeneralAskFailed(y) if y.to_string() == shown => {}
            x => return bad("altered", format!("{} became {:?}", shown, x)),
        }
        Ok(Info::new().nt(true).class(format!("{:?}", kind)).class_if(c.os.is_some(), "os-code"))
    })()
    .into()
}
pub fn c23() -> Check {
    let _ = (REQUESTS, REPLIES);
    Check {
        rule: "messages of every kind (29 requests, 31 replies, nested up to 3 levels, odd strings and bytes, header dates over 10000 years), mangled encodings, io errors of every kind and os code, the errors a client reports; non-trivial: an encoding over 90 bytes, a text over 60, a mangled one over 20 bytes or decodable. Oracle: what is decoded equals what was encoded; a truncated encoding is refused; what is decoded from mangled bytes encodes again and decodes the same.",
        assumptions: vec!["Reply::Ignore is never encoded"],
        legs: vec![
            leg("cbor", o(60_000, 2_000_000), one, cbor),
            leg("mangled", o(60_000, 2_000_000), || {
                (one(), prop::collection::vec((any::<u16>(), any::<u8>(), prop_oneof![any::<u8>(), 0x5b..=0x60u8, Just(0xffu8), 0xf4..=0xfbu8]), 1..5), prop::option::weighted(0.1, prop::collection::vec(any::<u8>(), 0..60))).prop_map(|(one, edits, raw)| Mangled { one, edits, raw })
            }, mangled),
            leg("text", o(60_000, 2_000_000), || (one(), any::<bool>()).prop_map(|(one, sexpr)| Text { one, sexpr }), text),
            leg("client-errors", o(20_000, 300_000), told, run_told),
            leg("io-errors", o(20_000, 300_000), || {
                (prop::option::of(1..134i32), any::<u8>(), any::<u64>(), prop::option::of(any::<u64>()))
                    .prop_map(|(os, kind, s, p)| IoErr { os, kind, text: Gen::new(s).string(), prefix: p.map(|p| Gen::new(p).string()) })
            }, io_err),
        ],
    }
}
