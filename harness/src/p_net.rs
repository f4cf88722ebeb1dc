//! The transport seen end to end: TCP segmentation, replies reaching the right asker, disconnects,
//! and a live server under hostile input.
use crate::e2e::*;
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{reply, request, AskError, Content, Header, Msg, Reply, ReplyError, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Message body: `kind` as the custom handler understands it, then the index, then filling
pub fn body(kind: u8, i: usize, len: usize, seed: u64) -> Vec<u8> {
    let mut v = vec![kind, 0, 0, 0, seed as u8, i as u8, (i >> 8) as u8, 0xAA];
    v.extend(bytes(seed, len));
    v
}
pub fn answer_of(data: &[u8]) -> Reply {
    match custom_answer(data) {
        Ok(data) => Reply::Custom(reply::CustomArgs { data }),
        Err(e) => Reply::Error(ReplyError::Generic(reply::GenericErrorArgs { msg: e })),
    }
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 300)
}

/// Sends one request and wants its answer
pub fn exchange(r: &mut Raw, i: usize, tag: u64) -> R<()> {
    let d = body(0, i, 20, tag);
    let m = custom_msg(d.clone());
    r.send(&m)?;
    want(r, &m, &d, "exchange")
}
fn want(r: &mut Raw, m: &Msg, d: &[u8], what: &str) -> R<()> {
    match r.recv(PATIENCE)? {
        Got::Msg(x) => {
            ensure!(
                x.parent_header.as_ref().map(|h| h.id) == Some(m.header.id),
                "wrong-parent",
                "{}: expected the reply to {} but got {}",
                what,
                m.header.id,
                short(&x)
            );
            ensure!(x.parent_header.as_ref() == Some(&m.header), "altered-header", "{}: the reply's parent header {:?} is not that of the request {:?}", what, x.parent_header, m.header);
            ensure!(x.content == Content::Reply(answer_of(d)), "wrong-reply", "{}: reply content differs: {}", what, short(&x.content));
            Ok(())
        }
        g => lost("no-reply", format!("{}: no reply: {:?}", what, g)),
    }
}

/// The same, past replies to what an attacker sent from this socket
fn want_among(r: &mut Raw, m: &Msg, d: &[u8], what: &str) -> R<()> {
    for _ in 0..200 {
        match r.recv(PATIENCE)? {
            Got::Msg(x) if x.parent_header.as_ref() != Some(&m.header) => continue,
            Got::Msg(x) => {
                ensure!(x.content == Content::Reply(answer_of(d)), "wrong-reply", "{}: reply content differs: {}", what, short(&x.content));
                return Ok(());
            }
            g => return lost("no-reply", format!("{}: no reply: {:?}", what, g)),
        }
    }
    env("too many other replies")
}

// ------------------------------------------------------------------ C09
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    keys: Keys,
    /// (handler kind, length, seed)
    msgs: Vec<(bool, usize, u64)>,
    /// sizes of the successive writes, cycled
    cuts: Vec<u16>,
    /// after every so many writes, pause
    pause_every: u16,
    pause_us: u16,
    /// the server's queue length, when not the usual
    #[serde(default)]
    buffer: Option<usize>,
    /// one message in so many takes the handler a while
    #[serde(default)]
    slow: u8,
    /// requests sent over other connections at the same time
    #[serde(default)]
    others: Vec<u8>,
}
fn cuts() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        2 => prop::collection::vec(1..2000u16, 1..30),
        2 => prop::collection::vec(prop_oneof![1..40u16, 1400..1600u16, Just(1500), Just(1499), Just(1501), Just(3000)], 1..12),
        1 => Just(vec![60000u16]),
        1 => prop::collection::vec(1..20u16, 1..6),
    ]
    .boxed()
}
fn len_any(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![4 => 0..200usize, 3 => 200..3000usize, 1 => 0..max].boxed()
}
fn seg() -> impl Strategy<Value = Seg> {
    (
        keys_any(),
        prop::collection::vec((prop::bool::weighted(0.2), len_any(30_000), any::<u64>()), 1..12),
        cuts(),
        1..20u16,
        0..3000u16,
    )
        .prop_map(|(keys, msgs, cuts, pause_every, pause_us)| Seg { keys, msgs, cuts, pause_every, pause_us, buffer: None, slow: 0, others: vec![] })
}
/// More requests at once than the server has room for in its queues
fn burst() -> impl Strategy<Value = Seg> {
    (
        keys_any(),
        prop::collection::vec((Just(false), prop_oneof![6 => 0..200usize, 1 => 0..5000usize], any::<u64>()), 10..120),
        cuts(),
        1..9usize,
        1..8u8,
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(1..50u8, 1..7)],
    )
        .prop_map(|(keys, msgs, cuts, buffer, slow, others)| {
            let cuts = cuts.iter().map(|c| c.saturating_mul(10)).collect();
            Seg { keys, msgs, cuts, pause_every: 1000, pause_us: 0, buffer: Some(buffer), slow, others }
        })
}
fn server(s: &Seg) -> R<Srv> {
    let b = s.buffer;
    Srv::with(SrvOpts::new(Net::Tcp, &s.keys).tweak(move |x| {
        if let Some(n) = b {
            x.buffer(n);
        }
    }))
}
/// Sizes a stream is written in; the plan is stretched when it would take too many writes
fn pieces(total: usize, cuts: &[u16]) -> Vec<usize> {
    let avg = cuts.iter().map(|c| *c as usize).sum::<usize>() / cuts.len().max(1);
    let k = 1 + total / (avg.max(1) * 1500);
    let mut v = vec![];
    let mut left = total;
    let mut i = 0;
    while left > 0 {
        let c = (cuts[i % cuts.len()] as usize * k).max(1).min(left);
        v.push(c);
        left -= c;
        i += 1;
    }
    v
}
fn bodies(s: &Seg) -> Vec<Vec<u8>> {
    s.msgs
        .iter()
        .enumerate()
        .map(|(i, (big, len, seed))| {
            let mut b = body(if *big { 2 } else { 0 }, i, *len, *seed);
            if *big {
                b[1] = *seed as u8;
                b[2] = (*seed >> 8) as u8 & 0x3f;
            } else if s.slow > 0 && i % s.slow as usize == 0 {
                b[0] = 3;
                b[1] = (*seed % 12) as u8;
            }
            b
        })
        .collect()
}
fn seg_raw(s: &Seg) -> Verdict {
    (|| -> R<Info> {
        let srv = server(s)?;
        let mut c = Raw::connect(Net::Tcp, &s.keys, srv.addr)?;
        let ds = bodies(s);
        let mut ms = vec![];
        let mut stream = vec![];
        let mut npk = 0;
        for d in &ds {
            let m = custom_msg(d.clone());
            for p in c.packets(&m)? {
                npk += 1;
                stream.extend(p);
            }
            ms.push(m);
        }
        let mut others = vec![];
        for (k, n) in s.others.iter().enumerate() {
            let mut r = Raw::connect(Net::Tcp, &s.keys, srv.addr)?;
            let mut all = vec![];
            let mut sent = vec![];
            for j in 0..*n as usize {
                let mut d = body(if j % 4 == 0 { 3 } else { 0 }, 2000 * (k + 1) + j, 30, j as u64);
                d[1] = 3;
                let m = custom_msg(d.clone());
                for p in r.packets(&m)? {
                    all.extend(p);
                }
                sent.push((m, d));
            }
            others.push((r, all, sent));
        }
        for (r, all, _) in &mut others {
            if r.send_bytes(all).is_err() {
                return bad("connection-closed", "the server closed a connection requests are sent over");
            }
        }
        let pcs = pieces(stream.len(), &s.cuts);
        let mut at = 0;
        for (i, n) in pcs.iter().enumerate() {
            if c.send_bytes(&stream[at..at + n]).is_err() {
                return bad("connection-closed", format!("the server closed the connection after {} of {} bytes", at, stream.len()));
            }
            at += n;
            if i < 300 && i as u16 % s.pause_every == 0 {
                std::thread::sleep(Duration::from_micros(s.pause_us as u64));
            }
        }
        for (i, m) in ms.iter().enumerate() {
            want(&mut c, m, &ds[i], &format!("message {} of {} ({} packets in {} writes)", i, ms.len(), npk, pcs.len()))?;
        }
        for (k, (r, _, sent)) in others.iter_mut().enumerate() {
            for (j, (m, d)) in sent.iter().enumerate() {
                want(r, m, d, &format!("connection {}: message {}", k + 2, j))?;
            }
            exchange(r, 2000 * (k + 1) + sent.len(), 8)?;
        }
        // nothing twice: the very next thing is the answer to a last question
        exchange(&mut c, 60_000, 7)?;
        let mut log = srv.log();
        for (k, (_, _, sent)) in others.iter().enumerate() {
            let (mine, rest): (Vec<_>, Vec<_>) = log.into_iter().partition(|d| (d[5] as usize | (d[6] as usize) << 8) / 2000 == k + 1);
            ensure!(mine.len() == sent.len() + 1, "handled-count", "connection {}: {} requests were handled, {} were sent", k + 2, mine.len(), sent.len() + 1);
            ensure!(mine.iter().zip(sent).all(|(a, (_, b))| a == b), "handled-order", "connection {}: requests were handled in an order or with contents that differ from those sent", k + 2);
            log = rest;
        }
        ensure!(log.len() == ds.len() + 1, "handled-count", "{} requests were handled, {} were sent", log.len(), ds.len() + 1);
        ensure!(log[..ds.len()] == ds[..], "handled-order", "requests were handled in an order or with contents that differ from those sent");
        Ok(Info::new().nt(pcs.len() > 1 || npk > 1).class(s.keys.crypt.kind.name()).class_if(npk > 1 && pcs.len() < npk, "merged").class_if(pcs.len() > npk, "split").class_if(!s.others.is_empty(), "several-connections").class_if(s.buffer.is_some() && ms.len() > 4 * s.buffer.unwrap(), "over-4-times-the-queue"))
    })()
    .into()
}

/// Copies between two sockets, re-cutting the stream
fn pump(mut a: TcpStream, mut b: TcpStream, cuts: Vec<u16>, pause_us: u64, stop: Arc<AtomicBool>) {
    let _ = a.set_read_timeout(Some(Duration::from_millis(2)));
    let mut buf = vec![0u8; 65536];
    let mut held: Vec<u8> = vec![];
    let mut i = 0;
    let mut writes = 0u64;
    loop {
        if stop.load(Ordering::SeqCst) {
            return;
        }
        let idle = match a.read(&mut buf) {
            Ok(0) => {
                let _ = b.write_all(&held);
                let _ = b.shutdown(Shutdown::Write);
                return;
            }
            Ok(n) => {
                held.extend_from_slice(&buf[..n]);
                false
            }
            Err(_) => true,
        };
        // hold back less than a whole piece until the sender goes quiet
        loop {
            let c = cuts[i % cuts.len()].max(1) as usize * (1 + writes as usize / 2000);
            if held.len() < c && !(idle && !held.is_empty()) {
                break;
            }
            let n = c.min(held.len());
            if b.write_all(&held[..n]).is_err() {
                return;
            }
            held.drain(..n);
            i += 1;
            writes += 1;
            if pause_us > 0 && writes < 300 {
                std::thread::sleep(Duration::from_micros(pause_us));
            }
        }
    }
}
fn seg_proxy(s: &Seg) -> Verdict {
    (|| -> R<Info> {
        let srv = Srv::start(Net::Tcp, &s.keys)?;
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let paddr = l.local_addr().unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let (st, cuts, back, pause, target) =
            (Arc::clone(&stop), s.cuts.clone(), s.cuts.iter().rev().cloned().collect::<Vec<_>>(), s.pause_us as u64 / 10, srv.addr);
        let h = std::thread::spawn(move || {
            if let Ok((a, _)) = l.accept() {
                if let Ok(b) = TcpStream::connect(target) {
                    let _ = a.set_nodelay(true);
                    let _ = b.set_nodelay(true);
                    let (a2, b2, st2) = (a.try_clone().unwrap(), b.try_clone().unwrap(), Arc::clone(&st));
                    let t = std::thread::spawn(move || pump(b2, a2, back, pause, st2));
                    pump(a, b, cuts, pause, st);
                    let _ = t.join();
                }
            }
        });
        let r = (|| -> R<Info> {
            let mut rt = local_runtime();
            let mut c = connect(&mut rt, Net::Tcp, &s.keys, vec![paddr])?;
            for (i, d) in bodies(s).iter().enumerate() {
                let got = rt.block_on(c.ask(Request::Custom(request::CustomArgs { data: d.clone() })));
                match got {
                    Ok(x) => ensure!(x == answer_of(d), "wrong-reply", "ask {}: reply differs: {}", i, short(&x)),
                    Err(AskError::Timeout) => return lost("no-reply", format!("ask {} of {} bytes through a re-cutting proxy got no reply", i, d.len())),
                    Err(e) => return bad("ask-failed", format!("ask {}: {}", i, e)),
                }
            }
            ensure!(srv.log() == bodies(s), "handled", "the requests handled differ from those asked");
            Ok(Info::new().nt(true).class(s.keys.crypt.kind.name()))
        })();
        stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(paddr);
        let _ = h.join();
        r
    })()
    .into()
}
pub fn c09() -> Check {
    Check {
        rule: "raw: a list of requests, the cut plan of the byte stream and pauses, written by a raw client to a live TCP server; burst: more of them than the server has room to queue, often over several connections; proxy: a real client and a live server with a proxy between them that re-cuts both directions. Non-trivial: more than one packet or more than one write. Oracle: each request handled once, in order, with the bytes sent; each reply equals the handler's function of the request and carries its header.",
        assumptions: vec!["the loopback network delivers a TCP stream", "an answer absent for 12 s on a machine that was running is lost"],
        legs: vec![
            leg("segments", o(1200, 30_000).hang(120), seg, seg_raw),
            leg("burst", o(500, 10_000).hang(120), burst, seg_raw),
            leg("proxy", o(300, 8_000).hang(200), || {
                seg().prop_map(|mut s| {
                    s.msgs.truncate(6);
                    s
                })
            }, seg_proxy),
        ],
    }
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// a reply to the current request
    Right,
    /// an error reply to the current request
    RightError,
    /// a reply to a request never made
    Unknown(u32),
    /// a reply to an earlier request (answered or timed out)
    Earlier(u8),
    /// a reply naming no request
    Orphan,
    /// a request, naming the current request as its parent
    NotAReply,
    /// bytes that are no packet
    Garbage(Vec<u8>),
    /// a packet that holds no message
    NoMsg(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    net: Net,
    keys: Keys,
    asks: Vec<Vec<Act>>,
}
fn script() -> impl Strategy<Value = Script> {
    let act = prop_oneof![
        5 => Just(Act::Right),
        1 => Just(Act::RightError),
        3 => any::<u32>().prop_map(Act::Unknown),
        5 => any::<u8>().prop_map(Act::Earlier),
        2 => Just(Act::Orphan),
        2 => Just(Act::NotAReply),
        1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Act::Garbage),
        1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Act::NoMsg),
    ];
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], keys_any(), prop::collection::vec(prop::collection::vec(act, 0..5), 1..7)).prop_map(|(net, keys, mut asks)| {
        // only the last few go unanswered: each costs a timeout
        let mut quiet = 0;
        for a in asks.iter_mut() {
            if net == Net::Tcp {
                // garbage desynchronises a stream; what follows on it is not judged
                a.retain(|x| !matches!(x, Act::Garbage(_)));
            }
            if !a.iter().any(|x| matches!(x, Act::Right | Act::RightError)) {
                quiet += 1;
                if quiet > 2 {
                    a.push(Act::Right);
                }
            }
        }
        Script { net, keys, asks }
    })
}
fn tagged(ask: usize, act: usize) -> Reply {
    Reply::Custom(reply::CustomArgs { data: vec![ask as u8, act as u8, 0x5a] })
}
const SHORT: Duration = Duration::from_millis(120);
fn scripted(s: &Script) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let mut raw = Raw::wires(s.net, &s.keys);
        let lst = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let udp = UdpSocket::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let addr = if s.net == Net::Tcp { lst.local_addr().unwrap() } else { udp.local_addr().unwrap() };
        let asks = s.asks.clone();
        let net = s.net;
        let stop = Arc::new(AtomicBool::new(false));
        let st = Arc::clone(&stop);
        let h = std::thread::spawn(move || -> R<()> {
            if net == Net::Tcp {
                let t = lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0;
                let _ = t.set_nodelay(true);
                raw.tcp = Some(t);
            } else {
                let mut b = [0; 1];
                udp.set_read_timeout(Some(PATIENCE)).unwrap();
                let (_, from) = udp.peek_from(&mut b).map_err(|e| Bad::Env(e.to_string()))?;
                udp.connect(from).map_err(|e| Bad::Env(e.to_string()))?;
                raw.udp = Some(udp);
            }
            let mut seen: Vec<Header> = vec![];
            for (i, acts) in asks.iter().enumerate() {
                let end = Instant::now() + PATIENCE;
                let h = loop {
                    if st.load(Ordering::SeqCst) {
                        return Ok(());
                    }
                    match raw.recv(Duration::from_millis(100))? {
                        Got::Msg(m) => break m.header,
                        Got::Nothing if Instant::now() < end => continue,
                        _ => return Ok(()),
                    }
                };
                for (j, a) in acts.iter().enumerate() {
                    let r = tagged(i, j);
                    let m = match a {
                        Act::Right => reply_to(&h, r),
                        Act::RightError => reply_to(&h, Reply::Error(ReplyError::Generic(reply::GenericErrorArgs { msg: format!("{}-{}", i, j) }))),
                        Act::Unknown(id) if *id != h.id => reply_to(&Header::with_id(*id), r),
                        Act::Earlier(k) if !seen.is_empty() => reply_to(&seen[*k as usize % seen.len()], r),
                        Act::Orphan => Msg::new(Content::Reply(r), None),
                        Act::NotAReply => Msg::new(Content::Request(Request::Heartbeat), Some(h.clone())),
                        Act::Garbage(b) => {
                            let _ = raw.send_bytes(b);
                            continue;
                        }
                        Act::NoMsg(b) => {
                            for p in raw.packets_of(b)? {
                                let _ = raw.send_bytes(&p);
                            }
                            continue;
                        }
                        _ => continue,
                    };
                    if let Err(Bad::Env(_)) = raw.send(&m) {
                        // the client has gone; its side judges why
                        return Ok(());
                    }
                }
                seen.push(h);
            }
            // keep the connection until the client is done
            let end = Instant::now() + PATIENCE;
            while !st.load(Ordering::SeqCst) && Instant::now() < end {
                std::thread::sleep(Duration::from_millis(1));
            }
            Ok(())
        });
        let r = (|| -> R<Info> {
            let mut rt = local_runtime();
            let mut c = connect(&mut rt, s.net, &s.keys, vec![addr])?;
            let (mut lates, mut quiet) = (0, 0);
            for (i, acts) in s.asks.iter().enumerate() {
                let first = acts.iter().position(|a| matches!(a, Act::Right | Act::RightError));
                // (who waits for ever may say so)
                let long = [PATIENCE, Duration::from_secs(100_000_000), Duration::from_secs(u64::MAX), Duration::from_secs(1_000_000_000_000)][(s.keys.crypt.key_seed as usize + i) % 4];
                c.timeout = if first.is_some() { long } else { SHORT };
                let t = Instant::now();
                let got = match rt.block_on(async { tokio::time::timeout(PATIENCE, c.ask(Request::Heartbeat)).await }) {
                    Ok(x) => x,
                    Err(_) => Err(AskError::Timeout),
                };
                lates += acts.iter().filter(|a| matches!(a, Act::Earlier(_))).count();
                match first {
                    Some(j) => {
                        let want = match acts[j] {
                            Act::Right => Ok(tagged(i, j)),
                            _ => Err(AskError::Failure { msg: format!("{}-{}", i, j) }),
                        };
                        if got == Err(AskError::Timeout) {
                            return lost("reply-lost", format!("ask {} timed out though its reply was sent", i));
                        }
                        ensure!(got == want, "wrong-answer", "ask {} returned {} instead of {}", i, short(&got), short(&want));
                    }
                    None => {
                        quiet += 1;
                        ensure!(got == Err(AskError::Timeout), "not-timeout", "ask {} that nobody answered returned {}", i, short(&got));
                        let el = t.elapsed();
                        ensure!(el >= SHORT - Duration::from_millis(2), "early-timeout", "ask {} timed out after {:?} with a timeout of {:?}", i, el, SHORT);
                        if el > SHORT + Duration::from_secs(4) {
                            return lost("late-timeout", format!("ask {} timed out after {:?} with a timeout of {:?}", i, el, SHORT));
                        }
                    }
                }
            }
            Ok(Info::new().nt(s.asks.iter().any(|a| a.len() > 1 || a.is_empty())).class(s.net.name()).class_if(lates > 0, "earlier-ids").class_if(quiet > 0, "timeouts"))
        })();
        stop.store(true, Ordering::SeqCst);
        if s.net == Net::Tcp {
            let _ = TcpStream::connect(addr);
        } else if let Ok(u) = UdpSocket::bind("127.0.0.1:0") {
            let _ = u.send_to(&[0], addr);
        }
        let hr = h.join();
        let i = r?;
        if let Ok(Err(e)) = hr {
            return Err(e);
        }
        Ok(i)
    })()
    .into()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    net: Net,
    keys: Keys,
    /// real clients: payload lengths of their asks
    real: Vec<Vec<u16>>,
    /// raw clients: (header id, length) of their requests; ids collide between and within clients
    raw: Vec<Vec<(u8, u16)>>,
    /// requests of raw clients are written before any reply is read
    pipelined: bool,
}
fn many() -> impl Strategy<Value = Many> {
    (
        prop_oneof![Just(Net::Tcp), Just(Net::Udp)],
        keys_any(),
        prop::collection::vec(prop::collection::vec(0..1500u16, 1..5), 0..4),
        prop::collection::vec(prop::collection::vec((0..3u8, 0..1500u16), 1..6), 1..5),
        any::<bool>(),
    )
        .prop_map(|(net, keys, real, raw, pipelined)| Many { net, keys, real, raw, pipelined })
}
fn many_once(s: &Many) -> R<Info> {
    let srv = Srv::start(s.net, &s.keys)?;
    let mut hs = vec![];
    for (n, lens) in s.real.iter().cloned().enumerate() {
        let (net, keys, addr) = (s.net, s.keys.clone(), srv.addr);
        hs.push(std::thread::spawn(move || -> R<()> {
            let mut rt = local_runtime();
            let mut c = connect(&mut rt, net, &keys, vec![addr])?;
            for (i, l) in lens.iter().enumerate() {
                let d = body(0, i, *l as usize, 1000 + n as u64 * 100 + i as u64);
                match rt.block_on(c.ask(Request::Custom(request::CustomArgs { data: d.clone() }))) {
                    Ok(x) => ensure!(x == answer_of(&d), "crossed", "client {} ask {} got {}", n, i, short(&x)),
                    Err(AskError::Timeout) => return lost("no-reply", format!("client {} ask {} got no reply", n, i)),
                    Err(e) => return bad("ask-failed", format!("client {} ask {}: {}", n, i, e)),
                }
            }
            Ok(())
        }));
    }
    for (n, reqs) in s.raw.iter().cloned().enumerate() {
        let (net, keys, addr, pipelined) = (s.net, s.keys.clone(), srv.addr, s.pipelined);
        hs.push(std::thread::spawn(move || -> R<()> {
            let mut c = Raw::connect(net, &keys, addr)?;
            let mut out = vec![];
            for (i, (id, l)) in reqs.iter().enumerate() {
                let d = body(0, i, *l as usize, 5000 + n as u64 * 100 + i as u64);
                let mut m = custom_msg(d.clone());
                m.header.id = *id as u32;
                c.send(&m)?;
                if pipelined {
                    out.push((m, d));
                } else {
                    want(&mut c, &m, &d, &format!("raw client {} request {}", n, i))?;
                }
            }
            for (i, (m, d)) in out.iter().enumerate() {
                want(&mut c, m, d, &format!("raw client {} request {} (pipelined)", n, i))?;
            }
            Ok(())
        }));
    }
    let mut res = Ok(());
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => res = Err(e),
            Err(_) => return env("client thread panicked"),
        }
    }
    res?;
    let total = s.real.iter().map(|x| x.len()).sum::<usize>() + s.raw.iter().map(|x| x.len()).sum::<usize>();
    let log = srv.log();
    ensure!(log.len() == total, "handled-count", "{} requests were handled, {} were sent", log.len(), total);
    let collide = s.raw.len() > 1 || s.raw.iter().any(|r| r.iter().map(|x| x.0).collect::<std::collections::HashSet<_>>().len() < r.len());
    Ok(Info::new().nt(s.real.len() + s.raw.len() > 1).class(s.net.name()).class_if(collide, "same-ids").class_if(s.pipelined, "pipelined"))
}
/// What one client sends can be told apart by its ids
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sent {
    keys: Keys,
    n: u16,
    /// one request in so many is a batch
    batch: u8,
}
fn client_ids(s: &Sent) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let mut raw = Raw::wires(Net::Tcp, &s.keys);
        let lst = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let addr = lst.local_addr().unwrap();
        let n = s.n;
        let done = Arc::new(AtomicBool::new(false));
        let dn = Arc::clone(&done);
        let h = std::thread::spawn(move || -> R<Vec<u32>> {
            struct OnDrop(Arc<AtomicBool>);
            impl Drop for OnDrop {
                fn drop(&mut self) {
                    self.0.store(true, Ordering::SeqCst)
                }
            }
            let _d = OnDrop(dn);
            let t = lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0;
            raw.tcp = Some(t);
            let mut ids = vec![];
            while ids.len() < n as usize {
                match raw.recv(PATIENCE)? {
                    Got::Msg(m) => ids.push(m.header.id),
                    g => return lost("not-sent", format!("{} of {} requests arrived, then {:?}", ids.len(), n, g)),
                }
            }
            Ok(ids)
        });
        let mut rt = local_runtime();
        let mut c = connect(&mut rt, Net::Tcp, &s.keys, vec![addr])?;
        for i in 0..n {
            let r = if s.batch > 0 && i % s.batch as u16 == 0 { Request::Batch(request::BatchArgs { operations: vec![Request::Heartbeat] }) } else { Request::Heartbeat };
            if let Err(e) = rt.block_on(c.tell(r)) {
                return bad("tell-failed", format!("tell {}: {}", i, e));
            }
        }
        // what was told leaves while the runtime runs
        let dn = Arc::clone(&done);
        rt.block_on(async move {
            while !dn.load(Ordering::SeqCst) {
                tokio::time::delay_for(Duration::from_millis(2)).await;
            }
        });
        let ids = match h.join() {
            Ok(x) => x?,
            Err(_) => return env("peer thread panicked"),
        };
        let mut u = ids.clone();
        u.sort();
        u.dedup();
        // random 32 bit values: two alike once in two thousand cases
        ensure!(ids.len() - u.len() <= 2, "same-ids", "{} requests of one client bore only {} different ids: a late reply to one is taken for the reply to another", ids.len(), u.len());
        Ok(Info::new().nt(true).class_if(s.batch > 0, "batches"))
    })()
    .into()
}
/// UDP may lose datagrams: a lost answer counts when it is lost every time
pub fn patient<C>(net: Net, c: &C, f: impl Fn(&C) -> R<Info>) -> Verdict {
    let mut r = f(c);
    if net == Net::Udp {
        for _ in 0..2 {
            match &r {
                Err(Bad::Fail(s, _)) if s.contains("no-reply") || s.contains("lost") || s.contains("count") => r = f(c),
                _ => break,
            }
        }
    }
    r.into()
}
/// A peer that does not read for a while: every ask ends in time all the same
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stuffed {
    keys: Keys,
    buffer: u8,
    asks: u8,
    len: u32,
    ms: u8,
}
fn stuffed() -> impl Strategy<Value = Stuffed> {
    (keys_any(), 1..5u8, 2..10u8, 100_000..400_000u32, 5..60u8).prop_map(|(keys, buffer, asks, len, ms)| Stuffed { keys, buffer, asks, len, ms })
}
fn stuffed_once(s: &Stuffed) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        use std::os::unix::io::AsRawFd;
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let small: libc::c_int = 4096;
        unsafe {
            libc::setsockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &small as *const _ as *const libc::c_void, 4);
        }
        let addr = l.local_addr().unwrap();
        let mut rt = server_runtime();
        let mut b: over_there::core::ClientBuilder<DynAuth, DynCrypt> = over_there::core::ClientBuilder::default();
        b.authenticator(s.keys.auth.build()).bicrypter(s.keys.crypt.build()).transport(Net::Tcp.transport(vec![addr])).buffer(s.buffer as usize);
        let c: over_there::core::Client<DynAuth, DynCrypt> = b.build().map_err(|e| Bad::Env(format!("client builder: {}", e)))?;
        let mut c = rt.block_on(c.connect()).map_err(|e| Bad::Env(format!("connect: {}", e)))?;
        let mut raw = Raw::wires(Net::Tcp, &s.keys);
        raw.tcp = Some(l.accept().map_err(|e| Bad::Env(e.to_string()))?.0);
        let mut sent = vec![];
        let ask = |c: &mut over_there::core::ConnectedClient, rt: &mut tokio::runtime::Runtime, d: &Vec<u8>, t: Duration| {
            c.timeout = t;
            let from = Instant::now();
            let r = rt.block_on(async { tokio::time::timeout(t + PATIENCE, c.ask(Request::Custom(request::CustomArgs { data: d.clone() }))).await });
            (r, from.elapsed())
        };
        let t = Duration::from_millis(s.ms as u64);
        // (what the system takes without anyone reading depends on its settings)
        let mut full = 0;
        for i in 0..80u8 {
            let d = body(0, i as usize, s.len as usize, i as u64);
            let (r, took) = ask(&mut c, &mut rt, &d, t);
            match r {
                Err(_) => return lost("no-timeout", format!("ask {} with a timeout of {:?} had not ended after {:?}", i, t, took)),
                Ok(Err(AskError::Timeout)) => {}
                Ok(r) => return bad("made-up", format!("nobody read ask {}, but it returned {}", i, short(&r))),
            }
            // (encoding a large request takes a while and comes before)
            ensure!(took >= t, "too-early", "ask {} timed out after {:?} of {:?}", i, took, t);
            sent.push(d);
            if i as u32 * s.len > 6_000_000 {
                full += 1;
            }
            if full > s.asks + s.buffer {
                break;
            }
        }
        // the peer catches up: it receives some of them, in order, and once more answers
        let n = sent.len();
        let d = body(0, 200, 50, 200);
        let d2 = d.clone();
        let h = std::thread::Builder::new()
            .name(shard_name())
            .spawn(move || -> R<usize> {
                let mut at = 0;
                let mut seen = 0;
                loop {
                    match raw.recv(PATIENCE)? {
                        Got::Msg(m) => {
                            let got = match &m.content {
                                Content::Request(Request::Custom(x)) => x.data.clone(),
                                x => return bad("altered", format!("received {}", short(x))),
                            };
                            if got == d2 {
                                raw.send(&reply_to(&m.header, tagged(7, 7)))?;
                                return Ok(seen);
                            }
                            match sent[at..].iter().position(|x| *x == got) {
                                Some(i) => at += i + 1,
                                None => return bad("altered", format!("a request of {} bytes was not asked, or not in this order", got.len())),
                            }
                            seen += 1;
                        }
                        g => return lost("lost", format!("after {} requests came no more: {:?}", seen, g)),
                    }
                }
            })
            .map_err(|e| Bad::Env(e.to_string()))?;
        let (r, _) = ask(&mut c, &mut rt, &d, PATIENCE);
        let seen = h.join().map_err(|_| Bad::Env("peer thread panicked".into()))??;
        match r {
            Ok(Ok(x)) if x == tagged(7, 7) => {}
            x => return lost("no-reply", format!("once the peer reads again, an ask returned {}", short(&x))),
        }
        end_runtime(rt);
        Ok(Info::new().nt(true).class_if(seen < n, "some-never-sent"))
    })()
    .into()
}
/// One client for a long time
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Days {
    net: Net,
    keys: Keys,
    n: u32,
    /// one request in so many is larger than a packet
    large: u8,
    /// one in so many is told, not asked
    tell: u8,
    seed: u64,
}
fn days() -> impl Strategy<Value = Days> {
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], keys_any(), prop_oneof![3 => 500..4_000u32, 1 => 4_000..12_000u32], prop_oneof![Just(0u8), 20..250u8], prop_oneof![Just(0u8), 20..250u8], any::<u64>())
        .prop_map(|(net, keys, n, large, tell, seed)| Days { net, keys, n, large, tell, seed })
}
fn days_once(s: &Days) -> R<Info> {
    let srv = Srv::start(s.net, &s.keys)?;
    let mut rt = local_runtime();
    let mut c = connect(&mut rt, s.net, &s.keys, vec![srv.addr])?;
    let every = |k: u8, i: u32| k > 0 && i % k as u32 == k as u32 - 1;
    let (mut told, mut asked) = (0u32, 0u32);
    let end = Instant::now() + Duration::from_secs(10);
    for i in 0..s.n {
        // (two packets in a row can cost 40 ms over TCP, of the systems' making)
        if Instant::now() > end {
            break;
        }
        let len = if every(s.large, i) { 1600 + (i % 1000) as usize } else { 8 + (i % 50) as usize };
        let d = body(0, i as usize, len, s.seed ^ i as u64);
        let r = Request::Custom(request::CustomArgs { data: d.clone() });
        if every(s.tell, i) {
            if let Err(e) = rt.block_on(c.tell(r)) {
                return bad("tell-failed", format!("tell {}: {}", i, e));
            }
            told += 1;
            continue;
        }
        asked += 1;
        match rt.block_on(c.ask(r)) {
            Ok(x) => ensure!(x == answer_of(&d), "crossed", "ask {} got {}", i, short(&x)),
            Err(AskError::Timeout) => return lost("no-reply", format!("ask {} of one client got no reply", i)),
            Err(e) => return bad("ask-failed", format!("ask {} of one client: {}", i, e)),
        }
    }
    // (what was told last may still be on its way)
    match rt.block_on(c.ask(Request::Heartbeat)) {
        Ok(Reply::Heartbeat) => {}
        x => return lost("no-reply", format!("a last ask got {}", short(&x))),
    }
    let n = srv.log().len() as u32;
    ensure!(n == asked + told, "handled-count", "{} requests were handled, {} were asked and {} told", n, asked, told);
    Ok(Info::new().nt(true).class(format!("long-{}", s.net.name())).class_if(asked + told > 4_000, "over-4000-requests"))
}
/// Many clients at the same time
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    net: Net,
    keys: Keys,
    clients: u16,
    /// requests of each, one round after the other
    rounds: u8,
    len: u16,
    same_ids: bool,
    order: u64,
}
fn crowd() -> impl Strategy<Value = Crowd> {
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], keys_any(), 30..300u16, 1..4u8, prop_oneof![3 => 8..100u16, 1 => 100..3000u16], any::<bool>(), any::<u64>())
        .prop_map(|(net, keys, clients, rounds, len, same_ids, order)| Crowd { net, keys, clients, rounds, len, same_ids, order })
}
fn crowd_once(s: &Crowd) -> R<Info> {
    use rand::{seq::SliceRandom, SeedableRng};
    let srv = Srv::start(s.net, &s.keys)?;
    let mut there = vec![];
    for _ in 0..s.clients {
        there.push(Raw::connect(s.net, &s.keys, srv.addr)?);
    }
    let mut rng = rand::rngs::StdRng::seed_from_u64(s.order);
    for k in 0..s.rounds as usize {
        let mut order: Vec<usize> = (0..there.len()).collect();
        // (a UDP socket holds only so much: the server's must not overflow)
        let at_once = if s.net == Net::Udp { (20_000 / (s.len as usize + 400)).max(1) } else { order.len() };
        order.shuffle(&mut rng);
        for part in order.chunks(at_once) {
            let mut sent = vec![];
            for i in part {
                let d = body(0, i * 10 + k, s.len as usize, s.order ^ (i * 10 + k) as u64);
                let mut m = custom_msg(d.clone());
                if s.same_ids {
                    m.header.id = k as u32;
                }
                there[*i].send(&m)?;
                sent.push((*i, m, d));
            }
            sent.shuffle(&mut rng);
            for (i, m, d) in sent {
                want(&mut there[i], &m, &d, &format!("client {} of {}, round {}", i, s.clients, k))?;
            }
        }
    }
    let n = srv.log().len();
    let total = s.clients as usize * s.rounds as usize;
    ensure!(n == total, "handled-count", "{} requests were handled, {} were sent", n, total);
    Ok(Info::new().nt(true).class(format!("crowd-{}", s.net.name())).class_if(s.clients > 150, "over-150-clients"))
}
pub fn c10() -> Check {
    Check {
        rule: "scripted: a real client asks a scripted peer that answers with replies to this, earlier, unknown or no request, requests, junk, duplicates, or not at all; many: real and raw clients with colliding message ids talk to one server at the same time; long: thousands of requests of one client; crowd: up to 300 clients at the same time; ids: the ids of a thousand and more requests of one client. Non-trivial: more than one client, or more (or fewer) than one reply to an ask. Oracle: the first reply naming the ask's own id decides it; every reply is the handler's function of the asker's own bytes.",
        assumptions: vec!["an answer absent for 12 s (over UDP: three runs in a row) on a machine that was running is lost"],
        legs: vec![
            leg("scripted", o(1000, 20_000).hang(200), script, scripted),
            leg("many", o(600, 12_000).hang(200), many, |s| patient(s.net, s, many_once)),
            leg("ids", o(24, 400).hang(200), || (keys_any(), 1000..2000u16, prop_oneof![Just(0u8), 2..9u8]).prop_map(|(keys, n, batch)| Sent { keys, n, batch }), client_ids),
            leg("long", o(24, 500).hang(250).shrink(60), days, |s: &Days| patient(s.net, s, days_once)),
            leg("crowd", o(60, 1_500).hang(250), crowd, |s: &Crowd| patient(s.net, s, crowd_once)),
            leg("stuffed", o(24, 400).hang(200), stuffed, stuffed_once),
        ],
    }
}

// ------------------------------------------------------------------ C11
#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    /// no more requests, still reading
    Half,
    /// gone without reading
    Drop,
    /// gone with a reset
    Reset,
    /// gone in the middle of a packet
    Cut(u16),
    /// still there, checked at the end
    Stay,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conn {
    /// (length, how much longer the answer is)
    reqs: Vec<(u16, u32)>,
    /// how many replies are read before the end
    read: u8,
    end: End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Disc {
    keys: Keys,
    conns: Vec<Conn>,
    /// order in which connections move on
    order: Vec<u8>,
}
fn disc() -> impl Strategy<Value = Disc> {
    let end = prop_oneof![
        4 => Just(End::Half),
        1 => Just(End::Drop),
        1 => Just(End::Reset),
        2 => (1..400u16).prop_map(End::Cut),
        2 => Just(End::Stay),
    ];
    let conn = (
        prop::collection::vec((0..400u16, prop_oneof![3 => 0..2000u32, 1 => 0..150_000u32]), 0..6),
        any::<u8>(),
        end,
    )
        .prop_map(|(reqs, read, end)| Conn { reqs, read, end });
    (keys_any(), prop::collection::vec(conn, 1..5), prop::collection::vec(any::<u8>(), 0..8)).prop_map(|(keys, conns, order)| Disc { keys, conns, order })
}
pub fn big_body(n: usize, i: usize, len: u16, grow: u32) -> Vec<u8> {
    let mut b = body(2, i, len as usize, n as u64 * 77 + i as u64);
    b[1] = grow as u8;
    b[2] = (grow >> 8) as u8;
    b[3] = (grow >> 16) as u8;
    b
}
fn disconnects(s: &Disc) -> Verdict {
    (|| -> R<Info> {
        let srv = Srv::start(Net::Tcp, &s.keys)?;
        struct Live {
            raw: Option<Raw>,
            sent: Vec<(Msg, Vec<u8>)>,
            seen: usize,
        }
        let mut cs = vec![];
        for _ in &s.conns {
            cs.push(Live { raw: Some(Raw::connect(Net::Tcp, &s.keys, srv.addr)?), sent: vec![], seen: 0 });
        }
        let mut order: Vec<usize> = (0..s.conns.len()).collect();
        for (i, k) in s.order.iter().enumerate() {
            let n = order.len();
            order.swap(i % n, *k as usize % n);
        }
        for n in &order {
            let (c, l) = (&s.conns[*n], &mut cs[*n]);
            for (i, (len, grow)) in c.reqs.iter().enumerate() {
                let d = big_body(*n, i, *len, *grow);
                let m = custom_msg(d.clone());
                l.raw.as_mut().unwrap().send(&m)?;
                l.sent.push((m, d));
            }
        }
        for n in &order {
            let (c, l) = (&s.conns[*n], &mut cs[*n]);
            let k = if c.reqs.is_empty() { 0 } else { c.read as usize % (c.reqs.len() + 1) };
            for i in 0..k {
                let (m, d) = l.sent[i].clone();
                want(l.raw.as_mut().unwrap(), &m, &d, &format!("connection {} request {}", n, i))?;
            }
            l.seen = k;
            match c.end {
                End::Half => {
                    let _ = l.raw.as_ref().unwrap().tcp.as_ref().unwrap().shutdown(Shutdown::Write);
                }
                End::Drop => l.raw = None,
                End::Reset => {
                    use std::os::unix::io::AsRawFd;
                    let r = l.raw.take().unwrap();
                    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(r.tcp.as_ref().unwrap().as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
                    }
                }
                End::Cut(b) => {
                    let r = l.raw.as_mut().unwrap();
                    let p = r.packets(&custom_msg(body(0, 500, 300, 3)))?;
                    let p = &p[0];
                    let b = 1 + b as usize % (p.len() - 1);
                    let _ = r.send_bytes(&p[..b]);
                    l.raw = None;
                }
                End::Stay => {}
            }
        }
        for n in &order {
            let (c, l) = (&s.conns[*n], &mut cs[*n]);
            match c.end {
                End::Half => {
                    let r = l.raw.as_mut().unwrap();
                    for i in l.seen..l.sent.len() {
                        let (m, d) = l.sent[i].clone();
                        want(r, &m, &d, &format!("half-closed connection {} request {}", n, i))?;
                    }
                    match r.recv(PATIENCE)? {
                        Got::Closed => {}
                        Got::Nothing => return lost("not-closed", format!("connection {} is still open {:?} after its client finished", n, PATIENCE)),
                        g => return bad("extra", format!("connection {}: after the last reply came {:?}", n, g)),
                    }
                }
                End::Stay => {
                    let r = l.raw.as_mut().unwrap();
                    for i in l.seen..l.sent.len() {
                        let (m, d) = l.sent[i].clone();
                        want(r, &m, &d, &format!("remaining connection {} request {}", n, i))?;
                    }
                    exchange(r, 600 + n, 9)?;
                }
                _ => {}
            }
        }
        // newcomers are served, by a raw and by a real client
        exchange(&mut Raw::connect(Net::Tcp, &s.keys, srv.addr)?, 700, 11)?;
        let log = srv.log();
        for (n, c) in s.conns.iter().enumerate() {
            if matches!(c.end, End::Half | End::Stay) {
                for (m, d) in &cs[n].sent {
                    let k = log.iter().filter(|x| *x == d).count();
                    let same = cs[n].sent.iter().filter(|x| &x.1 == d).count();
                    ensure!(k == same, "handled-count", "connection {}: request {} was handled {} times instead of {}", n, m.header.id, k, same);
                }
            }
        }
        let gone = s.conns.iter().filter(|c| !matches!(c.end, End::Stay)).count();
        Ok(Info::new().nt(gone > 0).class_if(s.conns.iter().any(|c| matches!(c.end, End::Half) && !c.reqs.is_empty()), "half-close-pending").class_if(s.conns.iter().any(|c| matches!(c.end, End::Cut(_))), "cut-packet").class_if(s.conns.iter().any(|c| matches!(c.end, End::Reset)), "reset"))
    })()
    .into()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gone {
    keys: Keys,
    /// asks answered before the server goes away
    before: u8,
    /// bytes of the next reply still sent
    part: u16,
    after: u8,
    reset: bool,
}
/// The server goes away under a client: asks end with an error within their timeout
fn server_gone(s: &Gone) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let lst = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let addr = lst.local_addr().unwrap();
        let mut raw = Raw::wires(Net::Tcp, &s.keys);
        let s2 = s.clone();
        let h = std::thread::spawn(move || -> R<()> {
            raw.tcp = Some(lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0);
            drop(lst);
            for i in 0..=s2.before {
                let m = match raw.recv(PATIENCE)? {
                    Got::Msg(m) => m,
                    _ => return Ok(()),
                };
                let ps = raw.packets(&reply_to(&m.header, tagged(i as usize, 0)))?;
                if i < s2.before {
                    for p in ps {
                        let _ = raw.send_bytes(&p);
                    }
                } else {
                    let all = ps.concat();
                    let n = s2.part as usize % all.len();
                    let _ = raw.send_bytes(&all[..n]);
                }
            }
            if s2.reset {
                use std::os::unix::io::AsRawFd;
                let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe {
                    libc::setsockopt(raw.tcp.as_ref().unwrap().as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
                }
            }
            Ok(())
        });
        let mut rt = local_runtime();
        let mut c = connect(&mut rt, Net::Tcp, &s.keys, vec![addr])?;
        for i in 0..s.before {
            let got = rt.block_on(c.ask(Request::Heartbeat));
            if got == Err(AskError::Timeout) {
                return lost("reply-lost", format!("ask {} timed out though its reply was sent", i));
            }
            ensure!(got == Ok(tagged(i as usize, 0)), "wrong-answer", "ask {} returned {}", i, short(&got));
        }
        c.timeout = SHORT;
        for i in 0..=s.after {
            let t = Instant::now();
            let got = rt.block_on(c.ask(Request::Heartbeat));
            ensure!(got.is_err(), "answer-from-nowhere", "ask {} after the server went away returned {}", i, short(&got));
            if t.elapsed() > SHORT + Duration::from_secs(4) {
                return lost("late-timeout", format!("an ask of a server that went away ended after {:?}", t.elapsed()));
            }
        }
        match h.join() {
            Ok(Err(e)) => return Err(e),
            _ => {}
        }
        Ok(Info::new().nt(true).class_if(s.part > 0, "cut-reply").class_if(s.reset, "reset"))
    })()
    .into()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Away {
    keys: Keys,
    /// asks made in each phase; the peer is absent in the even ones
    phases: Vec<u8>,
}
/// A UDP peer that comes and goes: asks while it is away time out, asks while it is there work
fn udp_away(s: &Away) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let holder = UdpSocket::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let addr = holder.local_addr().unwrap();
        drop(holder);
        let mut rt = local_runtime();
        let mut c = connect(&mut rt, Net::Udp, &s.keys, vec![addr])?;
        for (i, n) in s.phases.iter().enumerate() {
            if i % 2 == 0 {
                for k in 0..*n {
                    c.timeout = Duration::from_millis(25);
                    let t = Instant::now();
                    let got = rt.block_on(c.ask(if k % 2 == 1 { Request::Heartbeat } else { Request::Custom(request::CustomArgs { data: vec![0; 1500] }) }));
                    ensure!(got.is_err(), "answer-from-nowhere", "phase {} ask {}: an absent peer answered {}", i, k, short(&got));
                    if t.elapsed() > Duration::from_secs(4) {
                        return lost("late-timeout", format!("phase {} ask {}: ended after {:?}", i, k, t.elapsed()));
                    }
                }
            } else {
                let stop = Arc::new(AtomicBool::new(false));
                let st = Arc::clone(&stop);
                let sock = UdpSocket::bind(addr).map_err(|e| Bad::Env(e.to_string()))?;
                let keys = s.keys.clone();
                let h = std::thread::spawn(move || {
                    let mut raw = Raw::wires(Net::Udp, &keys);
                    let mut b = [0; 1];
                    let _ = sock.set_read_timeout(Some(Duration::from_millis(20)));
                    while !st.load(Ordering::SeqCst) {
                        if let Ok((_, from)) = sock.peek_from(&mut b) {
                            let _ = sock.connect(from);
                            raw.udp = Some(sock);
                            while !st.load(Ordering::SeqCst) {
                                if let Ok(Got::Msg(m)) = raw.recv(Duration::from_millis(20)) {
                                    let _ = raw.send(&reply_to(&m.header, Reply::Heartbeat));
                                }
                            }
                            return;
                        }
                    }
                });
                let mut res = Ok(());
                for k in 0..*n {
                    // what was sent while the peer was away may still cost a datagram
                    c.timeout = Duration::from_millis(1500);
                    let mut got = Err(AskError::Timeout);
                    for _ in 0..6 {
                        got = rt.block_on(c.ask(Request::Heartbeat));
                        if got != Err(AskError::Timeout) {
                            break;
                        }
                    }
                    if got != Ok(Reply::Heartbeat) {
                        res = lost("no-reply", format!("phase {} ask {}: the peer is back but six asks gave {}", i, k, short(&got)));
                        break;
                    }
                }
                stop.store(true, Ordering::SeqCst);
                let _ = h.join();
                res?;
            }
        }
        Ok(Info::new().nt(s.phases.len() > 1).class("udp-away"))
    })()
    .into()
}
/// Clients that do not read what they are answered
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deaf {
    keys: Keys,
    buffer: u8,
    /// (requests, bytes of each answer)
    deaf: Vec<(u8, u32)>,
    /// what becomes of them: listens again, resets, leaves
    then: u8,
}
fn deaf() -> impl Strategy<Value = Deaf> {
    (prop_oneof![2 => Just(Keys::plain()), 1 => keys_any()], 1..6u8, prop::collection::vec((20..120u8, 20_000..200_000u32), 1..3), any::<u8>()).prop_map(|(keys, buffer, deaf, then)| Deaf { keys, buffer, deaf, then })
}
fn deaf_once(s: &Deaf) -> Verdict {
    (|| -> R<Info> {
        use std::os::unix::io::AsRawFd;
        let n = s.buffer as usize;
        let srv = Srv::with(SrvOpts::new(Net::Tcp, &s.keys).tweak(move |b| {
            b.buffer(n);
        }))?;
        let mut early = Raw::connect(Net::Tcp, &s.keys, srv.addr)?;
        exchange(&mut early, 1, 1)?;
        let mut there = vec![];
        let mut stuck = 0;
        for (k, (reqs, len)) in s.deaf.iter().enumerate() {
            let mut r = Raw::connect(Net::Tcp, &s.keys, srv.addr)?;
            let mut sent = vec![];
            for i in 0..*reqs as usize {
                let d = big_body(k, i, 30, *len);
                let m = custom_msg(d.clone());
                r.send(&m)?;
                sent.push((m, d));
            }
            there.push((r, sent));
        }
        let total: usize = s.deaf.iter().map(|x| x.0 as usize).sum();
        // (until the server gets no further)
        let end = Instant::now() + Duration::from_secs(3);
        let mut last = (0, Instant::now());
        while Instant::now() < end {
            let n = srv.log().len();
            if n != last.0 {
                last = (n, Instant::now());
            }
            if n == total + 1 || last.1.elapsed() > Duration::from_millis(150) {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        if srv.log().len() < total + 1 {
            stuck += 1;
        }
        for i in 0..3 {
            exchange(&mut early, 2 + i, 1)?;
            exchange(&mut Raw::connect(Net::Tcp, &s.keys, srv.addr)?, 700 + i, 11)?;
        }
        // they listen again or are gone
        for (k, (mut r, sent)) in there.into_iter().enumerate() {
            match (s.then as usize + k) % 3 {
                0 => {
                    for (i, (m, d)) in sent.iter().enumerate() {
                        want(&mut r, m, d, &format!("client {} listens again: request {}", k, i))?;
                    }
                    exchange(&mut r, 900, 12)?;
                }
                1 => {
                    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(r.tcp.as_ref().unwrap().as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
                    }
                }
                _ => {}
            }
        }
        exchange(&mut early, 10, 1)?;
        exchange(&mut Raw::connect(Net::Tcp, &s.keys, srv.addr)?, 800, 13)?;
        Ok(Info::new().nt(stuck > 0).class_if(stuck > 0, "unread"))
    })()
    .into()
}
/// Many short visits
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Churn {
    net: Net,
    keys: Keys,
    /// what each visitor does: 0 nothing, 1 asks and reads the answer, 2 asks and leaves, 3 part of a packet, 4 junk
    visits: Vec<u8>,
    /// how many visitors are there at the same time
    crowd: u8,
}
/// Sockets the peer has closed and the server has not
fn close_wait(port: u16) -> usize {
    let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    let p = format!(":{:04X}", port);
    t.lines()
        .skip(1)
        .filter(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            f.len() > 3 && f[1].ends_with(&p) && f[3] == "08"
        })
        .count()
}
fn churn_once(s: &Churn) -> R<Info> {
    let srv = Srv::start(s.net, &s.keys)?;
    let mut early = Raw::connect(s.net, &s.keys, srv.addr)?;
    exchange(&mut early, 1, 1)?;
    let mut there: std::collections::VecDeque<Raw> = Default::default();
    for (i, v) in s.visits.iter().enumerate() {
        let mut r = Raw::connect(s.net, &s.keys, srv.addr)?;
        let d = body(0, 10 + i, 30, i as u64);
        match v {
            1 => exchange(&mut r, 10 + i, i as u64)?,
            2 => r.send(&custom_msg(d))?,
            3 => {
                let p = r.packets(&custom_msg(d))?.remove(0);
                let _ = r.send_bytes(&p[..p.len() / 2]);
            }
            4 => {
                let _ = r.send_bytes(&[0xff; 9]);
            }
            _ => {}
        }
        there.push_back(r);
        if there.len() > s.crowd as usize {
            there.pop_front();
        }
        if i % 16 == 15 {
            exchange(&mut early, 5000 + i, 3)?;
        }
    }
    exchange(&mut early, 9000, 2)?;
    // those still there are still served, unless they sent half a packet or junk
    let n = there.len();
    for (k, r) in there.iter_mut().enumerate() {
        let i = s.visits.len() - n + k;
        if s.visits[i] < 2 {
            exchange(r, 7000 + i, 6)?;
        }
    }
    drop(there);
    for k in 0..3 {
        let mut n = Raw::connect(s.net, &s.keys, srv.addr)?;
        exchange(&mut n, 9100 + k, 4)?;
    }
    exchange(&mut early, 9001, 2)?;
    if s.net == Net::Tcp {
        let end = Instant::now() + PATIENCE;
        loop {
            let n = close_wait(srv.addr.port());
            if n == 0 {
                break;
            }
            if Instant::now() > end {
                return lost("kept-open", format!("{} connections whose clients are gone are still open at the server", n));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    Ok(Info::new().nt(true).class(format!("churn-{}", s.net.name())).class_if(s.visits.len() > 150, "over-150-visits").class_if(s.crowd > 30, "over-30-at-once"))
}

pub fn c11() -> Check {
    Check {
        rule: "clients: several raw connections to one server, each sending requests (answers up to 150 KB) and then half-closing, dropping, resetting, cutting a packet short or staying; gone: a scripted server that goes away after some replies or within one; away: a UDP peer absent and present by turns; deaf: clients that ask for more than the connection holds and do not read, and later listen again, reset or leave; full: a server of the tool with as few as 24 descriptors and more visitors than that; churn: up to 250 visitors come and go, up to 80 at a time. Non-trivial: at least one connection ends. Oracle: a half-closed connection still gets every reply once, in order, and then is closed by the server; other connections and newcomers are unaffected; asks of a vanished server fail within their timeout.",
        assumptions: vec!["an answer (or the close) absent for 12 s on a machine that was running is lost"],
        legs: vec![
            leg("clients", o(1200, 25_000).hang(200), disc, disconnects),
            leg("gone", o(300, 6_000).hang(100), || {
                (keys_any(), 0..4u8, any::<u16>(), 0..2u8, any::<bool>()).prop_map(|(keys, before, part, after, reset)| Gone { keys, before, part, after, reset })
            }, server_gone),
            leg("full", o(40, 800).hang(200).shrink(60), crate::p_cli::full, crate::p_cli::full_once),
            leg("deaf", o(40, 1_000).hang(200).shrink(90), deaf, deaf_once),
            leg("churn", o(60, 2_000).hang(250), || {
                (prop_oneof![2 => Just(Net::Tcp), 1 => Just(Net::Udp)], keys_any(), prop::collection::vec(0..5u8, 30..250), prop_oneof![0..4u8, 0..80u8])
                    .prop_map(|(net, keys, visits, crowd)| Churn { net, keys, visits, crowd })
            }, |s: &Churn| patient(s.net, s, churn_once)),
            leg("away", o(250, 5_000).hang(150), || {
                (keys_any(), prop::collection::vec(1..4u8, 1..5)).prop_map(|(keys, phases)| Away { keys, phases })
            }, udp_away),
        ],
    }
}

// ------------------------------------------------------------------ C04, live servers
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hostile {
    Bytes(Vec<u8>),
    Long { len: u16, byte: u8 },
    /// a genuine packet of some message with a bit flipped, cut, or with bytes inserted
    Bent { pos: u32, how: u8, seed: u64 },
    /// well-formed packet signed with another key
    OtherKey(u64),
    /// a genuine packet whose content is no message
    NotMsg(Vec<u8>),
    /// a reply nobody asked for
    Reply,
    /// crafted packet: id, index, last?, data
    Crafted { id: u32, index: u32, last: bool, data: Vec<u8>, nonce: u8 },
    /// deeply nested CBOR
    Deep(u16),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attack {
    net: Net,
    keys: Keys,
    /// (attacker socket, what); socket 0 is the well-behaved client's own when over UDP
    hits: Vec<(u8, Hostile)>,
    /// after which hits the genuine client does an exchange
    every: u8,
    len: u16,
}
fn attack() -> impl Strategy<Value = Attack> {
    let h = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 1..600).prop_map(Hostile::Bytes),
        1 => (0..5000u16, any::<u8>()).prop_map(|(len, byte)| Hostile::Long { len, byte }),
        4 => (any::<u32>(), any::<u8>(), any::<u64>()).prop_map(|(pos, how, seed)| Hostile::Bent { pos, how, seed }),
        2 => any::<u64>().prop_map(Hostile::OtherKey),
        2 => prop::collection::vec(any::<u8>(), 1..200).prop_map(Hostile::NotMsg),
        1 => Just(Hostile::Reply),
        4 => (any::<u32>(), prop_oneof![Just(0u32), Just(u32::MAX), 0..10u32, any::<u32>()], any::<bool>(), prop::collection::vec(any::<u8>(), 0..100), any::<u8>())
            .prop_map(|(id, index, last, data, nonce)| Hostile::Crafted { id, index, last, data, nonce }),
        1 => (1..1400u16).prop_map(Hostile::Deep),
        1 => Just(Hostile::Empty),
    ];
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], keys_any(), prop::collection::vec((0..3u8, h), 1..20), 1..6u8, 0..1500u16)
        .prop_map(|(net, keys, hits, every, len)| Attack { net, keys, hits, every, len })
}
fn crafted(id: u32, index: u32, last: bool, data: &[u8], nonce: u8, keys: &Keys) -> Vec<u8> {
    // the layout a genuine packet has, learnt by encoding one
    use over_there::core::transport::Signer;
    let mut o = sender(1500, &keys.auth, &keys.crypt);
    let g = match o.process(&[1, 2, 3]) {
        Ok(v) => v[0].clone(),
        Err(_) => return vec![0],
    };
    let mut v: serde_cbor::Value = match serde_cbor::from_slice(&g) {
        Ok(v) => v,
        Err(_) => return vec![0],
    };
    fn walk(v: &mut serde_cbor::Value, f: &mut dyn FnMut(&mut serde_cbor::Value)) {
        f(v);
        match v {
            serde_cbor::Value::Array(a) => a.iter_mut().for_each(|x| walk(x, f)),
            serde_cbor::Value::Map(m) => m.values_mut().for_each(|x| walk(x, f)),
            _ => {}
        }
    }
    let mut k = 0u32;
    let (mut id, mut index) = (Some(id), Some(index));
    walk(&mut v, &mut |x| match x {
        serde_cbor::Value::Integer(i) => {
            if *i > 255 && id.is_some() {
                *i = id.take().unwrap() as i128
            } else if *i == 0 && index.is_some() {
                *i = index.take().unwrap() as i128
            }
        }
        serde_cbor::Value::Bytes(b) => {
            k += 1;
            if nonce as u32 % 5 == k {
                *b = data.to_vec();
            }
        }
        serde_cbor::Value::Null if last => *x = serde_cbor::Value::Array(vec![]),
        _ => {}
    });
    let _ = keys.auth.build().sign(&[0]);
    serde_cbor::to_vec(&v).unwrap_or_default()
}
fn attack_once(s: &Attack) -> R<Info> {
    let srv = Srv::start(s.net, &s.keys)?;
    let mut good = Raw::connect(s.net, &s.keys, srv.addr)?;
    let mut evil: Vec<Raw> = vec![];
    for _ in 0..3 {
        evil.push(Raw::connect(s.net, &s.keys, srv.addr)?);
    }
    let keyed = s.keys.auth != AuthSpec::Noop;
    // a message half of which arrives before the attack
    let half_body = body(0, 3000, 300 + s.len as usize, 5);
    let half_msg = custom_msg(half_body.clone());
    let half = good.packets(&half_msg)?;
    let (first, rest) = half.split_at(half.len() / 2);
    let mut sent_good = vec![half_body.clone()];
    for p in first {
        if good.send_bytes(p).is_err() {
            return env("send");
        }
    }
    let mut done_half = s.net == Net::Udp && first.is_empty();
    for (i, (who, h)) in s.hits.iter().enumerate() {
        let mut notmsg: Option<Vec<Vec<u8>>> = None;
        let b = match h {
            Hostile::Bytes(b) => b.clone(),
            Hostile::Long { len, byte } => vec![*byte; *len as usize],
            Hostile::Bent { pos, how, seed } => {
                let ps = evil[0].packets(&custom_msg(body(0, 4000 + i, 700, *seed)))?;
                let mut p = ps[*seed as usize % ps.len()].clone();
                let at = *pos as usize % p.len();
                match how % 4 {
                    0 => p[at] ^= 1 << (how >> 5),
                    1 => p.truncate(at),
                    2 => p.insert(at, *how),
                    _ => {
                        p.remove(at);
                    }
                }
                p
            }
            Hostile::OtherKey(k) => {
                let other = match &s.keys.auth {
                    AuthSpec::Noop => AuthSpec::Sha256(vec![1]),
                    AuthSpec::Sha256(_) => AuthSpec::Sha256(bytes(*k, 33)),
                    AuthSpec::Sha512(_) => AuthSpec::Sha512(bytes(*k, 33)),
                };
                let d = custom_msg(vec![0, 6, 6, 6]).to_vec().unwrap();
                let ps = sender(s.net.size(), &other, &s.keys.crypt).process(&d).map_err(|e| Bad::Fail("packetise".into(), e.to_string()))?;
                if !keyed {
                    // nobody can tell these from genuine ones
                    continue;
                }
                ps[0].clone()
            }
            Hostile::NotMsg(b) => {
                notmsg = Some(evil[0].packets_of(b)?);
                vec![]
            }
            Hostile::Reply => {
                notmsg = Some(evil[0].packets(&Msg::new(Content::Reply(Reply::Heartbeat), Some(Header::with_id(1))))?);
                vec![]
            }
            Hostile::Crafted { id, index, last, data, nonce } => crafted(*id, *index, *last, data, *nonce, &s.keys),
            Hostile::Deep(n) => vec![0x81; *n as usize],
            Hostile::Empty => vec![],
        };
        let list = notmsg.unwrap_or_else(|| vec![b]);
        for p in list {
            let w = *who as usize % 3;
            let sock = if w == 0 && s.net == Net::Udp { &mut good } else { &mut evil[w] };
            if sock.send_bytes(&p).is_err() && s.net == Net::Tcp {
                // closed on us: come back
                evil[w] = Raw::connect(s.net, &s.keys, srv.addr)?;
            }
        }
        if i as u8 % s.every == 0 && s.net == Net::Udp {
            let d = body(0, 5000 + i, 10, i as u64);
            let m = custom_msg(d.clone());
            good.send(&m)?;
            sent_good.push(d.clone());
            want_among(&mut good, &m, &d, &format!("genuine request during the attack, after hit {}", i))?;
        }
        if i == s.hits.len() / 2 && !done_half {
            for p in rest {
                if good.send_bytes(p).is_err() {
                    return bad("good-connection-closed", "the server closed the connection of a well-behaved client".to_string());
                }
            }
            done_half = true;
            want_among(&mut good, &half_msg, &half_body, "genuine message around the attack")?;
        }
    }
    if !done_half {
        for p in rest {
            let _ = good.send_bytes(p);
        }
        want_among(&mut good, &half_msg, &half_body, "genuine message around the attack")?;
    }
    let d = body(0, 6000, 10, 1);
    let m = custom_msg(d.clone());
    good.send(&m)?;
    sent_good.push(d.clone());
    want_among(&mut good, &m, &d, "genuine request after the attack")?;
    let mut fresh = Raw::connect(s.net, &s.keys, srv.addr)?;
    let d = body(0, 6001, 10, 1);
    let m = custom_msg(d.clone());
    fresh.send(&m)?;
    sent_good.push(d.clone());
    want_among(&mut fresh, &m, &d, "a newcomer's request after the attack")?;
    if keyed {
        for x in srv.log() {
            ensure!(sent_good.contains(&x), "forged-handled", "the server handled a request no key holder sent: {}", short(&x));
        }
    }
    Ok(Info::new().nt(true).class(s.net.name()).class_if(keyed, "keyed"))
}
pub fn c04_live() -> Leg {
    leg("live", o(1500, 30_000).hang(200), attack, |s: &Attack| patient(s.net, s, attack_once))
}

// ------------------------------------------------------------------ C07, live: the configured ttl
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ttl {
    net: Net,
    keys: Keys,
    /// the pause goes beyond the ttl
    beyond: bool,
    ttl_ms: u64,
    len: u16,
    before: u8,
    /// who has the ttl: the server, or the client
    client: bool,
}
fn ttl_case() -> impl Strategy<Value = Ttl> {
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], keys_any(), prop::bool::weighted(0.7), 40..90u64, 2000..6000u16, any::<u8>(), any::<bool>())
        .prop_map(|(net, keys, beyond, t, len, before, client)| Ttl { net, keys, beyond, ttl_ms: if beyond { t } else { 20_000 }, len, before, client })
}
fn ttl_server(s: &Ttl) -> R<Info> {
    let ttl = Duration::from_millis(s.ttl_ms);
    let srv = Srv::with(SrvOpts::new(s.net, &s.keys).tweak(move |b| {
        b.packet_ttl(ttl);
    }))?;
    let mut c = Raw::connect(s.net, &s.keys, srv.addr)?;
    let d = body(0, 1, s.len as usize, 9);
    let m = custom_msg(d.clone());
    let ps = c.packets(&m)?;
    ensure!(ps.len() > 1, "one-packet", "{} bytes went into one packet", d.len());
    let k = 1 + s.before as usize % (ps.len() - 1);
    for p in &ps[..k] {
        c.send_bytes(p).map_err(|e| Bad::Env(e.to_string()))?;
    }
    // a whole round trip later the packets have arrived
    let sent = Instant::now();
    let q = body(0, 2, 5, 9);
    let qm = custom_msg(q.clone());
    c.send(&qm)?;
    if let Err(e) = want(&mut c, &qm, &q, "a small request between the packets of another") {
        // with a ttl this short a slow machine is enough to lose it
        return if s.beyond { env("slow") } else { Err(e) };
    }
    std::thread::sleep(if s.beyond { ttl + Duration::from_millis(20) } else { Duration::from_millis(60) });
    for p in &ps[k..] {
        if c.send_bytes(p).is_err() {
            return bad("connection-closed", "the server closed the connection while the rest of a message was sent".to_string());
        }
    }
    if s.beyond {
        // whatever comes of it comes before the answer to the next
        let q = body(0, 3, 5, 9);
        let qm = custom_msg(q.clone());
        c.send(&qm)?;
        match want(&mut c, &qm, &q, "a small request after a message whose packets expired") {
            Err(Bad::Fail(sig, _)) if sig == "wrong-parent" => {}
            r => r?,
        }
        ensure!(!srv.log().contains(&d), "stale", "the server handled a message whose first {} of {} packets had arrived more than the packet ttl ({:?}) before the rest", k, ps.len(), ttl);
    } else {
        let r = want(&mut c, &m, &d, "a message sent with a pause well within the packet ttl");
        if r.is_err() && sent.elapsed() > ttl {
            return env("slow");
        }
        r?;
    }
    Ok(Info::new().nt(true).class(format!("server-{}", s.net.name())).class(if s.beyond { "beyond" } else { "within" }))
}
fn ttl_client(s: &Ttl) -> R<Info> {
    start_stall_monitor();
    let ttl = Duration::from_millis(s.ttl_ms);
    let pause = if s.beyond { ttl + Duration::from_millis(350) } else { Duration::from_millis(60) };
    let mut raw = Raw::wires(s.net, &s.keys);
    let lst = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
    let udp = UdpSocket::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
    let addr = if s.net == Net::Tcp { lst.local_addr().unwrap() } else { udp.local_addr().unwrap() };
    let (net, before) = (s.net, s.before);
    let data = body(0, 1, s.len as usize, 9);
    let d2 = data.clone();
    let stop = Arc::new(AtomicBool::new(false));
    let st = Arc::clone(&stop);
    let h = std::thread::spawn(move || -> R<()> {
        if net == Net::Tcp {
            let t = lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0;
            let _ = t.set_nodelay(true);
            raw.tcp = Some(t);
        } else {
            let mut b = [0; 1];
            udp.set_read_timeout(Some(PATIENCE)).unwrap();
            let (_, from) = udp.peek_from(&mut b).map_err(|e| Bad::Env(e.to_string()))?;
            udp.connect(from).map_err(|e| Bad::Env(e.to_string()))?;
            raw.udp = Some(udp);
        }
        let m = match raw.recv(PATIENCE)? {
            Got::Msg(m) => m,
            _ => return Ok(()),
        };
        let ps = raw.packets(&reply_to(&m.header, Reply::Custom(reply::CustomArgs { data: d2 })))?;
        ensure!(ps.len() > 1, "one-packet", "the reply went into one packet");
        let k = 1 + before as usize % (ps.len() - 1);
        for p in &ps[..k] {
            let _ = raw.send_bytes(p);
        }
        std::thread::sleep(pause);
        for p in &ps[k..] {
            let _ = raw.send_bytes(p);
        }
        // the next ask is answered at once
        loop {
            match raw.recv(Duration::from_millis(50))? {
                Got::Msg(m) => {
                    let _ = raw.send(&reply_to(&m.header, Reply::Heartbeat));
                }
                Got::Nothing if !st.load(Ordering::SeqCst) => continue,
                _ => return Ok(()),
            }
        }
    });
    let r = (|| -> R<Info> {
        let mut rt = local_runtime();
        let c: over_there::core::Client<DynAuth, DynCrypt> = over_there::core::ClientBuilder::default()
            .authenticator(s.keys.auth.build())
            .bicrypter(s.keys.crypt.build())
            .transport(s.net.transport(vec![addr]))
            .packet_ttl(ttl)
            .build()
            .map_err(|e| Bad::Env(format!("client builder: {}", e)))?;
        let mut c = match rt.block_on(c.connect()) {
            Ok(c) => c,
            Err(e) => return env(format!("client cannot connect: {}", e)),
        };
        c.timeout = if s.beyond { pause + Duration::from_millis(400) } else { PATIENCE };
        let got = rt.block_on(c.ask(Request::Heartbeat));
        if s.beyond {
            if got.is_ok() && stalled_ms(Duration::from_secs(2)) > 0 {
                return env("the machine stalled");
            }
            ensure!(got == Err(AskError::Timeout), "stale", "an ask returned {} from a reply whose first packets arrived {:?} before the rest, with a packet ttl of {:?}", short(&got), pause, ttl);
        } else {
            if got == Err(AskError::Timeout) {
                return lost("no-reply", format!("a reply sent with a pause of {:?} was lost, with a packet ttl of {:?}", pause, ttl));
            }
            ensure!(got == Ok(Reply::Custom(reply::CustomArgs { data: data.clone() })), "wrong-answer", "the ask returned {}", short(&got));
        }
        c.timeout = PATIENCE;
        let got = rt.block_on(c.ask(Request::Heartbeat));
        if got == Err(AskError::Timeout) {
            // with a ttl this short a slow machine is enough to lose the answer when it takes two packets
            return if s.beyond { env("slow") } else { lost("no-reply", "the ask after it got no reply".to_string()) };
        }
        ensure!(got == Ok(Reply::Heartbeat), "wrong-answer", "the ask after it returned {}", short(&got));
        Ok(Info::new().nt(true).class(format!("client-{}", s.net.name())).class(if s.beyond { "beyond" } else { "within" }))
    })();
    stop.store(true, Ordering::SeqCst);
    if s.net == Net::Tcp {
        let _ = TcpStream::connect(addr);
    } else if let Ok(u) = UdpSocket::bind("127.0.0.1:0") {
        let _ = u.send_to(&[0], addr);
    }
    let hr = h.join();
    let i = r?;
    if let Ok(Err(e)) = hr {
        return Err(e);
    }
    Ok(i)
}
pub fn c07_live() -> Leg {
    leg("live", o(300, 6_000).threads(16).hang(200), ttl_case, |s: &Ttl| patient(s.net, s, |s| if s.client { ttl_client(s) } else { ttl_server(s) }))
}

// ------------------------------------------------------------------ C06, live: replays from other sockets
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    net: Net,
    auth: AuthSpec,
    kind: CryptKind,
    cache: usize,
    /// lengths of the genuine requests
    lens: Vec<u16>,
    /// (which recorded request, over which socket: 0 its own, 1 another, 2 a new one; after how many of the genuine ones)
    again: Vec<(u8, u8, u8)>,
}
fn again() -> impl Strategy<Value = Again> {
    (
        prop_oneof![Just(Net::Tcp), Just(Net::Udp)],
        auth_any(),
        kind_enc(),
        500..2000usize,
        prop::collection::vec(prop_oneof![3 => 0..200u16, 1 => 0..3000u16], 1..6),
        prop::collection::vec((any::<u8>(), 0..3u8, any::<u8>()), 1..6),
    )
        .prop_map(|(net, auth, kind, cache, lens, again)| Again { net, auth, kind, cache, lens, again })
}
fn again_once(s: &Again) -> R<Info> {
    let plain = Keys { auth: s.auth.clone(), crypt: CryptSpec { kind: s.kind, key_seed: 5, cache: None } };
    let cached = Keys { crypt: CryptSpec { cache: Some(s.cache), ..plain.crypt.clone() }, ..plain.clone() };
    let srv = Srv::start(s.net, &cached)?;
    let mut own = Raw::connect(s.net, &plain, srv.addr)?;
    let mut other = Raw::connect(s.net, &plain, srv.addr)?;
    let mut rec: Vec<Vec<Vec<u8>>> = vec![];
    let mut bodies = vec![];
    let mut replays = 0;
    for (i, l) in s.lens.iter().enumerate() {
        let d = body(0, i, *l as usize, i as u64);
        let m = custom_msg(d.clone());
        let ps = own.packets(&m)?;
        for p in &ps {
            if own.send_bytes(p).is_err() {
                return env("send");
            }
        }
        want(&mut own, &m, &d, &format!("request {}", i))?;
        rec.push(ps);
        bodies.push(d);
        for (which, sock, after) in &s.again {
            if *after as usize % s.lens.len() != i {
                continue;
            }
            replays += 1;
            let k = *which as usize % rec.len();
            let mut fresh;
            let r = match sock {
                0 => &mut own,
                1 => &mut other,
                _ => {
                    fresh = Raw::connect(s.net, &plain, srv.addr)?;
                    &mut fresh
                }
            };
            for p in &rec[k] {
                let _ = r.send_bytes(p);
            }
            // its fate is settled when the next request on the same socket is answered; a
            // connection may be closed for it
            let q = body(0, 600 + replays, 5, 3);
            let qm = custom_msg(q.clone());
            let sent = r.send(&qm).is_ok();
            let mut alive = false;
            let end = Instant::now() + Duration::from_millis(400);
            while sent && Instant::now() < end {
                match r.recv(Duration::from_millis(400))? {
                    Got::Msg(x) if x.parent_header.as_ref() == Some(&qm.header) => {
                        alive = true;
                        break;
                    }
                    Got::Msg(_) => continue,
                    _ => break,
                }
            }
            let log = srv.log();
            let n = log.iter().filter(|x| **x == bodies[k]).count();
            ensure!(n == 1, "replay-handled", "request {} was handled {} times: its packets were recorded and sent again over {} ({} packets, cache of {})", k, n, ["its own socket", "another socket", "a new socket"][*sock as usize % 3], rec[k].len(), s.cache);
            if !alive {
                match sock {
                    0 => own = Raw::connect(s.net, &plain, srv.addr)?,
                    1 => other = Raw::connect(s.net, &plain, srv.addr)?,
                    _ => {}
                }
            }
        }
    }
    Ok(Info::new().nt(replays > 0).class(s.net.name()).class_if(rec.iter().any(|p| p.len() > 1), "multi-packet").class_if(s.again.iter().any(|x| x.1 == 1), "other-socket").class_if(s.again.iter().any(|x| x.1 == 2), "new-socket"))
}
pub fn c06_live() -> Leg {
    leg("connections", o(400, 10_000).hang(200), again, |s: &Again| patient(s.net, s, again_once))
}

// ------------------------------------------------------------------ C02, live: what goes over the network
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sized {
    net: Net,
    v6: bool,
    keys: Keys,
    /// (length of the request, how much longer the answer is)
    msgs: Vec<(u16, u16)>,
    client: bool,
}
fn sized() -> impl Strategy<Value = Sized> {
    (
        prop_oneof![1 => Just(Net::Tcp), 3 => Just(Net::Udp)],
        any::<bool>(),
        keys_any(),
        prop::collection::vec((prop_oneof![1 => 0..600u16, 2 => 600..8000u16], 0..8000u16), 1..5),
        any::<bool>(),
    )
        .prop_map(|(net, v6, keys, msgs, client)| Sized { net, v6, keys, msgs, client })
}
fn sized_once(s: &Sized) -> R<Info> {
    start_stall_monitor();
    let v6 = s.v6 && UdpSocket::bind("[::1]:0").is_ok();
    let any = if v6 { "[::1]:0" } else { "127.0.0.1:0" };
    // the documented limits of the three
    let limit = match (s.net, v6) {
        (Net::Tcp, _) => 1500,
        (_, false) => 508,
        (_, true) => 1212,
    };
    let largest;
    if s.client {
        let lst = TcpListener::bind(any).map_err(|e| Bad::Env(e.to_string()))?;
        let udp = UdpSocket::bind(any).map_err(|e| Bad::Env(e.to_string()))?;
        let addr = if s.net == Net::Tcp { lst.local_addr().unwrap() } else { udp.local_addr().unwrap() };
        let mut raw = Raw::wires(s.net, &s.keys);
        let (net, n) = (s.net, s.msgs.len());
        let h = std::thread::spawn(move || -> R<usize> {
            if net == Net::Tcp {
                raw.tcp = Some(lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0);
            } else {
                let mut b = [0; 1];
                udp.set_read_timeout(Some(PATIENCE)).unwrap();
                let (_, from) = udp.peek_from(&mut b).map_err(|e| Bad::Env(e.to_string()))?;
                udp.connect(from).map_err(|e| Bad::Env(e.to_string()))?;
                raw.udp = Some(udp);
            }
            for i in 0..n {
                match raw.recv(PATIENCE)? {
                    Got::Msg(m) => raw.send(&reply_to(&m.header, tagged(i, 0)))?,
                    g => return lost("no-reply", format!("request {} did not arrive: {:?}", i, g)),
                }
            }
            Ok(raw.largest)
        });
        let mut rt = local_runtime();
        let mut c = connect(&mut rt, s.net, &s.keys, vec![addr])?;
        let mut res = Ok(());
        for (i, (len, _)) in s.msgs.iter().enumerate() {
            let got = rt.block_on(c.ask(Request::Custom(request::CustomArgs { data: body(0, i, *len as usize, 3) })));
            if got == Err(AskError::Timeout) {
                res = lost("no-reply", format!("ask {} got no reply", i));
                break;
            }
            ensure!(got == Ok(tagged(i, 0)), "wrong-answer", "ask {} returned {}", i, short(&got));
        }
        let l = h.join().map_err(|_| Bad::Env("peer thread panicked".into()))?;
        res?;
        largest = l?;
    } else {
        let a: std::net::SocketAddr = any.parse().unwrap();
        let net = s.net;
        let srv = Srv::with(SrvOpts::new(s.net, &s.keys).tweak(move |b| {
            b.transport(net.transport(vec![a]));
        }))?;
        let mut c = if s.net == Net::Tcp {
            Raw::connect(Net::Tcp, &s.keys, srv.addr)?
        } else {
            let mut c = Raw::wires(s.net, &s.keys);
            let u = UdpSocket::bind(any).map_err(|e| Bad::Env(e.to_string()))?;
            u.connect(srv.addr).map_err(|e| Bad::Env(e.to_string()))?;
            c.udp = Some(u);
            c
        };
        for (i, (len, grow)) in s.msgs.iter().enumerate() {
            let d = big_body(0, i, *len, *grow as u32);
            let m = custom_msg(d.clone());
            c.send(&m)?;
            want(&mut c, &m, &d, &format!("request {}", i))?;
        }
        largest = c.largest;
    }
    ensure!(largest <= limit, "oversized", "a packet of {} bytes went over {}{}, which takes {}", largest, s.net.name(), if v6 { "6" } else { "" }, limit);
    Ok(Info::new().nt(largest > 400).class(format!("{}{}-{}", s.net.name(), if v6 { "6" } else { "" }, if s.client { "client" } else { "server" })))
}
pub fn c02_live() -> Leg {
    leg("live", o(600, 15_000).hang(200), sized, |s: &Sized| patient(s.net, s, sized_once))
}
