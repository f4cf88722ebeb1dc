//! Shutting a server down.
use crate::e2e::*;
use crate::fw::*;
use crate::p_net::{answer_of, big_body, body, exchange, patient};
use crate::wirekit::*;
use over_there::core::{AskError, Content, Msg, Reply, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

/// A client there when the server is shut down
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guest {
    /// requests answered before
    before: u8,
    /// requests sent just before: (kind: 0 at once, 1 error, 2 big answer, 3 slow, 4 would take seconds; size)
    pending: Vec<(u8, u16)>,
    /// reads the answers as they come (or only at the end)
    reads: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stop {
    net: Net,
    keys: Keys,
    buffer: u8,
    guests: Vec<Guest>,
    /// ms between the last request and the shutdown
    ms: u8,
    /// a client that stays silent, library clients that ask afterwards
    silent: bool,
    asks: u8,
    twice: bool,
    /// how many servers on the same address afterwards
    again: u8,
}
fn guest() -> impl Strategy<Value = Guest> {
    (0..4u8, prop::collection::vec((prop_oneof![4 => 0..4u8, 1 => Just(4u8)], 0..3000u16), 0..6), any::<bool>()).prop_map(|(before, pending, reads)| Guest { before, pending, reads })
}
fn stop() -> impl Strategy<Value = Stop> {
    (prop_oneof![3 => Just(Net::Tcp), 2 => Just(Net::Udp)], keys_any(), prop_oneof![1..4u8, 100..=255u8], prop::collection::vec(guest(), 0..5), 0..60u8, any::<bool>(), 0..3u8, any::<bool>(), 0..3u8)
        .prop_map(|(net, keys, buffer, guests, ms, silent, asks, twice, again)| Stop { net, keys, buffer, guests, ms, silent, asks, twice, again })
}
/// An address of the loopback network nothing else here uses
fn own_addr(net: Net) -> SocketAddr {
    static NEXT: AtomicU32 = AtomicU32::new(1);
    let n = NEXT.fetch_add(1, Ordering::SeqCst) + std::process::id().wrapping_mul(7919);
    let port = if net == Net::Tcp { 20_000 } else { 21_000 } + (n % 9000) as u16;
    SocketAddr::from(([127, 78, (n >> 8) as u8, (n as u8).max(1)], port))
}
fn stop_once(s: &Stop) -> R<Info> {
    let addr = own_addr(s.net);
    let (net, n) = (s.net, s.buffer.max(1) as usize);
    let start = || {
        Srv::with(SrvOpts::new(net, &s.keys).tweak(move |b| {
            b.buffer(n).transport(net.transport(vec![addr]));
        }))
    };
    let scratch = Scratch::new()?;
    let never = scratch.path().join("never").display().to_string();
    let mut srv = match start() {
        Ok(s) => s,
        Err(Bad::Fail(_, m)) => return env(m),
        Err(e) => return Err(e),
    };
    let mut rt = local_runtime();
    let mut guests = vec![];
    for (g, x) in s.guests.iter().enumerate() {
        let mut r = Raw::connect(net, &s.keys, addr)?;
        for i in 0..x.before as usize {
            exchange(&mut r, 100 * g + i, g as u64)?;
        }
        guests.push((r, vec![] as Vec<(Msg, Vec<u8>)>));
    }
    let mut quiet = if s.silent { Some(Raw::connect(net, &s.keys, addr)?) } else { None };
    if let (Some(q), true) = (&mut quiet, s.ms % 2 == 0) {
        exchange(q, 9000, 5)?;
    }
    let mut asks = vec![];
    for _ in 0..s.asks {
        let mut c = srv.client(&mut rt)?;
        match rt.block_on(c.ask(Request::Heartbeat)) {
            Ok(Reply::Heartbeat) => {}
            x => return lost("no-reply", format!("an ask before the shutdown: {:?}", x)),
        }
        asks.push(c);
    }
    let mut slow = false;
    for (g, x) in s.guests.iter().enumerate() {
        for (i, (kind, size)) in x.pending.iter().enumerate() {
            let mut d = match kind {
                2 => big_body(g, 1000 + i, *size, if net == Net::Tcp { *size as u32 * 20 } else { *size as u32 }),
                _ => body(*kind, 1000 + 100 * g + i, *size as usize % 400, g as u64),
            };
            match kind {
                3 => d[1] = *size as u8,
                4 => {
                    d.truncate(8);
                    d.extend(never.as_bytes());
                    slow = true;
                }
                _ => {}
            }
            let m = custom_msg(d.clone());
            guests[g].0.send(&m)?;
            guests[g].1.push((m, d));
        }
    }
    std::thread::sleep(Duration::from_millis(s.ms as u64));

    let t = Instant::now();
    let ended = srv.shut_down(s.twice)?;
    let took = t.elapsed();
    match ended {
        None => return lost("goes-on", "12 s after the shutdown the server still has not ended".into()),
        Some(Err(e)) => return bad("ended-badly", format!("waiting for the server to end gives {}", e)),
        Some(Ok(())) => {}
    }
    if slow && took > Duration::from_secs(5) {
        return lost("ends-late", format!("the server ended only {:?} after the shutdown, having waited for a request being handled", took));
    }
    // nothing sent from now on is handled or answered
    let mut late = vec![];
    let mut say = |r: &mut Raw, i: usize| -> R<()> {
        let d = body(0, 5000 + i, 24, 99 + i as u64);
        let _ = r.send(&custom_msg(d.clone()));
        late.push(d);
        Ok(())
    };
    for (g, (r, _)) in guests.iter_mut().enumerate() {
        say(r, g)?;
    }
    if let Some(q) = &mut quiet {
        say(q, 50)?;
    }
    if let Ok(mut r) = Raw::connect(net, &s.keys, addr) {
        if net == Net::Tcp {
            return bad("listens", format!("the server has ended but {} still accepts connections", addr));
        }
        say(&mut r, 60)?;
    }
    // what was still answered is right, and in order; then connections are closed
    let mut answers = 0;
    for (g, (mut r, sent)) in guests.into_iter().map(|(r, s)| (r, s)).chain(quiet.map(|q| (q, vec![]))).enumerate() {
        let mut next = 0;
        loop {
            match r.recv(if net == Net::Tcp { PATIENCE } else { Duration::from_millis(30) }) {
                Ok(Got::Msg(m)) => {
                    let k = sent[next..].iter().position(|(x, _)| m.parent_header.as_ref() == Some(&x.header));
                    ensure!(k.is_some(), "answered", "client {}: after the shutdown it gets {}, which answers none of what it sent before, or out of turn", g, clip(&format!("{:?}", m), 300));
                    next += k.unwrap() + 1;
                    ensure!(m.content == Content::Reply(answer_of(&sent[next - 1].1)), "wrong-reply", "client {}: request {} is answered {}", g, next - 1, clip(&format!("{:?}", m), 300));
                    answers += 1;
                }
                Ok(Got::Nothing) if net == Net::Udp => break,
                Ok(Got::Nothing) => return lost("kept-open", format!("client {}: 12 s after the server's end its connection is still open", g)),
                _ => break,
            }
        }
    }
    for (i, mut c) in asks.into_iter().enumerate() {
        c.timeout = Duration::from_millis(300);
        let t = Instant::now();
        let x = rt.block_on(c.ask(Request::Heartbeat));
        ensure!(x.is_err(), "answered", "ask {} after the server's end gives {:?}", i, x);
        if t.elapsed() > Duration::from_secs(4) {
            return lost("ask-hangs", format!("ask {} after the server's end took {:?}", i, t.elapsed()));
        }
        ensure!(!matches!(x, Err(AskError::InvalidResponse { .. })), "answered", "ask {} after the server's end gives {:?}", i, x);
    }
    // the address is free for others
    for k in 0..s.again {
        let t = Instant::now();
        let mut next = loop {
            match start() {
                Ok(s) => break s,
                Err(Bad::Fail(_, m)) => {
                    if t.elapsed() > PATIENCE {
                        return lost("address-kept", format!("server {} on {}: {}", k, addr, m));
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                Err(e) => return Err(e),
            }
        };
        for i in 0..2 {
            exchange(&mut Raw::connect(net, &s.keys, addr)?, 7000 + i, 3 + i as u64)?;
        }
        if k + 1 < s.again {
            match next.shut_down(false)? {
                Some(Ok(())) => {}
                None => return lost("goes-on", format!("12 s after the shutdown server {} still has not ended", k)),
                Some(Err(e)) => return bad("ended-badly", format!("waiting for server {} to end gives {}", k, e)),
            }
        }
    }
    std::thread::sleep(Duration::from_millis(15));
    let log = srv.log();
    for d in &late {
        ensure!(!log.contains(d), "handled", "a request sent after the server's end was handled");
    }
    let there = s.guests.len() + s.silent as usize + s.asks as usize;
    Ok(Info::new().nt(there > 0).class(net.name()).class_if(slow, "handling").class_if(answers > 0, "answers-under-way").class_if(s.again > 0, "again").class_if(s.silent, "silent"))
}
pub fn c28() -> Check {
    Check {
        rule: "stop: a server over TCP or UDP with up to five raw clients (some with requests just sent, of which some take seconds to handle, some with large answers they have not read), a silent one and library clients; it is shut down, once or twice, and up to two others are started on the same address one after the other. Non-trivial: some client is there. Oracle: waiting for the server ends, without an error and without a request being handled holding it up; what clients still get answers what they sent before, in order and unaltered, then TCP connections are closed and none is accepted; what is sent afterwards is neither handled nor answered; another server serves on the address.",
        assumptions: vec!["what did not happen within 12 s (over UDP: three runs in a row) on a machine that was running never does"],
        legs: vec![leg("stop", o(500, 10_000).hang(200), stop, |s: &Stop| patient(s.net, s, stop_once))],
    }
}
