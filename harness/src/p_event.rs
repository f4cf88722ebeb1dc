//! The public pieces below servers and clients: wires bound to sockets, and event managers.
use crate::e2e::*;
use crate::fw::*;
use crate::p_net::patient;
use crate::wirekit::*;
use over_there::core::transport::{TcpStreamInboundWire, TcpStreamOutboundWire, UdpSocketInboundWire, UdpSocketOutboundWire, Wire};
use over_there::core::{reply, request, AddrEventManager, EventManager, Msg, Reply, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;
use tokio::sync::mpsc;
use tokio::time::timeout;

const HOUR: Duration = Duration::from_secs(3600);
fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| Bad::Env(format!("{}: {}", what, e)))
}
fn wire(ts: usize, k: &Keys) -> Wire<DynAuth, DynCrypt> {
    Wire::new(ts, HOUR, k.auth.build(), k.crypt.build())
}
fn late<T>(what: &str) -> R<T> {
    lost("lost", format!("{} did not happen within {:?}", what, PATIENCE))
}
fn show(x: &impl std::fmt::Debug) -> String {
    clip(&format!("{:?}", x), 300)
}

// ------------------------------------------------------------------ wires on sockets
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wires {
    net: Net,
    keys: Keys,
    ts: usize,
    /// which ends are split by cloning
    clone: (bool, bool),
    /// bursts of (from the first end?, other end, payload)
    bursts: Vec<Vec<(bool, u8, Payload)>>,
}
fn wires() -> impl Strategy<Value = Wires> {
    let tcp = (
        keys_any(),
        prop_oneof![300..600usize, Just(1500), 300..6000usize],
        any::<(bool, bool)>(),
        prop::collection::vec(prop::collection::vec((any::<bool>(), Just(0u8), payload(20_000)), 1..6), 1..4),
    )
        .prop_map(|(keys, ts, clone, bursts)| Wires { net: Net::Tcp, keys, ts, clone, bursts });
    let udp = (
        keys_any(),
        prop_oneof![300..600usize, Just(508), Just(1212), 300..6000usize, Just(65507)],
        any::<(bool, bool)>(),
        prop::collection::vec(prop::collection::vec((any::<bool>(), 0..3u8, payload(4_000)), 1..5), 1..5),
    )
        .prop_map(|(keys, ts, clone, bursts)| Wires { net: Net::Udp, keys, ts, clone, bursts });
    // (large datagrams one at a time, as they wait in a buffer of limited size)
    let large = (
        any::<bool>(),
        keys_any(),
        prop_oneof![6_000..65_508usize, Just(65_507)],
        any::<(bool, bool)>(),
        prop::collection::vec((any::<bool>(), 0..3u8, prop_oneof![payload(60_000), (20_000..64_000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed })]), 1..5),
    )
        .prop_map(|(tcp, keys, ts, clone, b)| Wires { net: if tcp { Net::Tcp } else { Net::Udp }, keys, ts: if tcp { ts * 4 } else { ts }, clone, bursts: b.into_iter().map(|x| vec![if tcp { (x.0, 0, x.2) } else { x }]).collect() });
    prop_oneof![3 => tcp, 3 => udp, 1 => large]
}
type Bytes = Vec<u8>;
fn bursts(s: &Wires) -> Vec<Vec<(bool, u8, Bytes)>> {
    // empty messages have no packets; every message is told from the others by its first bytes
    let mut n = 0u16;
    s.bursts
        .iter()
        .map(|b| {
            b.iter()
                .map(|(d, p, x)| {
                    n += 1;
                    let mut v = n.to_be_bytes().to_vec();
                    v.extend(x.get());
                    (*d, *p, v)
                })
                .collect()
        })
        .collect()
}
macro_rules! tcp_ends {
    ($inn:expr, $out:expr) => {
        (Box::new($inn) as Box<dyn TcpIn>, Box::new($out) as Box<dyn TcpOut>)
    };
}
use futures::future::{BoxFuture, FutureExt};
trait TcpIn: Send {
    fn read(&mut self) -> BoxFuture<'_, Result<(Option<Bytes>, SocketAddr), String>>;
}
trait TcpOut: Send {
    fn write<'a>(&'a mut self, b: &'a [u8], to: SocketAddr) -> BoxFuture<'a, Result<(), String>>;
}
use over_there::core::transport::{Decrypter, Encrypter, Signer, Verifier};
impl<V: Verifier + Send + Sync, D: Decrypter + Send + Sync> TcpIn for TcpStreamInboundWire<V, D> {
    fn read(&mut self) -> BoxFuture<'_, Result<(Option<Bytes>, SocketAddr), String>> {
        TcpStreamInboundWire::read(self).map(|r| r.map_err(|e| e.to_string())).boxed()
    }
}
impl<V: Verifier + Send + Sync, D: Decrypter + Send + Sync> TcpIn for UdpSocketInboundWire<V, D> {
    fn read(&mut self) -> BoxFuture<'_, Result<(Option<Bytes>, SocketAddr), String>> {
        UdpSocketInboundWire::read(self).map(|r| r.map_err(|e| e.to_string())).boxed()
    }
}
impl<S: Signer + Send + Sync, E: Encrypter + Send + Sync> TcpOut for TcpStreamOutboundWire<S, E> {
    fn write<'a>(&'a mut self, b: &'a [u8], _: SocketAddr) -> BoxFuture<'a, Result<(), String>> {
        TcpStreamOutboundWire::write(self, b).map(|r| r.map_err(|e| e.to_string())).boxed()
    }
}
impl<S: Signer + Send + Sync, E: Encrypter + Send + Sync> TcpOut for UdpSocketOutboundWire<S, E> {
    fn write<'a>(&'a mut self, b: &'a [u8], to: SocketAddr) -> BoxFuture<'a, Result<(), String>> {
        UdpSocketOutboundWire::write_to(self, b, to).map(|r| r.map_err(|e| e.to_string())).boxed()
    }
}
type End = (Box<dyn TcpIn>, Box<dyn TcpOut>);
fn tcp_end(w: Wire<DynAuth, DynCrypt>, s: TcpStream, remote: SocketAddr, clone: bool) -> R<End> {
    let s = io("from_std", tokio::net::TcpStream::from_std(s))?;
    let w = w.with_tcp_stream(s, remote);
    Ok(if clone {
        let (i, o) = w.clone_split();
        tcp_ends!(i, o)
    } else {
        let (i, o) = w.arc_split();
        tcp_ends!(i, o)
    })
}
fn udp_end(w: Wire<DynAuth, DynCrypt>, s: UdpSocket, clone: bool) -> R<End> {
    let s = io("from_std", tokio::net::UdpSocket::from_std(s))?;
    let w = w.with_udp_socket(s);
    Ok(if clone {
        let (i, o) = w.clone_split();
        tcp_ends!(i, o)
    } else {
        let (i, o) = w.arc_split();
        tcp_ends!(i, o)
    })
}
/// Reads until `n` messages came
async fn read_n(i: &mut Box<dyn TcpIn>, n: usize) -> Result<Vec<(Bytes, SocketAddr)>, Bad> {
    let mut v = vec![];
    while v.len() < n {
        match timeout(PATIENCE, i.read()).await {
            Err(_) => return late(&format!("receiving message {} of {}", v.len() + 1, n)),
            Ok(Err(e)) => return bad("read-error", format!("reading message {} of {}: {}", v.len() + 1, n, e)),
            Ok(Ok((Some(d), a))) => v.push((d, a)),
            Ok(Ok((None, _))) => {}
        }
    }
    Ok(v)
}
async fn write_all(o: &mut Box<dyn TcpOut>, v: &[(Bytes, SocketAddr)]) -> R<()> {
    for (b, to) in v {
        match timeout(PATIENCE, o.write(b, *to)).await {
            Err(_) => return late("writing a message"),
            Ok(Err(e)) => return bad("write-error", format!("a message of {} bytes: {}", b.len(), e)),
            Ok(Ok(())) => {}
        }
    }
    Ok(())
}
fn same(what: &str, got: &[(Bytes, SocketAddr)], want: &[(Bytes, SocketAddr)]) -> R<()> {
    // in order for each sender
    for (_, a) in want.iter().chain(got) {
        let g: Vec<&Bytes> = got.iter().filter(|x| x.1 == *a).map(|x| &x.0).collect();
        let w: Vec<&Bytes> = want.iter().filter(|x| x.1 == *a).map(|x| &x.0).collect();
        ensure!(g == w, "altered", "{}: from {} came messages of {:?} bytes, sent were {:?}: {} / {}", what, a, g.iter().map(|x| x.len()).collect::<Vec<_>>(), w.iter().map(|x| x.len()).collect::<Vec<_>>(), show(&g), show(&w));
    }
    Ok(())
}
fn wires_once(s: &Wires) -> R<Info> {
    start_stall_monitor();
    let mut rt = local_runtime();
    let all = bursts(s);
    if s.net == Net::Tcp {
        let l = io("bind", TcpListener::bind("127.0.0.1:0"))?;
        let a = io("connect", TcpStream::connect(l.local_addr().unwrap()))?;
        let (b, _) = io("accept", l.accept())?;
        let (aa, ba) = (a.local_addr().unwrap(), b.local_addr().unwrap());
        let (mut a, mut b) = rt.enter(|| -> R<(End, End)> { Ok((tcp_end(wire(s.ts, &s.keys), a, ba, s.clone.0)?, tcp_end(wire(s.ts, &s.keys), b, aa, s.clone.1)?)) })?;
        for burst in &all {
            let down: Vec<_> = burst.iter().filter(|x| x.0).map(|x| (x.2.clone(), ba)).collect();
            let up: Vec<_> = burst.iter().filter(|x| !x.0).map(|x| (x.2.clone(), aa)).collect();
            let (w1, w2, r1, r2) = rt.block_on(async { tokio::join!(write_all(&mut a.1, &down), write_all(&mut b.1, &up), read_n(&mut b.0, down.len()), read_n(&mut a.0, up.len())) });
            w1?;
            w2?;
            // what an end receives comes from the other
            same("first to second", &r1?, &down.iter().map(|x| (x.0.clone(), aa)).collect::<Vec<_>>())?;
            same("second to first", &r2?, &up.iter().map(|x| (x.0.clone(), ba)).collect::<Vec<_>>())?;
        }
        drop(a);
        let end = rt.block_on(async { timeout(PATIENCE, b.0.read()).await });
        match end {
            Err(_) => return late("noticing the end of the stream"),
            Ok(Ok(x)) => return bad("made-up", format!("the stream is over, but reading gave {}", show(&x))),
            Ok(Err(_)) => {}
        }
    } else {
        let hub = io("bind", UdpSocket::bind("127.0.0.1:0"))?;
        let ha = hub.local_addr().unwrap();
        let mut ends = vec![];
        let mut addrs = vec![];
        let mut hub = rt.enter(|| udp_end(wire(s.ts, &s.keys), hub, s.clone.0))?;
        for _ in 0..3 {
            let p = io("bind", UdpSocket::bind("127.0.0.1:0"))?;
            addrs.push(p.local_addr().unwrap());
            ends.push(rt.enter(|| udp_end(wire(s.ts, &s.keys), p, s.clone.1))?);
        }
        for burst in &all {
            let up: Vec<_> = burst.iter().filter(|x| !x.0).collect();
            for (_, p, d) in &up {
                rt.block_on(write_all(&mut ends[*p as usize].1, &[(d.clone(), ha)]))?;
            }
            let got = rt.block_on(read_n(&mut hub.0, up.len()))?;
            same("to the hub", &got, &up.iter().map(|x| (x.2.clone(), addrs[x.1 as usize])).collect::<Vec<_>>())?;
            for p in 0..3u8 {
                let down: Vec<_> = burst.iter().filter(|x| x.0 && x.1 == p).map(|x| (x.2.clone(), addrs[p as usize])).collect();
                rt.block_on(write_all(&mut hub.1, &down))?;
            }
            for p in 0..3u8 {
                let want: Vec<_> = burst.iter().filter(|x| x.0 && x.1 == p).map(|x| (x.2.clone(), ha)).collect();
                let got = rt.block_on(read_n(&mut ends[p as usize].0, want.len()))?;
                same("from the hub", &got, &want)?;
            }
        }
    }
    let long = all.iter().flatten().any(|x| x.2.len() > s.ts);
    Ok(Info::new().nt(long && all.iter().flatten().count() > 1).class(s.net.name()).class_if(s.clone.0 != s.clone.1, "split-differently"))
}

// ------------------------------------------------------------------ managers of many peers
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Tcp,
    Udp,
    UdpClone,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// peers send, then all is received
    Up(Vec<(u8, u16)>),
    /// through the sender that came with the last message of the peer
    Via(u8, u16),
    /// through the manager, by address
    To(u8, u16),
    /// to an address nobody is at
    Nobody(u16),
    /// the peer reads what it was sent
    Read(u8),
    Close(u8),
    Again(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Managed {
    kind: Kind,
    keys: Keys,
    queue: u8,
    peers: u8,
    ops: Vec<Op>,
}
fn managed() -> impl Strategy<Value = Managed> {
    let p = 0..4u8;
    let len = prop_oneof![2 => 0..300u16, 1 => 300..3000u16];
    let op = prop_oneof![
        4 => prop::collection::vec((p.clone(), len.clone()), 1..5).prop_map(Op::Up),
        3 => (p.clone(), len.clone()).prop_map(|(p, l)| Op::Via(p, l)),
        5 => (p.clone(), len.clone()).prop_map(|(p, l)| Op::To(p, l)),
        1 => len.prop_map(Op::Nobody),
        2 => p.clone().prop_map(Op::Read),
        1 => p.clone().prop_map(Op::Close),
        1 => p.prop_map(Op::Again),
    ];
    (prop_oneof![2 => Just(Kind::Tcp), 1 => Just(Kind::Udp), 1 => Just(Kind::UdpClone)], keys_any(), 1..12u8, 1..5u8, prop::collection::vec(op, 1..30))
        .prop_map(|(kind, keys, queue, peers, ops)| Managed { kind, keys, queue, peers, ops })
}
enum Tx {
    Tcp(mpsc::Sender<Vec<u8>>),
    Udp(mpsc::Sender<(Vec<u8>, SocketAddr)>),
}
enum Rx {
    Tcp(mpsc::Receiver<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>),
    Udp(mpsc::Receiver<(Msg, SocketAddr, mpsc::Sender<(Vec<u8>, SocketAddr)>)>),
}
impl Rx {
    fn next(&mut self, rt: &mut Runtime) -> R<(Msg, SocketAddr, Tx)> {
        let r = match self {
            Rx::Tcp(r) => rt.block_on(async { timeout(PATIENCE, r.recv()).await }).map(|x| x.map(|(m, a, t)| (m, a, Tx::Tcp(t)))),
            Rx::Udp(r) => rt.block_on(async { timeout(PATIENCE, r.recv()).await }).map(|x| x.map(|(m, a, t)| (m, a, Tx::Udp(t)))),
        };
        match r {
            Err(_) => late("passing on a received message"),
            Ok(None) => bad("ended", "the manager stopped receiving"),
            Ok(Some(x)) => Ok(x),
        }
    }
}
struct Peer {
    raw: Raw,
    addr: SocketAddr,
    tx: Option<Tx>,
    via: VecDeque<Msg>,
    to: VecDeque<Msg>,
    known: bool,
}
/// A connection is passed on by the manager and known to it by its address at about the same time
fn hello() -> Msg {
    let mut m = Msg::from(Reply::Custom(reply::CustomArgs { data: b"hello".to_vec() }));
    m.header.id = 7;
    m
}
fn is_hello(m: &Msg) -> bool {
    m.content == hello().content
}
fn greet(m: &mut AddrEventManager, rt: &mut Runtime, x: &mut Peer) -> R<()> {
    if x.known {
        return Ok(());
    }
    x.known = true;
    drain(x)?;
    let end = Instant::now() + PATIENCE;
    while Instant::now() < end {
        match rt.block_on(async { timeout(PATIENCE, m.send_to(hello().to_vec().unwrap(), x.addr)).await }) {
            Err(_) => return late("taking a message to send"),
            Ok(Err(_)) => return bad("refused", "the manager takes no message"),
            Ok(Ok(())) => {}
        }
        match x.raw.recv(Duration::from_millis(500))? {
            Got::Msg(g) if is_hello(&g) => return Ok(()),
            Got::Nothing => {}
            g => return bad("misdelivered", format!("a peer received {:?} in place of a greeting", g)),
        }
    }
    late("sending to the address a message came from")
}
fn data(n: &mut u32, len: u16) -> Vec<u8> {
    *n += 1;
    let mut v = n.to_be_bytes().to_vec();
    v.extend(bytes(*n as u64, len as usize));
    v
}
fn question(n: &mut u32, len: u16) -> Msg {
    Msg::from(Request::Custom(request::CustomArgs { data: data(n, len) }))
}
fn answer(n: &mut u32, len: u16) -> Msg {
    Msg::from(Reply::Custom(reply::CustomArgs { data: data(n, len) }))
}
fn drain(p: &mut Peer) -> R<()> {
    while !p.via.is_empty() || !p.to.is_empty() {
        let m = match p.raw.recv(PATIENCE)? {
            Got::Msg(m) if is_hello(&m) => continue,
            Got::Msg(m) => m,
            Got::Nothing => return late(&format!("receiving {} + {} messages at a peer", p.via.len(), p.to.len())),
            g => return bad("cut-off", format!("{} + {} messages are still to come: {:?}", p.via.len(), p.to.len(), g)),
        };
        // two ways lead to a peer, and only what takes the same way keeps its order
        if p.via.front() == Some(&m) {
            p.via.pop_front();
        } else if p.to.front() == Some(&m) {
            p.to.pop_front();
        } else {
            return bad("misdelivered", format!("a peer received {} while expecting {} or {}", show(&m), show(&p.via.front()), show(&p.to.front())));
        }
    }
    Ok(())
}
fn managed_once(s: &Managed) -> R<Info> {
    start_stall_monitor();
    let net = if s.kind == Kind::Tcp { Net::Tcp } else { Net::Udp };
    let mut rt = server_runtime();
    let h = rt.handle().clone();
    let q = s.queue as usize;
    let w = wire(net.size(), &s.keys);
    let (mut m, addr, mut rx) = match s.kind {
        Kind::Tcp => {
            let l = io("bind", TcpListener::bind("127.0.0.1:0"))?;
            let a = l.local_addr().unwrap();
            let l = io("from_std", rt.enter(|| tokio::net::TcpListener::from_std(l)))?;
            let (tx, rx) = mpsc::channel(q);
            (rt.enter(|| AddrEventManager::for_tcp_listener(h, q, l, w, tx)), a, Rx::Tcp(rx))
        }
        k => {
            let l = io("bind", UdpSocket::bind("127.0.0.1:0"))?;
            let a = l.local_addr().unwrap();
            let l = io("from_std", rt.enter(|| tokio::net::UdpSocket::from_std(l)))?;
            let (tx, rx) = mpsc::channel(q);
            let m = rt.enter(|| {
                if k == Kind::Udp {
                    AddrEventManager::for_udp_socket(h, q, l, w, tx)
                } else {
                    AddrEventManager::for_udp_socket_with_cloneable_wire(h, q, l, w, tx)
                }
            });
            (m, a, Rx::Udp(rx))
        }
    };
    let mut peers: HashMap<u8, Peer> = HashMap::new();
    let mut n = 0u32;
    let mut closed = false;
    let mut tos = 0;
    let join = |peers: &mut HashMap<u8, Peer>, p: u8| -> R<()> {
        let raw = Raw::connect(net, &s.keys, addr)?;
        let a = raw.tcp.as_ref().map(|t| t.local_addr().unwrap()).or_else(|| raw.udp.as_ref().map(|u| u.local_addr().unwrap())).unwrap();
        peers.insert(p, Peer { raw, addr: a, tx: None, via: VecDeque::new(), to: VecDeque::new(), known: net == Net::Udp });
        Ok(())
    };
    let up = |peers: &mut HashMap<u8, Peer>, rx: &mut Rx, rt: &mut Runtime, n: &mut u32, v: &[(u8, u16)]| -> R<()> {
        let mut sent: HashMap<SocketAddr, VecDeque<Msg>> = HashMap::new();
        let mut count = 0;
        for (p, len) in v {
            if let Some(x) = peers.get_mut(p) {
                let msg = question(n, *len);
                x.raw.send(&msg)?;
                sent.entry(x.addr).or_default().push_back(msg);
                count += 1;
            }
        }
        for _ in 0..count {
            let (msg, a, tx) = rx.next(rt)?;
            let want = sent.get_mut(&a).and_then(|x| x.pop_front());
            ensure!(want.as_ref() == Some(&msg), "altered", "received {} from {}, sent was {}", show(&msg), a, show(&want));
            peers.values_mut().find(|x| x.addr == a).unwrap().tx = Some(tx);
        }
        Ok(())
    };
    for p in 0..s.peers {
        join(&mut peers, p)?;
    }
    for op in &s.ops {
        match op {
            Op::Up(v) => up(&mut peers, &mut rx, &mut rt, &mut n, v)?,
            Op::Via(p, len) => {
                if let Some(x) = peers.get_mut(p) {
                    let msg = answer(&mut n, *len);
                    let d = msg.to_vec().unwrap();
                    let a = x.addr;
                    let ok = match &mut x.tx {
                        None => continue,
                        Some(Tx::Tcp(t)) => rt.block_on(async { timeout(PATIENCE, t.send(d)).await }).map(|r| r.is_ok()),
                        Some(Tx::Udp(t)) => rt.block_on(async { timeout(PATIENCE, t.send((d, a))).await }).map(|r| r.is_ok()),
                    };
                    match ok {
                        Err(_) => return late("taking a message to send"),
                        Ok(false) => return bad("refused", "the sender that came with a message takes no reply"),
                        Ok(true) => x.via.push_back(msg),
                    }
                }
            }
            Op::To(p, len) => {
                if let Some(x) = peers.get_mut(p) {
                    // known by its address once a message came from it
                    if net == Net::Tcp && x.tx.is_none() {
                        continue;
                    }
                    greet(&mut m, &mut rt, x)?;
                    let msg = answer(&mut n, *len);
                    let d = msg.to_vec().unwrap();
                    match rt.block_on(async { timeout(PATIENCE, m.send_to(d, x.addr)).await }) {
                        Err(_) => return late("taking a message to send"),
                        Ok(Err(_)) => return bad("refused", "the manager takes no message"),
                        Ok(Ok(())) => x.to.push_back(msg),
                    }
                    tos += 1;
                }
            }
            Op::Nobody(len) => {
                let d = answer(&mut n, *len).to_vec().unwrap();
                match rt.block_on(async { timeout(PATIENCE, m.send_to(d, "127.0.0.1:1".parse().unwrap())).await }) {
                    Err(_) => return late("taking a message to send"),
                    Ok(Err(_)) => return bad("refused", "the manager takes no message"),
                    Ok(Ok(())) => {}
                }
            }
            Op::Read(p) => {
                if let Some(x) = peers.get_mut(p) {
                    drain(x)?
                }
            }
            Op::Close(p) => {
                if let Some(x) = peers.remove(p) {
                    // no reply has to arrive at a peer that is gone, but sending to it disturbs nobody
                    drop(x.raw);
                    let d = answer(&mut n, 10).to_vec().unwrap();
                    let _ = rt.block_on(async { timeout(PATIENCE, m.send_to(d.clone(), x.addr)).await });
                    match x.tx {
                        Some(Tx::Tcp(mut t)) => drop(rt.block_on(async { timeout(PATIENCE, t.send(d)).await })),
                        Some(Tx::Udp(mut t)) => drop(rt.block_on(async { timeout(PATIENCE, t.send((d, x.addr))).await })),
                        None => {}
                    }
                    closed = true;
                }
            }
            Op::Again(p) => {
                if !peers.contains_key(p) {
                    join(&mut peers, *p)?
                }
            }
        }
        // datagrams wait in a buffer of limited size
        if net == Net::Udp {
            for x in peers.values_mut() {
                if x.via.len() + x.to.len() > 4 {
                    drain(x)?
                }
            }
        }
    }
    for x in peers.values_mut() {
        drain(x)?
    }
    // and everything still works
    join(&mut peers, 200)?;
    up(&mut peers, &mut rx, &mut rt, &mut n, &[(200, 5)])?;
    let x = peers.get_mut(&200).unwrap();
    greet(&mut m, &mut rt, x)?;
    let msg = answer(&mut n, 700);
    match rt.block_on(async { timeout(PATIENCE, m.send_to(msg.to_vec().unwrap(), x.addr)).await }) {
        Ok(Ok(())) => x.to.push_back(msg),
        _ => return bad("refused", "the manager takes no message at the end"),
    }
    drain(x)?;
    let nt = tos > 0 && s.peers > 1;
    drop(peers);
    drop(m);
    end_runtime(rt);
    Ok(Info::new().nt(nt).class(format!("{:?}", s.kind)).class_if(closed, "peer-left"))
}

// ------------------------------------------------------------------ one stream, and waiting for its end
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    keys: Keys,
    queue: u8,
    /// (manager sends?, length), before anyone waits
    before: Vec<(bool, u16)>,
    /// and while someone waits for the end
    during: Vec<(bool, u16)>,
    /// 0: the peer says it will send no more and reads on; 1: closes; 2: resets
    end: u8,
    /// a connected client instead of a bare manager
    client: bool,
}
fn stream() -> impl Strategy<Value = Stream> {
    let v = || prop::collection::vec((any::<bool>(), prop_oneof![2 => 0..300u16, 1 => 300..6000u16]), 0..6);
    (keys_any(), 1..8u8, v(), v(), 0..3u8, prop::bool::weighted(0.3)).prop_map(|(keys, queue, before, during, end, client)| Stream { keys, queue, before, during, end, client })
}
fn reset(t: TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(t.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}
fn wait_for(f: &AtomicBool) -> bool {
    let end = Instant::now() + PATIENCE;
    while Instant::now() < end {
        if f.load(Ordering::SeqCst) {
            return true;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    f.load(Ordering::SeqCst)
}
fn stream_once(s: &Stream) -> R<Info> {
    start_stall_monitor();
    let mut rt = server_runtime();
    let l = io("bind", TcpListener::bind("127.0.0.1:0"))?;
    let addr = l.local_addr().unwrap();
    let mut raw = Raw::wires(Net::Tcp, &s.keys);
    let done = Arc::new(AtomicBool::new(false));
    let failed = Arc::new(AtomicBool::new(false));
    let (d2, f2) = (Arc::clone(&done), Arc::clone(&failed));
    let mut n = 0;
    if s.client {
        let mut c = connect(&mut rt, Net::Tcp, &s.keys, vec![addr])?;
        raw.tcp = Some(io("accept", l.accept())?.0);
        for (_, len) in &s.before {
            let d = data(&mut n, *len);
            io("tell", rt.block_on(c.tell(Request::Custom(request::CustomArgs { data: d.clone() }))).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{:?}", e))))?;
            match raw.recv(PATIENCE)? {
                Got::Msg(m) => ensure!(m.content == over_there::core::Content::Request(Request::Custom(request::CustomArgs { data: d })), "altered", "the peer received {}", show(&m)),
                g => return lost("lost", format!("a told request did not arrive: {:?}", g)),
            }
        }
        rt.spawn(async move {
            let r = c.wait().await;
            f2.store(r.is_err(), Ordering::SeqCst);
            d2.store(true, Ordering::SeqCst);
        });
        for (_, len) in &s.during {
            raw.send(&answer(&mut n, *len))?;
        }
        std::thread::sleep(Duration::from_millis(3));
    } else {
        let stream = io("connect", TcpStream::connect(addr))?;
        raw.tcp = Some(io("accept", l.accept())?.0);
        let stream = rt.enter(|| tokio::net::TcpStream::from_std(stream));
        let stream = io("from_std", stream)?;
        let (tx, mut rx) = mpsc::channel(s.queue as usize);
        let h = rt.handle().clone();
        let w = wire(Net::Tcp.size(), &s.keys);
        let mut m = rt.enter(|| EventManager::for_tcp_stream(h, s.queue as usize, stream, addr, w, tx));
        let mut out: VecDeque<Msg> = VecDeque::new();
        let mut back: Option<mpsc::Sender<Vec<u8>>> = None;
        let mut recv = |rt: &mut Runtime, want: Msg| -> R<mpsc::Sender<Vec<u8>>> {
            match rt.block_on(async { timeout(PATIENCE, rx.recv()).await }) {
                Err(_) => late("passing on a received message"),
                Ok(None) => bad("ended", "the manager stopped receiving"),
                Ok(Some((got, a, t))) => {
                    ensure!(got == want && a == addr, "altered", "received {} from {}, sent was {} from {}", show(&got), a, show(&want), addr);
                    Ok(t)
                }
            }
        };
        for (send, len) in &s.before {
            if *send {
                let msg = answer(&mut n, *len);
                match rt.block_on(async { timeout(PATIENCE, m.send(msg.to_vec().unwrap())).await }) {
                    Ok(Ok(())) => out.push_back(msg),
                    _ => return bad("refused", "the manager takes no message"),
                }
            } else {
                let msg = question(&mut n, *len);
                raw.send(&msg)?;
                back = Some(recv(&mut rt, msg)?);
            }
        }
        rt.spawn(async move {
            let r = m.wait().await;
            f2.store(r.is_err(), Ordering::SeqCst);
            d2.store(true, Ordering::SeqCst);
        });
        for (send, len) in &s.during {
            match (&mut back, *send) {
                (Some(t), true) => {
                    let msg = answer(&mut n, *len);
                    match rt.block_on(async { timeout(PATIENCE, t.send(msg.to_vec().unwrap())).await }) {
                        Ok(Ok(())) => out.push_back(msg),
                        _ => return bad("refused", "no reply can be sent while the end of the stream is waited for"),
                    }
                }
                _ => {
                    let msg = question(&mut n, *len);
                    raw.send(&msg)?;
                    back = Some(recv(&mut rt, msg)?);
                }
            }
        }
        let read = |raw: &mut Raw, out: &mut VecDeque<Msg>| -> R<()> {
            while let Some(want) = out.pop_front() {
                match raw.recv(PATIENCE)? {
                    Got::Msg(got) => ensure!(got == want, "altered", "the peer received {}, sent was {}", show(&got), show(&want)),
                    g => return lost("lost", format!("{} messages did not arrive: {:?}", out.len() + 1, g)),
                }
            }
            Ok(())
        };
        if s.end == 0 {
            let _ = raw.tcp.as_ref().unwrap().shutdown(Shutdown::Write);
            if let Some(t) = &mut back {
                // the peer still reads
                let msg = answer(&mut n, 900);
                if let Ok(Ok(())) = rt.block_on(async { timeout(PATIENCE, t.send(msg.to_vec().unwrap())).await }) {
                    out.push_back(msg);
                }
            }
            read(&mut raw, &mut out)?;
        } else {
            read(&mut raw, &mut out)?;
        }
        if s.end != 0 || back.is_some() {
            ensure!(!done.load(Ordering::SeqCst), "early", "waiting is over though the stream is not");
        }
        drop(back);
    }
    if s.client && s.end != 0 {
        ensure!(!done.load(Ordering::SeqCst), "early", "waiting is over though the stream is not");
    }
    let t = raw.tcp.take().unwrap();
    match s.end {
        0 => {
            let _ = t.shutdown(Shutdown::Write);
            raw.tcp = Some(t);
        }
        1 => drop(t),
        _ => reset(t),
    }
    if !wait_for(&done) {
        return lost("waits-forever", format!("the peer is gone, but waiting for the {} goes on", if s.client { "client" } else { "stream" }));
    }
    ensure!(!failed.load(Ordering::SeqCst), "wait-failed", "waiting ended with an error: something panicked");
    if s.end == 0 {
        match raw.recv(PATIENCE)? {
            Got::Closed | Got::Reset(_) => {}
            g => return bad("left-open", format!("the manager is done, but the stream is not closed: {:?}", g)),
        }
    }
    end_runtime(rt);
    Ok(Info::new().nt(!s.before.is_empty() || !s.during.is_empty()).class(if s.client { "client" } else { "stream" }).class(["half-closed", "closed", "reset"][s.end as usize]))
}

pub fn c27() -> Check {
    Check {
        rule: "wires: messages in both directions over wires bound to TCP and UDP sockets, split by sharing or by cloning, with any transmission size; managers: a manager of many TCP connections or of a UDP socket and peers that send, receive, leave and come back; stream: a manager of one stream, or a client, and someone waiting for its end. Non-trivial: a message of several packets among others; replies by address with several peers; anything exchanged. Oracle: the sent messages, by sender and in order.",
        assumptions: vec!["what did not happen within 12 s (over UDP: three runs in a row) on a machine that was running never does"],
        legs: vec![
            leg("wires", o(1_500, 30_000).hang(200), wires, |s: &Wires| patient(s.net, s, wires_once)),
            leg("managers", o(500, 10_000).hang(200), managed, |s: &Managed| patient(if s.kind == Kind::Tcp { Net::Tcp } else { Net::Udp }, s, managed_once)),
            leg("stream", o(500, 10_000).hang(200), stream, |s: &Stream| stream_once(s).into()),
        ],
    }
}
