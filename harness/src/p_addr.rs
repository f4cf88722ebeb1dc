//! Which address of a list a server listens on and a client connects to.
use crate::e2e::*;
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{net, request, Client, ClientBuilder, ConnectedClient, ListeningServer, Reply, Request, Server, ServerBuilder};
use over_there::core::transport::NetTransmission;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io;
use std::net::{IpAddr, Ipv6Addr, SocketAddr, TcpListener, UdpSocket};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Slot {
    /// nobody has it
    Free,
    /// held by another socket
    Taken,
    /// not an address of this machine
    Foreign,
    ForeignV6,
    /// any port of an address of this machine
    AnyPort,
    AnyPortV6,
    /// any port of an address that is not of this machine
    ForeignAnyPort,
    /// the same address as the slot that many places before
    Again(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lists {
    net: Net,
    slots: Vec<Slot>,
    port: u16,
    same_ip: bool,
    /// servers started one after another with the list
    servers: u8,
    plain_listen: bool,
    /// for each client: which of the addresses (servers' or those without a server) it is given
    clients: Vec<Vec<u8>>,
}
/// Addresses no other case of this or another process uses (all of 127/8 is this machine)
fn own_ip() -> IpAddr {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    IpAddr::from([127, 1 + (std::process::id() % 250) as u8, (n / 250) as u8, 1 + (n % 250) as u8])
}
fn have_v6() -> bool {
    UdpSocket::bind("[::1]:0").is_ok()
}
enum Held {
    #[allow(dead_code)]
    Tcp(TcpListener),
    #[allow(dead_code)]
    Udp(UdpSocket),
}
fn hold(n: Net, a: SocketAddr) -> io::Result<Held> {
    Ok(match n {
        Net::Tcp => Held::Tcp(TcpListener::bind(a)?),
        Net::Udp => Held::Udp(UdpSocket::bind(a)?),
    })
}
/// What is free here is free: some program may listen on a port of every address
fn free(n: Net, a: SocketAddr) -> R<()> {
    hold(n, a).map(|_| ()).map_err(|e| Bad::Env(format!("{} should be free: {}", a, e)))
}
fn keys() -> Keys {
    Keys::plain()
}
struct One {
    l: Option<ListeningServer>,
    log: Log,
    addr: SocketAddr,
}
fn start(rt: &mut tokio::runtime::Runtime, n: Net, addrs: &[SocketAddr], plain: bool) -> R<io::Result<One>> {
    let log: Log = Default::default();
    let l2 = Arc::clone(&log);
    let mut b: ServerBuilder<DynAuth, DynCrypt> = ServerBuilder::default();
    b.authenticator(keys().auth.build()).bicrypter(keys().crypt.build()).transport(n.transport(addrs.to_vec()));
    b.custom_handler(From::from(move |a: request::CustomArgs| {
        l2.lock().unwrap().push(a.data.clone());
        async move { Ok(over_there::core::reply::CustomArgs { data: a.data }) }
    }));
    let s: Server<DynAuth, DynCrypt> = b.build().map_err(|e| Bad::Env(format!("server builder: {}", e)))?;
    let out = rt.block_on(async move {
        tokio::spawn(async move {
            let f = async {
                if plain {
                    s.listen().await
                } else {
                    s.cloneable_listen().await
                }
            };
            tokio::time::timeout(PATIENCE, f).await
        })
        .await
    });
    match out {
        Err(e) => bad("panicked", format!("listening on {:?}: {}", addrs, e)),
        Ok(Err(_)) => lost("hang", format!("listening on {:?} does not end", addrs)),
        Ok(Ok(Err(e))) => Ok(Err(e)),
        Ok(Ok(Ok(l))) => Ok(Ok(One { addr: l.addr(), l: Some(l), log })),
    }
}
fn dial(rt: &mut tokio::runtime::Runtime, n: Net, addrs: &[SocketAddr]) -> R<io::Result<ConnectedClient>> {
    let c: Client<DynAuth, DynCrypt> = ClientBuilder::default()
        .authenticator(keys().auth.build())
        .bicrypter(keys().crypt.build())
        .transport(n.transport(addrs.to_vec()))
        .build()
        .map_err(|e| Bad::Env(format!("client builder: {}", e)))?;
    match rt.block_on(async move { tokio::time::timeout(PATIENCE, c.connect()).await }) {
        Err(_) => lost("hang", format!("connecting to {:?} does not end", addrs)),
        Ok(Ok(mut c)) => {
            c.timeout = PATIENCE;
            Ok(Ok(c))
        }
        Ok(Err(e)) => Ok(Err(e)),
    }
}

fn lists(c: &Lists) -> Verdict {
    start_stall_monitor();
    let mut rt = server_runtime();
    let mut lrt = local_runtime();
    let mut servers = vec![];
    let r = lists_in(c, &mut rt, &mut lrt, &mut servers);
    drop(servers);
    drop(lrt);
    end_runtime(rt);
    r.into()
}
fn lists_in(c: &Lists, rt: &mut tokio::runtime::Runtime, lrt: &mut tokio::runtime::Runtime, servers: &mut Vec<One>) -> R<Info> {
    let v6 = have_v6();
    let plain = c.plain_listen && c.net == Net::Udp;
    let base = own_ip();
    let mut addrs: Vec<SocketAddr> = vec![];
    let mut kinds: Vec<Slot> = vec![];
    let mut held = vec![];
    for (i, s) in c.slots.iter().enumerate() {
        let port = c.port + i as u16;
        let ip = if c.same_ip { base } else { own_ip() };
        let (a, k) = match s {
            Slot::Foreign => (SocketAddr::new(IpAddr::from([203, 0, 113, 7]), port), *s),
            Slot::ForeignAnyPort => (SocketAddr::new(IpAddr::from([203, 0, 113, 9]), 0), Slot::Foreign),
            Slot::ForeignV6 => (SocketAddr::new(IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 5)), port), Slot::Foreign),
            Slot::AnyPort => (SocketAddr::new(ip, 0), Slot::AnyPort),
            Slot::AnyPortV6 if v6 => (SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), 0), Slot::AnyPort),
            Slot::AnyPortV6 => (SocketAddr::new(ip, 0), Slot::AnyPort),
            Slot::Again(n) if i > 0 => (addrs[i - 1 - *n as usize % i], kinds[i - 1 - *n as usize % i]),
            Slot::Taken => {
                let a = SocketAddr::new(ip, port);
                match hold(c.net, a) {
                    Ok(h) => held.push(h),
                    Err(e) => return env(format!("cannot hold {}: {}", a, e)),
                }
                (a, Slot::Taken)
            }
            _ => {
                let a = SocketAddr::new(ip, port);
                free(c.net, a)?;
                (a, Slot::Free)
            }
        };
        addrs.push(a);
        kinds.push(k);
    }
    // ---- servers, one after another
    let mut used: Vec<SocketAddr> = vec![];
    let mut refused = 0;
    for n in 0..c.servers.max(1) {
        let want = (0..addrs.len()).find(|i| match kinds[*i] {
            Slot::Free => !used.contains(&addrs[*i]),
            Slot::AnyPort => true,
            _ => false,
        });
        let what = || format!("server {} with {:?}, {:?}, {:?} in use", n, addrs, kinds, used);
        match (start(rt, c.net, &addrs, plain)?, want) {
            (Ok(s), None) => return bad("listens-nowhere", format!("{}: listens on {}", what(), s.addr)),
            (Err(_), None) => refused += 1,
            (Err(e), Some(i)) => return bad("not-listening", format!("{}: {} instead of listening on {}", what(), e, addrs[i])),
            (Ok(s), Some(i)) => {
                let fits = s.addr.ip() == addrs[i].ip() && (s.addr.port() == addrs[i].port() || (addrs[i].port() == 0 && s.addr.port() != 0));
                ensure!(fits, "wrong-address", "{}: listens on {} instead of {}", what(), s.addr, addrs[i]);
                used.push(s.addr);
                servers.push(s);
            }
        }
    }
    // the rest is still anyone's
    for i in 0..addrs.len() {
        if kinds[i] == Slot::Free && !used.contains(&addrs[i]) {
            if let Err(e) = hold(c.net, addrs[i]) {
                return bad("took-more", format!("listening on {:?}, of {:?}, yet {} is not free: {}", used, addrs, addrs[i], e));
            }
        }
    }
    if c.net == Net::Tcp {
        // a server that cannot be cloned for each connection is refused
        let e = start(rt, c.net, &[SocketAddr::new(base, 0)], true)?;
        ensure!(e.is_err(), "tcp-listen", "listen() with TCP did not fail");
    }
    // ---- clients
    let mut reached = 0;
    let mut nobody = 0;
    for (k, picks) in c.clients.iter().enumerate() {
        let mut list = vec![];
        for p in picks {
            let n = *p as usize % (servers.len() + 3);
            list.push(if n < servers.len() { servers[n].addr } else { SocketAddr::new(own_ip(), 40000 + k as u16) });
        }
        let want = match c.net {
            Net::Tcp => list.iter().find(|a| used.contains(a)),
            Net::Udp => list.first(),
        };
        match (dial(lrt, c.net, &list)?, want) {
            (Ok(x), None) => return bad("connected-to-nobody", format!("given {:?}, servers on {:?}: connected to {}", list, used, x.remote_addr())),
            (Err(_), None) => nobody += 1,
            (Err(e), Some(w)) => return bad("not-connected", format!("given {:?}, servers on {:?}: {} instead of connecting to {}", list, used, e, w)),
            (Ok(mut x), Some(w)) => {
                ensure!(x.remote_addr() == *w, "wrong-server", "given {:?}, servers on {:?}: connected to {}", list, used, x.remote_addr());
                let who = match servers.iter().position(|s| s.addr == *w) {
                    Some(i) => i,
                    None => continue,
                };
                // and what it asks gets there, and nowhere else
                let before: Vec<usize> = servers.iter().map(|s| s.log.lock().unwrap().len()).collect();
                let size = if k % 2 == 0 { 3 } else { 2500 };
                let data: Vec<u8> = (0..size).map(|i| (i * 7 + k) as u8).collect();
                match lrt.block_on(x.ask(Request::Custom(request::CustomArgs { data: data.clone() }))) {
                    Ok(Reply::Custom(a)) if a.data == data => {}
                    Err(e) => return lost("unanswered", format!("asking the server on {}: {:?}", w, e)),
                    Ok(o) => return bad("wrong-answer", format!("{:?}", o)),
                }
                for (i, s) in servers.iter().enumerate() {
                    let now = s.log.lock().unwrap().len() - before[i];
                    ensure!(now == (i == who) as usize, "wrong-server", "asked {} through {:?}; the server on {} saw {} requests", w, list, s.addr, now);
                }
                reached += 1;
            }
        }
    }
    for s in servers.iter_mut() {
        drop(s.l.take());
    }
    Ok(Info::new()
        .nt(c.slots.len() > 1 && used.len() + refused > 0)
        .class(c.net.name())
        .class_if(used.is_empty(), "none-usable")
        .class_if(used.iter().any(|a| a.is_ipv6()), "ipv6")
        .class_if(used.len() > 1, "several-servers")
        .class_if(reached > 0, "clients-reach")
        .class_if(nobody > 0, "clients-refused")
        .class_if(kinds.first().map_or(false, |k| !matches!(k, Slot::Free | Slot::AnyPort)) && !used.is_empty(), "first-unusable"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ports {
    /// which of the ports are held by others
    taken: Vec<bool>,
    first: u16,
    udp: bool,
}
fn ports(c: &Ports) -> Verdict {
    (|| -> R<Info> {
        let n = if c.udp { Net::Udp } else { Net::Tcp };
        let ip = own_ip();
        let list: Vec<u16> = (0..c.taken.len() as u16).map(|i| c.first + i * 3).collect();
        let addrs = net::make_addr_list(ip, list.clone());
        ensure!(addrs == list.iter().map(|p| SocketAddr::new(ip, *p)).collect::<Vec<_>>(), "wrong-list", "{:?}", addrs);
        let mut held = vec![];
        for (a, t) in addrs.iter().zip(&c.taken) {
            if !*t {
                free(n, *a)?;
            } else {
                held.push(hold(n, *a).map_err(|e| Bad::Env(e.to_string()))?);
            }
        }
        let want = addrs.iter().zip(&c.taken).find(|x| !x.1).map(|x| *x.0);
        let got = match c.udp {
            true => net::udp::bind(ip, list).and_then(|s| s.local_addr()),
            false => net::tcp::bind(ip, list).and_then(|s| s.local_addr()),
        };
        match (&got, want) {
            (Ok(a), Some(w)) => ensure!(*a == w, "wrong-port", "bound {} instead of {}", a, w),
            (Err(_), None) => {}
            _ => return bad("bind", format!("{:?} taken {:?}: {:?}", addrs, c.taken, got)),
        }
        for a in addrs {
            let t = NetTransmission::udp_from_addr(a);
            ensure!(t == NetTransmission::UdpIpv4 && t.size() == 508, "transmission", "{:?}", t);
        }
        let t = NetTransmission::udp_from_addr(SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), c.first));
        ensure!(t == NetTransmission::UdpIpv6 && t.size() == 1212, "transmission", "{:?}", t);
        // a connected socket speaks with its peer alone
        if c.udp {
            let io = |e: io::Error| Bad::Env(e.to_string());
            let peer = UdpSocket::bind(SocketAddr::new(ip, 0)).map_err(io)?;
            let other = UdpSocket::bind(SocketAddr::new(ip, 0)).map_err(io)?;
            let s = net::udp::connect(peer.local_addr().map_err(io)?).map_err(|e| Bad::Fail("connect".into(), e.to_string()))?;
            peer.set_read_timeout(Some(PATIENCE)).map_err(io)?;
            s.set_read_timeout(Some(PATIENCE)).map_err(io)?;
            s.send(&[1, 2, 3]).map_err(|e| Bad::Fail("connect".into(), e.to_string()))?;
            let mut b = [0; 9];
            let from = match peer.recv_from(&mut b) {
                Ok((3, f)) => f,
                x => return lost("connect", format!("{:?}", x)),
            };
            other.send_to(&[9], from).map_err(io)?;
            peer.send_to(&[4], from).map_err(io)?;
            match s.recv(&mut b) {
                Ok(1) if b[0] == 4 => {}
                x => return lost("connect", format!("{:?} {:?}", x, b)),
            }
        }
        Ok(Info::new().nt(c.taken.len() > 1).class_if(want.is_none(), "none-free").class_if(c.taken.first() == Some(&true) && want.is_some(), "first-taken"))
    })()
    .into()
}

pub fn c26() -> Check {
    Check {
        rule: "lists: up to 6 (now and then 40) addresses, each free, taken, of another machine, any port (IPv4, IPv6) or one named before; up to 4 servers given that list in turn; clients given lists of servers' and dead addresses. ports: lists of free and taken ports for the bind helpers. Non-trivial: more than one address. Oracle: the first usable address, computed from what the harness itself holds; which server's handler saw the request.",
        assumptions: vec!["203.0.113.0/24 and 2001:db8::/32 are not addresses of this machine", "UDP clients cannot tell a dead address: the first one counts"],
        legs: vec![
            leg("lists", o(15_000, 400_000).hang(200), || {
                let slot = prop_oneof![
                    3 => Just(Slot::Free), 3 => Just(Slot::Taken), 1 => Just(Slot::Foreign), 1 => Just(Slot::ForeignV6),
                    1 => Just(Slot::AnyPort), 1 => Just(Slot::AnyPortV6), 1 => Just(Slot::ForeignAnyPort), 1 => any::<u8>().prop_map(Slot::Again)
                ];
                (
                    prop_oneof![Just(Net::Tcp), Just(Net::Udp)],
                    prop_oneof![20 => prop::collection::vec(slot.clone(), 0..7), 1 => prop::collection::vec(slot, 7..40)],
                    3000..30000u16,
                    any::<bool>(),
                    1..5u8,
                    any::<bool>(),
                    prop::collection::vec(prop::collection::vec(any::<u8>(), 0..5), 0..4),
                )
                    .prop_map(|(net, slots, port, same_ip, servers, plain_listen, clients)| Lists { net, slots, port, same_ip, servers, plain_listen, clients })
            }, lists),
            leg("ports", o(15_000, 200_000), || (prop_oneof![20 => prop::collection::vec(any::<bool>(), 0..8), 1 => prop::collection::vec(prop::bool::weighted(0.97), 8..60)], 3000..30000u16, any::<bool>()).prop_map(|(taken, first, udp)| Ports { taken, first, udp }), ports),
        ],
    }
}
