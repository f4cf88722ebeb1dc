//! A live server, real clients and raw clients over the loopback network.
//!
//! The server runs on a runtime of its own whose threads carry the shard's name (so a panic in any
//! of its tasks is charged to the case) and run as an unprivileged user: whatever a changed server
//! does with a path or a process id reaches nothing but scratch files.
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{
    reply, request, Client, ClientBuilder, ConnectedClient, Content, Header, ListeningServer, Msg, Reply, Request,
    Server, ServerBuilder, Transport,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream, UdpSocket};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::{Builder, Runtime};

pub const NOBODY: u32 = 65534;

/// How long an answer may take before it counts as lost
pub const PATIENCE: Duration = Duration::from_secs(12);

// ------------------------------------------------------------------ unprivileged threads
pub fn drop_privileges() {
    unsafe {
        // raw calls: this thread only
        libc::syscall(libc::SYS_setgroups, 0usize, std::ptr::null::<u32>());
        libc::syscall(libc::SYS_setresgid, NOBODY, NOBODY, NOBODY);
        libc::syscall(libc::SYS_setresuid, NOBODY, NOBODY, NOBODY);
    }
}

/// A directory owned by the unprivileged user, removed on drop
pub struct Scratch {
    dir: tempfile::TempDir,
}
impl Scratch {
    pub fn new() -> R<Scratch> {
        let dir = tempfile::Builder::new().prefix("otv-").tempdir().map_err(|e| Bad::Env(format!("tempdir: {}", e)))?;
        give(dir.path());
        Ok(Scratch { dir })
    }
    pub fn path(&self) -> PathBuf {
        self.dir.path().canonicalize().unwrap_or_else(|_| self.dir.path().to_path_buf())
    }
}
pub fn give(p: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        libc::lchown(c.as_ptr(), NOBODY, NOBODY);
    }
}

// ------------------------------------------------------------------ stall monitor
/// When a sleeping thread of this process woke up late, and by how much: lets a missing answer be
/// told from a machine that was not running us
static LATE: Mutex<Vec<(Instant, u64)>> = Mutex::new(Vec::new());
pub fn start_stall_monitor() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::Builder::new()
            .name("stall".into())
            .spawn(|| loop {
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                let late = t.elapsed().as_millis() as u64;
                if late > 150 {
                    let mut l = LATE.lock().unwrap();
                    l.retain(|x| x.0.elapsed() < Duration::from_secs(60));
                    l.push((Instant::now(), late));
                }
            })
            .unwrap();
    });
}
/// Milliseconds this process was not running during the last `window`
pub fn stalled_ms(window: Duration) -> u64 {
    LATE.lock().unwrap().iter().filter(|x| x.0.elapsed() < window).map(|x| x.1).sum()
}

// ------------------------------------------------------------------ server
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Net {
    Tcp,
    Udp,
}
impl Net {
    pub fn name(self) -> &'static str {
        match self {
            Net::Tcp => "tcp",
            Net::Udp => "udp",
        }
    }
    pub fn transport(self, a: Vec<SocketAddr>) -> Transport {
        match self {
            Net::Tcp => Transport::Tcp(a),
            Net::Udp => Transport::Udp(a),
        }
    }
    /// what a wire over this transport may send in one go
    pub fn size(self) -> usize {
        match self {
            Net::Tcp => 1500,
            Net::Udp => 508,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Keys {
    pub auth: AuthSpec,
    pub crypt: CryptSpec,
}
impl Keys {
    pub fn plain() -> Keys {
        Keys { auth: AuthSpec::Noop, crypt: CryptSpec { kind: CryptKind::Noop, key_seed: 0, cache: None } }
    }
}
pub fn keys_any() -> BoxedStrategy<Keys> {
    (auth_any(), kind_any(), any::<u64>())
        .prop_map(|(auth, kind, key_seed)| Keys { auth, crypt: CryptSpec { kind, key_seed, cache: None } })
        .boxed()
}

/// What the custom handler saw, in order
pub type Log = Arc<Mutex<Vec<Vec<u8>>>>;

pub struct SrvOpts {
    pub net: Net,
    pub keys: Keys,
    pub custom: bool,
    pub tweak: Box<dyn Fn(&mut ServerBuilder<DynAuth, DynCrypt>)>,
}
impl SrvOpts {
    pub fn new(net: Net, keys: &Keys) -> Self {
        SrvOpts { net, keys: keys.clone(), custom: true, tweak: Box::new(|_| ()) }
    }
    pub fn tweak(mut self, f: impl Fn(&mut ServerBuilder<DynAuth, DynCrypt>) + 'static) -> Self {
        self.tweak = Box::new(f);
        self
    }
}

pub struct Srv {
    rt: Option<Runtime>,
    pub listening: Option<ListeningServer>,
    pub addr: SocketAddr,
    pub net: Net,
    pub keys: Keys,
    pub log: Log,
    /// begin (true) and end of each invocation of the custom handler
    pub trace: Trace,
}
pub type Trace = Arc<Mutex<Vec<(bool, Vec<u8>)>>>;

/// What the custom handler answers to `data`:
/// `data[0]` 1 = an error, 2 = as many bytes as the next three bytes say, anything else = data
/// reversed (4: once as many as the next byte says have come, grouped by the byte after it; 5: it
/// panics; 3: after as many milliseconds as the next byte says)
pub fn custom_answer(data: &[u8]) -> Result<Vec<u8>, String> {
    match data.first() {
        Some(1) => Err(format!("custom error {}", data.len())),
        Some(2) if data.len() >= 8 => {
            let n = (data[1] as usize) | (data[2] as usize) << 8 | (data[3] as usize) << 16;
            let mut v = data.to_vec();
            v.extend((0..n).map(|i| (i * 31 + data[4] as usize) as u8));
            Ok(v)
        }
        _ => {
            let mut v = data.to_vec();
            v.reverse();
            Ok(v)
        }
    }
}

pub fn server_runtime() -> Runtime {
    Builder::new()
        .threaded_scheduler()
        .core_threads(2)
        .max_threads(64)
        .thread_name(shard_name())
        .on_thread_start(drop_privileges)
        .enable_all()
        .build()
        .expect("runtime")
}
pub fn local_runtime() -> Runtime {
    Builder::new().basic_scheduler().enable_all().build().expect("runtime")
}

impl Srv {
    pub fn start(net: Net, keys: &Keys) -> R<Srv> {
        Srv::with(SrvOpts::new(net, keys))
    }
    pub fn with(o: SrvOpts) -> R<Srv> {
        start_stall_monitor();
        let log: Log = Default::default();
        let trace: Trace = Default::default();
        let mut b: ServerBuilder<DynAuth, DynCrypt> = ServerBuilder::default();
        b.authenticator(o.keys.auth.build()).bicrypter(o.keys.crypt.build());
        b.transport(o.net.transport(vec!["127.0.0.1:0".parse().unwrap()]));
        if o.custom {
            let l2 = Arc::clone(&log);
            let tr = Arc::clone(&trace);
            b.custom_handler(From::from(move |a: request::CustomArgs| {
                l2.lock().unwrap().push(a.data.clone());
                tr.lock().unwrap().push((true, a.data.clone()));
                let tr = Arc::clone(&tr);
                async move {
                    match a.data.first() {
                        Some(3) if a.data.len() >= 8 => tokio::time::delay_for(Duration::from_millis(a.data[1] as u64 % 64)).await,
                        // waits for the file named after the header to appear
                        Some(4) if a.data.len() >= 8 => {
                            let p = std::path::PathBuf::from(String::from_utf8_lossy(&a.data[8..]).into_owned());
                            let end = Instant::now() + Duration::from_secs(6);
                            while !p.exists() {
                                if Instant::now() > end {
                                    tr.lock().unwrap().push((false, a.data.clone()));
                                    return Err("the others did not come".into());
                                }
                                tokio::time::delay_for(Duration::from_millis(2)).await;
                            }
                        }
                        Some(5) => panic!("the handler of a custom request panics on purpose"),
                        _ => {}
                    }
                    tr.lock().unwrap().push((false, a.data.clone()));
                    match custom_answer(&a.data) {
                        Ok(data) => Ok(reply::CustomArgs { data }),
                        Err(e) => Err(e.into()),
                    }
                }
            }));
        }
        (o.tweak)(&mut b);
        let s: Server<DynAuth, DynCrypt> = b.build().map_err(|e| Bad::Env(format!("server builder: {}", e)))?;
        let mut rt = server_runtime();
        let l = rt.block_on(async move { tokio::spawn(s.cloneable_listen()).await });
        let l = match l {
            Ok(Ok(l)) => l,
            Ok(Err(e)) => return bad("listen", format!("server cannot listen: {}", e)),
            Err(e) => return bad("listen", format!("listening panicked: {}", e)),
        };
        Ok(Srv { addr: l.addr(), listening: Some(l), rt: Some(rt), net: o.net, keys: o.keys, log, trace })
    }
    pub fn client(&self, rt: &mut Runtime) -> R<ConnectedClient> {
        connect(rt, self.net, &self.keys, vec![self.addr])
    }
    pub fn log(&self) -> Vec<Vec<u8>> {
        self.log.lock().unwrap().clone()
    }
    /// Shuts the server down and waits for its end; None when that does not come
    pub fn shut_down(&mut self, twice: bool) -> R<Option<Result<(), String>>> {
        let l = match self.listening.take() {
            Some(l) => l,
            None => return env("no server"),
        };
        for _ in 0..1 + twice as usize {
            l.shutdown();
        }
        let end = self.rt.as_mut().unwrap().block_on(async move { tokio::time::timeout(PATIENCE, l.wait()).await });
        Ok(end.ok().map(|r| r.map_err(|e| e.to_string())))
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        drop(self.listening.take());
        if let Some(rt) = self.rt.take() {
            end_runtime(rt);
        }
    }
}
/// Ends a threaded runtime and waits (not forever) for its threads
pub fn end_runtime(rt: Runtime) {
    let (tx, rx) = std::sync::mpsc::channel();
    let name = shard_name();
    let _ = std::thread::Builder::new().name(name).spawn(move || {
        drop(rt);
        let _ = tx.send(());
    });
    let _ = rx.recv_timeout(Duration::from_secs(3));
}

pub fn connect(rt: &mut Runtime, net: Net, keys: &Keys, addrs: Vec<SocketAddr>) -> R<ConnectedClient> {
    let c = ClientBuilder::default()
        .authenticator(keys.auth.build())
        .bicrypter(keys.crypt.build())
        .transport(net.transport(addrs))
        .build()
        .map_err(|e| Bad::Env(format!("client builder: {}", e)))?;
    let c: Client<DynAuth, DynCrypt> = c;
    match rt.block_on(c.connect()) {
        Ok(mut c) => {
            c.timeout = PATIENCE;
            Ok(c)
        }
        Err(e) => env(format!("client cannot connect: {}", e)),
    }
}

// ------------------------------------------------------------------ raw peers
/// One end of a conversation, built from the wire alone; the test decides when bytes move
pub struct Raw {
    out: Out,
    inn: In,
    buf: Vec<u8>,
    pub net: Net,
    pub tcp: Option<TcpStream>,
    pub udp: Option<UdpSocket>,
    /// the largest packet received so far
    pub largest: usize,
}
impl Raw {
    pub fn wires(net: Net, keys: &Keys) -> Raw {
        Raw {
            out: sender(net.size(), &keys.auth, &keys.crypt),
            inn: receiver(net.size(), Duration::from_secs(3600), &keys.auth, &keys.crypt),
            buf: vec![],
            net,
            tcp: None,
            udp: None,
            largest: 0,
        }
    }
    pub fn connect(net: Net, keys: &Keys, addr: SocketAddr) -> R<Raw> {
        let mut r = Raw::wires(net, keys);
        match net {
            Net::Tcp => {
                let s = TcpStream::connect(addr).map_err(|e| Bad::Env(format!("connect: {}", e)))?;
                let _ = s.set_nodelay(true);
                let _ = s.set_write_timeout(Some(PATIENCE));
                r.tcp = Some(s)
            }
            Net::Udp => {
                let s = UdpSocket::bind("127.0.0.1:0").map_err(|e| Bad::Env(format!("bind: {}", e)))?;
                s.connect(addr).map_err(|e| Bad::Env(format!("connect: {}", e)))?;
                r.udp = Some(s)
            }
        }
        Ok(r)
    }
    pub fn packets(&mut self, m: &Msg) -> R<Vec<Vec<u8>>> {
        let d = m.to_vec().map_err(|e| Bad::Fail("encode".into(), format!("message does not encode: {}", e)))?;
        self.packets_of(&d)
    }
    pub fn packets_of(&mut self, d: &[u8]) -> R<Vec<Vec<u8>>> {
        self.out.process(d).map_err(|e| Bad::Fail("packetise".into(), format!("message cannot be sent: {}", e)))
    }
    pub fn send_bytes(&mut self, b: &[u8]) -> std::io::Result<()> {
        match (&mut self.tcp, &mut self.udp) {
            (Some(t), _) => t.write_all(b),
            (_, Some(u)) => u.send(b).map(|_| ()),
            _ => Ok(()),
        }
    }
    pub fn send(&mut self, m: &Msg) -> R<()> {
        for p in self.packets(m)? {
            if let Err(e) = self.send_bytes(&p) {
                return env(format!("send: {}", e));
            }
        }
        Ok(())
    }
    /// The next whole message; None when none arrived in time
    pub fn recv(&mut self, patience: Duration) -> R<Got> {
        let end = Instant::now() + patience;
        loop {
            if self.tcp.is_some() {
                if let Some(n) = item(&self.buf) {
                    let p: Vec<u8> = self.buf.drain(..n).collect();
                    if let Some(m) = self.feed(&p)? {
                        return Ok(Got::Msg(m));
                    }
                    continue;
                }
            }
            let now = Instant::now();
            if now >= end {
                return Ok(Got::Nothing);
            }
            let left = (end - now).max(Duration::from_millis(1));
            let mut b = vec![0; 65536];
            let r = match (&mut self.tcp, &mut self.udp) {
                (Some(t), _) => {
                    let _ = t.set_read_timeout(Some(left));
                    t.read(&mut b)
                }
                (_, Some(u)) => {
                    let _ = u.set_read_timeout(Some(left));
                    u.recv(&mut b)
                }
                _ => return env("no socket"),
            };
            match r {
                Ok(0) if self.tcp.is_some() => return Ok(Got::Closed),
                Ok(n) if self.tcp.is_some() => self.buf.extend_from_slice(&b[..n]),
                Ok(n) => {
                    if let Some(m) = self.feed(&b[..n])? {
                        return Ok(Got::Msg(m));
                    }
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused && self.udp.is_some() => {}
                Err(e) => return Ok(Got::Reset(e.to_string())),
            }
        }
    }
    fn feed(&mut self, p: &[u8]) -> R<Option<Msg>> {
        self.largest = self.largest.max(p.len());
        match self.inn.process(p) {
            Ok(None) => Ok(None),
            Ok(Some(d)) => match Msg::from_slice(&d) {
                Ok(m) => Ok(Some(m)),
                Err(e) => bad("peer-sent-bad-msg", format!("received bytes are not a message: {}", e)),
            },
            Err(e) => bad("peer-sent-bad-packet", format!("received packet refused: {} ({} bytes)", e, p.len())),
        }
    }
}
#[derive(Debug)]
pub enum Got {
    Msg(Msg),
    Nothing,
    Closed,
    Reset(String),
}

/// Length of the first whole CBOR item, if there is one
fn item(b: &[u8]) -> Option<usize> {
    if b.is_empty() {
        return None;
    }
    let mut it = serde_cbor::Deserializer::from_slice(b).into_iter::<serde_cbor::Value>();
    match it.next() {
        Some(Ok(_)) => Some(it.byte_offset()),
        Some(Err(e)) if e.is_eof() => None,
        // not CBOR: hand everything over, the wire will say so
        _ => Some(b.len()),
    }
}

pub fn custom_msg(data: Vec<u8>) -> Msg {
    Msg::from(Request::Custom(request::CustomArgs { data }))
}
pub fn reply_to(h: &Header, r: Reply) -> Msg {
    Msg::new(Content::Reply(r), Some(h.clone()))
}
/// A missing answer: a failure, unless this machine was not running us
pub fn lost<T>(sig: &str, what: String) -> R<T> {
    if stalled_ms(PATIENCE + PATIENCE) > 3000 {
        return env(format!("{} (but the machine stalled)", what));
    }
    bad(sig, what)
}
