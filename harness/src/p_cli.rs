//! The command line tool, run as users run it, next to a library client doing the same.
use crate::e2e::*;
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{reply, request as q, Client, ClientBuilder, ConnectedClient, Content, RemoteFile, RemoteProc, Reply, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

type AnyError = Box<dyn std::error::Error>;

// ------------------------------------------------------------------ running the tool
fn spawn(bin: &Path, args: &[String], dir: &Path, stdin: Stdio) -> std::io::Result<Child> {
    spawn_within(bin, args, dir, stdin, None)
}
fn spawn_within(bin: &Path, args: &[String], dir: &Path, stdin: Stdio, descriptors: Option<u64>) -> std::io::Result<Child> {
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("TMPDIR", dir).stdin(stdin).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.uid(NOBODY).gid(NOBODY);
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = descriptors {
                libc::setrlimit(libc::RLIMIT_NOFILE, &libc::rlimit { rlim_cur: n, rlim_max: n });
            }
            Ok(())
        });
    }
    c.spawn()
}
/// The built tool, somewhere the unprivileged user can run it
pub fn bin() -> R<PathBuf> {
    static AT: std::sync::Mutex<Option<PathBuf>> = std::sync::Mutex::new(None);
    let mut at = AT.lock().unwrap();
    if let Some(p) = &*at {
        return Ok(p.clone());
    }
    let root = PathBuf::from(std::env::var("OTV_ROOT").unwrap_or_else(|_| "/verif".into()));
    let p = root.join("target/cli/debug/over-there");
    let works = |p: &Path| spawn(p, &["--version".into()], Path::new("/"), Stdio::null()).and_then(|c| c.wait_with_output()).map(|o| o.status.success()).unwrap_or(false);
    let p = if works(&p) {
        p
    } else {
        let d = std::env::temp_dir().join(format!("otv-cli-{}", std::process::id()));
        extern "C" fn clean() {
            let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("otv-cli-{}", std::process::id())));
        }
        unsafe {
            libc::atexit(clean);
        }
        std::fs::create_dir_all(&d).and_then(|_| std::fs::copy(&p, d.join("over-there"))).map_err(|e| Bad::Env(format!("no command line tool: {}", e)))?;
        let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755));
        d.join("over-there")
    };
    *at = Some(p.clone());
    Ok(p)
}
#[derive(Debug)]
pub struct Ran {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub took: Duration,
}
impl Ran {
    fn out(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    fn err(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    fn show(&self) -> String {
        clip(&format!("exit {:?} after {:?}, stdout {:?}, stderr {:?}", self.code, self.took, self.out(), self.err()), 900)
    }
}
const LONGEST: Duration = Duration::from_secs(25);
pub fn run(args: &[String], dir: &Path, input: Option<Vec<u8>>) -> R<Ran> {
    run_program(&bin()?, args, dir, input)
}
/// The tool, where the names of the given file are known
fn run_knowing(hosts: &Path, args: &[String], dir: &Path) -> R<Ran> {
    let mut v: Vec<String> = ["-Urm", "sh", "-c", "mount --bind \"$0\" /etc/hosts || exit 77; exec \"$@\""].iter().map(|s| s.to_string()).collect();
    v.push(hosts.display().to_string());
    v.push(bin()?.display().to_string());
    v.extend(args.iter().cloned());
    run_program(Path::new("/usr/bin/unshare"), &v, dir, None)
}
fn run_program(program: &Path, args: &[String], dir: &Path, input: Option<Vec<u8>>) -> R<Ran> {
    let t = Instant::now();
    let stdin = if input.is_some() { Stdio::piped() } else { Stdio::null() };
    let mut c = spawn(program, args, dir, stdin).map_err(|e| Bad::Env(format!("cannot run the tool: {}", e)))?;
    if let (Some(mut s), Some(i)) = (c.stdin.take(), input) {
        std::thread::spawn(move || {
            let _ = s.write_all(&i);
        });
    }
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let to = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let te = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let mut pause = 1;
    let code = loop {
        match c.try_wait().map_err(|e| Bad::Env(e.to_string()))? {
            Some(s) => break s.code(),
            None if t.elapsed() > LONGEST || cancelled() => {
                let _ = c.kill();
                let _ = c.wait();
                if cancelled() {
                    return env("cancelled");
                }
                return lost("hang", format!("{:?} does not end", args));
            }
            None => {
                std::thread::sleep(Duration::from_millis(pause));
                pause = (pause + 1).min(10);
            }
        }
    };
    let r = Ran { code, took: t.elapsed(), out: to.join().unwrap(), err: te.join().unwrap() };
    if r.code.map_or(true, |c| c == 101) || r.err().contains("panicked at") {
        return bad("crashed", format!("{:?}: {}", args, r.show()));
    }
    Ok(r)
}

// ------------------------------------------------------------------ options
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opt {
    net: Net,
    auth: u8,
    akey: String,
    enc: u8,
    ekey_seed: u64,
}
const ENC: [(&str, CryptKind); 7] = [
    ("none", CryptKind::Noop),
    ("aes128_gcm", CryptKind::Gcm128),
    ("aes256_gcm", CryptKind::Gcm256),
    ("aes128_gcm_siv", CryptKind::GcmSiv128),
    ("aes256_gcm_siv", CryptKind::GcmSiv256),
    ("aes128_siv", CryptKind::Siv128),
    ("aes256_siv", CryptKind::Siv256),
];
impl Opt {
    fn kind(&self) -> CryptKind {
        ENC[self.enc as usize % 7].1
    }
    fn ekey(&self) -> String {
        // printable; not one byte alike for different seeds is not needed, only different
        bytes(self.ekey_seed, self.kind().key_len()).into_iter().map(|b| (b'!' + b % 94) as char).collect()
    }
    fn akey(&self) -> String {
        if self.akey.is_empty() {
            "k".into()
        } else {
            self.akey.clone()
        }
    }
    fn args(&self) -> Vec<String> {
        let mut v = vec!["-t".into(), self.net.name().into()];
        if self.auth % 3 > 0 {
            v.push("-a".into());
            v.push(["none", "sha256", "sha512"][self.auth as usize % 3].into());
            v.push(format!("--akey={}", self.akey()));
        }
        if self.enc % 7 > 0 {
            v.push(format!("--encryption={}", ENC[self.enc as usize % 7].0));
            v.push(format!("--ekey={}", self.ekey()));
        }
        v
    }
    fn auth(&self) -> AuthSpec {
        let k = self.akey().into_bytes();
        match self.auth % 3 {
            0 => AuthSpec::Noop,
            1 => AuthSpec::Sha256(k),
            _ => AuthSpec::Sha512(k),
        }
    }
    fn crypt(&self) -> DynCrypt {
        self.kind().build(self.ekey().as_bytes(), None)
    }
    fn connect(&self, rt: &mut Runtime, addr: SocketAddr) -> R<ConnectedClient> {
        let c: Client<DynAuth, DynCrypt> = ClientBuilder::default()
            .authenticator(self.auth().build())
            .bicrypter(self.crypt())
            .transport(self.net.transport(vec![addr]))
            .build()
            .map_err(|e| Bad::Env(e.to_string()))?;
        match rt.block_on(c.connect()) {
            Ok(mut c) => {
                c.timeout = PATIENCE;
                Ok(c)
            }
            Err(e) => env(format!("library client cannot connect: {}", e)),
        }
    }
}
fn opt() -> BoxedStrategy<Opt> {
    (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], 0..3u8, prop_oneof![3 => "[!-~]{1,70}", 1 => "[ -~é漢]{1,200}"], 0..7u8, any::<u64>())
        .prop_map(|(net, auth, akey, enc, ekey_seed)| Opt { net, auth, akey, enc, ekey_seed })
        .boxed()
}

// ------------------------------------------------------------------ servers
fn own_addr(v6: bool) -> SocketAddr {
    static N: AtomicU32 = AtomicU32::new(0);
    let taken: String = ["tcp", "tcp6", "udp", "udp6"].iter().map(|f| std::fs::read_to_string(format!("/proc/net/{}", f)).unwrap_or_default()).collect();
    loop {
        let n = N.fetch_add(1, Ordering::Relaxed);
        // (ports below those that clients are given)
        let a = if v6 {
            SocketAddr::new("::1".parse().unwrap(), 12_000 + ((std::process::id() * 977 + n * 13) % 20_000) as u16)
        } else {
            SocketAddr::new(std::net::IpAddr::from([127, 1 + (std::process::id() % 250) as u8, (n / 250) as u8, 1 + (n % 250) as u8]), 12_000 + (n % 20_000) as u16)
        };
        // ones that someone else listens to, on whatever address, are left alone
        if !taken.contains(&format!(":{:04X} ", a.port())) {
            return a;
        }
    }
}
/// A server of the tool
struct CliSrv {
    child: Child,
    addr: SocketAddr,
}
impl CliSrv {
    fn start(o: &Opt, v6: bool, extra: &[String], rt: &mut Runtime) -> R<(CliSrv, ConnectedClient)> {
        Self::start_within(o, v6, extra, rt, None)
    }
    fn start_at(o: &Opt, addr: SocketAddr, extra: &[String], rt: &mut Runtime) -> R<(CliSrv, ConnectedClient)> {
        Self::start_on(o, Some(addr), addr.is_ipv6(), extra, rt, None)
    }
    fn start_within(o: &Opt, v6: bool, extra: &[String], rt: &mut Runtime, descriptors: Option<u64>) -> R<(CliSrv, ConnectedClient)> {
        Self::start_on(o, None, v6, extra, rt, descriptors)
    }
    fn start_on(o: &Opt, at: Option<SocketAddr>, v6: bool, extra: &[String], rt: &mut Runtime, descriptors: Option<u64>) -> R<(CliSrv, ConnectedClient)> {
        for _ in 0..4 {
            let addr = at.unwrap_or_else(|| own_addr(v6));
            let mut args = vec!["server".to_string(), addr.to_string()];
            args.extend(o.args());
            args.extend(extra.iter().cloned());
            let child = spawn_within(&bin()?, &args, Path::new("/"), Stdio::null(), descriptors).map_err(|e| Bad::Env(e.to_string()))?;
            let mut s = CliSrv { child, addr };
            let t = Instant::now();
            loop {
                if let Ok(Some(st)) = s.child.try_wait() {
                    let mut e = String::new();
                    let _ = s.child.stderr.take().unwrap().read_to_string(&mut e);
                    if e.to_lowercase().contains("not available") || e.contains("in use") {
                        break;
                    }
                    return bad("server-ended", format!("{:?} ended with {:?}: {}", args, st, e));
                }
                let up = match o.net {
                    Net::Tcp => std::net::TcpStream::connect(addr).is_ok(),
                    Net::Udp => {
                        let ip = match addr.ip() {
                            std::net::IpAddr::V4(x) => format!("{:08X}", u32::from_le_bytes(x.octets())),
                            _ => String::new(),
                        };
                        std::fs::read_to_string(if v6 { "/proc/net/udp6" } else { "/proc/net/udp" }).unwrap_or_default().contains(&format!("{}:{:04X} ", ip, addr.port()))
                    }
                };
                if up {
                    let mut c = o.connect(rt, addr)?;
                    match rt.block_on(c.ask(Request::Heartbeat)) {
                        Ok(Reply::Heartbeat) => return Ok((s, c)),
                        x => return lost("server-does-not-answer", format!("{:?}: a library client with the same options gets {:?}", args, x)),
                    }
                }
                if t.elapsed() > PATIENCE {
                    return lost("server-does-not-listen", format!("{:?}", args));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        env("no port for a server")
    }
    /// Ends the server, which must not have panicked
    fn end(mut self) -> R<()> {
        let _ = self.child.kill();
        let mut e = String::new();
        let _ = self.child.stderr.take().unwrap().read_to_string(&mut e);
        ensure!(!e.contains("panicked"), "server-crashed", "the server wrote {}", clip(&e, 500));
        Ok(())
    }
}
impl Drop for CliSrv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
enum Host {
    Cli(#[allow(dead_code)] CliSrv),
    Lib(Srv),
}
struct Setup {
    host: Host,
    addr: SocketAddr,
    lib: ConnectedClient,
    rt: Runtime,
    dir: PathBuf,
    _scratch: Scratch,
}
fn setup(o: &Opt, v6: bool, cli_server: bool) -> R<Setup> {
    start_stall_monitor();
    let scratch = Scratch::new()?;
    let dir = scratch.path();
    let mut rt = local_runtime();
    let v6 = v6 && std::net::UdpSocket::bind("[::1]:0").is_ok();
    let (host, addr, lib) = if cli_server {
        let (s, c) = CliSrv::start(o, v6, &["--working-dir".into(), dir.display().to_string()], &mut rt)?;
        let a = s.addr;
        (Host::Cli(s), a, c)
    } else {
        let (auth, crypt, net) = (o.auth(), o.crypt(), o.net);
        let s = Srv::with(SrvOpts::new(net, &Keys { auth, crypt: Keys::plain().crypt }).tweak(move |b| {
            b.bicrypter(crypt.clone());
            if v6 {
                b.transport(net.transport(vec!["[::1]:0".parse().unwrap()]));
            }
        }))?;
        let c = o.connect(&mut rt, s.addr)?;
        let a = s.addr;
        (Host::Lib(s), a, c)
    };
    Ok(Setup { host, addr, lib, rt, dir, _scratch: scratch })
}
fn block<T>(rt: &mut Runtime, f: impl std::future::Future<Output = T>) -> T {
    rt.block_on(f)
}

// ------------------------------------------------------------------ commands
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Version,
    Capabilities,
    LsRoot,
    Ls(u8),
    MkDir(u8, bool),
    MvDir(u8, u8),
    RmDir(u8, bool),
    Write(u8, String),
    Read(u8),
    MvFile(u8, u8),
    RmFile(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cmds {
    opt: Opt,
    v6: bool,
    /// also ask for IPv6 on the command line
    flag6: bool,
    cli_server: bool,
    relative: bool,
    cmds: Vec<(Cmd, bool, bool)>,
    files: Vec<(u8, Vec<u8>, bool)>,
}
const NAMES: [&str; 12] = ["a", "b", "c d", "é", "a/b", "a/c", "c d/x\"y", "-v", "b/-w/z", ".", "f", "b/f"];
fn rel(n: u8) -> &'static str {
    NAMES[n as usize % NAMES.len()]
}
/// Entries of a tree, ids and the like aside
fn tree(root: &Path) -> BTreeMap<String, String> {
    fn walk(root: &Path, d: &Path, out: &mut BTreeMap<String, String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            let r = p.strip_prefix(root).unwrap().display().to_string();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                out.insert(r, "dir".into());
                walk(root, &p, out);
            } else {
                out.insert(r, format!("{:?}", std::fs::read(&p)));
            }
        }
    }
    let mut t = BTreeMap::new();
    walk(root, root, &mut t);
    t
}
/// Without what two servers' answers rightly differ in
fn plain(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), if k == "id" || k == "sig" { Value::from(0) } else { plain(v) })).collect()),
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(plain).collect();
            if !a.iter().all(|x| x.is_number()) {
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        Value::String(s) => Value::String(s.replace("twinA", "twinB")),
        v => v.clone(),
    }
}
/// (of several open files in the way, any may be the one named)
fn plain_text(t: &str) -> String {
    let t = t.replace("twinA", "twinB");
    match (t.find("File at \""), t.find("\" is open")) {
        (Some(a), Some(b)) if a < b => format!("{}File{}", &t[..a], &t[b + 1..]),
        _ => t,
    }
}
fn parse_line(r: &Ran, out: &[u8]) -> R<Value> {
    let t = String::from_utf8_lossy(out).into_owned();
    ensure!(t.ends_with('\n') && t.trim_end_matches('\n').lines().count() == 1, "not-one-line", "{} {:?}", r.show(), clip(&t, 300));
    serde_json::from_str(&t).map_err(|e| Bad::Fail("not-json".into(), format!("{}: {}", e, r.show())))
}
fn entries(x: &reply::DirContentsListArgs) -> String {
    let flags = |e: &reply::DirEntry| format!("[{}{}{}] {}", if e.is_file { "F" } else { "" }, if e.is_dir { "D" } else { "" }, if e.is_symlink { "S" } else { "" }, e.path);
    x.entries.iter().map(flags).collect::<Vec<_>>().join("\n")
}
/// What a command means, done by the library, and what it says to a person
async fn by_library(c: &mut ConnectedClient, cmd: &Cmd, at: impl Fn(u8) -> String) -> Result<(Reply, String), AnyError> {
    Ok(match cmd {
        Cmd::Version => {
            let x = c.ask_version().await?;
            let v = x.version.clone();
            (Reply::Version(x), v)
        }
        Cmd::Capabilities => {
            let x = c.ask_capabilities().await?;
            let t = format!("{:?}", x);
            (Reply::Capabilities(x), t)
        }
        Cmd::LsRoot => {
            let x = c.ask_list_dir_contents(".".into()).await?;
            let t = entries(&x);
            (Reply::DirContentsList(x), t)
        }
        Cmd::Ls(p) => {
            let x = c.ask_list_dir_contents(at(*p)).await?;
            let t = entries(&x);
            (Reply::DirContentsList(x), t)
        }
        Cmd::MkDir(p, parents) => (Reply::DirCreated(c.ask_create_dir(at(*p), *parents).await?), format!("Created {}", at(*p))),
        Cmd::MvDir(f, t) => (Reply::DirRenamed(c.ask_rename_dir(at(*f), at(*t)).await?), format!("Moved {} to {}", at(*f), at(*t))),
        Cmd::RmDir(p, n) => (Reply::DirRemoved(c.ask_remove_dir(at(*p), *n).await?), format!("Removed {}", at(*p))),
        Cmd::Write(p, s) => {
            let mut f: RemoteFile = c.ask_open_file(at(*p)).await?.into();
            let x = c.ask_write_file(&mut f, s.as_bytes()).await?;
            (Reply::FileWritten(x), String::new())
        }
        Cmd::Read(p) => {
            let f: RemoteFile = c.ask_open_file_with_options(at(*p), false, false, true).await?.into();
            let x = c.ask_read_file(&f).await?;
            // (a file that is not text can only be shown to a program)
            let t = String::from_utf8(x.contents.clone()).unwrap_or_else(|e| format!("\0{}", e));
            (Reply::FileContents(x), t)
        }
        Cmd::MvFile(f, t) => (Reply::UnopenedFileRenamed(c.ask_rename_unopened_file(at(*f), at(*t)).await?), format!("Moved {} to {}", at(*f), at(*t))),
        Cmd::RmFile(p) => (Reply::UnopenedFileRemoved(c.ask_remove_unopened_file(at(*p)).await?), format!("Removed {}", at(*p))),
    })
}
fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.replace("twinA", "twinB").lines().map(|x| x.to_string()).collect();
    v.sort();
    v
}
fn commands(c: &Cmds) -> Verdict {
    (|| -> R<Info> {
        let mut s = setup(&c.opt, c.v6, c.cli_server)?;
        let dir = s.dir.clone();
        let io = |e: std::io::Error| Bad::Env(e.to_string());
        for twin in &["twinA", "twinB"] {
            let r = dir.join(twin);
            for d in &["", "a", "b"] {
                std::fs::create_dir(r.join(d)).map_err(io)?;
                give(&r.join(d));
            }
            for (n, data, ro) in &c.files {
                let p = r.join(rel(*n));
                if p.parent().map_or(false, |d| d.is_dir()) && !p.exists() {
                    std::fs::write(&p, data).map_err(io)?;
                    give(&p);
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(if *ro { 0o444 } else { 0o644 })).map_err(io)?;
                }
            }
        }
        let redirect = dir.join("redirected");
        let mut redirected: Vec<u8> = vec![];
        let (mut oks, mut errs) = (0, 0);
        let relative = c.relative && c.cli_server;
        for (cmd, json, redir) in &c.cmds {
            if *cmd == Cmd::LsRoot && !c.cli_server {
                continue;
            }
            let at = |twin: &str, n: u8| if relative { format!("{}/{}", twin, rel(n)) } else { format!("{}/{}/{}", dir.display(), twin, rel(n)) };
            let a = |n: &u8| at("twinA", *n);
            let mut args: Vec<String> = vec!["client".into()];
            args.extend(c.opt.args());
            args.extend(vec!["--timeout".into(), "20".into()]);
            if *json {
                args.extend(vec!["-o".into(), "json".into()]);
            }
            if c.flag6 && s.addr.is_ipv6() {
                args.push("-6".into());
            }
            if *redir {
                args.push(format!("--redirect-stdout={}", redirect.display()));
            }
            args.push(s.addr.to_string());
            let x: Vec<String> = match cmd {
                Cmd::Version => vec!["version".into()],
                Cmd::Capabilities => vec!["capabilities".into()],
                Cmd::LsRoot => vec!["ls-root-dir".into()],
                Cmd::Ls(p) => vec!["ls-dir".into(), "--".into(), a(p)],
                Cmd::MkDir(p, true) => vec!["mk-dir".into(), "-p".into(), "--".into(), a(p)],
                Cmd::MkDir(p, false) => vec!["mk-dir".into(), "--".into(), a(p)],
                Cmd::MvDir(f, t) => vec!["mv-dir".into(), "--".into(), a(f), a(t)],
                Cmd::RmDir(p, true) => vec!["rm-dir".into(), "--non-empty".into(), "--".into(), a(p)],
                Cmd::RmDir(p, false) => vec!["rm-dir".into(), "--".into(), a(p)],
                Cmd::Write(p, s) => vec!["write-file".into(), "--".into(), a(p), s.clone()],
                Cmd::Read(p) => vec!["read-file".into(), "--".into(), a(p)],
                Cmd::MvFile(f, t) => vec!["mv-file".into(), "--".into(), a(f), a(t)],
                Cmd::RmFile(p) => vec!["rm-file".into(), "--".into(), a(p)],
            };
            args.extend(x);
            let want = block(&mut s.rt, by_library(&mut s.lib, cmd, |n| at("twinB", n)));
            let r = run(&args, &dir, None)?;
            let what = || format!("{:?}: {}; the library: {}", args, r.show(), clip(&format!("{:?}", want), 500));
            // what came out, wherever it was asked to go
            let now = std::fs::read(&redirect).unwrap_or_default();
            ensure!(now.starts_with(&redirected), "redirected-changed", "{}", what());
            let new = now[redirected.len()..].to_vec();
            redirected = now;
            let unshowable = match &want {
                Ok((_, t)) if !*json && t.starts_with('\0') => Some(t[1..].to_string()),
                _ => None,
            };
            let failed = want.is_err() || unshowable.is_some();
            let stdout = if *redir && !failed {
                ensure!(r.out.is_empty(), "not-redirected", "{}", what());
                new
            } else {
                ensure!(new.is_empty(), "redirected-too-much", "{}: redirected {:?}", what(), String::from_utf8_lossy(&new));
                r.out.clone()
            };
            match (&want, *json) {
                _ if unshowable.is_some() => {
                    ensure!(r.out.is_empty() && r.err() == format!("{}\n", unshowable.unwrap()), "wrong-error", "{}", what());
                }
                (Ok((reply, _)), true) => {
                    let got = plain(&parse_line(&r, &stdout)?);
                    let w = plain(&serde_json::to_value(Content::from(reply.clone())).unwrap());
                    ensure!(got == w, "wrong-output", "{}", what());
                    ensure!(r.err.is_empty(), "error-output", "{}", what());
                    oks += 1;
                }
                (Ok((reply, text)), false) => {
                    let got = String::from_utf8_lossy(&stdout).into_owned();
                    match reply {
                        Reply::DirContentsList(_) => ensure!(lines(&got) == lines(text), "wrong-output", "{}", what()),
                        Reply::FileWritten(_) => ensure!(!got.is_empty(), "wrong-output", "{}", what()),
                        _ => ensure!(got.replace("twinA", "twinB") == *text, "wrong-output", "{}", what()),
                    }
                    ensure!(r.err.is_empty(), "error-output", "{}", what());
                    oks += 1;
                }
                (Err(e), _) => {
                    if *json {
                        let got = parse_line(&r, &stdout)?;
                        ensure!(got["type"] == "error_reply", "wrong-error", "{}", what());
                        let msg = Reply::from(AnyError::from(e.to_string()));
                        let w = serde_json::to_value(Content::from(msg)).unwrap();
                        ensure!(got["payload"]["type"] == w["payload"]["type"] && plain_text(got["payload"]["msg"].as_str().unwrap_or("")) == plain_text(w["payload"]["msg"].as_str().unwrap()), "wrong-error", "{}", what());
                    } else {
                        ensure!(r.out.is_empty() && plain_text(&r.err()) == plain_text(&format!("{}\n", e)), "wrong-error", "{}", what());
                    }
                    errs += 1;
                }
            }
            let (ta, tb) = (tree(&dir.join("twinA")), tree(&dir.join("twinB")));
            ensure!(ta == tb, "wrong-effect", "{}: left {:?}, the library {:?}", what(), ta, tb);
        }
        Ok(Info::new()
            .nt(oks + errs > 1)
            .class(format!("{}-{}", ["none", "sha256", "sha512"][c.opt.auth as usize % 3], ENC[c.opt.enc as usize % 7].0))
            .class_if(s.addr.is_ipv6(), "ipv6")
            .class_if(matches!(s.host, Host::Cli(_)), "own-server")
            .class_if(errs > 0, "errors")
            .class_if(c.cmds.iter().any(|x| x.2), "redirected"))
    })()
    .into()
}
fn cmds() -> impl Strategy<Value = Cmds> {
    let n = || any::<u8>();
    let text = prop_oneof![2 => "[a-z \n\"é-]{1,40}", 1 => "-[a-z-]{0,5}", 1 => (16..20_000usize).prop_map(|n| "0123456789abcde\n".repeat(n / 16))];
    let cmd = prop_oneof![
        1 => Just(Cmd::Version), 1 => Just(Cmd::Capabilities), 1 => Just(Cmd::LsRoot),
        3 => n().prop_map(Cmd::Ls), 3 => (n(), any::<bool>()).prop_map(|(a, b)| Cmd::MkDir(a, b)),
        2 => (n(), n()).prop_map(|(a, b)| Cmd::MvDir(a, b)), 2 => (n(), any::<bool>()).prop_map(|(a, b)| Cmd::RmDir(a, b)),
        3 => (n(), text).prop_map(|(a, s)| Cmd::Write(a, s)), 3 => n().prop_map(Cmd::Read),
        2 => (n(), n()).prop_map(|(a, b)| Cmd::MvFile(a, b)), 2 => n().prop_map(Cmd::RmFile),
    ];
    (
        opt(),
        prop::bool::weighted(0.2),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        prop::collection::vec((cmd, any::<bool>(), prop::bool::weighted(0.3)), 1..10),
        prop::collection::vec((any::<u8>(), prop_oneof![3 => "[a-zé\n]{0,30}".prop_map(|s| s.into_bytes()), 1 => prop::collection::vec(any::<u8>(), 0..20)], prop::bool::weighted(0.3)), 0..6),
    )
        .prop_map(|(opt, v6, flag6, cli_server, relative, cmds, files)| Cmds { opt, v6, flag6, cli_server, relative, cmds, files })
}

// ------------------------------------------------------------------ raw
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawLines {
    opt: Opt,
    cli_server: bool,
    meta: bool,
    /// whether the first one is an argument
    arg: bool,
    lines: Vec<(u8, u32, Vec<u8>)>,
    last_newline: bool,
    redirect: bool,
}
enum Line {
    Ask(Request),
    Bad(String),
    NoText(Vec<u8>),
}
fn lazy(v: Vec<Request>) -> Vec<over_there::core::LazilyTransformedRequest> {
    v.into_iter().map(|r| over_there::core::LazilyTransformedRequest::new(r, vec![])).collect()
}
fn raw_line(k: u8, n: u32, data: &[u8], dir: &Path, custom: bool) -> Line {
    let d = dir.join("twinA").display().to_string();
    let file = || Request::ReadFile(q::ReadFileArgs { id: n, sig: n });
    let custom_req = || if custom { Request::Custom(q::CustomArgs { data: [&[9][..], data].concat() }) } else { Request::Heartbeat };
    Line::Ask(match k % 15 {
        0 => Request::Heartbeat,
        1 => Request::Version,
        2 => Request::Capabilities,
        3 => Request::ListDirContents(q::ListDirContentsArgs { path: d }),
        4 => file(),
        5 => Request::ExecProc(q::ExecProcArgs { command: format!("/no/such/{}", n), args: vec!["é".into()], stdin: false, stdout: true, stderr: true, current_dir: None }),
        6 => Request::Sequence(q::SequenceArgs::from(lazy(vec![custom_req(), Request::Version, file(), Request::Version]))),
        7 => Request::Batch(q::BatchArgs::from(vec![file(), custom_req(), Request::Version])),
        8 => Request::ListDirContents(q::ListDirContentsArgs { path: format!("/no/such/\"\u{e9}\n{}", n) }),
        // (a line that is no text)
        9 if n % 7 == 6 => return Line::NoText([&b"{\"type\":\"version_request\xff\"}"[..], b"\xc3", b"\xf0\x9f\x98"][n as usize / 7 % 3].to_vec()),
        9 => return Line::Bad(["", "nonsense", "{}", "[]", "{\"type\":\"version_request\"", "null"][n as usize % 6].into()),
        10 => return Line::Bad(serde_json::to_string(&Content::from(Reply::Heartbeat)).unwrap()),
        // (refused by the handler: an error of no other kind)
        12 if custom => Request::Custom(q::CustomArgs { data: [&[1][..], data].concat() }),
        11 => return Line::Bad(format!("{{\"type\":\"version_request_{}\"}}", n)),
        _ => custom_req(),
    })
}
fn raw(c: &RawLines) -> Verdict {
    (|| -> R<Info> {
        let mut s = setup(&c.opt, false, c.cli_server)?;
        let dir = s.dir.clone();
        let io = |e: std::io::Error| Bad::Env(e.to_string());
        std::fs::create_dir_all(dir.join("twinA/b c")).map_err(io)?;
        std::fs::write(dir.join("twinA/é"), "x").map_err(io)?;
        let (mut input, mut first, mut want) = (Vec::<u8>::new(), None, vec![]);
        let count = c.lines.len();
        let mut no_text = false;
        for (i, (k, n, data)) in c.lines.iter().enumerate() {
            let meta: HashMap<String, String> = if c.meta { vec![("callback".to_string(), n.to_string()), (format!("k\"é{}", i), String::from_utf8_lossy(data).into_owned())].into_iter().take(1 + i % 2).collect() } else { HashMap::new() };
            let (text, reply) = match raw_line(*k, *n, data, &dir, !c.cli_server) {
                Line::Ask(r) => {
                    let w = match block(&mut s.rt, s.lib.ask(r.clone())) {
                        Ok(x) => x,
                        Err(over_there::core::AskError::Timeout) => return lost("library-unanswered", format!("{:?}", r)),
                        Err(e) => Reply::from(AnyError::from(e)),
                    };
                    let cj = serde_json::to_value(&Content::from(r)).unwrap();
                    let t = if c.meta { serde_json::json!({"content": cj, "metadata": meta}) } else { cj };
                    (t.to_string(), Some(w))
                }
                Line::Bad(t) => (t, None),
                Line::NoText(_) if i == 0 => return Ok(Info::new().class("not-an-argument")),
                Line::NoText(b) => {
                    want.push((None, meta));
                    input.extend(b);
                    input.push(b'\n');
                    no_text = true;
                    continue;
                }
            };
            if text.starts_with('-') || (i == 0 && text.is_empty()) {
                return Ok(Info::new().class("not-an-argument"));
            }
            want.push((reply, meta));
            if i == 0 && c.arg {
                first = Some(text);
            } else {
                input.extend(text.bytes());
                if i + 1 < count || c.last_newline || text.is_empty() {
                    input.push(b'\n');
                }
            }
        }
        let to = dir.join("answers");
        let mut args: Vec<String> = vec!["client".into()];
        args.extend(c.opt.args());
        args.extend(vec!["--timeout=20".into()]);
        if c.redirect {
            args.push(format!("--redirect-stdout={}", to.display()));
        }
        args.extend(vec![s.addr.to_string(), "raw".into()]);
        let more = count > first.is_some() as usize;
        if more {
            args.push("-i".into());
        }
        if c.meta {
            args.push("-m".into());
        }
        if let Some(f) = first {
            args.push("--".into());
            args.push(f);
        }
        let r = run(&args, &dir, if more { Some(input.clone()) } else { None })?;
        let what = || format!("{:?} with input {:?}: {}", args, clip(&String::from_utf8_lossy(&input), 400), r.show());
        let out = if c.redirect {
            ensure!(r.out.is_empty(), "not-redirected", "{}", what());
            String::from_utf8_lossy(&std::fs::read(&to).unwrap_or_default()).into_owned()
        } else {
            r.out()
        };
        let got: Vec<&str> = out.lines().collect();
        ensure!(got.len() == count, "wrong-count", "{} answers to {} lines: {}", got.len(), count, what());
        ensure!(r.err.is_empty(), "error-output", "{}", what());
        for (i, (g, (w, meta))) in got.iter().zip(&want).enumerate() {
            let v: Value = serde_json::from_str(g).map_err(|e| Bad::Fail("not-json".into(), format!("{}: {}", e, what())))?;
            let content = if c.meta { v["content"].clone() } else { v.clone() };
            match w {
                Some(w) => {
                    let w = plain(&serde_json::to_value(Content::from(w.clone())).unwrap());
                    ensure!(plain(&content) == w, "wrong-output", "answer {} is {} instead of {}; {}", i, g, w, what());
                    if c.meta {
                        ensure!(v["metadata"] == serde_json::to_value(meta).unwrap(), "wrong-metadata", "answer {} is {}, sent with {:?}; {}", i, g, meta, what());
                    }
                }
                None => ensure!(content["type"] == "error_reply" && content["payload"]["msg"].as_str().map_or(false, |m| !m.is_empty()), "wrong-output", "answer {} is {} instead of an error; {}", i, g, what()),
            }
        }
        Ok(Info::new().nt(count > 1).class_if(c.meta, "metadata").class_if(more, "interactive").class_if(want.iter().any(|w| w.0.is_none()), "bad-lines").class_if(no_text, "no-text").class_if(c.redirect, "redirected"))
    })()
    .into()
}

// ------------------------------------------------------------------ exec
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exec {
    opt: Opt,
    cli_server: bool,
    json: bool,
    exit_print: bool,
    redirect: bool,
    redirect_err: bool,
    reattach: bool,
    out: Payload,
    err: Payload,
    /// written in pieces with pauses between
    pieces: u8,
    args: Vec<String>,
    dir: u8,
    code: u8,
    /// lines it reads and gives back, and lines it is given
    reads: u8,
    given: u8,
    no_such: bool,
}
fn exec(c: &Exec) -> Verdict {
    let mut last = None;
    // a process that has ended is listened to for some time only: more of it tells lost from late
    for patience in &[250u32, 3000] {
        match exec_with(c, *patience) {
            Err(Bad::Fail(s, m)) if s == "incomplete" => last = Some((s, m)),
            x => return x.into(),
        }
    }
    let (s, m) = last.unwrap();
    bad::<Info, _, _>(s, m).into()
}
fn exec_with(c: &Exec, patience: u32) -> R<Info> {
    let mut s = setup(&c.opt, false, c.cli_server)?;
    let dir = s.dir.clone();
    let io = |e: std::io::Error| Bad::Env(e.to_string());
    std::fs::create_dir_all(dir.join("w d/é")).map_err(io)?;
    let cut = |b: Vec<u8>| if c.opt.net == Net::Udp { b[..b.len().min(6000)].to_vec() } else { b };
    let (out, err) = (cut(c.out.get()), cut(c.err.get()));
    let n = c.pieces as usize % 4 + 1;
    let mut script = String::new();
    let wd = [None, Some(dir.join("w d")), Some(dir.join("w d/é"))][c.dir as usize % 3].clone();
    if !c.reattach {
        script.push_str("pwd\nfor a; do printf '%s\\n' \"$a\"; done\n");
    }
    for (name, data, to) in &[("o", &out, ""), ("e", &err, " >&2")] {
        for (i, p) in data.chunks(data.len() / n + 1).enumerate() {
            let f = dir.join(format!("{}{}", name, i));
            std::fs::write(&f, p).map_err(io)?;
            give(&f);
            script.push_str(&format!("cat '{}'{}\n{}", f.display(), to, if c.pieces & 16 > 0 { "sleep 0.02\n" } else { "" }));
        }
    }
    let reads = if c.reattach { 0 } else { c.reads.min(c.given) };
    for _ in 0..reads {
        script.push_str("IFS= read -r l; printf '%s\\n' \"$l\"\n");
    }
    if c.reattach {
        script.push_str(&format!("while [ ! -e '{}' ] && [ -d '{}' ]; do sleep 0.01; done\n", dir.join("go").display(), dir.display()));
    }
    script.push_str(&format!("exit {}\n", c.code));
    let mut want = vec![];
    let base = match &c.host_dir(&dir, &wd) {
        Some(d) => d.display().to_string(),
        None => String::new(),
    };
    if !c.reattach {
        want.extend(format!("{}\n", base).into_bytes());
        for a in &c.args {
            want.extend(a.bytes());
            want.push(b'\n');
        }
    }
    want.extend(&out);
    // (every other line is no text)
    let line = |i: u8| [format!("line {} \u{e9}{}", i, "x".repeat(i as usize * 7)).as_bytes(), if i % 2 == 1 { b"\xff\xc3\n" } else { b"\n" }].concat();
    for i in 0..reads {
        want.extend(line(i));
    }
    let input: Vec<u8> = (0..c.given).flat_map(line).collect();

    let mut args: Vec<String> = vec!["client".into()];
    args.extend(c.opt.args());
    args.extend(vec!["--timeout=20".into()]);
    if c.json {
        args.extend(vec!["-o".into(), "json".into()]);
    }
    if c.exit_print {
        args.push("--exit-print".into());
    }
    let (fo, fe) = (dir.join("redirected"), dir.join("redirected-err"));
    if c.redirect {
        args.push(format!("--redirect-stdout={}", fo.display()));
    }
    if c.redirect_err {
        args.push(format!("--redirect-stderr={}", fe.display()));
    }
    args.push(s.addr.to_string());
    let no_such = c.no_such;
    if c.reattach {
        let mut x = block(&mut s.rt, s.lib.ask_exec_proc_with_options("sh".into(), vec!["-c".into(), script.clone()], false, true, true, None)).map_err(|e| Bad::Fail("library".into(), format!("{:?}", e)))?;
        let p: RemoteProc = std::mem::take(&mut x).into();
        args.extend(vec!["reattach".into(), "--no-stdin".into(), format!("--post-exit-duration={}", patience), if no_such { u32::MAX - c.pieces as u32 } else { p.id() }.to_string()]);
        let go = dir.join("go");
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(60));
            let _ = std::fs::write(go, "");
        });
    } else {
        args.push("exec".into());
        args.push(format!("--post-exit-duration={}", patience));
        if c.given == 0 {
            args.push("--no-stdin".into());
        }
        if let Some(d) = &wd {
            args.push(format!("--current-dir={}", d.display()));
        }
        if no_such {
            args.push("/no/such/thing".into());
        } else {
            args.push("--".into());
            args.extend(vec!["sh".into(), "-c".into(), script.clone(), "sh".into()]);
            args.extend(c.args.iter().cloned());
        }
    }
    let r = run(&args, &dir, if c.given > 0 && !c.reattach { Some(input.clone()) } else { None })?;
    let red = |b: bool, f: &Path, direct: &Vec<u8>| if b { std::fs::read(f).unwrap_or_default() } else { direct.clone() };
    let what = |o: &[u8], e: &[u8]| {
        format!(
            "{:?}, {} lines given: {}; out {} bytes {:?} (expected {} bytes {:?}), err {} bytes {:?} (expected {} bytes)",
            args, c.given, r.show(), o.len(), clip(&String::from_utf8_lossy(o), 300), want.len(), clip(&String::from_utf8_lossy(&want), 300), e.len(), clip(&String::from_utf8_lossy(e), 300), err.len()
        )
    };
    if no_such {
        if c.json {
            let v = parse_line(&r, &r.out)?;
            ensure!(v["type"] == "error_reply", "wrong-error", "{}", r.show());
        } else {
            ensure!(r.out.is_empty() && !r.err.is_empty(), "wrong-error", "{}", r.show());
        }
        return Ok(Info::new().nt(true).class("no-such").class_if(c.reattach, "no-such-process"));
    }
    let code = c.code;
    let (got, mut got_err, status) = if c.json {
        // everything goes to the output, one content per line
        ensure!(r.err.is_empty(), "error-output", "{}", r.show());
        let (mut o, mut e, mut st) = (vec![], vec![], vec![]);
        let text = red(c.redirect, &fo, &r.out);
        for l in String::from_utf8_lossy(&text).lines() {
            match serde_json::from_str::<Content>(l) {
                Ok(Content::Reply(Reply::ProcStdoutContents(a))) => o.extend(a.output),
                Ok(Content::Reply(Reply::ProcStderrContents(a))) if !c.redirect_err => e.extend(a.output),
                Ok(Content::Reply(Reply::ProcStatus(a))) => st.push(a),
                x => return bad("wrong-output", format!("{:?}: {}", x, r.show())),
            }
        }
        // (where its errors go when only its output is redirected is not settled)
        if c.redirect_err || c.redirect {
            let mut apart = std::fs::read(&fe).unwrap_or_default();
            if c.redirect {
                apart.extend(&r.out);
            }
            for l in String::from_utf8_lossy(&apart).lines() {
                match serde_json::from_str::<Content>(l) {
                    Ok(Content::Reply(Reply::ProcStderrContents(a))) => e.extend(a.output),
                    x => return bad("wrong-output", format!("{:?}: {}", x, r.show())),
                }
            }
        }
        (o, e, Some(st))
    } else {
        (red(c.redirect, &fo, &r.out), red(c.redirect_err, &fe, &r.err), None)
    };
    if c.redirect && !c.json {
        ensure!(r.out.is_empty(), "not-redirected", "{}", r.show());
    }
    if c.redirect_err && !c.json {
        ensure!(r.err.is_empty(), "not-redirected", "{}", r.show());
    }
    if let Some(st) = &status {
        ensure!(st.len() == 1 && !st[0].is_alive && st[0].exit_code == Some(code as i32), "wrong-status", "{:?}; {}", st, what(&got, &got_err));
    } else if c.exit_print {
        // (its errors, with the note of its end somewhere after what it wrote before)
        let t = got_err.clone();
        let note = format!("exited with code {}", code);
        let at = t.windows(note.len()).rposition(|w| w == note.as_bytes());
        match at {
            None => return bad("no-exit-note", what(&got, &got_err)),
            Some(i) => {
                let from = t[..i].windows(5).rposition(|w| w == b"Proc ").unwrap_or(i);
                got_err = [&t[..from], &t[i + note.len()..]].concat();
            }
        }
    }
    if got != want || got_err != err {
        let sub = |a: &[u8], b: &[u8]| b.starts_with(a);
        if sub(&got, &want) && sub(&got_err, &err) {
            return bad("incomplete", what(&got, &got_err));
        }
        return bad("wrong-output", what(&got, &got_err));
    }
    Ok(Info::new()
        .nt(want.len() + err.len() > 0)
        .class_if(c.reattach, "reattach")
        .class_if(c.given > reads && !c.reattach, "more-input-than-read")
        .class_if(reads > 0, "input-read")
        .class_if(std::str::from_utf8(&out).is_err(), "not-text")
        .class_if(c.redirect || c.redirect_err, "redirected")
        .class_if(c.json, "json"))
}
impl Exec {
    /// where `pwd` is
    fn host_dir(&self, scratch: &Path, wd: &Option<PathBuf>) -> Option<PathBuf> {
        match wd {
            Some(d) => Some(d.clone()),
            None if self.cli_server => Some(scratch.to_path_buf()),
            None => std::env::current_dir().ok(),
        }
    }
}
fn execs() -> impl Strategy<Value = Exec> {
    let data = || {
        prop_oneof![
            3 => "[a-zé漢\n]{0,60}".prop_map(|s| Payload::Lit(s.into_bytes())),
            2 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Payload::Lit),
            2 => (0..60_000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
            2 => (0..20_000usize).prop_map(|n| Payload::Lit("漢é x\n".repeat(n / 8).into_bytes())),
        ]
    };
    let flag = || any::<bool>();
    (
        (opt(), flag(), flag(), flag(), prop::bool::weighted(0.3), prop::bool::weighted(0.3), prop::bool::weighted(0.2)),
        (data(), data(), any::<u8>(), prop::collection::vec("[ -~é]{1,12}", 0..4), any::<u8>(), 0..128u8, 0..5u8, 0..8u8, prop::bool::weighted(0.06)),
    )
        .prop_map(|((opt, cli_server, json, exit_print, redirect, redirect_err, reattach), (out, err, pieces, args, dir, code, reads, given, no_such))| Exec {
            opt, cli_server, json, exit_print, redirect, redirect_err, reattach, out, err, pieces, args, dir, code, reads, given, no_such,
        })
}

// ------------------------------------------------------------------ options that differ
fn mismatch(c: &(Opt, Opt, bool)) -> Verdict {
    (|| -> R<Info> {
        let (a, mut b, cli_server) = c.clone();
        b.net = a.net;
        // (a signature says which of both functions made it)
        let same_auth = a.auth % 3 > 0 && b.auth % 3 > 0 && a.akey() == b.akey() || a.auth % 3 == b.auth % 3 && a.auth % 3 == 0;
        let same_crypt = a.kind() == b.kind() && a.ekey() == b.ekey();
        if same_auth && same_crypt {
            return Ok(Info::new().class("same"));
        }
        let s = setup(&a, false, cli_server)?;
        let mut args: Vec<String> = vec!["client".into(), "--timeout=0.25".into(), "-o".into(), "json".into()];
        args.extend(b.args());
        args.extend(vec![s.addr.to_string(), "version".into()]);
        let r = run(&args, &s.dir, None)?;
        let v = parse_line(&r, &r.out)?;
        ensure!(v["type"] == "error_reply", "answered", "server {:?}: {}", a, r.show());
        Ok(Info::new().nt(true).class_if(!same_auth, "authentication").class_if(!same_crypt, "encryption"))
    })()
    .into()
}

/// How long the tool waits for an answer
fn timeouts(c: &(Opt, u16, bool)) -> Verdict {
    (|| -> R<Info> {
        let (o, ms, late) = c;
        let s = setup(o, false, false)?;
        let f = s.dir.join("go");
        let mut data = vec![4u8; 8];
        data.extend(f.display().to_string().bytes());
        let m = Content::from(Request::Custom(q::CustomArgs { data }));
        let mut args: Vec<String> = vec!["client".into()];
        args.extend(o.args());
        let timeout = if *late { 0.1 + *ms as f64 / 1000.0 } else { 9.0 };
        args.push(format!("--timeout={}", timeout));
        args.extend(vec![s.addr.to_string(), "raw".into(), "--".into(), serde_json::to_string(&m).unwrap()]);
        if !*late {
            // after the default of five seconds
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_millis(5500));
                let _ = std::fs::write(f, "");
            });
        }
        let r = run(&args, &s.dir, None)?;
        let v = parse_line(&r, &r.out)?;
        if *late {
            ensure!(v["type"] == "error_reply", "answered", "{}", r.show());
            let took = r.took.as_secs_f64();
            ensure!(took >= timeout - 0.01, "too-early", "waited {} s instead of {}: {}", took, timeout, r.show());
            if took > timeout + 1.5 {
                return lost("too-late", format!("waited {} s instead of {}: {}", took, timeout, r.show()));
            }
        } else if v["type"] == "error_reply" {
            return lost("gave-up", format!("answered after 5.5 s of {}: {}", timeout, r.show()));
        }
        Ok(Info::new().nt(true).class_if(*late, "given-up"))
    })()
    .into()
}

// ------------------------------------------------------------------ options it cannot use
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Odd {
    server: bool,
    kind: u8,
    value: u8,
    len: u8,
    enc: u8,
}
fn odd(c: &Odd) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let scratch = Scratch::new()?;
        // (somebody is there who would answer one who just went without)
        let srv = if c.server { None } else { Some(setup(&Opt { net: Net::Tcp, auth: 0, akey: String::new(), enc: 0, ekey_seed: 0 }, false, false)?) };
        let addr = srv.as_ref().map_or_else(|| own_addr(false), |s| s.addr);
        let durations = ["-1", "-0.001", "NaN", "inf", "-inf", "1e300", "abc", "", "5s", "18446744073709551616"];
        let flags: &[&str] = if c.server { &["timeout", "packet-ttl", "cleanup-interval", "untouched-file-ttl", "untouched-proc-ttl", "dead-proc-ttl"] } else { &["timeout", "packet-ttl"] };
        let enc = ENC[1 + c.enc as usize % 6];
        let kinds = if c.server { 7 } else { 8 };
        let opts: Vec<String> = match c.kind % kinds {
            // nowhere to write the answer
            7 => vec![format!("--redirect-stdout={}", scratch.path().join("missing/out").display())],
            0 | 1 => vec![format!("--{}={}", flags[c.enc as usize % flags.len()], durations[c.value as usize % durations.len()])],
            // a key of another length
            2 => {
                let want = enc.1.key_len();
                let len = if c.len as usize == want { want + 1 } else { c.len as usize };
                vec!["-e".into(), enc.0.into(), format!("--ekey={}", "k".repeat(len.max(1)))]
            }
            3 => vec!["-e".into(), enc.0.into()],
            4 => vec!["-a".into(), ["sha256", "sha512"][c.value as usize % 2].into()],
            5 => vec![["-t", "-e", "-a"][c.value as usize % 3].into(), ["", "Tcp", "sha1", "aes", "nope"][c.enc as usize % 5].into()],
            _ => vec![format!("--internal-buffer-size={}", ["-1", "x", "1.5", "", "0", "18446744073709551615"][c.value as usize % 6])],
        };
        let mut args: Vec<String> = vec![if c.server { "server".into() } else { "client".into() }];
        if c.kind % kinds != 5 {
            args.extend(vec!["-t".into(), "tcp".into()]);
        }
        args.extend(opts);
        args.push(addr.to_string());
        if !c.server {
            let d = scratch.path();
            for x in &["d", "e"] {
                std::fs::create_dir(d.join(x)).map_err(|e| Bad::Env(e.to_string()))?;
            }
            for x in &["f", "g", "h"] {
                std::fs::write(d.join(x), "text").map_err(|e| Bad::Env(e.to_string()))?;
            }
            let p = |x: &str| d.join(x).display().to_string();
            let cmds = vec![
                vec!["version".to_string()],
                vec!["capabilities".into()],
                vec!["ls-root-dir".into()],
                vec!["ls-dir".into(), p("")],
                vec!["mk-dir".into(), p("n")],
                vec!["mv-dir".into(), p("d"), p("m")],
                vec!["rm-dir".into(), p("e")],
                vec!["write-file".into(), p("w"), "x".into()],
                vec!["read-file".into(), p("f")],
                vec!["mv-file".into(), p("g"), p("k")],
                vec!["rm-file".into(), p("h")],
                vec!["exec".into(), "echo".into(), "hi".into()],
            ];
            let cmd = &cmds[c.len as usize % cmds.len()];
            args.extend(cmd.clone());
        }
        let r = run(&args, &scratch.path(), None)?;
        ensure!(!r.err.is_empty() && r.out.is_empty(), "no-error", "{:?}: {}", args, r.show());
        if c.kind % kinds == 7 {
            // (a line about the connection that ended is none about this)
            ensure!(r.err().contains("o such file"), "no-error", "{:?}: {}", args, r.show());
        }
        Ok(Info::new().nt(true).class(format!("kind{}", c.kind % kinds)).class_if(c.server, "server"))
    })()
    .into()
}
/// Nobody there, and addresses that are none
fn nobody(c: &(u8, bool, bool)) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let scratch = Scratch::new()?;
        let addr = own_addr(false);
        let (kind, json, udp) = *c;
        let mut args: Vec<String> = vec!["client".into(), "--timeout=0.3".into(), "-t".into(), if udp { "udp".into() } else { "tcp".into() }];
        if json {
            args.extend(vec!["-o".into(), "json".into()]);
        }
        args.push(match kind % 5 {
            0 | 1 => addr.to_string(),
            2 => "127.0.0.1".into(),
            3 => "[::1".into(),
            _ => "127.0.0.1:70000".into(),
        });
        args.push("version".into());
        let r = run(&args, &scratch.path(), None)?;
        if json {
            let v = parse_line(&r, &r.out)?;
            ensure!(v["type"] == "error_reply", "no-error", "{:?}: {}", args, r.show());
        } else {
            ensure!(!r.err.is_empty() && r.out.is_empty(), "no-error", "{:?}: {}", args, r.show());
        }
        Ok(Info::new().nt(kind % 5 < 2))
    })()
    .into()
}

/// Each of the server's times to live governs what it is named for
fn lives(c: &(Opt, u8, u8)) -> Verdict {
    (|| -> R<Info> {
        let (o, short, exp) = c;
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        start_stall_monitor();
        let mut rt = local_runtime();
        // long may mean for ever
        let long = ["600", "1e8", "1e12", "1e19"][*exp as usize % 4];
        let ttl = |i: u8| if short & (1 << i) > 0 { "0.25" } else { long };
        // (the packets' own time may be short as well)
        let extra: Vec<String> = vec![
            format!("--untouched-file-ttl={}", ttl(0)),
            format!("--untouched-proc-ttl={}", ttl(1)),
            format!("--dead-proc-ttl={}", ttl(2)),
            format!("--cleanup-interval={}", if short & 8 > 0 { long } else { "0.1" }),
            format!("--packet-ttl={}", 5 + exp % 9),
            format!("--internal-buffer-size={}", 1 + *exp as usize * 7),
            format!("--working-dir={}", dir.display()),
        ];
        let (s, mut l) = CliSrv::start(o, false, &extra, &mut rt)?;
        let file = block(&mut rt, l.ask_open_file("file".into())).map_err(|e| Bad::Fail("open".into(), format!("{:?}", e)))?;
        ensure!(dir.join("file").exists(), "working-dir", "the file was not created in the working directory");
        let f: RemoteFile = file.into();
        let live: RemoteProc = block(&mut rt, l.ask_exec_proc_with_options("sleep".into(), vec!["300".into()], false, false, false, None)).map_err(|e| Bad::Fail("exec".into(), format!("{:?}", e)))?.into();
        let dead: RemoteProc = block(&mut rt, l.ask_exec_proc_with_options("true".into(), vec![], false, false, false, None)).map_err(|e| Bad::Fail("exec".into(), format!("{:?}", e)))?.into();
        // (its end is noticed by asking)
        for _ in 0..200 {
            match block(&mut rt, l.ask_read_proc_status(&dead)) {
                Ok(x) if x.is_alive => std::thread::sleep(Duration::from_millis(2)),
                _ => break,
            }
        }
        std::thread::sleep(Duration::from_millis(1100));
        let cleaned = short & 8 == 0;
        let known = [
            block(&mut rt, l.ask_read_file(&f)).is_ok(),
            block(&mut rt, l.ask_read_proc_status(&live)).is_ok(),
            block(&mut rt, l.ask_read_proc_status(&dead)).is_ok(),
        ];
        let _ = block(&mut rt, l.ask_proc_kill(&live));
        for i in 0..3u8 {
            // (a process that is dead and known to be has a time of its own)
            let gone = cleaned && if i == 2 { short & 4 > 0 } else { short & (1 << i) > 0 };
            if gone == known[i as usize] {
                let m = format!("{:?}: {} is {}", extra, ["the file", "the live process", "the dead process"][i as usize], if gone { "still there" } else { "gone" });
                if i == 2 && short & 2 > 0 {
                    continue;
                }
                return if gone { lost("kept", m) } else { bad("gone", m) };
            }
        }
        s.end()?;
        Ok(Info::new().nt(true).class_if(!cleaned, "no-clean-up"))
    })()
    .into()
}

/// A name stands for its addresses, of which one of the wanted family is taken
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Names {
    opt: Opt,
    /// the name's addresses: of which families
    v6: Vec<bool>,
}
fn names(c: &Names) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let mut rt = local_runtime();
        let io = |e: std::io::Error| Bad::Env(e.to_string());
        // (one port for all)
        let port = own_addr(true).port();
        let (mut hosts, mut up, mut k) = (String::from("127.0.0.1 localhost\n"), vec![], 0);
        for v6 in &c.v6 {
            let mut addr = if *v6 { SocketAddr::new("::1".parse().unwrap(), port) } else { own_addr(false) };
            addr.set_port(port);
            hosts.push_str(&format!("{} some.name.test\n", addr.ip()));
            // (there is but one address of the other family)
            if *v6 && up.iter().any(|(a, ..): &(SocketAddr, CliSrv, ConnectedClient)| a.is_ipv6()) {
                continue;
            }
            let d = dir.join(format!("d{}", k));
            k += 1;
            std::fs::create_dir(&d).map_err(io)?;
            std::fs::write(d.join("which"), addr.to_string()).map_err(io)?;
            give(&d);
            let (s, l) = CliSrv::start_at(&c.opt, addr, &[format!("--working-dir={}", d.display())], &mut rt)?;
            up.push((addr, s, l));
        }
        let file = dir.join("hosts");
        std::fs::write(&file, hosts).map_err(io)?;
        give(&file);
        for flag in [false, true] {
            let mut args: Vec<String> = vec!["client".into()];
            args.extend(c.opt.args());
            args.extend(["--timeout", "20"].iter().map(|s| s.to_string()));
            if flag {
                args.push("-6".into());
            }
            args.extend([format!("some.name.test:{}", port), "read-file".into(), "which".into()]);
            let r = run_knowing(&file, &args, &dir)?;
            if r.code == Some(77) || r.err().starts_with("unshare") {
                return Ok(Info::new().nt(false).class("no-namespaces-here"));
            }
            let usable: Vec<String> = up.iter().filter(|(a, ..)| a.is_ipv6() == flag || up.iter().all(|(b, ..)| b.is_ipv6() != flag)).map(|(a, ..)| a.to_string()).collect();
            ensure!(r.code == Some(0) && usable.contains(&r.out()), "wrong-server", "{} addresses {:?}, family {}: {}", if usable.len() < up.len() { "of the" } else { "all" }, up.iter().map(|x| x.0).collect::<Vec<_>>(), if flag { 6 } else { 4 }, r.show());
        }
        let n = up.len();
        for (_, s, _) in up {
            s.end()?;
        }
        Ok(Info::new().nt(n > 1).class_if(c.v6.contains(&true) && c.v6.contains(&false), "both-families"))
    })()
    .into()
}

/// More visitors than the server has descriptors for
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Full {
    opt: Opt,
    /// descriptors the server may have
    room: u8,
    /// times: (visitors beyond that, what is asked meanwhile, ms they stay)
    rounds: Vec<(u8, u8, u8)>,
}
pub fn full() -> impl Strategy<Value = Full> {
    (opt(), 24..60u8, prop::collection::vec((1..40u8, any::<u8>(), 0..120u8), 1..4)).prop_map(|(mut opt, room, rounds)| {
        opt.net = Net::Tcp;
        Full { opt, room, rounds }
    })
}
pub fn full_once(c: &Full) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let mut rt = local_runtime();
        let (mut s, mut early) = CliSrv::start_within(&c.opt, false, &["--working-dir".into(), dir.display().to_string()], &mut rt, Some(c.room as u64))?;
        early.timeout = PATIENCE;
        let mut refused = 0;
        for (i, (more, what, stay)) in c.rounds.iter().enumerate() {
            let mut there = vec![];
            for k in 0..c.room as usize + *more as usize {
                match std::net::TcpStream::connect_timeout(&s.addr, Duration::from_secs(2)) {
                    Ok(x) => there.push(x),
                    Err(e) => {
                        if let Ok(Some(st)) = s.child.try_wait() {
                            return bad("server-ended", format!("visitor {}: {}, the server ended with {:?}", k, e, st));
                        }
                        // (with nobody accepting the kernel's queue may be full)
                        break;
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(*stay as u64));
            // whoever is there is served all along, if only with errors
            match block(&mut rt, early.ask(Request::Heartbeat)) {
                Ok(Reply::Heartbeat) => {}
                x => return lost("early-client", format!("round {}: with {} visitors the client there before them gets {:?}", i, there.len(), x)),
            }
            let r = match what % 4 {
                0 => Some(Request::OpenFile(q::OpenFileArgs { path: dir.join("new").display().to_string(), create_if_missing: true, write_access: true, read_access: true })),
                1 => Some(Request::ExecProc(q::ExecProcArgs { command: "true".into(), args: vec![], stdin: false, stdout: true, stderr: true, current_dir: None })),
                2 => Some(Request::ListDirContents(q::ListDirContentsArgs { path: dir.display().to_string() })),
                _ => None,
            };
            if let Some(r) = r {
                use over_there::core::AskError;
                match block(&mut rt, early.ask(r.clone())) {
                    Err(AskError::Timeout) => return lost("early-client", format!("round {}: {:?} is not answered", i, r)),
                    Err(_) | Ok(Reply::Error(_)) => refused += 1,
                    Ok(_) => {}
                }
            }
            drop(there);
            for k in 0..3 {
                // (a newcomer may still be refused while the others are leaving)
                let t = Instant::now();
                loop {
                    let got = match c.opt.connect(&mut rt, s.addr) {
                        Ok(mut n) => {
                            n.timeout = Duration::from_secs(3);
                            format!("{:?}", block(&mut rt, n.ask(Request::Heartbeat)))
                        }
                        Err(e) => format!("{:?}", e),
                    };
                    if got == "Ok(Heartbeat)" {
                        break;
                    }
                    if let Ok(Some(st)) = s.child.try_wait() {
                        return bad("server-ended", format!("the server ended with {:?}", st));
                    }
                    if t.elapsed() > PATIENCE {
                        return lost("newcomer", format!("round {}: the visitors are gone, newcomer {} gets {}", i, k, got));
                    }
                }
            }
        }
        s.end()?;
        Ok(Info::new().nt(true).class("full").class_if(refused > 0, "refused-for-lack"))
    })()
    .into()
}

pub fn c24() -> Check {
    let scale = |quick, thorough| o(quick, thorough).hang(120);
    Check {
        rule: "commands: up to 9 file and directory commands with odd names and texts, JSON or human output, redirected or not, over every transport, authentication, encryption and address family, against the tool's own server or a library one. raw: lines of requests, nonsense and what is no text, with and without metadata. exec: scripts with given output, input, arguments, directory, exit code; reattach. mismatch, timeouts, odd, nobody, lives: options that differ, times to wait, unusable options, dead addresses, the server's times to live. names: a name with up to three addresses, a server at each. Non-trivial: more than one command, or anything but the no-op of its leg. Oracle: a library client doing the same on a twin directory tree (answers and trees compared), or what the script was made to do.",
        assumptions: vec!["the tool is built from the working tree with features cli and format-sexpression", "runs unprivileged"],
        legs: vec![
            leg("commands", scale(500, 12_000), cmds, commands),
            leg("raw", scale(400, 8_000), || (opt(), any::<bool>(), any::<bool>(), any::<bool>(), prop::collection::vec((any::<u8>(), any::<u32>(), prop::collection::vec(any::<u8>(), 0..40)), 1..7), any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(opt, cli_server, meta, arg, lines, last_newline, redirect)| RawLines { opt, cli_server, meta, arg, lines, last_newline, redirect }), raw),
            leg("exec", scale(250, 6_000), execs, exec),
            leg("mismatch", scale(80, 2_000), || (opt(), opt(), any::<u8>()).prop_map(|(a, mut b, k)| {
                // one thing differs, mostly
                if k & 1 == 0 { b.auth = a.auth; b.akey = a.akey.clone(); }
                if k & 2 == 0 { b.enc = a.enc; }
                if k & 4 == 0 { b.ekey_seed = a.ekey_seed; }
                if k & 8 == 0 { b.akey = a.akey.clone(); }
                (a, b, k & 16 == 0)
            }), mismatch),
            leg("timeouts", scale(16, 200).shrink(60), || (opt(), 0..1500u16, prop::bool::weighted(0.7)), timeouts),
            leg("odd", scale(300, 4_000), || (any::<bool>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(server, kind, value, len, enc)| Odd { server, kind, value, len, enc }), odd),
            leg("nobody", scale(40, 400), || (any::<u8>(), any::<bool>(), any::<bool>()), nobody),
            leg("names", scale(80, 1_000), || (opt(), prop::collection::vec(any::<bool>(), 1..4)).prop_map(|(opt, v6)| Names { opt, v6 }), names),
            leg("lives", scale(32, 400).shrink(60), || (opt(), 0..16u8, any::<u8>()), lives),
        ],
    }
}
