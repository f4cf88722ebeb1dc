//! Files and directories: the same operations done by the server and, by the harness, on a mirror
//! tree with plain system calls; a model of the open handles on top.
use crate::e2e::*;
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{reply, request, AskError, ConnectedClient, Reply, ReplyError, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use tokio::runtime::Runtime;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P {
    c: Vec<u8>,
    spell: u8,
}
const NAMES: [&str; 14] = [
    "a", "b", "c", "l1", "l2", "d \u{fc}", "e.txt", "..y", ".x", "A", "a ", "a'\"\n\\", "a~",
    "a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name",
];
impl P {
    fn rel(&self) -> String {
        let n = self.c.len();
        let mut s = String::new();
        for (i, k) in self.c.iter().enumerate() {
            if i > 0 {
                s.push('/');
                if i + 1 == n {
                    match self.spell % 5 {
                        1 => s.push_str("./"),
                        2 => s.push('/'),
                        _ => {}
                    }
                }
            } else if self.spell % 5 == 3 {
                s.push_str("a/../");
            }
            s.push_str(NAMES[*k as usize % NAMES.len()]);
        }
        s
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sig {
    Current,
    Old(u8),
    Other(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open { p: P, create: bool, write: bool, read: bool },
    Close { h: u8, sig: Sig },
    Read { h: u8, sig: Sig },
    Write { h: u8, sig: Sig, data: Payload },
    RenameH { h: u8, sig: Sig, to: P },
    RemoveH { h: u8, sig: Sig },
    RenameF { from: P, to: P },
    RemoveF { p: P },
    MkDir { p: P, all: bool },
    RenDir { from: P, to: P },
    RmDir { p: P, full: bool },
    List { p: P },
    /// another program on the server's machine overwrites a file
    Outside { p: P, data: Payload },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fsc {
    net: Net,
    dirs: Vec<P>,
    files: Vec<(P, Payload)>,
    /// (link, target): the target is relative to the link's directory
    links: Vec<(P, String)>,
    /// sockets: neither files nor directories nor links
    #[serde(default)]
    socks: Vec<P>,
    ops: Vec<Op>,
}
fn path() -> BoxedStrategy<P> {
    (prop::collection::vec(prop_oneof![6 => 0..3u8, 2 => 3..5u8, 1 => 5..14u8], 1..4), 0..10u8).prop_map(|(c, spell)| P { c, spell }).boxed()
}
/// Few enough names that operations meet
fn hot() -> BoxedStrategy<P> {
    prop_oneof![3 => (0..3u8).prop_map(|k| P { c: vec![k], spell: 0 }), 2 => (0..2u8, 0..3u8).prop_map(|(a, b)| P { c: vec![a, b], spell: 0 }), 2 => path()].boxed()
}
/// Several levels down
fn deep() -> BoxedStrategy<P> {
    (prop::collection::vec(0..2u8, 1..5), 0..3u8).prop_map(|(mut c, k)| {
        c.push(k);
        P { c, spell: 0 }
    }).boxed()
}
/// A few operations that meet on one path and its ancestors
fn cluster() -> BoxedStrategy<Vec<Op>> {
    let dirop = prop_oneof![
        2 => any::<bool>().prop_map(|full| (0u8, full)),
        2 => Just((1u8, false)),
        1 => Just((2u8, false)),
        1 => Just((3u8, false)),
        1 => Just((4u8, false)),
    ];
    (deep(), prop::collection::vec((0..6usize, dirop, hot(), prop::bool::weighted(0.2), any::<u8>()), 1..4), prop::bool::weighted(0.8), prop::bool::weighted(0.2))
        .prop_map(|(p, acts, open, close)| {
            let mut v = vec![];
            let up = |k: usize| P { c: p.c[..(p.c.len() - k.min(p.c.len() - 1))].to_vec(), spell: 0 };
            v.push(Op::MkDir { p: up(1), all: true });
            v.push(Op::Open { p: p.clone(), create: true, write: true, read: true });
            if !open || close {
                v.push(Op::Close { h: 255, sig: Sig::Current });
            }
            for (k, (what, full), other, flip, h) in acts {
                let a = up(k);
                let (f, t) = if flip { (other, a.clone()) } else { (a.clone(), other) };
                v.push(match what {
                    0 => Op::RmDir { p: a, full },
                    1 => Op::RenDir { from: f, to: t },
                    2 => Op::RenameF { from: f, to: t },
                    3 => Op::List { p: a },
                    _ => Op::Open { p: a, create: true, write: h % 2 == 0, read: true },
                });
                v.push(Op::Read { h: 255, sig: Sig::Current });
            }
            v
        })
        .boxed()
}
fn sig() -> BoxedStrategy<Sig> {
    prop_oneof![8 => Just(Sig::Current), 2 => any::<u8>().prop_map(Sig::Old), 1 => any::<u32>().prop_map(Sig::Other)].boxed()
}
fn data() -> BoxedStrategy<Payload> {
    prop_oneof![
        1 => Just(Payload::Lit(vec![])),
        6 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Payload::Lit),
        2 => (0..5000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
        1 => (0..70_000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
    ]
    .boxed()
}
fn op(handles: bool) -> BoxedStrategy<Op> {
    let w = if handles { 1 } else { 3 };
    prop_oneof![
        6 => (hot(), prop::bool::weighted(0.7), prop::bool::weighted(0.8), prop::bool::weighted(0.8)).prop_map(|(p, create, write, read)| Op::Open { p, create, write, read }),
        1 => (any::<u8>(), sig()).prop_map(|(h, sig)| Op::Close { h, sig }),
        4 => (any::<u8>(), sig()).prop_map(|(h, sig)| Op::Read { h, sig }),
        5 => (any::<u8>(), sig(), data()).prop_map(|(h, sig, data)| Op::Write { h, sig, data }),
        2 => (any::<u8>(), sig(), hot()).prop_map(|(h, sig, to)| Op::RenameH { h, sig, to }),
        1 => (any::<u8>(), sig()).prop_map(|(h, sig)| Op::RemoveH { h, sig }),
        w * 2 => (hot(), hot()).prop_map(|(from, to)| Op::RenameF { from, to }),
        w => hot().prop_map(|p| Op::RemoveF { p }),
        w => (hot(), any::<bool>()).prop_map(|(p, all)| Op::MkDir { p, all }),
        w => (hot(), hot()).prop_map(|(from, to)| Op::RenDir { from, to }),
        w => (hot(), any::<bool>()).prop_map(|(p, full)| Op::RmDir { p, full }),
        w => hot().prop_map(|p| Op::List { p }),
        1 => (hot(), data()).prop_map(|(p, data)| Op::Outside { p, data }),
    ]
    .boxed()
}
fn link() -> BoxedStrategy<(P, String)> {
    let t = prop_oneof![Just("a"), Just("b"), Just("../a"), Just("a/b"), Just("c"), Just("../b/c"), Just("l2"), Just("nowhere"), Just("e.txt")];
    ((prop::collection::vec(0..2u8, 0..2), 3..5u8), t)
        .prop_map(|((mut c, l), t)| {
            c.push(l);
            (P { c, spell: 0 }, t.to_string())
        })
        .boxed()
}
fn fsc(handles: bool) -> impl Strategy<Value = Fsc> {
    (
        Just(Net::Tcp),
        prop::collection::vec(path(), 0..4),
        prop::collection::vec((prop_oneof![3 => hot(), 1 => deep()], data()), 0..4),
        prop::collection::vec(link(), 0..3),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(hot(), 1..3)],
        prop::collection::vec(prop_oneof![if handles { 24 } else { 12 } => op(handles).prop_map(|o| vec![o]), 1 => cluster()], 1..40),
    )
        .prop_map(|(net, dirs, files, links, socks, ops)| Fsc { net, dirs, files, links, socks, ops: ops.into_iter().flatten().collect() })
}

type Tree = BTreeMap<String, String>;
fn tree(root: &Path) -> Tree {
    fn walk(root: &Path, d: &Path, out: &mut Tree) {
        let rd = match fs::read_dir(d) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                out.insert(rel, format!("link {}", fs::read_link(&p).unwrap().display()));
            } else if t.is_dir() {
                out.insert(rel, "dir".into());
                walk(root, &p, out);
            } else if !t.is_file() {
                out.insert(rel, "neither file nor directory nor link".into());
            } else {
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let b = fs::read(&p).unwrap_or_default();
                let mut h = DefaultHasher::new();
                b.hash(&mut h);
                out.insert(rel, format!("file {} bytes, hash {:x}", b.len(), h.finish()));
            }
        }
    }
    let mut t = Tree::new();
    walk(root, root, &mut t);
    t
}
fn diff(a: &Tree, b: &Tree) -> String {
    let mut s = vec![];
    for (k, v) in a {
        if b.get(k) != Some(v) {
            s.push(format!("{}: server {:?}, expected {:?}", k, v, b.get(k)));
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            s.push(format!("{}: server has nothing, expected {:?}", k, v));
        }
    }
    clip(&s.join("; "), 500)
}

struct Handle {
    id: u32,
    sig: u32,
    old: Vec<u32>,
    open: bool,
    read: bool,
    write: bool,
    /// where it is in the mirror
    path: PathBuf,
    file: fs::File,
}
struct World {
    srv: PathBuf,
    mir: PathBuf,
    hs: Vec<Handle>,
    classes: Vec<&'static str>,
}
/// What the mirror says an operation comes to
#[derive(Debug)]
enum Exp {
    Ok,
    /// an I/O error; the OS code when the OS refused it
    Err(Option<i32>),
    /// refused because the file is open
    Busy,
    Stale(u32),
    NoSuch,
}
fn exp<T>(r: std::io::Result<T>) -> Exp {
    match r {
        Ok(_) => Exp::Ok,
        Err(e) => Exp::Err(e.raw_os_error()),
    }
}
/// The directory part resolved, the last name as it is
fn place(p: &Path) -> PathBuf {
    match (p.parent(), p.file_name()) {
        (Some(d), Some(n)) => d.canonicalize().map(|d| d.join(n)).unwrap_or_else(|_| p.to_path_buf()),
        _ => p.to_path_buf(),
    }
}
impl World {
    fn s(&self, p: &P) -> String {
        format!("{}/{}", self.srv.display(), p.rel())
    }
    fn m(&self, p: &P) -> PathBuf {
        PathBuf::from(format!("{}/{}", self.mir.display(), p.rel()))
    }
    /// an open file at or below `p`
    fn open_below(&self, p: &Path) -> bool {
        self.hs.iter().any(|h| h.open && h.path.starts_with(p))
    }
    /// the handle an operation names: (id, sig, index)
    fn pick(&self, h: u8, sig: &Sig) -> (u32, u32, Option<usize>) {
        if self.hs.is_empty() {
            return (0x1234_0000 | h as u32, 7, None);
        }
        // (255: the newest)
        let i = if h == 255 { self.hs.len() - 1 } else { h as usize % self.hs.len() };
        let x = &self.hs[i];
        let s = match sig {
            Sig::Current => x.sig,
            Sig::Old(k) if !x.old.is_empty() => x.old[*k as usize % x.old.len()],
            Sig::Old(k) => x.sig.wrapping_add(1 + *k as u32),
            Sig::Other(k) => *k,
        };
        (x.id, s, Some(i))
    }
    /// what naming this handle comes to before the operation itself
    fn gate(&self, i: Option<usize>, sig: u32) -> Option<Exp> {
        match i {
            None => Some(Exp::NoSuch),
            Some(i) if !self.hs[i].open => Some(Exp::NoSuch),
            Some(i) if self.hs[i].sig != sig => Some(Exp::Stale(self.hs[i].sig)),
            _ => None,
        }
    }
}

fn check_err(what: &str, e: &Exp, r: &Reply, id: u32) -> R<()> {
    match (e, r) {
        (Exp::Err(code), Reply::Error(ReplyError::Io(a))) => {
            ensure!(code.is_none() || a.os_code == *code, "wrong-error", "{}: the system's error is {:?} but the reply says {:?}", what, code, a);
        }
        (Exp::Busy, Reply::Error(ReplyError::Io(a))) => {
            let k: ErrorKind = a.error_kind.clone().into();
            ensure!(k == ErrorKind::InvalidData || a.os_code.is_some() || k == ErrorKind::Other, "wrong-error", "{}: on an open file: {:?}", what, a);
        }
        (Exp::Stale(cur), Reply::Error(ReplyError::FileSigChanged(a))) => {
            ensure!(a.id == id && a.sig == *cur, "wrong-sig-reported", "{}: reports {:?}, the file has id {} sig {}", what, a, id, cur);
        }
        (Exp::NoSuch, Reply::Error(ReplyError::Io(_))) => {}
        _ => return bad("unexpected-result", format!("{}: expected {:?}, got {}", what, e, clip(&format!("{:?}", r), 300))),
    }
    Ok(())
}

fn ask(rt: &mut Runtime, c: &mut ConnectedClient, r: Request) -> R<Reply> {
    let what = clip(&format!("{:?}", r), 200);
    match rt.block_on(c.ask(r)) {
        Ok(x) => Ok(x),
        Err(AskError::Timeout) => lost("no-reply", format!("no reply to {}", what)),
        Err(e) => bad("ask-failed", format!("{}: {}", what, e)),
    }
}

fn step(w: &mut World, rt: &mut Runtime, c: &mut ConnectedClient, op: &Op, n: usize) -> R<()> {
    let what = format!("step {} {}", n, clip(&format!("{:?}", op), 220));
    let want_ok = |r: &Reply, ok: bool| -> R<()> {
        ensure!(ok, "unexpected-result", "{}: expected success, got {}", what, clip(&format!("{:?}", r), 300));
        Ok(())
    };
    match op {
        Op::Open { p, create, write, read } => {
            let (sp, mp) = (w.s(p), w.m(p));
            let canon = mp.canonicalize().ok();
            let at = w.hs.iter().position(|h| h.open && Some(&h.path) == canon.as_ref());
            let r = ask(rt, c, Request::OpenFile(request::OpenFileArgs { path: sp.clone(), create_if_missing: *create, write_access: *write, read_access: *read }))?;
            let enough = at.map(|i| (w.hs[i].read || !read) && (w.hs[i].write || !write)).unwrap_or(false);
            let (r2, w2) = (at.map(|i| w.hs[i].read).unwrap_or(false) || *read, at.map(|i| w.hs[i].write).unwrap_or(false) || *write);
            let m = if enough { w.hs[at.unwrap()].file.try_clone() } else { fs::OpenOptions::new().create(*create).read(r2).write(w2).open(&mp) };
            match m {
                Err(e) => return check_err(&what, &Exp::Err(e.raw_os_error()), &r, 0),
                Ok(f) => {
                    let a = match &r {
                        Reply::FileOpened(a) => a.clone(),
                        _ => return want_ok(&r, false),
                    };
                    ensure!(a.path == sp, "wrong-path", "{}: reply has path {:?}", what, a.path);
                    ensure!((a.read || !read) && (a.write || !write), "wrong-access", "{}: reply says read {} write {}", what, a.read, a.write);
                    match at {
                        Some(i) => {
                            w.classes.push("reopen");
                            let h = &mut w.hs[i];
                            ensure!(a.id == h.id && a.sig == h.sig, "reopen-differs", "{}: an open file was opened again: id {} sig {} became id {} sig {}", what, h.id, h.sig, a.id, a.sig);
                            h.read = r2;
                            h.write = w2;
                            h.file = f;
                        }
                        None => {
                            ensure!(!w.hs.iter().any(|h| h.open && h.id == a.id), "shared-id", "{}: id {} is that of another open file", what, a.id);
                            let path = mp.canonicalize().map_err(|e| Bad::Env(e.to_string()))?;
                            w.hs.push(Handle { id: a.id, sig: a.sig, old: vec![], open: true, read: *read, write: *write, path, file: f });
                        }
                    }
                }
            }
        }
        Op::Close { h, sig } => {
            let (id, sg, i) = w.pick(*h, sig);
            let r = ask(rt, c, Request::CloseFile(request::CloseFileArgs { id, sig: sg }))?;
            match w.gate(i, sg) {
                Some(Exp::Stale(_)) => check_err(&what, &Exp::Err(None), &r, id)?,
                Some(e) => check_err(&what, &e, &r, id)?,
                None => {
                    want_ok(&r, r == Reply::FileClosed(reply::FileClosedArgs { id }))?;
                    w.hs[i.unwrap()].open = false;
                    w.classes.push("close");
                }
            }
        }
        Op::Read { h, sig } => {
            let (id, sg, i) = w.pick(*h, sig);
            let r = ask(rt, c, Request::ReadFile(request::ReadFileArgs { id, sig: sg }))?;
            if let Some(e) = w.gate(i, sg) {
                return check_err(&what, &e, &r, id);
            }
            let x = &mut w.hs[i.unwrap()];
            let mut b = vec![];
            let m = x.file.seek(SeekFrom::Start(0)).and_then(|_| x.file.read_to_end(&mut b));
            match m {
                Err(e) => check_err(&what, &Exp::Err(e.raw_os_error()), &r, id)?,
                Ok(_) => match &r {
                    Reply::FileContents(a) => {
                        ensure!(a.id == id && a.contents == b, "wrong-contents", "{}: read {} bytes {}, expected {} bytes {}", what, a.contents.len(), clip(&format!("{:?}", a.contents), 60), b.len(), clip(&format!("{:?}", b), 60));
                        w.classes.push("read");
                    }
                    _ => want_ok(&r, false)?,
                },
            }
        }
        Op::Write { h, sig, data } => {
            let (id, sg, i) = w.pick(*h, sig);
            let d = data.get();
            let r = ask(rt, c, Request::WriteFile(request::WriteFileArgs { id, sig: sg, contents: d.clone() }))?;
            if let Some(e) = w.gate(i, sg) {
                w.classes.push("refused-write");
                return check_err(&what, &e, &r, id);
            }
            let x = &mut w.hs[i.unwrap()];
            let m = x.file.seek(SeekFrom::Start(0)).and_then(|_| x.file.set_len(0)).and_then(|_| x.file.write_all(&d));
            match m {
                Err(e) => check_err(&what, &Exp::Err(e.raw_os_error()), &r, id)?,
                Ok(_) => match &r {
                    Reply::FileWritten(a) => {
                        ensure!(a.id == id, "wrong-id", "{}: reply names {}", what, a.id);
                        ensure!(a.sig != x.sig, "sig-kept", "{}: the signature did not change", what);
                        x.old.push(x.sig);
                        x.sig = a.sig;
                        w.classes.push("write");
                    }
                    _ => want_ok(&r, false)?,
                },
            }
        }
        Op::RenameH { h, sig, to } => {
            let (id, sg, i) = w.pick(*h, sig);
            let (st, mt) = (w.s(to), w.m(to));
            let r = ask(rt, c, Request::RenameFile(request::RenameFileArgs { id, sig: sg, to: st }))?;
            if let Some(e) = w.gate(i, sg) {
                return check_err(&what, &e, &r, id);
            }
            let i = i.unwrap();
            let target = place(&mt);
            if w.hs.iter().enumerate().any(|(j, h)| j != i && h.open && h.path == target) {
                w.classes.push("onto-open");
                return check_err(&what, &Exp::Busy, &r, id);
            }
            // (a directory opened for reading cannot be renamed as a file)
            let m = fs::metadata(&w.hs[i].path).and_then(|m| if m.is_file() { fs::rename(&w.hs[i].path, &mt) } else { Err(ErrorKind::Other.into()) });
            match m {
                Err(e) => check_err(&what, &Exp::Err(e.raw_os_error()), &r, id)?,
                Ok(_) => match &r {
                    Reply::FileRenamed(a) => {
                        let x = &mut w.hs[i];
                        ensure!(a.id == id, "wrong-id", "{}: reply names {}", what, a.id);
                        ensure!(a.sig != x.sig, "sig-kept", "{}: the signature did not change", what);
                        x.old.push(x.sig);
                        x.sig = a.sig;
                        x.path = target;
                        w.classes.push("rename-open");
                    }
                    _ => want_ok(&r, false)?,
                },
            }
        }
        Op::RemoveH { h, sig } => {
            let (id, sg, i) = w.pick(*h, sig);
            let r = ask(rt, c, Request::RemoveFile(request::RemoveFileArgs { id, sig: sg }))?;
            if let Some(e) = w.gate(i, sg) {
                return check_err(&what, &e, &r, id);
            }
            let x = &mut w.hs[i.unwrap()];
            match fs::remove_file(&x.path) {
                Err(e) => check_err(&what, &Exp::Err(e.raw_os_error()), &r, id)?,
                Ok(_) => match &r {
                    Reply::FileRemoved(a) => {
                        ensure!(a.id == id, "wrong-id", "{}: reply names {}", what, a.id);
                        x.open = false;
                        w.classes.push("remove-open");
                    }
                    _ => want_ok(&r, false)?,
                },
            }
        }
        Op::RenameF { from, to } => {
            let (sf, st, mf, mt) = (w.s(from), w.s(to), w.m(from), w.m(to));
            let r = ask(rt, c, Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: sf.clone(), to: st.clone() }))?;
            let e = match fs::metadata(&mf) {
                _ if w.open_below(&place(&mf)) || w.open_below(&place(&mt)) => Exp::Busy,
                Err(e) => Exp::Err(e.raw_os_error()),
                Ok(m) if !m.is_file() => Exp::Err(None),
                Ok(_) => exp(fs::rename(&mf, &mt)),
            };
            match e {
                Exp::Ok => {
                    want_ok(&r, r == Reply::UnopenedFileRenamed(reply::UnopenedFileRenamedArgs { from: sf, to: st }))?;
                    w.classes.push("rename");
                }
                e => check_err(&what, &e, &r, 0)?,
            }
        }
        Op::RemoveF { p } => {
            let (sp, mp) = (w.s(p), w.m(p));
            let r = ask(rt, c, Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: sp.clone() }))?;
            let e = if w.open_below(&place(&mp)) { Exp::Busy } else { exp(fs::remove_file(&mp)) };
            match e {
                Exp::Ok => {
                    want_ok(&r, r == Reply::UnopenedFileRemoved(reply::UnopenedFileRemovedArgs { path: sp }))?;
                    w.classes.push("remove");
                }
                e => check_err(&what, &e, &r, 0)?,
            }
        }
        Op::MkDir { p, all } => {
            let (sp, mp) = (w.s(p), w.m(p));
            let r = ask(rt, c, Request::CreateDir(request::CreateDirArgs { path: sp.clone(), include_components: *all }))?;
            match exp(if *all { fs::create_dir_all(&mp) } else { fs::create_dir(&mp) }) {
                Exp::Ok => {
                    want_ok(&r, r == Reply::DirCreated(reply::DirCreatedArgs { path: sp }))?;
                    w.classes.push("mkdir");
                }
                e => check_err(&what, &e, &r, 0)?,
            }
        }
        Op::RenDir { from, to } => {
            let (sf, st, mf, mt) = (w.s(from), w.s(to), w.m(from), w.m(to));
            let r = ask(rt, c, Request::RenameDir(request::RenameDirArgs { from: sf.clone(), to: st.clone() }))?;
            let e = match fs::metadata(&mf) {
                _ if w.open_below(&place(&mf)) || w.open_below(&place(&mt)) => Exp::Busy,
                Err(e) => Exp::Err(e.raw_os_error()),
                Ok(m) if !m.is_dir() => Exp::Err(None),
                Ok(_) => exp(fs::rename(&mf, &mt)),
            };
            match e {
                Exp::Ok => {
                    want_ok(&r, r == Reply::DirRenamed(reply::DirRenamedArgs { from: sf, to: st }))?;
                    w.classes.push("rename-dir");
                }
                e => check_err(&what, &e, &r, 0)?,
            }
        }
        Op::RmDir { p, full } => {
            let (sp, mp) = (w.s(p), w.m(p));
            let r = ask(rt, c, Request::RemoveDir(request::RemoveDirArgs { path: sp.clone(), non_empty: *full }))?;
            let e = if w.open_below(&place(&mp)) {
                Exp::Busy
            } else {
                exp(if *full { fs::remove_dir_all(&mp) } else { fs::remove_dir(&mp) })
            };
            match e {
                Exp::Ok => {
                    want_ok(&r, r == Reply::DirRemoved(reply::DirRemovedArgs { path: sp }))?;
                    w.classes.push("rmdir");
                }
                e => check_err(&what, &e, &r, 0)?,
            }
        }
        Op::List { p } => {
            let (sp, mp) = (w.s(p), w.m(p));
            let r = ask(rt, c, Request::ListDirContents(request::ListDirContentsArgs { path: sp.clone() }))?;
            match fs::read_dir(&mp) {
                Err(e) => check_err(&what, &Exp::Err(e.raw_os_error()), &r, 0)?,
                Ok(rd) => {
                    let a = match &r {
                        Reply::DirContentsList(a) => a,
                        _ => return want_ok(&r, false),
                    };
                    ensure!(a.path == sp, "wrong-path", "{}: reply has path {:?}", what, a.path);
                    let mut want: Vec<(String, bool, bool, bool)> = rd
                        .flatten()
                        .map(|e| {
                            let t = e.file_type().unwrap();
                            (e.file_name().to_string_lossy().to_string(), t.is_file(), t.is_dir(), t.is_symlink())
                        })
                        .collect();
                    want.sort();
                    let mut got: Vec<(String, bool, bool, bool)> =
                        a.entries.iter().map(|e| (Path::new(&e.path).file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default(), e.is_file, e.is_dir, e.is_symlink)).collect();
                    got.sort();
                    ensure!(got == want, "wrong-listing", "{}: listed {:?}, expected {:?}", what, got, want);
                    for e in &a.entries {
                        let n = Path::new(&e.path).file_name().unwrap();
                        let (x, y) = (fs::symlink_metadata(&e.path), fs::symlink_metadata(Path::new(&sp).join(n)));
                        match (x, y) {
                            (Ok(x), Ok(y)) if x.ino() == y.ino() && x.dev() == y.dev() => {}
                            _ => return bad("wrong-entry-path", format!("{}: entry path {:?} is not that of {:?} in {:?}", what, e.path, n, sp)),
                        }
                    }
                    if !want.is_empty() {
                        w.classes.push("list");
                    }
                }
            }
        }
        Op::Outside { p, data } => {
            let d = data.get();
            if let (Ok(m), true) = (fs::metadata(w.m(p)), fs::metadata(w.s(p)).is_ok()) {
                if m.is_file() {
                    let _ = fs::write(w.m(p), &d);
                    let _ = fs::write(w.s(p), &d);
                    w.classes.push("outside");
                }
            }
        }
    }
    Ok(())
}

fn safe(mut op: Op) -> Op {
    // never the root itself
    let fix = |p: &mut P| {
        if p.c.is_empty() {
            p.c.push(0)
        }
    };
    match &mut op {
        Op::RenameF { from, to } | Op::RenDir { from, to } => {
            fix(from);
            fix(to)
        }
        Op::RmDir { p, .. } | Op::RemoveF { p } => fix(p),
        _ => {}
    }
    op
}
fn setup(c: &Fsc, scratch: &Scratch) -> R<World> {
    let base = scratch.path();
    // (links and ".." may lead above the root: both have room of their own there)
    let (srv, mir) = (base.join("s/1/2/3/4"), base.join("m/1/2/3/4"));
    for r in [&srv, &mir] {
        fs::create_dir_all(r).map_err(|e| Bad::Env(e.to_string()))?;
    }
    let w = World { srv: srv.clone(), mir: mir.clone(), hs: vec![], classes: vec![] };
    for root in [&srv, &mir] {
        let at = |p: &P| root.join(P { c: p.c.clone(), spell: 0 }.rel());
        for d in &c.dirs {
            let _ = fs::create_dir_all(at(d));
        }
        for (f, d) in &c.files {
            if let Some(x) = at(f).parent() {
                let _ = fs::create_dir_all(x);
            }
            let _ = fs::write(at(f), d.get());
        }
        for (l, t) in &c.links {
            if let Some(x) = at(l).parent() {
                let _ = fs::create_dir_all(x);
            }
            let _ = std::os::unix::fs::symlink(t, at(l));
        }
        for p in &c.socks {
            use std::os::unix::ffi::OsStrExt;
            let x = std::ffi::CString::new(at(p).as_os_str().as_bytes()).unwrap();
            unsafe {
                libc::mknod(x.as_ptr(), libc::S_IFSOCK | 0o644, 0);
            }
        }
    }
    fn own(p: &Path) {
        give(p);
        if let Ok(rd) = fs::read_dir(p) {
            for e in rd.flatten() {
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    own(&e.path());
                } else {
                    give(&e.path());
                }
            }
        }
    }
    own(&base.join("s"));
    Ok(w)
}
fn machine(c: &Fsc) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let mut w = setup(c, &scratch)?;
        let srv = Srv::start(c.net, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        for (n, op) in c.ops.iter().enumerate() {
            let op = safe(op.clone());
            step(&mut w, &mut rt, &mut cl, &op, n)?;
            let (a, b) = (tree(&scratch.path().join("s")), tree(&scratch.path().join("m")));
            ensure!(a == b, "tree", "after step {} {}: {}", n, clip(&format!("{:?}", op), 220), diff(&a, &b));
        }
        // what every open handle reads in the end
        for i in 0..w.hs.len() {
            if w.hs[i].open {
                let op = Op::Read { h: i as u8, sig: Sig::Current };
                step(&mut w, &mut rt, &mut cl, &op, 1000 + i)?;
            }
        }
        let cl: std::collections::BTreeSet<_> = w.classes.iter().cloned().collect();
        let mut i = Info::new().nt(cl.len() >= 2).class_if(!c.socks.is_empty(), "sockets");
        for x in cl {
            i = i.class(x);
        }
        Ok(i)
    })()
    .into()
}
pub fn c12() -> Check {
    Check {
        rule: "an initial tree (directories, files, symlinks), then up to 40 operations through a client over loopback TCP, half of them on open handles (current, superseded and made-up signatures); non-trivial: at least two kinds of operation took effect. Oracle: the same operations with plain system calls on a mirror tree, compared after every step, plus a model of handles (id, signature, access, path). crowd: up to 250 files open at once, one of up to 2.5 MB, up to 3000 entries in a directory; non-trivial: more than ten of either.",
        assumptions: vec!["one client; nothing else changes the tree except as generated", "the server runs unprivileged in a scratch directory"],
        legs: vec![leg("files", o(4000, 60_000).hang(200), || fsc(true), machine), leg("crowd", o(45, 1_500).threads(4).hang(200), || crowd_strategy(true), crowd)],
    }
}
pub fn c14() -> Check {
    Check {
        rule: "as C12 with operations on paths and directories prevailing; non-trivial: at least two kinds of operation took effect. Oracle: the same operations with plain system calls on a mirror tree, compared after every step; listings compared entry by entry. crowd: as for C12.",
        assumptions: vec!["one client; nothing else changes the tree except as generated", "the server runs unprivileged in a scratch directory"],
        legs: vec![leg("dirs", o(4000, 60_000).hang(200), || fsc(false), machine), leg("crowd", o(60, 2_000).threads(4).hang(200), || crowd_strategy(false), crowd)],
    }
}

// ------------------------------------------------------------------ C12, C14: many at once, and large
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    /// files open at once, in so many directories
    files: u16,
    dirs: u8,
    /// entries of one directory more
    extra: u16,
    /// one file is this large
    big: u32,
    seed: u64,
    /// one in so many is closed again
    close: u8,
}
fn crowd_strategy(handles: bool) -> impl Strategy<Value = Crowd> {
    let few = prop_oneof![2 => 0u16..20, 1 => 20u16..250];
    let many = prop_oneof![1 => 0u16..100, 2 => 100u16..700, 1 => 700u16..3000];
    (if handles { prop_oneof![1 => 1u16..40, 2 => 40u16..250].boxed() } else { few.boxed() }, 1u8..9, if handles { (0u16..20).boxed() } else { many.boxed() }, prop_oneof![1 => Just(0u32), 2 => 70_000u32..600_000, 1 => 600_000u32..2_500_000], any::<u64>(), 1u8..6)
        .prop_map(move |(files, dirs, extra, big, seed, close)| Crowd { files, dirs, extra, big: if handles { big } else { big.min(70_000) }, seed, close })
}
fn crowd(c: &Crowd) -> Verdict {
    use rand::{Rng, SeedableRng};
    (|| -> R<Info> {
        let mut r = rand::rngs::StdRng::seed_from_u64(c.seed);
        let io = |e: std::io::Error| Bad::Env(e.to_string());
        let scratch = Scratch::new()?;
        let root = scratch.path();
        let show = |x: &Reply| clip(&format!("{:?}", x), 300);
        let k = c.dirs as usize;
        for i in 0..k {
            fs::create_dir(root.join(format!("d{}", i))).map_err(io)?;
            give(&root.join(format!("d{}", i)));
        }
        // a directory of many things
        let x = root.join("x");
        fs::create_dir(&x).map_err(io)?;
        give(&x);
        let mut want = BTreeMap::new();
        for i in 0..c.extra {
            let name = format!("{}{}", ["", ".", "n\u{e9}", "a b"][r.gen_range(0, 4)], i).repeat(if r.gen_range(0, 9) == 0 { 15 } else { 1 });
            let p = x.join(&name);
            let kind = r.gen_range(0, 3u8);
            match kind {
                0 => fs::write(&p, b"").map_err(io)?,
                1 => fs::create_dir(&p).map_err(io)?,
                _ => std::os::unix::fs::symlink("nowhere", &p).map_err(io)?,
            }
            give(&p);
            want.insert(p, kind);
        }
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let list = |rt: &mut Runtime, cl: &mut ConnectedClient| -> R<()> {
            match ask(rt, cl, Request::ListDirContents(request::ListDirContentsArgs { path: x.display().to_string() }))? {
                Reply::DirContentsList(a) => {
                    let got: BTreeMap<PathBuf, u8> = a.entries.iter().map(|e| (PathBuf::from(&e.path), if e.is_file { 0 } else if e.is_dir { 1 } else if e.is_symlink { 2 } else { 3 })).collect();
                    ensure!(a.entries.len() == want.len() && got == want, "wrong-listing", "{} entries listed of {}; differing: {:?}", a.entries.len(), want.len(), want.iter().find(|(p, t)| got.get(*p) != Some(t)));
                    Ok(())
                }
                y => bad("wrong-listing", format!("{} entries: {}", want.len(), show(&y))),
            }
        };
        list(&mut rt, &mut cl)?;
        // many open at once
        let path = |i: usize| root.join(format!("d{}/f{}", i % k, i));
        let text = |i: usize, n: usize| if i == 0 && c.big > 0 { bytes(c.seed ^ n as u64, c.big as usize) } else { format!("file {} write {} {}", i, n, "x".repeat(i * 7 % 300)).into_bytes() };
        let mut hs: Vec<(u32, u32, bool)> = vec![];
        for i in 0..c.files as usize {
            match ask(&mut rt, &mut cl, Request::OpenFile(request::OpenFileArgs { path: path(i).display().to_string(), create_if_missing: true, write_access: true, read_access: true }))? {
                Reply::FileOpened(a) => {
                    ensure!(hs.iter().all(|h| h.0 != a.id), "same-id", "file {} got the id of another: {}", i, a.id);
                    hs.push((a.id, a.sig, true))
                }
                y => return bad("not-opened", format!("file {}: {}", i, show(&y))),
            }
        }
        let write = |rt: &mut Runtime, cl: &mut ConnectedClient, h: &mut (u32, u32, bool), i: usize, n: usize| -> R<()> {
            match ask(rt, cl, Request::WriteFile(request::WriteFileArgs { id: h.0, sig: h.1, contents: text(i, n) }))? {
                Reply::FileWritten(a) => {
                    ensure!(a.id == h.0, "wrong-result", "{:?}", a);
                    h.1 = a.sig;
                    Ok(())
                }
                y => bad("not-written", format!("file {} of {}: {}", i, c.files, show(&y))),
            }
        };
        for i in 0..hs.len() {
            write(&mut rt, &mut cl, &mut hs[i], i, 0)?;
        }
        let mut closed = 0;
        for i in 0..hs.len() {
            if r.gen_range(0, c.close) == 0 {
                match ask(&mut rt, &mut cl, Request::CloseFile(request::CloseFileArgs { id: hs[i].0, sig: hs[i].1 }))? {
                    Reply::FileClosed(a) => ensure!(a.id == hs[i].0, "wrong-result", "{:?}", a),
                    y => return bad("not-closed", format!("file {}: {}", i, show(&y))),
                }
                hs[i].2 = false;
                closed += 1;
            }
        }
        // some are written again
        let mut n = vec![0; hs.len()];
        for i in 0..hs.len() {
            if hs[i].2 && r.gen_range(0, 3) == 0 {
                write(&mut rt, &mut cl, &mut hs[i], i, 1)?;
                n[i] = 1;
            }
        }
        for i in 0..hs.len() {
            let y = ask(&mut rt, &mut cl, Request::ReadFile(request::ReadFileArgs { id: hs[i].0, sig: hs[i].1 }))?;
            match &y {
                Reply::FileContents(a) if hs[i].2 => ensure!(a.id == hs[i].0 && a.contents == text(i, n[i]), "wrong-contents", "file {} of {}: {} bytes instead of {}", i, c.files, a.contents.len(), text(i, n[i]).len()),
                Reply::Error(_) if !hs[i].2 => {}
                _ => return bad("unexpected-result", format!("reading file {} (open: {}): {}", i, hs[i].2, show(&y))),
            }
            ensure!(fs::read(path(i)).ok() == Some(text(i, n[i])), "wrong-file", "file {} of {}", i, c.files);
        }
        // a directory can be moved and removed once none of its files is open
        let mut free = 0;
        for d in 0..k {
            let (from, to) = (root.join(format!("d{}", d)), root.join(format!("e{}", d)));
            let busy = hs.iter().enumerate().any(|(i, h)| h.2 && i % k == d);
            let y = ask(&mut rt, &mut cl, Request::RenameDir(request::RenameDirArgs { from: from.display().to_string(), to: to.display().to_string() }))?;
            ensure!(matches!((&y, busy), (Reply::DirRenamed(_), false) | (Reply::Error(ReplyError::Io(_)), true)), "unexpected-result", "moving a directory with open files: {}: {}", busy, show(&y));
            ensure!(from.exists() == busy && to.exists() != busy, "wrong-tree", "after {}", show(&y));
            let at = if busy { &from } else { &to };
            let y = ask(&mut rt, &mut cl, Request::RemoveDir(request::RemoveDirArgs { path: at.display().to_string(), non_empty: true }))?;
            ensure!(matches!((&y, busy), (Reply::DirRemoved(_), false) | (Reply::Error(ReplyError::Io(_)), true)), "unexpected-result", "removing a directory with open files: {}: {}", busy, show(&y));
            ensure!(at.exists() == busy, "wrong-tree", "after {}", show(&y));
            if busy {
                for i in (0..hs.len()).filter(|i| i % k == d) {
                    ensure!(fs::read(path(i)).ok() == Some(text(i, n[i])), "wrong-file", "file {} of {} after a refused removal", i, c.files);
                }
            }
            free += !busy as usize;
        }
        list(&mut rt, &mut cl)?;
        let y = ask(&mut rt, &mut cl, Request::RemoveDir(request::RemoveDirArgs { path: x.display().to_string(), non_empty: false }))?;
        ensure!(matches!(y, Reply::DirRemoved(_)) == (c.extra == 0), "unexpected-result", "removing a directory of {} as empty: {}", c.extra, show(&y));
        if c.extra > 0 {
            list(&mut rt, &mut cl)?;
            let y = ask(&mut rt, &mut cl, Request::RemoveDir(request::RemoveDirArgs { path: x.display().to_string(), non_empty: true }))?;
            ensure!(matches!(y, Reply::DirRemoved(_)), "unexpected-result", "removing a directory of {}: {}", c.extra, show(&y));
        }
        ensure!(!x.exists(), "wrong-tree", "still there");
        Ok(Info::new().nt(hs.len() > 10 || c.extra > 10).class_if(hs.len() > 64, "over-64-open").class_if(c.extra > 256, "over-256-entries").class_if(c.big > 65_536 && c.files > 0, "over-64K").class_if(closed > 0 && free > 0, "freed"))
    })()
    .into()
}

// ------------------------------------------------------------------ C13: writers racing
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Read,
    Write(Payload),
    Rename,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Turn {
    /// sent together in one batch when more than one
    acts: Vec<Act>,
    /// use the newest signature this client has learned, or one it knew before
    stale: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    net: Net,
    first: Payload,
    clients: Vec<Vec<Turn>>,
    remove: bool,
}
fn race_strategy() -> impl Strategy<Value = Race> {
    let act = prop_oneof![
        2 => Just(Act::Read),
        5 => data().prop_map(Act::Write),
        1 => Just(Act::Rename),
    ];
    let turn = (prop_oneof![2 => prop::collection::vec(act.clone(), 1..2), 3 => prop::collection::vec(act, 2..7)], prop_oneof![4 => Just(0u8), 1 => 1..4u8]).prop_map(|(acts, stale)| Turn { acts, stale });
    (Just(Net::Tcp), data(), prop::collection::vec(prop::collection::vec(turn, 1..6), 1..4), prop::bool::weighted(0.3)).prop_map(|(net, first, clients, remove)| Race {
        net,
        first,
        clients,
        remove,
    })
}
#[derive(Debug)]
struct Ev {
    who: usize,
    act: String,
    used: u32,
    start: u64,
    end: u64,
    wrote: Option<Vec<u8>>,
    to: Option<PathBuf>,
    out: Reply,
}
fn race(c: &Race) -> Verdict {
    use std::cell::{Cell, RefCell};
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let file = dir.join("f");
        fs::write(&file, c.first.get()).map_err(|e| Bad::Env(e.to_string()))?;
        give(&file);
        let srv = Srv::start(c.net, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cls = vec![];
        for _ in &c.clients {
            cls.push(srv.client(&mut rt)?);
        }
        let open = |p: &Path| Request::OpenFile(request::OpenFileArgs { path: p.display().to_string(), create_if_missing: false, write_access: true, read_access: true });
        let (id, s0) = match ask(&mut rt, &mut cls[0], open(&file))? {
            Reply::FileOpened(a) => (a.id, a.sig),
            r => return bad("unexpected-result", format!("open: {:?}", r)),
        };
        let clock = Cell::new(0u64);
        let tick = || {
            clock.set(clock.get() + 1);
            clock.get()
        };
        let evs: RefCell<Vec<Ev>> = RefCell::new(vec![]);
        let script = |who: usize, mut cl: ConnectedClient| {
            let (evs, tick, dir, turns) = (&evs, &tick, &dir, &c.clients[who]);
            async move {
                let mut known = vec![s0];
                for (tn, t) in turns.iter().enumerate() {
                    let used = known[known.len() - 1 - (t.stale as usize).min(known.len() - 1)];
                    let mut reqs = vec![];
                    let mut meta = vec![];
                    for (k, a) in t.acts.iter().enumerate() {
                        let (r, wrote, to) = match a {
                            Act::Read => (Request::ReadFile(request::ReadFileArgs { id, sig: used }), None, None),
                            Act::Write(p) => {
                                // told apart by who wrote them
                                let mut d = format!("{}/{}/{}:", who, tn, k).into_bytes();
                                d.extend(p.get());
                                (Request::WriteFile(request::WriteFileArgs { id, sig: used, contents: d.clone() }), Some(d), None)
                            }
                            Act::Rename => {
                                let to = dir.join(format!("r{}-{}-{}", who, tn, k));
                                (Request::RenameFile(request::RenameFileArgs { id, sig: used, to: to.display().to_string() }), None, Some(to))
                            }
                        };
                        reqs.push(r);
                        meta.push((clip(&format!("{:?}", a), 60), wrote, to));
                    }
                    let start = tick();
                    let single = reqs.len() == 1;
                    let r = if single { cl.ask(reqs.pop().unwrap()).await } else { cl.ask(Request::Batch(request::BatchArgs { operations: reqs })).await };
                    let end = tick();
                    let outs = match r {
                        Ok(Reply::Batch(b)) if !single => b.results,
                        Ok(r) if single => vec![r],
                        Ok(r) => return bad("unexpected-result", format!("client {} turn {}: {:?}", who, tn, r)),
                        Err(AskError::Timeout) => return lost("no-reply", format!("client {} turn {}: no reply", who, tn)),
                        Err(e) => return bad("ask-failed", format!("client {} turn {}: {}", who, tn, e)),
                    };
                    ensure!(outs.len() == meta.len(), "batch-size", "client {} turn {}: {} results for {} operations", who, tn, outs.len(), meta.len());
                    let mut news = vec![];
                    for (out, (act, wrote, to)) in outs.into_iter().zip(meta) {
                        match &out {
                            Reply::FileWritten(a) => news.push((0, a.sig)),
                            Reply::FileRenamed(a) => news.push((0, a.sig)),
                            Reply::Error(ReplyError::FileSigChanged(a)) => news.push((1, a.sig)),
                            _ => {}
                        }
                        evs.borrow_mut().push(Ev { who, act, used, start, end, wrote, to, out });
                    }
                    news.sort();
                    if let Some((_, s)) = news.first() {
                        known.push(*s);
                    }
                }
                Ok(cl)
            }
        };
        let done = rt.block_on(futures::future::join_all(cls.into_iter().enumerate().map(|(i, cl)| script(i, cl))));
        let mut cls = done.into_iter().collect::<R<Vec<_>>>()?;
        let evs = evs.into_inner();
        // the chain of successful changes
        let mut next: BTreeMap<u32, &Ev> = BTreeMap::new();
        for e in &evs {
            let ok = match (&e.out, &e.wrote, &e.to) {
                (Reply::FileWritten(a), Some(_), _) => a.id == id,
                (Reply::FileRenamed(a), _, Some(_)) => a.id == id,
                (Reply::FileContents(a), None, None) => a.id == id,
                (Reply::Error(ReplyError::FileSigChanged(a)), _, _) => a.id == id,
                _ => false,
            };
            ensure!(ok, "unexpected-result", "client {} {}: {}", e.who, e.act, clip(&format!("{:?}", e.out), 200));
            if matches!(e.out, Reply::FileWritten(_) | Reply::FileRenamed(_)) {
                if let Some(o) = next.insert(e.used, e) {
                    return bad("two-winners", format!("two changes succeeded with signature {}: client {} {} and client {} {}", e.used, o.who, o.act, e.who, e.act));
                }
            }
        }
        let mut order: Vec<u32> = vec![s0];
        let mut content: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        let mut at = file.clone();
        content.insert(s0, c.first.get());
        let mut cur = c.first.get();
        while let Some(e) = next.get(order.last().unwrap()) {
            let s = match &e.out {
                Reply::FileWritten(a) => a.sig,
                Reply::FileRenamed(a) => a.sig,
                _ => unreachable!(),
            };
            ensure!(!order.contains(&s), "sig-kept", "client {} {}: new signature {} was in use before", e.who, e.act, s);
            if let Some(d) = &e.wrote {
                cur = d.clone();
            }
            if let Some(t) = &e.to {
                at = t.clone();
            }
            order.push(s);
            content.insert(s, cur.clone());
        }
        ensure!(order.len() == next.len() + 1, "stale-accepted", "{} changes succeeded but only {} follow from the first signature", next.len(), order.len() - 1);
        let pos = |s: u32| order.iter().position(|x| *x == s);
        let mut refused = 0;
        for e in &evs {
            match &e.out {
                Reply::FileContents(a) => {
                    let want = content.get(&e.used);
                    ensure!(Some(&a.contents) == want, "wrong-contents", "client {} read with signature {}: {} bytes {}, expected {:?}", e.who, e.used, a.contents.len(), clip(&String::from_utf8_lossy(&a.contents), 60), want.map(|w| clip(&String::from_utf8_lossy(w), 60)));
                    if let Some(ch) = next.get(&e.used) {
                        ensure!(ch.end >= e.start, "stale-read", "client {} read with signature {} which a completed change had replaced", e.who, e.used);
                    }
                }
                Reply::Error(ReplyError::FileSigChanged(a)) => {
                    refused += 1;
                    let (u, n) = (pos(e.used), pos(a.sig));
                    ensure!(u.is_some() && n.is_some() && n > u, "wrong-sig-reported", "client {} {} with signature number {:?} was told signature {} (number {:?})", e.who, e.act, u, a.sig, n);
                }
                _ => {}
            }
        }
        let got = fs::read(&at);
        ensure!(got.as_ref().ok() == Some(&cur), "wrong-file", "in the end the file holds {:?}, the last change wrote {}", got.map(|g| clip(&String::from_utf8_lossy(&g), 60)), clip(&String::from_utf8_lossy(&cur), 60));
        let names: Vec<_> = fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
        ensure!(names.len() == 1, "stray-files", "{:?}", names);
        // anyone may go on from the last signature
        let last = *order.last().unwrap();
        let n = cls.len() - 1;
        let r = if c.remove {
            ask(&mut rt, &mut cls[n], Request::RemoveFile(request::RemoveFileArgs { id, sig: last }))?
        } else {
            ask(&mut rt, &mut cls[n], Request::WriteFile(request::WriteFileArgs { id, sig: last, contents: vec![1, 2, 3] }))?
        };
        match (&r, c.remove) {
            (Reply::FileRemoved(_), true) => ensure!(!at.exists(), "not-removed", "{:?} is still there", at),
            (Reply::FileWritten(_), false) => ensure!(fs::read(&at).ok() == Some(vec![1, 2, 3]), "wrong-file", "final write is not in the file"),
            _ => return bad("current-refused", format!("with the last signature: {:?}", r)),
        }
        Ok(Info::new().nt(next.len() >= 1 && refused >= 1).class_if(c.clients.len() > 1, "several-clients").class_if(refused > 3, "many-refused").class_if(next.len() > 3, "long-chain"))
    })()
    .into()
}
/// One file changed many times over
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    n: u16,
    seed: u64,
    /// one change in so many is a rename
    renames: u8,
    /// the file is opened again (by the same client) after so many changes
    reopen: u16,
}
fn long(c: &Long) -> Verdict {
    use rand::{Rng, SeedableRng};
    (|| -> R<Info> {
        let mut r = rand::rngs::StdRng::seed_from_u64(c.seed);
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let mut at = dir.join("f0");
        fs::write(&at, b"start").map_err(|e| Bad::Env(e.to_string()))?;
        give(&at);
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let open = |p: &Path| Request::OpenFile(request::OpenFileArgs { path: p.display().to_string(), create_if_missing: false, write_access: true, read_access: true });
        let (id, mut cur) = match ask(&mut rt, &mut cl, open(&at))? {
            Reply::FileOpened(a) => (a.id, a.sig),
            r => return bad("unexpected-result", format!("open: {:?}", r)),
        };
        let mut old: Vec<u32> = vec![];
        let (mut repeats, mut accepted) = (vec![], vec![]);
        for i in 0..c.n {
            // a change with the current signature
            let was = cur;
            if c.renames > 0 && i % c.renames as u16 == 0 {
                let to = dir.join(format!("f{}", i + 1));
                match ask(&mut rt, &mut cl, Request::RenameFile(request::RenameFileArgs { id, sig: cur, to: to.display().to_string() }))? {
                    Reply::FileRenamed(a) => cur = a.sig,
                    x => return bad("current-refused", format!("change {}: rename with the current signature: {:?}", i, x)),
                }
                at = to;
            } else {
                let d = format!("change {}", i).into_bytes();
                match ask(&mut rt, &mut cl, Request::WriteFile(request::WriteFileArgs { id, sig: cur, contents: d }))? {
                    Reply::FileWritten(a) => cur = a.sig,
                    x => return bad("current-refused", format!("change {}: write with the current signature: {:?}", i, x)),
                }
            }
            old.push(was);
            if old.contains(&cur) {
                repeats.push(i);
            }
            if c.reopen > 0 && i % c.reopen == c.reopen - 1 {
                match ask(&mut rt, &mut cl, open(&at))? {
                    Reply::FileOpened(a) => {
                        ensure!(a.id == id, "reopened-id", "change {}: opened again, the file got id {} instead of {}", i, a.id, id);
                        ensure!(a.sig == cur, "reopened-sig", "change {}: opened again, the file got signature {} instead of {}", i, a.sig, cur);
                    }
                    x => return bad("unexpected-result", format!("change {}: open again: {:?}", i, x)),
                }
            }
            // and one with a signature that was replaced: the likeliest to be taken for the current one
            let k = old.iter().position(|x| *x == cur).unwrap_or_else(|| r.gen_range(0, old.len()));
            let before = fs::read(&at).map_err(|e| Bad::Env(e.to_string()))?;
            match ask(&mut rt, &mut cl, Request::WriteFile(request::WriteFileArgs { id, sig: old[k], contents: b"stale".to_vec() }))? {
                Reply::Error(ReplyError::FileSigChanged(a)) => {
                    ensure!(a.sig == cur && a.id == id, "wrong-sig-reported", "change {}: told {:?}, current is {}", i, a, cur);
                    ensure!(fs::read(&at).ok() == Some(before), "stale-effect", "change {}: a refused write altered the file", i);
                }
                Reply::FileWritten(a) => {
                    accepted.push((i, k));
                    old.push(cur);
                    cur = a.sig;
                }
                x => return bad("unexpected-result", format!("change {}: stale write: {:?}", i, x)),
            }
        }
        // once in ten thousand cases two of these random 32 bit values are the same
        ensure!(accepted.len() < 3, "stale-accepted", "{} of {} writes with replaced signatures were carried out; at change {} the one replaced by change {}", accepted.len(), c.n, accepted[0].0, accepted[0].1);
        ensure!(repeats.len() < 3, "sig-kept", "{} of {} new signatures had been used before: at changes {:?}", repeats.len(), c.n, &repeats[..3]);
        Ok(Info::new().nt(true).class_if(c.n > 256, "over-256-changes").class_if(c.renames > 0, "renames").class_if(c.reopen > 0, "reopened"))
    })()
    .into()
}
pub fn c13() -> Check {
    Check {
        rule: "1 to 3 clients on one open file at once, each sending reads, writes and renames with the newest or an older signature it knows, singly and in concurrent batches; non-trivial: a change succeeded and another was refused. Oracle: over the whole history, successful changes form one chain from the first signature, each signature changed at most once; a read shows the contents of its signature; a refusal names a later signature; the file ends as the last change in the chain.",
        assumptions: vec!["replies are seen by the client in the order it asked"],
        legs: vec![leg("race", o(1500, 40_000).hang(200), race_strategy, race),
            leg("long", o(40, 1_000).hang(200), || {
                (60u16..600, any::<u64>(), prop_oneof![1 => Just(0u8), 2 => 2u8..9], prop_oneof![1 => Just(0u16), 1 => 1u16..50]).prop_map(|(n, seed, renames, reopen)| Long { n, seed, renames, reopen })
            }, long),
        ],
    }
}
