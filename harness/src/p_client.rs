//! The client's typed requests against a scripted server.
use crate::e2e::*;
use crate::fw::*;
use crate::gen::Gen;
use over_there::core::{reply, request as q, AskError, ConnectedClient, Content, ExecAskError, FileAskError, Header, RemoteFile, RemoteProc, RemoteProcStatus, Reply, ReplyError, Request, SendError};
use proptest::prelude::*;
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::io;
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn show<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 400)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    /// which helper
    helper: u8,
    /// its arguments, and the content of the answer
    seed: u64,
    /// kind of answer: 0..6 the one wanted, 7.. an error, 12.. any
    answer: u8,
    file: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Asks {
    asks: Vec<Ask>,
    files: Vec<(u32, u32)>,
}
const HELPERS: u8 = 26;

/// What a helper reported, in one shape for all of them
#[derive(Debug)]
enum Out {
    Ok(Reply),
    Ask(AskError),
    Io(io::Error),
    Sig(u32),
    Told,
    Send(SendError),
    Other(String),
}
impl From<FileAskError> for Out {
    fn from(e: FileAskError) -> Out {
        match e {
            FileAskError::GeneralAskFailed(e) => Out::Ask(e),
            FileAskError::IoError(e) => Out::Io(e),
            FileAskError::FileSignatureChanged { id } => Out::Sig(id),
        }
    }
}
impl From<ExecAskError> for Out {
    fn from(e: ExecAskError) -> Out {
        match e {
            ExecAskError::GeneralAskFailed(e) => Out::Ask(e),
            ExecAskError::IoError(e) => Out::Io(e),
            e => Out::Other(format!("{:?}", e)),
        }
    }
}
fn out<T, E: Into<Out>>(r: Result<T, E>, f: impl FnOnce(T) -> Reply) -> Out {
    match r {
        Ok(x) => Out::Ok(f(x)),
        Err(e) => e.into(),
    }
}
impl From<AskError> for Out {
    fn from(e: AskError) -> Out {
        Out::Ask(e)
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Family {
    Plain,
    File,
    Proc,
    Raw,
    Tell,
}
/// The request a helper has to send, and the reply kind it wants (as of gen.rs)
struct Plan {
    req: Request,
    wants: u8,
    family: Family,
    /// its success changes the signature of this file
    file: Option<usize>,
}
fn plan(a: &Ask, files: &[(RemoteFile, u32, u32)]) -> Plan {
    let mut g = Gen::new(a.seed);
    let k = a.file as usize % files.len();
    let (id, sig) = (files[k].1, files[k].2);
    let p = |req, wants, family| Plan { req, wants, family, file: None };
    use Family::*;
    match a.helper % HELPERS {
        0 => p(Request::Heartbeat, 0, Plain),
        1 => p(Request::Version, 1, Plain),
        2 => p(Request::Capabilities, 2, Plain),
        3 => p(Request::CreateDir(q::CreateDirArgs { path: g.string(), include_components: g.bool() }), 3, File),
        4 => p(Request::RenameDir(q::RenameDirArgs { from: g.string(), to: g.string() }), 4, File),
        5 => p(Request::RemoveDir(q::RemoveDirArgs { path: g.string(), non_empty: g.bool() }), 5, File),
        6 => p(Request::ListDirContents(q::ListDirContentsArgs { path: g.string() }), 6, File),
        7 => p(Request::ListDirContents(q::ListDirContentsArgs { path: ".".into() }), 6, File),
        8 => p(Request::OpenFile(q::OpenFileArgs { path: g.string(), create_if_missing: true, write_access: true, read_access: true }), 7, File),
        9 => p(Request::OpenFile(q::OpenFileArgs { path: g.string(), create_if_missing: g.bool(), write_access: g.bool(), read_access: g.bool() }), 7, File),
        10 => p(Request::CloseFile(q::CloseFileArgs { id, sig }), 8, File),
        11 => p(Request::RenameUnopenedFile(q::RenameUnopenedFileArgs { from: g.string(), to: g.string() }), 9, File),
        12 => Plan { file: Some(k), ..p(Request::RenameFile(q::RenameFileArgs { id, sig, to: g.string() }), 10, File) },
        13 => p(Request::RemoveUnopenedFile(q::RemoveUnopenedFileArgs { path: g.string() }), 11, File),
        14 => Plan { file: Some(k), ..p(Request::RemoveFile(q::RemoveFileArgs { id, sig }), 12, File) },
        15 => p(Request::ReadFile(q::ReadFileArgs { id, sig }), 13, File),
        16 => Plan { file: Some(k), ..p(Request::WriteFile(q::WriteFileArgs { id, sig, contents: g.bytes() }), 15, File) },
        17 => p(Request::ExecProc(q::ExecProcArgs { command: g.string(), args: vec![g.string(), g.string()], stdin: true, stdout: true, stderr: true, current_dir: if g.bool() { Some(g.string()) } else { None } }), 16, Proc),
        18 => p(
            Request::ExecProc(q::ExecProcArgs { command: g.string(), args: vec![g.string()], stdin: g.bool(), stdout: g.bool(), stderr: g.bool(), current_dir: if g.bool() { Some(g.string()) } else { None } }),
            16,
            Proc,
        ),
        19 => p(Request::WriteProcStdin(q::WriteProcStdinArgs { id: g.u32(), input: g.bytes() }), 17, Proc),
        20 => p(Request::ReadProcStdout(q::ReadProcStdoutArgs { id: g.u32() }), 18, Proc),
        21 => p(Request::ReadProcStderr(q::ReadProcStderrArgs { id: g.u32() }), 19, Proc),
        22 => p(Request::ReadProcStatus(q::ReadProcStatusArgs { id: g.u32() }), 21, Proc),
        23 => p(Request::KillProc(q::KillProcArgs { id: g.u32() }), 20, Proc),
        24 => p(Request::InternalDebug(q::InternalDebugArgs { input: vec![] }), 22, Plain),
        _ => {
            let r = g.request(2);
            if g.bool() {
                p(r, 255, Raw)
            } else {
                p(r, 255, Tell)
            }
        }
    }
}
/// Calls the helper whose request is `p`
async fn call(c: &mut ConnectedClient, helper: u8, p: &Plan, f: &mut RemoteFile) -> Out {
    match (helper % HELPERS, p.req.clone()) {
        (0, _) => out(c.ask_heartbeat().await, |_| Reply::Heartbeat),
        (1, _) => out(c.ask_version().await, Reply::Version),
        (2, _) => out(c.ask_capabilities().await, Reply::Capabilities),
        (3, Request::CreateDir(a)) => out(c.ask_create_dir(a.path, a.include_components).await, Reply::DirCreated),
        (4, Request::RenameDir(a)) => out(c.ask_rename_dir(a.from, a.to).await, Reply::DirRenamed),
        (5, Request::RemoveDir(a)) => out(c.ask_remove_dir(a.path, a.non_empty).await, Reply::DirRemoved),
        (6, Request::ListDirContents(a)) => out(c.ask_list_dir_contents(a.path).await, Reply::DirContentsList),
        (7, _) => out(c.ask_list_root_dir_contents().await, Reply::DirContentsList),
        (8, Request::OpenFile(a)) => out(c.ask_open_file(a.path).await, Reply::FileOpened),
        (9, Request::OpenFile(a)) => out(c.ask_open_file_with_options(a.path, a.create_if_missing, a.write_access, a.read_access).await, Reply::FileOpened),
        (10, _) => out(c.ask_close_file(f).await, Reply::FileClosed),
        (11, Request::RenameUnopenedFile(a)) => out(c.ask_rename_unopened_file(a.from, a.to).await, Reply::UnopenedFileRenamed),
        (12, Request::RenameFile(a)) => out(c.ask_rename_file(f, a.to).await, Reply::FileRenamed),
        (13, Request::RemoveUnopenedFile(a)) => out(c.ask_remove_unopened_file(a.path).await, Reply::UnopenedFileRemoved),
        (14, _) => out(c.ask_remove_file(f).await, Reply::FileRemoved),
        (15, _) => out(c.ask_read_file(f).await, Reply::FileContents),
        (16, Request::WriteFile(a)) => out(c.ask_write_file(f, &a.contents).await, Reply::FileWritten),
        (17, Request::ExecProc(a)) => match a.current_dir {
            Some(d) => out(c.ask_exec_proc_with_current_dir(a.command, a.args, d).await, Reply::ProcStarted),
            None => out(c.ask_exec_proc(a.command, a.args).await, Reply::ProcStarted),
        },
        (18, Request::ExecProc(a)) => out(c.ask_exec_proc_with_options(a.command, a.args, a.stdin, a.stdout, a.stderr, a.current_dir).await, Reply::ProcStarted),
        (19, Request::WriteProcStdin(a)) => out(c.ask_write_proc_stdin(&RemoteProc::shallow(a.id), &a.input).await, Reply::ProcStdinWritten),
        (20, Request::ReadProcStdout(a)) => out(c.ask_read_proc_stdout(&RemoteProc::shallow(a.id)).await, Reply::ProcStdoutContents),
        (21, Request::ReadProcStderr(a)) => out(c.ask_read_proc_stderr(&RemoteProc::shallow(a.id)).await, Reply::ProcStderrContents),
        (22, Request::ReadProcStatus(a)) => out(c.ask_read_proc_status(&RemoteProc::shallow(a.id)).await, Reply::ProcStatus),
        (23, Request::KillProc(a)) => out(c.ask_proc_kill(&RemoteProc::shallow(a.id)).await, Reply::ProcKilled),
        (24, _) => out(c.ask_internal_debug().await, Reply::InternalDebug),
        (_, r) if p.family == Family::Tell => match c.tell(r).await {
            Ok(()) => Out::Told,
            Err(e) => Out::Send(e),
        },
        (_, r) => out(c.ask(r).await, |x| x),
    }
}
fn answer_for(a: &Ask, p: &Plan) -> Reply {
    let mut g = Gen::new(a.seed ^ 0x5151);
    match (a.answer % 16, p.wants) {
        (0..=6, 255) => g.reply(2),
        (0..=6, w) => g.reply_kind(w, 2),
        (7..=9, _) => Reply::Error(ReplyError::Io(g.io_error())),
        (10, _) => Reply::Error(ReplyError::Generic(reply::GenericErrorArgs { msg: g.string() })),
        (11, _) => Reply::Error(ReplyError::FileSigChanged(reply::FileSigChangedArgs { id: g.u32(), sig: g.u32() })),
        _ => g.reply(2),
    }
}
fn matches_kind(r: &Reply, w: u8) -> bool {
    match (w, r) {
        (255, Reply::Error(ReplyError::Generic(_))) => false,
        (255, _) => true,
        (w, r) => std::mem::discriminant(&Gen::new(0).reply_kind(w, 0)) == std::mem::discriminant(r),
    }
}
fn same_io(e: &io::Error, a: &reply::IoErrorArgs) -> bool {
    match a.os_code {
        Some(c) => e.raw_os_error() == Some(c),
        None => e.kind() == io::ErrorKind::from(a.error_kind.clone()) && e.to_string() == a.description,
    }
}
fn helpers(c: &Asks) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let keys = Keys::plain();
        let mut raw = Raw::wires(Net::Tcp, &keys);
        let lst = TcpListener::bind("127.0.0.1:0").map_err(|e| Bad::Env(e.to_string()))?;
        let addr = lst.local_addr().unwrap();
        // the answers to give, one per request; what was asked
        let answers: Arc<Mutex<Vec<Option<Reply>>>> = Default::default();
        let asked: Arc<Mutex<Vec<Content>>> = Default::default();
        let (an, ad) = (Arc::clone(&answers), Arc::clone(&asked));
        let h = std::thread::spawn(move || -> R<()> {
            let t = lst.accept().map_err(|e| Bad::Env(e.to_string()))?.0;
            let _ = t.set_nodelay(true);
            raw.tcp = Some(t);
            loop {
                match raw.recv(Duration::from_secs(60))? {
                    Got::Msg(m) => {
                        ad.lock().unwrap().push(m.content.clone());
                        let a = an.lock().unwrap().remove(0);
                        if let Some(r) = a {
                            let h: Header = m.header;
                            let _ = raw.send(&reply_to(&h, r));
                        }
                    }
                    _ => return Ok(()),
                }
            }
        });
        let mut rt = local_runtime();
        let r = (|| -> R<Info> {
            let mut cl = connect(&mut rt, Net::Tcp, &keys, vec![addr])?;
            let mut files: Vec<(RemoteFile, u32, u32)> = c
                .files
                .iter()
                .enumerate()
                .map(|(i, (id, sig))| (RemoteFile::from(reply::FileOpenedArgs { id: *id, sig: *sig, path: format!("p{}", i), read: true, write: true }), *id, *sig))
                .collect();
            for f in &files {
                ensure!(f.0.id() == f.1, "wrong-handle", "{:?} has id {}", f.0, f.0.id());
            }
            let mut info = Info::new();
            for a in &c.asks {
                let p = plan(a, &files);
                let answer = answer_for(a, &p);
                answers.lock().unwrap().push(if p.family == Family::Tell { None } else { Some(answer.clone()) });
                let n = asked.lock().unwrap().len();
                let k = a.file as usize % files.len();
                let got = rt.block_on(call(&mut cl, a.helper, &p, &mut files[k].0));
                let what = format!("helper {} answered with {}: {}", a.helper % HELPERS, show(&answer), show(&got));
                if let Out::Ask(AskError::Timeout) = got {
                    return lost("no-answer", what);
                }
                if p.family == Family::Tell {
                    ensure!(matches!(got, Out::Told), "tell-failed", "{}", what);
                    let end = std::time::Instant::now() + PATIENCE;
                    while asked.lock().unwrap().len() == n && std::time::Instant::now() < end {
                        rt.block_on(async { tokio::time::delay_for(Duration::from_millis(1)).await });
                    }
                }
                let sent: Vec<Content> = asked.lock().unwrap()[n..].to_vec();
                if sent.is_empty() {
                    return lost("not-sent", what);
                }
                ensure!(sent == vec![Content::Request(p.req.clone())], "wrong-request", "helper {} sent {} instead of {}", a.helper % HELPERS, show(&sent), show(&p.req));
                if p.family == Family::Tell {
                    info = info.class("tell");
                    continue;
                }
                if matches_kind(&answer, p.wants) {
                    info = info.class("wanted");
                    match &got {
                        Out::Ok(r) => ensure!(*r == answer, "altered", "{}", what),
                        _ => return bad("refused", what),
                    }
                    if let Some(k) = p.file {
                        let s = match &answer {
                            Reply::FileRenamed(x) => x.sig,
                            Reply::FileRemoved(x) => x.sig,
                            Reply::FileWritten(x) => x.sig,
                            _ => unreachable!(),
                        };
                        files[k].2 = s;
                        info = info.class("signature-moved");
                    }
                    continue;
                }
                info = info.class("error");
                let ok = match (&answer, &got) {
                    (Reply::Error(ReplyError::Generic(x)), Out::Ask(AskError::Failure { msg })) => *msg == x.msg,
                    (Reply::Error(ReplyError::Io(x)), Out::Io(e)) if p.family != Family::Plain => same_io(e, x),
                    (Reply::Error(ReplyError::FileSigChanged(x)), Out::Sig(id)) if p.family == Family::File => *id == x.id,
                    (Reply::Error(ReplyError::FileSigChanged(_)), _) if p.family == Family::File => return bad("signature-change-not-told", what),
                    (Reply::Error(ReplyError::Io(_)), Out::Ask(_)) if p.family != Family::Plain => false,
                    (r, Out::Ask(AskError::InvalidResponse { reply })) => r == reply,
                    _ => false,
                };
                ensure!(ok, "wrong-error", "{}", what);
            }
            drop(cl);
            Ok(info.nt(c.asks.len() > 1))
        })();
        end_runtime(rt);
        let _ = TcpStream::connect(addr);
        let hr = h.join();
        let i = r?;
        if let Ok(Err(e)) = hr {
            return Err(e);
        }
        Ok(i)
    })()
    .into()
}

/// Errors and handles in other shapes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Errs {
    seed: u64,
    kind: u8,
    cbor: bool,
}
fn errs(c: &Errs) -> Verdict {
    (|| -> R<Info> {
        let mut g = Gen::new(c.seed);
        fn there<T: Serialize + for<'a> Deserialize<'a>>(x: &T, cbor: bool) -> R<T> {
            if cbor {
                let v = serde_cbor::to_vec(x).map_err(|e| Bad::Fail("not-encoded".into(), e.to_string()))?;
                serde_cbor::from_slice(&v).map_err(|e| Bad::Fail("not-decoded".into(), e.to_string()))
            } else {
                let v = serde_json::to_string(x).map_err(|e| Bad::Fail("not-encoded".into(), e.to_string()))?;
                serde_json::from_str(&v).map_err(|e| Bad::Fail("not-decoded".into(), format!("{}: {}", v, e)))
            }
        }
        let ask = |g: &mut Gen| match g.r.gen_range(0, 6) {
            0 => AskError::Failure { msg: g.string() },
            1 => AskError::InvalidResponse { reply: g.reply(2) },
            2 => AskError::Timeout,
            3 => AskError::EncodingFailed,
            4 => AskError::SendFailed,
            _ => AskError::CallbackLost,
        };
        match c.kind % 4 {
            0 => {
                let e = ask(&mut g);
                let y = there(&e, c.cbor)?;
                ensure!(y == e, "altered", "{:?} became {:?}", e, y);
                let s: Option<SendError> = y.into();
                let want = match e {
                    AskError::EncodingFailed => Some(SendError::EncodingFailed),
                    AskError::SendFailed => Some(SendError::SendFailed),
                    _ => None,
                };
                ensure!(s == want, "conversion", "{:?} is the send error {:?}", e, s);
                if let Some(s) = s {
                    let t = there(&s, c.cbor)?;
                    ensure!(t == s, "altered", "{:?} became {:?}", s, t);
                    ensure!(AskError::from(t) == e, "conversion", "{:?} does not convert back", e);
                }
            }
            1 => {
                let e = ask(&mut g);
                let want = there(&e, c.cbor)?;
                match there(&FileAskError::from(e), c.cbor)? {
                    FileAskError::GeneralAskFailed(x) => ensure!(x == want, "altered", "{:?} became {:?}", want, x),
                    x => return bad("altered", format!("{:?} became {:?}", want, x)),
                }
            }
            2 => {
                let a = g.io_error();
                let e: io::Error = a.clone().into();
                let (kind, text) = (e.kind(), e.to_string());
                match there(&FileAskError::from(e), c.cbor)? {
                    FileAskError::IoError(y) => {
                        ensure!(y.kind() == kind && y.to_string() == text && y.raw_os_error() == a.os_code, "altered", "{:?} became {:?}", a, y);
                    }
                    x => return bad("altered", format!("{:?} became {:?}", a, x)),
                }
            }
            _ => {
                let id = g.u32();
                match there(&FileAskError::FileSignatureChanged { id }, c.cbor)? {
                    FileAskError::FileSignatureChanged { id: x } => ensure!(x == id, "altered", "{} became {}", id, x),
                    x => return bad("altered", format!("{} became {:?}", id, x)),
                }
                let (alive, code) = (g.bool(), if g.bool() { Some(g.u32() as i32) } else { None });
                let s = RemoteProcStatus::from(reply::ProcStatusArgs { id, is_alive: alive, exit_code: code });
                ensure!(s == RemoteProcStatus { id, is_alive: alive, exit_code: code }, "altered", "status {:?}", s);
                ensure!(RemoteProc::from(reply::ProcStartedArgs { id }).id() == id && RemoteProc::shallow(id).id() == id, "altered", "process id");
                let p = g.string();
                let f = RemoteFile::from(reply::FileOpenedArgs { id, sig: 1, path: p.clone(), read: true, write: false });
                ensure!(f.id() == id && f.path() == p, "altered", "file {:?}", f);
            }
        }
        Ok(Info::new().nt(true).class(format!("kind{}", c.kind % 4)))
    })()
    .into()
}
pub fn c20() -> Check {
    Check {
        rule: "helpers: up to 12 (now and then 200) calls of the 26 typed requests (odd strings, bytes, ids, a file handle used again and again) to a scripted server that answers with the wanted kind, an I/O, plain or signature error, or any other reply; errors: every error value through its serialised form. Non-trivial: more than one call. Oracle: the request named by the arguments was sent, once; the wanted reply comes back unaltered and moves the handle's signature; anything else gives the matching error and leaves the handle alone.",
        assumptions: vec!["TCP, plain keys"],
        legs: vec![
            leg("helpers", o(8_000, 150_000).hang(200), || {
                let one = (any::<u8>(), any::<u64>(), any::<u8>(), any::<u8>()).prop_map(|(helper, seed, answer, file)| Ask { helper, seed, answer, file });
                (
                    prop_oneof![60 => prop::collection::vec(one.clone(), 1..13), 1 => prop::collection::vec(one, 13..200)],
                    prop::collection::vec((any::<u32>(), any::<u32>()), 1..3),
                )
                    .prop_map(|(asks, files)| Asks { asks, files })
            }, helpers),
            leg("errors", o(20_000, 300_000), || (any::<u64>(), any::<u8>(), any::<bool>()).prop_map(|(seed, kind, cbor)| Errs { seed, kind, cbor }), errs),
        ],
    }
}
