//! Processes run for clients, and how long files and processes are kept.
//! Every program started is a small shell script of ours, run by the unprivileged user.
use crate::e2e::*;
use crate::fw::*;
use crate::wirekit::*;
use over_there::core::{request, AskError, ConnectedClient, Reply, ReplyError, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;
use std::path::PathBuf;
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

fn ask(rt: &mut Runtime, c: &mut ConnectedClient, r: Request) -> R<Reply> {
    let what = clip(&format!("{:?}", r), 200);
    match rt.block_on(c.ask(r)) {
        Ok(x) => Ok(x),
        Err(AskError::Timeout) => lost("no-reply", format!("no reply to {}", what)),
        Err(e) => bad("ask-failed", format!("{}: {}", what, e)),
    }
}
fn show<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 250)
}
fn io_kind(r: &Reply) -> Option<ErrorKind> {
    match r {
        Reply::Error(ReplyError::Io(a)) => Some(a.error_kind.clone().into()),
        _ => None,
    }
}
fn unknown_id(r: &Reply, id: u32) -> bool {
    match r {
        Reply::Error(ReplyError::Io(a)) => io_kind(r) == Some(ErrorKind::InvalidInput) && a.os_code.is_none() && a.description.contains(&id.to_string()),
        _ => false,
    }
}
/// Running, as opposed to gone or waiting to be reaped
fn running(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => !matches!(s.rsplit(')').next().unwrap_or("").trim().chars().next(), Some('Z') | Some('X') | None),
        Err(_) => false,
    }
}
fn wait_gone(pid: u32, limit: Duration) -> bool {
    let end = Instant::now() + limit;
    loop {
        if !running(pid) {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

// ------------------------------------------------------------------ scripts
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Out(Payload),
    Err(Payload),
    Sleep(u8),
    /// copies so many bytes of its input to its output
    Head(u16),
    HeadErr(u16),
    Args,
    Pwd,
    /// whether it has input at all
    Env,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Exit(u8),
    Signal(bool),
    /// copies its input to its output
    Cat,
    CatErr,
    Linger,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    steps: Vec<Step>,
    end: End,
    args: Vec<String>,
    dir: u8,
    stdin: bool,
    stdout: bool,
    stderr: bool,
}
impl Prog {
    fn script(&self, n: usize, dir: &PathBuf) -> R<String> {
        let mut s = String::new();
        for (i, st) in self.steps.iter().enumerate() {
            let mut put = |p: &Payload, to: &str| -> R<()> {
                let f = dir.join(format!("data-{}-{}", n, i));
                std::fs::write(&f, p.get()).map_err(|e| Bad::Env(e.to_string()))?;
                s.push_str(&format!("cat '{}' {}\n", f.display(), to));
                Ok(())
            };
            match st {
                Step::Out(p) => put(p, "")?,
                Step::Err(p) => put(p, ">&2")?,
                Step::Sleep(ms) => s.push_str(&format!("sleep 0.{:03}\n", *ms as u32 % 80)),
                Step::Head(k) => s.push_str(&format!("head -c {}\n", k)),
                Step::HeadErr(k) => s.push_str(&format!("head -c {} >&2\n", k)),
                Step::Args => s.push_str("printf '%s|' \"$@\"\n"),
                Step::Pwd => s.push_str("pwd -P\n"),
                Step::Env => s.push_str("printf '%s' \"$#\" >&2\n"),
            }
        }
        s.push_str(&match self.end {
            End::Exit(k) => format!("exit {}\n", k),
            End::Signal(kill) => format!("kill -{} $$\nsleep 60\n", if kill { 9 } else { 15 }),
            End::Cat => "exec cat\n".into(),
            End::CatErr => "exec cat >&2\n".into(),
            End::Linger => "exec sleep 90\n".into(),
        });
        Ok(s)
    }
    fn cwd(&self, dir: &PathBuf) -> Option<PathBuf> {
        match self.dir % 4 {
            0 => None,
            1 => Some(dir.clone()),
            2 => Some(dir.join("sub/..").join("sub")),
            _ => Some(dir.join("sub")),
        }
    }
    fn request(&self, n: usize, dir: &PathBuf) -> R<Request> {
        let mut args = vec!["-c".to_string(), self.script(n, dir)?, "name".to_string()];
        args.extend(self.args.iter().cloned());
        Ok(Request::ExecProc(request::ExecProcArgs {
            command: "sh".into(),
            args,
            stdin: self.stdin,
            stdout: self.stdout,
            stderr: self.stderr,
            current_dir: self.cwd(dir).map(|d| d.display().to_string()),
        }))
    }
    /// What it does with its input so far
    fn model(&self, input: &[u8], dir: &PathBuf) -> Model {
        let mut m = Model::default();
        let mut rest = input;
        for st in &self.steps {
            match st {
                Step::Out(p) => m.out.extend(p.get()),
                Step::Err(p) => m.err.extend(p.get()),
                Step::Sleep(_) => {}
                Step::Head(k) | Step::HeadErr(k) => {
                    let k = *k as usize;
                    let n = if self.stdin { k.min(rest.len()) } else { 0 };
                    let short = self.stdin && n < k;
                    let (to, may) = if matches!(st, Step::Head(_)) { (&mut m.out, &mut m.out_may) } else { (&mut m.err, &mut m.err_may) };
                    if short {
                        // it may hold back what it has until it has all
                        may.extend_from_slice(&rest[..n]);
                        return m;
                    }
                    to.extend_from_slice(&rest[..n]);
                    rest = &rest[n..];
                }
                Step::Args if self.args.is_empty() => m.out.extend(b"|"),
                Step::Args => self.args.iter().for_each(|a| m.out.extend(format!("{}|", a).as_bytes())),
                Step::Pwd => {
                    let d = self.cwd(dir).map(|d| d.canonicalize().unwrap_or(d)).unwrap_or_else(|| std::env::current_dir().unwrap_or_default());
                    m.out.extend(format!("{}\n", d.display()).as_bytes())
                }
                Step::Env => m.err.extend(self.args.len().to_string().as_bytes()),
            }
        }
        match self.end {
            End::Exit(k) => m.ended = Some(Some(k as i32)),
            End::Signal(_) => m.ended = Some(None),
            End::Cat | End::CatErr if !self.stdin => m.ended = Some(Some(0)),
            End::Cat => m.out.extend(rest),
            End::CatErr => m.err.extend(rest),
            End::Linger => {}
        }
        m
    }
}
#[derive(Default, Debug)]
struct Model {
    out: Vec<u8>,
    out_may: Vec<u8>,
    err: Vec<u8>,
    err_may: Vec<u8>,
    ended: Option<Option<i32>>,
}
fn some_bytes() -> BoxedStrategy<Payload> {
    prop_oneof![
        1 => Just(Payload::Lit(vec![])),
        5 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Payload::Lit),
        3 => (900..5000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
        1 => (0..300_000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
    ]
    .boxed()
}
fn arg() -> BoxedStrategy<String> {
    prop_oneof![
        Just("".to_string()),
        Just("a b".into()),
        Just("*".into()),
        Just("$HOME `id`".into()),
        Just("--".into()),
        Just("-n".into()),
        Just("'\"\\".into()),
        Just("\n".into()),
        Just("%s%d\\n".into()),
        Just("\u{fc}\u{4e16}".into()),
        "[ -~]{0,12}"
    ]
    .boxed()
}
fn prog() -> BoxedStrategy<Prog> {
    let step = prop_oneof![
        4 => some_bytes().prop_map(Step::Out),
        3 => some_bytes().prop_map(Step::Err),
        2 => any::<u8>().prop_map(Step::Sleep),
        3 => (0..3000u16).prop_map(Step::Head),
        1 => (0..60u16).prop_map(Step::HeadErr),
        1 => Just(Step::Args),
        1 => Just(Step::Pwd),
        1 => Just(Step::Env),
    ];
    let end = prop_oneof![
        5 => prop_oneof![3 => Just(0u8), 2 => 1..=255u8].prop_map(End::Exit),
        2 => any::<bool>().prop_map(End::Signal),
        4 => Just(End::Cat),
        1 => Just(End::CatErr),
        2 => Just(End::Linger),
    ];
    let w = prop::bool::weighted;
    (prop::collection::vec(step, 0..5), end, prop::collection::vec(arg(), 0..4), any::<u8>(), w(0.7), w(0.85), w(0.8))
        .prop_map(|(steps, end, args, dir, stdin, stdout, stderr)| Prog { steps, end, args, dir, stdin, stdout, stderr })
        .boxed()
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pop {
    Start,
    BadStart(u8),
    Write(u8, Payload),
    ReadOut(u8),
    ReadErr(u8),
    Status(u8),
    Kill(u8),
    Wait(u8),
    Unknown(u8, u32),
    /// reads in one sequence
    ReadSeq(u8),
    /// stdout, stderr and status at once
    Batch(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Procs {
    progs: Vec<Prog>,
    /// (which client, what)
    ops: Vec<(bool, Pop)>,
}
fn pops() -> BoxedStrategy<Pop> {
    prop_oneof![
        3 => Just(Pop::Start),
        1 => any::<u8>().prop_map(Pop::BadStart),
        6 => (any::<u8>(), some_bytes()).prop_map(|(p, d)| Pop::Write(p, d)),
        4 => any::<u8>().prop_map(Pop::ReadOut),
        3 => any::<u8>().prop_map(Pop::ReadErr),
        4 => any::<u8>().prop_map(Pop::Status),
        2 => any::<u8>().prop_map(Pop::Kill),
        3 => any::<u8>().prop_map(Pop::Wait),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(k, i)| Pop::Unknown(k, i)),
        2 => any::<u8>().prop_map(Pop::ReadSeq),
        2 => any::<u8>().prop_map(Pop::Batch),
    ]
    .boxed()
}
/// Many processes at the same time
fn many_procs() -> impl Strategy<Value = Procs> {
    let mut p = prog();
    p = prop_oneof![1 => p.clone(), 2 => p.prop_map(|p| Prog { end: End::Cat, steps: vec![], stdin: true, ..p })].boxed();
    (prop::collection::vec(p, 10..50), prop::collection::vec((any::<bool>(), pops()), 20..120)).prop_map(|(progs, ops)| {
        let n = progs.len();
        let ops = (0..n).map(|i| (i % 3 == 0, Pop::Start)).chain(ops).collect();
        Procs { progs, ops }
    })
}
fn procs() -> impl Strategy<Value = Procs> {
    let op = pops();
    (prop::collection::vec(prog(), 1..4), prop::collection::vec((any::<bool>(), op), 1..25)).prop_map(|(progs, mut ops)| {
        ops.insert(0, (false, Pop::Start));
        Procs { progs, ops }
    })
}
struct Live<'a> {
    id: u32,
    prog: &'a Prog,
    input: Vec<u8>,
    /// a write whose fate is unknown was made: the input is not known any more
    out: Vec<u8>,
    err: Vec<u8>,
    seen_dead: Option<Option<i32>>,
    removed: bool,
}
impl<'a> Live<'a> {
    fn took(&mut self, is_err: bool, r: &Reply, dir: &PathBuf, what: &str) -> R<()> {
        let has = if is_err { self.prog.stderr } else { self.prog.stdout };
        let name = if is_err { "stderr" } else { "stdout" };
        if self.removed {
            ensure!(unknown_id(r, self.id), "killed-known", "{}: reading {} of a killed process: {}", what, name, show(r));
            return Ok(());
        }
        if !has {
            ensure!(io_kind(r) == Some(ErrorKind::BrokenPipe), "no-pipe", "{}: {} is not connected, but reading it gave {}", what, name, show(r));
            return Ok(());
        }
        let (id, data) = match r {
            Reply::ProcStdoutContents(a) if !is_err => (a.id, &a.output),
            Reply::ProcStderrContents(a) if is_err => (a.id, &a.output),
            _ => return bad("unexpected-result", format!("{}: reading {} gave {}", what, name, show(r))),
        };
        ensure!(id == self.id, "wrong-id", "{}: reply names process {}", what, id);
        let m = self.prog.model(&self.input, dir);
        let got = if is_err { &mut self.err } else { &mut self.out };
        got.extend(data);
        let mut full = if is_err { m.err } else { m.out };
        full.extend(if is_err { m.err_may } else { m.out_may });
        ensure!(full.starts_with(got), "wrong-output", "{}: {} read so far is {} bytes, which is not a prefix of the {} bytes the process writes (first difference at {:?})", what, name, got.len(), full.len(), got.iter().zip(&full).position(|(a, b)| a != b));
        Ok(())
    }
    fn status(&mut self, r: &Reply, dir: &PathBuf, what: &str) -> R<()> {
        if self.removed {
            ensure!(unknown_id(r, self.id), "killed-known", "{}: status of a killed process: {}", what, show(r));
            return Ok(());
        }
        let a = match r {
            Reply::ProcStatus(a) => a,
            _ => return bad("unexpected-result", format!("{}: {}", what, show(r))),
        };
        ensure!(a.id == self.id, "wrong-id", "{}: reply names process {}", what, a.id);
        let m = self.prog.model(&self.input, dir);
        if a.is_alive {
            ensure!(self.seen_dead.is_none(), "revived", "{}: reported alive after having been reported dead", what);
            ensure!(a.exit_code.is_none(), "code-of-living", "{}: alive with exit code {:?}", what, a.exit_code);
        } else {
            match m.ended {
                None => return bad("dead-too-soon", format!("{}: reported dead (code {:?}) while it waits for input or sleeps", what, a.exit_code)),
                Some(code) => ensure!(a.exit_code == code, "wrong-code", "{}: exit code {:?}, the process ends with {:?}", what, a.exit_code, code),
            }
            self.seen_dead = Some(a.exit_code);
        }
        Ok(())
    }
}
fn machine(c: &Procs) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let sub = dir.join("sub");
        std::fs::create_dir(&sub).map_err(|e| Bad::Env(e.to_string()))?;
        give(&sub);
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cls = [srv.client(&mut rt)?, srv.client(&mut rt)?];
        let mut ls: Vec<Live> = vec![];
        let mut classes: Vec<&'static str> = vec![];
        let r = (|| -> R<()> {
            for (n, (who, op)) in c.ops.iter().enumerate() {
                let what = format!("step {} {}", n, clip(&format!("{:?}", op), 100));
                let cl = &mut cls[*who as usize];
                let pick = |k: u8| if ls.is_empty() { None } else { Some(k as usize % ls.len()) };
                match op {
                    Pop::Start => {
                        if ls.len() >= c.progs.len() {
                            continue;
                        }
                        let p = &c.progs[ls.len()];
                        let r = ask(&mut rt, cl, p.request(ls.len(), &dir)?)?;
                        let id = match &r {
                            Reply::ProcStarted(a) => a.id,
                            _ => return bad("not-started", format!("{}: {}", what, show(&r))),
                        };
                        ensure!(!ls.iter().any(|l| !l.removed && l.id == id && l.seen_dead.is_none()), "shared-id", "{}: id {} is that of another process", what, id);
                        if p.model(&[], &dir).ended.is_none() {
                            ensure!(running(id), "no-such-process", "{}: reply says id {}, but no such process is running", what, id);
                        }
                        ls.push(Live { id, prog: p, input: vec![], out: vec![], err: vec![], seen_dead: None, removed: false });
                    }
                    Pop::BadStart(k) => {
                        let (command, args, d) = match k % 4 {
                            0 => ("/nonexistent/command".to_string(), vec![], None),
                            1 => ("no-such-command-here".to_string(), vec!["x".to_string()], None),
                            2 => ("true".to_string(), vec![], Some(dir.join("missing").display().to_string())),
                            _ => ("true".to_string(), vec!["nul\0byte".to_string()], None),
                        };
                        let r = ask(&mut rt, cl, Request::ExecProc(request::ExecProcArgs { command, args, stdin: false, stdout: true, stderr: false, current_dir: d }))?;
                        let k = io_kind(&r);
                        let want = if k.is_some() && *op_kind(op) == 3 { ErrorKind::InvalidInput } else { ErrorKind::NotFound };
                        // (a directory on the search path may be closed to the unprivileged user)
                        let k = if *op_kind(op) == 1 && k == Some(ErrorKind::PermissionDenied) { Some(want) } else { k };
                        ensure!(k == Some(want), "wrong-error", "{}: expected an I/O error of kind {:?}, got {}", what, want, show(&r));
                        classes.push("cannot-start");
                    }
                    Pop::Write(k, d) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let l = &mut ls[i];
                        let mut d = d.get();
                        // (a process that does not read takes no more than a pipe holds)
                        if !matches!(l.prog.end, End::Cat | End::CatErr) {
                            d.truncate(30_000usize.saturating_sub(l.input.len()));
                        }
                        let r = ask(&mut rt, cl, Request::WriteProcStdin(request::WriteProcStdinArgs { id: l.id, input: d.clone() }))?;
                        if l.removed {
                            ensure!(unknown_id(&r, l.id), "killed-known", "{}: writing to a killed process: {}", what, show(&r));
                        } else if !l.prog.stdin {
                            ensure!(io_kind(&r) == Some(ErrorKind::BrokenPipe), "no-pipe", "{}: stdin is not connected, but writing gave {}", what, show(&r));
                        } else {
                            let may_end = l.prog.model(&l.input, &dir).ended.is_some();
                            match &r {
                                Reply::ProcStdinWritten(a) => {
                                    ensure!(a.id == l.id, "wrong-id", "{}: reply names process {}", what, a.id);
                                    ensure!(l.seen_dead.is_none() || d.is_empty(), "written-to-dead", "{}: {} bytes were taken for a process reported dead", what, d.len());
                                    if !may_end {
                                        l.input.extend(&d);
                                        if !d.is_empty() {
                                            classes.push("stdin");
                                        }
                                    }
                                }
                                r if may_end && io_kind(r) == Some(ErrorKind::BrokenPipe) => {}
                                // ended in the middle of the write
                                r if io_kind(r) == Some(ErrorKind::BrokenPipe) && {
                                    let mut all = l.input.clone();
                                    all.extend(&d);
                                    l.prog.model(&all, &dir).ended.is_some()
                                } =>
                                {
                                    l.input.extend(&d);
                                }
                                r => return bad("unexpected-result", format!("{}: writing {} bytes: {}", what, d.len(), show(r))),
                            }
                        }
                    }
                    Pop::ReadOut(k) | Pop::ReadErr(k) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let e = matches!(op, Pop::ReadErr(_));
                        let id = ls[i].id;
                        let r = ask(&mut rt, cl, if e { Request::ReadProcStderr(request::ReadProcStderrArgs { id }) } else { Request::ReadProcStdout(request::ReadProcStdoutArgs { id }) })?;
                        ls[i].took(e, &r, &dir, &what)?;
                    }
                    Pop::Status(k) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let r = ask(&mut rt, cl, Request::ReadProcStatus(request::ReadProcStatusArgs { id: ls[i].id }))?;
                        ls[i].status(&r, &dir, &what)?;
                    }
                    Pop::Kill(k) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let l = &mut ls[i];
                        let r = ask(&mut rt, cl, Request::KillProc(request::KillProcArgs { id: l.id }))?;
                        if l.removed {
                            ensure!(unknown_id(&r, l.id), "killed-known", "{}: killing a killed process: {}", what, show(&r));
                            continue;
                        }
                        let m = l.prog.model(&l.input, &dir);
                        match (&r, l.seen_dead) {
                            (Reply::ProcKilled(a), None) => {
                                ensure!(a.id == l.id, "wrong-id", "{}: reply names process {}", what, a.id);
                                ensure!(a.exit_code.is_none() || m.ended == Some(a.exit_code), "wrong-code", "{}: killed with exit code {:?}, but the process ends with {:?}", what, a.exit_code, m.ended);
                            }
                            (Reply::ProcKilled(a), Some(code)) => ensure!(a.id == l.id && a.exit_code == code, "wrong-code", "{}: killed with {:?}, but it ended with {:?}", what, a, code),
                            // nothing left to kill
                            (r, Some(_)) if io_kind(r).is_some() => {}
                            (r, _) => return bad("not-killed", format!("{}: {}", what, show(r))),
                        }
                        l.removed = true;
                        ensure!(l.seen_dead.is_some() || wait_gone(l.id, Duration::from_secs(5)), "still-running", "{}: process {} is still running after it was killed", what, l.id);
                        classes.push("kill");
                    }
                    Pop::Wait(ms) => std::thread::sleep(Duration::from_millis(*ms as u64 % 40)),
                    Pop::Unknown(k, id) => {
                        // (process ids are far below this)
                        let id = *id | 0x4000_0000;
                        let r = match k % 5 {
                            0 => Request::KillProc(request::KillProcArgs { id }),
                            1 => Request::ReadProcStatus(request::ReadProcStatusArgs { id }),
                            2 => Request::ReadProcStdout(request::ReadProcStdoutArgs { id }),
                            3 => Request::ReadProcStderr(request::ReadProcStderrArgs { id }),
                            _ => Request::WriteProcStdin(request::WriteProcStdinArgs { id, input: vec![1] }),
                        };
                        let r = ask(&mut rt, cl, r)?;
                        ensure!(unknown_id(&r, id), "unknown-id", "{}: {}", what, show(&r));
                    }
                    Pop::ReadSeq(k) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let l = &mut ls[i];
                        if l.removed || !l.prog.stdout {
                            continue;
                        }
                        let id = l.id;
                        let ops: Vec<_> = (0..3).map(|_| request::LazilyTransformedRequest::new(Request::ReadProcStdout(request::ReadProcStdoutArgs { id }), vec![])).collect();
                        let r = ask(&mut rt, cl, Request::Sequence(From::from(ops)))?;
                        match &r {
                            Reply::Sequence(a) if a.results.len() == 3 => {
                                for x in &a.results {
                                    l.took(false, x, &dir, &what)?;
                                }
                            }
                            _ => return bad("unexpected-result", format!("{}: {}", what, show(&r))),
                        }
                    }
                    Pop::Batch(k) => {
                        let i = match pick(*k) {
                            None => continue,
                            Some(i) => i,
                        };
                        let l = &mut ls[i];
                        let id = l.id;
                        let r = ask(
                            &mut rt,
                            cl,
                            Request::Batch(From::from(vec![
                                Request::ReadProcStdout(request::ReadProcStdoutArgs { id }),
                                Request::ReadProcStderr(request::ReadProcStderrArgs { id }),
                                Request::ReadProcStatus(request::ReadProcStatusArgs { id }),
                            ])),
                        )?;
                        match &r {
                            Reply::Batch(a) if a.results.len() == 3 => {
                                l.took(false, &a.results[0], &dir, &what)?;
                                l.took(true, &a.results[1], &dir, &what)?;
                                l.status(&a.results[2], &dir, &what)?;
                            }
                            _ => return bad("unexpected-result", format!("{}: {}", what, show(&r))),
                        }
                    }
                }
            }
            // everything a process wrote can be read in the end, and its end is reported
            for i in 0..ls.len() {
                let l = &mut ls[i];
                if l.removed {
                    continue;
                }
                let what = format!("in the end, process {}", i);
                let m = l.prog.model(&l.input, &dir);
                let end = Instant::now() + PATIENCE;
                loop {
                    let cl = &mut cls[i % 2];
                    if m.ended.is_some() {
                        let r = ask(&mut rt, cl, Request::ReadProcStatus(request::ReadProcStatusArgs { id: l.id }))?;
                        l.status(&r, &dir, &what)?;
                    }
                    if l.prog.stdout {
                        let r = ask(&mut rt, cl, Request::ReadProcStdout(request::ReadProcStdoutArgs { id: l.id }))?;
                        l.took(false, &r, &dir, &what)?;
                    }
                    if l.prog.stderr {
                        let r = ask(&mut rt, cl, Request::ReadProcStderr(request::ReadProcStderrArgs { id: l.id }))?;
                        l.took(true, &r, &dir, &what)?;
                    }
                    let all = (!l.prog.stdout || l.out.len() >= m.out.len()) && (!l.prog.stderr || l.err.len() >= m.err.len());
                    if all && (m.ended.is_none() || l.seen_dead.is_some()) {
                        break;
                    }
                    if Instant::now() > end {
                        return lost("output-missing", format!("{}: read {} of {} bytes of stdout and {} of {} of stderr, end {:?} seen {:?}", what, l.out.len(), m.out.len(), l.err.len(), m.err.len(), m.ended, l.seen_dead));
                    }
                    std::thread::sleep(Duration::from_millis(3));
                }
                if l.out.len() + l.err.len() > 0 {
                    classes.push("output");
                }
                if m.ended.is_some() {
                    let r = ask(&mut rt, &mut cls[0], Request::ReadProcStatus(request::ReadProcStatusArgs { id: l.id }))?;
                    l.status(&r, &dir, &what)?;
                    classes.push(match m.ended.unwrap() {
                        Some(0) => "exit-0",
                        Some(_) => "exit-other",
                        None => "signal",
                    });
                } else {
                    ensure!(running(l.id), "died", "{}: is not running though nothing ended it", what);
                    classes.push("alive-at-end");
                }
            }
            Ok(())
        })();
        drop(cls);
        drop(srv);
        r?;
        for l in &ls {
            if l.seen_dead.is_none() {
                ensure!(wait_gone(l.id, Duration::from_secs(8)), "outlives-server", "process {} runs on after its server ended", l.id);
            }
        }
        classes.sort();
        classes.dedup();
        let mut i = Info::new().nt(classes.len() >= 2);
        for x in classes {
            i = i.class(x);
        }
        Ok(i.class_if(ls.len() > 1, "several-processes"))
    })()
    .into()
}
fn op_kind(op: &Pop) -> &u8 {
    const K: [u8; 4] = [0, 1, 2, 3];
    match op {
        Pop::BadStart(k) => &K[*k as usize % 4],
        _ => &K[0],
    }
}

/// Several clients write to one process at once
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Writers {
    writes: Vec<Vec<Payload>>,
    batch: bool,
}
fn writers(c: &Writers) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let p = Prog { steps: vec![], end: End::Cat, args: vec![], dir: 0, stdin: true, stdout: true, stderr: false };
        let mut cls = vec![];
        for _ in &c.writes {
            cls.push(srv.client(&mut rt)?);
        }
        let id = match ask(&mut rt, &mut cls[0], p.request(0, &dir)?)? {
            Reply::ProcStarted(a) => a.id,
            r => return bad("not-started", show(&r)),
        };
        let rec = |w: usize, k: usize, p: &Payload| {
            let d = p.get();
            let mut v = vec![w as u8, k as u8];
            v.extend(&(d.len() as u32).to_be_bytes());
            v.extend(d);
            v
        };
        let futs = cls.iter_mut().enumerate().map(|(w, cl)| {
            let rs: Vec<Vec<u8>> = c.writes[w].iter().enumerate().map(|(k, p)| rec(w, k, p)).collect();
            let batch = c.batch;
            async move {
                if batch {
                    let ops = rs.into_iter().map(|input| Request::WriteProcStdin(request::WriteProcStdinArgs { id, input })).collect::<Vec<_>>();
                    match cl.ask(Request::Batch(From::from(ops))).await {
                        Ok(Reply::Batch(b)) => {
                            for r in b.results {
                                ensure!(matches!(r, Reply::ProcStdinWritten(_)), "unexpected-result", "write: {}", show(&r));
                            }
                        }
                        x => return bad("unexpected-result", show(&x)),
                    }
                } else {
                    for input in rs {
                        match cl.ask(Request::WriteProcStdin(request::WriteProcStdinArgs { id, input })).await {
                            Ok(Reply::ProcStdinWritten(_)) => {}
                            x => return bad("unexpected-result", show(&x)),
                        }
                    }
                }
                Ok(())
            }
        });
        for r in rt.block_on(futures::future::join_all(futs)) {
            r?;
        }
        let total: usize = c.writes.iter().flatten().map(|p| p.get().len() + 6).sum();
        let mut got = vec![];
        let end = Instant::now() + PATIENCE;
        while got.len() < total {
            match ask(&mut rt, &mut cls[0], Request::ReadProcStdout(request::ReadProcStdoutArgs { id }))? {
                Reply::ProcStdoutContents(a) => got.extend(a.output),
                r => return bad("unexpected-result", show(&r)),
            }
            if Instant::now() > end {
                return lost("output-missing", format!("{} of {} bytes came back", got.len(), total));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let mut next = vec![0usize; c.writes.len()];
        let mut seen = std::collections::HashSet::new();
        let mut at = 0;
        while at < got.len() {
            ensure!(got.len() - at >= 6, "torn", "trailing {} bytes", got.len() - at);
            let (w, k) = (got[at] as usize, got[at + 1] as usize);
            ensure!(w < c.writes.len() && k < c.writes[w].len(), "torn", "at {} of {}: no such record", at, got.len());
            let want = rec(w, k, &c.writes[w][k]);
            ensure!(got[at..].starts_with(&want), "torn", "record {} of client {} is not in one piece", k, w);
            ensure!(seen.insert((w, k)), "twice", "record {} of client {} came twice", k, w);
            if !c.batch {
                ensure!(next[w] == k, "reordered", "client {}: record {} came when {} was due", w, k, next[w]);
            }
            next[w] += 1;
            at += want.len();
        }
        Ok(Info::new().nt(seen.len() > 1).class_if(c.batch, "in-batches").class_if(c.writes.len() > 1, "several-writers"))
    })()
    .into()
}

/// A process that does not read, given more than a pipe holds, must not keep others waiting
fn stuck(c: &(u32, bool)) -> Verdict {
    (|| -> R<Info> {
        let (len, other_conn) = *c;
        let scratch = Scratch::new()?;
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut a = srv.client(&mut rt)?;
        let mut b = srv.client(&mut rt)?;
        let p = Prog { steps: vec![], end: End::Linger, args: vec![], dir: 0, stdin: true, stdout: true, stderr: false };
        let id = match ask(&mut rt, &mut a, p.request(0, &scratch.path())?)? {
            Reply::ProcStarted(a) => a.id,
            r => return bad("not-started", show(&r)),
        };
        a.timeout = Duration::from_millis(400);
        let _ = rt.block_on(a.ask(Request::WriteProcStdin(request::WriteProcStdinArgs { id, input: vec![7; len as usize] })));
        let c = if other_conn { &mut b } else { &mut a };
        c.timeout = Duration::from_secs(4);
        match rt.block_on(c.ask(Request::Heartbeat)) {
            Ok(Reply::Heartbeat) => Ok(Info::new().nt(len > 65536)),
            Err(AskError::Timeout) => lost(if len > 65536 { "stdin-over-pipe-capacity-blocks-server" } else { "stdin-blocks-server" }, format!("after {} bytes for a process that does not read, a heartbeat of {} client goes unanswered", len, if other_conn { "another" } else { "the same" })),
            x => bad("unexpected-result", show(&x)),
        }
    })()
    .into()
}

/// A process that writes much before anybody reads any of it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hoard {
    /// (to stderr?, bytes)
    out: Vec<(bool, u32, u64)>,
    exits: bool,
}
fn hoards() -> impl Strategy<Value = Hoard> {
    let len = prop_oneof![2 => 60_000..300_000u32, 2 => 300_000..1_500_000u32, 1 => 1_500_000..4_500_000u32];
    (prop::collection::vec((prop::bool::weighted(0.4), len, any::<u64>()), 1..4), any::<bool>()).prop_map(|(out, exits)| Hoard { out, exits })
}
fn hoard(c: &Hoard) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        cl.timeout = Duration::from_secs(60);
        let mut script = String::new();
        let mut want: [Vec<u8>; 2] = Default::default();
        for (i, (err, len, seed)) in c.out.iter().enumerate() {
            let d = Payload::Rand { len: *len as usize, seed: *seed }.get();
            let f = dir.join(format!("out-{}", i));
            std::fs::write(&f, &d).map_err(|e| Bad::Env(e.to_string()))?;
            script.push_str(&format!("cat '{}' {}\n", f.display(), if *err { ">&2" } else { "" }));
            want[*err as usize].extend(d);
        }
        let done = dir.join("done");
        script.push_str(&format!(": >'{}'\n{}\n", done.display(), if c.exits { "exit 3" } else { "exec sleep 90" }));
        let id = match ask(&mut rt, &mut cl, Request::ExecProc(request::ExecProcArgs { command: "sh".into(), args: vec!["-c".into(), script], stdin: false, stdout: true, stderr: true, current_dir: None }))? {
            Reply::ProcStarted(a) => a.id,
            r => return bad("not-started", show(&r)),
        };
        let end = Instant::now() + PATIENCE * 2;
        while !done.exists() {
            if Instant::now() > end {
                return lost("output-blocks", format!("the process has not written {:?} bytes yet", [want[0].len(), want[1].len()]));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        let mut got: [Vec<u8>; 2] = Default::default();
        let mut end = Instant::now() + PATIENCE;
        while got[0].len() < want[0].len() || got[1].len() < want[1].len() {
            let before = got[0].len() + got[1].len();
            match ask(&mut rt, &mut cl, Request::ReadProcStdout(request::ReadProcStdoutArgs { id }))? {
                Reply::ProcStdoutContents(a) => got[0].extend(a.output),
                r => return bad("unexpected-result", show(&r)),
            }
            match ask(&mut rt, &mut cl, Request::ReadProcStderr(request::ReadProcStderrArgs { id }))? {
                Reply::ProcStderrContents(a) => got[1].extend(a.output),
                r => return bad("unexpected-result", show(&r)),
            }
            if got[0].len() + got[1].len() > before {
                end = Instant::now() + PATIENCE;
            } else if Instant::now() > end {
                return lost("output-missing", format!("{:?} of {:?} bytes of stdout and stderr came back", [got[0].len(), got[1].len()], [want[0].len(), want[1].len()]));
            }
        }
        for (k, name) in ["stdout", "stderr"].iter().enumerate() {
            let at = got[k].iter().zip(&want[k]).position(|(a, b)| a != b);
            ensure!(got[k].len() == want[k].len() && at.is_none(), "wrong-output", "{}: {} bytes instead of {}, first differing at {:?}", name, got[k].len(), want[k].len(), at);
        }
        let st = ask(&mut rt, &mut cl, Request::ReadProcStatus(request::ReadProcStatusArgs { id }))?;
        if !c.exits {
            ensure!(matches!(&st, Reply::ProcStatus(a) if a.is_alive && a.exit_code.is_none()), "unexpected-result", "status: {}", show(&st));
            ask(&mut rt, &mut cl, Request::KillProc(request::KillProcArgs { id }))?;
        }
        Ok(Info::new().nt(want[0].len() + want[1].len() > 1 << 20).class_if(c.exits, "over"))
    })()
    .into()
}

pub fn c15() -> Check {
    let w = || {
        (prop::collection::vec(prop::collection::vec(prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..50).prop_map(Payload::Lit), 1 => (0..40_000usize, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed })], 1..6), 1..5), any::<bool>())
            .prop_map(|(writes, batch)| Writers { writes, batch })
            .boxed()
    };
    Check {
        rule: "processes: up to 3 generated shell programs (writing, copying input, sleeping, ending by exit, signal or not at all) run through the server by two clients in up to 25 operations; crowd: up to 50 at the same time; non-trivial: two kinds of effect seen. Oracle: a model of each program gives its exact output for the input written so far, its end and exit code; ids are those of running processes. writers: concurrent stdin writes come back whole and in order. hoard: up to 13 MB of output are read only after all of it was written.",
        assumptions: vec!["sh, cat, head, sleep of the test system", "the server runs unprivileged; every program started is one of ours"],
        legs: vec![
            leg("processes", o(700, 20_000).hang(120), procs, machine),
            leg("crowd", o(50, 1_500).threads(4).hang(250).shrink(90), many_procs, machine),
            leg("writers", o(200, 5_000).hang(120), w, writers),
            leg("hoard", o(120, 3_000).threads(4).hang(250).shrink(60), hoards, hoard),
            leg("stuck", o(8, 8).hang(120).shrink(0), || (prop_oneof![Just(1000u32), 70_000..400_000u32], any::<bool>()).boxed(), stuck),
        ],
    }
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    File,
    Runs,
    /// a process that ends by itself at once
    Ends,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    kind: Kind,
    start: u16,
    /// (pause before, operation, client)
    uses: Vec<(u16, u8, bool)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Keep {
    file_ttl: u16,
    proc_ttl: u16,
    dead_ttl: u16,
    period: u16,
    items: Vec<Item>,
}
fn keep() -> impl Strategy<Value = Keep> {
    let ttl = || prop_oneof![4 => 250..900u16, 1 => Just(60_000u16), 1 => Just(61_000u16)];
    let item = (prop_oneof![3 => Just(Kind::File), 2 => Just(Kind::Runs), 2 => Just(Kind::Ends)], 0..400u16, prop::collection::vec((prop_oneof![3 => 20..300u16, 2 => 300..900u16, 1 => 1500..2600u16], any::<u8>(), any::<bool>()), 1..8))
        .prop_map(|(kind, start, uses)| Item { kind, start, uses });
    (ttl(), ttl(), ttl(), 10..120u16, prop_oneof![8 => prop::collection::vec(item.clone(), 2..9), 1 => prop::collection::vec(item, 20..60)]).prop_map(|(file_ttl, proc_ttl, dead_ttl, period, items)| Keep { file_ttl, proc_ttl, dead_ttl, period, items })
}
struct Kept {
    id: u32,
    sig: u32,
    path: PathBuf,
    /// the last use was sent / answered
    sent: Instant,
    answered: Instant,
    ttl: Duration,
    here: bool,
    dead: bool,
}
const SLACK: Duration = Duration::from_millis(900);
fn keeping(c: &Keep) -> Verdict {
    (|| -> R<Info> {
        let t_start = Instant::now();
        let scratch = Scratch::new()?;
        // (a minute stands for ever here; a second more for what is kept when nothing is said)
        let ms = |x: u16, default: u64| match x {
            60_000 => Duration::from_secs(1_000_000_000),
            61_000 => Duration::from_secs(default),
            x => Duration::from_millis(x as u64),
        };
        let (ft, pt, dt, per) = (ms(c.file_ttl, 150), ms(c.proc_ttl, 300), ms(c.dead_ttl, 30), ms(c.period, 60));
        let said = [c.file_ttl != 61_000, c.proc_ttl != 61_000, c.dead_ttl != 61_000];
        let srv = Srv::with(SrvOpts::new(Net::Tcp, &Keys::plain()).tweak(move |b| {
            b.cleanup_interval(per);
            if said[0] {
                b.file_ttl(ft);
            }
            if said[1] {
                b.proc_ttl(pt);
            }
            if said[2] {
                b.dead_proc_ttl(dt);
            }
        }))?;
        let mut rt = local_runtime();
        let mut cls = [srv.client(&mut rt)?, srv.client(&mut rt)?];
        // one timeline
        let mut plan: Vec<(u64, usize, Option<(u8, bool)>)> = vec![];
        for (i, it) in c.items.iter().enumerate() {
            let mut t = it.start as u64;
            plan.push((t, i, None));
            for (gap, op, who) in &it.uses {
                t += *gap as u64;
                if t < 4500 {
                    plan.push((t, i, Some((*op, *who))));
                }
            }
        }
        plan.sort_by_key(|x| x.0);
        let t0 = Instant::now();
        let mut ks: Vec<Option<Kept>> = c.items.iter().map(|_| None).collect();
        let (mut evicted, mut kept_after_use, mut uses) = (0, 0, 0);
        let mut classes: Vec<&'static str> = vec![];
        for (at, i, op) in plan {
            let due = t0 + Duration::from_millis(at);
            let now = Instant::now();
            if due > now {
                std::thread::sleep(due - now);
            }
            let it = &c.items[i];
            let path = scratch.path().join(format!("d{}/f", i));
            let what = format!("item {} ({:?}) at {} ms", i, it.kind, t0.elapsed().as_millis());
            let open = |p: &PathBuf| Request::OpenFile(request::OpenFileArgs { path: p.display().to_string(), create_if_missing: true, write_access: true, read_access: true });
            let begin = |rt: &mut Runtime, cl: &mut ConnectedClient| -> R<Kept> {
                let sent = Instant::now();
                let (id, sig) = match it.kind {
                    Kind::File => {
                        let d = path.parent().unwrap();
                        if !d.exists() {
                            std::fs::create_dir(d).map_err(|e| Bad::Env(e.to_string()))?;
                            give(d);
                        }
                        match ask(rt, cl, open(&path))? {
                            Reply::FileOpened(a) => (a.id, a.sig),
                            r => return bad("not-opened", format!("{}: {}", what, show(&r))),
                        }
                    }
                    k => {
                        let (command, args) = if k == Kind::Runs { ("sleep", vec!["60".to_string()]) } else { ("true", vec![]) };
                        match ask(rt, cl, Request::ExecProc(request::ExecProcArgs { command: command.into(), args, stdin: true, stdout: true, stderr: true, current_dir: None }))? {
                            Reply::ProcStarted(a) => (a.id, 0),
                            r => return bad("not-started", format!("{}: {}", what, show(&r))),
                        }
                    }
                };
                Ok(Kept { id, sig, path: path.clone(), sent, answered: Instant::now(), ttl: if it.kind == Kind::File { ft } else { pt }, here: true, dead: false })
            };
            let (op, who) = match op {
                None => {
                    ks[i] = Some(begin(&mut rt, &mut cls[0])?);
                    continue;
                }
                Some(x) => x,
            };
            uses += 1;
            let cl = &mut cls[who as usize];
            let k = ks[i].as_mut().unwrap();
            if !k.here {
                continue;
            }
            let before = (k.sent, k.answered, k.ttl);
            let sent = Instant::now();
            let mut reopened = None;
            let r = match it.kind {
                Kind::File => match op % 5 {
                    0 | 1 => ask(&mut rt, cl, Request::ReadFile(request::ReadFileArgs { id: k.id, sig: k.sig }))?,
                    2 => ask(&mut rt, cl, Request::WriteFile(request::WriteFileArgs { id: k.id, sig: k.sig, contents: vec![op; 5] }))?,
                    3 => {
                        let to = k.path.with_file_name(format!("g{}", op % 2));
                        let r = ask(&mut rt, cl, Request::RenameFile(request::RenameFileArgs { id: k.id, sig: k.sig, to: to.display().to_string() }))?;
                        if let Reply::FileRenamed(_) = r {
                            k.path = to;
                        }
                        r
                    }
                    _ => {
                        let r = ask(&mut rt, cl, open(&k.path))?;
                        match &r {
                            Reply::FileOpened(a) => reopened = Some((a.id, a.sig)),
                            _ => return bad("not-opened", format!("{}: {}", what, show(&r))),
                        }
                        r
                    }
                },
                _ => match op % 6 {
                    0 => ask(&mut rt, cl, Request::ReadProcStdout(request::ReadProcStdoutArgs { id: k.id }))?,
                    1 => ask(&mut rt, cl, Request::ReadProcStderr(request::ReadProcStderrArgs { id: k.id }))?,
                    2 if it.kind == Kind::Runs => ask(&mut rt, cl, Request::WriteProcStdin(request::WriteProcStdinArgs { id: k.id, input: vec![op; 7] }))?,
                    _ => ask(&mut rt, cl, Request::ReadProcStatus(request::ReadProcStatusArgs { id: k.id }))?,
                },
            };
            let answered = Instant::now();
            let gone = match reopened {
                Some((id, _)) => id != k.id,
                None => unknown_id(&r, k.id),
            };
            // no longer than this since the last use when this one took effect; at least that long
            let (most, least) = (answered - before.0, sent.saturating_duration_since(before.1));
            if gone {
                ensure!(most >= before.2, "evicted-early", "{}: gone at most {:?} after its last use, kept for {:?}", what, most, before.2);
                evicted += 1;
                classes.push(match it.kind {
                    Kind::File => "file-evicted",
                    Kind::Runs => "process-evicted",
                    Kind::Ends => "dead-process-evicted",
                });
                if it.kind == Kind::Runs {
                    ensure!(wait_gone(k.id, Duration::from_secs(5)), "still-running", "{}: evicted, but process {} is running", what, k.id);
                }
                match reopened {
                    Some((id, sig)) => {
                        k.id = id;
                        k.sig = sig;
                        k.sent = sent;
                        k.answered = answered;
                    }
                    None => {
                        k.here = false;
                        if it.kind == Kind::File {
                            // nothing holds the place any more
                            let d = k.path.parent().unwrap().to_path_buf();
                            let r = ask(&mut rt, cl, Request::RemoveDir(request::RemoveDirArgs { path: d.display().to_string(), non_empty: true }))?;
                            ensure!(matches!(r, Reply::DirRemoved(_)), "still-held", "{}: evicted, but its directory cannot be removed: {}", what, show(&r));
                        }
                    }
                }
                continue;
            }
            if least > before.2 + per + SLACK {
                if stalled_ms(Duration::from_secs(8)) > 200 {
                    return env("stalled");
                }
                return bad("not-evicted", format!("{}: still there {:?} after its last use, to be kept for {:?} (looked at every {:?})", what, least, before.2, per));
            }
            kept_after_use += 1;
            k.sent = sent;
            k.answered = answered;
            if it.kind != Kind::File {
                k.ttl = pt;
            }
            match (&r, it.kind) {
                (Reply::FileContents(_), Kind::File) | (Reply::FileOpened(_), Kind::File) => {}
                (Reply::FileWritten(a), Kind::File) => k.sig = a.sig,
                (Reply::FileRenamed(a), Kind::File) => k.sig = a.sig,
                (Reply::ProcStdoutContents(_), _) | (Reply::ProcStderrContents(_), _) | (Reply::ProcStdinWritten(_), _) if it.kind != Kind::File => {}
                (Reply::ProcStatus(a), Kind::Runs) => ensure!(a.is_alive, "dead-too-soon", "{}: reported dead", what),
                (Reply::ProcStatus(a), Kind::Ends) => {
                    ensure!(!(k.dead && a.is_alive), "revived", "{}: reported alive after dead", what);
                    if !a.is_alive {
                        ensure!(a.exit_code == Some(0), "wrong-code", "{}: {:?}", what, a);
                        k.dead = true;
                        k.ttl = dt;
                    }
                }
                _ => return bad("unexpected-result", format!("{}: {}", what, show(&r))),
            }
            if it.kind == Kind::Runs {
                ensure!(running(k.id), "died", "{}: known, but not running", what);
            }
        }
        // what goes unused from here on goes away by itself
        let longest = ks.iter().flatten().filter(|k| k.here && k.ttl < Duration::from_secs(10)).map(|k| k.answered + k.ttl + per + SLACK).max();
        if let Some(t) = longest {
            let now = Instant::now();
            if t > now {
                std::thread::sleep(t - now);
            }
            for (i, k) in ks.iter().enumerate() {
                let k = match k {
                    Some(k) if k.here => k,
                    _ => continue,
                };
                let kind = c.items[i].kind;
                if kind == Kind::Runs {
                    let due = k.ttl < Duration::from_secs(10);
                    let is = if due { !wait_gone(k.id, Duration::from_millis(500)) } else { running(k.id) };
                    if is == due && stalled_ms(Duration::from_secs(8)) > 200 {
                        return env("stalled");
                    }
                    ensure!(is != due, if due { "not-evicted" } else { "died" }, "item {}: process {} running {} at the end (kept for {:?})", i, k.id, is, k.ttl);
                    evicted += due as usize;
                }
                let r = match kind {
                    Kind::File => ask(&mut rt, &mut cls[0], Request::ReadFile(request::ReadFileArgs { id: k.id, sig: k.sig }))?,
                    _ => ask(&mut rt, &mut cls[0], Request::ReadProcStatus(request::ReadProcStatusArgs { id: k.id }))?,
                };
                let gone = unknown_id(&r, k.id);
                if k.ttl < Duration::from_secs(10) {
                    if !gone && stalled_ms(Duration::from_secs(8)) > 200 {
                        return env("stalled");
                    }
                    ensure!(gone, "not-evicted", "item {} ({:?}) at the end: {}", i, kind, show(&r));
                    evicted += 1;
                } else if t_start.elapsed() < Duration::from_secs(40) {
                    ensure!(!gone, "evicted-early", "item {} ({:?}), kept for {:?}, is gone at the end", i, kind, k.ttl);
                }
            }
        }
        classes.sort();
        classes.dedup();
        let mut inf = Info::new().nt(evicted > 0 && uses > 1).class_if(kept_after_use > 2, "kept-by-use").class_if(evicted > 0, "evicted");
        for x in classes {
            inf = inf.class(x);
        }
        Ok(inf)
    })()
    .into()
}
/// The documented times, of a server that was given none: 2.5 min for files, 5 min for processes, 30 s for dead ones
fn defaults(c: &(Net, bool)) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let srv = Srv::with(SrvOpts::new(c.0, &Keys::plain()))?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let t0 = Instant::now();
        let mut thing = |rt: &mut Runtime, cl: &mut ConnectedClient, n: usize| -> R<(u32, u32)> {
            let path = scratch.path().join(format!("f{}", n)).display().to_string();
            let exec = |command: &str, args: Vec<String>| Request::ExecProc(request::ExecProcArgs { command: command.into(), args, stdin: false, stdout: true, stderr: false, current_dir: None });
            let r = match n / 2 {
                0 => ask(rt, cl, exec("true", vec![]))?,
                1 => ask(rt, cl, Request::OpenFile(request::OpenFileArgs { path, create_if_missing: true, write_access: true, read_access: true }))?,
                _ => ask(rt, cl, exec("sleep", vec!["600".into()]))?,
            };
            match r {
                Reply::FileOpened(a) => Ok((a.id, a.sig)),
                Reply::ProcStarted(a) => Ok((a.id, 0)),
                r => bad("not-started", show(&r)),
            }
        };
        let ids: Vec<(u32, u32)> = (0..6).map(|n| thing(&mut rt, &mut cl, n)).collect::<R<_>>()?;
        let status = |id: u32| Request::ReadProcStatus(request::ReadProcStatusArgs { id });
        std::thread::sleep(Duration::from_millis(300));
        for n in 0..2 {
            match ask(&mut rt, &mut cl, status(ids[n].0))? {
                Reply::ProcStatus(a) if !a.is_alive => (),
                r => return bad("not-dead", show(&r)),
            }
        }
        // (one clean-up a minute; each thing is looked at once, as that keeps it)
        for (at, n, here) in &[(27u64, 0usize, true), (97, 1, false), (146, 2, true), (217, 3, false), (296, 4, true), (367, 5, false)] {
            let due = t0 + Duration::from_secs(*at);
            while Instant::now() < due {
                if cancelled() {
                    return env("stopped");
                }
                std::thread::sleep(Duration::from_millis(100));
            }
            let (id, sig) = ids[*n];
            let r = ask(&mut rt, &mut cl, if n / 2 == 1 { Request::ReadFile(request::ReadFileArgs { id, sig }) } else { status(id) })?;
            ensure!(unknown_id(&r, id) != *here, if *here { "evicted-early" } else { "kept" }, "{} unused for {} s: {}", ["dead process", "file", "process"][n / 2], at, show(&r));
        }
        let _ = ask(&mut rt, &mut cl, Request::KillProc(request::KillProcArgs { id: ids[4].0 }));
        Ok(Info::new().nt(true))
    })()
    .into()
}

pub fn c16() -> Check {
    Check {
        rule: "a server with generated times to live and cleanup period; up to 8 files and processes, each used by two clients at generated times; non-trivial: something was evicted. Oracle: by the harness's clock, nothing used less than its time to live ago is gone, everything unused longer than that (plus one period and slack) is: file handles unknown and their place free, processes killed.",
        assumptions: vec!["eviction may come up to one cleanup period and 0.9 s late; stalls of the machine make the case inconclusive"],
        legs: vec![
            leg("keeping", o(70, 1500).threads(16).hang(120).shrink(90), keep, keeping),
            // (six minutes: not on every change)
            leg("defaults", o(0, 2).threads(2).hang(600).shrink(1), || (prop_oneof![Just(Net::Tcp), Just(Net::Udp)], any::<bool>()), defaults),
        ],
    }
}
