//! Compound requests: sequences, batches, their nesting, and the rules that carry values from one
//! operation to the next.
use crate::e2e::*;
use crate::fw::*;
use over_there::core::{reply, request, AskError, ConnectedClient, Content, Msg, Reply, ReplyError, Request};
use over_there::core::request::{LazilyTransformedRequest, TransformRule};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::Duration;
use tokio::runtime::Runtime;

fn show<T: std::fmt::Debug>(x: &T) -> String {
    clip(&format!("{:?}", x), 400)
}
fn ask(rt: &mut Runtime, c: &mut ConnectedClient, r: Request) -> R<Reply> {
    let what = clip(&format!("{:?}", r), 300);
    match rt.block_on(c.ask(r)) {
        Ok(x) => Ok(x),
        // (ask turns a plain error reply into this)
        Err(AskError::Failure { msg }) => Ok(Reply::Error(ReplyError::Generic(reply::GenericErrorArgs { msg }))),
        Err(AskError::Timeout) => lost("no-reply", format!("no reply to {}", what)),
        Err(e) => bad("ask-failed", format!("{}: {}", what, e)),
    }
}

// ------------------------------------------------------------------ C17, C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    Beat,
    Version,
    Caps,
    /// handled at once
    Custom(u8),
    /// refused by the handler
    Refused,
    /// takes a few milliseconds
    Slow(u8),
    /// fails in the file system
    NoFile,
    NoProc(u16),
    /// writes a file of its own
    Touch,
    /// no reply of its own
    Forward,
    /// the handler panics (in a batch only)
    Panic,
    /// an operation that waits for the effect of one after it (in a batch only), so many apart
    Meet(u8),
    Seq(Vec<Node>),
    Batch(Vec<Node>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ops {
    net: Net,
    handler: bool,
    root: Node,
}
fn node(batchy: bool) -> BoxedStrategy<Node> {
    let leaf = prop_oneof![
        2 => Just(Node::Beat),
        1 => Just(Node::Version),
        1 => Just(Node::Caps),
        10 => any::<u8>().prop_map(Node::Custom),
        2 => Just(Node::Refused),
        2 => any::<u8>().prop_map(Node::Slow),
        1 => Just(Node::NoFile),
        1 => any::<u16>().prop_map(Node::NoProc),
        3 => Just(Node::Touch),
        1 => Just(Node::Forward),
        if batchy { 2 } else { 1 } => Just(Node::Panic),
        if batchy { 2 } else { 1 } => prop_oneof![5 => 2..5u8, 1 => 10..70u8, 1 => 70..200u8].prop_map(Node::Meet),
    ];
    leaf.prop_recursive(7, 40, 6, move |inner| {
        prop_oneof![
            if batchy { 1 } else { 3 } => prop::collection::vec(inner.clone(), 0..7).prop_map(Node::Seq),
            if batchy { 3 } else { 1 } => prop::collection::vec(inner, 0..7).prop_map(Node::Batch),
        ]
    })
    .boxed()
}
fn ops(batchy: bool) -> impl Strategy<Value = Ops> {
    // (deep chains are rare in the above)
    let deep = (1..8usize, prop::collection::vec(any::<bool>(), 8), prop::collection::vec(node(batchy), 0..3)).prop_map(|(n, kinds, side)| {
        let mut x = Node::Seq(vec![Node::Custom(1), Node::Touch]);
        for k in 0..n {
            let mut v = vec![Node::Custom(k as u8), x];
            if k == 0 {
                v.extend(side.clone());
            }
            v.push(Node::Custom(100 + k as u8));
            x = if kinds[k] { Node::Seq(v) } else { Node::Batch(v) };
        }
        x
    });
    let root = prop::collection::vec(node(batchy), 1..7).prop_map(move |v| if batchy { Node::Batch(v) } else { Node::Seq(v) });
    // (and wide ones, hardly any of which fail)
    let wide = prop::collection::vec(prop_oneof![8 => any::<u8>().prop_map(Node::Custom), 4 => Just(Node::Touch), 2 => Just(Node::Version), 1 => prop::collection::vec(any::<u8>().prop_map(Node::Custom), 0..9).prop_map(Node::Seq), 1 => prop::collection::vec(any::<u8>().prop_map(Node::Custom), 0..9).prop_map(Node::Batch)], 7..150)
        .prop_map(move |v| if batchy { Node::Batch(v) } else { Node::Seq(v) });
    (prop_oneof![3 => Just(Net::Tcp), 1 => Just(Net::Udp)], prop::bool::weighted(0.85), prop_oneof![18 => root, 6 => deep, 6 => node(batchy), 1 => wide]).prop_map(|(net, handler, root)| Ops { net, handler, root })
}

/// A request with its expectation
struct Built {
    req: Request,
    tree: T,
}
enum T {
    Leaf { same: Option<Request>, want: Want, tag: Option<Vec<u8>>, file: Option<std::path::PathBuf> },
    Seq(Vec<T>),
    Batch(Vec<T>),
}
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Is(Reply),
    /// the same as when asked alone
    AsAlone,
    AnyError,
    Opened(String),
    Nothing,
    Panics,
}
struct Mk<'a> {
    n: u32,
    groups: u8,
    dir: &'a std::path::Path,
    handler: bool,
}
impl<'a> Mk<'a> {
    fn custom(&mut self, kind: u8, a: u8, b: u8) -> Built {
        self.custom_with(kind, a, b, b"")
    }
    fn custom_with(&mut self, kind: u8, a: u8, b: u8, more: &[u8]) -> Built {
        self.n += 1;
        let mut data = vec![kind, a, b, 0, 0xCC, (self.n >> 8) as u8, self.n as u8, 0x77];
        data.extend(more);
        let want = match (self.handler, kind) {
            (false, _) => Want::Nothing,
            (_, 5) => Want::Panics,
            _ => Want::Is(match custom_answer(&data) {
                Ok(data) => Reply::Custom(reply::CustomArgs { data }),
                Err(msg) => Reply::Error(ReplyError::Generic(reply::GenericErrorArgs { msg })),
            }),
        };
        Built { req: Request::Custom(request::CustomArgs { data: data.clone() }), tree: T::Leaf { same: None, want, tag: if self.handler { Some(data) } else { None }, file: None } }
    }
    fn leaf(&self, req: Request, want: Want) -> Built {
        let same = if want == Want::AsAlone { Some(req.clone()) } else { None };
        Built { req, tree: T::Leaf { same, want, tag: None, file: None } }
    }
    fn build(&mut self, n: &Node, parallel: bool) -> Vec<Built> {
        vec![match n {
            Node::Beat => self.leaf(Request::Heartbeat, Want::Is(Reply::Heartbeat)),
            Node::Version => self.leaf(Request::Version, Want::AsAlone),
            Node::Caps => self.leaf(Request::Capabilities, Want::AsAlone),
            Node::Custom(k) => self.custom(0, *k, 0),
            Node::Refused => self.custom(1, 0, 0),
            Node::Slow(ms) => self.custom(3, *ms % 12, 0),
            Node::NoFile => self.leaf(Request::ReadFile(request::ReadFileArgs { id: 77, sig: 1 }), Want::AsAlone),
            Node::NoProc(k) => self.leaf(Request::KillProc(request::KillProcArgs { id: 0x7000_0000 + *k as u32 }), Want::AsAlone),
            Node::Touch => {
                self.n += 1;
                let p = self.dir.join(format!("t{}", self.n));
                let s = p.display().to_string();
                let req = Request::OpenFile(request::OpenFileArgs { path: s.clone(), create_if_missing: true, write_access: true, read_access: true });
                Built { req, tree: T::Leaf { same: None, want: Want::Opened(s), tag: None, file: Some(p) } }
            }
            Node::Forward => self.leaf(Request::Forward(request::ForwardArgs { address: "127.0.0.1:9".parse().unwrap(), request: Box::new(Request::Heartbeat) }), Want::Nothing),
            Node::Panic => self.custom(5, 0, 0),
            Node::Meet(k) if parallel && self.handler => {
                self.groups += 1;
                let file = self.build(&Node::Touch, true).remove(0);
                let path = match &file.req {
                    Request::OpenFile(a) => a.path.clone(),
                    _ => unreachable!(),
                };
                let mut v = vec![self.custom_with(4, 0, 0, path.as_bytes())];
                for _ in 2..*k {
                    v.push(self.leaf(Request::Heartbeat, Want::Is(Reply::Heartbeat)));
                }
                v.push(file);
                return v;
            }
            Node::Meet(_) => self.custom(0, 1, 255),
            Node::Seq(v) => {
                let bs: Vec<Built> = v.iter().flat_map(|x| self.build(x, false)).collect();
                let (rs, ts): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (LazilyTransformedRequest::new(b.req, vec![]), b.tree)).unzip();
                Built { req: Request::Sequence(From::from(rs)), tree: T::Seq(ts) }
            }
            Node::Batch(v) => {
                let bs: Vec<Built> = v.iter().flat_map(|x| self.build(x, true)).collect();
                let (rs, ts): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.req, b.tree)).unzip();
                Built { req: Request::Batch(From::from(rs)), tree: T::Batch(ts) }
            }
        }]
    }
}
const DEPTH: usize = 5;
/// What has run, as far as the model knows
#[derive(Default)]
struct Run {
    tags: Vec<Vec<u8>>,
    not_tags: Vec<Vec<u8>>,
    files: Vec<std::path::PathBuf>,
    not_files: Vec<std::path::PathBuf>,
    /// (all of these end, before any of these begins)
    orders: Vec<(Vec<Vec<u8>>, Vec<Vec<u8>>)>,
    max_level: usize,
    panics: usize,
    ignored: usize,
    aborted: usize,
    nodes: usize,
}
fn all_tags(t: &T, out: &mut Vec<Vec<u8>>) {
    match t {
        T::Leaf { tag, .. } => out.extend(tag.clone()),
        T::Seq(v) | T::Batch(v) => v.iter().for_each(|x| all_tags(x, out)),
    }
}
fn all_files(t: &T, out: &mut Vec<std::path::PathBuf>) {
    match t {
        T::Leaf { file, .. } => out.extend(file.clone()),
        T::Seq(v) | T::Batch(v) => v.iter().for_each(|x| all_files(x, out)),
    }
}
/// Runs the model of `t` at `level`; None: it panics. `wants` is the shape of its result
#[derive(Debug)]
enum Res {
    Leaf(Want, Option<Request>),
    Error,
    Seq(Vec<Res>),
    Batch(Vec<Res>),
}
fn model(t: &T, level: usize, run: &mut Run) -> Option<Res> {
    run.max_level = run.max_level.max(level);
    run.nodes += 1;
    let skip = |t: &T, run: &mut Run| {
        all_tags(t, &mut run.not_tags);
        all_files(t, &mut run.not_files);
    };
    if level >= DEPTH {
        skip(t, run);
        return Some(Res::Error);
    }
    match t {
        T::Leaf { same, want, tag, file } => {
            run.tags.extend(tag.clone());
            run.files.extend(file.clone());
            if *want == Want::Panics {
                run.panics += 1;
                return None;
            }
            Some(Res::Leaf(want.clone(), same.clone()))
        }
        T::Seq(v) => {
            let mut out = vec![];
            let mut stop = false;
            let mut before: Option<Vec<Vec<u8>>> = None;
            let mut panicked = false;
            for x in v {
                if panicked {
                    skip(x, run);
                    continue;
                }
                if stop {
                    run.aborted += 1;
                    skip(x, run);
                    out.push(Res::Error);
                    continue;
                }
                let k = run.tags.len();
                let r = model(x, level + 1, run);
                let mine = run.tags[k..].to_vec();
                if let Some(b) = before.take() {
                    run.orders.push((b, mine.clone()));
                }
                before = Some(mine);
                match r {
                    None => panicked = true,
                    Some(r) => {
                        stop = match &r {
                            Res::Error => true,
                            Res::Leaf(Want::Nothing, _) => {
                                run.ignored += 1;
                                true
                            }
                            Res::Leaf(Want::Is(Reply::Error(_)), _) | Res::Leaf(Want::AnyError, _) => true,
                            Res::Leaf(Want::AsAlone, Some(q)) => matches!(q, Request::ReadFile(_) | Request::KillProc(_)),
                            _ => false,
                        };
                        out.push(r);
                    }
                }
            }
            if panicked {
                None
            } else {
                Some(Res::Seq(out))
            }
        }
        T::Batch(v) => Some(Res::Batch(
            v.iter()
                .map(|x| {
                    let r = model(x, level + 1, run).unwrap_or(Res::Error);
                    if let Res::Leaf(Want::Nothing, _) = r {
                        run.ignored += 1;
                    }
                    r
                })
                .collect(),
        )),
    }
}
fn compare(r: &Reply, want: &Res, at: &str, alone: &mut dyn FnMut(Request) -> R<Reply>) -> R<()> {
    match (want, r) {
        (Res::Error, Reply::Error(_)) => Ok(()),
        (Res::Leaf(Want::Is(x), _), r) if x == r => Ok(()),
        (Res::Leaf(Want::AnyError, _), Reply::Error(_)) => Ok(()),
        (Res::Leaf(Want::Nothing, _), Reply::Error(_)) => Ok(()),
        (Res::Leaf(Want::Opened(p), _), Reply::FileOpened(a)) if a.path == *p => Ok(()),
        (Res::Leaf(Want::AsAlone, Some(q)), r) => {
            let x = alone(q.clone())?;
            ensure!(x == *r, "differs-from-alone", "{}: {} but alone {}", at, show(r), show(&x));
            Ok(())
        }
        (Res::Seq(w), Reply::Sequence(a)) => {
            ensure!(w.len() == a.results.len(), "results-count", "{}: {} results for {} operations", at, a.results.len(), w.len());
            for (i, (w, r)) in w.iter().zip(&a.results).enumerate() {
                compare(r, w, &format!("{}/seq {}", at, i), alone)?;
            }
            Ok(())
        }
        (Res::Batch(w), Reply::Batch(a)) => {
            ensure!(w.len() == a.results.len(), "results-count", "{}: {} results for {} operations", at, a.results.len(), w.len());
            for (i, (w, r)) in w.iter().zip(&a.results).enumerate() {
                compare(r, w, &format!("{}/batch {}", at, i), alone)?;
            }
            Ok(())
        }
        (w, r) => bad("wrong-result", format!("{}: expected {}, got {}", at, show(w), show(r))),
    }
}
fn run_ops(c: &Ops) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let dir = scratch.path();
        let mut o = SrvOpts::new(c.net, &Keys::plain());
        o.custom = c.handler;
        let srv = Srv::with(o)?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let mut mk = Mk { n: 0, groups: 0, dir: &dir, handler: c.handler };
        let b = mk.build(&c.root, false).remove(0);
        let mut run = Run::default();
        let want = model(&b.tree, 0, &mut run);
        // a panic is contained by the batch around it, or else fails the whole request
        let outside = want.is_none();
        let want = want.unwrap_or(Res::Error);
        let what = show(&c.root);
        if let Res::Leaf(Want::Nothing, _) = want {
            // no reply, and the next question is answered
            let mut raw = Raw::connect(c.net, &Keys::plain(), srv.addr)?;
            let m = Msg::from(b.req.clone());
            let m2 = Msg::from(Request::Heartbeat);
            raw.send(&m)?;
            raw.send(&m2)?;
            return match raw.recv(PATIENCE)? {
                Got::Msg(x) if x.parent_header.as_ref() == Some(&m2.header) && x.content == Content::Reply(Reply::Heartbeat) => Ok(Info::new().class("no-reply")),
                Got::Msg(x) => bad("unexpected-reply", format!("{}: {}", what, show(&x))),
                g => lost("no-reply", format!("{}: {:?}", what, g)),
            };
        }
        let r = ask(&mut rt, &mut cl, b.req.clone())?;
        compare(&r, &want, "", &mut |q| ask(&mut rt, &mut cl, q))?;
        if outside {
            let x = ask(&mut rt, &mut cl, Request::Heartbeat)?;
            ensure!(x == Reply::Heartbeat, "wrong-result", "after {} a heartbeat gives {}", what, show(&x));
        }
        // what has run: each exactly once, the rest not at all
        let trace = srv.trace.lock().unwrap().clone();
        let log = srv.log();
        for t in &run.tags {
            let n = log.iter().filter(|x| *x == t).count();
            ensure!(n == 1, "run-count", "operation {:?} ran {} times in {}", t, n, what);
        }
        for t in &run.not_tags {
            ensure!(!log.contains(t), "ran-anyway", "operation {:?} ran although an earlier one failed or it is nested too deeply: {}", t, what);
        }
        for f in &run.files {
            ensure!(f.exists(), "not-run", "{:?} is missing: {}", f, what);
        }
        for f in &run.not_files {
            ensure!(!f.exists(), "ran-anyway", "{:?} was made although an earlier operation failed or it is nested too deeply: {}", f, what);
        }
        for (a, b) in &run.orders {
            let ends: Vec<usize> = a.iter().filter_map(|t| trace.iter().rposition(|(_, x)| x == t)).collect();
            let begins: Vec<usize> = b.iter().filter_map(|t| trace.iter().position(|(s, x)| *s && x == t)).collect();
            if let (Some(e), Some(s)) = (ends.iter().max(), begins.iter().min()) {
                ensure!(e < s, "out-of-order", "an operation of a sequence began before the one before it had ended: {}", what);
            }
        }
        Ok(Info::new()
            .nt(run.nodes > 2)
            .class_if(run.nodes > 30, "wide")
            .class_if(run.max_level >= DEPTH, "too-deep")
            .class_if(run.max_level >= 3, "nested")
            .class_if(run.aborted > 0, "aborted")
            .class_if(run.ignored > 0, "ignored-within")
            .class_if(run.panics > 0, "panics")
            .class_if(outside, "panics-outside-of-batches")
            .class_if(mk.groups > 0, "waiting-for-another")
            .class_if(!c.handler, "no-handler"))
    })()
    .into()
}
pub fn c17() -> Check {
    Check {
        rule: "trees of requests (leaves of 12 kinds, sequences and batches, up to 8 levels), mostly sequences, asked of a live server; non-trivial: more than two operations. Oracle: a recursive model gives the results by position, what runs (handler log and files: exactly once) and what does not (after a failure, below the depth limit), and that an operation begins after the one before it has ended.",
        assumptions: vec![],
        legs: vec![leg("sequences", o(9_000, 200_000).hang(120), || ops(false), run_ops), leg("carry", o(3_000, 60_000).hang(120), flow, run_flow), leg("chain", o(4_000, 100_000).hang(120), chain, run_chain)],
    }
}
pub fn c18() -> Check {
    Check {
        rule: "as C17, mostly batches, with operations that wait for the effect of a later one (answered only when run at the same time) and handlers that panic; non-trivial: more than two operations. Oracle: the same model.",
        assumptions: vec!["operations waiting for each other are given 6 s"],
        legs: vec![leg("batches", o(12_000, 250_000).hang(120), || ops(true), run_ops)],
    }
}

// ------------------------------------------------------------------ a sequence that works on what it opened
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flow {
    content: Vec<u8>,
    write: Option<Vec<u8>>,
    copy: bool,
    close: bool,
    /// the rule naming this step's signature points nowhere
    broken: Option<u8>,
}
fn flow() -> impl Strategy<Value = Flow> {
    (prop::collection::vec(any::<u8>(), 0..200), prop::option::of(prop::collection::vec(any::<u8>(), 0..200)), any::<bool>(), any::<bool>(), prop::option::weighted(0.2, any::<u8>()))
        .prop_map(|(content, write, copy, close, broken)| Flow { content, write, copy, close, broken })
}
fn rule(p: &str, v: &str) -> TransformRule {
    TransformRule { path: p.into(), value: v.into() }
}
fn run_flow(c: &Flow) -> Verdict {
    (|| -> R<Info> {
        let scratch = Scratch::new()?;
        let f = scratch.path().join("f");
        std::fs::write(&f, &c.content).map_err(|e| Bad::Env(e.to_string()))?;
        give(&f);
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let p = f.display().to_string();
        let (id, sig) = ("$.payload.id", "$.payload.sig");
        let mut ops = vec![LazilyTransformedRequest::new(Request::OpenFile(request::OpenFileArgs { path: p, create_if_missing: false, write_access: true, read_access: true }), vec![rule("$.payload.path", "$.nonsense")])];
        let mut expect: Vec<&str> = vec!["open"];
        if let Some(w) = &c.write {
            ops.push(LazilyTransformedRequest::new(Request::WriteFile(request::WriteFileArgs { id: 0, sig: 0, contents: w.clone() }), vec![rule(id, id), rule(sig, sig)]));
            expect.push("write");
        }
        if c.copy {
            // the id of the last reply, as the length-one content of a custom request
            ops.push(LazilyTransformedRequest::new(Request::Custom(request::CustomArgs { data: vec![0, 2, 3, 4] }), vec![]));
            expect.push("custom");
            ops.push(LazilyTransformedRequest::new(Request::Custom(request::CustomArgs { data: vec![9, 9] }), vec![rule("$.payload.data", "$.payload.data")]));
            expect.push("custom2");
        } else if c.close {
            ops.push(LazilyTransformedRequest::new(Request::CloseFile(request::CloseFileArgs { id: 0, sig: 0 }), vec![rule(sig, sig), rule(id, id)]));
            expect.push("close");
        } else {
            ops.push(LazilyTransformedRequest::new(Request::ReadFile(request::ReadFileArgs { id: 0, sig: 0 }), vec![rule(id, id), rule(sig, sig)]));
            expect.push("read");
        }
        let mut fail_at = None;
        if let Some(k) = c.broken {
            let k = 1 + k as usize % (ops.len() - 1);
            ops[k].rules.push(rule("$.payload.id", "$.payload.nowhere"));
            fail_at = Some(k);
        }
        let r = ask(&mut rt, &mut cl, Request::Sequence(From::from(ops)))?;
        let res = match r {
            Reply::Sequence(a) => a.results,
            r => return bad("wrong-result", show(&r)),
        };
        ensure!(res.len() == expect.len(), "results-count", "{} results for {} operations", res.len(), expect.len());
        let (mut fid, mut fsig) = (0, 0);
        for (i, (r, e)) in res.iter().zip(&expect).enumerate() {
            if fail_at.map(|k| i >= k).unwrap_or(false) {
                ensure!(matches!(r, Reply::Error(_)), "ran-anyway", "step {} {}: {}", i, e, show(r));
                continue;
            }
            match (*e, r) {
                ("open", Reply::FileOpened(a)) => {
                    fid = a.id;
                    fsig = a.sig
                }
                ("write", Reply::FileWritten(a)) => {
                    ensure!(a.id == fid && a.sig != fsig, "wrong-result", "write: {}", show(a));
                    fsig = a.sig
                }
                ("read", Reply::FileContents(a)) => ensure!(a.id == fid && Some(&a.contents) == c.write.as_ref().or(Some(&c.content)), "wrong-result", "read {}", show(a)),
                ("close", Reply::FileClosed(a)) => ensure!(a.id == fid, "wrong-result", "close {}", show(a)),
                ("custom", Reply::Custom(a)) => ensure!(a.data == vec![4, 3, 2, 0], "wrong-result", "custom {}", show(a)),
                ("custom2", Reply::Custom(a)) => ensure!(a.data == vec![0, 2, 3, 4], "wrong-result", "custom with carried data {}", show(a)),
                _ => return bad("wrong-result", format!("step {} {}: {}", i, e, show(r))),
            }
        }
        let now = std::fs::read(&f).unwrap_or_default();
        let wrote = c.write.is_some() && fail_at.map(|k| k > 1).unwrap_or(true);
        ensure!(now == if wrote { c.write.clone().unwrap() } else { c.content.clone() }, "wrong-file", "the file holds {:?}", clip(&format!("{:?}", now), 100));
        Ok(Info::new().nt(true).class_if(fail_at.is_some(), "broken-rule").class_if(wrote, "wrote"))
    })()
    .into()
}

// ------------------------------------------------------------------ what is carried comes from the operation just before
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Did {
    Beat,
    Version,
    Caps,
    Custom(Vec<u8>),
    /// (a sequence within: its first operation has none before it)
    Seq(Vec<Hop>),
    Batch(Vec<Vec<u8>>),
}
/// Where a custom operation takes its data from (only what comes before decides whether that exists)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pick {
    Data,
    /// of one of the results within the reply before
    Within(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hop {
    did: Did,
    pick: Option<Pick>,
}
fn hop() -> BoxedStrategy<Hop> {
    // (bytes below 6 would steer the handler, and it reverses)
    let data = || prop::collection::vec(6..=255u8, 0..5);
    let pick = || prop::option::weighted(0.6, prop_oneof![3 => Just(Pick::Data), 2 => (0..3u8).prop_map(Pick::Within)]);
    let leaf = prop_oneof![
        2 => Just(Did::Beat),
        1 => Just(Did::Version),
        1 => Just(Did::Caps),
        8 => data().prop_map(Did::Custom),
        2 => prop::collection::vec(data(), 0..4).prop_map(Did::Batch),
    ];
    let hop = (leaf, pick()).prop_map(|(did, pick)| Hop { did, pick });
    hop.prop_recursive(2, 16, 5, move |inner| (prop::collection::vec(inner, 0..5), pick()).prop_map(|(v, pick)| Hop { did: Did::Seq(v), pick })).boxed()
}
fn chain() -> impl Strategy<Value = Vec<Hop>> {
    prop::collection::vec(hop(), 1..8)
}
fn hop_op(h: &Hop) -> LazilyTransformedRequest {
    let custom = |d: &Vec<u8>| Request::Custom(request::CustomArgs { data: d.clone() });
    let req = match &h.did {
        Did::Beat => Request::Heartbeat,
        Did::Version => Request::Version,
        Did::Caps => Request::Capabilities,
        Did::Custom(d) => custom(d),
        Did::Seq(v) => Request::Sequence(From::from(v.iter().map(hop_op).collect::<Vec<_>>())),
        Did::Batch(v) => Request::Batch(From::from(v.iter().map(custom).collect::<Vec<_>>())),
    };
    let rules = match (&h.did, &h.pick) {
        (Did::Custom(_), Some(Pick::Data)) => vec![rule("$.payload.data", "$.payload.data")],
        (Did::Custom(_), Some(Pick::Within(k))) => vec![rule("$.payload.data", &format!("$.payload.results[{}].payload.data", k))],
        _ => vec![],
    };
    LazilyTransformedRequest::new(req, rules)
}
/// What an operation of a chain replies
#[derive(Clone, Debug, PartialEq)]
enum Back {
    Beat,
    Version,
    Caps,
    Data(Vec<u8>),
    Seq(Vec<Back>),
    Batch(Vec<Back>),
    Err,
}
fn expect_chain(v: &[Hop], carried: &mut usize, failed: &mut usize) -> Vec<Back> {
    let mut out: Vec<Back> = vec![];
    let rev = |d: &[u8]| Back::Data(d.iter().rev().cloned().collect());
    for h in v {
        let prev = out.last().cloned();
        let b = match (&h.did, prev) {
            (_, Some(Back::Err)) => Back::Err,
            (Did::Beat, _) => Back::Beat,
            (Did::Version, _) => Back::Version,
            (Did::Caps, _) => Back::Caps,
            (Did::Batch(v), _) => Back::Batch(v.iter().map(|d| rev(d)).collect()),
            (Did::Seq(v), _) => Back::Seq(expect_chain(v, carried, failed)),
            (Did::Custom(d), prev) => match (&h.pick, prev) {
                (None, _) | (_, None) => rev(d),
                (Some(Pick::Data), Some(Back::Data(x))) => {
                    *carried += 1;
                    rev(&x)
                }
                (Some(Pick::Within(k)), Some(Back::Seq(r))) | (Some(Pick::Within(k)), Some(Back::Batch(r))) => match r.get(*k as usize) {
                    Some(Back::Data(x)) => {
                        *carried += 1;
                        rev(x)
                    }
                    _ => Back::Err,
                },
                _ => Back::Err,
            },
        };
        if b == Back::Err {
            *failed += 1
        }
        out.push(b);
    }
    out
}
fn back(r: &Reply) -> Option<Back> {
    Some(match r {
        Reply::Heartbeat => Back::Beat,
        Reply::Version(_) => Back::Version,
        Reply::Capabilities(_) => Back::Caps,
        Reply::Custom(a) => Back::Data(a.data.clone()),
        Reply::Sequence(a) => Back::Seq(a.results.iter().map(back).collect::<Option<_>>()?),
        Reply::Batch(a) => Back::Batch(a.results.iter().map(back).collect::<Option<_>>()?),
        Reply::Error(_) => Back::Err,
        _ => return None,
    })
}
fn run_chain(c: &Vec<Hop>) -> Verdict {
    (|| -> R<Info> {
        let srv = Srv::start(Net::Tcp, &Keys::plain())?;
        let mut rt = local_runtime();
        let mut cl = srv.client(&mut rt)?;
        let r = ask(&mut rt, &mut cl, Request::Sequence(From::from(c.iter().map(hop_op).collect::<Vec<_>>())))?;
        let (mut carried, mut failed) = (0, 0);
        let want = expect_chain(c, &mut carried, &mut failed);
        ensure!(back(&r) == Some(Back::Seq(want.clone())), "wrong-carry", "expected {}, got {}", show(&want), show(&r));
        Ok(Info::new().nt(carried > 0).class_if(carried > 1, "carried-on").class_if(failed > 0, "nothing-to-carry"))
    })()
    .into()
}

// ------------------------------------------------------------------ C19
/// One step of a path
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    Key(String),
    Quoted(String),
    Idx(usize),
    /// every element of an array
    Wild,
}
fn render(p: &[Seg]) -> String {
    let mut s = "$".to_string();
    for x in p {
        match x {
            Seg::Key(k) => s.push_str(&format!(".{}", k)),
            Seg::Quoted(k) => s.push_str(&format!("['{}']", k)),
            Seg::Idx(i) => s.push_str(&format!("[{}]", i)),
            Seg::Wild => s.push_str("[*]"),
        }
    }
    s
}
/// The places a path leads to
fn resolve(v: &Value, p: &[Seg]) -> Vec<Vec<Seg>> {
    fn go(v: &Value, p: &[Seg], here: Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
        let (s, rest) = match p.split_first() {
            None => return out.push(here),
            Some(x) => x,
        };
        let mut step = |k: Seg, v: &Value| {
            let mut h = here.clone();
            h.push(k);
            go(v, rest, h, out);
        };
        match (s, v) {
            (Seg::Key(k), Value::Object(m)) | (Seg::Quoted(k), Value::Object(m)) => {
                if let Some(x) = m.get(k) {
                    step(Seg::Key(k.clone()), x)
                }
            }
            (Seg::Idx(i), Value::Array(a)) => {
                if let Some(x) = a.get(*i) {
                    step(Seg::Idx(*i), x)
                }
            }
            (Seg::Wild, Value::Array(a)) => a.iter().enumerate().for_each(|(i, x)| step(Seg::Idx(i), x)),
            _ => {}
        }
    }
    let mut out = vec![];
    go(v, p, vec![], &mut out);
    out
}
fn at<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Value {
    match p.split_first() {
        None => v,
        Some((Seg::Key(k), r)) | Some((Seg::Quoted(k), r)) => at(&mut v[k.as_str()], r),
        Some((Seg::Idx(i), r)) => at(&mut v[*i], r),
        Some((Seg::Wild, _)) => unreachable!(),
    }
}
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.is_empty() || y.is_empty() || alike(&x[0], &y[0]),
        (Value::Object(x), Value::Object(y)) => x.keys().eq(y.keys()),
        (Value::Number(_), Value::Number(_)) | (Value::String(_), Value::String(_)) | (Value::Bool(_), Value::Bool(_)) | (Value::Null, Value::Null) => true,
        _ => false,
    }
}
/// Every place in a value
fn places(v: &Value) -> Vec<Vec<Seg>> {
    let mut out = vec![];
    fn go(v: &Value, here: Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| {
                let mut h = here.clone();
                h.push(Seg::Key(k.clone()));
                go(x, h, out)
            }),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
                let mut h = here.clone();
                h.push(Seg::Idx(i));
                go(x, h, out)
            }),
            _ => {}
        }
        if !here.is_empty() {
            out.push(here)
        }
    }
    go(v, vec![], &mut out);
    out
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rules {
    req: u8,
    rep: u8,
    seed: u64,
    /// (pick of the place, mutation of the path) for the request and the reply
    rules: Vec<((u16, u8), (u16, u8), bool)>,
}
fn bend(mut p: Vec<Seg>, how: u8) -> Vec<Seg> {
    let n = p.len();
    match how % 12 {
        0 => p.push(Seg::Key("missing".into())),
        1 => {
            if let Some(Seg::Idx(_)) = p.last() {
                p[n - 1] = Seg::Wild
            }
        }
        2 => {
            if let Some(Seg::Idx(i)) = p.last() {
                p[n - 1] = Seg::Idx(i + 1000)
            }
        }
        3 => {
            let k = how as usize / 12 % n;
            if let Seg::Key(x) = &p[k] {
                p[k] = Seg::Quoted(x.clone())
            }
        }
        4 => p[n - 1] = Seg::Key("nowhere".into()),
        5 => {
            for x in p.iter_mut() {
                if let Seg::Idx(_) = x {
                    *x = Seg::Wild;
                    break;
                }
            }
        }
        _ => {}
    }
    p
}
fn transform(c: &Rules) -> Verdict {
    (|| -> R<Info> {
        let mut g = crate::gen::Gen::new(c.seed);
        let req = g.request_kind(c.req, 2);
        let rep = g.reply_kind(c.rep, 2);
        let mut v = serde_json::to_value(&req).map_err(|e| Bad::Env(e.to_string()))?;
        let rv = serde_json::to_value(&rep).map_err(|e| Bad::Env(e.to_string()))?;
        let (rp, sp) = (places(&v), places(&rv));
        let pick = |ps: &Vec<Vec<Seg>>, k: u16, same: Option<&Vec<Seg>>| -> Vec<Seg> {
            match same {
                Some(x) if ps.contains(x) => x.clone(),
                _ => ps[k as usize % ps.len()].clone(),
            }
        };
        let mut rules = vec![];
        let mut paths = vec![];
        for ((a, ab), (b, bb), same) in &c.rules {
            // (mostly a place of the same shape, so that the outcome can be a request)
            let inner: Vec<Vec<Seg>> = rp.iter().filter(|p| p.last() != Some(&Seg::Key("type".into())) && p.len() > 1).cloned().collect();
            let dst = if inner.is_empty() || *a % 16 == 0 { pick(&rp, *a / 16, None) } else { pick(&inner, *a / 16, None) };
            let like: Vec<Vec<Seg>> = sp.iter().filter(|p| alike(at(&mut rv.clone(), p), at(&mut v.clone(), &dst))).cloned().collect();
            let src = if *same && !like.is_empty() { pick(&like, *b, None) } else { pick(&sp, *b, if *b % 4 == 0 { Some(&dst) } else { None }) };
            let (dst, src) = (bend(dst, *ab), bend(src, *bb));
            rules.push(rule(&render(&dst), &render(&src)));
            paths.push((dst, src));
        }
        let lazy = LazilyTransformedRequest::new(req.clone(), rules.clone());
        ensure!(lazy.clone().into_raw_request() == req, "raw-differs", "the raw request is not the one given");
        let got = lazy.transform_with_reply(&rep);
        let mut err = None;
        let mut changed = 0;
        let mut missing = false;
        for (dst, src) in &paths {
            let found = resolve(&rv, src);
            match found.len() {
                0 => {
                    err = Some("missing");
                    break;
                }
                1 => {}
                _ => {
                    err = Some("several");
                    break;
                }
            }
            let mut rv2 = rv.clone();
            let x = at(&mut rv2, &found[0]).clone();
            let to = resolve(&v, dst);
            missing |= to.is_empty();
            for t in to {
                *at(&mut v, &t) = x.clone();
                changed += 1;
            }
        }
        let what = || format!("request {} reply {} rules {:?}", show(&req), show(&rep), rules);
        let want: Result<Request, String> = match err {
            Some(e) => Err(e.into()),
            None => serde_json::from_value(v.clone()).map_err(|e| e.to_string()),
        };
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(a == b, "wrong-request", "{}: got {}, expected {}", what(), show(a), show(b)),
            (Err(_), Err(_)) => {}
            // a place the request does not have: refusing is as good as leaving the request alone
            (Err(_), Ok(_)) if missing => {}
            (Ok(a), Err(e)) => return bad("accepted", format!("{}: got {}, expected a refusal ({})", what(), show(a), e)),
            (Err(e), Ok(b)) => return bad("refused", format!("{}: refused ({:?}), expected {}", what(), e, show(b))),
        }
        ensure!(lazy.into_raw_request() == req, "raw-differs", "transforming changed the raw request");
        Ok(Info::new()
            .nt(changed > 0 || err.is_some())
            .class_if(got.is_ok() && changed > 0, "replaced")
            .class_if(err == Some("missing"), "value-missing")
            .class_if(err == Some("several"), "value-not-single")
            .class_if(changed > 1, "several-places")
            .class_if(got.is_ok() && c.rules.len() > 9, "over-9-rules")
            .class_if(err.is_none() && got.is_err(), "not-a-request"))
    })()
    .into()
}
pub fn c19() -> Check {
    Check {
        rule: "(request, reply, rules whose paths come from places in both, some bent to miss or to match several); non-trivial: a place was replaced or a rule had to fail. Oracle: a separate evaluator of the paths over the JSON of both; refusal where a value is missing or not single, or the outcome is no request.",
        assumptions: vec!["paths of keys, indexes and [*]; serde_json"],
        legs: vec![leg("rules", o(150_000, 4_000_000), || {
            let b = || prop_oneof![3 => Just(11u8), 1 => any::<u8>()];
            let many = prop::collection::vec(((any::<u16>(), Just(11u8)), (any::<u16>(), Just(11u8)), prop::bool::weighted(0.99)), 5..40);
            (any::<u8>(), any::<u8>(), any::<u64>(), prop_oneof![15 => prop::collection::vec(((any::<u16>(), b()), (any::<u16>(), b()), prop::bool::weighted(0.85)), 0..5), 1 => many])
                .prop_map(|(req, rep, seed, rules)| Rules { req, rep, seed, rules })
        }, transform)],
    }
}
#[allow(dead_code)]
const _: Duration = Duration::from_secs(0);
