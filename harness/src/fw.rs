//! Search engine shared by every check: seeded generation, sharding, shrinking,
//! replay files, known findings, evidence and the watchdog.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one case showed.
#[derive(Clone, Debug)]
pub enum Verdict {
    Pass(Info),
    /// `sig` names the kind of failure (stable, used for known findings)
    Fail { sig: String, msg: String },
    /// The environment prevented a decision (never a violation)
    Inconclusive(String),
}

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}

impl Info {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn nt(mut self, b: bool) -> Self {
        self.nontrivial = self.nontrivial || b;
        self
    }
    pub fn class<S: Into<String>>(mut self, s: S) -> Self {
        let s = s.into();
        if !self.classes.contains(&s) {
            self.classes.push(s);
        }
        self
    }
    pub fn class_if<S: Into<String>>(self, b: bool, s: S) -> Self {
        if b {
            self.class(s)
        } else {
            self
        }
    }
    pub fn pass(self) -> Verdict {
        Verdict::Pass(self)
    }
}

pub fn fail<S: Into<String>, M: Into<String>>(sig: S, msg: M) -> Verdict {
    Verdict::Fail { sig: sig.into(), msg: msg.into() }
}

/// A failure inside a helper: becomes `Verdict::Fail`, or inconclusive.
#[derive(Clone, Debug)]
pub enum Bad {
    Fail(String, String),
    Env(String),
}
pub type R<T> = Result<T, Bad>;
pub fn bad<T, S: Into<String>, M: Into<String>>(sig: S, msg: M) -> R<T> {
    Err(Bad::Fail(sig.into(), msg.into()))
}
pub fn env<T, M: Into<String>>(msg: M) -> R<T> {
    Err(Bad::Env(msg.into()))
}
impl From<R<Info>> for Verdict {
    fn from(r: R<Info>) -> Self {
        match r {
            Ok(i) => Verdict::Pass(i),
            Err(Bad::Fail(s, m)) => Verdict::Fail { sig: s, msg: m },
            Err(Bad::Env(m)) => Verdict::Inconclusive(m),
        }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::fw::bad($sig, format!($($a)*)); } };
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
}

#[derive(Default)]
pub struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    inconclusive: Vec<String>,
    known: BTreeMap<String, String>,
}

struct Found {
    leg: String,
    sig: String,
    msg: String,
    path: PathBuf,
    shrunk: bool,
}

struct Busy {
    leg: String,
    since: Instant,
    case: String,
}

/// Process-wide state (watchdog needs to see it)
struct Global {
    found: Mutex<Option<Found>>,
    cancel: AtomicBool,
    busy: Mutex<BTreeMap<u64, Busy>>,
    control: Mutex<BTreeMap<String, String>>,
    panics: Mutex<Vec<(String, String)>>,
}
lazy_global!(G, Global, Global {
    found: Mutex::new(None),
    cancel: AtomicBool::new(false),
    busy: Mutex::new(BTreeMap::new()),
    control: Mutex::new(BTreeMap::new()),
    panics: Mutex::new(Vec::new()),
});

#[macro_export]
macro_rules! lazy_global {
    ($n:ident, $t:ty, $e:expr) => {
        #[allow(non_snake_case)]
        fn $n() -> &'static $t {
            static C: std::sync::OnceLock<$t> = std::sync::OnceLock::new();
            C.get_or_init(|| $e)
        }
    };
}
use lazy_global;

pub fn cancelled() -> bool {
    G().cancel.load(Ordering::SeqCst)
}

/// Panics raised on threads named after this shard since the last call
pub fn take_panics() -> Vec<String> {
    let me = shard_name();
    let mut g = G().panics.lock().unwrap();
    let (mine, rest): (Vec<_>, Vec<_>) = g.drain(..).partition(|(n, _)| n == &me);
    *g = rest;
    mine.into_iter().map(|x| x.1).collect()
}
pub fn shard_name() -> String {
    std::thread::current().name().unwrap_or("main").to_string()
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("OTV_TRACE").is_ok() {
            eprintln!("panic on {}: {} at {}", shard_name(), m, loc);
        }
        if let Ok(mut g) = G().panics.lock() {
            if g.len() < 1000 {
                g.push((shard_name(), format!("{} at {}", m, loc)));
            }
        }
    }));
}

fn payload(e: Box<dyn Any + Send>) -> String {
    e.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// Runs `f`, returning Err(message) if it panicked
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(payload)
}

fn guarded<C>(test: &(dyn Fn(&C) -> Verdict + Send + Sync), c: &C) -> Verdict {
    let _ = take_panics();
    let v = match panic::catch_unwind(AssertUnwindSafe(|| test(c))) {
        Ok(v) => v,
        Err(e) => {
            let ps = take_panics();
            let all = ps.join(" | ");
            if all.contains("harness/src") || (all.is_empty()) {
                return Verdict::Inconclusive(format!("harness panic: {} {}", payload(e), all));
            }
            return fail("panic", format!("panicked: {}", all));
        }
    };
    let ps = take_panics();
    if let Verdict::Pass(_) = v {
        if let Some(p) = ps.iter().find(|p| p.contains("/repo/src") || p.contains("repo/src/")) {
            return fail("task-panic", format!("a background task panicked: {}", p));
        }
    }
    v
}

pub struct Leg {
    pub name: &'static str,
    run: Box<dyn Fn(&Ctx, &[Known]) -> Stats + Send + Sync>,
    replay: Box<dyn Fn(&Ctx, Value) -> Result<Verdict, String> + Send + Sync>,
}

#[derive(Clone)]
pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

fn load_known(root: &PathBuf) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("known: ") {
                let mut p = String::new();
                let mut sg = String::new();
                let mut rest = vec![];
                for w in r.split(' ') {
                    if let (Some(x), true) = (w.strip_prefix("property="), p.is_empty()) {
                        p = x.into()
                    } else if let (Some(x), true) = (w.strip_prefix("sig="), sg.is_empty()) {
                        sg = x.into()
                    } else {
                        rest.push(w)
                    }
                }
                out.push(Known { prop: p, sig: sg, text: rest.join(" ") });
            }
        }
    }
    out
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Opts {
    pub quick: u64,
    pub thorough: u64,
    pub threads: u64,
    pub shrink_secs: u64,
    /// A single case running longer than this is looked at by the watchdog
    pub hang_secs: u64,
    /// Thorough tier stops generating after this many seconds
    pub max_secs: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { quick: 1000, thorough: 20000, threads: 8, shrink_secs: 30, hang_secs: 60, max_secs: 500 }
    }
}
pub fn o(quick: u64, thorough: u64) -> Opts {
    Opts { quick, thorough, ..Default::default() }
}
impl Opts {
    pub fn threads(mut self, t: u64) -> Self {
        self.threads = t;
        self
    }
    pub fn hang(mut self, t: u64) -> Self {
        self.hang_secs = t;
        self
    }
    pub fn shrink(mut self, t: u64) -> Self {
        self.shrink_secs = t;
        self
    }
}

static BUSY_ID: AtomicU64 = AtomicU64::new(1);

pub fn leg<C, S>(
    name: &'static str,
    opts: Opts,
    strat: impl Fn() -> S + Send + Sync + 'static,
    test: impl Fn(&C) -> Verdict + Send + Sync + 'static,
) -> Leg
where
    C: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
    S: Strategy<Value = C> + 'static,
{
    let test: Arc<dyn Fn(&C) -> Verdict + Send + Sync> = Arc::new(test);
    let strat = Arc::new(strat);
    let t2 = Arc::clone(&test);
    Leg {
        name,
        run: Box::new(move |ctx, known| {
            let n = if ctx.thorough { opts.thorough } else { opts.quick };
            let scale: f64 = std::env::var("OTV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let n = ((n as f64) * scale).ceil() as u64;
            let shards = opts.threads.min(n).max(1);
            let total = Arc::new(Mutex::new(Stats::default()));
            let mut hs = vec![];
            let t_start = Instant::now();
            for sh in 0..shards {
                let (ctx, known, test, strat, total) =
                    (ctx.clone(), known.to_vec(), Arc::clone(&test), Arc::clone(&strat), Arc::clone(&total));
                let per = n / shards + if sh < n % shards { 1 } else { 0 };
                let (shrink_secs, hang, max_secs) = (opts.shrink_secs, opts.hang_secs, opts.max_secs);
                let h = std::thread::Builder::new()
                    .name(format!("{}-{}", name, sh))
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let mut seed = [0u8; 32];
                        for (i, c) in seed.chunks_mut(8).enumerate() {
                            c.copy_from_slice(
                                &mix(mix(ctx.seed, hash_str(&ctx.prop) ^ hash_str(name)), sh * 64 + i as u64).to_le_bytes(),
                            );
                        }
                        let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let strat = strat();
                        let mut st = Stats::default();
                        let id = BUSY_ID.fetch_add(1, Ordering::SeqCst);
                        let note = Note::new(&ctx, name, id as u64);
                        for _ in 0..per {
                            if cancelled() {
                                break;
                            }
                            if ctx.thorough && t_start.elapsed() > Duration::from_secs(max_secs) {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    st.inconclusive.push(format!("generation failed: {:?}", e));
                                    break;
                                }
                            };
                            let case = tree.current();
                            let js = serde_json::to_string(&case).unwrap();
                            G().busy.lock().unwrap().insert(
                                id,
                                Busy { leg: name.into(), since: Instant::now() + Duration::from_secs(hang) , case: js.clone() },
                            );
                            note.put(&js);
                            let v = guarded(&*test, &case);
                            note.put("");
                            G().busy.lock().unwrap().remove(&id);
                            st.evals += 1;
                            match v {
                                Verdict::Pass(info) => {
                                    for c in &info.classes {
                                        *st.classes.entry(format!("{}:{}", name, c)).or_default() += 1;
                                    }
                                    if info.nontrivial {
                                        st.distinct.insert(hash_str(&js) ^ hash_str(name));
                                        if st.samples.len() < 2 && js.len() < 1500 {
                                            st.samples.push(json!({"leg": name, "case": serde_json::from_str::<Value>(&js).unwrap()}));
                                        }
                                    }
                                    let mut c = G().control.lock().unwrap();
                                    if !c.contains_key(name) {
                                        c.insert(name.into(), js);
                                    }
                                }
                                Verdict::Inconclusive(m) => {
                                    if st.inconclusive.len() < 20 {
                                        st.inconclusive.push(format!("{}: {}", name, m));
                                    }
                                }
                                Verdict::Fail { sig, msg } => {
                                    if let Some(k) = known.iter().find(|k| k.prop == ctx.prop && k.sig == sig) {
                                        st.known.insert(sig.clone(), k.text.clone());
                                        continue;
                                    }
                                    if !claim(&ctx, name, &sig, &msg, &js) {
                                        break;
                                    }
                                    // shrink
                                    let t0 = Instant::now();
                                    let mut best = (case.clone(), sig, msg);
                                    let mut more = tree.simplify();
                                    let mut iters = 0;
                                    while more && t0.elapsed() < Duration::from_secs(shrink_secs) && iters < 4000 {
                                        iters += 1;
                                        let c = tree.current();
                                        note.put(&serde_json::to_string(&c).unwrap());
                                        match guarded(&*test, &c) {
                                            Verdict::Fail { sig, msg }
                                                if !known.iter().any(|k| k.prop == ctx.prop && k.sig == sig) =>
                                            {
                                                best = (c, sig, msg);
                                                more = tree.simplify();
                                            }
                                            _ => more = tree.complicate(),
                                        }
                                    }
                                    let js = serde_json::to_string(&best.0).unwrap();
                                    update(&ctx, name, &best.1, &best.2, &js);
                                    break;
                                }
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.evals += st.evals;
                        t.distinct.extend(st.distinct);
                        for (k, v) in st.classes {
                            *t.classes.entry(k).or_default() += v;
                        }
                        t.samples.extend(st.samples);
                        t.inconclusive.extend(st.inconclusive);
                        t.known.extend(st.known);
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                if h.join().is_err() {
                    total.lock().unwrap().inconclusive.push(format!("{}: shard thread died", name));
                }
            }
            let mut g = total.lock().unwrap();
            std::mem::take(&mut *g)
        }),
        replay: Box::new(move |_ctx, v| {
            let c: C = serde_json::from_value(v).map_err(|e| e.to_string())?;
            Ok(guarded(&*t2, &c))
        }),
    }
}

fn replay_path(ctx: &Ctx, leg: &str) -> PathBuf {
    let d = ctx.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}.json", ctx.prop, leg))
}
fn write_replay(p: &PathBuf, ctx: &Ctx, leg: &str, sig: &str, msg: &str, js: &str) {
    let v = json!({"property": ctx.prop, "leg": leg, "sig": sig, "message": msg,
        "case": serde_json::from_str::<Value>(js).unwrap_or(Value::Null),
        "run": format!("/verif/check.sh {} --replay {}", ctx.prop, p.display())});
    let _ = std::fs::write(p, serde_json::to_string_pretty(&v).unwrap());
}
fn claim(ctx: &Ctx, leg: &str, sig: &str, msg: &str, js: &str) -> bool {
    let mut f = G().found.lock().unwrap();
    if f.is_some() {
        return false;
    }
    G().cancel.store(true, Ordering::SeqCst);
    let path = replay_path(ctx, leg);
    write_replay(&path, ctx, leg, sig, msg, js);
    eprintln!("[{}] {} failed ({}): {} -- shrinking", ctx.prop, leg, sig, clip(msg, 600));
    *f = Some(Found { leg: leg.into(), sig: sig.into(), msg: msg.into(), path, shrunk: false });
    true
}
fn update(ctx: &Ctx, leg: &str, sig: &str, msg: &str, js: &str) {
    let mut f = G().found.lock().unwrap();
    if let Some(f) = f.as_mut() {
        write_replay(&f.path, ctx, leg, sig, msg, js);
        f.sig = sig.into();
        f.msg = msg.into();
        f.shrunk = true;
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    }
}

fn spawn_watchdog(ctx: Ctx, limit: Duration) {
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let overdue = {
            let b = G().busy.lock().unwrap();
            b.values()
                .find(|x| Instant::now() > x.since)
                .map(|x| (x.leg.clone(), x.case.clone()))
        };
        if let Some((leg, case)) = overdue {
            // Is it the code under test that never comes back, or the machine?
            if G().found.lock().unwrap().is_none() {
                G().cancel.store(true, Ordering::SeqCst);
                let p = ctx.root.join("replays").join(format!("{}-{}-hang.json", ctx.prop, leg));
                let _ = std::fs::create_dir_all(ctx.root.join("replays"));
                write_replay(&p, &ctx, &leg, "hang", "the case never finished", &case);
                let again = sub_replay(&ctx, &p, 60, true);
                let control = G().control.lock().unwrap().get(&leg).cloned();
                let control_ok = control.map(|c| {
                    let cp = ctx.root.join("replays").join(format!("{}-{}-control.json", ctx.prop, leg));
                    write_replay(&cp, &ctx, &leg, "", "", &c);
                    let r = sub_replay(&ctx, &cp, 60, true);
                    let _ = std::fs::remove_file(&cp);
                    r == Some(0)
                });
                match again {
                    Some(1) => finish_violation(&ctx, &leg, "hang", "fails on replay after hanging", &p),
                    None if control_ok != Some(false) => {
                        finish_violation(&ctx, &leg, "hang", "never finishes: hung in the run and again on replay in a fresh process, while another case of the same leg finished", &p)
                    }
                    r => {
                        println!("CHECK-ERROR property={} a case of {} hung in the run (replay: {:?}, control ok: {:?})", ctx.prop, leg, r, control_ok);
                        std::process::exit(3);
                    }
                }
            }
        }
        if t0.elapsed() > limit {
            let f = G().found.lock().unwrap();
            if let Some(f) = &*f {
                println!("VIOLATION property={} replay={}", ctx.prop, f.path.display());
                println!("  {} ({}): {}", f.leg, f.sig, clip(&f.msg, 2000));
                std::process::exit(1);
            }
            println!("CHECK-ERROR property={} watchdog: run exceeded {:?}", ctx.prop, limit);
            std::process::exit(3);
        }
    });
}
fn finish_violation(ctx: &Ctx, leg: &str, sig: &str, msg: &str, p: &PathBuf) -> ! {
    println!("VIOLATION property={} replay={}", ctx.prop, p.display());
    println!("  {} ({}): {}", leg, sig, msg);
    std::process::exit(1)
}
fn sub_replay(ctx: &Ctx, p: &PathBuf, secs: u64, repeat: bool) -> Option<i32> {
    let mut ch = std::process::Command::new(std::env::current_exe().ok()?)
        .arg(&ctx.prop)
        .arg("--replay")
        .arg(p)
        .env("OTV_SUB", "1")
        .envs(repeat.then(|| ("OTV_REPEAT", "1")))
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return s.code().or(Some(99));
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// Where the cases now running are noted, for when the process dies under one of them
fn notes_dir(ctx: &Ctx) -> PathBuf {
    ctx.root.join("target").join("running").join(format!("{}-{}", ctx.prop, std::env::var("OTV_CHILD").unwrap_or_default()))
}
struct Note(Option<std::fs::File>);
impl Note {
    fn new(ctx: &Ctx, leg: &str, id: u64) -> Note {
        if std::env::var("OTV_CHILD").is_err() {
            return Note(None);
        }
        let d = notes_dir(ctx);
        let _ = std::fs::create_dir_all(&d);
        Note(std::fs::File::create(d.join(format!("{}.{}", leg, id))).ok())
    }
    fn put(&self, js: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(format!("{:012}\n{}", js.len(), js).as_bytes(), 0);
        }
    }
}
trait DieWithParent {
    fn die_with_parent(&mut self) -> &mut Self;
}
impl DieWithParent for std::process::Command {
    fn die_with_parent(&mut self) -> &mut Self {
        use std::os::unix::process::CommandExt;
        unsafe {
            self.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            })
        }
    }
}
/// Runs this program again as a child; a child that dies under a case is a violation
fn supervise(ctx: &Ctx, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let run = || {
        std::process::Command::new(std::env::current_exe().unwrap())
            .arg(&ctx.prop)
            .args(args)
            .env("OTV_CHILD", std::process::id().to_string())
            .die_with_parent()
            .status()
    };
    let st = match run() {
        Ok(s) => s,
        Err(e) => {
            println!("CHECK-ERROR cannot start the check: {}", e);
            return 3;
        }
    };
    let d = ctx.root.join("target").join("running").join(format!("{}-{}", ctx.prop, std::process::id()));
    let done = |code: i32| {
        let _ = std::fs::remove_dir_all(&d);
        code
    };
    if let Some(c) = st.code() {
        return done(c);
    }
    let how = format!("the process was ended by signal {:?}", st.signal());
    if args.iter().any(|a| a == "--replay") {
        println!("VIOLATION property={} replay={}", ctx.prop, args.iter().skip_while(|a| *a != "--replay").nth(1).cloned().unwrap_or_default());
        println!("  {}", how);
        return done(1);
    }
    eprintln!("[{}] {}; looking for the case", ctx.prop, how);
    let mut notes: Vec<_> = std::fs::read_dir(&d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    notes.sort();
    for n in notes {
        let t = String::from_utf8_lossy(&std::fs::read(&n).unwrap_or_default()).to_string();
        let (len, js) = match (t.get(..12).and_then(|x| x.parse::<usize>().ok()), t.get(13..)) {
            (Some(l), Some(j)) if l > 0 => (l, j),
            _ => continue,
        };
        let js = js.get(..len).unwrap_or(js).to_string();
        let leg = n.file_name().unwrap().to_string_lossy().split('.').next().unwrap().to_string();
        let p = ctx.root.join("replays").join(format!("{}-{}-died.json", ctx.prop, leg));
        let _ = std::fs::create_dir_all(ctx.root.join("replays"));
        write_replay(&p, ctx, &leg, "process-died", &how, &js);
        if matches!(sub_replay(ctx, &p, 60, false), Some(1) | Some(99)) {
            println!("VIOLATION property={} replay={}", ctx.prop, p.display());
            println!("  {} (process-died): {}, and again on replay of this case alone", leg, how);
            return done(1);
        }
        let _ = std::fs::remove_file(&p);
    }
    println!("CHECK-ERROR property={} {}, and no case does it again alone", ctx.prop, how);
    done(3)
}

pub struct Check {
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub legs: Vec<Leg>,
}

pub fn main_for(prop: &str, check: Check, args: &[String]) -> i32 {
    let root = PathBuf::from(std::env::var("OTV_ROOT").unwrap_or_else(|_| "/verif".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Ctx { prop: prop.into(), thorough, seed, root: root.clone() };
    if std::env::var("OTV_CHILD").is_err() && std::env::var("OTV_SUB").is_err() {
        return supervise(&ctx, args);
    }
    install_hook();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let f = std::fs::read_to_string(&args[i + 1]).expect("read replay");
        let v: Value = serde_json::from_str(&f).expect("parse replay");
        let ln = v["leg"].as_str().unwrap_or("").to_string();
        let l = match check.legs.iter().find(|l| l.name == ln) {
            Some(l) => l,
            None => {
                println!("no such leg {}", ln);
                return 3;
            }
        };
        if std::env::var("OTV_SUB").is_err() {
            spawn_watchdog(ctx.clone(), Duration::from_secs(600));
        }
        // A case that hung may do so only now and then (nonces and ids are random in the code
        // under test): it is run over and over for a while.
        let many = v["sig"].as_str() == Some("hang") || std::env::var("OTV_REPEAT").is_ok();
        let t0 = Instant::now();
        let mut runs = 0;
        let verdict = loop {
            let case = v["case"].clone();
            runs += 1;
            // large stack like the shards
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .name("replay".into())
                    .spawn_scoped(s, || (l.replay)(&ctx, case))
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| Err("replay thread died".into()))
            });
            if !many || runs >= 500 || t0.elapsed() > Duration::from_secs(15) || !matches!(r, Ok(Verdict::Pass(_))) {
                break r;
            }
        };
        return match verdict {
            Ok(Verdict::Pass(i)) => {
                println!("replay passes {:?}", i);
                0
            }
            Ok(Verdict::Fail { sig, msg }) => {
                println!("VIOLATION property={} replay={}", prop, args[i + 1]);
                println!("  {} ({}): {}", ln, sig, clip(&msg, 4000));
                1
            }
            Ok(Verdict::Inconclusive(m)) => {
                println!("inconclusive: {}", m);
                3
            }
            Err(e) => {
                println!("error: {}", e);
                3
            }
        };
    }
    let only: Option<String> = args.iter().position(|a| a == "--leg").map(|i| args[i + 1].clone());
    let t0 = Instant::now();
    spawn_watchdog(ctx.clone(), Duration::from_secs(if thorough { 3400 } else { 780 }));
    let known = load_known(&root);
    let mut total = Stats::default();
    let mut per_leg = BTreeMap::new();
    for l in &check.legs {
        if let Some(o) = &only {
            if o != l.name {
                continue;
            }
        }
        let lt = Instant::now();
        let st = (l.run)(&ctx, &known);
        per_leg.insert(
            l.name,
            json!({"evaluations": st.evals, "distinct_nontrivial": st.distinct.len(), "wall_s": lt.elapsed().as_secs_f64()}),
        );
        total.evals += st.evals;
        total.distinct.extend(st.distinct);
        for (k, v) in st.classes {
            *total.classes.entry(k).or_default() += v;
        }
        total.samples.extend(st.samples.into_iter().take(3));
        total.inconclusive.extend(st.inconclusive);
        total.known.extend(st.known);
        if cancelled() {
            break;
        }
    }
    let found = G().found.lock().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": total.distinct.len(),
            "rule": check.rule,
            "samples": total.samples,
            "classes": total.classes,
            "legs": per_leg,
            "inconclusive": total.inconclusive,
            "known_findings_seen": total.known.keys().collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "violations": found.as_ref().map(|f| vec![json!({"leg": f.leg, "sig": f.sig, "message": clip(&f.msg, 4000), "replay": f.path.display().to_string(), "shrunk": f.shrunk})]).unwrap_or_default(),
        "wall_s": wall,
    });
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(root.join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap());
    for (k, t) in &total.known {
        println!("KNOWN-FINDING: property={} {} ({})", prop, t, k);
    }
    if let Some(f) = &*found {
        println!("VIOLATION property={} replay={}", prop, f.path.display());
        println!("  {} ({}): {}", f.leg, f.sig, clip(&f.msg, 3000));
        return 1;
    }
    println!(
        "{} {} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s inconclusive={}",
        prop, tier, seed, total.evals, total.distinct.len(), wall, total.inconclusive.len()
    );
    for (k, v) in &total.classes {
        eprintln!("    {:<50} {}", k, v);
    }
    if !total.inconclusive.is_empty() {
        for m in total.inconclusive.iter().take(10) {
            eprintln!("  inconclusive: {}", clip(m, 600));
        }
        // a handful of undecided cases does not spoil the run, many do
        if total.inconclusive.len() as u64 * 10 > total.evals.max(10) {
            println!("CHECK-ERROR property={} too many undecided cases", prop);
            return 3;
        }
    }
    0
}
