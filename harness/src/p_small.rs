//! The small utilities: delays, values with a time to live, captures, callbacks, loops, either.
use crate::e2e::{lost, start_stall_monitor, PATIENCE};
use crate::fw::*;
use over_there::utils::{exec, Capture, CallbackManager, Delay, Either, EmptyTtlValue, TtlValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

// ------------------------------------------------------------------ delays
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wait {
    /// ms (250 and above: very long)
    after: u8,
    /// cancelled after so many ms, so many times, by a thread of its own or not
    cancel: Option<(u8, u8, bool)>,
    drop: bool,
}
fn waits() -> impl Strategy<Value = Vec<Wait>> {
    let after = prop_oneof![1 => Just(0u8), 6 => 1..80u8, 1 => 250..=255u8];
    let cancel = prop::option::of((prop_oneof![2 => Just(0u8), 3 => 0..80u8], 1..4u8, any::<bool>()));
    prop::collection::vec((after, cancel, any::<bool>()).prop_map(|(after, cancel, drop)| Wait { after, cancel, drop }), 1..12)
}
/// What is known of a function passed on
#[derive(Default)]
struct Seen {
    ran: Mutex<Vec<Instant>>,
    gone: Mutex<Option<Instant>>,
}
struct Guard(Arc<Seen>);
impl Drop for Guard {
    fn drop(&mut self) {
        *self.0.gone.lock().unwrap() = Some(Instant::now());
    }
}
fn run_waits(c: &Vec<Wait>) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        struct One {
            seen: Arc<Seen>,
            before: Instant,
            after: Duration,
            /// when cancelling was over
            cancelled: Option<Instant>,
            delay: Option<Arc<Delay>>,
        }
        let start = Instant::now();
        let mut all: Vec<One> = vec![];
        let mut plan: Vec<(u64, usize)> = vec![];
        for w in c {
            let after = if w.after >= 250 { if w.after == 255 { Duration::from_secs(u64::MAX) } else { Duration::from_secs(3600 * w.after as u64) } } else { ms(w.after as u64) };
            let seen = Arc::new(Seen::default());
            let g = Guard(seen.clone());
            let before = Instant::now();
            let d = Arc::new(Delay::spawn(after, move || {
                g.0.ran.lock().unwrap().push(Instant::now());
                // (whatever it returns)
                g.0.clone()
            }));
            if let Some((at, _, _)) = w.cancel {
                plan.push((at as u64, all.len()));
            }
            all.push(One { seen, before, after, cancelled: None, delay: if w.drop && w.cancel.is_none() { None } else { Some(d) } });
        }
        plan.sort();
        for (at, i) in plan {
            if let Some(d) = ms(at).checked_sub(start.elapsed()) {
                std::thread::sleep(d);
            }
            let (_, times, own) = c[i].cancel.unwrap();
            let d = all[i].delay.clone().unwrap();
            for _ in 0..times {
                let d = d.clone();
                if own {
                    let _ = std::thread::spawn(move || d.cancel()).join();
                } else {
                    d.cancel();
                }
            }
            all[i].cancelled = Some(Instant::now());
            if c[i].drop {
                all[i].delay = None;
            }
        }
        // everything comes to an end but what was neither cancelled nor is due
        let mut late = 0;
        for (i, x) in all.iter().enumerate() {
            if x.cancelled.is_none() && c[i].after >= 250 {
                continue;
            }
            while x.seen.gone.lock().unwrap().is_none() {
                if start.elapsed() > ms(100) + PATIENCE {
                    return lost("never", format!("the function of delay {} ({:?}) is still kept {:?} later", i, c[i], start.elapsed()));
                }
                std::thread::sleep(ms(1));
            }
        }
        for (i, x) in all.iter().enumerate() {
            let ran = x.seen.ran.lock().unwrap();
            ensure!(ran.len() < 2, "ran-twice", "the function of delay {} ran {} times", i, ran.len());
            if let Some(t) = ran.first() {
                ensure!(*t - x.before >= x.after, "too-early", "the function of delay {} ({:?}) ran after {:?}", i, c[i], *t - x.before);
            }
            match x.cancelled {
                None if c[i].after < 250 => ensure!(ran.len() == 1, "not-run", "the function of delay {} ({:?}) was dropped without running", i, c[i]),
                Some(t) if t - x.before < x.after => {
                    ensure!(ran.is_empty(), "ran-though-cancelled", "delay {} ({:?}) was cancelled after {:?}, and ran", i, c[i], t - x.before);
                    if x.seen.gone.lock().unwrap().map(|g| g - t > ms(200)).unwrap_or(false) {
                        late += 1;
                    }
                }
                _ => {}
            }
        }
        let cancelled = all.iter().filter(|x| x.cancelled.map(|t| t - x.before < x.after).unwrap_or(false)).count();
        // (nothing is left waiting for hours)
        all.iter().filter_map(|x| x.delay.as_ref()).for_each(|d| d.cancel());
        Ok(Info::new().nt(all.len() > 1).class_if(cancelled > 0, "cancelled-in-time").class_if(late > 0, "slow-to-end").class_if(c.iter().any(|w| w.after >= 250), "long"))
    })()
    .into()
}

// ------------------------------------------------------------------ values with a time to live
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    New(u8, u16),
    From(u8),
    Touch(u8),
    Clone(u8),
    Set(u8, u8),
    Sleep(u8),
    Look(u8),
    Compare(u8, u8),
}
fn ttls() -> impl Strategy<Value = Vec<TOp>> {
    prop::collection::vec(
        prop_oneof![
            3 => (any::<u8>(), prop_oneof![1 => Just(0u16), 5 => 1..12u16, 1 => any::<u16>()]).prop_map(|(v, t)| TOp::New(v % 4, t)),
            1 => any::<u8>().prop_map(|v| TOp::From(v % 4)),
            3 => any::<u8>().prop_map(TOp::Touch),
            2 => any::<u8>().prop_map(TOp::Clone),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(i, v)| TOp::Set(i, v % 4)),
            3 => (0..8u8).prop_map(TOp::Sleep),
            6 => any::<u8>().prop_map(TOp::Look),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| TOp::Compare(a, b)),
        ],
        1..30,
    )
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn run_ttls(c: &Vec<TOp>) -> Verdict {
    (|| -> R<Info> {
        /// model: the value, when it was last touched (between these), its time to live
        struct M {
            v: u8,
            from: Instant,
            to: Instant,
            ttl: Duration,
        }
        let ttl_of = |t: u16| if t == u16::MAX { Duration::from_secs(u64::MAX) } else { ms(t as u64) };
        let t0 = Instant::now();
        let e = EmptyTtlValue::empty(ms(3));
        let e_touched = (t0, Instant::now());
        let mut xs: Vec<(TtlValue<u8>, M)> = vec![];
        let (mut expired, mut fresh) = (0, 0);
        for op in c {
            let n = xs.len();
            let t0 = Instant::now();
            match op {
                TOp::New(v, t) => {
                    let x = TtlValue::new(*v, ttl_of(*t));
                    xs.push((x, M { v: *v, from: t0, to: Instant::now(), ttl: ttl_of(*t) }));
                }
                TOp::From(v) => {
                    let x = TtlValue::from(*v);
                    xs.push((x, M { v: *v, from: t0, to: Instant::now(), ttl: ms(0) }));
                }
                TOp::Sleep(d) => std::thread::sleep(ms(*d as u64)),
                _ if n == 0 => {}
                TOp::Touch(i) => {
                    let x = &mut xs[*i as usize % n];
                    x.0.touch();
                    x.1.from = t0;
                    x.1.to = Instant::now();
                }
                TOp::Clone(i) => {
                    let x = &xs[*i as usize % n];
                    let y = (x.0.clone(), M { v: x.1.v, from: x.1.from, to: x.1.to, ttl: x.1.ttl });
                    ensure!(y.0.last_touched() == x.0.last_touched(), "clone-differs", "a clone was last touched at another time");
                    xs.push(y);
                }
                TOp::Set(i, v) => {
                    let x = &mut xs[*i as usize % n];
                    if *v < 2 {
                        *x.0 = *v
                    } else {
                        x.0.value = *v
                    }
                    x.1.v = *v;
                }
                TOp::Look(i) => {
                    let (x, m) = &xs[*i as usize % n];
                    let t = *x.last_touched();
                    ensure!(t >= m.from && t <= m.to, "last-touched", "last touched {:?} ago, really between {:?} and {:?}", t.elapsed(), m.to.elapsed(), m.from.elapsed());
                    ensure!(*x.ttl() == m.ttl && x.value == m.v && **x == m.v, "not-kept", "holds {:?} for {:?}, not {:?} for {:?}", x.value, x.ttl(), m.v, m.ttl);
                    let before = Instant::now() - t;
                    let is = x.has_expired();
                    let after = Instant::now() - t;
                    ensure!(is || before < m.ttl, "not-expired", "{:?} after {:?} untouched it has not expired", before, m.ttl);
                    ensure!(!is || after >= m.ttl, "expired-early", "expired {:?} after it was touched, with {:?} to live", after, m.ttl);
                    if is {
                        expired += 1
                    } else {
                        fresh += 1
                    }
                    let (i, d): (Instant, Duration) = (x.clone().into(), x.clone().into());
                    ensure!(i == t && d == m.ttl, "not-kept", "converted to {:?} and {:?}", i, d);
                }
                TOp::Compare(a, b) => {
                    let ((x, m), (y, n)) = (&xs[*a as usize % n], &xs[*b as usize % n]);
                    ensure!((x == y) == (m.v == n.v), "compares-times", "values {} and {}, equal: {}", m.v, n.v, x == y);
                    ensure!(x.cmp(y) == m.v.cmp(&n.v) && x.partial_cmp(y) == m.v.partial_cmp(&n.v), "compares-times", "values {} and {} are {:?}", m.v, n.v, x.cmp(y));
                    ensure!(m.v != n.v || hash(x) == hash(y), "compares-times", "equal values {} hash differently", m.v);
                }
            }
        }
        ensure!(*e.last_touched() >= e_touched.0 && *e.last_touched() <= e_touched.1 && *e.ttl() == ms(3), "last-touched", "an empty one: {:?}", e);
        Ok(Info::new().nt(expired > 0 && fresh > 0).class_if(expired > 0, "expired").class_if(fresh > 0, "fresh"))
    })()
    .into()
}

// ------------------------------------------------------------------ captures
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Caught {
    /// of each thread: set (true) or take
    threads: Vec<Vec<bool>>,
    first: bool,
}
fn caught() -> impl Strategy<Value = Caught> {
    (prop::collection::vec(prop::collection::vec(any::<bool>(), 0..40), 1..6), any::<bool>()).prop_map(|(threads, first)| Caught { threads, first })
}
struct Token(usize, usize, Arc<Vec<AtomicUsize>>);
impl Drop for Token {
    fn drop(&mut self) {
        self.2[self.0].fetch_add(1, Ordering::SeqCst);
    }
}
fn run_caught(c: &Caught) -> Verdict {
    (|| -> R<Info> {
        let total = 1 + c.threads.iter().map(|t| t.len()).sum::<usize>();
        let drops: Arc<Vec<AtomicUsize>> = Arc::new((0..total).map(|_| AtomicUsize::new(0)).collect());
        let cap: Arc<Capture<Token>> = Arc::new(if c.first { Capture::from(Token(0, 0, drops.clone())) } else { Capture::default() });
        let gate = Arc::new(Barrier::new(c.threads.len()));
        let mut base = 1;
        let mut ts = vec![];
        for (k, t) in c.threads.iter().cloned().enumerate() {
            let (cap, drops, gate, from) = (cap.clone(), drops.clone(), gate.clone(), base);
            base += t.len();
            let alone = c.threads.len() == 1;
            let first = c.first;
            ts.push(std::thread::spawn(move || -> Result<(Vec<Token>, Vec<usize>), String> {
                gate.wait();
                let (mut got, mut set) = (vec![], vec![]);
                let mut model = if first { Some(0) } else { None };
                for (j, is_set) in t.into_iter().enumerate() {
                    if is_set {
                        cap.set(Token(from + j, k, drops.clone()));
                        set.push(from + j);
                        if alone {
                            if let Some(old) = model {
                                if drops[old].load(Ordering::SeqCst) != 1 {
                                    return Err(format!("value {} was replaced and is still held", old));
                                }
                            }
                        }
                        model = Some(from + j);
                    } else {
                        let x = cap.take();
                        if alone && x.as_ref().map(|x| x.0) != model.take() {
                            return Err(format!("step {}: took {:?}", j, x.map(|x| x.0)));
                        }
                        got.extend(x);
                    }
                }
                Ok((got, set))
            }));
        }
        let (mut got, mut set) = (vec![], if c.first { vec![0] } else { vec![] });
        for t in ts {
            match t.join() {
                Ok(Ok((g, s))) => {
                    // what one thread takes of another's comes in the order it was set
                    let mut last: HashMap<usize, usize> = HashMap::new();
                    for x in &g {
                        if let Some(l) = last.insert(x.1, x.0) {
                            ensure!(l < x.0 || l == 0, "out-of-order", "value {} was taken before {}", l, x.0);
                        }
                    }
                    got.extend(g);
                    set.extend(s);
                }
                Ok(Err(e)) => return bad("wrong-value", e),
                Err(_) => return bad("panic", "a thread panicked"),
            }
        }
        let left = cap.take();
        ensure!(cap.take().is_none(), "taken-twice", "taken twice in a row");
        let n_left = left.is_some() as usize;
        let mut ids: Vec<usize> = got.iter().map(|x| x.0).chain(left.iter().map(|x| x.0)).collect();
        ids.sort();
        let taken = ids.len();
        ids.dedup();
        ensure!(ids.len() == taken, "taken-twice", "a value was taken twice");
        // what was neither taken nor is left was replaced, once
        for s in &set {
            let d = drops[*s].load(Ordering::SeqCst);
            let held = ids.binary_search(s).is_ok();
            ensure!(d == (!held) as usize, "lost", "value {}: taken or left {}, dropped {} times", s, held, d);
        }
        ensure!(ids.iter().all(|i| set.contains(i)), "wrong-value", "a value nobody set");
        Ok(Info::new().nt(!got.is_empty() && c.threads.len() > 1).class_if(c.threads.len() == 1, "alone").class_if(taken - n_left < set.len(), "replaced"))
    })()
    .into()
}

// ------------------------------------------------------------------ callbacks
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Add(u32),
    Take(u32),
    Invoke(u32, u16),
    /// what was taken is called, or dropped
    Use(u8, Option<u16>),
}
fn calls() -> impl Strategy<Value = Vec<COp>> {
    let id = || prop_oneof![6 => 0..4u32, 1 => Just(u32::MAX), 1 => any::<u32>()];
    let many = (20..300u32, any::<u32>()).prop_map(|(n, from)| (0..n).map(|i| COp::Add(from.wrapping_add(i * 7919))).chain((0..n).map(|i| COp::Invoke(from.wrapping_add(i * 7919), i as u16))).collect::<Vec<_>>());
    let crowd = (500..6_000u32, any::<u32>()).prop_map(|(n, from)| (0..n).map(|i| COp::Add(from.wrapping_add(i * 7919))).chain((0..n).map(|i| COp::Invoke(from.wrapping_add(i * 7919), i as u16))).collect::<Vec<_>>());
    let few = prop::collection::vec(
        prop_oneof![
            4 => id().prop_map(COp::Add),
            2 => id().prop_map(COp::Take),
            4 => (id(), any::<u16>()).prop_map(|(i, x)| COp::Invoke(i, x)),
            2 => (any::<u8>(), prop::option::of(any::<u16>())).prop_map(|(i, x)| COp::Use(i, x)),
        ],
        1..40,
    );
    prop_oneof![6000 => few, 100 => many, 1 => crowd]
}
fn run_calls(c: &Vec<COp>) -> Verdict {
    (|| -> R<Info> {
        let log: Arc<Mutex<Vec<(usize, u16)>>> = Default::default();
        let drops: Arc<Vec<AtomicUsize>> = Arc::new((0..c.len()).map(|_| AtomicUsize::new(0)).collect());
        let mut m: CallbackManager<u16> = CallbackManager::default();
        let mut model: BTreeMap<u32, usize> = BTreeMap::new();
        let mut taken: Vec<(usize, Box<dyn FnOnce(&u16) + Send>)> = vec![];
        let mut want: Vec<(usize, u16)> = vec![];
        let mut gone: Vec<bool> = vec![false; c.len()];
        let mut made = vec![];
        let (mut replaced, mut missing) = (0, 0);
        for (i, op) in c.iter().enumerate() {
            match op {
                COp::Add(id) => {
                    let (log, t) = (log.clone(), Token(i, 0, drops.clone()));
                    m.add_callback(*id, move |x: &u16| {
                        let t = &t;
                        log.lock().unwrap().push((t.0, *x))
                    });
                    made.push(i);
                    if let Some(old) = model.insert(*id, i) {
                        gone[old] = true;
                        replaced += 1;
                    }
                }
                COp::Take(id) => match (m.take_callback(*id), model.remove(id)) {
                    (Some(f), Some(k)) => taken.push((k, f)),
                    (None, None) => missing += 1,
                    (a, b) => return bad("wrong-callback", format!("step {}: callback there: {}, expected {:?}", i, a.is_some(), b)),
                },
                COp::Invoke(id, x) => {
                    m.invoke_callback(*id, x);
                    match model.remove(id) {
                        Some(k) => {
                            want.push((k, *x));
                            gone[k] = true
                        }
                        None => missing += 1,
                    }
                }
                COp::Use(k, x) if !taken.is_empty() => {
                    let (k, f) = taken.remove(*k as usize % taken.len());
                    if let Some(x) = x {
                        f(x);
                        want.push((k, *x));
                    }
                    gone[k] = true;
                }
                COp::Use(..) => {}
            }
            // (for thousands of them, now and then)
            if c.len() > 700 && i % (c.len() / 10) != 0 && i + 1 != c.len() {
                ensure!(log.lock().unwrap().len() == want.len(), "wrong-callback", "after step {} ({:?}): {} ran, expected {}", i, op, log.lock().unwrap().len(), want.len());
                continue;
            }
            ensure!(*log.lock().unwrap() == want, "wrong-callback", "after step {} ({:?}): ran {:?}, expected {:?}", i, op, log.lock().unwrap(), want);
            for k in &made {
                let d = drops[*k].load(Ordering::SeqCst);
                ensure!(d == gone[*k] as usize, "not-released", "after step {} ({:?}): callback {} dropped {} times, expected {}", i, op, k, d, gone[*k]);
            }
            let shown = format!("{:?}", m);
            ensure!(model.keys().all(|k| shown.contains(&k.to_string())), "not-shown", "{} does not name {:?}", shown, model.keys());
        }
        drop(m);
        let runs = want.len();
        ensure!(log.lock().unwrap().len() == runs, "wrong-callback", "dropping the manager ran callbacks");
        drop(taken);
        ensure!(made.iter().all(|k| drops[*k].load(Ordering::SeqCst) == 1), "not-released", "a callback outlives the manager");
        Ok(Info::new().nt(runs > 1).class_if(replaced > 0, "replaced").class_if(missing > 0, "none-there"))
    })()
    .into()
}

// ------------------------------------------------------------------ loops
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loop {
    timeout: u16,
    /// (ms a call takes)
    pace: u8,
    /// which call ends it, with an error or not
    end: Option<(u8, bool)>,
    panicking: bool,
}
fn loops() -> impl Strategy<Value = Loop> {
    (prop_oneof![1 => Just(0u16), 6 => 1..40u16, 1 => 1000..5000u16], 0..6u8, prop::option::weighted(0.75, (0..12u8, prop::bool::weighted(0.3))), prop::bool::weighted(0.3)).prop_map(|(timeout, pace, end, panicking)| Loop {
        // (nothing is waited for long in vain)
        timeout: if end.is_none() { timeout.min(40) } else { timeout },
        pace,
        end,
        panicking,
    })
}
fn run_loops(c: &Loop) -> Verdict {
    (|| -> R<Info> {
        start_stall_monitor();
        let calls = Arc::new(AtomicUsize::new(0));
        let ended = Arc::new(AtomicUsize::new(0));
        let (n, e, plan) = (calls.clone(), ended.clone(), c.clone());
        let mut f = move || -> Result<Option<String>, Box<dyn std::error::Error>> {
            let k = n.fetch_add(1, Ordering::SeqCst);
            if plan.pace > 0 {
                std::thread::sleep(ms(plan.pace as u64));
            }
            match plan.end {
                Some((at, err)) if k >= at as usize => {
                    e.fetch_add(1, Ordering::SeqCst);
                    if err && !plan.panicking {
                        Err(format!("failed at {}", k).into())
                    } else {
                        Ok(Some(format!("done at {}", k)))
                    }
                }
                _ => Ok(None),
            }
        };
        let timeout = ms(c.timeout as u64);
        let start = Instant::now();
        enum Got {
            Ok(String),
            Failed(String),
            Timeout(Option<Duration>),
        }
        let got = if c.panicking {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::loop_timeout_panic(timeout, || f().unwrap()))) {
                Ok(x) => Got::Ok(x),
                Err(_) => {
                    // (as documented)
                    take_panics();
                    Got::Timeout(None)
                }
            }
        } else {
            match exec::loop_timeout(timeout, f) {
                Ok(x) => Got::Ok(x),
                Err(exec::Error::Exec(x)) => Got::Failed(x.to_string()),
                Err(exec::Error::Timeout(d)) => Got::Timeout(Some(d)),
                Err(exec::Error::SystemTime(_)) => return env("the clock was set back"),
            }
        };
        let took = start.elapsed();
        let (calls, ended) = (calls.load(Ordering::SeqCst), ended.load(Ordering::SeqCst));
        ensure!(ended < 2, "called-again", "called {} more times after it was over", ended - 1);
        let last = calls.wrapping_sub(1);
        let class = match got {
            Got::Ok(x) => {
                ensure!(ended == 1 && x == format!("done at {}", last), "wrong-result", "gave {:?} after {} calls", x, calls);
                "value"
            }
            Got::Failed(x) => {
                ensure!(ended == 1 && x == format!("failed at {}", last), "wrong-result", "failed with {:?} after {} calls", x, calls);
                "error"
            }
            Got::Timeout(d) => {
                ensure!(ended == 0, "result-lost", "timed out though call {} gave a result", last);
                ensure!(d.map(|d| d == timeout).unwrap_or(true), "wrong-result", "timed out after {:?} by its own word, not {:?}", d, timeout);
                // (measured by another clock)
                ensure!(took + ms(2) >= timeout, "too-early", "timed out after {:?} of {:?} and {} calls", took, timeout, calls);
                ensure!(c.timeout < 1000 || calls > 0, "never-called", "timed out without a call");
                "timeout"
            }
        };
        ensure!(c.timeout > 0 || calls == 0, "called-late", "called though no time was given");
        if took > timeout + ms(c.pace as u64) + PATIENCE {
            return lost("too-late", format!("ended after {:?}", took));
        }
        Ok(Info::new().nt(calls > 1).class(class))
    })()
    .into()
}

// ------------------------------------------------------------------ either
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sides {
    left: bool,
    n: u32,
    s: String,
}
fn sides() -> impl Strategy<Value = Sides> {
    (any::<bool>(), any::<u32>(), ".{0,12}").prop_map(|(left, n, s)| Sides { left, n, s })
}
fn run_sides(c: &Sides) -> Verdict {
    (|| -> R<Info> {
        let x: Either<u32, String> = if c.left { Either::Left(c.n) } else { Either::Right(c.s.clone()) };
        ensure!(x.is_left() == c.left && x.is_right() != c.left, "wrong-side", "{:?}: left {} right {}", x, x.is_left(), x.is_right());
        ensure!(x.get_left() == if c.left { Some(&c.n) } else { None }, "wrong-side", "{:?}: left {:?}", x, x.get_left());
        ensure!(x.get_right() == if c.left { None } else { Some(&c.s) }, "wrong-side", "{:?}: right {:?}", x, x.get_right());
        let same: Either<u32, u32> = if c.left { Either::Left(c.n) } else { Either::Right(c.n) };
        let other: Either<u32, u32> = if c.left { Either::Right(c.n) } else { Either::Left(c.n) };
        ensure!(same != other && same == same.clone(), "wrong-side", "{:?} equals {:?}", same, other);
        let t = serde_json::to_string(&same).map_err(|e| Bad::Fail("not-kept".into(), e.to_string()))?;
        let back: Either<u32, u32> = serde_json::from_str(&t).map_err(|e| Bad::Fail("not-kept".into(), format!("{}: {}", t, e)))?;
        ensure!(back == same, "not-kept", "{:?} became {:?}", same, back);
        Ok(Info::new().nt(true).class_if(c.left, "left"))
    })()
    .into()
}

pub fn c22() -> Check {
    Check {
        rule: "delays: up to 12 delays at a time, some cancelled (once or more, before or after they are due), dropped, very long; non-trivial: more than one. ttl: operations on values with times to live against their history; non-trivial: some seen expired and some not. captures: up to 5 threads setting and taking; non-trivial: several threads and something taken. callbacks: histories against a map; non-trivial: two ran. loops: scripts of calls; non-trivial: two calls. either: non-trivial always. Oracles: what is run, taken, dropped or expired and when, as recorded by the functions and values passed in.",
        assumptions: vec!["a delay or a loop that is due ends within 12 s; the system clock is not set meanwhile"],
        legs: vec![
            leg("delays", o(700, 20_000).hang(60), waits, run_waits),
            leg("ttl", o(3_000, 100_000).hang(60), ttls, run_ttls),
            leg("captures", o(6_000, 200_000).hang(60), caught, run_caught),
            leg("callbacks", o(40_000, 900_000).hang(60), calls, run_calls),
            leg("loops", o(2_500, 60_000).hang(60), loops, run_loops),
            leg("either", o(5_000, 50_000).hang(60), sides, run_sides),
        ],
    }
}
