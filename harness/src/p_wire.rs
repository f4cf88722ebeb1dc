use crate::fw::*;
use crate::wirekit::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::time::{Duration, Instant};

const LONG: Duration = Duration::from_secs(3600);
/// Every scheme fits its bookkeeping in this many bytes, with room for data
const ENOUGH: usize = 320;

fn hx(b: &[u8]) -> String {
    let s: String = b.iter().take(40).map(|x| format!("{:02x}", x)).collect();
    format!("{}b:{}", b.len(), s)
}

fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trip {
    auth: AuthSpec,
    crypt: CryptSpec,
    ts: usize,
    msgs: Vec<Payload>,
    order: Order,
    order_seed: u64,
    dups: Vec<u16>,
    gap_seed: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Order {
    InOrder,
    Reversed,
    Shuffled,
    Interleaved,
    FinalFirst,
    SwapTwo,
}

fn arrange(lens: &[usize], order: Order, seed: u64) -> Vec<(usize, usize)> {
    use rand::{seq::SliceRandom, Rng, SeedableRng};
    let mut r = rand::rngs::StdRng::seed_from_u64(seed);
    let mut v: Vec<(usize, usize)> = vec![];
    for (m, n) in lens.iter().enumerate() {
        for p in 0..*n {
            v.push((m, p));
        }
    }
    match order {
        Order::InOrder => {}
        Order::Reversed => v.reverse(),
        Order::Shuffled => v.shuffle(&mut r),
        Order::Interleaved => v.sort_by_key(|(m, p)| (*p, *m)),
        Order::FinalFirst => v.sort_by_key(|(m, p)| (if *p + 1 == lens[*m] { 0 } else { 1 }, *m, *p)),
        Order::SwapTwo => {
            if v.len() > 1 {
                let i = r.gen_range(0, v.len());
                let j = r.gen_range(0, v.len());
                v.swap(i, j);
            }
        }
    }
    v
}

fn trip(c: &Trip) -> Verdict {
    (|| -> R<Info> {
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let mut inb = receiver(c.ts, LONG, &c.auth, &c.crypt);
        let mut sent: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
        let mut too_small = false;
        for m in &c.msgs {
            let p = m.get();
            match out.process(&p) {
                Ok(pk) => {
                    ensure!(!pk.is_empty(), "no-packets", "a payload of {} bytes produced no packet", p.len());
                    sent.push((p, pk))
                }
                Err(e) => {
                    ensure!(c.ts < ENOUGH, "encode-error", "payload {} refused with transmission size {}: {:?}", hx(&p), c.ts, e);
                    too_small = true;
                }
            }
        }
        if sent.is_empty() {
            return Ok(Info::new().class("too-small"));
        }
        let lens: Vec<usize> = sent.iter().map(|x| x.1.len()).collect();
        let mut plan = arrange(&lens, c.order, c.order_seed);
        // duplicates of packets of messages that are still incomplete then
        let mut got: Vec<HashSet<usize>> = vec![HashSet::new(); sent.len()];
        let mut i = 0;
        let mut ndup = 0;
        let mut dupq: Vec<usize> = c.dups.iter().map(|d| *d as usize).collect();
        let mut done = vec![false; sent.len()];
        while i < plan.len() {
            let (m, p) = plan[i];
            i += 1;
            let r = inb.process(&sent[m].1[p]);
            if got[m].contains(&p) {
                // an injected duplicate while the message is incomplete
                match r {
                    Ok(Some(d)) => return bad("dup-delivers", format!("a duplicate packet delivered {}", hx(&d))),
                    _ => {}
                }
                continue;
            }
            got[m].insert(p);
            let complete = got[m].len() == lens[m];
            match r {
                Err(e) => return bad("packet-rejected", format!("packet {}/{} of message {} (order {:?}, ts {}) rejected: {:?}", p, lens[m], m, c.order, c.ts, e)),
                Ok(None) => ensure!(!complete, "not-delivered", "all {} packets of message {} arrived and nothing was delivered", lens[m], m),
                Ok(Some(d)) => {
                    ensure!(complete, "early", "message {} delivered after {} of {} packets: {}", m, got[m].len(), lens[m], hx(&d));
                    ensure!(d == sent[m].0, "corrupt", "message {} came out as {} instead of {}", m, hx(&d), hx(&sent[m].0));
                    done[m] = true;
                }
            }
            if !complete && !dupq.is_empty() {
                let d = dupq.pop().unwrap();
                if d % 2 == 0 {
                    let k = got[m].iter().min().copied().unwrap();
                    plan.insert(i, (m, k));
                    ndup += 1;
                }
            }
        }
        ensure!(done.iter().all(|x| *x), "lost", "messages never delivered: {:?}", done);
        let multi = lens.iter().any(|l| *l > 1);
        Ok(Info::new()
            .nt(multi || sent.len() > 1)
            .class(format!("order-{:?}", c.order))
            .class(format!("auth-{}", c.auth.name()))
            .class(format!("crypt-{}", c.crypt.kind.name()))
            .class_if(multi, "multi-packet")
            .class_if(lens.iter().any(|l| *l > 24), "over-24-packets")
            .class_if(lens.iter().any(|l| *l > 256), "over-256-packets")
            .class_if(lens.iter().any(|l| *l > 65536), "over-65536-packets")
            .class_if(sent.len() > 1, "several-messages")
            .class_if(sent.len() > 30 && multi, "over-30-messages")
            .class_if(ndup > 0, "duplicates")
            .class_if(too_small, "too-small"))
    })()
    .into()
}

fn orders() -> BoxedStrategy<Order> {
    prop_oneof![
        Just(Order::InOrder),
        Just(Order::Reversed),
        Just(Order::Shuffled),
        Just(Order::Interleaved),
        Just(Order::FinalFirst),
        Just(Order::SwapTwo)
    ]
    .boxed()
}
fn trips(ts: BoxedStrategy<usize>, max: usize, msgs: usize) -> BoxedStrategy<Trip> {
    (auth_any(), crypt_any(), ts, prop::collection::vec(payload(max), 1..=msgs), orders(), any::<u64>(), prop::collection::vec(any::<u16>(), 0..4))
        .prop_map(|(auth, crypt, ts, msgs, order, order_seed, dups)| Trip { auth, crypt, ts, msgs, order, order_seed, dups, gap_seed: 0 })
        .boxed()
}

/// Many messages of two packets, all incomplete at the same time
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ids {
    auth: AuthSpec,
    crypt: CryptSpec,
    n: usize,
    /// how many senders take turns
    senders: usize,
    seed: u64,
}
fn ids(c: &Ids) -> Verdict {
    (|| -> R<Info> {
        const TS: usize = 400;
        let mut outs: Vec<Out> = (0..c.senders).map(|_| sender(TS, &c.auth, &c.crypt)).collect();
        let mut inb = receiver(TS, LONG, &c.auth, &c.crypt);
        let mut all = vec![];
        for i in 0..c.n {
            let mut p = bytes(c.seed ^ i as u64, 420);
            p[..4].copy_from_slice(&(i as u32).to_be_bytes());
            let k = outs[i % c.senders].process(&p).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
            all.push((p, k));
        }
        let mut spoilt = vec![];
        for (i, (_, k)) in all.iter().enumerate() {
            for x in &k[..k.len() - 1] {
                match inb.process(x) {
                    Ok(None) => {}
                    r => spoilt.push((i, format!("an early packet gave {:?}", r.map(|d| d.map(|d| hx(&d))).map_err(|e| format!("{:?}", e))))),
                }
            }
        }
        for (i, (p, k)) in all.iter().enumerate() {
            match inb.process(&k[k.len() - 1]) {
                Ok(Some(d)) if d == *p => {}
                r => spoilt.push((i, format!("its last packet gave {:?}", r.map(|d| d.map(|d| hx(&d))).map_err(|e| format!("{:?}", e))))),
            }
        }
        // two ids of 32 random bits meet once in a thousand cases, and spoil two messages then
        ensure!(spoilt.len() <= 6, "mixed-up", "of {} messages in flight at once {} did not come out; message {}: {}", c.n, spoilt.len(), spoilt[0].0, spoilt[0].1);
        Ok(Info::new().nt(true).class(format!("senders-{}", c.senders)).class_if(c.n > 2000, "over-2000-messages"))
    })()
    .into()
}

/// One sender and one receiver for a long time
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    auth: AuthSpec,
    crypt: CryptSpec,
    n: u32,
    /// one message in so many has several packets, and its last one comes this much later
    many: u16,
    late: u32,
    seed: u64,
}
fn long_once(c: &Long) -> R<Info> {
    const TS: usize = 330;
    let mut out = sender(TS, &c.auth, &c.crypt);
    let mut inb = receiver(TS, LONG, &c.auth, &c.crypt);
    let mut waiting: std::collections::VecDeque<(u32, Vec<u8>, Vec<u8>)> = Default::default();
    let mut held = 0;
    let mut last = |inb: &mut In, (i, p, k): (u32, Vec<u8>, Vec<u8>), now: u32| -> R<()> {
        match inb.process(&k) {
            Ok(Some(d)) if d == p => Ok(()),
            Ok(x) => bad(if x.is_some() { "corrupt" } else { "not-delivered" }, format!("the last packet of message {}, after {} messages, gave {:?}", i, now, x.map(|d| hx(&d)))),
            Err(e) => bad("packet-rejected", format!("the last packet of message {}, after {} messages, was rejected: {:?}", i, now, e)),
        }
    };
    for i in 0..c.n {
        while waiting.front().map(|w| w.0 + c.late <= i).unwrap_or(false) {
            held += 1;
            last(&mut inb, waiting.pop_front().unwrap(), i)?;
        }
        let several = c.many > 0 && i % c.many as u32 == 0 && waiting.len() < 200;
        let mut p = bytes(c.seed ^ i as u64, if several { 340 } else { 20 });
        p[..4].copy_from_slice(&i.to_be_bytes());
        let mut k = out.process(&p).map_err(|e| Bad::Fail("encode-error".into(), format!("message {}: {:?}", i, e)))?;
        let z = match k.pop() {
            Some(z) => z,
            None => return bad("no-packets", format!("message {} became no packet", i)),
        };
        for x in &k {
            match inb.process(x) {
                Ok(None) => {}
                Ok(Some(d)) => return bad("early", format!("an early packet of message {} delivered {}", i, hx(&d))),
                Err(e) => return bad("packet-rejected", format!("an early packet of message {} was rejected: {:?}", i, e)),
            }
        }
        if k.is_empty() {
            last(&mut inb, (i, p, z), i)?;
        } else {
            waiting.push_back((i, p, z));
        }
    }
    for w in waiting {
        last(&mut inb, w, c.n)?;
    }
    Ok(Info::new().nt(true).class_if(c.n > 65536, "over-65536-messages").class_if(held > 0, "overtaken"))
}
fn long(c: &Long) -> Verdict {
    // (two ids of 32 random bits that meet spoil a message, about once in a thousand runs, but not twice in a row)
    long_once(c).or_else(|e| if let Bad::Env(_) = e { Err(e) } else { long_once(c) }).into()
}

pub fn c01() -> Check {
    Check {
        rule: "A case is (auth scheme+key, cipher+key, transmission size, payloads, delivery order, duplicates); non-trivial when some message needs several packets or several messages are interleaved. Oracle: the payload itself; delivered exactly at its last missing packet.",
        assumptions: vec!["message ids are random 32-bit values: two ids colliding inside one case is ignored (probability below 1e-6 per case; leg \"ids\", where it is about 1e-3, tolerates six spoilt messages)"],
        legs: vec![
            leg("small", o(40000, 200_000), || trips((90usize..420).boxed(), 700, 4), trip),
            leg("udp-tcp-sizes", o(4000, 25_000), || {
                trips(prop_oneof![Just(508usize), Just(1212), Just(1500), Just(4096), Just(65507)].boxed(), 60_000, 3)
            }, trip),
            leg("crowd", o(1500, 15_000), || {
                (auth_any(), crypt_any(), 330usize..420, prop::collection::vec(payload(1500), 2..90), orders(), any::<u64>(), prop::collection::vec(any::<u16>(), 0..4), 0u8..3)
                    .prop_map(|(auth, crypt, ts, msgs, order, order_seed, dups, k)| {
                        let order = if k == 0 { order } else { Order::Interleaved };
                        Trip { auth, crypt, ts, msgs, order, order_seed, dups, gap_seed: 0 }
                    })
                    .boxed()
            }, trip),
            leg("many-packets", o(40, 150).hang(200), || {
                (auth_any(), crypt_any(), 330usize..400, prop_oneof![3 => 60_000usize..400_000, 1 => Just(0usize)], orders(), any::<u64>()).prop_map(|(auth, crypt, ts, len, order, s)| {
                    // len 0 stands for a message of more than 65536 packets
                    let (ts, len) = if len == 0 { (140 + 90 * (matches!(auth, AuthSpec::Sha512(_)) as usize), 3_300_000) } else { (ts, len) };
                    let auth = if len > 1_000_000 { AuthSpec::Noop } else { auth };
                    let order = if len > 1_000_000 && order == Order::Interleaved { Order::Shuffled } else { order };
                    Trip { auth, crypt, ts, msgs: vec![Payload::Rand { len, seed: s }], order, order_seed: s, dups: vec![], gap_seed: 0 }
                }).boxed()
            }, trip),
            leg("ids", o(24, 300).hang(200), || {
                (auth_any(), crypt_any(), 1500usize..2500, 1usize..4, any::<u64>())
                    .prop_map(|(auth, mut crypt, n, senders, seed)| {
                        crypt.cache = None;
                        Ids { auth, crypt, n, senders, seed }
                    })
                    .boxed()
            }, ids),
            leg("long", o(16, 400).hang(250).shrink(60), || {
                (auth_any(), crypt_any(), prop_oneof![2 => 1_000u32..20_000, 1 => 66_000u32..70_000], prop_oneof![1 => Just(0u16), 3 => 2..300u16], prop_oneof![1u32..50, 50u32..5_000], any::<u64>())
                    .prop_map(|(auth, crypt, n, many, late, seed)| Long { auth, crypt, n, many, late, seed })
                    .boxed()
            }, long),
        ],
    }
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sizes {
    auth: AuthSpec,
    crypt: CryptSpec,
    ts: usize,
    msgs: Vec<Payload>,
}
fn sizes(c: &Sizes) -> Verdict {
    (|| -> R<Info> {
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let mut n = 0;
        let mut near = false;
        for m in &c.msgs {
            let p = m.get();
            match out.process(&p) {
                Ok(pk) => {
                    let last = pk.len() - 1;
                    for (i, b) in pk.iter().enumerate() {
                        n += 1;
                        ensure!(b.len() <= c.ts, "oversized", "packet {}/{} has {} bytes, transmission size {} ({} {})", i, last, b.len(), c.ts, c.auth.name(), c.crypt.kind.name());
                        near |= b.len() + 3 >= c.ts;
                    }
                }
                Err(e) => ensure!(c.ts < ENOUGH, "encode-error", "refused with transmission size {}: {:?}", c.ts, e),
            }
        }
        Ok(Info::new().nt(n > 1).class(format!("auth-{}", c.auth.name())).class(format!("crypt-{}", c.crypt.kind.name())).class_if(near, "within-3-bytes-of-limit").class_if(n == 0, "too-small"))
    })()
    .into()
}
pub fn c02(live: Leg) -> Check {
    let mk = |ts: BoxedStrategy<usize>, max: usize| {
        (auth_any(), crypt_any(), ts, prop::collection::vec(payload(max), 1..4))
            .prop_map(|(auth, crypt, ts, msgs)| Sizes { auth, crypt, ts, msgs })
            .boxed()
    };
    Check {
        rule: "A case is (auth, cipher, transmission size, payloads); every produced packet is measured; live: what clients and servers send over TCP, UDP and UDP over IPv6. Non-trivial when more than one packet was produced, or one of over 400 bytes received.",
        assumptions: vec![],
        legs: vec![
            leg("tiny", o(30000, 60_000), move || mk((0usize..330).boxed(), 300), sizes),
            leg("small", o(30000, 80_000), move || mk((320usize..700).boxed(), 4000), sizes),
            leg("real", o(8000, 25_000), move || mk(prop_oneof![Just(508usize), Just(1212), Just(1500), 700usize..3000, Just(65507)].boxed(), 40_000), sizes),
            live,
        ],
    }
}

// ---------------------------------------------------------------- C03
/// One edit of a recorded packet stream
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Flip { bit: u32 },
    Truncate { keep: u16 },
    Append { tail: Vec<u8> },
    SetByte { at: u16, val: u8 },
    /// Data of one packet with the signature of another (re-encoded)
    SwapData { other: u8 },
    SwapMeta { other: u8 },
    /// Signature replaced by: a prefix, the noop digest, or a self-made one under another key
    Sig { how: u8 },
    /// change a metadata field
    Meta { field: u8, delta: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    auth: AuthSpec,
    other: AuthSpec,
    crypt: CryptSpec,
    ts: usize,
    msg: Payload,
    victim: u8,
    edit: Edit,
    order_seed: u64,
    /// deliver the genuine packet afterwards
    genuine_after: bool,
}

use serde_cbor::Value as CV;
/// Finds every map in a CBOR value, in a fixed order
fn edit_cbor(pks: &[Vec<u8>], v: usize, e: &Edit) -> Option<Vec<u8>> {
    let parse = |b: &[u8]| serde_cbor::from_slice::<CV>(b).ok();
    let a = parse(&pks[v])?;
    let top = |x: &CV| if let CV::Map(m) = x { Some(m.clone()) } else { None };
    let mut am = top(&a)?;
    let keys: Vec<CV> = am.keys().cloned().collect();
    if keys.len() != 3 {
        return None;
    }
    let find = |m: &std::collections::BTreeMap<CV, CV>, f: &dyn Fn(&CV) -> bool| m.iter().find(|(_, x)| f(x)).map(|x| x.0.clone());
    let data_key = find(&am, &|x| matches!(x, CV::Bytes(_)))?;
    // metadata is the map with the most entries
    let meta_key = find(&am, &|x| matches!(x, CV::Map(m) if m.len() == 3))?;
    let sig_key = keys.iter().find(|k| **k != data_key && **k != meta_key)?.clone();
    match e {
        Edit::SwapData { other } => {
            let b = top(&parse(&pks[*other as usize % pks.len()])?)?;
            am.insert(data_key.clone(), b.get(&data_key)?.clone());
        }
        Edit::SwapMeta { other } => {
            let b = top(&parse(&pks[*other as usize % pks.len()])?)?;
            am.insert(meta_key.clone(), b.get(&meta_key)?.clone());
        }
        Edit::Sig { how } => {
            fn walk(v: &mut CV, how: u8) {
                match v {
                    CV::Array(a) => {
                        let n = a.len();
                        match how % 5 {
                            0 => a.iter_mut().for_each(|x| *x = CV::Integer(0)),
                            1 => a.truncate(n / 2),
                            2 => a[n / 2..].iter_mut().for_each(|x| *x = CV::Integer(0)),
                            3 => a.clear(),
                            _ => a[..n / 2].iter_mut().for_each(|x| *x = CV::Integer(7)),
                        }
                    }
                    CV::Map(m) => m.values_mut().for_each(|x| walk(x, how)),
                    _ => {}
                }
            }
            walk(am.get_mut(&sig_key)?, *how);
        }
        Edit::Meta { field, delta } => {
            let m = match am.get_mut(&meta_key)? {
                CV::Map(m) => m,
                _ => return None,
            };
            let ks: Vec<CV> = m.iter().filter(|(_, v)| matches!(v, CV::Integer(_))).map(|x| x.0.clone()).collect();
            if ks.is_empty() {
                return None;
            }
            let k = &ks[*field as usize % ks.len()];
            if let Some(CV::Integer(i)) = m.get_mut(k) {
                *i = (*i + *delta as i128) & 0xffff_ffff;
            }
        }
        _ => return None,
    }
    serde_cbor::ser::to_vec_packed(&CV::Map(am)).ok()
}

/// The values a packet holds, in order. CBOR has several encodings of the same packet (text or
/// byte strings, an enum as pair or map); they are the same packet.
fn leaves(v: &CV, out: &mut Vec<Vec<u8>>) {
    match v {
        CV::Text(t) => out.push(t.clone().into_bytes()),
        CV::Bytes(b) => out.push(b.clone()),
        CV::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        CV::Map(m) => m.iter().for_each(|(k, x)| {
            leaves(k, out);
            leaves(x, out)
        }),
        CV::Integer(i) => out.push(i.to_be_bytes().to_vec()),
        x => out.push(format!("{:?}", x).into_bytes()),
    }
}
fn flat(v: CV) -> Vec<Vec<u8>> {
    let mut o = vec![];
    leaves(&v, &mut o);
    o
}

fn tamper(c: &Tamper) -> Verdict {
    (|| -> R<Info> {
        let payload = c.msg.get();
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let pks = match out.process(&payload) {
            Ok(p) => p,
            Err(e) => return if c.ts < ENOUGH { Ok(Info::new()) } else { bad("encode-error", format!("{:?}", e)) },
        };
        let mut inb = receiver(c.ts, LONG, &c.auth, &c.crypt);
        let v = c.victim as usize % pks.len();
        let mut what = format!("{:?}", c.edit);
        what.truncate(what.find(|x: char| !x.is_alphanumeric()).unwrap_or(what.len()));
        let forged = match &c.edit {
            Edit::Flip { bit } => {
                let mut b = pks[v].clone();
                let i = *bit as usize % (b.len() * 8);
                b[i / 8] ^= 1 << (i % 8);
                b
            }
            Edit::Truncate { keep } => pks[v][..*keep as usize % pks[v].len()].to_vec(),
            Edit::Append { tail } => [&pks[v][..], tail].concat(),
            Edit::SetByte { at, val } => {
                let mut b = pks[v].clone();
                let i = *at as usize % b.len();
                b[i] = *val;
                b
            }
            e => match edit_cbor(&pks, v, e) {
                Some(b) => b,
                None => return Ok(Info::new().class("edit-not-applicable")),
            },
        };
        if forged == pks[v] {
            return Ok(Info::new().class("edit-no-change"));
        }
        // A byte edit that yields another encoding of the very same packet content may be
        // accepted as that packet; anything else must be refused.
        let same_content = match (serde_cbor::from_slice::<CV>(&forged), serde_cbor::from_slice::<CV>(&pks[v])) {
            (Ok(a), Ok(b)) => flat(a) == flat(b),
            _ => false,
        };
        // packets of the message go in in some order, the forged one first in place of the genuine one
        let order = arrange(&[pks.len()], Order::Shuffled, c.order_seed);
        let mut delivered = 0;
        let mut accepted = false;
        let mut seen: HashSet<usize> = HashSet::new();
        for (_, i) in order {
            if i == v {
                match no_panic(|| inb.process(&forged)) {
                    Err(p) => return bad("panic", format!("tampered packet caused a panic: {}", p)),
                    Ok(Ok(Some(d))) => {
                        ensure!(d == payload, "forged-delivered", "tampered packet ({}) produced {}", what, hx(&d));
                        ensure!(same_content, "forged-accepted", "a packet altered by {:?} was accepted and completed the message\n{}\n{}", c.edit, hexall(&pks[v]), hexall(&forged));
                        delivered += 1;
                        accepted = true;
                    }
                    Ok(Ok(None)) => {
                        // an empty datagram is ignored, everything else must be an error
                        ensure!(forged.is_empty() || same_content, "forged-accepted", "a packet altered by {:?} was accepted silently (packet {} of {})\n{}\n{}", c.edit, v, pks.len(), hexall(&pks[v]), hexall(&forged));
                        accepted = !forged.is_empty();
                    }
                    Ok(Err(_)) => {}
                }
                if accepted {
                    seen.insert(i);
                    continue;
                }
                if !c.genuine_after {
                    continue;
                }
            }
            seen.insert(i);
            match inb.process(&pks[i]) {
                Ok(Some(d)) => {
                    ensure!(d == payload, "corrupt", "delivered {} instead of the message", hx(&d));
                    ensure!(seen.len() == pks.len(), "early", "delivered after {} of {} genuine packets", seen.len(), pks.len());
                    delivered += 1;
                }
                Ok(None) => ensure!(seen.len() < pks.len(), "not-delivered", "genuine packets all arrived (a tampered copy {:?} before them) and nothing was delivered", c.edit),
                Err(e) => return bad("genuine-rejected", format!("genuine packet {} of {} rejected after a tampered copy ({:?}): {:?}", i, pks.len(), c.edit, e)),
            }
        }
        if !accepted && !c.genuine_after {
            ensure!(delivered == 0, "forged-delivered", "message delivered although one genuine packet never arrived");
        } else {
            ensure!(delivered == 1, "lost", "message delivered {} times", delivered);
        }
        Ok(Info::new().nt(true).class(format!("edit-{}", what)).class(format!("auth-{}", c.auth.name())).class_if(pks.len() > 1, "multi-packet").class_if(same_content, "same-content").class_if(c.genuine_after, "genuine-after"))
    })()
    .into()
}

/// Sender and receiver disagree about key or scheme
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrongKey {
    auth: AuthSpec,
    crypt: CryptSpec,
    /// 0: other auth key, 1: other auth scheme, 2: other cipher key, 3: other cipher kind, 4: key one bit away
    how: u8,
    other_auth: AuthSpec,
    other_kind: CryptKind,
    bit: u16,
    ts: usize,
    msg: Payload,
}
fn wrong_key(c: &WrongKey) -> Verdict {
    (|| -> R<Info> {
        let payload = c.msg.get();
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let pks = match out.process(&payload) {
            Ok(p) => p,
            Err(_) if c.ts < ENOUGH => return Ok(Info::new()),
            Err(e) => return bad("encode-error", format!("{:?}", e)),
        };
        let mut a = c.auth.clone();
        let mut k = c.crypt.clone();
        match c.how % 5 {
            0 | 1 => a = c.other_auth.clone(),
            2 => k.key_seed = k.key_seed.wrapping_add(1 + c.bit as u64),
            3 => k.kind = c.other_kind,
            _ => {
                let flip = |v: &Vec<u8>| {
                    let mut v = v.clone();
                    if v.is_empty() {
                        v.push(1)
                    } else {
                        let i = c.bit as usize % (v.len() * 8);
                        v[i / 8] ^= 1 << (i % 8);
                    }
                    v
                };
                a = match &a {
                    AuthSpec::Noop => AuthSpec::Noop,
                    AuthSpec::Sha256(x) => AuthSpec::Sha256(flip(x)),
                    AuthSpec::Sha512(x) => AuthSpec::Sha512(flip(x)),
                }
            }
        }
        // HMAC pads short keys with zeros, so keys differing only in trailing zeros are the same
        // key; the digest says which hash was used, so a receiver set up for the other hash but
        // holding the same key may accept
        let key = |a: &AuthSpec| -> Option<Vec<u8>> {
            let mut k = match a {
                AuthSpec::Noop => return None,
                AuthSpec::Sha256(k) | AuthSpec::Sha512(k) => k.clone(),
            };
            let block = if matches!(c.auth, AuthSpec::Sha512(_)) { 128 } else { 64 };
            while k.len() <= block && k.last() == Some(&0) {
                k.pop();
            }
            Some(k)
        };
        let auth_differs = a != AuthSpec::Noop && key(&a) != key(&c.auth);
        let crypt_differs = (k.kind != c.crypt.kind && k.kind != CryptKind::Noop) || (k.kind == c.crypt.kind && k.kind != CryptKind::Noop && k.key_seed != c.crypt.key_seed);
        if !auth_differs && !crypt_differs {
            return Ok(Info::new().class("no-difference"));
        }
        let mut inb = receiver(c.ts, LONG, &a, &k);
        for p in &pks {
            match no_panic(|| inb.process(p)) {
                Err(p) => return bad("panic", p),
                Ok(Ok(Some(d))) => return bad("foreign-accepted", format!("message of a peer with another key or scheme was delivered: {} (auth {:?} vs {:?}, cipher {:?} vs {:?})", hx(&d), c.auth, a, c.crypt, k)),
                Ok(Ok(None)) => ensure!(!auth_differs, "foreign-packet-accepted", "a packet signed by a peer with another key was accepted"),
                Ok(Err(_)) => {}
            }
        }
        Ok(Info::new().nt(true).class(format!("how-{}", c.how % 5)).class_if(auth_differs, "auth-differs").class_if(crypt_differs, "crypt-differs"))
    })()
    .into()
}

fn edits() -> BoxedStrategy<Edit> {
    prop_oneof![
        4 => any::<u32>().prop_map(|bit| Edit::Flip { bit }),
        1 => any::<u16>().prop_map(|keep| Edit::Truncate { keep }),
        1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(|tail| Edit::Append { tail }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(at, val)| Edit::SetByte { at, val }),
        2 => any::<u8>().prop_map(|other| Edit::SwapData { other }),
        2 => any::<u8>().prop_map(|other| Edit::SwapMeta { other }),
        2 => any::<u8>().prop_map(|how| Edit::Sig { how }),
        2 => (any::<u8>(), prop_oneof![1u32..4, any::<u32>()]).prop_map(|(field, delta)| Edit::Meta { field, delta }),
    ]
    .boxed()
}

pub fn c03() -> Check {
    Check {
        rule: "Tamper legs: a genuine packet stream under a keyed authenticator with one packet altered (bit, byte, truncation, field swap, signature edit, metadata edit), then optionally the genuine packet. Non-trivial when the altered bytes differ from the genuine ones. Oracle: only the original payload may ever come out, the altered packet must be refused unless it is another encoding of the same content, and the genuine packets must still complete.",
        assumptions: vec!["HMAC-SHA-256/512 and the AES modes are not broken by chance (2^-64 events ignored)"],
        legs: vec![
            leg("tamper", o(250_000, 5_000_000), || {
                (auth_keyed(), auth_keyed(), crypt_any(), 330usize..600, payload(1500), any::<u8>(), edits(), any::<u64>(), any::<bool>())
                    .prop_map(|(auth, other, crypt, ts, msg, victim, edit, order_seed, genuine_after)| Tamper { auth, other, crypt, ts, msg, victim, edit, order_seed, genuine_after })
            }, tamper),
            leg("wrong-key", o(60_000, 1_500_000), || {
                (auth_any(), crypt_any(), any::<u8>(), auth_any(), kind_any(), any::<u16>(), 330usize..600, payload(1200))
                    .prop_map(|(auth, crypt, how, other_auth, other_kind, bit, ts, msg)| WrongKey { auth, crypt, how, other_auth, other_kind, bit, ts, msg })
            }, wrong_key),
        ],
    }
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Junk {
    Raw(Vec<u8>),
    /// well-formed packet shapes with odd values (cbor, packed or named)
    Shaped { id: u32, index: u32, fin: u8, sig: u8, data: Vec<u8>, named: bool },
    /// a genuine packet of a foreign peer (another key), possibly damaged
    Foreign { pick: u8, bit: Option<u32> },
    /// many small cbor containers
    Nested { depth: u16, tag: u8 },
    HugeLen { ty: u8, len: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    auth: AuthSpec,
    crypt: CryptSpec,
    ts: usize,
    junk: Vec<Junk>,
    msg: Payload,
    gaps: Vec<u8>,
}
fn junk_bytes(j: &Junk, foreign: &[Vec<u8>], like: &[u8]) -> Vec<u8> {
    match j {
        Junk::Raw(v) => v.clone(),
        Junk::Nested { depth, tag } => {
            let b = match tag % 4 {
                0 => 0x81,
                1 => 0xa1,
                2 => 0xc1,
                _ => 0x9f,
            };
            vec![b; *depth as usize]
        }
        Junk::HugeLen { ty, len } => {
            let mut v = vec![((ty % 8) << 5) | 27];
            v.extend_from_slice(&len.to_be_bytes());
            v
        }
        Junk::Foreign { pick, bit } => {
            let mut b = foreign[*pick as usize % foreign.len()].clone();
            if let Some(bit) = bit {
                let i = *bit as usize % (b.len() * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
            b
        }
        Junk::Shaped { id, index, fin, sig, data, named } => {
            // take the shape of a genuine packet and replace the values
            let mut v: CV = match serde_cbor::from_slice(like) {
                Ok(v) => v,
                Err(_) => return data.clone(),
            };
            if let CV::Map(m) = &mut v {
                for (_, x) in m.iter_mut() {
                    match x {
                        CV::Bytes(b) => *b = data.clone(),
                        CV::Map(mm) if mm.len() == 3 => {
                            let mut ints = 0;
                            for (_, y) in mm.iter_mut() {
                                if let CV::Integer(i) = y {
                                    *i = if ints == 0 { *id as i128 } else { *index as i128 };
                                    ints += 1;
                                } else if fin % 4 == 0 {
                                    *y = CV::Text("NotFinal".into());
                                } else if fin % 4 == 1 {
                                    *y = CV::Integer(*fin as i128);
                                }
                            }
                        }
                        CV::Map(_) | CV::Array(_) => {
                            fn set(v: &mut CV, s: u8) {
                                match v {
                                    CV::Array(a) => a.iter_mut().enumerate().for_each(|(i, x)| *x = CV::Integer(((i as u8).wrapping_mul(s)) as i128)),
                                    CV::Map(m) => m.values_mut().for_each(|x| set(x, s)),
                                    _ => {}
                                }
                            }
                            set(x, *sig)
                        }
                        _ => {}
                    }
                }
            }
            if *named { serde_cbor::to_vec(&v) } else { serde_cbor::ser::to_vec_packed(&v) }.unwrap_or_default()
        }
    }
}
fn hostile(c: &Hostile) -> Verdict {
    (|| -> R<Info> {
        let keyed = c.auth != AuthSpec::Noop;
        let mut c = c.clone();
        if !keyed {
            // anybody may use up a nonce on an unauthenticated wire
            c.crypt.cache = None;
        }
        let payload = c.msg.get();
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let mut inb = receiver(c.ts, LONG, &c.auth, &c.crypt);
        let fa = AuthSpec::Sha256(vec![0xEE; 50]);
        let mut fs = sender(c.ts, &fa, &CryptSpec { kind: CryptKind::Gcm128, key_seed: 1, cache: None });
        let foreign = fs.process(&bytes(9, 900)).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
        let pks = out.process(&payload).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
        // junk is spread between the genuine packets
        let mut slots: Vec<Vec<Vec<u8>>> = vec![vec![]; pks.len() + 1];
        for (i, j) in c.junk.iter().enumerate() {
            let g = c.gaps.get(i).copied().unwrap_or(0) as usize % (pks.len() + 1);
            slots[g].push(junk_bytes(j, &foreign, &pks[0]));
        }
        let feed = |inb: &mut In, b: &Vec<u8>| -> R<()> {
            match no_panic(|| inb.process(b)) {
                Err(p) => bad("panic", format!("input {} caused a panic: {}", hx(b), p)),
                Ok(Ok(Some(d))) if keyed => bad("junk-delivered", format!("junk {} delivered as message {}", hx(b), hx(&d))),
                _ => Ok(()),
            }
        };
        for i in 0..pks.len() {
            for b in &slots[i] {
                feed(&mut inb, b)?;
            }
            let r = inb.process(&pks[i]);
            let last = i + 1 == pks.len();
            match r {
                Ok(Some(d)) => ensure!(d == payload && last, "corrupt", "delivered {} at packet {} of {}", hx(&d), i, pks.len()),
                Ok(None) => ensure!(!last, "not-delivered", "hostile input kept a genuine message from being delivered"),
                Err(e) => return bad("genuine-rejected", format!("genuine packet {} of {} rejected after hostile input: {:?}", i, pks.len(), e)),
            }
        }
        for b in &slots[pks.len()] {
            feed(&mut inb, b)?;
        }
        Ok(Info::new().nt(!c.junk.is_empty()).class(format!("auth-{}", c.auth.name())).class_if(pks.len() > 1, "multi-packet")
            .class_if(c.junk.iter().any(|j| matches!(j, Junk::Shaped{..})), "shaped")
            .class_if(c.junk.iter().any(|j| matches!(j, Junk::Foreign{..})), "foreign"))
    })()
    .into()
}
fn junks() -> BoxedStrategy<Junk> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..80).prop_map(Junk::Raw),
        1 => prop::collection::vec(prop_oneof![Just(0xa3u8), Just(0u8), Just(1), Just(2), Just(0x82), Just(0x1a), Just(0xff), Just(0x9f), Just(0xbf), Just(0x58), any::<u8>()], 0..80).prop_map(Junk::Raw),
        4 => (any::<u32>(), prop_oneof![0u32..5, any::<u32>(), Just(u32::MAX)], any::<u8>(), any::<u8>(), prop::collection::vec(any::<u8>(), 0..40), any::<bool>())
            .prop_map(|(id, index, fin, sig, data, named)| Junk::Shaped { id, index, fin, sig, data, named }),
        2 => (any::<u8>(), prop::option::of(any::<u32>())).prop_map(|(pick, bit)| Junk::Foreign { pick, bit }),
        1 => (0u16..2000, any::<u8>()).prop_map(|(depth, tag)| Junk::Nested { depth, tag }),
        1 => (any::<u8>(), prop_oneof![any::<u64>(), 1u64..1_000_000_000]).prop_map(|(ty, len)| Junk::HugeLen { ty, len }),
    ]
    .boxed()
}
pub fn c04_wire() -> Leg {
    leg("wire", o(120_000, 3_000_000), || {
        (auth_any(), crypt_any(), 330usize..600, prop::collection::vec(junks(), 1..12), payload(1500), prop::collection::vec(any::<u8>(), 12))
            .prop_map(|(auth, crypt, ts, junk, msg, gaps)| Hostile { auth, crypt, ts, junk, msg, gaps })
    }, hostile)
}
pub fn c04(live: Leg) -> Check {
    Check {
        rule: "wire: hostile packets (random, malformed, well-formed with any field values) around a genuine message on the wire layer; live: the same against a listening TCP or UDP server, over several sockets, one of them (UDP) the genuine client's own. Non-trivial: at least one hostile packet. Oracle: no panic, the genuine exchanges are answered, with a keyed authenticator nothing else is handled.",
        assumptions: vec!["an answer absent for 12 s (over UDP: three runs in a row) on a machine that was running is lost", "a hostile TCP peer may lose its own connection"],
        legs: vec![c04_wire(), live],
    }
}

// ---------------------------------------------------------------- C07 expiry
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Expiry {
    auth: AuthSpec,
    crypt: CryptSpec,
    ts: usize,
    ttl_ms: u64,
    msgs: Vec<Payload>,
    /// packets (by fraction) of each message delivered before the pause
    before: Vec<u8>,
    order_seed: u64,
    /// 0: short pause (well below ttl), 1: pause beyond ttl
    long: bool,
    /// after the pause another message arrives first
    other_first: bool,
    resend: bool,
}
fn expiry(c: &Expiry) -> Verdict {
    (|| -> R<Info> {
        let ttl = Duration::from_millis(c.ttl_ms);
        let mut out = sender(c.ts, &c.auth, &c.crypt);
        let mut inb = receiver(c.ts, ttl, &c.auth, &c.crypt);
        let mut all = vec![];
        for m in &c.msgs {
            let p = m.get();
            let k = out.process(&p).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
            all.push((p, k));
        }
        let t0 = Instant::now();
        let mut before: Vec<Vec<usize>> = vec![];
        let mut after: Vec<Vec<usize>> = vec![];
        for (i, (_, k)) in all.iter().enumerate() {
            let ord: Vec<usize> = arrange(&[k.len()], Order::Shuffled, c.order_seed + i as u64).into_iter().map(|x| x.1).collect();
            let n = if k.len() == 1 { 0 } else { 1 + (c.before[i % c.before.len()] as usize % (k.len() - 1)) };
            before.push(ord[..n].to_vec());
            after.push(ord[n..].to_vec());
        }
        for (i, b) in before.iter().enumerate() {
            for p in b {
                match inb.process(&all[i].1[*p]) {
                    Ok(None) => {}
                    // the machine was slow: the message may have expired underway
                    r if t0.elapsed() >= ttl => return env(format!("slow: {:?}", r.is_ok())),
                    Ok(Some(_)) => return bad("early", "delivered before all packets arrived"),
                    Err(e) => return bad("packet-rejected", format!("{:?}", e)),
                }
            }
        }
        let fed = Instant::now();
        std::thread::sleep(if c.long { ttl + Duration::from_millis(15) } else { Duration::from_millis(1) });
        if c.other_first {
            let p = b"other".to_vec();
            let k = out.process(&p).unwrap();
            for (i, x) in k.iter().enumerate() {
                match inb.process(x) {
                    Ok(Some(d)) => ensure!(d == p && i + 1 == k.len(), "corrupt", "other message came out as {}", hx(&d)),
                    Ok(None) => ensure!(i + 1 < k.len(), "not-delivered", "a fresh message after a pause was not delivered"),
                    Err(e) => return bad("packet-rejected", format!("{:?}", e)),
                }
            }
        }
        let mut expired = 0;
        let mut alive = 0;
        for (i, a) in after.iter().enumerate() {
            let had = !before[i].is_empty();
            for (n, p) in a.iter().enumerate() {
                let now = Instant::now();
                let r = inb.process(&all[i].1[*p]);
                let within = t0.elapsed() < ttl;
                let beyond = now.duration_since(fed) >= ttl;
                let last = n + 1 == a.len();
                match r {
                    Ok(Some(d)) => {
                        ensure!(d == all[i].0, "corrupt", "message came out as {}", hx(&d));
                        ensure!(last, "early", "delivered too early");
                        ensure!(!(c.long && beyond && had), "stale", "packets received more than the ttl ({:?}) earlier still completed a message", ttl);
                        alive += 1;
                    }
                    Ok(None) => {
                        if last && (within || !had) {
                            // message never paused, or everything arrived within the ttl
                            ensure!(t0.elapsed() >= ttl && had || (!had && now.elapsed() >= ttl), "expired-early", "all packets arrived within {:?} (ttl {:?}) and nothing was delivered", t0.elapsed(), ttl);
                        }
                        if last && had && c.long {
                            expired += 1;
                        }
                    }
                    Err(e) => {
                        if had && t0.elapsed() >= ttl && !c.long {
                            return env("slow");
                        }
                        return bad("packet-rejected", format!("packet {} of {} after {:?}: {:?}", p, all[i].1.len(), t0.elapsed(), e));
                    }
                }
            }
            // the stale half was dropped: resending it completes the message
            if c.long && had && c.resend {
                let t = Instant::now();
                let mut ok = false;
                for (n, p) in before[i].iter().enumerate() {
                    match inb.process(&all[i].1[*p]) {
                        Ok(Some(d)) => {
                            ensure!(d == all[i].0 && n + 1 == before[i].len(), "corrupt", "resent message came out as {}", hx(&d));
                            ok = true;
                        }
                        Ok(None) => {}
                        Err(e) => {
                            if t.elapsed() > ttl / 2 {
                                return env("slow");
                            }
                            return bad("resend-rejected", format!("{:?}", e));
                        }
                    }
                }
                if !ok {
                    if t.elapsed() + Duration::from_millis(c.ttl_ms / 3) > ttl {
                        return env("slow");
                    }
                    return bad("resend-lost", "resending the expired part did not complete the message");
                }
            }
        }
        Ok(Info::new().nt(before.iter().any(|b| !b.is_empty())).class_if(expired > 0, "expired").class_if(alive > 0 && !c.long, "completed-within-ttl").class_if(c.long, "long-pause").class_if(c.other_first, "other-first").class_if(c.resend && c.long, "resend"))
    })()
    .into()
}
pub fn c07(live: Leg) -> Check {
    Check {
        rule: "A case sends part of one or more multi-packet messages, pauses (beyond or well below the packet ttl), then sends the rest, optionally after another message and followed by a resend. Non-trivial when some message was incomplete at the pause. Presence is asserted only when the harness's own clock shows the whole exchange stayed below the ttl.",
        assumptions: vec!["the monotonic clock of the machine"],
        legs: vec![
            leg("pause-beyond", o(900, 20_000).threads(24), || exp(true), expiry),
            leg("pause-within", o(1500, 30_000), || exp(false), expiry),
            live,
        ],
    }
}
fn exp(long: bool) -> BoxedStrategy<Expiry> {
    (auth_any(), crypt_any(), 330usize..450, if long { 30u64..60 } else { 3000u64..6000 }, prop::collection::vec(payload(2500), 1..4), prop::collection::vec(any::<u8>(), 3), any::<u64>(), any::<bool>(), any::<bool>())
        .prop_map(move |(auth, mut crypt, ts, ttl_ms, msgs, before, order_seed, other_first, resend)| {
            crypt.cache = None;
            Expiry { auth, crypt, ts, ttl_ms, msgs, before, order_seed: order_seed >> 8, long, other_first, resend }
        })
        .boxed()
}
