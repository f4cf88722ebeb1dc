use crate::fw::*;
use crate::wirekit::*;
use aead::generic_array::GenericArray;
use aead::{Aead, NewAead};
use over_there::core::transport::auth::{Digest, Signer, Verifier};
use over_there::core::transport::crypto::nonce::{cache::NonceCacheBicrypter};
use over_there::core::transport::crypto::{AssociatedData, CryptError, Decrypter, Encrypter, Nonce};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest as _, Sha256, Sha512};
use std::collections::{HashMap, HashSet, VecDeque};
use std::convert::TryFrom;
use std::sync::{Arc, Barrier};

fn ad(n: &[u8]) -> AssociatedData {
    if n.len() == 12 {
        let mut a = [0; 12];
        a.copy_from_slice(n);
        AssociatedData::Nonce(Nonce::from(a))
    } else {
        let mut a = [0; 16];
        a.copy_from_slice(n);
        AssociatedData::Nonce(Nonce::from(a))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cipher {
    kind: CryptKind,
    key_seed: u64,
    nonce_seed: u64,
    msg: Payload,
    /// what is changed before decrypting
    change: u8,
    pos: u32,
}

/// The same cipher straight from the primitive crates
fn reference(kind: CryptKind, key: &[u8], n: &[u8], m: &[u8]) -> Vec<u8> {
    macro_rules! e {
        ($t:ty) => {
            <$t>::new(GenericArray::clone_from_slice(key)).encrypt(GenericArray::from_slice(n), m).unwrap()
        };
    }
    match kind {
        CryptKind::Noop => m.to_vec(),
        CryptKind::Gcm128 => e!(aes_gcm::Aes128Gcm),
        CryptKind::Gcm256 => e!(aes_gcm::Aes256Gcm),
        CryptKind::GcmSiv128 => e!(aes_gcm_siv::Aes128GcmSiv),
        CryptKind::GcmSiv256 => e!(aes_gcm_siv::Aes256GcmSiv),
        CryptKind::Siv128 => e!(aes_siv::Aes128SivAead),
        CryptKind::Siv256 => e!(aes_siv::Aes256SivAead),
    }
}

fn cipher(c: &Cipher) -> Verdict {
    (|| -> R<Info> {
        let key = bytes(c.key_seed, c.kind.key_len());
        let b = c.kind.build(&key, None);
        let n = bytes(c.nonce_seed, c.kind.nonce_len());
        let m = c.msg.get();
        let ct = match b.encrypt(&m, &ad(&n)) {
            Ok(x) => x,
            Err(e) => return bad("encrypt-error", format!("{:?}: {:?}", c.kind, e)),
        };
        let b2 = c.kind.build(&key, None);
        match b2.decrypt(&ct, &ad(&n)) {
            Ok(d) => ensure!(d == m, "corrupt", "decrypt(encrypt(m)) != m for {:?}, {} bytes", c.kind, m.len()),
            Err(e) => return bad("decrypt-error", format!("{:?}: {:?}", c.kind, e)),
        }
        ensure!(ct == reference(c.kind, &key, &n, &m), "not-the-cipher", "{:?} ciphertext differs from the primitive's", c.kind);
        if m.len() >= 16 {
            for w in [&m[..16], &m[m.len() - 16..]] {
                if w.iter().collect::<HashSet<_>>().len() > 4 {
                    ensure!(!ct.windows(16).any(|x| x == w), "plaintext-visible", "16 plaintext bytes appear in the ciphertext of {:?}", c.kind);
                }
            }
        }
        // one change must make decryption fail
        let flip = |v: &[u8]| {
            let mut v = v.to_vec();
            let i = c.pos as usize % (v.len() * 8);
            v[i / 8] ^= 1 << (i % 8);
            v
        };
        let what;
        let r = match c.change % 8 {
            0 => {
                what = "key bit";
                if m.is_empty() && c.kind.nonce_len() == 16 {
                    // SIV encrypts nothing here: its second key half is not used at all
                    return Ok(Info::new());
                }
                c.kind.build(&flip(&key), None).decrypt(&ct, &ad(&n))
            }
            1 => {
                what = "nonce bit";
                b2.decrypt(&ct, &ad(&flip(&n)))
            }
            2 => {
                what = "ciphertext bit";
                b2.decrypt(&flip(&ct), &ad(&n))
            }
            3 => {
                what = "truncation";
                b2.decrypt(&ct[..c.pos as usize % ct.len()], &ad(&n))
            }
            4 => {
                what = "extension";
                b2.decrypt(&[&ct[..], &[c.pos as u8]].concat(), &ad(&n))
            }
            5 => {
                what = "nonce size";
                let o = bytes(c.nonce_seed, if n.len() == 12 { 16 } else { 12 });
                match b2.encrypt(&m, &ad(&o)) {
                    Ok(_) => return bad("wrong-nonce-size", format!("{:?} encrypted with a nonce of {} bytes", c.kind, o.len())),
                    Err(CryptError::NonceWrongSize { provided_size }) => ensure!(provided_size == o.len(), "wrong-error", "NonceWrongSize reports {} for {}", provided_size, o.len()),
                    Err(e) => return bad("wrong-error", format!("wrong nonce size reported as {:?}", e)),
                }
                b2.decrypt(&ct, &ad(&o))
            }
            6 => {
                what = "missing nonce";
                match b2.encrypt(&m, &AssociatedData::None) {
                    Err(CryptError::MissingNonce) => {}
                    r => return bad("no-nonce", format!("encrypting without a nonce: {:?}", r.map(|x| x.len()))),
                }
                b2.decrypt(&ct, &AssociatedData::None)
            }
            _ => {
                what = "other cipher";
                let ks = [CryptKind::Gcm128, CryptKind::Gcm256, CryptKind::GcmSiv128, CryptKind::GcmSiv256, CryptKind::Siv128, CryptKind::Siv256];
                let k = ks[c.pos as usize % 6];
                if k == c.kind {
                    return Ok(Info::new());
                }
                let mut kk = key.clone();
                kk.resize(k.key_len(), 0);
                let mut nn = n.clone();
                nn.resize(k.nonce_len(), 0);
                k.build(&kk, None).decrypt(&ct, &ad(&nn))
            }
        };
        ensure!(r.is_err(), "forged", "{:?} decrypted after a change of {}", c.kind, what);
        Ok(Info::new().nt(true).class(c.kind.name()).class(format!("change-{}", what)).class_if(m.is_empty(), "empty"))
    })()
    .into()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    kind: CryptKind,
    key_seed: u64,
    cache: Option<usize>,
    n: u16,
    msg: Payload,
    auth: AuthSpec,
}
fn fresh(c: &Fresh) -> Verdict {
    (|| -> R<Info> {
        let spec = CryptSpec { kind: c.kind, key_seed: c.key_seed, cache: c.cache };
        let b = spec.build();
        let mut seen = HashSet::new();
        let nl = c.kind.nonce_len();
        let (mut ones, mut zeros) = (vec![0u8; nl], vec![0u8; nl]);
        for _ in 0..c.n {
            let a = b.new_encrypt_associated_data();
            let n = match a.nonce_slice() {
                Some(n) => n.to_vec(),
                None => return bad("no-nonce", format!("{:?} offers no nonce", c.kind)),
            };
            ensure!(n.len() == nl, "nonce-size", "{:?} offers a nonce of {} bytes", c.kind, n.len());
            for i in 0..nl {
                ones[i] |= n[i];
                zeros[i] |= !n[i];
            }
            ensure!(seen.insert(n), "nonce-repeated", "{:?} offered the same nonce twice within {}", c.kind, c.n);
        }
        if c.n >= 200 {
            ensure!(ones.iter().chain(zeros.iter()).all(|x| *x == 255), "nonce-constant-bits", "nonces of {:?} have constant bits: ever one {:?}, ever zero {:?}", c.kind, ones, zeros);
        }
        // the same message sent repeatedly never looks the same on the wire, nor shows its text
        let m = c.msg.get();
        let mut out = sender(1500, &c.auth, &spec);
        let mut bodies = HashSet::new();
        for _ in 0..12 {
            let pk = out.process(&m).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
            let mut body = vec![];
            for p in &pk {
                if m.len() >= 16 && m[..16].iter().collect::<HashSet<_>>().len() > 4 {
                    ensure!(!p.windows(16).any(|x| x == &m[..16]), "plaintext-visible", "plaintext appears in a packet under {:?}", c.kind);
                }
                if let Ok(serde_cbor::Value::Map(mm)) = serde_cbor::from_slice(p) {
                    for (_, v) in mm {
                        if let serde_cbor::Value::Bytes(x) = v {
                            body.extend(x);
                        }
                    }
                }
            }
            if !body.is_empty() && m.len() >= 2 {
                ensure!(bodies.insert(body), "ciphertext-repeated", "the same message was sent with identical ciphertext under {:?}", c.kind);
            }
        }
        Ok(Info::new().nt(true).class(c.kind.name()).class_if(c.n >= 200, "bit-statistics"))
    })()
    .into()
}

pub fn c05() -> Check {
    Check {
        rule: "cipher: (cipher, key, nonce, plaintext, one change); fresh: repeated nonces and repeated sends under one key. Non-trivial: every completed case. Oracles: the plaintext, the primitive crates used directly, and failure after any single change.",
        assumptions: vec!["the primitive crates aes-gcm, aes-gcm-siv and aes-siv are right", "a 2^-64 forgery does not occur"],
        legs: vec![
            leg("cipher", o(60_000, 3_000_000), || {
                (kind_enc(), any::<u64>(), any::<u64>(), prop_oneof![8 => payload(3000), 1 => Just(Payload::Lit(vec![]))], any::<u8>(), any::<u32>())
                    .prop_map(|(kind, key_seed, nonce_seed, msg, change, pos)| Cipher { kind, key_seed, nonce_seed, msg, change, pos })
            }, cipher),
            leg("fresh", o(2_500, 100_000), || {
                (kind_enc(), any::<u64>(), prop_oneof![Just(None), Just(Some(2000usize))], prop_oneof![2u16..20, 200u16..800], payload(800), auth_any())
                    .prop_map(|(kind, key_seed, cache, n, msg, auth)| Fresh { kind, key_seed, cache, n, msg, auth })
            }, fresh),
        ],
    }
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CacheCase {
    kind: CryptKind,
    cap: usize,
    pool: u8,
    /// (nonce index, decrypt?, clone to use, ciphertext good?)
    ops: Vec<(u8, bool, u8, bool)>,
}
fn nonce_of(kind: CryptKind, i: u8, pool: u8) -> Vec<u8> {
    let mut n = vec![0x55; kind.nonce_len()];
    let k = n.len();
    // nonces differ in a single byte, at either end
    if i % 2 == 0 {
        n[0] = i % pool.max(1)
    } else {
        n[k - 1] = i % pool.max(1)
    }
    n
}
fn cache_case(c: &CacheCase) -> Verdict {
    (|| -> R<Info> {
        let key = bytes(7, c.kind.key_len());
        let plain = c.kind.build(&key, None);
        let b: Vec<NonceCacheBicrypter<DynCrypt>> = {
            let x = NonceCacheBicrypter::new(plain.clone(), c.cap);
            vec![x.clone(), x.clone(), x]
        };
        let mut model: VecDeque<Vec<u8>> = VecDeque::new();
        let (mut refused, mut evicted) = (0, 0);
        for (step, (i, dec, cl, good)) in c.ops.iter().enumerate() {
            let n = nonce_of(c.kind, *i, c.pool);
            let m = vec![*i; 9];
            let b = &b[*cl as usize % b.len()];
            let expect_refused = c.cap > 0 && model.contains(&n);
            let r = if *dec {
                let mut ct = plain.encrypt(&m, &ad(&n)).map_err(|e| Bad::Fail("encrypt-error".into(), format!("{:?}", e)))?;
                if !good {
                    ct[0] ^= 1;
                }
                let r = b.decrypt(&ct, &ad(&n));
                match &r {
                    Ok(d) => ensure!(*good && d == &m, "corrupt", "step {}: decrypted to something else", step),
                    Err(CryptError::NonceAlreadyUsed { .. }) => {}
                    Err(e) => ensure!(!good, "decrypt-error", "step {}: {:?}", step, e),
                }
                r
            } else {
                let r = b.encrypt(&m, &ad(&n));
                if let Ok(ct) = &r {
                    ensure!(plain.decrypt(ct, &ad(&n)).ok() == Some(m), "corrupt", "step {}: wrong ciphertext", step);
                }
                r
            };
            let was_refused = match &r {
                Err(CryptError::NonceAlreadyUsed { nonce }) => {
                    ensure!(nonce == &n, "wrong-nonce-reported", "step {}: error names {:?} instead of {:?}", step, nonce, n);
                    true
                }
                _ => false,
            };
            ensure!(was_refused == expect_refused, if was_refused { "fresh-refused" } else { "replay-accepted" },
                "step {} of {}: nonce {:?} {} (cache of {}, {} nonces used since)", step, c.ops.len(), n, if was_refused { "refused although not among the last used" } else { "accepted a second time" }, c.cap, model.len());
            if was_refused {
                refused += 1;
            } else if c.cap > 0 {
                model.push_back(n);
                if model.len() > c.cap {
                    model.pop_front();
                    evicted += 1;
                }
            }
        }
        Ok(Info::new().nt(refused > 0).class(c.kind.name()).class_if(refused > 0, "replay-refused").class_if(evicted > 0, "capacity-exceeded").class_if(c.cap == 0, "no-cache"))
    })()
    .into()
}

/// A large cache
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    cap: u32,
    n: u32,
    /// one step in so many is a replay
    every: u8,
    seed: u64,
}
fn large(c: &Large) -> Verdict {
    (|| -> R<Info> {
        use rand::{Rng, SeedableRng};
        let kind = CryptKind::Gcm128;
        let plain = kind.build(&bytes(7, 16), None);
        let b = NonceCacheBicrypter::new(plain.clone(), c.cap as usize);
        let mut r = rand::rngs::StdRng::seed_from_u64(c.seed);
        // (those accepted, in order; where each was accepted last)
        let (mut accepted, mut at): (Vec<u32>, HashMap<u32, usize>) = Default::default();
        let (mut fresh, mut refused, mut again) = (0u32, 0, 0);
        for step in 0..c.n {
            let len = accepted.len();
            let i = if len > 0 && step % c.every as u32 == 0 {
                // one of the last accepted, often about as long ago as the cache reaches
                let back = match r.gen_range(0, 4) {
                    0 => r.gen_range(1, len + 1),
                    1 => 1 + r.gen_range(0, len.min(3)),
                    _ => (c.cap as usize + 2).saturating_sub(r.gen_range(0, 5)).max(1).min(len),
                };
                accepted[len - back]
            } else {
                fresh += 1;
                fresh
            };
            let mut n = vec![0; 12];
            n[4..8].copy_from_slice(&i.to_be_bytes());
            let known = at.get(&i).map(|p| len - p <= c.cap as usize).unwrap_or(false);
            let ct = plain.encrypt(b"x", &ad(&n)).map_err(|e| Bad::Env(format!("{:?}", e)))?;
            let res = if r.gen() { b.decrypt(&ct, &ad(&n)).map(|_| ()) } else { b.encrypt(b"x", &ad(&n)).map(|_| ()) };
            let was = match res {
                Ok(()) => false,
                Err(CryptError::NonceAlreadyUsed { .. }) => true,
                Err(e) => return bad("error", format!("step {}: {:?}", step, e)),
            };
            ensure!(was == known, if was { "fresh-refused" } else { "replay-accepted" }, "step {}: a nonce {} was {} by a cache of {}", step, match at.get(&i) { Some(p) => format!("last used {} uses ago", len - p), None => "never used".into() }, if was { "refused" } else { "accepted" }, c.cap);
            if was {
                refused += 1
            } else {
                again += at.insert(i, len).is_some() as usize;
                accepted.push(i);
            }
        }
        Ok(Info::new().nt(refused > 0).class_if(again > 0, "accepted-again").class_if(c.cap > 1000, "over-1000"))
    })()
    .into()
}

/// A nonce used at the same time by several threads is accepted once
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    threads: u8,
    rounds: u16,
    dec: bool,
    seed: u64,
}
fn race(c: &Race) -> Verdict {
    (|| -> R<Info> {
        let kind = CryptKind::Gcm128;
        let key = bytes(7, 16);
        let b = NonceCacheBicrypter::new(kind.build(&key, None), 100_000);
        let plain = kind.build(&key, None);
        let t = c.threads.max(2) as usize;
        let nonces: Vec<Vec<u8>> = (0..c.rounds).map(|i| bytes(c.seed.wrapping_add(i as u64), 12)).collect();
        let cts: Vec<Vec<u8>> = nonces.iter().map(|n| plain.encrypt(b"x", &ad(n)).unwrap()).collect();
        let (nonces, cts) = (Arc::new(nonces), Arc::new(cts));
        let bar = Arc::new(Barrier::new(t));
        let hits: Arc<Vec<std::sync::atomic::AtomicUsize>> = Arc::new((0..c.rounds).map(|_| Default::default()).collect());
        let hs: Vec<_> = (0..t)
            .map(|_| {
                let (b, nonces, cts, bar, hits, dec) = (b.clone(), nonces.clone(), cts.clone(), bar.clone(), hits.clone(), c.dec);
                std::thread::spawn(move || {
                    for i in 0..nonces.len() {
                        bar.wait();
                        let ok = if dec { b.decrypt(&cts[i], &ad(&nonces[i])).is_ok() } else { b.encrypt(b"x", &ad(&nonces[i])).is_ok() };
                        if ok {
                            hits[i].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                return bad("panic", "a thread panicked");
            }
        }
        for (i, h) in hits.iter().enumerate() {
            let h = h.load(std::sync::atomic::Ordering::SeqCst);
            ensure!(h == 1, "race", "round {}: one nonce was accepted {} times by {} concurrent uses", i, h, t);
        }
        Ok(Info::new().nt(true).class(format!("threads-{}", t)))
    })()
    .into()
}

/// A recorded message delivered again to a receiver with a nonce cache
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Replay {
    kind: CryptKind,
    auth: AuthSpec,
    cap: usize,
    msgs: Vec<Payload>,
    picks: Vec<u8>,
}
fn replay(c: &Replay) -> Verdict {
    (|| -> R<Info> {
        let spec = CryptSpec { kind: c.kind, key_seed: 3, cache: None };
        let mut out = sender(400, &c.auth, &spec);
        let mut inb = receiver(400, std::time::Duration::from_secs(3600), &c.auth, &CryptSpec { cache: Some(c.cap), ..spec });
        let mut sent: Vec<Vec<Vec<u8>>> = vec![];
        let mut model: VecDeque<usize> = VecDeque::new();
        let mut replays = 0;
        let mut stuck: HashSet<usize> = HashSet::new();
        let mut todo = c.msgs.clone();
        todo.reverse();
        for p in &c.picks {
            let fresh = *p % 2 == 0 || sent.is_empty();
            if fresh {
                let m = match todo.pop() {
                    Some(m) => m.get(),
                    None => break,
                };
                let pk = out.process(&m).map_err(|e| Bad::Fail("encode-error".into(), format!("{:?}", e)))?;
                let mut got = None;
                for x in &pk {
                    match inb.process(x) {
                        Ok(Some(d)) => got = Some(d),
                        Ok(None) => {}
                        Err(e) => return bad("fresh-refused", format!("a new message was refused: {:?}", e)),
                    }
                }
                ensure!(got.as_ref() == Some(&m), "not-delivered", "a new message was not delivered");
                model.push_back(sent.len());
                if model.len() > c.cap {
                    model.pop_front();
                }
                sent.push(pk);
            } else {
                let i = *p as usize / 2 % sent.len();
                // a refused replay may leave its packets behind until they expire
                if !model.contains(&i) || !stuck.insert(i) {
                    continue;
                }
                replays += 1;
                for x in &sent[i] {
                    if let Ok(Some(_)) = inb.process(x) {
                        return bad("replay-accepted", format!("message {} was delivered a second time ({} newer messages, cache {})", i, sent.len() - 1 - i, c.cap));
                    }
                }
            }
        }
        Ok(Info::new().nt(replays > 0).class_if(replays > 0, "replayed").class(c.kind.name()))
    })()
    .into()
}

pub fn c06(live: Leg) -> Check {
    Check {
        rule: "model: operation histories over a small pool of nonces against a FIFO of the last N accepted ones; large: caches of up to 3000; wire: recorded messages replayed; race: several threads use one nonce at once; connections: requests to a live server recorded and sent again from the same and other sockets. Non-trivial: at least one nonce was used twice.",
        assumptions: vec!["thread schedules of the race leg are the machine's"],
        legs: vec![
            leg("model", o(40_000, 1_500_000), || {
                (kind_enc(), prop_oneof![1 => Just(0usize), 6 => 1usize..8], 2u8..12, prop::collection::vec((any::<u8>(), any::<bool>(), any::<u8>(), prop::bool::weighted(0.8)), 1..50))
                    .prop_map(|(kind, cap, pool, ops)| CacheCase { kind, cap, pool, ops })
            }, cache_case),
            leg("large", o(300, 10_000), || (prop_oneof![8..200u32, 200..3000u32], 200..9000u32, 2..9u8, any::<u64>()).prop_map(|(cap, n, every, seed)| Large { cap, n, every, seed }), large),
            leg("wire", o(4_000, 150_000), || {
                (kind_enc(), auth_any(), 1usize..6, prop::collection::vec(payload(900), 1..8), prop::collection::vec(any::<u8>(), 2..16))
                    .prop_map(|(kind, auth, cap, msgs, picks)| Replay { kind, auth, cap, msgs, picks })
            }, replay),
            leg("race", o(12, 200).threads(1), || (2u8..9, 300u16..1200, any::<bool>(), any::<u64>()).prop_map(|(threads, rounds, dec, seed)| Race { threads, rounds, dec, seed }), race),
            live,
        ],
    }
}

// ---------------------------------------------------------------- C08
/// HMAC written out from RFC 2104
fn hmac_ref(sha512: bool, key: &[u8], m: &[u8]) -> Vec<u8> {
    let block = if sha512 { 128 } else { 64 };
    let h = |parts: &[&[u8]]| -> Vec<u8> {
        if sha512 {
            let mut d = Sha512::new();
            parts.iter().for_each(|p| d.input(p));
            d.result().to_vec()
        } else {
            let mut d = Sha256::new();
            parts.iter().for_each(|p| d.input(p));
            d.result().to_vec()
        }
    };
    let mut k = if key.len() > block { h(&[key]) } else { key.to_vec() };
    k.resize(block, 0);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let inner = h(&[&i, m]);
    h(&[&o, &inner])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    auth: AuthSpec,
    msg: Payload,
    change: u8,
    pos: u32,
    other: Vec<u8>,
}
fn sign(c: &Sign) -> Verdict {
    (|| -> R<Info> {
        let (key, is512) = match &c.auth {
            AuthSpec::Sha256(k) => (k.clone(), false),
            AuthSpec::Sha512(k) => (k.clone(), true),
            _ => return Ok(Info::new()),
        };
        let mut m = c.msg.get();
        if c.change == 255 {
            m.clear();
        }
        let a = c.auth.build();
        let d = a.sign(&m);
        ensure!(d.digest() == &hmac_ref(is512, &key, &m)[..], "not-hmac", "digest differs from HMAC of the content");
        ensure!(a.verify(&m, &d), "own-rejected", "own signature rejected");
        let flip = |v: &[u8]| {
            let mut v = v.to_vec();
            let i = c.pos as usize % (v.len() * 8);
            v[i / 8] ^= 1 << (i % 8);
            v
        };
        let what;
        let ok = match c.change % 7 {
            0 if !m.is_empty() => {
                what = "content bit";
                a.verify(&flip(&m), &d)
            }
            1 => {
                what = "digest bit";
                a.verify(&m, &Digest::try_from(&flip(d.digest())[..]).unwrap())
            }
            2 => {
                what = "extended content";
                a.verify(&[&m[..], &[0]].concat(), &d)
            }
            3 if !m.is_empty() => {
                what = "truncated content";
                a.verify(&m[..m.len() - 1], &d)
            }
            4 => {
                what = "other key";
                let mut k = key.clone();
                if k.is_empty() {
                    k = vec![1]
                } else {
                    k = flip(&k)
                }
                let o = if is512 { AuthSpec::Sha512(k) } else { AuthSpec::Sha256(k) };
                o.build().verify(&m, &d)
            }
            5 => {
                what = "zero digest";
                a.verify(&m, &Digest::default())
            }
            _ => {
                what = "longer or shorter key";
                let k = [&key[..], &[1 + (c.pos as u8 & 63)]].concat();
                let o = if is512 { AuthSpec::Sha512(k) } else { AuthSpec::Sha256(k) };
                o.build().verify(&m, &d)
            }
        };
        ensure!(!ok, "forged", "signature verifies after a change: {}", what);
        Ok(Info::new().nt(true).class(c.auth.name()).class(format!("change-{}", what)).class_if(key.len() > 128, "long-key"))
    })()
    .into()
}
pub fn c08() -> Check {
    Check {
        rule: "(hash, key, content, one change of content, digest or key); non-trivial: every case. Oracles: HMAC written out from RFC 2104 over the sha2 crate, and refusal after any single change.",
        assumptions: vec!["the sha2 crate is right"],
        legs: vec![leg("hmac", o(100_000, 4_000_000), || {
            (auth_keyed(), payload(2000), any::<u8>(), any::<u32>(), prop::collection::vec(any::<u8>(), 0..4)).prop_map(|(auth, msg, change, pos, other)| Sign { auth, msg, change, pos, other })
        }, sign),
        leg("hmac-long", o(1500, 20_000), || {
            (auth_keyed(), payload(400_000), any::<u8>(), any::<u32>()).prop_map(|(auth, msg, change, pos)| Sign { auth, msg, change, pos, other: vec![] })
        }, sign)],
    }
}
