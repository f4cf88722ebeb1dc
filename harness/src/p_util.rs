//! The stream framing utility.
use crate::fw::*;
use over_there::utils::{DelimiterReader, DelimiterWriter, DEFAULT_DELIMITER};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Framed {
    /// None: the default one
    delimiter: Option<Vec<u8>>,
    max: usize,
    pieces: Vec<Vec<u8>>,
    /// sizes of the reads (0: a read that fails)
    reads: Vec<u8>,
    /// sizes of the writes (0: one that takes nothing; 255: one that fails)
    #[serde(default)]
    writes: Vec<u8>,
    use_async: bool,
}
fn split(s: &[u8], d: &[u8]) -> Vec<Vec<u8>> {
    let (mut out, mut at, mut i) = (vec![], 0, 0);
    while i + d.len() <= s.len() {
        if &s[i..i + d.len()] == d {
            out.push(s[at..i].to_vec());
            i += d.len();
            at = i;
        } else {
            i += 1;
        }
    }
    out
}
fn framed(c: &Framed) -> Verdict {
    (|| -> R<Info> {
        let d = c.delimiter.clone().unwrap_or_else(|| DEFAULT_DELIMITER.to_vec());
        let mut w = match &c.delimiter {
            Some(d) => DelimiterWriter::new_with_delimiter(d),
            None => DelimiterWriter::new(),
        };
        let (mut stream, mut plain, mut j, mut short, mut refused) = (vec![], vec![], 0, 0, 0);
        for p in &c.pieces {
            let (from, mut failed, mut asked) = (stream.len(), None, 0);
            let res = w.write(p, |b| {
                let step = if b.is_empty() || c.writes.is_empty() { 254 } else { c.writes[j % c.writes.len()] as usize };
                j += 1;
                if failed.is_some() {
                    asked += 1
                }
                if step == 255 {
                    failed = Some(io::ErrorKind::BrokenPipe);
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
                let n = if step == 254 { b.len() } else { step.min(b.len()) };
                if n == 0 && !b.is_empty() {
                    failed = Some(io::ErrorKind::WriteZero)
                }
                short += (n < b.len()) as usize;
                stream.extend_from_slice(&b[..n]);
                Ok(n)
            });
            let all: Vec<u8> = p.iter().chain(&d).cloned().collect();
            match (res, failed) {
                (Ok(n), None) => {
                    ensure!(n == p.len(), "wrong-size", "writing {} bytes returned {}", p.len(), n);
                    ensure!(stream[from..] == all[..], "wrong-stream", "{:?} written as {:?} (in parts of {:?})", p, &stream[from..], c.writes);
                }
                // (what was taken before is the beginning of the piece; nothing can follow it)
                (Err(e), Some(k)) => {
                    ensure!(e.kind() == k || k == io::ErrorKind::WriteZero, "write-error", "{:?} instead of {:?}", e, k);
                    ensure!(asked == 0, "wrote-on", "went on writing after {:?}", k);
                    ensure!(all.starts_with(&stream[from..]), "wrong-stream", "{:?} written as {:?} before the failure", p, &stream[from..]);
                    stream.truncate(from);
                    refused += 1;
                    continue;
                }
                (Ok(n), Some(k)) => return bad("error-lost", format!("a write that ended with {:?} returned {}", k, n)),
                (Err(e), None) => return bad("write-failed", e.to_string()),
            }
            plain.extend(all);
        }
        ensure!(stream == plain, "wrong-stream", "{:?} written as {:?}", c.pieces, stream);
        // what the stream holds, by definition
        let want: Vec<Vec<u8>> = split(&stream, &d).into_iter().filter(|p| !p.is_empty()).collect();
        let mut r = match &c.delimiter {
            Some(d) => DelimiterReader::new_with_delimiter(c.max, d),
            None => DelimiterReader::new(c.max),
        };
        let (mut at, mut got, mut fails, mut idle, mut k) = (0, Vec::<Vec<u8>>::new(), 0, 0, 0);
        while idle < 2 * stream.len() + 40 {
            // (after the end of the stream every read comes back empty)
            let step = if at < stream.len() && !c.reads.is_empty() { c.reads[k % c.reads.len()] as usize } else { 255 };
            k += 1;
            let fail = step == 0 && k % 3 != 0;
            fails += fail as usize;
            let mut buf = vec![0xEE; c.max];
            let mut f = |b: &mut [u8]| -> io::Result<usize> {
                if fail {
                    return Err(io::ErrorKind::WouldBlock.into());
                }
                let n = step.max(1).min(b.len()).min(stream.len() - at);
                b[..n].copy_from_slice(&stream[at..at + n]);
                at += n;
                Ok(n)
            };
            let res = if c.use_async {
                futures::executor::block_on(r.async_read(&mut buf, |b| {
                    let x = f(b);
                    async move { x }
                }))
            } else {
                r.read(&mut buf, f)
            };
            match res {
                Ok(0) => {
                    ensure!(!fail, "error-lost", "a read that failed returned nothing read instead of the error");
                    if at == stream.len() {
                        idle += 1
                    }
                }
                Ok(n) => {
                    ensure!(n <= c.max, "wrong-size", "read returned {} for a buffer of {}", n, c.max);
                    ensure!(buf[n..].iter().all(|b| *b == 0xEE), "wrote-past-end", "the buffer was changed after the {} bytes returned", n);
                    got.push(buf[..n].to_vec());
                }
                Err(e) => ensure!(fail && e.kind() == io::ErrorKind::WouldBlock, "error", "{:?}", e),
            }
        }
        let what = || format!("delimiter {:?}, at most {}: {:?} read as {:?}", d, c.max, want, got);
        ensure!(got.len() == want.len(), "wrong-count", "{}", what());
        let mut long = 0;
        for (g, w) in got.iter().zip(&want) {
            if w.len() <= c.max {
                ensure!(g == w, "altered", "{}", what());
            } else {
                // too long: cut at its beginning
                long += 1;
                ensure!(w.ends_with(g), "altered", "{}", what());
            }
        }
        Ok(Info::new().nt(want.len() > 1).class_if(fails > 0, "failed-reads").class_if(long > 0, "too-long").class_if(c.reads.iter().all(|r| *r < 4), "small-reads").class_if(short > 0, "partial-writes").class_if(refused > 0, "failed-writes").class_if(want.len() != c.pieces.len() - refused, "delimiter-within"))
    })()
    .into()
}
fn writes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(1..6u8, 1..6), 2 => prop::collection::vec(prop_oneof![1 => Just(0u8), 1 => Just(255u8), 4 => 1..6u8, 6 => Just(254u8)], 3..12)].boxed()
}
pub fn c21() -> Check {
    Check {
        rule: "pieces (over few different bytes, so that delimiters occur partly and wholly within), delimiter, largest piece, sizes of the reads and writes with failing ones between; non-trivial: more than one piece. Oracle: the stream split at each first occurrence of the delimiter; a piece over the limit may lose its beginning.",
        assumptions: vec!["empty pieces cannot be told from nothing read; max at least the delimiter's length"],
        legs: vec![leg("framing", o(60_000, 2_000_000), || {
            let b = || prop_oneof![4 => 0..3u8, 1 => any::<u8>()];
            (prop::option::weighted(0.9, prop::collection::vec(b(), 1..6)), 1..40usize, any::<bool>()).prop_flat_map(move |(delimiter, max, long)| {
                let (bb, d) = (b(), delimiter.clone().unwrap_or_else(|| DEFAULT_DELIMITER.to_vec()));
                // (now and then bytes of the delimiter itself)
                let byte = prop_oneof![2 => bb, 2 => prop::sample::select(d)];
                let most = if long { max + 20 } else { max };
                (Just(delimiter), Just(max), prop::collection::vec(prop::collection::vec(byte, 0..=most), 0..7), prop::collection::vec(prop_oneof![1 => Just(0u8), 6 => 1..6u8, 2 => any::<u8>()], 0..8), writes(), any::<bool>())
            })
            .prop_map(|(delimiter, max, pieces, reads, writes, use_async)| Framed { delimiter, max, pieces, reads, writes, use_async })
        }, framed)],
    }
}
