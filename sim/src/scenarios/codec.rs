//! S01, S02, S03: the binary codecs on streams that fragment, fail and lie.
use super::*;
use crate::io::{self, End, KINDS};
use crate::kernel::{chance, note, probe, sample};
use crate::model::{Bad, Model, Rd, ToReal};
use crate::registry::{wires, Real, Val, Wire};
use sia::encoding::Error;
use std::io::{ErrorKind, Read, Write};

pub const S01: Scenario = Scenario {
    id: "S01",
    f: s01,
    batch: 150,
    quick: 700,
    rule: "A run sends values of all wire types between parties over pipes or single streams with a generated flow (request sizes, interruptions, stalls, pipe capacity), one or several connections at once.",
    real: &["all encoders and decoders of the v1 and v2 encoding, derive macros"],
    stub: &[STREAMS, SCHED],
    must_reach: &["io.short", "io.interrupted", "io.stall", "probe.large_bytes", "probe.collection_over_255", "probe.policy_tower", "check.pipe", "check.refused", "check.boundary"],
};
pub const S02: Scenario = Scenario {
    id: "S02",
    f: s02,
    batch: 150,
    quick: 1000,
    rule: "A run writes and reads values of all wire types on streams that end or fail at generated or at all byte positions, with generated errors, and then without the fault.",
    real: &["all encoders and decoders of the v1 and v2 encoding, derive macros"],
    stub: &[STREAMS, SCHED],
    must_reach: &["io.eof", "io.read_error", "io.write_error", "io.write_zero", "io.transient_error", "net.reset", "check.every_cut", "check.retry"],
};
pub const S03: Scenario = Scenario {
    id: "S03",
    f: s03,
    batch: 300,
    quick: 900,
    rule: "A run decodes bytes that were damaged or made up (flipped, cut, spliced, lengths and tags replaced, deep or wide policies, random) as a wire type, under a memory account and on a 2 MiB stack, compares with the reference decoder and uses what was accepted.",
    real: &["all decoders and encoders, hashing, signature verification, JSON writers, Display and Debug"],
    stub: &[STREAMS, SCHED, "allocator: accounting wrapper around the system's, refuses single requests over 1 GiB"],
    must_reach: &["probe.part", "probe.currency", "probe.accepted_damaged", "probe.rejected", "probe.length_bomb", "probe.deep_policy"],
};

fn pick_wire() -> &'static dyn Wire {
    let w = wires();
    &*w[choose(w.len() as u64) as usize]
}

fn gen_budget() -> i64 {
    if choose(500) == 499 {
        probe("probe.huge");
        return [150_000, 1_500_000, 5_000_000][choose(3) as usize];
    }
    [300, 1500, 4000, 20_000, 60_000][[0, 0, 1, 1, 2, 2, 3, 4][choose(8) as usize]]
}

type Msg = (&'static dyn Wire, Arc<dyn Val>);

fn gen_msgs(max: u64) -> Vec<Msg> {
    let mut budget = gen_budget();
    let n = 1 + choose(max);
    let mut v = Vec::new();
    for _ in 0..n {
        let mut w = pick_wire();
        for _ in 0..20 {
            // one that has room for it
            if budget < 1_000_000 || w.name().contains("Vec<u8>") || w.name().contains("Signature") || w.name().contains("String") || w.name().contains("Transaction") {
                break;
            }
            w = pick_wire();
        }
        let mut g = G::new(budget);
        let x = w.gen(&mut g);
        budget = (g.budget.max(100)).min(budget);
        note("value", || format!("{} {}", w.name(), short(&x.dbg())));
        v.push((w, x));
    }
    v
}

fn same_value(w: &dyn Wire, got: &dyn Real, want: &dyn Val, class: &str) {
    check(got.same(&*want.real()), class, || {
        format!("{}: {} became {}", w.name(), short(&want.dbg()), short(&got.dbg()))
    });
}

fn canonical(w: &dyn Wire, v: &dyn Val, got: &[u8]) {
    let want = v.bytes();
    check(got == want, "not-canonical", || {
        format!(
            "{}: {} was encoded as {} and not as {}",
            w.name(),
            short(&v.dbg()),
            hexs(got),
            hexs(&want)
        )
    });
}

struct Tee<W: Write>(W, Vec<u8>);
impl<W: Write> Write for Tee<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.0.write(b)?;
        self.1.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

/// One connection: a party writes, the other reads.
fn connection(id: u64, msgs: Vec<Msg>) -> (kernel::Handle<()>, kernel::Handle<()>) {
    let total: usize = msgs.iter().map(|(_, v)| v.bytes().len()).sum();
    let cap = [1, 7, 64, 1000, 1 << 16][choose(5) as usize].max(if total > 20_000 { 4096 } else { 1 });
    let (wf, rf) = (Flow::gen().for_size(total), Flow::gen().for_size(total));
    let (pw, pr) = io::pipe(cap, wf, rf, None);
    let a = msgs.clone();
    let b = msgs;
    let wr = kernel::spawn(&format!("writer{id}"), move || {
        let mut t = Tee(pw, Vec::new());
        for (w, v) in &a {
            let at = t.1.len();
            let real = v.real();
            let before = real.dbg();
            must(real.encode(&mut t), "encode", w.name());
            canonical(*w, &**v, &t.1[at..]);
            check(real.dbg() == before, "changed-by-encoding", || format!("{}: {}", w.name(), short(&before)));
        }
    });
    let rd = kernel::spawn(&format!("reader{id}"), move || {
        let mut pr = pr;
        let mut read = 0u64;
        for (w, v) in &b {
            let got = must(w.decode(&mut pr), "decode", w.name());
            same_value(*w, &*got, &**v, "round-trip");
            read += v.bytes().len() as u64;
            check(pr.2 == read, "boundary", || {
                format!("{}: the reader took {} bytes, the values so far have {read}", w.name(), pr.2)
            });
            kernel::log("received", digest(&v.bytes()), read);
        }
        let mut rest = Vec::new();
        while let Err(e) = pr.read_to_end(&mut rest) {
            if e.kind() != ErrorKind::Interrupted {
                break;
            }
        }
        check(rest.is_empty(), "boundary", || format!("{} bytes were left over", rest.len()));
    });
    (wr, rd)
}

fn s01() {
    match choose(3) {
        0 => {
            // parties and pipes
            probe("check.pipe");
            let n = 1 + choose(3);
            let mut hs = Vec::new();
            for i in 0..n {
                let msgs = gen_msgs(5);
                sample(|| format!("{} messages over a pipe, first: {} {}", msgs.len(), msgs[0].0.name(), short(&msgs[0].1.dbg())));
                hs.push(connection(i, msgs));
            }
            for (a, b) in hs {
                join(a, "writer");
                join(b, "reader");
            }
        }
        1 => {
            // values that follow each other on one stored stream
            probe("check.boundary");
            let msgs = gen_msgs(8);
            let mut bytes = Vec::new();
            let mut ends = Vec::new();
            for (_, v) in &msgs {
                bytes.extend(v.bytes());
                ends.push(bytes.len());
            }
            sample(|| format!("{} values on one stream of {} bytes: {}", msgs.len(), bytes.len(), msgs.iter().map(|m| m.0.name()).collect::<Vec<_>>().join(", ")));
            kernel::log("stream", digest(&bytes), bytes.len() as u64);
            let flow = Flow::gen().for_size(bytes.len());
            // something else follows
            let tail = choose(40) as usize;
            bytes.extend(crate::model::fill(tail));
            let mut r = Src::new(Arc::new(bytes), flow, End::Never);
            for (i, (w, v)) in msgs.iter().enumerate() {
                let got = must(w.decode(&mut r), "decode", w.name());
                same_value(*w, &*got, &**v, "round-trip");
                check(r.pos == ends[i], "boundary", || {
                    format!("{}: the reader stopped at byte {}, the value ends at {}", w.name(), r.pos, ends[i])
                });
                relay(*w, &**v, got);
            }
        }
        _ if chance(1, 60) => refused(),
        _ => {
            let (w, v) = gen_msgs(1).remove(0);
            sample(|| format!("{} {}", w.name(), short(&v.dbg())));
            let mut real = v.real();
            let hops = 1 + choose(3);
            for _ in 0..hops {
                real = relay(w, &*v, real);
            }
        }
    }
}

/// A threshold of more policies than its count can say is not written as
/// something else.
fn refused() {
    use crate::model::{G, Model, Pol, ToReal};
    use sia::types::v2::{SatisfiedPolicy, SpendPolicy};
    probe("check.refused");
    let n = [256, 257, 511, 512, 768, 255, 254][choose(7) as usize];
    let mut g = G::new(200);
    let mut of: Vec<Pol> = (0..n).map(|_| Pol::Above(choose(9))).collect();
    if choose(2) == 0 {
        of[0] = Pol::gen(&mut g);
    }
    let mut m = Pol::Thresh(choose(256) as u8, of);
    for _ in 0..choose(3) {
        m = Pol::Thresh(1, if choose(2) == 0 { vec![m] } else { vec![Pol::Above(1), m] });
    }
    let real: SpendPolicy = m.real();
    let mut out = Sink::new(Flow::gen().for_size(9 * n), End::Never);
    let r = crate::no_panic("panic", "encoding a large threshold", || match choose(2) {
        0 => sia::encoding::SiaEncodable::encode(&real, &mut out),
        _ => sia::encoding::SiaEncodable::encode(&SatisfiedPolicy { policy: real, signatures: vec![], preimages: vec![] }, &mut out),
    });
    check(r.is_ok() == (n < 256), "not-refused", || format!("a threshold of {n} policies was written as {}", hexs(&out.out)));
}

/// Writes a value and reads it back.
fn relay(w: &dyn Wire, v: &dyn Val, real: Box<dyn Real>) -> Box<dyn Real> {
    let n = v.bytes().len();
    let mut out = Sink::new(Flow::gen().for_size(n), End::Never);
    must(real.encode(&mut out), "encode", w.name());
    canonical(w, v, &out.out);
    kernel::log("relay", digest(&out.out), n as u64);
    let mut r = Src::new(Arc::new(out.out), Flow::gen().for_size(n), End::Never);
    let got = must(w.decode(&mut r), "decode", w.name());
    same_value(w, &*got, v, "round-trip");
    check(r.pos == n, "boundary", || format!("{}: {} of {n} bytes", w.name(), r.pos));
    got
}

// ------------------------------------------------------------------ S02

fn expect_error(r: Result<Box<dyn Real>, Error>, w: &dyn Wire, v: &dyn Val, end: End, how: &str) {
    match r {
        Ok(x) => crate::violation(
            "value-from-cut-stream",
            format!("{}: from {how} {end:?} of {} came {}", w.name(), short(&v.dbg()), short(&x.dbg())),
        ),
        Err(e) => {
            if let End::Fail(_, k) | End::Once(_, k) = end {
                let ok = matches!(&e, Error::Io(i) if io::is_sim_error(i, k));
                check(ok, "wrong-error", || {
                    format!("{}: the stream failed with {k:?}, decoding returned {e:?}", w.name())
                });
            }
        }
    }
}

fn kind() -> ErrorKind {
    KINDS[choose(KINDS.len() as u64) as usize]
}

fn cut_read(w: &dyn Wire, v: &dyn Val, bytes: &Arc<Vec<u8>>, end: End, flow: Flow) {
    let mut r = Src::new(bytes.clone(), flow, end);
    let res = w.decode(&mut r);
    expect_error(res, w, v, end, "the stream");
}

fn cut_write(w: &dyn Wire, v: &dyn Val, bytes: &[u8], end: End, flow: Flow) {
    let mut s = Sink::new(flow, end);
    let res = crate::no_panic("panic", &format!("encoding {} to a failing stream", w.name()), || v.real().encode(&mut s));
    match (&res, end) {
        (Err(Error::Io(e)), End::Fail(_, k) | End::Once(_, k)) if io::is_sim_error(e, k) => {}
        (Err(Error::Io(e)), End::Zero(_)) if e.kind() == ErrorKind::WriteZero => {}
        (Err(_), End::Zero(_)) => {}
        _ => crate::violation(
            "wrong-error",
            format!("{}: writing {} to {end:?} returned {res:?}", w.name(), short(&v.dbg())),
        ),
    }
    check(bytes.starts_with(&s.out), "not-a-prefix", || {
        format!("{}: {} is no prefix of {}", w.name(), hexs(&s.out), hexs(bytes))
    });
}

fn s02() {
    match choose(5) {
        0 => every_cut(),
        1 => reconnect(),
        2 => no_sigs(),
        _ => {
            let w = pick_wire();
            let v = w.gen(&mut G::new(gen_budget()));
            let bytes = Arc::new(v.bytes());
            let n = bytes.len();
            note("value", || format!("{} {}", w.name(), short(&v.dbg())));
            sample(|| format!("cuts of {} ({n} bytes) {}", w.name(), short(&v.dbg())));
            kernel::log("value", digest(&bytes), n as u64);
            if n == 0 {
                return;
            }
            for _ in 0..1 + choose(6) {
                let k = match choose(4) {
                    0 => n - 1,
                    1 => choose(n.min(40) as u64) as usize,
                    _ => choose(n as u64) as usize,
                };
                let flow = Flow::gen().for_size(n);
                match choose(6) {
                    4 => cut_read(w, &*v, &bytes, End::Once(k, kind()), flow),
                    5 => cut_write(w, &*v, &bytes, End::Once(k, kind()), flow),
                    0 => cut_read(w, &*v, &bytes, End::Eof(k), flow),
                    1 => cut_read(w, &*v, &bytes, End::Fail(k, kind()), flow),
                    2 => cut_write(w, &*v, &bytes, End::Fail(k, kind()), flow),
                    _ => cut_write(w, &*v, &bytes, End::Zero(k), flow),
                }
            }
            // the fault is gone
            probe("check.retry");
            relay(w, &*v, v.real());
        }
    }
}

/// Every position of a value.
fn every_cut() {
    let w = pick_wire();
    let mut g = G::new(250);
    g.large = false;
    let v = w.gen(&mut g);
    let bytes = Arc::new(v.bytes());
    let n = bytes.len();
    if n > 1500 {
        return;
    }
    note("value", || format!("{} {}", w.name(), short(&v.dbg())));
    sample(|| format!("every cut of {} ({n} bytes)", w.name()));
    kernel::log("value", digest(&bytes), n as u64);
    probe("check.every_cut");
    let k = kind();
    for i in 0..n {
        cut_read(w, &*v, &bytes, End::Eof(i), Flow::plain());
        cut_read(w, &*v, &bytes, End::Fail(i, k), Flow::plain());
        cut_write(w, &*v, &bytes, End::Fail(i, k), Flow::plain());
        if i % 2 == 0 {
            cut_read(w, &*v, &bytes, End::Once(i, k), Flow::plain());
            cut_write(w, &*v, &bytes, End::Once(i, k), Flow::plain());
        }
        if i % 3 == 0 {
            cut_write(w, &*v, &bytes, End::Zero(i), Flow::plain());
        }
    }
    relay(w, &*v, v.real());
}

/// The connection is reset while values are sent; then they are sent again.
fn reconnect() {
    let msgs = gen_msgs(4);
    let total: usize = msgs.iter().map(|(_, v)| v.bytes().len()).sum();
    if total == 0 {
        return;
    }
    sample(|| format!("{} messages, connection reset and retried", msgs.len()));
    let mut tries = 1 + choose(3);
    loop {
        let reset = if tries > 0 {
            Some((choose(total as u64), kind()))
        } else {
            None
        };
        let (wf, rf) = (Flow::gen().for_size(total), Flow::gen().for_size(total));
        let cap = if total > 20_000 { 8192 } else { 1 + choose(500) as usize };
        let (pw, pr) = io::pipe(cap, wf, rf, reset);
        let (a, b) = (msgs.clone(), msgs.clone());
        let wr = kernel::spawn("writer", move || {
            let mut t = Tee(pw, Vec::new());
            let all: Vec<u8> = a.iter().flat_map(|(_, v)| v.bytes()).collect();
            for (w, v) in &a {
                let r = v.real().encode(&mut t);
                check(all.starts_with(&t.1), "not-a-prefix", || format!("{}: {}", w.name(), hexs(&t.1)));
                match (r, reset) {
                    (Ok(()), _) => {}
                    (Err(Error::Io(e)), Some((_, k))) if io::is_sim_error(&e, k) => return false,
                    // the other side left first
                    (Err(Error::Io(e)), Some(_)) if io::is_sim_error(&e, ErrorKind::BrokenPipe) => return false,
                    (Err(e), r) => crate::violation("wrong-error", format!("{}: {e:?} with {r:?}", w.name())),
                }
            }
            true
        });
        let rd = kernel::spawn("reader", move || {
            let mut pr = pr;
            let mut sum = 0u64;
            for (w, v) in &b {
                let start = sum;
                sum += v.bytes().len() as u64;
                match (w.decode(&mut pr), reset) {
                    (Ok(x), r) => {
                        // it can only be complete before the cut
                        if let Some((at, _)) = r {
                            check(sum <= at, "value-from-cut-stream", || {
                                format!("{}: bytes {start}..{sum}, cut at {at}: {}", w.name(), short(&x.dbg()))
                            });
                        }
                        same_value(*w, &*x, &**v, "round-trip");
                    }
                    (Err(Error::Io(e)), Some((at, k))) if io::is_sim_error(&e, k) => {
                        check(sum > at, "lost-value", || format!("{}: bytes {start}..{sum} were sent before the cut at {at}", w.name()));
                        return false;
                    }
                    (Err(e), r) => crate::violation("wrong-error", format!("{}: {e:?} with {r:?}", w.name())),
                }
            }
            true
        });
        join(wr, "writer");
        let done = join(rd, "reader").unwrap_or(false);
        if reset.is_none() {
            check(done, "lost-value", || "a clean connection did not deliver".into());
            return;
        }
        tries -= 1;
        probe("check.retry");
    }
}

/// The parts of a transaction that are hashed, written to a stream.
fn no_sigs() {
    let m = crate::model::V1Txn::gen(&mut G::new(gen_budget()));
    let real: sia::types::v1::Transaction = m.real();
    let mut bare = m.clone();
    bare.signatures.clear();
    let mut want = crate::model::enc1(&bare);
    want.truncate(want.len() - 8);
    let n = want.len();
    kernel::log("no_sigs", digest(&want), n as u64);
    let k = choose(n as u64) as usize;
    let kd = kind();
    let mut s = Sink::new(Flow::gen().for_size(n), End::Fail(k, kd));
    let r = real.encode_no_sigs(&mut s);
    check(matches!(&r, Err(Error::Io(e)) if io::is_sim_error(e, kd)), "wrong-error", || format!("encode_no_sigs: {r:?}"));
    check(want.starts_with(&s.out), "not-a-prefix", || format!("encode_no_sigs: {}", hexs(&s.out)));
    let mut s = Sink::new(Flow::gen().for_size(n), End::Never);
    must(real.encode_no_sigs(&mut s), "encode", "encode_no_sigs");
    check(s.out == want, "not-canonical", || format!("encode_no_sigs of {}: {} and not {}", short(&format!("{m:?}")), hexs(&s.out), hexs(&want)));
}

// ------------------------------------------------------------------ S03

fn interesting_u64() -> u64 {
    match choose(10) {
        0 => u64::MAX,
        1 => 1 << choose(64),
        2 => i64::MAX as u64,
        3 => 1 << 63,
        4 => (1 << 32) + choose(3),
        5 => 1_000_000,
        6 => choose(300),
        7 => 253_402_300_800 + choose(2),
        8 => (-377_705_116_801i64) as u64,
        _ => crate::kernel::raw(),
    }
}

/// Damages bytes; several kinds, several times.
pub fn damage(b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len() as u64;
    if n == 0 {
        b.extend(crate::model::fill(choose(50) as usize));
        return;
    }
    match choose(12) {
        0 => b[choose(n) as usize] ^= 1 << choose(8),
        1 => b[choose(n) as usize] = [0, 1, 2, 3, 5, 7, 8, 0x7f, 0x80, 0xff][choose(10) as usize],
        2 | 3 => {
            // an aligned or unaligned word, as lengths and numbers are
            let v = interesting_u64().to_le_bytes();
            let mut at = choose(n) as usize;
            if choose(2) == 0 {
                at &= !7;
            }
            for (i, x) in v.iter().enumerate() {
                if at + i < b.len() {
                    b[at + i] = *x;
                }
            }
            probe("probe.length_bomb");
        }
        4 => {
            // an existing small word is likely a length
            let at: Vec<usize> = (0..b.len().saturating_sub(7))
                .filter(|&i| b[i + 1..i + 8] == [0; 7])
                .take(200)
                .collect();
            if !at.is_empty() {
                let i = at[choose(at.len() as u64) as usize];
                let old = b[i] as u64;
                let v = match choose(3) {
                    0 => old + 1,
                    1 => old.wrapping_sub(1),
                    _ => interesting_u64(),
                };
                b[i..i + 8].copy_from_slice(&v.to_le_bytes());
                probe("probe.length_bomb");
            }
        }
        5 => b.truncate(choose(n) as usize),
        6 => {
            let at = choose(n + 1) as usize;
            let k = 1 + choose(16) as usize;
            let ins = crate::model::fill(k);
            b.splice(at..at, ins);
        }
        7 => {
            let at = choose(n) as usize;
            let e = (at + 1 + choose(16) as usize).min(b.len());
            b.drain(at..e);
        }
        8 => {
            let at = choose(n) as usize;
            let o = choose(other.len() as u64 + 1) as usize;
            b.truncate(at);
            b.extend_from_slice(&other[o..]);
        }
        9 => {
            let at = choose(n) as usize;
            let e = (at + 1 + choose(60) as usize).min(b.len());
            let part = b[at..e].to_vec();
            b.splice(at..at, part);
        }
        10 => {
            let at = choose(n) as usize;
            let e = (at + 1 + choose(40) as usize).min(b.len());
            let mut r = crate::choice::Rng::new(kernel::raw());
            r.fill(&mut b[at..e]);
        }
        _ => {
            // text that is no UTF-8
            let bad: &[u8] = [&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xe2\x28"][choose(5) as usize];
            let at = choose(n) as usize;
            for (i, x) in bad.iter().enumerate() {
                if at + i < b.len() {
                    b[at + i] = *x;
                }
            }
        }
    }
}

/// Damages one part of an encoding where that part is.
fn damage_part(w: &dyn Wire, b: &mut Vec<u8>) {
    use crate::model::Part;
    let marks = w.marks(b);
    let mut kinds: Vec<Part> = marks.iter().map(|m| m.part).collect();
    kinds.sort();
    kinds.dedup();
    if kinds.is_empty() {
        return;
    }
    let kind = kinds[choose(kinds.len() as u64) as usize];
    let of: Vec<_> = marks.iter().filter(|m| m.part == kind).collect();
    let m = of[choose(of.len() as u64) as usize];
    probe("probe.part");
    let old = b[m.at..m.end].to_vec();
    let sized = |v: Vec<u8>| [&(v.len() as u64).to_le_bytes()[..], &v].concat();
    let new = match kind {
        Part::Byte => vec![match choose(3) {
            0 => old[0].wrapping_add(1),
            1 => old[0].wrapping_sub(1),
            _ => kernel::raw() as u8,
        }],
        Part::Word => {
            let v = u64::from_le_bytes(old.as_slice().try_into().expect("eight bytes"));
            let v = match choose(6) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v ^ 1 << choose(64),
                3 => v.wrapping_neg(),
                _ => interesting_u64(),
            };
            v.to_le_bytes().to_vec()
        }
        Part::Fixed => match choose(4) {
            0 => vec![0; old.len()],
            1 => vec![0xff; old.len()],
            2 => crate::model::fill(old.len()),
            _ => {
                let mut o = old;
                let i = choose(o.len() as u64) as usize;
                o[i] ^= 1 << choose(8);
                o
            }
        },
        Part::Cur => {
            probe("probe.currency");
            let n = [0, 1, 7, 8, 9, 10, 15, 16, 17, 18, 32][choose(11) as usize];
            let mut v = crate::model::fill(n);
            match choose(4) {
                // a zero more, or just as long
                0 => v.insert(0, 0),
                1 => v.fill(0),
                2 if n > 0 => {
                    v.fill(0);
                    v[0] = 1;
                }
                _ => v.iter_mut().take(1).for_each(|x| *x |= 1),
            }
            sized(v)
        }
        Part::Text => match choose(5) {
            0 => sized(old[8..old.len() - (old.len() > 8) as usize].to_vec()),
            1 => sized([&old[8..], &[0]].concat()),
            2 => sized(crate::model::fill([0, 1, 15, 16, 17, 31, 32, 33, 64][choose(9) as usize])),
            3 => sized([&old[8..], &b"\xff\xfe"[..]].concat()),
            // what follows it is taken in
            _ => [&((old.len() - 8) as u64 + 1).to_le_bytes()[..], &old[8..]].concat(),
        },
        Part::List => {
            let n = u64::from_le_bytes(old[..8].try_into().expect("eight bytes"));
            match choose(4) {
                // nothing of it is left, with and without saying so
                0 => old[..8].to_vec(),
                1 => vec![0; 8],
                2 => [&n.wrapping_add(1).to_le_bytes()[..], &old[8..]].concat(),
                _ => [&n.wrapping_sub(1).to_le_bytes()[..], &old[8..]].concat(),
            }
        }
        Part::Elem => match choose(3) {
            0 => vec![],
            1 => [&old[..], &old].concat(),
            _ => {
                let o = of[choose(of.len() as u64) as usize];
                b[o.at..o.end].to_vec()
            }
        },
    };
    b.splice(m.at..m.end, new);
}

/// Policies whose shape is the attack.
fn hostile_policy() -> Vec<u8> {
    probe("probe.deep_policy");
    let mut b = vec![1u8];
    match choose(5) {
        0 => {
            // a tower
            let n = [10, 1000, 1022, 1023, 1024, 1025, 5000, 60_000, 300_000][choose(9) as usize];
            for _ in 0..n {
                b.extend_from_slice(&[5, 1, 1]);
            }
            if choose(2) == 0 {
                b.extend_from_slice(&[4]);
                b.extend_from_slice(&[7; 32]);
            }
        }
        1 => {
            // wide at every level
            let n = [3, 100, 2000, 30_000][choose(4) as usize];
            for _ in 0..n {
                b.extend_from_slice(&[5, 255, 255]);
            }
        }
        2 => {
            // many empty ones
            let n = 1 + choose(255) as usize;
            b.extend_from_slice(&[5, 1, n as u8]);
            for _ in 0..n {
                b.extend_from_slice(&[5, 0, 0]);
            }
        }
        3 => {
            // unlock conditions with many keys, inside
            b.extend_from_slice(&[5, 1, 1, 7]);
            b.extend_from_slice(&0u64.to_le_bytes());
            b.extend_from_slice(&interesting_u64().to_le_bytes());
            b.extend(crate::model::fill(400));
        }
        _ => {
            for _ in 0..1 + choose(400) {
                let c = [1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 0][choose(11) as usize];
                b.push(c);
                b.extend(crate::model::fill(choose(4) as usize));
            }
        }
    }
    b
}

fn s03() {
    let many = choose(8) == 7;
    let n = if many { 2 + choose(2) } else { 1 };
    let mut hs = Vec::new();
    for i in 0..n {
        let (w, b, intact) = hostile_input();
        note("input", || format!("{} {}", w.name(), hexs(&b)));
        sample(|| format!("{} decoded from {}", w.name(), hexs(&b)));
        kernel::log("input", digest(&b), b.len() as u64);
        hs.push(kernel::spawn_opt(format!("peer{i}"), 2 << 20, move || judge(w, b, intact)));
    }
    for h in hs {
        join(h, "decoder");
    }
}

fn hostile_input() -> (&'static dyn Wire, Vec<u8>, bool) {
    let w = pick_wire();
    if choose(12) == 11 {
        // policies where they occur
        let names = ["v2:st::v2::SpendPolicy", "v2:st::v2::SatisfiedPolicy"];
        let name = names[choose(2) as usize];
        let w = wires().iter().find(|w| w.name() == name).expect("registered");
        let mut b = hostile_policy();
        if choose(2) == 0 {
            b.extend([0; 16]);
        }
        return (&**w, b, false);
    }
    match choose(10) {
        0 => {
            let n = [0, 1, 8, 9, 40, 100, 400, 3000][choose(8) as usize];
            (w, crate::model::fill(n), false)
        }
        1 => {
            // the bytes of another type
            let o = pick_wire();
            let v = o.gen(&mut small());
            (w, v.bytes(), false)
        }
        2 => {
            // a length and then nothing, or little
            let mut b = Vec::new();
            let pre = choose(5);
            for _ in 0..pre {
                b.extend_from_slice(&choose(3).to_le_bytes());
            }
            b.extend_from_slice(&interesting_u64().to_le_bytes());
            b.extend(crate::model::fill(choose(200) as usize));
            probe("probe.length_bomb");
            (w, b, false)
        }
        3 => {
            // a long run of one small value
            let n = [100, 5000, 100_000][choose(3) as usize];
            let mut b = interesting_u64().to_le_bytes().to_vec();
            let c = choose(3) as u8;
            b.extend(std::iter::repeat_n(c, n));
            (w, b, false)
        }
        k => {
            let mut g = G::new(gen_budget().min(20_000));
            let v = w.gen(&mut g);
            let mut b = v.bytes();
            let o = w.gen(&mut g).bytes();
            if k == 4 {
                return (w, b, true);
            }
            for _ in 0..[1, 1, 1, 2, 4][choose(5) as usize] {
                if choose(2) == 0 {
                    damage_part(w, &mut b);
                } else {
                    damage(&mut b, &o);
                }
            }
            (w, b, false)
        }
    }
}

fn judge(w: &'static dyn Wire, b: Vec<u8>, intact: bool) {
    let n = b.len();
    let bytes = Arc::new(b);
    let flow = if choose(4) == 3 { Flow::gen().for_size(n.max(3000)) } else { Flow::plain() };
    let mut src = Src::new(bytes.clone(), flow, End::Never);
    let (res, usage) = crate::alloc::guarded(|| {
        crate::no_panic("panic", &format!("decoding {} from {}", w.name(), hexs(&bytes)), || w.decode(&mut src))
    });
    let used = src.pos;
    check(usage.peak <= (4 << 20) + 64 * used as u64, "memory", || {
        format!(
            "{}: decoding took {} bytes of memory (largest request {}) for {used} bytes received of {}",
            w.name(),
            usage.peak,
            usage.largest,
            hexs(&bytes)
        )
    });
    let rd = w.refdec(&bytes);
    match (&res, &rd.res) {
        (Ok(x), Ok((v, end))) => {
            if !rd.open {
                check(x.same(&*v.real()), "misread", || {
                    format!("{}: {} denotes {} and was read as {}", w.name(), hexs(&bytes), short(&v.dbg()), short(&x.dbg()))
                });
                check(used == *end, "boundary", || format!("{}: value of {end} bytes, {used} read of {}", w.name(), hexs(&bytes)));
            }
        }
        (Ok(x), Err(e)) => {
            if !rd.open {
                crate::violation(
                    "accepted-malformed",
                    format!("{}: {} ({e:?}) was accepted as {}", w.name(), hexs(&bytes), short(&x.dbg())),
                )
            }
        }
        (Err(e), Ok((v, _))) => {
            if !rd.loose && !rd.open {
                crate::violation(
                    "rejected-valid",
                    format!("{}: {} denotes {} and was rejected: {e}", w.name(), hexs(&bytes), short(&v.dbg())),
                )
            }
        }
        (Err(_), Err(Bad::Limit)) | (Err(_), Err(_)) => {}
    }
    let _ = Rd::new(&[]);
    let Ok(x) = res else {
        probe("probe.rejected");
        return;
    };
    if !intact {
        probe("probe.accepted_damaged");
    }
    // whoever receives it uses it
    let mut out = Vec::new();
    crate::no_panic("panic-in-use", &format!("using {} decoded from {}", w.name(), hexs(&bytes)), || {
        x.poke();
        must(x.encode(&mut out), "encode-accepted", w.name());
    });
    let mut again = Src::plain(&out);
    match w.decode(&mut again) {
        Ok(y) => check(y.same(&*x) && again.pos == out.len(), "unstable", || {
            format!("{}: {} was read as {}, encoded as {}, read as {}", w.name(), hexs(&bytes), short(&x.dbg()), hexs(&out), short(&y.dbg()))
        }),
        Err(e) => crate::violation(
            "unstable",
            format!("{}: {} was accepted as {}, but its encoding {} is rejected: {e}", w.name(), hexs(&bytes), short(&x.dbg()), hexs(&out)),
        ),
    }
    crate::no_panic("panic-in-use", &format!("dropping {}", w.name()), || drop(x));
}
