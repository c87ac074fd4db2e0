//! S06: what an operation returns depends on its arguments alone.
use super::*;
use crate::alloc;
use crate::choice::Rng;
use crate::io::{End, KINDS};
use crate::kernel::{chance, fault, note, probe, raw, sample};
use crate::model::*;
use crate::registry::{docs, wires};
use crate::rules::{self, Rules};
use crate::scenarios::chain::{derived, expected};
use crate::scenarios::txn::{a_height, a_network, arr, break_covered, gen_key, gen_txn, state_at, Msg, PLAIN};
use crate::scenarios::wallet;
use sia::consensus as sc;
use sia::signing as ss;
use sia::types as st;
use std::cell::Cell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const S06: Scenario = Scenario {
    id: "S06",
    f: s06,
    batch: 60,
    quick: 750,
    rule: "A run collects operations of all parts of the library, in families whose arguments are alike, runs each alone and compares it with the reference, and then runs mixes of them in concurrent tasks, inside the stream callbacks of other operations, after operations whose streams failed or panicked or whose tasks were cancelled, and alone again; every result has to be the one it had alone. Tasks are preempted at stream calls, hashing steps and, in half of the runs, allocations.",
    real: &["encoders, decoders, JSON, IDs, signature hashes, keys, seeds, policies, Merkle roots, rules, text forms, BLAKE2b (with scheduling points)"],
    stub: &[STREAMS, SCHED, "global allocator: a wrapper with scheduling points"],
    must_reach: &[
        "check.alone", "check.reference", "check.concurrent", "check.nested", "check.deep", "check.fresh", "check.again", "check.unchanged",
        "after.failed", "after.panicked", "after.cancelled", "op.wire", "op.doc", "op.message", "op.txn", "op.keys", "op.seed", "op.policy",
        "op.rules", "op.ids", "op.text", "op.partial", "op.network", "op.poke", "op.refused", "op.show",
    ],
};

/// What a stream callback of an abandoned operation panics with.
struct Boom;

type F = Box<dyn Fn(&Cx) -> String + Send + Sync>;

struct Op {
    name: String,
    /// What the reference says, where it says something.
    want: Option<String>,
    f: F,
}

/// The conditions one operation runs under.
struct Cx<'a> {
    busy: bool,
    /// It fails there, or panics at that stream call.
    fail: End,
    boom: Cell<u64>,
    nest: Option<&'a Cat>,
    left: Cell<u32>,
    depth: u32,
}

/// The operations of a run and their results.
struct Cat {
    ops: Vec<Op>,
    base: Vec<String>,
    fine: bool,
}

impl<'a> Cx<'a> {
    fn plain() -> Cx<'a> {
        Cx { busy: false, fail: End::Never, boom: Cell::new(u64::MAX), nest: None, left: Cell::new(0), depth: 0 }
    }
    fn sink(&self) -> W<'_, 'a> {
        let f = if self.busy { Flow::gen().for_size(30_000) } else { Flow::plain() };
        W(Sink::new(f, self.fail), self)
    }
    fn src(&self, b: &Arc<Vec<u8>>) -> R<'_, 'a> {
        let f = if self.busy { Flow::gen().for_size(b.len()) } else { Flow::plain() };
        R(Src::new(b.clone(), f, self.fail), self)
    }
    /// The code under test calls back.
    fn called(&self) {
        alloc::fine(false, || {
            let b = self.boom.get();
            if b == 0 {
                fault("callback.panic");
                self.boom.set(u64::MAX);
                std::panic::panic_any(Boom);
            }
            self.boom.set(b.saturating_sub(1));
            let Some(cat) = self.nest else { return };
            if self.left.get() > 0 && choose(6) == 5 {
                self.left.set(self.left.get() - 1);
                let i = choose(cat.ops.len() as u64) as usize;
                probe(if self.depth == 0 { "check.nested" } else { "check.deep" });
                let deeper = self.depth < 2 && choose(2) == 1;
                let cx = Cx {
                    busy: choose(3) == 2,
                    nest: deeper.then_some(cat),
                    left: Cell::new(if deeper { 2 } else { 0 }),
                    depth: self.depth + 1,
                    ..Cx::plain()
                };
                cat.same(i, &cx, "inside a callback of another operation");
            }
        })
    }
}

struct W<'a, 'b>(Sink, &'a Cx<'b>);
impl Write for W<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.1.called();
        self.0.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
/// Takes the text of a value, and fails like a stream.
struct T<'a, 'b>(String, &'a Cx<'b>);
impl std::fmt::Write for T<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1.called();
        let room = match self.1.fail {
            End::Never => usize::MAX,
            End::Eof(n) | End::Fail(n, _) | End::Zero(n) | End::Once(n, _) => n,
        };
        if self.0.len() + s.len() > room {
            fault("format.error");
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
struct R<'a, 'b>(Src, &'a Cx<'b>);
impl Read for R<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1.called();
        self.0.read(buf)
    }
}

impl Cat {
    fn run(&self, i: usize, cx: &Cx) -> String {
        let o = &self.ops[i];
        crate::no_panic("panicked", &o.name, || alloc::fine(self.fine, || (o.f)(cx)))
    }
    fn same(&self, i: usize, cx: &Cx, how: &str) {
        let got = self.run(i, cx);
        check(got == self.base[i], "depends", || {
            format!("{} {how}: {} and not {}", self.ops[i].name, short(&got), short(&self.base[i]))
        });
        kernel::log("same", i as u64, digest(got.as_bytes()));
    }
    /// An operation that is abandoned half way.
    fn abandon(&self, i: usize) {
        let o = &self.ops[i];
        let cx = match choose(3) {
            0 => Cx { boom: Cell::new(choose([20, 2][choose(2) as usize])), busy: choose(2) == 1, ..Cx::plain() },
            1 if choose(2) == 0 => Cx { fail: End::Once(choose(200) as usize, KINDS[choose(KINDS.len() as u64) as usize]), ..Cx::plain() },
            1 => Cx { fail: End::Fail(choose(200) as usize, KINDS[choose(KINDS.len() as u64) as usize]), busy: choose(2) == 1, ..Cx::plain() },
            _ => Cx { fail: if choose(2) == 0 { End::Eof(choose(120) as usize) } else { End::Zero(choose(120) as usize) }, ..Cx::plain() },
        };
        let panics = cx.boom.get() != u64::MAX;
        match catch_unwind(AssertUnwindSafe(|| alloc::fine(self.fine, || (o.f)(&cx)))) {
            Ok(_) => {
                if cx.fail != End::Never {
                    probe("after.failed");
                }
            }
            Err(p) if p.is::<kernel::Cancelled>() => resume_unwind(p),
            Err(p) if panics && p.is::<Boom>() => probe("after.panicked"),
            Err(p) => {
                let (at, _) = crate::last_panic().unwrap_or_default();
                if at.starts_with("src/") {
                    crate::harness_error(&format!("{} panicked at {at}", o.name));
                }
                crate::violation("panicked", format!("{} with a failing stream panicked at {at}: {}", o.name, kernel::panic_text(&*p)))
            }
        }
    }
}

fn brief(b: &[u8]) -> String {
    if b.len() <= 300 {
        hex::encode(b)
    } else {
        format!("{} bytes {:016x} {}", b.len(), digest(b), hexs(b))
    }
}
fn said(s: &str) -> String {
    if s.len() <= 600 {
        s.to_string()
    } else {
        format!("{} characters {:016x} {}", s.len(), digest(s.as_bytes()), short(s))
    }
}
fn wrote<E: Debug>(r: Result<(), E>, b: &[u8]) -> String {
    match r {
        Ok(()) => format!("wrote {}", brief(b)),
        Err(e) => format!("{e:?} after {}", brief(b)),
    }
}
/// A value that must not change while it is used.
fn kept(before: String, after: String, name: &str) {
    check(before == after, "changed", || format!("{name} changed {} to {}", short(&before), short(&after)));
    probe("check.unchanged");
}

struct Build {
    ops: Vec<Op>,
    /// Values several operations share, and what they looked like.
    shared: Vec<(String, Box<dyn Fn() -> String>)>,
}

impl Build {
    fn op(&mut self, name: String, want: Option<String>, f: impl Fn(&Cx) -> String + Send + Sync + 'static) {
        self.ops.push(Op { name, want, f: Box::new(f) });
    }

    fn wire(&mut self, g: &mut G) {
        probe("op.wire");
        let w = &wires()[choose(wires().len() as u64) as usize];
        let a = w.gen(g);
        let b = a.mutated(g).0;
        for v in [a, b] {
            let n = w.name();
            let bytes = Arc::new(v.bytes());
            let v1 = v.clone();
            self.op(format!("encoding {n}"), Some(format!("wrote {}", brief(&bytes))), move |cx| {
                let r = v1.real();
                let before = r.dbg();
                let mut s = cx.sink();
                let e = r.encode(&mut s);
                kept(before, r.dbg(), n);
                wrote(e, &s.0.out)
            });
            let want = format!("{} bytes: {}", bytes.len(), said(&v.real().dbg()));
            let b2 = bytes.clone();
            self.op(format!("decoding {n}"), Some(want), move |cx| {
                let mut s = cx.src(&b2);
                match w.decode(&mut s) {
                    Ok(r) => format!("{} bytes: {}", s.0.pos, said(&r.dbg())),
                    Err(e) => format!("{e:?}"),
                }
            });
            if choose(2) == 0 && !bytes.is_empty() {
                let mut d = (*bytes).clone();
                if choose(2) == 0 {
                    d.truncate(choose(d.len() as u64) as usize);
                } else {
                    let i = choose(d.len() as u64) as usize;
                    d[i] ^= 1 << choose(8);
                }
                let d = Arc::new(d);
                self.op(format!("decoding a damaged {n}"), None, move |cx| {
                    let mut s = cx.src(&d);
                    match w.decode(&mut s) {
                        Ok(r) => format!("{} bytes: {}", s.0.pos, said(&r.dbg())),
                        Err(e) => format!("{e:?}"),
                    }
                });
            }
            if choose(3) == 0 {
                probe("op.poke");
                self.op(format!("using {n}"), Some("fine".into()), move |_| {
                    let r = v.real();
                    let before = r.dbg();
                    r.poke();
                    kept(before, r.dbg(), n);
                    "fine".into()
                });
            }
        }
    }

    fn doc(&mut self, g: &mut G) {
        probe("op.doc");
        let w = &docs()[choose(docs().len() as u64) as usize];
        g.json = true;
        let a = w.gen(g);
        let b = a.mutated(g).0;
        for v in [a, b] {
            let n = w.name();
            let tree = v.tree().value();
            let bytes = Arc::new(serde_json::to_vec(&tree).expect("a document"));
            let pretty = choose(2) == 1;
            let v1 = v.clone();
            self.op(format!("writing {n}"), Some("as expected".into()), move |cx| {
                let r = v1.real();
                let before = r.dbg();
                let mut s = cx.sink();
                let e = r.write(&mut s, pretty);
                kept(before, r.dbg(), n);
                match e {
                    Err(e) => format!("{e:?}"),
                    Ok(()) => match serde_json::from_slice::<serde_json::Value>(&s.0.out) {
                        Ok(x) if x == tree => "as expected".into(),
                        Ok(x) => format!("{x} and not {tree}"),
                        Err(e) => format!("{e:?}"),
                    },
                }
            });
            let want = said(&v.real().dbg());
            let mut ways = vec![bytes.clone()];
            if choose(2) == 0 {
                let mut d = (*bytes).clone();
                d.truncate(choose(d.len() as u64) as usize);
                ways.push(Arc::new(d));
            }
            for (i, d) in ways.into_iter().enumerate() {
                let how = choose(2);
                let want = (i == 0).then(|| want.clone());
                self.op(format!("reading {}{n}", if i == 1 { "a torn " } else { "" }), want, move |cx| {
                    let r = if how == 0 { w.read(&mut cx.src(&d)) } else { w.parse(&d) };
                    match r {
                        Ok(r) => said(&r.dbg()),
                        Err(e) => format!("{e:?}"),
                    }
                });
            }
        }
    }

    fn message(&mut self, g: &mut G) {
        probe("op.message");
        let net = a_network();
        let height = a_height(&net);
        let chain = |h: u64, g: &mut G| {
            let c = Chain { network: net.clone(), state: state_at(h, g) };
            let r: sc::ChainState = c.real();
            (Arc::new(r), Rules { n: &net, height: h }.prefix())
        };
        // two points of one chain, and two messages
        let points = [chain(height, g), chain(height.wrapping_add(choose(3)).wrapping_sub(1).min(1 << 40), g)];
        let m = Msg::gen(choose(6), g);
        let mut m2 = m.clone();
        m2.alter(g);
        let mut ms = vec![m, m2];
        if let Msg::Partial(t, c) = &ms[0] {
            let mut c = c.clone();
            break_covered(&mut c, t);
            ms.push(Msg::Partial(t.clone(), c));
        }
        for m in ms {
            for (cs, prefix) in &points {
                let want = Some(m.expected(prefix).map_or("refused".into(), hex::encode));
                if want.as_deref() == Some("refused") {
                    probe("op.refused");
                }
                let (m, cs) = (m.clone(), cs.clone());
                self.op(format!("the hash to sign of {} at {}", PLAIN[m.kind()], cs.state.index.height), want, move |_| {
                    match m.hash(&cs, 0) {
                        Ok(h) => hex::encode(arr(&h)),
                        Err(_) => "refused".into(),
                    }
                });
            }
        }
        for (cs, _) in points {
            self.shared.push(("a chain state".into(), Box::new(move || format!("{cs:?}"))));
        }
    }

    fn txn(&mut self, g: &mut G) {
        probe("op.txn");
        if choose(2) == 0 {
            let a = gen_txn(g);
            let mut b = a.clone();
            b.mutate(g, &mut String::new());
            for m in [a, b] {
                let r = Arc::new(ToReal::<st::v2::Transaction>::real(&m));
                let id = hex::encode(rules::v2_id(&m));
                let r1 = r.clone();
                self.op("the ID of a v2 transaction".into(), Some(id), move |_| hex::encode(arr(&r1.id())));
                let (r1, bytes) = (r.clone(), enc2(&m));
                self.op("encoding a shared v2 transaction".into(), Some(format!("wrote {}", brief(&bytes))), move |cx| {
                    let mut s = cx.sink();
                    let e = r1.encode(&mut s);
                    wrote(e, &s.0.out)
                });
                self.shared.push(("a v2 transaction".into(), Box::new(move || format!("{r:?}"))));
            }
        } else {
            let a = V1Txn::gen(g);
            let mut b = a.clone();
            b.mutate(g, &mut String::new());
            for m in [a, b] {
                let r = Arc::new(ToReal::<st::v1::Transaction>::real(&m));
                let id = rules::v1_id(&m);
                let r1 = r.clone();
                self.op("the ID of a v1 transaction".into(), Some(hex::encode(id)), move |_| hex::encode(arr(&r1.id())));
                let (r1, bytes) = (r.clone(), rules::v1_no_sigs(&m));
                probe("op.partial");
                self.op("encoding a v1 transaction without signatures".into(), Some(format!("wrote {}", brief(&bytes))), move |cx| {
                    let mut s = cx.sink();
                    let e = r1.encode_no_sigs(&mut s);
                    wrote(e, &s.0.out)
                });
                let (r1, i, m) = (r.clone(), choose(4), m.clone());
                let want: Vec<String> = ["siacoin output", "siafund output", "file contract"].iter().map(|k| hex::encode(rules::v1_child(k, &m, i))).collect();
                let own = choose(2) == 1;
                self.op("the IDs of what a v1 transaction creates".into(), Some(format!("{want:?}")), move |_| {
                    let n = i as usize;
                    // its own, where the one before was
                    let mine: st::v1::Transaction;
                    let r1 = if own {
                        mine = m.real();
                        &mine
                    } else {
                        &*r1
                    };
                    format!("{:?}", [
                        hex::encode(arr(&r1.siacoin_output_id(n))),
                        hex::encode(arr(&r1.siafund_output_id(n))),
                        hex::encode(arr(&r1.file_contract_id(n))),
                    ])
                });
                self.shared.push(("a v1 transaction".into(), Box::new(move || format!("{r:?}"))));
            }
        }
    }

    fn part(&mut self, g: &mut G) {
        probe("op.partial");
        let m = CiElement::gen(g);
        let mut bare = m.clone();
        bare.state_element.merkle_proof.clear();
        let (r, want) = (ToReal::<st::v2::ChainIndexElement>::real(&m), enc2(&bare));
        self.op("encoding an index element without its proof".into(), Some(format!("wrote {}", brief(&want))), move |cx| {
            let mut s = cx.sink();
            let e = r.encode_semantics(&mut s);
            wrote(e, &s.0.out)
        });
    }

    fn keys(&mut self) {
        probe("op.keys");
        let (a, b) = (gen_key(), gen_key());
        let mut h = [0; 32];
        Rng::new(raw()).fill(&mut h);
        let mut h2 = h;
        h2[choose(32) as usize] ^= 1 << choose(8);
        let (a, b) = (Arc::new(a), Arc::new(b));
        for k in [&a, &b] {
            for m in [h, h2] {
                let hash = st::Hash256::new(m);
                let sig = k.sk.sign_hash(&hash);
                let k1 = k.clone();
                let want = hex::encode(sig.data());
                self.op("signing".into(), Some(want), move |_| hex::encode(k1.sk.sign_hash(&st::Hash256::new(m)).data()));
                for other in [&a, &b] {
                    let ok = other.pk == k.pk;
                    let pk = ss::PublicKey::new(other.pk);
                    let sig = ss::Signature::new(*<&[u8; 64]>::try_from(sig.data()).expect("64 bytes"));
                    self.op("verifying".into(), Some(format!("{ok} false")), move |_| {
                        let n = if m == h { h2 } else { h };
                        format!("{} {}", pk.verify(&st::Hash256::new(m), &sig), pk.verify(&st::Hash256::new(n), &sig))
                    });
                }
            }
            let (k1, pk) = (k.clone(), hex::encode(k.pk));
            self.op("the public key".into(), Some(pk), move |_| hex::encode(arr(&k1.sk.public_key())));
        }
    }

    fn seed(&mut self) {
        probe("op.seed");
        let a = wallet::gen_seed();
        let mut b = a;
        b[choose(16) as usize] ^= 1 << choose(8);
        let i = wallet::gen_index();
        for s in [a, b] {
            let real = Arc::new(sia::seed::Seed::new(s));
            let p = wallet::phrase(&s);
            let r1 = real.clone();
            self.op("the phrase of a seed".into(), Some(p.clone()), move |_| r1.to_mnemonic());
            let p1 = p.clone();
            self.op("the seed of a phrase".into(), Some(hex::encode(s)), move |_| match sia::seed::Seed::from_mnemonic(&p1) {
                Ok(s) => hex::encode(s.as_bytes()),
                Err(e) => format!("{e:?}"),
            });
            let mut w: Vec<&str> = p.split(' ').collect();
            w.swap(0, 1 + choose(11) as usize);
            let bad = w.join(" ");
            let want = wallet::denotes(&bad).map(hex::encode);
            self.op("the seed of a damaged phrase".into(), Some(format!("{want:?}")), move |_| {
                format!("{:?}", sia::seed::Seed::from_mnemonic(&bad).ok().map(|s| hex::encode(s.as_bytes())))
            });
            for i in [i, i ^ 1] {
                let want = ed25519_dalek::SigningKey::from_bytes(&wallet::key_seed(&s, i)).verifying_key().to_bytes();
                let r1 = real.clone();
                self.op(format!("key {i} of a seed"), Some(hex::encode(want)), move |_| hex::encode(arr(&r1.private_key(i).public_key())));
            }
        }
    }

    fn policy(&mut self, g: &mut G) {
        probe("op.policy");
        let a = Pol::gen(g);
        let mut b = a.clone();
        b.mutate(g, &mut String::new());
        for m in [a, b] {
            let r = Arc::new(ToReal::<st::v2::SpendPolicy>::real(&m));
            let want = hex::encode(m.address());
            let r1 = r.clone();
            self.op("the address of a policy".into(), Some(want), move |_| hex::encode(arr(&r1.address())));
            self.shared.push(("a policy".into(), Box::new(move || format!("{r:?}"))));
        }
        let a = UnlockConditions::gen(g);
        let mut b = a.clone();
        b.mutate(g, &mut String::new());
        for m in [a, b] {
            let r = Arc::new(ToReal::<st::v1::UnlockConditions>::real(&m));
            let want = hex::encode(m.address());
            let r1 = r.clone();
            self.op("the address of unlock conditions".into(), Some(want), move |_| hex::encode(arr(&r1.address())));
            self.shared.push(("unlock conditions".into(), Box::new(move || format!("{r:?}"))));
        }
    }

    fn rules(&mut self, g: &mut G) {
        probe("op.rules");
        let net = a_network();
        let h = a_height(&net).min(1 << 40);
        let contract = Contract::gen(g);
        let mut v1 = V1Contract::gen(g);
        v1.payout = Cur(gen_u128() >> 8);
        for height in [h, h + 1] {
            let mut state = state_at(height, g);
            state.index.height = height;
            let c = Chain { network: net.clone(), state: state.normal() };
            let r = Rules { n: &net, height };
            let want = format!("{:?}", expected(&r, &c.state));
            let real = Arc::new(ToReal::<sc::ChainState>::real(&c));
            let r1 = real.clone();
            self.op(format!("the rules at {height}"), Some(want), move |_| format!("{:?}", derived(&r1)));
            if let Some(t) = r.v2_tax(&contract) {
                let (fc, r1) = (ToReal::<st::v2::FileContract>::real(&contract), real.clone());
                self.op("a v2 tax".into(), Some(t.to_string()), move |_| (*fc.tax(&r1)).to_string());
            }
            let t = r.v1_tax(v1.payout.0);
            let (fc, r1) = (ToReal::<st::v1::FileContract>::real(&v1), real.clone());
            self.op("a v1 tax".into(), Some(t.to_string()), move |_| (*fc.tax(&r1)).to_string());
            self.shared.push(("a chain state".into(), Box::new(move || format!("{real:?}"))));
        }
    }

    fn ids(&mut self, g: &mut G) {
        probe("op.ids");
        let h = gen_32(g);
        let mut h2 = h;
        h2[choose(32) as usize] ^= 1;
        let i = gen_u64() as usize;
        for h in [h, h2] {
            for i in [i, i ^ 1] {
                let n = i as u64;
                let want = [
                    rules::v2_child("siacoinoutput", &h, n), rules::v2_child("siafundoutput", &h, n), rules::v2_child("filecontract", &h, n),
                    rules::v2_child("attestation", &h, n), rules::miner_output_id(&h, n), rules::foundation_output_id(&h),
                    rules::claim_id(&h), rules::proof_output_id(&h, true, n), rules::proof_output_id(&h, false, n),
                    rules::v2_claim_id(&h), rules::v2_contract_output_id(&h, 0), rules::v2_contract_output_id(&h, 1), rules::v2_renewal_id(&h),
                ];
                let want = want.iter().map(hex::encode).collect::<Vec<_>>().join(" ");
                self.op(format!("IDs at {i}"), Some(want), move |_| {
                    let t = st::TransactionID::new(h);
                    let (b, f, s) = (st::BlockID::new(h), st::FileContractID::new(h), st::SiafundOutputID::new(h));
                    let all = [
                        arr(&t.v2_siacoin_output_id(i)), arr(&t.v2_siafund_output_id(i)), arr(&t.v2_file_contract_id(i)),
                        arr(&t.v2_attestation_id(i)), arr(&b.miner_output_id(i)), arr(&b.foundation_output_id()),
                        arr(&s.claim_output_id()), arr(&f.valid_output_id(i)), arr(&f.missed_output_id(i)),
                        arr(&s.v2_claim_output_id()), arr(&f.v2_renter_output_id()), arr(&f.v2_host_output_id()), arr(&f.v2_renewal_id()),
                    ];
                    all.iter().map(hex::encode).collect::<Vec<_>>().join(" ")
                });
            }
        }
    }

    fn text(&mut self, g: &mut G) {
        probe("op.text");
        let h = gen_32(g);
        let mut h2 = h;
        h2[choose(32) as usize] ^= 1 << choose(8);
        for h in [h, h2] {
            let x = hex::encode(h);
            let (t, w) = (x.clone(), x.clone());
            self.op("the text of a hash".into(), Some(w), move |_| st::Hash256::new(h).to_string());
            self.op("a hash from text".into(), Some(format!("Ok({x:?})")), move |_| {
                format!("{:?}", st::Hash256::parse_string(&t).map(|h| hex::encode(arr(&h))).map_err(|e| format!("{e:?}")))
            });
            let a = addr_text(&h);
            let (t, w) = (a.clone(), a.clone());
            self.op("the text of an address".into(), Some(w), move |_| st::Address::new(h).to_string());
            self.op("an address from text".into(), Some(hex::encode(h)), move |_| match st::Address::parse_string(&t) {
                Ok(a) => hex::encode(arr(&a)),
                Err(e) => format!("{e:?}"),
            });
            let mut bad = a.into_bytes();
            let i = choose(bad.len() as u64) as usize;
            bad[i] = if bad[i] == b'0' { b'1' } else { b'0' };
            let bad = String::from_utf8(bad).expect("ASCII");
            self.op("an address from damaged text".into(), Some("refused".into()), move |_| match st::Address::parse_string(&bad) {
                Ok(a) => hex::encode(arr(&a)),
                Err(_) => "refused".into(),
            });
        }
        let n = gen_u128();
        for n in [n, n ^ 1] {
            self.op("the text of an amount".into(), None, move |_| st::Currency::new(n).to_string());
            self.op("an amount from text".into(), Some(n.to_string()), move |_| match st::Currency::parse_string(&n.to_string()) {
                Ok(c) => (*c).to_string(),
                Err(e) => format!("{e:?}"),
            });
        }
    }

    /// Values formatted into a writer of the caller's.
    fn show(&mut self, g: &mut G) {
        probe("op.show");
        let mut a = [0; 64];
        Rng::new(raw()).fill(&mut a);
        let mut b = a;
        b[choose(64) as usize] ^= 1 << choose(8);
        let height = gen_u64();
        let kinds: Vec<u64> = (0..3).map(|_| choose(10)).collect();
        for x in [a, b] {
            let h: [u8; 32] = x[..32].try_into().expect("32 bytes");
            for &k in &kinds {
                let hex = hex::encode(h);
                type D = Box<dyn std::fmt::Display + Send + Sync>;
                let (v, want): (D, Option<String>) = match k {
                    0 => (Box::new(st::Leaf::from(x)), Some(hex::encode(x))),
                    1 => (Box::new(ss::Signature::new(x)), Some(hex::encode(x))),
                    2 => (Box::new(ss::PublicKey::new(h)), Some(format!("ed25519:{hex}"))),
                    3 => (Box::new(st::Address::new(h)), Some(addr_text(&h))),
                    4 => (Box::new(st::Hash256::new(h)), Some(hex)),
                    5 => (Box::new(st::SiacoinOutputID::new(h)), Some(hex)),
                    6 => (Box::new(st::ChainIndex { height, id: st::BlockID::new(h) }), Some(format!("{height}:{hex}"))),
                    7 => (Box::new(st::AttestationID::new(h)), Some(hex)),
                    8 => (Box::new(ToReal::<st::v1::UnlockKey>::real(&UnlockKey::gen(g))), None),
                    _ => {
                        let t = gen_txn(g);
                        let r: st::v2::Transaction = t.real();
                        struct Shown(st::v2::Transaction);
                        impl std::fmt::Display for Shown {
                            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                                write!(f, "{:?}", self.0)
                            }
                        }
                        (Box::new(Shown(r)), None)
                    }
                };
                self.op(format!("formatting {k}"), want.map(|w| format!("Ok(()) {w}")), move |cx| {
                    let mut t = T(String::new(), cx);
                    let r = std::fmt::Write::write_fmt(&mut t, format_args!("{v}"));
                    format!("{r:?} {}", said(&t.0))
                });
            }
        }
    }

    fn network(&mut self) {
        probe("op.network");
        for (name, m, f) in [
            ("mainnet", rules::mainnet(), sc::Network::mainnet as fn() -> sc::Network),
            ("zen", rules::zen(), sc::Network::zen),
            ("anagami", rules::anagami(), sc::Network::anagami),
        ] {
            let real: sc::Network = m.real();
            self.op(format!("the {name} network"), Some(format!("{real:?}")), move |_| format!("{:?}", f()));
        }
    }
}

fn s06() {
    wires();
    docs();
    kernel::set_granularity([0, 0, 200, 30, 6, 2][choose(6) as usize]);
    let fine = choose(2) == 1;
    if fine {
        kernel::set_mem_granularity([0, 0, 20_000, 3_000, 400, 60, 10][choose(7) as usize]);
    }
    let mut b = Build { ops: vec![], shared: vec![] };
    let mut g = small();
    g.budget = 800;
    for _ in 0..2 + choose(6) {
        g.budget = 600;
        g.json = false;
        match choose(16) {
            0..=3 => b.wire(&mut g),
            4 | 5 => b.doc(&mut g),
            6 | 7 => b.message(&mut g),
            8 => b.txn(&mut g),
            9 => b.keys(),
            10 => {
                b.seed();
                b.part(&mut g)
            }
            11 => b.policy(&mut g),
            12 | 13 => b.rules(&mut g),
            14 => b.ids(&mut g),
            _ => match choose(5) {
                0 => b.network(),
                1 | 2 => b.show(&mut g),
                _ => b.text(&mut g),
            },
        }
    }
    for (i, o) in b.ops.iter().enumerate() {
        note("operation", || format!("{i}: {}", o.name));
    }
    let n = b.ops.len() as u64;
    sample(|| format!("{n} operations, among them {}, {} and {}", b.ops[0].name, b.ops[n as usize / 2].name, b.ops[n as usize - 1].name));
    let before: Vec<String> = b.shared.iter().map(|s| s.1()).collect();
    // alone, each in its own thread or all in this one
    let mut cat = Cat { ops: b.ops, base: vec![], fine };
    let apart = choose(2) == 1;
    if apart {
        probe("check.fresh");
        let c = Arc::new(cat);
        let mut base = vec![];
        for i in 0..n as usize {
            let c = c.clone();
            let h = kernel::spawn(&format!("alone{i}"), move || c.run(i, &Cx::plain()));
            base.push(join(h, "alone").expect("nobody cancels it"));
        }
        cat = Arc::into_inner(c).expect("all have ended");
        cat.base = base;
    } else {
        cat.base = (0..n as usize).map(|i| cat.run(i, &Cx::plain())).collect();
    }
    for (o, got) in cat.ops.iter().zip(&cat.base) {
        probe("check.alone");
        if let Some(w) = &o.want {
            probe("check.reference");
            check(got == w, "wrong-result", || format!("{}: {} and not {}", o.name, short(got), short(w)));
        }
    }
    let cat = Arc::new(cat);
    for _ in 0..1 + choose(3) {
        match choose(if fine { 7 } else { 5 }) {
            4.. => {
                // a few callers that do little else than a few kindred operations
                probe("check.rivals");
                let (first, width) = (choose(n), 2 + choose(3));
                let mut hs = vec![];
                for t in 0..2 + choose(2) {
                    let c = cat.clone();
                    let k = 4 + choose(16);
                    hs.push(kernel::spawn(&format!("rival{t}"), move || {
                        let mut i = first as usize;
                        for _ in 0..k {
                            if choose(2) == 0 {
                                i = ((first + choose(width)) % c.ops.len() as u64) as usize;
                            }
                            c.same(i, &Cx::plain(), "next to kindred operations");
                        }
                    }));
                }
                for h in hs {
                    join(h, "caller");
                }
            }
            0 | 1 => {
                probe("check.concurrent");
                let mut hs = vec![];
                for t in 0..2 + choose(4) {
                    let c = cat.clone();
                    let k = 1 + choose(6);
                    let h = kernel::spawn(&format!("caller{t}"), move || {
                        for _ in 0..k {
                            let i = choose(c.ops.len() as u64) as usize;
                            if chance(1, 6) {
                                c.abandon(i);
                                continue;
                            }
                            let nest = choose(3) == 2;
                            let cx = Cx {
                                busy: choose(2) == 1,
                                nest: nest.then_some(&c),
                                left: Cell::new(if nest { 4 } else { 0 }),
                                ..Cx::plain()
                            };
                            c.same(i, &cx, "next to other operations");
                        }
                    });
                    hs.push(h);
                }
                if chance(1, 3) {
                    kernel::sleep(1);
                    let i = choose(hs.len() as u64) as usize;
                    kernel::cancel(hs[i].tid());
                }
                for h in hs {
                    if join(h, "caller").is_none() {
                        probe("after.cancelled");
                    }
                }
            }
            2 => {
                for _ in 0..1 + choose(4) {
                    cat.abandon(choose(n) as usize);
                }
            }
            _ => {
                for _ in 0..1 + choose(6) {
                    let cx = Cx { busy: choose(2) == 1, nest: Some(&cat), left: Cell::new(5), ..Cx::plain() };
                    cat.same(choose(n) as usize, &cx, "with other operations in its callbacks");
                }
            }
        }
    }
    probe("check.again");
    let start = choose(n) as usize;
    for k in 0..n as usize {
        cat.same((start + k) % n as usize, &Cx::plain(), "alone again");
    }
    for ((name, f), b) in b.shared.iter().zip(before) {
        let after = f();
        check(after == b, "changed", || format!("{name} was {} and is {}", short(&b), short(&after)));
    }
}
