//! S07, S08, S13: identities of transactions and what they create, and what
//! signatures authorise, over histories of parties.
use super::*;
use crate::kernel::{chance, note, probe, raw, sample};
use crate::model::*;
use crate::rules::{self, Rules};
use sia::consensus as sc;
use sia::signing as ss;
use sia::types as st;
use std::collections::BTreeMap;

pub const S07: Scenario = Scenario {
    id: "S07",
    f: s07,
    batch: 100,
    quick: 1500,
    rule: "A run lets one to three parties relay a generated v1 or v2 transaction, in binary or JSON over faulty streams, changing witness data (ID must stay) or effects (ID must change) between hops, while other parties compute the ID of the same value.",
    real: &["v1 and v2 transaction IDs, encoders, decoders, JSON, BLAKE2b (blake2b_simd with scheduling points)"],
    stub: &[STREAMS, SCHED],
    must_reach: &["check.witness", "check.effect", "check.json_hop", "check.binary_hop", "check.shared", "check.in_place"],
};
pub const S08: Scenario = Scenario {
    id: "S08",
    f: s08,
    batch: 60,
    quick: 3000,
    rule: "A run signs generated v1 and v2 messages with generated keys at heights around the hardforks of a network, transfers them, and verifies them as sent, altered, under other keys, for other messages and at other heights.",
    real: &["signature hashes, ed25519 signing and verification, encoders, decoders, JSON, BLAKE2b (with scheduling points)"],
    stub: &[STREAMS, SCHED],
    must_reach: &["check.verified", "check.altered", "check.uncovered", "check.fork", "check.malformed", "check.missing_field", "check.kind", "check.in_place"],
};
pub const S13: Scenario = Scenario {
    id: "S13",
    f: s13,
    batch: 60,
    quick: 1600,
    rule: "A run creates a history of blocks with v1 and v2 transactions, lets several nodes derive the IDs of everything created, in generated orders and after generated transfers, and compares them with the reference and with each other.",
    real: &["all ID derivations, encoders, decoders, JSON, BLAKE2b (with scheduling points)"],
    stub: &[STREAMS, SCHED],
    must_reach: &["check.unique", "check.block", "check.v1", "check.v2", "check.node", "check.in_place", "check.far_index"],
};

pub fn arr<T: AsRef<[u8]>>(h: &T) -> [u8; 32] {
    h.as_ref().try_into().expect("32 bytes")
}

fn grain() {
    let m = [0, 0, 200, 30, 6][choose(5) as usize];
    kernel::set_granularity(m);
}

// ------------------------------------------------------------------ S07

pub fn gen_txn(g: &mut G) -> Txn {
    let mut t = Txn::gen(g);
    if t == Txn::empty() {
        t.siacoin_outputs.push(ScOutput::gen(g));
    }
    t
}

/// Changes something that says nothing about what the transaction does.
fn witness2(t: &mut Txn, g: &mut G) -> Option<String> {
    let mut p = String::new();
    let mut opts: Vec<u64> = Vec::new();
    if !t.siacoin_inputs.is_empty() {
        opts.extend([0, 1]);
    }
    if !t.siafund_inputs.is_empty() {
        opts.extend([2, 3]);
    }
    if !t.file_contracts.is_empty() {
        opts.push(4);
    }
    if !t.file_contract_revisions.is_empty() {
        opts.extend([5, 6]);
    }
    if !t.file_contract_resolutions.is_empty() {
        opts.extend([7, 8]);
    }
    if opts.is_empty() {
        return None;
    }
    fn one<T>(v: &mut [T]) -> &mut T {
        let n = v.len() as u64;
        &mut v[choose(n) as usize]
    }
    fn sig(c: &mut Contract, g: &mut G, p: &mut String) {
        if choose(2) == 0 {
            c.renter_signature.mutate(g, p)
        } else {
            c.host_signature.mutate(g, p)
        }
    }
    match opts[choose(opts.len() as u64) as usize] {
        0 => one(&mut t.siacoin_inputs).satisfied_policy.mutate(g, &mut p),
        1 => one(&mut t.siacoin_inputs).parent.state_element.mutate(g, &mut p),
        2 => one(&mut t.siafund_inputs).satisfied_policy.mutate(g, &mut p),
        3 => one(&mut t.siafund_inputs).parent.state_element.mutate(g, &mut p),
        4 => sig(one(&mut t.file_contracts), g, &mut p),
        5 => one(&mut t.file_contract_revisions).parent.state_element.mutate(g, &mut p),
        6 => sig(&mut one(&mut t.file_contract_revisions).revision, g, &mut p),
        7 => one(&mut t.file_contract_resolutions).parent.state_element.mutate(g, &mut p),
        _ => match &mut one(&mut t.file_contract_resolutions).resolution {
            Res2::Renewal(r) => match choose(4) {
                0 => r.renter_signature.mutate(g, &mut p),
                1 => r.host_signature.mutate(g, &mut p),
                2 => sig(&mut r.final_revision, g, &mut p),
                _ => sig(&mut r.new_contract, g, &mut p),
            },
            Res2::Proof(x) => x.proof_index.state_element.merkle_proof.mutate(g, &mut p),
            Res2::Expiration => return None,
        },
    }
    Some(p)
}

fn relay_v2(mut m: Txn, hops: u64, json: bool) {
    let mut g = small();
    g.json = json;
    let mut real: st::v2::Transaction = m.real();
    let mut id = rules::v2_id(&m);
    check_id(arr(&real.id()), id, || format!("{m:?}"));
    for _ in 0..hops {
        match choose(5) {
            0 => {
                probe("check.binary_hop");
                real = ship2(&real, "a v2 transaction");
            }
            1 if json => {
                probe("check.json_hop");
                real = shipj(&real, "a v2 transaction");
            }
            2 => {
                // what it does changes
                let mut p = String::new();
                m.mutate(&mut g, &mut p);
                let new = rules::v2_id(&m);
                real = m.real();
                let got = arr(&real.id());
                check_id(got, new, || format!("after {p}: {m:?}"));
                if new != id {
                    probe("check.effect");
                    check(got != id, "id-kept", || format!("the ID stayed {} after {p}", hex::encode(id)));
                }
                id = new;
                kernel::log("effect", digest(&id), 0);
            }
            _ => {
                if let Some(p) = witness2(&mut m, &mut g) {
                    probe("check.witness");
                    real = m.real();
                    let got = arr(&real.id());
                    check(got == id, "id-changed", || {
                        format!("the ID became {} and was {} after only {p} changed in {}", hex::encode(got), hex::encode(id), short(&format!("{m:?}")))
                    });
                    kernel::log("witness", digest(&id), 0);
                }
            }
        }
        if chance(1, 4) {
            check_id(arr(&real.id()), id, || format!("{m:?}"));
        }
    }
    let want: st::v2::Transaction = m.real();
    check(real == want, "transfer", || format!("{} became {}", short(&format!("{want:?}")), short(&format!("{real:?}"))));
    let end = arr(&real.id());
    check_id(end, id, || format!("{m:?}"));
}

fn check_id(got: [u8; 32], want: [u8; 32], what: impl FnOnce() -> String) {
    check(got == want, "wrong-id", || {
        format!("ID {} and not {}: {}", hex::encode(got), hex::encode(want), short(&what()))
    });
}

fn relay_v1(mut m: V1Txn, hops: u64, json: bool) {
    let mut g = small();
    g.json = json;
    let mut real: st::v1::Transaction = m.real();
    let mut id = rules::v1_id(&m);
    for _ in 0..hops {
        match choose(5) {
            0 => {
                probe("check.binary_hop");
                real = ship1(&real, "a v1 transaction");
            }
            1 if json => {
                probe("check.json_hop");
                real = shipj(&real, "a v1 transaction");
            }
            2 => {
                let mut p = String::new();
                m.mutate(&mut g, &mut p);
                let new = rules::v1_id(&m);
                real = m.real();
                let got = arr(&real.id());
                check_id(got, new, || format!("after {p}: {m:?}"));
                if new != id {
                    probe("check.effect");
                    check(got != id, "id-kept", || format!("the ID stayed {} after {p}", hex::encode(id)));
                }
                id = new;
                kernel::log("effect", digest(&id), 0);
            }
            _ => {
                let mut p = String::from("signatures");
                m.signatures.mutate(&mut g, &mut p);
                probe("check.witness");
                real = m.real();
                let got = arr(&real.id());
                check(got == id, "id-changed", || format!("the ID became {} and was {} after only {p} changed", hex::encode(got), hex::encode(id)));
                kernel::log("witness", digest(&id), 0);
            }
        }
        if chance(1, 4) {
            check_id(arr(&real.id()), id, || format!("{m:?}"));
        }
    }
    let want: st::v1::Transaction = m.real();
    check(real == want, "transfer", || format!("{} became {}", short(&format!("{want:?}")), short(&format!("{real:?}"))));
    check_id(arr(&real.id()), id, || format!("{m:?}"));
}

/// What is asked of values that are replaced and changed where they are.
#[derive(Clone, Copy, PartialEq)]
enum Ask {
    Id,
    Child,
    Hash,
}

fn an_index(last: &mut u64) -> u64 {
    *last = match choose(5) {
        0 => gen_u64(),
        1 => last.wrapping_add(1),
        2 => *last,
        _ => choose(4),
    };
    *last
}

/// Transactions in one place: replaced, changed and asked about in any order.
fn bench1(ask: Ask) {
    let mut g = small();
    g.budget = 1500;
    let mut m = V1Txn::gen(&mut g);
    let mut spare = if choose(2) == 0 { m.clone() } else { V1Txn::gen(&mut g) };
    let mut slot: Box<st::v1::Transaction> = Box::new(m.real());
    let mut other: Box<st::v1::Transaction> = Box::new(spare.real());
    let net = a_network();
    let mut chain = Chain { network: net.clone(), state: state_at(a_height(&net), &mut g) };
    let mut cs: sc::ChainState = chain.real();
    let mut last = 0;
    probe("check.in_place");
    for _ in 0..4 + choose(20) {
        match choose(14) {
            0 => {
                std::mem::swap(&mut m, &mut spare);
                std::mem::swap(&mut *slot, &mut *other);
            }
            1 => {
                m = spare.clone();
                *slot = m.real();
            }
            2 => {
                m.mutate(&mut g, &mut String::new());
                *slot = m.real();
            }
            3 => {
                g.budget = 800;
                spare = V1Txn::gen(&mut g);
                *other = spare.real();
            }
            4 => {
                // only a part of it, in place
                if let (Some(a), Some(b)) = (m.siacoin_outputs.last_mut(), slot.siacoin_outputs.last_mut()) {
                    a.value.mutate(&mut g, &mut String::new());
                    b.value = a.value.real();
                }
                if let (Some(a), Some(b)) = (m.miner_fees.first_mut(), slot.miner_fees.first_mut()) {
                    a.mutate(&mut g, &mut String::new());
                    *b = a.real();
                }
                if let (Some(a), Some(b)) = (m.arbitrary_data.first_mut(), slot.arbitrary_data.first_mut()) {
                    if let (Some(a), Some(b)) = (a.0.last_mut(), b.last_mut()) {
                        *a ^= 1;
                        *b ^= 1;
                    }
                }
            }
            5 if ask == Ask::Hash => {
                chain.state.index.height = a_height(&net);
                cs.state.index.height = chain.state.index.height;
            }
            6 => {
                // it is kept, and grows where it is
                let f = Cur(gen_u128());
                m.miner_fees.push(f);
                slot.miner_fees.push(f.real());
            }
            _ => match ask {
                Ask::Id => check_id(arr(&slot.id()), rules::v1_id(&m), || format!("in place: {m:?}")),
                Ask::Child => {
                    let i = an_index(&mut last);
                    let (kind, got) = match choose(3) {
                        0 => ("siacoin output", arr(&slot.siacoin_output_id(i as usize))),
                        1 => ("siafund output", arr(&slot.siafund_output_id(i as usize))),
                        _ => ("file contract", arr(&slot.file_contract_id(i as usize))),
                    };
                    let want = rules::v1_child(kind, &m, i);
                    check_id(got, want, || format!("{kind} {i}, in place: {m:?}"));
                }
                Ask::Hash => {
                    let prefix = Rules { n: &net, height: chain.state.index.height }.prefix();
                    if choose(3) == 0 {
                        let h = must(slot.whole_sig_hash(&cs, &st::Hash256::new([1; 32]), last, 3), "cannot-sign", "in place");
                        let want = rules::v1_whole(&m, prefix, &[1; 32], last, 3);
                        check(arr(&h) == want, "wrong-sig-hash", || format!("whole, in place: {}", short(&format!("{m:?}"))));
                        an_index(&mut last);
                        continue;
                    }
                    // some of them cover what does not exist
                    let mut c = covered(&m);
                    if choose(3) == 0 {
                        break_covered(&mut c, &m);
                        probe("check.missing_field");
                    }
                    let real: st::v1::CoveredFields = c.real();
                    let got = crate::no_panic("panic-in-hash", "partial_sig_hash", || slot.partial_sig_hash(&cs, &real));
                    let want = rules::v1_partial(&m, prefix, &c);
                    check(got.as_ref().ok().map(arr) == want, "wrong-sig-hash", || {
                        format!("partial, in place, {got:?} and not {:?}: {c:?} of {}", want.map(hex::encode), short(&format!("{m:?}")))
                    });
                }
            },
        }
    }
    kernel::log("in_place", digest(&rules::v1_id(&m)), last);
}

fn bench2(ask: Ask) {
    let mut g = small();
    g.budget = 1500;
    let mut m = gen_txn(&mut g);
    let mut spare = if choose(2) == 0 { m.clone() } else { gen_txn(&mut g) };
    let mut slot: Box<st::v2::Transaction> = Box::new(m.real());
    let mut other: Box<st::v2::Transaction> = Box::new(spare.real());
    let net = a_network();
    let mut chain = Chain { network: net.clone(), state: state_at(a_height(&net), &mut g) };
    let mut cs: sc::ChainState = chain.real();
    let mut last = 0;
    probe("check.in_place");
    for _ in 0..4 + choose(16) {
        match choose(14) {
            0 => {
                std::mem::swap(&mut m, &mut spare);
                std::mem::swap(&mut *slot, &mut *other);
            }
            1 => {
                m = spare.clone();
                *slot = m.real();
            }
            2 => {
                m.mutate(&mut g, &mut String::new());
                *slot = m.real();
            }
            3 => {
                g.budget = 800;
                spare = gen_txn(&mut g);
                *other = spare.real();
            }
            4 => {
                m.miner_fee.mutate(&mut g, &mut String::new());
                slot.miner_fee = m.miner_fee.real();
                if let (Some(a), Some(b)) = (m.siacoin_outputs.last_mut(), slot.siacoin_outputs.last_mut()) {
                    a.value.mutate(&mut g, &mut String::new());
                    b.value = a.value.real();
                }
            }
            5 if ask == Ask::Hash => {
                chain.state.index.height = a_height(&net);
                cs.state.index.height = chain.state.index.height;
            }
            6 => {
                m.arbitrary_data.0.push(9);
                slot.arbitrary_data.push(9);
            }
            _ => match ask {
                Ask::Id => check_id(arr(&slot.id()), rules::v2_id(&m), || format!("in place: {m:?}")),
                Ask::Child => {
                    let i = an_index(&mut last);
                    let n = i as usize;
                    let id = slot.id();
                    let (kind, got) = match choose(4) {
                        0 => ("siacoinoutput", arr(&id.v2_siacoin_output_id(n))),
                        1 => ("siafundoutput", arr(&id.v2_siafund_output_id(n))),
                        2 => ("attestation", arr(&id.v2_attestation_id(n))),
                        _ => ("filecontract", arr(&id.v2_file_contract_id(n))),
                    };
                    let want = rules::v2_child(kind, &rules::v2_id(&m), i);
                    check_id(got, want, || format!("{kind} {i}, in place: {m:?}"));
                }
                Ask::Hash => {
                    let prefix = Rules { n: &net, height: chain.state.index.height }.prefix();
                    let (kind, got, want) = match choose(3) {
                        0 if !m.file_contracts.is_empty() => {
                            let i = choose(m.file_contracts.len() as u64) as usize;
                            ("contract", slot.file_contracts[i].sig_hash(&cs), rules::contract_sig_hash(&m.file_contracts[i], prefix))
                        }
                        1 if !m.attestations.is_empty() => {
                            let i = choose(m.attestations.len() as u64) as usize;
                            ("attestation", slot.attestations[i].sig_hash(&cs), rules::attestation_sig_hash(&m.attestations[i], prefix))
                        }
                        _ => ("input", slot.input_sig_hash(&cs), rules::input_sig_hash(&m, prefix)),
                    };
                    check(arr(&got) == want, "wrong-sig-hash", || format!("{kind}, in place: {}", short(&format!("{m:?}"))));
                }
            },
        }
    }
    kernel::log("in_place", digest(&rules::v2_id(&m)), last);
}

fn bench(ask: Ask) {
    if choose(2) == 0 {
        bench1(ask)
    } else {
        bench2(ask)
    }
}

fn s07() {
    grain();
    let mut hs = Vec::new();
    for i in 0..1 + choose(3) {
        let json = choose(2) == 1;
        let hops = 1 + choose(8);
        let mut g = small();
        g.json = json;
        if chance(1, 5) {
            hs.push(kernel::spawn(&format!("bench{i}"), || bench(Ask::Id)));
            continue;
        }
        if choose(2) == 0 {
            let m = gen_txn(&mut g);
            note("v2", || short(&format!("{m:?}")));
            sample(|| format!("v2 transaction over {hops} hops: {}", short(&format!("{m:?}"))));
            if chance(1, 4) {
                // others look at it at the same time
                probe("check.shared");
                let a = Arc::new(ToReal::<st::v2::Transaction>::real(&m));
                let id = rules::v2_id(&m);
                for j in 0..1 + choose(2) {
                    let a = a.clone();
                    hs.push(kernel::spawn(&format!("look{i}.{j}"), move || {
                        check_id(arr(&a.id()), id, || format!("{a:?}"));
                    }));
                }
            }
            hs.push(kernel::spawn(&format!("relay{i}"), move || relay_v2(m, hops, json)));
        } else {
            let m = V1Txn::gen(&mut g);
            note("v1", || short(&format!("{m:?}")));
            sample(|| format!("v1 transaction over {hops} hops: {}", short(&format!("{m:?}"))));
            hs.push(kernel::spawn(&format!("relay{i}"), move || relay_v1(m, hops, json)));
        }
    }
    for h in hs {
        join(h, "relay");
    }
}

// ------------------------------------------------------------------ S08

pub struct Key {
    pub sk: ss::PrivateKey,
    pub pk: [u8; 32],
}
pub fn gen_key() -> Key {
    let mut s = [0; 32];
    crate::choice::Rng::new(raw()).fill(&mut s);
    let sk = ss::PrivateKey::from_seed(&s);
    let pk = ed25519_dalek::SigningKey::from_bytes(&s).verifying_key().to_bytes();
    check(arr(&sk.public_key()) == pk, "wrong-key", || format!("public key of {}", hex::encode(s)));
    Key { sk, pk }
}

pub fn a_network() -> Network {
    match choose(4) {
        0 => rules::mainnet(),
        1 => rules::zen(),
        2 => rules::anagami(),
        _ => rules::gen_network(&mut G::new(500).json()),
    }
}

/// A height near a fork, usually.
pub fn a_height(n: &Network) -> u64 {
    let f = [
        n.hardfork_tax.height,
        n.hardfork_asic.height,
        n.hardfork_foundation.height,
        n.hardfork_v2.allow_height,
        n.hardfork_v2.require_height,
        n.hardfork_oak.height,
    ];
    match choose(10) {
        0 => choose(2_000_000),
        1 => choose(20),
        // where a counter of fewer bits ends
        2 => (1 << (8 + choose(40))) + choose(6) - 3,
        _ => {
            let h = f[choose(6) as usize] + choose(5);
            h.saturating_sub(2)
        }
    }
}

pub fn state_at(height: u64, g: &mut G) -> State {
    // it may be sent as a document
    let json = std::mem::replace(&mut g.json, true);
    let mut s = State::gen(g);
    g.json = json;
    s.index.height = height;
    s.normal()
}

/// One kind of message that is signed.
#[derive(Clone, Debug)]
pub enum Msg {
    Input(Box<Txn>),
    Contract(Box<Contract>),
    Renewal(Box<Renewal>),
    Attestation(Box<Attestation>),
    Whole(Box<V1Txn>, [u8; 32], u64, u64),
    Partial(Box<V1Txn>, Covered),
}
pub const PLAIN: [&str; 6] = ["input", "contract", "renewal", "attestation", "whole", "partial"];

impl Msg {
    pub fn gen(kind: u64, g: &mut G) -> Msg {
        match kind {
            0 => Msg::Input(Box::new(gen_txn(g))),
            1 => Msg::Contract(Box::new(Contract::gen(g))),
            2 => Msg::Renewal(Box::new(Renewal::gen(g))),
            3 => Msg::Attestation(Box::new(Attestation::gen(g))),
            4 => Msg::Whole(Box::new(V1Txn::gen(g)), Hash::gen(g).0, gen_u64(), gen_u64()),
            _ => {
                let t = V1Txn::gen(g);
                let c = covered(&t);
                Msg::Partial(Box::new(t), c)
            }
        }
    }
    pub fn kind(&self) -> usize {
        match self {
            Msg::Input(_) => 0,
            Msg::Contract(_) => 1,
            Msg::Renewal(_) => 2,
            Msg::Attestation(_) => 3,
            Msg::Whole(..) => 4,
            Msg::Partial(..) => 5,
        }
    }
    pub fn expected(&self, p: &[u8]) -> Option<[u8; 32]> {
        Some(match self {
            Msg::Input(t) => rules::input_sig_hash(t, p),
            Msg::Contract(t) => rules::contract_sig_hash(t, p),
            Msg::Renewal(t) => rules::renewal_sig_hash(t, p),
            Msg::Attestation(t) => rules::attestation_sig_hash(t, p),
            Msg::Whole(t, a, b, c) => rules::v1_whole(t, p, a, *b, *c),
            Msg::Partial(t, c) => return rules::v1_partial(t, p, c),
        })
    }
    /// What the code under test signs, after a transfer if asked.
    pub fn hash(&self, cs: &sc::ChainState, hop: u64) -> Result<st::Hash256, String> {
        macro_rules! sent {
            ($r:expr, $ship:ident) => {{
                let r = $r;
                match hop {
                    1 => $ship(&r, "a signed message"),
                    2 => shipj(&r, "a signed message"),
                    _ => r,
                }
            }};
        }
        Ok(match self {
            Msg::Input(t) => {
                let r: st::v2::Transaction = sent!(t.real(), ship2);
                r.input_sig_hash(cs)
            }
            Msg::Contract(t) => {
                let r: st::v2::FileContract = sent!(t.real(), ship2);
                r.sig_hash(cs)
            }
            Msg::Renewal(t) => {
                let r: st::v2::FileContractRenewal = sent!(t.real(), ship2);
                r.sig_hash(cs)
            }
            Msg::Attestation(t) => {
                let r: st::v2::Attestation = sent!(t.real(), ship2);
                r.sig_hash(cs)
            }
            Msg::Whole(t, a, b, c) => {
                let r: st::v1::Transaction = sent!(t.real(), ship1);
                let parent = st::Hash256::new(*a);
                return r.whole_sig_hash(cs, &parent, *b, *c).map_err(|e| format!("{e:?}"));
            }
            Msg::Partial(t, c) => {
                let r: st::v1::Transaction = sent!(t.real(), ship1);
                let c: st::v1::CoveredFields = c.real();
                return r.partial_sig_hash(cs, &c).map_err(|e| format!("{e:?}"));
            }
        })
    }
    pub fn alter(&mut self, g: &mut G) -> String {
        let mut p = String::new();
        match self {
            Msg::Input(t) => t.mutate(g, &mut p),
            Msg::Contract(t) => t.mutate(g, &mut p),
            Msg::Renewal(t) => t.mutate(g, &mut p),
            Msg::Attestation(t) => t.mutate(g, &mut p),
            Msg::Whole(t, a, b, c) => match choose(8) {
                0 => {
                    a[choose(32) as usize] ^= 1 << choose(8);
                    p.push_str("parent");
                }
                1 => b.mutate(g, &mut p),
                2 => c.mutate(g, &mut p),
                3 => {
                    p.push_str(".signatures");
                    t.signatures.mutate(g, &mut p)
                }
                _ => t.mutate(g, &mut p),
            },
            Msg::Partial(t, c) => match choose(4) {
                0 => c.mutate(g, &mut p),
                1 => {
                    p.push_str(".signatures");
                    t.signatures.mutate(g, &mut p)
                }
                _ => t.mutate(g, &mut p),
            },
        }
        p
    }
}

/// A choice of fields that exist, mostly.
pub fn covered(t: &V1Txn) -> Covered {
    let mut c = Covered {
        whole_transaction: choose(5) == 4,
        siacoin_inputs: vec![],
        siacoin_outputs: vec![],
        file_contracts: vec![],
        file_contract_revisions: vec![],
        storage_proofs: vec![],
        siafund_inputs: vec![],
        siafund_outputs: vec![],
        miner_fees: vec![],
        arbitrary_data: vec![],
        signatures: vec![],
    };
    macro_rules! part {
        ($f:ident) => {
            let n = t.$f.len().min(40) as u64;
            if n > 0 && choose(3) > 0 {
                for _ in 0..1 + choose(n + 1) {
                    c.$f.push(choose(t.$f.len() as u64) as usize);
                }
            }
        };
    }
    part!(siacoin_inputs);
    part!(siacoin_outputs);
    part!(file_contracts);
    part!(file_contract_revisions);
    part!(storage_proofs);
    part!(siafund_inputs);
    part!(siafund_outputs);
    part!(miner_fees);
    part!(arbitrary_data);
    part!(signatures);
    c
}

/// A covered field that does not exist.
pub fn break_covered(c: &mut Covered, t: &V1Txn) -> &'static str {
    macro_rules! part {
        ($($i:literal $f:ident),*) => {
            match choose(10) {
                $( $i => {
                    let n = t.$f.len();
                    let bad = [n, n + 1, usize::MAX, n + 256, 1 << 32 | n, i64::MAX as usize][choose(6) as usize];
                    let at = choose(c.$f.len() as u64 + 1) as usize;
                    c.$f.insert(at, bad);
                    stringify!($f)
                } )*
                _ => unreachable!(),
            }
        };
    }
    part!(0 siacoin_inputs, 1 siacoin_outputs, 2 file_contracts, 3 file_contract_revisions, 4 storage_proofs,
          5 siafund_inputs, 6 siafund_outputs, 7 miner_fees, 8 arbitrary_data, 9 signatures)
}

fn signing_round(net: Network, json: bool) {
    let mut g = small();
    g.json = json;
    let height = a_height(&net);
    let state = state_at(height, &mut g);
    let chain = Chain { network: net.clone(), state };
    let cs: sc::ChainState = chain.real();
    let prefix = Rules { n: &net, height }.prefix();
    check(cs.replay_prefix() == prefix, "wrong-prefix", || format!("{} at {height}: {:?} and not {prefix:?}", net.name, cs.replay_prefix()));
    let key = gen_key();
    let mut m = Msg::gen(choose(6), &mut g);
    note("message", || format!("{} {}", height, short(&format!("{m:?}"))));
    sample(|| format!("{} signed at height {height} of {}: {}", PLAIN[m.kind()], net.name, short(&format!("{m:?}"))));
    // one side signs
    let h = must(m.hash(&cs, 0), "cannot-sign", "computing what to sign");
    let want = m.expected(prefix).expect("covered fields exist");
    check(arr(&h) == want, "wrong-sig-hash", || format!("{}: {} and not {} for {}", PLAIN[m.kind()], hex::encode(arr(&h)), hex::encode(want), short(&format!("{m:?}"))));
    let sig = key.sk.sign_hash(&h);
    kernel::log("signed", digest(sig.as_ref()), height);
    {
        // deterministic ed25519, checked by another implementation path
        let d = ed25519_dalek::VerifyingKey::from_bytes(&key.pk).expect("own key");
        let s = ed25519_dalek::Signature::from_bytes(sig.as_ref());
        check(d.verify_strict(&want, &s).is_ok(), "bad-signature", || format!("signature of {}", hex::encode(want)));
    }
    // it travels with the message
    let sig = match choose(3) {
        0 => ship2(&sig, "a signature"),
        1 => shipj(&sig, "a signature"),
        _ => sig,
    };
    let pk = match choose(3) {
        0 => ship2(&key.sk.public_key(), "a key"),
        1 => shipj(&key.sk.public_key(), "a key"),
        _ => ss::PublicKey::new(key.pk),
    };
    // the other side verifies at its own copy of the same point
    let theirs: sc::ChainState = if chance(1, 3) { shipj(&cs, "a chain state") } else { chain.real() };
    let hop = if json { choose(3) } else { choose(2) };
    let h2 = must(m.hash(&theirs, hop), "cannot-verify", "computing what was signed");
    probe("check.verified");
    check(pk.verify(&h2, &sig), "honest-rejected", || {
        format!("{} signed at height {height}: {}", PLAIN[m.kind()], short(&format!("{m:?}")))
    });
    for _ in 0..1 + choose(4) {
        match choose(7) {
            0 | 1 => {
                let old = m.expected(prefix);
                let p = m.alter(&mut g);
                let new = m.expected(prefix);
                let got = m.hash(&theirs, hop);
                match (&got, new) {
                    (Ok(h), Some(w)) => {
                        check(arr(h) == w, "wrong-sig-hash", || format!("{} after {p}: {}", PLAIN[m.kind()], short(&format!("{m:?}"))));
                        let ok = pk.verify(h, &sig);
                        check(ok == (w == want), "authorises", || {
                            format!("{}: after {p} the signature {}", PLAIN[m.kind()], if ok { "still verifies" } else { "no longer verifies" })
                        });
                        if w != want {
                            probe("check.altered");
                        } else if old == new {
                            probe("check.uncovered");
                        }
                    }
                    (Err(_), None) => probe("check.missing_field"),
                    (g, w) => crate::violation("missing-field", format!("{}: after {p} {g:?}, expected {}", PLAIN[m.kind()], w.is_some())),
                }
            }
            2 => {
                // another key
                let o = gen_key();
                if o.pk == key.pk {
                    continue;
                }
                if let Ok(h) = m.hash(&theirs, 0) {
                    check(!ss::PublicKey::new(o.pk).verify(&h, &sig), "other-key", || "a signature verifies under another key".into());
                }
            }
            3 => {
                // another kind of message
                let o = match (&m, choose(3)) {
                    (Msg::Contract(c), 0) => Msg::Renewal(Box::new(Renewal {
                        final_revision: (**c).clone(),
                        new_contract: (**c).clone(),
                        renter_rollover: Cur(0),
                        host_rollover: Cur(0),
                        renter_signature: Sig([0; 64]),
                        host_signature: Sig([0; 64]),
                    })),
                    (Msg::Input(t), 0) if !t.file_contracts.is_empty() => Msg::Contract(Box::new(t.file_contracts[0].clone())),
                    (Msg::Whole(t, ..), 0) => Msg::Partial(t.clone(), covered(t)),
                    (Msg::Renewal(r), _) => Msg::Contract(Box::new(r.new_contract.clone())),
                    _ => Msg::gen(choose(6), &mut g),
                };
                let w = o.expected(prefix);
                if let (Ok(h), Some(w)) = (o.hash(&theirs, 0), w) {
                    probe("check.kind");
                    check(arr(&h) == w, "wrong-sig-hash", || format!("{}: {}", PLAIN[o.kind()], short(&format!("{o:?}"))));
                    if w != want {
                        check(!pk.verify(&h, &sig), "other-kind", || format!("a signature of a {} verifies for a {}", PLAIN[m.kind()], PLAIN[o.kind()]));
                    }
                }
            }
            4 => {
                // elsewhere in the history
                let h2 = a_height(&net);
                let p2 = Rules { n: &net, height: h2 }.prefix();
                let cs2: sc::ChainState = Chain { network: net.clone(), state: state_at(h2, &mut g) }.real();
                if let (Ok(x), Some(w)) = (m.hash(&cs2, 0), m.expected(p2)) {
                    check(arr(&x) == w, "wrong-sig-hash", || format!("{} at height {h2} of {}", PLAIN[m.kind()], net.name));
                    if p2 != prefix {
                        probe("check.fork");
                    }
                    check(pk.verify(&x, &sig) == (w == want), "replay", || {
                        format!("{} signed at {height}, verified at {h2} of {}", PLAIN[m.kind()], net.name)
                    });
                }
            }
            5 => {
                // keys and signatures that are none
                probe("check.malformed");
                let mut s = *AsRef::<[u8; 64]>::as_ref(&sig);
                let mut k = key.pk;
                match choose(5) {
                    0 => s[choose(64) as usize] ^= 1 << choose(8),
                    1 => s[32..].fill(0xff),
                    2 => k[choose(32) as usize] ^= 1 << choose(8),
                    3 => {
                        k = bad_point(raw());
                    }
                    _ => {
                        // the same scalar plus the group order
                        let l: [u8; 32] = [
                            0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde,
                            0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
                        ];
                        let mut c = 0u16;
                        for i in 0..32 {
                            c += s[32 + i] as u16 + l[i] as u16;
                            s[32 + i] = c as u8;
                            c >>= 8;
                        }
                    }
                }
                if let Ok(h) = m.hash(&theirs, 0) {
                    let ok = crate::no_panic("panic-in-verify", "verifying a malformed key or signature", || {
                        ss::PublicKey::new(k).verify(&h, &ss::Signature::new(s))
                    });
                    check(!ok, "malformed-verifies", || format!("key {} signature {}", hex::encode(k), hex::encode(s)));
                }
            }
            _ => {
                // covered fields that do not exist
                let mut g2 = small();
                let t = V1Txn::gen(&mut g2);
                let mut c = covered(&t);
                let f = break_covered(&mut c, &t);
                probe("check.missing_field");
                let r: st::v1::Transaction = t.real();
                let cf: st::v1::CoveredFields = if choose(2) == 0 { c.real() } else { ship1(&c.real(), "covered fields") };
                let x = crate::no_panic("panic-in-hash", "partial_sig_hash", || r.partial_sig_hash(&theirs, &cf));
                check(x.is_err(), "missing-field", || format!("a covered {f} that does not exist is accepted: {c:?}"));
            }
        }
    }
}

/// 32 bytes that are not the encoding of a point.
fn bad_point(seed: u64) -> [u8; 32] {
    let mut r = crate::choice::Rng::new(seed);
    loop {
        let mut b = [0; 32];
        r.fill(&mut b);
        if ed25519_dalek::VerifyingKey::from_bytes(&b).is_err() {
            return b;
        }
    }
}

fn s08() {
    grain();
    let mut hs = Vec::new();
    for i in 0..1 + choose(3) {
        let net = a_network();
        let json = choose(2) == 1;
        if chance(1, 4) {
            hs.push(kernel::spawn(&format!("bench{i}"), || bench(Ask::Hash)));
            continue;
        }
        hs.push(kernel::spawn(&format!("party{i}"), move || signing_round(net, json)));
    }
    for h in hs {
        join(h, "party");
    }
}

// ------------------------------------------------------------------ S13

type Ids = BTreeMap<String, [u8; 32]>;

fn ref_v1(t: &V1Txn, at: &str, ids: &mut Ids) {
    for i in 0..t.siacoin_outputs.len() as u64 {
        ids.insert(format!("{at}/sco{i}"), rules::v1_child("siacoin output", t, i));
    }
    for i in 0..t.siafund_outputs.len() as u64 {
        let id = rules::v1_child("siafund output", t, i);
        ids.insert(format!("{at}/sfo{i}"), id);
        ids.insert(format!("{at}/sfo{i}/claim"), rules::claim_id(&id));
    }
    for (i, c) in t.file_contracts.iter().enumerate() {
        let id = rules::v1_child("file contract", t, i as u64);
        ids.insert(format!("{at}/fc{i}"), id);
        for j in 0..c.valid_proof_outputs.len() as u64 {
            ids.insert(format!("{at}/fc{i}/valid{j}"), rules::proof_output_id(&id, true, j));
        }
        for j in 0..c.missed_proof_outputs.len() as u64 {
            ids.insert(format!("{at}/fc{i}/missed{j}"), rules::proof_output_id(&id, false, j));
        }
    }
    ids.insert(format!("{at}/id"), rules::v1_id(t));
}

fn node_v1(t: &st::v1::Transaction, at: &str, ids: &mut Ids) {
    for i in 0..t.siacoin_outputs.len() {
        ids.insert(format!("{at}/sco{i}"), arr(&t.siacoin_output_id(i)));
    }
    for i in 0..t.siafund_outputs.len() {
        let id = t.siafund_output_id(i);
        ids.insert(format!("{at}/sfo{i}"), arr(&id));
        ids.insert(format!("{at}/sfo{i}/claim"), arr(&id.claim_output_id()));
    }
    for (i, c) in t.file_contracts.iter().enumerate() {
        let id = t.file_contract_id(i);
        ids.insert(format!("{at}/fc{i}"), arr(&id));
        for j in 0..c.valid_proof_outputs.len() {
            ids.insert(format!("{at}/fc{i}/valid{j}"), arr(&id.valid_output_id(j)));
        }
        for j in 0..c.missed_proof_outputs.len() {
            ids.insert(format!("{at}/fc{i}/missed{j}"), arr(&id.missed_output_id(j)));
        }
    }
    ids.insert(format!("{at}/id"), arr(&t.id()));
}

fn ref_v2(t: &Txn, at: &str, ids: &mut Ids) {
    let id = rules::v2_id(t);
    ids.insert(format!("{at}/id"), id);
    for i in 0..t.siacoin_outputs.len() as u64 {
        ids.insert(format!("{at}/sco{i}"), rules::v2_child("siacoinoutput", &id, i));
    }
    for i in 0..t.siafund_outputs.len() as u64 {
        let o = rules::v2_child("siafundoutput", &id, i);
        ids.insert(format!("{at}/sfo{i}"), o);
        ids.insert(format!("{at}/sfo{i}/claim"), rules::v2_claim_id(&o));
    }
    for i in 0..t.file_contracts.len() as u64 {
        let c = rules::v2_child("filecontract", &id, i);
        ids.insert(format!("{at}/fc{i}"), c);
        ids.insert(format!("{at}/fc{i}/renter"), rules::v2_contract_output_id(&c, 0));
        ids.insert(format!("{at}/fc{i}/host"), rules::v2_contract_output_id(&c, 1));
        let r = rules::v2_renewal_id(&c);
        ids.insert(format!("{at}/fc{i}/renewal"), r);
        ids.insert(format!("{at}/fc{i}/renewal/host"), rules::v2_contract_output_id(&r, 1));
    }
    for i in 0..t.attestations.len() as u64 {
        ids.insert(format!("{at}/att{i}"), rules::v2_child("attestation", &id, i));
    }
}

fn node_v2(t: &st::v2::Transaction, at: &str, ids: &mut Ids) {
    let id = t.id();
    ids.insert(format!("{at}/id"), arr(&id));
    for i in 0..t.siacoin_outputs.len() {
        ids.insert(format!("{at}/sco{i}"), arr(&id.v2_siacoin_output_id(i)));
    }
    for i in 0..t.siafund_outputs.len() {
        let o = id.v2_siafund_output_id(i);
        ids.insert(format!("{at}/sfo{i}"), arr(&o));
        ids.insert(format!("{at}/sfo{i}/claim"), arr(&o.v2_claim_output_id()));
    }
    for i in 0..t.file_contracts.len() {
        let c = id.v2_file_contract_id(i);
        ids.insert(format!("{at}/fc{i}"), arr(&c));
        ids.insert(format!("{at}/fc{i}/renter"), arr(&c.v2_renter_output_id()));
        ids.insert(format!("{at}/fc{i}/host"), arr(&c.v2_host_output_id()));
        let r = c.v2_renewal_id();
        ids.insert(format!("{at}/fc{i}/renewal"), arr(&r));
        ids.insert(format!("{at}/fc{i}/renewal/host"), arr(&r.v2_host_output_id()));
    }
    for i in 0..t.attestations.len() {
        ids.insert(format!("{at}/att{i}"), arr(&id.v2_attestation_id(i)));
    }
}

fn ref_block(id: &[u8; 32], payouts: usize, at: &str, ids: &mut Ids) {
    ids.insert(format!("{at}/foundation"), rules::foundation_output_id(id));
    for i in 0..payouts as u64 {
        ids.insert(format!("{at}/miner{i}"), rules::miner_output_id(id, i));
    }
}
fn node_block(id: &st::BlockID, payouts: usize, at: &str, ids: &mut Ids) {
    ids.insert(format!("{at}/foundation"), arr(&id.foundation_output_id()));
    for i in 0..payouts {
        ids.insert(format!("{at}/miner{i}"), arr(&id.miner_output_id(i)));
    }
}

#[derive(Clone)]
struct Blk {
    id: [u8; 32],
    block: Block,
    v2: Vec<Txn>,
}

fn s13() {
    grain();
    let json = choose(2) == 1;
    let mut g = small();
    g.json = json;
    let mut blocks = Vec::new();
    for b in 0..1 + choose(3) {
        probe("check.block");
        let mut block = Block::gen(&mut g);
        block.transactions.truncate(3);
        for _ in 0..choose(2) {
            block.transactions.push(V1Txn::gen(&mut g));
        }
        // no transaction spends twice: each has its own nonce of data
        for (i, t) in block.transactions.iter_mut().enumerate() {
            t.arbitrary_data.push(Bytes(vec![b as u8, i as u8, raw() as u8]));
            probe("check.v1");
        }
        let mut v2 = Vec::new();
        for i in 0..choose(3) {
            let mut t = gen_txn(&mut g);
            t.arbitrary_data.0.extend([b as u8, i as u8, raw() as u8]);
            v2.push(t);
            probe("check.v2");
        }
        g.budget = 3000;
        let mut id = [0; 32];
        crate::choice::Rng::new(raw()).fill(&mut id);
        id[31] = b as u8;
        blocks.push(Blk { id, block, v2 });
    }
    let mut want = Ids::new();
    for (b, x) in blocks.iter().enumerate() {
        ref_block(&x.id, x.block.miner_payouts.len(), &format!("b{b}"), &mut want);
        for (i, t) in x.block.transactions.iter().enumerate() {
            ref_v1(t, &format!("b{b}/t{i}"), &mut want);
        }
        for (i, t) in x.v2.iter().enumerate() {
            ref_v2(t, &format!("b{b}/v2t{i}"), &mut want);
        }
    }
    note("history", || format!("{} objects", want.len()));
    sample(|| format!("{} blocks creating {} objects: {}", blocks.len(), want.len(), want.keys().take(12).cloned().collect::<Vec<_>>().join(" ")));
    let blocks = Arc::new(blocks);
    let mut hs = Vec::new();
    let mut benches = Vec::new();
    for n in 0..1 + choose(3) {
        let blocks = blocks.clone();
        hs.push(kernel::spawn(&format!("node{n}"), move || node(&blocks, json)));
    }
    if chance(1, 3) {
        let h = kernel::spawn("bench", || bench(Ask::Child));
        if choose(2) == 0 {
            join(h, "bench");
        } else {
            benches.push(h);
        }
    }
    for h in hs {
        let Some(got) = join(h, "node") else { continue };
        probe("check.node");
        for (k, w) in &want {
            let x = got.get(k);
            check(x == Some(w), "wrong-id", || format!("{k}: {} and not {}", x.map(hex::encode).unwrap_or_default(), hex::encode(w)));
        }
        check(got.len() == want.len(), "wrong-id", || format!("{} objects and not {}", got.len(), want.len()));
        // everything has its own
        let mut seen: BTreeMap<[u8; 32], &str> = BTreeMap::new();
        for (k, x) in &got {
            probe("check.unique");
            if let Some(o) = seen.insert(*x, k) {
                crate::violation("same-id", format!("{o} and {k} have the ID {}", hex::encode(x)));
            }
        }
    }
    for h in benches {
        join(h, "bench");
    }
    parents(&mut g);
    // indices beyond what exists, and indices alike in most of their bits
    for x in blocks.iter().take(1 + choose(2) as usize) {
        probe("check.far_index");
        let i = gen_u64();
        let j = if choose(2) == 0 { i ^ 1 << choose(64) } else { i.wrapping_add(1) };
        let h = x.id;
        let (b, f, t) = (st::BlockID::new(h), st::FileContractID::new(h), st::TransactionID::new(h));
        let all = |i: u64| {
            let n = i as usize;
            [
                ("miner payout", arr(&b.miner_output_id(n)), rules::miner_output_id(&h, i)),
                ("valid proof output", arr(&f.valid_output_id(n)), rules::proof_output_id(&h, true, i)),
                ("missed proof output", arr(&f.missed_output_id(n)), rules::proof_output_id(&h, false, i)),
                ("v2 siacoin output", arr(&t.v2_siacoin_output_id(n)), rules::v2_child("siacoinoutput", &h, i)),
                ("v2 siafund output", arr(&t.v2_siafund_output_id(n)), rules::v2_child("siafundoutput", &h, i)),
                ("v2 contract", arr(&t.v2_file_contract_id(n)), rules::v2_child("filecontract", &h, i)),
                ("attestation", arr(&t.v2_attestation_id(n)), rules::v2_child("attestation", &h, i)),
            ]
        };
        let (a, b) = (all(i), all(j));
        for ((kind, got, want), (_, other, _)) in a.iter().zip(&b) {
            check(got == want, "wrong-id", || format!("{kind} {i} of {}: {} and not {}", hex::encode(h), hex::encode(got), hex::encode(want)));
            check(got != other, "same-id", || format!("{kind} {i} and {j} of {} have the ID {}", hex::encode(h), hex::encode(got)));
        }
    }
}

/// What comes of parents of any look and of parents alike in most of their bytes.
fn parents(g: &mut G) {
    let mut last = gen_32(g);
    let mut seen: BTreeMap<[u8; 32], (&str, [u8; 32])> = BTreeMap::new();
    let mut ids = vec![last];
    for _ in 0..1 + choose(4) {
        match choose(3) {
            0 => last[choose(32) as usize] ^= 1 << choose(8),
            1 => last.swap(choose(32) as usize, choose(32) as usize),
            _ => last = gen_32(g),
        }
        ids.push(last);
    }
    ids.sort();
    ids.dedup();
    for h in ids {
        probe("check.parent");
        let (s, b, f) = (st::SiafundOutputID::new(h), st::BlockID::new(h), st::FileContractID::new(h));
        let i = choose(3);
        let all = [
            ("claim", arr(&s.claim_output_id()), rules::claim_id(&h)),
            ("v2 claim", arr(&s.v2_claim_output_id()), rules::v2_claim_id(&h)),
            ("Foundation output", arr(&b.foundation_output_id()), rules::foundation_output_id(&h)),
            ("miner payout", arr(&b.miner_output_id(i as usize)), rules::miner_output_id(&h, i)),
            ("valid proof output", arr(&f.valid_output_id(i as usize)), rules::proof_output_id(&h, true, i)),
            ("missed proof output", arr(&f.missed_output_id(i as usize)), rules::proof_output_id(&h, false, i)),
            ("renter output", arr(&f.v2_renter_output_id()), rules::v2_contract_output_id(&h, 0)),
            ("host output", arr(&f.v2_host_output_id()), rules::v2_contract_output_id(&h, 1)),
            ("renewal", arr(&f.v2_renewal_id()), rules::v2_renewal_id(&h)),
        ];
        for (kind, got, want) in all {
            check(got == want, "wrong-id", || format!("{kind} of {}: {} and not {}", hex::encode(h), hex::encode(got), hex::encode(want)));
            if let Some((k, o)) = seen.insert(got, (kind, h)) {
                crate::violation("same-id", format!("{kind} of {} and {k} of {} have the ID {}", hex::encode(h), hex::encode(o), hex::encode(got)));
            }
        }
    }
}

/// Derives everything in some order, from copies received in some way.
fn node(blocks: &[Blk], json: bool) -> Ids {
    let mut ids = Ids::new();
    let mut jobs: Vec<(usize, usize, bool)> = Vec::new();
    for (b, x) in blocks.iter().enumerate() {
        jobs.push((b, usize::MAX, false));
        jobs.extend((0..x.block.transactions.len()).map(|i| (b, i, false)));
        jobs.extend((0..x.v2.len()).map(|i| (b, i, true)));
    }
    let mut cache: BTreeMap<usize, st::Block> = BTreeMap::new();
    while !jobs.is_empty() {
        let (b, i, v2) = jobs.remove(choose(jobs.len() as u64) as usize);
        let x = &blocks[b];
        if v2 {
            let r: st::v2::Transaction = x.v2[i].real();
            let r = match choose(if json { 3 } else { 2 }) {
                0 => r,
                1 => ship2(&r, "a v2 transaction"),
                _ => shipj(&r, "a v2 transaction"),
            };
            node_v2(&r, &format!("b{b}/v2t{i}"), &mut ids);
            continue;
        }
        let blk = cache.entry(b).or_insert_with(|| {
            let r: st::Block = x.block.real();
            match choose(if json { 3 } else { 2 }) {
                0 => r,
                1 => ship1(&r, "a block"),
                _ => shipj(&r, "a block"),
            }
        });
        if i == usize::MAX {
            let id = st::BlockID::new(x.id);
            let id = match choose(3) {
                0 => id,
                1 => ship2(&id, "a block ID"),
                _ => shipj(&id, "a block ID"),
            };
            node_block(&id, blk.miner_payouts.len(), &format!("b{b}"), &mut ids);
        } else {
            node_v1(&blk.transactions[i], &format!("b{b}/t{i}"), &mut ids);
        }
    }
    ids
}
