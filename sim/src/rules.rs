//! Reference hashes, identifiers and consensus rules, from the protocol.
use crate::b2::{blake2b, cat};
use crate::model::*;
use num_bigint::BigUint;

pub const SC: u128 = 1_000_000_000_000_000_000_000_000;

pub fn spec(s: &str) -> [u8; 16] {
    let mut b = [0; 16];
    b[..s.len()].copy_from_slice(s.as_bytes());
    b
}
fn le(i: u64) -> [u8; 8] {
    i.to_le_bytes()
}

// ------------------------------------------------------- v1 transactions

pub fn v1_no_sigs(t: &V1Txn) -> Vec<u8> {
    let mut b = t.clone();
    b.signatures.clear();
    let mut v = enc1(&b);
    v.truncate(v.len() - 8);
    v
}
pub fn v1_id(t: &V1Txn) -> [u8; 32] {
    blake2b(&v1_no_sigs(t))
}
pub fn v1_child(kind: &str, t: &V1Txn, i: u64) -> [u8; 32] {
    cat(&[&spec(kind), &v1_no_sigs(t), &le(i)])
}
pub fn v1_whole(t: &V1Txn, prefix: &[u8], parent: &[u8; 32], pk: u64, timelock: u64) -> [u8; 32] {
    let mut o = Vec::new();
    (t.siacoin_inputs.len() as u64).e1(&mut o);
    for i in &t.siacoin_inputs {
        o.extend(prefix);
        i.e1(&mut o);
    }
    t.siacoin_outputs.e1(&mut o);
    t.file_contracts.e1(&mut o);
    t.file_contract_revisions.e1(&mut o);
    t.storage_proofs.e1(&mut o);
    (t.siafund_inputs.len() as u64).e1(&mut o);
    for i in &t.siafund_inputs {
        o.extend(prefix);
        i.e1(&mut o);
    }
    t.siafund_outputs.e1(&mut o);
    t.miner_fees.e1(&mut o);
    t.arbitrary_data.e1(&mut o);
    o.extend(parent);
    pk.e1(&mut o);
    timelock.e1(&mut o);
    blake2b(&o)
}
/// None when a covered field does not exist.
pub fn v1_partial(t: &V1Txn, prefix: &[u8], c: &Covered) -> Option<[u8; 32]> {
    let mut o = Vec::new();
    macro_rules! part {
        ($f:ident, $p:expr) => {
            for &i in &c.$f {
                let x = t.$f.get(i)?;
                if $p {
                    o.extend(prefix);
                }
                x.e1(&mut o);
            }
        };
    }
    part!(siacoin_inputs, true);
    part!(siacoin_outputs, false);
    part!(file_contracts, false);
    part!(file_contract_revisions, false);
    part!(storage_proofs, false);
    part!(siafund_inputs, true);
    part!(siafund_outputs, false);
    part!(miner_fees, false);
    part!(arbitrary_data, false);
    part!(signatures, false);
    Some(blake2b(&o))
}

// ------------------------------------------------------- v2 transactions

fn bare(c: &Contract) -> Contract {
    let mut c = c.clone();
    c.renter_signature = Sig([0; 64]);
    c.host_signature = Sig([0; 64]);
    c
}
pub fn contract_semantics(c: &Contract) -> Vec<u8> {
    enc2(&bare(c))
}
pub fn renewal_semantics(r: &Renewal) -> Vec<u8> {
    let mut r = r.clone();
    r.final_revision = bare(&r.final_revision);
    r.new_contract = bare(&r.new_contract);
    r.renter_signature = Sig([0; 64]);
    r.host_signature = Sig([0; 64]);
    enc2(&r)
}
pub fn attestation_semantics(a: &Attestation) -> Vec<u8> {
    let mut a = a.clone();
    a.signature = Sig([0; 64]);
    enc2(&a)
}
pub fn v2_semantics(t: &Txn) -> Vec<u8> {
    let mut o = Vec::new();
    (t.siacoin_inputs.len() as u64).e2(&mut o);
    t.siacoin_inputs.iter().for_each(|i| i.parent.id.e2(&mut o));
    t.siacoin_outputs.e2(&mut o);
    (t.siafund_inputs.len() as u64).e2(&mut o);
    t.siafund_inputs.iter().for_each(|i| i.parent.id.e2(&mut o));
    t.siafund_outputs.e2(&mut o);
    (t.file_contracts.len() as u64).e2(&mut o);
    t.file_contracts.iter().for_each(|c| o.extend(contract_semantics(c)));
    (t.file_contract_revisions.len() as u64).e2(&mut o);
    for r in &t.file_contract_revisions {
        r.parent.id.e2(&mut o);
        o.extend(contract_semantics(&r.revision));
    }
    (t.file_contract_resolutions.len() as u64).e2(&mut o);
    for r in &t.file_contract_resolutions {
        r.parent.id.e2(&mut o);
        match &r.resolution {
            Res2::Renewal(r) => o.extend(renewal_semantics(r)),
            Res2::Proof(p) => {
                let mut p = p.clone();
                p.proof_index.state_element.merkle_proof.clear();
                p.e2(&mut o)
            }
            Res2::Expiration => {}
        }
    }
    t.attestations.e2(&mut o);
    t.arbitrary_data.e2(&mut o);
    t.new_foundation_address.e2(&mut o);
    t.miner_fee.e2(&mut o);
    o
}
pub fn v2_id(t: &Txn) -> [u8; 32] {
    blake2b(&v2_semantics(t))
}
pub fn input_sig_hash(t: &Txn, prefix: &[u8]) -> [u8; 32] {
    cat(&[b"sia/sig/input|", prefix, &v2_semantics(t)])
}
pub fn contract_sig_hash(c: &Contract, prefix: &[u8]) -> [u8; 32] {
    cat(&[b"sia/sig/filecontract|", prefix, &contract_semantics(c)])
}
pub fn renewal_sig_hash(r: &Renewal, prefix: &[u8]) -> [u8; 32] {
    cat(&[b"sia/sig/filecontractrenewal|", prefix, &renewal_semantics(r)])
}
pub fn attestation_sig_hash(a: &Attestation, prefix: &[u8]) -> [u8; 32] {
    cat(&[b"sia/sig/attestation|", prefix, &attestation_semantics(a)])
}
pub fn v2_child(kind: &str, id: &[u8; 32], i: u64) -> [u8; 32] {
    cat(&[b"sia/id/", kind.as_bytes(), b"|", id, &le(i)])
}

// ------------------------------------------------------------ other IDs

pub fn claim_id(id: &[u8; 32]) -> [u8; 32] {
    blake2b(id)
}
pub fn v2_claim_id(id: &[u8; 32]) -> [u8; 32] {
    cat(&[b"sia/id/v2siacoinclaimoutput|", id])
}
pub fn proof_output_id(id: &[u8; 32], valid: bool, i: u64) -> [u8; 32] {
    cat(&[&spec("storage proof"), id, &[valid as u8], &le(i)])
}
pub fn v2_contract_output_id(id: &[u8; 32], i: u64) -> [u8; 32] {
    cat(&[b"id/v2filecontractoutput", id, &le(i)])
}
pub fn v2_renewal_id(id: &[u8; 32]) -> [u8; 32] {
    cat(&[b"id/v2filecontractrenewal", id])
}
pub fn foundation_output_id(block: &[u8; 32]) -> [u8; 32] {
    cat(&[block, &spec("foundation")])
}
pub fn miner_output_id(block: &[u8; 32], i: u64) -> [u8; 32] {
    cat(&[block, &le(i)])
}

// -------------------------------------------------------- consensus rules

/// The rules for the child of the block at this height.
pub struct Rules<'a> {
    pub n: &'a Network,
    pub height: u64,
}

impl Rules<'_> {
    pub fn child(&self) -> u64 {
        self.height.wrapping_add(1)
    }
    pub fn prefix(&self) -> &'static [u8] {
        if self.height >= self.n.hardfork_v2.allow_height {
            &[2]
        } else if self.height >= self.n.hardfork_foundation.height {
            &[1]
        } else if self.height >= self.n.hardfork_asic.height {
            &[0]
        } else {
            &[]
        }
    }
    pub fn reward(&self) -> u128 {
        let less = self.child() as u128 * SC;
        self.n.initial_coinbase.0.saturating_sub(less).max(self.n.minimum_coinbase.0)
    }
    pub fn maturity(&self) -> u64 {
        self.child() + self.n.maturity_delay
    }
    pub fn month(&self) -> u64 {
        (365u128 * 24 * 3600 * 1_000_000_000 / 12 / self.n.block_interval.0 as u128) as u64
    }
    /// Amount of the Foundation subsidy.
    pub fn subsidy(&self) -> Option<u128> {
        let (c, f) = (self.child(), self.n.hardfork_foundation.height);
        if c < f || (c - f) % self.month() != 0 {
            return None;
        }
        let m = 30_000 * SC * self.month() as u128;
        Some(if c == f { 12 * m } else { m })
    }
    pub fn nonce_factor(&self) -> u64 {
        if self.child() >= self.n.hardfork_asic.height {
            1009
        } else {
            1
        }
    }
    pub fn v1_tax(&self, payout: u128) -> u128 {
        let p = BigUint::from(payout);
        let t: BigUint = if self.child() < self.n.hardfork_tax.height {
            // the exact value of the double 0.039
            let bits = 0.039f64.to_bits();
            let mant = (bits & ((1 << 52) - 1)) | 1 << 52;
            let exp = 1075 - (bits >> 52) as i64;
            (p * mant) >> exp as u64
        } else {
            p * 39u32 / 1000u32
        };
        let t = u128::try_from(t).expect("below the payout");
        t - t % 10_000
    }
    /// None where the sum does not fit.
    pub fn v2_tax(&self, c: &Contract) -> Option<u128> {
        let t = c.renter_output.value.0.checked_add(c.host_output.value.0)? / 25;
        Some(t - t % 10_000)
    }
}

fn addr(s: &str) -> Addr {
    Addr(hex::decode(&s[..64]).unwrap().try_into().unwrap())
}
fn target(i: usize, v: u8) -> Hash {
    let mut h = [0; 32];
    h[i] = v;
    Hash(h)
}
const F1: &str = "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb";

pub fn mainnet() -> Network {
    Network {
        name: "mainnet".into(),
        initial_coinbase: Cur(300_000 * SC),
        minimum_coinbase: Cur(30_000 * SC),
        initial_target: target(4, 32),
        block_interval: Dur(600_000_000_000),
        maturity_delay: 144,
        hardfork_dev_addr: ForkDevAddr {
            height: 10_000,
            old_address: addr("7d0c44f7664e2d34e53efde0661a6f628ec9264785ae8e3cd7c973e8d190c3c9"),
            new_address: addr("f371c70bce9eb8979cd5099f599ec4e4fcb14e0afcf31f9791e03e6496a4c0b3"),
        },
        hardfork_tax: ForkTax { height: 21_000 },
        hardfork_storage_proof: ForkProof { height: 100_000 },
        hardfork_oak: ForkOak { height: 135_000, fix_height: 139_000, genesis_timestamp: Time(1_433_600_000) },
        hardfork_asic: ForkAsic { height: 179_000, oak_time: Dur(120_000_000_000_000), oak_target: target(8, 32) },
        hardfork_foundation: ForkFoundation {
            height: 298_000,
            primary_address: addr(F1),
            failsafe_address: addr("27c22a6c6e6645802a3b8fa0e5374657438ef12716d2205d3e866272de1b644d"),
        },
        hardfork_v2: ForkV2 { allow_height: 1_000_000, require_height: 1_025_000 },
    }
}
fn testnet(name: &str, start: i64, primary: Addr, v2: (u64, u64)) -> Network {
    let zero = Addr([0; 32]);
    Network {
        name: name.into(),
        initial_coinbase: Cur(300_000 * SC),
        minimum_coinbase: Cur(300_000 * SC),
        initial_target: target(3, 1),
        block_interval: Dur(600_000_000_000),
        maturity_delay: 144,
        hardfork_dev_addr: ForkDevAddr { height: 1, old_address: zero, new_address: zero },
        hardfork_tax: ForkTax { height: 2 },
        hardfork_storage_proof: ForkProof { height: 5 },
        hardfork_oak: ForkOak { height: 10, fix_height: 12, genesis_timestamp: Time(start) },
        hardfork_asic: ForkAsic { height: 20, oak_time: Dur(10_000_000_000_000), oak_target: target(3, 1) },
        hardfork_foundation: ForkFoundation { height: 30, primary_address: primary, failsafe_address: zero },
        hardfork_v2: ForkV2 { allow_height: v2.0, require_height: v2.1 },
    }
}
pub fn zen() -> Network {
    testnet("zen", 1_673_600_000, addr(F1), (100_000, 102_000))
}
pub fn anagami() -> Network {
    testnet(
        "anagami",
        1_724_284_800,
        addr("241352c83da002e61f57e96b14f3a5f8b5de22156ce83b753ea495e64f1affeb"),
        (2016, 2304),
    )
}
/// A network whose forks are near each other.
pub fn gen_network(g: &mut G) -> Network {
    use crate::kernel::{choose, raw};
    let mut n = Network::gen(g);
    n.name = ["", "simnet", "t\u{e9}st"][choose(3) as usize].into();
    let scale = [6, 40, 5000, 1_000_000][choose(4) as usize];
    let mut h = |_: &str| match choose(6) {
        0 => 0,
        _ => choose(scale),
    };
    n.hardfork_dev_addr.height = h("dev");
    n.hardfork_tax.height = h("tax");
    n.hardfork_storage_proof.height = h("proof");
    n.hardfork_oak.height = h("oak");
    n.hardfork_asic.height = h("asic");
    n.hardfork_foundation.height = n.hardfork_asic.height + h("foundation");
    n.hardfork_v2.allow_height = n.hardfork_foundation.height + h("v2");
    n.hardfork_v2.require_height = n.hardfork_v2.allow_height + h("v2");
    n.block_interval = Dur(match choose(5) {
        0 => 600_000_000_000,
        1 => 1_000_000_000 * (1 + choose(3600)),
        2 => 86_400_000_000_000 * (1 + choose(29)),
        3 => 1_000_000 + raw() % 1_000_000_000_000,
        _ => 730 * 3600 * 1_000_000_000 / (1 + choose(9)),
    });
    n.maturity_delay = match choose(3) {
        0 => 144,
        1 => choose(4),
        _ => choose(1 << 40),
    };
    n.initial_coinbase = Cur(match choose(4) {
        0 => 300_000 * SC,
        1 => choose(100) as u128 * SC,
        2 => choose(40) as u128 * SC + raw() as u128,
        _ => 0,
    });
    n.minimum_coinbase = Cur(match choose(3) {
        0 => 30_000 * SC,
        1 => choose(40) as u128 * SC,
        _ => raw() as u128,
    });
    n
}
