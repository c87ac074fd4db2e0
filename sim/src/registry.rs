//! Every wire type of the library behind one object-safe interface: its
//! generator and reference codec on one side, its real codec on the other.
use crate::kernel::choose;
use crate::model::*;
use serde::{de::DeserializeOwned, Serialize};
use sia::consensus as sc;
use sia::encoding::{
    Error, SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode,
    V1SiaEncodable, V1SiaEncode,
};
use sia::signing as ss;
use sia::types as st;
use std::any::Any;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::sync::Arc;
use time::{Duration, OffsetDateTime};

/// A value of the model.
pub trait Val: Send + Sync {
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
    fn bytes(&self) -> Vec<u8>;
    fn real(&self) -> Box<dyn Real>;
    fn same(&self, other: &dyn Val) -> bool;
    fn mutated(&self, g: &mut G) -> (Arc<dyn Val>, String);
}

/// A value of the code under test.
pub trait Real: Send {
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
    fn same(&self, other: &dyn Real) -> bool;
    fn encode(&self, w: &mut dyn Write) -> Result<(), Error>;
    /// Uses it in every way a receiver does.
    fn poke(&self);
}

pub struct RefDec {
    pub res: Result<(Arc<dyn Val>, usize), Bad>,
    pub loose: bool,
    pub open: bool,
}

pub trait Wire: Sync + Send {
    fn name(&self) -> &'static str;
    fn v1(&self) -> bool;
    fn gen(&self, g: &mut G) -> Arc<dyn Val>;
    fn decode(&self, r: &mut dyn Read) -> Result<Box<dyn Real>, Error>;
    fn refdec(&self, b: &[u8]) -> RefDec;
    /// Where the parts of a valid encoding are.
    fn marks(&self, b: &[u8]) -> Vec<Mark>;
    fn cost(&self) -> i64;
}

struct W2<M, R>(&'static str, PhantomData<fn() -> (M, R)>);
struct W1<M, R>(&'static str, PhantomData<fn() -> (M, R)>);
struct V2V<M, R>(M, PhantomData<fn() -> R>);
struct V1V<M, R>(M, PhantomData<fn() -> R>);
struct V2R<R>(R);
struct V1R<R>(R);

macro_rules! codec {
    ($w:ident, $v:ident, $r:ident, $e:ident, $d:ident, $me:ident, $md:ident, $enc:ident, $dec:ident, $is1:expr) => {
        impl<M, R> Wire for $w<M, R>
        where
            M: Model + ToReal<R>,
            R: $e + $d + PartialEq + Debug + Poke + Send + 'static,
        {
            fn name(&self) -> &'static str {
                self.0
            }
            fn v1(&self) -> bool {
                $is1
            }
            fn cost(&self) -> i64 {
                M::COST
            }
            fn gen(&self, g: &mut G) -> Arc<dyn Val> {
                Arc::new($v::<M, R>(M::gen(g).fix(), PhantomData))
            }
            fn decode(&self, mut r: &mut dyn Read) -> Result<Box<dyn Real>, Error> {
                let v = <R as $d>::$dec(&mut r)?;
                Ok(Box::new($r(v)))
            }
            fn marks(&self, b: &[u8]) -> Vec<Mark> {
                let mut rd = Rd::new(b);
                rd.marks = Some(Vec::new());
                let _ = M::$md(&mut rd);
                rd.marks.unwrap_or_default()
            }
            fn refdec(&self, b: &[u8]) -> RefDec {
                let mut rd = Rd::new(b);
                let m = M::$md(&mut rd);
                let pos = rd.pos;
                RefDec {
                    res: m.map(|m| (Arc::new($v::<M, R>(m, PhantomData)) as Arc<dyn Val>, pos)),
                    loose: rd.loose,
                    open: rd.open,
                }
            }
        }
        impl<M, R> Val for $v<M, R>
        where
            M: Model + ToReal<R>,
            R: $e + $d + PartialEq + Debug + Poke + Send + 'static,
        {
            fn any(&self) -> &dyn Any {
                &self.0
            }
            fn dbg(&self) -> String {
                format!("{:?}", self.0)
            }
            fn bytes(&self) -> Vec<u8> {
                let mut v = Vec::new();
                self.0.$me(&mut v);
                v
            }
            fn real(&self) -> Box<dyn Real> {
                Box::new($r(self.0.real()))
            }
            fn same(&self, o: &dyn Val) -> bool {
                o.any().downcast_ref::<M>().is_some_and(|m| *m == self.0)
            }
            fn mutated(&self, g: &mut G) -> (Arc<dyn Val>, String) {
                let mut m = self.0.clone();
                let mut p = String::new();
                m.mutate(g, &mut p);
                (Arc::new($v::<M, R>(m.fix(), PhantomData)), p)
            }
        }
        impl<R: $e + PartialEq + Debug + Poke + Send + 'static> Real for $r<R> {
            fn any(&self) -> &dyn Any {
                &self.0
            }
            fn dbg(&self) -> String {
                format!("{:?}", self.0)
            }
            fn same(&self, o: &dyn Real) -> bool {
                o.any().downcast_ref::<R>().is_some_and(|m| *m == self.0)
            }
            fn encode(&self, mut w: &mut dyn Write) -> Result<(), Error> {
                self.0.$enc(&mut w)
            }
            fn poke(&self) {
                let s = format!("{:?}", self.0);
                std::hint::black_box(&s);
                self.0.poke();
            }
        }
    };
}
codec!(W2, V2V, V2R, SiaEncodable, SiaDecodable, e2, d2, encode, decode, false);
codec!(W1, V1V, V1R, V1SiaEncodable, V1SiaDecodable, e1, d1, encode_v1, decode_v1, true);

// ------------------------------------------------- derived types of ours

/// What users of the derive macros write.
macro_rules! derived {
    ($real:ident, $model:ident { $($f:ident : $rt:ty , $mt:ty);* $(;)? }) => {
        #[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
        pub struct $real { $(pub $f: $rt),* }
        #[derive(Clone, Debug, PartialEq)]
        pub struct $model { $($f: $mt),* }
        impl ToReal<$real> for $model {
            fn real(&self) -> $real { $real { $($f: self.$f.real()),* } }
        }
        derived!(@model $model { $($f : $mt),* });
        impl Poke for $real {}
    };
    (@model $model:ident { $($f:ident : $mt:ty),* }) => {
        impl Model for $model {
            const COST: i64 = 0 $( + <$mt as Model>::COST )*;
            #[allow(unused_variables)]
            fn gen(g: &mut G) -> Self { $( let $f = <$mt as Model>::gen(g); )* $model { $($f),* } }
            #[allow(unused_variables)]
            fn e2(&self, o: &mut Vec<u8>) { $( self.$f.e2(o); )* }
            #[allow(unused_variables)]
            fn d2(r: &mut Rd) -> Res<Self> { Ok($model { $( $f: <$mt as Model>::d2(r)? ),* }) }
            #[allow(unused_variables)]
            fn e1(&self, o: &mut Vec<u8>) { $( self.$f.e1(o); )* }
            #[allow(unused_variables)]
            fn d1(r: &mut Rd) -> Res<Self> { Ok($model { $( $f: <$mt as Model>::d1(r)? ),* }) }
            fn js(&self) -> J { unreachable!() }
            fn mutate(&mut self, _g: &mut G, _p: &mut String) { $( if choose(2) == 0 { return self.$f.mutate(_g, _p); } )* }
        }
    };
}
derived!(DeriveNamed, MDeriveNamed {
    a: u8, u8; b: bool, bool; c: u16, u16; d: u32, u32; e: i16, i16; f: i32, i32; g: i64, i64;
    h: usize, usize; i: Vec<u64>, Vec<u64>; j: Option<String>, Option<String>; k: [u8; 32], Hash;
    l: Option<Vec<bool>>, Option<Vec<bool>>; m: Vec<Option<u8>>, Vec<Option<u8>>;
});
derived!(DeriveInner, MDeriveInner { list: Vec<DeriveNamed>, Vec<MDeriveNamed>; last: Option<DeriveNamed>, Option<MDeriveNamed>; });
derived!(DeriveEmpty, MDeriveEmpty {});

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct DeriveTuple(pub u64, String, pub Vec<st::SiacoinOutput>, Option<st::Currency>);
#[derive(Clone, Debug, PartialEq)]
pub struct MDeriveTuple {
    a: u64,
    b: String,
    c: Vec<ScOutput>,
    d: Option<Cur>,
}
derived!(@model MDeriveTuple { a: u64, b: String, c: Vec<ScOutput>, d: Option<Cur> });
impl ToReal<DeriveTuple> for MDeriveTuple {
    fn real(&self) -> DeriveTuple {
        DeriveTuple(self.a, self.b.clone(), self.c.real(), self.d.real())
    }
}
impl Poke for DeriveTuple {}

#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]
pub struct DeriveUnit;
#[derive(Clone, Debug, PartialEq)]
pub struct MDeriveUnit {}
derived!(@model MDeriveUnit {});
impl ToReal<DeriveUnit> for MDeriveUnit {
    fn real(&self) -> DeriveUnit {
        DeriveUnit
    }
}
impl Poke for DeriveUnit {}

// ---------------------------------------------------------------- poking

pub trait Poke {
    fn poke(&self) {}
}
fn js<T: Serialize>(t: &T) {
    // a time before year 0 has no document form: an error, not a panic
    let _ = std::hint::black_box(serde_json::to_vec(t));
}
fn show<T: std::fmt::Display>(t: &T) {
    std::hint::black_box(t.to_string());
}
pub fn chains() -> Vec<sc::ChainState> {
    let s = |h: u64| sc::State {
        index: st::ChainIndex { height: h, id: st::BlockID::default() },
        prev_timestamps: [OffsetDateTime::UNIX_EPOCH; 11],
        depth: st::BlockID::default(),
        child_target: st::BlockID::default(),
        siafund_pool: st::Currency::zero(),
        oak_time: Duration::ZERO,
        oak_target: st::BlockID::default(),
        foundation_primary_address: st::Address::default(),
        foundation_failsafe_address: st::Address::default(),
        total_work: st::Work::zero(),
        difficulty: st::Work::zero(),
        oak_work: st::Work::zero(),
        elements: sc::ElementAccumulator::default(),
        attestations: 0,
    };
    [0u64, 21_000, 179_000, 298_000, 526_000]
        .into_iter()
        .map(|h| sc::ChainState { network: sc::Network::mainnet(), state: s(h) })
        .collect()
}

thread_local! {
    static CHAINS: Vec<sc::ChainState> = chains();
}

macro_rules! poke_none {
    ($($t:ty),*) => { $( impl Poke for $t {} )* };
}
poke_none!(u8, u16, u32, u64, usize, i16, i32, i64, bool, [u8; 32], [u8; 64], [u8; 16], String, Duration, Vec<u8>);
macro_rules! poke_js {
    ($($t:ty),*) => { $( impl Poke for $t { fn poke(&self) { js(self); } } )* };
}
macro_rules! poke_show {
    ($($t:ty),*) => { $( impl Poke for $t { fn poke(&self) { js(self); show(self); } } )* };
}
poke_show!(
    st::Hash256, st::SiacoinOutputID, st::AttestationID, st::Address, st::Leaf, st::Specifier,
    st::v1::UnlockKey, ss::PublicKey, st::Work
);
impl Poke for ss::Signature {
    fn poke(&self) {
        js(self);
        let pk = ss::PublicKey::new([3; 32]);
        std::hint::black_box(pk.verify(&st::Hash256::default(), self));
    }
}
poke_js!(
    st::SiacoinOutput, st::SiafundOutput, st::StateElement, st::v1::FileContract,
    st::v1::StorageProof, st::v1::CoveredFields, st::v1::TransactionSignature,
    st::v2::SiacoinElement, st::v2::SiafundElement, st::v2::ChainIndexElement, sc::ElementAccumulator
);
impl Poke for st::ChainIndex {
    fn poke(&self) {
        js(self);
        show(self);
        std::hint::black_box(self.child_height());
    }
}
impl Poke for OffsetDateTime {
    fn poke(&self) {
        std::hint::black_box(self.to_string());
    }
}
impl Poke for st::SiafundOutputID {
    fn poke(&self) {
        js(self);
        show(self);
        self.claim_output_id();
        self.v2_claim_output_id();
    }
}
impl Poke for st::BlockID {
    fn poke(&self) {
        js(self);
        show(self);
        self.foundation_output_id();
        self.miner_output_id(usize::MAX);
    }
}
impl Poke for st::TransactionID {
    fn poke(&self) {
        js(self);
        show(self);
        self.v2_siacoin_output_id(usize::MAX);
        self.v2_siafund_output_id(0);
        self.v2_file_contract_id(1);
        self.v2_attestation_id(2);
    }
}
impl Poke for st::FileContractID {
    fn poke(&self) {
        js(self);
        show(self);
        self.valid_output_id(0);
        self.missed_output_id(usize::MAX);
        self.v2_renter_output_id();
        self.v2_host_output_id();
        self.v2_renewal_id();
    }
}
impl Poke for st::Currency {
    fn poke(&self) {
        js(self);
        std::hint::black_box(self.to_string());
    }
}
impl Poke for st::v1::UnlockConditions {
    fn poke(&self) {
        js(self);
        self.address();
    }
}
impl Poke for st::v1::SiacoinInput {
    fn poke(&self) {
        js(self);
        self.unlock_conditions.address();
    }
}
impl Poke for st::v1::SiafundInput {
    fn poke(&self) {
        js(self);
        self.unlock_conditions.address();
    }
}
impl Poke for st::v1::FileContractRevision {
    fn poke(&self) {
        js(self);
        self.unlock_conditions.address();
    }
}
/// Verifies what a peer claims to be a signature.
fn verify_v1(s: &st::v1::TransactionSignature, uc: &st::v1::UnlockConditions, h: &st::Hash256) {
    let Ok(i) = usize::try_from(s.public_key_index) else { return };
    let Some(k) = uc.public_keys.get(i) else { return };
    let Ok(pk) = <[u8; 32]>::try_from(&k.key[..]) else { return };
    let Ok(sig) = <[u8; 64]>::try_from(&s.signature[..]) else { return };
    std::hint::black_box(ss::PublicKey::new(pk).verify(h, &ss::Signature::new(sig)));
}
impl Poke for st::v1::Transaction {
    fn poke(&self) {
        js(self);
        std::hint::black_box((self.id(), self.siacoin_output_id(0), self.siafund_output_id(1), self.file_contract_id(usize::MAX)));
        CHAINS.with(|cs| {
            let none = st::v1::UnlockConditions::new(0, vec![], 0);
            for (n, s) in self.signatures.iter().enumerate() {
                if n > 8 {
                    break;
                }
                let cs = &cs[n % cs.len()];
                let uc = self.siacoin_inputs.first().map(|i| &i.unlock_conditions).unwrap_or(&none);
                let h = self
                    .whole_sig_hash(cs, &s.parent_id, s.public_key_index, s.timelock)
                    .expect("hashing does not fail");
                verify_v1(s, uc, &h);
                if let Ok(h) = self.partial_sig_hash(cs, &s.covered_fields) {
                    verify_v1(s, uc, &h);
                }
            }
        });
    }
}
impl Poke for st::Block {
    fn poke(&self) {
        js(self);
        for t in self.transactions.iter().take(4) {
            t.poke();
        }
    }
}
fn poke_policy(p: &st::v2::SpendPolicy) {
    js(p);
    p.address();
    std::hint::black_box(p.clone());
}
impl Poke for st::v2::SpendPolicy {
    fn poke(&self) {
        poke_policy(self)
    }
}
impl Poke for st::v2::SatisfiedPolicy {
    fn poke(&self) {
        js(self);
        poke_policy(&self.policy);
        if let (st::v2::SpendPolicy::PublicKey(pk), Some(s)) = (&self.policy, self.signatures.first()) {
            std::hint::black_box(pk.verify(&st::Hash256::default(), s));
        }
    }
}
impl Poke for st::v2::Attestation {
    fn poke(&self) {
        js(self);
        CHAINS.with(|c| {
            let h = self.sig_hash(&c[4]);
            std::hint::black_box(self.public_key.verify(&h, &self.signature));
        })
    }
}
impl Poke for st::v2::FileContract {
    fn poke(&self) {
        js(self);
        CHAINS.with(|c| {
            let h = self.sig_hash(&c[4]);
            std::hint::black_box(self.renter_public_key.verify(&h, &self.renter_signature));
            std::hint::black_box(self.host_public_key.verify(&h, &self.host_signature));
        })
    }
}
impl Poke for st::v2::FileContractElement {
    fn poke(&self) {
        js(self);
        self.v2_file_contract.poke()
    }
}
impl Poke for st::v2::SiacoinInput {
    fn poke(&self) {
        js(self);
        self.satisfied_policy.poke()
    }
}
impl Poke for st::v2::SiafundInput {
    fn poke(&self) {
        js(self);
        self.satisfied_policy.poke()
    }
}
impl Poke for st::v2::FileContractRevision {
    fn poke(&self) {
        js(self);
        self.revision.poke()
    }
}
impl Poke for st::v2::FileContractRenewal {
    fn poke(&self) {
        js(self);
        CHAINS.with(|c| {
            let h = self.sig_hash(&c[4]);
            std::hint::black_box(self.new_contract.host_public_key.verify(&h, &self.host_signature));
        })
    }
}
impl Poke for st::v2::StorageProof {
    fn poke(&self) {
        js(self)
    }
}
impl Poke for st::v2::FileContractResolution {
    fn poke(&self) {
        js(self);
        if let st::v2::ContractResolution::Renewal(r) = &self.resolution {
            r.poke()
        }
    }
}
impl Poke for st::v2::Transaction {
    fn poke(&self) {
        js(self);
        self.id();
        CHAINS.with(|c| {
            let h = self.input_sig_hash(&c[4]);
            for i in self.siacoin_inputs.iter().take(8) {
                if let Some(s) = i.satisfied_policy.signatures.first() {
                    if let st::v2::SpendPolicy::PublicKey(pk) = &i.satisfied_policy.policy {
                        std::hint::black_box(pk.verify(&h, s));
                    }
                }
                i.satisfied_policy.policy.address();
            }
        });
        self.file_contracts.iter().take(4).for_each(|x| x.poke());
        self.file_contract_resolutions.iter().take(4).for_each(|x| x.poke());
        self.attestations.iter().take(4).for_each(|x| x.poke());
    }
}
impl Poke for sc::State {
    fn poke(&self) {
        js(self);
        std::hint::black_box(self.index.child_height());
    }
}
impl<T: Poke> Poke for Vec<T>
where
    Vec<T>: NotBytes,
{
    fn poke(&self) {
        self.iter().take(4).for_each(|x| x.poke())
    }
}
pub trait NotBytes {}
impl NotBytes for Vec<u64> {}
impl NotBytes for Vec<bool> {}
impl NotBytes for Vec<String> {}
impl NotBytes for Vec<st::v2::Transaction> {}
impl NotBytes for Vec<st::v1::Transaction> {}
impl NotBytes for Vec<st::Currency> {}
impl NotBytes for Vec<st::Hash256> {}
impl NotBytes for Vec<Option<u64>> {}
impl NotBytes for Vec<Vec<u64>> {}
impl NotBytes for Vec<st::SiacoinOutput> {}
impl<T: Poke> Poke for Option<T> {
    fn poke(&self) {
        if let Some(x) = self {
            x.poke()
        }
    }
}

// -------------------------------------------------------------- the list

pub fn wires() -> &'static [Box<dyn Wire>] {
    static L: std::sync::OnceLock<Vec<Box<dyn Wire>>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<Box<dyn Wire>> = Vec::new();
        macro_rules! w2 { ($($m:ty => $r:ty),* $(,)?) => { $( v.push(Box::new(W2::<$m, $r>(concat!("v2:", stringify!($r)), PhantomData))); )* } }
        macro_rules! w1 { ($($m:ty => $r:ty),* $(,)?) => { $( v.push(Box::new(W1::<$m, $r>(concat!("v1:", stringify!($r)), PhantomData))); )* } }
        w2!(
            u8 => u8, bool => bool, u16 => u16, u32 => u32, u64 => u64, usize => usize, i16 => i16,
            i32 => i32, i64 => i64, String => String, Bytes => Vec<u8>, Vec<u64> => Vec<u64>,
            Vec<String> => Vec<String>, Option<String> => Option<String>, Hash => [u8; 32],
            Option<Option<u64>> => Option<Option<u64>>, Vec<Option<u64>> => Vec<Option<u64>>,
            Vec<Vec<u64>> => Vec<Vec<u64>>, Vec<Cur> => Vec<st::Currency>, Vec<ScOutput> => Vec<st::SiacoinOutput>,
            Sig => [u8; 64], Time => OffsetDateTime, Dur => Duration,
            Hash => st::Hash256, Hash => st::SiacoinOutputID, Hash => st::SiafundOutputID,
            Hash => st::AttestationID, Hash => st::BlockID, Hash => st::TransactionID,
            Hash => st::FileContractID, Vec<Hash> => Vec<st::Hash256>, Addr => st::Address, LeafM => st::Leaf,
            Spec => st::Specifier, PubK => ss::PublicKey, Sig => ss::Signature, WorkM => st::Work,
            Cur => st::Currency, ChainIndex => st::ChainIndex, StateElement => st::StateElement,
            ScOutput => st::SiacoinOutput, SfOutput => st::SiafundOutput,
            UnlockKey => st::v1::UnlockKey, UnlockConditions => st::v1::UnlockConditions,
            Pol => st::v2::SpendPolicy, Satisfied => st::v2::SatisfiedPolicy,
            Attestation => st::v2::Attestation, Contract => st::v2::FileContract,
            ScElement => st::v2::SiacoinElement, SfElement => st::v2::SiafundElement,
            FcElement => st::v2::FileContractElement, CiElement => st::v2::ChainIndexElement,
            ScInput => st::v2::SiacoinInput, SfInput => st::v2::SiafundInput,
            Revision => st::v2::FileContractRevision, Renewal => st::v2::FileContractRenewal,
            Proof => st::v2::StorageProof, Resolution => st::v2::FileContractResolution,
            Txn => st::v2::Transaction, Vec<Txn> => Vec<st::v2::Transaction>,
            Accum => sc::ElementAccumulator, State => sc::State,
            MDeriveNamed => DeriveNamed, MDeriveTuple => DeriveTuple, MDeriveUnit => DeriveUnit,
            MDeriveEmpty => DeriveEmpty, MDeriveInner => DeriveInner,
        );
        w1!(
            u8 => u8, bool => bool, u16 => u16, u32 => u32, u64 => u64, usize => usize, i16 => i16,
            i32 => i32, i64 => i64, String => String, Bytes => Vec<u8>, Vec<u64> => Vec<u64>,
            Vec<String> => Vec<String>, Option<String> => Option<String>, Hash => [u8; 32],
            Option<Option<u64>> => Option<Option<u64>>, Vec<Option<u64>> => Vec<Option<u64>>,
            Vec<Vec<u64>> => Vec<Vec<u64>>, Vec<Cur> => Vec<st::Currency>, Vec<ScOutput> => Vec<st::SiacoinOutput>,
            Sig => [u8; 64], Raw16 => [u8; 16],
            Hash => st::Hash256, Hash => st::SiacoinOutputID, Hash => st::SiafundOutputID,
            Hash => st::AttestationID, Hash => st::BlockID, Hash => st::TransactionID,
            Hash => st::FileContractID, Addr => st::Address, LeafM => st::Leaf,
            Spec => st::Specifier, WorkM => st::Work, Cur => st::Currency,
            ScOutput => st::SiacoinOutput, SfOutput => st::SiafundOutput,
            UnlockKey => st::v1::UnlockKey, UnlockConditions => st::v1::UnlockConditions,
            V1ScInput => st::v1::SiacoinInput, V1SfInput => st::v1::SiafundInput,
            V1Contract => st::v1::FileContract, V1Revision => st::v1::FileContractRevision,
            V1Proof => st::v1::StorageProof, Covered => st::v1::CoveredFields,
            V1Sig => st::v1::TransactionSignature, V1Txn => st::v1::Transaction,
            Vec<V1Txn> => Vec<st::v1::Transaction>, Block => st::Block,
            MDeriveNamed => DeriveNamed, MDeriveTuple => DeriveTuple, MDeriveUnit => DeriveUnit,
            MDeriveEmpty => DeriveEmpty, MDeriveInner => DeriveInner,
        );
        v
    })
}

// ------------------------------------------------------------- documents

pub trait DocVal: Send + Sync {
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
    fn tree(&self) -> J;
    fn real(&self) -> Box<dyn DocReal>;
    fn same_model(&self, o: &dyn DocVal) -> bool;
    fn mutated(&self, g: &mut G) -> (Arc<dyn DocVal>, String);
}
pub trait DocReal: Send {
    fn any(&self) -> &dyn Any;
    fn dbg(&self) -> String;
    fn same(&self, o: &dyn DocReal) -> bool;
    fn write(&self, w: &mut dyn Write, pretty: bool) -> serde_json::Result<()>;
    fn value(&self) -> serde_json::Result<serde_json::Value>;
}
pub trait Doc: Sync + Send {
    fn name(&self) -> &'static str;
    fn gen(&self, g: &mut G) -> Arc<dyn DocVal>;
    fn read(&self, r: &mut dyn Read) -> serde_json::Result<Box<dyn DocReal>>;
    /// Reads one document and leaves the rest.
    fn read_next(&self, r: &mut dyn Read) -> serde_json::Result<Box<dyn DocReal>>;
    fn parse(&self, s: &[u8]) -> serde_json::Result<Box<dyn DocReal>>;
    fn from_value(&self, v: serde_json::Value) -> serde_json::Result<Box<dyn DocReal>>;
}
struct D<M, R>(&'static str, PhantomData<fn() -> (M, R)>);
struct DV<M, R>(M, PhantomData<fn() -> R>);
struct DR<R>(R);
impl<M, R> Doc for D<M, R>
where
    M: Model + ToReal<R>,
    R: Serialize + DeserializeOwned + PartialEq + Debug + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.0
    }
    fn gen(&self, g: &mut G) -> Arc<dyn DocVal> {
        Arc::new(DV::<M, R>(M::gen(g).fix(), PhantomData))
    }
    fn read(&self, r: &mut dyn Read) -> serde_json::Result<Box<dyn DocReal>> {
        let v: R = serde_json::from_reader(r)?;
        Ok(Box::new(DR(v)))
    }
    fn read_next(&self, r: &mut dyn Read) -> serde_json::Result<Box<dyn DocReal>> {
        let mut d = serde_json::Deserializer::from_reader(r);
        let v = R::deserialize(&mut d)?;
        Ok(Box::new(DR(v)))
    }
    fn parse(&self, s: &[u8]) -> serde_json::Result<Box<dyn DocReal>> {
        let v: R = serde_json::from_slice(s)?;
        Ok(Box::new(DR(v)))
    }
    fn from_value(&self, v: serde_json::Value) -> serde_json::Result<Box<dyn DocReal>> {
        let v: R = serde_json::from_value(v)?;
        Ok(Box::new(DR(v)))
    }
}
impl<M, R> DocVal for DV<M, R>
where
    M: Model + ToReal<R>,
    R: Serialize + PartialEq + Debug + Send + 'static,
{
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn tree(&self) -> J {
        self.0.js()
    }
    fn real(&self) -> Box<dyn DocReal> {
        Box::new(DR(self.0.real()))
    }
    fn same_model(&self, o: &dyn DocVal) -> bool {
        o.any().downcast_ref::<M>().is_some_and(|m| *m == self.0)
    }
    fn mutated(&self, g: &mut G) -> (Arc<dyn DocVal>, String) {
        let mut m = self.0.clone();
        let mut p = String::new();
        m.mutate(g, &mut p);
        (Arc::new(DV::<M, R>(m.fix(), PhantomData)), p)
    }
}
impl<R: Serialize + PartialEq + Debug + Send + 'static> DocReal for DR<R> {
    fn any(&self) -> &dyn Any {
        &self.0
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn same(&self, o: &dyn DocReal) -> bool {
        o.any().downcast_ref::<R>().is_some_and(|m| *m == self.0)
    }
    fn write(&self, w: &mut dyn Write, pretty: bool) -> serde_json::Result<()> {
        if pretty {
            serde_json::to_writer_pretty(w, &self.0)
        } else {
            serde_json::to_writer(w, &self.0)
        }
    }
    fn value(&self) -> serde_json::Result<serde_json::Value> {
        serde_json::to_value(&self.0)
    }
}

pub fn docs() -> &'static [Box<dyn Doc>] {
    static L: std::sync::OnceLock<Vec<Box<dyn Doc>>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<Box<dyn Doc>> = Vec::new();
        macro_rules! d { ($($m:ty => $r:ty),* $(,)?) => { $( v.push(Box::new(D::<$m, $r>(concat!("json:", stringify!($r)), PhantomData))); )* } }
        d!(
            Hash => st::Hash256, Hash => st::SiacoinOutputID, Hash => st::SiafundOutputID,
            Hash => st::AttestationID, Hash => st::BlockID, Hash => st::TransactionID,
            Hash => st::FileContractID, Addr => st::Address, LeafM => st::Leaf,
            Spec => st::Specifier, PubK => ss::PublicKey, Sig => ss::Signature, WorkM => st::Work,
            Cur => st::Currency, ChainIndex => st::ChainIndex, StateElement => st::StateElement,
            ScOutput => st::SiacoinOutput, SfOutput => st::SiafundOutput,
            UnlockKey => st::v1::UnlockKey, UnlockConditions => st::v1::UnlockConditions,
            V1ScInput => st::v1::SiacoinInput, V1SfInput => st::v1::SiafundInput,
            V1Contract => st::v1::FileContract, V1Revision => st::v1::FileContractRevision,
            V1Proof => st::v1::StorageProof, Covered => st::v1::CoveredFields,
            V1Sig => st::v1::TransactionSignature, V1Txn => st::v1::Transaction, Block => st::Block,
            Pol => st::v2::SpendPolicy, Satisfied => st::v2::SatisfiedPolicy,
            Attestation => st::v2::Attestation, Contract => st::v2::FileContract,
            ScElement => st::v2::SiacoinElement, SfElement => st::v2::SiafundElement,
            FcElement => st::v2::FileContractElement, CiElement => st::v2::ChainIndexElement,
            ScInput => st::v2::SiacoinInput, SfInput => st::v2::SiafundInput,
            Revision => st::v2::FileContractRevision, Renewal => st::v2::FileContractRenewal,
            Proof => st::v2::StorageProof, Resolution => st::v2::FileContractResolution,
            Txn => st::v2::Transaction,
            Accum => sc::ElementAccumulator, State => sc::State, Network => sc::Network,
            Chain => sc::ChainState,
            ForkDevAddr => sc::HardforkDevAddr, ForkTax => sc::HardforkTax,
            ForkProof => sc::HardforkStorageProof, ForkOak => sc::HardforkOak,
            ForkAsic => sc::HardforkASIC, ForkFoundation => sc::HardforkFoundation,
            ForkV2 => sc::HardforkV2,
        );
        v
    })
}
