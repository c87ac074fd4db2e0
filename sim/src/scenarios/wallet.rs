//! S11: recovery of wallets from phrases. S12: what is left of secrets.
use super::*;
use crate::alloc;
use crate::b2::{blake2b, cat};
use crate::choice::Rng;
use crate::io::{self, End};
use crate::kernel::{chance, fault, note, probe, raw, sample};
use crate::model::{Pol, PubK, UnlockConditions, UnlockKey};
use ed25519_dalek::{Signer, SigningKey};
use sha2::Digest;
use sia::seed::Seed;
use sia::signing as ss;
use sia::types as st;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const S11: Scenario = Scenario {
    id: "S11",
    f: s11,
    batch: 60,
    quick: 3000,
    rule: "A run lets one to three wallets derive keys and sign while storing their phrase on a simulated disk, crash at any point, and restart from what survived; phrases are also torn, damaged, reordered and mistyped, and read again.",
    real: &["Seed, PrivateKey, PublicKey, addresses, bip39, ed25519, BLAKE2b (with scheduling points)"],
    stub: &["disk, power loss: simulated", SCHED],
    must_reach: &[
        "check.in_place", "check.restart", "check.torn", "check.restored", "check.index", "check.old_signature", "check.damaged", "check.rejected",
        "check.other_valid", "check.length", "check.shared", "check.order", "check.differ",
    ],
};
pub const S12: Scenario = Scenario {
    id: "S12",
    f: s12,
    batch: 60,
    quick: 5000,
    rule: "A run gives generated seeds and keys owners of several kinds (boxes, structures, collections, shared owners, clones), lets tasks derive and sign with them, and drops the owners normally, by replacement, while unwinding and by cancellation, in generated interleavings; every block handed back to the allocator is searched for the secrets, and at the end every block still held.",
    real: &["Seed, PrivateKey and their Drop, bip39, ed25519, BLAKE2b (with scheduling points), in an optimised build"],
    stub: &["global allocator: a wrapper that looks at released memory", SCHED],
    must_reach: &[
        "drop.box", "drop.struct", "drop.vec", "drop.map", "drop.replace", "drop.option", "drop.shared", "drop.unwind",
        "drop.cancel", "drop.clone", "drop.seed", "drop.key", "use.sign", "use.derive", "use.phrase", "drop.last_elsewhere", "drop.array", "use.verify",
    ],
};

fn arr<T: AsRef<[u8]>>(h: &T) -> [u8; 32] {
    h.as_ref().try_into().expect("32 bytes")
}

// ------------------------------------------------------- reference BIP-39

fn words() -> &'static [&'static str; 2048] {
    bip39::Language::English.word_list()
}

pub fn phrase(entropy: &[u8]) -> String {
    let sum = sha2::Sha256::digest(entropy)[0];
    let cs = entropy.len() * 8 / 32;
    let bits = entropy.len() * 8 + cs;
    let bit = |i: usize| {
        if i < entropy.len() * 8 {
            entropy[i / 8] >> (7 - i % 8) & 1
        } else {
            sum >> (7 - (i - entropy.len() * 8)) & 1
        }
    };
    let mut out: Vec<&str> = Vec::new();
    for w in 0..bits / 11 {
        let mut v = 0usize;
        for b in 0..11 {
            v = v << 1 | bit(w * 11 + b) as usize;
        }
        out.push(words()[v]);
    }
    out.join(" ")
}

/// What a phrase denotes, if anything.
pub fn denotes(s: &str) -> Option<[u8; 16]> {
    let w: Vec<&str> = s.split_whitespace().collect();
    if w.len() != 12 {
        return None;
    }
    let mut bits = Vec::new();
    for x in w {
        let i = words().iter().position(|y| *y == x)?;
        for b in (0..11).rev() {
            bits.push((i >> b & 1) as u8);
        }
    }
    let mut e = [0u8; 16];
    for (i, b) in bits[..128].iter().enumerate() {
        e[i / 8] |= b << (7 - i % 8);
    }
    let mut sum = 0;
    for b in &bits[128..] {
        sum = sum << 1 | b;
    }
    (sha2::Sha256::digest(e)[0] >> 4 == sum).then_some(e)
}

pub fn key_seed(seed: &[u8; 16], index: u64) -> [u8; 32] {
    cat(&[&blake2b(seed), &index.to_le_bytes()])
}

// ------------------------------------------------------------------- S11

pub fn gen_seed() -> [u8; 16] {
    let mut s = [0; 16];
    match choose(8) {
        0 => {}
        1 => s = [0xff; 16],
        2 => s[choose(16) as usize] = 1 << choose(8),
        _ => Rng::new(raw()).fill(&mut s),
    }
    s
}
pub fn gen_index() -> u64 {
    match choose(6) {
        0 => choose(4),
        1 => u64::MAX - choose(3),
        2 => (1 << choose(64)) - (choose(2)),
        3 => u32::MAX as u64 - 1 + choose(4),
        4 => choose(100_000),
        _ => raw(),
    }
}

/// Reads a phrase and compares with what it denotes.
fn read(s: &str) -> Option<Seed> {
    let want = denotes(s);
    let exact = s.split(' ').count() == 12 && s.split_whitespace().count() == 12;
    let got = crate::no_panic("panic", "from_mnemonic", || Seed::from_mnemonic(s));
    match (got, want) {
        (Ok(g), Some(w)) => {
            check(g.as_bytes() == w, "wrong-seed", || format!("{s:?} gives {} and not {}", hex::encode(g.as_bytes()), hex::encode(w)));
            Some(g)
        }
        (Ok(g), None) => crate::violation("accepted", format!("{s:?} is no phrase of twelve words and gives {}", hex::encode(g.as_bytes()))),
        (Err(e), Some(w)) => {
            check(!exact, "rejected", || format!("{s:?}, the phrase of {}, is rejected: {e:?}", hex::encode(w)));
            None
        }
        (Err(_), None) => None,
    }
}

/// What a wallet told others, and what it signed.
#[derive(Default)]
struct Public {
    keys: BTreeMap<u64, ss::PublicKey>,
    signed: Vec<(u64, [u8; 32], ss::Signature)>,
}

/// Derives a key and checks everything there is about it.
fn derive(seed: &Seed, e: &[u8; 16], i: u64, p: &Mutex<Public>) -> ss::PrivateKey {
    let k = seed.private_key(i);
    let r = SigningKey::from_bytes(&key_seed(e, i));
    probe("check.index");
    check(k.as_bytes() == r.to_keypair_bytes(), "wrong-key", || format!("key {i} of {}", hex::encode(e)));
    let pk = k.public_key();
    let rpk = r.verifying_key().to_bytes();
    check(arr(&pk) == rpk, "wrong-key", || format!("public key {i} of {}", hex::encode(e)));
    let old = p.lock().unwrap().keys.insert(i, pk);
    check(old.is_none_or(|o| o == pk), "wrong-key", || format!("public key {i} of {} is not what it was", hex::encode(e)));
    k
}

fn sign(k: &ss::PrivateKey, e: &[u8; 16], i: u64, p: &Mutex<Public>) {
    let mut m = [0; 32];
    Rng::new(raw()).fill(&mut m);
    let s = k.sign_hash(&st::Hash256::from(m));
    let want = SigningKey::from_bytes(&key_seed(e, i)).sign(&m).to_bytes();
    check(*s.as_ref() == want, "wrong-signature", || format!("of {} with key {i} of {}", hex::encode(m), hex::encode(e)));
    p.lock().unwrap().signed.push((i, m, s));
}

#[allow(deprecated)]
fn addresses(k: &ss::PrivateKey, e: &[u8; 16], i: u64) {
    let pk = SigningKey::from_bytes(&key_seed(e, i)).verifying_key().to_bytes();
    let a = st::v2::SpendPolicy::public_key(k.public_key()).address();
    check(arr(&a) == Pol::Pk(PubK(pk)).address(), "wrong-address", || format!("address {i} of {}", hex::encode(e)));
    let a = st::v1::UnlockConditions::standard_unlock_conditions(k.public_key()).address();
    let u = UnlockConditions { timelock: 0, public_keys: vec![UnlockKey::ed25519(pk)], signatures_required: 1 };
    check(arr(&a) == u.address(), "wrong-address", || format!("v1 address {i} of {}", hex::encode(e)));
}

/// One life of the process. Some(seed) is what it has in memory.
fn life(seed: &Arc<Seed>, e: [u8; 16], d: &io::DiskRef, p: &Arc<Mutex<Public>>, fresh: bool) {
    let saver = if fresh || chance(1, 3) {
        // stores the phrase while others already use the seed
        let (s, d) = (seed.clone(), d.clone());
        Some(kernel::spawn("save", move || {
            let t = s.to_mnemonic();
            check(t == phrase(&e), "wrong-phrase", || format!("{t:?} for {}", hex::encode(e)));
            save(&d, &t);
        }))
    } else {
        None
    };
    let mut hs = Vec::new();
    for w in 0..1 + choose(2) {
        let (s, p) = (seed.clone(), p.clone());
        let n = 1 + choose(4);
        if w > 0 {
            probe("check.shared");
        }
        hs.push(kernel::spawn(&format!("derive{w}"), move || {
            for _ in 0..n {
                let known: Vec<u64> = p.lock().unwrap().keys.keys().copied().collect();
                let i = if !known.is_empty() && chance(1, 3) {
                    probe("check.order");
                    known[choose(known.len() as u64) as usize]
                } else {
                    gen_index()
                };
                let k = derive(&s, &e, i, &p);
                if choose(3) == 0 {
                    sign(&k, &e, i, &p);
                }
                if choose(4) == 0 {
                    addresses(&k, &e, i);
                }
                if chance(1, 4) {
                    kernel::sleep(raw() % 50_000);
                }
            }
        }));
    }
    if choose(3) > 0 {
        // the power may go at any time
        kernel::sleep(raw() % 200_000);
        fault("crash.process");
        for h in hs.iter().map(|h| h.tid()).chain(saver.iter().map(|h| h.tid())) {
            kernel::cancel(h);
        }
    }
    for h in hs {
        join(h, "derive");
    }
    if let Some(h) = saver {
        join(h, "save");
    }
}

fn save(d: &io::DiskRef, t: &str) {
    use std::io::Write;
    let careful = choose(2) == 0;
    let name = if careful { "phrase.tmp" } else { "phrase" };
    {
        let mut w = io::create(d, name, false, End::Never);
        w.write_all(t.as_bytes()).expect("the disk has no errors here");
    }
    kernel::io_point("saved");
    if careful {
        d.lock().unwrap().sync(name);
        kernel::io_point("synced");
        let mut g = d.lock().unwrap();
        g.rename("phrase.tmp", "phrase");
        g.sync_dir();
    } else if choose(2) == 0 {
        d.lock().unwrap().sync(name);
    }
}

fn wallet() {
    let e = gen_seed();
    let d = io::disk();
    d.lock().unwrap().flow = Some(Flow::gen());
    let p = Arc::new(Mutex::new(Public::default()));
    let mut seed = Arc::new(Seed::new(e));
    check(seed.as_bytes() == e, "wrong-seed", || hex::encode(e));
    let mut fresh = true;
    for _ in 0..1 + choose(4) {
        life(&seed, e, &d, &p, fresh);
        if choose(3) > 0 {
            d.lock().unwrap().crash();
        }
        // the process is gone; what survives is on the disk
        let data = d.lock().unwrap().read("phrase").unwrap_or_default();
        let text = String::from_utf8_lossy(&data).into_owned();
        kernel::log("restart", digest(&data), data.len() as u64);
        let whole = phrase(&e);
        match read(&text) {
            Some(s) => {
                // a phrase cut inside its last word may be another phrase
                if denotes(&text) == Some(e) {
                    probe("check.restored");
                    seed = Arc::new(s);
                    fresh = false;
                } else {
                    check(text != whole, "wrong-seed", || format!("{text:?} does not restore {}", hex::encode(e)));
                    break;
                }
            }
            None => {
                check(text != whole, "rejected", || format!("{text:?} does not restore {}", hex::encode(e)));
                probe("check.torn");
                // written down elsewhere
                seed = Arc::new(must(Seed::from_mnemonic(&whole).map_err(|x| format!("{x:?}")), "rejected", "the written copy of the phrase"));
                fresh = true;
            }
        }
        probe("check.restart");
        // everything it ever told anyone still holds
        let (keys, signed) = {
            let g = p.lock().unwrap();
            (g.keys.clone(), g.signed.clone())
        };
        for (i, k) in keys.iter() {
            if chance(1, 2) {
                let x = derive(&seed, &e, *i, &p);
                check(x.public_key() == *k, "wrong-key", || format!("key {i} of {} after a restart", hex::encode(e)));
            }
        }
        for (i, m, s) in &signed {
            probe("check.old_signature");
            check(keys[i].verify(&st::Hash256::from(*m), s), "old-signature", || format!("of {} with key {i} of {}", hex::encode(m), hex::encode(e)));
        }
    }
}

fn abuse() {
    let e = gen_seed();
    let s = phrase(&e);
    let w: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
    let n = w.len() as u64;
    let mut v = w.clone();
    let what = choose(18);
    let t: String = match what {
        0 => s[..choose(s.len() as u64 + 1) as usize].to_string(),
        1 => {
            let mut b = s.clone().into_bytes();
            let i = choose(b.len() as u64) as usize;
            b[i] ^= 1 << choose(7);
            String::from_utf8(b).unwrap_or_default()
        }
        2 => {
            v.swap(choose(n) as usize, choose(n) as usize);
            v.join(" ")
        }
        3 => {
            v.remove(choose(n) as usize);
            v.join(" ")
        }
        4 => {
            let i = choose(n) as usize;
            let x = v[i].clone();
            v.insert(i, x);
            v.join(" ")
        }
        5 | 6 => {
            // one word mistaken for another; it is a phrase one time in sixteen
            v[choose(n) as usize] = words()[choose(2048) as usize].to_string();
            v.join(" ")
        }
        7 => {
            // an abbreviation, as some wallets allow
            let i = choose(n) as usize;
            let l = 3 + choose(2) as usize;
            if v[i].len() > l {
                v[i].truncate(l);
            }
            v.join(" ")
        }
        8 => {
            let i = choose(n) as usize;
            v[i] = if choose(2) == 0 { v[i].to_uppercase() } else { v[i][..1].to_uppercase() + &v[i][1..] };
            v.join(" ")
        }
        9 => {
            let i = choose(n) as usize;
            let c = choose(v[i].len() as u64) as usize;
            match choose(3) {
                0 => {
                    v[i].remove(c);
                }
                1 => v[i].insert(c, (b'a' + choose(26) as u8) as char),
                _ => v[i].replace_range(c..c + 1, ["q", "x", "0", "-", "\u{e9}"][choose(5) as usize]),
            }
            v.join(" ")
        }
        10 => v.join(["", ",", "-", "\0", "_", "\u{200b}"][choose(6) as usize]),
        11 => v.join(["  ", "\n", "\t", " \r\n"][choose(4) as usize]),
        12 => format!("{s} {}", phrase(&gen_seed())),
        13 | 14 => {
            // phrases of other lengths
            let l = [20, 24, 28, 32][choose(4) as usize];
            let mut b = vec![0; l];
            Rng::new(raw()).fill(&mut b);
            probe("check.length");
            phrase(&b)
        }
        15 => {
            v.rotate_left(1 + choose(n - 1) as usize);
            v.join(" ")
        }
        16 => {
            v.reverse();
            v.join(" ")
        }
        _ => s.chars().rev().collect(),
    };
    kernel::log("abuse", digest(t.as_bytes()), what);
    if t != s {
        probe("check.damaged");
    }
    match read(&t) {
        Some(x) => {
            if x.as_bytes() != e {
                probe("check.other_valid");
            }
            let y = x.to_mnemonic();
            let z = t.split_whitespace().collect::<Vec<_>>().join(" ");
            check(y == z, "wrong-phrase", || format!("{t:?} is read and written as {y:?}"));
        }
        None => probe("check.rejected"),
    }
}

/// Different seeds and indices.
fn different() {
    let e = gen_seed();
    let mut f = e;
    f[choose(16) as usize] ^= 1 << choose(8);
    let (s, t) = (Seed::new(e), Seed::new(f));
    let i = gen_index();
    let j = match choose(3) {
        0 => i ^ 1 << choose(64),
        1 => i.wrapping_add(1),
        _ => i.swap_bytes(),
    };
    let (a, b, c) = (s.private_key(i), t.private_key(i), s.private_key(j));
    probe("check.differ");
    check(a.as_bytes() != b.as_bytes() && a.public_key() != b.public_key(), "same-key", || format!("index {i} of {} and {}", hex::encode(e), hex::encode(f)));
    if i != j {
        check(a.as_bytes() != c.as_bytes() && a.public_key() != c.public_key(), "same-key", || format!("indices {i} and {j} of {}", hex::encode(e)));
    }
    check(s.to_mnemonic() != t.to_mnemonic(), "same-phrase", || format!("{} and {}", hex::encode(e), hex::encode(f)));
}

/// Seeds in one place, replaced between questions.
fn places() {
    let p = Mutex::new(Public::default());
    let mut e = gen_seed();
    let mut slot = Box::new(Seed::new(e));
    let mut i = gen_index();
    probe("check.in_place");
    for _ in 0..4 + choose(16) {
        match choose(8) {
            0 | 1 => {
                if choose(2) == 0 {
                    e[choose(16) as usize] ^= 1 << choose(8);
                } else {
                    e = gen_seed();
                }
                *slot = if choose(3) == 0 {
                    must(Seed::from_mnemonic(&phrase(&e)).map_err(|x| format!("{x:?}")), "rejected", "a phrase")
                } else {
                    Seed::new(e)
                };
                p.lock().unwrap().keys.clear();
            }
            2 => {
                let t = slot.to_mnemonic();
                check(t == phrase(&e), "wrong-phrase", || format!("{t:?} for {}", hex::encode(e)));
            }
            3 => abuse(),
            k => {
                i = match k {
                    4 => gen_index(),
                    5 => i,
                    _ => i.wrapping_add(1),
                };
                let k = derive(&slot, &e, i, &p);
                if choose(3) == 0 {
                    sign(&k, &e, i, &p);
                }
            }
        }
    }
}

fn s11() {
    kernel::set_granularity([0, 0, 100, 20, 5][choose(5) as usize]);
    let mut hs = Vec::new();
    for i in 0..1 + choose(3) {
        match choose(5) {
            0 | 1 => hs.push(kernel::spawn(&format!("wallet{i}"), wallet)),
            4 => hs.push(kernel::spawn(&format!("places{i}"), places)),
            2 => hs.push(kernel::spawn(&format!("abuse{i}"), || {
                for _ in 0..1 + choose(6) {
                    abuse()
                }
            })),
            _ => hs.push(kernel::spawn(&format!("different{i}"), different)),
        }
    }
    note("wallets", || format!("{}", hs.len()));
    sample(|| format!("{} wallets or readers of phrases", hs.len()));
    for h in hs {
        join(h, "wallet");
    }
}

// ------------------------------------------------------------------- S12

/// Runs f and wipes the stack it used: what calls leave there is no concern of
/// this property, and must not get to the heap in the padding of other values.
#[inline(never)]
fn wiped<R>(f: impl FnOnce() -> R) -> R {
    #[inline(never)]
    fn call<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    #[inline(never)]
    fn wipe() {
        let mut a = [0u64; 4096];
        for x in a.iter_mut() {
            unsafe { std::ptr::write_volatile(x, 0) };
        }
        std::hint::black_box(&mut a);
    }
    let r = call(f);
    wipe();
    r
}

/// The seed of a secret; the secret itself is only ever on the stack.
#[derive(Clone, Copy)]
struct Src12(u64);
impl Src12 {
    fn bytes<const N: usize>(self) -> [u8; N] {
        let mut b = [0; N];
        Rng::new(self.0).fill(&mut b);
        b
    }
}

#[inline(never)]
fn a_key(s: Src12) -> ss::PrivateKey {
    let b: [u8; 32] = s.bytes();
    alloc::add_secret(&b);
    match s.0 % 3 {
        0 => ss::PrivateKey::from_seed(&b),
        1 => ss::PrivateKey::from(st::Hash256::from(b)),
        _ => {
            let kp = SigningKey::from_bytes(&b).to_keypair_bytes();
            ss::PrivateKey::from(kp)
        }
    }
}
#[inline(never)]
fn a_seed(s: Src12) -> Seed {
    let b: [u8; 16] = s.bytes();
    alloc::add_secret(&b);
    // what everything is derived from
    alloc::add_secret(&blake2b(&b));
    if s.0 % 4 == 0 {
        probe("use.phrase");
        // a phrase is not the secret in this form, and belongs to the caller
        let p = phrase(&b);
        match Seed::from_mnemonic(&p) {
            Ok(s) => s,
            Err(e) => crate::violation("rejected", format!("{e:?}")),
        }
    } else {
        Seed::new(b)
    }
}

/// Things people keep secrets in.
struct Account {
    name: String,
    key: ss::PrivateKey,
    index: u64,
}
struct Wallet {
    label: [u8; 5],
    seed: Seed,
    keys: Vec<ss::PrivateKey>,
}
enum Owner {
    Nothing,
    Seed(Box<Seed>),
    Key(Box<ss::PrivateKey>),
    Account(Box<Account>),
    Wallet(Box<Wallet>),
    Keys(Box<Vec<ss::PrivateKey>>),
    Map(Box<BTreeMap<u64, Box<ss::PrivateKey>>>),
    Opt(Box<Option<ss::PrivateKey>>),
    OptSeed(Box<Option<Seed>>),
    Array(Box<[Seed; 2]>),
    Any(Box<Box<dyn std::any::Any + Send>>),
    Shared(Arc<Mutex<Account>>),
    SharedSeed(Arc<Seed>),
}

fn source() -> Src12 {
    Src12(raw())
}

fn owner() -> Owner {
    match choose(12) {
        0 => Owner::Seed(Box::new(a_seed(source()))),
        1 => Owner::Key(Box::new(a_key(source()))),
        2 => Owner::Account(Box::new(Account { name: "main".into(), key: a_key(source()), index: 3 })),
        3 => {
            let seed = a_seed(source());
            let n = choose(3);
            let mut keys = Vec::with_capacity(3);
            for i in 0..n {
                keys.push(derived(&seed, i));
            }
            Owner::Wallet(Box::new(Wallet { label: *b"spend", seed, keys }))
        }
        4 => {
            // no growth: what a move leaves behind is not for the key to erase
            let n = 1 + choose(4) as usize;
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                v.push(a_key(source()));
            }
            Owner::Keys(Box::new(v))
        }
        5 => {
            let mut m = BTreeMap::new();
            for i in 0..1 + choose(4) {
                m.insert(i * 7, Box::new(a_key(source())));
            }
            Owner::Map(Box::new(m))
        }
        6 => Owner::Opt(Box::new(Some(a_key(source())))),
        7 => Owner::OptSeed(Box::new(Some(a_seed(source())))),
        8 => Owner::Array(Box::new([a_seed(source()), a_seed(source())])),
        9 => Owner::Any(Box::new(if choose(2) == 0 { Box::new(a_key(source())) } else { Box::new(a_seed(source())) })),
        10 => Owner::Shared(Arc::new(Mutex::new(Account { name: "shared".into(), key: a_key(source()), index: 0 }))),
        _ => Owner::SharedSeed(Arc::new(a_seed(source()))),
    }
}

fn derived(s: &Seed, i: u64) -> ss::PrivateKey {
    probe("use.derive");
    let k = s.private_key(i);
    alloc::add_secret(&k.as_bytes()[..32]);
    k
}

fn sign_with(k: &ss::PrivateKey) {
    probe("use.sign");
    let h = st::Hash256::from([choose(256) as u8; 32]);
    let s = k.sign_hash(&h);
    if choose(3) == 0 {
        probe("use.verify");
        check(k.public_key().verify(&h, &s), "wrong-signature", || "a signature does not verify".into());
    }
}
fn derive_with(s: &Seed) {
    let k = derived(s, choose(1 << 20));
    if choose(2) == 0 {
        sign_with(&k);
    }
    if choose(3) == 0 {
        let b = Box::new(k);
        sign_with(&b);
    }
    if choose(4) == 0 {
        probe("use.phrase");
        let t = s.to_mnemonic();
        match Seed::from_mnemonic(&t) {
            Ok(x) => {
                let b = Box::new(x);
                check(b.as_bytes() == s.as_bytes(), "wrong-seed", || "not restored".into());
            }
            Err(e) => crate::violation("rejected", format!("{e:?}")),
        }
    }
}

fn use_it(o: &Owner) {
    match o {
        Owner::Nothing => {}
        Owner::Seed(s) => derive_with(s),
        Owner::Key(k) => sign_with(k),
        Owner::Account(a) => {
            sign_with(&a.key);
            check(a.name.len() + a.index as usize > 3, "harness", || "account".into());
        }
        Owner::Wallet(w) => {
            derive_with(&w.seed);
            w.keys.iter().for_each(sign_with);
            check(w.label[0] == b's', "harness", || "wallet".into());
        }
        Owner::Keys(v) => v.iter().for_each(sign_with),
        Owner::Map(m) => m.values().for_each(|k| sign_with(k)),
        Owner::Opt(k) => {
            if let Some(k) = &**k {
                sign_with(k)
            }
        }
        Owner::OptSeed(k) => {
            if let Some(k) = &**k {
                derive_with(k)
            }
        }
        Owner::Array(a) => a.iter().for_each(derive_with),
        Owner::Any(a) => {
            if let Some(k) = a.downcast_ref::<ss::PrivateKey>() {
                sign_with(k)
            } else if let Some(s) = a.downcast_ref::<Seed>() {
                derive_with(s)
            }
        }
        Owner::Shared(a) => sign_with(&a.lock().unwrap().key),
        Owner::SharedSeed(s) => derive_with(s),
    }
}

/// Ends the owner, or a part of what it owns, in one of the ways there are.
fn let_go(o: Owner) {
    match o {
        Owner::Nothing => {}
        Owner::Seed(mut s) => {
            probe("drop.seed");
            if choose(2) == 0 {
                probe("drop.replace");
                *s = a_seed(source());
                derive_with(&s);
            }
            probe("drop.box");
            drop(s);
        }
        Owner::Key(mut k) => {
            probe("drop.key");
            match choose(3) {
                0 => {
                    probe("drop.replace");
                    *k = a_key(source());
                }
                1 => {
                    probe("drop.clone");
                    let c = k.clone();
                    drop(k);
                    sign_with(&c);
                    k = c;
                }
                _ => {}
            }
            probe("drop.box");
            drop(k);
        }
        Owner::Account(mut a) => {
            probe("drop.struct");
            if choose(2) == 0 {
                probe("drop.replace");
                a.key = a_key(source());
                a.name.push_str(" 2");
            }
            drop(a);
        }
        Owner::Wallet(mut w) => {
            probe("drop.struct");
            match choose(3) {
                0 => w.keys.clear(),
                1 => {
                    probe("drop.replace");
                    w.seed = a_seed(source());
                }
                _ => {}
            }
            drop(w);
        }
        Owner::Keys(mut v) => {
            probe("drop.vec");
            match choose(4) {
                0 => v.clear(),
                1 => v.truncate(1),
                2 => {
                    probe("drop.clone");
                    let c = v.clone();
                    drop(v);
                    c.iter().for_each(sign_with);
                    return;
                }
                _ => {}
            }
            drop(v);
        }
        Owner::Map(mut m) => {
            probe("drop.map");
            if choose(2) == 0 {
                m.remove(&0);
            }
            if choose(3) == 0 {
                m.insert(7, Box::new(a_key(source())));
            }
            drop(m);
        }
        Owner::Opt(mut k) => {
            probe("drop.option");
            if choose(2) == 0 {
                *k = None;
            }
            drop(k);
        }
        Owner::OptSeed(mut k) => {
            probe("drop.option");
            match choose(3) {
                0 => *k = None,
                1 => *k = Some(a_seed(source())),
                _ => {}
            }
            drop(k);
        }
        Owner::Array(mut a) => {
            probe("drop.array");
            if choose(2) == 0 {
                a[1] = a_seed(source());
            }
            drop(a);
        }
        Owner::Any(a) => drop(a),
        Owner::Shared(_) | Owner::SharedSeed(_) => {
            probe("drop.shared");
            drop(o);
        }
    }
}

/// Gives another task a share.
fn share(o: &Owner) -> Owner {
    match o {
        Owner::Shared(a) => Owner::Shared(a.clone()),
        Owner::SharedSeed(a) => Owner::SharedSeed(a.clone()),
        Owner::Key(k) => {
            probe("drop.clone");
            Owner::Key(k.clone())
        }
        Owner::Account(a) => {
            probe("drop.clone");
            Owner::Account(Box::new(Account { name: a.name.clone(), key: a.key.clone(), index: a.index }))
        }
        Owner::Keys(v) => Owner::Keys(Box::new(Vec::clone(v))),
        Owner::Map(m) => {
            probe("drop.clone");
            Owner::Map(m.clone())
        }
        _ => Owner::Nothing,
    }
}

struct Boom;

/// Reports at the end of a task what was found up to then.
fn look(at: &'static str) {
    let r = alloc::scan_report();
    check(r.hits == 0, "left-in-freed", || {
        format!("{} released blocks held a secret (the last of {} bytes, secret window {}), seen {at}", r.hits, r.size, r.needle)
    });
}

fn holder(o: Owner, end: u64, uses: u64) {
    match end {
        0 => {
            for _ in 0..uses {
                wiped(|| use_it(&o));
                kernel::yield_point("used");
            }
            wiped(|| let_go(o));
        }
        1 => {
            // the task panics while it holds it
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let o = o;
                for i in 0..uses + 1 {
                    if i == uses {
                        probe("drop.unwind");
                        fault("panic");
                        std::panic::panic_any(Boom);
                    }
                    wiped(|| use_it(&o));
                }
                wiped(|| let_go(o));
            }));
            if let Err(p) = r {
                if !p.is::<Boom>() {
                    std::panic::resume_unwind(p);
                }
            }
        }
        _ => {
            // it is told to stop somewhere in here
            for _ in 0..uses + 2 {
                wiped(|| use_it(&o));
                kernel::io_point("holding");
                kernel::sleep(1 + choose(3000));
            }
            wiped(|| let_go(o));
        }
    }
    look("after a drop");
}

fn s12() {
    kernel::set_granularity([0, 0, 100, 20, 5][choose(5) as usize]);
    alloc::clear_secrets();
    alloc::scan(true);
    // a few secrets only: there is room for thirty-two windows
    let mut hs = Vec::new();
    let n = 1 + choose(2);
    for i in 0..n {
        let o = wiped(owner);
        wiped(|| use_it(&o));
        if choose(2) == 0 {
            let s = wiped(|| share(&o));
            if !matches!(s, Owner::Nothing) {
                probe("drop.last_elsewhere");
            }
            let (e, u) = (choose(3), choose(2));
            let h = kernel::spawn(&format!("share{i}"), move || holder(s, e, u));
            if e == 2 && choose(2) == 0 {
                kernel::yield_point("cancel");
                probe("drop.cancel");
                fault("cancel");
                kernel::cancel(h.tid());
            }
            hs.push(h);
        }
        let (e, u) = (choose(3), choose(3));
        let h = kernel::spawn(&format!("holder{i}"), move || holder(o, e, u));
        if e == 2 && choose(3) > 0 {
            kernel::sleep(choose(4000));
            probe("drop.cancel");
            fault("cancel");
            kernel::cancel(h.tid());
        }
        hs.push(h);
    }
    sample(|| format!("{} holders of secrets", hs.len()));
    for h in hs {
        join(h, "holder");
    }
    look("at the end");
    let live = alloc::live_hit();
    alloc::scan(false);
    check(live.is_none(), "left-on-heap", || format!("a block of {} bytes that is still held contains a secret whose owners are gone", live.unwrap_or(0)));
    alloc::clear_secrets();
}
