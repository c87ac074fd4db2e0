//! S09: the rules of every height, whichever way a node got there.
//! S14: checkpoints of a chain state on a disk that fails and loses power.
use super::*;
use crate::io::{self, DiskRef, End, KINDS};
use crate::kernel::{chance, fault, note, probe, sample};
use crate::model::*;
use crate::rules::{Rules, SC};
use crate::scenarios::txn::{a_height, a_network};
use num_bigint::BigUint;
use sia::consensus as sc;
use sia::types as st;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const S09: Scenario = Scenario {
    id: "S09",
    f: s09,
    batch: 50,
    quick: 2000,
    rule: "A run grows a tree of block states of a built-in or generated network around its hardforks and lets two to four nodes follow it: block by block, through reorganisations, by copying a state from a peer over a faulty stream, and by restarting from what a crash left on their disks; after every step the rules for the next block are compared with the reference and between nodes at the same block, and the money created along the way is added up.",
    real: &["ChainState rules, contract taxes, State and ChainState codecs and JSON, network presets"],
    stub: &["block validation and application: model states", STREAMS, SCHED, "disks: simulated"],
    must_reach: &[
        "check.rules", "check.block", "check.reorg", "check.copied", "check.restarted_binary", "check.restarted_json", "check.agree",
        "check.money", "check.subsidy", "check.subsidy_first", "check.pregenesis", "check.tax_v1", "check.tax_v2", "check.history", "crash",
    ],
};

fn arr<T: AsRef<[u8]>>(h: &T) -> [u8; 32] {
    h.as_ref().try_into().expect("32 bytes")
}

/// What a node derives for the next block.
#[derive(PartialEq, Debug, Clone)]
pub struct Derived {
    child: u64,
    reward: u128,
    maturity: u64,
    month: u64,
    subsidy: Option<(u128, [u8; 32])>,
    prefix: Vec<u8>,
    nonce: u64,
    siafunds: u64,
    ancestors: u64,
    weight: u64,
}

pub fn derived(c: &sc::ChainState) -> Derived {
    crate::no_panic("panicked", "deriving the rules", || Derived {
        child: c.child_height(),
        reward: *c.block_reward(),
        maturity: c.maturity_height(),
        month: c.blocks_per_month(),
        subsidy: c.foundation_subsidy().map(|o| (*o.value, arr(&o.address))),
        prefix: c.replay_prefix().to_vec(),
        nonce: c.nonce_factor(),
        siafunds: c.siafund_count(),
        ancestors: c.ancestor_depth(),
        weight: c.max_block_weight(),
    })
}

pub fn expected(r: &Rules, s: &State) -> Derived {
    Derived {
        child: r.child(),
        reward: r.reward(),
        maturity: r.maturity(),
        month: r.month(),
        subsidy: r.subsidy().map(|v| (v, s.foundation_primary_address.0)),
        prefix: r.prefix().to_vec(),
        nonce: r.nonce_factor(),
        siafunds: 10_000,
        ancestors: 1000,
        weight: 2_000_000,
    }
}

fn rules_of(c: &sc::ChainState, n: &Network, s: &State, how: &str) -> Derived {
    let got = derived(c);
    let r = Rules { n, height: s.index.height };
    let mut want = expected(&r, s);
    if s.index.height == u64::MAX {
        // nothing is signed for the first block
        want.prefix = got.prefix.clone();
        probe("check.pregenesis");
    }
    probe("check.rules");
    if want.subsidy.is_some() {
        probe("check.subsidy");
        if want.child == n.hardfork_foundation.height {
            probe("check.subsidy_first");
        }
    }
    check(got == want, "wrong-rules", || format!("{how}, network {}, height {}: {got:?} and not {want:?}", n.name, s.index.height as i64));
    got
}

fn payout() -> u128 {
    match choose(5) {
        0 => choose(1_000_000) as u128,
        1 => 10u128.pow(choose(38) as u32) * (1 + choose(9) as u128),
        2 => SC * choose(1 << 40) as u128 + gen_u64() as u128,
        3 => 10_000 * 1000 / 39 * gen_u64() as u128 % (1 << 120) + choose(3) as u128,
        _ => gen_u128(),
    }
}

/// Amounts at which the tax steps up by one unit of all siafunds.
fn at_a_step(num: u128, den: u128) -> u128 {
    let k = match choose(3) {
        0 => 1 + choose(50) as u128,
        1 => 1 + choose(1 << 40) as u128,
        _ => 1 + gen_u128() % (u128::MAX / 10_000 / den - 2),
    };
    // the least amount that is taxed with k units
    let n = (k * 10_000 * den).div_ceil(num);
    match choose(4) {
        0 => n,
        1 => n - 1,
        2 => n + 1,
        _ => n + choose(1000) as u128 - 500.min(n),
    }
}

fn taxes(c: &sc::ChainState, n: &Network, height: u64, g: &mut G) {
    let r = Rules { n, height };
    let mut m = V1Contract::gen(g);
    m.payout = Cur(if choose(2) == 0 { at_a_step(39, 1000) } else { payout() });
    let want = r.v1_tax(m.payout.0);
    let real: st::v1::FileContract = m.real();
    let got = crate::no_panic("panicked", "taxing a contract", || *real.tax(c));
    check(got == want, "wrong-tax", || {
        format!("network {}, child height {}: the v1 tax of {} is {got} and not {want}", n.name, r.child(), m.payout.0)
    });
    probe("check.tax_v1");
    let mut m = Contract::gen(g);
    if choose(2) == 0 {
        let sum = at_a_step(1, 25);
        let part = match choose(4) {
            0 => 0,
            1 => choose(100) as u128,
            _ => gen_u128(),
        } % (sum + 1);
        m.renter_output.value = Cur(part);
        m.host_output.value = Cur(sum - part);
    } else {
        m.renter_output.value = Cur(payout());
        m.host_output.value = Cur(payout());
    }
    if let Some(want) = r.v2_tax(&m) {
        let real: st::v2::FileContract = m.real();
        let got = crate::no_panic("panicked", "taxing a contract", || *real.tax(c));
        check(got == want, "wrong-tax", || {
            format!("network {}: the v2 tax of {} and {} is {got} and not {want}", n.name, m.renter_output.value.0, m.host_output.value.0)
        });
        probe("check.tax_v2");
    }
}

/// Money created by the blocks of these heights.
fn money(n: &Network, from: u64, to: u64) -> BigUint {
    // rewards that are above the minimum fall by one siacoin per block
    let (i, m) = (n.initial_coinbase.0, n.minimum_coinbase.0);
    let mut sum = BigUint::from(0u8);
    let falling = if i > m { (i - m).div_ceil(SC) } else { 0 }.min(u64::MAX as u128) as u64;
    let (a, b) = (from, to);
    let f = b.min(falling).saturating_sub(a);
    if f > 0 {
        let first = BigUint::from(i - a as u128 * SC);
        let last = BigUint::from(i - (a + f - 1) as u128 * SC);
        sum += (first + last) * f / 2u8;
    }
    sum += BigUint::from(m) * (b - a - f);
    // the Foundation: a year at the fork, then every month
    let month = Rules { n, height: 0 }.month();
    let h = n.hardfork_foundation.height;
    let due = |x: u64| if x > h { (x - h - 1) / month + 1 } else { 0 };
    let per_month = BigUint::from(30_000 * SC) * month;
    sum += per_month.clone() * (due(b) - due(a));
    if a <= h && h < b {
        sum += per_month * 11u8;
    }
    sum
}

/// The states of a tree of blocks.
struct World {
    net: Network,
    nodes: Vec<(usize, State)>, // parent, state
    agreed: Mutex<BTreeMap<[u8; 32], Derived>>,
}

fn child_of(s: &State, n: usize, g: &mut G) -> State {
    let mut c = s.clone();
    c.index.height = s.index.height.wrapping_add(1);
    c.index.id = Hash(crate::b2::cat(&[&s.index.id.0, &gen_u64().to_le_bytes(), &kernel::raw().to_le_bytes(), &(n as u64).to_le_bytes()]));
    let n = State::times(c.index.height);
    c.prev_timestamps.0.rotate_right(1);
    c.prev_timestamps.0[0] = Time(1_433_600_000 + choose(1 << 31) as i64);
    for t in c.prev_timestamps.0[n..].iter_mut() {
        *t = Time(0);
    }
    match choose(8) {
        0 => c.siafund_pool = Cur::gen(g),
        1 => {
            c.foundation_primary_address = Addr::gen(g);
            c.foundation_failsafe_address = Addr::gen(g);
        }
        2 => c.elements = Accum::gen(g),
        3 => c.attestations = c.attestations.wrapping_add(choose(9)),
        4 => {
            c.total_work = WorkM::gen(g);
            c.oak_work = WorkM::gen(g);
            c.oak_time = Dur::gen(g);
        }
        5 => c.depth = Hash::gen(g),
        _ => {}
    }
    c
}

impl World {
    fn gen(g: &mut G) -> World {
        let net = a_network();
        let start = match choose(8) {
            0 => u64::MAX,
            1 => choose(13),
            2 => {
                // around a later subsidy
                let m = Rules { n: &net, height: 0 }.month();
                (net.hardfork_foundation.height + m * (1 + choose(40))).saturating_sub(1 + choose(4))
            }
            3 => {
                // where the reward stops falling
                let f = net.initial_coinbase.0.saturating_sub(net.minimum_coinbase.0) / SC;
                (f as u64).saturating_sub(choose(4))
            }
            _ => a_height(&net),
        };
        let mut s = State::gen(g);
        s.index.height = start;
        let mut w = World { net, nodes: vec![(0, s.normal())], agreed: Default::default() };
        for _ in 0..4 + choose(24) {
            let p = if chance(3, 4) { w.nodes.len() as u64 - 1 } else { choose(w.nodes.len() as u64) } as usize;
            let c = child_of(&w.nodes[p].1, w.nodes.len(), g);
            w.nodes.push((p, c));
        }
        w
    }
    fn path(&self, mut i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while i != 0 {
            i = self.nodes[i].0;
            v.push(i);
        }
        v.reverse();
        v
    }
}

/// Applies a block to a state, part by part, as a node does.
fn apply(real: &mut sc::State, to: &State) {
    let t: sc::State = to.real();
    real.index = t.index;
    real.prev_timestamps = t.prev_timestamps;
    real.depth = t.depth;
    real.child_target = t.child_target;
    real.siafund_pool = t.siafund_pool;
    real.oak_time = t.oak_time;
    real.oak_target = t.oak_target;
    real.foundation_primary_address = t.foundation_primary_address;
    real.foundation_failsafe_address = t.foundation_failsafe_address;
    real.total_work = t.total_work;
    real.difficulty = t.difficulty;
    real.oak_work = t.oak_work;
    real.elements = t.elements;
    real.attestations = t.attestations;
}

fn preset(n: &Network) -> sc::Network {
    // the built-in networks are used as they are
    match (n.name.as_str(), choose(2)) {
        ("mainnet", 0) => sc::Network::mainnet(),
        ("zen", 0) => sc::Network::zen(),
        ("anagami", 0) => sc::Network::anagami(),
        _ => n.real(),
    }
}

fn node(w: Arc<World>, id: u64) {
    let mut g = small().json();
    let d = io::disk();
    d.lock().unwrap().flow = Some(Flow::gen().for_size(30_000));
    let mut at = 0usize;
    let mut real = sc::ChainState { network: preset(&w.net), state: w.nodes[0].1.real() };
    let mut stored: Vec<usize> = vec![]; // what the checkpoint file may hold
    let mut json = false;
    for _ in 0..3 + choose(14) {
        let how = match choose(10) {
            0..=3 => {
                // the next block
                let kids: Vec<usize> = (1..w.nodes.len()).filter(|i| w.nodes[*i].0 == at).collect();
                if kids.is_empty() {
                    continue;
                }
                at = kids[choose(kids.len() as u64) as usize];
                if choose(2) == 0 {
                    apply(&mut real.state, &w.nodes[at].1);
                } else {
                    real.state = w.nodes[at].1.real();
                }
                probe("check.block");
                "block"
            }
            4 | 5 => {
                // another branch has more work
                let to = choose(w.nodes.len() as u64) as usize;
                let (a, b) = (w.path(at), w.path(to));
                let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
                for i in a[common..].iter().rev() {
                    let p = w.nodes[*i].0;
                    apply(&mut real.state, &w.nodes[p].1);
                    rules_of(&real, &w.net, &w.nodes[p].1, "reverted");
                }
                for i in &b[common..] {
                    apply(&mut real.state, &w.nodes[*i].1);
                    rules_of(&real, &w.net, &w.nodes[*i].1, "applied");
                    kernel::yield_point("apply");
                }
                at = to;
                probe("check.reorg");
                "reorganisation"
            }
            6 => {
                // a peer's state
                at = choose(w.nodes.len() as u64) as usize;
                let peer = sc::ChainState { network: preset(&w.net), state: w.nodes[at].1.real() };
                match choose(3) {
                    0 => real.state = ship2(&peer.state, "a state"),
                    1 => real.state = shipj(&peer.state, "a state"),
                    _ => real = shipj(&peer, "a chain state"),
                }
                probe("check.copied");
                "copied"
            }
            7 | 8 => {
                // checkpoint: a new file in place of the old one
                json = if stored.is_empty() { choose(2) == 1 } else { json };
                let mut f = io::create(&d, "new", false, End::Never);
                if json {
                    must(serde_json::to_writer(&mut f, &real), "transfer", "storing a chain state");
                } else {
                    use sia::encoding::SiaEncodable;
                    must(real.state.encode(&mut f), "transfer", "storing a state");
                }
                let mut l = d.lock().unwrap();
                l.sync("new");
                l.rename("new", "state");
                stored.push(at);
                if choose(2) == 0 {
                    l.sync_dir();
                    stored = vec![at];
                }
                continue;
            }
            _ => {
                // power loss
                d.lock().unwrap().crash();
                let data = d.lock().unwrap().read("state");
                let n = data.as_ref().map_or(0, |x| x.len());
                let Some(data) = data else {
                    at = 0;
                    stored.clear();
                    d.lock().unwrap().remove("new");
                    real = sc::ChainState { network: preset(&w.net), state: w.nodes[0].1.real() };
                    continue;
                };
                let mut r = Src::new(Arc::new(data), Flow::gen().for_size(n * 3), End::Never);
                real = if json {
                    probe("check.restarted_json");
                    let r = std::io::BufReader::new(r);
                    must(serde_json::from_reader(r), "transfer", "restarting from a chain state")
                } else {
                    use sia::encoding::SiaDecodable;
                    probe("check.restarted_binary");
                    let state = must(sc::State::decode(&mut r), "transfer", "restarting from a state");
                    sc::ChainState { network: preset(&w.net), state }
                };
                let found = stored.iter().rev().find(|i| w.nodes[**i].1.real() == real.state);
                let Some(i) = found else {
                    crate::violation("restart", format!("node {id} restarted with {:?}", real.state.index));
                };
                at = *i;
                stored = vec![at];
                "restarted"
            }
        };
        let m = &w.nodes[at].1;
        check(real.state == m.real() && real.network == w.net.real(), "restart", || {
            format!("{how}: {} and not {}", short(&format!("{real:?}")), short(&format!("{m:?}")))
        });
        let r = rules_of(&real, &w.net, m, how);
        if chance(1, 3) {
            for _ in 0..1 + choose(3) {
                taxes(&real, &w.net, m.index.height, &mut g);
            }
        }
        kernel::log("rules", digest(&format!("{r:?}").into_bytes()), m.index.height);
        // all nodes at this block agree
        let mut a = w.agreed.lock().unwrap();
        if let Some(o) = a.get(&m.index.id.0) {
            probe("check.agree");
            check(*o == r, "disagree", || format!("{how}: node {id} derives {r:?} where another derived {o:?}"));
        } else {
            a.insert(m.index.id.0, r);
        }
    }
}

/// The money of a range of heights.
fn accountant() {
    let net = a_network();
    let mut g = small();
    let mut s = State::gen(&mut g);
    let (start, n) = match choose(6) {
        0 => (u64::MAX, choose(40)),
        1 => {
            probe("check.history");
            (a_height(&net), 2000 + choose(9000))
        }
        2 => {
            let m = Rules { n: &net, height: 0 }.month();
            (net.hardfork_foundation.height.saturating_sub(1 + choose(5)), (3 * m + 2).min(14_000))
        }
        _ => (a_height(&net), choose(400)),
    };
    s.index.height = start;
    s = s.normal();
    let mut real = sc::ChainState { network: preset(&net), state: s.real() };
    let mut sum = BigUint::from(0u8);
    for i in 0..n {
        s.index.height = start.wrapping_add(i);
        real.state.index.height = s.index.height;
        let r = rules_of(&real, &net, &s, "history");
        sum += r.reward;
        if let Some((v, _)) = r.subsidy {
            sum += v;
        }
        if i % 64 == 0 {
            kernel::yield_point("height");
        }
    }
    let from = start.wrapping_add(1);
    let want = money(&net, from, from + n);
    kernel::log("money", digest(&sum.to_bytes_le()), n);
    probe("check.money");
    check(sum == want, "wrong-money", || format!("network {}: the blocks of heights {from}..{} create {sum} and not {want}", net.name, from + n));
}

fn s09() {
    kernel::set_granularity([0, 200, 30][choose(3) as usize]);
    let mut hs = vec![];
    let mut g = small().json();
    if choose(4) == 3 {
        hs.push(kernel::spawn("accountant", accountant));
    }
    let w = Arc::new(World::gen(&mut g));
    note("network", || short(&format!("{:?}", w.net)));
    sample(|| format!("{} states of network {:?} from height {}", w.nodes.len(), w.net.name, w.nodes[0].1.index.height as i64));
    for i in 0..2 + choose(3) {
        let v = w.clone();
        let h = kernel::spawn(&format!("node{i}"), move || node(v, i));
        if chance(1, 12) {
            kernel::sleep(1 + kernel::raw() % 100_000_000);
            fault("cancel");
            kernel::cancel(h.tid());
        }
        hs.push(h);
    }
    for h in hs {
        join(h, "node");
    }
}

// -------------------------------------------------------------------- S14

pub const S14: Scenario = Scenario {
    id: "S14",
    f: s14,
    batch: 80,
    quick: 1100,
    rule: "A run lets one to three nodes save generated chain states, in binary or JSON, to a log or to a file that replaces the last one, on a simulated disk with short, failed and torn writes, lost renames and lost unsynced data, crash at any point and restore through streams that fragment and fail; what is restored is compared with the last state that was completely written.",
    real: &["State and ChainState codecs and JSON, serde_json"],
    stub: &["disks: simulated", STREAMS, SCHED],
    must_reach: &[
        "check.restored", "check.torn_rejected", "check.log", "check.replace", "check.fallback", "check.write_failed", "check.read_failed",
        "check.many_rounds", "check.pregenesis", "check.young", "disk.torn_write", "disk.lost_write", "disk.lost_rename", "crash",
        "check.chain_json", "check.state_json", "check.binary",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Binary,
    StateJson,
    ChainJson,
}

fn save(form: Form, c: &sc::ChainState, w: &mut dyn std::io::Write) -> Result<(), String> {
    use sia::encoding::SiaEncodable;
    struct W<'a>(&'a mut dyn std::io::Write);
    impl std::io::Write for W<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            self.0.flush()
        }
    }
    crate::no_panic("panicked", "saving a checkpoint", || match form {
        Form::Binary => c.state.encode(&mut W(w)).map_err(|e| format!("{e:?}")),
        Form::StateJson => serde_json::to_writer(W(w), &c.state).map_err(|e| e.to_string()),
        Form::ChainJson => serde_json::to_writer(W(w), c).map_err(|e| e.to_string()),
    })
}

/// Reads the next checkpoint of a file.
fn load(form: Form, net: &Network, mut r: &mut dyn std::io::Read) -> Result<sc::ChainState, String> {
    use serde::Deserialize;
    use sia::encoding::SiaDecodable;
    crate::no_panic("panicked", "restoring a checkpoint", || match form {
        Form::Binary => match sc::State::decode(&mut r) {
            Ok(state) => Ok(sc::ChainState { network: net.real(), state }),
            Err(e) => Err(format!("{e:?}")),
        },
        Form::StateJson => match sc::State::deserialize(&mut serde_json::Deserializer::from_reader(r)) {
            Ok(state) => Ok(sc::ChainState { network: net.real(), state }),
            Err(e) => Err(e.to_string()),
        },
        Form::ChainJson => sc::ChainState::deserialize(&mut serde_json::Deserializer::from_reader(r)).map_err(|e| e.to_string()),
    })
}

fn gen_state(n: &Network, g: &mut G) -> State {
    let mut s = State::gen_state(g);
    if choose(3) == 0 {
        s.index.height = a_height(n);
        s = s.normal();
    }
    if s.index.height == u64::MAX {
        probe("check.pregenesis");
    } else if s.index.height < 11 {
        probe("check.young");
    }
    s
}

fn is(got: &sc::ChainState, n: &Network, s: &State, how: &str) {
    let want = sc::ChainState { network: n.real(), state: s.real() };
    check(*got == want, "restored-wrong", || format!("{how}: {} and not {}", short(&format!("{got:?}")), short(&format!("{want:?}"))));
    check(got.state.elements.num_leaves == s.elements.num_leaves, "restored-wrong", || "elements".into());
    probe("check.restored");
}

/// The file as a stream, broken at the given place.
fn stream(data: &[u8], end: End) -> Box<dyn std::io::Read> {
    let n = data.len();
    let s = Src::new(Arc::new(data.to_vec()), Flow::gen().for_size(n * 3), end);
    if n > 3000 {
        Box::new(std::io::BufReader::new(s))
    } else {
        Box::new(s)
    }
}

fn failing_end() -> End {
    let at = choose(700) as usize;
    match choose(3) {
        0 => End::Zero(at),
        _ => End::Fail(at, KINDS[choose(10) as usize]),
    }
}

/// Every checkpoint is appended to one file.
fn logger(d: DiskRef, form: Form, net: Network) {
    probe("check.log");
    let mut g = small().json();
    let mut real = sc::ChainState { network: net.real(), state: gen_state(&net, &mut g).real() };
    // complete checkpoints and where they end; how many are synced
    let mut done: Vec<(State, usize)> = vec![];
    let mut synced = 0;
    for _ in 0..2 + choose(12) {
        match choose(6) {
            0..=2 => {
                let s = gen_state(&net, &mut g);
                real.state = s.real();
                let end = if chance(1, 5) { failing_end() } else { End::Never };
                let before = d.lock().unwrap().read("log").map_or(0, |x| x.len());
                let mut w = io::create(&d, "log", true, end);
                let res = save(form, &real, &mut w);
                let failed = w.failed;
                drop(w);
                let after = d.lock().unwrap().read("log").map_or(0, |x| x.len());
                match res {
                    Ok(()) => {
                        check(!failed, "write-failure-lost", || format!("{form:?}: saved although the disk failed"));
                        done.push((s, after));
                    }
                    Err(e) => {
                        check(failed, "refused", || format!("{form:?}: {}: {e}", short(&format!("{real:?}"))));
                        probe("check.write_failed");
                        // the node removes the rest
                        d.lock().unwrap().truncate("log", before);
                    }
                }
            }
            3 => {
                d.lock().unwrap().sync("log");
                synced = done.len();
            }
            _ => {
                if choose(2) == 0 {
                    d.lock().unwrap().crash();
                }
                let data = d.lock().unwrap().read("log").unwrap_or_default();
                let whole = done.iter().take_while(|x| x.1 <= data.len()).count();
                check(whole >= synced, "harness", || "synced data was lost".into());
                // a first attempt may fail
                if !data.is_empty() && chance(1, 4) {
                    let at = choose(data.len() as u64) as usize;
                    let mut r = stream(&data, End::Fail(at, KINDS[choose(10) as usize]));
                    for (i, (s, e)) in done.iter().enumerate().take(whole + 1) {
                        match load(form, &net, &mut r) {
                            Ok(c) => {
                                check(*e <= at, "torn-accepted", || format!("{form:?}: checkpoint {i} ends at byte {e}, the disk failed at {at}: {c:?}"));
                                is(&c, &net, s, "before a read error");
                            }
                            Err(_) => {
                                check(*e > at, "lost", || format!("{form:?}: checkpoint {i} ends at byte {e}, the disk failed at {at}"));
                                probe("check.read_failed");
                                break;
                            }
                        }
                    }
                }
                let mut r = stream(&data, End::Never);
                let mut last = None;
                for (s, _) in &done[..whole] {
                    let c = must(load(form, &net, &mut r), "lost", &format!("{form:?}: a complete checkpoint at height {}", s.index.height as i64));
                    is(&c, &net, s, "from the log");
                    last = Some(c);
                }
                let torn = data.len() > done[..whole].last().map_or(0, |x| x.1);
                if let Ok(c) = load(form, &net, &mut r) {
                    crate::violation("torn-accepted", format!("{form:?}: after {whole} checkpoints: {}", short(&format!("{c:?}"))));
                }
                if torn {
                    probe("check.torn_rejected");
                }
                // it goes on from there
                done.truncate(whole);
                synced = synced.min(whole);
                d.lock().unwrap().truncate("log", done.last().map_or(0, |x| x.1));
                if let Some(c) = last {
                    real = c;
                }
            }
        }
    }
}

/// The checkpoint is a file, replaced by renaming; the last one is kept.
fn replacer(d: DiskRef, form: Form, net: Network) {
    probe("check.replace");
    let mut g = small().json();
    // contents each name may have after a crash
    let mut texts: Vec<(Vec<u8>, State)> = vec![];
    let mut durable: Option<usize> = None;
    for _ in 0..2 + choose(10) {
        match choose(5) {
            0..=2 => {
                let s = gen_state(&net, &mut g);
                let real = sc::ChainState { network: net.real(), state: s.real() };
                let end = if chance(1, 6) { failing_end() } else { End::Never };
                let mut w = io::create(&d, "new", false, end);
                let res = save(form, &real, &mut w);
                let failed = w.failed;
                drop(w);
                check(res.is_ok() != failed, "write-failure-lost", || format!("{form:?}: failed: {failed}, {res:?}"));
                if failed {
                    probe("check.write_failed");
                    continue;
                }
                let mut l = d.lock().unwrap();
                let text = l.read("new").unwrap_or_default();
                texts.push((text, s));
                let careful = choose(3) > 0;
                if careful {
                    l.sync("new");
                }
                l.rename("new", "state");
                if careful && choose(2) == 0 {
                    l.sync_dir();
                    durable = Some(texts.len() - 1);
                }
            }
            _ => {
                d.lock().unwrap().crash();
                let Some(data) = d.lock().unwrap().read("state") else {
                    check(durable.is_none(), "harness", || "a durable file was lost".into());
                    continue;
                };
                let known = texts.iter().rposition(|t| t.0 == data);
                match (load(form, &net, &mut stream(&data, End::Never)), known) {
                    (Ok(c), Some(i)) => {
                        is(&c, &net, &texts[i].1, "restored");
                        durable = Some(i);
                    }
                    (Ok(c), None) => crate::violation("torn-accepted", format!("{form:?}: {} bytes: {}", data.len(), short(&format!("{c:?}")))),
                    (Err(e), Some(i)) => crate::violation("lost", format!("{form:?}: height {}: {e}", texts[i].1.index.height as i64)),
                    (Err(_), None) => {
                        probe("check.torn_rejected");
                        probe("check.fallback");
                        // it begins again
                        d.lock().unwrap().remove("state");
                        durable = None;
                    }
                }
            }
        }
    }
}

/// Saved and restored again and again, in changing forms.
fn rounds(net: Network) {
    probe("check.many_rounds");
    let mut g = small().json();
    let s = gen_state(&net, &mut g);
    let mut c = sc::ChainState { network: net.real(), state: s.real() };
    let mut first: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    for _ in 0..2 + choose(12) {
        let form = a_form();
        let mut w = Sink::new(Flow::gen().for_size(30_000), End::Never);
        must(save(form, &c, &mut w), "refused", "saving");
        let text = first.entry(form as u8).or_insert_with(|| w.out.clone());
        check(*text == w.out, "changed-by-saving", || format!("{form:?}: {} and then {}", hexs(text), hexs(&w.out)));
        kernel::log("saved", digest(&w.out), w.out.len() as u64);
        c = must(load(form, &net, &mut stream(&w.out, End::Never)), "lost", "restoring");
        is(&c, &net, &s, "after many rounds");
        // not one byte less
        let k = choose(w.out.len() as u64) as usize;
        if let Ok(x) = load(form, &net, &mut stream(&w.out[..k], End::Never)) {
            crate::violation("torn-accepted", format!("{form:?}: {k} of {} bytes: {}", w.out.len(), short(&format!("{x:?}"))));
        }
        probe("check.torn_rejected");
    }
}

fn a_form() -> Form {
    match choose(4) {
        0 => {
            probe("check.state_json");
            Form::StateJson
        }
        1 => {
            probe("check.chain_json");
            Form::ChainJson
        }
        _ => {
            probe("check.binary");
            Form::Binary
        }
    }
}

fn s14() {
    kernel::set_granularity([0, 200, 30][choose(3) as usize]);
    let mut hs = vec![];
    for i in 0..1 + choose(3) {
        let net = a_network();
        let form = a_form();
        let d = io::disk();
        d.lock().unwrap().flow = Some(Flow::gen().for_size(30_000));
        let kind = choose(3);
        sample(|| format!("{} in {form:?} on network {:?}", ["log", "replaced file", "rounds"][kind as usize], net.name));
        let h = kernel::spawn(&format!("node{i}"), move || match kind {
            0 => logger(d, form, net),
            1 => replacer(d, form, net),
            _ => rounds(net),
        });
        if chance(1, 12) {
            kernel::sleep(1 + kernel::raw() % 100_000_000);
            fault("cancel");
            kernel::cancel(h.tid());
        }
        hs.push(h);
    }
    for h in hs {
        join(h, "node");
    }
}
