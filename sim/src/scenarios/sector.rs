//! S05: the root of a sector, under any scheduling of the workers.
use super::*;
use crate::alloc;
use crate::choice::Rng;
use crate::kernel::{fault, note, probe, raw, sample};
use rayon::prelude::*;
use sia::rhp::{sector_root, SECTOR_SIZE, SEGMENT_SIZE};
use std::collections::HashMap;

pub const S05: Scenario = Scenario {
    id: "S05",
    f: s05,
    batch: 10,
    quick: 260,
    rule: "A run starts one to three pools of one to eighty workers as simulated tasks, one of them the default pool, and lets one to four callers compute roots of generated sectors in them or from outside of any, separately, nested in parallel loops, and next to callers that panic; every steal, join and idle loop and points between hashes are decided by the scheduler. Then single bits are flipped and segments exchanged.",
    real: &["sector_root, rayon iterators and scheduler (rayon-core with scheduling points), BLAKE2b (with scheduling points)"],
    stub: &["threads of the pools: simulated tasks; sleeping of idle workers: polling", SCHED],
    must_reach: &[
        "check.root", "check.flip", "check.swap", "check.concurrent", "check.nested", "check.workers_1", "check.workers_many",
        "check.after_panic", "check.bad_length", "check.two_pools", "check.sparse", "check.random", "check.same", "check.default_pool", "check.workers_9_80",
    ],
};

type Node = [u8; 32];

fn leaf(seg: &[u8]) -> Node {
    let mut b = [0u8; 65];
    b[1..].copy_from_slice(seg);
    crate::b2::blake2b(&b)
}
fn node(l: &Node, r: &Node) -> Node {
    let mut b = [0u8; 65];
    b[0] = 1;
    b[1..33].copy_from_slice(l);
    b[33..].copy_from_slice(r);
    crate::b2::blake2b(&b)
}

/// Every level of the tree, leaves first.
struct Tree(Vec<Vec<Node>>);
impl Tree {
    fn new(data: &[u8]) -> Tree {
        let mut seen: HashMap<&[u8], Node> = HashMap::new();
        let mut level: Vec<Node> = Vec::with_capacity(data.len() / 64);
        for s in data.chunks_exact(64) {
            let h = match seen.get(s) {
                Some(h) => *h,
                None => {
                    let h = leaf(s);
                    if seen.len() < 300 {
                        seen.insert(s, h);
                    }
                    h
                }
            };
            level.push(h);
        }
        let mut all = vec![];
        while level.len() > 1 {
            let mut seen: HashMap<(Node, Node), Node> = HashMap::new();
            let mut up = Vec::with_capacity(level.len() / 2);
            for p in level.chunks_exact(2) {
                let k = (p[0], p[1]);
                let h = match seen.get(&k) {
                    Some(h) => *h,
                    None => {
                        let h = node(&p[0], &p[1]);
                        if seen.len() < 300 {
                            seen.insert(k, h);
                        }
                        h
                    }
                };
                up.push(h);
            }
            all.push(std::mem::replace(&mut level, up));
        }
        all.push(level);
        Tree(all)
    }
    fn root(&self) -> Node {
        self.0.last().expect("levels")[0]
    }
    fn set(&mut self, i: usize, h: Node) {
        let mut i = i;
        self.0[0][i] = h;
        for l in 1..self.0.len() {
            i /= 2;
            self.0[l][i] = node(&self.0[l - 1][2 * i], &self.0[l - 1][2 * i + 1]);
        }
    }
}

fn gen_sector() -> (Vec<u8>, &'static str) {
    let mut d = vec![0u8; SECTOR_SIZE];
    let segs = (SECTOR_SIZE / SEGMENT_SIZE) as u64;
    let kind = match choose(8) {
        0 => "zero",
        1 => {
            // a few segments with something in them
            for _ in 0..1 + choose(12) {
                let s = match choose(4) {
                    0 => choose(8),
                    1 => segs - 1 - choose(8),
                    2 => (1 << choose(16)) - choose(2),
                    _ => choose(segs),
                } as usize;
                let at = s * 64 + choose(64) as usize;
                d[at] = 1 + choose(255) as u8;
            }
            "sparse"
        }
        2 => {
            let mut seg = [0u8; 64];
            Rng::new(raw()).fill(&mut seg);
            d.chunks_exact_mut(64).for_each(|c| c.copy_from_slice(&seg));
            "repeated"
        }
        3 => {
            // blocks of equal segments, of different sizes
            let run = 1usize << choose(16);
            for (i, c) in d.chunks_mut(64 * run).enumerate() {
                c.fill((i % 250) as u8);
            }
            "blocks"
        }
        4 => {
            // a file shorter than the sector
            let n = choose(SECTOR_SIZE as u64) as usize;
            Rng::new(raw()).fill(&mut d[..n.min(1 << 18)]);
            "short"
        }
        5 => {
            for (i, c) in d.chunks_exact_mut(8).enumerate() {
                c.copy_from_slice(&(i as u64).to_le_bytes());
            }
            "counter"
        }
        _ => {
            Rng::new(raw()).fill(&mut d);
            "random"
        }
    };
    (d, kind)
}

fn pool(n: usize, tag: u64, fine: bool, hs: &mut Vec<kernel::Handle<()>>) -> rayon::ThreadPool {
    let mut v = Vec::new();
    let p = rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .spawn_handler(|t| {
            let name = format!("worker{tag}.{}", t.index());
            v.push(kernel::spawn(&name, move || alloc::fine_accesses(fine, || t.run())));
            Ok(())
        })
        .build()
        .expect("a pool");
    hs.extend(v);
    p
}

fn expect(got: [u8; 32], want: Node, what: &str) {
    check(got == want, "wrong-root", || format!("{} and not {} for {what}", hex::encode(got), hex::encode(want)));
    kernel::log("root", digest(&want), 0);
}

fn bytes(h: &sia::types::Hash256) -> [u8; 32] {
    let b: &[u8] = h.as_ref();
    b.try_into().expect("32 bytes")
}

type Pool = Arc<rayon::ThreadPool>;

/// In the pool, or from outside of any.
fn root_in(p: &Option<Pool>, d: &[u8]) -> [u8; 32] {
    bytes(&match p {
        Some(p) => p.install(|| sector_root(d)),
        None => {
            probe("check.default_pool");
            sector_root(d)
        }
    })
}

fn caller(p: Option<Pool>) {
    let (mut d, kind) = gen_sector();
    let mut t = Tree::new(&d);
    probe(match kind {
        "random" => "check.random",
        "sparse" => "check.sparse",
        _ => "check.root",
    });
    sample(|| format!("a {kind} sector"));
    expect(root_in(&p, &d), t.root(), kind);
    probe("check.root");
    for _ in 0..choose(3) {
        let segs = SECTOR_SIZE / SEGMENT_SIZE;
        match choose(3) {
            0 => {
                let bit = match choose(3) {
                    0 => choose(512),
                    1 => SECTOR_SIZE as u64 * 8 - 1 - choose(512),
                    _ => choose(SECTOR_SIZE as u64 * 8),
                } as usize;
                let old = t.root();
                d[bit / 8] ^= 1 << (bit % 8);
                let s = bit / 512;
                t.set(s, leaf(&d[s * 64..s * 64 + 64]));
                let got = root_in(&p, &d);
                check(got != old, "same-root", || format!("flipping bit {bit} of a {kind} sector keeps the root {}", hex::encode(old)));
                expect(got, t.root(), "a changed sector");
                probe("check.flip");
            }
            1 => {
                let i = choose(segs as u64) as usize;
                let j = match choose(3) {
                    0 => i ^ 1,
                    1 => i ^ (1 << choose(16)),
                    _ => choose(segs as u64) as usize,
                };
                let (a, b): (Vec<u8>, Vec<u8>) = (d[i * 64..i * 64 + 64].to_vec(), d[j * 64..j * 64 + 64].to_vec());
                if a == b {
                    continue;
                }
                let old = t.root();
                d[i * 64..i * 64 + 64].copy_from_slice(&b);
                d[j * 64..j * 64 + 64].copy_from_slice(&a);
                t.set(i, leaf(&b));
                t.set(j, leaf(&a));
                let got = root_in(&p, &d);
                check(got != old, "same-root", || format!("exchanging segments {i} and {j} of a {kind} sector keeps the root"));
                expect(got, t.root(), "a reordered sector");
                probe("check.swap");
            }
            _ => {
                expect(root_in(&p, &d), t.root(), "the same sector again");
                probe("check.same");
            }
        }
    }
}

/// Several sectors in one parallel loop, as a host has them.
fn nested(p: Option<Pool>) {
    let mut v: Vec<(Vec<u8>, Node)> = Vec::new();
    for _ in 0..2 + choose(2) {
        let (d, _) = gen_sector();
        let r = Tree::new(&d).root();
        v.push((d, r));
    }
    let loops = choose(2) == 0;
    let all = || -> Vec<[u8; 32]> {
        if loops {
            v.par_iter().map(|(d, _)| bytes(&sector_root(d))).collect()
        } else {
            let (a, b) = rayon::join(|| sector_root(&v[0].0), || sector_root(&v[1].0));
            vec![bytes(&a), bytes(&b)]
        }
    };
    let got = match &p {
        Some(p) => p.install(all),
        None => all(),
    };
    for (g, (_, w)) in got.iter().zip(&v) {
        expect(*g, *w, "sectors in parallel");
    }
    probe("check.nested");
}

/// A caller with a bad argument must not disturb the others.
fn clumsy(p: Option<Pool>) {
    let n = match choose(5) {
        0 => 0,
        1 => SECTOR_SIZE - 1,
        2 => SECTOR_SIZE + 1,
        3 => SECTOR_SIZE - 64 * choose(1000) as usize - 64,
        _ => SECTOR_SIZE * 2,
    };
    let d = vec![1u8; n];
    fault("panic");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| root_in(&p, &d)));
    // what it answers is its own affair; what matters is what it leaves behind
    kernel::log("clumsy", r.is_err() as u64, 0);
    probe("check.bad_length");
    if choose(2) == 0 {
        let (d, kind) = gen_sector();
        expect(root_in(&p, &d), Tree::new(&d).root(), kind);
        probe("check.after_panic");
    }
}

fn s05() {
    kernel::set_granularity([0, 20000, 3000, 500, 100][choose(5) as usize]);
    // points at allocations and, in the fine build, at memory accesses
    let fine = choose(4) > 0;
    if fine {
        kernel::set_mem_granularity([1_000_000, 200_000, 30_000, 5_000][choose(4) as usize]);
    }
    let mut ws = Vec::new();
    let mut pools = Vec::new();
    for k in 0..1 + [0, 0, 0, 0, 1, 1, 2][choose(7) as usize] {
        let n = match choose(12) {
            0..=2 => 1,
            3..=5 => 2,
            6..=8 => 3 + choose(2),
            9 | 10 => 1 + choose(8),
            _ if choose(2) == 0 => 9 + choose(16),
            _ => 9 + choose(72),
        } as usize;
        if n > 8 {
            probe("check.workers_9_80");
        }
        probe(if n == 1 { "check.workers_1" } else { "check.workers_many" });
        note("pool", || format!("{n} workers"));
        pools.push(Arc::new(pool(n, k, fine, &mut ws)));
    }
    if pools.len() > 1 {
        probe("check.two_pools");
    }
    pools[0].sim_make_default();
    let mut hs = Vec::new();
    let callers = 1 + [0, 0, 1, 2, 3][choose(5) as usize];
    if callers > 1 {
        probe("check.concurrent");
    }
    for i in 0..callers {
        let p = match choose(4) {
            0 => None,
            _ => Some(pools[choose(pools.len() as u64) as usize].clone()),
        };
        let (name, f): (_, fn(Option<Pool>)) = match choose(8) {
            0 => ("nested", nested),
            1 | 2 if callers > 1 => ("clumsy", clumsy),
            _ => ("caller", caller),
        };
        hs.push(kernel::spawn(&format!("{name}{i}"), move || f(p)));
    }
    for h in hs {
        join(h, "caller");
    }
    rayon_core::ThreadPool::sim_no_default();
    drop(pools);
    for h in ws {
        join(h, "worker");
    }
}
