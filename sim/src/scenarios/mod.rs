//! One scenario per property.
mod chain;
mod codec;
mod docs;
mod mixed;
mod policy;
mod sector;
mod txn;
mod wallet;

use crate::io::{Flow, Sink, Src};
use crate::kernel::{self, choose};
use crate::model::G;
use sia::encoding::{SiaDecodable, SiaEncodable, V1SiaDecodable, V1SiaEncodable};
use std::fmt::Debug;
use std::sync::Arc;

pub struct Scenario {
    pub id: &'static str,
    pub f: fn(),
    /// Runs in one process.
    pub batch: u64,
    /// Batches of a quick check.
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub must_reach: &'static [&'static str],
}

pub const TABLE: &[Scenario] = &[
    codec::S01, codec::S02, codec::S03, docs::S04, sector::S05, mixed::S06, txn::S07, txn::S08,
    chain::S09, policy::S10, wallet::S11, wallet::S12, txn::S13, chain::S14,
];

pub const STREAMS: &str = "byte streams, pipes between parties and files: simulated";
pub const SCHED: &str = "task scheduling, clock and timers: simulated";

/// The result of code under test that has to succeed.
pub fn must<T, E: Debug>(r: Result<T, E>, class: &str, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(e) => crate::violation(class, format!("{what}: {e:?}")),
    }
}

pub fn check(ok: bool, class: &str, detail: impl FnOnce() -> String) {
    if !ok {
        crate::violation(class, detail());
    }
}

pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 31;
    }
    h
}

pub fn short(s: &str) -> String {
    let n = s.chars().count();
    if n <= 700 {
        return s.to_string();
    }
    let head: String = s.chars().take(500).collect();
    let tail: String = s.chars().skip(n - 150).collect();
    format!("{head} ... {tail}")
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex::encode(b)
    } else {
        format!("{}..{} ({} bytes)", hex::encode(&b[..100]), hex::encode(&b[b.len() - 30..]), b.len())
    }
}

/// Sends a value to another party in the current encoding.
pub fn ship2<R: SiaEncodable + SiaDecodable>(m: &R, what: &str) -> R {
    ship_with(|w| m.encode(w), |r| R::decode(r), what)
}

pub fn ship_with<R>(
    enc: impl FnOnce(&mut Sink) -> sia::encoding::Result<()>,
    dec: impl FnOnce(&mut Src) -> sia::encoding::Result<R>,
    what: &str,
) -> R {
    let mut w = Sink::new(Flow::gen().for_size(30_000), crate::io::End::Never);
    must(enc(&mut w), "transfer", &format!("writing {what}"));
    kernel::log("ship", digest(&w.out), w.out.len() as u64);
    let n = w.out.len();
    let mut r = Src::new(Arc::new(w.out), Flow::gen().for_size(n), crate::io::End::Never);
    let v = must(dec(&mut r), "transfer", &format!("reading {what}"));
    check(r.pos == n, "transfer", || format!("{what}: {} of {n} bytes read", r.pos));
    v
}

pub fn ship1<R: V1SiaEncodable + V1SiaDecodable>(m: &R, what: &str) -> R {
    ship_with(|w| m.encode_v1(w), |r| R::decode_v1(r), what)
}

/// Sends it as a document.
pub fn shipj<R: serde::Serialize + serde::de::DeserializeOwned>(m: &R, what: &str) -> R {
    let mut w = Sink::new(Flow::gen().for_size(30_000), crate::io::End::Never);
    let r = if choose(2) == 0 {
        serde_json::to_writer(&mut w, m)
    } else {
        serde_json::to_writer_pretty(&mut w, m)
    };
    must(r, "transfer", &format!("writing {what} as JSON"));
    kernel::log("shipj", digest(&w.out), w.out.len() as u64);
    let n = w.out.len();
    match choose(3) {
        0 => must(serde_json::from_slice(&w.out), "transfer", &format!("reading {what} as JSON")),
        1 => {
            let v: serde_json::Value =
                must(serde_json::from_slice(&w.out), "transfer", &format!("reading {what} as JSON"));
            must(serde_json::from_value(v), "transfer", &format!("reading {what} from a JSON value"))
        }
        _ => {
            let r = Src::new(Arc::new(w.out), Flow::gen().for_size(n * 4), crate::io::End::Never);
            must(serde_json::from_reader(r), "transfer", &format!("reading {what} as JSON"))
        }
    }
}

/// A generator whose values are small enough to be sent around a lot.
pub fn small() -> G {
    let mut g = G::new(3000);
    g.large = choose(6) == 5;
    g
}

pub fn join<T>(h: kernel::Handle<T>, name: &str) -> Option<T> {
    match h.join() {
        kernel::Outcome::Ok(v) => Some(v),
        kernel::Outcome::Cancelled => None,
        kernel::Outcome::Panicked(t) => crate::task_panicked(name, &t),
    }
}
