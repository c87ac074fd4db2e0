//! S10: one address for the same terms, whoever computes it and whatever was
//! disclosed; another one for other terms.
use super::*;
use crate::io::{self, End};
use crate::kernel::{chance, fault, note, probe, raw, sample};
use crate::model::*;
use sia::types as st;
use st::v2::SpendPolicy as P;

pub const S10: Scenario = Scenario {
    id: "S10",
    f: s10,
    batch: 80,
    quick: 3600,
    rule: "A run gives generated spend policies and unlock conditions to one to three parties, who disclose parts of them, pass them on in binary, in JSON, in transactions and as text, store them, crash and restart, while others compute the address of the same value; then a condition, key, count, order or threshold is changed.",
    real: &["policy and unlock condition addresses, Merkle accumulator, constructors, encoders, decoders, JSON, text forms, BLAKE2b (with scheduling points)"],
    stub: &[STREAMS, SCHED],
    must_reach: &[
        "check.in_place", "check.disclose", "check.hop", "check.json_hop", "check.txn_hop", "check.text", "check.stored", "check.torn",
        "check.shared", "check.changed", "check.uc", "check.uc_many", "check.order", "check.dup", "check.build",
    ],
};

fn arr<T: AsRef<[u8]>>(h: &T) -> [u8; 32] {
    h.as_ref().try_into().expect("32 bytes")
}

fn same(got: &st::Address, want: &[u8; 32], what: impl FnOnce() -> String) {
    check(arr(got) == *want, "wrong-address", || {
        format!("address {} and not {}: {}", hex::encode(arr(got)), hex::encode(want), short(&what()))
    });
}

/// Builds it the way a program does, where that is allowed.
#[allow(deprecated)]
fn build(m: &Pol) -> P {
    match m {
        Pol::Above(h) => P::above(*h),
        Pol::After(t) => P::after(t.real()),
        Pol::Pk(k) => P::public_key(k.real()),
        Pol::Hash(h) => P::hash(h.real()),
        Pol::Thresh(n, v) if v.iter().any(|p| matches!(p, Pol::Uc(_))) => P::Threshold(*n, v.iter().map(build).collect()),
        Pol::Thresh(n, v) => P::threshold(*n, v.iter().map(build).collect()),
        Pol::Opaque(a) => P::Opaque(a.real()),
        Pol::Uc(u) => P::unlock_conditions(u.real()),
    }
}

/// Replaces conditions, somewhere inside, by their addresses.
fn disclose(p: &mut P, root: bool, den: u64, n: &mut u64) {
    if !root && chance(1, den) {
        let a = p.address();
        *p = P::Opaque(a);
        *n += 1;
        return;
    }
    if let P::Threshold(_, v) = p {
        if v.len() > 20 {
            // one of many
            let i = choose(v.len() as u64) as usize;
            disclose(&mut v[i], false, den, n);
        } else {
            v.iter_mut().for_each(|q| disclose(q, false, den, n));
        }
    }
}
fn disclose_model(p: &mut Pol, root: bool, den: u64) {
    if !root && chance(1, den) {
        *p = Pol::Opaque(Addr(p.address()));
        return;
    }
    if let Pol::Thresh(_, v) = p {
        if v.len() <= 20 {
            v.iter_mut().for_each(|q| disclose_model(q, false, den));
        }
    }
}

fn party(m: Pol, hops: u64, json: bool) {
    let want = m.address();
    let mut p: P = if choose(2) == 0 {
        probe("check.build");
        build(&m)
    } else {
        m.real()
    };
    same(&p.address(), &want, || format!("{m:?}"));
    for _ in 0..hops {
        match choose(7) {
            0 | 1 => {
                let mut n = 0;
                disclose(&mut p, true, 2 + choose(4), &mut n);
                if n > 0 {
                    probe("check.disclose");
                }
                kernel::log("disclose", n, 0);
            }
            2 if json => {
                probe("check.json_hop");
                p = shipj(&p, "a policy");
            }
            3 => {
                probe("check.txn_hop");
                p = in_txn(p, json && choose(2) == 0);
            }
            4 => {
                // as the address it stands for
                probe("check.text");
                let t = p.address().to_string();
                check(t == addr_text(&want), "wrong-text", || format!("{t} and not {}", addr_text(&want)));
                let a = must(st::Address::parse_string(&t), "transfer", "reading an address");
                same(&a, &want, || format!("text {t}"));
                if chance(1, 4) {
                    same(&P::Opaque(a).address(), &want, || "opaque".into());
                }
            }
            5 => p = stored(p),
            _ => {
                probe("check.hop");
                p = ship2(&p, "a policy");
            }
        }
        same(&p.address(), &want, || format!("{p:?} of {m:?}"));
    }
}

fn in_txn(p: P, json: bool) -> P {
    let mut g = G::new(300);
    g.json = true;
    g.large = false;
    let mut t = Txn::empty();
    let mut i = ScInput::gen(&mut g);
    i.satisfied_policy.policy = Pol::Above(0);
    t.siacoin_inputs.push(i);
    let mut r: st::v2::Transaction = t.real();
    r.siacoin_inputs[0].satisfied_policy.policy = p;
    let mut r = if json { shipj(&r, "a transaction") } else { ship2(&r, "a transaction") };
    r.siacoin_inputs.remove(0).satisfied_policy.policy
}

/// Writes it to a disk that may lose power.
fn stored(p: P) -> P {
    use sia::encoding::{SiaDecodable, SiaEncodable};
    let d = io::disk();
    {
        let mut w = io::create(&d, "policy", false, End::Never);
        must(p.encode(&mut w), "transfer", "storing a policy");
    }
    let whole = d.lock().unwrap().read("policy").unwrap_or_default();
    let synced = choose(2) == 1;
    if synced {
        d.lock().unwrap().sync("policy");
    }
    if choose(2) == 1 {
        d.lock().unwrap().crash();
    }
    let data = d.lock().unwrap().read("policy").unwrap_or_default();
    let torn = data.len() < whole.len();
    check(!(torn && synced), "transfer", || "the simulated disk lost synced data".into());
    let mut r = Src::new(Arc::new(data), Flow::gen(), End::Never);
    match P::decode(&mut r) {
        Ok(q) => {
            check(!torn, "torn-accepted", || format!("{} of {} bytes of {p:?} read as {q:?}", r.pos, whole.len()));
            probe("check.stored");
            q
        }
        Err(e) => {
            check(torn, "transfer", || format!("restoring {p:?}: {e:?}"));
            probe("check.torn");
            p
        }
    }
}

fn differ(a: &[u8; 32], b: &[u8; 32], what: impl FnOnce() -> String) {
    check(a != b, "same-address", || format!("{} is the address of both: {}", hex::encode(a), short(&what())));
}

/// Other terms.
fn changed(m: &Pol, g: &mut G) {
    let old = m.address();
    let real_old = arr(&ToReal::<P>::real(m).address());
    let mut n = m.clone();
    let what = match choose(5) {
        0 => {
            n = Pol::Thresh(choose(3) as u8, vec![n]);
            "[wrapped]".to_string()
        }
        1 => match &mut n {
            Pol::Thresh(_, v) if v.len() > 1 => {
                let i = choose(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
                probe("check.order");
                format!("[swapped {i}]")
            }
            Pol::Uc(u) if u.public_keys.len() > 1 => {
                let i = choose(u.public_keys.len() as u64 - 1) as usize;
                u.public_keys.swap(i, i + 1);
                probe("check.order");
                format!("[swapped key {i}]")
            }
            _ => {
                n = Pol::Thresh(1, vec![n]);
                "[wrapped]".to_string()
            }
        },
        2 => match &mut n {
            Pol::Thresh(_, v) if !v.is_empty() && v.len() < 255 => {
                let x = v[v.len() - 1].clone();
                v.push(x);
                probe("check.dup");
                "[last repeated]".to_string()
            }
            Pol::Uc(u) if !u.public_keys.is_empty() => {
                let x = u.public_keys[u.public_keys.len() - 1].clone();
                u.public_keys.push(x);
                probe("check.dup");
                "[last key repeated]".to_string()
            }
            _ => {
                n = Pol::Thresh(1, vec![n.clone(), n]);
                "[twice]".to_string()
            }
        },
        _ => {
            let mut p = String::new();
            n.mutate(g, &mut p);
            p
        }
    };
    let new = n.address();
    let r: P = n.real();
    same(&r.address(), &new, || format!("{n:?}, changed at {what}"));
    if new != old {
        probe("check.changed");
        differ(&arr(&r.address()), &real_old, || format!("{m:?} and, changed at {what}, {n:?}"));
    }
    // what is disclosed of the changed terms has the changed address
    disclose_model(&mut n, true, 3);
    let r: P = n.real();
    same(&r.address(), &new, || format!("{n:?}, disclosed"));
}

fn gen_uc(g: &mut G) -> UnlockConditions {
    let mut u = UnlockConditions::gen(g);
    let n = match choose(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3 + choose(6),
        4 => [7, 8, 14, 15, 16, 30, 31][choose(7) as usize],
        5 => 32 + choose(40),
        6 => [62, 63, 64, 126, 127, 128, 254, 255, 256][choose(9) as usize],
        _ => return u,
    } as usize;
    u.public_keys.truncate(n);
    while u.public_keys.len() < n {
        let k = if u.public_keys.is_empty() || chance(2, 3) {
            UnlockKey::gen(g)
        } else {
            probe("check.dup");
            u.public_keys[choose(u.public_keys.len() as u64) as usize].clone()
        };
        u.public_keys.push(k);
    }
    u
}

#[allow(deprecated)]
fn conditions(u: UnlockConditions, json: bool) {
    let want = u.address();
    probe("check.uc");
    if u.public_keys.len() > 4 {
        probe("check.uc_many");
    }
    let mut r: st::v1::UnlockConditions = u.real();
    if choose(2) == 0 {
        r = st::v1::UnlockConditions::new(r.timelock, r.public_keys, r.signatures_required);
    }
    same(&r.address(), &want, || format!("{u:?}"));
    for _ in 0..1 + choose(4) {
        match choose(5) {
            0 => r = ship1(&r, "unlock conditions"),
            1 => r = ship2(&r, "unlock conditions"),
            2 if json => r = shipj(&r, "unlock conditions"),
            3 => {
                let p = P::unlock_conditions(r.clone());
                same(&p.address(), &want, || format!("as a policy: {u:?}"));
                let p = P::Threshold(1, vec![p]);
                let o = P::Threshold(1, vec![P::Opaque(r.address())]);
                check(p.address() == o.address(), "wrong-address", || format!("inside a policy: {u:?}"));
            }
            _ => kernel::yield_point("uc"),
        }
        same(&r.address(), &want, || format!("{u:?}"));
    }
    if u.public_keys.len() == 1 && u.timelock == 0 && u.signatures_required == 1 {
        probe("check.standard");
    }
}

fn standard() {
    let mut s = [0; 32];
    crate::choice::Rng::new(raw()).fill(&mut s);
    let sk = sia::signing::PrivateKey::from_seed(&s);
    let pk = sk.public_key();
    let u = UnlockConditions { timelock: 0, public_keys: vec![UnlockKey::ed25519(arr(&pk))], signatures_required: 1 };
    let r = st::v1::UnlockConditions::standard_unlock_conditions(pk);
    check(r == u.real(), "wrong-standard", || format!("{r:?}"));
    probe("check.standard");
    conditions(u, choose(2) == 1);
}

/// Policies and conditions in one place, replaced between questions.
fn places(json: bool) {
    let mut g = G::new(1500);
    g.json = json;
    probe("check.in_place");
    let mut m = Pol::gen(&mut g);
    let mut slot: Box<P> = Box::new(m.real());
    let mut u = gen_uc(&mut g);
    let mut uc: Box<st::v1::UnlockConditions> = Box::new(u.real());
    for _ in 0..3 + choose(12) {
        match choose(7) {
            0 => {
                g.budget = 600;
                m = Pol::gen(&mut g);
                *slot = m.real();
            }
            1 => {
                m.mutate(&mut g, &mut String::new());
                *slot = m.real();
            }
            2 => {
                if let (Pol::Thresh(n, _), P::Threshold(k, _)) = (&mut m, &mut *slot) {
                    *n = n.wrapping_add(1);
                    *k = k.wrapping_add(1);
                }
            }
            3 => {
                u.mutate(&mut g, &mut String::new());
                *uc = u.real();
            }
            4 => {
                u.timelock = gen_u64();
                uc.timelock = u.timelock;
            }
            5 => same(&uc.address(), &u.address(), || format!("in place: {u:?}")),
            _ => same(&slot.address(), &m.address(), || format!("in place: {m:?}")),
        }
    }
    same(&uc.address(), &u.address(), || format!("in place: {u:?}"));
    same(&slot.address(), &m.address(), || format!("in place: {m:?}"));
}

fn s10() {
    kernel::set_granularity([0, 0, 200, 30, 6][choose(5) as usize]);
    let mut hs = Vec::new();
    for i in 0..1 + choose(3) {
        let json = choose(2) == 1;
        let mut g = G::new(2000);
        g.json = json;
        g.large = choose(4) == 3;
        match choose(8) {
            0 | 1 => {
                let u = gen_uc(&mut g);
                note("uc", || short(&format!("{u:?}")));
                sample(|| format!("unlock conditions: {}", short(&format!("{u:?}"))));
                let other = u.clone();
                hs.push(kernel::spawn(&format!("uc{i}"), move || conditions(u, json)));
                changed(&Pol::Uc(other), &mut g);
            }
            2 => hs.push(kernel::spawn(&format!("standard{i}"), standard)),
            3 => hs.push(kernel::spawn(&format!("places{i}"), move || places(json))),
            _ => {
                let mut m = Pol::gen(&mut g);
                if !json && m.count() < 900 && chance(1, 6) {
                    if let Pol::Thresh(_, v) = &mut m {
                        let at = choose(v.len() as u64 + 1) as usize;
                        v.insert(at, Pol::Uc(gen_uc(&mut g)));
                        v.truncate(255);
                    }
                }
                let hops = 1 + choose(7);
                note("policy", || short(&format!("{m:?}")));
                sample(|| format!("policy over {hops} hops: {}", short(&format!("{m:?}"))));
                if chance(1, 3) {
                    probe("check.shared");
                    let a = Arc::new(ToReal::<P>::real(&m));
                    let want = m.address();
                    for j in 0..1 + choose(2) {
                        let a = a.clone();
                        hs.push(kernel::spawn(&format!("look{i}.{j}"), move || same(&a.address(), &want, || format!("{a:?}"))));
                    }
                }
                if m.count() < 200 {
                    changed(&m, &mut g);
                }
                hs.push(kernel::spawn(&format!("party{i}"), move || party(m, hops, json)));
                if chance(1, 6) {
                    // someone who gives up has no effect on the others
                    let m2 = Pol::gen(&mut G::new(800));
                    let h = kernel::spawn(&format!("leaver{i}"), move || party(m2, 6, false));
                    kernel::sleep(1 + raw() % 100_000);
                    fault("cancel");
                    kernel::cancel(h.tid());
                    hs.push(h);
                }
            }
        }
    }
    for h in hs {
        join(h, "party");
    }
}
