//! S04: JSON documents and text forms through storage and transport.
use super::*;
use crate::io::{self, End, KINDS};
use crate::kernel::{chance, fault, note, probe, raw, sample};
use crate::model::*;
use crate::registry::{docs, Doc, DocReal, DocVal};
use num_bigint::BigUint;
use serde_json::Value;
use std::io::{BufReader, Write};

pub const S04: Scenario = Scenario {
    id: "S04",
    f: s04,
    batch: 100,
    quick: 2400,
    rule: "A run lets one to three parties write generated values of all document types as JSON (compact, pretty, one after another on one stream, to files) and as text, over streams that fragment, stall, interrupt, end and fail and disks that crash, read them back, read what other writers would send, and read documents whose fields, types, numbers, texts or bytes were damaged.",
    real: &["JSON and text forms of all types, serde_json"],
    stub: &[STREAMS, SCHED],
    must_reach: &[
        "check.written", "check.stream", "check.ndjson", "check.foreign", "check.cut", "check.every_cut", "check.read_error", "check.write_error",
        "check.file_torn", "check.file_whole", "check.must_reject", "check.must_accept", "check.may_accept", "check.flipped", "check.cross",
        "check.garbage", "check.text", "check.text_damaged", "io.interrupted", "io.short", "crash",
    ],
};

// ------------------------------------------------------------- damages

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    /// It cannot be read.
    Reject,
    /// It is read as what it says.
    Accept,
    /// It is rejected, or read as what it says.
    Free,
}
use Verdict::*;

struct Damaged {
    sent: J,
    /// What an accepted document denotes.
    meant: J,
    verdict: Verdict,
    what: String,
}

const TRUE: &str = "true";

fn raw_j(s: &str) -> J {
    J::Raw(s.into())
}

fn hexdigit() -> char {
    b"0123456789abcdef"[choose(16) as usize] as char
}

/// Another string of the same length, changed at one place.
fn with_char(s: &str, i: usize, c: char) -> String {
    let mut v: Vec<char> = s.chars().collect();
    v[i] = c;
    v.into_iter().collect()
}
fn other_hex(s: &str, from: usize) -> String {
    let i = from + choose((s.len() - from) as u64) as usize;
    loop {
        let c = hexdigit();
        if c as u8 != s.as_bytes()[i] {
            return with_char(s, i, c);
        }
    }
}
fn non_hex() -> char {
    ['g', ' ', '-', 'G', 'é', '/', ':', '\0', 'x', '+'][choose(10) as usize]
}
/// Damages of hex text that make it no hex text of this length.
fn bad_hex(s: &str, from: usize) -> String {
    let n = s.len();
    match choose(6) {
        0 => s[..n - 1].to_string(),
        1 => s[..n - 2].to_string(),
        2 => format!("{s}0"),
        3 => format!("{s}00"),
        4 => s[..from].to_string(),
        _ => {
            let c = non_hex();
            let i = from + choose((n - from) as u64) as usize;
            // a colon ends a prefix
            with_char(s, i, if c == ':' { 'y' } else { c })
        }
    }
}

/// A damaged text of this kind.
fn damage_text(s: &str, k: &Leafk) -> (String, Verdict, &'static str) {
    let n = s.len();
    if chance(1, 12) && !matches!(k, Leafk::Text | Leafk::Cur | Leafk::Work | Leafk::Key | Leafk::Tag) {
        // base64 may be broken into lines: no line ends
        let c = [" ", "\t", "\0", "\u{a0}", ",", "\""][choose(6) as usize];
        let t = match choose(3) {
            0 => format!("{c}{s}"),
            1 => format!("{s}{c}"),
            _ => format!("{s}{c}{s}"),
        };
        return (t, Reject, "another character");
    }
    match k {
        Leafk::Hash | Leafk::Hex64 => match choose(6) {
            0 | 1 => (other_hex(s, 0), Accept, "hex digit"),
            2 => (s.to_uppercase(), Free, "upper case"),
            3 => (format!("h:{s}"), Free, "prefix"),
            _ => (bad_hex(s, 0), Reject, "not hex"),
        },
        Leafk::Addr => match choose(6) {
            0 | 1 => (other_hex(s, 0), Reject, "address digit"),
            2 => (other_hex(s, 64), Reject, "checksum digit"),
            3 => (s.to_uppercase(), Free, "upper case"),
            4 => (s[..64].to_string(), Reject, "no checksum"),
            _ => (bad_hex(s, 0), Reject, "not hex"),
        },
        Leafk::Pk => match choose(6) {
            0 | 1 => (other_hex(s, 8), Accept, "hex digit"),
            2 => (format!("ed25518:{}", &s[8..]), Reject, "algorithm"),
            3 => (s[8..].to_string(), Free, "no prefix"),
            4 => (s.replacen("ed25519", "ED25519", 1), Free, "prefix case"),
            _ => (bad_hex(s, 8), Reject, "not hex"),
        },
        Leafk::Cur | Leafk::Work => {
            let max = if *k == Leafk::Cur { BigUint::from(u128::MAX) } else { (BigUint::from(1u8) << 256) - 1u8 };
            match choose(12) {
                0 | 1 => {
                    let i = choose(n as u64) as usize;
                    let t = with_char(s, i, (b'0' + choose(10) as u8) as char);
                    let fits = t.parse::<BigUint>().expect("digits") <= max;
                    let v = if !fits {
                        Reject
                    } else if t.len() > 1 && t.starts_with('0') {
                        Free
                    } else {
                        Accept
                    };
                    (t, v, "digit")
                }
                2 => ((max + 1u8 + choose(300)).to_string(), Reject, "too large"),
                3 => ((max + 1u8) .to_string() + "0", Reject, "too large"),
                4 => (format!("-{s}"), Reject, "negative"),
                5 => (String::new(), Reject, "empty"),
                6 => (format!("{s}.5"), Reject, "fraction"),
                7 => {
                    let i = choose(n as u64 + 1) as usize;
                    let t = format!("{}e{}", &s[..i], &s[i..]);
                    (t, Reject, "letter")
                }
                8 => (format!("{s}{}", [" ", "H", " H", "\n"][choose(4) as usize]), Free, "trailing"),
                9 => (format!("0{s}"), Free, "leading zero"),
                10 => (format!("+{s}"), Free, "plus"),
                _ if *k == Leafk::Cur => {
                    let u = ["pS", "nS", "uS", "mS", "SC", "KS", "MS", "GS", "TS", "H", "sc", "XS", "ms"][choose(13) as usize];
                    let mut m = s[..n.min(1 + choose(n as u64) as usize)].to_string();
                    if choose(2) == 1 {
                        m.push('.');
                        for _ in 0..choose(40) {
                            m.push((b'0' + choose(10) as u8) as char);
                        }
                    }
                    let sp = ["", " "][choose(2) as usize];
                    (format!("{m}{sp}{u}"), Free, "unit")
                }
                _ => (format!("0x{s}"), Free, "hexadecimal"),
            }
        }
        Leafk::B64 => {
            const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            if n == 0 {
                return match choose(3) {
                    0 => ("=".into(), Reject, "padding alone"),
                    1 => ("A".into(), Reject, "one character"),
                    _ => ("AAAA".into(), Accept, "three bytes"),
                };
            }
            let padded = s.ends_with('=');
            match choose(5) {
                0 | 1 => {
                    let i = choose(n as u64) as usize;
                    let t = with_char(s, i, A[choose(64) as usize] as char);
                    if padded && i + 4 >= n {
                        (t, Free, "last characters")
                    } else {
                        (t, Accept, "character")
                    }
                }
                2 => {
                    let i = choose(n as u64) as usize;
                    (with_char(s, i, ['!', '-', '_', '*', 'é', '\0', '.'][choose(7) as usize]), Reject, "not base64")
                }
                3 => (s[..n - 1].to_string(), if padded { Free } else { Reject }, "cut"),
                _ => (format!("{s}="), Reject, "padding"),
            }
        }
        Leafk::Time => match choose(13) {
            0 => (format!("{}13{}", &s[..5], &s[7..]), Reject, "month 13"),
            1 => (format!("{}00{}", &s[..5], &s[7..]), Reject, "month 0"),
            2 => (format!("{}32{}", &s[..8], &s[10..]), Reject, "day 32"),
            3 => (format!("{}02-30{}", &s[..5], &s[10..]), Reject, "Feb 30"),
            4 => (format!("{}25{}", &s[..11], &s[13..]), Reject, "hour 25"),
            5 => (format!("{}60{}", &s[..14], &s[16..]), Reject, "minute 60"),
            6 => (s[..n - 1].to_string(), Reject, "no zone"),
            7 => (s[..choose(n as u64) as usize].to_string(), Reject, "cut"),
            8 => (format!("1{s}"), Reject, "five digits of year"),
            9 => ("yesterday".into(), Reject, "garbage"),
            10 => (format!("{}+01:30", &s[..n - 1]), Free, "offset"),
            11 => (s.to_lowercase(), Free, "lower case"),
            _ => {
                let at: Vec<usize> = s.bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|x| x.0).collect();
                let i = at[choose(at.len() as u64) as usize];
                (with_char(s, i, (b'0' + choose(10) as u8) as char), Free, "digit")
            }
        },
        Leafk::Text => match choose(3) {
            0 => (String::new(), Accept, "text"),
            1 => (format!("{s}\u{0}\"\\\u{1F600}"), Accept, "text"),
            _ => ("null".into(), Accept, "text"),
        },
        Leafk::Key => {
            let (a, h) = s.split_once(':').expect("a colon");
            match choose(9) {
                0 => (format!("{a}{h}"), Reject, "no colon"),
                1 => (format!("{s}0"), Reject, "odd"),
                2 => (format!("{a}:{h}zz"), Reject, "not hex"),
                3 => (format!("{a}:{}", h.to_uppercase()), Free, "upper case"),
                4 => (format!("ed25518:{h}"), Accept, "algorithm"),
                5 => (format!("{a}:"), Accept, "no key"),
                6 => (format!(":{h}"), Accept, "no algorithm"),
                7 => (format!("{a}:{h}00"), Accept, "longer key"),
                _ => (format!("{a}{}:{h}", "x".repeat(17 - a.len().min(16))), Reject, "long algorithm"),
            }
        }
        Leafk::Tag => match choose(5) {
            0 => (String::new(), Reject, "empty tag"),
            1 => (s.to_uppercase(), Reject, "case of the tag"),
            2 => (format!("{s}x"), Reject, "unknown tag"),
            3 => (format!("{s}\0"), Reject, "unknown tag"),
            _ => {
                let t = [
                    "above", "after", "pk", "h", "thresh", "opaque", "uc", "renewal", "storageProof", "expiration", "finalization",
                ][choose(11) as usize];
                (t.into(), Free, "another tag")
            }
        },
    }
}

/// Damages one node.
fn damage_leaf(j: &J) -> Damaged {
    let mk = |sent: J, verdict: Verdict, what: &str| Damaged { meant: sent.clone(), sent, verdict, what: what.into() };
    match j {
        J::Raw(_) => mk(j.clone(), Free, "nothing"),
        J::Bool(b) => match choose(3) {
            0 => mk(J::Bool(!b), Accept, "flipped"),
            _ => mk(raw_j(["null", "\"true\"", "2", "1", "0", "[]", "\"\""][choose(7) as usize]), Reject, "type"),
        },
        J::Num(n, max) => {
            let (text, v) = match choose(9) {
                0 => ("-1".to_string(), Reject),
                1 => ("1.5".to_string(), Reject),
                2 => ("1e400".to_string(), Reject),
                3 => ("18446744073709551616".to_string(), Reject),
                4 => (["null", "true", "{}", "[]", "\"\"", "\"x\""][choose(6) as usize].to_string(), Reject),
                5 => ([format!("\"{n}\""), format!("{n}.0"), format!("{n}e0")][choose(3) as usize].clone(), Free),
                6 if *max != 0 && *max < u64::MAX => ((max + 1 + choose(3)).to_string(), Reject),
                _ => {
                    let m = if choose(2) == 0 { gen_u64() } else { n.wrapping_add(1) };
                    let ok = if *max == 0 { (TMIN..=TMAX).contains(&(m as i64)) } else { m <= *max };
                    return mk(J::Num(m, *max), if ok { Accept } else { Reject }, "number");
                }
            };
            mk(J::Raw(text.clone()), v, &format!("number {text}"))
        }
        J::Str(s, k) => {
            if chance(1, 5) {
                let t = ["null", "true", "17", "[]", "{}", "[\"\"]", "{\"a\":1}", "-1", "1.5"][choose(9) as usize];
                let number = t.parse::<f64>().is_ok();
                let v = match k {
                    Leafk::B64 | Leafk::Addr | Leafk::Text if t == "null" => Free,
                    // serde reads an enum or a sequence of numbers in other ways too
                    Leafk::Cur | Leafk::Work if number => Free,
                    _ => Reject,
                };
                return mk(raw_j(t), v, &format!("type {t}"));
            }
            let (t, v, what) = damage_text(s, k);
            mk(J::Str(t.clone(), k.clone()), if t == *s { Accept } else { v }, what)
        }
        J::Arr(items, fixed) => {
            let mut v = items.clone();
            let n = v.len();
            let v255 = n == 255; // a threshold may hold no more
            match choose(7) {
                0 if n > 0 => {
                    v.remove(choose(n as u64) as usize);
                    mk(J::Arr(v, *fixed), if fixed.is_some() { Reject } else { Accept }, "element removed")
                }
                1 if n > 0 => {
                    let i = choose(n as u64) as usize;
                    v.insert(i, v[i].clone());
                    mk(J::Arr(v, *fixed), if fixed.is_some() { Reject } else if v255 { Free } else { Accept }, "element repeated")
                }
                2 if n > 1 => {
                    let i = choose(n as u64 - 1) as usize;
                    v.swap(i, i + 1);
                    mk(J::Arr(v, *fixed), Accept, "elements exchanged")
                }
                3 if n > 0 => {
                    let i = choose(n as u64) as usize;
                    let free = matches!(v[i], J::Str(_, Leafk::B64 | Leafk::Cur));
                    v[i] = raw_j("null");
                    mk(J::Arr(v, *fixed), if free { Free } else { Reject }, "null element")
                }
                4 if n > 0 && fixed.is_some() => mk(J::Arr(vec![], *fixed), Reject, "emptied"),
                5 => mk(raw_j("null"), Free, "null array"),
                _ => mk(raw_j([TRUE, "0", "\"x\"", "{\"0\":1}"][choose(4) as usize]), Reject, "type"),
            }
        }
        J::Obj(f) => {
            let mut sent = f.clone();
            let n = f.len();
            let expired = f.iter().any(|(k, v, _)| k == "type" && matches!(v, J::Str(s, _) if s == "expiration"));
            match choose(5) {
                0 | 1 if n > 0 => {
                    let i = choose(n as u64) as usize;
                    let (name, _, mandatory) = sent.remove(i);
                    let v = if mandatory && !(expired && name == "resolution") { Reject } else { Accept };
                    let v = if expired && name == "resolution" { Free } else { v };
                    mk(J::Obj(sent), v, &format!("{name} left out"))
                }
                2 if n > 0 => {
                    let i = choose(n as u64) as usize;
                    let name = sent[i].0.clone();
                    let other = match choose(4) {
                        0 => name.to_uppercase(),
                        1 => format!("{name}s"),
                        2 => format!("_{name}"),
                        _ => name[1..].to_string(),
                    };
                    let mandatory = sent[i].2;
                    if f.iter().any(|x| x.0 == other) || other == name {
                        return mk(J::Obj(sent), Free, "nothing");
                    }
                    sent[i].0 = other.clone();
                    let mut meant = f.clone();
                    meant.remove(i);
                    let v = if mandatory && !(expired && name == "resolution") { Reject } else { Free };
                    Damaged { sent: J::Obj(sent), meant: J::Obj(meant), verdict: v, what: format!("{name} named {other}") }
                }
                3 => {
                    let at = choose(n as u64 + 1) as usize;
                    sent.insert(at, ("unheardOf".into(), raw_j(["null", "1", "{\"a\":[1,2]}", "\"x\""][choose(4) as usize]), false));
                    Damaged { sent: J::Obj(sent), meant: j.clone(), verdict: Free, what: "unknown field".into() }
                }
                _ => mk(raw_j(["null", TRUE, "0", "\"x\""][choose(4) as usize]), Reject, "type"),
            }
        }
    }
}

/// Damages a node somewhere inside.
fn damage(j: &J) -> Damaged {
    match j {
        J::Obj(f) if !f.is_empty() && chance(5, 6) => {
            let i = choose(f.len() as u64) as usize;
            let d = damage(&f[i].1);
            let (mut sent, mut meant) = (f.clone(), f.clone());
            sent[i].1 = d.sent;
            meant[i].1 = d.meant;
            let expired = f.iter().any(|(k, v, _)| k == "type" && matches!(v, J::Str(s, _) if s == "expiration"));
            let mut verdict = if expired && f[i].0 == "resolution" { Free } else { d.verdict };
            let null = matches!(&sent[i].1, J::Raw(t) if t == "null");
            if null && !f[i].2 {
                verdict = Free;
            }
            // as many trees as its number of leaves has bits
            if f[i].0 == "numLeaves" {
                let trees = f.iter().find(|x| x.0 == "trees").map_or(0, |t| if let J::Arr(v, _) = &t.1 { v.len() } else { 0 });
                if let J::Num(n, _) = &sent[i].1 {
                    verdict = if n.count_ones() as usize == trees { Accept } else { Reject };
                }
            }
            Damaged { sent: J::Obj(sent), meant: J::Obj(meant), verdict, what: format!("{}: {}", f[i].0, d.what) }
        }
        J::Arr(v, fixed) if !v.is_empty() && chance(3, 4) => {
            let i = choose(v.len() as u64) as usize;
            let d = damage(&v[i]);
            let (mut sent, mut meant) = (v.clone(), v.clone());
            sent[i] = d.sent;
            meant[i] = d.meant;
            Damaged { sent: J::Arr(sent, *fixed), meant: J::Arr(meant, *fixed), verdict: d.verdict, what: format!("[{i}]: {}", d.what) }
        }
        _ => damage_leaf(j),
    }
}

// ---------------------------------------------------------- what is meant

fn pow10(n: u32) -> BigUint {
    BigUint::from(10u8).pow(n)
}

/// Hastings of an amount text, times 10^40.
fn amount(s: &str) -> Option<BigUint> {
    let s = s.trim();
    let at = s.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(s.len());
    let (v, u) = (&s[..at], s[at..].trim());
    let scale = match u {
        "" | "H" => 0,
        "pS" => 12,
        "nS" => 15,
        "uS" => 18,
        "mS" => 21,
        "SC" => 24,
        "KS" => 27,
        "MS" => 30,
        "GS" => 33,
        "TS" => 36,
        _ => return None,
    };
    let (i, f) = v.split_once('.').unwrap_or((v, ""));
    if f.len() > 60 || !f.bytes().all(|b| b.is_ascii_digit()) || i.is_empty() {
        return None;
    }
    let all: BigUint = format!("{i}{f}").parse().ok()?;
    let num = all * pow10(scale + 60 - f.len() as u32);
    let (q, r) = (&num / pow10(20), &num % pow10(20));
    (r == BigUint::from(0u8)).then_some(q)
}

fn instant(s: &str) -> Option<i128> {
    use time::format_description::well_known::Rfc3339;
    time::OffsetDateTime::parse(s, &Rfc3339).ok().map(|t| t.unix_timestamp_nanos())
}

fn text_denotes(s: &str, k: &Leafk, out: &str) -> bool {
    match k {
        Leafk::Hash => {
            let t = s.rsplit(':').next().unwrap_or(s);
            t.eq_ignore_ascii_case(out)
        }
        Leafk::Hex64 | Leafk::Addr => s.rsplit(':').next().unwrap_or(s).eq_ignore_ascii_case(out),
        Leafk::Pk => {
            let t = s.split_once(':').map_or(s, |x| x.1);
            format!("ed25519:{}", t.to_ascii_lowercase()) == out
        }
        Leafk::Cur => {
            let t = s.strip_prefix('+').unwrap_or(s);
            out.bytes().all(|b| b.is_ascii_digit()) && amount(t).is_some() && amount(t) == amount(out)
        }
        Leafk::Work => {
            let t = s.trim();
            let t = t.strip_prefix('+').unwrap_or(t);
            let v: Option<BigUint> = match t.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => t.parse().ok(),
            };
            v.is_some_and(|v| v.to_string() == out)
        }
        Leafk::B64 => {
            if s == out {
                return true;
            }
            let strip = |t: &str| {
                let t = t.trim_end_matches('=').to_string();
                // the bits of the last character that are used may not fill it
                let n = t.len();
                if n % 4 == 0 { (t, 0) } else { (t[..n - 1].to_string(), n) }
            };
            strip(s) == strip(out)
        }
        Leafk::Time => instant(s).is_some() && instant(s) == instant(out),
        Leafk::Text | Leafk::Tag => s == out,
        Leafk::Key => match (s.split_once(':'), out.split_once(':')) {
            (Some((a, h)), Some((b, i))) => a.trim_end_matches('\0') == b && h.eq_ignore_ascii_case(i),
            _ => false,
        },
    }
}

fn empty(j: &J) -> bool {
    match j {
        J::Arr(v, _) => v.is_empty(),
        J::Str(s, k) => s.is_empty() && *k == Leafk::B64,
        J::Raw(t) => ["", "null", "[]", "\"\""].contains(&t.as_str()),
        _ => false,
    }
}

/// Whether the second document says the same as the first.
fn denotes(j: &J, out: &Value) -> Result<(), String> {
    let no = || Err(format!("{} became {out}", j.value()));
    match j {
        J::Obj(f) => {
            let Value::Object(o) = out else { return no() };
            let expired = f.iter().any(|(k, v, _)| k == "type" && matches!(v, J::Str(s, _) if s == "expiration"));
            for (k, v, mandatory) in f {
                if expired && k == "resolution" {
                    continue;
                }
                // the kind of a policy's text follows from its type
                let tag = f.iter().find(|x| x.0 == "type").map(|x| &x.1);
                let typed = match (v, tag) {
                    (J::Str(s, _), Some(J::Str(t, Leafk::Tag))) if k == "policy" => match t.as_str() {
                        "h" => Some(J::Str(s.clone(), Leafk::Hash)),
                        "pk" => Some(J::Str(s.clone(), Leafk::Pk)),
                        "opaque" => Some(J::Str(s.clone(), Leafk::Addr)),
                        _ => None,
                    },
                    _ => None,
                };
                let v = typed.as_ref().unwrap_or(v);
                match o.get(k) {
                    Some(x) => denotes(v, x).map_err(|e| format!("{k}: {e}"))?,
                    None if !mandatory && empty(v) => {}
                    None => return Err(format!("{k} was dropped")),
                }
            }
            for k in o.keys() {
                if !f.iter().any(|x| x.0 == *k) && !(expired && k == "resolution") {
                    return Err(format!("{k} was made up: {}", o[k]));
                }
            }
            Ok(())
        }
        J::Arr(v, _) => {
            let Value::Array(o) = out else { return no() };
            if v.len() != o.len() {
                return Err(format!("{} elements became {}", v.len(), o.len()));
            }
            for (i, (a, b)) in v.iter().zip(o).enumerate() {
                denotes(a, b).map_err(|e| format!("[{i}]: {e}"))?;
            }
            Ok(())
        }
        J::Str(s, k) => match out {
            Value::String(o) if text_denotes(s, k, o) => Ok(()),
            _ => no(),
        },
        J::Num(n, _) => {
            if out.as_u64() == Some(*n) {
                Ok(())
            } else {
                no()
            }
        }
        J::Bool(b) => {
            if *out == Value::Bool(*b) {
                Ok(())
            } else {
                no()
            }
        }
        J::Raw(t) if t.is_empty() => Ok(()),
        J::Raw(t) => {
            let v = j.value();
            if v == *out {
                return Ok(());
            }
            let text = |v: &Value| match v {
                Value::String(s) => s.clone(),
                v => v.to_string(),
            };
            let (a, b) = (text(&v), text(out));
            let num = a.parse::<f64>().ok().zip(b.parse::<f64>().ok()).is_some_and(|(x, y)| x == y);
            if a.eq_ignore_ascii_case(&b) || num {
                return Ok(());
            }
            if t == "null" && (out.as_array().is_some_and(|x| x.is_empty()) || out.as_str() == Some("")) {
                return Ok(());
            }
            no()
        }
    }
}

/// The structure of one document with the contents of another.
fn retag(j: &J, v: &Value) -> J {
    match (j, v) {
        (J::Str(_, k), Value::String(s)) => J::Str(s.clone(), k.clone()),
        (J::Num(_, max), Value::Number(n)) if n.is_u64() => J::Num(n.as_u64().expect("u64"), *max),
        (J::Bool(_), Value::Bool(b)) => J::Bool(*b),
        (J::Arr(a, f), Value::Array(b)) if a.len() == b.len() => {
            J::Arr(a.iter().zip(b).map(|(x, y)| retag(x, y)).collect(), *f)
        }
        (J::Obj(f), Value::Object(o)) => {
            // names it does not know are ignored
            let mut r = vec![];
            for (k, x, m) in f {
                match o.get(k) {
                    Some(y) => r.push((k.clone(), retag(x, y), *m)),
                    None if *m => r.push((k.clone(), raw_j("\"a mandatory field that is missing\""), true)),
                    None => {}
                }
            }
            J::Obj(r)
        }
        // elements were joined or split: which is which is not known
        (J::Arr(..), Value::Array(_)) => J::Raw(String::new()),
        _ => J::Raw(v.to_string()),
    }
}

// ----------------------------------------------------------- foreign writer

fn quote(s: &str, r: &mut crate::choice::Rng, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let z = r.next() % 12;
        if z == 0 || (c as u32) < 0x20 {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if z % 2 == 0 {
                    out.push_str(&format!("\\u{u:04x}"));
                } else {
                    out.push_str(&format!("\\u{u:04X}"));
                }
            }
        } else if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else if c == '/' && z == 1 {
            out.push_str("\\/");
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn space(r: &mut crate::choice::Rng, out: &mut String) {
    const W: [&str; 8] = ["", "", "", "", " ", "\n", "\t ", "\r\n  "];
    out.push_str(W[(r.next() % 8) as usize]);
}

/// The same document, as another program might write it.
fn foreign(j: &J, r: &mut crate::choice::Rng, out: &mut String) {
    space(r, out);
    match j {
        J::Obj(f) => {
            out.push('{');
            let mut order: Vec<usize> = (0..f.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
            for (n, i) in order.into_iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                space(r, out);
                quote(&f[i].0, r, out);
                space(r, out);
                out.push(':');
                foreign(&f[i].1, r, out);
            }
            space(r, out);
            out.push('}');
        }
        J::Arr(v, _) => {
            out.push('[');
            for (n, x) in v.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                foreign(x, r, out);
            }
            space(r, out);
            out.push(']');
        }
        J::Str(s, _) => quote(s, r, out),
        J::Num(n, _) => out.push_str(&n.to_string()),
        J::Bool(b) => out.push_str(&b.to_string()),
        J::Raw(t) => out.push_str(t),
    }
    space(r, out);
}

/// Its text as it stands (keeps numbers that no value holds).
fn plain(j: &J, out: &mut String) {
    match j {
        J::Obj(f) => {
            out.push('{');
            for (n, (k, v, _)) in f.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                out.push_str(&Value::String(k.clone()).to_string());
                out.push(':');
                plain(v, out);
            }
            out.push('}');
        }
        J::Arr(v, _) => {
            out.push('[');
            for (n, x) in v.iter().enumerate() {
                if n > 0 {
                    out.push(',');
                }
                plain(x, out);
            }
            out.push(']');
        }
        J::Raw(t) => out.push_str(t),
        x => out.push_str(&x.value().to_string()),
    }
}

// ----------------------------------------------------------------- reading

type R = Box<dyn DocReal>;

fn same(d: &dyn Doc, got: &dyn DocReal, want: &dyn DocReal, how: &str) {
    check(got.same(want), "round-trip", || {
        format!("{}, {how}: {} became {}", d.name(), short(&want.dbg()), short(&got.dbg()))
    });
}

/// Reads it in any of the ways there are.
fn read_any(d: &dyn Doc, text: &[u8], ways: u64) -> serde_json::Result<R> {
    crate::no_panic("panicked", "reading a document", || match choose(ways) {
        0 | 1 => d.parse(text),
        2 => {
            // the text may hold what no value does
            let v: Value = serde_json::from_slice(text)?;
            d.from_value(v)
        }
        _ => {
            probe("check.stream");
            let n = text.len();
            let mut r = Src::new(Arc::new(text.to_vec()), Flow::gen().for_size(n), End::Never);
            if n > 1500 || choose(2) == 1 {
                d.read(&mut BufReader::with_capacity(1 + choose(9000) as usize, r))
            } else {
                d.read(&mut r)
            }
        }
    })
}

fn text_of(d: &dyn Doc, r: &dyn DocReal, pretty: bool) -> Vec<u8> {
    let mut w = Sink::new(Flow::gen().for_size(30_000), End::Never);
    let res = crate::no_panic("panicked", "writing a document", || r.write(&mut w, pretty));
    must(res, "write", d.name());
    w.out
}

struct Case {
    d: &'static dyn Doc,
    v: Arc<dyn DocVal>,
}

fn gen_case() -> Case {
    let l = docs();
    // the small types are many
    let i = if chance(1, 3) { l.len() as u64 - 1 - choose(32) } else { choose(l.len() as u64) };
    let d = &*l[i as usize];
    let mut g = G::new(match choose(250) {
        249 => 1_500_000,
        _ => [300, 1200, 4000, 16_000][[0, 1, 1, 2, 2, 3][choose(6) as usize]],
    })
    .json();
    g.large = choose(3) == 2;
    let v = d.gen(&mut g);
    note("document", || format!("{} {}", d.name(), short(&v.dbg())));
    Case { d, v }
}

/// Writes it, checks the document and reads it back.
fn written(c: &Case) -> Vec<u8> {
    let real = c.v.real();
    let want = c.v.tree().value();
    let pretty = choose(3) == 2;
    let text = text_of(c.d, &*real, pretty);
    probe("check.written");
    kernel::log("document", digest(&text), text.len() as u64);
    let got: Value = match serde_json::from_slice(&text) {
        Ok(v) => v,
        Err(e) => crate::violation("not-canonical", format!("{}: no JSON: {e}: {}", c.d.name(), short(&String::from_utf8_lossy(&text)))),
    };
    check(got == want, "not-canonical", || {
        format!("{}: {} was written as {} and not as {}", c.d.name(), short(&c.v.dbg()), short(&got.to_string()), short(&want.to_string()))
    });
    if !pretty {
        check(text.len() == want.to_string().len(), "not-canonical", || {
            format!("{}: {} bytes: {}", c.d.name(), text.len(), short(&String::from_utf8_lossy(&text)))
        });
    }
    let v = must(real.value(), "write", c.d.name());
    check(v == want, "not-canonical", || format!("{}: value {} and not {}", c.d.name(), short(&v.to_string()), short(&want.to_string())));
    same(c.d, &*real, &*c.v.real(), "after writing");
    let back = must(read_any(c.d, &text, 4), "read", c.d.name());
    same(c.d, &*back, &*real, "read back");
    text
}

fn rejected(d: &dyn Doc, text: &[u8], ways: u64, class: &str, why: &str) {
    if let Ok(r) = read_any(d, text, ways) {
        crate::violation(class, format!("{}, {why}: {} was read as {}", d.name(), short(&String::from_utf8_lossy(text)), short(&r.dbg())));
    }
}

/// What was read says what was meant, and is itself a value.
fn accepted(d: &dyn Doc, r: &dyn DocReal, meant: &J, sent: &[u8], what: &str) {
    std::hint::black_box(r.dbg());
    let out = match crate::no_panic("panicked", "writing what was read", || r.value()) {
        Ok(v) => v,
        // a time whose year has more digits than a document holds
        Err(e) => crate::violation("unwritable", format!("{}, {what}: {} was read as {}, which cannot be written: {e}", d.name(), short(&String::from_utf8_lossy(sent)), short(&r.dbg()))),
    };
    if let Err(e) = denotes(meant, &out) {
        crate::violation("misread", format!("{}, {what}: {} was read as {}: {e}", d.name(), short(&String::from_utf8_lossy(sent)), short(&out.to_string())));
    }
    let again = must(d.from_value(out.clone()), "read", d.name());
    check(again.same(r), "round-trip", || format!("{}: {} became {}", d.name(), short(&r.dbg()), short(&again.dbg())));
}

fn damaged(c: &Case) {
    let d = damage(&c.v.tree());
    let mut text = String::new();
    plain(&d.sent, &mut text);
    note("damage", || format!("{}: {:?}: {}", d.what, d.verdict, short(&text)));
    match d.verdict {
        Reject => {
            probe("check.must_reject");
            rejected(c.d, text.as_bytes(), 4, "accepted", &d.what);
        }
        v => {
            match read_any(c.d, text.as_bytes(), 4) {
                Ok(r) => {
                    probe(if v == Accept { "check.must_accept" } else { "check.may_accept" });
                    accepted(c.d, &*r, &d.meant, text.as_bytes(), &d.what);
                }
                Err(e) => check(v == Free, "refused", || format!("{}, {}: {}: {e}", c.d.name(), d.what, short(&text))),
            }
        }
    }
}

fn flipped(c: &Case, text: &[u8]) {
    let mut t = text.to_vec();
    for _ in 0..1 + choose(2) {
        let i = choose(t.len() as u64) as usize;
        match choose(6) {
            0 | 1 => t[i] ^= 1 << choose(8),
            2 => t[i] = b"{}[]\",:0-.eE+x \\u"[choose(17) as usize],
            3 => {
                t.remove(i);
            }
            4 => t.insert(i, b"{}[]\",:0-.eE+x \\u"[choose(17) as usize]),
            _ => {
                let n = (1 + choose(8) as usize).min(t.len() - i);
                let part: Vec<u8> = t[i..i + n].to_vec();
                t.splice(i..i, part);
            }
        }
        if t.is_empty() {
            return;
        }
    }
    fault("bit_rot");
    probe("check.flipped");
    match serde_json::from_slice::<Value>(&t) {
        Err(_) => {
            // the contents of fields that are ignored need only have the shape of JSON
            if serde_json::from_slice::<serde::de::IgnoredAny>(&t).is_err() {
                rejected(c.d, &t, 2, "accepted", "no JSON")
            }
        }
        Ok(v) => {
            let meant = retag(&c.v.tree(), &v);
            if let Ok(r) = read_any(c.d, &t, 4) {
                accepted(c.d, &*r, &meant, &t, "flipped");
            }
        }
    }
}

fn cuts(c: &Case, text: &[u8]) {
    let n = text.len();
    if n < 400 && chance(1, 3) {
        probe("check.every_cut");
        for k in 0..n {
            rejected(c.d, &text[..k], 2, "torn-accepted", "cut");
        }
    }
    for _ in 0..3 {
        probe("check.cut");
        rejected(c.d, &text[..choose(n as u64) as usize], 4, "torn-accepted", "cut");
    }
}

fn failing(c: &Case, text: &[u8]) {
    let n = text.len();
    let real = c.v.real();
    // a stream that fails while it is read
    let at = choose(n as u64) as usize;
    let kind = KINDS[choose(10) as usize];
    let end = if choose(2) == 0 { End::Fail(at, kind) } else { End::Eof(at) };
    let mut r = Src::new(Arc::new(text.to_vec()), Flow::gen().for_size(n * 3), end);
    let res = crate::no_panic("panicked", "reading a document", || {
        if n > 1500 {
            c.d.read(&mut BufReader::new(&mut r))
        } else {
            c.d.read(&mut r)
        }
    });
    if let Ok(v) = res {
        crate::violation("torn-accepted", format!("{}: a stream that broke at byte {at} of {n} was read as {}", c.d.name(), short(&v.dbg())));
    }
    probe("check.read_error");
    let again = must(read_any(c.d, text, 4), "read", c.d.name());
    same(c.d, &*again, &*real, "after a failure");
    // a stream that fails while it is written
    let want = text_of(c.d, &*real, false);
    let at = choose(want.len() as u64) as usize;
    let end = if choose(3) == 0 { End::Zero(at) } else { End::Fail(at, kind) };
    let mut w = Sink::new(Flow::gen().for_size(n), end);
    let res = crate::no_panic("panicked", "writing a document", || real.write(&mut w, false));
    check(res.is_err(), "write-failure-lost", || format!("{}: the stream failed at byte {at}", c.d.name()));
    check(want.starts_with(&w.out), "not-canonical", || format!("{}: {} was written before the failure", c.d.name(), short(&String::from_utf8_lossy(&w.out))));
    probe("check.write_error");
    let text = text_of(c.d, &*real, false);
    check(text == want, "not-canonical", || format!("{}: after a failure: {}", c.d.name(), short(&String::from_utf8_lossy(&text))));
}

fn filed(c: &Case) {
    let real = c.v.real();
    let d = io::disk();
    d.lock().unwrap().flow = Some(Flow::gen().for_size(30_000));
    {
        let mut w = io::create(&d, "doc", false, End::Never);
        must(real.write(&mut w, choose(2) == 1), "write", c.d.name());
    }
    let whole = d.lock().unwrap().read("doc").unwrap_or_default();
    if choose(4) == 0 {
        d.lock().unwrap().sync("doc");
    }
    d.lock().unwrap().crash();
    let now = d.lock().unwrap().read("doc").unwrap_or_default();
    if now.len() < whole.len() {
        probe("check.file_torn");
        rejected(c.d, &now, 4, "torn-accepted", "torn file");
    } else {
        probe("check.file_whole");
        let r = must(read_any(c.d, &now, 4), "read", c.d.name());
        same(c.d, &*r, &*real, "from a file");
    }
}

/// Documents that follow each other.
fn log_of_documents() {
    let cases: Vec<Case> = (0..1 + choose(5)).map(|_| gen_case()).collect();
    let mut w = Sink::new(Flow::gen().for_size(30_000), End::Never);
    let mut ends = vec![];
    for c in &cases {
        must(c.v.real().write(&mut w, choose(2) == 1), "write", c.d.name());
        ends.push(w.out.len());
        let sep = ["\n", "", " ", "\r\n"][choose(4) as usize];
        must(w.write_all(sep.as_bytes()), "write", "separator");
    }
    let n = w.out.len();
    let cut = if chance(1, 3) { choose(n as u64 + 1) as usize } else { n };
    let r = Src::new(Arc::new(w.out), Flow::gen().for_size(n * 3), End::Eof(cut));
    let mut r: Box<dyn std::io::Read> = if n > 4000 { Box::new(BufReader::new(r)) } else { Box::new(r) };
    probe("check.ndjson");
    for (c, e) in cases.iter().zip(ends) {
        let res = crate::no_panic("panicked", "reading a document", || c.d.read_next(&mut r));
        if e <= cut {
            let v = must(res, "read", c.d.name());
            same(c.d, &*v, &*c.v.real(), "from a log");
        } else {
            if let Ok(v) = res {
                crate::violation("torn-accepted", format!("{}: the log ended inside and was read as {}", c.d.name(), short(&v.dbg())));
            }
            break;
        }
    }
}

fn garbage(c: &Case) {
    // another type's document, or nothing like one
    if choose(2) == 0 {
        let o = gen_case();
        let text = text_of(o.d, &*o.v.real(), false);
        probe("check.cross");
        if let Ok(r) = read_any(c.d, &text, 4) {
            let out = must(r.value(), "write", c.d.name());
            let again = must(c.d.from_value(out), "read", c.d.name());
            check(again.same(&*r), "round-trip", || format!("{}: {} became {}", c.d.name(), short(&r.dbg()), short(&again.dbg())));
            // the forms of what it holds are checked elsewhere: here only that it has the same size of parts
            if std::ptr::eq(o.d.name(), c.d.name()) {
                same(c.d, &*r, &*o.v.real(), "read back");
            }
        }
        return;
    }
    probe("check.garbage");
    let mut t = vec![];
    let mut r = crate::choice::Rng::new(raw());
    const PARTS: [&str; 26] = [
        "{", "}", "[", "]", ",", ":", "\"", "null", "true", "0", "-1", "1e9", "1e999", "\"type\":", "\"policy\":", "\"of\":[", "\"n\":1",
        "\"thresh\"", "\\u0000", "\\ud800", "\"h:\"", "\"ed25519:\"", " ", "18446744073709551616", "0.5", "\u{feff}",
    ];
    match choose(4) {
        0 => {
            let mut b = vec![0; choose(100) as usize];
            r.fill(&mut b);
            t = b;
        }
        1 => {
            // deeper than anything that is meant to be
            let n = [10, 100, 127, 128, 129, 1000, 100_000][choose(7) as usize];
            let p = ["[", "{\"a\":", "{\"type\":\"thresh\",\"policy\":{\"n\":1,\"of\":["][choose(3) as usize];
            for _ in 0..n.min(300_000 / p.len()) {
                t.extend_from_slice(p.as_bytes());
            }
        }
        _ => {
            for _ in 0..choose(60) {
                t.extend_from_slice(PARTS[(r.next() % 26) as usize].as_bytes());
            }
        }
    }
    let ways = if t.len() > 10_000 { 3 } else { 4 };
    if let Ok(v) = read_any(c.d, &t, ways) {
        let out = must(v.value(), "write", c.d.name());
        let again = must(c.d.from_value(out), "read", c.d.name());
        check(again.same(&*v), "round-trip", || format!("{}: {} became {}", c.d.name(), short(&v.dbg()), short(&again.dbg())));
    }
}

fn party() {
    let c = gen_case();
    sample(|| format!("{} {}", c.d.name(), short(&c.v.dbg())));
    let text = written(&c);
    for _ in 0..1 + choose(4) {
        match choose(10) {
            0 | 1 | 2 | 3 => {
                for _ in 0..1 + choose(8) {
                    damaged(&c);
                }
            }
            4 => {
                for _ in 0..1 + choose(6) {
                    flipped(&c, &text);
                }
            }
            5 => cuts(&c, &text),
            6 => failing(&c, &text),
            7 => filed(&c),
            8 => {
                probe("check.foreign");
                let mut t = String::new();
                foreign(&c.v.tree(), &mut crate::choice::Rng::new(raw()), &mut t);
                let r = must(read_any(c.d, t.as_bytes(), 4), "refused", &format!("{}: {}", c.d.name(), short(&t)));
                same(c.d, &*r, &*c.v.real(), "from another writer");
            }
            _ => garbage(&c),
        }
    }
}

// --------------------------------------------------------------- text forms

/// What reading a text gave: the text of it, and whether it is the original.
type Parsed = Result<(String, bool), String>;
struct TextCase {
    name: &'static str,
    kind: Leafk,
    want: String,
    write: Box<dyn Fn(&mut dyn Write) -> std::io::Result<()>>,
    parse: Option<Box<dyn Fn(&str) -> Parsed>>,
}

fn gen_text() -> TextCase {
    use sia::signing as ss;
    use sia::types as st;
    let mut g = G::new(300).json();
    macro_rules! case {
        ($m:ty, $r:ty, $k:expr, $want:expr) => {{
            let m = <$m>::gen(&mut g);
            let r: $r = m.real();
            let r2: $r = m.real();
            let want: fn(&$m) -> String = $want;
            TextCase {
                name: stringify!($r),
                kind: $k,
                want: want(&m),
                write: Box::new(move |w| write!(w, "{}", r)),
                parse: Some(Box::new(move |s| <$r>::parse_string(s).map(|v| (v.to_string(), v == r2)).map_err(|e| format!("{e:?}")))),
            }
        }};
        (show $m:ty, $r:ty, $k:expr, $want:expr) => {{
            let m = <$m>::gen(&mut g);
            let r: $r = m.real();
            let want: fn(&$m) -> String = $want;
            TextCase { name: stringify!($r), kind: $k, want: want(&m), write: Box::new(move |w| write!(w, "{}", r)), parse: None }
        }};
    }
    match choose(16) {
        0 => case!(Hash, st::Hash256, Leafk::Hash, |h| hex::encode(h.0)),
        1 => case!(Hash, st::SiacoinOutputID, Leafk::Hash, |h| hex::encode(h.0)),
        2 => case!(Hash, st::SiafundOutputID, Leafk::Hash, |h| hex::encode(h.0)),
        3 => case!(Hash, st::AttestationID, Leafk::Hash, |h| hex::encode(h.0)),
        4 => case!(Hash, st::BlockID, Leafk::Hash, |h| hex::encode(h.0)),
        5 => case!(Hash, st::TransactionID, Leafk::Hash, |h| hex::encode(h.0)),
        6 => case!(Hash, st::FileContractID, Leafk::Hash, |h| hex::encode(h.0)),
        7 | 8 => case!(Addr, st::Address, Leafk::Addr, |h| addr_text(&h.0)),
        9 => case!(LeafM, st::Leaf, Leafk::Hex64, |h| hex::encode(h.0)),
        10 => case!(Sig, ss::Signature, Leafk::Hex64, |h| hex::encode(h.0)),
        11 => case!(UnlockKey, st::v1::UnlockKey, Leafk::Key, |k| k.text()),
        12 | 13 => {
            let m = Cur::gen(&mut g);
            let r: st::Currency = m.real();
            TextCase {
                name: "st::Currency",
                kind: Leafk::Cur,
                want: m.0.to_string(),
                // it has no other text than that of the number
                write: Box::new(move |w| write!(w, "{}", *r)),
                parse: Some(Box::new(move |s| {
                    st::Currency::parse_string(s).map(|v| (v.to_string(), v == r)).map_err(|e| format!("{e:?}"))
                })),
            }
        }
        14 => case!(show PubK, ss::PublicKey, Leafk::Pk, |k| format!("ed25519:{}", hex::encode(k.0))),
        _ => case!(show ChainIndex, st::ChainIndex, Leafk::Text, |c| format!("{}:{}", c.height, hex::encode(c.id.0))),
    }
}

fn text_party() {
    for _ in 0..1 + choose(6) {
        let c = gen_text();
        probe("check.text");
        note("text", || format!("{} {}", c.name, short(&c.want)));
        let mut w = Sink::new(Flow::gen(), End::Never);
        let res = crate::no_panic("panicked", "writing a text", || (c.write)(&mut w));
        must(res, "write", c.name);
        check(w.out == c.want.as_bytes(), "not-canonical", || format!("{}: {} and not {}", c.name, String::from_utf8_lossy(&w.out), c.want));
        if chance(1, 4) {
            let at = choose(c.want.len() as u64) as usize;
            let mut w = Sink::new(Flow::gen(), End::Fail(at, std::io::ErrorKind::BrokenPipe));
            check((c.write)(&mut w).is_err() || c.want.is_empty(), "write-failure-lost", || format!("{}: at {at}", c.name));
            check(c.want.as_bytes().starts_with(&w.out), "not-canonical", || format!("{}: {}", c.name, String::from_utf8_lossy(&w.out)));
        }
        let Some(parse) = &c.parse else { continue };
        let read = |s: &str| crate::no_panic("panicked", "reading a text", || parse(s));
        let (shown, eq) = must(read(&c.want), "read", c.name);
        check(eq && shown == c.want, "round-trip", || format!("{}: {} became {shown}", c.name, c.want));
        for _ in 0..choose(8) {
            let (t, v, what) = damage_text(&c.want, &c.kind);
            if t == c.want {
                continue;
            }
            probe("check.text_damaged");
            match (read(&t), v) {
                (Ok((o, _)), Reject) => crate::violation("accepted", format!("{}, {what}: {t:?} was read as {o}", c.name)),
                (Ok((o, eq)), _) => {
                    check(text_denotes(&t, &c.kind, &o), "misread", || format!("{}, {what}: {t:?} was read as {o}", c.name));
                    check(eq == (o == c.want), "round-trip", || format!("{}, {what}: {t:?} was read as {o}", c.name));
                }
                (Err(e), Accept) => crate::violation("refused", format!("{}, {what}: {t:?}: {e}", c.name)),
                _ => {}
            }
        }
        for _ in 0..choose(3) {
            // cut: never the same value
            let at = choose(c.want.len() as u64 + 1) as usize;
            if !c.want.is_char_boundary(at) || at == c.want.len() {
                continue;
            }
            if let Ok((o, eq)) = read(&c.want[..at]) {
                let k = &c.kind;
                let may = matches!(k, Leafk::Cur | Leafk::Key);
                check(may && !eq && text_denotes(&c.want[..at], k, &o), "torn-accepted", || {
                    format!("{}: {} was read as {o}", c.name, &c.want[..at])
                });
            }
        }
    }
}

fn s04() {
    kernel::set_granularity([0, 0, 200, 30][choose(4) as usize]);
    let mut hs = vec![];
    for i in 0..1 + choose(3) {
        let (name, f): (_, fn()) = match choose(8) {
            0 => ("log", log_of_documents),
            1 => ("text", text_party),
            _ => ("party", party),
        };
        let h = kernel::spawn(&format!("{name}{i}"), f);
        if chance(1, 20) {
            kernel::sleep(1 + raw() % 100_000);
            fault("cancel");
            kernel::cancel(h.tid());
        }
        hs.push(h);
    }
    for h in hs {
        join(h, "party");
    }
}
