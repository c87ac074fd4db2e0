//! The reference model: cloneable copies of every wire type with reference
//! encoders, decoders and documents written from the Sia protocol, and
//! generators over them. Nothing here calls the code under test except the
//! conversions (`ToReal`), which only build its public structs.
use crate::choice::Rng;
use crate::kernel::{choose, raw};
use sia::consensus as sc;
use sia::signing as ss;
use sia::types as st;
use std::fmt::Debug;
use time::{Duration, OffsetDateTime};

// ------------------------------------------------------------ generation

pub struct G {
    /// Bytes the value may still take.
    pub budget: i64,
    /// Only values that have a document form.
    pub json: bool,
    /// Hashes seen before, to be used again.
    pub seen: Vec<[u8; 32]>,
    pub depth: u32,
    /// Large collections are allowed.
    pub large: bool,
    /// Collections until one has a length at a boundary.
    pub wide: u64,
}

/// Lengths at which a narrower count, index or buffer shows.
const WIDE: [usize; 16] = [256, 64, 65, 255, 257, 512, 128, 63, 127, 129, 256, 255, 768, 33, 100, 65];

impl G {
    pub fn new(budget: i64) -> G {
        G {
            budget,
            json: false,
            seen: Vec::new(),
            depth: 0,
            large: true,
            wide: if budget >= 1000 && choose(12) == 11 { choose(16) } else { u64::MAX },
        }
    }
    pub fn json(mut self) -> G {
        self.json = true;
        self
    }
}

pub const TMIN: i64 = -377_705_116_800;
pub const TMAX: i64 = 253_402_300_799;
pub const TMIN_JSON: i64 = -62_167_219_200;

pub fn gen_u64() -> u64 {
    const B: [u64; 30] = [
        0,
        1,
        2,
        10,
        11,
        12,
        127,
        128,
        255,
        256,
        257,
        1008,
        1009,
        65535,
        65536,
        u32::MAX as u64,
        u32::MAX as u64 + 1,
        1 << 33,
        (1 << 53) - 1,
        1 << 53,
        (1 << 53) + 1,
        i64::MAX as u64 - 1,
        i64::MAX as u64,
        1 << 63,
        (1 << 63) + 1,
        u64::MAX - 1,
        u64::MAX,
        0x0102_0304_0506_0708,
        0x00ff_0000_ff00_0000,
        1 << 56,
    ];
    match choose(8) {
        0 => 0,
        1 | 2 => choose(20),
        3 => B[choose(30) as usize],
        4 => choose(1_000_000),
        5 => raw() >> choose(64),
        6 => 1u64 << choose(64),
        _ => raw(),
    }
}

pub fn gen_u128() -> u128 {
    match choose(8) {
        0 => 0,
        1 => choose(300) as u128,
        2 => gen_u64() as u128,
        3 => 10u128.pow(choose(39) as u32),
        4 => (raw() as u128) << choose(65),
        // a zero byte somewhere inside
        5 => {
            let mut b = ((raw() as u128) << 64 | raw() as u128).to_be_bytes();
            let lead = choose(16) as usize;
            for x in b.iter_mut().take(lead) {
                *x = 0;
            }
            let i = choose(16) as usize;
            b[i] = 0;
            u128::from_be_bytes(b)
        }
        6 => u128::MAX - choose(3) as u128,
        _ => {
            let k = choose(128);
            ((raw() as u128) << 64 | raw() as u128) >> k
        }
    }
}

pub fn gen_32(g: &mut G) -> [u8; 32] {
    g.budget -= 32;
    let h = match choose(8) {
        0 => [0; 32],
        1 if !g.seen.is_empty() => g.seen[choose(g.seen.len() as u64) as usize],
        2 => [0xff; 32],
        3 => {
            let mut h = [0; 32];
            match choose(4) {
                0 | 1 => h[choose(32) as usize] = 1 << choose(8),
                // the same bytes at one end
                k => {
                    Rng::new(raw()).fill(&mut h);
                    let n = choose(32) as usize;
                    let x = if choose(3) == 0 { 0xff } else { 0 };
                    (if k == 2 { &mut h[n..] } else { &mut h[..n] }).fill(x);
                }
            }
            h
        }
        _ => {
            let mut h = [0; 32];
            Rng::new(raw()).fill(&mut h);
            h
        }
    };
    if g.seen.len() < 12 {
        g.seen.push(h);
    }
    h
}

fn gen_64(g: &mut G) -> [u8; 64] {
    g.budget -= 64;
    let mut h = [0; 64];
    match choose(6) {
        0 => {}
        1 => h = [0xff; 64],
        _ => Rng::new(raw()).fill(&mut h),
    }
    h
}

pub fn gen_bytes(g: &mut G) -> Vec<u8> {
    const L: [usize; 22] = [
        16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096,
        4097, 8191, 8192,
    ];
    const XL: [usize; 15] = [
        16383, 16384, 16385, 32768, 65535, 65536, 65537, 131_073, 262_145, 524_288, 1_000_000, 1_048_575, 1_048_576,
        1_048_577, 4_194_304,
    ];
    let n = match choose(12) {
        // a run with room for it
        3..=6 if g.budget > 100_000 => {
            crate::kernel::probe("probe.large_bytes");
            if g.budget > 1_000_000 && choose(4) > 0 {
                crate::kernel::probe("probe.megabytes");
                [1_000_001, 1_048_577, 2_000_001, 2_097_153, 4_194_304, 4_194_305][choose(6) as usize]
            } else {
                XL[choose(15) as usize]
            }
        }
        0 | 1 => 0,
        2 => 1,
        3..=6 => choose(40) as usize,
        7 | 8 => L[choose(13) as usize],
        9 => L[choose(22) as usize],
        10 => choose(300) as usize,
        _ => {
            if g.large && choose(12) == 11 {
                let n = XL[choose(5) as usize];
                if (n as i64) < g.budget {
                    crate::kernel::probe("probe.large_bytes");
                    n
                } else {
                    5
                }
            } else {
                3
            }
        }
    };
    let n = if n as i64 > g.budget.max(64) { 7 } else { n };
    g.budget -= n as i64 + 8;
    fill(n)
}

pub fn fill(n: usize) -> Vec<u8> {
    if n == 0 {
        return Vec::new();
    }
    let mut v = vec![0; n];
    match choose(6) {
        0 => {}
        1 => v.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8),
        2 => v.iter_mut().for_each(|b| *b = 0xff),
        _ => Rng::new(raw()).fill(&mut v),
    }
    v
}

fn gen_string(g: &mut G) -> String {
    const CH: [char; 24] = [
        'a', 'Z', '0', ' ', '"', '\\', '/', '\n', '\t', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}',
        '\u{800}', '漢', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', ':',
    ];
    let n = match choose(8) {
        1..=3 if g.budget > 100_000 => {
            [8_192, 16_385, 32_769, 65_535, 65_536, 65_537, 131_073, 524_289, 1_048_577][choose(9) as usize].min(g.budget as u64 / 4)
        }
        0 => 0,
        1..=4 => choose(12),
        5 | 6 => choose(80),
        _ => {
            if g.large && choose(6) == 5 {
                [255, 256, 1023, 1024, 1366, 4096, 5000][choose(7) as usize]
            } else {
                20
            }
        }
    };
    let n = n.min(g.budget.max(100) as u64);
    let mut r = Rng::new(raw());
    let mode = choose(3);
    let mut s = String::new();
    for _ in 0..n {
        let c = match mode {
            0 => (b'a' + (r.next() % 26) as u8) as char,
            1 => CH[(r.next() % 24) as usize],
            _ => char::from_u32((r.next() % 0x11_0000) as u32).unwrap_or('x'),
        };
        s.push(c);
    }
    g.budget -= s.len() as i64 + 8;
    s
}

/// Number of elements of a collection.
fn gen_len(g: &mut G, cost: i64) -> usize {
    const L: [usize; 12] = [9, 16, 31, 32, 64, 127, 128, 255, 256, 257, 300, 1000];
    const XL: [usize; 8] = [1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000];
    if g.wide == 0 {
        g.wide = u64::MAX;
        crate::kernel::probe("probe.wide");
        return WIDE[choose(16) as usize];
    }
    g.wide -= 1;
    let n = match choose(16) {
        0..=5 => 0,
        6..=9 if g.budget > 100_000 => [65_535, 65_536, 65_537, 100_000, 32_768, 20_000][choose(6) as usize],
        6..=9 => 1,
        10 | 11 => 2,
        12 => 3,
        13 => choose(9) as usize,
        14 => choose(4) as usize,
        _ => {
            if !g.large {
                2
            } else {
                match choose(8) {
                    5 | 6 => L[choose(12) as usize],
                    7 => XL[choose(8) as usize],
                    _ => 4,
                }
            }
        }
    };
    if n as i64 * cost > g.budget.max(cost) {
        let m = (g.budget / cost.max(1)).clamp(0, 3) as usize;
        return n.min(m);
    }
    if n > 255 {
        crate::kernel::probe("probe.collection_over_255");
    }
    n
}

// ---------------------------------------------------------- documents

#[derive(Clone, Debug, PartialEq)]
pub enum Leafk {
    Hash,
    Addr,
    Hex64,
    Pk,
    Cur,
    Work,
    B64,
    Time,
    Text,
    Key,
    Tag,
}

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Obj(Vec<(String, J, bool)>), // name, value, mandatory
    Arr(Vec<J>, Option<usize>),  // fixed length
    Str(String, Leafk),
    /// a number and the largest value its field holds
    Num(u64, u64),
    Bool(bool),
    /// any other JSON text
    Raw(String),
}

impl J {
    pub fn value(&self) -> serde_json::Value {
        use serde_json::Value;
        match self {
            J::Obj(f) => Value::Object(f.iter().map(|(k, v, _)| (k.clone(), v.value())).collect()),
            J::Arr(v, _) => Value::Array(v.iter().map(|x| x.value()).collect()),
            J::Str(s, _) => Value::String(s.clone()),
            J::Num(n, _) => Value::from(*n),
            J::Bool(b) => Value::Bool(*b),
            J::Raw(t) => serde_json::from_str(t).unwrap_or(Value::Null),
        }
    }
}

/// A field of a document that may be left out when empty.
pub trait Skip {
    fn empty(&self) -> bool {
        false
    }
}

// ------------------------------------------------------------ the trait

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    Eof,
    Value,
    /// more than the code under test has to support
    Limit,
}
pub type Res<T> = Result<T, Bad>;

pub struct Rd<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    /// The bytes are not those the encoder writes for this value.
    pub loose: bool,
    /// Something the protocol leaves to the implementation.
    pub open: bool,
    /// What is where.
    pub marks: Option<Vec<Mark>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Part {
    Byte,
    Word,
    Fixed,
    /// A v1 currency with its length.
    Cur,
    /// Bytes or text with its length.
    Text,
    /// A list, from its count to its end.
    List,
    /// An element of a list.
    Elem,
}
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub part: Part,
    pub at: usize,
    pub end: usize,
}

impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Rd<'a> {
        Rd { d, pos: 0, loose: false, open: false, marks: None }
    }
    fn mark(&mut self, part: Part, at: usize) {
        let end = self.pos;
        if let Some(m) = &mut self.marks {
            if m.len() < 4000 {
                m.push(Mark { part, at, end });
            }
        }
    }
    pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        if self.d.len() - self.pos < n {
            self.pos = self.d.len();
            return Err(Bad::Eof);
        }
        let s = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn arr<const N: usize>(&mut self) -> Res<[u8; N]> {
        let at = self.pos;
        let a = self.take(N)?.try_into().unwrap();
        self.mark(if N == 1 { Part::Byte } else if N == 8 { Part::Word } else { Part::Fixed }, at);
        Ok(a)
    }
    pub fn u64(&mut self) -> Res<u64> {
        Ok(u64::from_le_bytes(self.arr::<8>()?))
    }
}

pub trait Model: Clone + Debug + PartialEq + Send + Sync + 'static {
    /// Rough size of an encoded value.
    const COST: i64 = 40;
    fn gen(g: &mut G) -> Self;
    /// Current encoding.
    fn e2(&self, o: &mut Vec<u8>);
    fn d2(r: &mut Rd) -> Res<Self>;
    /// v1 encoding.
    fn e1(&self, o: &mut Vec<u8>) {
        self.e2(o)
    }
    fn d1(r: &mut Rd) -> Res<Self> {
        Self::d2(r)
    }
    fn js(&self) -> J;
    /// Makes it a different value; appends what was changed to the path.
    fn mutate(&mut self, g: &mut G, path: &mut String);
    /// Restores what has to hold between its parts.
    fn fix(self) -> Self {
        self
    }
}

pub trait ToReal<R> {
    fn real(&self) -> R;
}

pub fn enc2<M: Model>(m: &M) -> Vec<u8> {
    let mut v = Vec::new();
    m.e2(&mut v);
    v
}
pub fn enc1<M: Model>(m: &M) -> Vec<u8> {
    let mut v = Vec::new();
    m.e1(&mut v);
    v
}

// --------------------------------------------------------- basic types

macro_rules! int_model {
    ($t:ty, $max:expr, $gen:expr) => {
        impl Model for $t {
            const COST: i64 = 8;
            fn gen(g: &mut G) -> Self {
                g.budget -= 8;
                let f: fn() -> $t = $gen;
                f()
            }
            fn e2(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(&(*self as u64).to_le_bytes())
            }
            fn d2(r: &mut Rd) -> Res<Self> {
                let v = r.u64()?;
                // sign-extended for the signed ones
                if v as $t as u64 == v {
                    Ok(v as $t)
                } else {
                    Err(Bad::Value)
                }
            }
            fn js(&self) -> J {
                J::Num(*self as u64, $max as u64)
            }
            fn mutate(&mut self, _g: &mut G, path: &mut String) {
                path.push_str("=int");
                *self = match choose(4) {
                    0 => self.wrapping_add(1),
                    1 => self.wrapping_sub(1),
                    2 => *self ^ ((1 as $t) << choose(<$t>::BITS as u64)),
                    _ => self.wrapping_add(1 + choose(100) as $t),
                }
            }
        }
        impl ToReal<$t> for $t {
            fn real(&self) -> $t {
                *self
            }
        }
        impl Skip for $t {}
    };
}
int_model!(u64, u64::MAX, gen_u64);
int_model!(usize, u64::MAX, || gen_u64() as usize);
int_model!(u32, u32::MAX, || gen_u64() as u32);
int_model!(u16, u16::MAX, || gen_u64() as u16);
int_model!(i64, i64::MAX, || gen_u64() as i64);
int_model!(i32, i32::MAX, || gen_u64() as i32);
int_model!(i16, i16::MAX, || gen_u64() as i16);

impl Model for u8 {
    const COST: i64 = 1;
    fn gen(g: &mut G) -> Self {
        g.budget -= 1;
        match choose(4) {
            0 => 0,
            1 => 255,
            _ => raw() as u8,
        }
    }
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(*self)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        Ok(r.arr::<1>()?[0])
    }
    fn js(&self) -> J {
        J::Num(*self as u64, 255)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=u8");
        *self ^= 1 << choose(8);
    }
}
impl ToReal<u8> for u8 {
    fn real(&self) -> u8 {
        *self
    }
}
impl Skip for u8 {}

impl Model for bool {
    const COST: i64 = 1;
    fn gen(g: &mut G) -> Self {
        g.budget -= 1;
        choose(2) == 1
    }
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        match r.arr::<1>()?[0] {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(Bad::Value),
        }
    }
    fn js(&self) -> J {
        J::Bool(*self)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=bool");
        *self = !*self;
    }
}
impl ToReal<bool> for bool {
    fn real(&self) -> bool {
        *self
    }
}
impl Skip for bool {}

impl Model for String {
    fn gen(g: &mut G) -> Self {
        gen_string(g)
    }
    fn e2(&self, o: &mut Vec<u8>) {
        (self.len() as u64).e2(o);
        o.extend_from_slice(self.as_bytes())
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let b = Bytes::d2(r)?;
        String::from_utf8(b.0).map_err(|_| Bad::Value)
    }
    fn js(&self) -> J {
        J::Str(self.clone(), Leafk::Text)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=string");
        match choose(3) {
            0 => self.push('x'),
            1 => self.insert(0, '\u{e9}'),
            _ => {
                if self.pop().is_none() {
                    self.push('y')
                }
            }
        }
    }
}
impl ToReal<String> for String {
    fn real(&self) -> String {
        self.clone()
    }
}
impl Skip for String {}

/// A byte string: length-prefixed on the wire, base64 in documents.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Bytes(pub Vec<u8>);

pub fn b64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        s.push(A[(n >> 18) as usize & 63] as char);
        s.push(A[(n >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { A[(n >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { A[n as usize & 63] as char } else { '=' });
    }
    s
}

impl Model for Bytes {
    fn gen(g: &mut G) -> Self {
        Bytes(gen_bytes(g))
    }
    fn e2(&self, o: &mut Vec<u8>) {
        (self.0.len() as u64).e2(o);
        o.extend_from_slice(&self.0)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let at = r.pos;
        let n = r.u64()?;
        if n > (r.d.len() - r.pos) as u64 {
            r.pos = r.d.len();
            return Err(Bad::Eof);
        }
        let b = r.take(n as usize)?.to_vec();
        r.mark(Part::Text, at);
        Ok(Bytes(b))
    }
    fn js(&self) -> J {
        J::Str(b64(&self.0), Leafk::B64)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=bytes");
        let n = self.0.len();
        match choose(4) {
            0 => self.0.push(choose(256) as u8),
            1 if n > 0 => {
                self.0.pop();
            }
            2 if n > 0 => self.0[choose(n as u64) as usize] ^= 1 << choose(8),
            _ => self.0.insert(0, 7),
        }
    }
}
impl ToReal<Vec<u8>> for Bytes {
    fn real(&self) -> Vec<u8> {
        self.0.clone()
    }
}
impl Skip for Bytes {
    fn empty(&self) -> bool {
        self.0.is_empty()
    }
}

impl<T: Model> Model for Vec<T> {
    const COST: i64 = T::COST + 16;
    fn gen(g: &mut G) -> Self {
        g.budget -= 8;
        let n = gen_len(g, T::COST);
        let mut v = Vec::new();
        if n > 64 {
            // many elements of a few kinds: what matters is how many
            let mut kinds = Vec::new();
            let budget = g.budget;
            for _ in 0..4 {
                g.budget = (2 * budget / n as i64).min(3000);
                g.wide = u64::MAX;
                kinds.push(T::gen(g));
            }
            g.budget = budget;
            let mut r = Rng::new(raw());
            // never far more than there is room for
            let size = kinds.iter().map(|k| enc2(k).len()).max().unwrap_or(0).max(1);
            let n = n.min((3 * budget.max(20_000)) as usize / size);
            for _ in 0..n {
                v.push(kinds[(r.next() % 4) as usize].clone());
            }
            g.budget -= n as i64 * T::COST;
            return v;
        }
        for _ in 0..n {
            v.push(T::gen(g));
        }
        v
    }
    fn e2(&self, o: &mut Vec<u8>) {
        (self.len() as u64).e2(o);
        self.iter().for_each(|x| x.e2(o))
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let start = r.pos;
        let n = r.u64()?;
        let mut v = Vec::new();
        for _ in 0..n {
            let at = r.pos;
            v.push(T::d2(r)?);
            r.mark(Part::Elem, at);
        }
        r.mark(Part::List, start);
        Ok(v)
    }
    fn e1(&self, o: &mut Vec<u8>) {
        (self.len() as u64).e1(o);
        self.iter().for_each(|x| x.e1(o))
    }
    fn d1(r: &mut Rd) -> Res<Self> {
        let start = r.pos;
        let n = r.u64()?;
        let mut v = Vec::new();
        for _ in 0..n {
            let at = r.pos;
            v.push(T::d1(r)?);
            r.mark(Part::Elem, at);
        }
        r.mark(Part::List, start);
        Ok(v)
    }
    fn js(&self) -> J {
        J::Arr(self.iter().map(|x| x.js()).collect(), None)
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        let n = self.len();
        if T::COST <= 250 && choose(40) == 39 {
            let to = WIDE[choose(16) as usize];
            if n < to {
                path.push_str(&format!("[grow to {to}]"));
                let b = std::mem::replace(&mut g.budget, 100);
                let (x, y) = (T::gen(g), T::gen(g));
                g.budget = b;
                for i in n..to {
                    self.push(if i % 3 == 0 { x.clone() } else { y.clone() });
                }
                crate::kernel::probe("probe.grown");
                return;
            }
        }
        match choose(6) {
            0 | 1 | 2 if n > 0 => {
                let i = choose(n as u64) as usize;
                path.push_str(&format!("[{i}]"));
                self[i].mutate(g, path);
            }
            3 if n > 0 => {
                path.push_str("[remove]");
                self.remove(choose(n as u64) as usize);
            }
            4 if n > 1 => {
                let i = choose(n as u64 - 1) as usize;
                let j = i + 1 + choose((n - 1 - i) as u64) as usize;
                if self[i] != self[j] {
                    path.push_str("[swap]");
                    self.swap(i, j);
                } else {
                    path.push_str("[remove]");
                    self.remove(j);
                }
            }
            5 if n > 0 => {
                path.push_str("[dup]");
                let x = self[choose(n as u64) as usize].clone();
                self.push(x);
            }
            _ => {
                path.push_str("[push]");
                let b = std::mem::replace(&mut g.budget, 500);
                let x = T::gen(g);
                g.budget = b;
                self.push(x);
            }
        }
    }
}
impl<R, T: ToReal<R>> ToReal<Vec<R>> for Vec<T> {
    fn real(&self) -> Vec<R> {
        self.iter().map(|x| x.real()).collect()
    }
}
impl<T> Skip for Vec<T> {
    fn empty(&self) -> bool {
        self.is_empty()
    }
}

impl<T: Model> Model for Option<T> {
    const COST: i64 = 1 + T::COST / 2;
    fn gen(g: &mut G) -> Self {
        g.budget -= 1;
        if choose(3) == 2 {
            Some(T::gen(g))
        } else {
            None
        }
    }
    fn e2(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.e2(o)
            }
        }
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        Ok(if bool::d2(r)? { Some(T::d2(r)?) } else { None })
    }
    fn e1(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.e1(o)
            }
        }
    }
    fn d1(r: &mut Rd) -> Res<Self> {
        Ok(if bool::d1(r)? { Some(T::d1(r)?) } else { None })
    }
    fn js(&self) -> J {
        self.as_ref().expect("left out").js()
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        match self {
            None => {
                path.push_str("[some]");
                *self = Some(T::gen(g))
            }
            Some(x) if choose(2) == 0 => x.mutate(g, path),
            _ => {
                path.push_str("[none]");
                *self = None
            }
        }
    }
}
impl<R, T: ToReal<R>> ToReal<Option<R>> for Option<T> {
    fn real(&self) -> Option<R> {
        self.as_ref().map(|x| x.real())
    }
}
impl<T> Skip for Option<T> {
    fn empty(&self) -> bool {
        self.is_none()
    }
}

macro_rules! fixed_model {
    ($name:ident, $n:expr, $gen:expr, $js:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name(pub [u8; $n]);
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}", hex::encode(self.0))
            }
        }
        impl Default for $name {
            fn default() -> Self {
                $name([0; $n])
            }
        }
        impl Model for $name {
            const COST: i64 = $n;
            fn gen(g: &mut G) -> Self {
                let f: fn(&mut G) -> [u8; $n] = $gen;
                $name(f(g))
            }
            fn e2(&self, o: &mut Vec<u8>) {
                o.extend_from_slice(&self.0)
            }
            fn d2(r: &mut Rd) -> Res<Self> {
                Ok($name(r.arr()?))
            }
            fn js(&self) -> J {
                let f: fn(&[u8; $n]) -> J = $js;
                f(&self.0)
            }
            fn mutate(&mut self, _g: &mut G, path: &mut String) {
                path.push_str(concat!("=", stringify!($name)));
                match choose(3) {
                    0 => self.0[$n - 1] ^= 1,
                    1 => self.0[0] ^= 0x80,
                    _ => self.0[choose($n) as usize] ^= 1 << choose(8),
                }
            }
        }
        impl Skip for $name {}
        impl ToReal<[u8; $n]> for $name {
            fn real(&self) -> [u8; $n] {
                self.0
            }
        }
    };
}

pub fn addr_text(a: &[u8; 32]) -> String {
    let c = crate::b2::blake2b(a);
    format!("{}{}", hex::encode(a), hex::encode(&c[..6]))
}

fixed_model!(Hash, 32, gen_32, |h| J::Str(hex::encode(h), Leafk::Hash));
fixed_model!(Addr, 32, gen_32, |h| J::Str(addr_text(h), Leafk::Addr));
fixed_model!(PubK, 32, gen_32, |h| J::Str(
    format!("ed25519:{}", hex::encode(h)),
    Leafk::Pk
));
fixed_model!(Sig, 64, gen_64, |h| J::Str(hex::encode(h), Leafk::Hex64));
fixed_model!(LeafM, 64, gen_64, |h| J::Str(hex::encode(h), Leafk::Hex64));
fixed_model!(WorkM, 32, gen_work, |h| J::Str(
    num_bigint::BigUint::from_bytes_be(h).to_string(),
    Leafk::Work
));
fixed_model!(Spec, 16, gen_spec, |h| J::Arr(
    h.iter().map(|b| J::Num(*b as u64, 255)).collect(),
    Some(16)
));
fixed_model!(Raw16, 16, |g| gen_64(g)[..16].try_into().unwrap(), |_| J::Bool(false));

fn gen_work(g: &mut G) -> [u8; 32] {
    let mut h = gen_32(g);
    let z = [0, 0, 0, 8, 16, 24, 31][choose(7) as usize];
    h[..z].fill(0);
    h
}

fn gen_spec(g: &mut G) -> [u8; 16] {
    g.budget -= 16;
    let mut s = [0u8; 16];
    let t: &[u8] = match choose(7) {
        0 | 1 => b"ed25519",
        2 => b"entropy",
        3 => b"",
        4 => b"sixteen bytes ok",
        5 => "h\u{e9}llo w\u{f6}rld\u{6f22}".as_bytes(),
        _ => {
            let mut r = Rng::new(raw());
            let n = choose(17) as usize;
            for b in s.iter_mut().take(n) {
                *b = if g.json {
                    // anything but the separator
                    let c = (r.next() % 127) as u8;
                    if c == b':' {
                        b';'
                    } else {
                        c
                    }
                } else {
                    r.next() as u8
                };
            }
            return s;
        }
    };
    s[..t.len()].copy_from_slice(t);
    s
}

macro_rules! hash_real {
    ($($t:ty),*) => { $( impl ToReal<$t> for Hash { fn real(&self) -> $t { <$t>::new(self.0) } } )* };
}
hash_real!(
    st::Hash256,
    st::SiacoinOutputID,
    st::SiafundOutputID,
    st::AttestationID,
    st::BlockID,
    st::TransactionID,
    st::FileContractID
);
impl ToReal<st::Address> for Addr {
    fn real(&self) -> st::Address {
        st::Address::new(self.0)
    }
}
impl ToReal<ss::PublicKey> for PubK {
    fn real(&self) -> ss::PublicKey {
        ss::PublicKey::new(self.0)
    }
}
impl ToReal<ss::Signature> for Sig {
    fn real(&self) -> ss::Signature {
        ss::Signature::new(self.0)
    }
}
impl ToReal<st::Leaf> for LeafM {
    fn real(&self) -> st::Leaf {
        st::Leaf::from(self.0)
    }
}
impl ToReal<st::Work> for WorkM {
    fn real(&self) -> st::Work {
        st::Work::from(&self.0)
    }
}
impl ToReal<st::Specifier> for Spec {
    fn real(&self) -> st::Specifier {
        st::Specifier::new(self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Cur(pub u128);
impl Model for Cur {
    const COST: i64 = 16;
    fn gen(g: &mut G) -> Self {
        g.budget -= 16;
        Cur(gen_u128())
    }
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0.to_le_bytes())
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        Ok(Cur(u128::from_le_bytes(r.arr()?)))
    }
    // v1: length and the bytes without leading zeros, most significant first
    fn e1(&self, o: &mut Vec<u8>) {
        let mut v = Vec::new();
        let mut x = self.0;
        while x > 0 {
            v.insert(0, x as u8);
            x >>= 8;
        }
        Bytes(v).e1(o)
    }
    fn d1(r: &mut Rd) -> Res<Self> {
        let at = r.pos;
        let n = r.u64()?;
        if n > 16 {
            return Err(Bad::Value);
        }
        let b = r.take(n as usize)?;
        r.mark(Part::Cur, at);
        if b.first() == Some(&0) {
            r.loose = true;
        }
        Ok(Cur(b.iter().fold(0u128, |a, &x| a << 8 | x as u128)))
    }
    fn js(&self) -> J {
        J::Str(self.0.to_string(), Leafk::Cur)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=currency");
        self.0 = match choose(3) {
            0 => self.0.wrapping_add(1),
            1 => self.0 ^ (1 << choose(128)),
            _ => self.0.wrapping_sub(1),
        }
    }
}
impl ToReal<st::Currency> for Cur {
    fn real(&self) -> st::Currency {
        st::Currency::new(self.0)
    }
}
impl Skip for Cur {}

/// Seconds since the epoch.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Time(pub i64);

fn civil(days: i64) -> (i64, i64, i64) {
    // days since 1970-01-01 to a date of the proleptic Gregorian calendar
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}

pub fn rfc3339(t: i64) -> String {
    let (y, m, d) = civil(t.div_euclid(86_400));
    let s = t.rem_euclid(86_400);
    format!(
        "{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}Z",
        s / 3600,
        s / 60 % 60,
        s % 60
    )
}

impl Model for Time {
    const COST: i64 = 8;
    fn gen(g: &mut G) -> Self {
        g.budget -= 8;
        let min = if g.json { TMIN_JSON } else { TMIN };
        let t = match choose(8) {
            0 => 0,
            1 => 1_433_600_000 + choose(400_000_000) as i64,
            2 => TMAX - choose(2) as i64,
            3 => min + choose(2) as i64,
            4 => choose(4) as i64 - 2,
            5 => [i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, i32::MIN as i64 - 1]
                [choose(4) as usize],
            6 => choose(TMAX as u64) as i64,
            _ => min + choose((TMAX - min) as u64) as i64,
        };
        Time(t)
    }
    fn e2(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.0.to_le_bytes())
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let t = r.u64()? as i64;
        if (TMIN..=TMAX).contains(&t) {
            Ok(Time(t))
        } else {
            Err(Bad::Value)
        }
    }
    fn js(&self) -> J {
        J::Str(rfc3339(self.0), Leafk::Time)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=time");
        if self.0 < TMAX - 1000 {
            self.0 += 1 + choose(999) as i64;
        } else {
            self.0 -= 1;
        }
    }
}
impl ToReal<OffsetDateTime> for Time {
    fn real(&self) -> OffsetDateTime {
        OffsetDateTime::from_unix_timestamp(self.0).expect("in range")
    }
}
impl Skip for Time {}

/// Nanoseconds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Dur(pub u64);
impl Model for Dur {
    const COST: i64 = 8;
    fn gen(g: &mut G) -> Self {
        g.budget -= 8;
        Dur(gen_u64() & i64::MAX as u64)
    }
    fn e2(&self, o: &mut Vec<u8>) {
        self.0.e2(o)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let v = r.u64()?;
        if v > i64::MAX as u64 {
            return Err(Bad::Value);
        }
        Ok(Dur(v))
    }
    fn js(&self) -> J {
        J::Num(self.0, i64::MAX as u64)
    }
    fn mutate(&mut self, _g: &mut G, path: &mut String) {
        path.push_str("=duration");
        self.0 ^= 1 << choose(62);
    }
}
impl ToReal<Duration> for Dur {
    fn real(&self) -> Duration {
        Duration::nanoseconds(self.0 as i64)
    }
}
impl Skip for Dur {}

// -------------------------------------------------------------- structs

/// What a type's own `fixup` takes precedence over.
trait Fixup: Sized {
    fn fixup(self) -> Self {
        self
    }
}
impl<T> Fixup for T {}
impl State {
    fn fixup(self) -> State {
        self.normal()
    }
}
impl Chain {
    fn fixup(mut self) -> Chain {
        self.state = self.state.normal();
        self
    }
}

macro_rules! jfield {
    ($v:ident, $s:expr, $f:ident, $j:literal) => {
        $v.push(($j.to_string(), $s.$f.js(), true));
    };
    ($v:ident, $s:expr, $f:ident, $j:literal, skip) => {
        if !$s.$f.empty() {
            $v.push(($j.to_string(), $s.$f.js(), false));
        }
    };
}

macro_rules! model {
    ($(#[$m:meta])* struct $name:ident => $real:ty { $( $f:ident : $t:ty = $j:literal $($skip:ident)? ),* $(,)? }) => {
        model!(@def $name => $real { $( $f : $t = $j $($skip)? ),* });
        impl Model for $name {
            const COST: i64 = 0 $( + <$t as Model>::COST )*;
            model!(@common $name { $( $f : $t = $j $($skip)? ),* });
            fn e2(&self, o: &mut Vec<u8>) { $( self.$f.e2(o); )* }
            fn d2(r: &mut Rd) -> Res<Self> { Ok($name { $( $f: <$t as Model>::d2(r)? ),* }) }
            fn e1(&self, o: &mut Vec<u8>) { $( self.$f.e1(o); )* }
            fn d1(r: &mut Rd) -> Res<Self> { Ok($name { $( $f: <$t as Model>::d1(r)? ),* }) }
        }
    };
    (custom struct $name:ident => $real:ty { $( $f:ident : $t:ty = $j:literal $($skip:ident)? ),* $(,)? }) => {
        model!(@def $name => $real { $( $f : $t = $j $($skip)? ),* });
        impl Model for $name {
            const COST: i64 = 0 $( + <$t as Model>::COST )*;
            model!(@common $name { $( $f : $t = $j $($skip)? ),* });
            fn e2(&self, o: &mut Vec<u8>) { self.ce2(o) }
            fn d2(r: &mut Rd) -> Res<Self> { Self::cd2(r) }
            fn e1(&self, o: &mut Vec<u8>) { self.ce1(o) }
            fn d1(r: &mut Rd) -> Res<Self> { Self::cd1(r) }
        }
    };
    (@def $name:ident => $real:ty { $( $f:ident : $t:ty = $j:literal $($skip:ident)? ),* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name { $( pub $f : $t ),* }
        impl ToReal<$real> for $name {
            fn real(&self) -> $real {
                type R = $real;
                R { $( $f: self.$f.real() ),* }
            }
        }
        impl Skip for $name {}
    };
    (@common $name:ident { $( $f:ident : $t:ty = $j:literal $($skip:ident)? ),* }) => {
        fn fix(self) -> Self { self.fixup() }
        fn gen(g: &mut G) -> Self { $( let $f = <$t as Model>::gen(g); )* $name { $( $f ),* } }
        fn js(&self) -> J {
            let mut v: Vec<(String, J, bool)> = Vec::new();
            $( jfield!(v, self, $f, $j $(, $skip)?); )*
            J::Obj(v)
        }
        #[allow(unused_assignments)]
        fn mutate(&mut self, g: &mut G, path: &mut String) {
            let n = [$( stringify!($f) ),*].len() as u64;
            let mut i = choose(n);
            $( if i == 0 {
                path.push('.');
                path.push_str(stringify!($f));
                self.$f.mutate(g, path);
                return;
            }
            i = i.wrapping_sub(1); )*
        }
    };
}

model!(struct ChainIndex => st::ChainIndex { height: u64 = "height", id: Hash = "id" });
model!(struct StateElement => st::StateElement {
    leaf_index: u64 = "leafIndex", merkle_proof: Vec<Hash> = "merkleProof",
});
model!(struct ScOutput => st::SiacoinOutput { value: Cur = "value", address: Addr = "address" });
model!(custom struct SfOutput => st::SiafundOutput { value: u64 = "value", address: Addr = "address" });
impl SfOutput {
    fn ce2(&self, o: &mut Vec<u8>) {
        self.value.e2(o);
        self.address.e2(o)
    }
    fn cd2(r: &mut Rd) -> Res<Self> {
        Ok(SfOutput { value: u64::d2(r)?, address: Addr::d2(r)? })
    }
    fn ce1(&self, o: &mut Vec<u8>) {
        Cur(self.value as u128).e1(o);
        self.address.e1(o);
        Cur(0).e1(o)
    }
    fn cd1(r: &mut Rd) -> Res<Self> {
        let v = Cur::d1(r)?;
        let value = u64::try_from(v.0).map_err(|_| Bad::Value)?;
        let address = Addr::d1(r)?;
        let claim = Cur::d1(r)?;
        if claim.0 != 0 {
            r.loose = true;
            r.open = true;
        }
        Ok(SfOutput { value, address })
    }
}

/// Text "algorithm:hex" in documents.
#[derive(Clone, Debug, PartialEq)]
pub struct UnlockKey {
    pub algorithm: Spec,
    pub key: Bytes,
}
impl UnlockKey {
    pub fn text(&self) -> String {
        let a = &self.algorithm.0;
        let n = a.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        format!("{}:{}", String::from_utf8_lossy(&a[..n]), hex::encode(&self.key.0))
    }
    pub fn ed25519(pk: [u8; 32]) -> UnlockKey {
        let mut a = [0; 16];
        a[..7].copy_from_slice(b"ed25519");
        UnlockKey { algorithm: Spec(a), key: Bytes(pk.to_vec()) }
    }
}
impl Model for UnlockKey {
    const COST: i64 = 56;
    fn gen(g: &mut G) -> Self {
        if choose(3) < 2 {
            return UnlockKey::ed25519(gen_32(g));
        }
        UnlockKey { algorithm: Spec::gen(g), key: Bytes::gen(g) }
    }
    fn e2(&self, o: &mut Vec<u8>) {
        self.algorithm.e2(o);
        self.key.e2(o)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        Ok(UnlockKey { algorithm: Spec::d2(r)?, key: Bytes::d2(r)? })
    }
    fn js(&self) -> J {
        J::Str(self.text(), Leafk::Key)
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        if choose(2) == 0 {
            path.push_str(".algorithm");
            if g.json {
                self.algorithm.0[0] = if self.algorithm.0[0] == b'e' { b'f' } else { b'e' };
            } else {
                self.algorithm.mutate(g, path)
            }
        } else {
            path.push_str(".key");
            self.key.mutate(g, path)
        }
    }
}
impl ToReal<st::v1::UnlockKey> for UnlockKey {
    fn real(&self) -> st::v1::UnlockKey {
        st::v1::UnlockKey { algorithm: self.algorithm.real(), key: self.key.real() }
    }
}
impl Skip for UnlockKey {}

model!(struct UnlockConditions => st::v1::UnlockConditions {
    timelock: u64 = "timelock", public_keys: Vec<UnlockKey> = "publicKeys",
    signatures_required: u64 = "signaturesRequired",
});

// v1 transactions
model!(struct V1ScInput => st::v1::SiacoinInput {
    parent_id: Hash = "parentID", unlock_conditions: UnlockConditions = "unlockConditions",
});
model!(struct V1SfInput => st::v1::SiafundInput {
    parent_id: Hash = "parentID", unlock_conditions: UnlockConditions = "unlockConditions",
    claim_address: Addr = "claimAddress",
});
model!(struct V1Contract => st::v1::FileContract {
    file_size: u64 = "filesize", file_merkle_root: Hash = "fileMerkleRoot",
    window_start: u64 = "windowStart", window_end: u64 = "windowEnd", payout: Cur = "payout",
    valid_proof_outputs: Vec<ScOutput> = "validProofOutputs",
    missed_proof_outputs: Vec<ScOutput> = "missedProofOutputs",
    unlock_hash: Addr = "unlockHash", revision_number: u64 = "revisionNumber",
});
model!(struct V1Revision => st::v1::FileContractRevision {
    parent_id: Hash = "parentID", unlock_conditions: UnlockConditions = "unlockConditions",
    revision_number: u64 = "revisionNumber", file_size: u64 = "filesize",
    file_merkle_root: Hash = "fileMerkleRoot", window_start: u64 = "windowStart",
    window_end: u64 = "windowEnd", valid_proof_outputs: Vec<ScOutput> = "validProofOutputs",
    missed_proof_outputs: Vec<ScOutput> = "missedProofOutputs", unlock_hash: Addr = "unlockHash",
});
model!(struct V1Proof => st::v1::StorageProof {
    parent_id: Hash = "parentID", leaf: LeafM = "leaf", proof: Vec<Hash> = "proof",
});
model!(struct Covered => st::v1::CoveredFields {
    whole_transaction: bool = "wholeTransaction",
    siacoin_inputs: Vec<usize> = "siacoinInputs" skip,
    siacoin_outputs: Vec<usize> = "siacoinOutputs" skip,
    file_contracts: Vec<usize> = "fileContracts" skip,
    file_contract_revisions: Vec<usize> = "fileContractRevisions" skip,
    storage_proofs: Vec<usize> = "storageProofs" skip,
    siafund_inputs: Vec<usize> = "siafundInputs" skip,
    siafund_outputs: Vec<usize> = "siafundOutputs" skip,
    miner_fees: Vec<usize> = "minerFees" skip,
    arbitrary_data: Vec<usize> = "arbitraryData" skip,
    signatures: Vec<usize> = "signatures" skip,
});
model!(struct V1Sig => st::v1::TransactionSignature {
    parent_id: Hash = "parentID", public_key_index: u64 = "publicKeyIndex",
    timelock: u64 = "timelock", covered_fields: Covered = "coveredFields",
    signature: Bytes = "signature",
});
model!(struct V1Txn => st::v1::Transaction {
    siacoin_inputs: Vec<V1ScInput> = "siacoinInputs" skip,
    siacoin_outputs: Vec<ScOutput> = "siacoinOutputs" skip,
    file_contracts: Vec<V1Contract> = "fileContracts" skip,
    file_contract_revisions: Vec<V1Revision> = "fileContractRevisions" skip,
    storage_proofs: Vec<V1Proof> = "storageProofs" skip,
    siafund_inputs: Vec<V1SfInput> = "siafundInputs" skip,
    siafund_outputs: Vec<SfOutput> = "siafundOutputs" skip,
    miner_fees: Vec<Cur> = "minerFees" skip,
    arbitrary_data: Vec<Bytes> = "arbitraryData" skip,
    signatures: Vec<V1Sig> = "signatures" skip,
});
model!(struct Block => st::Block {
    parent_id: Hash = "parentID", nonce: u64 = "nonce", timestamp: Time = "timestamp",
    miner_payouts: Vec<ScOutput> = "minerPayouts", transactions: Vec<V1Txn> = "transactions",
});

// v2
#[derive(Clone, PartialEq)]
pub enum Pol {
    Above(u64),
    After(Time),
    Pk(PubK),
    Hash(Hash),
    Thresh(u8, Vec<Pol>),
    Opaque(Addr),
    Uc(UnlockConditions),
}
impl Debug for Pol {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Pol::Above(h) => write!(f, "above({h})"),
            Pol::After(t) => write!(f, "after({})", t.0),
            Pol::Pk(k) => write!(f, "pk({k:?})"),
            Pol::Hash(k) => write!(f, "h({k:?})"),
            Pol::Opaque(k) => write!(f, "opaque({k:?})"),
            Pol::Thresh(n, v) => {
                write!(f, "thresh({n},[")?;
                for p in v {
                    write!(f, "{p:?},")?;
                }
                write!(f, "])")
            }
            Pol::Uc(u) => write!(f, "uc({u:?})"),
        }
    }
}
pub const MAX_POLICIES: usize = 1024;
/// Nesting of a policy that every document reader has to support.
pub const JSON_NEST: u32 = 24;

impl Pol {
    pub fn count(&self) -> usize {
        match self {
            Pol::Thresh(_, v) => 1 + v.iter().map(|p| p.count()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn nest(&self) -> u32 {
        match self {
            Pol::Thresh(_, v) => 1 + v.iter().map(|p| p.nest()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn leaf(g: &mut G) -> Pol {
        match choose(5) {
            0 => Pol::Above(u64::gen(g)),
            1 => Pol::After(Time::gen(g)),
            2 => Pol::Pk(PubK::gen(g)),
            3 => Pol::Hash(Hash::gen(g)),
            _ => Pol::Opaque(Addr::gen(g)),
        }
    }
    fn gen_at(g: &mut G, depth: u32) -> Pol {
        g.budget -= 3;
        let k = choose(12);
        if k < 7 || depth > 6 || g.budget < 60 {
            return match k {
                6 => Pol::Uc(UnlockConditions::gen(g)),
                _ => Pol::leaf(g),
            };
        }
        let n = match choose(10) {
            0 => 0,
            1..=3 => 1,
            4..=6 => 2,
            7 => 3,
            8 => choose(8),
            _ => {
                if depth == 0 && g.large && choose(4) == 3 {
                    [254, 255, 128, 127][choose(4) as usize]
                } else {
                    2
                }
            }
        };
        let t = match choose(4) {
            0 => n as u8,
            1 => choose(n + 1) as u8,
            2 => 1,
            _ => choose(256) as u8,
        };
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(if n > 100 { Pol::leaf(g) } else { Pol::gen_at(g, depth + 1) });
        }
        Pol::Thresh(t, v)
    }
    /// The encoding without the leading version.
    pub fn body(&self, o: &mut Vec<u8>) {
        match self {
            Pol::Above(h) => {
                o.push(1);
                h.e2(o)
            }
            Pol::After(t) => {
                o.push(2);
                t.e2(o)
            }
            Pol::Pk(k) => {
                o.push(3);
                k.e2(o)
            }
            Pol::Hash(h) => {
                o.push(4);
                h.e2(o)
            }
            Pol::Thresh(n, v) => {
                o.push(5);
                o.push(*n);
                o.push(v.len() as u8);
                v.iter().for_each(|p| p.body(o))
            }
            Pol::Opaque(a) => {
                o.push(6);
                a.e2(o)
            }
            Pol::Uc(u) => {
                o.push(7);
                u.e2(o)
            }
        }
    }
    fn dbody(r: &mut Rd, total: &mut usize, depth: usize) -> Res<Pol> {
        if depth > 4000 {
            return Err(Bad::Limit);
        }
        Ok(match u8::d2(r)? {
            1 => Pol::Above(u64::d2(r)?),
            2 => Pol::After(Time::d2(r)?),
            3 => Pol::Pk(PubK::d2(r)?),
            4 => Pol::Hash(Hash::d2(r)?),
            5 => {
                let n = u8::d2(r)?;
                let m = u8::d2(r)?;
                *total += m as usize;
                if *total > MAX_POLICIES {
                    // whether this is accepted is not ours to say
                    r.open = true;
                }
                let mut v = Vec::new();
                for _ in 0..m {
                    v.push(Pol::dbody(r, total, depth + 1)?);
                }
                Pol::Thresh(n, v)
            }
            6 => Pol::Opaque(Addr::d2(r)?),
            7 => Pol::Uc(UnlockConditions::d2(r)?),
            _ => return Err(Bad::Value),
        })
    }
    pub fn address(&self) -> [u8; 32] {
        match self {
            Pol::Opaque(a) => a.0,
            Pol::Uc(u) => u.address(),
            Pol::Thresh(n, v) => {
                let flat = Pol::Thresh(*n, v.iter().map(|p| Pol::Opaque(Addr(p.address()))).collect());
                crate::b2::cat(&[b"sia/address|", &enc2(&flat)])
            }
            p => crate::b2::cat(&[b"sia/address|", &enc2(p)]),
        }
    }
}
impl UnlockConditions {
    pub fn address(&self) -> [u8; 32] {
        let leaf = |d: &[u8]| crate::b2::cat(&[&[0], d]);
        let mut l = vec![leaf(&self.timelock.to_le_bytes())];
        for k in &self.public_keys {
            l.push(leaf(&enc2(k)));
        }
        l.push(leaf(&self.signatures_required.to_le_bytes()));
        crate::b2::merkle_root(&l)
    }
}
impl Model for Pol {
    const COST: i64 = 60;
    fn gen(g: &mut G) -> Self {
        if g.large && choose(60) == 59 && g.budget > 3000 {
            // a tower
            let n = if g.json { choose(JSON_NEST as u64) } else { [40, 100, 255, 500, 1000, 1023][choose(6) as usize] };
            let mut p = Pol::leaf(g);
            for i in 0..n {
                p = Pol::Thresh(1 + (i % 2) as u8, vec![p]);
            }
            crate::kernel::probe("probe.policy_tower");
            return p;
        }
        Pol::gen_at(g, 0)
    }
    fn e2(&self, o: &mut Vec<u8>) {
        o.push(1);
        self.body(o)
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        if u8::d2(r)? != 1 {
            return Err(Bad::Value);
        }
        let mut total = 1;
        Pol::dbody(r, &mut total, 0)
    }
    fn js(&self) -> J {
        let (t, p) = match self {
            Pol::Above(h) => ("above", h.js()),
            Pol::After(t) => ("after", J::Num(t.0 as u64, 0)),
            Pol::Pk(k) => ("pk", k.js()),
            Pol::Hash(h) => ("h", h.js()),
            Pol::Thresh(n, v) => (
                "thresh",
                J::Obj(vec![("n".into(), n.js(), true), ("of".into(), v.js(), true)]),
            ),
            Pol::Opaque(a) => ("opaque", a.js()),
            Pol::Uc(u) => ("uc", u.js()),
        };
        J::Obj(vec![
            ("type".into(), J::Str(t.into(), Leafk::Tag), true),
            ("policy".into(), p, true),
        ])
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        path.push_str(".policy");
        match self {
            Pol::Above(h) => h.mutate(g, path),
            Pol::After(t) => t.mutate(g, path),
            Pol::Pk(k) => k.mutate(g, path),
            Pol::Hash(h) => h.mutate(g, path),
            Pol::Opaque(a) => a.mutate(g, path),
            Pol::Uc(u) => u.mutate(g, path),
            Pol::Thresh(n, v) => match choose(4) {
                0 => n.mutate(g, path),
                1 if !v.is_empty() => {
                    let i = choose(v.len() as u64) as usize;
                    v[i].mutate(g, path)
                }
                2 if v.len() < 255 => {
                    path.push_str("[push]");
                    v.push(Pol::leaf(g))
                }
                _ if !v.is_empty() => {
                    path.push_str("[pop]");
                    v.pop();
                }
                _ => n.mutate(g, path),
            },
        }
    }
}
impl ToReal<st::v2::SpendPolicy> for Pol {
    #[allow(deprecated)]
    fn real(&self) -> st::v2::SpendPolicy {
        use st::v2::SpendPolicy as P;
        match self {
            Pol::Above(h) => P::Above(*h),
            Pol::After(t) => P::After(t.real()),
            Pol::Pk(k) => P::PublicKey(k.real()),
            Pol::Hash(h) => P::Hash(h.real()),
            Pol::Thresh(n, v) => P::Threshold(*n, v.real()),
            Pol::Opaque(a) => P::Opaque(a.real()),
            Pol::Uc(u) => P::UnlockConditions(u.real()),
        }
    }
}
impl Skip for Pol {}

model!(struct Satisfied => st::v2::SatisfiedPolicy {
    policy: Pol = "policy", signatures: Vec<Sig> = "signatures" skip,
    preimages: Vec<Hash> = "preimages" skip,
});
model!(struct Attestation => st::v2::Attestation {
    public_key: PubK = "publicKey", key: String = "key", value: Bytes = "value",
    signature: Sig = "signature",
});
model!(struct Contract => st::v2::FileContract {
    capacity: u64 = "capacity", filesize: u64 = "filesize", file_merkle_root: Hash = "fileMerkleRoot",
    proof_height: u64 = "proofHeight", expiration_height: u64 = "expirationHeight",
    renter_output: ScOutput = "renterOutput", host_output: ScOutput = "hostOutput",
    missed_host_value: Cur = "missedHostValue", total_collateral: Cur = "totalCollateral",
    renter_public_key: PubK = "renterPublicKey", host_public_key: PubK = "hostPublicKey",
    revision_number: u64 = "revisionNumber", renter_signature: Sig = "renterSignature",
    host_signature: Sig = "hostSignature",
});
model!(struct ScElement => st::v2::SiacoinElement {
    state_element: StateElement = "stateElement", id: Hash = "id",
    siacoin_output: ScOutput = "siacoinOutput", maturity_height: u64 = "maturityHeight",
});
model!(struct SfElement => st::v2::SiafundElement {
    state_element: StateElement = "stateElement", id: Hash = "id",
    siafund_output: SfOutput = "siafundOutput", claim_start: Cur = "claimStart",
});
model!(struct FcElement => st::v2::FileContractElement {
    state_element: StateElement = "stateElement", id: Hash = "id",
    v2_file_contract: Contract = "v2FileContract",
});
model!(struct CiElement => st::v2::ChainIndexElement {
    state_element: StateElement = "stateElement", id: Hash = "id", chain_index: ChainIndex = "chainIndex",
});
model!(struct ScInput => st::v2::SiacoinInput {
    parent: ScElement = "parent", satisfied_policy: Satisfied = "satisfiedPolicy",
});
model!(struct SfInput => st::v2::SiafundInput {
    parent: SfElement = "parent", claim_address: Addr = "claimAddress",
    satisfied_policy: Satisfied = "satisfiedPolicy",
});
model!(struct Revision => st::v2::FileContractRevision {
    parent: FcElement = "parent", revision: Contract = "revision",
});
model!(struct Renewal => st::v2::FileContractRenewal {
    final_revision: Contract = "finalRevision", new_contract: Contract = "newContract",
    renter_rollover: Cur = "renterRollover", host_rollover: Cur = "hostRollover",
    renter_signature: Sig = "renterSignature", host_signature: Sig = "hostSignature",
});
model!(struct Proof => st::v2::StorageProof {
    proof_index: CiElement = "proofIndex", leaf: LeafM = "leaf", proof: Vec<Hash> = "proof",
});

#[derive(Clone, Debug, PartialEq)]
#[allow(clippy::large_enum_variant)]
pub enum Res2 {
    Renewal(Renewal),
    Proof(Proof),
    Expiration,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Resolution {
    pub parent: FcElement,
    pub resolution: Res2,
}
impl Model for Resolution {
    const COST: i64 = 1200;
    fn gen(g: &mut G) -> Self {
        let parent = FcElement::gen(g);
        let resolution = match choose(3) {
            0 => Res2::Expiration,
            1 => Res2::Proof(Proof::gen(g)),
            _ => Res2::Renewal(Renewal::gen(g)),
        };
        Resolution { parent, resolution }
    }
    fn e2(&self, o: &mut Vec<u8>) {
        self.parent.e2(o);
        match &self.resolution {
            Res2::Renewal(r) => {
                o.push(0);
                r.e2(o)
            }
            Res2::Proof(p) => {
                o.push(1);
                p.e2(o)
            }
            Res2::Expiration => o.push(2),
        }
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let parent = FcElement::d2(r)?;
        let resolution = match u8::d2(r)? {
            0 => Res2::Renewal(Renewal::d2(r)?),
            1 => Res2::Proof(Proof::d2(r)?),
            2 => Res2::Expiration,
            _ => return Err(Bad::Value),
        };
        Ok(Resolution { parent, resolution })
    }
    fn js(&self) -> J {
        let (t, v) = match &self.resolution {
            Res2::Renewal(r) => ("renewal", r.js()),
            Res2::Proof(p) => ("storageProof", p.js()),
            Res2::Expiration => ("expiration", J::Obj(vec![])),
        };
        J::Obj(vec![
            ("parent".into(), self.parent.js(), true),
            ("type".into(), J::Str(t.into(), Leafk::Tag), true),
            ("resolution".into(), v, true),
        ])
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        match choose(4) {
            0 => {
                path.push_str(".parent");
                self.parent.mutate(g, path)
            }
            1 => {
                path.push_str(".kind");
                self.resolution = match self.resolution {
                    Res2::Expiration => Res2::Proof(Proof::gen(g)),
                    _ => Res2::Expiration,
                }
            }
            _ => match &mut self.resolution {
                Res2::Renewal(r) => {
                    path.push_str(".renewal");
                    r.mutate(g, path)
                }
                Res2::Proof(p) => {
                    path.push_str(".proof");
                    p.mutate(g, path)
                }
                Res2::Expiration => {
                    path.push_str(".parent");
                    self.parent.mutate(g, path)
                }
            },
        }
    }
}
impl ToReal<st::v2::FileContractResolution> for Resolution {
    fn real(&self) -> st::v2::FileContractResolution {
        use st::v2::ContractResolution as C;
        st::v2::FileContractResolution {
            parent: self.parent.real(),
            resolution: match &self.resolution {
                Res2::Renewal(r) => C::Renewal(r.real()),
                Res2::Proof(p) => C::StorageProof(p.real()),
                Res2::Expiration => C::Expiration(),
            },
        }
    }
}
impl Skip for Resolution {}

model!(custom struct Txn => st::v2::Transaction {
    siacoin_inputs: Vec<ScInput> = "siacoinInputs" skip,
    siacoin_outputs: Vec<ScOutput> = "siacoinOutputs" skip,
    siafund_inputs: Vec<SfInput> = "siafundInputs" skip,
    siafund_outputs: Vec<SfOutput> = "siafundOutputs" skip,
    file_contracts: Vec<Contract> = "fileContracts" skip,
    file_contract_revisions: Vec<Revision> = "fileContractRevisions" skip,
    file_contract_resolutions: Vec<Resolution> = "fileContractResolutions" skip,
    attestations: Vec<Attestation> = "attestations" skip,
    arbitrary_data: Bytes = "arbitraryData" skip,
    new_foundation_address: Option<Addr> = "newFoundationAddress" skip,
    miner_fee: Cur = "minerFee",
});
impl Txn {
    fn ce2(&self, o: &mut Vec<u8>) {
        o.push(2);
        let at = o.len();
        o.extend_from_slice(&[0; 8]);
        let mut bits = 0u64;
        macro_rules! part {
            ($i:expr, $c:expr, $w:expr) => {
                if $c {
                    bits |= 1 << $i;
                    $w;
                }
            };
        }
        part!(0, !self.siacoin_inputs.is_empty(), self.siacoin_inputs.e2(o));
        part!(1, !self.siacoin_outputs.is_empty(), self.siacoin_outputs.e2(o));
        part!(2, !self.siafund_inputs.is_empty(), self.siafund_inputs.e2(o));
        part!(3, !self.siafund_outputs.is_empty(), self.siafund_outputs.e2(o));
        part!(4, !self.file_contracts.is_empty(), self.file_contracts.e2(o));
        part!(5, !self.file_contract_revisions.is_empty(), self.file_contract_revisions.e2(o));
        part!(6, !self.file_contract_resolutions.is_empty(), self.file_contract_resolutions.e2(o));
        part!(7, !self.attestations.is_empty(), self.attestations.e2(o));
        part!(8, !self.arbitrary_data.0.is_empty(), self.arbitrary_data.e2(o));
        part!(9, self.new_foundation_address.is_some(), self.new_foundation_address.as_ref().unwrap().e2(o));
        part!(10, self.miner_fee.0 != 0, self.miner_fee.e2(o));
        o[at..at + 8].copy_from_slice(&bits.to_le_bytes());
    }
    fn cd2(r: &mut Rd) -> Res<Self> {
        if u8::d2(r)? != 2 {
            return Err(Bad::Value);
        }
        let bits = r.u64()?;
        if bits >> 11 != 0 {
            r.loose = true;
            r.open = true;
        }
        let mut t = Txn::empty();
        macro_rules! part {
            ($i:expr, $f:ident, $t:ty) => {
                if bits >> $i & 1 == 1 {
                    t.$f = <$t>::d2(r)?;
                    if t.$f.is_empty() {
                        r.loose = true;
                    }
                }
            };
        }
        part!(0, siacoin_inputs, Vec<ScInput>);
        part!(1, siacoin_outputs, Vec<ScOutput>);
        part!(2, siafund_inputs, Vec<SfInput>);
        part!(3, siafund_outputs, Vec<SfOutput>);
        part!(4, file_contracts, Vec<Contract>);
        part!(5, file_contract_revisions, Vec<Revision>);
        part!(6, file_contract_resolutions, Vec<Resolution>);
        part!(7, attestations, Vec<Attestation>);
        if bits >> 8 & 1 == 1 {
            t.arbitrary_data = Bytes::d2(r)?;
            r.loose |= t.arbitrary_data.0.is_empty();
        }
        if bits >> 9 & 1 == 1 {
            t.new_foundation_address = Some(Addr::d2(r)?);
        }
        if bits >> 10 & 1 == 1 {
            t.miner_fee = Cur::d2(r)?;
            r.loose |= t.miner_fee.0 == 0;
        }
        Ok(t)
    }
    fn ce1(&self, _o: &mut Vec<u8>) {
        unreachable!("v2 only")
    }
    fn cd1(_r: &mut Rd) -> Res<Self> {
        unreachable!("v2 only")
    }
    pub fn empty() -> Txn {
        Txn {
            siacoin_inputs: vec![],
            siacoin_outputs: vec![],
            siafund_inputs: vec![],
            siafund_outputs: vec![],
            file_contracts: vec![],
            file_contract_revisions: vec![],
            file_contract_resolutions: vec![],
            attestations: vec![],
            arbitrary_data: Bytes(vec![]),
            new_foundation_address: None,
            miner_fee: Cur(0),
        }
    }
}

// ------------------------------------------------------------ consensus

#[derive(Clone, Debug, PartialEq)]
pub struct Accum {
    pub num_leaves: u64,
    /// One for every set bit of num_leaves, lowest first.
    pub trees: Vec<Hash>,
}
impl Model for Accum {
    const COST: i64 = 200;
    fn gen(g: &mut G) -> Self {
        let num_leaves = gen_u64();
        let trees = (0..num_leaves.count_ones()).map(|_| Hash::gen(g)).collect();
        Accum { num_leaves, trees }
    }
    fn e2(&self, o: &mut Vec<u8>) {
        self.num_leaves.e2(o);
        self.trees.iter().for_each(|t| t.e2(o))
    }
    fn d2(r: &mut Rd) -> Res<Self> {
        let num_leaves = r.u64()?;
        let mut trees = Vec::new();
        for _ in 0..num_leaves.count_ones() {
            trees.push(Hash::d2(r)?);
        }
        Ok(Accum { num_leaves, trees })
    }
    fn js(&self) -> J {
        J::Obj(vec![
            ("numLeaves".into(), self.num_leaves.js(), true),
            ("trees".into(), J::Arr(self.trees.iter().map(|t| t.js()).collect(), Some(self.trees.len())), true),
        ])
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        if self.trees.is_empty() || choose(2) == 0 {
            path.push_str(".num_leaves");
            let b = choose(64);
            self.num_leaves ^= 1 << b;
            self.trees = (0..self.num_leaves.count_ones()).map(|_| Hash::gen(g)).collect();
        } else {
            path.push_str(".trees");
            let i = choose(self.trees.len() as u64) as usize;
            self.trees[i].mutate(g, path)
        }
    }
}
impl ToReal<sc::ElementAccumulator> for Accum {
    fn real(&self) -> sc::ElementAccumulator {
        let mut trees = [st::Hash256::default(); 64];
        let mut it = self.trees.iter();
        for (i, t) in trees.iter_mut().enumerate() {
            if self.num_leaves >> i & 1 == 1 {
                *t = it.next().expect("tree").real();
            }
        }
        sc::ElementAccumulator { num_leaves: self.num_leaves, trees }
    }
}
impl Skip for Accum {}

/// The last block times; how many exist depends on the height.
#[derive(Clone, Debug, PartialEq)]
pub struct Times(pub [Time; 11]);
impl ToReal<[OffsetDateTime; 11]> for Times {
    fn real(&self) -> [OffsetDateTime; 11] {
        self.0.map(|t| t.real())
    }
}
impl Skip for Times {}
impl Model for Times {
    const COST: i64 = 88;
    fn gen(g: &mut G) -> Self {
        let mut t = [Time(0); 11];
        for x in t.iter_mut() {
            *x = Time::gen(g);
        }
        Times(t)
    }
    fn e2(&self, _o: &mut Vec<u8>) {
        unreachable!()
    }
    fn d2(_r: &mut Rd) -> Res<Self> {
        unreachable!()
    }
    fn js(&self) -> J {
        J::Arr(self.0.iter().map(|t| t.js()).collect(), Some(11))
    }
    fn mutate(&mut self, g: &mut G, path: &mut String) {
        self.0[0].mutate(g, path)
    }
}

model!(custom struct State => sc::State {
    index: ChainIndex = "index", prev_timestamps: Times = "prevTimestamps", depth: Hash = "depth",
    child_target: Hash = "childTarget", siafund_pool: Cur = "siafundPool", oak_time: Dur = "oakTime",
    oak_target: Hash = "oakTarget", foundation_primary_address: Addr = "foundationPrimaryAddress",
    foundation_failsafe_address: Addr = "foundationFailsafeAddress", total_work: WorkM = "totalWork",
    difficulty: WorkM = "difficulty", oak_work: WorkM = "oakWork", elements: Accum = "elements",
    attestations: u64 = "attestations",
});
impl State {
    pub fn times(height: u64) -> usize {
        // the genesis block has height 0, its parent u64::MAX
        match height {
            u64::MAX => 0,
            h if h >= 10 => 11,
            h => h as usize + 1,
        }
    }
    /// Forgets what does not exist at its height.
    pub fn normal(mut self) -> State {
        let n = State::times(self.index.height);
        for t in self.prev_timestamps.0[n..].iter_mut() {
            *t = Time(0);
        }
        self
    }
    fn ce2(&self, o: &mut Vec<u8>) {
        self.index.e2(o);
        for t in &self.prev_timestamps.0[..State::times(self.index.height)] {
            t.e2(o);
        }
        self.depth.e2(o);
        self.child_target.e2(o);
        self.siafund_pool.e2(o);
        self.oak_time.e2(o);
        self.oak_target.e2(o);
        self.foundation_primary_address.e2(o);
        self.foundation_failsafe_address.e2(o);
        self.total_work.e2(o);
        self.difficulty.e2(o);
        self.oak_work.e2(o);
        self.elements.e2(o);
        self.attestations.e2(o);
    }
    fn cd2(r: &mut Rd) -> Res<Self> {
        let index = ChainIndex::d2(r)?;
        let mut t = [Time(0); 11];
        for x in t.iter_mut().take(State::times(index.height)) {
            *x = Time::d2(r)?;
        }
        Ok(State {
            index,
            prev_timestamps: Times(t),
            depth: Hash::d2(r)?,
            child_target: Hash::d2(r)?,
            siafund_pool: Cur::d2(r)?,
            oak_time: Dur::d2(r)?,
            oak_target: Hash::d2(r)?,
            foundation_primary_address: Addr::d2(r)?,
            foundation_failsafe_address: Addr::d2(r)?,
            total_work: WorkM::d2(r)?,
            difficulty: WorkM::d2(r)?,
            oak_work: WorkM::d2(r)?,
            elements: Accum::d2(r)?,
            attestations: u64::d2(r)?,
        })
    }
    fn ce1(&self, _o: &mut Vec<u8>) {
        unreachable!()
    }
    fn cd1(_r: &mut Rd) -> Res<Self> {
        unreachable!()
    }
    pub fn gen_state(g: &mut G) -> State {
        let mut s = State::gen(g);
        s.index.height = match choose(8) {
            0 => u64::MAX,
            1 | 2 => choose(14),
            3 => 8 + choose(5),
            4 => choose(600_000),
            5 => u64::MAX - 1 - choose(3),
            _ => s.index.height,
        };
        s.normal()
    }
}

model!(struct ForkDevAddr => sc::HardforkDevAddr {
    height: u64 = "height", old_address: Addr = "oldAddress", new_address: Addr = "newAddress",
});
model!(struct ForkTax => sc::HardforkTax { height: u64 = "height" });
model!(struct ForkProof => sc::HardforkStorageProof { height: u64 = "height" });
model!(struct ForkOak => sc::HardforkOak {
    height: u64 = "height", fix_height: u64 = "fixHeight", genesis_timestamp: Time = "genesisTimestamp",
});
model!(struct ForkAsic => sc::HardforkASIC {
    height: u64 = "height", oak_time: Dur = "oakTime", oak_target: Hash = "oakTarget",
});
model!(struct ForkFoundation => sc::HardforkFoundation {
    height: u64 = "height", primary_address: Addr = "primaryAddress",
    failsafe_address: Addr = "failsafeAddress",
});
model!(struct ForkV2 => sc::HardforkV2 { allow_height: u64 = "allowHeight", require_height: u64 = "requireHeight" });
model!(struct Network => sc::Network {
    name: String = "name", initial_coinbase: Cur = "initialCoinbase",
    minimum_coinbase: Cur = "minimumCoinbase", initial_target: Hash = "initialTarget",
    block_interval: Dur = "blockInterval", maturity_delay: u64 = "maturityDelay",
    hardfork_dev_addr: ForkDevAddr = "hardforkDevAddr", hardfork_tax: ForkTax = "hardforkTax",
    hardfork_storage_proof: ForkProof = "hardforkStorageProof", hardfork_oak: ForkOak = "hardforkOak",
    hardfork_asic: ForkAsic = "hardforkASIC", hardfork_foundation: ForkFoundation = "hardforkFoundation",
    hardfork_v2: ForkV2 = "hardforkV2",
});
model!(struct Chain => sc::ChainState { network: Network = "network", state: State = "state" });

impl Chain {
    pub fn gen_chain(g: &mut G) -> Chain {
        let network = Network::gen(g);
        let state = State::gen_state(g);
        Chain { network, state }
    }
}
