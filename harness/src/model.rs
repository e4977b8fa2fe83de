//! A dynamic copy of the serde data model: schemas, values, generators, and Serialize/Deserialize for them.
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, Deserialize, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::sync::OnceLock;

pub type Names = &'static [&'static str];

#[derive(Clone, Debug, PartialEq)]
pub enum Sch {
    Unit, UnitStruct, Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Char,
    /// true: ask for an owned string
    Str(bool),
    Bytes(bool),
    /// serialized through collect_str, read back as a string
    Fmt,
    Opt(Box<Sch>), Newtype(Box<Sch>), Seq(Box<Sch>), Tuple(Vec<Sch>), TupStruct(Vec<Sch>),
    Map(Box<Sch>, Box<Sch>),
    Struct(Names, Vec<Sch>),
    Enum(Names, Vec<Var>),
    /// target side only: consume and ignore
    Ignore,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Var { Unit, New(Sch), Tup(Vec<Sch>), Struct(Names, Vec<Sch>) }

#[derive(Clone, Debug)]
pub enum Val {
    Unit, Bool(bool), I(i64), U(u64), F32(f32), F64(f64), Char(char), Str(String), Bytes(Vec<u8>),
    None, Some(Box<Val>), New(Box<Val>), Seq(Vec<Val>), Map(Vec<(Val, Val)>), Enum(u32, Vec<Val>),
}
/// How floats compare.
#[derive(Clone, Copy, PartialEq)]
pub enum FEq { Bits, Json, /** bits, any NaN equals any NaN */ Num }
impl Val {
    pub fn eq(&self, o: &Val, m: FEq) -> bool {
        use Val::*;
        match (self, o) {
            (Unit, Unit) | (None, None) => true,
            (Bool(a), Bool(b)) => a == b,
            (I(a), I(b)) => a == b,
            (U(a), U(b)) => a == b,
            (F32(a), F32(b)) => match m {
                FEq::Bits => a.to_bits() == b.to_bits(),
                FEq::Json => if a.is_finite() { a == b } else { b.is_nan() },
                FEq::Num => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            },
            (F64(a), F64(b)) => match m {
                FEq::Bits => a.to_bits() == b.to_bits(),
                FEq::Json => if a.is_finite() { a == b } else { b.is_nan() },
                FEq::Num => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            },
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Some(a), Some(b)) | (New(a), New(b)) => a.eq(b, m),
            (Seq(a), Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y, m)),
            (Map(a), Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.eq(&y.0, m) && x.1.eq(&y.1, m)),
            (Enum(i, a), Enum(j, b)) => i == j && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y, m)),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- names
pub const NPOOL: usize = 700;
pub fn pool() -> &'static [&'static str] {
    static P: OnceLock<Vec<&'static str>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<String> = vec![];
        let odd = ["", "a\"b", "back\\slash", "tab\there", "nl\n", "ünï", "日本語", "😀", "\u{0}", "\u{1f}", "\u{7f}", "sp ace",
            "{", "}", "[", ",", ":", "null", "true", "0", "1", "-1", "\\u0041", "\"", "\\", "\\\\", "x\\", "a/b", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}"];
        for i in 0..NPOOL {
            v.push(match i % 9 {
                0 if i / 9 < odd.len() => odd[i / 9].to_string(),
                1 if i % 90 == 1 => format!("n{i}_{}", "x".repeat(31usize.saturating_sub(2 + i.to_string().len()))), // 31 bytes
                1 if i % 90 == 10 => format!("n{i}_{}", "y".repeat(32 - (2 + i.to_string().len()))), // 32 bytes
                2 if i % 180 == 2 => format!("n{i}_{}", "z".repeat(255 - (2 + i.to_string().len()))),
                2 if i % 180 == 11 => format!("n{i}_{}", "w".repeat(256 - (2 + i.to_string().len()))),
                3 => format!("Field{i}"),
                _ => format!("f{i}"),
            });
        }
        v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
    })
}
pub fn names(rng: &mut Rng, n: usize) -> Names {
    let p = pool();
    assert!(n < p.len());
    let s = rng.below(p.len() - n);
    &p[s..s + n]
}

// ---------------------------------------------------------------- generators
#[derive(Clone, Copy)]
pub struct Gen {
    /// nullable types may not sit directly inside an option
    pub json: bool,
    pub bytes: bool,
    pub fmt: bool,
    pub maxdepth: usize,
    pub borrowed_only: bool,
}
pub const GJ: Gen = Gen { json: true, bytes: true, fmt: true, maxdepth: 4, borrowed_only: false };
pub const GM: Gen = Gen { json: false, bytes: true, fmt: true, maxdepth: 4, borrowed_only: false };

pub fn nullable(s: &Sch, json: bool) -> bool {
    match s {
        Sch::Unit | Sch::UnitStruct | Sch::Opt(_) | Sch::Ignore => true,
        Sch::F32 | Sch::F64 => json,
        Sch::Newtype(s) => nullable(s, json),
        _ => false,
    }
}
fn small_count(rng: &mut Rng) -> usize {
    match rng.below(24) { 0..=3 => 0, 4..=9 => 1, 10..=15 => 2, 16..=18 => 3, 19 | 20 => rng.range(4, 8), 21 => rng.range(9, 14), 22 => rng.range(15, 17), _ => rng.range(18, 40) }
}
pub fn scalar(rng: &mut Rng, g: Gen) -> Sch {
    use Sch::*;
    loop {
        return match rng.below(20) {
            0 => Unit, 1 => UnitStruct, 2 => Bool, 3 => I8, 4 => I16, 5 => I32, 6 => I64, 7 => U8, 8 => U16, 9 => U32, 10 => U64,
            11 => F32, 12 => F64, 13 => Char, 14..=16 => Str(rng.coin()), 17 | 18 => if g.bytes { Bytes(rng.coin()) } else { continue },
            _ => if g.fmt { Fmt } else { continue },
        };
    }
}
pub fn key_schema(rng: &mut Rng, g: Gen, depth: usize) -> Sch {
    use Sch::*;
    match rng.below(if depth > 0 { 16 } else { 14 }) {
        0 => Bool, 1 => I8, 2 => I16, 3 => I32, 4 => I64, 5 => U8, 6 => U16, 7 => U32, 8 => U64, 9 => Char, 10 | 11 => Str(true),
        12 => { let n = rng.range(1, 5); Enum(names(rng, n), vec![Var::Unit; n]) }
        13 => if g.fmt { Fmt } else { Str(true) },
        _ => Newtype(Box::new(key_schema(rng, g, depth - 1))),
    }
}
pub fn schema(rng: &mut Rng, g: Gen, depth: usize) -> Sch {
    use Sch::*;
    if depth == 0 || rng.below(10) < 3 { return scalar(rng, g) }
    let d = depth - 1;
    match rng.below(14) {
        0 | 1 => loop { let s = schema(rng, g, d); if !nullable(&s, g.json) { break Opt(Box::new(s)) } },
        2 => Newtype(Box::new(schema(rng, g, d))),
        3 | 4 => Seq(Box::new(schema(rng, g, d))),
        5 => { let n = small_count(rng).min(17); Tuple((0..n).map(|_| schema(rng, g, if n > 5 { 0 } else { d })).collect()) }
        6 => { let n = small_count(rng).min(17); TupStruct((0..n).map(|_| schema(rng, g, if n > 5 { 0 } else { d })).collect()) }
        7 | 8 => {
            // MessagePack maps take any key type
            let k = if g.json || rng.below(3) > 0 { key_schema(rng, g, 1) } else { schema(rng, g, d.min(1)) };
            Map(Box::new(k), Box::new(schema(rng, g, d)))
        }
        9..=11 => struct_schema(rng, g, d),
        _ => {
            let n = match rng.below(12) { 0 => rng.range(15, 18), 1 if rng.one_in(4) => rng.range(120, 300), 2..=4 => 1, _ => rng.range(2, 6) };
            let vs = (0..n).map(|_| variant(rng, g, if n > 6 { 0 } else { d })).collect();
            Enum(names(rng, n), vs)
        }
    }
}
pub fn struct_schema(rng: &mut Rng, g: Gen, d: usize) -> Sch {
    let n = small_count(rng);
    let n = if n == 40 && rng.one_in(2) { rng.range(120, 140) } else { n };
    Sch::Struct(names(rng, n), (0..n).map(|_| schema(rng, g, if n > 6 { 0 } else { d })).collect())
}
pub fn variant(rng: &mut Rng, g: Gen, d: usize) -> Var {
    match rng.below(5) {
        0 | 1 => Var::Unit,
        2 => Var::New(schema(rng, g, d)),
        3 => { let n = small_count(rng).min(17); Var::Tup((0..n).map(|_| schema(rng, g, if n > 5 { 0 } else { d })).collect()) }
        _ => { let n = small_count(rng).min(17); Var::Struct(names(rng, n), (0..n).map(|_| schema(rng, g, if n > 5 { 0 } else { d })).collect()) }
    }
}
pub fn gen_u64(rng: &mut Rng, bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match rng.below(6) {
        0 => rng.next(),
        1 => rng.next() >> rng.below(64),
        2 => (1u64 << rng.below(64)).wrapping_add(rng.below(3) as u64).wrapping_sub(1),
        3 => rng.below(300) as u64,
        4 => { let mut p = 1u64; for _ in 0..rng.below(20) { p = p.wrapping_mul(10) } p.wrapping_add(rng.below(3) as u64).wrapping_sub(1) }
        _ => max.wrapping_sub(rng.below(3) as u64),
    };
    v & max
}
pub fn gen_i64(rng: &mut Rng, bits: u32) -> i64 {
    let v = gen_u64(rng, 64) as i64;
    let v = if rng.coin() { v.wrapping_neg() } else { v };
    match rng.below(8) {
        0 => if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) },
        1 => if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 },
        2 => -(rng.below(300) as i64) << (64 - bits) >> (64 - bits),
        _ => v << (64 - bits) >> (64 - bits),
    }
}
/// the same on every platform and under Miri (whose powi is deliberately imprecise)
pub fn pow2(n: i32) -> f64 { let mut x = 1.0; for _ in 0..n.abs() { x = if n < 0 { x / 2.0 } else { x * 2.0 } } x }
pub fn pow10(n: i32) -> f64 { let mut x = 1.0; for _ in 0..n.abs() { x = if n < 0 { x / 10.0 } else { x * 10.0 } } x }
pub fn gen_f64(rng: &mut Rng) -> f64 {
    match rng.below(14) {
        0 => f64::from_bits(rng.next()),
        1 => gen_i64(rng, 64) as f64,
        2 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e20, 999999999999999900000.0, 1e-7, 1e-6, 5e-324, -5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e300, 123456789012345680.0, 9007199254740993.0]),
        3 => *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
        4 => (gen_i64(rng, 32) as f64) / 1000.0,
        5 => pow10(rng.range(0, 40) as i32 - 20) * (rng.below(1000) as f64),
        6 => pow2(rng.range(0, 2000) as i32 - 1050),
        7 => f64::from_bits(f64::to_bits(pow2(rng.range(0, 200) as i32 - 100)).wrapping_add(rng.below(3) as u64).wrapping_sub(1)),
        _ => f64::from_bits((rng.next() & 0x800f_ffff_ffff_ffff) | ((1023 + rng.range(0, 140) as u64 - 70) << 52)),
    }
}
pub fn gen_f32(rng: &mut Rng) -> f32 {
    match rng.below(10) {
        0 => f32::from_bits(rng.next() as u32),
        1 => gen_i64(rng, 32) as f32,
        2 => *rng.pick(&[0.0, -0.0, 1.0, 0.1, 1e21, 1e20, 1e-7, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::from_bits(1), 16777217.0, 3.4e38]),
        3 => *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN]),
        4 => (gen_i64(rng, 16) as f32) / 100.0,
        5 => pow2(rng.range(0, 270) as i32 - 148) as f32,
        _ => f32::from_bits((rng.next() as u32 & 0x807f_ffff) | ((127 + rng.range(0, 60) as u32 - 30) << 23)),
    }
}
pub fn gen_char(rng: &mut Rng) -> char {
    match rng.below(12) {
        0 => char::from_u32(rng.below(0x20) as u32).unwrap(),
        1 => *rng.pick(&['"', '\\', '/', '\u{7f}', '\'', '\u{0}', '\n', '\t', '\r', '\u{8}', '\u{c}']),
        2 => *rng.pick(&['\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{2028}', '\u{2029}', '\u{feff}']),
        3 => loop { if let Some(c) = char::from_u32(rng.below(0x110000) as u32) { break c } },
        4 => loop { if let Some(c) = char::from_u32(rng.below(0x10000) as u32) { break c } },
        5 => char::from_u32(0x80 + rng.below(0x780) as u32).unwrap(),
        _ => char::from_u32(0x20 + rng.below(0x5f) as u32).unwrap(),
    }
}
pub fn gen_len(rng: &mut Rng) -> usize {
    if let Some(n) = crate::big::take(rng, 6, 70_000) { return n }
    if crate::util::tiny() { return match rng.below(16) { 0 | 1 => 0, 2..=12 => rng.range(1, 9), 13 | 14 => rng.range(10, 34), _ => if rng.one_in(8) { rng.range(253, 258) } else { 15 } } }
    match rng.below(64) {
        0..=7 => 0, 8..=15 => 1, 16..=47 => rng.range(2, 12), 48..=55 => rng.range(13, 40), 56..=58 => rng.range(30, 33), 59 => rng.range(126, 130), 60 | 61 => rng.range(253, 258), 62 => rng.range(41, 252),
        _ => match rng.below(40) { 0 => rng.range(65533, 65538), 1..=4 => { let p = 1usize << rng.range(8, 13); rng.range(p - 3, p + 3) } 5..=8 => rng.range(300, 5000), _ => rng.range(41, 300) },
    }
}
pub fn gen_str(rng: &mut Rng) -> String {
    let n = gen_len(rng);
    gen_str_len(rng, n)
}
/// a string of exactly n bytes
pub fn gen_str_len(rng: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    fn add(s: &mut String, c: char, n: usize) { if s.len() + c.len_utf8() <= n { s.push(c) } else { s.push('~') } }
    if n > 40 && crate::big::is_on() && rng.below(4) > 0 { return crate::big::text(rng, n) }
    // anything else in long strings would only cost time
    match if n > 6000 { rng.below(2) } else { rng.below(12) } {
        0..=3 => while s.len() < n { s.push((b'a' + rng.below(26) as u8) as char) },
        // one special place, often far from the start or right at the end
        4 | 5 => {
            let at = match rng.below(4) { 0 => n.saturating_sub(1 + rng.below(6)), 1 => n / 2, _ => rng.below(n + 1) };
            while s.len() < at { s.push((b'a' + rng.below(26) as u8) as char) }
            for _ in 0..rng.range(1, 3) { if s.len() < n { let c = gen_char(rng); add(&mut s, c, n) } }
            while s.len() < n { s.push((b'A' + rng.below(26) as u8) as char) }
        }
        // runs of one character
        6 => while s.len() < n {
            let c = if rng.coin() { *rng.pick(&['\\', '"', '\u{1}', '\n', '/', '\u{e9}', '\u{20ac}', '\u{1f600}', '0', ' ']) } else { gen_char(rng) };
            for _ in 0..*rng.pick(&[1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100]) { if s.len() < n { add(&mut s, c, n) } }
        },
        _ => while s.len() < n { let c = gen_char(rng); add(&mut s, c, n) },
    }
    s
}
pub fn gen_bytes(rng: &mut Rng) -> Vec<u8> {
    let n = gen_len(rng);
    let mode = rng.below(4);
    (0..n).map(|_| match mode { 0 => rng.next() as u8, 1 => *rng.pick(&[0u8, 255, 9, 10, 99, 100, 200]), 2 => b'0' + rng.below(10) as u8, _ => rng.next() as u8 }).collect()
}
pub fn value(rng: &mut Rng, s: &Sch, budget: &mut usize) -> Val {
    use Sch::*;
    *budget = budget.saturating_sub(1);
    match s {
        Unit | UnitStruct | Ignore => Val::Unit,
        Bool => Val::Bool(rng.coin()),
        I8 => Val::I(gen_i64(rng, 8)), I16 => Val::I(gen_i64(rng, 16)), I32 => Val::I(gen_i64(rng, 32)), I64 => Val::I(gen_i64(rng, 64)),
        U8 => Val::U(gen_u64(rng, 8)), U16 => Val::U(gen_u64(rng, 16)), U32 => Val::U(gen_u64(rng, 32)), U64 => Val::U(gen_u64(rng, 64)),
        F32 => Val::F32(gen_f32(rng)), F64 => Val::F64(gen_f64(rng)),
        Char => Val::Char(gen_char(rng)),
        Str(_) | Fmt => Val::Str(if *budget == 0 { String::new() } else { gen_str(rng) }),
        Bytes(_) => Val::Bytes(if *budget == 0 { vec![] } else { gen_bytes(rng) }),
        Opt(i) => if rng.one_in(3) { Val::None } else { Val::Some(Box::new(value(rng, i, budget))) },
        Newtype(i) => Val::New(Box::new(value(rng, i, budget))),
        Seq(i) => {
            let mut n = small_count(rng);
            if matches!(**i, Unit | UnitStruct | Bool | U8 | I8) && rng.one_in(30) { n = rng.range(250, 260) }
            n = n.min(*budget);
            if *budget > 0 && !matches!(**i, Seq(_) | Map(..) | Struct(..) | Tuple(_) | TupStruct(_) | Enum(..)) { if let Some(k) = crate::big::take(rng, 6, 3_000) { return Val::Seq((0..k).map(|_| value(rng, i, &mut 0)).collect()) } }
            Val::Seq((0..n).map(|_| value(rng, i, budget)).collect())
        }
        Tuple(v) | TupStruct(v) | Struct(_, v) => Val::Seq(v.iter().map(|i| value(rng, i, budget)).collect()),
        Map(k, v) => {
            let n = small_count(rng).min(*budget);
            let mut m: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let kv = value(rng, k, budget);
                if !m.iter().any(|(x, _)| x.eq(&kv, FEq::Bits)) { m.push((kv, value(rng, v, budget))) }
            }
            Val::Map(m)
        }
        Enum(_, vs) => {
            let i = rng.below(vs.len());
            let p = match &vs[i] {
                Var::Unit => vec![],
                Var::New(s) => vec![value(rng, s, budget)],
                Var::Tup(v) | Var::Struct(_, v) => v.iter().map(|s| value(rng, s, budget)).collect(),
            };
            Val::Enum(i as u32, p)
        }
    }
}
/// Does the value contain Some(x) where x would be written as null (non-finite float in JSON)?
pub fn ambiguous_none(s: &Sch, v: &Val) -> bool {
    let _ = (s, v);
    false // schemas never nest nullable types inside options
}

// ---------------------------------------------------------------- what the user's own code does and sees
/// Lets the checks make the model's callbacks refuse, and observe what they are told.
pub mod user {
    use std::cell::Cell;
    use std::fmt;
    pub struct St {
        pub on: Cell<bool>, /** the callback that refuses (0: none) */ pub fuse: Cell<u64>, pub unwind: Cell<bool>,
        pub calls: Cell<u64>, pub burned: Cell<bool>, /** while formatting */ pub in_fmt: Cell<bool>,
        pub after: Cell<u64>, pub writes_after: Cell<u64>, pub readable: Cell<u64>, pub compact: Cell<u64>, pub msg: Cell<u64>, pub fmts: Cell<u64>,
    }
    thread_local! { pub static S: St = const { St { on: Cell::new(false), fuse: Cell::new(0), unwind: Cell::new(false), calls: Cell::new(0), burned: Cell::new(false), in_fmt: Cell::new(false),
        after: Cell::new(0), writes_after: Cell::new(0), readable: Cell::new(0), compact: Cell::new(0), msg: Cell::new(0), fmts: Cell::new(0) } }; }
    /// what a panicking callback throws
    pub struct Thrown;
    /// the message of a refusal
    pub struct Msg;
    impl fmt::Display for Msg { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "refused \"{:x}\" — ünd\nout", S.with(|s| s.msg.get())) } }
    thread_local! { static HOOK: Cell<Option<&'static dyn Fn()>> = const { Cell::new(None) }; }
    /// Run `f`; at each of its callbacks into user code `h` runs, which may do whatever it likes, this included.
    pub fn nested<T>(h: &dyn Fn(), f: impl FnOnce() -> T) -> T {
        struct Off(Option<&'static dyn Fn()>, bool); impl Drop for Off { fn drop(&mut self) { HOOK.with(|x| x.set(self.0)); S.with(|s| s.on.set(self.1)) } }
        // SAFETY: the guard takes it out again before `h` can end
        let h: &'static dyn Fn() = unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(h) };
        let _off = Off(HOOK.with(|x| x.replace(Some(h))), S.with(|s| s.on.replace(true)));
        f()
    }
    #[cold]
    fn count() -> bool {
        if let Some(h) = HOOK.with(|x| x.get()) {
            struct On(&'static dyn Fn()); impl Drop for On { fn drop(&mut self) { HOOK.with(|x| x.set(Some(self.0))); S.with(|s| s.on.set(true)) } }
            HOOK.with(|x| x.set(None));
            S.with(|s| s.on.set(false));
            let _on = On(h);
            h();
            return false;
        }
        S.with(|s| {
            s.calls.set(s.calls.get() + 1);
            if s.burned.get() { s.after.set(s.after.get() + 1); return false }
            if s.fuse.get() == s.calls.get() {
                s.burned.set(true);
                if s.unwind.get() { std::panic::resume_unwind(Box::new(Thrown)) }
                return true;
            }
            false
        })
    }
    /// true: this callback has to refuse
    #[inline] pub fn tick() -> bool { S.with(|s| s.on.get()) && count() }
    #[inline] pub fn told(readable: bool) { S.with(|s| if s.on.get() { let c = if readable { &s.readable } else { &s.compact }; c.set(c.get() + 1) }) }
    #[inline] pub fn wrote() { S.with(|s| if s.on.get() && s.burned.get() { s.writes_after.set(s.writes_after.get() + 1) }) }
    pub struct Seen { pub calls: u64, pub burned: bool, pub in_fmt: bool, pub after: u64, pub writes_after: u64, pub readable: u64, pub compact: u64 }
    /// Observe one run; callback number `fuse` refuses.
    pub fn watch<T>(fuse: u64, unwind: bool, msg: u64, f: impl FnOnce() -> T) -> (T, Seen) {
        struct Off; impl Drop for Off { fn drop(&mut self) { S.with(|s| s.on.set(false)) } }
        S.with(|s| { s.fuse.set(fuse); s.unwind.set(unwind); s.msg.set(msg); for c in [&s.calls, &s.after, &s.writes_after, &s.readable, &s.compact] { c.set(0) } s.burned.set(false); s.in_fmt.set(false); s.on.set(true) });
        let _off = Off;
        let r = f();
        (r, S.with(|s| Seen { calls: s.calls.get(), burned: s.burned.get(), in_fmt: s.in_fmt.get(), after: s.after.get(), writes_after: s.writes_after.get(), readable: s.readable.get(), compact: s.compact.get() }))
    }
}
use user::{tick, told};

// ---------------------------------------------------------------- Serialize
pub struct SV<'a>(pub &'a Sch, pub &'a Val);
pub struct Disp<'a>(pub &'a str);
impl fmt::Display for Disp<'_> {
    // fragments: cut at char boundaries in a content dependent pattern
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = self.0;
        user::S.with(|u| u.fmts.set(u.fmts.get() + 1));
        let refuse = || { let r = tick(); if r { user::S.with(|u| u.in_fmt.set(true)) } r };
        if refuse() { return Err(fmt::Error) }
        if s.len() % 3 == 0 { f.write_str(s)?; return if refuse() { Err(fmt::Error) } else { Ok(()) } }
        let mut it = s.char_indices().skip(1).step_by(1 + s.len() % 5).map(|x| x.0).collect::<Vec<_>>();
        it.push(s.len());
        let mut st = 0;
        for e in it { f.write_str(&s[st..e])?; if refuse() { return Err(fmt::Error) } st = e }
        Ok(())
    }
}
impl Serialize for SV<'_> {
    fn serialize<S: ser::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        told(z.is_human_readable());
        if tick() { return Err(ser::Error::custom(user::Msg)) }
        let o = self.put(z)?;
        if tick() { return Err(ser::Error::custom(user::Msg)) }
        Ok(o)
    }
}
impl SV<'_> {
    fn put<S: ser::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use Sch::*;
        match (self.0, self.1) {
            (Unit, _) => z.serialize_unit(),
            (UnitStruct, _) => z.serialize_unit_struct("UnitStruct"),
            (Bool, Val::Bool(b)) => z.serialize_bool(*b),
            (I8, Val::I(n)) => z.serialize_i8(*n as i8), (I16, Val::I(n)) => z.serialize_i16(*n as i16),
            (I32, Val::I(n)) => z.serialize_i32(*n as i32), (I64, Val::I(n)) => z.serialize_i64(*n),
            (U8, Val::U(n)) => z.serialize_u8(*n as u8), (U16, Val::U(n)) => z.serialize_u16(*n as u16),
            (U32, Val::U(n)) => z.serialize_u32(*n as u32), (U64, Val::U(n)) => z.serialize_u64(*n),
            (F32, Val::F32(f)) => z.serialize_f32(*f), (F64, Val::F64(f)) => z.serialize_f64(*f),
            (Char, Val::Char(c)) => z.serialize_char(*c),
            (Str(_), Val::Str(s)) => z.serialize_str(s),
            (Fmt, Val::Str(s)) => z.collect_str(&Disp(s)),
            (Bytes(_), Val::Bytes(b)) => z.serialize_bytes(b),
            (Opt(_), Val::None) => z.serialize_none(),
            (Opt(i), Val::Some(v)) => z.serialize_some(&SV(i, v)),
            (Newtype(i), Val::New(v)) => z.serialize_newtype_struct("Newtype", &SV(i, v)),
            (Seq(i), Val::Seq(v)) => { let mut q = z.serialize_seq(Some(v.len()))?; for x in v { q.serialize_element(&SV(i, x))? } q.end() }
            (Tuple(t), Val::Seq(v)) => { let mut q = z.serialize_tuple(t.len())?; for (s, x) in t.iter().zip(v) { q.serialize_element(&SV(s, x))? } q.end() }
            (TupStruct(t), Val::Seq(v)) => { let mut q = z.serialize_tuple_struct("TupStruct", t.len())?; for (s, x) in t.iter().zip(v) { q.serialize_field(&SV(s, x))? } q.end() }
            (Map(k, e), Val::Map(v)) => {
                let mut q = z.serialize_map(Some(v.len()))?;
                for (n, (a, b)) in v.iter().enumerate() {
                    if n % 2 == 0 { q.serialize_entry(&SV(k, a), &SV(e, b))? } else { q.serialize_key(&SV(k, a))?; q.serialize_value(&SV(e, b))? }
                }
                q.end()
            }
            (Struct(n, t), Val::Seq(v)) => { let mut q = z.serialize_struct("Struct", n.len())?; for ((n, s), x) in n.iter().zip(t).zip(v) { q.serialize_field(n, &SV(s, x))? } q.end() }
            (Enum(n, vs), Val::Enum(i, p)) => {
                let name = n[*i as usize];
                match &vs[*i as usize] {
                    Var::Unit => z.serialize_unit_variant("Enum", *i, name),
                    Var::New(s) => z.serialize_newtype_variant("Enum", *i, name, &SV(s, &p[0])),
                    Var::Tup(t) => { let mut q = z.serialize_tuple_variant("Enum", *i, name, t.len())?; for (s, x) in t.iter().zip(p) { q.serialize_field(&SV(s, x))? } q.end() }
                    Var::Struct(f, t) => { let mut q = z.serialize_struct_variant("Enum", *i, name, t.len())?; for ((n, s), x) in f.iter().zip(t).zip(p) { q.serialize_field(n, &SV(s, x))? } q.end() }
                }
            }
            (s, v) => panic!("model mismatch {s:?} / {v:?}"),
        }
    }
}

// ---------------------------------------------------------------- Deserialize
/// A borrowed slice the deserializer lent out: (address, length, is_str, content at that moment)
pub struct Lent { pub ptr: usize, pub len: usize, pub is_str: bool, pub copy: Vec<u8> }
#[derive(Default)]
pub struct Rec { pub lent: RefCell<Vec<Lent>>, pub hints_bad: Cell<u32>, pub visits: Cell<u64>, pub bad_utf8: Cell<u32> }
#[derive(Clone, Copy)]
pub struct Seed<'s> { pub s: &'s Sch, pub rec: &'s Rec }

struct Vis<'s> { s: &'s Sch, rec: &'s Rec }
fn num<E: de::Error>(s: &Sch, n: i128) -> Result<Val, E> {
    macro_rules! r { ($t:ty, $c:ident, $w:ty) => { <$t>::try_from(n).map(|x| Val::$c(x as $w)).map_err(|_| E::custom("integer out of range")) } }
    match s {
        Sch::I8 => r!(i8, I, i64), Sch::I16 => r!(i16, I, i64), Sch::I32 => r!(i32, I, i64), Sch::I64 => r!(i64, I, i64),
        Sch::U8 => r!(u8, U, u64), Sch::U16 => r!(u16, U, u64), Sch::U32 => r!(u32, U, u64), Sch::U64 => r!(u64, U, u64),
        Sch::F32 => Ok(Val::F32(n as f32)), Sch::F64 => Ok(Val::F64(n as f64)),
        _ => Err(E::custom("unexpected integer")),
    }
}
impl<'s> Vis<'s> {
    fn lend(&self, b: &[u8], is_str: bool) {
        if is_str && std::str::from_utf8(b).is_err() { self.rec.bad_utf8.set(self.rec.bad_utf8.get() + 1) }
        self.rec.lent.borrow_mut().push(Lent { ptr: b.as_ptr() as usize, len: b.len(), is_str, copy: b.to_vec() });
    }
    fn text<E: de::Error>(self, v: &str) -> Result<Val, E> {
        if std::str::from_utf8(v.as_bytes()).is_err() { self.rec.bad_utf8.set(self.rec.bad_utf8.get() + 1) }
        match self.s {
            Sch::Str(_) | Sch::Fmt => Ok(Val::Str(v.to_owned())),
            Sch::Char => { let mut c = v.chars(); match (c.next(), c.next()) { (Some(c), None) => Ok(Val::Char(c)), _ => Err(E::custom("char")) } }
            Sch::Bytes(_) => Ok(Val::Bytes(v.as_bytes().to_vec())),
            _ => Err(E::custom("unexpected string")),
        }
    }
}
/// refuse here if that was asked for
macro_rules! t { ($e:ty) => { if tick() { return Err(<$e as de::Error>::custom(user::Msg)) } } }
impl<'de, 's> Visitor<'de> for Vis<'s> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("model value") }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> { t!(E); if let Sch::Bool = self.s { Ok(Val::Bool(b)) } else { Err(E::custom("unexpected bool")) } }
    fn visit_i64<E: de::Error>(self, n: i64) -> Result<Val, E> { t!(E); num(self.s, n as i128) }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Val, E> { t!(E); num(self.s, n as i128) }
    fn visit_f32<E: de::Error>(self, f: f32) -> Result<Val, E> { t!(E); match self.s { Sch::F32 => Ok(Val::F32(f)), Sch::F64 => Ok(Val::F64(f as f64)), _ => Err(E::custom("unexpected float")) } }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<Val, E> { t!(E); match self.s { Sch::F32 => Ok(Val::F32(f as f32)), Sch::F64 => Ok(Val::F64(f)), _ => Err(E::custom("unexpected float")) } }
    fn visit_char<E: de::Error>(self, c: char) -> Result<Val, E> { t!(E); if let Sch::Char = self.s { Ok(Val::Char(c)) } else { Err(E::custom("unexpected char")) } }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> { t!(E); self.text(v) }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Val, E> { t!(E); self.lend(v.as_bytes(), true); self.text(v) }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> { t!(E); if let Sch::Bytes(_) = self.s { Ok(Val::Bytes(v.to_vec())) } else { Err(E::custom("unexpected bytes")) } }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<Val, E> { t!(E); self.lend(v, false); self.visit_bytes(v) }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> { t!(E); match self.s { Sch::Unit | Sch::UnitStruct => Ok(Val::Unit), Sch::Opt(_) => Ok(Val::None), _ => Err(E::custom("unexpected unit")) } }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> { t!(E); if let Sch::Opt(_) = self.s { Ok(Val::None) } else { Err(E::custom("unexpected none")) } }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        t!(D::Error);
        let Sch::Opt(i) = self.s else { return Err(de::Error::custom("unexpected some")) };
        Ok(Val::Some(Box::new(Seed { s: i, rec: self.rec }.deserialize(d)?)))
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        t!(D::Error);
        let Sch::Newtype(i) = self.s else { return Err(de::Error::custom("unexpected newtype")) };
        Ok(Val::New(Box::new(Seed { s: i, rec: self.rec }.deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> { t!(A::Error); 
        match self.s {
            Sch::Seq(i) => {
                let mut v = vec![];
                let mut left = a.size_hint();
                while let Some(x) = a.next_element_seed(Seed { s: i, rec: self.rec })? {
                    v.push(x);
                    t!(A::Error);
                    if let Some(l) = left { // a size hint, once given, must count down exactly
                        if l == 0 || a.size_hint() != Some(l - 1) { self.rec.hints_bad.set(self.rec.hints_bad.get() + 1) }
                        left = a.size_hint();
                    }
                }
                Ok(Val::Seq(v))
            }
            Sch::Tuple(t) | Sch::TupStruct(t) | Sch::Struct(_, t) => seq_fields(a, t, self.rec).map(Val::Seq),
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> { t!(A::Error); 
        match self.s {
            Sch::Map(k, e) => {
                let mut v = vec![];
                let mut left = a.size_hint();
                loop {
                    let Some(x) = a.next_key_seed(Seed { s: k, rec: self.rec })? else { break };
                    let y = a.next_value_seed(Seed { s: e, rec: self.rec })?;
                    v.push((x, y));
                    t!(A::Error);
                    if let Some(l) = left {
                        if l == 0 || a.size_hint() != Some(l - 1) { self.rec.hints_bad.set(self.rec.hints_bad.get() + 1) }
                        left = a.size_hint();
                    }
                }
                Ok(Val::Map(v))
            }
            Sch::Struct(n, t) => map_fields(a, n, t, self.rec).map(Val::Seq),
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> { t!(A::Error); 
        let Sch::Enum(n, vs) = self.s else { return Err(de::Error::custom("unexpected enum")) };
        let (id, va) = a.variant_seed(IdSeed { names: n, enumv: true })?;
        t!(A::Error);
        let i = id.unwrap();
        let p = match &vs[i] {
            Var::Unit => { va.unit_variant()?; vec![] }
            Var::New(s) => vec![va.newtype_variant_seed(Seed { s, rec: self.rec })?],
            Var::Tup(t) => va.tuple_variant(t.len(), FieldsVis { n: None, t, rec: self.rec })?,
            Var::Struct(f, t) => va.struct_variant(f, FieldsVis { n: Some(f), t, rec: self.rec })?,
        };
        Ok(Val::Enum(i as u32, p))
    }
}
fn seq_fields<'de, A: SeqAccess<'de>>(mut a: A, t: &[Sch], rec: &Rec) -> Result<Vec<Val>, A::Error> {
    let mut v = Vec::with_capacity(t.len());
    for (i, s) in t.iter().enumerate() {
        match a.next_element_seed(Seed { s, rec })? { Some(x) => { v.push(x); t!(A::Error) } None => return Err(de::Error::invalid_length(i, &"more elements")) }
    }
    Ok(v)
}
fn map_fields<'de, A: MapAccess<'de>>(mut a: A, n: Names, t: &[Sch], rec: &Rec) -> Result<Vec<Val>, A::Error> {
    let mut v: Vec<Option<Val>> = vec![None; t.len()];
    while let Some(id) = a.next_key_seed(IdSeed { names: n, enumv: false })? {
        match id {
            Some(i) => {
                if v[i].is_some() { return Err(de::Error::custom("duplicate field")) }
                v[i] = Some(a.next_value_seed(Seed { s: &t[i], rec })?);
            }
            None => { a.next_value::<IgnoredAny>()?; }
        }
    }
    v.into_iter().zip(t).map(|(x, s)| match (x, s) {
        (Some(x), _) => Ok(x),
        (None, Sch::Opt(_)) => Ok(Val::None),
        _ => Err(de::Error::custom("missing field")),
    }).collect()
}
struct FieldsVis<'s> { n: Option<Names>, t: &'s [Sch], rec: &'s Rec }
impl<'de> Visitor<'de> for FieldsVis<'_> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fields") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> { t!(A::Error); seq_fields(a, self.t, self.rec) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> { t!(A::Error); 
        match self.n { Some(n) => map_fields(a, n, self.t, self.rec), None => Err(de::Error::custom("unexpected map")) }
    }
}
struct IdSeed { names: Names, enumv: bool }
impl<'de> DeserializeSeed<'de> for IdSeed {
    type Value = Option<usize>;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { told(d.is_human_readable()); t!(D::Error); d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for IdSeed {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Option<usize>, E> { t!(E); 
        if n < self.names.len() as u64 { Ok(Some(n as usize)) } else if self.enumv { Err(E::custom("variant index")) } else { Ok(None) }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> { t!(E); 
        match self.names.iter().position(|n| *n == s) { Some(i) => Ok(Some(i)), None if self.enumv => Err(E::custom("unknown variant")), None => Ok(None) }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Option<usize>, E> { t!(E); 
        match self.names.iter().position(|n| n.as_bytes() == s) { Some(i) => Ok(Some(i)), None if self.enumv => Err(E::custom("unknown variant")), None => Ok(None) }
    }
}
impl<'de, 's> DeserializeSeed<'de> for Seed<'s> {
    type Value = Val;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        told(d.is_human_readable());
        t!(D::Error);
        let v = self.get(d)?;
        t!(D::Error);
        Ok(v)
    }
}
impl<'s> Seed<'s> {
    fn get<'de, D: de::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        use Sch::*;
        let v = Vis { s: self.s, rec: self.rec };
        self.rec.visits.set(self.rec.visits.get() + 1);
        match self.s {
            Unit => d.deserialize_unit(v), UnitStruct => d.deserialize_unit_struct("UnitStruct", v), Bool => d.deserialize_bool(v),
            I8 => d.deserialize_i8(v), I16 => d.deserialize_i16(v), I32 => d.deserialize_i32(v), I64 => d.deserialize_i64(v),
            U8 => d.deserialize_u8(v), U16 => d.deserialize_u16(v), U32 => d.deserialize_u32(v), U64 => d.deserialize_u64(v),
            F32 => d.deserialize_f32(v), F64 => d.deserialize_f64(v), Char => d.deserialize_char(v),
            Str(o) => if *o { d.deserialize_string(v) } else { d.deserialize_str(v) },
            Fmt => d.deserialize_string(v),
            Bytes(o) => if *o { d.deserialize_byte_buf(v) } else { d.deserialize_bytes(v) },
            Opt(_) => d.deserialize_option(v), Newtype(_) => d.deserialize_newtype_struct("Newtype", v),
            Seq(_) => d.deserialize_seq(v), Tuple(t) => d.deserialize_tuple(t.len(), v), TupStruct(t) => d.deserialize_tuple_struct("TupStruct", t.len(), v),
            Map(..) => d.deserialize_map(v), Struct(n, _) => d.deserialize_struct("Struct", n, v), Enum(n, _) => d.deserialize_enum("Enum", n, v),
            Ignore => { IgnoredAny::deserialize(d)?; Ok(Val::Unit) }
        }
    }
}
thread_local! { static CUR: Cell<(*const Sch, *const Rec)> = const { Cell::new((std::ptr::null(), std::ptr::null())) }; }
/// `Deserialize` for the schema installed by `with_schema`, so the crates' own entry points can be called.
pub struct Dyn(pub Val);
pub fn with_schema<T>(s: &Sch, rec: &Rec, f: impl FnOnce() -> T) -> T {
    let old = CUR.with(|c| c.replace((s, rec)));
    struct G((*const Sch, *const Rec));
    impl Drop for G { fn drop(&mut self) { CUR.with(|c| c.set(self.0)) } }
    let _g = G(old);
    f()
}
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let (s, r) = CUR.with(|c| c.get());
        assert!(!s.is_null());
        // SAFETY: with_schema keeps both alive for the duration of the call
        let (s, rec) = unsafe { (&*s, &*r) };
        Seed { s, rec }.deserialize(d).map(Dyn)
    }
}
