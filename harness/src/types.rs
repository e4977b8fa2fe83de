//! serde-derived types covering the containers and attributes users actually write.
use crate::model::*;
use crate::rng::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;
use std::net::Ipv4Addr;
use std::time::Duration;

/// floats compared up to what JSON can express
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
#[serde(transparent)]
pub struct F64(pub f64);
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
#[serde(transparent)]
pub struct F32(pub f32);
impl PartialEq for F64 { fn eq(&self, o: &F64) -> bool { self.0 == o.0 || !self.0.is_finite() && o.0.is_nan() || !o.0.is_finite() && self.0.is_nan() } }
impl PartialEq for F32 { fn eq(&self, o: &F32) -> bool { self.0 == o.0 || !self.0.is_finite() && o.0.is_nan() || !o.0.is_finite() && self.0.is_nan() } }

/// Duration only recognizes its fields by name: not for the index-keyed layout
#[derive(Debug, PartialEq, Clone)]
pub struct Dur(pub Duration);
impl Serialize for Dur { fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { if z.is_human_readable() { self.0.serialize(z) } else { (self.0.as_secs(), self.0.subsec_nanos()).serialize(z) } } }
impl<'de> Deserialize<'de> for Dur {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dur, D::Error> {
        if d.is_human_readable() { Duration::deserialize(d).map(Dur) } else { let (a, b) = <(u64, u32)>::deserialize(d)?; Ok(Dur(Duration::new(a, b % 1_000_000_000))) }
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Us;
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Nt(pub Option<String>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Ts(pub u8, pub Us, pub String);
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Key { North, #[serde(rename = "the \"south\"")] South, #[serde(alias = "e")] East }
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub struct NtKey(pub u16);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub enum Kind {
    Unit, New(i32), NewStr(String), Opt(Option<u8>), Tup(u8, String), Empty {}, Struct { a: i16, b: Option<Box<Kind>>, #[serde(with = "serde_bytes")] c: Vec<u8> }, List(Vec<Kind>),
    #[serde(rename = "ünit\n")] Odd,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename_all = "camelCase")]
pub struct Doc {
    pub id: u64, pub neg_value: i64, pub small: (u8, i8, u16, i16, u32, i32), pub f: F64, pub g: F32, pub flag: bool, pub c: char, pub name: String,
    pub opt: Option<Box<Doc>>, pub list: Vec<Option<i16>>, pub kinds: Vec<Kind>,
    pub byname: BTreeMap<String, u32>, pub bynum: BTreeMap<i32, Kind>, pub bychar: BTreeMap<char, bool>, pub bykey: BTreeMap<Key, u8>, pub bybool: BTreeMap<bool, ()>, pub bynt: BTreeMap<NtKey, i8>,
    pub raw: ByteBuf, pub arr: [u16; 3], pub unit: (), pub us: Us, pub nt: Nt, pub ts: Ts, pub ip: Ipv4Addr, pub dur: Dur, pub res: Result<u8, String>,
    #[serde(rename = "we\"ird\\")] pub weird: u8,
    pub last: Option<bool>,
}
pub fn kind(r: &mut Rng, d: usize) -> Kind {
    match r.below(if d == 0 { 7 } else { 9 }) {
        0 => Kind::Unit, 1 => Kind::New(gen_i64(r, 32) as i32), 2 => Kind::NewStr(gen_str(r)), 3 => Kind::Opt(if r.coin() { Some(r.next() as u8) } else { None }),
        4 => Kind::Tup(r.next() as u8, gen_str(r)), 5 => Kind::Empty {}, 6 => Kind::Odd,
        7 => Kind::Struct { a: gen_i64(r, 16) as i16, b: if r.coin() { Some(Box::new(kind(r, d - 1))) } else { None }, c: gen_bytes(r) },
        _ => Kind::List((0..r.below(4)).map(|_| kind(r, d - 1)).collect()),
    }
}
pub fn doc(r: &mut Rng, d: usize) -> Doc {
    let k = if crate::util::tiny() { 2 } else { 5 };
    Doc {
        id: gen_u64(r, 64), neg_value: gen_i64(r, 64), small: (r.next() as u8, r.next() as i8, r.next() as u16, gen_i64(r, 16) as i16, gen_u64(r, 32) as u32, gen_i64(r, 32) as i32),
        f: F64(gen_f64(r)), g: F32(gen_f32(r)), flag: r.coin(), c: gen_char(r), name: gen_str(r),
        opt: if d > 0 && r.one_in(3) { Some(Box::new(doc(r, d - 1))) } else { None },
        list: (0..r.below(k)).map(|_| if r.coin() { Some(r.next() as i16) } else { None }).collect(),
        kinds: (0..r.below(k)).map(|_| kind(r, 2)).collect(),
        byname: (0..r.below(k)).map(|_| (gen_str(r), gen_u64(r, 32) as u32)).collect(),
        bynum: (0..r.below(k)).map(|_| (gen_i64(r, 32) as i32, kind(r, 1))).collect(),
        bychar: (0..r.below(k)).map(|_| (gen_char(r), r.coin())).collect(),
        bykey: (0..r.below(k)).map(|_| (match r.below(3) { 0 => Key::North, 1 => Key::South, _ => Key::East }, r.next() as u8)).collect(),
        bybool: (0..r.below(3)).map(|_| (r.coin(), ())).collect(),
        bynt: (0..r.below(k)).map(|_| (NtKey(r.next() as u16), r.next() as i8)).collect(),
        raw: ByteBuf::from(gen_bytes(r)), arr: [r.next() as u16, 0, 65535], unit: (), us: Us, nt: Nt(if r.coin() { Some(gen_str(r)) } else { None }),
        ts: Ts(r.next() as u8, Us, gen_str(r)), ip: Ipv4Addr::from(r.next() as u32), dur: Dur(Duration::new(r.next() >> 1, r.below(1_000_000_000) as u32)),
        res: if r.coin() { Ok(r.next() as u8) } else { Err(gen_str(r)) }, weird: r.next() as u8, last: match r.below(3) { 0 => None, 1 => Some(true), _ => Some(false) },
    }
}

// ---------------------------------------------------------------- types that need a self-describing format
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Inner { pub p: i32, pub q: String, pub r: Option<u8> }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
pub enum Unt { Flag(bool), Int(i64), Big(u64), Frac(f64), Text(String), List(Vec<Unt>), Rec(Inner), Map(BTreeMap<String, Unt>), Nil }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t")]
pub enum Itag { A { x: i32, y: String, z: Vec<u16> }, B(Inner), C, #[serde(rename = "d\"")] D { v: Option<Box<Itag>> } }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", content = "c")]
pub enum Atag { A { x: i32, y: String }, B(u8, String), C, D(Vec<i16>), E(Inner), F(Option<Box<Atag>>) }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Flat { pub a: u8, #[serde(flatten)] pub inner: Inner, #[serde(flatten)] pub extra: BTreeMap<String, i64>, pub z: bool }
/// defaults, aliases, renames
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
pub struct Attrs {
    #[serde(default)] pub a: u32, #[serde(alias = "bb", alias = "bbb")] pub b: String, #[serde(default, skip_serializing_if = "Option::is_none")] pub c: Option<i8>,
    #[serde(skip)] pub s: u8, #[serde(rename(serialize = "dd", deserialize = "dd"))] pub d: bool,
}
/// a fractional float exactly representable with 32 bits
pub fn frac(r: &mut Rng) -> f64 { let n = r.below(200_000) as i64 - 100_000; (n as f64) + 0.5 }
pub fn inner(r: &mut Rng) -> Inner { Inner { p: gen_i64(r, 32) as i32, q: gen_str(r), r: if r.coin() { Some(r.next() as u8) } else { None } } }
pub fn unt(r: &mut Rng, d: usize) -> Unt {
    match r.below(if d == 0 { 7 } else { 9 }) {
        0 => Unt::Flag(r.coin()), 1 => Unt::Int(gen_i64(r, 64)), 2 => Unt::Big(u64::MAX - (r.next() >> 1)), 3 => Unt::Frac(frac(r)), 4 => Unt::Text(gen_str(r)), 5 => Unt::Rec(inner(r)), 6 => Unt::Nil,
        7 => Unt::List((0..r.below(4)).map(|_| unt(r, d - 1)).collect()),
        _ => Unt::Map((0..r.below(4)).map(|i| (format!("{}{i}", gen_str(r)), unt(r, d - 1))).collect()),
    }
}
pub fn itag(r: &mut Rng, d: usize) -> Itag {
    match r.below(4) {
        0 => Itag::A { x: gen_i64(r, 32) as i32, y: gen_str(r), z: (0..r.below(4)).map(|_| r.next() as u16).collect() },
        1 => Itag::B(inner(r)), 2 => Itag::C, _ => Itag::D { v: if d > 0 && r.coin() { Some(Box::new(itag(r, d - 1))) } else { None } },
    }
}
pub fn atag(r: &mut Rng, d: usize) -> Atag {
    match r.below(6) {
        0 => Atag::A { x: gen_i64(r, 32) as i32, y: gen_str(r) }, 1 => Atag::B(r.next() as u8, gen_str(r)), 2 => Atag::C, 3 => Atag::D((0..r.below(5)).map(|_| r.next() as i16).collect()),
        4 => Atag::E(inner(r)), _ => Atag::F(if d > 0 && r.coin() { Some(Box::new(atag(r, d - 1))) } else { None }),
    }
}
pub fn flat(r: &mut Rng) -> Flat {
    Flat { a: r.next() as u8, inner: inner(r), extra: (0..r.below(5)).map(|i| (format!("k{i}{}", gen_str(r)), gen_i64(r, 64))).collect(), z: r.coin() }
}

// ---------------------------------------------------------------- borrowing types
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Bor<'a> {
    pub s: &'a str, #[serde(borrow, with = "serde_bytes")] pub b: &'a [u8], pub n: i32, #[serde(borrow)] pub v: Vec<&'a str>,
    #[serde(borrow)] pub o: Option<&'a str>, #[serde(borrow)] pub m: BTreeMap<&'a str, BorE<'a>>, pub t: &'a str,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub enum BorE<'a> { U, S(&'a str), B(#[serde(borrow)] &'a serde_bytes::Bytes), P { #[serde(borrow)] x: &'a str, #[serde(borrow)] y: Vec<&'a str> } }

/// writes any serializable value under an i128 (unsupported by the data model's default): used to provoke custom errors
pub struct Custom;
impl Serialize for Custom { fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("refused")) } }
impl<'de> Deserialize<'de> for Custom { fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Custom, D::Error> { Err(serde::de::Error::custom("refused")) } }

// ---------------------------------------------------------------- scripted Serialize implementations
/// A Serialize implementation driven by a script: wrong or missing length hints, skipped fields.
#[derive(Debug, Clone)]
pub enum Act {
    Leaf(Sch, Val),
    Seq { hint: Option<usize>, items: Vec<Act> },
    Map { hint: Option<usize>, items: Vec<(Act, Act)> },
    Tuple { kind: u8, len: usize, items: Vec<Act> },
    /// kind 0: struct, 1: struct variant; None: the field is skipped
    Struct { kind: u8, len: usize, names: Names, items: Vec<Option<Act>> },
    Some(Box<Act>), New(Box<Act>), NewVar(Box<Act>),
}
impl Serialize for Act {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self {
            Act::Leaf(s, v) => SV(s, v).serialize(z),
            Act::Seq { hint, items } => { let mut q = z.serialize_seq(*hint)?; for i in items { q.serialize_element(i)? } q.end() }
            Act::Map { hint, items } => {
                let mut q = z.serialize_map(*hint)?;
                for (n, (k, v)) in items.iter().enumerate() { if n % 2 == 1 { q.serialize_entry(k, v)? } else { q.serialize_key(k)?; q.serialize_value(v)? } }
                q.end()
            }
            Act::Tuple { kind: 0, len, items } => { let mut q = z.serialize_tuple(*len)?; for i in items { q.serialize_element(i)? } q.end() }
            Act::Tuple { kind: 1, len, items } => { let mut q = z.serialize_tuple_struct("T", *len)?; for i in items { q.serialize_field(i)? } q.end() }
            Act::Tuple { len, items, .. } => { let mut q = z.serialize_tuple_variant("E", 3, "tv", *len)?; for i in items { q.serialize_field(i)? } q.end() }
            Act::Struct { kind: 0, len, names, items } => { let mut q = z.serialize_struct("S", *len)?; for (n, i) in names.iter().zip(items) { match i { Some(i) => q.serialize_field(n, i)?, None => q.skip_field(n)? } } q.end() }
            Act::Struct { len, names, items, .. } => { let mut q = z.serialize_struct_variant("E", 200, "sv", *len)?; for (n, i) in names.iter().zip(items) { match i { Some(i) => q.serialize_field(n, i)?, None => q.skip_field(n)? } } q.end() }
            Act::Some(i) => z.serialize_some(&**i),
            Act::New(i) => z.serialize_newtype_struct("N", &**i),
            Act::NewVar(i) => z.serialize_newtype_variant("E", 7, "nv", &**i),
        }
    }
}

/// borrowed data through serde's buffered content
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
pub enum UntB<'a> { N(u32), #[serde(borrow)] S(&'a str), #[serde(borrow)] V(Vec<UntB<'a>>), #[serde(borrow)] M(BTreeMap<&'a str, UntB<'a>>) }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
pub enum Mixed { Nested { it: Box<Itag>, n: u8 }, Adj { at: Vec<Atag> }, Flt { f: Flat }, Opt { o: Option<Box<Mixed>>, u: Unt } }
