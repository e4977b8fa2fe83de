//! A generic value tree filled through `deserialize_any`, keeping borrowed data borrowed.
use crate::jref::*;
use crate::mref::M;
use serde::de::{self, Deserialize, MapAccess, SeqAccess, Visitor};
use std::fmt;

#[derive(Debug, Clone)]
pub enum Any<'de> {
    Unit, None, Bool(bool), U(u64), I(i64), F32(f32), F64(f64), Char(char),
    Str(&'de str), StrO(String), Bytes(&'de [u8]), BytesO(Vec<u8>),
    Seq(Vec<Any<'de>>), Map(Vec<(Any<'de>, Any<'de>)>), Other,
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Any<'de>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, b: bool) -> Result<Any<'de>, E> { Ok(Any::Bool(b)) }
    fn visit_u64<E>(self, b: u64) -> Result<Any<'de>, E> { Ok(Any::U(b)) }
    fn visit_i64<E>(self, b: i64) -> Result<Any<'de>, E> { Ok(Any::I(b)) }
    fn visit_f32<E>(self, b: f32) -> Result<Any<'de>, E> { Ok(Any::F32(b)) }
    fn visit_f64<E>(self, b: f64) -> Result<Any<'de>, E> { Ok(Any::F64(b)) }
    fn visit_char<E>(self, b: char) -> Result<Any<'de>, E> { Ok(Any::Char(b)) }
    fn visit_str<E>(self, b: &str) -> Result<Any<'de>, E> { Ok(Any::StrO(b.into())) }
    fn visit_borrowed_str<E>(self, b: &'de str) -> Result<Any<'de>, E> { Ok(Any::Str(b)) }
    fn visit_bytes<E>(self, b: &[u8]) -> Result<Any<'de>, E> { Ok(Any::BytesO(b.into())) }
    fn visit_borrowed_bytes<E>(self, b: &'de [u8]) -> Result<Any<'de>, E> { Ok(Any::Bytes(b)) }
    fn visit_unit<E>(self) -> Result<Any<'de>, E> { Ok(Any::Unit) }
    fn visit_none<E>(self) -> Result<Any<'de>, E> { Ok(Any::None) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any<'de>, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? { v.push(x) }
        Ok(Any::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any<'de>, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? { v.push(x) }
        Ok(Any::Map(v))
    }
    fn visit_some<D: de::Deserializer<'de>>(self, _: D) -> Result<Any<'de>, D::Error> { Ok(Any::Other) }
}
impl<'de> Deserialize<'de> for Any<'de> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_any(V) }
}
impl<'de> Any<'de> {
    fn str(&self) -> Option<&str> { match self { Any::Str(s) => Some(s), Any::StrO(s) => Some(s), _ => None } }
    /// every borrowed slice held by the tree
    pub fn lent<'a>(&'a self, o: &mut Vec<&'de [u8]>) {
        match self {
            Any::Str(s) => o.push(s.as_bytes()), Any::Bytes(b) => o.push(b),
            Any::Seq(v) => for x in v { x.lent(o) },
            Any::Map(v) => for (a, b) in v { a.lent(o); b.lent(o) },
            _ => {}
        }
    }
    /// canonical text, used for digests
    pub fn canon(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            Any::F32(f) if f.is_nan() => o.push_str("F32nan"), Any::F64(f) if f.is_nan() => o.push_str("F64nan"),
            Any::F32(f) => { let _ = write!(o, "f{:x}", f.to_bits()); } Any::F64(f) => { let _ = write!(o, "d{:x}", f.to_bits()); }
            Any::U(n) => { let _ = write!(o, "{n}"); } Any::I(n) => { let _ = write!(o, "{n}"); }
            Any::Seq(v) => { o.push('['); for x in v { x.canon(o); o.push(',') } o.push(']') }
            Any::Map(v) => { o.push('{'); for (a, b) in v { a.canon(o); o.push(':'); b.canon(o); o.push(',') } o.push('}') }
            Any::Str(s) => { let _ = write!(o, "b{} ", s.len()); o.push_str(s) }
            Any::StrO(s) => { let _ = write!(o, "o{} ", s.len()); o.push_str(s) }
            Any::Char(x) => { let _ = write!(o, "'{:x}", *x as u32); }
            x => { let _ = write!(o, "{x:?}"); }
        }
    }
}
/// What a generic tree of this JSON document has to be. Err(true): must be rejected.
pub fn same_json(a: &Any, j: &J) -> Result<(), String> {
    let e = |w: &str| Err(format!("{w}: tree {a:?} from {j:?}"));
    match (a, j) {
        (Any::Unit, J::Null) => Ok(()),
        (Any::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (Any::U(_) | Any::I(_) | Any::F64(_) | Any::F32(_), J::Num(l)) => {
            if !strict_num(l) {
                // may be refused, but has only one meaning
                let (f, g) = (l.parse::<f64>().unwrap_or(f64::NAN), l.parse::<f32>().unwrap_or(f32::NAN));
                return match a { Any::U(x) if *x as f64 == f => Ok(()), Any::I(x) if *x as f64 == f => Ok(()), Any::F64(x) if *x == f => Ok(()), Any::F32(x) if *x == g => Ok(()), _ => e("number") };
            }
            if plain_int(l) {
                let n = exact_int(l);
                let fits = n.is_some_and(|n| n >= i64::MIN as i128 && n <= u64::MAX as i128);
                if fits {
                    return match a { Any::U(x) if Some(*x as i128) == n => Ok(()), Any::I(x) if Some(*x as i128) == n => Ok(()), _ => e("integer") };
                }
            }
            match a {
                Any::F64(x) if !cfg!(feature = "anyf32") && l.parse::<f64>() == Ok(*x) => Ok(()),
                Any::F32(x) if cfg!(feature = "anyf32") && l.parse::<f32>() == Ok(*x) => Ok(()),
                _ => e("float"),
            }
        }
        (x, J::Str(s)) if x.str().is_some() => if x.str() == s.text() { Ok(()) } else { e("string") },
        (Any::Seq(v), J::Arr(w)) if v.len() == w.len() => { for (x, y) in v.iter().zip(w) { same_json(x, y)? } Ok(()) }
        (Any::Map(v), J::Obj(w)) if v.len() == w.len() => {
            for ((k, x), (l, y)) in v.iter().zip(w) {
                if k.str().is_none() || k.str() != l.text() { return e("key") }
                same_json(x, y)?
            }
            Ok(())
        }
        _ => e("structure"),
    }
}
/// Must the generic tree be rejected (Some(true)), accepted (Some(false)), or either (None)?
pub fn any_verdict(j: &J) -> Option<bool> {
    let all = |v: &mut dyn Iterator<Item = Option<bool>>| { let mut r = Some(false); for x in v { match x { Some(true) => return Some(true), None => r = None, _ => {} } } r };
    match j {
        J::Null | J::Bool(_) => Some(false),
        J::Num(l) => if strict_num(l) { Some(false) } else if !begins_num(l) || l.parse::<f64>().is_err() { Some(true) } else { None },
        J::Str(s) => Some(s.text().is_none()),
        J::Arr(v) => all(&mut v.iter().map(any_verdict)),
        J::Obj(v) => all(&mut v.iter().map(|(k, x)| if k.text().is_none() { Some(true) } else { any_verdict(x) })),
    }
}
pub fn same_msgpack(a: &Any, m: &M) -> Result<(), String> {
    let e = |w: &str| Err(format!("{w}: tree {a:?} from {m:?}"));
    match (a, m) {
        (Any::Unit | Any::None, M::Nil) => Ok(()),
        (Any::Bool(a), M::Bool(b)) if a == b => Ok(()),
        (Any::U(x), M::Int(n, _)) if *x as i128 == *n => Ok(()),
        (Any::I(x), M::Int(n, _)) if *x as i128 == *n => Ok(()),
        (Any::F32(x), M::F32(b)) if x.to_bits() == *b => Ok(()),
        (Any::F64(x), M::F64(b)) if x.to_bits() == *b => Ok(()),
        (x, M::Str(s)) if x.str().is_some() => if x.str().unwrap().as_bytes() == &s[..] { Ok(()) } else { e("string") },
        (Any::Bytes(b), M::Bin(c)) if b == c => Ok(()),
        (Any::BytesO(b), M::Bin(c)) if b == c => Ok(()),
        (Any::Seq(v), M::Arr(w)) if v.len() == w.len() => { for (x, y) in v.iter().zip(w) { same_msgpack(x, y)? } Ok(()) }
        (Any::Map(v), M::Map(w)) if v.len() == w.len() => { for ((k, x), (l, y)) in v.iter().zip(w) { same_msgpack(k, l)?; same_msgpack(x, y)? } Ok(()) }
        _ => e("structure"),
    }
}
/// true: has to be rejected as a generic tree (extension types, invalid UTF-8)
pub fn any_rejects(m: &M) -> bool {
    match m {
        M::Ext(..) => true, M::Str(s) => std::str::from_utf8(s).is_err(),
        M::Arr(v) => v.iter().any(any_rejects), M::Map(v) => v.iter().any(|(k, x)| any_rejects(k) || any_rejects(x)),
        _ => false,
    }
}
