//! X02: values of unknown type handed from a deserializer straight to a serializer, element by element.
use crate::jref::{self, J};
use crate::mref::{self, M};
use crate::runner::*;
use crate::sink::*;
use crate::util::*;
use serde::de::{self, Deserializer as _, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Error as _, Serialize, SerializeMap, SerializeSeq, Serializer};
use std::cell::RefCell;
use std::fmt;

/// what `D` reads, to be serialized once
struct From<D>(RefCell<Option<D>>);
fn from<D>(d: D) -> From<D> { From(RefCell::new(Some(d))) }
impl<'de, D: de::Deserializer<'de>> Serialize for From<D> where D::Error: fmt::Display {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let d = self.0.borrow_mut().take().expect("only once");
        d.deserialize_any(Into(s)).map_err(S::Error::custom)
    }
}
struct Into<S>(S);
fn up<T, E: de::Error>(r: Result<T, impl fmt::Display>) -> Result<T, E> { r.map_err(E::custom) }
impl<'de, S: Serializer> Visitor<'de> for Into<S> {
    type Value = S::Ok;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<S::Ok, E> { up(self.0.serialize_bool(v)) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<S::Ok, E> { up(self.0.serialize_u64(v)) }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<S::Ok, E> { up(self.0.serialize_i64(v)) }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<S::Ok, E> { up(self.0.serialize_u8(v)) }
    fn visit_i8<E: de::Error>(self, v: i8) -> Result<S::Ok, E> { up(self.0.serialize_i8(v)) }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<S::Ok, E> { up(self.0.serialize_u16(v)) }
    fn visit_i16<E: de::Error>(self, v: i16) -> Result<S::Ok, E> { up(self.0.serialize_i16(v)) }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<S::Ok, E> { up(self.0.serialize_u32(v)) }
    fn visit_i32<E: de::Error>(self, v: i32) -> Result<S::Ok, E> { up(self.0.serialize_i32(v)) }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<S::Ok, E> { up(self.0.serialize_f32(v)) }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<S::Ok, E> { up(self.0.serialize_f64(v)) }
    fn visit_char<E: de::Error>(self, v: char) -> Result<S::Ok, E> { up(self.0.serialize_char(v)) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<S::Ok, E> { up(self.0.serialize_str(v)) }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<S::Ok, E> { up(self.0.serialize_bytes(v)) }
    fn visit_unit<E: de::Error>(self) -> Result<S::Ok, E> { up(self.0.serialize_unit()) }
    fn visit_none<E: de::Error>(self) -> Result<S::Ok, E> { up(self.0.serialize_none()) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<S::Ok, D::Error> { d.deserialize_any(self) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<S::Ok, D::Error> { d.deserialize_any(self) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<S::Ok, A::Error> {
        struct One<'a, Q>(&'a mut Q);
        impl<'de, Q: SerializeSeq> DeserializeSeed<'de> for One<'_, Q> {
            type Value = ();
            fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { up(self.0.serialize_element(&from(d))) }
        }
        let mut q = up(self.0.serialize_seq(a.size_hint()))?;
        while a.next_element_seed(One(&mut q))?.is_some() {}
        up(q.end())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<S::Ok, A::Error> {
        struct Key<'a, Q>(&'a mut Q);
        impl<'de, Q: SerializeMap> DeserializeSeed<'de> for Key<'_, Q> {
            type Value = ();
            fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { up(self.0.serialize_key(&from(d))) }
        }
        struct One<'a, Q>(&'a mut Q);
        impl<'de, Q: SerializeMap> DeserializeSeed<'de> for One<'_, Q> {
            type Value = ();
            fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { up(self.0.serialize_value(&from(d))) }
        }
        let mut q = up(self.0.serialize_map(a.size_hint()))?;
        while a.next_key_seed(Key(&mut q))?.is_some() { a.next_value_seed(One(&mut q))? }
        up(q.end())
    }
}
// ---------------------------------------------------------------- what has to come out
fn same_m(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Nil, M::Nil) => true,
        (M::Bool(a), M::Bool(b)) => a == b,
        (M::Int(a, _), M::Int(b, _)) => a == b,
        (M::F32(a), M::F32(b)) => a == b || f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan(),
        (M::F64(a), M::F64(b)) => a == b || f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan(),
        (M::Str(a), M::Str(b)) | (M::Bin(a), M::Bin(b)) => a == b,
        (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_m(a, b)),
        (M::Map(a), M::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_m(&a.0, &b.0) && same_m(&a.1, &b.1)),
        _ => false,
    }
}
/// the JSON that this message is in the given byte mode
fn same_mj(m: &M, j: &J, bm: BM) -> bool {
    match (m, j) {
        (M::Nil, J::Null) => true,
        (M::Bool(a), J::Bool(b)) => a == b,
        (M::Int(a, _), J::Num(b)) => a.to_string() == *b,
        (M::F32(a), J::Null) => !f32::from_bits(*a).is_finite(),
        (M::F64(a), J::Null) => !f64::from_bits(*a).is_finite(),
        (M::F32(a), J::Num(b)) => b.parse::<f32>().is_ok_and(|b| b == f32::from_bits(*a)),
        (M::F64(a), J::Num(b)) => b.parse::<f64>().is_ok_and(|b| b == f64::from_bits(*a)),
        (M::Str(a), J::Str(b)) => b.dec.as_ref() == Some(a),
        (M::Bin(a), J::Arr(b)) => bm == BM::Arr && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| matches!(b, J::Num(b) if a.to_string() == *b)),
        (M::Bin(a), J::Str(b)) => match bm { BM::Hex => b.text() == Some(&jref::hex_upper(a)), BM::B64 => b.text() == Some(&jref::b64(a)), _ => false },
        (M::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_mj(a, b, bm)),
        (M::Map(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match &a.0 {
            M::Str(k) => b.0.dec.as_ref() == Some(k), M::Int(k, _) => b.0.text() == Some(&k.to_string()), M::Bool(k) => b.0.text() == Some(&k.to_string()), _ => false,
        } && same_mj(&a.1, &b.1, bm)),
        _ => false,
    }
}
fn keys_fit(m: &M) -> bool {
    match m { M::Arr(v) => v.iter().all(keys_fit), M::Map(v) => v.iter().all(|(k, v)| matches!(k, M::Str(_) | M::Int(..) | M::Bool(_)) && keys_fit(v)), _ => true }
}
fn same_j(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::Num(a), J::Null) => !number(a).is_finite(),
        (J::Num(a), J::Num(b)) => match a.parse::<i128>() {
            Ok(n) if (i64::MIN as i128..=u64::MAX as i128).contains(&n) => n.to_string() == *b,
            _ => number(a) == number(b),
        },
        (J::Str(a), J::Str(b)) => a.dec.is_some() && a.dec == b.dec,
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_j(a, b)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0.dec.is_some() && a.0.dec == b.0.dec && same_j(&a.1, &b.1)),
        _ => false,
    }
}
/// numbers of unknown type are read as `f32` under `de-any-f32`
fn number(s: &str) -> f64 { if cfg_is("rel-anyf32") || cfg_is("chk-anyf32") { s.parse::<f32>().map_or(f64::NAN, |x| x as f64) } else { s.parse().unwrap_or(f64::NAN) } }
fn odd(j: &J) -> bool {
    match j { J::Num(n) => !jref::strict_num(n), J::Str(s) => s.text().is_none(), J::Arr(v) => v.iter().any(odd), J::Obj(v) => v.iter().any(|(k, v)| k.text().is_none() || odd(v)), _ => false }
}
pub fn from_msgpack(c: &mut Ctx) -> R {
    let d = c.rng.range(0, 4);
    let t = mref::gen_tree(&mut c.rng, d, false);
    let wild = c.rng.coin();
    let mut e = mref::Enc { o: vec![], rng: if wild { Some(&mut c.rng) } else { None }, fix1: false };
    e.tree(&t);
    let b = e.o;
    c.seen(&b);
    // into MessagePack: the shortest form of the same
    let f = *c.rng.pick(&FLS);
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&b);
    let mut w = MonW::new();
    mser_to(f, &mut w, &from(&mut d)).map_err(|e| format!("{e:?} while {} is streamed into {f:?} MessagePack", hex(&b)))?;
    c.eval();
    let (m, n, min) = mref::parse(&w.buf).map_err(|e| format!("streamed {} into invalid {}", hex(&b), hex(&w.buf)))?;
    if n != w.buf.len() || !min || !same_m(&t, &m) { return Err(format!("streamed {} as {}", hex(&b), hex(&w.buf))) }
    if d.remaining_len() != 0 { return Err(format!("{} bytes left of {}", d.remaining_len(), hex(&b))) }
    // into JSON
    let bm = *c.rng.pick(&BMS);
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&b);
    let mut w = MonW::new();
    let r = jser_to(bm, &mut w, &from(&mut d));
    c.eval();
    if r.is_ok() != keys_fit(&t) { return Err(format!("{r:?} when {} is streamed into JSON", hex(&b))) }
    if r.is_ok() {
        c.count("messages streamed into JSON", 1);
        let p = jref::parse(&w.buf).map_err(|at| format!("streamed {} into invalid JSON at {at}: {}", hex(&b), show(&w.buf)))?;
        if p.ws || !same_mj(&t, &p.j, bm) { return Err(format!("streamed {} into ({bm:?}) {}", hex(&b), show(&w.buf))) }
    }
    Ok(())
}
pub fn from_json(c: &mut Ctx) -> R {
    use ser_write_json::de::*;
    let st = jref::style(&mut c.rng);
    let text = { let mut r = jref::Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None }; r.ws(); r.any(5); r.ws(); r.o };
    let Ok(p) = jref::parse(&text) else { return Ok(()) };
    if odd(&p.j) { return Ok(()) }
    c.seen(&text);
    let bm = *c.rng.pick(&BMS);
    let mut b = text.clone();
    let mut w = MonW::new();
    let (r, left) = { let mut d = Deserializer::<StringByteNopeDecoder>::from_mut_slice(&mut b); let r = jser_to(bm, &mut w, &from(&mut d)); (r, d.end()) };
    c.eval();
    if r.is_err() || left.is_err() { return Err(format!("{r:?}, then {left:?} when {} is streamed into JSON", show(&text))) }
    let q = jref::parse(&w.buf).map_err(|at| format!("streamed {} into invalid JSON at {at}: {}", show(&text), show(&w.buf)))?;
    if q.ws || !same_j(&p.j, &q.j) { return Err(format!("streamed {} into {}", show(&text), show(&w.buf))) }
    c.count("documents streamed into JSON", 1);
    // and what it gives is a fixed point
    let once = w.buf;
    let mut b = once.clone();
    let mut w = MonW::new();
    let r = { let mut d = Deserializer::<StringByteNopeDecoder>::from_mut_slice(&mut b); jser_to(bm, &mut w, &from(&mut d)) };
    c.eval();
    if r.is_err() || w.buf != once { return Err(format!("{r:?}: streamed {} into {}", show(&once), show(&w.buf))) }
    // MessagePack wants lengths first, which JSON cannot give
    let mut b = text.clone();
    let mut w = MonW::new();
    let r = { let mut d = Deserializer::<StringByteNopeDecoder>::from_mut_slice(&mut b); mser_to(Fl::Named, &mut w, &from(&mut d)) };
    c.eval();
    let flat = !matches!(p.j, J::Arr(_) | J::Obj(_));
    if r.is_ok() != flat { return Err(format!("{r:?} when {} is streamed into MessagePack", show(&text))) }
    if !flat && !w.buf.is_empty() { return Err(format!("{} written before {} is refused", hex(&w.buf), show(&text))) }
    if flat {
        let m = mref::parse(&w.buf).map_err(|_| format!("streamed {} into invalid {}", show(&text), hex(&w.buf)))?.0;
        let ok = match (&p.j, &m) { (J::Num(n), M::F64(f)) => number(n) == f64::from_bits(*f) || !number(n).is_finite(), (J::Num(n), M::F32(f)) => number(n) == f32::from_bits(*f) as f64, (j, m) => same_mj(m, j, BM::Arr) || matches!((j, m), (J::Num(n), M::Int(0, _)) if n == "-0") };
        if !ok { return Err(format!("streamed {} into {}", show(&text), hex(&w.buf))) }
    }
    Ok(())
}
