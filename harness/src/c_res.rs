//! What the crates use besides the input and the output: heap (X05), time (X06).
use crate::any::*;
use crate::c_json::*;
use crate::jref::{self, style};
use crate::mem;
use crate::model::*;
use crate::mref::{self, mstyle};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::sink::*;
use crate::util::*;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Serialize};
use ser_write::{SerWrite, SliceWriter};
use ser_write_json as sj;
use ser_write_msgpack as sm;
use std::cell::Cell;
use std::fmt;

// ================================================================ X05
/// Walks a document by its schema without keeping or allocating anything; yields a digest of what it saw.
#[derive(Clone, Copy)]
struct Walk<'s> { s: &'s Sch, st: &'s St }
#[derive(Default)]
struct St { base: Cell<usize>, len: Cell<usize>, lent: Cell<u64>, copied: Cell<u64>, outside: Cell<u64> }
impl St {
    fn lend(&self, b: &[u8]) {
        let p = b.as_ptr() as usize;
        self.lent.set(self.lent.get() + 1);
        if p < self.base.get() || p + b.len() > self.base.get() + self.len.get() { self.outside.set(self.outside.get() + 1) }
    }
}
const NONE: u64 = 11;
fn hf(f: f64) -> u64 { if f.is_finite() { mix(5, (f + 0.0).to_bits()) } else { 6 } }
fn hv(s: &Sch, v: &Val) -> u64 {
    use Sch::*;
    match (s, v) {
        (Unit | UnitStruct | Ignore, _) => 1,
        (_, Val::Bool(b)) => 2 + *b as u64,
        (_, Val::I(n)) => mix(4, *n as u64), (_, Val::U(n)) => mix(4, *n),
        (_, Val::F32(f)) => hf(*f as f64), (_, Val::F64(f)) => hf(*f), (_, Val::Char(c)) => mix(7, *c as u64),
        (_, Val::Str(s)) => mix(8, hash_bytes(s.as_bytes())), (_, Val::Bytes(b)) => mix(9, hash_bytes(b)),
        (Opt(_), Val::None) => NONE, (Opt(i), Val::Some(v)) => mix(12, hv(i, v)), (Newtype(i), Val::New(v)) => hv(i, v),
        (Seq(i), Val::Seq(v)) => v.iter().fold(13, |h, x| mix(h, hv(i, x))),
        (Tuple(t) | TupStruct(t) | Struct(_, t), Val::Seq(v)) => fields(t.iter().zip(v).map(|(s, x)| hv(s, x))),
        (Map(k, e), Val::Map(v)) => v.iter().fold(14, |h, (a, b)| mix(mix(h, hv(k, a)), hv(e, b))),
        (Enum(_, vs), Val::Enum(i, p)) => mix(15 + *i as u64, match &vs[*i as usize] { Var::Unit => 0, Var::New(s) => hv(s, &p[0]), Var::Tup(t) | Var::Struct(_, t) => fields(t.iter().zip(p).map(|(s, x)| hv(s, x))) }),
        _ => 99,
    }
}
fn fields(i: impl Iterator<Item = u64>) -> u64 { i.enumerate().fold(0u64, |h, (i, x)| h.wrapping_add(mix(i as u64, x))) }
struct WV<'s> { s: &'s Sch, st: &'s St }
impl WV<'_> {
    fn int<E: de::Error>(&self, n: i128) -> Result<u64, E> { match self.s { Sch::F32 | Sch::F64 => Ok(hf(n as f64)), _ => Ok(mix(4, n as u64)) } }
    fn text<E: de::Error>(&self, v: &str) -> Result<u64, E> {
        match self.s { Sch::Char => Ok(mix(7, v.chars().next().map_or(0, |c| c as u64))), Sch::Bytes(_) => Ok(mix(9, hash_bytes(v.as_bytes()))), _ => Ok(mix(8, hash_bytes(v.as_bytes()))) }
    }
}
impl<'de, 's> Visitor<'de> for WV<'s> {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("model value") }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<u64, E> { Ok(2 + b as u64) }
    fn visit_i64<E: de::Error>(self, n: i64) -> Result<u64, E> { self.int(n as i128) }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<u64, E> { self.int(n as i128) }
    fn visit_f32<E: de::Error>(self, f: f32) -> Result<u64, E> { Ok(hf(f as f64)) }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<u64, E> { Ok(hf(if let Sch::F32 = self.s { f as f32 as f64 } else { f })) }
    fn visit_char<E: de::Error>(self, c: char) -> Result<u64, E> { Ok(mix(7, c as u64)) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<u64, E> { if let Sch::Str(false) = self.s { self.st.copied.set(self.st.copied.get() + 1) } self.text(v) }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<u64, E> { self.st.lend(v.as_bytes()); self.text(v) }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<u64, E> { if let Sch::Bytes(false) = self.s { self.st.copied.set(self.st.copied.get() + 1) } Ok(mix(9, hash_bytes(v))) }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<u64, E> { self.st.lend(v); Ok(mix(9, hash_bytes(v))) }
    fn visit_unit<E: de::Error>(self) -> Result<u64, E> { Ok(match self.s { Sch::Opt(_) => NONE, _ => 1 }) }
    fn visit_none<E: de::Error>(self) -> Result<u64, E> { Ok(NONE) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> { let Sch::Opt(i) = self.s else { return Ok(99) }; Ok(mix(12, Walk { s: i, st: self.st }.deserialize(d)?)) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> { let Sch::Newtype(i) = self.s else { return Ok(99) }; Walk { s: i, st: self.st }.deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        match self.s {
            Sch::Seq(i) => { let mut h = 13; while let Some(x) = a.next_element_seed(Walk { s: i, st: self.st })? { h = mix(h, x) } Ok(h) }
            Sch::Tuple(t) | Sch::TupStruct(t) | Sch::Struct(_, t) => FV { n: None, t, st: self.st }.visit_seq(a),
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        match self.s {
            Sch::Map(k, e) => { let mut h = 14; while let Some(x) = a.next_key_seed(Walk { s: k, st: self.st })? { h = mix(h, x); h = mix(h, a.next_value_seed(Walk { s: e, st: self.st })?) } Ok(h) }
            Sch::Struct(n, t) => FV { n: Some(n), t, st: self.st }.visit_map(a),
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<u64, A::Error> {
        let Sch::Enum(n, vs) = self.s else { return Err(de::Error::custom("unexpected enum")) };
        let (id, va) = a.variant_seed(Id { names: n })?;
        let Some(i) = id else { return Err(de::Error::custom("unknown variant")) };
        Ok(mix(15 + i as u64, match &vs[i] {
            Var::Unit => { va.unit_variant()?; 0 }
            Var::New(s) => va.newtype_variant_seed(Walk { s, st: self.st })?,
            Var::Tup(t) => va.tuple_variant(t.len(), FV { n: None, t, st: self.st })?,
            Var::Struct(f, t) => va.struct_variant(f, FV { n: Some(f), t, st: self.st })?,
        }))
    }
}
struct FV<'s> { n: Option<Names>, t: &'s [Sch], st: &'s St }
impl<'de> Visitor<'de> for FV<'_> {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fields") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        let mut h = 0u64;
        for (i, s) in self.t.iter().enumerate() { match a.next_element_seed(Walk { s, st: self.st })? { Some(x) => h = h.wrapping_add(mix(i as u64, x)), None => return Err(de::Error::custom("too short")) } }
        Ok(h)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
        let Some(n) = self.n else { return Err(de::Error::custom("unexpected map")) };
        let mut h = fields((0..self.t.len()).map(|_| NONE));
        while let Some(id) = a.next_key_seed(Id { names: n })? {
            match id {
                Some(i) => { h = h.wrapping_sub(mix(i as u64, NONE)).wrapping_add(mix(i as u64, a.next_value_seed(Walk { s: &self.t[i], st: self.st })?)) }
                None => { a.next_value::<IgnoredAny>()?; }
            }
        }
        Ok(h)
    }
}
struct Id { names: Names }
impl<'de> DeserializeSeed<'de> for Id { type Value = Option<usize>; fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for Id {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("identifier") }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Option<usize>, E> { Ok((n < self.names.len() as u64).then_some(n as usize)) }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> { Ok(self.names.iter().position(|n| *n == s)) }
}
impl<'de, 's> DeserializeSeed<'de> for Walk<'s> {
    type Value = u64;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
        use Sch::*;
        let v = WV { s: self.s, st: self.st };
        match self.s {
            Unit => d.deserialize_unit(v), UnitStruct => d.deserialize_unit_struct("UnitStruct", v), Bool => d.deserialize_bool(v),
            I8 => d.deserialize_i8(v), I16 => d.deserialize_i16(v), I32 => d.deserialize_i32(v), I64 => d.deserialize_i64(v),
            U8 => d.deserialize_u8(v), U16 => d.deserialize_u16(v), U32 => d.deserialize_u32(v), U64 => d.deserialize_u64(v),
            F32 => d.deserialize_f32(v), F64 => d.deserialize_f64(v), Char => d.deserialize_char(v),
            Str(false) => d.deserialize_str(v), Str(true) | Fmt => d.deserialize_string(v),
            Bytes(false) => d.deserialize_bytes(v), Bytes(true) => d.deserialize_byte_buf(v),
            Opt(_) => d.deserialize_option(v), Newtype(_) => d.deserialize_newtype_struct("Newtype", v),
            Seq(_) => d.deserialize_seq(v), Tuple(t) => d.deserialize_tuple(t.len(), v), TupStruct(t) => d.deserialize_tuple_struct("TupStruct", t.len(), v),
            Map(..) => d.deserialize_map(v), Struct(n, _) => d.deserialize_struct("Struct", n, v), Enum(n, _) => d.deserialize_enum("Enum", n, v),
            Ignore => { IgnoredAny::deserialize(d)?; Ok(1) }
        }
    }
}
/// A self-describing walk.
struct AnyW<'s>(&'s St);
impl<'de> DeserializeSeed<'de> for AnyW<'_> { type Value = u64; fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> { d.deserialize_any(self) } }
impl<'de> Visitor<'de> for AnyW<'_> {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, _: bool) -> Result<u64, E> { Ok(1) }
    fn visit_i64<E>(self, _: i64) -> Result<u64, E> { Ok(1) }
    fn visit_u64<E>(self, _: u64) -> Result<u64, E> { Ok(1) }
    fn visit_f32<E>(self, _: f32) -> Result<u64, E> { Ok(1) }
    fn visit_f64<E>(self, _: f64) -> Result<u64, E> { Ok(1) }
    fn visit_unit<E>(self) -> Result<u64, E> { Ok(1) }
    fn visit_none<E>(self) -> Result<u64, E> { Ok(1) }
    fn visit_str<E>(self, _: &str) -> Result<u64, E> { self.0.copied.set(self.0.copied.get() + 1); Ok(1) }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<u64, E> { self.0.copied.set(self.0.copied.get() + 1); Ok(1) }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<u64, E> { self.0.lend(s.as_bytes()); Ok(1) }
    fn visit_borrowed_bytes<E>(self, s: &'de [u8]) -> Result<u64, E> { self.0.lend(s); Ok(1) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { let mut n = 1; while let Some(x) = a.next_element_seed(AnyW(self.0))? { n += x } Ok(n) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { let mut n = 1; while let Some(x) = a.next_key_seed(AnyW(self.0))? { n += x + a.next_value_seed(AnyW(self.0))? } Ok(n) }
}
thread_local! { static CUR: Cell<(*const Sch, *const St)> = const { Cell::new((std::ptr::null(), std::ptr::null())) }; }
struct Dig(u64);
impl<'de> Deserialize<'de> for Dig {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Dig, D::Error> {
        let (s, st) = CUR.with(|c| c.get());
        // SAFETY: set just before, for the duration of the call
        let st = unsafe { &*st };
        if s.is_null() { AnyW(st).deserialize(d).map(Dig) } else { Walk { s: unsafe { &*s }, st }.deserialize(d).map(Dig) }
    }
}
/// Run `f`, which must not touch the heap unless it ends with a message made by the value's own type.
fn dry<T, E: fmt::Debug>(c: &mut Ctx, st: &St, s: Option<&Sch>, inp: (usize, usize), own: impl Fn(&E) -> bool, f: impl FnOnce() -> Result<T, E>, what: impl Fn() -> String) -> Result<Option<T>, String> {
    CUR.with(|c| c.set((s.map_or(std::ptr::null(), |s| s as *const Sch), st)));
    st.base.set(inp.0);
    st.len.set(inp.1);
    let (c0, o0) = (st.copied.get(), st.outside.get());
    let (r, u) = mem::measure(f);
    c.evals(3);
    let excused = matches!(&r, Err(e) if own(e));
    if u.calls > 0 && !excused { return Err(format!("{} heap allocations ({} bytes) for {} ({})", u.calls, u.total, what(), match &r { Ok(_) => "accepted".into(), Err(e) => format!("{e:?}") })) }
    if st.copied.get() > c0 { return Err(format!("text or bytes were handed out as a copy: {}", what())) }
    if st.outside.get() > o0 { return Err(format!("what was lent is not part of the input: {}", what())) }
    if let Err(e) = &r { c.count("errors", 1); let _ = e; }
    Ok(r.ok())
}
#[allow(unreachable_patterns)]
fn jown(e: &sj::de::Error) -> bool { format!("{e:?}").starts_with("DeserializeError") }
fn mown(e: &sm::de::Error) -> bool { format!("{e:?}").starts_with("DeserializeError") }
fn x05_jde(c: &mut Ctx) -> R {
    let (s, v) = if c.rng.one_in(3) { let s = lendable(&mut c.rng, 4); let mut bu = 60; let v = value(&mut c.rng, &s, &mut bu); (s, v) } else { jval(&mut c.rng) };
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let doc = jref::render(&mut c.rng, st, m, &s, &v);
    c.seen(&doc);
    let w = St::default();
    let what = || format!("{:?} as {} ({m:?})", show(&doc), short(&s));
    let mut t = doc.clone();
    let inp = (t.as_ptr() as usize, t.len());
    match dry(c, &w, Some(&s), inp, jown, || jde::<Dig>(m, &mut t), what)? {
        Some(h) => if h.0 != hv(&s, &v) { return Err(format!("a different value was seen: {}", what())) },
        None => return Err(format!("rejected: {}", what())),
    }
    c.count("slices lent", w.lent.get());
    let mut t = doc.clone();
    let inp = (t.as_ptr() as usize, t.len());
    dry(c, &w, None, inp, jown, || jde::<Dig>(m, &mut t), || format!("{} walked as anything", what()))?;
    let mut t = doc.clone();
    dry(c, &w, None, inp, jown, || jde::<IgnoredAny>(m, &mut t), || format!("{} ignored", what()))?;
    // the same text, damaged
    let mut bad = doc.clone();
    for _ in 0..c.rng.range(1, 3) { mutate_json(&mut c.rng, &mut bad) }
    let what = || format!("{:?} as {} ({m:?})", show(&bad), short(&s));
    let mut t = bad.clone();
    let inp = (t.as_ptr() as usize, t.len());
    dry(c, &w, Some(&s), inp, jown, || jde::<Dig>(m, &mut t), what)?;
    let mut t = bad.clone();
    let inp = (t.as_ptr() as usize, t.len());
    dry(c, &w, None, inp, jown, || jde::<Dig>(m, &mut t), || format!("{} walked as anything", what()))?;
    let mut t = bad.clone();
    dry(c, &w, None, inp, jown, || jde::<IgnoredAny>(m, &mut t), || format!("{} ignored", what()))?;
    Ok(())
}
fn x05_mde(c: &mut Ctx) -> R {
    let (s, v) = if c.rng.one_in(3) { let s = lendable(&mut c.rng, 4); let mut bu = 60; let v = value(&mut c.rng, &s, &mut bu); (s, v) } else { mval(&mut c.rng) };
    let mut st = mstyle(&mut c.rng);
    st.floats = false;
    let o = mref::render(&mut c.rng, st, &s, &v);
    c.seen(&o);
    let w = St::default();
    let what = || format!("{} as {}", hex(&o), short(&s));
    let inp = (o.as_ptr() as usize, o.len());
    match dry(c, &w, Some(&s), inp, mown, || mde::<Dig>(&o), what)? {
        Some((h, _)) => if h.0 != hv(&s, &v) { return Err(format!("a different value was seen: {}", what())) },
        None => return Err(format!("rejected: {}", what())),
    }
    c.count("slices lent", w.lent.get());
    dry(c, &w, None, inp, mown, || mde::<Dig>(&o), || format!("{} walked as anything", what()))?;
    dry(c, &w, None, inp, mown, || mde::<IgnoredAny>(&o), || format!("{} ignored", what()))?;
    dry(c, &w, None, inp, mown, || sm::de::Deserializer::from_slice(&o).eat_message(), || format!("{} skipped", what()))?;
    dry(c, &w, Some(&s), inp, mown, || sm::from_slice_split_tail::<Dig>(&o), || format!("{} split", what()))?;
    let mut bad = o.clone();
    for _ in 0..c.rng.range(1, 3) { mutate_mp(&mut c.rng, &mut bad) }
    let inp = (bad.as_ptr() as usize, bad.len());
    let what = || format!("{} as {}", hex(&bad), short(&s));
    dry(c, &w, Some(&s), inp, mown, || mde::<Dig>(&bad), what)?;
    dry(c, &w, None, inp, mown, || mde::<Dig>(&bad), || format!("{} walked as anything", what()))?;
    dry(c, &w, None, inp, mown, || mde::<IgnoredAny>(&bad), || format!("{} ignored", what()))?;
    dry(c, &w, None, inp, mown, || sm::de::Deserializer::from_slice(&bad).eat_message(), || format!("{} skipped", what()))?;
    Ok(())
}
/// Formats without allocating; the fragments are single characters or the whole
struct Plain<'a>(&'a str);
impl fmt::Display for Plain<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.0.len() % 2 == 0 { f.write_str(self.0) } else { for ch in self.0.chars() { f.write_fmt(format_args!("{ch}"))? } Ok(()) } } }
struct Coll<'a>(&'a str);
impl Serialize for Coll<'_> { fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { z.collect_str(&Plain(self.0)) } }
/// the formatted text at some place of a larger value
struct At<'a>(&'a str, usize);
impl Serialize for At<'_> {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let x = Coll(self.0);
        match self.1 {
            0 => x.serialize(z),
            1 => z.serialize_some(&x),
            2 => z.serialize_newtype_struct("N", &x),
            3 => z.serialize_newtype_variant("E", 1, "V", &x),
            4 => z.collect_map([(&x, 1u8), (&x, 2)]),
            5 => z.collect_map([("k", &x)]),
            6 => z.collect_seq([&x, &x]),
            7 => { let mut m = z.serialize_map(Some(1))?; m.serialize_key(&x)?; m.serialize_value(&x)?; m.end() }
            8 => { let mut m = z.serialize_struct("S", 1)?; m.serialize_field("f", &x)?; m.end() }
            9 => { let mut m = z.serialize_struct_variant("E", 0, "V", 1)?; m.serialize_field("f", &x)?; m.end() }
            10 => { let mut m = z.serialize_tuple_variant("E", 0, "V", 1)?; m.serialize_field(&x)?; m.end() }
            _ => { let mut m = z.serialize_tuple(2)?; m.serialize_element(&x)?; m.serialize_element(&7u8)?; m.end() }
        }
    }
}
fn x05_ser(c: &mut Ctx) -> R {
    let json = c.rng.coin();
    let (s, v) = loop { let (s, v) = if json { jval(&mut c.rng) } else { mval(&mut c.rng) }; if !has_fmt(&s) { break (s, v) } };
    let text = gen_str(&mut c.rng);
    let (m, f) = (*c.rng.pick(&[BM::Arr, BM::Hex, BM::B64, BM::Pass]), fl(&mut c.rng));
    let full = if json { jser(m, &SV(&s, &v)) } else { mser(f, &SV(&s, &v)) }.map_err(|e| format!("{e:?}"))?;
    c.seen(&full);
    let cap = match c.rng.below(3) { 0 => c.rng.below(full.len() + 1), _ => full.len() };
    let mut buf = vec![0u8; cap.max(1)];
    let what = || format!("{} into {cap} of {} bytes", if json { show(&full) } else { hex(&full) }, full.len());
    let (ok, u) = mem::measure(|| { let mut w = SliceWriter::new(&mut buf[..cap]); let ok = if json { jser_to(m, &mut w, &SV(&s, &v)).is_ok() } else { mser_to(f, &mut w, &SV(&s, &v)).is_ok() }; (ok, w.len()) });
    c.evals(2);
    if u.calls > 0 { return Err(format!("{} heap allocations ({} bytes) while writing {}", u.calls, u.total, what())) }
    if ok.0 != (cap >= full.len()) || ok.0 && buf[..ok.1] != full[..] { return Err(format!("wrong result {ok:?} for {}", what())) }
    c.count(if ok.0 { "written" } else { "did not fit" }, 1);
    // text formatted by the value itself: as JSON always, as MessagePack where there is no heap
    if json || !cfg!(feature = "heap") {
        let at = At(&text, if c.rng.one_in(3) { 0 } else { c.rng.below(12) });
        let mut buf = vec![0u8; text.len() * 12 + 40];
        let (ok, u) = mem::measure(|| { let mut w = SliceWriter::new(&mut buf); if json { jser_to(m, &mut w, &at).is_ok() } else { mser_to(f, &mut w, &at).is_ok() } });
        c.evals(2);
        c.count("formatted text", 1);
        if u.calls > 0 || !ok { return Err(format!("{} heap allocations while writing the formatted text {text:?} at place {} (ok {ok})", u.calls, at.1)) }
    }
    Ok(())
}
fn has_fmt(s: &Sch) -> bool {
    use Sch::*;
    match s {
        Fmt => true, Opt(x) | Newtype(x) | Seq(x) => has_fmt(x), Tuple(v) | TupStruct(v) | Struct(_, v) => v.iter().any(has_fmt), Map(k, v) => has_fmt(k) || has_fmt(v),
        Enum(_, v) => v.iter().any(|v| match v { Var::Unit => false, Var::New(s) => has_fmt(s), Var::Tup(t) | Var::Struct(_, t) => t.iter().any(has_fmt) }), _ => false,
    }
}
pub fn x05(t: Tier) -> Vec<Workload> {
    vec![wl("reading JSON", n(t, 40_000, 4_000_000, 10), x05_jde), wl("reading MessagePack", n(t, 40_000, 4_000_000, 10), x05_mde), wl("writing", n(t, 60_000, 6_000_000, 10), x05_ser)]
}

// ================================================================ X06
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: writes to `t` only
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
type Job = Box<dyn FnMut()>;
/// The time for eight times the input may grow by a factor of 40, where quadratic work grows by 64 — and must still do so when measured again.
fn scale(c: &mut Ctx, name: &'static str, sizes: &[usize], make: impl Fn(usize) -> (usize, Job)) -> R {
    let mut prev: Option<(usize, f64)> = None;
    let best = |n: usize, k: usize| { let (len, mut j) = make(n); let mut b = f64::MAX; for _ in 0..k { let t = cpu(); j(); b = b.min(cpu() - t) } (len, b) };
    c.count(name, 1);
    for &n in sizes {
        let (len, mut t) = best(n, 1);
        c.eval();
        c.count("bytes processed", len as u64);
        if let Some((pn, pt)) = prev {
            let f = len as f64 / pn as f64;
            if t > 0.1 && t > 5.0 * f * pt {
                let p2 = best(n / 8, 5).1.max(pt.min(1.0) * 0.5);
                if t < 1.0 { t = t.min(best(n, 2).1) }
                if t > 0.1 && t > 5.0 * f * p2.max(pt) { return Err(format!("{name}: {pn} bytes take {:.6} s, {len} bytes take {t:.6} s of processor time", p2.max(pt))) }
                c.count("measured again", 1);
            }
        }
        prev = Some((len, t));
    }
    c.sample(|| format!("{name}: {:?} bytes, s", prev));
    Ok(())
}
struct Count(u64);
impl<'de> Deserialize<'de> for Count { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Count, D::Error> { let st = St::default(); AnyW(&st).deserialize(d).map(Count) } }
struct MapC(u64);
impl<'de> Deserialize<'de> for MapC {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<MapC, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V { type Value = MapC; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") } fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<MapC, A::Error> { let mut n = 0; while let Some((k, _)) = a.next_entry::<&str, IgnoredAny>()? { n += k.len() as u64 } Ok(MapC(n)) } }
        d.deserialize_map(V)
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Few { #[serde(default)] a: u8 }
const SIZES: [usize; 4] = [4_000, 32_000, 256_000, 2_048_000];
fn sizes() -> &'static [usize] { if tiny() { &[64, 512] } else { &SIZES } }
fn jtext(kind: usize, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut o = vec![];
    let units: Vec<&[u8]> = { let all: [&[u8]; 14] = [b"\\n", b"\\\"", b"\\\\", b"\\u00e9", b"\\ud83d\\ude00", b"a", b"plain text ", b"\xc3\xa9", b"\\/", b"\\\\\\\"", b"\\u0041", b"\\b", b"\\t", b"0123456789abcdefghijklmnopqrstuvwxyz"]; (0..r.range(1, 4)).map(|_| *r.pick(&all)).collect() };
    let fill = |o: &mut Vec<u8>, r: &mut Rng, n: usize, u: &[&[u8]]| { while o.len() < n { o.extend_from_slice(r.pick(u)) } };
    match kind {
        0 => { o.push(b'"'); fill(&mut o, &mut r, n, &units); o.push(b'"') }
        1 => { o.push(b'"'); while o.len() < n { let k = r.below(200) * 2; o.resize(o.len() + k, b'\\'); o.extend_from_slice(b"\\\"") } o.push(b'"') }
        2 => { o.push(b'"'); o.resize(n / 2 * 2 + 1, b'\\'); o.push(b'"') }
        3 => { o.push(b'['); while o.len() < n { if o.len() > 1 { o.push(b',') } o.extend(r.below(256).to_string().bytes()) } o.push(b']') }
        4 => { o.push(b'['); while o.len() < n { if o.len() > 1 { o.push(b',') } let k = r.below(50); o.resize(o.len() + k, b' '); o.push(b'1'); let k = r.below(50); o.resize(o.len() + k, b'\n') } o.push(b']') }
        5 => { o.resize(n, b' '); o.push(b'1') }
        6 => { o.push(b'1'); o.resize(n, b' ') }
        // nesting stays below what a stack takes (see the known findings of J06)
        7 => { let d = r.range(1, 200); o.push(b'['); while o.len() < n { o.resize(o.len() + d, b'['); o.resize(o.len() + d, b']'); o.push(b',') } o.extend_from_slice(b"0]") }
        8 => { let d = r.range(1, 200); o.push(b'['); while o.len() < n { for _ in 0..d { o.extend_from_slice(b"{\"a\":") } o.push(b'0'); o.resize(o.len() + d, b'}'); o.push(b',') } o.extend_from_slice(b"0]") }
        9 => { o.extend_from_slice(b"0."); o.resize(n, b'0'); o.push(b'1') }
        10 => { o.push(b'1'); o.resize(n, b'7') }
        11 => { o.extend_from_slice(b"1e"); o.resize(n, b'0'); o.push(b'5') }
        12 => { o.push(b'"'); while o.len() < n { o.extend_from_slice(b"4f") } o.push(b'"') }
        13 => { o.push(b'"'); while o.len() < n { o.extend_from_slice(b"QUJD") } o.push(b'"') }
        14 => { o.extend_from_slice(b"\"QUJDRA"); o.resize(n, b'='); o.push(b'"') }
        15 => { o.push(b'{'); let mut i = 0; while o.len() < n { if i > 0 { o.push(b',') } o.extend(format!("\"k{i}\":").bytes()); o.extend_from_slice(r.pick(&[&b"1"[..], b"null", b"\"x\\n\"", b"[1,{}]", b"-2.5e3", b"true"])); i += 1 } o.push(b'}') }
        16 => { o.push(b'['); while o.len() < n { if o.len() > 1 { o.push(b',') } o.extend_from_slice(r.pick(&[&b"\"a\\nb\""[..], b"\"\"", b"{\"q\":[]}", b"[\"\\\\\"]", b"\"4142\""])) } o.push(b']') }
        17 => { o.extend_from_slice(b"{\""); fill(&mut o, &mut r, n, &units); o.extend_from_slice(b"\":1}") }
        18 => { o.resize(100, b'['); while o.len() < n { o.extend_from_slice(b"[0],") } }
        19 => { for _ in 0..100 { o.extend_from_slice(b"[0,{\"a\":") } o.push(b'['); while o.len() < n { o.extend_from_slice(b"[[],{},\"\\\"\"],") } }
        20 => { o.push(b'['); while o.len() < n { o.extend_from_slice(b"{\"a\":[[{\"b\":\"\\\\\"}]]},") } o.extend_from_slice(b"0]") }
        _ => { o.extend_from_slice(b"{\"a\":1"); while o.len() < n { o.extend_from_slice(b",\"zz\":"); o.extend_from_slice(r.pick(&[&b"[[],[[]]]"[..], b"{\"a\":{}}", b"\"\\\"\"", b"12345678901234567890e5", b"null"])) } o.push(b'}') }
    }
    o
}
const JKINDS: usize = 22;
const JNAMES: [&str; JKINDS] = ["JSON string with escapes", "JSON string with runs of backslashes", "JSON string of backslashes", "JSON number array", "JSON array with whitespace", "JSON leading whitespace", "JSON trailing whitespace", "JSON nested arrays", "JSON nested objects", "JSON long fraction", "JSON long integer", "JSON long exponent", "JSON hex string", "JSON base64 string", "JSON base64 padding", "JSON object with many keys", "JSON array of containers", "JSON long key", "JSON unclosed arrays", "JSON unclosed mixture", "JSON array of nested objects", "JSON unknown fields"];
fn x06_jde(c: &mut Ctx) -> R {
    let kind = c.idx as usize % JKINDS;
    let (seed, target, cut, m) = (c.rng.next(), c.rng.below(7), c.rng.one_in(4), bm(&mut c.rng));
    c.seen2(&[kind as u8, target as u8, cut as u8], m as u64);
    scale(c, JNAMES[kind], sizes(), |n| {
        let mut t = jtext(kind, n, seed);
        if cut { t.pop(); }
        let mut buf = t.clone();
        let len = t.len();
        let target = if matches!(kind, 7 | 8) { target % 2 } else { target };
        (len, Box::new(move || {
            buf.copy_from_slice(&t);
            let ok = match target {
                0 => jde::<IgnoredAny>(m, &mut buf).is_ok(), 1 => jde::<Count>(m, &mut buf).is_ok(), 2 => jde::<&str>(m, &mut buf).is_ok(),
                3 => jde::<&serde_bytes::Bytes>(m, &mut buf).is_ok(), 4 => if kind == 3 || kind == 4 { jde::<Vec<u16>>(m, &mut buf).is_ok() } else { jde::<f64>(m, &mut buf).is_ok() },
                5 => jde::<MapC>(m, &mut buf).is_ok(), _ => jde::<Few>(m, &mut buf).is_ok(),
            };
            std::hint::black_box(ok);
        }))
    })
}
/// many values off one deserializer
fn x06_stream(c: &mut Ctx) -> R {
    let (seed, how) = (c.rng.next(), c.rng.below(4));
    c.seen2(&[how as u8], c.idx % 4);
    if c.idx % 2 == 0 {
        return scale(c, "JSON stream", sizes(), |n| {
            let mut r = Rng::new(seed);
            let mut t = vec![];
            let mut k = 0;
            while t.len() < n { t.extend_from_slice(r.pick(&[&b"1 "[..], b"\"a\\nb\" ", b"[1,2]\n", b"{\"a\":\"b\"} ", b"null\n", b"\"QUJD\""])); k += 1 }
            let mut buf = t.clone();
            (t.len(), Box::new(move || {
                buf.copy_from_slice(&t);
                let mut de = sj::de::Deserializer::<sj::de::StringByteNopeDecoder>::from_mut_slice(&mut buf);
                for i in 0..k { let ok = if (how + i) % 4 == 0 { Count::deserialize(&mut de).is_ok() } else { IgnoredAny::deserialize(&mut de).is_ok() }; assert!(ok, "harness: stream value {i}") }
                assert!(de.end().is_ok());
            }))
        })
    }
    scale(c, "MessagePack stream", sizes(), |n| {
        let mut r = Rng::new(seed);
        let mut t = vec![];
        let mut k = 0;
        while t.len() < n { t.extend_from_slice(r.pick(&[&b"\x01"[..], b"\xa3abc", b"\x92\x01\x02", b"\x81\xa1a\xa1b", b"\xc0", b"\xc4\x02ab", b"\xd4\x01x"])); k += 1 }
        (t.len(), Box::new(move || {
            if how == 0 { let mut rest = &t[..]; for i in 0..k { match sm::from_slice_split_tail::<IgnoredAny>(rest) { Ok((_, q)) => rest = q, Err(e) => panic!("harness: message {i}: {e:?}") } } return }
            let mut de = sm::de::Deserializer::from_slice(&t);
            for i in 0..k { let ok = if how == 1 { de.eat_message().is_ok() } else { IgnoredAny::deserialize(&mut de).is_ok() }; assert!(ok, "harness: message {i}") }
            assert!(de.end() == Ok(0));
        }))
    })
}
const MNAMES: [&str; 10] = ["MessagePack array", "MessagePack map", "MessagePack string", "MessagePack binary", "MessagePack nested arrays", "MessagePack nested maps", "MessagePack extension", "MessagePack containers", "MessagePack unfinished nesting", "MessagePack array of strings"];
fn mtext(kind: usize, n: usize) -> Vec<u8> {
    let be = |x: usize| (x as u32).to_be_bytes();
    let mut o = vec![];
    match kind {
        0 => { o.push(0xdd); o.extend(be(n)); for i in 0..n { o.push((i % 128) as u8) } }
        1 => { o.push(0xdf); o.extend(be(n / 8)); for i in 0..n / 8 { o.push(0xa5); o.extend(format!("{:05}", i % 100_000).bytes()); o.extend_from_slice(&[0xcc, i as u8]) } }
        2 => { o.push(0xdb); o.extend(be(n)); o.resize(n + 5, b'x') }
        3 => { o.push(0xc6); o.extend(be(n)); o.resize(n + 5, 0xff) }
        4 => { o.resize(n, 0x91); o.push(0xc0) }
        5 => { for _ in 0..n / 2 { o.extend_from_slice(&[0x81, 0x01]) } o.push(0xc0) }
        6 => { o.push(0xc9); o.extend(be(n)); o.push(3); o.resize(n + 6, 7) }
        7 => { o.push(0xdd); o.extend(be(n / 8)); for _ in 0..n / 8 { o.extend_from_slice(&[0x92, 0x81, 0xa1, b'k', 0x90, 0x93, 1, 2]); o.push(0xc3) } }
        8 => { while o.len() < n { o.extend_from_slice(&[0x93, 0xc0]) } }
        _ => { o.push(0xdd); o.extend(be(n / 4)); for _ in 0..n / 4 { o.extend_from_slice(b"\xa3abc") } }
    }
    o
}
fn x06_mde(c: &mut Ctx) -> R {
    let kind = c.idx as usize % MNAMES.len();
    let (target, cut) = (c.rng.below(6), c.rng.one_in(4));
    c.seen2(&[kind as u8, target as u8, cut as u8], 7);
    scale(c, MNAMES[kind], sizes(), |n| {
        let mut t = mtext(kind, n);
        if cut { t.pop(); }
        // generic decoding recurses (see the known findings of M05)
        let target = if matches!(kind, 4 | 5 | 8) { target % 2 } else { target };
        (t.len(), Box::new(move || {
            let ok = match target {
                0 => mde::<IgnoredAny>(&t).is_ok(), 1 => sm::de::Deserializer::from_slice(&t).eat_message().is_ok(), 2 => mde::<Count>(&t).is_ok(),
                3 => mde::<&str>(&t).is_ok(), 4 => mde::<&serde_bytes::Bytes>(&t).is_ok(), _ => mde::<MapC>(&t).is_ok(),
            };
            std::hint::black_box(ok);
        }))
    })
}
#[derive(Serialize)]
struct Row<'a> { id: u32, name: &'a str, f: f64, o: Option<u8> }
struct Frag<'a>(&'a [String]);
impl fmt::Display for Frag<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for s in self.0 { f.write_str(s)? } Ok(()) } }
struct CollF<'a>(&'a [String]);
impl Serialize for CollF<'_> { fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { z.collect_str(&Frag(self.0)) } }
enum Load { S(String), B(Vec<u8>), N(Vec<i32>), R(Vec<(u32, String, f64)>), F(Vec<String>), M(Vec<(String, u8)>) }
impl Serialize for Load {
    fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Load::S(s) => z.serialize_str(s), Load::B(b) => z.serialize_bytes(b), Load::N(v) => v.serialize(z), Load::F(v) => CollF(v).serialize(z),
            Load::R(v) => z.collect_seq(v.iter().map(|(i, n, f)| Row { id: *i, name: n, f: *f, o: Some(1) })), Load::M(v) => z.collect_map(v.iter().map(|(k, x)| (k, x))),
        }
    }
}
fn load(kind: usize, n: usize, seed: u64) -> Load {
    let mut r = Rng::new(seed);
    let all = ["\n", "\"", "\\", "é", "😀", "a", "plain text ", "\u{1}", "\u{7f}", "0123456789abcdef"];
    let units: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&all)).collect();
    match kind {
        0 => { let mut s = String::new(); while s.len() < n { s.push_str(r.pick(&units)) } Load::S(s) }
        1 => Load::B((0..n).map(|_| r.next() as u8).collect()),
        2 => Load::N((0..n / 6).map(|_| r.next() as i32).collect()),
        3 => Load::R((0..n / 40).map(|i| (i as u32, r.pick(&units).to_string(), i as f64 * 0.37)).collect()),
        4 => Load::F((0..n / 4).map(|_| r.pick(&units).to_string()).collect()),
        _ => Load::M((0..n / 10).map(|i| (format!("k{i}"), i as u8)).collect()),
    }
}
const SNAMES: [&str; 6] = ["writing a string", "writing bytes", "writing numbers", "writing rows", "writing formatted text", "writing a map"];
struct Null(u64);
impl SerWrite for Null { type Error = WErr; fn write(&mut self, b: &[u8]) -> Result<(), WErr> { self.0 += b.len() as u64; Ok(()) } }
#[cfg(feature = "heap")]
const SINKS: usize = 8;
#[cfg(not(feature = "heap"))]
const SINKS: usize = 3;
fn x06_ser(c: &mut Ctx) -> R {
    let kind = c.idx as usize % 6;
    let (seed, json, sink, m, f) = (c.rng.next(), c.rng.coin(), c.rng.below(SINKS), bm(&mut c.rng), fl(&mut c.rng));
    c.seen2(&[kind as u8, json as u8, sink as u8], m as u64 * 4 + f as u64);
    scale(c, SNAMES[kind], sizes(), |n| {
        let l = load(kind, n, seed);
        let mut buf = vec![0u8; n * 8 + 100];
        (n, Box::new(move || {
            fn go<W: SerWrite>(json: bool, m: BM, f: Fl, w: W, l: &Load) where W::Error: fmt::Debug + fmt::Display { let r = if json { jser_to(m, w, l) } else { mser_to(f, w, l) }; assert!(r.is_ok(), "harness: {r:?}") }
            match sink {
                0 => go(json, m, f, &mut Null(0), &l),
                1 => go(json, m, f, &mut SliceWriter::new(&mut buf), &l),
                2 => go(json, m, f, &mut tinyvec::SliceVec::from_slice_len(&mut buf, 0), &l),
                #[cfg(feature = "heap")] 3 => { let mut v: Vec<u8> = vec![]; go(json, m, f, &mut v, &l) }
                #[cfg(feature = "heap")] 4 => { let mut v = std::collections::VecDeque::new(); go(json, m, f, &mut v, &l) }
                #[cfg(feature = "heap")] 5 => { let mut v = smallvec::SmallVec::<[u8; 16]>::new(); go(json, m, f, &mut v, &l) }
                #[cfg(all(feature = "heap", feature = "std"))] 6 => go(json, m, f, &mut std::io::Cursor::new(Vec::new()), &l),
                #[cfg(feature = "heap")] _ => { let mut v = vec![]; go(json, m, f, &mut v, &l) }
                #[cfg(not(feature = "heap"))] _ => go(json, m, f, &mut Null(0), &l),
            }
        }))
    })
}
/// sinks alone: many small writes
fn x06_sinks(c: &mut Ctx) -> R {
    let (sink, unit) = (c.idx as usize % SINKS, *c.rng.pick(&[1usize, 1, 2, 3, 7, 64]));
    c.seen2(&[sink as u8, unit as u8], 5);
    scale(c, "small writes", sizes(), |n| {
        let mut buf = vec![0u8; n + 100];
        (n, Box::new(move || {
            fn go<W: SerWrite>(mut w: W, n: usize, unit: usize) where W::Error: fmt::Debug { for _ in 0..n / unit { if unit == 1 { w.write_byte(7).unwrap() } else if unit == 2 { w.write_str("ab").unwrap() } else { w.write(&[7u8; 64][..unit]).unwrap() } } }
            match sink {
                0 => go(&mut Null(0), n, unit), 1 => go(&mut SliceWriter::new(&mut buf), n, unit), 2 => go(&mut tinyvec::SliceVec::from_slice_len(&mut buf, 0), n, unit),
                #[cfg(feature = "heap")] 3 => { let mut v: Vec<u8> = vec![]; go(&mut v, n, unit) }
                #[cfg(feature = "heap")] 4 => { let mut v = std::collections::VecDeque::new(); go(&mut v, n, unit) }
                #[cfg(feature = "heap")] 5 => { let mut v = smallvec::SmallVec::<[u8; 16]>::new(); go(&mut v, n, unit) }
                #[cfg(all(feature = "heap", feature = "std"))] 6 => go(&mut std::io::Cursor::new(Vec::new()), n, unit),
                #[cfg(feature = "heap")] _ => { let mut v = tinyvec::TinyVec::<[u8; 16]>::new(); go(&mut v, n, unit) }
                #[cfg(not(feature = "heap"))] _ => {}
            }
        }))
    })
}
pub fn x06(t: Tier) -> Vec<Workload> {
    vec![wl("JSON read", n(t, 176, 6_600, 22), x06_jde), wl("MessagePack read", n(t, 80, 3_000, 10), x06_mde), wl("written", n(t, 60, 3_000, 6), x06_ser), wl("streams", n(t, 16, 600, 2), x06_stream), wl("sinks", n(t, 16, 800, 3), x06_sinks)]
}
