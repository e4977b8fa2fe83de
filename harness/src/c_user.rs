//! Checks of what the user's own code sees: a serializer used again and again (S04), refusals (X07), is_human_readable (X08).
use crate::c_json::gen_act;
use crate::jref::{self, hex_upper, style};
use crate::model::user::{self, Seen};
use crate::model::*;
use crate::mref::{self, mstyle};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types::{self, Act};
use crate::util::*;
use serde::de::{self, Deserialize, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::Serializer as _;
use serde::{Deserializer as _, Serialize};
use ser_write::{SerWrite, SliceWriter};
use ser_write_json::ser as js;
use ser_write_msgpack::ser as ms;
use std::collections::BTreeMap;
use std::fmt;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ================================================================ S04
/// A serializer as the user holds it: put a value, write something in between, look at the sink.
trait Sz<W: SerWrite> {
    fn put<T: Serialize>(&mut self, v: &T) -> Result<(), SErr>;
    fn w(&mut self) -> &mut W;
    fn r(&self) -> &W;
    fn done(self) -> W;
    /// extra public operations of the JSON serializer
    fn hex(&mut self, _: &[u8]) -> Option<Result<(), SErr>> { None }
    fn text(&mut self, _: &str) -> Option<bool> { None }
}
struct Jz<W, B>(js::Serializer<W, B>);
fn je<E>(e: js::Error<E>) -> SErr {
    match e { js::Error::Writer(_) => SErr::Writer, js::Error::InvalidKeyType => SErr::Key, js::Error::FormatError => SErr::Format, js::Error::SerializeError { .. } => SErr::Custom, #[allow(unreachable_patterns)] _ => SErr::Other }
}
impl<W: SerWrite, B: js::ByteEncoder> Sz<W> for Jz<W, B> where W::Error: fmt::Display + fmt::Debug {
    fn put<T: Serialize>(&mut self, v: &T) -> Result<(), SErr> { v.serialize(&mut self.0).map_err(je) }
    fn w(&mut self) -> &mut W { self.0.writer() }
    fn r(&self) -> &W { self.0.writer_ref() }
    fn done(self) -> W { self.0.into_inner() }
    fn hex(&mut self, b: &[u8]) -> Option<Result<(), SErr>> { Some(self.0.serialize_bytes_as_hex_str(b).map_err(je)) }
    fn text(&mut self, s: &str) -> Option<bool> { use fmt::Write; Some(js::StringCollector::new(self.0.writer()).write_str(s).is_ok()) }
}
macro_rules! mz { ($n:ident, $s:ident) => {
    struct $n<W>(ms::$s<W>);
    impl<W: SerWrite> Sz<W> for $n<W> where W::Error: fmt::Display + fmt::Debug {
        fn put<T: Serialize>(&mut self, v: &T) -> Result<(), SErr> { v.serialize(&mut self.0).map_err(|e| match e {
            ms::Error::Writer(_) => SErr::Writer, ms::Error::FormatError => SErr::Format, ms::Error::SerializeError { .. } => SErr::Custom, #[allow(unreachable_patterns)] ms::Error::SeqLength | ms::Error::MapLength | ms::Error::StrLength | ms::Error::DataLength | ms::Error::FieldSkipped => SErr::Len, #[allow(unreachable_patterns)] _ => SErr::Other }) }
        fn w(&mut self) -> &mut W { self.0.writer() }
        fn r(&self) -> &W { self.0.writer_ref() }
        fn done(self) -> W { self.0.into_inner() }
    }
} }
mz!(Mc, CompactSerializer);
mz!(Mi, StructMapIdxSerializer);
mz!(Mn, StructMapStrSerializer);
/// a byte encoder of the user's own: "0x…" strings
struct OxEnc;
impl js::ByteEncoder for OxEnc {
    fn serialize_bytes<'a, W: SerWrite>(s: &'a mut js::Serializer<W, Self>, v: &[u8]) -> js::Result<(), W::Error>
    where &'a mut js::Serializer<W, Self>: serde::ser::Serializer<Ok = (), Error = js::Error<W::Error>> {
        s.writer().write(b"\"0x")?;
        s.serialize_bytes_as_hex_str(v)?;
        Ok(s.writer().write_byte(b'"')?)
    }
}
/// the same value with its byte strings spelled as that encoder does
fn oxed(s: &Sch, v: &Val) -> (Sch, Val) {
    use Sch::*;
    let many = |t: &[Sch], v: &[Val]| -> (Vec<Sch>, Vec<Val>) { t.iter().zip(v).map(|(s, v)| oxed(s, v)).unzip() };
    fn sch(s: &Sch) -> Sch {
        match s {
            Bytes(_) => Str(true), Opt(i) => Opt(Box::new(sch(i))), Newtype(i) => Newtype(Box::new(sch(i))), Seq(i) => Seq(Box::new(sch(i))),
            Tuple(t) => Tuple(t.iter().map(sch).collect()), TupStruct(t) => TupStruct(t.iter().map(sch).collect()), Map(k, e) => Map(k.clone(), Box::new(sch(e))), Struct(n, t) => Struct(n, t.iter().map(sch).collect()),
            Enum(n, vs) => Enum(n, vs.iter().map(|v| match v { Var::Unit => Var::Unit, Var::New(s) => Var::New(sch(s)), Var::Tup(t) => Var::Tup(t.iter().map(sch).collect()), Var::Struct(n, t) => Var::Struct(n, t.iter().map(sch).collect()) }).collect()),
            x => x.clone(),
        }
    }
    let nv = match (s, v) {
        (Bytes(_), Val::Bytes(b)) => Val::Str(format!("0x{}", hex_upper(b))),
        (Opt(i), Val::Some(v)) => Val::Some(Box::new(oxed(i, v).1)), (Newtype(i), Val::New(v)) => Val::New(Box::new(oxed(i, v).1)),
        (Seq(i), Val::Seq(v)) => Val::Seq(v.iter().map(|x| oxed(i, x).1).collect()),
        (Tuple(t) | TupStruct(t) | Struct(_, t), Val::Seq(v)) => Val::Seq(many(t, v).1),
        (Map(_, e), Val::Map(v)) => Val::Map(v.iter().map(|(a, b)| (a.clone(), oxed(e, b).1)).collect()),
        (Enum(_, vs), Val::Enum(i, p)) => Val::Enum(*i, match &vs[*i as usize] { Var::Unit => vec![], Var::New(s) => vec![oxed(s, &p[0]).1], Var::Tup(t) | Var::Struct(_, t) => many(t, p).1 }),
        (_, v) => v.clone(),
    };
    (sch(s), nv)
}
#[derive(Clone, Copy, Debug)]
enum Mode { J(BM), Ox, M(Fl) }
enum Item { V(Sch, Val), A(Act), /** a value whose formatted text or element refuses half way */ Refuse(Sch, Val, u64), Sep(Vec<u8>), Hex(Vec<u8>), Text(String) }
impl fmt::Debug for Item { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self { Item::V(s, v) => write!(f, "{} = {}", short(s), short(v)), Item::A(a) => f.write_str(&short(a)), Item::Refuse(s, v, k) => write!(f, "{} = {} refusing at {k}", short(s), short(v)), Item::Sep(b) => write!(f, "separator {b:?}"), Item::Hex(b) => write!(f, "hex {b:?}"), Item::Text(s) => write!(f, "text {s:?}") } } }
fn alone(m: Mode, cap: usize, it: &Item) -> (Vec<u8>, Option<Result<(), SErr>>) {
    let mut w = MonW { sticky: false, ..MonW::cap(cap) };
    fn go<T: Serialize>(m: Mode, w: &mut MonW, v: &T) -> Result<(), SErr> { match m { Mode::J(b) => jser_to(b, w, v), Mode::M(f) => mser_to(f, w, v), Mode::Ox => js::to_writer_with_encoder::<OxEnc, _, _>(w, v).map_err(je) } }
    let r = match it {
        Item::V(s, v) => go(m, &mut w, &SV(s, v)),
        Item::A(a) => go(m, &mut w, a),
        Item::Refuse(s, v, k) => user::watch(*k, false, 7, || go(m, &mut w, &SV(s, v))).0,
        Item::Sep(b) => w.write(b).map_err(|_| SErr::Writer),
        Item::Hex(_) | Item::Text(_) => return (vec![], None),
    };
    (w.buf, Some(r))
}
fn script(c: &mut Ctx, m: Mode) -> Vec<Item> {
    let g = if matches!(m, Mode::M(_)) { GM } else { GJ };
    let n = if tiny() { c.rng.range(2, 4) } else { c.rng.range(2, 9) };
    (0..n).map(|_| {
        let mut val = |r: &mut Rng| { let s = schema(r, g, r.0 as usize % 4); let mut b = if tiny() { 6 } else { 20 }; let v = value(r, &s, &mut b); (s, v) };
        match c.rng.below(12) {
            0 | 1 => Item::Sep(c.rng.pick(&[&b"\n"[..], b"", b",", b"\r\n", b" ", b"\"", b"{", b"\xc1", b"----"]).to_vec()),
            2 if g.json => Item::Hex(gen_bytes(&mut c.rng)),
            3 if g.json => Item::Text(gen_str(&mut c.rng)),
            4 | 5 => { let d = c.rng.range(0, 3); Item::A(gen_act(&mut c.rng, d, true)) }
            6 | 7 => { let (s, v) = val(&mut c.rng); let k = c.rng.range(1, 12) as u64; Item::Refuse(s, v, k) }
            _ => { let (s, v) = val(&mut c.rng); Item::V(s, v) }
        }
    }).collect()
}
/// what the sink has to hold after each item, given what it can hold
fn drive<W: SerWrite, Z: Sz<W>>(c: &mut Ctx, m: Mode, mut z: Z, cap: usize, items: &[Item], get: impl Fn(&W) -> Vec<u8>) -> R
where W::Error: fmt::Display + fmt::Debug {
    let mut want: Vec<u8> = vec![];
    let mut fails = 0;
    for (i, it) in items.iter().enumerate() {
        let what = || format!("{m:?}, item {i} of {}: {it:?}", short(&items));
        let rem = cap - want.len();
        let (add, r) = alone(m, rem, it);
        let got = match it {
            Item::V(s, v) => z.put(&SV(s, v)),
            Item::A(a) => z.put(a),
            Item::Refuse(s, v, k) => user::watch(*k, false, 7, || z.put(&SV(s, v))).0,
            Item::Sep(b) => z.w().write(b).map_err(|_| SErr::Writer),
            Item::Hex(_) | Item::Text(_) => {
                let (t, ok) = match it {
                    Item::Hex(b) => (hex_upper(b).into_bytes(), z.hex(b).expect("JSON").is_ok()),
                    Item::Text(s) => { let full = jser(BM::Arr, s).map_err(|e| format!("{e:?}"))?; (full[1..full.len() - 1].to_vec(), z.text(s).expect("JSON")) }
                    _ => unreachable!(),
                };
                c.eval();
                if ok != (t.len() <= rem) { return Err(format!("written: {ok} with room for {rem} bytes: {}", what())) }
                let now = get(z.r());
                // in which pieces it goes out is its own business
                if !ok { if !now.starts_with(&want) || !t.starts_with(&now[want.len()..]) { return Err(format!("sink holds {}: {}", hex(&now), what())) } want = now; continue }
                want.extend_from_slice(&t);
                Ok(())
            }
        };
        want.extend_from_slice(&add);
        c.evals(2);
        if let Some(r) = r { if r != got { return Err(format!("{got:?} instead of {r:?} as when serialized alone: {}", what())) } }
        if got.is_err() { fails += 1; c.count("values that failed in between", 1) } else { c.count("values written", 1) }
        let now = get(z.r());
        if now != want { return Err(format!("sink holds {} instead of {}: {}", hex(&now), hex(&want), what())) }
        if get(z.w()) != want { return Err(format!("writer() shows another sink: {}", what())) }
    }
    let end = get(&z.done());
    c.eval();
    if end != want { return Err(format!("into_inner() gives {} instead of {}: {m:?} {}", hex(&end), hex(&want), short(&items))) }
    c.seen2(&want, fails);
    c.sample(|| format!("{m:?}: {} items, {fails} failing, {} bytes", items.len(), want.len()));
    Ok(())
}
fn s04_run(c: &mut Ctx, m: Mode) -> R {
    let items = script(c, m);
    // what the rest of the sink would see
    macro_rules! with { ($w:expr, $cap:expr, $get:expr) => {{ let w = $w; match m {
        Mode::J(BM::Arr) => drive(c, m, Jz(js::SerializerByteArray::new(w)), $cap, &items, $get), Mode::J(BM::Hex) => drive(c, m, Jz(js::SerializerByteHexStr::new(w)), $cap, &items, $get),
        Mode::J(BM::B64) => drive(c, m, Jz(js::SerializerByteBase64::new(w)), $cap, &items, $get), Mode::J(BM::Pass) => drive(c, m, Jz(js::SerializerBytePass::new(w)), $cap, &items, $get),
        Mode::Ox => drive(c, m, Jz(js::Serializer::<_, OxEnc>::new(w)), $cap, &items, $get),
        Mode::M(Fl::Compact) => drive(c, m, Mc(ms::CompactSerializer::new(w)), $cap, &items, $get), Mode::M(Fl::Idx) => drive(c, m, Mi(ms::StructMapIdxSerializer::new(w)), $cap, &items, $get), Mode::M(Fl::Named) => drive(c, m, Mn(ms::StructMapStrSerializer::new(w)), $cap, &items, $get),
    } }} }
    let room = |c: &mut Ctx| if c.rng.coin() { c.rng.below(300) } else { 4000 };
    match c.rng.below(6) {
        0 => with!(MonW { sticky: false, ..MonW::new() }, usize::MAX, |w: &MonW| w.buf.clone()),
        1 => { let cap = room(c); let mut w = MonW { sticky: false, ..MonW::cap(cap) }; with!(&mut w, cap, |w: &&mut MonW| w.buf.clone()) }
        2 | 3 => {
            let cap = room(c);
            let mut g = Guard::new(&vec![0u8; cap]);
            let r = with!(SliceWriter::new(g.buf()), cap, |w: &SliceWriter| w.as_ref().to_vec());
            if r.is_ok() && !g.intact() { return Err(format!("bytes outside the buffer were written: {m:?} {}", short(&items))) }
            r
        }
        4 => with!(arrayvec::ArrayVec::<u8, 60>::new(), 60, |w: &arrayvec::ArrayVec<u8, 60>| w.to_vec()),
        _ => grow(c, m, &items),
    }
}
#[cfg(feature = "heap")]
fn grow(c: &mut Ctx, m: Mode, items: &[Item]) -> R {
    let mut v: Vec<u8> = vec![];
    let w = &mut v;
    let get = |w: &&mut Vec<u8>| w.to_vec();
    let cap = usize::MAX;
    match m {
        Mode::J(BM::Arr) => drive(c, m, Jz(js::SerializerByteArray::new(w)), cap, items, get), Mode::J(BM::Hex) => drive(c, m, Jz(js::SerializerByteHexStr::new(w)), cap, items, get),
        Mode::J(BM::B64) => drive(c, m, Jz(js::SerializerByteBase64::new(w)), cap, items, get), Mode::J(BM::Pass) => drive(c, m, Jz(js::SerializerBytePass::new(w)), cap, items, get),
        Mode::Ox => drive(c, m, Jz(js::Serializer::<_, OxEnc>::new(w)), cap, items, get),
        Mode::M(Fl::Compact) => drive(c, m, Mc(ms::CompactSerializer::new(w)), cap, items, get), Mode::M(Fl::Idx) => drive(c, m, Mi(ms::StructMapIdxSerializer::new(w)), cap, items, get), Mode::M(Fl::Named) => drive(c, m, Mn(ms::StructMapStrSerializer::new(w)), cap, items, get),
    }
}
#[cfg(not(feature = "heap"))]
fn grow(c: &mut Ctx, m: Mode, items: &[Item]) -> R { drive(c, Mode::M(Fl::Compact), Mc(ms::CompactSerializer::new(heapless::Vec::<u8, 5000>::new())), 5000, &items.iter().filter_map(|i| match i { Item::V(s, v) => Some(Item::V(s.clone(), v.clone())), Item::Sep(b) => Some(Item::Sep(b.clone())), _ => None }).collect::<Vec<_>>(), |w: &heapless::Vec<u8, 5000>| w.to_vec()) }
fn s04_json(c: &mut Ctx) -> R { let m = match c.idx % 5 { 4 => Mode::Ox, k => Mode::J([BM::Arr, BM::Hex, BM::B64, BM::Pass][k as usize]) }; s04_run(c, m) }
fn s04_mp(c: &mut Ctx) -> R { let m = Mode::M(FLS[c.idx as usize % 3]); s04_run(c, m) }
/// every byte string of a value goes through the user's encoder, and nothing else does
fn s04_encoder(c: &mut Ctx) -> R {
    let s = loop { let s = schema(&mut c.rng, GJ, 4); if format!("{s:?}").contains("Bytes") { break s } };
    let mut b = if tiny() { 10 } else { 50 };
    let v = value(&mut c.rng, &s, &mut b);
    let (os, ov) = oxed(&s, &v);
    let mut w = MonW::new();
    let r = js::to_writer_with_encoder::<OxEnc, _, _>(&mut w, &SV(&s, &v)).map_err(je);
    let mut x = MonW::new();
    let want = jser_to(BM::Arr, &mut x, &SV(&os, &ov));
    c.evals(2);
    c.seen(&w.buf);
    if r != want || w.buf != x.buf { return Err(format!("own encoder: {r:?} {:?} instead of {want:?} {:?}: {} {}", show(&w.buf), show(&x.buf), short(&s), short(&v))) }
    c.count("values with byte strings", 1);
    Ok(())
}
/// lines of one derived type
fn s04_docs(c: &mut Ctx) -> R {
    let m = bm(&mut c.rng);
    let f = fl(&mut c.rng);
    let docs: Vec<_> = (0..c.rng.range(2, 6)).map(|_| types::doc(&mut c.rng, 1)).collect();
    let (mut jw, mut mw) = (vec![], vec![]);
    let (mut jz, mut mz) = (js::Serializer::<_, js::HexStrByteEncoder>::new(MonW::new()), ms::StructMapStrSerializer::new(MonW::new()));
    for d in &docs {
        jw.extend(jser(BM::Hex, d).map_err(|e| format!("{e:?}"))?); jw.push(b'\n');
        mw.extend(mser(Fl::Named, d).map_err(|e| format!("{e:?}"))?);
        d.serialize(&mut jz).map_err(|e| format!("{e:?}"))?;
        jz.writer().write_byte(b'\n').map_err(|e| format!("{e:?}"))?;
        d.serialize(&mut mz).map_err(|e| format!("{e:?}"))?;
        c.evals(2);
        if jz.writer_ref().buf != jw { return Err(format!("JSON lines {:?} instead of {:?}", show(&jz.writer_ref().buf), show(&jw))) }
        if mz.writer_ref().buf != mw { return Err(format!("messages {} instead of {}", hex(&mz.writer_ref().buf), hex(&mw))) }
    }
    let _ = (m, f);
    c.seen(&jw);
    c.count("derived documents", docs.len() as u64);
    if jz.into_inner().buf != jw || mz.into_inner().buf != mw { return Err("into_inner() gives something else".into()) }
    Ok(())
}
pub fn s04(t: Tier) -> Vec<Workload> {
    vec![
        wl("JSON: several values, failures and separators", n(t, 60_000, 3_000_000, 40), s04_json),
        wl("MessagePack: several values, failures and separators", n(t, 50_000, 2_500_000, 30), s04_mp),
        wl("scale: JSON", n(t, 150, 15000, 1), |c| crate::big::on(c, s04_json)), wl("scale: MessagePack", n(t, 150, 15000, 1), |c| crate::big::on(c, s04_mp)), wl("a byte encoder of the user's own", n(t, 20_000, 1_000_000, 10), s04_encoder),
        wl("derived documents one after another", n(t, 1_500, 60_000, 1), s04_docs),
    ]
}

// ================================================================ X07
/// what one refused run gave
enum Out<T, E> { Ret(Result<T, E>), Thrown, /** some other panic */ Foreign }
fn attempt<T, E>(fuse: u64, unwind: bool, msg: u64, f: impl FnOnce() -> Result<T, E>) -> (Out<T, E>, Seen) {
    user::watch(fuse, unwind, msg, || match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => Out::Ret(r), Err(p) => if p.is::<user::Thrown>() { Out::Thrown } else { Out::Foreign } })
}
fn points(r: &mut Rng, n: u64) -> Vec<u64> { if tiny() { return (0..3.min(n)).map(|_| 1 + r.next() % n).collect() } if n <= 40 { (1..=n).collect() } else { (0..34).map(|_| 1 + r.next() % n).chain(n - 3..=n).collect() } }
fn is_msg(s: &str, got: &str) -> R { if s == got { Ok(()) } else { Err(format!("error message {got:?} instead of {s:?}")) } }
trait Refused { /// Ok(true): a refusal with the message; Ok(false): some other error
    fn refused(&self, msg: &str) -> Result<bool, String>; fn format(&self) -> bool { false } }
#[cfg(feature = "heap")]
mod refused {
    use super::*;
    impl<E: fmt::Display> Refused for js::Error<E> { fn refused(&self, m: &str) -> Result<bool, String> { let js::Error::SerializeError(s) = self else { return Ok(false) }; is_msg(m, s)?; if !self.to_string().contains(m) { return Err(format!("described as {self}")) } Ok(true) } fn format(&self) -> bool { matches!(self, js::Error::FormatError) } }
    impl<E: fmt::Display> Refused for ms::Error<E> { fn refused(&self, m: &str) -> Result<bool, String> { let ms::Error::SerializeError(s) = self else { return Ok(false) }; is_msg(m, s)?; if !self.to_string().contains(m) { return Err(format!("described as {self}")) } Ok(true) } fn format(&self) -> bool { matches!(self, ms::Error::FormatError) } }
    impl Refused for ser_write_json::de::Error { fn refused(&self, m: &str) -> Result<bool, String> { let Self::DeserializeError(s) = self else { return Ok(false) }; is_msg(m, s)?; if !self.to_string().contains(m) { return Err(format!("described as {self}")) } Ok(true) } }
    impl Refused for ser_write_msgpack::de::Error { fn refused(&self, m: &str) -> Result<bool, String> { let Self::DeserializeError(s) = self else { return Ok(false) }; is_msg(m, s)?; if !self.to_string().contains(m) { return Err(format!("described as {self}")) } Ok(true) } }
}
#[cfg(not(feature = "heap"))]
mod refused {
    use super::*;
    impl<E: fmt::Display> Refused for js::Error<E> { fn refused(&self, _: &str) -> Result<bool, String> { Ok(matches!(self, js::Error::SerializeError)) } fn format(&self) -> bool { matches!(self, js::Error::FormatError) } }
    impl<E: fmt::Display> Refused for ms::Error<E> { fn refused(&self, _: &str) -> Result<bool, String> { Ok(matches!(self, ms::Error::SerializeError)) } fn format(&self) -> bool { matches!(self, ms::Error::FormatError) } }
    impl Refused for ser_write_json::de::Error { fn refused(&self, _: &str) -> Result<bool, String> { Ok(matches!(self, Self::DeserializeError)) } }
    impl Refused for ser_write_msgpack::de::Error { fn refused(&self, _: &str) -> Result<bool, String> { Ok(matches!(self, Self::DeserializeError)) } }
}
fn judge<T, E: Refused + fmt::Debug>(c: &mut Ctx, o: &Out<T, E>, s: &Seen, k: u64, unwind: bool, msg: u64) -> R {
    c.evals(2);
    if !s.burned { return Err(format!("callback {k} never came")) }
    match o {
        Out::Ret(Ok(_)) => return Err(format!("callback {k} {} but the result is Ok", if unwind { "panicked" } else { "refused" })),
        Out::Ret(Err(e)) => {
            if unwind { return Err(format!("the panic of callback {k} became {e:?}")) }
            let m = format!("refused \"{msg:x}\" — ünd\nout");
            if s.in_fmt { if !e.format() { return Err(format!("formatting refused at callback {k}, but the error is {e:?}")) } c.count("formattings refused", 1) }
            else { if !e.refused(&m).map_err(|x| format!("callback {k}: {x}"))? { return Err(format!("callback {k} refused, but the error is {e:?}")) } c.count("refusals returned as they are", 1) }
        }
        Out::Thrown => { if !unwind { return Err("thrown without being asked (harness)".into()) } c.count("panics passed through", 1) }
        Out::Foreign => return Err(format!("a panic other than the one of callback {k}")),
    }
    if s.after > 0 { return Err(format!("{} callbacks after the refusal of callback {k}", s.after)) }
    if s.writes_after > 0 { return Err(format!("{} writes after the refusal of callback {k}", s.writes_after)) }
    Ok(())
}
fn small(c: &mut Ctx, g: Gen) -> (Sch, Val) {
    if crate::big::is_on() { return crate::big::scaled(&mut c.rng, g) }
    let d = c.rng.range(0, 4);
    let s = schema(&mut c.rng, g, d);
    let mut b = if tiny() { 5 } else { 14 };
    let v = value(&mut c.rng, &s, &mut b);
    (s, v)
}
fn ser_refused<E: Refused + fmt::Debug>(c: &mut Ctx, f: impl Fn(&mut MonW) -> Result<(), E>, what: impl Fn() -> String) -> R {
    let mut full = MonW::new();
    let (r, seen) = attempt(0, false, 0, || f(&mut full));
    if !matches!(r, Out::Ret(Ok(()))) { return Ok(()) } // a value that cannot be written
    c.seen(&full.buf);
    c.sample(|| format!("{} callbacks, {}", seen.calls, what()));
    for k in points(&mut c.rng, seen.calls) {
        for unwind in [false, true] {
            let msg = c.rng.next();
            let mut w = MonW::new();
            let (o, s) = attempt(k, unwind, msg, || f(&mut w));
            judge(c, &o, &s, k, unwind, msg).map_err(|e| format!("{e}: {}", what()))?;
            c.eval();
            if !full.buf.starts_with(&w.buf) { return Err(format!("sink holds {} which does not begin {}, callback {k}: {}", hex(&w.buf), hex(&full.buf), what())) }
        }
    }
    Ok(())
}
fn x07_jser(c: &mut Ctx) -> R {
    let (s, v) = small(c, GJ);
    let v = SV(&s, &v);
    let m = [BM::Arr, BM::Hex, BM::B64, BM::Pass][c.idx as usize % 4];
    ser_refused(c, |w| match m { BM::Arr => js::to_writer(w, &v), BM::Hex => js::to_writer_hex_bytes(w, &v), BM::B64 => js::to_writer_base64_bytes(w, &v), BM::Pass => js::to_writer_pass_bytes(w, &v) }, || format!("JSON {m:?} {} {}", short(v.0), short(v.1)))
}
fn x07_mser(c: &mut Ctx) -> R {
    let (s, v) = small(c, GM);
    let v = SV(&s, &v);
    let f = FLS[c.idx as usize % 3];
    ser_refused(c, |w| match f { Fl::Compact => ms::to_writer_compact(w, &v), Fl::Idx => ms::to_writer(w, &v), Fl::Named => ms::to_writer_named(w, &v) }, || format!("MessagePack {f:?} {} {}", short(v.0), short(v.1)))
}
/// a self-describing reader whose every callback may refuse
struct Tree<'r>(&'r Rec, u64);
macro_rules! t { ($e:ty) => { if user::tick() { return Err(<$e as de::Error>::custom(user::Msg)) } } }
impl<'de, 'r> DeserializeSeed<'de> for Tree<'r> {
    type Value = u64;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> { user::told(d.is_human_readable()); t!(D::Error); let r = d.deserialize_any(self)?; t!(D::Error); Ok(r) }
}
impl Tree<'_> { fn lend(&self, b: &[u8], is_str: bool) { self.0.lent.borrow_mut().push(Lent { ptr: b.as_ptr() as usize, len: b.len(), is_str, copy: b.to_vec() }) } }
impl<'de, 'r> Visitor<'de> for Tree<'r> {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_f32<E: de::Error>(self, _: f32) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_unit<E: de::Error>(self) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_none<E: de::Error>(self) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<u64, E> { t!(E); self.lend(s.as_bytes(), true); Ok(1) }
    fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<u64, E> { t!(E); Ok(1) }
    fn visit_borrowed_bytes<E: de::Error>(self, s: &'de [u8]) -> Result<u64, E> { t!(E); self.lend(s, false); Ok(1) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { t!(A::Error); let mut n = 1; while let Some(x) = a.next_element_seed(Tree(self.0, 0))? { n += x; t!(A::Error) } Ok(n) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> { t!(A::Error); let mut n = 1; while let Some(x) = a.next_key_seed(Tree(self.0, 0))? { n += x; t!(A::Error); n += a.next_value_seed(Tree(self.0, 0))?; t!(A::Error) } Ok(n) }
}
struct TreeD;
thread_local! { static TREC: std::cell::Cell<*const Rec> = const { std::cell::Cell::new(std::ptr::null()) }; }
impl<'de> Deserialize<'de> for TreeD {
    // SAFETY: set by `de_refused` for the duration of the call
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<TreeD, D::Error> { let r = TREC.with(|r| r.get()); assert!(!r.is_null()); Tree(unsafe { &*r }, 0).deserialize(d).map(|_| TreeD) }
}
/// Read a copy of `b` with callback `k` refusing; the buffer's surroundings and everything lent until then stay as they were.
fn de_refused<E: Refused + fmt::Debug>(c: &mut Ctx, b: &[u8], s: Option<&Sch>, f: impl Fn(bool, &mut [u8]) -> Result<(), E>, what: impl Fn() -> String) -> R {
    let mut calls = 0;
    let mut run = |c: &mut Ctx, k: u64, unwind: bool, msg: u64| -> Result<(Out<(), E>, Seen), String> {
        let mut g = Guard::new(b);
        let rec = Rec::default();
        let base = g.buf().as_ptr() as usize;
        TREC.with(|r| r.set(&rec));
        let dummy = Sch::Unit;
        let (o, seen) = attempt(k, unwind, msg, || with_schema(s.unwrap_or(&dummy), &rec, || f(s.is_none(), g.buf())));
        TREC.with(|r| r.set(std::ptr::null()));
        c.eval();
        if !g.intact() { return Err(format!("bytes outside the input were modified, callback {k}: {}", what())) }
        check_lent(&rec, base, g.buf()).map_err(|e| format!("{e}, callback {k}: {}", what()))?;
        Ok((o, seen))
    };
    let (r, seen) = run(c, 0, false, 0)?;
    if let Out::Foreign = r { return Err(format!("panic without a refusal: {}", what())) }
    if !matches!(r, Out::Ret(Ok(()))) { c.count("unreadable to begin with", 1) }
    calls += seen.calls;
    c.seen(b);
    c.sample(|| format!("{calls} callbacks, {}", what()));
    if calls == 0 { return Ok(()) }
    for k in points(&mut c.rng, calls) {
        for unwind in [false, true] {
            let msg = c.rng.next();
            let (o, s) = run(c, k, unwind, msg)?;
            judge(c, &o, &s, k, unwind, msg).map_err(|e| format!("{e}: {}", what()))?;
        }
    }
    Ok(())
}
fn x07_jde(c: &mut Ctx) -> R {
    let (s, v) = small(c, GJ);
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let mut b = jref::render(&mut c.rng, st, m, &s, &v);
    if c.rng.one_in(6) { mutate_json(&mut c.rng, &mut b) }
    let tree = c.rng.one_in(4);
    de_refused(c, &b, if tree { None } else { Some(&s) }, |t, b| if t { jde::<TreeD>(m, b).map(|_| ()) } else { jde::<Dyn>(m, b).map(|_| ()) }, || format!("JSON {m:?} {:?} as {}", show(&b), if tree { "a tree".into() } else { short(&s) }))
}
fn x07_mde(c: &mut Ctx) -> R {
    let (s, v) = small(c, GM);
    let st = mstyle(&mut c.rng);
    let mut b = mref::render(&mut c.rng, st, &s, &v);
    if c.rng.one_in(6) { mutate_mp(&mut c.rng, &mut b) }
    let tree = c.rng.one_in(4);
    de_refused(c, &b, if tree { None } else { Some(&s) }, |t, b| if t { mde::<TreeD>(b).map(|_| ()) } else { mde::<Dyn>(b).map(|_| ()) }, || format!("MessagePack {} as {}", hex(&b), if tree { "a tree".into() } else { short(&s) }))
}
pub fn x07(t: Tier) -> Vec<Workload> {
    vec![
        wl("JSON: serializing, every callback refusing", n(t, 12_000, 600_000, 20), x07_jser),
        wl("scale: JSON serializing", n(t, 40, 3000, 1), |c| crate::big::on(c, x07_jser)), wl("scale: MessagePack serializing", n(t, 40, 3000, 1), |c| crate::big::on(c, x07_mser)), wl("scale: JSON deserializing", n(t, 40, 3000, 1), |c| crate::big::on(c, x07_jde)), wl("scale: MessagePack deserializing", n(t, 40, 3000, 1), |c| crate::big::on(c, x07_mde)), wl("MessagePack: serializing, every callback refusing", n(t, 12_000, 600_000, 15), x07_mser),
        wl("JSON: deserializing, every callback refusing", n(t, 12_000, 600_000, 40), x07_jde),
        wl("MessagePack: deserializing, every callback refusing", n(t, 12_000, 600_000, 15), x07_mde),
    ]
}

// ================================================================ X08
fn hr(c: &mut Ctx, s: &Seen, json: bool, what: impl Fn() -> String) -> R {
    c.eval();
    let (right, wrong) = if json { (s.readable, s.compact) } else { (s.compact, s.readable) };
    if wrong > 0 { return Err(format!("is_human_readable() was {} in {wrong} of {} places: {}", !json, right + wrong, what())) }
    c.count("places asked", right);
    Ok(())
}
fn x08_dyn(c: &mut Ctx) -> R {
    let json = c.idx % 2 == 0;
    let (s, v) = if json { jval(&mut c.rng) } else { mval(&mut c.rng) };
    let sv = SV(&s, &v);
    if json {
        let m = bm(&mut c.rng);
        let what = || format!("JSON {m:?} {} {}", short(&s), short(&v));
        let (r, seen) = user::watch(0, false, 0, || jser(m, &sv));
        hr(c, &seen, true, what)?;
        let st = style(&mut c.rng);
        let b = jref::render(&mut c.rng, st, m, &s, &v);
        c.seen(&b);
        let (r, seen) = user::watch(0, false, 0, || jrun(&s, m, &b));
        r?.ok();
        hr(c, &seen, true, || format!("reading {}", what()))?;
        let mut g = b.clone();
        let rec = Rec::default();
        TREC.with(|r| r.set(&rec));
        let (_, seen) = user::watch(0, false, 0, || jde::<TreeD>(m, &mut g).map(|_| ()));
        hr(c, &seen, true, || format!("reading as a tree {}", what()))
    } else {
        let f = fl(&mut c.rng);
        let what = || format!("MessagePack {f:?} {} {}", short(&s), short(&v));
        let (_, seen) = user::watch(0, false, 0, || mser(f, &sv));
        hr(c, &seen, false, what)?;
        let st = mstyle(&mut c.rng);
        let b = mref::render(&mut c.rng, st, &s, &v);
        c.seen(&b);
        let (r, seen) = user::watch(0, false, 0, || mrun(&s, &b));
        r?.ok();
        hr(c, &seen, false, || format!("reading {}", what()))?;
        let rec = Rec::default();
        TREC.with(|r| r.set(&rec));
        let (_, seen) = user::watch(0, false, 0, || mde::<TreeD>(&b).map(|_| ()));
        hr(c, &seen, false, || format!("reading as a tree {}", what()))
    }
}
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
enum Addr { Unit, One(IpAddr), Two(Ipv4Addr, Ipv6Addr), Named { sock: SocketAddr, opt: Option<Ipv6Addr> } }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
struct Net { a: IpAddr, l: Vec<SocketAddr>, t: (Ipv4Addr, Ipv6Addr), e: Vec<Addr>, m: BTreeMap<IpAddr, Option<SocketAddrV4>>, s: BTreeMap<SocketAddr, Addr>, x: Option<SocketAddrV6>, w: std::num::Wrapping<i16> }
fn v4(r: &mut Rng) -> Ipv4Addr { Ipv4Addr::from(r.next() as u32 >> r.below(32)) }
fn v6(r: &mut Rng) -> Ipv6Addr { Ipv6Addr::from(((r.next() as u128) << 64 | r.next() as u128) >> r.below(128)) }
fn ip(r: &mut Rng) -> IpAddr { if r.coin() { v4(r).into() } else { v6(r).into() } }
fn sa4(r: &mut Rng) -> SocketAddrV4 { SocketAddrV4::new(v4(r), r.next() as u16) }
fn sa(r: &mut Rng) -> SocketAddr { if r.coin() { sa4(r).into() } else { SocketAddrV6::new(v6(r), r.next() as u16, 0, 0).into() } }
fn addr(r: &mut Rng) -> Addr { match r.below(4) { 0 => Addr::Unit, 1 => Addr::One(ip(r)), 2 => Addr::Two(v4(r), v6(r)), _ => Addr::Named { sock: sa(r), opt: if r.coin() { Some(v6(r)) } else { None } } } }
fn net(r: &mut Rng) -> Net {
    let n = if tiny() { 1 } else { 4 };
    Net { a: ip(r), l: (0..r.below(n)).map(|_| sa(r)).collect(), t: (v4(r), v6(r)), e: (0..r.below(n)).map(|_| addr(r)).collect(), m: (0..r.below(n)).map(|_| (ip(r), if r.coin() { Some(sa4(r)) } else { None })).collect(), s: (0..r.below(n)).map(|_| (sa(r), addr(r))).collect(), x: if r.coin() { Some(SocketAddrV6::new(v6(r), 1, 0, 0)) } else { None }, w: std::num::Wrapping(r.next() as i16) }
}
/// types of serde's own that have two forms
fn x08_net(c: &mut Ctx) -> R {
    let d = net(&mut c.rng);
    let m = bm(&mut c.rng);
    let mut b = jser(m, &d).map_err(|e| format!("{e:?}: {d:?}"))?;
    c.seen(&b);
    c.evals(4);
    let t = String::from_utf8_lossy(&b).into_owned();
    let text = |x: String| if t.contains(&format!("\"{x}\"")) { Ok(()) } else { Err(format!("{x} is not spelled out in {t}")) };
    text(d.a.to_string())?;
    for x in &d.l { text(x.to_string())? }
    for (k, _) in &d.m { text(k.to_string())? }
    for (k, _) in &d.s { text(k.to_string())? }
    let back = jde::<Net>(m, &mut b).map_err(|e| format!("{e:?}: {t}"))?;
    if back != d { return Err(format!("read as {back:?}: {t}")) }
    for f in FLS {
        let b = mser(f, &d).map_err(|e| format!("{e:?}: {d:?}"))?;
        c.evals(2);
        let (back, n) = mde::<Net>(&b).map_err(|e| format!("{e:?}: {} ({f:?}) of {d:?}", hex(&b)))?;
        if back != d || n != b.len() { return Err(format!("read as {back:?} from {} ({f:?}) of {d:?}", hex(&b))) }
        // four or sixteen numbers, not text
        if let Ok((mref::M::Map(v), ..)) = mref::parse(&b) { if let mref::M::Str(_) = v[0].1 { return Err(format!("an address is spelled out in {}", hex(&b))) } }
    }
    c.count("documents with addresses", 1);
    Ok(())
}
pub fn x08(t: Tier) -> Vec<Workload> {
    vec![
        wl("every position of random values", n(t, 60_000, 3_000_000, 60), x08_dyn),
        wl("scale", n(t, 200, 20000, 1), |c| crate::big::on(c, x08_dyn)), wl("addresses as text and as numbers", n(t, 10_000, 500_000, 4), x08_net),
    ]
}
