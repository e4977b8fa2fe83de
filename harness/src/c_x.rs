//! X01..X03: agreement of configurations, self-describing decoding, cursor operations.
use crate::any::*;
use crate::jref::{self, Cert};
use crate::model::*;
use crate::mref::{self, M};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use ser_write_json::de as jd;
use ser_write_msgpack::de as md;
use std::collections::BTreeMap;
use std::fmt::Debug;

// ---------------------------------------------------------------- X01
/// canonical text of a decoded value (NaN payloads do not count)
fn canon(v: &Val, o: &mut String) {
    use std::fmt::Write;
    match v {
        Val::F32(f) => { let _ = if f.is_nan() { write!(o, "nan") } else { write!(o, "f{:x}", f.to_bits()) }; }
        Val::F64(f) => { let _ = if f.is_nan() { write!(o, "nan") } else { write!(o, "d{:x}", f.to_bits()) }; }
        Val::Some(i) | Val::New(i) => { o.push('('); canon(i, o); o.push(')') }
        Val::Seq(v) => { o.push('['); for x in v { canon(x, o); o.push(',') } o.push(']') }
        Val::Enum(i, v) => { let _ = write!(o, "<{i}:"); for x in v { canon(x, o); o.push(',') } o.push('>') }
        Val::Map(v) => { o.push('{'); for (a, b) in v { canon(a, o); o.push(':'); canon(b, o); o.push(',') } o.push('}') }
        Val::Char(x) => { let _ = write!(o, "'{:x}", *x as u32); }
        Val::Str(s) => { let _ = write!(o, "{} ", s.len()); o.push_str(s) }
        x => { let _ = write!(o, "{x:?}"); }
    }
}
fn note_ser(c: &mut Ctx, tag: &str, r: Result<Vec<u8>, SErr>) {
    c.eval();
    match r { Ok(b) => c.note(tag, &b), Err(_) => c.note(tag, b"\xffERR") }
}
fn note_val(c: &mut Ctx, tag: &str, r: Option<(&Val, usize)>) {
    c.eval();
    match r { Some((v, n)) => { let mut s = format!("{n} "); canon(v, &mut s); c.note(tag, s.as_bytes()) } None => c.note(tag, b"ERR") }
}
fn note_any(c: &mut Ctx, tag: &str, r: Option<(&Any, usize)>) {
    c.eval();
    match r { Some((v, n)) => { let mut s = format!("{n} "); v.canon(&mut s); c.note(tag, s.as_bytes()) } None => c.note(tag, b"ERR") }
}
fn x01_ser(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    for m in [BM::Arr, BM::Hex, BM::B64, BM::Pass] { let r = jser(m, &SV(&s, &v)); if let Ok(b) = &r { c.seen(b) } note_ser(c, "json", r) }
    let (s, v) = mval(&mut c.rng);
    for f in FLS { let r = mser(f, &SV(&s, &v)); if let Ok(b) = &r { c.seen(b) } note_ser(c, "msgpack", r) }
    let r = &mut c.rng;
    let d = r.range(0, 2);
    let a = crate::c_json::gen_act(r, d, true);
    for m in BMS { note_ser(c, "json script", jser(m, &a)) }
    for f in FLS { note_ser(c, "msgpack script", mser(f, &a)) }
    Ok(())
}
fn x01_jde(c: &mut Ctx) -> R {
    let (s, m, b) = crate::c_json::hostile(c);
    c.seen(&b);
    c.note("input", &b);
    let r = jrun(&s, m, &b)?;
    note_val(c, "typed", r.as_ref().ok().map(|v| (v, 0)));
    let mut t = b.clone();
    let r = jde::<Any>(m, &mut t);
    note_any(c, "tree", r.as_ref().ok().map(|a| (a, 0)));
    let mut t = b.clone();
    let r = jde::<serde::de::IgnoredAny>(m, &mut t).is_ok();
    c.note("ignored", &[r as u8]);
    // a conforming rendering of a value of another type
    let (s2, v2) = jval(&mut c.rng);
    let st = jref::style(&mut c.rng);
    let b = jref::render(&mut c.rng, st, if m == BM::Pass { BM::Arr } else { m }, &s2, &v2);
    let r = jrun(&s2, m, &b)?;
    note_val(c, "conforming", r.as_ref().ok().map(|v| (v, 0)));
    let r = jrun(&s, m, &b)?;
    note_val(c, "other type", r.as_ref().ok().map(|v| (v, 0)));
    Ok(())
}
/// short documents one edit away from a conforming one
fn x01_near(c: &mut Ctx) -> R {
    let m = *c.rng.pick(&[BM::Arr, BM::Hex, BM::B64, BM::Pass]);
    for _ in 0..6 {
        let r = &mut c.rng;
        let leaf = match r.below(3) { 0 => Sch::Bytes(r.coin()), _ => scalar(r, GJ) };
        let s = match r.below(10) {
            0..=3 => leaf, 4 => Sch::Seq(Box::new(leaf)), 5 => { let k = key_schema(r, GJ, 1); Sch::Map(Box::new(k), Box::new(leaf)) }
            6 => Sch::Newtype(Box::new(leaf)), 7 => Sch::Tuple(vec![leaf.clone(), leaf]), _ => { let n = r.range(1, 3); if r.coin() { Sch::Struct(names(r, n), vec![leaf; n]) } else { Sch::Enum(names(r, n), vec![Var::New(leaf); n]) } }
        };
        let mut budget = 5;
        let v = if let Sch::Bytes(_) = s { Val::Bytes((0..r.below(7)).map(|_| *r.pick(&[0u8, 1, 9, 10, 62, 99, 100, 127, 128, 199, 249, 255])).collect()) } else { value(r, &s, &mut budget) };
        let mut st = jref::style(r);
        if r.coin() { st.ws = 0 }
        let mut b = jref::render(r, st, if m == BM::Pass { BM::Arr } else { m }, &s, &v);
        if b.len() > 400 { continue }
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
            let i = r.below(b.len() + 1);
            match r.below(6) {
                0 if i < b.len() => { b.remove(i); }
                1 if i < b.len() => b[i] = *r.pick(b"0123456789+-.eE,:;[]{}\"\\ntfu=/ \t\x00\x1f\x7f\x80\xff"),
                2 if i < b.len() => { let x = b[i]; b.insert(i, x) }
                3 if i + 1 < b.len() => b.swap(i, i + 1),
                4 => b.insert(i, b'0'),
                _ => b.insert(i, *r.pick(b"0123456789+-.eE,:;[]{}\"\\ntfu=/ \t\x00\x1f\x7f\x80\xff")),
            }
        }
        c.seen(&b);
        c.note("input", &b);
        let r = jrun(&s, m, &b)?;
        note_val(c, "typed", r.as_ref().ok().map(|v| (v, 0)));
        let mut t = b.clone();
        let r = jde::<Any>(m, &mut t);
        note_any(c, "tree", r.as_ref().ok().map(|a| (a, 0)));
        let mut t = b;
        let r = jde::<serde::de::IgnoredAny>(m, &mut t).is_ok();
        c.note("ignored", &[r as u8]);
    }
    Ok(())
}
/// every wire form of a number read as every numeric type
fn x01_wire(c: &mut Ctx) -> R {
    for _ in 0..4 {
        let r = &mut c.rng;
        let mut o = vec![*r.pick(&[0xcau8, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3])];
        let (k, z) = (r.below(9), r.below(3));
        for i in 0..8 { o.push(if i < k { [0, 0xff, 0x7f][z] } else { r.next() as u8 }) }
        if r.one_in(4) { let i = r.range(1, 8); o[i] = *r.pick(&[0u8, 0x7f, 0x80, 0xff]) }
        if r.one_in(8) { let i = r.range(1, 9); o.truncate(i) }
        c.seen(&o);
        c.note("input", &o);
        for s in [Sch::I8, Sch::I16, Sch::I32, Sch::I64, Sch::U8, Sch::U16, Sch::U32, Sch::U64, Sch::F32, Sch::F64, Sch::Char, Sch::Bool] {
            let r = mrun(&s, &o)?;
            note_val(c, "number", r.as_ref().ok().map(|(v, n)| (v, *n)));
        }
        let r = mde::<Any>(&o);
        note_any(c, "tree", r.as_ref().ok().map(|(a, n)| (a, *n)));
    }
    Ok(())
}
fn x01_mde(c: &mut Ctx) -> R {
    let (s, b) = crate::c_mp::hostile(&mut c.rng);
    c.seen(&b);
    c.note("input", &b);
    let r = mrun(&s, &b)?;
    note_val(c, "typed", r.as_ref().ok().map(|(v, n)| (v, *n)));
    let r = mde::<Any>(&b);
    note_any(c, "tree", r.as_ref().ok().map(|(a, n)| (a, *n)));
    let r = crate::c_mp::eat(&b);
    c.note("skip", format!("{:?}", r.ok()).as_bytes());
    let (s2, v2) = mval(&mut c.rng);
    let st = mref::mstyle(&mut c.rng);
    let b = mref::render(&mut c.rng, st, &s2, &v2);
    let r = mrun(&s2, &b)?;
    note_val(c, "conforming", r.as_ref().ok().map(|(v, n)| (v, *n)));
    let r = mrun(&s, &b)?;
    note_val(c, "other type", r.as_ref().ok().map(|(v, n)| (v, *n)));
    Ok(())
}
fn x01_doc(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 1);
    for m in BMS {
        let r = jser(m, &d);
        if let Ok(b) = &r {
            let mut b = b.clone();
            c.seen(&b);
            if c.rng.coin() { mutate_json(&mut c.rng, &mut b) }
            let x = jde::<Doc>(m, &mut b).ok().and_then(|d| jser(BM::Arr, &d).ok());
            c.note("decoded", x.as_deref().unwrap_or(b"ERR"));
        }
        note_ser(c, "json", r);
    }
    for f in FLS {
        let r = mser(f, &d);
        if let Ok(b) = &r {
            let mut b = b.clone();
            c.seen(&b);
            if c.rng.coin() { mutate_mp(&mut c.rng, &mut b) }
            let x = mde::<Doc>(&b).ok().and_then(|(d, n)| Some((jser(BM::Arr, &d).ok()?, n)));
            let (x, n) = x.unwrap_or((b"ERR".to_vec(), 0));
            c.note("decoded", &x);
            c.note("consumed", &(n as u64).to_le_bytes());
        }
        note_ser(c, "msgpack", r);
    }
    Ok(())
}
/// lengths that behave differently where usize is narrower, and string size classes
fn x01_len(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let mut o = vec![];
    for _ in 0..r.below(3) { o.push(*r.pick(&[0x91u8, 0x92, 0x81, 0xdc])); if o.last() == Some(&0xdc) { o.extend([0, 1]) } }
    o.push(*r.pick(&[0xc6u8, 0xc9, 0xdb, 0xdd, 0xdf, 0xc5, 0xc8, 0xda, 0xdc, 0xde]));
    for _ in 0..4 { o.push(*r.pick(&[0xffu8, 0xff, 0x7f, 0x80, 0x00, 0xfe, 0xfb])) }
    for _ in 0..r.below(20) { o.push(*r.pick(&[0u8, 0xc0, 0xff, 0xdd, 0x91])) }
    c.seen(&o);
    c.note("input", &o);
    let r = crate::c_mp::eat(&o);
    c.note("skip", format!("{:?}", r.ok()).as_bytes());
    let r = mde::<Any>(&o);
    note_any(c, "tree", r.as_ref().ok().map(|(a, n)| (a, *n)));
    let r = mde::<serde::de::IgnoredAny>(&o);
    c.note("ignored", format!("{:?}", r.map(|x| x.1).ok()).as_bytes());
    for s in [Sch::Str(false), Sch::Bytes(false), Sch::Seq(Box::new(Sch::Unit)), Sch::Map(Box::new(Sch::U8), Box::new(Sch::Unit)), Sch::Tuple(vec![Sch::Bytes(false), Sch::U8])] {
        let r = mrun(&s, &o)?;
        note_val(c, "typed", r.as_ref().ok().map(|(v, n)| (v, *n)));
    }
    Ok(())
}
/// numbers: formatting and parsing of floats and integers
fn x01_num(c: &mut Ctx) -> R {
    for _ in 0..6 {
        let (d, f) = (gen_f64(&mut c.rng), gen_f32(&mut c.rng));
        let (x, y) = (jser(BM::Arr, &d), jser(BM::Arr, &f));
        if let Ok(b) = &x { c.seen(b) }
        note_ser(c, "f64", x);
        note_ser(c, "f32", y);
        let l = jref::number_lexeme(&mut c.rng);
        c.note("lexeme", l.as_bytes());
        for s in [Sch::F64, Sch::F32, Sch::I64, Sch::U64, Sch::I32, Sch::U16, Sch::I8, Sch::U8] {
            let r = jrun(&s, BM::Arr, l.as_bytes())?;
            note_val(c, "number", r.as_ref().ok().map(|v| (v, 0)));
        }
        let mut t = l.into_bytes();
        let r = jde::<Any>(BM::Arr, &mut t);
        note_any(c, "tree", r.as_ref().ok().map(|a| (a, 0)));
    }
    Ok(())
}
fn x01_fmt(c: &mut Ctx) -> R {
    let len = crate::c_ser::frag_len(&mut c.rng, c.idx % 14);
    let mut f = crate::c_ser::frag(&mut c.rng, len);
    if c.rng.one_in(4) { f.fail_after = Some(c.rng.below(f.parts.len() + 1)) }
    c.seen(&len.to_le_bytes());
    for m in BMS { note_ser(c, "json", jser(m, &f)); note_ser(c, "json key", jser(m, &crate::c_ser::OneMap(&f))) }
    for m in FLS { note_ser(c, "msgpack", mser(m, &f)); note_ser(c, "msgpack key", mser(m, &crate::c_ser::OneMap(&f))) }
    // limited room
    let cap = c.rng.below(len + 8);
    let m = bm(&mut c.rng);
    let l = fl(&mut c.rng);
    let mut w = vec![0u8; cap];
    let mut s = ser_write::SliceWriter::new(&mut w);
    let r = jser_to(m, &mut s, &f).is_ok();
    let t = s.as_ref().to_vec();
    c.note("json, limited room", &t);
    let mut s = ser_write::SliceWriter::new(&mut w);
    let r2 = mser_to(l, &mut s, &f).is_ok();
    // how much of a value that does not fit gets written may differ
    let t = if r2 { s.as_ref().to_vec() } else { vec![] };
    c.note("msgpack, limited room", &t);
    c.note("fits", &[r as u8, r2 as u8]);
    c.evals(2);
    Ok(())
}
fn x01_cursor(c: &mut Ctx) -> R { x03_json(c)?; x03_mp(c) }
pub fn x01(t: Tier) -> Vec<Workload> {
    vec![
        wl("serialization", n(t, 12_000, 300_000, 60), x01_ser),
        wl("scale: serialization", n(t, 150, 6000, 1), |c| crate::big::on(c, x01_ser)), wl("scale: JSON decoding", n(t, 150, 6000, 1), |c| crate::big::on(c, x01_jde)), wl("scale: MessagePack decoding", n(t, 150, 6000, 1), |c| crate::big::on(c, x01_mde)), wl("scale: documents one edit away", n(t, 150, 6000, 1), |c| crate::big::on(c, x01_near)), wl("JSON decoding", n(t, 20_000, 500_000, 80), x01_jde),
        wl("MessagePack decoding", n(t, 20_000, 500_000, 80), x01_mde),
        wl("derived documents", n(t, 2_000, 50_000, 6), x01_doc),
        wl("documents one edit away", n(t, 30_000, 800_000, 24), x01_near),
        wl("wire numbers", n(t, 10_000, 200_000, 40), x01_wire),
        wl("huge claimed lengths", n(t, 20_000, 400_000, 100), x01_len),
        wl("numbers", n(t, 6_000, 200_000, 24), x01_num),
        wl("collected strings", n(t, 4_000, 100_000, 14), x01_fmt),
        wl("cursor operations", n(t, 15_000, 400_000, 60), x01_cursor),
    ]
}

// ---------------------------------------------------------------- X02
fn j_rt<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(c: &mut Ctx, v: &T) -> R {
    for m in BMS {
        let mut b = jser(m, v).map_err(|e| format!("{} failed with {e:?}", short(v)))?;
        c.eval();
        c.seen(&b);
        let t = show(&b);
        let r: T = jde(m, &mut b).map_err(|e| format!("{t:?}: {e:?}"))?;
        if r != *v { return Err(format!("{t:?} read as {} instead of {}", short(&r), short(v))) }
        c.count("JSON", 1);
    }
    // differently spelled
    let b = jser(BM::Arr, v).map_err(|e| format!("{e:?}"))?;
    let p = jref::parse(&b).map_err(|_| format!("output {} does not parse", show(&b)))?;
    let st = jref::style(&mut c.rng);
    let mut o = { let mut r = jref::Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None }; r.ws(); crate::c_json::tree(&mut r, &p.j, false); r.ws(); r.o };
    c.eval();
    let t = show(&o);
    let r: T = jde(BM::Arr, &mut o).map_err(|e| format!("{t:?}: {e:?}"))?;
    if r != *v { return Err(format!("{t:?} read as {} instead of {}", short(&r), short(v))) }
    c.count("JSON respelled", 1);
    Ok(())
}
fn m_rt<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(c: &mut Ctx, v: &T, fls: &[Fl]) -> R {
    for f in fls {
        let b = mser(*f, v).map_err(|e| format!("{} ({f:?}) failed with {e:?}", short(v)))?;
        c.eval();
        c.seen(&b);
        let (r, n): (T, usize) = mde(&b).map_err(|e| format!("{} ({f:?}): {e:?} for {}", hex(&b), short(v)))?;
        if r != *v || n != b.len() { return Err(format!("{} ({f:?}) read as {} ({n} of {} bytes) instead of {}", hex(&b), short(&r), b.len(), short(v))) }
        c.count("MessagePack", 1);
        // the same tree in other encodings (serde's buffer takes identifiers only as text, u8 or u64)
        if *f != Fl::Named { continue }
        let (m, _, _) = mref::parse(&b).map_err(|e| format!("output {} does not parse: {e:?}", hex(&b)))?;
        let mut e = mref::Enc { o: vec![], rng: Some(&mut c.rng), fix1: true };
        e.tree(&m);
        let o = e.o;
        c.eval();
        let (r, n): (T, usize) = mde(&o).map_err(|e| format!("{} ({f:?}, re-encoded): {e:?} for {}", hex(&o), short(v)))?;
        if r != *v || n != o.len() { return Err(format!("{} ({f:?}, re-encoded) read as {} instead of {}", hex(&o), short(&r), short(v))) }
        c.count("MessagePack re-encoded", 1);
    }
    Ok(())
}
fn x02_unt(c: &mut Ctx) -> R {
    let d = c.rng.below(4);
    let v = unt(&mut c.rng, d);
    c.sample(|| short(&v));
    j_rt(c, &v)?;
    m_rt(c, &v, &[Fl::Idx, Fl::Named])
}
fn x02_tag(c: &mut Ctx) -> R {
    let v = itag(&mut c.rng, 3);
    j_rt(c, &v)?;
    m_rt(c, &v, &[Fl::Named, Fl::Compact])?;
    let v = atag(&mut c.rng, 3);
    c.sample(|| short(&v));
    j_rt(c, &v)?;
    m_rt(c, &v, &[Fl::Idx, Fl::Named])?;
    let v: Vec<Atag> = (0..c.rng.below(4)).map(|_| loop { let a = atag(&mut c.rng, 0); if !matches!(a, Atag::A { .. } | Atag::C) { break a } }).collect();
    m_rt(c, &v, &FLS)
}
/// the JSON tree of a value as a name-keyed MessagePack tree
fn to_m(j: &jref::J) -> M {
    use jref::J;
    match j {
        J::Null => M::Nil, J::Bool(b) => M::Bool(*b),
        J::Num(l) => match jref::exact_int(l) { Some(n) if jref::plain_int(l) => M::Int(n, 0), _ => M::F64(l.parse::<f64>().unwrap().to_bits()) },
        J::Str(s) => M::Str(s.dec.clone().unwrap()), J::Arr(v) => M::Arr(v.iter().map(to_m).collect()),
        J::Obj(v) => M::Map(v.iter().map(|(k, x)| (M::Str(k.dec.clone().unwrap()), to_m(x))).collect()),
    }
}
fn x02_flat(c: &mut Ctx) -> R {
    let v = flat(&mut c.rng);
    j_rt(c, &v)?;
    flat_m(c, &v)?;
    let r = &mut c.rng;
    let v = match r.below(4) {
        0 => Mixed::Nested { it: Box::new(itag(r, 2)), n: r.next() as u8 }, 1 => Mixed::Adj { at: (0..r.below(4)).map(|_| atag(r, 1)).collect() },
        2 => Mixed::Flt { f: flat(r) },
        _ => Mixed::Opt { o: if r.coin() { Some(Box::new(Mixed::Flt { f: flat(r) })) } else { None }, u: unt(r, 2) },
    };
    c.sample(|| short(&v));
    j_rt(c, &v)?;
    flat_m(c, &v)
}
/// flattened maps have no length in advance: the MessagePack form comes from the reference encoder
fn flat_m<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(c: &mut Ctx, v: &T) -> R {
    let b = jser(BM::Arr, v).map_err(|e| format!("{e:?}"))?;
    let m = to_m(&jref::parse(&b).map_err(|_| "does not parse".to_string())?.j);
    for wild in [false, true] {
        let mut e = mref::Enc { o: vec![], rng: if wild { Some(&mut c.rng) } else { None }, fix1: true };
        e.tree(&m);
        let o = e.o;
        c.eval();
        c.seen(&o);
        let (r, n): (T, usize) = mde(&o).map_err(|e| format!("{}: {e:?} for {}", hex(&o), short(v)))?;
        if r != *v || n != o.len() { return Err(format!("{} read as {} instead of {}", hex(&o), short(&r), short(v))) }
        c.count("MessagePack from a reference encoding", 1);
    }
    Ok(())
}
fn untb<'a>(r: &mut Rng, pool: &'a [String], d: usize) -> UntB<'a> {
    match r.below(if d == 0 { 3 } else { 6 }) {
        0 => UntB::N(r.next() as u32), 1 | 2 => UntB::S(&pool[r.below(pool.len())][..]),
        3 | 4 => UntB::V((0..r.below(5)).map(|_| untb(r, pool, d - 1)).collect()),
        _ => UntB::M((0..r.below(5)).map(|_| (&pool[r.below(pool.len())][..], untb(r, pool, d - 1))).collect()),
    }
}
/// borrowed strings survive serde's buffering and later in-place decoding
fn x02_borrow(c: &mut Ctx) -> R {
    let pool: Vec<String> = (0..6).map(|_| jref::gen_str_short(&mut c.rng)).collect();
    let v: Vec<UntB> = (0..c.rng.range(1, 5)).map(|_| untb(&mut c.rng, &pool, 3)).collect();
    let b = jser(BM::Arr, &v).map_err(|e| format!("{e:?}"))?;
    let p = jref::parse(&b).map_err(|_| "does not parse".to_string())?;
    let st = jref::style(&mut c.rng);
    let o = { let mut r = jref::Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None }; r.ws(); crate::c_json::tree(&mut r, &p.j, false); r.ws(); r.o };
    for text in [b, o] {
        let mut g = Guard::new(&text);
        c.eval();
        c.seen(&text);
        {
            let r: Vec<UntB> = jde(BM::Arr, g.buf()).map_err(|e| format!("{:?}: {e:?}", show(&text)))?;
            if r != v { return Err(format!("{:?} read as {} instead of {}", show(&text), short(&r), short(&v))) }
        }
        if !g.intact() { return Err(format!("bytes outside the input changed: {:?}", show(&text))) }
    }
    for f in FLS {
        let b = mser(f, &v).map_err(|e| format!("{e:?}"))?;
        c.eval();
        let (r, n): (Vec<UntB>, usize) = mde(&b).map_err(|e| format!("{}: {e:?}", hex(&b)))?;
        if r != v || n != b.len() { return Err(format!("{} read as {} instead of {}", hex(&b), short(&r), short(&v))) }
    }
    Ok(())
}
fn x02_jtree(c: &mut Ctx) -> R {
    let st = jref::style(&mut c.rng);
    let mut b = { let mut r = jref::Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None }; r.ws(); r.any(5); r.ws(); r.o };
    let m = *c.rng.pick(&[BM::Arr, BM::Hex, BM::B64]);
    c.seen(&b);
    jcheck_any(c, m, &b)?;
    for _ in 0..c.rng.below(3) { mutate_json(&mut c.rng, &mut b) }
    c.seen(&b);
    jcheck_any(c, m, &b)
}
fn x02_mtree(c: &mut Ctx) -> R {
    let d = c.rng.range(0, 4);
    let ext = c.rng.one_in(8);
    let t = mref::gen_tree(&mut c.rng, d, ext);
    let wild = c.rng.coin();
    let mut e = mref::Enc { o: vec![], rng: if wild { Some(&mut c.rng) } else { None }, fix1: false };
    e.tree(&t);
    let mut b = e.o;
    c.seen(&b);
    mcheck_any(c, &b)?;
    for _ in 0..c.rng.below(3) { mutate_mp(&mut c.rng, &mut b) }
    c.seen(&b);
    mcheck_any(c, &b)
}
/// every number lexeme class through the generic path, as array element, object value and at the end of input
fn x02_num(c: &mut Ctx) -> R {
    let mut l = jref::number_lexeme(&mut c.rng);
    if c.rng.one_in(3) {
        let r = &mut c.rng;
        let n = r.range(17, 45);
        l = (0..n).map(|i| if i == 0 { (b'1' + r.below(9) as u8) as char } else { (b'0' + r.below(10) as u8) as char }).collect();
        if r.coin() { l.insert(0, '-') }
    } else if c.rng.one_in(3) {
        let k: i128 = *c.rng.pick(&[i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 0, u32::MAX as i128, i32::MIN as i128, 1 << 53]);
        l = (k + c.rng.below(7) as i128 - 3).to_string();
    }
    c.seen(l.as_bytes());
    for t in [l.clone(), format!("[{l}]"), format!("[{l},{l} ]"), format!("{{\"a\":{l}}}"), format!(" {l} ")] { jcheck_any(c, BM::Arr, t.as_bytes())? }
    Ok(())
}
fn x02_maps(c: &mut Ctx) -> R {
    // untagged maps and options deep inside
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    #[serde(untagged)]
    enum N { A(BTreeMap<String, Option<Vec<N>>>), B((u8, Option<i16>, String)), C(bool), D { #[serde(default)] k: Option<Box<N>>, only: char } }
    fn g(r: &mut Rng, d: usize) -> N {
        match r.below(if d == 0 { 2 } else { 4 }) {
            0 => N::C(r.coin()), 1 => N::B((r.next() as u8, if r.coin() { Some(r.next() as i16) } else { None }, gen_str(r))),
            2 => N::A((0..r.below(4)).map(|i| (format!("{i}{}", jref::gen_str_short(r)), if r.coin() { Some((0..r.below(3)).map(|_| g(r, d - 1)).collect()) } else { None })).collect()),
            _ => N::D { k: if r.coin() { Some(Box::new(g(r, d - 1))) } else { None }, only: gen_char(r) },
        }
    }
    let v = g(&mut c.rng, 4);
    j_rt(c, &v)?;
    m_rt(c, &v, &[Fl::Named])
}
pub fn x02(t: Tier) -> Vec<Workload> {
    vec![
        wl("untagged enums", n(t, 15_000, 600_000, 12), x02_unt),
        wl("internally and adjacently tagged enums", n(t, 10_000, 400_000, 10), x02_tag),
        wl("flattened structs", n(t, 10_000, 400_000, 8), x02_flat),
        wl("nested untagged maps", n(t, 10_000, 400_000, 8), x02_maps),
        wl("borrowing untagged enums", n(t, 10_000, 400_000, 8), x02_borrow),
        wl("scale: untagged enums", n(t, 150, 15000, 1), |c| crate::big::on(c, x02_unt)), wl("scale: JSON trees", n(t, 200, 20000, 1), |c| crate::big::on(c, x02_jtree)), wl("scale: MessagePack trees", n(t, 200, 20000, 1), |c| crate::big::on(c, x02_mtree)), wl("JSON trees", n(t, 40_000, 2_000_000, 20), x02_jtree),
        wl("JSON numbers in trees", n(t, 30_000, 1_500_000, 20), x02_num),
        wl("MessagePack trees", n(t, 40_000, 2_000_000, 20), x02_mtree),
        wl("streamed from MessagePack", n(t, 30_000, 1_500_000, 20), crate::c_stream::from_msgpack), wl("streamed from JSON", n(t, 30_000, 1_500_000, 20), crate::c_stream::from_json),
        wl("scale: streamed from MessagePack", n(t, 100, 10_000, 1), |c| crate::big::on(c, crate::c_stream::from_msgpack)), wl("scale: streamed from JSON", n(t, 100, 10_000, 1), |c| crate::big::on(c, crate::c_stream::from_json)),
    ]
}

// ---------------------------------------------------------------- X03
fn ws(b: u8) -> bool { matches!(b, b' ' | b'\t' | b'\n' | b'\r') }
fn x03_text(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => { let n = r.below(60); random_json_soup(r, n) }
        1 => { let mut b = vec![]; for _ in 0..r.below(9) { b.extend_from_slice(*r.pick(&[&b" "[..], b"\t\r\n", b"12", b"-34", b"0", b"007", b"-0", b"255", b"256", b"65536", b"-129", b"4294967296", b"18446744073709551616", b"-9223372036854775808", b"-9223372036854775809", b"true", b"null", b"nul", b"abc\"", b"\\\"x\\\\\"", b"\\u00e9\"", b"\"", b"4142\"", b"4g\"", b"QUJD\"", b"QQ==\"", b"QQ\"", b"Q\"", b"-", b"x", b"\x01"])) } b }
        2 => { let st = jref::style(r); let (s, v) = jval(r); let m = bm(r); jref::render(r, st, m, &s, &v) }
        3 => { let n = r.below(12); (0..n).map(|_| *r.pick(b"\"\\ 09-afAF=\n")).collect() }
        _ => { let n = r.below(30); (0..n).map(|_| r.next() as u8).collect() }
    }
}
/// end of the string content starting at `i`: position of the closing quote, or None; flags whether a control character comes first
fn str_end(b: &[u8], i: usize) -> Result<usize, bool> {
    let mut k = i;
    loop {
        match b.get(k) {
            None => return Err(false), Some(b'"') => return Ok(k), Some(0..=0x1f) => return Err(true),
            // a backslash protects whatever printable follows
            Some(b'\\') => match b.get(k + 1) { None => return Err(false), Some(0..=0x1f) => return Err(true), _ => k += 2 },
            _ => k += 1,
        }
    }
}
pub fn x03_json(c: &mut Ctx) -> R {
    let mut b = x03_text(&mut c.rng);
    if b.len() > 4000 { b.truncate(4000) }
    let m = bm(&mut c.rng);
    match m { BM::Hex => x03_j::<jd::StringByteHexDecoder>(c, b), BM::B64 => x03_j::<jd::StringByteBase64Decoder>(c, b), _ => x03_j::<jd::StringByteNopeDecoder>(c, b) }
}
fn x03_j<'x, P: 'x>(c: &mut Ctx, text: Vec<u8>) -> R {
    let mut g = Guard::new(&text);
    let r = x03_jrun::<P>(c, &text, g.buf());
    if !g.intact() { return Err(format!("memory outside the input was written: {:?}", show(&text))) }
    r
}
fn x03_jrun<'de, P>(c: &mut Ctx, text: &[u8], buf: &'de mut [u8]) -> R {
    use jd::Error as E;
    let mut hist = String::new();
    let mut sig: Vec<u8> = vec![];
    let mut de = jd::Deserializer::<'de, P>::from_mut_slice(buf);
    let mut b = text.to_vec(); // model: buffer and cursor
    let mut i = 0usize;
    let mut kept: Vec<(&'de [u8], Vec<u8>)> = vec![];
    let steps = c.rng.range(1, 16);
    macro_rules! bad { ($($a:tt)*) => { return Err(format!("{}; text {:?}, after {hist}", format!($($a)*), show(text))) } }
    for _ in 0..steps {
        let o = c.rng.below(17);
        sig.push(o as u8);
        let inside = i <= b.len();
        let rest: Vec<u8> = b.get(i..).unwrap_or(&[]).to_vec();
        let w = rest.iter().position(|x| !ws(*x)); // next token
        c.eval();
        // after a failure the cursor may have moved over what was looked at, but not back and not beyond the end
        macro_rules! resync { () => {{
            let r = de.remaining_len();
            if r > rest.len() { bad!("a failed operation moved the cursor back ({r} left, {} before)", rest.len()) }
            if inside { i = b.len() - r }
            if inside { match de.input_mut() { Ok(x) if x[..] == b[i..] => {} x => { let x = x.map(|x| x.to_vec()); bad!("after a failed operation the remaining input is {x:?}") } } }
        }} }
        macro_rules! num { ($t:ty, $f:ident, $neg:expr) => {{
            let r = de.$f::<$t>();
            hist.push_str(&format!("{}<{}>→{r:?} ", stringify!($f), stringify!($t)));
            // what the text says
            let want: Option<Result<(i128, usize), ()>> = w.map(|k| {
                let (neg, s) = if rest[k] == b'-' { (true, k + 1) } else { (false, k) };
                if neg && !$neg { return Err(()) }
                match rest.get(s) {
                    Some(b'0') => Ok((0, s + 1)),
                    Some(b'1'..=b'9') => {
                        let e = s + rest[s..].iter().take_while(|x| x.is_ascii_digit()).count();
                        let v = std::str::from_utf8(&rest[s..e]).unwrap().parse::<i128>().map_err(|_| ())?;
                        let v = if neg { -v } else { v };
                        <$t>::try_from(v).map(|_| (v, e)).map_err(|_| ())
                    }
                    _ => Err(()),
                }
            });
            match (want, &r) {
                (None, Err(E::UnexpectedEof)) | (Some(Err(())), Err(_)) => { resync!() }
                (Some(Ok((v, e))), Ok(x)) if *x as i128 == v => i += e,
                (w, r) => bad!("{} of {} gave {r:?} instead of {w:?}", stringify!($f), stringify!($t)),
            }
            c.note("number", format!("{:?}", r.ok()).as_bytes());
        }} }
        match o {
            0 => {
                let r = de.remaining_len();
                hist.push_str("remaining_len ");
                if r != rest.len() { bad!("remaining_len {r} instead of {}", rest.len()) }
            }
            1 => {
                let r = de.peek();
                hist.push_str("peek ");
                if r != rest.first().copied().ok_or(E::UnexpectedEof) { bad!("peek gave {r:?} with {:?} ahead", rest.first()) }
            }
            2 => {
                let k = match c.rng.below(8) { 0 => rest.len(), 1 => rest.len() + 1, 2 => rest.len() + c.rng.below(20), 3 if c.rng.one_in(4) => usize::MAX / 4, 4 => 0, _ => c.rng.below(5) };
                de.eat_some(k);
                hist.push_str(&format!("eat_some({k}) "));
                i += k;
                if i > usize::MAX / 2 { i = usize::MAX / 2; break }
            }
            3 | 4 => {
                let r = de.eat_whitespace();
                hist.push_str("eat_whitespace ");
                match (w, &r) {
                    (Some(k), Ok(x)) if rest[k] == *x => i += k,
                    (None, Err(E::UnexpectedEof)) => { resync!() }
                    _ => bad!("eat_whitespace gave {r:?} with {:?} ahead", w.map(|k| rest[k] as char)),
                }
            }
            5 => {
                hist.push_str("input_mut ");
                let flip = c.rng.one_in(3);
                match de.input_mut() {
                    Ok(x) if inside && x[..] == b[i..] => if flip && !x.is_empty() { let k = c.rng.below(x.len()); let v = *c.rng.pick(b"\"1 a\\"); x[k] = v; b[i + k] = v; hist.push_str(&format!("[{k}]={} ", v as char)) },
                    Err(E::UnexpectedEof) if !inside => {}
                    x => { let x = x.map(|x| x.to_vec()); bad!("input_mut gave {x:?} instead of {:?}", if inside { Ok(&rest) } else { Err(()) }) }
                }
            }
            6 | 7 => {
                let (l, s) = match c.rng.below(6) { 0 => (rest.len(), 0), 1 => (0, rest.len()), 2 => (0, 0), _ => { let l = c.rng.below(rest.len() + 1); (l, c.rng.below(rest.len() - l + 1)) } };
                if !inside || c.rng.one_in(25) {
                    // documented to panic
                    let (l, s) = match c.rng.below(5) { 0 => (usize::MAX, 1), 1 => (rest.len() + 1, 0), 2 => (0, rest.len() + 1), 3 => (usize::MAX / 2 + 1, usize::MAX / 2 + 1), _ => (usize::MAX, usize::MAX) };
                    hist.push_str(&format!("split_input({l}, {s}) "));
                    c.count("documented panics", 1);
                    let r = guarded(|| de.split_input(l, s).len());
                    if let Ok(n) = r { bad!("split_input beyond the input returned {n} bytes instead of panicking") }
                    return Ok(());
                }
                let x = de.split_input(l, s);
                hist.push_str(&format!("split_input({l}, {s}) "));
                if x[..] != rest[..l] { bad!("split_input gave {:?}", show(x)) }
                // the caller owns this part now
                for y in x.iter_mut() { if c.rng.one_in(4) { *y ^= 0x55 } }
                let copy = x.to_vec();
                kept.push((x, copy));
                b = rest[l + s..].to_vec();
                i = 0;
            }
            8 => match c.rng.below(4) { 0 => num!(u8, parse_unsigned, false), 1 => num!(u16, parse_unsigned, false), 2 => num!(u32, parse_unsigned, false), _ => num!(u64, parse_unsigned, false) },
            9 => match c.rng.below(4) { 0 => num!(i8, parse_signed, true), 1 => num!(i16, parse_signed, true), 2 => num!(i32, parse_signed, true), _ => num!(i64, parse_signed, true) },
            10 => {
                let t: Vec<u8> = match c.rng.below(4) { 0 => b"null".to_vec(), 1 => b"true".to_vec(), 2 => vec![], _ => { let k = c.rng.below(rest.len() + 1).min(6); rest[..k].to_vec() } };
                let r = de.parse_token_content(&t);
                hist.push_str(&format!("parse_token_content({:?}) ", show(&t)));
                let hit = inside && rest.starts_with(&t);
                match &r {
                    Ok(()) if hit => i += t.len(),
                    Err(E::UnexpectedEof) if !inside || rest.len() < t.len() && t.starts_with(&rest) => {}
                    Err(_) if inside && !hit && !t.starts_with(&rest) => {}
                    _ => bad!("parse_token_content({:?}) gave {r:?}", show(&t)),
                }
                if de.remaining_len() != b.len().saturating_sub(i) { bad!("parse_token_content left {} bytes instead of {}", de.remaining_len(), b.len().saturating_sub(i)) }
            }
            11 => {
                let r = de.eat_str_content();
                hist.push_str("eat_str_content ");
                match (str_end(&rest, 0), &r) {
                    (Ok(k), Ok(())) => i += k + 1,
                    (Err(true), Err(E::StringControlChar)) => { resync!() }
                    (Err(false), Err(E::UnexpectedEof)) => { resync!() }
                    (w, r) => bad!("eat_str_content gave {r:?} instead of {w:?}"),
                }
            }
            12 | 13 | 14 | 15 => {
                let e = str_end(&rest, 0);
                let raw = e.map(|k| rest[..k].to_vec());
                // what has to come out
                let (name, want): (_, Option<(Vec<u8>, Cert)>) = match o {
                    12 => ("parse_str_content", raw.as_ref().ok().and_then(|r| jref::unescape(r)).filter(|s| std::str::from_utf8(s).is_ok()).map(|s| (s, Cert::Must))),
                    13 => ("parse_str_bytes_content", raw.as_ref().ok().and_then(|r| jref::unescape(r)).map(|s| (s, Cert::Must))),
                    14 => ("parse_hex_bytes_content", rest.iter().position(|x| *x == b'"').and_then(|k| jref::hex_dec(&rest[..k])).map(|s| (s, Cert::Must))),
                    _ => ("parse_base64_bytes_content", rest.iter().position(|x| *x == b'"').and_then(|k| jref::b64_dec(&rest[..k]))),
                };
                let k = if o < 14 { e.unwrap_or(0) } else { rest.iter().position(|x| *x == b'"').unwrap_or(0) };
                let r: Result<&'de [u8], E> = match o { 12 => de.parse_str_content().map(|s| s.as_bytes()), 13 => de.parse_str_bytes_content(), 14 => de.parse_hex_bytes_content(), _ => de.parse_base64_bytes_content() };
                hist.push_str(&format!("{name} "));
                c.note(name, format!("{:?}", r.as_ref().ok()).as_bytes());
                match (&want, &r) {
                    (Some((w, Cert::Must | Cert::May)), Ok(x)) if x[..] == w[..] => {}
                    (Some((_, Cert::Free)), Ok(_)) | (Some((_, Cert::May | Cert::Free)), Err(_)) | (None, Err(_)) => {}
                    _ => bad!("{name} gave {:?} instead of {:?}", r.as_ref().map(|x| show(x)), want.as_ref().map(|x| show(&x.0))),
                }
                match r {
                    Ok(x) => {
                        kept.push((x, x.to_vec()));
                        b = rest[k + 1..].to_vec();
                        i = 0;
                    }
                    Err(e) => {
                        // clean content that merely ends too early is an end-of-input error
                        let clean = match o { 12 | 13 => !rest.iter().any(|x| *x == b'\\' || *x == b'"' || *x < 0x20), 14 => rest.iter().all(|x| x.is_ascii_hexdigit()), _ => rest.iter().all(|x| x.is_ascii_alphanumeric()) };
                        if clean && e != E::UnexpectedEof { bad!("{name} gave {e:?} at the end of input") }
                        if !inside { continue }
                        // the content may be partly rewritten now
                        break;
                    }
                }
            }
            _ => {
                let r = de.end();
                hist.push_str("end ");
                let clean = w.is_none();
                if r.is_ok() != clean { bad!("end gave {r:?} with {:?} ahead", show(&rest)) }
                for (x, y) in &kept { if x[..] != y[..] { bad!("a slice handed out earlier changed from {:?} to {:?}", show(y), show(x)) } }
                c.seen2(text, crate::rng::hash_bytes(&sig));
                c.count("sequences finished with end", 1);
                return Ok(());
            }
        }
        c.note("left", &(de.remaining_len() as u64).to_le_bytes());
    }
    for (x, y) in &kept { if x[..] != y[..] { bad!("a slice handed out earlier changed from {:?} to {:?}", show(y), show(x)) } }
    let mut r: Vec<(usize, usize)> = kept.iter().filter(|x| !x.0.is_empty()).map(|x| (x.0.as_ptr() as usize, x.0.len())).collect();
    r.sort();
    for w in r.windows(2) { if w[0].0 + w[0].1 > w[1].0 { bad!("slices handed out overlap") } }
    c.seen2(text, crate::rng::hash_bytes(&sig));
    c.sample(|| format!("{:?}: {hist}", show(text)));
    Ok(())
}
pub fn x03_mp(c: &mut Ctx) -> R {
    use md::Error as E;
    let text: Vec<u8> = match c.rng.below(3) {
        0 => crate::c_mp::hostile(&mut c.rng).1,
        1 => { let mut o = vec![]; for _ in 0..c.rng.range(1, 4) { let t = mref::gen_tree(&mut c.rng, 2, true); let mut e = mref::Enc { o: vec![], rng: Some(&mut c.rng), fix1: false }; e.tree(&t); o.extend(e.o) } if c.rng.coin() { let n = c.rng.below(o.len() + 1); o.truncate(n) } o }
        _ => { let n = c.rng.below(20); (0..n).map(|_| c.rng.next() as u8).collect() }
    };
    if text.len() > 100_000 { return Ok(()) }
    let mut hist = String::new();
    let mut sig: Vec<u8> = vec![];
    let mut de = md::Deserializer::from_slice(&text);
    let mut b: &[u8] = &text;
    let mut i = 0usize;
    macro_rules! bad { ($($a:tt)*) => { return Err(format!("{}; input {}, after {hist}", format!($($a)*), hex(&text))) } }
    for _ in 0..c.rng.range(1, 14) {
        let o = c.rng.below(9);
        sig.push(o as u8);
        let inside = i <= b.len();
        let rest = b.get(i..).unwrap_or(&[]);
        c.eval();
        match o {
            0 => { hist.push_str("remaining_len "); let r = de.remaining_len(); if r != rest.len() { bad!("remaining_len {r} instead of {}", rest.len()) } }
            1 => { hist.push_str("peek "); let r = de.peek(); if r != rest.first().copied().ok_or(E::UnexpectedEof) { bad!("peek gave {r:?}") } }
            2 => {
                let k = match c.rng.below(8) { 0 => rest.len(), 1 => rest.len() + 1, 2 => rest.len() + c.rng.below(20), 3 if c.rng.one_in(4) => usize::MAX / 4, _ => c.rng.below(4) };
                de.eat_some(k);
                hist.push_str(&format!("eat_some({k}) "));
                i += k;
                if i > usize::MAX / 2 { break }
            }
            3 => {
                hist.push_str("input_ref ");
                match de.input_ref() { Ok(x) if inside && x == rest && x.as_ptr() == rest.as_ptr() => {} Err(E::UnexpectedEof) if !inside => {} x => bad!("input_ref gave {x:?}") }
            }
            4 | 5 => {
                let l = match c.rng.below(8) { 0 => rest.len(), 1 => rest.len() + 1, 2 => 0, 3 => usize::MAX / 2, _ => c.rng.below(rest.len() + 2) };
                let r = de.split_input(l);
                hist.push_str(&format!("split_input({l}) "));
                match &r {
                    Ok(x) if inside && l <= rest.len() && *x == &rest[..l] && (l == 0 || x.as_ptr() == rest.as_ptr()) => { b = &rest[l..]; i = 0 }
                    Err(E::UnexpectedEof) if !inside || l > rest.len() => {}
                    _ => bad!("split_input({l}) gave {r:?} with {} bytes left", rest.len()),
                }
            }
            6 => {
                hist.push_str("fetch ");
                let r = de.fetch();
                if r != rest.first().copied().ok_or(E::UnexpectedEof) { bad!("fetch gave {r:?}") }
                if r.is_ok() { i += 1 }
            }
            7 => {
                hist.push_str("eat_message ");
                let r = de.eat_message();
                match (mref::parse(rest), &r) {
                    (Ok((_, n, _)), Ok(())) => { i += n; c.count("messages skipped", 1) }
                    (Err(mref::MErr::Eof), Err(E::UnexpectedEof)) | (Err(mref::MErr::Reserved), Err(E::ReservedCode)) => {
                        let l = de.remaining_len();
                        if l > rest.len() { bad!("a failed skip moved the cursor back") }
                        if inside { i = b.len() - l }
                    }
                    (w, r) => bad!("eat_message gave {r:?} instead of {:?}", w.map(|x| x.1)),
                }
            }
            _ => {
                if !c.rng.one_in(3) { continue }
                hist.push_str("end ");
                let r = de.end();
                if r != if inside { Ok(rest.len()) } else { Err(E::UnexpectedEof) } { bad!("end gave {r:?} with {} bytes left", rest.len()) }
                c.seen2(&text, crate::rng::hash_bytes(&sig));
                c.count("sequences finished with end", 1);
                return Ok(());
            }
        }
        if de.remaining_len() != b.len().saturating_sub(i) { bad!("{} bytes left instead of {}", de.remaining_len(), b.len().saturating_sub(i)) }
        c.note("left", &(de.remaining_len() as u64).to_le_bytes());
    }
    c.seen2(&text, crate::rng::hash_bytes(&sig));
    c.sample(|| format!("{}: {hist}", hex(&text)));
    Ok(())
}
pub fn x03(t: Tier) -> Vec<Workload> {
    vec![wl("JSON cursor sequences", n(t, 400_000, 20_000_000, 250), x03_json), wl("scale: JSON cursor sequences", n(t, 150, 15000, 1), |c| crate::big::on(c, x03_json)), wl("scale: MessagePack cursor sequences", n(t, 150, 15000, 1), |c| crate::big::on(c, x03_mp)), wl("MessagePack cursor sequences", n(t, 300_000, 15_000_000, 200), x03_mp)]
}
