//! Checks of the JSON properties.
use crate::any::*;
use crate::jref::{self, *};
use crate::mem;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types::*;
use crate::util::*;
use ser_write_json as sj;
use serde::{Deserialize, Serialize};

fn ser_ok(m: BM, s: &Sch, v: &Val) -> Result<Vec<u8>, String> {
    jser(m, &SV(s, v)).map_err(|e| format!("serialization of {} as {} ({m:?}) failed: {e:?}", short(v), short(s)))
}
fn same(a: &Val, b: &Val, ctx: impl Fn() -> String) -> R {
    if a.eq(b, FEq::Json) { Ok(()) } else { Err(format!("got {} instead of {}: {}", short(b), short(a), ctx())) }
}
// ================================================================ J01
fn rt(c: &mut Ctx, s: &Sch, v: &Val, m: BM) -> R {
    let b = ser_ok(m, s, v)?;
    c.eval();
    c.seen(&b);
    c.count("bytes round-tripped", b.len() as u64);
    let r = jrun(s, m, &b)?.map_err(|e| format!("{:?} ({m:?}), serialized from {} as {}, is not read back: {e:?}", show(&b), short(v), short(s)))?;
    c.sample(|| format!("{m:?} {}", show(&b)));
    same(v, &r, || format!("round trip through {:?} ({m:?})", show(&b)))
}
fn j01_dyn(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    rt(c, &s, &v, m)
}
fn j01_scalar(c: &mut Ctx) -> R {
    for _ in 0..if crate::util::tiny() { 3 } else { 24 } {
        let s = scalar(&mut c.rng, GJ);
        let v = value(&mut c.rng, &s, &mut 10);
        let m = bm(&mut c.rng);
        rt(c, &s, &v, m)?;
    }
    Ok(())
}
fn j01_doc(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 2);
    let m = bm(&mut c.rng);
    let mut b = jser(m, &d).map_err(|e| format!("serialization of {} failed: {e:?}", short(&d)))?;
    c.eval();
    c.seen(&b);
    let txt = show(&b);
    let r: Doc = jde(m, &mut b).map_err(|e| format!("{txt:?} ({m:?}) is not read back: {e:?}"))?;
    if r == d { Ok(()) } else { Err(format!("{txt:?} ({m:?}) read back as {} instead of {}", short(&r), short(&d))) }
}
/// exhaustive blocks of small integers: case index selects 1024 consecutive 16-bit patterns
fn j01_int16(c: &mut Ctx) -> R {
    for k in 0..1024u32 {
        let x = (c.idx as u32 * 1024 + k) as u16;
        macro_rules! t { ($v:expr, $t:ty) => {{ let v: $t = $v;
            let mut b = jser(BM::Arr, &v).map_err(|e| format!("{v}: {e:?}"))?;
            c.eval();
            if b != v.to_string().as_bytes() { return Err(format!("{v} written as {:?}", show(&b))) }
            let r: $t = jde(BM::Arr, &mut b).map_err(|e| format!("{v} not read back: {e:?}"))?;
            if r != v { return Err(format!("{v} read back as {r}")) } }} }
        t!(x, u16); t!(x as i16, i16); t!(x as u32 * 65537, u32); t!((x as u32 * 65537) as i32, i32);
        t!(x as u64 * 0x0001_0001_0001_0001, u64); t!((x as u64 * 0x0001_0001_0001_0001) as i64, i64);
        if x < 256 { t!(x as u8, u8); t!(x as i8, i8); }
    }
    c.seen(&c.idx.to_le_bytes().clone());
    Ok(())
}
/// every char, 4096 per case, alone, in a string and as a map key
fn j01_char(c: &mut Ctx) -> R {
    let mut all = String::new();
    for k in 0..4096u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 4096 + k) else { continue };
        all.push(ch);
        let mut b = jser(BM::Arr, &ch).map_err(|e| format!("{ch:?}: {e:?}"))?;
        c.eval();
        let t = show(&b);
        let r: char = jde(BM::Arr, &mut b).map_err(|e| format!("{ch:?} written as {t:?} not read back: {e:?}"))?;
        if r != ch { return Err(format!("{ch:?} written as {t:?} read back as {r:?}")) }
    }
    let mut b = jser(BM::Arr, &all[..]).map_err(|e| format!("{e:?}"))?;
    let r: String = jde(BM::Arr, &mut b).map_err(|e| format!("string of chars from U+{:X} not read back: {e:?}", c.idx * 4096))?;
    if r != all { return Err(format!("string of chars from U+{:X} changed", c.idx * 4096)) }
    c.eval();
    c.seen(all.as_bytes());
    let m: std::collections::BTreeMap<char, u8> = all.chars().step_by(7).map(|x| (x, 1)).collect();
    let mut b = jser(BM::Arr, &m).map_err(|e| format!("{e:?}"))?;
    let r: std::collections::BTreeMap<char, u8> = jde(BM::Arr, &mut b).map_err(|e| format!("char keys from U+{:X}: {e:?}", c.idx * 4096))?;
    if r != m { return Err(format!("char keys from U+{:X} changed", c.idx * 4096)) }
    Ok(())
}
/// integers around powers of two and ten in every width
fn j01_ints(c: &mut Ctx) -> R {
    let k = c.idx as u32;
    let mut base: Vec<i128> = vec![1i128 << (k % 66)];
    if k < 21 { base.push(10i128.pow(k)); base.push(5 * 10i128.pow(k)) }
    for b in base { for d in -3..=3i128 { for sg in [1, -1] {
        let n = sg * b + d;
        for s in [Sch::I8, Sch::I16, Sch::I32, Sch::I64, Sch::U8, Sch::U16, Sch::U32, Sch::U64] {
            if let Some(v) = crate::mref::conv(&s, n) {
                rt(c, &s, &v, BM::Arr)?;
                rt(c, &Sch::Map(Box::new(s.clone()), Box::new(s.clone())), &Val::Map(vec![(v.clone(), v.clone())]), BM::Hex)?;
                rt(c, &Sch::Seq(Box::new(s.clone())), &Val::Seq(vec![v.clone(), v.clone()]), BM::B64)?;
            }
        }
    } } }
    Ok(())
}
fn j01_f32all(c: &mut Ctx) -> R {
    let base = (c.idx as u32) << 16;
    let mut w = MonW::new();
    for k in 0..65536u32 {
        let f = f32::from_bits(base | k);
        w.buf.clear();
        jser_to(BM::Arr, &mut w, &f).map_err(|e| format!("{f:?}: {e:?}"))?;
        let ok_txt = w.buf.clone();
        let r: f32 = jde(BM::Arr, &mut w.buf).map_err(|e| format!("{f:?} written as {:?}: {e:?}", show(&ok_txt)))?;
        if !(if f.is_finite() { r == f } else { r.is_nan() }) { return Err(format!("{f:?} (bits {:08x}) read back as {r:?} from {:?}", f.to_bits(), show(&ok_txt))) }
    }
    c.evals(65536);
    c.seen(&base.to_le_bytes());
    Ok(())
}
/// long containers, strings and byte strings around internal sizes
fn j01_sizes(c: &mut Ctx) -> R {
    let n = [0usize, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097][c.idx as usize % 27];
    let m = BMS[(c.idx as usize / 27) % 3];
    let b: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
    rt(c, &Sch::Bytes(false), &Val::Bytes(b.clone()), m)?;
    rt(c, &Sch::Bytes(true), &Val::Bytes(b.clone()), m)?;
    rt(c, &Sch::Tuple(vec![Sch::Bytes(false), Sch::Str(false)]), &Val::Seq(vec![Val::Bytes(b), Val::Str("x".into())]), m)?;
    let t = gen_str_len(&mut c.rng, n);
    rt(c, &Sch::Str(false), &Val::Str(t.clone()), m)?;
    rt(c, &Sch::Fmt, &Val::Str(t), m)?;
    rt(c, &Sch::Seq(Box::new(Sch::Unit)), &Val::Seq(vec![Val::Unit; n]), m)?;
    rt(c, &Sch::Seq(Box::new(Sch::U8)), &Val::Seq((0..n).map(|i| Val::U(i as u64 & 255)).collect()), m)?;
    rt(c, &Sch::Map(Box::new(Sch::U16), Box::new(Sch::Bool)), &Val::Map((0..n).map(|i| (Val::U(i as u64), Val::Bool(i % 3 == 0))).collect()), m)
}
pub fn j01(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("dyn", n(t, 150_000, 6_000_000, 60), j01_dyn), wl("scalar", n(t, 20_000, 800_000, 10), j01_scalar), wl("derived", n(t, 12_000, 400_000, 2), j01_doc),
        wl("int16", 64, j01_int16), wl("chars", 272, j01_char), wl("intsedge", 66, j01_ints), wl("sizes", 81, j01_sizes), wl("scale", n(t, 400, 40000, 1), |c| crate::big::on(c, j01_dyn))];
    if t == Tier::Thorough && cfg_is("rel") { w.push(wl("f32all", 65536, j01_f32all)) }
    if t == Tier::Miri { w.truncate(3) }
    w
}

// ================================================================ J02
fn wellformed(c: &mut Ctx, b: &[u8], what: impl Fn() -> String) -> Result<J, String> {
    c.eval();
    c.seen(b);
    if std::str::from_utf8(b).is_err() { return Err(format!("output is not UTF-8: {:?} from {}", show(b), what())) }
    let p = jref::parse(b).map_err(|i| format!("output is not one JSON text (offset {i}): {:?} from {}", show(b), what()))?;
    if p.ws { return Err(format!("insignificant whitespace in {:?} from {}", show(b), what())) }
    fn deep(j: &J) -> Option<String> {
        match j {
            J::Num(l) => if strict_num(l) { None } else { Some(format!("number {l}")) },
            J::Str(s) => if s.text().is_none() { Some(format!("string {:?}", show(&s.raw))) } else { None },
            J::Arr(v) => v.iter().find_map(deep),
            J::Obj(v) => v.iter().find_map(|(k, x)| if k.text().is_none() { Some(format!("member name {:?}", show(&k.raw))) } else { deep(x) }),
            _ => None,
        }
    }
    match deep(&p.j) { Some(e) => Err(format!("{e} is not valid in {:?} from {}", show(b), what())), None => Ok(p.j) }
}
fn j02_dyn(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    let mut w = MonW::new();
    jser_to(m, &mut w, &SV(&s, &v)).map_err(|e| format!("{} as {}: {e:?}", short(&v), short(&s)))?;
    if w.bad_str { return Err(format!("a write_str call got bytes that are not UTF-8, from {}", short(&v))) }
    let j = wellformed(c, &w.buf, || format!("{} as {} ({m:?})", short(&v), short(&s)))?;
    c.sample(|| format!("{m:?} {}", show(&w.buf)));
    jref::image(&s, &v, &j, m).map_err(|e| format!("{e}: {:?}", show(&w.buf)))
}
fn j02_scalar(c: &mut Ctx) -> R {
    for _ in 0..24 {
        let s = scalar(&mut c.rng, GJ);
        let v = value(&mut c.rng, &s, &mut 10);
        let m = bm(&mut c.rng);
        let b = ser_ok(m, &s, &v)?;
        let j = wellformed(c, &b, || format!("{} as {}", short(&v), short(&s)))?;
        jref::image(&s, &v, &j, m).map_err(|e| format!("{e}: {:?}", show(&b)))?;
    }
    Ok(())
}
pub fn gen_act(r: &mut Rng, d: usize, wrong: bool) -> Act {
    let leaf = |r: &mut Rng| { let s = scalar(r, Gen { fmt: true, ..GJ }); let v = value(r, &s, &mut 6); Act::Leaf(s, v) };
    if d == 0 || r.one_in(4) { return leaf(r) }
    let n = match r.below(10) { 0 => 0, 1..=5 => r.range(1, 3), 6..=8 => r.range(4, 8), _ => *r.pick(&[14usize, 15, 16, 17, 18]) };
    let n = crate::big::take(r, 2, 600).unwrap_or(n);
    let dd = if n > 4 { 0 } else { d - 1 };
    let off = |r: &mut Rng, n: usize| if !wrong || r.below(3) > 0 { n } else { match r.below(6) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => 0, 3 => n + 16, 4 => 15, _ => n * 2 } };
    match r.below(8) {
        0 | 1 => Act::Seq { hint: if wrong && r.one_in(4) { None } else { Some(off(r, n)) }, items: (0..n).map(|_| gen_act(r, dd, wrong)).collect() },
        2 => {
            let items = (0..n).map(|i| (Act::Leaf(Sch::Str(true), Val::Str(format!("k{i}{}", gen_str_short(r)))), gen_act(r, dd, wrong))).collect();
            Act::Map { hint: if wrong && r.one_in(4) { None } else { Some(off(r, n)) }, items }
        }
        3 => Act::Tuple { kind: r.below(3) as u8, len: off(r, n), items: (0..n).map(|_| gen_act(r, dd, wrong)).collect() },
        4 | 5 => {
            let skip = r.one_in(2);
            let tail = r.one_in(2);
            let cut = r.below(n + 1);
            let items: Vec<_> = (0..n).map(|i| if skip && (if tail { i >= cut } else { r.one_in(3) }) { None } else { Some(gen_act(r, dd, wrong)) }).collect();
            // serde-derived types announce the number of fields that will actually be written
            let k = items.iter().filter(|x| x.is_some()).count();
            let len = if r.coin() { off(r, k) } else { off(r, n) };
            Act::Struct { kind: r.below(2) as u8, len, names: names(r, n), items }
        }
        6 => Act::New(Box::new(gen_act(r, dd, wrong))),
        _ => Act::NewVar(Box::new(gen_act(r, dd, wrong))),
    }
}
fn act_json(a: &Act, j: &J, m: BM) -> R {
    let e = || Err(format!("{} written as {}", short(a), short(j)));
    let one = |j: &'_ J, n: &str| -> Option<J> { if let J::Obj(o) = j { if o.len() == 1 && o[0].0.text() == Some(n) { return Some(o[0].1.clone()) } } None };
    match a {
        Act::Leaf(s, v) => jref::image(s, v, j, m),
        Act::Some(i) | Act::New(i) => act_json(i, j, m),
        Act::NewVar(i) => match one(j, "nv") { Some(x) => act_json(i, &x, m), None => e() },
        Act::Seq { items, .. } | Act::Tuple { kind: 0 | 1, items, .. } => { let J::Arr(v) = j else { return e() }; if v.len() != items.len() { return e() } for (x, y) in items.iter().zip(v) { act_json(x, y, m)? } Ok(()) }
        Act::Tuple { items, .. } => { let Some(J::Arr(v)) = one(j, "tv") else { return e() }; if v.len() != items.len() { return e() } for (x, y) in items.iter().zip(&v) { act_json(x, y, m)? } Ok(()) }
        Act::Map { items, .. } => {
            let J::Obj(v) = j else { return e() };
            if v.len() != items.len() { return e() }
            for ((k, x), (l, y)) in items.iter().zip(v) { act_json(k, &J::Str(l.clone()), m)?; act_json(x, y, m)? }
            Ok(())
        }
        Act::Struct { kind, names, items, .. } => {
            let o = if *kind == 0 { j.clone() } else { match one(j, "sv") { Some(x) => x, None => return e() } };
            let J::Obj(v) = o else { return e() };
            let kept: Vec<_> = names.iter().zip(items).filter_map(|(n, i)| i.as_ref().map(|i| (n, i))).collect();
            if v.len() != kept.len() { return e() }
            for ((n, x), (l, y)) in kept.iter().zip(&v) { if l.text() != Some(n) { return e() } act_json(x, y, m)? }
            Ok(())
        }
    }
}
/// hand-written Serialize implementations: missing or wrong length hints, skipped fields
fn j02_script(c: &mut Ctx) -> R {
    let a = gen_act(&mut c.rng, 3, true);
    let m = bm(&mut c.rng);
    let b = jser(m, &a).map_err(|e| format!("{} ({m:?}) failed: {e:?}", short(&a)))?;
    let j = wellformed(c, &b, || short(&a))?;
    act_json(&a, &j, m)
}
fn j02_chars(c: &mut Ctx) -> R {
    // each char at the end, in the middle, and doubled: positions matter to run-based escaping
    let mut v = vec![];
    for k in 0..2048u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 2048 + k) else { continue };
        v.push(format!("{ch}")); v.push(format!("a{ch}b")); v.push(format!("{ch}{ch}é{ch}"));
    }
    let b = jser(BM::Arr, &v).map_err(|e| format!("{e:?}"))?;
    let j = wellformed(c, &b, || format!("strings of chars from U+{:X}", c_idx(0)))?;
    c.evals(v.len() as u64);
    let J::Arr(a) = j else { return Err("no array".into()) };
    if a.len() != v.len() { return Err(format!("{} strings written as {}", v.len(), a.len())) }
    for (x, y) in v.iter().zip(&a) { if !matches!(y, J::Str(s) if s.text() == Some(x)) { return Err(format!("string {x:?} written as {y:?}")) } }
    Ok(())
}
fn c_idx(x: u64) -> u64 { x }
fn j02_derived(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 1);
    let m = bm(&mut c.rng);
    let b = jser(m, &d).map_err(|e| format!("{e:?}"))?;
    let j = wellformed(c, &b, || short(&d))?;
    let J::Obj(o) = &j else { return Err("a struct is not an object".into()) };
    let names: Vec<_> = o.iter().map(|x| x.0.text().unwrap().to_string()).collect();
    if names != ["id", "negValue", "small", "f", "g", "flag", "c", "name", "opt", "list", "kinds", "byname", "bynum", "bychar", "bykey", "bybool", "bynt", "raw", "arr", "unit", "us", "nt", "ts", "ip", "dur", "res", "we\"ird\\", "last"] { return Err(format!("members {names:?}")) }
    // the public string functions return the same text
    let t = match m { BM::Arr => sj_string(&d, 0), BM::Hex => sj_string(&d, 1), _ => sj_string(&d, 2) };
    if let Some(t) = t { if t.as_bytes() != b { return Err(format!("to_string gives {:?}, to_writer {:?}", show(t.as_bytes()), show(&b))) } }
    Ok(())
}
#[cfg(any(feature = "std", feature = "alloc"))]
fn sj_string(d: &impl Serialize, k: u8) -> Option<String> { Some(match k { 0 => sj::to_string(d), 1 => sj::to_string_hex_bytes(d), _ => sj::to_string_base64_bytes(d) }.expect("to_string")) }
#[cfg(not(any(feature = "std", feature = "alloc")))]
fn sj_string(_: &impl Serialize, _: u8) -> Option<String> { None }
fn j02_f32all(c: &mut Ctx) -> R {
    let base = (c.idx as u32) << 16;
    let mut w = MonW::new();
    for k in 0..65536u32 {
        let f = f32::from_bits(base | k);
        w.buf.clear();
        jser_to(BM::Arr, &mut w, &f).map_err(|e| format!("{f:?}: {e:?}"))?;
        let t = std::str::from_utf8(&w.buf).map_err(|_| "utf8".to_string())?;
        if !(if f.is_finite() { strict_num(t) && t.parse::<f32>() == Ok(f) } else { t == "null" }) { return Err(format!("{f:?} (bits {:08x}) written as {t:?}", f.to_bits())) }
    }
    c.evals(65536);
    c.seen(&base.to_le_bytes());
    Ok(())
}
pub fn j02(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("dyn", n(t, 120_000, 6_000_000, 60), j02_dyn), wl("scalar", n(t, 20_000, 800_000, 10), j02_scalar), wl("script", n(t, 60_000, 3_000_000, 20), j02_script),
        wl("derived", n(t, 8_000, 300_000, 2), j02_derived), wl("chars", 544, j02_chars), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, j02_dyn)), wl("scale: hand-written", n(t, 200, 20000, 1), |c| crate::big::on(c, j02_script))];
    if t == Tier::Thorough && cfg_is("rel") { w.push(wl("f32all", 65536, j02_f32all)) }
    w
}

// ================================================================ J03
fn j03_dyn(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    for _ in 0..3 {
        let st = style(&mut c.rng);
        let b = render(&mut c.rng, st, m, &s, &v);
        debug_assert!(jref::parse(&b).is_ok(), "{}", show(&b));
        c.seen(&b);
        c.eval();
        let r = jrun(&s, m, &b)?.map_err(|e| format!("valid document {:?} for {} rejected as {} ({m:?}): {e:?}", show(&b), short(&v), short(&s)))?;
        c.sample(|| format!("{m:?} {}", show(&b)));
        same(&v, &r, || format!("document {:?} ({m:?})", show(&b)))?;
    }
    Ok(())
}
fn j03_any(c: &mut Ctx) -> R {
    let st = style(&mut c.rng);
    let b = { let mut r = Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None }; r.ws(); r.any(4); r.ws(); r.o };
    if jref::parse(&b).is_err() { return Err(format!("harness: rendered {:?}", show(&b))) }
    c.seen(&b);
    jcheck_any(c, BM::Arr, &b)?;
    let (s, v) = jval(&mut c.rng);
    let b = render(&mut c.rng, st, BM::Arr, &s, &v);
    c.seen(&b);
    jcheck_any(c, BM::Arr, &b)
}
/// the derived document rendered wildly: re-render the tree of its own serialization
fn j03_derived(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 1);
    let m = bm(&mut c.rng);
    let b = jser(m, &d).map_err(|e| format!("{e:?}"))?;
    let p = jref::parse(&b).map_err(|_| "serialized text does not parse".to_string())?;
    let st = style(&mut c.rng);
    let mut o = { let mut r = Ren { rng: &mut c.rng, st, o: vec![], m, flt: None }; r.ws(); tree(&mut r, &p.j, m != BM::Arr); r.ws(); r.o };
    c.eval();
    c.seen(&o);
    let t = show(&o);
    let r: Doc = jde(m, &mut o).map_err(|e| format!("{t:?} ({m:?}): {e:?}"))?;
    if r == d { Ok(()) } else { Err(format!("{t:?} ({m:?}) read as {} instead of {}", short(&r), short(&d))) }
}
/// re-render a tree with other whitespace and escapes; encoded byte strings (coded) stay as they are
pub fn tree(r: &mut Ren, j: &J, coded: bool) {
    match j {
        J::Null => r.o.extend_from_slice(b"null"),
        J::Bool(x) => r.o.extend_from_slice(if *x { b"true" } else { b"false" }),
        J::Num(l) => r.o.extend_from_slice(l.as_bytes()),
        J::Str(s) => if coded && s.raw.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'+' | b'/')) { r.o.push(b'"'); r.o.extend_from_slice(&s.raw); r.o.push(b'"') } else { r.string(s.text().unwrap()) },
        J::Arr(v) => { r.o.push(b'['); for (i, x) in v.iter().enumerate() { if i > 0 { r.o.push(b',') } r.ws(); tree(r, x, coded); r.ws() } r.ws(); r.o.push(b']') }
        J::Obj(v) => {
            r.o.push(b'{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 { r.o.push(b',') }
                r.ws();
                let t = k.text().unwrap().to_string();
                // numeric and boolean keys are read without unescaping
                if t.bytes().all(|c| c.is_ascii_digit() || c == b'-') || t == "true" || t == "false" { r.o.push(b'"'); r.o.extend_from_slice(t.as_bytes()); r.o.push(b'"') } else { r.string(&t) }
                r.ws(); r.o.push(b':'); r.ws(); tree(r, x, coded); r.ws()
            }
            r.ws(); r.o.push(b'}')
        }
    }
}
/// every way to escape each char of a block
fn j03_escapes(c: &mut Ctx) -> R {
    for k in 0..1024u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 1024 + k) else { continue };
        let mut u = [0; 2];
        let e: String = ch.encode_utf16(&mut u).iter().map(|x| format!("\\u{x:04x}")).collect();
        let mixed: String = e.chars().enumerate().map(|(i, x)| if i % 3 == 0 && x != 'u' { x.to_ascii_uppercase() } else { x }).collect();
        let upper = e.to_ascii_uppercase().replace("\\U", "\\u");
        let mut t = format!("[\"{e}\",\"{upper}\",\"<{mixed}>\",\"{e}{upper}\",\"");
        let plain = ch >= ' ' && ch != '"' && ch != '\\';
        if plain { t.push(ch) } else { t.push_str(&e) }
        t.push_str("\"]");
        let x = ch.to_string();
        let want = vec![x.clone(), x.clone(), format!("<{x}>"), format!("{x}{x}"), x.clone()];
        let mut b = t.clone().into_bytes();
        c.eval();
        let r: Vec<String> = jde(BM::Arr, &mut b).map_err(|er| format!("{t:?}: {er:?}"))?;
        if r != want { return Err(format!("{t:?} read as {r:?}")) }
        let mut b = format!("\"{e}\"").into_bytes();
        let r: char = jde(BM::Arr, &mut b).map_err(|er| format!("\"{e}\" as char: {er:?}"))?;
        if r != ch { return Err(format!("\"{e}\" read as {r:?}")) }
        let mut b = format!("{{\"{upper}\":1}}").into_bytes();
        let r: std::collections::BTreeMap<String, u8> = jde(BM::Arr, &mut b).map_err(|er| format!("key \"{upper}\": {er:?}"))?;
        if r.keys().next() != Some(&x) { return Err(format!("key \"{upper}\" read as {r:?}")) }
    }
    c.seen(&c.idx.to_le_bytes().clone());
    Ok(())
}
pub fn j03(t: Tier) -> Vec<Workload> {
    vec![wl("render", n(t, 70_000, 3_000_000, 30), j03_dyn), wl("selfdescribing", n(t, 50_000, 2_000_000, 30), j03_any), wl("derived", n(t, 8_000, 300_000, 2), j03_derived), wl("escapes", 1088, j03_escapes), wl("scale", n(t, 200, 30000, 1), |c| crate::big::on(c, j03_dyn)), wl("scale: selfdescribing", n(t, 300, 30000, 1), |c| crate::big::on(c, j03_any))]
}

// ================================================================ J04
fn j04_corrupt(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let doc = render(&mut c.rng, st, m, &s, &v);
    for _ in 0..6 {
        let mut b = doc.clone();
        for _ in 0..*c.rng.pick(&[1, 1, 1, 2, 3]) { mutate_json(&mut c.rng, &mut b) }
        let ok = jref::parse(&b).is_ok();
        c.count(if ok { "still JSON" } else { "malformed texts" }, 1);
        if !ok { c.seen(&b) }
        jcheck(c, &s, m, &b)?;
        jcheck_any(c, m, &b)?;
        jcheck(c, &Sch::Ignore, m, &b)?;
    }
    c.sample(|| format!("base {:?}", show(&doc)));
    Ok(())
}
/// every truncation of a document and every trailing byte
fn j04_ends(c: &mut Ctx) -> R {
    let (s, v) = typed(&mut c.rng, GJ, 3);
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let doc = render(&mut c.rng, st, m, &s, &v);
    if doc.len() > 400 { return Ok(()) }
    for k in 0..doc.len() { jcheck(c, &s, m, &doc[..k])?; if k % 3 == 0 { jcheck_any(c, m, &doc[..k])?; jcheck(c, &Sch::Ignore, m, &doc[..k])? } }
    c.seen(&doc);
    for x in (0..=255u8).step_by(if c.idx % 4 == 0 { 1 } else { 7 }) {
        let mut b = doc.clone();
        b.push(x);
        jcheck(c, &s, m, &b)?;
        jcheck(c, &Sch::Ignore, m, &b)?;
        let mut b = vec![x];
        b.extend_from_slice(&doc);
        jcheck(c, &s, m, &b)?;
    }
    Ok(())
}
/// every sequence of up to L tokens over a structural alphabet
const TOKS: [&str; 14] = ["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", " ", "\"", "tru", "\\", "true"];
fn targets() -> &'static [Sch] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<Sch>> = OnceLock::new();
    T.get_or_init(|| {
        let b = |s: Sch| Box::new(s);
        let st: Names = pool_pick(&["a", "b"]);
        vec![
            Sch::Ignore, Sch::Seq(b(Sch::Ignore)), Sch::Seq(b(Sch::U8)), Sch::Map(b(Sch::Str(false)), b(Sch::Ignore)), Sch::Map(b(Sch::Str(true)), b(Sch::U8)),
            Sch::Opt(b(Sch::Seq(b(Sch::Str(false))))), Sch::Tuple(vec![Sch::Opt(b(Sch::U8)), Sch::Ignore]), Sch::Struct(st, vec![Sch::Opt(b(Sch::Ignore1())), Sch::Opt(b(Sch::U8))]),
            Sch::Enum(st, vec![Var::Unit, Var::New(Sch::U8)]), Sch::Enum(st, vec![Var::Tup(vec![Sch::U8, Sch::U8]), Var::Unit]), Sch::Enum(st, vec![Var::Struct(st, vec![Sch::Opt(b(Sch::U8)), Sch::Opt(b(Sch::U8))]), Var::Unit]),
            Sch::Bytes(false), Sch::Str(false), Sch::Bool, Sch::F64, Sch::Unit, Sch::Seq(b(Sch::Seq(b(Sch::Opt(b(Sch::U8)))))), Sch::Map(b(Sch::Char), b(Sch::Seq(b(Sch::Bool)))),
        ]
    })
}
pub fn pool_pick(v: &[&'static str]) -> Names { Box::leak(v.to_vec().into_boxed_slice()) }
impl Sch { #[allow(non_snake_case)] fn Ignore1() -> Sch { Sch::Seq(Box::new(Sch::Ignore)) } }
fn j04_tokens(c: &mut Ctx, len: u32, block: u64) -> R {
    let total = (TOKS.len() as u64).pow(len);
    let mut b = vec![];
    for k in 0..block {
        let mut x = c.idx * block + k;
        if x >= total { break }
        b.clear();
        for _ in 0..len { b.extend_from_slice(TOKS[(x % TOKS.len() as u64) as usize].as_bytes()); x /= TOKS.len() as u64 }
        let p = jref::parse(&b);
        if p.is_err() {
            // malformed: nobody may accept it
            let mut g = b.clone();
            let u = if len > 4 { [(c.idx + k) as usize % targets().len(); 1].to_vec() } else { (0..targets().len()).collect() };
            for i in u { let s = &targets()[i]; c.eval(); let r = jrun_fast(s, BM::Arr, &b, &mut g); if let Ok(v) = r { return Err(format!("malformed {:?} accepted as {} by {}", show(&b), short(&v), short(s))) } }
            g.copy_from_slice(&b);
            if let Ok(a) = jde::<Any>(BM::Arr, &mut g) { return Err(format!("malformed {:?} accepted as generic tree {}", show(&b), short(&a))) }
            g.copy_from_slice(&b);
            if jde::<serde::de::IgnoredAny>(BM::Arr, &mut g).is_ok() { return Err(format!("malformed {:?} accepted and ignored", show(&b))) }
            c.evals(2);
            c.count("malformed texts", 1);
            if k % 64 == 0 { c.seen(&b) }
        } else {
            c.count("still JSON", 1);
            for s in targets() { jcheck(c, s, BM::Arr, &b)? }
            jcheck_any(c, BM::Arr, &b)?;
        }
    }
    Ok(())
}
fn jrun_fast(s: &Sch, m: BM, b: &[u8], g: &mut [u8]) -> JRes {
    g.copy_from_slice(b);
    let rec = Rec::default();
    with_schema(s, &rec, || jde::<Dyn>(m, g).map(|d| d.0))
}
fn j04_tok3(c: &mut Ctx) -> R { j04_tokens(c, 3, 14) }
fn j04_tok4(c: &mut Ctx) -> R { j04_tokens(c, 4, 196) }
fn j04_tok5(c: &mut Ctx) -> R { j04_tokens(c, 5, 196) }
fn j04_tok6(c: &mut Ctx) -> R { j04_tokens(c, 6, 14 * 196) }
/// string contents: invalid escapes, surrogates, control characters, UTF-8
fn j04_strings(c: &mut Ctx) -> R {
    const P: &[&[u8]] = &[b"a", b"\\n", b"\\\\", b"\\\"", b"\\/", b"\\u0041", b"\\ud83d", b"\\ude00", b"\\uD83D\\uDE00", b"\\uDE00\\uD83D", b"\\u12", b"\\u12g4", b"\\ux000", b"\\x41", b"\\a", b"\\U0041", b"\\0", b"\\'", b"\x00", b"\x1f", b"\x7f", b"\t", b"\n", b"\xc3\xa9", b"\xc3", b"\xa9", b"\xed\xa0\xbd", b"\xf0\x9f\x98\x80", b"\xf0\x9f\x98", b"\xff", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\\ud83d\\n", b"\\ud83dx", b"\\ud83d\\u0041", b"\\u", b"\\", b"\\\xc3", b"\\u\xc3\xa9ab", b"\\u+041", b"\\u 041", b"\\udc00", b"\\udfff", b"\\udbff\\udfff", b"\\ud7ff", b"\\ue000", b"\\ud800\\", b"\\ud800\\u", b"\\ud800\\ud800", b"\\ud800\\udbff", b"\\ud800\\ue000"];
    let k = c.rng.range(1, 4);
    let mut body = vec![];
    for _ in 0..k { body.extend_from_slice(c.rng.pick(P)) }
    c.seen(&body);
    let q = |pre: &[u8], suf: &[u8]| { let mut v = pre.to_vec(); v.extend_from_slice(&body); v.extend_from_slice(suf); v };
    let b = |s: Sch| Box::new(s);
    let full = q(b"\"", b"\"");
    for s in [Sch::Str(false), Sch::Str(true), Sch::Char, Sch::Bytes(false), Sch::Opt(b(Sch::Str(false))), Sch::Ignore, Sch::Enum(pool_pick2(), vec![Var::Unit, Var::Unit])] { jcheck(c, &s, BM::Arr, &full)? }
    jcheck(c, &Sch::Bytes(false), BM::Hex, &full)?;
    jcheck(c, &Sch::Bytes(false), BM::B64, &full)?;
    jcheck_any(c, BM::Arr, &full)?;
    jcheck(c, &Sch::Tuple(vec![Sch::Str(false), Sch::Str(false)]), BM::Arr, &q(b"[\"", b"\",\"z\"]"))?;
    let key = q(b"{\"", b"\":1}");
    for k in [Sch::Str(false), Sch::Char, Sch::I32, Sch::U8, Sch::Bool, Sch::Enum(pool_pick2(), vec![Var::Unit, Var::Unit])] { jcheck(c, &Sch::Map(b(k), b(Sch::U8)), BM::Arr, &key)? }
    jcheck(c, &Sch::Struct(pool_pick2(), vec![Sch::Opt(b(Sch::U8)), Sch::Opt(b(Sch::U8))]), BM::Arr, &key)?;
    jcheck_any(c, BM::Arr, &key)
}
fn pool_pick2() -> Names { &["a", "é"] }
/// number lexemes that are not numbers
fn j04_numbers(c: &mut Ctx) -> R {
    let n = c.rng.range(1, 7);
    let l: String = (0..n).map(|_| *c.rng.pick(&['0', '1', '9', '2', '-', '+', '.', 'e', 'E', '0', '5'])).collect();
    c.seen(l.as_bytes());
    for (t, ss) in [
        (l.clone(), vec![Sch::F32, Sch::F64, Sch::I8, Sch::U8, Sch::I64, Sch::U64, Sch::U16, Sch::Opt(Box::new(Sch::F64))]),
        (format!("[{l},1]"), vec![Sch::Tuple(vec![Sch::F64, Sch::U8]), Sch::Seq(Box::new(Sch::I16)), Sch::Bytes(false)]),
        (format!("{{\"{l}\":0}}"), vec![Sch::Map(Box::new(Sch::I64), Box::new(Sch::U8)), Sch::Map(Box::new(Sch::U8), Box::new(Sch::U8)), Sch::Map(Box::new(Sch::Str(true)), Box::new(Sch::U8))]),
    ] {
        for s in ss { jcheck(c, &s, BM::Arr, t.as_bytes())? }
        jcheck_any(c, BM::Arr, t.as_bytes())?;
    }
    Ok(())
}
pub fn j04(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("corrupt", n(t, 40_000, 2_000_000, 20), j04_corrupt), wl("ends", n(t, 4_000, 150_000, 2), j04_ends), wl("strings", n(t, 40_000, 1_500_000, 30), j04_strings),
        wl("numbers", n(t, 30_000, 1_500_000, 20), j04_numbers), wl("tokens3", 196, j04_tok3), wl("tokens4", 196, j04_tok4), wl("tokens5", 2744, j04_tok5), wl("scale", n(t, 120, 20000, 1), |c| crate::big::on(c, j04_corrupt))];
    if t == Tier::Thorough { w.push(wl("tokens6", 2744, j04_tok6)) }
    w
}

// ================================================================ J05
const INTS: [Sch; 8] = [Sch::I8, Sch::I16, Sch::I32, Sch::I64, Sch::U8, Sch::U16, Sch::U32, Sch::U64];
fn lexeme(c: &mut Ctx, l: &str, all: bool) -> R {
    let k = c.rng.below(8);
    for (i, s) in INTS.iter().enumerate() {
        if !all && i != k { continue }
        let b = |s: &Sch| Box::new(s.clone());
        jcheck(c, s, BM::Arr, l.as_bytes())?;
        jcheck(c, &Sch::Tuple(vec![s.clone(), Sch::U8]), BM::Arr, format!("[{l},7]").as_bytes())?;
        jcheck(c, &Sch::Seq(b(s)), BM::Arr, format!("[ {l} ]").as_bytes())?;
        jcheck(c, &Sch::Map(b(s), Box::new(Sch::Bool)), BM::Arr, format!("{{\"{l}\":true}}").as_bytes())?;
        jcheck(c, &Sch::Opt(Box::new(Sch::Newtype(b(s)))), BM::Arr, format!("\t{l}\n").as_bytes())?;
        jcheck(c, &Sch::Map(Box::new(Sch::Newtype(b(s))), b(s)), BM::Arr, format!("{{\"{l}\":{l}}}").as_bytes())?;
        jcheck(c, &Sch::Enum(&["a"], vec![Var::New(s.clone())]), BM::Arr, format!("{{\"a\":{l}}}").as_bytes())?;
    }
    jcheck(c, &Sch::Bytes(false), BM::Arr, format!("[{l}]").as_bytes())?;
    jcheck(c, &Sch::Bytes(true), BM::Hex, format!("[ 1,{l} , 255]").as_bytes())?;
    jcheck_any(c, BM::Arr, l.as_bytes())?;
    jcheck_any(c, BM::Arr, format!("[{l},{l}]").as_bytes())
}
fn j05_edge(c: &mut Ctx) -> R {
    // around every type's limits, and around limits shifted by multiples of the type's modulus
    let bits = [7u32, 8, 15, 16, 31, 32, 63, 64][c.idx as usize % 8];
    let mult = 1 + (c.idx as i128 / 8) % 16;
    let base = (1i128 << bits) * mult;
    for d in -4..=4i128 { for sg in [1i128, -1] {
        let n = (base + d) * sg;
        let p = n.to_string();
        for l in [p.clone(), format!("{p}.0"), format!("{p}e0"), format!("{p}E+0"), format!("{p}0"), format!("{p}00e-2"), format!("{p}.5"), format!("{p}e1"), p.replace('-', "-0"), format!("0{p}"), format!("+{p}"), format!("{p}e-1"), format!("{p}."), format!("{p}-"), format!("{p}-1"), format!("{p}+"), format!("{p}e"), format!("-{p}")] {
            c.seen(l.as_bytes());
            lexeme(c, &l, true)?;
        }
    } }
    c.sample(|| format!("around {base}"));
    Ok(())
}
fn j05_random(c: &mut Ctx) -> R {
    let l = match c.rng.below(5) {
        0 => { let n = c.rng.range(1, 25); (0..n).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect::<String>() }
        1 => format!("-{}", gen_u64(&mut c.rng, 64)),
        2 => gen_u64(&mut c.rng, 64).to_string(),
        3 => { let mut s = gen_i64(&mut c.rng, 64).to_string(); let i = c.rng.below(s.len() + 1); s.insert(i, *c.rng.pick(&['.', 'e', '0', '-', '+', '9', ' ', '_', 'x', 'E'])); s }
        _ => { let n = c.rng.range(1, 8); (0..n).map(|_| *c.rng.pick(&['0', '1', '2', '5', '9', '-', '+', '.', 'e'])).collect() }
    };
    c.seen(l.as_bytes());
    lexeme(c, &l, true)
}
/// long spellings: what they denote does not depend on how many characters that takes
fn j05_long(c: &mut Ctx) -> R {
    let n = crate::big::length(&mut c.rng).min(if crate::util::tiny() { 60 } else { 5_000 });
    let z = "0".repeat(n);
    let p = if c.rng.coin() { gen_i64(&mut c.rng, 64).to_string() } else { gen_u64(&mut c.rng, 64).to_string() };
    let d: String = (0..n).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect();
    let l = match c.rng.below(10) { 0 => format!("{p}{z}"), 1 => format!("{p}.{z}"), 2 => format!("{p}e{z}"), 3 => format!("{p}e+{z}1"), 4 => format!("{p}e-{z}1"), 5 => format!("1{d}"), 6 => format!("{p}.{d}"), 7 => format!("0.{z}{}", p.trim_start_matches('-')), 8 => format!("-{z}"), _ => format!("{z}{}", p.trim_start_matches('-')) };
    c.seen(l.as_bytes());
    lexeme(c, &l, c.idx % 4 == 0)
}
/// floating point numbers spelled with many digits
fn j05_longf(c: &mut Ctx) -> R {
    let s = if c.rng.coin() { Sch::F64 } else { Sch::F32 };
    let v = loop { let v = value(&mut c.rng, &s, &mut 1); match v { Val::F32(f) if f.is_finite() => break v, Val::F64(f) if f.is_finite() => break v, _ => {} } };
    let mut st = style(&mut c.rng);
    st.floats = true;
    let m = BM::Arr;
    let (s, v) = if c.rng.coin() { (Sch::Seq(Box::new(s)), Val::Seq(vec![v.clone(), v])) } else { (s, v) };
    for _ in 0..3 {
        let b = render(&mut c.rng, st, m, &s, &v);
        c.seen(&b);
        c.eval();
        let r = jrun(&s, m, &b)?.map_err(|e| format!("{:?}: {e:?}", show(&b)))?;
        same(&v, &r, || show(&b))?;
        jcheck_any(c, m, &b)?;
    }
    Ok(())
}
/// every integer of a range around the 8- and 16-bit types, as value and key
fn j05_all16(c: &mut Ctx) -> R {
    for k in 0..1000i64 {
        let n = c.idx as i64 * 1000 - 70_000 + k;
        let t = n.to_string();
        for (i, s) in [Sch::I8, Sch::U8, Sch::I16, Sch::U16, Sch::I32, Sch::U32].iter().enumerate() {
            jcheck(c, s, BM::Arr, t.as_bytes())?;
            if (k as usize + i) % 5 == 0 { jcheck(c, &Sch::Map(Box::new(s.clone()), Box::new(Sch::U8)), BM::Arr, format!("{{\"{t}\":0}}").as_bytes())? }
        }
    }
    c.seen(&c.idx.to_le_bytes().clone());
    Ok(())
}
/// every lexeme of up to L characters over the number alphabet
fn j05_exh(c: &mut Ctx) -> R {
    const A: [u8; 9] = *b"01259-+.e";
    let len = if c.idx < 729 { 5 } else { 6 };
    let mut x = if c.idx < 729 { c.idx * 81 } else { (c.idx - 729) * 729 };
    let cnt = if c.idx < 729 { 81 } else { 729 };
    for _ in 0..cnt {
        let mut y = x; x += 1;
        let mut l = String::new();
        for _ in 0..len { l.push(A[(y % 9) as usize] as char); y /= 9 }
        // shorter ones appear as suffixes of shorter length too
        let cut = (x % 5) as usize;
        lexeme(c, &l[..l.len() - cut.min(l.len() - 1)], false)?;
        let s = &INTS[[0, 4, 1, 5][(x % 4) as usize]];
        jcheck(c, s, BM::Arr, l.as_bytes())?;
    }
    c.seen(&c.idx.to_le_bytes().clone());
    Ok(())
}
pub fn j05(t: Tier) -> Vec<Workload> {
    vec![wl("edges", n(t, 128, 128, 2), j05_edge), wl("random", n(t, 15_000, 600_000, 10), j05_random), wl("all16", n(t, 140, 140, 1), j05_all16), wl("lexemes", n(t, 729, 1458, 2), j05_exh), wl("long", n(t, 600, 60000, 2), |c| j05_long(c)), wl("long floats", n(t, 600, 60000, 2), |c| crate::big::on(c, j05_longf))]
}

// ================================================================ J06
pub fn hostile(c: &mut Ctx) -> (Sch, BM, Vec<u8>) {
    let m = *c.rng.pick(&[BM::Arr, BM::Hex, BM::B64, BM::Pass]);
    let r = &mut c.rng;
    let (s, v) = jval(r);
    let b = match r.below(8) {
        0 => { let n = r.below(40); (0..n).map(|_| r.next() as u8).collect() }
        1 => { let n = r.below(60); random_json_soup(r, n) }
        2 => { let n = r.below(30); (0..n).map(|_| *r.pick(b"\"\\u0123456789abcdefDE[]{},: \x00\xff=+-.e")).collect() }
        3 => { let mut b = b"\"".to_vec(); let n = r.below(40); for _ in 0..n { b.push(*r.pick(b"AZaz09+/=\"\\fF5")) } if r.coin() { b.push(b'"') } b }
        _ => {
            let st = style(r);
            let md = if r.one_in(4) { bm(r) } else if m == BM::Pass { BM::Arr } else { m };
            let mut b = render(r, st, md, &s, &v);
            for _ in 0..*r.pick(&[0, 1, 1, 2, 5]) { mutate_json(r, &mut b) }
            if r.one_in(5) { let n = r.below(b.len() + 1); b.truncate(n) }
            b
        }
    };
    (s, m, b)
}
fn j06_fuzz(c: &mut Ctx) -> R {
    let (s, m, b) = hostile(c);
    c.seen(&b);
    c.evals(5);
    let r = jrun(&s, m, &b)?;
    c.count(if r.is_ok() { "typed: value" } else { "typed: error" }, 1);
    // directly before an inaccessible page
    let r2 = fenced(&b, |f| { let rec = Rec::default(); let base = f.as_ptr() as usize; let r = with_schema(&s, &rec, || jde::<Dyn>(m, &mut *f).map(|d| d.0)); check_lent(&rec, base, f).map(|_| r) });
    let r2 = r2?;
    if r.is_ok() != r2.is_ok() { return Err(format!("same input decoded differently in another buffer: {:?} vs {:?}: {:?} as {}", r.is_ok(), r2.is_ok(), show(&b), short(&s))) }
    // ignoring: no allocation beyond an error message
    let (ri, u) = fenced(&b, |f| mem::measure(|| jde::<serde::de::IgnoredAny>(m, f).is_ok()));
    c.count(if ri { "ignored: value" } else { "ignored: error" }, 1);
    if u.total > 512 { return Err(format!("ignoring {} bytes allocated {} bytes: {:?}", b.len(), u.total, show(&b))) }
    let mut g = Guard::new(&b);
    let (ra, u) = { let base = g.buf().as_ptr() as usize; let n = b.len(); mem::measure(|| match jde::<Any>(m, g.buf()) { Ok(a) => lent_inside(&a, base, n).map(|_| true), Err(_) => Ok(false) }) };
    ra.map_err(|e| format!("{e}: {:?} as tree", show(&b)))?;
    if !g.intact() { return Err(format!("bytes outside the input modified: {:?} as tree", show(&b))) }
    if u.total > 4096 + 2048 * b.len() { return Err(format!("a tree from {} bytes allocated {} bytes: {:?}", b.len(), u.total, show(&b))) }
    if c.idx % 4 == 0 {
        let mut g = b.clone();
        let _ = jde::<Doc>(m, &mut g);
        g.copy_from_slice(&b);
        let _ = jde::<Vec<Kind>>(m, &mut g);
        g.copy_from_slice(&b);
        let _ = jde::<Unt>(m, &mut g);
        g.copy_from_slice(&b);
        let _ = jde::<Vec<u8>>(m, &mut g);
        g.copy_from_slice(&b);
        let _ = jde::<Vec<&serde_bytes::Bytes>>(m, &mut g);
    }
    c.sample(|| format!("{m:?} {:?} as {}", show(&b), short(&s)));
    Ok(())
}
/// corrupted derived documents
fn j06_doc(c: &mut Ctx) -> R {
    let m = bm(&mut c.rng);
    let d = doc(&mut c.rng, 1);
    let b0 = jser(m, &d).map_err(|e| format!("{e:?}"))?;
    for _ in 0..4 {
        let mut b = b0.clone();
        for _ in 0..c.rng.range(1, 3) { mutate_json(&mut c.rng, &mut b) }
        c.eval();
        c.seen(&b);
        let mut g = Guard::new(&b);
        let r = jde::<Doc>(m, g.buf()).is_ok();
        c.count(if r { "derived: value" } else { "derived: error" }, 1);
        if !g.intact() { return Err(format!("bytes outside the input modified: {:?} as Doc", show(&b))) }
    }
    Ok(())
}
/// every short byte string over an alphabet, for the in-place decoders
fn j06_short(c: &mut Ctx) -> R {
    const A: [u8; 12] = *b"\"\\u0aD=,[]\x80 ";
    let t = [Sch::Str(false), Sch::Bytes(false), Sch::Ignore, Sch::Seq(Box::new(Sch::Str(false))), Sch::Char, Sch::Map(Box::new(Sch::Str(false)), Box::new(Sch::Ignore)), Sch::U8, Sch::F64];
    for k in 0..1728u64 {
        let mut x = c.idx * 1728 + k;
        let mut b = vec![*c.rng.pick(b"\"\"\"[{ ")];
        for _ in 0..5 { b.push(A[(x % 12) as usize]); x /= 12 }
        if k % 2 == 0 { b.push(b'"') }
        if k % 16 == 0 { c.seen(&b) }
        let s = &t[(k % 8) as usize];
        let m = [BM::Arr, BM::Hex, BM::B64][(k / 8 % 3) as usize];
        c.eval();
        let r = jrun(s, m, &b)?;
        let want = jref::decode_text(s, &b, m);
        if want.is_none() && r.is_ok() { return Err(format!("{:?} accepted as {} ({m:?})", show(&b), short(s))) }
        if k % 8 == 0 {
            let k = k / 8;
            fenced(&b, |f| { let _ = jde::<Any>(BMS[k as usize % 3], f); });
            fenced(&b, |f| { let rec = Rec::default(); let _ = with_schema(s, &rec, || jde::<Dyn>(m, f)); });
        }
    }
    Ok(())
}
/// large inputs: time and memory stay proportional
fn j06_large(c: &mut Ctx) -> R {
    let n = 20_000 + 5_000 * c.idx as usize;
    let docs: Vec<(Vec<u8>, Sch)> = vec![
        (format!("[{}1]", "1,".repeat(n)).into_bytes(), Sch::Bytes(false)),
        (format!("\"{}\"", "\\u00e9".repeat(n)).into_bytes(), Sch::Str(false)),
        (format!("\"{}\"", "\\\\".repeat(n)).into_bytes(), Sch::Str(false)),
        (format!("\"{}", "\\\"".repeat(n)).into_bytes(), Sch::Ignore),
        (format!("\"{}\"", "ab".repeat(n)).into_bytes(), Sch::Bytes(false)),
        (format!("{}1", " ".repeat(n)).into_bytes(), Sch::U8),
        (format!("{}", "1".repeat(n)).into_bytes(), Sch::F64),
        (format!("[{}]", "\"\",".repeat(n)).into_bytes(), Sch::Seq(Box::new(Sch::Str(false)))),
        (format!("{{{}\"a\":1}}", "\"x\":{},".repeat(n)).into_bytes(), Sch::Ignore),
    ];
    for (b, s) in docs {
        for m in BMS {
            c.eval();
            let _ = jrun(&s, m, &b)?;
        }
        let mut g = b.clone();
        let _ = jde::<Any>(BM::Arr, &mut g);
        c.seen(&b);
    }
    Ok(())
}
/// nesting within what any stack holds
fn j06_nested(c: &mut Ctx) -> R {
    let d = 1 + c.idx as usize % 200;
    let open = *c.rng.pick(&["[", "{\"a\":", "[[", "{\"a\":[", "[{\"b\":", " [ "]);
    let close: String = open.chars().rev().filter_map(|x| match x { '[' => Some(']'), '{' => Some('}'), _ => None }).collect();
    let mut t = open.repeat(d);
    t.push_str(c.rng.pick(&["", "1", "\"x\"", "null"]));
    if c.rng.below(3) > 0 { t.push_str(&close.repeat(d)) }
    c.seen(t.as_bytes());
    jcheck(c, &Sch::Ignore, BM::Arr, t.as_bytes())?;
    jcheck_any(c, BM::Arr, t.as_bytes())
}
pub fn j06(t: Tier) -> Vec<Workload> {
    let mut w = vec![wl("fuzz", n(t, 90_000, 5_000_000, 150), j06_fuzz), wl("scale", n(t, 200, 20000, 1), |c| crate::big::on(c, j06_fuzz)), wl("derived", n(t, 8_000, 400_000, 2), j06_doc), wl("short", n(t, 144, 144, 1), j06_short), wl("nested", n(t, 400, 2_000, 20), j06_nested), wl("large", n(t, 6, 40, 1), j06_large)];
    if t == Tier::Miri { w.retain(|x| ["fuzz", "derived", "scale"].contains(&x.name)) }
    w
}

// ================================================================ J07
pub fn lendable(r: &mut Rng, d: usize) -> Sch {
    let b = |s: Sch| Box::new(s);
    match if d == 0 { r.below(4) } else { r.below(10) } {
        0 | 1 => Sch::Str(false), 2 => Sch::Bytes(false), 3 => Sch::Opt(b(Sch::Str(false))),
        4 => Sch::Seq(b(lendable(r, d - 1))),
        5 => { let n = r.range(1, 5); Sch::Tuple((0..n).map(|_| lendable(r, d - 1)).collect()) }
        6 => Sch::Map(b(Sch::Str(false)), b(lendable(r, d - 1))),
        7 => { let n = r.range(1, 5); Sch::Struct(names(r, n), (0..n).map(|_| lendable(r, d - 1)).collect()) }
        8 => Sch::Newtype(b(lendable(r, d - 1))),
        _ => { let n = r.range(1, 3); Sch::Enum(names(r, n), (0..n).map(|i| match i { 0 => Var::New(lendable(r, d - 1)), 1 => Var::Tup(vec![lendable(r, d - 1), Sch::Str(false)]), _ => Var::Struct(&["q", "w"], vec![Sch::Str(false), lendable(r, d - 1)]) }).collect()) }
    }
}
fn j07_lent(c: &mut Ctx) -> R {
    let s = lendable(&mut c.rng, 4);
    let mut budget = if crate::util::tiny() { 12 } else { 80 };
    let v = value(&mut c.rng, &s, &mut budget);
    let m = bm(&mut c.rng);
    let mut st = style(&mut c.rng);
    st.esc = *c.rng.pick(&[1, 2, 2, 4, 0]);
    let b = render(&mut c.rng, st, m, &s, &v);
    c.seen(&b);
    c.eval();
    let (r, l) = jrun_n(&s, m, &b)?;
    c.count("slices lent and re-checked", l as u64);
    let r = r.map_err(|e| format!("{:?} as {} ({m:?}): {e:?}", show(&b), short(&s)))?;
    c.sample(|| format!("{m:?} {:?}: {l} slices lent", show(&b)));
    same(&v, &r, || format!("{:?} ({m:?})", show(&b)))
}
/// live borrows: the tree is read only after the whole document was processed
fn j07_live(c: &mut Ctx) -> R {
    let s = lendable(&mut c.rng, 4);
    let mut budget = if crate::util::tiny() { 12 } else { 80 };
    let v = value(&mut c.rng, &s, &mut budget);
    let mut st = style(&mut c.rng);
    st.esc = 2;
    let b = render(&mut c.rng, st, BM::Arr, &s, &v);
    c.seen(&b);
    jcheck_any(c, BM::Arr, &b)
}
fn j07_derived(c: &mut Ctx) -> R {
    let k = if crate::util::tiny() { 2 } else { 6 };
    let strs: Vec<String> = (0..20).map(|_| gen_str(&mut c.rng)).collect();
    let by: Vec<Vec<u8>> = (0..3).map(|_| gen_bytes(&mut c.rng)).collect();
    let mut i = 0;
    let mut next = || { i += 1; &strs[i % 20][..] };
    let d = Bor {
        s: next(), b: &by[0], n: c.rng.next() as i32, v: (0..c.rng.below(k)).map(|_| next()).collect(), o: if c.rng.coin() { Some(next()) } else { None },
        m: (0..c.rng.below(4)).map(|x| (next(), match x { 0 => BorE::U, 1 => BorE::S(next()), 2 => BorE::B(serde_bytes::Bytes::new(&by[1])), _ => BorE::P { x: next(), y: vec![next(), next()] } })).collect(), t: next(),
    };
    let m = bm(&mut c.rng);
    let b = jser(m, &d).map_err(|e| format!("{e:?}"))?;
    let p = jref::parse(&b).map_err(|_| format!("serialized text does not parse: {:?}", show(&b)))?;
    let st = style(&mut c.rng);
    let o = { let mut r = Ren { rng: &mut c.rng, st, o: vec![], m, flt: None }; tree(&mut r, &p.j, m != BM::Arr); r.o };
    c.eval();
    c.seen(&o);
    let mut g = Guard::new(&o);
    {
        let r: Bor = jde(m, g.buf()).map_err(|e| format!("{:?} ({m:?}): {e:?}", show(&o)))?;
        if r != d { return Err(format!("{:?} ({m:?}) read as {} instead of {}", show(&o), short(&r), short(&d))) }
    }
    if !g.intact() { return Err("bytes outside the input modified".into()) }
    Ok(())
}
/// what was lent before an error stays valid as well
fn j07_error(c: &mut Ctx) -> R {
    let s = lendable(&mut c.rng, 3);
    let mut budget = if crate::util::tiny() { 12 } else { 60 };
    let v = value(&mut c.rng, &s, &mut budget);
    let m = bm(&mut c.rng);
    let mut st = style(&mut c.rng);
    st.esc = 2;
    let mut b = render(&mut c.rng, st, m, &s, &v);
    mutate_json(&mut c.rng, &mut b);
    c.eval();
    c.seen(&b);
    let (r, l) = jrun_n(&s, m, &b)?;
    c.count(if r.is_ok() { "slices lent, document accepted" } else { "slices lent before an error" }, l as u64);
    Ok(())
}
pub fn j07(t: Tier) -> Vec<Workload> {
    vec![wl("lent", n(t, 120_000, 6_000_000, 120), j07_lent), wl("live", n(t, 60_000, 2_500_000, 80), j07_live), wl("derived", n(t, 20_000, 800_000, 12), j07_derived), wl("error", n(t, 60_000, 2_500_000, 60), j07_error), wl("scale", n(t, 500, 50000, 1), |c| crate::big::on(c, j07_lent)), wl("scale: live", n(t, 300, 30000, 1), |c| crate::big::on(c, j07_live))]
}

// ================================================================ J08
fn enc_text(m: BM, b: &[u8]) -> Vec<u8> {
    match m {
        BM::Arr => format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
        BM::Hex => format!("\"{}\"", hex_upper(b)).into_bytes(),
        BM::B64 => format!("\"{}\"", b64(b)).into_bytes(),
        BM::Pass => b.to_vec(),
    }
}
fn codec(c: &mut Ctx, b: &[u8], all: bool) -> R {
    for m in [BM::Arr, BM::Hex, BM::B64, BM::Pass] {
        let v = serde_bytes::Bytes::new(b);
        let t = jser(m, v).map_err(|e| format!("{}: {e:?}", hex(b)))?;
        c.eval();
        if t != enc_text(m, b) { return Err(format!("bytes {} written in {m:?} mode as {:?} instead of {:?}", hex(b), show(&t), show(&enc_text(m, b)))) }
        if m == BM::Pass { continue }
        let mut g = t.clone();
        let r: &serde_bytes::Bytes = jde(m, &mut g).map_err(|e| format!("{:?} ({m:?}): {e:?}", show(&t)))?;
        if &r[..] != b { return Err(format!("{:?} ({m:?}) read as {} instead of {}", show(&t), hex(r), hex(b))) }
        if all {
            // lower case, padded, surrounded
            let alt = match m {
                BM::Hex => String::from_utf8(t.clone()).unwrap().to_ascii_lowercase(),
                BM::B64 => { let mut x = b64(b); while x.len() % 4 != 0 { x.push('=') } format!("\"{x}\"") }
                _ => format!("[ {} ]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ,\n")),
            };
            let mut g = format!(" [ {alt} , \"tail\" ]").into_bytes();
            let (r, tail): (&serde_bytes::Bytes, &str) = jde(m, &mut g).map_err(|e| format!("{alt:?} ({m:?}): {e:?}"))?;
            if &r[..] != b || tail != "tail" { return Err(format!("{alt:?} ({m:?}) read as {} / {tail:?}", hex(r))) }
            // number arrays are readable in every mode
            let mut g = enc_text(BM::Arr, b);
            let r: serde_bytes::ByteBuf = jde(m, &mut g).map_err(|e| format!("array in {m:?} mode: {e:?}"))?;
            if r != b { return Err(format!("array in {m:?} mode read as {}", hex(&r))) }
            c.evals(2);
        }
    }
    // the encoder function and its padding count
    let mut w = MonW::new();
    let pad = sj::base64::encode(&mut w, b).map_err(|_| "encode failed".to_string())?;
    if w.buf != b64(b).as_bytes() || pad as usize != (3 - b.len() % 3) % 3 { return Err(format!("base64::encode({}) gives {:?} and padding {pad}", hex(b), show(&w.buf))) }
    let mut x = w.buf.clone();
    let (d, e) = sj::base64::decode(&mut x);
    if e != w.buf.len() || &x[..d.min(x.len())] != b { return Err(format!("base64::decode of {:?} gives {d}, {e}", show(&w.buf))) }
    // the public hex helper of the serializer
    let mut s = sj::ser::SerializerByteArray::new(MonW::new());
    s.serialize_bytes_as_hex_str(b).map_err(|e| format!("{e:?}"))?;
    let q = enc_text(BM::Hex, b);
    if s.into_inner().buf != q[1..q.len() - 1] { return Err(format!("serialize_bytes_as_hex_str({})", hex(b))) }
    c.evals(3);
    Ok(())
}
fn j08_exh(c: &mut Ctx) -> R { // all 2-byte strings (first byte = case), plus singles
    for y in 0..256u32 { codec(c, &[c.idx as u8, y as u8], y % 16 == 0)? }
    codec(c, &[c.idx as u8], true)?;
    c.seen(&c.idx.to_le_bytes().clone());
    Ok(())
}
fn j08_len(c: &mut Ctx) -> R {
    let k = c.idx as usize;
    let b: Vec<u8> = (0..k % 400).map(|_| c.rng.next() as u8).collect();
    c.seen(&b);
    codec(c, &b, true)?;
    let b: Vec<u8> = (0..k % 400).map(|_| *c.rng.pick(&[0u8, 255, 0xfb, 0xbe, 0x3e, 0x3f, 100, 99, 9, 10])).collect();
    c.seen(&b);
    codec(c, &b, true)
}
/// readers against arbitrary string content
fn j08_reader(c: &mut Ctx) -> R {
    let n = c.rng.below(14);
    let hexish = c.rng.coin();
    let mut s: Vec<u8> = (0..n).map(|_| if hexish { *c.rng.pick(b"0123456789abcdefABCDEF") } else { *c.rng.pick(b"ABCxyz019+/") }).collect();
    match c.rng.below(4) {
        0 => for _ in 0..c.rng.range(1, 3) { s.push(b'=') },
        1 => for _ in 0..c.rng.range(1, 2) { let i = c.rng.below(s.len() + 1); s.insert(i, *c.rng.pick(b"=-_ \n.gG:\\@[`{/0\xff\x00")) },
        2 => { let i = c.rng.below(s.len() + 1); s.insert(i, c.rng.next() as u8) }
        _ => {}
    }
    c.seen2(&s, hexish as u64);
    let mut t = b"\"".to_vec();
    t.extend_from_slice(&s);
    if c.rng.below(8) > 0 { t.push(b'"') }
    for m in BMS {
        jcheck(c, &Sch::Bytes(false), m, &t)?;
        jcheck(c, &Sch::Bytes(true), m, &t)?;
    }
    let mut d = b"[".to_vec(); d.extend_from_slice(&t); d.extend_from_slice(b",[],\"00\"]");
    let b = || Sch::Bytes(false);
    for m in BMS { jcheck(c, &Sch::Tuple(vec![b(), b(), b()]), m, &d)? }
    c.sample(|| format!("{:?}", show(&t)));
    Ok(())
}
/// every byte at every position of a base64 group / hex pair
fn j08_alpha(c: &mut Ctx) -> R {
    let x = c.idx as u8;
    for pos in 0..9usize { for len in [pos + 1, 4, 5, 6, 7, 8, 9] {
        if pos >= len { continue }
        for fill in [b'A', b'0', b'f'] {
            let mut s = vec![fill; len];
            s[pos] = x;
            let mut t = b"\"".to_vec(); t.extend_from_slice(&s); t.push(b'"');
            for m in [BM::Hex, BM::B64] { jcheck(c, &Sch::Bytes(false), m, &t)? }
            // direct decode: up to the first character outside the alphabet
            let stop = s.iter().position(|c| !(c.is_ascii_alphanumeric() || *c == b'+' || *c == b'/')).unwrap_or(len);
            let mut y = s.clone();
            let (d, e) = sj::base64::decode(&mut y);
            if d > e || e > len { return Err(format!("base64::decode({:?}) = ({d}, {e})", show(&s))) }
            let full = stop - if stop % 4 == 1 { 1 } else { 0 };
            if stop % 4 != 1 && e != stop { return Err(format!("base64::decode({:?}) consumed {e} instead of {stop}", show(&s))) }
            let want = b64_dec(&s[..full]).unwrap().0;
            if d != want.len() || y[..d] != want[..] { return Err(format!("base64::decode({:?}) = {} instead of {}", show(&s), hex(&y[..d.min(len)]), hex(&want))) }
            c.eval();
        }
    } }
    c.seen(&[x]);
    Ok(())
}
/// 2-character hex pairs exhaustively
fn j08_hexpairs(c: &mut Ctx) -> R {
    for y in 0..=255u8 { jcheck(c, &Sch::Bytes(false), BM::Hex, &[b'"', c.idx as u8, y, b'"'])?; if y % 16 == 3 { jcheck(c, &Sch::Bytes(false), BM::Hex, &[b'"', b'0', b'1', c.idx as u8, y, b'2', b'3', b'"'])? } }
    c.seen(&[c.idx as u8]);
    Ok(())
}
// custom encoder and decoder: bytes as "reversed hex" through the public traits
struct RevEnc;
impl sj::ser::ByteEncoder for RevEnc {
    fn serialize_bytes<'a, W: ser_write::SerWrite>(ser: &'a mut sj::ser::Serializer<W, Self>, v: &[u8]) -> sj::ser::Result<(), W::Error> where &'a mut sj::ser::Serializer<W, Self>: serde::Serializer {
        let w = ser.writer();
        w.write_byte(b'"')?;
        for x in v { let h = format!("{x:02x}"); w.write_byte(h.as_bytes()[1])?; w.write_byte(h.as_bytes()[0])?; }
        w.write_byte(b'"')?;
        Ok(())
    }
}
struct RevDec;
impl<'de> sj::de::StringByteDecoder<'de> for RevDec {
    fn decode_string_to_bytes(de: &mut sj::de::Deserializer<'de, Self>) -> sj::de::Result<&'de [u8]> {
        let input = de.input_mut()?;
        let end = input.iter().position(|b| *b == b'"').ok_or(sj::de::Error::UnexpectedEof)?;
        if end % 2 != 0 { return Err(sj::de::Error::UnexpectedChar) }
        for i in 0..end / 2 {
            let (l, h) = ((input[2 * i] as char).to_digit(16), (input[2 * i + 1] as char).to_digit(16));
            input[i] = (h.ok_or(sj::de::Error::UnexpectedChar)? * 16 + l.ok_or(sj::de::Error::UnexpectedChar)?) as u8;
        }
        Ok(de.split_input(end / 2, end - end / 2 + 1))
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Blobs<'a> { #[serde(borrow)] a: &'a serde_bytes::Bytes, s: String, #[serde(borrow)] b: Vec<&'a serde_bytes::Bytes>, n: u8 }
fn j08_custom(c: &mut Ctx) -> R {
    let (x, y, z) = (gen_bytes(&mut c.rng), gen_bytes(&mut c.rng), gen_bytes(&mut c.rng));
    let s = gen_str(&mut c.rng);
    let by = serde_bytes::Bytes::new;
    let d = Blobs { a: by(&x), s: s.clone(), b: vec![by(&y), by(&z), by(&[])], n: 7 };
    let mut w = MonW::new();
    sj::ser::to_writer_with_encoder::<RevEnc, _, _>(&mut w, &d).map_err(|e| format!("{e:?}"))?;
    let rev = |b: &[u8]| b.iter().map(|x| { let h = format!("{x:02x}"); h.chars().rev().collect::<String>() }).collect::<String>();
    let st = String::from_utf8(jser(BM::Arr, &s).map_err(|e| format!("{e:?}"))?).unwrap();
    let want = format!("{{\"a\":\"{}\",\"s\":{st},\"b\":[\"{}\",\"{}\",\"\"],\"n\":7}}", rev(&x), rev(&y), rev(&z));
    c.eval();
    c.seen(&w.buf);
    if w.buf != want.as_bytes() { return Err(format!("custom encoder output {:?} instead of {want:?}", show(&w.buf))) }
    let r: Blobs = sj::de::from_mut_slice_with_decoder::<RevDec, _>(&mut w.buf).map_err(|e| format!("{want:?}: {e:?}"))?;
    if r != d { return Err(format!("{want:?} read as {}", short(&r))) }
    // pass-through bytes appear verbatim between the documented punctuation
    let p = jser(BM::Pass, &d).map_err(|e| format!("{e:?}"))?;
    let mut want = b"{\"a\":".to_vec();
    want.extend_from_slice(&x); want.extend_from_slice(b",\"s\":"); want.extend_from_slice(st.as_bytes()); want.extend_from_slice(b",\"b\":["); want.extend_from_slice(&y); want.push(b','); want.extend_from_slice(&z); want.extend_from_slice(b",],\"n\":7}");
    if p != want { return Err(format!("pass-through output {:?} instead of {:?}", show(&p), show(&want))) }
    pass_string(&d, &want)
}
#[cfg(any(feature = "std", feature = "alloc"))]
fn pass_string(d: &Blobs, want: &[u8]) -> R {
    match (sj::to_string_pass_bytes(d), std::str::from_utf8(want)) {
        (Ok(t), Ok(w)) if t == w => Ok(()), (Err(_), Err(_)) => Ok(()),
        (r, _) => Err(format!("to_string_pass_bytes of {:?} gives {r:?}", show(want))),
    }
}
#[cfg(not(any(feature = "std", feature = "alloc")))]
fn pass_string(_: &Blobs, _: &[u8]) -> R { Ok(()) }
/// byte strings at any place of a document
fn j08_doc(c: &mut Ctx) -> R {
    let b = |s: Sch| Box::new(s);
    let s = match c.rng.below(4) { 0 => Sch::Seq(b(Sch::Bytes(false))), 1 => Sch::Map(b(Sch::U16), b(Sch::Opt(b(Sch::Bytes(true))))), 2 => Sch::Tuple(vec![Sch::Bytes(false), Sch::Str(false), Sch::Bytes(true)]), _ => Sch::Enum(&["x"], vec![Var::Tup(vec![Sch::Bytes(false), Sch::Bytes(false)])]) };
    let v = value(&mut c.rng, &s, &mut 60);
    let m = bm(&mut c.rng);
    rt(c, &s, &v, m)?;
    let st = style(&mut c.rng);
    let t = render(&mut c.rng, st, m, &s, &v);
    jcheck(c, &s, m, &t)
}
pub fn j08(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("two bytes", n(t, 256, 256, 2), j08_exh), wl("lengths", n(t, 1_200, 40_000, 30), j08_len), wl("reader", n(t, 60_000, 3_000_000, 100), j08_reader), wl("alphabet", n(t, 256, 256, 6), j08_alpha),
        wl("hexpairs", n(t, 256, 256, 1), j08_hexpairs), wl("custom", n(t, 10_000, 400_000, 10), j08_custom), wl("document", n(t, 20_000, 800_000, 20), j08_doc), wl("scale", n(t, 400, 40000, 1), |c| crate::big::on(c, j08_doc))];
    if t == Tier::Miri { w.remove(4); w.remove(0); }
    w
}

// ================================================================ J09
fn j09_rt(c: &mut Ctx) -> R {
    let k = key_schema(&mut c.rng, GJ, 2);
    let inner = Sch::Map(Box::new(k), Box::new(scalar(&mut c.rng, GJ)));
    let s = match c.rng.below(4) { 0 => Sch::Seq(Box::new(inner)), 1 => Sch::Map(Box::new(key_schema(&mut c.rng, GJ, 1)), Box::new(inner)), _ => inner };
    let v = value(&mut c.rng, &s, &mut 60);
    let m = bm(&mut c.rng);
    let b = ser_ok(m, &s, &v)?;
    c.eval();
    c.seen(&b);
    let p = jref::parse(&b).map_err(|_| format!("output does not parse: {:?}", show(&b)))?;
    jref::image(&s, &v, &p.j, m)?;
    let r = jrun(&s, m, &b)?.map_err(|e| format!("{:?} as {} ({m:?}): {e:?}", show(&b), short(&s)))?;
    c.sample(|| show(&b));
    same(&v, &r, || format!("{:?}", show(&b)))
}
fn bad_key(r: &mut Rng) -> (Sch, Val) {
    let b = |s: Sch| Box::new(s);
    loop {
        let d = r.range(0, 1);
        let s = match r.below(14) {
            0 => Sch::F32, 1 => Sch::F64, 2 => Sch::Bytes(true), 3 => Sch::Opt(b(key_schema(r, GJ, 1))), 4 => Sch::Unit, 5 => Sch::UnitStruct, 6 => Sch::Seq(b(scalar(r, GJ))), 7 => Sch::Tuple(vec![scalar(r, GJ)]), 8 => Sch::TupStruct(vec![scalar(r, GJ), Sch::U8]),
            9 => Sch::Map(b(Sch::U8), b(Sch::U8)), 10 => struct_schema(r, GJ, d), 11 | 12 => { let n = r.range(1, 3); Sch::Enum(names(r, n), (0..n).map(|_| loop { let v = variant(r, GJ, d); if v != Var::Unit { break v } }).collect()) }
            _ => { let (s, v) = bad_key(r); return (Sch::Newtype(b(s)), Val::New(Box::new(v))) }
        };
        let v = value(r, &s, &mut 5);
        return (s, v);
    }
}
/// unsupported key types, after any number of good entries and at any depth
fn j09_bad(c: &mut Ctx) -> R {
    let (ks, kv) = bad_key(&mut c.rng);
    let n = c.rng.below(4);
    let mut items: Vec<(Act, Act)> = (0..n).map(|i| (Act::Leaf(Sch::U8, Val::U(i as u64)), Act::Leaf(Sch::Str(true), Val::Str("v".into())))).collect();
    let at = c.rng.below(n + 1);
    items.insert(at, (Act::Leaf(ks.clone(), kv.clone()), Act::Leaf(Sch::Bool, Val::Bool(true))));
    let mut a = Act::Map { hint: Some(n + 1), items };
    for _ in 0..c.rng.below(3) { a = match c.rng.below(3) { 0 => Act::Seq { hint: Some(1), items: vec![a] }, 1 => Act::Map { hint: None, items: vec![(Act::Leaf(Sch::Char, Val::Char('x')), a)] }, _ => Act::NewVar(Box::new(a)) } }
    let m = bm(&mut c.rng);
    c.eval();
    c.seen(format!("{ks:?}{kv:?}{at}").as_bytes());
    match jser(m, &a) {
        Err(SErr::Key) => { c.count("refused", 1); Ok(()) }
        Err(e) => Err(format!("key {} of type {} failed with {e:?} instead of the invalid-key error", short(&kv), short(&ks))),
        Ok(b) => Err(format!("key {} of type {} was written: {:?}", short(&kv), short(&ks), show(&b))),
    }
}
/// key texts that are not exactly one key
fn j09_texts(c: &mut Ctx) -> R {
    let ks = loop { let k = key_schema(&mut c.rng, GJ, 1); if !matches!(k, Sch::Fmt) { break k } };
    let kv = value(&mut c.rng, &ks, &mut 3);
    let b = jser(BM::Arr, &Act::Map { hint: None, items: vec![(Act::Leaf(ks.clone(), kv), Act::Leaf(Sch::U8, Val::U(1)))] }).map_err(|e| format!("{e:?}"))?;
    let mut k = b[2..b.len() - 4].to_vec();
    match c.rng.below(8) {
        0 => k.extend_from_slice(*c.rng.pick(&[&b" "[..], b"x", b"0", b".", b".0", b"e1", b",", b"\\u0000", b"\t", b"-", b"\\\"", b"\"", b"1"])),
        1 => { let p = *c.rng.pick(&[&b" "[..], b"+", b"-", b"0", b"x", b"--", b"\\u0020", b"\\n", b"\""]); k.splice(0..0, p.to_vec()); }
        2 if !k.is_empty() => { k.remove(c.rng.below(k.len())); }
        3 => { let i = c.rng.below(k.len() + 1); k.insert(i, *c.rng.pick(b" -+.e0129xX_,\\\"tf")) }
        4 => k = (*c.rng.pick(&[&b""[..], b"true", b"false", b"True", b"TRUE", b"tru", b"truee", b"null", b"0", b"-0", b"00", b"1e1", b"1.0", b"0x1", b"256", b"-1", b"65536", b"-129", b"9223372036854775808", b"18446744073709551616", b"t", b"f", b"falsee", b"fals", b"0true", b"1 ", b"  1", b"true "])).to_vec(),
        5 => k.truncate(c.rng.below(k.len() + 1)),
        _ => { let mut x = k.clone(); mutate_json(&mut c.rng, &mut x); k = x }
    }
    let mut t = b"{\"".to_vec(); t.extend_from_slice(&k); t.extend_from_slice(b"\":1}");
    c.seen2(&k, crate::rng::hash_bytes(format!("{ks:?}").as_bytes()));
    jcheck(c, &Sch::Map(Box::new(ks.clone()), Box::new(Sch::U8)), BM::Arr, &t)?;
    let mut t2 = b"{\"".to_vec(); t2.extend_from_slice(&k); t2.extend_from_slice(b"\":\"a\",\""); t2.extend_from_slice(&k); t2.extend_from_slice(b"\" : \"b\"}");
    jcheck(c, &Sch::Map(Box::new(ks), Box::new(Sch::Str(false))), BM::Arr, &t2)?;
    let any = c.rng.pick(&INTS).clone();
    jcheck(c, &Sch::Map(Box::new(any), Box::new(Sch::U8)), BM::Arr, &t)
}
/// unquoted keys of every kind are refused
fn j09_unquoted(c: &mut Ctx) -> R {
    let ks = key_schema(&mut c.rng, GJ, 1);
    for k in ["1", "-1", "true", "null", "a", "[1]", "{}", "1.5", "'a'", "", "\"", "false"] {
        for t in [format!("{{{k}:1}}"), format!("{{\"1\":1,{k}:1}}"), format!("{{{k}\":1}}"), format!("{{\"{k}:1}}")] {
            let want_bad = jref::parse(t.as_bytes()).is_err();
            if want_bad { jcheck(c, &Sch::Map(Box::new(ks.clone()), Box::new(Sch::U8)), BM::Arr, t.as_bytes())?; }
        }
    }
    c.seen(format!("{ks:?}").as_bytes());
    Ok(())
}
fn j09_derived(c: &mut Ctx) -> R {
    use std::collections::BTreeMap;
    type T = (BTreeMap<i8, u8>, BTreeMap<u64, String>, BTreeMap<i64, bool>, BTreeMap<bool, char>, BTreeMap<Key, i16>, BTreeMap<NtKey, ()>, BTreeMap<String, BTreeMap<u8, BTreeMap<char, u32>>>);
    let r = &mut c.rng;
    let d: T = (
        (0..r.below(5)).map(|_| (r.next() as i8, 1)).collect(), (0..r.below(5)).map(|_| (gen_u64(r, 64), gen_str_short(r))).collect(), (0..r.below(5)).map(|_| (gen_i64(r, 64), true)).collect(),
        (0..r.below(3)).map(|_| (r.coin(), gen_char(r))).collect(), (0..3).map(|i| (match i { 0 => Key::North, 1 => Key::South, _ => Key::East }, r.next() as i16)).collect(),
        (0..r.below(5)).map(|_| (NtKey(r.next() as u16), ())).collect(), (0..r.below(4)).map(|_| (gen_str(r), (0..r.below(3)).map(|_| (r.next() as u8, (0..r.below(3)).map(|_| (gen_char(r), r.next() as u32)).collect())).collect())).collect(),
    );
    let mut b = jser(BM::Arr, &d).map_err(|e| format!("{d:?}: {e:?}"))?;
    c.eval();
    c.seen(&b);
    let t = show(&b);
    let r: T = jde(BM::Arr, &mut b).map_err(|e| format!("{t:?}: {e:?}"))?;
    if r != d { return Err(format!("{t:?} read as {r:?}")) }
    Ok(())
}
pub fn j09(t: Tier) -> Vec<Workload> {
    vec![wl("roundtrip", n(t, 60_000, 3_000_000, 20), j09_rt), wl("scale", n(t, 200, 20000, 1), |c| crate::big::on(c, j09_rt)), wl("scale: texts", n(t, 300, 30000, 1), |c| crate::big::on(c, j09_texts)), wl("unsupported", n(t, 40_000, 2_000_000, 20), j09_bad), wl("texts", n(t, 80_000, 4_000_000, 20), j09_texts), wl("unquoted", n(t, 300, 3_000, 1), j09_unquoted), wl("derived", n(t, 10_000, 400_000, 2), j09_derived)]
}

// ================================================================ J10
/// Replace parts of the target by "ignore"; the document keeps (or gets) arbitrary values there.
pub fn strip(r: &mut Rng, s: &Sch, v: &Val, root: bool) -> (Sch, Val) {
    use Sch::*;
    if !root && r.one_in(3) { return (Ignore, Val::Unit) }
    let both = |r: &mut Rng, t: &[Sch], x: &[Val]| -> (Vec<Sch>, Vec<Val>) { t.iter().zip(x).map(|(s, v)| strip(r, s, v, false)).unzip() };
    match (s, v) {
        (Tuple(t), Val::Seq(x)) => { let (a, b) = both(r, t, x); (Tuple(a), Val::Seq(b)) }
        (TupStruct(t), Val::Seq(x)) => { let (a, b) = both(r, t, x); (TupStruct(a), Val::Seq(b)) }
        (Struct(n, t), Val::Seq(x)) => { let (a, b) = both(r, t, x); (Struct(n, a), Val::Seq(b)) }
        (Seq(i), Val::Seq(x)) if !nullable(i, true) && r.one_in(4) => (Seq(Box::new(Ignore)), Val::Seq(vec![Val::Unit; x.len()])),
        (Map(k, _), Val::Map(x)) if r.one_in(2) => (Map(k.clone(), Box::new(Ignore)), Val::Map(x.iter().map(|(k, _)| (k.clone(), Val::Unit)).collect())),
        (Newtype(i), Val::New(x)) => { let (a, b) = strip(r, i, x, true); (Newtype(Box::new(a)), Val::New(Box::new(b))) }
        (Enum(n, vs), Val::Enum(i, p)) => {
            let mut vs = vs.clone();
            let (nv, np) = match &vs[*i as usize] {
                Var::New(s) => { let (a, b) = strip(r, s, &p[0], false); (Var::New(a), vec![b]) }
                Var::Tup(t) => { let (a, b) = both(r, t, p); (Var::Tup(a), b) }
                Var::Struct(f, t) => { let (a, b) = both(r, t, p); (Var::Struct(f, a), b) }
                Var::Unit => (Var::Unit, vec![]),
            };
            vs[*i as usize] = nv;
            (Enum(n, vs), Val::Enum(*i, np))
        }
        _ => (s.clone(), v.clone()),
    }
}
fn j10_dyn(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let (s, v) = strip(&mut c.rng, &s, &v, true);
    let m = bm(&mut c.rng);
    let mut first: Option<Val> = None;
    for _ in 0..2 { // two documents that differ only in what is ignored
        let mut st = style(&mut c.rng);
        st.unknown = true;
        let b = render(&mut c.rng, st, m, &s, &v);
        c.eval();
        c.seen(&b);
        let r = jrun(&s, m, &b)?.map_err(|e| format!("{:?} as {} ({m:?}): {e:?}", show(&b), short(&s)))?;
        same(&v, &r, || format!("{:?} as {} ({m:?})", show(&b), short(&s)))?;
        if let Some(f) = &first { same(f, &r, || "differs with other ignored values".into())? }
        first = Some(r);
        c.sample(|| format!("{:?} as {}", show(&b), short(&s)));
    }
    Ok(())
}
/// ignored values of every shape surrounded by kept neighbours
fn j10_neigh(c: &mut Ctx) -> R {
    let st = style(&mut c.rng);
    let mut r = Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None };
    let kept: Vec<String> = (0..3).map(|_| gen_str_short(r.rng)).collect();
    let nums = [gen_i64(r.rng, 64), gen_i64(r.rng, 64)];
    let form = r.rng.below(3);
    let d = r.rng.range(1, 6);
    r.ws();
    let (s, v) = match form {
        0 => {
            r.o.push(b'['); r.ws(); r.string(&kept[0]); r.ws(); r.o.push(b','); r.ws(); r.any(d); r.ws(); r.o.push(b','); r.ws(); r.string(&kept[1]); r.ws(); r.o.push(b','); r.any(d); r.o.push(b','); let t = nums[0].to_string(); r.o.extend_from_slice(t.as_bytes()); r.o.push(b']');
            (Sch::Tuple(vec![Sch::Str(false), Sch::Ignore, Sch::Str(false), Sch::Ignore, Sch::I64]), Val::Seq(vec![Val::Str(kept[0].clone()), Val::Unit, Val::Str(kept[1].clone()), Val::Unit, Val::I(nums[0])]))
        }
        1 => {
            r.o.push(b'{');
            for (k, i) in [("x", None), ("a", Some(0)), ("yy", None), ("b", Some(1)), ("", None), ("zzz\\", None)] {
                if r.o.last() != Some(&b'{') { r.o.push(b','); }
                r.ws(); r.string(k); r.ws(); r.o.push(b':'); r.ws();
                match i { Some(i) => r.string(&kept[i]), None => r.any(d) }
                r.ws();
            }
            r.o.push(b'}');
            (Sch::Struct(&["a", "b"], vec![Sch::Str(false), Sch::Str(true)]), Val::Seq(vec![Val::Str(kept[0].clone()), Val::Str(kept[1].clone())]))
        }
        _ => {
            // enum payload with an unknown member, followed by a sibling
            r.o.extend_from_slice(b"[{\"v\":{"); r.ws(); r.string("q"); r.o.push(b':'); r.any(d); r.o.push(b','); r.string("f"); r.o.push(b':'); r.string(&kept[0]); r.o.push(b','); r.string("r"); r.ws(); r.o.push(b':'); r.any(d); r.o.extend_from_slice(b"}},"); r.string(&kept[2]); r.o.push(b']');
            (Sch::Tuple(vec![Sch::Enum(&["u", "v"], vec![Var::Unit, Var::Struct(&["f"], vec![Sch::Str(false)])]), Sch::Str(false)]), Val::Seq(vec![Val::Enum(1, vec![Val::Str(kept[0].clone())]), Val::Str(kept[2].clone())]))
        }
    };
    let b = r.o;
    c.eval();
    c.seen(&b);
    let r = jrun(&s, BM::Arr, &b)?.map_err(|e| format!("{:?}: {e:?}", show(&b)))?;
    same(&v, &r, || show(&b))
}
/// exhaustive short strings of backslashes, quotes and letters as ignored values and names
fn j10_strings(c: &mut Ctx) -> R {
    const A: [&str; 5] = ["\\", "\"", "n", "u0041", "]"];
    for k in 0..625u64 {
        let mut x = c.idx * 625 + k;
        let mut t = String::new();
        for _ in 0..7 { t.push_str(A[(x % 5) as usize]); x /= 5 }
        for n in [t.len(), t.len() / 2] {
            let t = match t.get(..n) { Some(t) => t, None => continue };
            let d1 = format!("[\"{t}\",\"kept\"]");
            let d2 = format!("{{\"{t}\":1,\"f\":\"kept\",\"g\":\"{t}\"}}");
            if jref::parse(d1.as_bytes()).is_ok() { c.count("ignored strings", 1); c.seen(t.as_bytes()) }
            jcheck(c, &Sch::Tuple(vec![Sch::Ignore, Sch::Str(false)]), BM::Arr, d1.as_bytes())?;
            jcheck(c, &Sch::Seq(Box::new(Sch::Ignore)), BM::Arr, d1.as_bytes())?;
            jcheck(c, &Sch::Struct(&["f"], vec![Sch::Str(false)]), BM::Arr, d2.as_bytes())?;
        }
    }
    Ok(())
}
fn j10_derived(c: &mut Ctx) -> R {
    #[derive(Deserialize, PartialEq, Debug)]
    #[serde(rename_all = "camelCase")]
    struct Part { id: u64, name: String, kinds: Vec<Kind>, last: Option<bool>, raw: serde_bytes::ByteBuf }
    let d = doc(&mut c.rng, 2);
    let m = bm(&mut c.rng);
    let mut b = jser(m, &d).map_err(|e| format!("{e:?}"))?;
    c.eval();
    c.seen(&b);
    let t = show(&b);
    let r: Part = jde(m, &mut b).map_err(|e| format!("{t:?}: {e:?}"))?;
    if r != (Part { id: d.id, name: d.name.clone(), kinds: d.kinds.clone(), last: d.last, raw: d.raw.clone() }) { return Err(format!("{t:?} read as {}", short(&r))) }
    Ok(())
}
pub fn j10(t: Tier) -> Vec<Workload> {
    vec![wl("stripped", n(t, 60_000, 3_000_000, 30), j10_dyn), wl("neighbours", n(t, 60_000, 3_000_000, 30), j10_neigh), wl("strings", n(t, 125, 125, 1), j10_strings), wl("derived", n(t, 8_000, 300_000, 2), j10_derived), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, j10_dyn)), wl("scale: neighbours", n(t, 500, 50000, 1), |c| crate::big::on(c, j10_neigh))]
}
