//! Checks of the MessagePack properties.
use crate::any::*;
use crate::c_json::{gen_act, strip};
use crate::jref::Cert;
use crate::mem;
use crate::model::*;
use crate::mref::{self, *};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types::*;
use crate::util::*;
use ser_write_msgpack as sm;
use serde::de::IgnoredAny;
use serde::{Deserialize, Serialize, Serializer};

fn ser_ok(f: Fl, s: &Sch, v: &Val) -> Result<Vec<u8>, String> {
    mser(f, &SV(s, v)).map_err(|e| format!("serialization of {} as {} ({f:?}) failed: {e:?}", short(v), short(s)))
}
fn b(s: Sch) -> Box<Sch> { Box::new(s) }
pub fn eat(bytes: &[u8]) -> Result<usize, sm::de::Error> {
    let mut d = sm::de::Deserializer::from_slice(bytes);
    d.eat_message()?;
    Ok(bytes.len() - d.remaining_len())
}
// ================================================================ M01
fn rt(c: &mut Ctx, f: Fl, s: &Sch, v: &Val) -> R {
    let o = ser_ok(f, s, v)?;
    c.eval();
    c.seen(&o);
    c.count("bytes round-tripped", o.len() as u64);
    let (r, n) = mrun(s, &o)?.map_err(|e| format!("{} ({f:?}), serialized from {} as {}, is not read back: {e:?}", hex(&o), short(v), short(s)))?;
    c.sample(|| format!("{f:?} {}", hex(&o)));
    if n != o.len() { return Err(format!("consumed {n} of {} bytes of {} ({f:?}) as {}", o.len(), hex(&o), short(s))) }
    if v.eq(&r, FEq::Bits) { Ok(()) } else { Err(format!("{} ({f:?}) read back as {} instead of {}", hex(&o), short(&r), short(v))) }
}
fn m01_dyn(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    for f in FLS { rt(c, f, &s, &v)? }
    Ok(())
}
fn m01_scalar(c: &mut Ctx) -> R {
    for _ in 0..if crate::util::tiny() { 3 } else { 24 } {
        let s = scalar(&mut c.rng, GM);
        let v = value(&mut c.rng, &s, &mut 10);
        let f = fl(&mut c.rng);
        rt(c, f, &s, &v)?;
    }
    Ok(())
}
fn m01_doc(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 2);
    for f in FLS {
        let o = mser(f, &d).map_err(|e| format!("serialization of {} failed: {e:?}", short(&d)))?;
        c.eval();
        c.seen(&o);
        let (r, n): (Doc, usize) = mde(&o).map_err(|e| format!("{} ({f:?}) is not read back: {e:?}", hex(&o)))?;
        if r != d || n != o.len() { return Err(format!("{} ({f:?}) read back as {} instead of {} (consumed {n} of {})", hex(&o), short(&r), short(&d), o.len())) }
    }
    Ok(())
}
fn exact<'a, T: Serialize + Deserialize<'a> + PartialEq + std::fmt::Debug>(c: &mut Ctx, v: &T, buf: &'a mut Vec<u8>) -> R {
    buf.clear();
    sm::to_writer(&mut VW(buf), v).map_err(|e| format!("{v:?}: {e:?}"))?;
    c.st.evals += 1;
    let (r, n): (T, usize) = mde(buf).map_err(|e| format!("{v:?} as {} is not read back: {e:?}", hex(buf)))?;
    if r != *v || n != buf.len() { return Err(format!("{v:?} as {} read back as {r:?} ({n} bytes consumed)", hex(buf))) }
    Ok(())
}
struct VW<'a>(&'a mut Vec<u8>);
impl ser_write::SerWrite for VW<'_> { type Error = WErr; fn write(&mut self, b: &[u8]) -> Result<(), WErr> { self.0.extend_from_slice(b); Ok(()) } }
fn m01_int16(c: &mut Ctx) -> R {
    let mut w = vec![];
    for k in 0..1024u32 {
        let x = (c.idx as u32 * 1024 + k) as u16;
        macro_rules! t { ($($v:expr),*) => {$( { let mut w2 = std::mem::take(&mut w); exact(c, &$v, &mut w2)?; w = w2; } )*} }
        t!(x, x as i16, x as u8, x as i8, x as i16 as i32, x as u32, x as i16 as i64, x as u64, (x as u32) << 16 | 0xffff, ((x as i16 as i32) << 16) | 0x7fff, (x as u64) << 48, ((x as i16 as i64) << 48) + 1, ((x as i16 as i64) << 17) - 1);
    }
    let i = c.idx;
    c.seen(&i.to_le_bytes());
    Ok(())
}
fn m01_char(c: &mut Ctx) -> R {
    let mut w = vec![];
    for k in 0..4096u32 {
        let Some(ch) = char::from_u32(c.idx as u32 * 4096 + k) else { continue };
        let mut w2 = std::mem::take(&mut w);
        exact(c, &ch, &mut w2)?;
        exact(c, &ch.to_string(), &mut w2)?;
        w = w2;
    }
    let i = c.idx;
    c.seen(&i.to_le_bytes());
    Ok(())
}
fn m01_f32all(c: &mut Ctx) -> R {
    for k in 0..1u32 << 20 {
        let f = f32::from_bits((c.idx as u32) << 20 | k);
        let mut a = [0u8; 16];
        let mut w = ser_write::SliceWriter::new(&mut a);
        sm::to_writer_compact(&mut w, &f).map_err(|e| format!("{f:?}: {e:?}"))?;
        let (r, n): (f32, usize) = mde(w.as_ref()).map_err(|e| format!("{f:?}: {e:?}"))?;
        if r.to_bits() != f.to_bits() || n != 5 { return Err(format!("f32 {:08x} read back as {:08x}", f.to_bits(), r.to_bits())) }
        // the conversion to the wider type is exact
        let (r, _): (f64, usize) = mde(w.as_ref()).map_err(|e| format!("{f:?}: {e:?}"))?;
        if !(r == f as f64 || f.is_nan() && r.is_nan()) { return Err(format!("f32 {:08x} read as f64 {r:?}", f.to_bits())) }
        c.st.evals += 2;
    }
    let i = c.idx;
    c.seen(&i.to_le_bytes());
    Ok(())
}
pub const SIZES: [usize; 24] = [0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 126, 127, 128, 129, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537];
fn sized(c: &mut Ctx, sz: usize) -> Vec<(Sch, Val)> {
    let r = &mut c.rng;
    let mut o = vec![
        (Sch::Str(false), Val::Str(gen_str_len(r, sz))), (Sch::Str(true), Val::Str("é".repeat(sz / 2) + if sz % 2 == 1 { "e" } else { "" })), (Sch::Fmt, Val::Str(gen_str_len(r, sz))),
        (Sch::Bytes(false), Val::Bytes((0..sz).map(|_| r.next() as u8).collect())), (Sch::Seq(b(Sch::U8)), Val::Seq((0..sz).map(|_| Val::U(r.next() & 255)).collect())),
        (Sch::Seq(b(Sch::Unit)), Val::Seq(vec![Val::Unit; sz])), (Sch::Map(b(Sch::U32), b(Sch::Bool)), Val::Map((0..sz).map(|i| (Val::U(i as u64), Val::Bool(i % 3 == 0))).collect())),
        (Sch::Tuple(vec![Sch::I16; sz.min(300)]), Val::Seq((0..sz.min(300)).map(|_| Val::I(gen_i64(r, 16))).collect())),
        (Sch::TupStruct(vec![Sch::Bool; sz.min(300)]), Val::Seq((0..sz.min(300)).map(|_| Val::Bool(r.coin())).collect())),
    ];
    if sz <= 300 {
        o.push((Sch::Struct(names(r, sz), vec![Sch::U16; sz]), Val::Seq((0..sz).map(|_| Val::U(gen_u64(r, 16))).collect())));
        if sz > 0 {
            let nm = names(r, sz);
            let vs: Vec<Var> = (0..sz).map(|i| match i % 4 { 0 => Var::Unit, 1 => Var::New(Sch::I8), 2 => Var::Tup(vec![Sch::Bool; i % 19]), _ => Var::Struct(&nm[..i.min(17)], vec![Sch::U8; i.min(17)]) }).collect();
            for i in [0, sz / 2, sz - 1, sz.saturating_sub(2)] {
                let p = match &vs[i] { Var::Unit => vec![], Var::New(_) => vec![Val::I(-3)], Var::Tup(t) => vec![Val::Bool(true); t.len()], Var::Struct(_, t) => vec![Val::U(200); t.len()] };
                o.push((Sch::Enum(nm, vs.clone()), Val::Enum(i as u32, p)));
            }
            o.push((Sch::Enum(&["q"], vec![Var::Tup(vec![Sch::Unit; sz])]), Val::Enum(0, vec![Val::Unit; sz])));
            o.push((Sch::Enum(&["q"], vec![Var::Struct(names(r, sz), vec![Sch::Bool; sz])]), Val::Enum(0, vec![Val::Bool(true); sz])));
        }
    }
    o
}
fn m01_sizes(c: &mut Ctx) -> R {
    let sz = SIZES[c.idx as usize % SIZES.len()];
    for (s, v) in sized(c, sz) { for f in FLS { rt(c, f, &s, &v)? } }
    Ok(())
}
#[cfg(feature = "heap")]
fn m01_vec(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    let x = SV(&s, &v);
    for (f, o) in [(Fl::Idx, sm::to_vec(&x)), (Fl::Compact, sm::to_vec_compact(&x)), (Fl::Named, sm::to_vec_named(&x))] {
        c.eval();
        if let Ok(b) = &o { c.seen(b) }
        if o.as_deref().ok() != Some(&ser_ok(f, &s, &v)?) { return Err(format!("to_vec ({f:?}) of {} gives {o:?}", short(&v))) }
    }
    Ok(())
}
pub fn m01(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("dyn", n(t, 150_000, 8_000_000, 40), m01_dyn), wl("scalar", n(t, 40_000, 1_500_000, 20), m01_scalar), wl("derived", n(t, 20_000, 800_000, 2), m01_doc),
        wl("int16", 64, m01_int16), wl("chars", 272, m01_char), wl("sizes", n(t, 24, 240, 1), m01_sizes), wl("scale", n(t, 400, 40000, 1), |c| crate::big::on(c, m01_dyn))];
    #[cfg(feature = "heap")]
    w.push(wl("to_vec", n(t, 20_000, 400_000, 5), m01_vec));
    if t == Tier::Miri { w.retain(|w| w.n < 50) }
    if t == Tier::Thorough && cfg_is("rel") { w.push(wl("f32 all", 4096, m01_f32all)) }
    w
}

// ================================================================ M02
fn conform(c: &mut Ctx, o: &[u8], want: &M, what: impl Fn() -> String) -> R {
    c.eval();
    c.seen(o);
    match mref::parse(o) {
        Err(e) => Err(format!("not a MessagePack message ({e:?}): {} for {}", hex(o), what())),
        Ok((_, n, _)) if n != o.len() => Err(format!("{} trailing bytes: {} for {}", o.len() - n, hex(o), what())),
        Ok((m, _, _)) if !mref::same(&m, want) => Err(format!("{} denotes {} instead of {} for {}", hex(o), short(&m), short(want), what())),
        Ok((_, _, false)) => Err(format!("not the shortest encoding: {} for {}", hex(o), what())),
        Ok(_) => Ok(()),
    }
}
fn m02_dyn(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    for f in FLS {
        let o = ser_ok(f, &s, &v)?;
        c.sample(|| format!("{f:?} {}", hex(&o)));
        conform(c, &o, &image(&s, &v, f), || format!("{} as {} ({f:?})", short(&v), short(&s)))?;
    }
    Ok(())
}
fn m02_sizes(c: &mut Ctx) -> R {
    let sz = SIZES[c.idx as usize % SIZES.len()];
    for (s, v) in sized(c, sz) { for f in FLS { let o = ser_ok(f, &s, &v)?; conform(c, &o, &image(&s, &v, f), || format!("size {sz} {} ({f:?})", short(&s)))? } }
    Ok(())
}
fn m02_ints(c: &mut Ctx) -> R {
    let mut w = vec![];
    for k in 0..1024i64 {
        let x = c.idx as i64 * 1024 + k;
        let cand = [x, -x, (x << 16) | 0xffff, -(x << 16), (x << 47).wrapping_add(1), (x << 47).wrapping_neg().wrapping_sub(1), i64::MAX - x, i64::MIN + x, u32::MAX as i64 - 30_000 + x, i32::MIN as i64 + x - 30_000, i32::MAX as i64 - x];
        for n in cand {
            macro_rules! t { ($($t:ty),*) => {$( if let Ok(v) = <$t>::try_from(n) {
                w.clear();
                sm::to_writer_compact(&mut VW(&mut w), &v).map_err(|e| format!("{v:?}: {e:?}"))?;
                c.st.evals += 1;
                match mref::parse(&w) { Ok((M::Int(m, _), l, true)) if m == n as i128 && l == w.len() => {} x => return Err(format!("{v} as {} written as {}: {x:?}", stringify!($t), hex(&w))) }
            } )*} }
            t!(i8, i16, i32, i64, u8, u16, u32, u64);
        }
    }
    let i = c.idx;
    c.seen(&i.to_le_bytes());
    Ok(())
}
/// variant and field indexes beyond what the dynamic types reach
struct BigVar(u32, u8);
impl Serialize for BigVar {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self.1 {
            0 => z.serialize_unit_variant("E", self.0, "name"), 1 => z.serialize_newtype_variant("E", self.0, "name", &7u8),
            2 => { let mut q = z.serialize_tuple_variant("E", self.0, "name", 1)?; q.serialize_field(&true)?; q.end() }
            _ => { let mut q = z.serialize_struct_variant("E", self.0, "name", 1)?; q.serialize_field("f", &true)?; q.end() }
        }
    }
}
struct BigStruct(usize);
impl Serialize for BigStruct {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let mut q = z.serialize_struct("S", self.0)?;
        for _ in 0..self.0 { q.serialize_field("f", &false)? }
        q.end()
    }
}
fn m02_big(c: &mut Ctx) -> R {
    let i = match c.rng.below(3) { 0 => gen_u64(&mut c.rng, 32) as u32, 1 => c.rng.below(300) as u32, _ => 65536 - 3 + c.rng.below(6) as u32 };
    for f in FLS {
        for k in 0..4 {
            let o = mser(f, &BigVar(i, k)).map_err(|e| format!("variant {i}: {e:?}"))?;
            let id = ident_of(f, i as usize, "name");
            let pay = if f == Fl::Compact { M::Arr(vec![M::Bool(true)]) } else { M::Map(vec![(ident_of(f, 0, "f"), M::Bool(true))]) };
            let want = match k { 0 => id, 1 => M::Map(vec![(id, M::Int(7, 0))]), 2 => M::Map(vec![(id, M::Arr(vec![M::Bool(true)]))]), _ => M::Map(vec![(id, pay)]) };
            conform(c, &o, &want, || format!("variant {i} of kind {k} ({f:?})"))?;
        }
    }
    if c.idx % 128 == 0 {
        let n = *c.rng.pick(&[15, 16, 127, 128, 129, 255, 256, 257, 65535, 65536, 65540]);
        for f in FLS {
            let o = mser(f, &BigStruct(n)).map_err(|e| format!("struct of {n}: {e:?}"))?;
            let want = if f == Fl::Compact { M::Arr(vec![M::Bool(false); n]) } else { M::Map((0..n).map(|i| (ident_of(f, i, "f"), M::Bool(false))).collect()) };
            conform(c, &o, &want, || format!("struct of {n} fields ({f:?})"))?;
        }
    }
    Ok(())
}
/// the documented image of a script
fn act_image(a: &Act, f: Fl) -> M {
    let arr = |v: &[Act]| M::Arr(v.iter().map(|x| act_image(x, f)).collect());
    match a {
        Act::Leaf(s, v) => image(s, v, f),
        Act::Some(i) | Act::New(i) => act_image(i, f),
        Act::NewVar(i) => M::Map(vec![(ident_of(f, 7, "nv"), act_image(i, f))]),
        Act::Seq { items, .. } | Act::Tuple { kind: 0 | 1, items, .. } => arr(items),
        Act::Tuple { items, .. } => M::Map(vec![(ident_of(f, 3, "tv"), arr(items))]),
        Act::Map { items, .. } => M::Map(items.iter().map(|(k, v)| (act_image(k, f), act_image(v, f))).collect()),
        Act::Struct { kind, names, items, .. } => {
            let kept = names.iter().zip(items).enumerate().filter_map(|(i, (n, x))| x.as_ref().map(|x| (i, n, x)));
            let m = if f == Fl::Compact { M::Arr(kept.map(|x| act_image(x.2, f)).collect()) } else { M::Map(kept.map(|(i, n, x)| (ident_of(f, i, n), act_image(x, f))).collect()) };
            if *kind == 0 { m } else { M::Map(vec![(ident_of(f, 200, "sv"), m)]) }
        }
    }
}
/// Are all announced lengths right and all skipped fields expressible?
fn act_correct(a: &Act, f: Fl) -> bool {
    match a {
        Act::Leaf(..) => true,
        Act::Some(i) | Act::New(i) | Act::NewVar(i) => act_correct(i, f),
        Act::Seq { hint, items } => *hint == Some(items.len()) && items.iter().all(|x| act_correct(x, f)),
        Act::Tuple { len, items, .. } => *len == items.len() && items.iter().all(|x| act_correct(x, f)),
        Act::Map { hint, items } => *hint == Some(items.len()) && items.iter().all(|(k, x)| act_correct(k, f) && act_correct(x, f)),
        Act::Struct { len, items, .. } => {
            let kept = items.iter().filter(|x| x.is_some()).count();
            let trailing = items[..kept].iter().all(|x| x.is_some());
            *len == kept && (f != Fl::Compact || trailing) && items.iter().flatten().all(|x| act_correct(x, f))
        }
    }
}
fn m02_script(c: &mut Ctx) -> R {
    let a = gen_act(&mut c.rng, 3, false);
    for f in FLS {
        if !act_correct(&a, f) { continue }
        let o = mser(f, &a).map_err(|e| format!("{} ({f:?}): {e:?}", short(&a)))?;
        conform(c, &o, &act_image(&a, f), || format!("{} ({f:?})", short(&a)))?;
    }
    Ok(())
}
/// keeps a few bytes of every write and counts all
struct Count { head: Vec<u8>, total: u64 }
impl ser_write::SerWrite for Count {
    type Error = ser_write::SerError;
    fn write(&mut self, b: &[u8]) -> Result<(), Self::Error> { self.total += b.len() as u64; let n = b.len().min(24usize.saturating_sub(self.head.len())); self.head.extend_from_slice(&b[..n]); Ok(()) }
}
#[cfg(all(not(miri), target_pointer_width = "64"))]
const SPAN: usize = (1 << 32) + (1 << 17);
/// more than 4 GiB of zeros, the first page of which is given; pages that are not looked at take no memory
#[cfg(all(not(miri), target_pointer_width = "64"))]
fn zeros<T>(first: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SPAN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::ptr::copy_nonoverlapping(first.as_ptr(), p as *mut u8, first.len());
        // SAFETY: a private mapping of that length
        let r = f(std::slice::from_raw_parts(p as *const u8, SPAN));
        libc::munmap(p, SPAN);
        r
    }
}
/// strings and binaries of about 2^32 bytes, alone and as elements and keys
#[cfg(all(not(miri), target_pointer_width = "64"))]
fn m02_2e32(c: &mut Ctx) -> R {
    let d = *c.rng.pick(&[-70_000i64, -65_536, -256, -2, -1, 0, 1, 30, 31, 32, 255, 256, 300, 65_535, 65_536, 70_000]);
    let n = ((1i64 << 32) + d) as usize;
    let (text, shape, f) = (c.rng.coin(), c.rng.below(3), *c.rng.pick(&FLS));
    struct Big<'a>(bool, &'a [u8]);
    impl Serialize for Big<'_> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            // SAFETY: zeros are characters
            if self.0 { s.serialize_str(unsafe { std::str::from_utf8_unchecked(self.1) }) } else { s.serialize_bytes(self.1) }
        }
    }
    let mut w = Count { head: vec![], total: 0 };
    let r = zeros(&[], |z| {
        let v = Big(text, &z[..n]);
        match shape { 0 => mser_to(f, &mut w, &v), 1 => mser_to(f, &mut w, &(7u8, v)), _ => mser_to(f, &mut w, &std::collections::BTreeMap::from([(Key(v), 1u8)])) }
    });
    struct Key<'a>(Big<'a>);
    impl PartialEq for Key<'_> { fn eq(&self, _: &Self) -> bool { true } }
    impl Eq for Key<'_> {}
    impl PartialOrd for Key<'_> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for Key<'_> { fn cmp(&self, _: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }
    impl Serialize for Key<'_> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
    c.evals(2);
    c.seen(&[d.to_le_bytes().as_slice(), &[text as u8, shape as u8, f as u8]].concat());
    let what = format!("{} of {n} bytes, shape {shape}, {f:?}", if text { "a string" } else { "bytes" });
    if n as u64 > u32::MAX as u64 {
        c.count("too long for the format", 1);
        let pre = [0, 2, 1][shape];
        if r != Err(SErr::Len) || w.total > pre { return Err(format!("{what}: {r:?}, {} bytes written, starting {}", w.total, hex(&w.head))) }
        return Ok(())
    }
    let mut want: Vec<u8> = match shape { 0 => vec![], 1 => vec![0x92, 7], _ => vec![0x81] };
    want.push(if text { 0xdb } else { 0xc6 });
    want.extend_from_slice(&(n as u32).to_be_bytes());
    let total = (want.len() + n + (shape == 2) as usize) as u64;
    if r != Ok(()) || !w.head.starts_with(&want) || w.total != total { return Err(format!("{what}: {r:?}, {} of {total} bytes written, starting {}", w.total, hex(&w.head))) }
    Ok(())
}
#[cfg(not(all(not(miri), target_pointer_width = "64")))]
fn m02_2e32(c: &mut Ctx) -> R { c.eval(); Ok(()) }
/// binaries, extensions and skipped strings of about 2^32 bytes are read and skipped whole
#[cfg(all(not(miri), target_pointer_width = "64"))]
fn m04_2e32(c: &mut Ctx) -> R {
    let n: u32 = u32::MAX - *c.rng.pick(&[0u32, 1, 2, 254, 255, 256, 65_534, 65_535, 65_536, 1 << 30, (1 << 31) - 1, 1 << 31]);
    let kind = c.rng.below(4);
    let mut msg = vec![[0xc6, 0xc9, 0xdb, 0xc6][kind]];
    msg.extend_from_slice(&n.to_be_bytes());
    let head = msg.len() + (kind == 1) as usize;
    let end = head + n as usize;
    c.evals(3);
    c.seen(&msg);
    let what = format!("a message {} with {n} bytes", hex(&msg));
    zeros(&msg, |z| {
        // skipped
        match eat(z) { Ok(k) if k == end => {} x => return Err(format!("{what}: skipped {x:?}, not {end}")) }
        match eat(&z[..end]) { Ok(k) if k == end => {} x => return Err(format!("{what}, nothing behind: skipped {x:?}, not {end}")) }
        match eat(&z[..end - 1]) { Err(sm::de::Error::UnexpectedEof) => {} x => return Err(format!("{what}, one byte short: skipped {x:?}")) }
        match sm::from_slice_split_tail::<IgnoredAny>(z) { Ok((_, t)) if t.len() == z.len() - end => {} x => return Err(format!("{what}: ignored, tail {:?}", x.map(|(_, t)| t.len()))) }
        // read
        if msg[0] == 0xc6 {
            match sm::from_slice_split_tail::<&serde_bytes::Bytes>(z) { Ok((b, t)) if b.as_ptr() == z[head..].as_ptr() && b.len() == n as usize && t.len() == z.len() - end => {} x => return Err(format!("{what}: lent {:?}", x.map(|(b, t)| (b.len(), t.len())))) }
            match sm::from_slice::<&serde_bytes::Bytes>(&z[..end - 1]) { Err(sm::de::Error::UnexpectedEof) => {} x => return Err(format!("{what}, one byte short: lent {:?}", x.map(|b| (b.0.len(), b.1)))) }
        }
        Ok(())
    })
}
#[cfg(not(all(not(miri), target_pointer_width = "64")))]
fn m04_2e32(c: &mut Ctx) -> R { c.eval(); Ok(()) }
pub fn m02(t: Tier) -> Vec<Workload> {
    let mut w = vec![
        wl("dyn", n(t, 150_000, 8_000_000, 40), m02_dyn), wl("sizes", n(t, 24, 240, 1), m02_sizes), wl("integers", n(t, 64, 1024, 0), m02_ints),
        wl("indexes", n(t, 3_000, 200_000, 10), m02_big), wl("script", n(t, 80_000, 4_000_000, 20), m02_script),
        wl("lengths about 2^32", n(t, 100, 2_000, 1), m02_2e32), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, m02_dyn)), wl("scale: hand-written", n(t, 300, 30000, 1), |c| crate::big::on(c, m02_script))];
    w.retain(|w| w.n > 0);
    w
}

// ================================================================ M03
fn m03_render(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    for _ in 0..3 {
        let st = mstyle(&mut c.rng);
        let o = mref::render(&mut c.rng, st, &s, &v);
        c.seen(&o);
        c.sample(|| format!("{} as {}", hex(&o), short(&s)));
        mcheck(c, &s, &o)?;
        let (r, k) = mrun(&s, &o)?.map_err(|e| format!("{} as {}: {e:?}", hex(&o), short(&s)))?;
        if !v.eq(&r, FEq::Num) || k != o.len() { return Err(format!("{} as {} read as {} instead of {}", hex(&o), short(&s), short(&r), short(&v))) }
    }
    Ok(())
}
const INTS: [Sch; 8] = [Sch::I8, Sch::I16, Sch::I32, Sch::I64, Sch::U8, Sch::U16, Sch::U32, Sch::U64];
/// one integer: every wire form into every numeric target
fn int_matrix(c: &mut Ctx, n: i128) -> R {
    let mut forms: Vec<u8> = vec![];
    if (0..=127).contains(&n) { forms.push(0) }
    if (-32..0).contains(&n) { forms.push(1) }
    for k in 0..4u8 {
        let bits = 8u32 << k;
        if n >= 0 && n < 1i128 << bits { forms.push(0xcc + k) }
        if n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1) { forms.push(0xd0 + k) }
    }
    for f in forms {
        let mut e = Enc { o: vec![], rng: None, fix1: false };
        e.int_as(n, f);
        let o = e.o;
        c.seen(&o);
        for s in INTS { mcheck(c, &s, &o)? }
        mcheck(c, &Sch::F32, &o)?;
        mcheck(c, &Sch::F64, &o)?;
        mcheck_any(c, &o)?;
        for s in [Sch::Bool, Sch::Char, Sch::Str(false), Sch::Bytes(false), Sch::Unit, Sch::Seq(b(Sch::U8)), Sch::Opt(b(Sch::I32))] { mcheck(c, &s, &o)? }
    }
    Ok(())
}
fn m03_ints(c: &mut Ctx) -> R {
    let i = c.idx as i128;
    for d in -2i128..=2 {
        let p = (1i128 << (i % 65)) + d;
        for n in [p, -p] { if n >= i64::MIN as i128 && n <= u64::MAX as i128 { int_matrix(c, n)? } }
    }
    for _ in 0..8 { let n = if c.rng.coin() { gen_u64(&mut c.rng, 64) as i128 } else { gen_i64(&mut c.rng, 64) as i128 }; int_matrix(c, n)? }
    Ok(())
}
fn m03_small(c: &mut Ctx) -> R { // all integers around the 8-bit and 16-bit borders
    for k in 0..64i128 { int_matrix(c, c.idx as i128 * 64 - 33_100 + k)? }
    Ok(())
}
/// arbitrary wire values into arbitrary types
fn m03_types(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    let m = match c.rng.below(3) {
        0 => gen_tree(&mut c.rng, 2, true),
        1 => { let f = fl(&mut c.rng); let mut m = image(&s, &v, f); for _ in 0..c.rng.range(1, 3) { tweak(&mut c.rng, &mut m) } m }
        _ => { let (s2, v2) = mval(&mut c.rng); let f = fl(&mut c.rng); image(&s2, &v2, f) }
    };
    let forms = c.rng.coin();
    let mut e = Enc { o: vec![], rng: if forms { Some(&mut c.rng) } else { None }, fix1: true };
    e.tree(&m);
    let o = e.o;
    c.seen(&o);
    mcheck(c, &s, &o)?;
    let sc = scalar(&mut c.rng, GM);
    mcheck(c, &sc, &o)?;
    let sc = Sch::Opt(b(Sch::Newtype(b(Sch::F64))));
    mcheck(c, &sc, &o)?;
    mcheck_any(c, &o)
}
/// structural change somewhere in a tree
fn tweak(r: &mut Rng, m: &mut M) {
    let deeper = r.below(4) > 0;
    match m {
        M::Arr(v) if !v.is_empty() && deeper => { let i = r.below(v.len()); return tweak(r, &mut v[i]) }
        M::Map(v) if !v.is_empty() && deeper => { let i = r.below(v.len()); return if r.one_in(4) { tweak(r, &mut v[i].0) } else { tweak(r, &mut v[i].1) } }
        _ => {}
    }
    match m {
        M::Arr(v) => match r.below(5) {
            0 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
            1 if !v.is_empty() => { let i = r.below(v.len()); let x = v[i].clone(); v.insert(i, x) }
            2 => { let i = r.below(v.len() + 1); v.insert(i, gen_tree(r, 1, true)) }
            3 if v.len() > 1 => { let i = r.below(v.len() - 1); v.swap(i, i + 1) }
            _ => *m = gen_tree(r, 1, true),
        },
        M::Map(v) => match r.below(7) {
            0 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
            1 if !v.is_empty() => { let i = r.below(v.len()); let x = v[i].clone(); let j = r.below(v.len() + 1); v.insert(j, x) }
            2 => { let i = r.below(v.len() + 1); let k = match r.below(3) { 0 => M::Int(r.below(20) as i128, 0), 1 => M::Str((*r.pick(pool())).as_bytes().to_vec()), _ => gen_tree(r, 0, true) }; v.insert(i, (k, gen_tree(r, 1, true))) }
            3 if v.len() > 1 => { let i = r.below(v.len() - 1); v.swap(i, i + 1) }
            4 if !v.is_empty() => { let i = r.below(v.len()); v[i].0 = match r.below(3) { 0 => M::Int(r.below(20) as i128, 0), 1 => M::Str((*r.pick(pool())).as_bytes().to_vec()), _ => gen_tree(r, 0, true) } }
            5 => { let mut a = vec![]; for (_, x) in v.drain(..) { a.push(x) } *m = M::Arr(a) }
            _ => *m = gen_tree(r, 1, true),
        },
        M::Int(n, _) => match r.below(4) { 0 => *n += 1, 1 => *n = -*n, 2 => *n = n.wrapping_mul(257), _ => *m = gen_tree(r, 1, true) },
        M::Str(s) => match r.below(4) { 0 => s.push(0xff), 1 => { let x = std::mem::take(s); *m = M::Bin(x) } 2 => s.push(b'x'), _ => *m = gen_tree(r, 1, true) },
        M::Bin(s) => match r.below(3) { 0 => { let x = std::mem::take(s); *m = M::Str(x) } 1 => { let x = std::mem::take(s); *m = M::Ext(1, x) } _ => *m = gen_tree(r, 1, true) },
        _ => *m = gen_tree(r, 1, true),
    }
    fix_ints(m)
}
fn fix_ints(m: &mut M) { if let M::Int(n, _) = m { *n = (*n).clamp(i64::MIN as i128, u64::MAX as i128) } }
fn m03_floats(c: &mut Ctx) -> R {
    for _ in 0..20 {
        let m = match c.rng.below(3) { 0 => M::F32(gen_f32(&mut c.rng).to_bits()), 1 => M::F64(gen_f64(&mut c.rng).to_bits()), _ => M::Nil };
        let mut e = Enc { o: vec![], rng: None, fix1: false };
        e.tree(&m);
        c.seen(&e.o);
        for s in [Sch::F32, Sch::F64, Sch::Opt(b(Sch::F64)), Sch::Opt(b(Sch::F32))] { mcheck(c, &s, &e.o)? }
        for s in INTS { mcheck(c, &s, &e.o)? }
        mcheck_any(c, &e.o)?;
    }
    Ok(())
}
/// every message made of a one-byte marker and short random payload, into every scalar type
fn m03_markers(c: &mut Ctx) -> R {
    let mk = c.idx as u8;
    for _ in 0..40 {
        let mut o = vec![mk];
        let k = c.rng.below(24);
        for _ in 0..k { let x = match c.rng.below(5) { 0 => 0, 1 => b'a' + c.rng.below(26) as u8, 2 => c.rng.below(8) as u8, 3 => 0xff, _ => c.rng.next() as u8 }; o.push(x) }
        c.seen(&o);
        for s in INTS.into_iter().chain([Sch::F32, Sch::F64, Sch::Bool, Sch::Unit, Sch::UnitStruct, Sch::Char, Sch::Str(false), Sch::Str(true), Sch::Bytes(false), Sch::Bytes(true), Sch::Opt(b(Sch::U8)), Sch::Seq(b(Sch::Ignore)), Sch::Map(b(Sch::Ignore), b(Sch::Ignore)), Sch::Tuple(vec![]), Sch::Ignore,
            Sch::Enum(&["u", "v", "w"], vec![Var::Unit, Var::New(Sch::U8), Var::Tup(vec![Sch::U8, Sch::Ignore])]), Sch::Struct(&["a", "b"], vec![Sch::Opt(b(Sch::Ignore)), Sch::Opt(b(Sch::U8))])]) {
            mcheck(c, &s, &o)?
        }
        mcheck_any(c, &o)?;
    }
    Ok(())
}
fn m03_derived(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 2);
    let o = mser(Fl::Named, &d).map_err(|e| format!("{e:?}"))?;
    let (m, _, _) = mref::parse(&o).map_err(|e| format!("{e:?}"))?;
    let mut e = Enc { o: vec![], rng: Some(&mut c.rng), fix1: true };
    e.tree(&m);
    let o = e.o;
    c.eval();
    c.seen(&o);
    let (r, n): (Doc, usize) = mde(&o).map_err(|e| format!("{}: {e:?}", hex(&o)))?;
    if r != d || n != o.len() { return Err(format!("{} read as {} instead of {}", hex(&o), short(&r), short(&d))) }
    Ok(())
}
pub fn m03(t: Tier) -> Vec<Workload> {
    vec![wl("render", n(t, 120_000, 6_000_000, 20), m03_render), wl("integers", n(t, 520, 13_000, 2), m03_ints), wl("small integers", n(t, 1_060, 1_060, 1), m03_small),
        wl("types", n(t, 150_000, 8_000_000, 30), m03_types), wl("floats", n(t, 20_000, 800_000, 3), m03_floats), wl("markers", n(t, 256, 25_600, 1), m03_markers_any), wl("derived", n(t, 15_000, 600_000, 1), m03_derived), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, m03_render))]
}
fn m03_markers_any(c: &mut Ctx) -> R { let i = c.idx; c.idx %= 256; let r = m03_markers(c); c.idx = i; r }

// ================================================================ M04
fn tail(r: &mut Rng) -> Vec<u8> { let n = *r.pick(&[0, 0, 1, 1, 2, 5, 17]); (0..n).map(|_| *r.pick(&[0u8, 0x01, 0x80, 0x90, 0xa0, 0xc0, 0xc1, 0xff, 0xdd, 0x93, 0x42])).collect() }
fn m04_tail(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    let (s, v) = if c.rng.coin() { strip(&mut c.rng, &s, &v, true) } else { (s, v) };
    let st = mstyle(&mut c.rng);
    let mut o = mref::render(&mut c.rng, st, &s, &v);
    let n = o.len();
    o.extend(tail(&mut c.rng));
    c.seen(&o);
    c.evals(5);
    let what = || format!("{} ({n} + {} bytes) as {}", hex(&o), o.len() - n, short(&s));
    let (r, k) = mrun(&s, &o)?.map_err(|e| format!("{}: {e:?}", what()))?;
    if k != n { return Err(format!("consumed {k}: {}", what())) }
    if !v.eq(&r, FEq::Num) { return Err(format!("read as {} instead of {}: {}", short(&r), short(&v), what())) }
    let rec = Rec::default();
    let (r, t) = with_schema(&s, &rec, || sm::from_slice_split_tail::<Dyn>(&o).map(|(d, t)| (d.0, t))).map_err(|e| format!("split_tail: {e:?}: {}", what()))?;
    if t.as_ptr() != o[n..].as_ptr() || t.len() != o.len() - n || !v.eq(&r, FEq::Num) { return Err(format!("wrong tail or value: {}", what())) }
    match eat(&o) { Ok(k) if k == n => {} x => return Err(format!("skipping gives {x:?}: {}", what())) }
    match mde::<IgnoredAny>(&o) { Ok((_, k)) if k == n => {} x => return Err(format!("ignoring gives {:?}: {}", x.map(|x| x.1), what())) }
    if n == o.len() { return Ok(()) }
    let (m, k, _) = mref::parse(&o).map_err(|e| format!("{e:?}"))?;
    if k != n { return Err(format!("reference sees {k}: {}", what())) }
    match mde::<Any>(&o) { Ok((_, k)) if k == n => {} Err(_) if any_rejects(&m) => {} x => return Err(format!("generic decoding gives {x:?}: {}", what())) }
    Ok(())
}
fn m04_stream(c: &mut Ctx) -> R {
    let k = c.rng.range(2, 8);
    let mut o = vec![];
    let mut ms = vec![];
    for _ in 0..k {
        let s = if c.rng.coin() { scalar(&mut c.rng, GM) } else { schema(&mut c.rng, GM, 2) };
        let mut bu = 20;
        let v = value(&mut c.rng, &s, &mut bu);
        let f = fl(&mut c.rng);
        let st = o.len();
        mser_to(f, &mut VW(&mut o), &SV(&s, &v)).map_err(|e| format!("{e:?}"))?;
        ms.push((s, v, st));
    }
    c.seen(&o);
    c.sample(|| format!("{k} messages in {}", hex(&o)));
    let mut rest = &o[..];
    let mut one = sm::de::Deserializer::from_slice(&o);
    for (i, (s, v, st)) in ms.iter().enumerate() {
        c.evals(2);
        let what = || format!("message {i} at {st} of {} as {}", hex(&o), short(s));
        let rec = Rec::default();
        let (r, t) = with_schema(s, &rec, || sm::from_slice_split_tail::<Dyn>(rest).map(|(d, t)| (d.0, t))).map_err(|e| format!("{e:?}: {}", what()))?;
        if !v.eq(&r, FEq::Bits) { return Err(format!("read as {} instead of {}: {}", short(&r), short(v), what())) }
        // the same through one deserializer, mixing decoding and skipping
        if i % 2 == c.idx as usize % 2 { one.eat_message().map_err(|e| format!("skip: {e:?}: {}", what()))? }
        else {
            let r = serde::de::DeserializeSeed::deserialize(Seed { s, rec: &rec }, &mut one).map_err(|e| format!("{e:?}: {}", what()))?;
            if !v.eq(&r, FEq::Bits) { return Err(format!("read as {} instead of {}: {}", short(&r), short(v), what())) }
        }
        rest = t;
        let end = ms.get(i + 1).map_or(o.len(), |m| m.2);
        if rest.len() != o.len() - end || one.remaining_len() != o.len() - end { return Err(format!("boundary at {} / {} instead of {end}: {}", o.len() - rest.len(), o.len() - one.remaining_len(), what())) }
    }
    match one.end() { Ok(0) => Ok(()), x => Err(format!("end() gives {x:?}")) }
}
fn m04_prefix(c: &mut Ctx) -> R {
    let (s, v) = loop { let (s, v) = mval(&mut c.rng); if !matches!(s, Sch::Ignore) { break (s, v) } };
    let tree = c.rng.one_in(3);
    let o = if tree { let m = gen_tree(&mut c.rng, 3, true); let mut e = Enc { o: vec![], rng: Some(&mut c.rng), fix1: false }; e.tree(&m); e.o } else { let st = mstyle(&mut c.rng); mref::render(&mut c.rng, st, &s, &v) };
    c.seen(&o);
    let step = 1 + o.len() / if crate::util::tiny() { 12 } else { 150 };
    let mut k = c.rng.below(step.min(o.len()));
    while k < o.len() {
        let p = &o[..k];
        c.evals(3);
        match eat(p) { Err(sm::de::Error::UnexpectedEof) => {} x => return Err(format!("skipping the {k}-byte prefix of {} gives {x:?}", hex(&o))) }
        if let Ok((r, _)) = mrun(&s, p)? { return Err(format!("the {k}-byte prefix of {} is decoded as {}", hex(&o), short(&r))) }
        if mde::<Any>(p).is_ok() || mde::<IgnoredAny>(p).is_ok() { return Err(format!("the {k}-byte prefix of {} is accepted", hex(&o))) }
        k += step;
    }
    match eat(&o) { Ok(n) if n == o.len() => Ok(()), x => Err(format!("skipping {} gives {x:?}", hex(&o))) }
}
/// the skipper against the reference parser on raw bytes; every marker first
fn m04_skip(c: &mut Ctx) -> R {
    let k = c.rng.below(30);
    let mut o = vec![c.idx as u8];
    for _ in 0..k { let x = match c.rng.below(4) { 0 => 0, 1 => c.rng.below(6) as u8, _ => c.rng.next() as u8 }; o.push(x) }
    if c.rng.coin() && k > 4 { o[1] = 0; if matches!(o[0], 0xc6 | 0xc9 | 0xdb | 0xdd | 0xdf) { o[2] = 0; o[3] = 0 } }
    c.eval();
    c.seen(&o);
    skip_same(&o)
}
fn skip_same(o: &[u8]) -> R {
    let mut p = MP::new(o);
    let want = p.value().map(|_| p.i);
    let got = eat(o);
    let ig = mde::<IgnoredAny>(o).map(|x| x.1);
    let cmp = |g: &Result<usize, sm::de::Error>| match (&want, g) {
        (Ok(n), Ok(k)) => n == k,
        (Err(MErr::Eof), Err(sm::de::Error::UnexpectedEof)) => true,
        (Err(MErr::Reserved), Err(e)) => *e != sm::de::Error::UnexpectedEof,
        _ => false,
    };
    if !cmp(&got) || !cmp(&ig) { return Err(format!("skipping {} gives {got:?}, ignoring it {ig:?}; the specification says {want:?}", hex(o))) }
    Ok(())
}
fn m04_skipbig(c: &mut Ctx) -> R { // payloads whose length needs every byte of the header
    let n = *c.rng.pick(&[255usize, 256, 257, 65535, 65536, 65537, 70000, 131072]);
    let (n2, fill) = (n, c.rng.next() as u8);
    for mk in [0xc4u8, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xc7, 0xc8, 0xc9, 0xdc, 0xdd, 0xde, 0xdf] {
        let w = match mk { 0xc4 | 0xd9 | 0xc7 => 1, 0xc5 | 0xda | 0xc8 | 0xdc | 0xde => 2, _ => 4 };
        if (n2 as u64) >> (8 * w) != 0 { continue }
        let mut o = vec![mk];
        for i in (0..w).rev() { o.push((n2 >> (8 * i)) as u8) }
        match mk { 0xc7..=0xc9 => { o.push(5); o.resize(o.len() + n2, fill) } 0xdc | 0xdd => o.resize(o.len() + n2, 0xc0), 0xde | 0xdf => o.resize(o.len() + 2 * n2, 7), _ => o.resize(o.len() + n2, b'x') }
        c.evals(2);
        c.seen2(&[mk], n2 as u64);
        skip_same(&o)?;
        o.pop();
        skip_same(&o)?;
        o.extend_from_slice(&[1, 2, 3]);
        skip_same(&o)?;
    }
    Ok(())
}
pub fn m04(t: Tier) -> Vec<Workload> {
    vec![wl("tails", n(t, 150_000, 8_000_000, 30), m04_tail), wl("streams", n(t, 40_000, 2_000_000, 10), m04_stream), wl("prefixes", n(t, 40_000, 2_000_000, 8), m04_prefix),
        wl("skipping", n(t, 300_000, 20_000_000, 100), m04_skip), wl("large payloads", n(t, 64, 1_000, 1), m04_skipbig), wl("payloads of 4 GiB", n(t, 50, 1_000, 1), m04_2e32), wl("scale", n(t, 200, 30000, 1), |c| crate::big::on(c, m04_tail)), wl("scale: streams", n(t, 200, 30000, 1), |c| crate::big::on(c, m04_stream)), wl("scale: prefixes", n(t, 60, 6000, 1), |c| crate::big::on(c, m04_prefix))]
}

// ================================================================ M05
pub fn hostile(r: &mut Rng) -> (Sch, Vec<u8>) {
    let (s, v) = mval(r);
    let o = match r.below(7) {
        0 => { let n = r.below(40); (0..n).map(|_| r.next() as u8).collect() }
        1 => { let n = r.below(30); (0..n).map(|_| *r.pick(&[0x91u8, 0x81, 0x92, 0x82, 0xc0, 0xc1, 0xd9, 0xa1, 0xa3, 0x00, 0x01, 0x02, 0xc4, 0xdc, 0xdd, 0xde, 0xdf, 0xc7, 0xd4, 0xd6, 0xff, 0xcc, 0xcd, 0xca])).collect() }
        2 => { // a header claiming (almost) everything
            let mut o = vec![*r.pick(&[0xc6u8, 0xc9, 0xdb, 0xdd, 0xdf, 0xc5, 0xc8, 0xda, 0xdc, 0xde, 0xc7, 0xd8])];
            for _ in 0..4 { o.push(*r.pick(&[0xff, 0xff, 0x7f, 0x80, 0x00, 0xfe, 0xfb])) }
            let n = r.below(12);
            for _ in 0..n { o.push(*r.pick(&[0u8, 0xc0, 0xff, 0xdd, 0x91])) }
            if r.coin() { let k = r.below(5); let mut p = vec![0x90 + r.below(16) as u8; k]; p.extend_from_slice(&o); p } else { o }
        }
        _ => {
            let st = mstyle(r);
            let mut o = mref::render(r, st, &s, &v);
            for _ in 0..*r.pick(&[0, 1, 1, 2, 5]) { mutate_mp(r, &mut o) }
            o
        }
    };
    (s, o)
}
fn widest(s: &Sch) -> usize {
    let all = |t: &[Sch]| t.iter().map(widest).max().unwrap_or(0).max(t.len());
    match s {
        Sch::Opt(x) | Sch::Newtype(x) | Sch::Seq(x) => widest(x),
        Sch::Map(k, v) => widest(k).max(widest(v)),
        Sch::Tuple(t) | Sch::TupStruct(t) | Sch::Struct(_, t) => all(t),
        Sch::Enum(_, v) => v.iter().map(|v| match v { Var::New(s) => widest(s), Var::Tup(t) | Var::Struct(_, t) => all(t), Var::Unit => 0 }).max().unwrap_or(0),
        _ => 0,
    }
}
/// the entry point that hands back the rest of the input
fn tails(c: &mut Ctx, s: &Sch, o: &[u8]) -> R {
    let inside = |t: &[u8]| t.is_empty() || t.as_ptr() as usize + t.len() == o.as_ptr() as usize + o.len();
    c.evals(2);
    let rec = Rec::default();
    if let Ok((_, t)) = with_schema(s, &rec, || sm::from_slice_split_tail::<Dyn>(o)) { if !inside(t) { return Err(format!("tail not inside {}", hex(o))) } }
    if let Ok((_, t)) = sm::from_slice_split_tail::<IgnoredAny>(o) { if !inside(t) { return Err(format!("tail not inside {}", hex(o))) } }
    Ok(())
}
fn m05_fuzz(c: &mut Ctx) -> R {
    let (s, o) = hostile(&mut c.rng);
    c.seen(&o);
    c.sample(|| format!("{} as {}", hex(&o), short(&s)));
    let ((r, l), u) = { let (x, u) = mem::measure(|| mrun_n(&s, &o)); (x?, u) };
    c.evals(5);
    c.count(if r.is_ok() { "accepted" } else { "rejected" }, 1);
    c.count("slices lent", l as u64);
    let w = 100 * widest(&s).saturating_sub(30); // the visitors of this harness keep a place for every field
    if u.total > 20_000 + 4_000 * o.len() + w * (1 + o.len()) || u.max_one > 8_000 + 1_000 * o.len() + w { return Err(format!("{} as {}: allocated {} bytes (largest {})", hex(&o), short(&s), u.total, u.max_one)) }
    if let Err(e) = &r { let _ = e.to_string(); }
    let (r, u) = mem::measure(|| mde::<Any>(&o));
    if let Ok((a, n)) = &r { lent_inside(a, o.as_ptr() as usize, o.len())?; if *n > o.len() { return Err("consumed too much".into()) } }
    if u.max_one > 8_000 + 1_000 * o.len() { return Err(format!("{} as generic tree: allocated {} bytes at once", hex(&o), u.max_one)) }
    drop(r);
    let (_, u) = mem::measure(|| { let _ = mde::<IgnoredAny>(&o); let _ = eat(&o); });
    if u.total > 0 { return Err(format!("skipping {} allocated {} bytes", hex(&o), u.total)) }
    tails(c, &s, &o)?;
    fenced(&o, |f| { let f = &*f; let rec = Rec::default(); let _ = with_schema(&s, &rec, || mde::<Dyn>(f).map(|d| d.1)); let _ = mde::<Any>(f); let _ = eat(f); });
    Ok(())
}
fn m05_doc(c: &mut Ctx) -> R {
    let d = doc(&mut c.rng, 1);
    let f = fl(&mut c.rng);
    let mut o = mser(f, &d).map_err(|e| format!("{e:?}"))?;
    for _ in 0..c.rng.range(1, 3) { mutate_mp(&mut c.rng, &mut o) }
    c.evals(6);
    c.seen(&o);
    let _ = mde::<Doc>(&o).map(|x| x.1);
    let _ = mde::<Bor>(&o).map(|x| x.1);
    let _ = mde::<Unt>(&o).map(|x| x.1);
    let _ = mde::<Itag>(&o).map(|x| x.1);
    let _ = mde::<Atag>(&o).map(|x| x.1);
    let _ = mde::<Flat>(&o).map(|x| x.1);
    fenced(&o, |f| { let _ = mde::<Doc>(f); });
    Ok(())
}
/// every string of up to four bytes from a hostile alphabet
fn m05_short(c: &mut Ctx) -> R {
    const A: [u8; 24] = [0x00, 0x01, 0x7f, 0x81, 0x8f, 0x91, 0x9f, 0xa1, 0xbf, 0xc0, 0xc1, 0xc3, 0xc4, 0xc6, 0xc9, 0xcb, 0xd4, 0xd9, 0xdb, 0xdd, 0xdf, 0xcc, 0xd3, 0xff];
    let t = [Sch::Str(false), Sch::Bytes(false), Sch::Ignore, Sch::Seq(b(Sch::U8)), Sch::Char, Sch::Map(b(Sch::U8), b(Sch::Ignore)), Sch::I16, Sch::F64, Sch::Opt(b(Sch::Tuple(vec![Sch::U8]))), Sch::Struct(&["a", "\u{1}"], vec![Sch::U8, Sch::Opt(b(Sch::U8))]), Sch::Enum(&["a", "\u{1}"], vec![Var::Unit, Var::New(Sch::U8)])];
    for k in 0..24u64 * 24 {
        let mut x = c.idx * 576 + k;
        let mut o = vec![];
        for _ in 0..4 { o.push(A[(x % 24) as usize]); x /= 24 }
        for n in [4, 3] {
            c.eval();
            if k % 8 == 0 { c.seen(&o[..n]) }
            let s = &t[(c.idx as usize + k as usize + n) % t.len()];
            mrun(s, &o[..n])?.ok();
            let r = mde::<Any>(&o[..n]);
            if let Ok((a, _)) = &r { lent_inside(a, o.as_ptr() as usize, n)?; }
            let _ = eat(&o[..n]);
        }
    }
    Ok(())
}
/// deeply nested documents through the skipper, which has to cope with any depth
fn m05_deep(c: &mut Ctx) -> R {
    let d = if crate::util::tiny() { 300 } else { *c.rng.pick(&[1_000, 20_000, 300_000]) };
    let unit: &[u8] = c.rng.pick(&[&[0x91u8][..], &[0x81, 0x01], &[0xdc, 0, 1], &[0x81, 0x91, 0xc0], &[0x92, 0xc0], &[0xdd, 0xff, 0xff, 0xff, 0xff], &[0x81, 0xa1, b'x'], &[0xdf, 0xff, 0xff, 0xff, 0xff]]);
    let mut o = unit.repeat(d);
    if c.rng.coin() { o.push(0xc0) }
    c.seen2(unit, d as u64);
    c.evals(1);
    let r = eat(&o);
    let finite = matches!(unit, [0x91] | [0x81, ..] | [0xdc, ..] | [0x92, _]);
    let ends = *o.last().unwrap() == 0xc0 && !matches!(unit, [0x92, _] | [0xdd, ..] | [0xdf, ..]);
    if finite && ends && o.len() % unit.len() == 1 % unit.len() && o.len() == unit.len() * d + 1 { if r != Ok(o.len()) { return Err(format!("skipping {d} levels of {} gives {r:?}", hex(unit))) } }
    let d = d.min(150);
    let o = [unit.repeat(d), vec![0xc0]].concat();
    let _ = mde::<Any>(&o);
    let _ = mde::<IgnoredAny>(&o);
    Ok(())
}
pub fn m05(t: Tier) -> Vec<Workload> {
    let mut w = vec![wl("fuzz", n(t, 250_000, 12_000_000, 250), m05_fuzz), wl("scale", n(t, 300, 30000, 1), |c| crate::big::on(c, m05_fuzz)), wl("derived", n(t, 30_000, 1_500_000, 4), m05_doc), wl("short", n(t, 576, 576, 1), m05_short), wl("deep", n(t, 64, 1_000, 8), m05_deep)];
    if t == Tier::Miri { w.retain(|x| x.name != "short") }
    w
}

// ================================================================ M06
fn m06_script(c: &mut Ctx) -> R {
    let wrong = c.rng.below(4) > 0;
    let a = gen_act(&mut c.rng, 3, wrong);
    for f in FLS {
        c.eval();
        let r = mser(f, &a);
        let ok = act_correct(&a, f);
        match r {
            Ok(o) => {
                c.seen(&o);
                let m = act_image(&a, f);
                conform(c, &o, &m, || format!("{} ({f:?})", short(&a))).map_err(|e| format!("success with wrong lengths announced or fields dropped: {e}"))?;
                if !ok { return Err(format!("{} ({f:?}) announces wrong lengths or skips inexpressible fields but serializes", short(&a))) }
                c.count("consistent, serialized", 1);
            }
            Err(e) => { if ok { return Err(format!("{} ({f:?}) refused: {e:?}", short(&a))) } if e != SErr::Len { return Err(format!("{} ({f:?}): {e:?}", short(&a))) } c.count("inconsistent, refused", 1) }
        }
    }
    Ok(())
}
/// every announced length against every actual number of elements, for every kind of container, at the header size borders
fn m06_matrix(c: &mut Ctx) -> R {
    const L: [usize; 12] = [0, 1, 2, 14, 15, 16, 17, 31, 255, 256, 65535, 65536];
    let (ann, act) = (L[c.idx as usize % 12], L[c.idx as usize / 12 % 12]);
    let wrap = c.idx as usize / 144 % 3;
    let leaf = |i: usize| if i % 5 == 4 { Act::Leaf(Sch::Str(true), Val::Str("s".into())) } else { Act::Leaf(Sch::U8, Val::U(i as u64 & 127)) };
    let nm: Names = if act <= NPOOL - 50 { names(&mut c.rng, act) } else { &[] };
    let mut v = vec![
        Act::Seq { hint: Some(ann), items: (0..act).map(leaf).collect() }, Act::Seq { hint: None, items: (0..act).map(leaf).collect() },
        Act::Map { hint: Some(ann), items: (0..act).map(|i| (leaf(i), leaf(i + 1))).collect() }, Act::Map { hint: None, items: (0..act).map(|i| (leaf(i), leaf(i + 1))).collect() },
    ];
    for kind in 0..3 { v.push(Act::Tuple { kind, len: ann, items: (0..act).map(leaf).collect() }) }
    if nm.len() == act { for kind in 0..2 {
        v.push(Act::Struct { kind, len: ann, names: nm, items: (0..act).map(|i| Some(leaf(i))).collect() });
        // skipped fields: trailing, leading, one in the middle
        if act > 0 && act <= 300 {
            for pat in 0..4usize { v.push(Act::Struct { kind, len: ann, names: nm, items: (0..act).map(|i| if match pat { 0 => i >= ann, 1 => i < act.saturating_sub(ann), 2 => i == act / 2, _ => i % 2 == 0 } { None } else { Some(leaf(i)) }).collect() }) }
        }
    } }
    for a in v {
        let a = match wrap { 0 => a, 1 => Act::Seq { hint: Some(2), items: vec![a, leaf(0)] }, _ => Act::Map { hint: Some(2), items: vec![(leaf(3), a), (leaf(1), leaf(2))] } };
        for f in FLS {
            c.eval();
            c.count("matrix cells", 1);
            let ok = act_correct(&a, f);
            match mser(f, &a) {
                Ok(o) => {
                    if !ok { return Err(format!("announced {ann}, written {act}: {} ({f:?}) serializes to {}", short(&a), hex(&o))) }
                    conform(c, &o, &act_image(&a, f), || format!("{} ({f:?})", short(&a)))?
                }
                Err(e) if ok => return Err(format!("{} ({f:?}) refused: {e:?}", short(&a))),
                Err(_) => {}
            }
        }
    }
    c.seen2(&[wrap as u8], (ann * 100_000 + act) as u64);
    Ok(())
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Skips {
    a: u8, #[serde(default, skip_serializing_if = "Option::is_none")] b: Option<i32>, #[serde(default, skip_serializing_if = "String::is_empty")] c: String, d: Vec<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")] e: Option<Box<Skips>>, #[serde(default, skip_serializing_if = "Option::is_none")] f: Option<bool>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum SkipE { V { #[serde(default, skip_serializing_if = "Option::is_none")] x: Option<u8>, y: u16, #[serde(default, skip_serializing_if = "Option::is_none")] z: Option<u8> }, N(Skips) }
fn skips(r: &mut Rng, d: usize, trailing: bool) -> Skips {
    let e = if d > 0 && r.coin() { Some(Box::new(skips(r, d - 1, trailing))) } else { None };
    let f = if r.coin() && (!trailing || e.is_some()) { Some(r.coin()) } else { None };
    Skips { a: r.next() as u8, b: if trailing || r.coin() { Some(gen_i64(r, 32) as i32) } else { None }, c: if trailing || r.coin() { format!("c{}", gen_str(r)) } else { String::new() }, d: (0..r.below(4)).map(|_| r.next() as u8).collect(), e, f }
}
fn m06_skips(c: &mut Ctx) -> R {
    let trailing = c.rng.coin();
    let k = c.rng.coin();
    let v = vec![SkipE::N(skips(&mut c.rng, 2, trailing)), SkipE::V { x: if trailing || k { Some(3) } else { None }, y: c.rng.next() as u16, z: if c.rng.coin() { Some(200) } else { None } }, SkipE::N(skips(&mut c.rng, 1, trailing))];
    let lossy = |s: &Skips| { fn mid(s: &Skips) -> bool { s.b.is_none() || s.c.is_empty() || s.e.is_none() && s.f.is_some() || s.e.as_ref().is_some_and(|e| mid(e)) } mid(s) };
    let inexpressible = v.iter().any(|e| match e { SkipE::N(s) => lossy(s), SkipE::V { x, .. } => x.is_none() });
    for f in FLS {
        c.eval();
        match mser(f, &v) {
            Ok(o) => {
                c.seen(&o);
                if f == Fl::Compact && inexpressible { return Err(format!("{} drops a field in the middle of an array but serializes to {}", short(&v), hex(&o))) }
                let (r, n): (Vec<SkipE>, usize) = mde(&o).map_err(|e| format!("{} ({f:?}) from {} is not read back: {e:?}", hex(&o), short(&v)))?;
                if r != v || n != o.len() { return Err(format!("{} ({f:?}) read back as {} instead of {}", hex(&o), short(&r), short(&v))) }
                c.count("values with skipped fields restored", 1);
            }
            Err(SErr::Len) if f == Fl::Compact && inexpressible => c.count("inexpressible skip refused", 1),
            Err(e) => return Err(format!("{} ({f:?}) refused: {e:?}", short(&v))),
        }
    }
    Ok(())
}
pub fn m06(t: Tier) -> Vec<Workload> {
    let mut w = vec![wl("scripts", n(t, 250_000, 12_000_000, 40), m06_script), wl("length matrix", n(t, 432, 432, 0), m06_matrix), wl("skipped fields", n(t, 80_000, 4_000_000, 20), m06_skips), wl("scale", n(t, 600, 60000, 1), |c| crate::big::on(c, m06_script))];
    w.retain(|w| w.n > 0);
    w
}

// ================================================================ M07
fn m07_layout(c: &mut Ctx) -> R {
    let sv = |r: &mut Rng| { let k = r.range(1, 5); let vs: Vec<Var> = (0..k).map(|_| variant(r, GM, 1)).collect(); Sch::Enum(names(r, k), vs) };
    let s = if c.rng.coin() { struct_schema(&mut c.rng, GM, 2) } else { sv(&mut c.rng) };
    let s = match c.rng.below(4) { 0 => Sch::Seq(b(s)), 1 => Sch::Tuple(vec![s, Sch::Str(false), sv(&mut c.rng)]), _ => s };
    let mut bu = 60;
    let v = value(&mut c.rng, &s, &mut bu);
    let mut seen: Option<Val> = None;
    for _ in 0..3 {
        let mut st = mstyle(&mut c.rng);
        st.unknown = true;
        let o = mref::render(&mut c.rng, st, &s, &v);
        c.seen(&o);
        c.sample(|| format!("{} as {}", hex(&o), short(&s)));
        mcheck(c, &s, &o)?;
        let (r, _) = mrun(&s, &o)?.map_err(|e| format!("{} as {}: {e:?}", hex(&o), short(&s)))?;
        if let Some(x) = &seen { if !x.eq(&r, FEq::Num) { return Err(format!("layouts of one value read differently: {} as {}", hex(&o), short(&s))) } }
        if !v.eq(&r, FEq::Num) { return Err(format!("{} read as {} instead of {}", hex(&o), short(&r), short(&v))) }
        seen = Some(r);
    }
    Ok(())
}
fn m07_wrong(c: &mut Ctx) -> R {
    let s = match c.rng.below(3) { 0 => struct_schema(&mut c.rng, GM, 1), 1 => { let k = c.rng.range(1, 5); let vs = (0..k).map(|_| variant(&mut c.rng, GM, 1)).collect(); Sch::Enum(names(&mut c.rng, k), vs) } _ => { let a = schema(&mut c.rng, GM, 1); Sch::TupStruct(vec![a, Sch::U8]) } };
    let mut bu = 20;
    let v = value(&mut c.rng, &s, &mut bu);
    let f = fl(&mut c.rng);
    let mut m = image(&s, &v, f);
    if c.rng.below(8) > 0 { tweak(&mut c.rng, &mut m) }
    let mut e = Enc { o: vec![], rng: None, fix1: true };
    e.tree(&m);
    let o = e.o;
    c.seen(&o);
    mcheck(c, &s, &o)?;
    // followed by another value: miscounted elements would show there
    let o2 = [&[0x92][..], &o, &[0xa3, b'e', b'n', b'd']].concat();
    mcheck(c, &Sch::Tuple(vec![s, Sch::Str(false)]), &o2)
}
/// all identifiers of large structs and enums, in every documented form
fn m07_ident(c: &mut Ctx) -> R {
    let k = NPOOL - 1;
    let nm = names(&mut c.rng, k);
    let i = c.idx as usize % k;
    let unit = Sch::Enum(nm, vec![Var::Unit; k]);
    let newt = Sch::Enum(nm, vec![Var::New(Sch::U8); k]);
    let st = Sch::Struct(nm, vec![Sch::Opt(b(Sch::U8)); k]);
    let mut ids: Vec<Vec<u8>> = vec![];
    if i < 128 { ids.push(vec![i as u8]) }
    if i < 256 { ids.push(vec![0xcc, i as u8]) }
    ids.push(vec![0xcd, (i >> 8) as u8, i as u8]);
    ids.push(vec![0xce, 0, 0, (i >> 8) as u8, i as u8]);
    let t = nm[i].as_bytes();
    if t.len() < 32 { ids.push([&[0xa0 | t.len() as u8][..], t].concat()) }
    if t.len() < 256 { ids.push([&[0xd9, t.len() as u8][..], t].concat()) }
    ids.push([&[0xda, (t.len() >> 8) as u8, t.len() as u8][..], t].concat());
    ids.push([&[0xdb, 0, 0, (t.len() >> 8) as u8, t.len() as u8][..], t].concat());
    for id in ids {
        c.seen(&id);
        let go = |c: &mut Ctx, s: &Sch, o: Vec<u8>, w: Val| -> R {
            c.eval();
            let (r, n) = mrun(s, &o)?.map_err(|e| format!("identifier {}: {e:?} in {}", hex(&id), hex(&o)))?;
            if !r.eq(&w, FEq::Num) || n != o.len() { return Err(format!("identifier {} in {} read as {}", hex(&id), hex(&o), short(&r))) }
            Ok(())
        };
        go(c, &unit, id.clone(), Val::Enum(i as u32, vec![]))?;
        go(c, &newt, [&[0x81][..], &id, &[9]].concat(), Val::Enum(i as u32, vec![Val::U(9)]))?;
        let w = Val::Seq((0..k).map(|x| if x == i { Val::Some(Box::new(Val::U(9))) } else { Val::None }).collect());
        go(c, &st, [&[0x81][..], &id, &[9]].concat(), w)?;
        // kinds that do not fit
        for o in [[&[0x81][..], &id, &[9]].concat(), [&[0x82][..], &id, &[9], &id, &[9]].concat(), [&[0x80][..], &id].concat()] { if mrun(&unit, &o)?.is_ok() { return Err(format!("unit variant accepted from {}", hex(&o))) } }
        for o in [id.clone(), [&[0x82][..], &id, &[9, 0, 9]].concat(), [&[0x80][..], &id].concat()] { if mrun(&newt, &o)?.is_ok() { return Err(format!("newtype variant accepted from {}", hex(&o))) } }
        let o = [&[0x82][..], &id, &[9], &id, &[9]].concat();
        if mrun(&st, &o)?.is_ok() { return Err(format!("duplicate field accepted in {}", hex(&o))) }
        c.evals(7);
    }
    // unknown variants
    for o in [vec![0xcd, (k >> 8) as u8, k as u8], vec![0xce, 1, 0, 0, i as u8], vec![0xce, 0, 1, (i >> 8) as u8, i as u8], vec![0xa3, b'?', b'?', b'?'], vec![0xc0], vec![0xc4, 1, 0]] {
        c.eval();
        if mrun(&unit, &o)?.is_ok() { return Err(format!("unknown variant {} accepted", hex(&o))) }
        let o = [&[0x81][..], &o, &[9]].concat();
        if mrun(&newt, &o)?.is_ok() { return Err(format!("unknown variant in {} accepted", hex(&o))) }
    }
    Ok(())
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(deny_unknown_fields)]
struct Strict { a: u8, b: Option<String> }
fn m07_derived(c: &mut Ctx) -> R {
    let a = Attrs { a: c.rng.next() as u32, b: gen_str(&mut c.rng), c: if c.rng.coin() { Some(-1) } else { None }, s: 0, d: c.rng.coin() };
    let r = &mut c.rng;
    // names, aliases, indexes, defaults, unknown fields, any order (index counts deserializable fields)
    let mut fs: Vec<(M, M)> = vec![];
    let id = |r: &mut Rng, i: i128, names: &[&str]| if r.one_in(3) { M::Int(i, 0) } else { M::Str(r.pick(names).as_bytes().to_vec()) };
    if a.a != 0 || r.coin() { fs.push((id(r, 0, &["a"]), M::Int(a.a as i128, 0))) } 
    fs.push((id(r, 1, &["b", "bb", "bbb"]), M::Str(a.b.clone().into_bytes())));
    if let Some(x) = a.c { fs.push((id(r, 2, &["c"]), M::Int(x as i128, 0))) } else if r.coin() { fs.push((id(r, 2, &["c"]), M::Nil)) }
    fs.push((id(r, 3, &["dd"]), M::Bool(a.d)));
    for _ in 0..r.below(4) { fs.push((if r.coin() { M::Int(4 + r.below(100_000) as i128, 0) } else { M::Str(b"zz".to_vec()) }, gen_tree(r, 2, true))) }
    r.shuffle(&mut fs);
    let mut o = vec![];
    let mut e = Enc { o: vec![], rng: None, fix1: false };
    e.map(fs.len());
    for (k, v) in &fs { match k { M::Int(n, _) => e.ident(*n as u32), k => e.tree(k) } e.tree(v) }
    o.extend_from_slice(&e.o);
    c.eval();
    c.seen(&o);
    let (x, n): (Attrs, usize) = mde(&o).map_err(|e| format!("{}: {e:?}", hex(&o)))?;
    if x != a || n != o.len() { return Err(format!("{} read as {} instead of {}", hex(&o), short(&x), short(&a))) }
    // strict type
    let s = Strict { a: 7, b: Some("x".into()) };
    for f in FLS {
        let o = mser(f, &s).map_err(|e| format!("{e:?}"))?;
        if mde::<Strict>(&o).ok() != Some((s.clone(), o.len())) { return Err(format!("{} ({f:?})", hex(&o))) }
    }
    for o in [&[0x83, 0, 7, 1, 0xc0, 2, 5][..], &[0x82, 0xa1, b'a', 7, 0xa1, b'z', 0xc0], &[0x93, 7, 0xc0, 0xc0], &[0x91, 7], &[0x80], &[0x81, 1, 0xc0], &[0x82, 0, 7, 0xa1, b'a', 7], &[0x92, 0xc0, 0xc0], &[0x92, 7, 7], &[0xc0], &[7], &[0xa1, b'a'], &[0x82, 0xc0, 7, 1, 0xc0], &[0x82, 0xd0, 0, 7, 0xff, 0xc0]] {
        c.eval();
        // an undocumented identifier form may be refused or read as that field
        let r = mde::<Strict>(o);
        if let Ok((x, _)) = r { if o[1] != 0xd0 { return Err(format!("{} accepted as {x:?}", hex(o))) } }
    }
    Ok(())
}
pub fn m07(t: Tier) -> Vec<Workload> {
    vec![wl("layouts", n(t, 120_000, 6_000_000, 20), m07_layout), wl("wrong", n(t, 250_000, 12_000_000, 40), m07_wrong), wl("identifiers", n(t, 700, 2_800, 0).max(1), m07_ident), wl("derived", n(t, 40_000, 2_000_000, 10), m07_derived), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, m07_layout))]
}
#[allow(dead_code)]
fn unused(_: Cert) {}
