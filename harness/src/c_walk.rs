//! Visitors of the user's own, taking containers apart at their own pace (X10).
use crate::any::*;
use crate::jref::{self, style, Ren, J};
use crate::mref::{self, gen_tree, Enc, M};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::util::*;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::fmt;

/// what the document holds
enum N { J(J), M(M), Seq(Vec<N>), Map(Vec<(N, N)>) }
fn jn(j: J) -> N { match j { J::Arr(v) => N::Seq(v.into_iter().map(jn).collect()), J::Obj(v) => N::Map(v.into_iter().map(|(k, x)| (N::J(J::Str(k)), jn(x))).collect()), x => N::J(x) } }
fn mn(m: M) -> N { match m { M::Arr(v) => N::Seq(v.into_iter().map(mn).collect()), M::Map(v) => N::Map(v.into_iter().map(|(k, x)| (mn(k), mn(x))).collect()), x => N::M(x) } }
impl N {
    fn same(&self, a: &Any) -> Result<(), String> {
        fn kids<'a>(n: &'a N) -> usize { match n { N::Seq(v) => v.len(), N::Map(v) => v.len(), _ => 0 } }
        match (self, a) {
            (N::J(j), a) => same_json(a, j),
            (N::M(m), a) => same_msgpack(a, m),
            (N::Seq(v), Any::Seq(w)) if v.len() == w.len() => v.iter().zip(w).try_for_each(|(x, y)| x.same(y)),
            (N::Map(v), Any::Map(w)) if v.len() == w.len() => v.iter().zip(w).try_for_each(|(x, y)| x.0.same(&y.0).and_then(|_| x.1.same(&y.1))),
            (_, a) => Err(format!("{} of {} instead of {}", if let N::Seq(_) = self { "a sequence" } else { "a map" }, kids(self), short(a))),
        }
    }
    fn null(&self) -> bool { matches!(self, N::J(J::Null) | N::M(M::Nil)) }
    /// may stand for an identifier
    fn ident(&self) -> bool { match self { N::J(J::Str(_)) => true, N::M(M::Str(_)) => true, N::M(M::Int(_, form)) => matches!(form, 0..=0x7f | 0xcc..=0xce), _ => false } }
    fn containers(&self) -> usize { match self { N::Seq(v) => 1 + v.iter().map(N::containers).sum::<usize>(), N::Map(v) => 1 + v.iter().map(|x| x.1.containers()).sum::<usize>(), _ => 0 } }
}
/// How the walk goes, and what was seen on it.
struct Cx {
    r: RefCell<Rng>,
    /// what the monitor found wrong
    bad: RefCell<Option<String>>,
    /// containers still to be passed before one is left early
    leave: Cell<i64>,
    /// what was done that has to be refused
    left: Cell<Option<&'static str>>,
    /// wanted: a variant taken for another kind
    twist: Cell<bool>,
    plan: RefCell<Vec<&'static str>>,
    asked: Cell<u64>, hints: Cell<u64>, elems: Cell<u64>, again: Cell<u64>,
}
impl Cx {
    fn below(&self, n: usize) -> usize { self.r.borrow_mut().below(n) }
    fn one_in(&self, n: usize) -> bool { self.r.borrow_mut().one_in(n) }
    fn bad(&self, s: String) { let mut b = self.bad.borrow_mut(); if b.is_none() { *b = Some(s) } }
    fn note(&self, s: &'static str) { let mut p = self.plan.borrow_mut(); if p.len() < 60 { p.push(s) } }
    fn hint(&self, got: Option<usize>, want: usize) {
        self.hints.set(self.hints.get() + 1);
        if let Some(h) = got { if h != want { self.bad(format!("size_hint is {h} with {want} left")) } }
    }
    /// is it this container's turn to be left, and after how many elements?
    fn turn(&self, n: usize) -> Option<usize> {
        if n == 0 { return None }
        let k = self.leave.get();
        self.leave.set(k - 1);
        if k == 0 { Some(self.below(n)) } else { None }
    }
}
#[derive(Clone, Copy)]
struct W<'a> { n: &'a N, cx: &'a Cx, /** an adaptor of serde's, which knows no hints */ plain: bool }
/// any leaf, taken as an identifier
struct Ident<'a> { n: &'a N, cx: &'a Cx }
impl<'de> DeserializeSeed<'de> for Ident<'_> { type Value = (); fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { d.deserialize_identifier(V(W { n: self.n, cx: self.cx, plain: false })) } }
struct V<'a>(W<'a>);
impl<'de> DeserializeSeed<'de> for W<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let (cx, n) = (self.cx, self.n);
        if self.plain { return d.deserialize_any(V(W { plain: false, ..self })) }
        match cx.below(14) {
            0 => { cx.note("newtype"); return d.deserialize_newtype_struct("N", V(self)) }
            1 => { cx.note("option"); return d.deserialize_option(V(self)) }
            2 if !cx.one_in(3) => { cx.note("ignored"); return IgnoredAny::deserialize(d).map(|_| ()) }
            _ => {}
        }
        match n {
            N::Seq(v) => match cx.below(6) {
                0 => { cx.note("seq"); d.deserialize_seq(V(self)) }
                1 => { cx.note("tuple"); d.deserialize_tuple(v.len(), V(self)) }
                2 => { cx.note("tuple struct"); d.deserialize_tuple_struct("T", v.len(), V(self)) }
                3 => { cx.note("struct"); d.deserialize_struct("S", &[], V(self)) }
                _ => { cx.note("any"); d.deserialize_any(V(self)) }
            },
            N::Map(v) => match cx.below(6) {
                0 => { cx.note("map"); d.deserialize_map(V(self)) }
                1 => { cx.note("struct"); d.deserialize_struct("S", &[], V(self)) }
                2 | 3 if v.len() == 1 && v[0].0.ident() => { cx.note("enum"); d.deserialize_enum("E", &[], V(self)) }
                _ => { cx.note("any"); d.deserialize_any(V(self)) }
            },
            x if x.ident() && cx.one_in(6) => { cx.note("unit variant"); d.deserialize_enum("E", &[], V(self)) }
            x if x.null() && cx.one_in(3) => { cx.note("unit"); if cx.one_in(2) { d.deserialize_unit(V(self)) } else { d.deserialize_unit_struct("U", V(self)) } }
            _ => d.deserialize_any(V(self)),
        }
    }
}
macro_rules! leaf { ($($f:ident $t:ty => $e:expr),*) => { $(fn $f<E: de::Error>(self, x: $t) -> Result<(), E> { self.leaf(($e)(x)) })* } }
impl V<'_> {
    fn leaf<E: de::Error>(self, a: Any) -> Result<(), E> { if let Err(e) = self.0.n.same(&a) { self.0.cx.bad(e) } Ok(()) }
}
impl<'de> Visitor<'de> for V<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("what is there") }
    leaf! { visit_bool bool => Any::Bool, visit_i64 i64 => Any::I, visit_u64 u64 => Any::U, visit_f32 f32 => Any::F32, visit_f64 f64 => Any::F64, visit_char char => Any::Char,
        visit_str &str => |s: &str| Any::StrO(s.into()), visit_bytes &[u8] => |b: &[u8]| Any::BytesO(b.into()) }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> { self.leaf(Any::Unit) }
    fn visit_none<E: de::Error>(self) -> Result<(), E> { self.leaf(Any::Unit) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { if self.0.n.null() { self.0.cx.bad("nothing given as something".into()) } self.0.deserialize(d) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { self.0.deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let cx = self.0.cx;
        let N::Seq(v) = self.0.n else { cx.bad("visit_seq for something else".into()); return Err(A::Error::custom("stop")) };
        if cx.one_in(12) { cx.note("through an adaptor"); return W { plain: true, ..self.0 }.deserialize(de::value::SeqAccessDeserializer::new(a)) }
        let out = cx.turn(v.len());
        for (i, x) in v.iter().enumerate() {
            cx.hint(a.size_hint(), v.len() - i);
            if out == Some(i) { cx.left.set(Some("array")); return Ok(()) }
            cx.elems.set(cx.elems.get() + 1);
            let w = W { n: x, cx, plain: false };
            let r = match cx.below(10) {
                0 => a.next_element::<IgnoredAny>()?.is_some(),
                1 => match a.next_element::<Any>()? { Some(t) => { if let Err(e) = x.same(&t) { cx.bad(e) } true } None => false },
                2 => (&mut a).next_element_seed(w)?.is_some(),
                _ => a.next_element_seed(w)?.is_some(),
            };
            if !r { cx.bad(format!("the sequence of {} ends after {i}", v.len())); return Ok(()) }
        }
        cx.hint(a.size_hint(), 0);
        let n = if cx.one_in(3) { cx.asked.set(cx.asked.get() + 1); 0 } else { 1 + cx.below(3) };
        for k in 0..n {
            if k > 0 { cx.again.set(cx.again.get() + 1) }
            if a.next_element::<IgnoredAny>()?.is_some() { cx.bad(format!("an element behind the {} of a sequence, asked {} times", v.len(), k + 1)) }
            cx.hint(a.size_hint(), 0);
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let cx = self.0.cx;
        let N::Map(v) = self.0.n else { cx.bad("visit_map for something else".into()); return Err(A::Error::custom("stop")) };
        if cx.one_in(12) { cx.note("through an adaptor"); return W { plain: true, ..self.0 }.deserialize(de::value::MapAccessDeserializer::new(a)) }
        let out = cx.turn(v.len());
        for (i, (k, x)) in v.iter().enumerate() {
            cx.hint(a.size_hint(), v.len() - i);
            if out == Some(i) { cx.left.set(Some("map")); return Ok(()) }
            cx.elems.set(cx.elems.get() + 1);
            let w = W { n: x, cx, plain: false };
            let key = |t: Option<Any>| match t { Some(t) => { if let Err(e) = k.same(&t) { cx.bad(e) } true } None => false };
            let r = match cx.below(8) {
                0 => a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some(),
                1 => match a.next_entry::<Any, Any>()? { Some((s, t)) => { if let Err(e) = k.same(&s).and_then(|_| x.same(&t)) { cx.bad(e) } true } None => false },
                2 if k.ident() => { a.next_entry_seed(Ident { n: k, cx }, w)?.is_some() }
                3 if k.ident() => { let r = a.next_key_seed(Ident { n: k, cx })?.is_some(); if r { a.next_value::<IgnoredAny>()?; } r }
                4 => { let r = (&mut a).next_key::<IgnoredAny>()?.is_some(); if r { (&mut a).next_value_seed(w)? } r }
                _ => { let r = key(a.next_key()?); if r { a.next_value_seed(w)? } r }
            };
            if !r { cx.bad(format!("the map of {} ends after {i}", v.len())); return Ok(()) }
        }
        cx.hint(a.size_hint(), 0);
        let n = if cx.one_in(3) { cx.asked.set(cx.asked.get() + 1); 0 } else { 1 + cx.below(3) };
        for k in 0..n {
            if k > 0 { cx.again.set(cx.again.get() + 1) }
            let more = if cx.one_in(2) { a.next_key::<IgnoredAny>()?.is_some() } else { a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() };
            if more { cx.bad(format!("an entry behind the {} of a map, asked {} times", v.len(), k + 1)) }
            cx.hint(a.size_hint(), 0);
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let cx = self.0.cx;
        let id = |n| Ident { n, cx };
        let twist = cx.twist.get() && cx.one_in(3);
        if twist { cx.left.set(Some("variant")) }
        match self.0.n {
            N::Map(v) if v.len() == 1 => {
                let w = W { n: &v[0].1, cx, plain: false };
                let ac = if cx.one_in(2) { a.variant_seed(id(&v[0].0))?.1 } else { let (k, ac) = a.variant::<Any>()?; if let Err(e) = v[0].0.same(&k) { cx.bad(e) } ac };
                if twist { cx.note("taken for a unit variant"); return ac.unit_variant() }
                match &v[0].1 {
                    N::Seq(t) if cx.one_in(2) => { cx.note("tuple variant"); ac.tuple_variant(t.len(), V(w)) }
                    N::Seq(_) | N::Map(_) if cx.one_in(2) => { cx.note("struct variant"); ac.struct_variant(&[], V(w)) }
                    _ if cx.one_in(6) => { cx.note("newtype variant, ignored"); ac.newtype_variant::<IgnoredAny>().map(|_| ()) }
                    _ => { cx.note("newtype variant"); ac.newtype_variant_seed(w) }
                }
            }
            n if n.ident() => {
                let ac = if cx.one_in(2) { a.variant_seed(id(n))?.1 } else { let (k, ac) = a.variant::<Any>()?; if let Err(e) = n.same(&k) { cx.bad(e) } ac };
                if !twist { return ac.unit_variant() }
                cx.note("a unit variant taken for another");
                match cx.below(3) { 0 => ac.newtype_variant::<IgnoredAny>().map(|_| ()), 1 => ac.tuple_variant(0, V(self.0)), _ => ac.struct_variant(&[], V(self.0)) }
            }
            _ => { cx.bad("visit_enum for something else".into()); Err(A::Error::custom("stop")) }
        }
    }
}
fn cx(c: &mut Ctx, n: &N) -> Cx {
    let k = n.containers();
    let leave = if c.rng.one_in(3) { c.rng.below(k.max(1)) as i64 } else { -1 };
    Cx { r: RefCell::new(c.rng.fork()), bad: RefCell::new(None), leave: Cell::new(leave), left: Cell::new(None), twist: Cell::new(leave < 0 && c.rng.one_in(6)), plan: RefCell::new(vec![]), asked: Cell::new(0), hints: Cell::new(0), elems: Cell::new(0), again: Cell::new(0) }
}
/// Ok(true): the walk went to the end; Ok(false): it stopped with the error it had to.
fn judge<E: fmt::Debug>(c: &mut Ctx, x: &Cx, r: Result<(), E>, kinds: [&str; 3], doc: impl Fn() -> String) -> Result<bool, String> {
    let doc = || format!("{} taken as {:?}", doc(), x.plan.borrow());
    c.evals(1 + x.elems.get() + x.hints.get() + x.again.get());
    c.count("elements taken", x.elems.get());
    c.count("size hints compared", x.hints.get());
    c.count("asked again behind the end", x.again.get());
    c.count("never asked for the end", x.asked.get());
    if let Some(b) = x.bad.borrow().as_ref() { return Err(format!("{b}: {}", doc())) }
    match (x.left.get(), r) {
        (None, Ok(())) => { c.count("walked to the end", 1); Ok(true) }
        (None, Err(e)) => Err(format!("refused ({e:?}): {}", doc())),
        (Some(w), Ok(())) => Err(format!("accepted although {}: {}", if w == "variant" { "a variant was taken for one of another kind" } else { "the visitor left elements unread" }, doc())),
        (Some(w), Err(e)) => {
            let k = match w { "array" => kinds[0], "map" => kinds[1], _ => kinds[2] };
            if format!("{e:?}") != k { return Err(format!("refused with {e:?} instead of {k} ({w}): {}", doc())) }
            c.count(match w { "array" => "array left early, refused", "map" => "map left early, refused", _ => "variant taken for another kind, refused" }, 1);
            Ok(false)
        }
    }
}
fn jgo<P: for<'x> ser_write_json::de::StringByteDecoder<'x>>(c: &mut Ctx) -> R {
    use ser_write_json::de as jd;
    let k = if tiny() { 1 } else { c.rng.range(1, 3) };
    let mut o = vec![];
    let mut docs = vec![];
    for _ in 0..k {
        let st = style(&mut c.rng);
        let d = if tiny() { 2 } else { c.rng.range(2, 5) };
        let (t, j) = loop {
            let mut r = Ren { rng: &mut c.rng, st, o: vec![], m: BM::Arr, flt: None };
            // a container most of the time
            if !r.rng.one_in(6) { let open = if r.rng.coin() { b'[' } else { b'{' }; nest(&mut r, open, d) } else { r.any(d) }
            let j = jref::parse(&r.o).map_err(|e| format!("reference cannot read {:?} ({e})", show(&r.o)))?.j;
            if any_verdict(&j) == Some(false) { break (r.o, j) }
        };
        o.extend_from_slice(&t);
        docs.push((jn(j), o.len()));
        o.push(*c.rng.pick(b" \n\t\r"));
    }
    c.seen(&o);
    let len = o.len();
    let mut g = Guard::new(&o);
    {
        let mut de = jd::Deserializer::<P>::from_mut_slice(g.buf());
        let mut all = true;
        for (i, (n, end)) in docs.iter().enumerate() {
            let x = cx(c, n);
            let r = W { n, cx: &x, plain: false }.deserialize(&mut de);
            let doc = || format!("value {i} of {:?}", show(&o));
            c.sample(|| format!("{:?} taken as {:?}", show(&o), x.plan.borrow()));
            all = judge(c, &x, r, ["ExpectedArrayEnd", "ExpectedObjectEnd", "InvalidType"], doc)?;
            if !all { break }
            if de.remaining_len() != len - end { return Err(format!("{} bytes are left instead of {}: {} taken as {:?}", de.remaining_len(), len - end, doc(), x.plan.borrow())) }
        }
        if all { c.eval(); de.end().map_err(|e| format!("end() gives {e:?}: {:?}", show(&o)))? }
    }
    if !g.intact() { return Err(format!("bytes outside the input were modified: {:?}", show(&o))) }
    Ok(())
}
fn nest(r: &mut Ren, open: u8, d: usize) {
    let n = *r.rng.pick(&[0, 1, 1, 2, 3, 4, 7]);
    r.o.push(open);
    for i in 0..n {
        if i > 0 { r.ws(); r.o.push(b',') }
        r.ws();
        if open == b'{' { let k = jref::gen_str_short(r.rng); r.string(&k); r.ws(); r.o.push(b':'); r.ws() }
        match r.rng.below(4) { 0 if d > 1 => nest(r, b'[', d - 1), 1 if d > 1 => nest(r, b'{', d - 1), _ => r.any(d - 1) }
    }
    r.ws();
    r.o.push(open + 2)
}
fn x10_json(c: &mut Ctx) -> R {
    use ser_write_json::de as jd;
    match c.idx % 3 { 0 => jgo::<jd::StringByteNopeDecoder>(c), 1 => jgo::<jd::StringByteHexDecoder>(c), _ => jgo::<jd::StringByteBase64Decoder>(c) }
}
fn mtree(r: &mut Rng, d: usize) -> M {
    let n = *r.pick(&[0, 1, 1, 2, 3, 4, 15, 16, 17]);
    let e = if n > 4 { 1 } else { d };
    let kid = |r: &mut Rng| if e > 1 && r.coin() { mtree(r, e - 1) } else { let q = if r.one_in(4) && e > 0 { e - 1 } else { 0 }; gen_tree(r, q, false) };
    if r.coin() { M::Arr((0..n).map(|_| kid(r)).collect()) }
    else { M::Map((0..n).map(|i| (match r.below(4) { 0 => M::Int(i as i128, 0), 1 => gen_tree(r, 0, false), _ => M::Str(jref::gen_str_short(r).into_bytes()) }, kid(r))).collect()) }
}
fn x10_msgpack(c: &mut Ctx) -> R {
    use ser_write_msgpack::de as md;
    let k = if tiny() { 1 } else { c.rng.range(1, 3) };
    let mut o = vec![];
    let mut docs = vec![];
    for _ in 0..k {
        let d = if tiny() { 2 } else { c.rng.range(2, 4) };
        let start = o.len();
        let m = if c.rng.one_in(8) { gen_tree(&mut c.rng, d, false) } else { mtree(&mut c.rng, d) };
        if c.rng.one_in(3) { let mut e = Enc { o: vec![], rng: None, fix1: true }; e.tree(&m); o.extend(e.o) } else { let mut e = Enc { o: vec![], rng: Some(&mut c.rng), fix1: true }; e.tree(&m); o.extend(e.o) }
        let (m, n, _) = mref::parse(&o[start..]).map_err(|e| format!("reference cannot read {}: {e:?}", hex(&o)))?;
        if n != o.len() - start { return Err(format!("reference reads {n} bytes of {}", hex(&o))) }
        docs.push((mn(m), o.len()));
    }
    c.seen(&o);
    let mut de = md::Deserializer::from_slice(&o);
    for (i, (n, end)) in docs.iter().enumerate() {
        let x = cx(c, n);
        let r = W { n, cx: &x, plain: false }.deserialize(&mut de);
        let doc = || format!("value {i} of {}", hex(&o));
        c.sample(|| format!("{} taken as {:?}", hex(&o), x.plan.borrow()));
        if !judge(c, &x, r, ["TrailingElements", "TrailingElements", "InvalidType"], doc)? { return Ok(()) }
        if de.remaining_len() != o.len() - end { return Err(format!("{} bytes are left instead of {}: {} taken as {:?}", de.remaining_len(), o.len() - end, doc(), x.plan.borrow())) }
    }
    c.eval();
    match de.end() { Ok(0) => Ok(()), e => Err(format!("end() gives {e:?} instead of 0: {}", hex(&o))) }
}
pub fn x10(t: Tier) -> Vec<Workload> {
    vec![wl("JSON", n(t, 200_000, 20_000_000, 40), x10_json), wl("MessagePack", n(t, 200_000, 20_000_000, 40), x10_msgpack), wl("scale: JSON", n(t, 300, 30000, 1), |c| crate::big::on(c, x10_json)), wl("scale: MessagePack", n(t, 300, 30000, 1), |c| crate::big::on(c, x10_msgpack))]
}
