//! X11: uses of the crates are independent of each other: in other threads, nested in each other's callbacks, and interleaved.
use crate::any::Any;
use crate::c_mp::eat;
use crate::jref::style;
use crate::model::user;
use crate::model::*;
use crate::mref::{self, mstyle};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::util::*;
use serde::de::{Deserialize, IgnoredAny};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use ser_write::SerWrite;
use ser_write_json::ser as js;
use ser_write_msgpack::ser as ms;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::sync::Barrier;

/// a sink that lets other code run before it takes what it is given
#[derive(Default)]
struct Slow { buf: Vec<u8> }
impl SerWrite for Slow {
    type Error = WErr;
    fn write(&mut self, b: &[u8]) -> Result<(), WErr> {
        user::tick();
        LEFT.with(|l| if l.get() < b.len() { Err(WErr(77)) } else { l.set(l.get() - b.len()); Ok(()) })?;
        self.buf.extend_from_slice(b);
        Ok(())
    }
}
// bytes the sinks of this thread still take
thread_local! { static LEFT: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// one use: what goes in, and everything that can be seen of it
#[derive(Debug)]
enum Job { JSer(BM, Sch, Val), MSer(Fl, Sch, Val), JDe(BM, Sch, Vec<u8>), JTree(BM, Vec<u8>), JSkip(Vec<u8>), MDe(Sch, Vec<u8>), MTree(Vec<u8>), MSkip(Vec<u8>), Own(Sch, Val) }
impl Job {
    fn run(&self) -> Vec<u8> {
        let mut o = String::new();
        match self {
            Job::JSer(m, s, v) => { let mut w = Slow::default(); let r = jser_to(*m, &mut w, &SV(s, v)); o = format!("{r:?} {}", hex_all(&w.buf)) }
            Job::MSer(m, s, v) => { let mut w = Slow::default(); let r = mser_to(*m, &mut w, &SV(s, v)); o = format!("{r:?} {}", hex_all(&w.buf)) }
            Job::JDe(m, s, b) => {
                let mut b = b.clone();
                let rec = Rec::default();
                let base = b.as_ptr() as usize;
                let r = with_schema(s, &rec, || jde::<Dyn>(*m, &mut b).map(|d| d.0));
                o = format!("{r:?} {:?} {:?}", r.is_ok().then(|| check_lent(&rec, base, &b)), rec.lent.borrow().iter().map(|l| l.copy.clone()).collect::<Vec<_>>())
            }
            Job::JTree(m, b) => { let mut b = b.clone(); o = format!("{:?}", jde::<Any>(*m, &mut b)) }
            Job::JSkip(b) => { let mut b = b.clone(); o = format!("{:?}", jde::<IgnoredAny>(BM::Arr, &mut b).map(|_| ())) }
            Job::MDe(s, b) => { let rec = Rec::default(); let r = with_schema(s, &rec, || mde::<Dyn>(b).map(|(d, n)| (d.0, n))); o = format!("{r:?} {:?}", check_lent(&rec, b.as_ptr() as usize, b)) }
            Job::MTree(b) => o = format!("{:?}", mde::<Any>(b)),
            Job::MSkip(b) => o = format!("{:?}", eat(b)),
            Job::Own(s, v) => o = own(&SV(s, v)),
        }
        o.into_bytes()
    }
    fn what(&self) -> String { short(self) }
}
fn hex_all(b: &[u8]) -> String { use std::fmt::Write; let mut s = String::with_capacity(b.len() * 2); for x in b { let _ = write!(s, "{x:02x}"); } s }
#[cfg(feature = "heap")]
fn own(v: &SV) -> String { format!("{:?} {:?}", ser_write_json::to_string(v).ok(), ser_write_msgpack::to_vec(v).ok()) }
#[cfg(not(feature = "heap"))]
fn own(v: &SV) -> String {
    let mut b = [0u8; 600];
    let mut o = { let w = ser_write::SliceWriter::new(&mut b); format!("{:?}", jser_to(BM::Hex, w, v)) };
    o.push_str(&hex_all(&b));
    o
}
fn job(r: &mut Rng) -> Job {
    let g = |r: &mut Rng, g: Gen| { let d = r.range(0, 4); let s = schema(r, g, d); let mut b = if tiny() { 5 } else { *r.pick(&[6, 20, 60]) }; let v = value(r, &s, &mut b); (s, v) };
    let break_one_in = 6;
    match r.below(10) {
        0 | 1 => { let (s, v) = g(r, GJ); Job::JSer(bm(r), s, v) }
        2 => { let (s, v) = g(r, GM); Job::MSer(fl(r), s, v) }
        3 => { let (s, v) = g(r, GM); Job::Own(s, v) }
        k @ 4..=6 => {
            let (s, v) = g(r, GJ);
            let m = bm(r);
            let st = style(r);
            let mut t = crate::jref::render(r, st, m, &s, &v);
            if r.one_in(break_one_in) { mutate_json(r, &mut t) }
            match k { 4 => Job::JDe(m, s, t), 5 => Job::JTree(m, t), _ => if r.coin() { Job::JSkip(t) } else { Job::JDe(m, s, t) } }
        }
        k => {
            let (s, v) = g(r, GM);
            let st = mstyle(r);
            let mut t = mref::render(r, st, &s, &v);
            if r.one_in(break_one_in) { mutate_mp(r, &mut t) }
            match k { 7 => Job::MDe(s, t), 8 => Job::MTree(t), _ => if r.coin() { Job::MSkip(t) } else { Job::MDe(s, t) } }
        }
    }
}
fn same(got: &[u8], want: &[u8], how: impl Fn() -> String) -> R {
    if got == want { return Ok(()) }
    Err(format!("{} instead of {}: {}", show(got), show(want), how()))
}
// ---------------------------------------------------------------- nested
fn x11_nested(c: &mut Ctx) -> R {
    let outer = job(&mut c.rng);
    let inner: Vec<Job> = (0..c.rng.range(1, 3)).map(|_| job(&mut c.rng)).collect();
    let base = outer.run();
    let ibase: Vec<Vec<u8>> = inner.iter().map(|j| j.run()).collect();
    // how many callbacks there are
    let n = Cell::new(0u64);
    same(&user::nested(&|| n.set(n.get() + 1), || outer.run()), &base, || format!("run again: {}", outer.what()))?;
    let total = n.get();
    let max = if tiny() { 4 } else { 40 };
    let every = 1 + total / max;
    let phase = c.rng.next() % every;
    let deep = c.rng.coin();
    let (k, runs, deeper) = (Cell::new(0u64), Cell::new(0u64), Cell::new(0u64));
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let keep = |r: R, how: &str| if let Err(e) = r { bad.borrow_mut().get_or_insert(format!("{how}: {e}")); };
    let one = |i: usize| { let i = i % inner.len(); (&inner[i], &ibase[i]) };
    let hook = || {
        let x = k.get();
        k.set(x + 1);
        if x % every != phase { return }
        runs.set(runs.get() + 1);
        let (j, b) = one((x / every) as usize);
        if deep && runs.get() % 3 == 0 {
            // and another one in each callback of that one
            let q = Cell::new(0u64);
            let h2 = || { q.set(q.get() + 1); if q.get() <= 4 { deeper.set(deeper.get() + 1); let (j, b) = one((x + q.get()) as usize); keep(same(&j.run(), b, || j.what()), "nested in a nested use") } };
            keep(same(&user::nested(&h2, || j.run()), b, || j.what()), "nested, with uses nested in it");
        } else { keep(same(&j.run(), b, || j.what()), "nested in a callback") }
    };
    let got = user::nested(&hook, || outer.run());
    c.evals(2 + runs.get() + deeper.get());
    c.count("uses nested in callbacks", runs.get());
    c.count("uses nested twice", deeper.get());
    c.seen(&base);
    c.sample(|| format!("{} callbacks, {} nested uses in {}", total, runs.get(), outer.what()));
    same(&got, &base, || format!("with {} other uses ({}) in its callbacks: {}", runs.get(), short(&inner), outer.what()))?;
    if let Some(e) = bad.into_inner() { return Err(format!("{e}; the outer use is {}", outer.what())) }
    Ok(())
}
// ---------------------------------------------------------------- threads
fn x11_threads(c: &mut Ctx) -> R {
    let k = if tiny() { 2 } else { c.rng.range(2, 4) };
    // one use on several threads (with the input shared), or different ones
    let jobs: Vec<Job> = if c.rng.one_in(4) { vec![job(&mut c.rng)] } else { (0..k).map(|_| job(&mut c.rng)).collect() };
    let base: Vec<Vec<u8>> = jobs.iter().map(|j| j.run()).collect();
    let reps = if tiny() { 1 } else { 30 };
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.next()).collect();
    let gate = Barrier::new(k);
    let r: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..k).map(|t| {
            let (j, b, gate, seed) = (&jobs[t % jobs.len()], &base[t % jobs.len()], &gate, seeds[t]);
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, move || {
                let rng = RefCell::new(Rng::new(seed));
                let ticks = Cell::new(0u64);
                gate.wait();
                guarded(|| {
                    for i in 0..reps {
                        let odds = [1, 2, 7, 1000][i % 4];
                        let hook = || { ticks.set(ticks.get() + 1); if rng.borrow_mut().one_in(odds) { std::thread::yield_now() } };
                        same(&user::nested(&hook, || j.run()), b, || format!("repetition {i} on thread {t}: {}", j.what()))?;
                    }
                    Ok(ticks.get())
                }).unwrap_or_else(|(e, _)| Err(format!("{e} on thread {t}: {}", j.what())))
            }).expect("thread")
        }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    c.evals((k * reps) as u64);
    c.seen(&base.concat());
    for x in r { let n = x.map_err(|e| format!("while {} threads ran {}: {e}", k, short(&jobs)))?; c.count("callbacks at which threads could change", n) }
    c.count("concurrent uses", (k * reps) as u64);
    c.sample(|| format!("{k} threads: {}", short(&jobs)));
    Ok(())
}
// ---------------------------------------------------------------- in sequence
/// what a process that does nothing else prints for the use that `seed` makes
#[cfg(not(miri))]
pub fn fresh(seed: u64) -> Vec<u8> { job(&mut Rng::new(seed)).run() }
#[cfg(not(miri))]
fn in_new_process(seed: u64) -> Option<Vec<u8>> {
    let o = std::process::Command::new(std::env::current_exe().ok()?).args(["use", &seed.to_string()]).stderr(std::process::Stdio::null()).output().ok()?;
    o.status.success().then_some(o.stdout)
}
/// uses that end early in one of the ways there are
fn spoil(c: &mut Ctx, j: &Job) {
    let r = &mut c.rng;
    match r.below(4) {
        0 => { // the sink takes no more
            LEFT.with(|l| l.set(r.below(40)));
            struct Off; impl Drop for Off { fn drop(&mut self) { LEFT.with(|l| l.set(usize::MAX)) } }
            let _off = Off;
            let _ = guarded(|| j.run());
            c.count("uses with failing sinks before", 1);
        }
        1 | 2 => { // a callback unwinds
            let (at, k) = (1 + r.below(12), Cell::new(0));
            let hook = || { k.set(k.get() + 1); if k.get() == at { std::panic::resume_unwind(Box::new(user::Thrown)) } };
            if guarded(|| user::nested(&hook, || j.run())).is_err() { c.count("unwound uses before", 1) }
        }
        _ => { j.run(); c.count("other uses before", 1) }
    }
}
fn x11_after(c: &mut Ctx) -> R {
    let seed = c.rng.next();
    let j = job(&mut Rng::new(seed));
    let first = j.run();
    // many times the same few, or ever different ones
    let few: Vec<Job> = (0..c.rng.range(1, 4)).map(|_| job(&mut c.rng)).collect();
    let times = if tiny() { 3 } else { *c.rng.pick(&[1, 3, 10, 40, 300]) };
    for i in 0..times {
        if c.rng.one_in(3) { let x = job(&mut c.rng); spoil(c, &x) } else { spoil(c, &few[i % few.len()]) }
        if i % 16 == 0 { same(&j.run(), &first, || format!("after {i} other uses, {}: {}", short(&few), j.what()))?; c.evals(1) }
    }
    c.evals(1);
    c.seen(&first);
    same(&j.run(), &first, || format!("after {times} other uses, {}: {}", short(&few), j.what()))?;
    c.sample(|| format!("{times} uses before {}", j.what()));
    #[cfg(not(miri))]
    if c.idx % 16 == 0 && !crate::big::is_on() {
        if let Some(new) = in_new_process(seed) {
            c.count("uses compared with a new process", 1);
            same(&first, &new, || format!("in a process that did other things before, instead of a new one: {}", j.what()))?;
        }
    }
    Ok(())
}
/// a great many refused uses; each kind of refusal leaves as much behind as it can
fn x11_many(c: &mut Ctx) -> R {
    let mut refused = vec![];
    for _ in 0..if tiny() { 8 } else { 400 } {
        let mut x = job(&mut c.rng);
        if let Job::JDe(_, _, t) | Job::JTree(_, t) | Job::JSkip(t) = &mut x { for _ in 0..3 { mutate_json(&mut c.rng, t) } }
        if let Job::MDe(_, t) | Job::MTree(t) | Job::MSkip(t) = &mut x { mutate_mp(&mut c.rng, t) }
        let o = x.run();
        if o.starts_with(b"Err") && o.len() < 200 { refused.push(x) }
        if refused.len() == 12 { break }
    }
    // and uses that are always refused in the middle of something, one for each place
    for t in ["[1,x]", "[[[[1,[2}", "{\"a\":{\"b\":[}", "[\"\\u1\"]", "{\"a\" 1}", "[1"] { for m in [BM::Arr, BM::B64] { refused.push(Job::JTree(m, t.into())) } refused.push(Job::JSkip(t.into())) }
    for t in [&b"\x92\x01"[..], b"\x81\xa1a\x91\xc1", b"\x93\x92\x91\xa2\xff\xff", b"\xdd\x00\x00\x00\x02\x01", b"\xc6\x00\x00"] { refused.push(Job::MTree(t.into())); refused.push(Job::MSkip(t.into())) }
    let good: Vec<(Job, Vec<u8>)> = (0..if tiny() { 3 } else { 30 }).map(|_| { let j = job(&mut c.rng); let o = j.run(); (j, o) }).collect();
    let times = if tiny() { 20 } else { 40_000 };
    for i in 0..times {
        refused[i % refused.len()].run();
        if i % 400 == 399 || i + 1 == times {
            let (j, o) = &good[i / 400 % good.len()];
            c.evals(1);
            same(&j.run(), o, || format!("after {} refused uses: {}", i + 1, j.what()))?;
        }
    }
    for (j, o) in &good { c.evals(1); c.seen(o); same(&j.run(), o, || format!("after {times} refused uses: {}", j.what()))? }
    c.count("refused uses before", times as u64);
    c.sample(|| format!("{times} refused uses, such as {}", refused[0].what()));
    Ok(())
}
// ---------------------------------------------------------------- interleaved
type Step<'a> = Box<dyn FnMut() -> Result<bool, String> + 'a>;
/// what a value is taken apart into
fn parts(r: &mut Rng, g: Gen) -> (usize, Vec<(Sch, Val)>) {
    let kind = r.below(8);
    let k = r.range(0, 6);
    (kind, (0..k).map(|_| { let d = r.range(0, 2); let s = schema(r, g, d); let mut b = if tiny() { 3 } else { 8 }; let v = value(r, &s, &mut b); (s, v) }).collect())
}
const NAMES: [&str; 8] = ["a", "b", "", "delta", "quo\"te", "f", "g", "h"];
/// the calls a derived implementation would make, one per step
fn steps<'a, S>(z: S, kind: usize, p: &'a [(Sch, Val)]) -> Result<Step<'a>, String>
where S: Serializer<Ok = ()> + 'a, S::Error: Debug {
    fn e<E: Debug>(x: E) -> String { format!("{x:?}") }
    let mut it = p.iter().enumerate();
    let n = p.len();
    macro_rules! st { ($z:expr, |$c:ident, $i:ident, $v:ident| $put:expr) => {{
        let mut z = Some($z.map_err(e)?);
        Box::new(move || match it.next() {
            Some(($i, (s, v))) => { let $v = &SV(s, v); let $c = z.as_mut().expect("open"); $put.map_err(e)?; Ok(true) }
            None => { if let Some(z) = z.take() { z.end().map_err(e)? } Ok(false) }
        })
    }} }
    Ok(match kind {
        0 => st!(z.serialize_seq(Some(n)), |c, i, v| c.serialize_element(v)),
        1 => st!(z.serialize_tuple(n), |c, i, v| c.serialize_element(v)),
        2 => st!(z.serialize_tuple_struct("T", n), |c, i, v| c.serialize_field(v)),
        3 => st!(z.serialize_tuple_variant("E", 3, "Var", n), |c, i, v| c.serialize_field(v)),
        4 => st!(z.serialize_struct("S", n), |c, i, v| c.serialize_field(NAMES[i], v)),
        5 => st!(z.serialize_struct_variant("E", 1, "Sv", n), |c, i, v| c.serialize_field(NAMES[i], v)),
        6 => st!(z.serialize_map(Some(n)), |c, i, v| c.serialize_entry(NAMES[i], v)),
        _ => { // keys and values in steps of their own
            let mut z = Some(z.serialize_map(Some(n)).map_err(e)?);
            let mut cur: Option<&'a (Sch, Val)> = None;
            Box::new(move || {
                let c = z.as_mut();
                if let Some((s, v)) = cur.take() { c.expect("open").serialize_value(&SV(s, v)).map_err(e)?; return Ok(true) }
                match it.next() {
                    Some((i, x)) => { c.expect("open").serialize_key(NAMES[i]).map_err(e)?; cur = Some(x); Ok(true) }
                    None => { if let Some(z) = z.take() { z.end().map_err(e)? } Ok(false) }
                }
            })
        }
    })
}
enum Z<'w> { A(js::SerializerByteArray<&'w mut Slow>), H(js::SerializerByteHexStr<&'w mut Slow>), B(js::SerializerByteBase64<&'w mut Slow>), P(js::SerializerBytePass<&'w mut Slow>), C(ms::CompactSerializer<&'w mut Slow>), I(ms::StructMapIdxSerializer<&'w mut Slow>), N(ms::StructMapStrSerializer<&'w mut Slow>) }
impl<'w> Z<'w> {
    fn new(m: usize, w: &'w mut Slow) -> Z<'w> {
        match m { 0 => Z::A(js::Serializer::new(w)), 1 => Z::H(js::Serializer::new(w)), 2 => Z::B(js::Serializer::new(w)), 3 => Z::P(js::Serializer::new(w)), 4 => Z::C(ms::CompactSerializer::new(w)), 5 => Z::I(ms::StructMapIdxSerializer::new(w)), _ => Z::N(ms::StructMapStrSerializer::new(w)) }
    }
    fn steps<'a>(&'a mut self, kind: usize, p: &'a [(Sch, Val)]) -> Result<Step<'a>, String> {
        match self { Z::A(z) => steps(z, kind, p), Z::H(z) => steps(z, kind, p), Z::B(z) => steps(z, kind, p), Z::P(z) => steps(z, kind, p), Z::C(z) => steps(z, kind, p), Z::I(z) => steps(z, kind, p), Z::N(z) => steps(z, kind, p) }
    }
}
fn drain(s: &mut Step) -> Result<(), String> { while s()? {} Ok(()) }
/// serializers that are open at the same time
fn x11_open_ser(c: &mut Ctx) -> R {
    let k = c.rng.range(2, 4);
    // often all of one format
    let fixed = c.rng.coin().then(|| c.rng.below(7));
    let plan: Vec<(usize, usize, Vec<(Sch, Val)>)> = (0..k).map(|_| { let m = fixed.unwrap_or_else(|| c.rng.below(7)); let (kind, p) = parts(&mut c.rng, if m < 4 { GJ } else { GM }); (m, kind, p) }).collect();
    let what = || short(&plan);
    let alone: Vec<(Result<(), String>, Vec<u8>)> = plan.iter().map(|(m, kind, p)| { let mut w = Slow::default(); let r = { let mut z = Z::new(*m, &mut w); z.steps(*kind, p).and_then(|mut s| drain(&mut s)) }; (r, w.buf) }).collect();
    let mut ws: Vec<Slow> = (0..k).map(|_| Slow::default()).collect();
    let mut rs: Vec<Result<(), String>> = vec![Ok(()); k];
    let mut turns = 0;
    {
        let mut zs: Vec<Z> = ws.iter_mut().zip(&plan).map(|(w, p)| Z::new(p.0, w)).collect();
        let mut open: Vec<(usize, Step)> = vec![];
        let mut left: Vec<(usize, &mut Z)> = zs.iter_mut().enumerate().collect();
        let mut last = usize::MAX;
        while !open.is_empty() || !left.is_empty() {
            if !left.is_empty() && (open.is_empty() || c.rng.one_in(3)) {
                let (i, z) = left.pop().expect("one left");
                match z.steps(plan[i].1, &plan[i].2) { Ok(s) => open.push((i, s)), Err(e) => rs[i] = Err(e) }
                continue;
            }
            let x = c.rng.below(open.len());
            if open[x].0 != last { turns += 1; last = open[x].0 }
            match (open[x].1)() { Ok(true) => {} Ok(false) => { open.remove(x); } Err(e) => { rs[open[x].0] = Err(e); open.remove(x); } }
        }
    }
    c.evals(2 * k as u64);
    c.count("changes between open serializers", turns);
    for i in 0..k {
        c.seen(&alone[i].1);
        if rs[i] != alone[i].0 { return Err(format!("serializer {i} gives {:?} instead of {:?} as when used alone: {}", rs[i], alone[i].0, what())) }
        same(&ws[i].buf, &alone[i].1, || format!("serializer {i} with others open: {}", what()))?;
    }
    c.sample(|| format!("{k} open serializers, {turns} changes"));
    Ok(())
}
/// deserializers that are in the middle of their input at the same time
fn x11_open_de(c: &mut Ctx) -> R {
    let k = c.rng.range(2, 4);
    enum In { J(BM, Vec<Sch>, Vec<u8>), M(Vec<Sch>, Vec<u8>) }
    let plan: Vec<In> = (0..k).map(|_| {
        let json = c.rng.coin();
        let m = bm(&mut c.rng);
        let n = c.rng.range(1, 5);
        let (mut t, mut o) = (vec![], vec![]);
        for _ in 0..n {
            let d = c.rng.range(0, 3);
            let s = schema(&mut c.rng, if json { GJ } else { GM }, d);
            let mut b = if tiny() { 4 } else { 20 };
            let v = value(&mut c.rng, &s, &mut b);
            if json { let st = style(&mut c.rng); o.extend(crate::jref::render(&mut c.rng, st, m, &s, &v)); o.push(b'\n') } else { let st = mstyle(&mut c.rng); o.extend(mref::render(&mut c.rng, st, &s, &v)) }
            t.push(s);
        }
        if c.rng.one_in(8) { if json { mutate_json(&mut c.rng, &mut o) } else { mutate_mp(&mut c.rng, &mut o) } }
        if json { In::J(m, t, o) } else { In::M(t, o) }
    }).collect();
    type Got = RefCell<Vec<String>>;
    fn jsteps<'a, P: ser_write_json::de::StringByteDecoder<'a> + 'a>(b: &'a mut [u8], t: &'a [Sch], got: &'a Got) -> Step<'a> {
        let mut d = ser_write_json::de::Deserializer::<P>::from_mut_slice(b);
        let mut it = t.iter();
        Box::new(move || {
            let Some(s) = it.next() else { got.borrow_mut().push(format!("{} left", d.remaining_len())); return Ok(false) };
            let rec = Rec::default();
            let r = with_schema(s, &rec, || Dyn::deserialize(&mut d)).map(|d| d.0);
            let ok = r.is_ok();
            got.borrow_mut().push(format!("{r:?} {:?} {}", rec.lent.borrow().iter().map(|l| l.copy.clone()).collect::<Vec<_>>(), d.remaining_len()));
            Ok(ok)
        })
    }
    fn msteps<'a>(b: &'a [u8], t: &'a [Sch], got: &'a Got) -> Step<'a> {
        let mut d = ser_write_msgpack::de::Deserializer::from_slice(b);
        let mut it = t.iter();
        Box::new(move || {
            let Some(s) = it.next() else { got.borrow_mut().push(format!("{} left", d.remaining_len())); return Ok(false) };
            let rec = Rec::default();
            let r = with_schema(s, &rec, || Dyn::deserialize(&mut d)).map(|d| d.0);
            let ok = r.is_ok();
            got.borrow_mut().push(format!("{r:?} {}", d.remaining_len()));
            Ok(ok)
        })
    }
    fn open<'a>(p: &'a In, b: &'a mut Vec<u8>, got: &'a Got) -> Step<'a> {
        use ser_write_json::de::*;
        match p {
            In::J(BM::Arr | BM::Pass, t, _) => jsteps::<StringByteNopeDecoder>(b, t, got), In::J(BM::Hex, t, _) => jsteps::<StringByteHexDecoder>(b, t, got), In::J(BM::B64, t, _) => jsteps::<StringByteBase64Decoder>(b, t, got),
            In::M(t, _) => msteps(b, t, got),
        }
    }
    let copies = || -> Vec<Vec<u8>> { plan.iter().map(|p| match p { In::J(_, _, o) | In::M(_, o) => o.clone() }).collect() };
    let alone: Vec<Got> = (0..k).map(|_| Got::default()).collect();
    let mut ab = copies();
    for ((p, b), g) in plan.iter().zip(&mut ab).zip(&alone) { drain(&mut open(p, b, g))? }
    let together: Vec<Got> = (0..k).map(|_| Got::default()).collect();
    let mut tb = copies();
    let mut turns = 0;
    {
        let mut run: Vec<(usize, Step)> = plan.iter().zip(&mut tb).zip(&together).enumerate().map(|(i, ((p, b), g))| (i, open(p, b, g))).collect();
        let mut last = usize::MAX;
        while !run.is_empty() {
            let x = c.rng.below(run.len());
            if run[x].0 != last { turns += 1; last = run[x].0 }
            if !(run[x].1)()? { run.remove(x); }
        }
    }
    c.evals(k as u64);
    c.count("changes between open deserializers", turns);
    for i in 0..k {
        let (a, t) = (alone[i].borrow(), together[i].borrow());
        let input = match &plan[i] { In::J(_, _, o) => show(o), In::M(_, o) => hex(o) };
        c.seen(input.as_bytes());
        if *a != *t { return Err(format!("deserializer {i} gives {} instead of {} as when used alone: {input}", short(&*t), short(&*a))) }
        if ab[i] != tb[i] { return Err(format!("deserializer {i} leaves its buffer as {} instead of {}: {input}", show(&tb[i]), show(&ab[i]))) }
    }
    c.sample(|| format!("{k} open deserializers, {turns} changes"));
    Ok(())
}
pub fn x11(t: Tier) -> Vec<Workload> {
    vec![wl("nested in callbacks", n(t, 15_000, 1_500_000, 16), x11_nested), wl("threads", n(t, 800, 60_000, 16), x11_threads), wl("after others", n(t, 4_000, 500_000, 16), x11_after),
        wl("open serializers", n(t, 40_000, 4_000_000, 16), x11_open_ser), wl("open deserializers", n(t, 30_000, 3_000_000, 16), x11_open_de),
        wl("many refused", n(t, 8, 800, 1), x11_many), wl("scale: after others", n(t, 60, 6_000, 1), |c| crate::big::on(c, x11_after)), wl("scale: threads", n(t, 12, 1_000, 1), |c| crate::big::on(c, x11_threads))]
}
