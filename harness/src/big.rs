//! Scale: the same generators and the same oracles, on data whose parts are long. While a case runs under `on`,
//! every place that decides how much of something there is (characters, elements, fields, blanks, digits) may
//! spend part of the case's size on it, with lengths around the powers of two and other sizes buffers have.
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use std::cell::Cell;

thread_local! { static LEFT: Cell<usize> = const { Cell::new(0) }; static ON: Cell<bool> = const { Cell::new(false) }; }
pub fn on(c: &mut Ctx, f: Case) -> R {
    struct Off; impl Drop for Off { fn drop(&mut self) { ON.with(|x| x.set(false)); LEFT.with(|x| x.set(0)) } }
    let _off = Off;
    let n = if crate::util::tiny() { 700 } else { *c.rng.pick(&[1_500usize, 6_000, 30_000, 90_000, 170_000]) };
    LEFT.with(|x| x.set(n));
    ON.with(|x| x.set(true));
    let r = f(c);
    c.count("bytes and elements of long parts", (n - LEFT.with(|x| x.get())) as u64);
    r
}
pub fn is_on() -> bool { ON.with(|x| x.get()) }
pub fn length(r: &mut Rng) -> usize {
    match r.below(12) {
        0..=3 => { let p = 1usize << r.range(5, 17); p + r.below(5) - 2 }
        4 => 1usize << r.range(5, 17),
        5 => r.range(254, 258), 6 => r.range(1022, 1026), 7 => r.range(4094, 4098), 8 => r.range(65533, 65539), 9 => *r.pick(&[100, 300, 500, 1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000]),
        10 => r.range(40, 3000), _ => r.range(40, 70_000),
    }
}
/// a long count, one time in `odds`; never outside `on`
pub fn take(r: &mut Rng, odds: usize, max: usize) -> Option<usize> {
    let left = LEFT.with(|x| x.get());
    if left == 0 || !r.one_in(odds) { return None }
    let n = length(r);
    // mostly exactly that many, or none
    let n = if n > max || n > left { if r.coin() { return None } n.min(max).min(left) } else { n };
    LEFT.with(|x| x.set(left - n));
    Some(n)
}
/// text made of long runs: plain, one repeated character, or anything
pub fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let left = n - s.len();
        let k = if r.one_in(4) { r.range(1, 9) } else { length(r) }.min(left);
        let end = s.len() + k;
        match r.below(6) {
            0 | 1 | 2 => while s.len() < end { s.push((b'a' + (s.len() % 23) as u8) as char) },
            3 => { let c = *r.pick(&['\\', '"', '\u{1}', '\n', '/', '\u{e9}', '\u{20ac}', '\u{1f600}', '0', ' ', ']', '\\', '"']); while s.len() + c.len_utf8() <= end { s.push(c) } while s.len() < end { s.push('.') } }
            4 => { let c = gen_char(r); if c.len_utf8() <= left { s.push(c) } else { s.push('"') } }
            _ => while s.len() < end { let c = if s.len() + 300 < end && r.one_in(3) { 'x' } else { gen_char(r) }; if s.len() + c.len_utf8() <= end { s.push(c) } else { s.push('~') } },
        }
    }
    s
}
fn small(r: &mut Rng, g: Gen) -> (Sch, Val) { let d = r.below(3); let s = schema(r, g, d); let mut b = 8; let v = value(r, &s, &mut b); (s, v) }
/// one long thing
fn core(r: &mut Rng, g: Gen) -> (Sch, Val) {
    let b = |s: Sch| Box::new(s);
    let tiny = crate::util::tiny();
    let n = |r: &mut Rng, max: usize| take(r, 1, if tiny { max.min(300) } else { max }).unwrap_or(40);
    match r.below(14) {
        0..=2 => { let k = n(r, 140_000); (if g.fmt && r.one_in(4) { Sch::Fmt } else { Sch::Str(r.coin()) }, Val::Str(text(r, k))) }
        3 if g.bytes => { let k = n(r, 70_000); let m = r.below(3); (Sch::Bytes(r.coin()), Val::Bytes((0..k).map(|i| match m { 0 => r.next() as u8, 1 => i as u8, _ => b'a' }).collect())) }
        4 | 5 => { let s = scalar(r, g); let k = n(r, 30_000); let lim = LEFT.with(|x| x.replace(0)); let v = (0..k).map(|_| value(r, &s, &mut 0)).collect(); LEFT.with(|x| x.set(lim)); (Sch::Seq(b(s)), Val::Seq(v)) }
        6 => { let k = n(r, 3_000); let s = r.below(3);
            let e = scalar(r, g);
            let v = (0..k).map(|i| (match s { 0 => Val::U(i as u64), 1 => Val::I(i as i64 - 50), _ => Val::Str(format!("k{i}")) }, value(r, &e, &mut 0))).collect();
            (Sch::Map(b(match s { 0 => Sch::U32, 1 => Sch::I64, _ => Sch::Str(true) }), b(e)), Val::Map(v)) }
        7 => { let k = n(r, 140_000); (Sch::Map(b(Sch::Str(true)), b(Sch::U8)), Val::Map(vec![(Val::Str(text(r, k)), Val::U(1)), (Val::Str("z".into()), Val::U(2))])) }
        8 | 9 => { let (f, t, v) = wide(r, g); (Sch::Struct(f, t), Val::Seq(v)) }
        10 => { // many variants, a late one chosen, a wide payload
            let k = if tiny { 20 } else { r.range(100, 600) };
            let i = if r.coin() { k - 1 - r.below(5) } else { r.below(k) };
            let mut vs = vec![Var::Unit; k];
            let p = match r.below(4) { 0 => vec![], 1 => { let (s, v) = small(r, g); vs[i] = Var::New(s); vec![v] } 2 => { let (_, t, v) = wide(r, g); vs[i] = Var::Tup(t); v } _ => { let (f, t, v) = wide(r, g); vs[i] = Var::Struct(f, t); v } };
            (Sch::Enum(names(r, k), vs), Val::Enum(i as u32, p))
        }
        11 => { let (_, t, v) = wide(r, g); if r.coin() { (Sch::Tuple(t), Val::Seq(v)) } else { (Sch::TupStruct(t), Val::Seq(v)) } }
        12 => { // deep
            let mut x = if r.coin() { (Sch::Str(false), Val::Str(gen_str(r))) } else { (Sch::U16, Val::U(r.next() & 0xffff)) };
            for _ in 0..if tiny { 10 } else { r.range(20, 130) } {
                x = match r.below(4) {
                    0 => (Sch::Newtype(b(x.0)), Val::New(Box::new(x.1))),
                    1 => (Sch::Seq(b(x.0)), Val::Seq(vec![x.1])),
                    2 => (Sch::Tuple(vec![x.0, Sch::Bool]), Val::Seq(vec![x.1, Val::Bool(true)])),
                    _ => (Sch::Struct(&["inner"], vec![x.0]), Val::Seq(vec![x.1])),
                }
            }
            x
        }
        _ => { let k = n(r, 5_000); let each = r.range(0, 40); (Sch::Seq(b(Sch::Str(r.coin()))), Val::Seq((0..k).map(|_| Val::Str(text(r, each))).collect())) }
    }
}
/// more fields than a byte counts, most of the time
fn wide(r: &mut Rng, g: Gen) -> (Names, Vec<Sch>, Vec<Val>) {
    let k = if crate::util::tiny() { r.range(14, 20) } else { match r.below(5) { 0 => r.range(14, 40), 1 => r.range(125, 135), _ => r.range(250, 600) } };
    let left = LEFT.with(|x| x.replace(0));
    let (t, v) = (0..k).map(|i| {
        let s = scalar(r, g);
        let s = if r.one_in(4) && !nullable(&s, g.json) { Sch::Opt(Box::new(s)) } else { s };
        let v = value(r, &s, &mut if i % 16 == 0 { 2 } else { 0 });
        (s, v)
    }).unzip();
    LEFT.with(|x| x.set(left));
    (names(r, k), t, v)
}
/// a value with something long at some place in it
pub fn scaled(r: &mut Rng, g: Gen) -> (Sch, Val) {
    let b = |s: Sch| Box::new(s);
    let (mut s, mut v) = core(r, g);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
        (s, v) = match r.below(9) {
            0..=2 => {
                let (mut t, mut x) = (vec![], vec![]);
                for _ in 0..r.below(4) { let (a, w) = small(r, g); t.push(a); x.push(w) }
                t.push(s); x.push(v);
                for _ in 0..r.below(4) { let (a, w) = small(r, g); t.push(a); x.push(w) }
                match r.below(5) {
                    0 => (Sch::TupStruct(t), Val::Seq(x)),
                    1 => { let k = r.range(1, 4); let i = r.below(k); let mut vs = vec![Var::Unit; k]; vs[i] = if r.coin() { Var::Tup(t) } else { Var::Struct(names(r, t.len()), t) }; (Sch::Enum(names(r, k), vs), Val::Enum(i as u32, x)) }
                    2 | 3 => (Sch::Struct(names(r, t.len()), t), Val::Seq(x)),
                    _ => (Sch::Tuple(t), Val::Seq(x)),
                }
            }
            3 if !nullable(&s, g.json) => (Sch::Opt(b(s)), Val::Some(Box::new(v))),
            4 => (Sch::Newtype(b(s)), Val::New(Box::new(v))),
            5 => { let k = r.range(1, 3); (Sch::Seq(b(s)), Val::Seq(vec![v; k])) }
            6 => (Sch::Map(b(Sch::Str(true)), b(s)), Val::Map(vec![(Val::Str(gen_str(r)), v)])),
            7 => { let n = names(r, 3); let i = r.below(3); let mut vs = vec![Var::Unit; 3]; vs[i] = Var::New(s); (Sch::Enum(n, vs), Val::Enum(i as u32, vec![v])) }
            _ => (s, v),
        }
    }
    (s, v)
}
