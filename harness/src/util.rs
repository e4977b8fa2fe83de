//! Shared pieces of the checks: monitored decoding runs, verdicts against the references, mutators.
use crate::any::*;
use crate::jref::{self, Cert, J};
use crate::model::*;
use crate::mref;
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use std::sync::OnceLock;

pub static CFG: OnceLock<String> = OnceLock::new();
/// keep generated data small; the same decision in all configurations that are compared with each other
pub fn tiny() -> bool { TINY.load(std::sync::atomic::Ordering::Relaxed) }
/// the tier whose cases an interpreter runs
pub static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn cfg_is(p: &str) -> bool { CFG.get().is_some_and(|c| c.starts_with(p)) }

pub fn n(t: Tier, q: u64, th: u64, mi: u64) -> u64 { match t { Tier::Quick => (q * 5).min(th), Tier::Thorough => th, Tier::Miri => mi } }
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(600) { for e in std::ascii::escape_default(*c) { s.push(e as char) } }
    if b.len() > 600 { s.push_str(&format!("… ({} bytes)", b.len())) }
    s
}
pub fn hex(b: &[u8]) -> String {
    let mut s = b.iter().take(300).map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ");
    if b.len() > 300 { s.push_str(&format!(" … ({} bytes)", b.len())) }
    s
}
pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 700 { let mut n = 700; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); s.push('…') }
    s
}

// ---------------------------------------------------------------- monitored runs
pub type JRes = Result<Val, ser_write_json::de::Error>;
/// Decode with canaries around the buffer and every lent slice checked.
pub fn jrun(s: &Sch, m: BM, b: &[u8]) -> Result<JRes, String> { Ok(jrun_n(s, m, b)?.0) }
pub fn jrun_n(s: &Sch, m: BM, b: &[u8]) -> Result<(JRes, usize), String> {
    let mut g = Guard::new(b);
    let rec = Rec::default();
    let base = g.buf().as_ptr() as usize;
    let r = with_schema(s, &rec, || jde::<Dyn>(m, g.buf()).map(|d| d.0));
    if !g.intact() { return Err(format!("bytes outside the input were modified while decoding {:?} as {}", show(b), short(s))) }
    // what was lent is only guaranteed to be stable for as long as the result may borrow from it: also on success only
    let l = check_lent(&rec, base, g.buf()).map_err(|e| format!("{e}; decoding {:?} as {} ({m:?})", show(b), short(s)))?;
    Ok((r, l))
}
pub type MRes = Result<(Val, usize), ser_write_msgpack::de::Error>;
pub fn mrun(s: &Sch, b: &[u8]) -> Result<MRes, String> { Ok(mrun_n(s, b)?.0) }
pub fn mrun_n(s: &Sch, b: &[u8]) -> Result<(MRes, usize), String> {
    let rec = Rec::default();
    let r = with_schema(s, &rec, || mde::<Dyn>(b).map(|(d, n)| (d.0, n)));
    let l = check_lent(&rec, b.as_ptr() as usize, b).map_err(|e| format!("{e}; decoding {} as {}", hex(b), short(s)))?;
    if let Ok((_, n)) = &r { if *n > b.len() { return Err(format!("consumed {n} of {} bytes", b.len())) } }
    Ok((r, l))
}
fn verdict<E: std::fmt::Debug>(c: &mut Ctx, want: &Option<(Val, Cert)>, got: Result<&Val, &E>, fe: FEq, what: impl Fn() -> String) -> R {
    c.eval();
    match (want, got) {
        (None, Err(_)) => { c.count("rejected as required", 1); Ok(()) }
        (None, Ok(v)) => Err(format!("accepted as {} but has to be rejected: {}", short(v), what())),
        (Some((_, Cert::Free)), _) => { c.count("no opinion", 1); Ok(()) }
        (Some((_, Cert::May)), Err(_)) => { c.count("optional, rejected", 1); Ok(()) }
        (Some((w, Cert::Must)), Err(e)) => Err(format!("rejected ({e:?}) but denotes {}: {}", short(w), what())),
        (Some((w, _)), Ok(v)) => if w.eq(v, fe) { c.count("decoded as required", 1); Ok(()) } else { Err(format!("decoded as {} instead of {}: {}", short(v), short(w), what())) },
    }
}
/// Decode `b` as `s` and compare with the reference.
pub fn jcheck(c: &mut Ctx, s: &Sch, m: BM, b: &[u8]) -> R {
    let want = jref::decode_text(s, b, m);
    let got = jrun(s, m, b)?;
    verdict(c, &want, got.as_ref(), FEq::Json, || format!("{:?} as {} ({m:?})", show(b), short(s)))
}
/// Decode `b` into a generic tree and compare with the reference.
pub fn jcheck_any(c: &mut Ctx, m: BM, b: &[u8]) -> R {
    let p = jref::parse(b);
    let mut g = Guard::new(b);
    let (res, canon_ok) = {
        let base = g.buf().as_ptr() as usize;
        let n = b.len();
        match jde::<Any>(m, g.buf()) {
            Ok(a) => { let r = lent_inside(&a, base, n); (Ok(a), r) }
            Err(e) => (Err(e), Ok(0)),
        }
    };
    c.eval();
    let what = || format!("{:?} as a generic tree", show(b));
    canon_ok.map_err(|e| format!("{e}: {}", what()))?;
    let v = match (&p, res) {
        (Err(_), Ok(a)) => Err(format!("malformed text accepted as {}: {}", short(&a), what())),
        (Err(_), Err(_)) => { c.count("rejected as required", 1); Ok(()) }
        (Ok(p), r) => match (any_verdict(&p.j), r) {
            (Some(true), Ok(a)) => Err(format!("accepted as {} but has to be rejected: {}", short(&a), what())),
            (Some(false), Err(e)) => Err(format!("rejected ({e:?}): {}", what())),
            (Some(false), Ok(a)) => { c.count("decoded as required", 1); same_json(&a, &p.j).map_err(|e| format!("{e}: {}", what())) }
            (None, Ok(a)) => { c.count("no opinion on number spelling", 1); same_json(&a, &p.j).map_err(|e| format!("{e}: {}", what())) }
            _ => { c.count("rejected as required", 1); Ok(()) }
        },
    };
    if !g.intact() { return Err(format!("bytes outside the input were modified: {}", what())) }
    v
}
/// The slices held by a live tree are inside the input and disjoint.
pub fn lent_inside(a: &Any, base: usize, n: usize) -> Result<usize, String> {
    let mut l = vec![];
    a.lent(&mut l);
    let mut r: Vec<(usize, usize)> = vec![];
    for x in &l {
        let p = x.as_ptr() as usize;
        if p < base || p + x.len() > base + n { return Err("lent slice outside the input".into()) }
        if !x.is_empty() { r.push((p, x.len())) }
    }
    r.sort();
    for w in r.windows(2) { if w[0].0 + w[0].1 > w[1].0 { return Err("lent slices overlap".into()) } }
    Ok(l.len())
}
pub fn mcheck(c: &mut Ctx, s: &Sch, b: &[u8]) -> R {
    let want = mref::decode(s, b);
    let got = mrun(s, b)?;
    let w2 = want.as_ref().map(|(v, c, _)| (v.clone(), *c));
    let what = || format!("{} as {}", hex(b), short(s));
    verdict(c, &w2, got.as_ref().map(|x| &x.0), FEq::Num, what)?;
    if let (Some((_, ce, n)), Ok((_, k))) = (&want, &got) {
        if *ce != Cert::Free && n != k { return Err(format!("consumed {k} bytes instead of {n}: {}", what())) }
    }
    Ok(())
}
pub fn mcheck_any(c: &mut Ctx, b: &[u8]) -> R {
    let p = mref::parse(b);
    let r = mde::<Any>(b);
    c.eval();
    let what = || format!("{} as a generic tree", hex(b));
    if let Ok((a, _)) = &r { lent_inside(a, b.as_ptr() as usize, b.len()).map_err(|e| format!("{e}: {}", what()))?; }
    match (p, r) {
        (Err(_), Ok((a, _))) => Err(format!("invalid message accepted as {}: {}", short(&a), what())),
        (Err(_), Err(_)) => { c.count("rejected as required", 1); Ok(()) }
        (Ok((m, _, _)), Ok((a, _))) if any_rejects(&m) => Err(format!("accepted as {} but has to be rejected: {}", short(&a), what())),
        (Ok((m, _, _)), Err(e)) => if any_rejects(&m) { c.count("rejected as required", 1); Ok(()) } else { Err(format!("rejected ({e:?}): {}", what())) },
        (Ok((m, n, _)), Ok((a, k))) => {
            c.count("decoded as required", 1);
            if n != k { return Err(format!("consumed {k} bytes instead of {n}: {}", what())) }
            same_msgpack(&a, &m).map_err(|e| format!("{e}: {}", what()))
        }
    }
}

// ---------------------------------------------------------------- typed value generation
pub fn jval(rng: &mut Rng) -> (Sch, Val) { typed(rng, GJ, 4) }
pub fn mval(rng: &mut Rng) -> (Sch, Val) { typed(rng, GM, 4) }
pub fn typed(rng: &mut Rng, g: Gen, d: usize) -> (Sch, Val) {
    if crate::big::is_on() && rng.below(4) > 0 { return crate::big::scaled(rng, g) }
    let d = if rng.one_in(6) { 0 } else { rng.range(1, d) };
    let s = schema(rng, g, d);
    let mut budget = *rng.pick(&[10, 40, 120, 400]);
    if tiny() { budget = 25 }
    let v = value(rng, &s, &mut budget);
    (s, v)
}
pub fn bm(rng: &mut Rng) -> BM { *rng.pick(&BMS) }
pub fn fl(rng: &mut Rng) -> Fl { *rng.pick(&FLS) }

/// Break (or at least change) a JSON text.
pub fn mutate_json(rng: &mut Rng, b: &mut Vec<u8>) {
    const TOK: &[&[u8]] = &[b"[", b"]", b"{", b"}", b",", b":", b"\"", b"\\", b" ", b"null", b"true", b"false", b"0", b"1", b"-", b"+", b".", b"e", b"\\u", b"\\ud83d", b"\\ude00", b"\x00", b"\x1f", b"\n", b"\xff", b"\xc3", b"nul", b"tru", b"\\x", b"=", b"//", b"\xef\xbb\xbf", b"00", b"1e5", b"NaN", b"'", b"\x7f", b"\xed\xa0\x80", b",]", b",}", b"[]", b"{}", b"\"\""];
    let n = b.len();
    match rng.below(13) {
        0 if n > 0 => b.truncate(rng.below(n)),
        1 if n > 0 => { b.remove(rng.below(n)); }
        2 if n > 0 => { let i = rng.below(n); let c = b[i]; b.insert(i, c) }
        3 | 4 => { let i = rng.below(n + 1); let t = rng.pick(TOK).to_vec(); b.splice(i..i, t); }
        5 if n > 0 => { let i = rng.below(n); b[i] = rng.next() as u8 }
        6 if n > 0 => { let i = rng.below(n); let t = rng.pick(TOK).to_vec(); b.splice(i..i + 1, t); }
        7 if n > 1 => { let i = rng.below(n - 1); b.swap(i, i + 1) }
        8 | 9 if n > 0 => { // hit a structural byte
            let p: Vec<usize> = b.iter().enumerate().filter(|(_, c)| matches!(c, b'[' | b']' | b'{' | b'}' | b',' | b':' | b'"' | b'\\')).map(|x| x.0).collect();
            if p.is_empty() { return }
            let i = *rng.pick(&p);
            match rng.below(4) { 0 => { b.remove(i); } 1 => { let c = b[i]; b.insert(i, c) } 2 => b[i] = *rng.pick(b"[]{},:\"\\ "), _ => { let t = rng.pick(TOK).to_vec(); b.splice(i..i, t); } }
        }
        10 => { let t = rng.pick(TOK).to_vec(); b.extend(t) }
        11 if n > 1 => { let i = rng.below(n); let j = rng.range(i, n - 1).min(i + 20); let t = b[i..=j].to_vec(); let k = rng.below(n); b.splice(k..k, t); }
        _ if n > 0 => { let i = rng.below(n); b[i] ^= 1 << rng.below(8) }
        _ => b.push(rng.next() as u8),
    }
}
/// Change a MessagePack message.
pub fn mutate_mp(rng: &mut Rng, b: &mut Vec<u8>) {
    const MK: &[u8] = &[0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x00, 0x7f];
    let n = b.len();
    match rng.below(9) {
        0 if n > 0 => b.truncate(rng.below(n)),
        1 if n > 0 => { b.remove(rng.below(n)); }
        2 => { let i = rng.below(n + 1); b.insert(i, *rng.pick(MK)) }
        3 | 4 if n > 0 => { let i = rng.below(n.min(24)); b[i] = *rng.pick(MK) }
        5 if n > 0 => { let i = rng.below(n); b[i] = *rng.pick(MK) }
        6 if n > 0 => { let i = rng.below(n); b[i] ^= 1 << rng.below(8) }
        7 if n > 0 => { let i = rng.below(n); b[i] = b[i].wrapping_add(1).wrapping_sub(2 * rng.below(2) as u8) }
        _ => b.push(rng.next() as u8),
    }
}
pub fn random_json_soup(rng: &mut Rng, n: usize) -> Vec<u8> {
    const TOK: &[&[u8]] = &[b"[", b"]", b"{", b"}", b",", b":", b"\"", b"\"a\"", b"\"\\n\"", b"\\", b" ", b"null", b"true", b"false", b"0", b"12", b"-7", b"255", b"256", b"1.5", b"e", b"\"QUJD\"", b"\"4142\"", b"\"f0\":", b"\"f1\"", b"\\u00e9", b"\\ud83d\\ude00", b"\\ud800", b"\xc3\xa9", b"\xff", b"\x01", b"=", b"[[", b"]]", b"[1,2,3]"];
    let mut b = vec![];
    while b.len() < n { b.extend_from_slice(rng.pick(TOK)) }
    b
}
pub fn is_struct(j: &J) -> bool { matches!(j, J::Arr(_) | J::Obj(_)) }
