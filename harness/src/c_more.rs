//! Checks of the deserializers as readers of a stream: successive JSON values (J11), truncated input (X04).
use crate::any::*;
use crate::c_json::*;
use crate::jref::{self, *};
use crate::model::*;
use crate::mref::{self, gen_tree, mstyle, Enc};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::util::*;
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::Deserialize;
use ser_write_json::de as jd;
use ser_write_msgpack::de as md;

// ================================================================ J11
fn wsp(r: &mut Rng, o: &mut Vec<u8>, least: usize) { let n = if let Some(n) = crate::big::take(r, 8, 20_000) { n } else if r.one_in(3) { r.below(9) } else { 0 }.max(least); for _ in 0..n { o.push(*r.pick(b" \n\t\r")) } }
fn j11_stream(c: &mut Ctx) -> R {
    match c.idx % 3 { 0 => j11_run::<jd::StringByteNopeDecoder>(c, BM::Arr), 1 => j11_run::<jd::StringByteHexDecoder>(c, BM::Hex), _ => j11_run::<jd::StringByteBase64Decoder>(c, BM::B64) }
}
/// the value, where it ends, whether it closes itself
struct Item { s: Sch, v: Val, j: J, start: usize, end: usize, how: usize }
fn j11_run<P: for<'x> jd::StringByteDecoder<'x>>(c: &mut Ctx, m: BM) -> R {
    let k = if tiny() { c.rng.range(1, 3) } else { c.rng.range(1, 9) };
    let mut o = vec![];
    let mut items: Vec<Item> = vec![];
    wsp(&mut c.rng, &mut o, 0);
    for i in 0..k {
        let s = if c.rng.one_in(3) { scalar(&mut c.rng, GJ) } else { schema(&mut c.rng, GJ, 3) };
        let mut bu = if tiny() { 6 } else { 20 };
        let v = value(&mut c.rng, &s, &mut bu);
        let st = style(&mut c.rng);
        let d = jref::render(&mut c.rng, st, m, &s, &v);
        // the text around the value is chosen here
        let a = d.iter().position(|b| !b" \n\t\r".contains(b)).unwrap_or(0);
        let z = d.iter().rposition(|b| !b" \n\t\r".contains(b)).map_or(0, |x| x + 1);
        let j = jref::parse(&d[a..z]).map_err(|e| format!("reference cannot read {:?}", show(&d)))?.j;
        let start = o.len();
        o.extend_from_slice(&d[a..z]);
        let end = o.len();
        let least = if matches!(o[end - 1], b'"' | b']' | b'}') || i + 1 == k { 0 } else { 1 };
        wsp(&mut c.rng, &mut o, least);
        items.push(Item { s, v, j, start, end, how: c.rng.below(7) });
    }
    // what follows the last value
    let junk = c.rng.one_in(3);
    let mut bad = false;
    if junk {
        if items[k - 1].end == o.len() && !matches!(o[o.len() - 1], b'"' | b']' | b'}') { o.push(b'\n') }
        let t: &[u8] = c.rng.pick(&[&b","[..], b"]", b"}", b"x", b"0", b"\"", b"null", b"\0", b"\xa0", b"\x0b", b"\xef\xbb\xbf", b"//", b":", b"[", b"\x0c", b"-", b"\x7f", b"\x85"]);
        o.extend_from_slice(t);
        bad = !matches!(t[0], b'x' | b'0' | b'"' | b'n' | b'[' | b'-');
        wsp(&mut c.rng, &mut o, 0);
    }
    c.seen(&o);
    c.sample(|| format!("{k} values in {:?}, read as {:?}", show(&o), items.iter().map(|x| x.how).collect::<Vec<_>>()));
    let rec = Rec::default();
    let mut g = Guard::new(&o);
    let base = g.buf().as_ptr() as usize;
    let what = |i: usize| format!("value {i} at {} of {:?} ({m:?}) as {}", items[i].start, show(&o), match items[i].how { 0 => "ignored".into(), 1 => "a generic tree".into(), _ => short(&items[i].s) });
    let mut trees = vec![];
    {
        let mut de = jd::Deserializer::<P>::from_mut_slice(g.buf());
        for (i, it) in items.iter().enumerate() {
            c.evals(2);
            match it.how {
                0 => { IgnoredAny::deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what(i)))?; }
                1 => match any_verdict(&it.j) {
                    Some(false) => trees.push((i, Any::deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what(i)))?)),
                    _ => { IgnoredAny::deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what(i)))?; }
                },
                _ => {
                    let r = Seed { s: &it.s, rec: &rec }.deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what(i)))?;
                    if !it.v.eq(&r, FEq::Json) { return Err(format!("read as {} instead of {}: {}", short(&r), short(&it.v), what(i))) }
                }
            }
            let left = o.len() - it.end;
            if de.remaining_len() != left { return Err(format!("{} bytes are left instead of {left}: {}", de.remaining_len(), what(i))) }
            if left > 0 && de.peek() != Ok(o[it.end]) { return Err(format!("the next byte is {:?} instead of {:?}: {}", de.peek(), o[it.end] as char, what(i))) }
            c.count("values read off one deserializer", 1);
        }
        c.eval();
        // whatever follows is no value: reading on is an error, and end-of-input exactly where there is nothing more
        if c.rng.one_in(3) && (!junk || bad) {
            let how = c.rng.below(3);
            let e = match how { 0 => IgnoredAny::deserialize(&mut de).err(), 1 => Any::deserialize(&mut de).err(), _ => { let s = scalar(&mut c.rng, GJ); if matches!(s, Sch::Ignore) { IgnoredAny::deserialize(&mut de).err() } else { Seed { s: &s, rec: &Rec::default() }.deserialize(&mut de).err() } } };
            match (junk, e) { (false, Some(jd::Error::UnexpectedEof)) => c.count("nothing more to read", 1), (true, Some(x)) if x != jd::Error::UnexpectedEof => c.count("reading on refused", 1), (_, x) => return Err(format!("reading on ({how}) gives {x:?} behind {}", what(k - 1))) }
        } else { match (junk, de.end()) { (false, Ok(())) => c.count("ended", 1), (true, Err(jd::Error::TrailingCharacters)) => c.count("trailing text reported", 1), (_, x) => return Err(format!("end() gives {x:?} behind {}", what(k - 1))) } }
        // the trees still hold what they held when they were made
        for (i, t) in &trees {
            c.eval();
            same_json(t, &items[*i].j).map_err(|e| format!("{e}: {}", what(*i)))?;
            lent_inside(t, base, o.len())?;
        }
    }
    if !g.intact() { return Err(format!("bytes outside the input were modified: {:?}", show(&o))) }
    let l = check_lent(&rec, base, g.buf()).map_err(|e| format!("{e}; {:?} ({m:?})", show(&o)))?;
    c.count("slices lent and re-checked at the end", l as u64);
    Ok(())
}
/// lines of one derived type, as in a log
fn j11_lines(c: &mut Ctx) -> R {
    let k = if tiny() { 2 } else { c.rng.range(1, 12) };
    let m = bm(&mut c.rng);
    let mut docs = vec![];
    let mut o = vec![];
    for _ in 0..k {
        let d = crate::types::doc(&mut c.rng, 1);
        o.extend(jser(m, &d).map_err(|e| format!("{e:?}"))?);
        docs.push((d, o.len()));
        let sep: &[u8] = c.rng.pick(&[&b"\n"[..], b"", b"\r\n", b" "]);
        o.extend_from_slice(sep);
    }
    c.seen(&o);
    fn go<P: for<'x> jd::StringByteDecoder<'x>>(c: &mut Ctx, docs: &[(crate::types::Doc, usize)], mut o: Vec<u8>) -> R {
        let len = o.len();
        let was = o.clone();
        let mut de = jd::Deserializer::<P>::from_mut_slice(&mut o);
        for (i, (d, end)) in docs.iter().enumerate() {
            c.evals(2);
            let what = || format!("line {i} of {:?}", show(&was));
            if c.rng.one_in(4) { IgnoredAny::deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what()))?; }
            else {
                let r = crate::types::Doc::deserialize(&mut de).map_err(|e| format!("{e:?}: {}", what()))?;
                if r != *d { return Err(format!("{} instead of {}: {}", short(&r), short(d), what())) }
            }
            if de.remaining_len() != len - end { return Err(format!("{} bytes left instead of {}: {}", de.remaining_len(), len - end, what())) }
        }
        de.end().map_err(|e| format!("end() gives {e:?} on {:?}", show(&was)))
    }
    match m { BM::Hex => go::<jd::StringByteHexDecoder>(c, &docs, o), BM::B64 => go::<jd::StringByteBase64Decoder>(c, &docs, o), _ => go::<jd::StringByteNopeDecoder>(c, &docs, o) }
}
/// a run of numbers and literals read one by one: whatever the type, the cursor is behind the lexeme
fn j11_tokens(c: &mut Ctx) -> R {
    let k = c.rng.range(1, 30);
    let mut o = vec![];
    let mut at = vec![];
    for _ in 0..k {
        wsp(&mut c.rng, &mut o, 1);
        let n = gen_i64(&mut c.rng, 64);
        let t = match c.rng.below(6) { 0 => "true".to_string(), 1 => "false".into(), 2 => "null".into(), 3 => format!("{}", n as u64), 4 => n.to_string(), _ => format!("{:e}", gen_f64(&mut c.rng)) };
        let t = if t.contains("NaN") || t.contains("inf") { "0".into() } else { t };
        o.extend_from_slice(t.as_bytes());
        at.push((t, o.len()));
    }
    c.seen(&o);
    let was = o.clone();
    let len = o.len();
    let mut de = jd::Deserializer::<jd::StringByteNopeDecoder>::from_mut_slice(&mut o);
    for (t, end) in &at {
        c.evals(2);
        let e = |x: jd::Error| format!("{x:?} on {t} in {:?}", show(&was));
        let ok = match (&t[..], c.rng.below(4)) {
            (_, 0) => IgnoredAny::deserialize(&mut de).map_err(e).map(|_| true)?,
            (_, 1) => { let a = Any::deserialize(&mut de).map_err(e)?; same_json(&a, &jref::parse(t.as_bytes()).unwrap().j)?; true }
            ("true" | "false", _) => bool::deserialize(&mut de).map_err(e)? == (t == "true"),
            ("null", 2) => Option::<u8>::deserialize(&mut de).map_err(e)?.is_none(),
            ("null", _) => <()>::deserialize(&mut de).map_err(e).map(|_| true)?,
            (_, 2) => f64::deserialize(&mut de).map_err(e)?.to_bits() == t.parse::<f64>().unwrap().to_bits(),
            _ => match (t.parse::<u64>(), t.parse::<i64>()) {
                (Ok(n), _) => Some(n) == Option::<u64>::deserialize(&mut de).map_err(e)?,
                (_, Ok(n)) => n == i64::deserialize(&mut de).map_err(e)?,
                _ => f64::deserialize(&mut de).map_err(e)?.to_bits() == t.parse::<f64>().unwrap().to_bits(),
            },
        };
        if !ok { return Err(format!("{t} in {:?} is read as something else", show(&was))) }
        if de.remaining_len() != len - end { return Err(format!("{} bytes left instead of {} behind {t} in {:?}", de.remaining_len(), len - end, show(&was))) }
    }
    de.end().map_err(|e| format!("end() gives {e:?} on {:?}", show(&was)))
}
pub fn j11(t: Tier) -> Vec<Workload> {
    vec![wl("values", n(t, 60_000, 6_000_000, 20), j11_stream), wl("lines", n(t, 10_000, 600_000, 3), j11_lines), wl("tokens", n(t, 40_000, 3_000_000, 6), j11_tokens), wl("scale", n(t, 300, 40000, 1), |c| crate::big::on(c, j11_stream))]
}

// ================================================================ X04
/// Is the text cut inside a number or inside an escaped surrogate pair?
fn exempt(doc: &[u8], k: usize) -> bool {
    let num = |b: u8| matches!(b, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E');
    // cheap over-approximation of "inside a number": number characters on both sides of the cut, outside strings
    let mut i = 0;
    let mut instr = false;
    let mut start = 0;
    while i < k { if instr { if doc[i] == b'\\' { i += 1 } else if doc[i] == b'"' { instr = false } } else if doc[i] == b'"' { instr = true; start = i + 1 } i += 1 }
    if !instr { return k > 0 && num(doc[k - 1]) && num(doc[k]) }
    // inside a string: the last complete \u escape is a high surrogate whose partner is not complete
    let t = &doc[start..k];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'\\' { i += 1; continue }
        if t.get(i + 1) == Some(&b'u') {
            let Some(h) = t.get(i + 2..i + 6) else { return false };
            let h = u32::from_str_radix(std::str::from_utf8(h).unwrap_or("0"), 16).unwrap_or(0);
            if (0xd800..0xdc00).contains(&h) { if i + 12 > t.len() { return true } i += 12 } else { i += 6 }
        } else { i += 2 }
    }
    false
}
fn x04_jprefix(c: &mut Ctx) -> R {
    let (s, v) = if c.rng.one_in(4) { (lendable(&mut c.rng, 3), None) } else { let (s, v) = jval(&mut c.rng); (s, Some(v)) };
    let mut bu = 40;
    let v = v.unwrap_or_else(|| value(&mut c.rng, &s, &mut bu));
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let doc = jref::render(&mut c.rng, st, m, &s, &v);
    c.seen(&doc);
    let anyok = jref::parse(&doc).is_ok_and(|p| any_verdict(&p.j) == Some(false));
    let step = 1 + doc.len() / if tiny() { 6 } else { 60 };
    let mut k = c.rng.below(step.min(doc.len()));
    let what = |k: usize| format!("{:?}, cut after {k} bytes ({m:?}) as {}", show(&doc), short(&s));
    while k < doc.len() {
        let p = &doc[..k];
        let at = k;
        k += step;
        if jref::parse(p).is_ok() || exempt(&doc, at) { c.count("cut where it proves nothing", 1); continue }
        c.evals(3);
        c.count("cuts", 1);
        match jrun(&s, m, p)? { Err(jd::Error::UnexpectedEof) => {} x => return Err(format!("{}: {}", short(&x), what(at))) }
        let mut t = p.to_vec();
        match jde::<IgnoredAny>(m, &mut t) { Err(jd::Error::UnexpectedEof) => {} x => return Err(format!("ignoring gives {:?}: {}", x.map(|_| ()), what(at))) }
        if !anyok { continue }
        let mut t = p.to_vec();
        match jde::<Any>(m, &mut t) { Err(jd::Error::UnexpectedEof) => {} x => return Err(format!("a generic tree gives {}: {}", short(&x), what(at))) }
    }
    Ok(())
}
fn x04_jwhole(c: &mut Ctx) -> R {
    let (s2, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let doc = if c.rng.one_in(3) { let mut r = Ren { rng: &mut c.rng, st, o: vec![], m, flt: None }; r.any(4); r.o } else { jref::render(&mut c.rng, st, m, &s2, &v) };
    c.seen(&doc);
    for m in BMS {
        let s = if c.rng.coin() { jval(&mut c.rng).0 } else { near(&mut c.rng, &s2) };
        c.evals(3);
        let r = jrun(&s, m, &doc)?;
        if let Err(jd::Error::UnexpectedEof) = r { return Err(format!("the complete text {:?} as {} ({m:?}) is reported as cut off", show(&doc), short(&s))) }
        c.count(if r.is_ok() { "accepted" } else { "rejected otherwise" }, 1);
        let mut t = doc.clone();
        if let Err(jd::Error::UnexpectedEof) = jde::<IgnoredAny>(m, &mut t) { return Err(format!("the complete text {:?}, ignored, is reported as cut off", show(&doc))) }
        let mut t = doc.clone();
        if let Err(jd::Error::UnexpectedEof) = jde::<Any>(m, &mut t) { return Err(format!("the complete text {:?} as a generic tree is reported as cut off", show(&doc))) }
    }
    Ok(())
}
/// a schema that differs from `s` in a detail
fn near(r: &mut Rng, s: &Sch) -> Sch {
    let b = |s: Sch| Box::new(s);
    if r.one_in(4) { return if r.coin() { scalar(r, GJ) } else { schema(r, GJ, 2) } }
    match s {
        Sch::Seq(x) => Sch::Seq(b(near(r, x))),
        Sch::Opt(x) => Sch::Opt(b(near(r, x))),
        Sch::Newtype(x) => Sch::Newtype(b(near(r, x))),
        Sch::Map(k, v) => if r.coin() { Sch::Map(b(near(r, k)), v.clone()) } else { Sch::Map(k.clone(), b(near(r, v))) },
        Sch::Tuple(v) => { let mut v = v.clone(); tw(r, &mut v); Sch::Tuple(v) }
        Sch::Struct(n, v) => { let mut v = v.clone(); if !v.is_empty() { let i = r.below(v.len()); v[i] = near(r, &v[i].clone()) } Sch::Struct(n, v) }
        Sch::Enum(n, vs) => {
            let mut vs = vs.clone();
            let i = r.below(vs.len());
            vs[i] = match &vs[i] { Var::New(x) => if r.coin() { Var::New(near(r, x)) } else { Var::Unit }, Var::Tup(v) => { let mut v = v.clone(); tw(r, &mut v); Var::Tup(v) } Var::Unit => Var::New(Sch::Unit), x => x.clone() };
            Sch::Enum(n, vs)
        }
        _ => scalar(r, GJ),
    }
}
fn tw(r: &mut Rng, v: &mut Vec<Sch>) {
    match r.below(4) { 0 => v.push(Sch::U8), 1 => { v.pop(); } _ => if !v.is_empty() { let i = r.below(v.len()); v[i] = near(r, &v[i].clone()) } }
}
fn x04_mprefix(c: &mut Ctx) -> R {
    let (s, v) = mval(&mut c.rng);
    let st = mstyle(&mut c.rng);
    let o = mref::render(&mut c.rng, st, &s, &v);
    c.seen(&o);
    let anyok = mref::parse(&o).is_ok_and(|p| !any_rejects(&p.0));
    let step = 1 + o.len() / if tiny() { 6 } else { 80 };
    let mut k = c.rng.below(step.min(o.len()));
    let what = |k: usize| format!("the {k}-byte prefix of {} as {}", hex(&o), short(&s));
    while k < o.len() {
        let p = &o[..k];
        c.evals(3);
        c.count("cuts", 1);
        match mrun(&s, p)? { Err(md::Error::UnexpectedEof) => {} x => return Err(format!("{}: {}", short(&x), what(k))) }
        match mde::<IgnoredAny>(p) { Err(md::Error::UnexpectedEof) => {} x => return Err(format!("ignoring gives {:?}: {}", x.map(|x| x.1), what(k))) }
        if anyok { match mde::<Any>(p) { Err(md::Error::UnexpectedEof) => {} x => return Err(format!("a generic tree gives {}: {}", short(&x), what(k))) } }
        k += step;
    }
    Ok(())
}
fn x04_mwhole(c: &mut Ctx) -> R {
    let (s2, v) = mval(&mut c.rng);
    let st = mstyle(&mut c.rng);
    let o = if c.rng.one_in(3) { let m = gen_tree(&mut c.rng, 3, true); let mut e = Enc { o: vec![], rng: Some(&mut c.rng), fix1: false }; e.tree(&m); e.o } else { mref::render(&mut c.rng, st, &s2, &v) };
    c.seen(&o);
    for _ in 0..3 {
        let s = if c.rng.coin() { mval(&mut c.rng).0 } else { near(&mut c.rng, &s2) };
        c.evals(1);
        let r = mrun(&s, &o)?;
        if let Err(md::Error::UnexpectedEof) = r { return Err(format!("the complete message {} as {} is reported as cut off", hex(&o), short(&s))) }
        c.count(if r.is_ok() { "accepted" } else { "rejected otherwise" }, 1);
    }
    c.evals(2);
    if let Err(md::Error::UnexpectedEof) = mde::<Any>(&o) { return Err(format!("the complete message {} as a generic tree is reported as cut off", hex(&o))) }
    if let Err(md::Error::UnexpectedEof) = mde::<IgnoredAny>(&o) { return Err(format!("the complete message {}, ignored, is reported as cut off", hex(&o))) }
    Ok(())
}
pub fn x04(t: Tier) -> Vec<Workload> {
    vec![wl("JSON cut off", n(t, 25_000, 1_500_000, 8), x04_jprefix), wl("JSON complete", n(t, 60_000, 4_000_000, 12), x04_jwhole),
        wl("MessagePack cut off", n(t, 25_000, 1_500_000, 8), x04_mprefix), wl("MessagePack complete", n(t, 60_000, 4_000_000, 12), x04_mwhole), wl("scale: JSON cut off", n(t, 60, 6000, 1), |c| crate::big::on(c, x04_jprefix)), wl("scale: MessagePack cut off", n(t, 60, 6000, 1), |c| crate::big::on(c, x04_mprefix))]
}
