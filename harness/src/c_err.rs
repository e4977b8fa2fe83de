//! Errors name what was wrong (X09): one mistake, of a known kind, at a random place of an otherwise valid document, message or value.
use crate::any::Any;
use crate::c_json::gen_act;
use crate::jref::{self, gen_str_short, hex_upper, b64, style, Fault, Ren};
use crate::model::*;
use crate::mref::{self, gen_tree, mstyle, MRen, M};
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types::Act;
use crate::util::*;
use serde::de::IgnoredAny;
use std::fmt::Debug;

type Kinds = &'static [&'static str];
fn hit(f: &mut Option<Fault>, k: Kinds, what: &'static str, at: usize) { let f = f.as_mut().unwrap(); assert!(f.hit.is_none(), "two mistakes"); f.hit = Some((k, what)); f.at = at }
/// is it this node's turn?
fn turn(f: &mut Option<Fault>) -> bool {
    let f = f.as_mut().unwrap();
    if f.hit.is_some() { return false }
    if f.left > 0 { f.left -= 1; return false }
    true
}
/// what follows matters for the error
const SHUT: usize = usize::MAX;
fn nodes(v: &Val) -> usize {
    1 + match v { Val::Some(v) | Val::New(v) => nodes(v), Val::Seq(v) | Val::Enum(_, v) => v.iter().map(nodes).sum(), Val::Map(v) => v.iter().map(|(a, b)| nodes(a) + nodes(b)).sum(), _ => 0 }
}
fn kind<E: Debug>(e: &E) -> String { let s = format!("{e:?}"); s.split(['(', ' ']).next().unwrap().to_string() }

// ---------------------------------------------------------------- JSON
const TOKENS: &[&[u8]] = &[b"null", b"true", b"false", b"0", b"12", b"-1", b"1.5", b"\"a\"", b"\"\"", b"\"1\"", b"\"true\"", b"[]", b"[1]", b"[null]", b"{}", b"{\"a\":1}", b"x", b"#", b"'a'", b"NaN", b"+1", b".5", b"\\", b"\x00", b"\xff", b"\x0b", b"/", b"\xef\xbb\xbf1", b"I", b"undefined", b"True", b"\xc2\xa0"];
/// a value (or rubbish) that does not begin with any of `ok`
fn token(r: &mut Ren, ok: &[u8], null_too: bool) { loop { let t = *r.rng.pick(TOKENS); if !ok.contains(&t[0]) && (null_too || t[0] != b'n') { r.o.extend_from_slice(t); return } } }
fn misspelt(r: &mut Ren, words: &[&str]) {
    let w = r.rng.pick(words).as_bytes().to_vec();
    let i = r.rng.range(1, w.len() - 1);
    let c = loop { let c = *r.rng.pick(b"aelnrsuxNULE0\" ,]}\x00\xff"); if c != w[i] { break c } };
    let at = r.o.len();
    r.o.extend_from_slice(&w);
    r.o[at + i] = c;
}
/// a broken string; the kinds its error may have
fn badstr(r: &mut Ren, utf8: bool) -> (Kinds, bool) {
    let pre = gen_str_short(r.rng);
    r.string(&pre);
    r.o.pop();
    let put = |r: &mut Ren, b: &[u8]| r.o.extend_from_slice(b);
    let mut safe = true;
    let k: Kinds = match r.rng.below(if utf8 { 7 } else { 6 }) {
        0 => { let c = r.rng.below(32) as u8; put(r, &[c]); &["StringControlChar"] }
        1 => { let c = loop { let c = r.rng.range(0x20, 0xff) as u8; if !b"\"\\/bfnrtu".contains(&c) { break c } }; put(r, &[b'\\', c]); &["InvalidEscapeSequence"] }
        2 => {
            let mut h: Vec<u8> = (0..4).map(|_| *r.rng.pick(b"0123456789abcdefABCDEF")).collect();
            for _ in 0..r.rng.range(1, 2) { let i = r.rng.below(4); h[i] = *r.rng.pick(b"gGzx_+-. :@`/") }
            put(r, b"\\u"); put(r, &h);
            &["InvalidEscapeSequence"]
        }
        3 => { let n = r.rng.range(0xdc00, 0xdfff); put(r, format!("\\u{n:04x}").as_bytes()); &["InvalidUnicodeCodePoint"] }
        4 => {
            let n = r.rng.range(0xd800, 0xdbff);
            put(r, format!("\\u{n:04X}").as_bytes());
            let k: Kinds = match r.rng.below(6) {
                0 => { let m = r.rng.below(0xdc00); put(r, format!("\\u{m:04x}").as_bytes()); &["InvalidUnicodeCodePoint"] }
                1 => { let m = r.rng.range(0xe000, 0xffff); put(r, format!("\\u{m:04x}").as_bytes()); &["InvalidUnicodeCodePoint"] }
                2 => { put(r, b"\\n"); &["InvalidUnicodeCodePoint"] }
                3 => { put(r, "é😀zz".as_bytes()); &["InvalidUnicodeCodePoint"] }
                4 => { let t = *r.rng.pick(&[&b"\\udc0g"[..], b"\\u-c00", b"\\uxxxx"]); put(r, t); &["InvalidEscapeSequence"] }
                _ => { safe = false; &["InvalidUnicodeCodePoint"] }
            };
            k
        }
        5 => { let c = *r.rng.pick(b"\n\t\r\x00\x1f\x1b"); put(r, b"\\\\"); put(r, &[c]); &["StringControlChar"] }
        _ => { let t = *r.rng.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xf0\x9f\x98", b"\xc3"]); put(r, t); safe = false; &["InvalidUnicodeCodePoint"] }
    };
    let post = gen_str_short(r.rng);
    if safe && r.rng.one_in(3) { return (k, true) }
    let n = r.o.len();
    r.string(&post);
    r.o.remove(n);
    (k, safe)
}
fn strfault(r: &mut Ren, utf8: bool, what: &'static str) { let (k, safe) = badstr(r, utf8); let at = if safe { r.o.len() } else { SHUT }; hit(&mut r.flt, k, what, at) }
fn done(r: &mut Ren, k: Kinds, what: &'static str) { let at = r.o.len(); hit(&mut r.flt, k, what, at) }
fn shut(r: &mut Ren, k: Kinds, what: &'static str) { hit(&mut r.flt, k, what, SHUT) }
fn limits(s: &Sch) -> (i128, i128) {
    match s { Sch::I8 => (-128, 127), Sch::I16 => (-32768, 32767), Sch::I32 => (i32::MIN as i128, i32::MAX as i128), Sch::I64 => (i64::MIN as i128, i64::MAX as i128),
        Sch::U8 => (0, 255), Sch::U16 => (0, 65535), Sch::U32 => (0, u32::MAX as i128), Sch::U64 => (0, u64::MAX as i128), _ => unreachable!() }
}
fn outside(r: &mut Rng, s: &Sch, lo: i128, hi: i128) -> i128 {
    let (a, b) = limits(s);
    loop {
        let d = match r.below(4) { 0 => 0, 1 => r.below(300) as i128, 2 => r.next() as i128, _ => (r.next() as i128) << r.below(60) };
        let n = if r.coin() { b + 1 + d } else { a - 1 - d };
        if n >= lo && n <= hi { return n }
    }
}
fn is_int(s: &Sch) -> bool { matches!(s, Sch::I8 | Sch::I16 | Sch::I32 | Sch::I64 | Sch::U8 | Sch::U16 | Sch::U32 | Sch::U64) }
fn signed(s: &Sch) -> bool { matches!(s, Sch::I8 | Sch::I16 | Sch::I32 | Sch::I64) }
/// one wrong array; the elements before the mistake are right
fn jarr(r: &mut Ren, items: &[(&Sch, &Val)], fixed: bool) {
    let n = items.len();
    let elems = |r: &mut Ren, a: usize, b: usize| { let mut f = a == 0; for (s, v) in &items[a..b] { r.sep(&mut f); r.val(s, v) } };
    // the nodes inside are not to be broken as well
    let f = r.flt.take();
    macro_rules! say { ($g:ident, $k:expr, $w:expr) => {{ r.flt = f; $g(r, $k, $w) }} }
    r.put("[");
    match r.rng.below(6) {
        0 => { r.ws(); r.put(","); if n == 0 && fixed { say!(done, &["ExpectedArrayEnd", "LeadingArrayComma"], "comma in an array of nothing") } else { say!(done, &["LeadingArrayComma"], "leading comma in an array") } r.put("1]") }
        1 => {
            elems(r, 0, n); r.ws(); r.put(","); r.ws(); r.put("]");
            match (n, fixed) { (0, false) => say!(done, &["LeadingArrayComma"], "leading comma in an array"), (_, true) => say!(done, &["ExpectedArrayEnd", "TrailingArrayComma"], "trailing comma in a full tuple"), _ => say!(done, &["TrailingArrayComma"], "trailing comma in an array") }
        }
        2 if n >= 2 => {
            let i = r.rng.range(1, n - 1);
            elems(r, 0, i);
            if r.rng.coin() { let k = r.rng.range(1, 3); for _ in 0..k { let w = *r.rng.pick(b" \n\t\r"); r.o.push(w) } } else { r.ws(); let t = *r.rng.pick(b":;}=x'"); r.o.push(b' '); r.o.push(t) }
            r.val(items[i].0, items[i].1);
            let mut g = false;
            for (s, v) in &items[i + 1..] { r.sep(&mut g); r.val(s, v) }
            r.ws(); r.put("]");
            say!(shut, &["ExpectedArrayCommaOrEnd"], "missing comma in an array")
        }
        3 if n > 0 => { elems(r, 0, n); r.ws(); r.o.push(b' '); let t = *r.rng.pick(&["}", ":", ";", ")", "\0"]); r.put(t); if fixed { say!(done, &["ExpectedArrayEnd", "ExpectedArrayCommaOrEnd"], "wrong end of a tuple") } else { say!(done, &["ExpectedArrayCommaOrEnd"], "wrong end of an array") } }
        4 if fixed && n > 0 => { elems(r, 0, n - 1); r.ws(); r.put("]"); say!(done, &["DeserializeError"], "too few elements") }
        _ if fixed => { elems(r, 0, n); if n > 0 { r.ws(); r.put(",") } r.ws(); r.put("7]"); say!(done, &["ExpectedArrayEnd"], "too many elements") }
        _ => { elems(r, 0, n); r.ws(); if n > 0 { r.put(",") } r.put(if n > 0 { "" } else { "," }); r.put("]"); if n > 0 { say!(done, &["TrailingArrayComma"], "trailing comma in an array") } else { say!(done, &["LeadingArrayComma"], "leading comma in an array") } }
    }
}
/// one wrong object; `key` and `value` write the parts of entry number i
fn jobj(r: &mut Ren, n: usize, key: &dyn Fn(&mut Ren, usize), value: &dyn Fn(&mut Ren, usize)) {
    let f = r.flt.take();
    macro_rules! say { ($g:ident, $k:expr, $w:expr) => {{ r.flt = f; $g(r, $k, $w) }} }
    let ents = |r: &mut Ren, a: usize, b: usize| { let mut f = a == 0; for i in a..b { r.sep(&mut f); key(r, i); r.ws(); r.put(":"); r.ws(); value(r, i) } };
    r.put("{");
    match r.rng.below(7) {
        0 => { r.ws(); r.put(","); say!(done, &["LeadingObjectComma"], "leading comma in an object"); r.put("\"a\":1}") }
        1 if n > 0 => { ents(r, 0, n); r.ws(); r.put(","); r.ws(); r.put("}"); say!(done, &["TrailingObjectComma"], "trailing comma in an object") }
        2 if n >= 2 => {
            let i = r.rng.range(1, n - 1);
            ents(r, 0, i);
            if r.rng.coin() { r.put(" "); r.ws() } else { let t = *r.rng.pick(&[" :", " ;", " ]", " =", " x"]); r.put(t) }
            let mut f0 = true;
            for j in i..n { r.sep(&mut f0); key(r, j); r.put(":"); value(r, j) }
            r.put("}");
            say!(shut, &["ExpectedObjectCommaOrEnd"], "missing comma in an object")
        }
        3 if n > 0 => { ents(r, 0, n); r.ws(); r.put(" "); let t = *r.rng.pick(&["]", ":", ";", ")", "\0"]); r.put(t); say!(done, &["ExpectedObjectCommaOrEnd"], "wrong end of an object") }
        4 if n > 0 => {
            let i = r.rng.below(n);
            ents(r, 0, i);
            let mut f0 = i == 0;
            r.sep(&mut f0); key(r, i); r.ws();
            let t = *r.rng.pick(&[",", "=", ";", "}", "1", "\"a\"", "null", "]", "\0"]);
            r.put(t);
            say!(done, &["ExpectedColon"], "missing colon")
        }
        5 => { ents(r, 0, n); r.ws(); r.put(" "); r.put(if n > 0 { "," } else { "" }); r.ws(); r.put(if n == 0 { "]" } else { "1" }); say!(done, &["KeyMustBeAString"], "key that is not a string") }
        _ => {
            let i = r.rng.below(n + 1);
            ents(r, 0, i);
            let mut f0 = i == 0;
            r.sep(&mut f0);
            token(r, b"\"},", true); // a first `}` or `,` would mean something
            say!(done, &["KeyMustBeAString"], "key that is not a string")
        }
    }
}
fn jfields(r: &mut Ren, n: Names, t: &[Sch], v: &[Val]) {
    let need: Vec<usize> = (0..t.len()).filter(|i| !matches!(t[*i], Sch::Opt(_))).collect();
    let all: Vec<usize> = (0..t.len()).collect();
    match r.rng.below(8) {
        0 | 1 => { let it: Vec<_> = t.iter().zip(v).collect(); jarr(r, &it, true) }
        2 if !need.is_empty() => { // a field that has to be there is not
            let skip = *r.rng.pick(&need);
            let f = r.flt.take();
            r.put("{");
            let mut f0 = true;
            for i in all { if i != skip { r.unknown(n, &mut f0); r.sep(&mut f0); r.string(n[i]); r.ws(); r.put(":"); r.ws(); r.val(&t[i], &v[i]) } }
            r.ws(); r.put("}");
            r.flt = f;
            done(r, &["DeserializeError"], "missing field")
        }
        3 if !t.is_empty() => { // a field comes twice
            let again = r.rng.below(t.len());
            let f = r.flt.take();
            r.put("{");
            let mut f0 = true;
            for i in all.iter().copied().chain([again]) { r.sep(&mut f0); r.string(n[i]); r.ws(); r.put(":"); r.ws(); r.val(&t[i], &v[i]) }
            r.put("}");
            r.flt = f;
            done(r, &["DeserializeError"], "duplicate field")
        }
        4 if !t.is_empty() => { // a name that is not a proper string
            let i = r.rng.below(t.len());
            let f = r.flt.take();
            r.put("{");
            let mut f0 = true;
            for i in 0..i { r.sep(&mut f0); r.string(n[i]); r.ws(); r.put(":"); r.ws(); r.val(&t[i], &v[i]) }
            r.sep(&mut f0);
            r.flt = f;
            strfault(r, true, "broken field name");
            r.ws(); r.put(":"); r.put("1}")
        }
        _ => jobj(r, t.len(), &|r, i| r.string(n[i]), &|r, i| r.val(&t[i], &v[i])),
    }
}
/// the wrong kind of value, or nothing but a wrong inside
fn wrongkind(r: &mut Ren, ok: &[u8], null_too: bool, k: Kinds, what: &'static str) { token(r, ok, null_too); done(r, k, what) }
pub fn jnode(r: &mut Ren, s: &Sch, v: &Val) -> bool {
    use Sch::*;
    let uo = std::mem::take(&mut r.flt.as_mut().unwrap().under_opt);
    let nl = !uo;
    match (s, v) {
        (Newtype(_), _) => { r.flt.as_mut().unwrap().under_opt = uo; return false }
        (Opt(_), Val::Some(_)) | (Ignore, _) => return false,
        _ => {}
    }
    if !turn(&mut r.flt) { return false }
    let inner = r.rng.below(3) > 0;
    match (s, v) {
        (Unit | UnitStruct, _) => if inner { wrongkind(r, b"n", false, &["ExpectedNull"], "no null") } else { misspelt(r, &["null"]); done(r, &["ExpectedToken"], "misspelt null") },
        (Opt(_), _) => { misspelt(r, &["null"]); done(r, &["ExpectedToken"], "misspelt null") }
        (Bool, _) => if inner { wrongkind(r, b"tf", nl, &["UnexpectedChar"], "no bool") } else { misspelt(r, &["true", "false"]); done(r, &["ExpectedToken"], "misspelt bool") },
        (i, _) if is_int(i) => match r.rng.below(4) {
            0 | 1 => wrongkind(r, b"-0123456789", nl, &["InvalidType"], "no number for an integer"),
            2 if !signed(i) => { let k = r.rng.below(1000); r.put(&format!("-{k}")); done(r, &["InvalidNumber"], "negative number for an unsigned integer") }
            2 => { let t = *r.rng.pick(&["--1", "-x", "- 1", "-\"1\"", "-.5", "-,"]); r.put(t); done(r, &["InvalidType", "InvalidNumber"], "minus without digits") }
            _ => { let n = outside(r.rng, i, i128::MIN, i128::MAX); r.put(&n.to_string()); done(r, &["InvalidNumber"], "integer out of range") }
        },
        (F32 | F64, _) => match r.rng.below(4) {
            0 | 1 => wrongkind(r, b"-0123456789+.n", false, &["InvalidNumber", "InvalidType"], "no number for a float"),
            2 => { let t = *r.rng.pick(&["1e", "1e+", "1.2.3", "--1", "-", "1-1", "1e5e5", "e5", "1e1.5", "-e", "+-1", ".", "-.e1", "1E-"]); r.put(t); shut(r, &["InvalidNumber"], "broken float") }
            _ => { misspelt(r, &["null"]); done(r, &["ExpectedToken"], "misspelt null") }
        },
        (Char, _) => match r.rng.below(3) {
            0 => wrongkind(r, b"\"", nl, &["ExpectedString"], "no string for a char"),
            1 => { let t = loop { let t = gen_str_short(r.rng); if t.chars().count() != 1 { break t } }; r.string(&t); done(r, &["InvalidLength"], "no single char") }
            _ => strfault(r, true, "broken char"),
        },
        (Str(_) | Fmt, _) => if r.rng.coin() { wrongkind(r, b"\"", nl, &["ExpectedString"], "no string") } else { strfault(r, true, "broken string") },
        (Bytes(_), Val::Bytes(b)) => match r.rng.below(3) {
            0 => wrongkind(r, b"\"[", nl, &["UnexpectedChar"], "no bytes"),
            1 => { // number arrays
                let f = r.flt.take();
                r.put("[");
                let mut f0 = true;
                for x in b.iter().take(8) { r.sep(&mut f0); r.put(&x.to_string()) }
                let (k, w): (Kinds, &str) = match r.rng.below(6) {
                    0 => { r.sep(&mut f0); let n = r.rng.range(256, 70000); r.put(&n.to_string()); (&["InvalidNumber"], "byte out of range") }
                    1 => { r.sep(&mut f0); r.put("-1"); (&["InvalidNumber"], "negative byte") }
                    2 => { r.sep(&mut f0); r.put("7"); let t = *r.rng.pick(&[" 7", " }", " :", ".5", "x", "\"", "\0", " ;"]); r.put(t); (&["UnexpectedChar", "ExpectedArrayCommaOrEnd"], "missing comma between bytes") }
                    3 => { r.sep(&mut f0); r.put("1,"); r.ws(); r.put("]"); (&["InvalidType", "TrailingArrayComma"], "trailing comma after bytes") }
                    4 => { if f0 { r.ws(); r.put(","); (&["InvalidType", "LeadingArrayComma"], "leading comma before bytes") } else { r.ws(); r.put(","); r.ws(); r.put(","); (&["InvalidType", "UnexpectedChar"], "doubled comma between bytes") } }
                    _ => { r.sep(&mut f0); token(r, b"-0123456789]", true); (&["InvalidType"], "no number for a byte") }
                };
                r.flt = f;
                done(r, k, w);
                r.put("]")
            }
            _ => match r.m {
                BM::Hex => {
                    r.put("\""); let h = hex_upper(b); r.put(&h);
                    if r.rng.coin() { let d = *r.rng.pick(b"0123456789abcdefABCDEF"); r.o.push(d); if r.rng.coin() { r.put("\""); done(r, &["UnexpectedChar", "InvalidLength"], "odd number of hex digits"); r.put(" "); return true } }
                    let c = *r.rng.pick(b"gGxX \\/:@`-_=+\x00\xff\xc3"); r.o.push(c); r.put("0"); done(r, &["UnexpectedChar"], "no hex digit"); r.put("\"")
                }
                BM::B64 => {
                    r.put("\""); let t = b64(b); r.put(&t);
                    if r.rng.one_in(3) && t.len() % 4 >= 2 { let t = if r.rng.coin() { "=" } else { "==" }; r.put(t); let c = *r.rng.pick(b"A0/+!\\ z"); r.o.push(c); done(r, &["UnexpectedChar"], "text after base64 padding"); r.put("\""); return true }
                    let c = *r.rng.pick(b"-_!,.:@[`{ \\\n\x00\x7f\x80\xff~"); r.o.push(c); done(r, &["UnexpectedChar"], "no base64 digit"); r.put("AAAA\"")
                }
                _ => strfault(r, false, "broken byte string"),
            },
        },
        (Seq(i), Val::Seq(v)) => if inner { let i: &Sch = i; let it: Vec<_> = v.iter().map(|x| (i, x)).collect(); jarr(r, &it, false) } else { wrongkind(r, b"[", nl, &["ExpectedArray"], "no array for a sequence") },
        (Tuple(t) | TupStruct(t), Val::Seq(v)) => if inner { let it: Vec<_> = t.iter().zip(v).collect(); jarr(r, &it, true) } else { wrongkind(r, b"[", nl, &["ExpectedArray"], "no array for a tuple") },
        (Map(k, e), Val::Map(v)) => if inner { jobj(r, v.len(), &|r, i| r.key(k, &v[i].0), &|r, i| r.val(e, &v[i].1)) } else { wrongkind(r, b"{", nl, &["ExpectedObject"], "no object for a map") },
        (Struct(n, t), Val::Seq(v)) => if inner { jfields(r, n, t, v) } else { wrongkind(r, b"{[", nl, &["ExpectedStruct"], "no object or array for a struct") },
        (Enum(n, vs), Val::Enum(i, p)) => {
            let (name, var) = (n[*i as usize], &vs[*i as usize]);
            let open = |r: &mut Ren, name: &str| { r.put("{"); r.ws(); r.string(name); r.ws() };
            match r.rng.below(9) {
                0 => wrongkind(r, b"\"{", nl, &["ExpectedEnumValue"], "no string or object for an enum"),
                1 => {
                    let x = loop { let k = gen_str_short(r.rng); if !n.contains(&&k[..]) { break k } };
                    if r.rng.coin() { r.string(&x) } else { open(r, &x); r.put(":"); r.ws(); r.put("null}") }
                    done(r, &["DeserializeError"], "unknown variant")
                }
                2 => { if r.rng.coin() { strfault(r, true, "broken variant name") } else { r.put("{"); r.ws(); strfault(r, true, "broken variant name"); r.put(":1}") } }
                3 => { r.put("{"); r.ws(); token(r, b"\"", true); done(r, &["ExpectedString", "KeyMustBeAString"], "variant name that is not a string") }
                4 => { open(r, name); let t = *r.rng.pick(&[",", "=", ";", "}", "1", "\"a\"", "null", "[", "\0"]); r.put(t); done(r, &["ExpectedColon"], "missing colon after a variant") }
                _ => match var {
                    Var::Unit => { open(r, name); r.put(":"); r.ws(); { let t = *r.rng.pick(&["null", "[]", "{}", "1", "\"a\""]); r.put(t) } r.put("}"); done(r, &["InvalidType"], "content for a variant without any") }
                    _ if r.rng.one_in(4) => { r.string(name); done(r, &["InvalidType"], "no content for a variant with some") }
                    _ if r.rng.one_in(3) => {
                        let f = r.flt.take();
                        open(r, name); r.put(":"); r.ws();
                        match var { Var::New(s) => r.val(s, &p[0]), Var::Tup(t) => r.array(&mut t.iter().zip(p)), Var::Struct(n, t) => r.fields(n, t, p), Var::Unit => {} }
                        r.flt = f;
                        r.ws(); r.put(" "); { let t = *r.rng.pick(&[",\"x\":1}", "]", ":", "\"", "1", "null", ",}"]); r.put(t) }
                        done(r, &["ExpectedEnumObjectEnd"], "more behind the variant")
                    }
                    Var::New(s) => { open(r, name); r.put(":"); r.ws(); r.val(s, &p[0]); r.ws(); r.put("}") }
                    Var::Tup(t) => { open(r, name); r.put(":"); r.ws(); if inner { let it: Vec<_> = t.iter().zip(p).collect(); jarr(r, &it, true) } else { wrongkind(r, b"[", true, &["ExpectedArray"], "no array for a tuple variant") } r.put("}") }
                    Var::Struct(f, t) => { open(r, name); r.put(":"); r.ws(); if inner { jfields(r, f, t, p) } else { wrongkind(r, b"[{", true, &["ExpectedStruct"], "no object or array for a struct variant") } r.put("}") }
                },
            }
        }
        (s, v) => panic!("fault {s:?} {v:?}"),
    }
    true
}
pub fn jkey(r: &mut Ren, s: &Sch, v: &Val) -> bool {
    use Sch::*;
    if !turn(&mut r.flt) { return false }
    let (mut s, mut v) = (s, v);
    while let (Newtype(i), Val::New(x)) = (s, v) { s = i; v = x }
    if (is_int(s) || matches!(s, Bool)) && r.rng.one_in(6) { r.put("\""); let c = r.rng.below(32) as u8; r.o.push(c); r.put("1\""); done(r, &["StringControlChar"], "control character in a key"); return true }
    match s {
        i if is_int(i) => match r.rng.below(4) {
            0 => { r.put("\""); let t = *r.rng.pick(&["x", "", "a1", "null", "true", "\\u0031", "é", "[1]", ".5"]); r.put(t); r.put("\""); done(r, &["InvalidType", "InvalidNumber"], "key without a number") }
            1 => { let f = r.flt.take(); r.key(s, v); r.flt = f; r.o.pop(); let t = *r.rng.pick(&["x", ".5", " ", "e1", "\\", "\0", ","]); r.put(t); r.put("\""); done(r, &["InvalidNumber"], "key with more than a number") }
            2 if !signed(i) => { let k = r.rng.below(1000); r.put(&format!("\"-{k}\"")); done(r, &["InvalidNumber"], "negative key for an unsigned integer") }
            _ => { let n = outside(r.rng, i, i128::MIN, i128::MAX); r.put(&format!("\"{n}\"")); done(r, &["InvalidNumber"], "key out of range") }
        },
        Bool => match r.rng.below(3) {
            0 => { r.put("\""); let t = *r.rng.pick(&["x", "", "1", "null", "True", "é", "[1]"]); r.put(t); r.put("\""); done(r, &["UnexpectedChar"], "key without a bool") }
            1 => { r.put("\""); misspelt(r, &["true", "false"]); r.put("\""); done(r, &["ExpectedToken"], "misspelt bool key") }
            _ => { let f = r.flt.take(); r.key(s, v); r.flt = f; r.o.pop(); let t = *r.rng.pick(&["x", "1", " ", "e", "\\", "\0", ","]); r.put(t); r.put("\""); done(r, &["InvalidType"], "key with more than a bool") }
        },
        Char => if r.rng.coin() { let t = loop { let t = gen_str_short(r.rng); if t.chars().count() != 1 { break t } }; r.string(&t); done(r, &["InvalidLength"], "key of no single char") } else { strfault(r, true, "broken char key") },
        Enum(n, _) => if r.rng.coin() { let x = loop { let k = gen_str_short(r.rng); if !n.contains(&&k[..]) { break k } }; r.string(&x); done(r, &["DeserializeError"], "unknown variant as a key") } else { strfault(r, true, "broken variant key") },
        _ => strfault(r, true, "broken key"),
    }
    true
}
pub fn jany(r: &mut Ren, depth: usize) -> bool {
    if !turn(&mut r.flt) { return false }
    let ign = !r.flt.as_ref().unwrap().tree;
    match r.rng.below(if depth == 0 { 4 } else { 8 }) {
        0 => { token(r, b"ntf\"-0123456789[{", true); done(r, &["UnexpectedChar"], "no value") }
        1 => { misspelt(r, &["null", "true", "false"]); done(r, &["ExpectedToken"], "misspelt literal") }
        2 if !ign => { let t = *r.rng.pick(&["1e", "1e+", "1.2.3", "--1", "-", "1-1", "1e5e5", "1e1.5", "-e", "9-", "1E-", "-+1"]); r.put(t); shut(r, &["InvalidNumber"], "broken number") }
        2 | 3 => if ign { let s = gen_str_short(r.rng); r.string(&s); r.o.pop(); let c = r.rng.below(32) as u8; r.o.push(c); r.put("a"); done(r, &["StringControlChar"], "control character in an ignored string"); r.put("\"") } else { strfault(r, true, "broken string") },
        4 | 5 => { // arrays of anything
            let n = r.rng.below(4);
            let f = r.flt.take();
            let k: (Kinds, &str, bool);
            r.put("[");
            let elems = |r: &mut Ren, n: usize, f0: &mut bool| for _ in 0..n { r.sep(f0); r.any(depth - 1) };
            let mut f0 = true;
            match r.rng.below(4) {
                0 => { r.ws(); r.put(",1"); k = (&["LeadingArrayComma"], "leading comma in an array", true) }
                1 => { elems(r, n + 1, &mut f0); r.ws(); r.put(","); r.ws(); r.put("]"); k = (&["TrailingArrayComma"], "trailing comma in an array", true) }
                2 => { elems(r, n + 1, &mut f0); r.put(" "); r.ws(); r.any(0); r.put("]"); k = (&["ExpectedArrayCommaOrEnd"], "missing comma in an array", false) }
                _ => { elems(r, n + 1, &mut f0); r.put(" "); r.ws(); let t = *r.rng.pick(&["}", ":", ";", ")", "\0"]); r.put(t); k = (&["ExpectedArrayCommaOrEnd"], "wrong end of an array", true) }
            }
            r.flt = f;
            if k.2 { done(r, k.0, k.1) } else { shut(r, k.0, k.1) }
        }
        6 => { r.put("["); r.ws(); let n = r.rng.below(3); let mut f0 = true; let f = r.flt.take(); for _ in 0..n { r.sep(&mut f0); r.any(depth - 1) } r.sep(&mut f0); r.flt = f; token(r, if n == 0 { b"ntf\"-0123456789[{]," } else { b"ntf\"-0123456789[{]" }, true); done(r, &["UnexpectedChar"], "no value in an array") }
        _ => jobj(r, r.rng.clone().below(4), &|r, i| { let k = gen_str_short(r.rng); r.string(&format!("{i}{k}")) }, &|r, _| r.any(depth - 1)),
    }
    true
}
/// replace what follows the mistake
fn what_follows(rng: &mut Rng, f: &Fault, o: &mut Vec<u8>, soup: impl FnOnce(&mut Rng, usize) -> Vec<u8>) {
    if f.at == SHUT || f.at > o.len() || rng.below(3) > 0 { return }
    o.truncate(f.at);
    let n = rng.range(12, 40);
    let s = soup(rng, n);
    o.extend(s);
}
fn judge<T: Debug, E: Debug + std::fmt::Display>(c: &mut Ctx, r: Result<T, E>, (want, what): (Kinds, &'static str), doc: impl Fn() -> String) -> R {
    c.eval();
    c.count(what, 1);
    match r {
        Ok(v) => Err(format!("{what}: accepted as {} instead of failing with {want:?}: {}", short(&v), doc())),
        Err(e) => {
            let k = kind(&e);
            c.note("error", k.as_bytes());
            if !want.contains(&&k[..]) { return Err(format!("{what}: reported as {e:?}, expected {want:?}: {}", doc())) }
            let t = e.to_string();
            if t.trim().is_empty() { return Err(format!("{e:?} has no text")) }
            Ok(())
        }
    }
}
fn fault(left: usize, tree: bool) -> Option<Fault> { Some(Fault { left, under_opt: false, hit: None, at: SHUT, tree }) }
fn jrubbish(r: &mut Ren) {
    let t = *r.rng.pick(&["x", "]", "}", ",", "1", "\"a\"", "\0", "null", ":", "[]", "{}", "\u{feff}", "\u{a0}", "/"]);
    r.put(" "); r.ws(); r.put(t);
    done(r, &["TrailingCharacters"], "text behind the value")
}
fn x09_json(c: &mut Ctx) -> R {
    let (s, v) = jval(&mut c.rng);
    let m = bm(&mut c.rng);
    let st = style(&mut c.rng);
    let k = nodes(&v);
    let left = if c.rng.one_in(3) { 0 } else { c.rng.below(k + 1) };
    let mut r = Ren { rng: &mut c.rng, st, o: vec![], m, flt: fault(left, false) };
    r.ws();
    r.val(&s, &v);
    if r.flt.as_ref().unwrap().hit.is_none() { jrubbish(&mut r) }
    r.ws();
    let (mut o, f) = (r.o, r.flt.unwrap());
    what_follows(&mut c.rng, &f, &mut o, random_json_soup);
    c.seen(&o);
    let h = f.hit.unwrap();
    c.sample(|| format!("{}: {:?} as {}", h.1, show(&o), short(&s)));
    let (res, _) = jrun_n(&s, m, &o)?;
    judge(c, res, h, || format!("{:?} as {} ({m:?})", show(&o), short(&s)))
}
fn x09_jany(c: &mut Ctx) -> R {
    let st = style(&mut c.rng);
    let m = bm(&mut c.rng);
    let tree = c.rng.coin();
    let left = c.rng.below(8);
    let mut r = Ren { rng: &mut c.rng, st, o: vec![], m, flt: fault(left, tree) };
    r.ws();
    r.any(4);
    if r.flt.as_ref().unwrap().hit.is_none() {
        // what is not a number for a tree is none of this check's business
        r.o.clear(); r.put("[true"); jrubbish(&mut r); r.flt = fault(0, tree); r.o.clear(); r.put("[true,"); jany(&mut r, 2); r.put("]")
    }
    r.ws();
    let (mut o, f) = (r.o, r.flt.unwrap());
    what_follows(&mut c.rng, &f, &mut o, random_json_soup);
    c.seen2(&o, tree as u64);
    let h = f.hit.unwrap();
    c.sample(|| format!("{}: {:?} {}", h.1, show(&o), if tree { "as a tree" } else { "ignored" }));
    let mut g = o.clone();
    if tree { judge(c, jde::<Any>(m, &mut g), h, || format!("{:?} as a generic tree", show(&o))) } else { judge(c, jde::<IgnoredAny>(m, &mut g), h, || format!("{:?} ignored", show(&o))) }
}

// ---------------------------------------------------------------- MessagePack
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cl { Nil, Bool, Uint, Neg, Big, Float, Str, Bin, Arr, Map1, Map, Ext, Res }
fn object(r: &mut Rng) -> (Cl, Vec<u8>) {
    match r.below(28) {
        0 => (Cl::Nil, vec![0xc0]), 1 => (Cl::Bool, vec![0xc2 + r.below(2) as u8]), 2 => (Cl::Uint, vec![r.below(128) as u8]), 3 => (Cl::Neg, vec![0xe0 + r.below(32) as u8]),
        4 => (Cl::Uint, vec![0xcc, r.next() as u8]), 5 => (Cl::Uint, vec![0xcd, r.next() as u8, 1]), 6 => (Cl::Uint, vec![0xce, 0, 0, r.next() as u8, 1]), 7 => (Cl::Big, vec![0xcf, 0, 0, 0, 0, 0, 0, 0, r.below(9) as u8]),
        8 => (Cl::Neg, vec![0xd0, r.next() as u8]), 9 => (Cl::Neg, vec![0xd1, 0, r.next() as u8]), 10 => (Cl::Neg, vec![0xd2, 0, 0, 0, r.next() as u8]), 11 => (Cl::Neg, vec![0xd3, 0, 0, 0, 0, 0, 0, 0, 1]),
        12 => (Cl::Float, vec![0xca, 0x3f, 0x80, 0, 0]), 13 => (Cl::Float, vec![0xcb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0]),
        14 => (Cl::Str, vec![0xa1, b'a']), 15 => (Cl::Str, vec![0xd9, 1, b'a']), 16 => (Cl::Str, vec![0xda, 0, 0]),
        17 => (Cl::Bin, vec![0xc4, 1, 7]), 18 => (Cl::Bin, vec![0xc5, 0, 0]),
        19 => (Cl::Arr, vec![0x90]), 20 => (Cl::Arr, vec![0x91, 1]), 21 => (Cl::Arr, vec![0xdc, 0, 1, 0xc0]),
        22 => (Cl::Map, vec![0x80]), 23 => (Cl::Map1, vec![0x81, 1, 1]), 24 => (Cl::Map, vec![0x82, 1, 1, 2, 2]),
        25 => (Cl::Ext, vec![*r.pick(&[0xd4, 0xc7]), 1, 0, 0]), 26 => (Cl::Ext, { let mut v = vec![*r.pick(&[0xd5, 0xd6, 0xd7, 0xd8, 0xc8, 0xc9])]; v.extend([0; 20]); v }),
        _ => (Cl::Res, vec![0xc1]),
    }
}
/// an object of none of the kinds `ok`
fn other(r: &mut MRen, ok: &[Cl], nil: bool, k: Kinds, what: &'static str) {
    let o = loop { let o = object(r.rng); if !ok.contains(&o.0) && (nil || o.0 != Cl::Nil) { break o } };
    r.o.extend_from_slice(&o.1);
    // naming the code itself would be as good
    let with = |x: &'static str| -> Kinds { match (k[0], x) {
        ("InvalidType", "ReservedCode") => &["InvalidType", "ReservedCode"], ("InvalidType", _) => &["InvalidType", "UnsupportedExt"],
        ("ExpectedInteger", "ReservedCode") => &["ExpectedInteger", "ReservedCode"], ("ExpectedInteger", _) => &["ExpectedInteger", "UnsupportedExt"],
        _ => k } };
    let k = match o.0 { Cl::Res => with("ReservedCode"), Cl::Ext => with("UnsupportedExt"), _ => k };
    mdone(r, k, what)
}
fn mdone(r: &mut MRen, k: Kinds, what: &'static str) { let at = r.o.len(); hit(&mut r.flt, k, what, at) }
const INTS: &[Cl] = &[Cl::Uint, Cl::Neg, Cl::Big];
fn mstr(r: &mut MRen, what: &'static str) {
    let pre = gen_str_short(r.rng).into_bytes();
    let mut b = pre;
    let bad = *r.rng.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xf0\x9f\x98", b"\xc3"]);
    b.extend_from_slice(bad);
    let post = if r.rng.coin() { gen_str_short(r.rng) } else { String::new() };
    b.extend_from_slice(post.as_bytes());
    r.e(|e| e.str(&b));
    mdone(r, &["InvalidUnicodeCodePoint"], what)
}
fn marr(r: &mut MRen, items: &[(&Sch, &Val)]) {
    let n = items.len();
    let f = r.flt.take();
    if n > 0 && r.rng.coin() {
        r.e(|e| e.arr(n - 1));
        for (s, v) in &items[..n - 1] { r.val(s, v) }
        r.flt = f;
        return mdone(r, &["DeserializeError"], "too few elements");
    }
    let x = r.rng.range(1, 3);
    r.e(|e| e.arr(n + x));
    for (s, v) in items { r.val(s, v) }
    for _ in 0..x { let m = gen_tree(r.rng, 1, true); r.e(|e| e.tree(&m)) }
    r.flt = f;
    let at = r.o.len();
    hit(&mut r.flt, &["TrailingElements"], "too many elements", at)
}
fn mfields(r: &mut MRen, n: Names, t: &[Sch], v: &[Val]) {
    let need: Vec<usize> = (0..t.len()).filter(|i| !matches!(t[*i], Sch::Opt(_))).collect();
    let k = t.len();
    match r.rng.below(5) {
        0 if !need.is_empty() => {
            let skip = *r.rng.pick(&need);
            let f = r.flt.take();
            r.e(|e| e.map(k - 1));
            for i in 0..k { if i != skip { r.ident(i, n[i]); r.val(&t[i], &v[i]) } }
            r.flt = f;
            mdone(r, &["DeserializeError"], "missing field")
        }
        1 if k > 0 => {
            let again = r.rng.below(k);
            let f = r.flt.take();
            r.e(|e| e.map(k + 1));
            for i in (0..k).chain([again]) { r.ident(i, n[i]); r.val(&t[i], &v[i]) }
            r.flt = f;
            mdone(r, &["DeserializeError"], "duplicate field")
        }
        2 | 3 if k > 0 => {
            let i = r.rng.below(k);
            let f = r.flt.take();
            r.e(|e| e.map(k));
            for i in 0..i { r.ident(i, n[i]); r.val(&t[i], &v[i]) }
            r.flt = f;
            if r.rng.one_in(4) { mstr(r, "broken field name") } else { other(r, &[Cl::Uint, Cl::Str], true, &["ExpectedIdentifier"], "no field identifier") }
            r.o.push(0xc0)
        }
        _ => { let it: Vec<_> = t.iter().zip(v).collect(); marr(r, &it) }
    }
}
pub fn mnode(r: &mut MRen, s: &Sch, v: &Val) -> bool {
    use Sch::*;
    let uo = std::mem::take(&mut r.flt.as_mut().unwrap().under_opt);
    let nl = !uo;
    match (s, v) { (Newtype(_), _) => { r.flt.as_mut().unwrap().under_opt = uo; return false } (Opt(_), _) => return false, _ => {} }
    if !turn(&mut r.flt) { return false }
    let inner = r.rng.below(3) > 0;
    match (s, v) {
        (Ignore, _) => { mnest(r, 2); r.o.push(0xc1); mdone(r, &["ReservedCode"], "reserved code in an ignored value") }
        (Unit | UnitStruct, _) => other(r, &[Cl::Nil], false, &["ExpectedNil"], "no nil"),
        (Bool, _) => other(r, &[Cl::Bool], nl, &["InvalidType"], "no bool"),
        (i, _) if is_int(i) => if inner { other(r, INTS, nl, &["ExpectedInteger"], "no integer") } else {
            let n = outside(r.rng, i, i64::MIN as i128, u64::MAX as i128);
            r.e(|e| e.int(n));
            mdone(r, &["InvalidInteger"], "integer out of range")
        },
        (F32 | F64, _) => other(r, &[Cl::Uint, Cl::Neg, Cl::Big, Cl::Float, Cl::Nil], false, &["ExpectedNumber"], "no number"),
        (Char, _) => match r.rng.below(3) {
            0 => other(r, &[Cl::Str], nl, &["ExpectedString"], "no string for a char"),
            1 => { let t = loop { let t = gen_str_short(r.rng); if t.chars().count() != 1 { break t } }; r.e(|e| e.str(t.as_bytes())); mdone(r, &["InvalidLength"], "no single char") }
            _ => mstr(r, "broken char"),
        },
        (Str(_) | Fmt, _) => if r.rng.coin() { other(r, &[Cl::Str], nl, &["ExpectedString"], "no string") } else { mstr(r, "broken string") },
        (Bytes(_), _) => other(r, &[Cl::Bin], nl, &["ExpectedBin"], "no binary"),
        (Seq(_), _) => other(r, &[Cl::Arr], nl, &["ExpectedArray"], "no array for a sequence"),
        (Tuple(t) | TupStruct(t), Val::Seq(v)) => if inner { let it: Vec<_> = t.iter().zip(v).collect(); marr(r, &it) } else { other(r, &[Cl::Arr], nl, &["ExpectedArray"], "no array for a tuple") },
        (Map(..), _) => other(r, &[Cl::Map, Cl::Map1], nl, &["ExpectedMap"], "no map"),
        (Struct(n, t), Val::Seq(v)) => if inner { mfields(r, n, t, v) } else { other(r, &[Cl::Map, Cl::Map1, Cl::Arr], nl, &["ExpectedStruct"], "no map or array for a struct") },
        (Enum(n, vs), Val::Enum(i, p)) => {
            let (name, var) = (n[*i as usize], &vs[*i as usize]);
            match r.rng.below(7) {
                0 => other(r, &[Cl::Uint, Cl::Str, Cl::Map1], nl, &["ExpectedIdentifier"], "no variant"),
                1 => { r.o.push(0x81); other(r, &[Cl::Uint, Cl::Str], true, &["ExpectedIdentifier"], "no variant identifier"); r.o.push(0xc0) }
                2 => {
                    if r.rng.coin() { r.o.push(0x81) }
                    if r.rng.coin() { let k = n.len() as u32 + *r.rng.pick(&[0, 1, 100, 300, 70000]); r.e(|e| e.ident(k)) } else { let x = loop { let k = gen_str_short(r.rng); if !n.contains(&&k[..]) { break k } }; r.e(|e| e.str(x.as_bytes())) }
                    mdone(r, &["DeserializeError"], "unknown variant")
                }
                3 => { if r.rng.coin() { r.o.push(0x81) } mstr(r, "broken variant name") }
                _ => match var {
                    Var::Unit => { r.o.push(0x81); r.ident(*i as usize, name); let o = object(r.rng); r.o.extend(o.1); mdone(r, &["InvalidType"], "content for a variant without any") }
                    _ if r.rng.one_in(4) => { r.ident(*i as usize, name); mdone(r, &["InvalidType"], "no content for a variant with some") }
                    _ => {
                        r.o.push(0x81);
                        r.ident(*i as usize, name);
                        match var {
                            Var::New(s) => r.val(s, &p[0]),
                            Var::Tup(t) => if inner { let it: Vec<_> = t.iter().zip(p).collect(); marr(r, &it) } else { other(r, &[Cl::Arr], true, &["ExpectedArray"], "no array for a tuple variant") },
                            Var::Struct(f, t) => if inner { mfields(r, f, t, p) } else { other(r, &[Cl::Map, Cl::Map1, Cl::Arr], true, &["ExpectedStruct"], "no map or array for a struct variant") },
                            Var::Unit => {}
                        }
                    }
                },
            }
        }
        (s, v) => panic!("fault {s:?} {v:?}"),
    }
    true
}
/// open some containers and fill them halfway
fn mnest(r: &mut MRen, d: usize) {
    for _ in 0..r.rng.below(d + 1) {
        let (n, k) = (r.rng.range(1, 20), r.rng.below(3));
        let map = r.rng.coin();
        let full = n.min(k);
        r.e(|e| if map { e.map(n) } else { e.arr(n) });
        let k = if map { 2 * full } else { full };
        // the next item is still inside
        let k = k.min(if map { 2 * n - 1 } else { n - 1 });
        for _ in 0..k { let m = gen_tree(r.rng, 1, false); r.e(|e| e.tree(&m)) }
    }
}
fn msoup(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| if r.coin() { r.next() as u8 } else { *r.pick(&[0xc0u8, 0x81, 0x90, 0xa1, 0xc1, 0x00, 0xff]) }).collect() }
fn x09_msgpack(c: &mut Ctx) -> R {
    for _ in 0..20 {
        let (s, v) = mval(&mut c.rng);
        let st = mstyle(&mut c.rng);
        let k = nodes(&v);
        let left = if c.rng.one_in(3) { 0 } else { c.rng.below(k) };
        let mut r = MRen { rng: &mut c.rng, st, o: vec![], flt: fault(left, false) };
        r.val(&s, &v);
        let (mut o, f) = (r.o, r.flt.unwrap());
        let Some(h) = f.hit else { continue };
        what_follows(&mut c.rng, &f, &mut o, msoup);
        c.seen(&o);
        c.sample(|| format!("{}: {} as {}", h.1, hex(&o), short(&s)));
        let (res, _) = mrun_n(&s, &o)?;
        return judge(c, res, h, || format!("{} as {}", hex(&o), short(&s)));
    }
    Ok(())
}
fn x09_many(c: &mut Ctx) -> R {
    let ext = c.rng.coin();
    let st = mstyle(&mut c.rng);
    let mut r = MRen { rng: &mut c.rng, st, o: vec![], flt: None };
    mnest(&mut r, 4);
    let mut o = r.o;
    let at = o.len();
    if ext { let x = loop { let x = object(&mut c.rng); if x.0 == Cl::Ext { break x.1 } }; o.extend(x) } else { o.push(0xc1) }
    o.extend(msoup(&mut c.rng, 24));
    c.seen(&o);
    let doc = || format!("{} (at {at})", hex(&o));
    judge(c, mde::<Any>(&o), if ext { (&["UnsupportedExt"], "extension in a tree") } else { (&["ReservedCode"], "reserved code in a tree") }, doc)?;
    if !ext {
        judge(c, mde::<IgnoredAny>(&o), (&["ReservedCode"], "reserved code in an ignored value"), doc)?;
        judge(c, ser_write_msgpack::de::Deserializer::from_slice(&o).eat_message(), (&["ReservedCode"], "reserved code in a skipped message"), doc)?;
    }
    Ok(())
}
// ---------------------------------------------------------------- serializers
/// wrap a value into containers that are right
fn wrap(r: &mut Rng, a: Act, d: usize) -> Act {
    if d == 0 { return a }
    let x = match r.below(7) {
        0 => { let pre = r.below(3); let mut items: Vec<Act> = (0..pre).map(|_| gen_act(r, 1, false)).filter(right).collect(); items.push(a); Act::Seq { hint: Some(items.len() + 1), items: { items.push(Act::Leaf(Sch::Bool, Val::Bool(true))); items } } }
        1 => Act::Map { hint: Some(1), items: vec![(Act::Leaf(Sch::Str(true), Val::Str("k".into())), a)] },
        2 => Act::Tuple { kind: r.below(3) as u8, len: 2, items: vec![Act::Leaf(Sch::U8, Val::U(1)), a] },
        3 => Act::Struct { kind: r.below(2) as u8, len: 1, names: names(r, 1), items: vec![Some(a)] },
        4 => Act::Some(Box::new(a)), 5 => Act::New(Box::new(a)), _ => Act::NewVar(Box::new(a)),
    };
    wrap(r, x, d - 1)
}
fn right(a: &Act) -> bool { matches!(a, Act::Leaf(..)) }
fn x09_ser(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let n = match r.below(6) { 0 => 0, 1 => 1, 5 => *r.pick(&[14usize, 15, 16, 17]), _ => r.range(2, 9) };
    let leaf = |r: &mut Rng| { let s = scalar(r, GJ); let v = value(r, &s, &mut 6); Act::Leaf(s, v) };
    let wrong = |r: &mut Rng| loop { let k = match r.below(5) { 0 => n + 1, 1 => n.wrapping_sub(1), 2 => 0, 3 => n + 16, _ => n * 2 }; if k != n && k < 100 { break k } };
    let items: Vec<Act> = (0..n).map(|_| leaf(r)).collect();
    let hint = |r: &mut Rng| if r.one_in(3) { None } else { Some(wrong(r)) };
    let (a, by): (Act, [&'static str; 3]) = match r.below(6) {
        0 => (Act::Seq { hint: hint(r), items }, ["SeqLength"; 3]),
        1 => (Act::Map { hint: hint(r), items: items.into_iter().enumerate().map(|(i, v)| (Act::Leaf(Sch::U8, Val::U(i as u64)), v)).collect() }, ["MapLength"; 3]),
        2 => (Act::Tuple { kind: r.below(3) as u8, len: wrong(r), items }, ["SeqLength"; 3]),
        3 | 4 => (Act::Struct { kind: r.below(2) as u8, len: wrong(r), names: names(r, n), items: items.into_iter().map(Some).collect() }, ["SeqLength", "MapLength", "MapLength"]),
        _ => { // a field skipped before others
            let mut it: Vec<Option<Act>> = items.into_iter().map(Some).collect();
            it.push(Some(Act::Leaf(Sch::U8, Val::U(7))));
            let len = it.len();
            let at = r.below(len);
            it.insert(at, None);
            (Act::Struct { kind: r.below(2) as u8, len, names: names(r, len + 1), items: it }, ["FieldSkipped", "", ""])
        }
    };
    let d = r.below(4);
    let a = wrap(r, a, d);
    for (f, want) in FLS.into_iter().zip(by) {
        let mut w = MonW::new();
        use serde::Serialize;
        use ser_write_msgpack as m;
        let got = match f { Fl::Compact => m::to_writer_compact(&mut w, &a), Fl::Idx => m::to_writer(&mut w, &a), Fl::Named => m::to_writer_named(&mut w, &a) };
        if want.is_empty() { c.eval(); if let Err(e) = got { return Err(format!("{} ({f:?}) refused: {e:?}", short(&a))) } continue }
        let k: (Kinds, &'static str) = match want { "SeqLength" => (&["SeqLength"], "wrong number of elements serialized"), "MapLength" => (&["MapLength"], "wrong number of entries serialized"), _ => (&["FieldSkipped"], "inexpressible skipped field serialized") };
        judge(c, got, k, || format!("{} ({f:?})", short(&a)))?;
    }
    c.seen(format!("{a:?}").as_bytes());
    Ok(())
}
pub fn x09(t: Tier) -> Vec<Workload> {
    vec![wl("JSON documents", n(t, 400_000, 20_000_000, 60), x09_json), wl("JSON trees", n(t, 200_000, 10_000_000, 30), x09_jany),
        wl("MessagePack messages", n(t, 300_000, 15_000_000, 60), x09_msgpack), wl("MessagePack trees", n(t, 100_000, 5_000_000, 20), x09_many), wl("serialized lengths", n(t, 100_000, 5_000_000, 20), x09_ser)]
}
