//! Independent JSON reference: structural parser, typed decoding with certainty, image matcher, renderer.
use crate::model::*;
use crate::rng::Rng;
use crate::sink::BM;

#[derive(Clone, Debug)]
pub struct JS { pub raw: Vec<u8>, pub dec: Option<Vec<u8>> }
impl JS {
    pub fn text(&self) -> Option<&str> { self.dec.as_deref().and_then(|b| std::str::from_utf8(b).ok()) }
    pub fn escaped(&self) -> bool { self.raw.contains(&b'\\') }
}
#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Num(String), Str(JS), Arr(Vec<J>), Obj(Vec<(JS, J)>) }

struct P<'a> { b: &'a [u8], i: usize, ws: bool, depth: usize, maxdepth: usize }
pub struct Parsed { pub j: J, pub ws: bool, pub depth: usize }

/// Exactly one structurally valid JSON text (number lexemes and string contents are judged separately).
pub fn parse(b: &[u8]) -> Result<Parsed, usize> {
    let mut p = P { b, i: 0, ws: false, depth: 0, maxdepth: 0 };
    let j = p.value()?;
    p.skip();
    if p.i != b.len() { return Err(p.i) }
    Ok(Parsed { j, ws: p.ws, depth: p.maxdepth })
}
fn numch(c: u8) -> bool { matches!(c, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E') }
impl P<'_> {
    fn skip(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], 0x20 | 0x09 | 0x0a | 0x0d) { self.i += 1; self.ws = true } }
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    fn lit(&mut self, t: &[u8], j: J) -> Result<J, usize> { if self.b[self.i..].starts_with(t) { self.i += t.len(); Ok(j) } else { Err(self.i) } }
    fn value(&mut self) -> Result<J, usize> {
        self.skip();
        match self.peek().ok_or(self.i)? {
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1; self.enter();
                let mut v = vec![];
                self.skip();
                if self.peek() == Some(b']') { self.i += 1; self.depth -= 1; return Ok(J::Arr(v)) }
                loop {
                    v.push(self.value()?);
                    self.skip();
                    match self.peek() { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; self.depth -= 1; return Ok(J::Arr(v)) } _ => return Err(self.i) }
                }
            }
            b'{' => {
                self.i += 1; self.enter();
                let mut v = vec![];
                self.skip();
                if self.peek() == Some(b'}') { self.i += 1; self.depth -= 1; return Ok(J::Obj(v)) }
                loop {
                    self.skip();
                    if self.peek() != Some(b'"') { return Err(self.i) }
                    let k = self.string()?;
                    self.skip();
                    if self.peek() != Some(b':') { return Err(self.i) }
                    self.i += 1;
                    v.push((k, self.value()?));
                    self.skip();
                    match self.peek() { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; self.depth -= 1; return Ok(J::Obj(v)) } _ => return Err(self.i) }
                }
            }
            b'e' | b'E' => Err(self.i),
            c if numch(c) => {
                let s = self.i;
                while self.i < self.b.len() && numch(self.b[self.i]) { self.i += 1 }
                Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
            }
            _ => Err(self.i),
        }
    }
    fn enter(&mut self) { self.depth += 1; self.maxdepth = self.maxdepth.max(self.depth) }
    fn string(&mut self) -> Result<JS, usize> {
        self.i += 1;
        let s = self.i;
        loop {
            match self.peek().ok_or(self.i)? {
                b'"' => break,
                0..=0x1f => return Err(self.i),
                b'\\' => { self.i += 1; if self.peek().ok_or(self.i)? < 0x20 { return Err(self.i) } self.i += 1 }
                _ => self.i += 1,
            }
        }
        let raw = self.b[s..self.i].to_vec();
        self.i += 1;
        let dec = unescape(&raw);
        Ok(JS { raw, dec })
    }
}
/// RFC 8259 string decoding; None for invalid escapes or unpaired surrogates. UTF-8 is not checked here.
pub fn unescape(raw: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    let hex4 = |i: usize| -> Option<u32> {
        let h = raw.get(i..i + 4)?;
        let mut v = 0;
        for c in h { v = v * 16 + (*c as char).to_digit(16)? }
        Some(v)
    };
    while i < raw.len() {
        if raw[i] != b'\\' { o.push(raw[i]); i += 1; continue }
        i += 1;
        match *raw.get(i)? {
            c @ (b'"' | b'\\' | b'/') => o.push(c),
            b'b' => o.push(8), b't' => o.push(9), b'n' => o.push(10), b'f' => o.push(12), b'r' => o.push(13),
            b'u' => {
                let mut c = hex4(i + 1)?;
                i += 4;
                if (0xd800..0xdc00).contains(&c) {
                    if raw.get(i + 1..i + 3)? != b"\\u" { return None }
                    let l = hex4(i + 3)?;
                    if !(0xdc00..0xe000).contains(&l) { return None }
                    c = 0x10000 + ((c - 0xd800) << 10) + (l - 0xdc00);
                    i += 6;
                }
                let mut t = [0; 4];
                o.extend_from_slice(char::from_u32(c)?.encode_utf8(&mut t).as_bytes());
            }
            _ => return None,
        }
        i += 1;
    }
    Some(o)
}
/// RFC 8259 number grammar.
pub fn strict_num(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if b.get(i) == Some(&b'-') { i += 1 }
    match b.get(i) { Some(b'0') => i += 1, Some(b'1'..=b'9') => while matches!(b.get(i), Some(b'0'..=b'9')) { i += 1 }, _ => return false }
    if b.get(i) == Some(&b'.') { i += 1; let s = i; while matches!(b.get(i), Some(b'0'..=b'9')) { i += 1 } if s == i { return false } }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) { i += 1 }
        let s = i; while matches!(b.get(i), Some(b'0'..=b'9')) { i += 1 } if s == i { return false }
    }
    i == b.len()
}
pub fn plain_int(s: &str) -> bool { strict_num(s) && !s.bytes().any(|c| matches!(c, b'.' | b'e' | b'E')) }
/// The exact integer a (possibly sloppy) lexeme denotes, if it denotes one.
pub fn exact_int(s: &str) -> Option<i128> {
    let (neg, r) = match s.as_bytes().first()? { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    let (m, e) = match r.find(['e', 'E']) { Some(p) => (&r[..p], r[p + 1..].parse::<i64>().ok()?), None => (r, 0) };
    let (a, f) = match m.find('.') { Some(p) => (&m[..p], &m[p + 1..]), None => (m, "") };
    if a.is_empty() && f.is_empty() || !a.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) { return None }
    let mut d: Vec<u8> = a.bytes().chain(f.bytes()).map(|c| c - b'0').collect();
    let mut e = e.checked_sub(f.len() as i64)?;
    if d.iter().all(|c| *c == 0) { return Some(0) }
    while e < 0 { if d.last() == Some(&0) { d.pop(); e += 1 } else { return None } }
    if e > 40 { return None }
    for _ in 0..e { d.push(0) }
    let mut v: i128 = 0;
    for c in d { v = v.checked_mul(10)?.checked_add(c as i128)? }
    Some(if neg { -v } else { v })
}

// ---------------------------------------------------------------- codecs (independent)
pub fn hex_upper(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02X}")).collect() }
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    let mut acc = 0u32;
    let mut n = 0;
    for x in b {
        acc = (acc << 8) | *x as u32; n += 8;
        while n >= 6 { n -= 6; s.push(B64[(acc >> n) as usize & 63] as char) }
    }
    if n > 0 { s.push(B64[(acc << (6 - n)) as usize & 63] as char) }
    s
}
/// Some((bytes, canonical)) for alphabet characters followed by any number of '='.
pub fn b64_dec(s: &[u8]) -> Option<(Vec<u8>, Cert)> {
    let end = s.iter().position(|c| *c == b'=').unwrap_or(s.len());
    if s[end..].iter().any(|c| *c != b'=') { return None }
    let pads = s.len() - end;
    let (mut acc, mut n) = (0u32, 0);
    let mut o = vec![];
    for c in &s[..end] {
        let v = B64.iter().position(|x| x == c)? as u32;
        acc = (acc << 6) | v; n += 6;
        if n >= 8 { n -= 8; o.push((acc >> n) as u8); acc &= (1 << n) - 1 }
    }
    let c = if end % 4 == 1 { Cert::Free } else if pads > 0 && (end + pads) % 4 != 0 || pads > 2 { Cert::Free } else if acc != 0 { Cert::May } else { Cert::Must };
    Some((o, c))
}
pub fn hex_dec(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 { return None }
    s.chunks(2).map(|p| Some(((p[0] as char).to_digit(16)? * 16 + (p[1] as char).to_digit(16)?) as u8)).collect()
}

// ---------------------------------------------------------------- typed decoding
/// Must: has to succeed with exactly this value. May: error or exactly this value. Free: no opinion.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Cert { Must, May, Free }
pub type D = Option<(Val, Cert)>; // None: has to be rejected
fn int(s: &Sch, n: i128) -> Option<Val> {
    Some(match s {
        Sch::I8 => Val::I(i8::try_from(n).ok()? as i64), Sch::I16 => Val::I(i16::try_from(n).ok()? as i64),
        Sch::I32 => Val::I(i32::try_from(n).ok()? as i64), Sch::I64 => Val::I(i64::try_from(n).ok()?),
        Sch::U8 => Val::U(u8::try_from(n).ok()? as u64), Sch::U16 => Val::U(u16::try_from(n).ok()? as u64),
        Sch::U32 => Val::U(u32::try_from(n).ok()? as u64), Sch::U64 => Val::U(u64::try_from(n).ok()?),
        _ => return None,
    })
}
fn int_lex(s: &Sch, l: &str) -> D {
    let n = exact_int(l)?;
    let v = int(s, n)?;
    let unsigned = matches!(s, Sch::U8 | Sch::U16 | Sch::U32 | Sch::U64);
    Some((v, if plain_int(l) && !(unsigned && l.starts_with('-')) { Cert::Must } else { Cert::May }))
}
fn list(it: impl Iterator<Item = D>) -> Option<(Vec<Val>, Cert)> {
    let mut c = Cert::Must;
    let mut v = vec![];
    for d in it { let (x, y) = d?; c = c.max(y); v.push(x) }
    Some((v, c))
}
fn utf(s: &JS) -> Option<String> { s.text().map(|t| t.to_owned()) }
pub fn bytes_of(j: &J, m: BM) -> Option<(Vec<u8>, Cert)> {
    match j {
        J::Str(s) => match m {
            BM::Arr | BM::Pass => s.dec.clone().map(|d| (d, Cert::Must)),
            BM::Hex => if s.escaped() { Some((vec![], Cert::Free)) } else { hex_dec(&s.raw).map(|d| (d, Cert::Must)) },
            BM::B64 => if s.escaped() { Some((vec![], Cert::Free)) } else { b64_dec(&s.raw) },
        },
        J::Arr(a) => {
            let (v, c) = list(a.iter().map(|x| match x { J::Num(l) => int_lex(&Sch::U8, l), _ => None }))?;
            Some((v.into_iter().map(|x| if let Val::U(n) = x { n as u8 } else { unreachable!() }).collect(), c))
        }
        _ => None,
    }
}
fn fields(n: Names, t: &[Sch], j: &J, m: BM) -> Option<(Vec<Val>, Cert)> {
    match j {
        J::Arr(a) => if a.len() == t.len() { list(a.iter().zip(t).map(|(x, s)| decode(s, x, m))) } else { None },
        J::Obj(o) => {
            let mut v: Vec<Option<Val>> = vec![None; t.len()];
            let mut c = Cert::Must;
            for (k, x) in o {
                let k = utf(k)?;
                match n.iter().position(|y| *y == k) {
                    Some(i) => { if v[i].is_some() { return None } let (y, d) = decode(&t[i], x, m)?; c = c.max(d); v[i] = Some(y) }
                    None => { let (_, d) = decode(&Sch::Ignore, x, m)?; c = c.max(d) }
                }
            }
            let mut o = vec![];
            for (x, s) in v.into_iter().zip(t) { o.push(match (x, s) { (Some(x), _) => x, (None, Sch::Opt(_)) => Val::None, _ => return None }) }
            Some((o, c))
        }
        _ => None,
    }
}
pub fn decode(s: &Sch, j: &J, m: BM) -> D {
    use Cert::*;
    use Sch::*;
    match (s, j) {
        (Ignore, j) => ignore(j).map(|c| (Val::Unit, c)),
        (Unit | UnitStruct, J::Null) => Some((Val::Unit, Must)),
        (Bool, J::Bool(b)) => Some((Val::Bool(*b), Must)),
        (I8 | I16 | I32 | I64 | U8 | U16 | U32 | U64, J::Num(l)) => int_lex(s, l),
        (F32, J::Null) => Some((Val::F32(f32::NAN), Must)),
        (F64, J::Null) => Some((Val::F64(f64::NAN), Must)),
        (F32, J::Num(l)) => { let f: f32 = l.parse().ok()?; Some((Val::F32(f), if strict_num(l) && f.is_finite() { Must } else { Free })) }
        (F64, J::Num(l)) => { let f: f64 = l.parse().ok()?; Some((Val::F64(f), if strict_num(l) && f.is_finite() { Must } else { Free })) }
        (Char, J::Str(x)) => { let t = utf(x)?; let mut c = t.chars(); match (c.next(), c.next()) { (Some(c), None) => Some((Val::Char(c), Must)), _ => None } }
        (Str(_) | Fmt, J::Str(x)) => Some((Val::Str(utf(x)?), Must)),
        (Bytes(_), j) => bytes_of(j, m).map(|(b, c)| (Val::Bytes(b), c)),
        (Opt(_), J::Null) => Some((Val::None, Must)),
        (Opt(i), j) => decode(i, j, m).map(|(v, c)| (Val::Some(Box::new(v)), c)),
        (Newtype(i), j) => decode(i, j, m).map(|(v, c)| (Val::New(Box::new(v)), c)),
        (Seq(i), J::Arr(a)) => list(a.iter().map(|x| decode(i, x, m))).map(|(v, c)| (Val::Seq(v), c)),
        (Tuple(t) | TupStruct(t), J::Arr(a)) => if a.len() == t.len() { list(a.iter().zip(t).map(|(x, s)| decode(s, x, m))).map(|(v, c)| (Val::Seq(v), c)) } else { None },
        (Map(k, e), J::Obj(o)) => {
            let mut v = vec![];
            let mut c = Must;
            for (a, b) in o { let (x, d) = key(k, a)?; let (y, f) = decode(e, b, m)?; c = c.max(d).max(f); v.push((x, y)) }
            Some((Val::Map(v), c))
        }
        (Struct(n, t), j) => fields(n, t, j, m).map(|(v, c)| (Val::Seq(v), c)),
        (Enum(n, vs), J::Str(x)) => { let t = utf(x)?; let i = n.iter().position(|y| *y == t)?; if let Var::Unit = vs[i] { Some((Val::Enum(i as u32, vec![]), Must)) } else { None } }
        (Enum(n, vs), J::Obj(o)) => {
            if o.len() != 1 { return None }
            let t = utf(&o[0].0)?;
            let i = n.iter().position(|y| *y == t)?;
            let p = &o[0].1;
            let (v, c) = match &vs[i] {
                Var::Unit => if let J::Null = p { (vec![], May) } else { return None },
                Var::New(s) => { let (v, c) = decode(s, p, m)?; (vec![v], c) }
                Var::Tup(t) => if let J::Arr(_) = p { fields(&[], t, p, m)? } else { return None },
                Var::Struct(f, t) => fields(f, t, p, m)?,
            };
            Some((Val::Enum(i as u32, v), c))
        }
        _ => None,
    }
}
/// Could a JSON number begin like this?
pub fn begins_num(l: &str) -> bool { matches!(l.as_bytes().first(), Some(b'0'..=b'9' | b'-')) }
fn ignore(j: &J) -> Option<Cert> {
    Some(match j {
        J::Null | J::Bool(_) => Cert::Must,
        J::Num(l) => if strict_num(l) { Cert::Must } else if begins_num(l) { Cert::Free } else { return None },
        J::Str(s) => if s.text().is_some() { Cert::Must } else { Cert::Free },
        J::Arr(a) => { let mut c = Cert::Must; for x in a { c = c.max(ignore(x)?) } c }
        J::Obj(o) => { let mut c = Cert::Must; for (k, x) in o { c = c.max(ignore(x)?); if k.text().is_none() { c = Cert::Free } } c }
    })
}
fn key(s: &Sch, k: &JS) -> D {
    use Sch::*;
    let ws = k.raw.iter().take_while(|c| matches!(c, 0x20 | 9 | 10 | 13)).count();
    let sloppy = |v: Val| Some((v, if k.escaped() || ws > 0 { Cert::May } else { Cert::Must }));
    match s {
        I8 | I16 | I32 | I64 | U8 | U16 | U32 | U64 => { let t = utf(k)?; let (v, c) = int_lex(s, &t[ws.min(t.len())..])?; if c == Cert::Must { sloppy(v) } else { Some((v, c)) } }
        Bool => match utf(k)?.get(ws..)? { "true" => sloppy(Val::Bool(true)), "false" => sloppy(Val::Bool(false)), _ => None },
        Char | Str(_) | Fmt => decode(s, &J::Str(k.clone()), BM::Arr),
        Newtype(i) => key(i, k).map(|(v, c)| (Val::New(Box::new(v)), c)),
        Enum(..) => decode(s, &J::Str(k.clone()), BM::Arr),
        _ => Some((Val::Unit, Cert::Free)),
    }
}
/// None: must be rejected.
pub fn decode_text(s: &Sch, b: &[u8], m: BM) -> D { decode(s, &parse(b).ok()?.j, m) }

// ---------------------------------------------------------------- image of a serialized value
fn key_text(s: &Sch, v: &Val) -> Option<String> {
    Some(match (s, v) {
        (Sch::Bool, Val::Bool(b)) => b.to_string(), (_, Val::I(n)) => n.to_string(), (_, Val::U(n)) => n.to_string(),
        (Sch::Char, Val::Char(c)) => c.to_string(), (Sch::Str(_) | Sch::Fmt, Val::Str(s)) => s.clone(),
        (Sch::Newtype(s), Val::New(v)) => return key_text(s, v),
        (Sch::Enum(n, vs), Val::Enum(i, _)) if vs[*i as usize] == Var::Unit => n[*i as usize].to_string(),
        _ => return None,
    })
}
fn bad<T>(s: &Sch, v: &Val, j: &J) -> Result<T, String> { Err(format!("output denotes {j:?} instead of {v:?} (type {s:?})")) }
/// Does the parsed output denote exactly the documented image of the value?
pub fn image(s: &Sch, v: &Val, j: &J, m: BM) -> Result<(), String> {
    use Sch::*;
    let ok = match (s, v, j) {
        (Unit | UnitStruct, _, J::Null) | (Opt(_), Val::None, J::Null) => true,
        (Bool, Val::Bool(a), J::Bool(b)) => a == b,
        (_, Val::I(n), J::Num(l)) => *l == n.to_string(),
        (_, Val::U(n), J::Num(l)) => *l == n.to_string(),
        (F32, Val::F32(f), J::Null) => !f.is_finite(),
        (F64, Val::F64(f), J::Null) => !f.is_finite(),
        (F32, Val::F32(f), J::Num(l)) => f.is_finite() && strict_num(l) && l.parse::<f32>() == Ok(*f),
        (F64, Val::F64(f), J::Num(l)) => f.is_finite() && strict_num(l) && l.parse::<f64>() == Ok(*f),
        (Char, Val::Char(c), J::Str(x)) => x.text() == Some(c.encode_utf8(&mut [0; 4])),
        (Str(_) | Fmt, Val::Str(t), J::Str(x)) => x.text() == Some(t),
        (Bytes(_), Val::Bytes(b), J::Arr(a)) => m == BM::Arr && a.len() == b.len() && a.iter().zip(b).all(|(x, n)| matches!(x, J::Num(l) if *l == n.to_string())),
        (Bytes(_), Val::Bytes(b), J::Str(x)) => match m { BM::Hex => x.raw == hex_upper(b).as_bytes(), BM::B64 => x.raw == b64(b).as_bytes(), _ => false },
        (Opt(i), Val::Some(v), j) | (Newtype(i), Val::New(v), j) => return image(i, v, j, m),
        (Seq(i), Val::Seq(v), J::Arr(a)) => { if a.len() != v.len() { return bad(s, &Val::Seq(v.clone()), j) } for (x, y) in v.iter().zip(a) { image(i, x, y, m)? } true }
        (Tuple(t) | TupStruct(t), Val::Seq(v), J::Arr(a)) => return arr(t, v, a, m),
        (Map(k, e), Val::Map(v), J::Obj(o)) => {
            if v.len() != o.len() { return bad(s, &Val::Map(v.clone()), j) }
            for ((a, b), (c, d)) in v.iter().zip(o) {
                if key_text(k, a).as_deref() != c.text() || c.text().is_none() { return Err(format!("key {a:?} written as {:?}", String::from_utf8_lossy(&c.raw))) }
                image(e, b, d, m)?
            }
            true
        }
        (Struct(n, t), Val::Seq(v), J::Obj(o)) => return obj(n, t, v, o, m),
        (Enum(n, vs), Val::Enum(i, p), j) => {
            let name = n[*i as usize];
            match (&vs[*i as usize], j) {
                (Var::Unit, J::Str(x)) => x.text() == Some(name),
                (var, J::Obj(o)) if o.len() == 1 && o[0].0.text() == Some(name) => match (var, &o[0].1) {
                    (Var::New(s), x) => return image(s, &p[0], x, m),
                    (Var::Tup(t), J::Arr(a)) => return arr(t, p, a, m),
                    (Var::Struct(f, t), J::Obj(o)) => return obj(f, t, p, o, m),
                    _ => false,
                },
                _ => false,
            }
        }
        _ => false,
    };
    if ok { Ok(()) } else { bad(s, v, j) }
}
fn arr(t: &[Sch], v: &[Val], a: &[J], m: BM) -> Result<(), String> {
    if a.len() != t.len() { return Err(format!("array of {} instead of {} elements", a.len(), t.len())) }
    for ((s, x), y) in t.iter().zip(v).zip(a) { image(s, x, y, m)? }
    Ok(())
}
fn obj(n: Names, t: &[Sch], v: &[Val], o: &[(JS, J)], m: BM) -> Result<(), String> {
    if o.len() != n.len() { return Err(format!("object of {} instead of {} members", o.len(), n.len())) }
    for (((n, s), x), (k, y)) in n.iter().zip(t).zip(v).zip(o) {
        if k.text() != Some(n) { return Err(format!("member {n:?} written as {:?}", String::from_utf8_lossy(&k.raw))) }
        image(s, x, y, m)?
    }
    Ok(())
}

// ---------------------------------------------------------------- renderer
/// How wild the formatting is.
#[derive(Clone, Copy)]
pub struct Style { pub ws: usize, pub esc: usize, pub reorder: bool, pub unknown: bool, pub arrays: bool, pub floats: bool, pub omit: bool }
pub const PLAIN: Style = Style { ws: 0, esc: 0, reorder: false, unknown: false, arrays: false, floats: false, omit: false };
pub fn style(rng: &mut Rng) -> Style {
    Style { ws: *rng.pick(&[0, 0, 2, 5, 12]), esc: *rng.pick(&[0, 1, 2, 4, 10]), reorder: rng.coin(), unknown: rng.coin(), arrays: rng.one_in(3), floats: rng.coin(), omit: rng.one_in(4) }
}
/// A mistake to make at one node of a document, and the names an error may give it.
pub struct Fault { /** nodes to pass first */ pub left: usize, pub under_opt: bool, /** where the mistake is complete */ pub at: usize, /** for a generic tree (otherwise ignored) */ pub tree: bool, /** the mistake was made */ pub hit: Option<(&'static [&'static str], &'static str)> }
pub struct Ren<'r> { pub rng: &'r mut Rng, pub st: Style, pub o: Vec<u8>, pub m: BM, pub flt: Option<Fault> }
impl Ren<'_> {
    pub fn ws(&mut self) {
        if let Some(n) = crate::big::take(self.rng, 40, 20_000) { let m = self.rng.below(5); for _ in 0..n { let c = if m == 4 { *self.rng.pick(b" \n\t\r") } else { b" \n\t\r"[m] }; self.o.push(c) } return }
        if self.st.ws == 0 { return }
        let n = if self.rng.one_in(3) { self.rng.below(self.st.ws) } else { 0 };
        for _ in 0..n { let c = *self.rng.pick(&[b' ', b'\n', b'\t', b'\r']); self.o.push(c) }
    }
    pub fn put(&mut self, s: &str) { self.o.extend_from_slice(s.as_bytes()) }
    /// quoted string with random escapes
    pub fn string(&mut self, s: &str) {
        self.o.push(b'"');
        for c in s.chars() {
            let r = self.st.esc > 0 && self.rng.below(self.st.esc) == 0;
            let must = matches!(c, '"' | '\\') || c < ' ';
            if !r && !must { let mut t = [0; 4]; let e = c.encode_utf8(&mut t).to_owned(); self.put(&e); continue }
            let short = match c { '"' => Some('"'), '\\' => Some('\\'), '/' => Some('/'), '\u{8}' => Some('b'), '\t' => Some('t'), '\n' => Some('n'), '\u{c}' => Some('f'), '\r' => Some('r'), _ => None };
            match short {
                Some(e) if self.rng.below(3) > 0 => { self.o.push(b'\\'); self.o.push(e as u8) }
                _ => { let mut t = [0; 2]; for u in c.encode_utf16(&mut t).to_vec() { self.uesc(u) } }
            }
        }
        self.o.push(b'"');
    }
    fn uesc(&mut self, u: u16) {
        self.put("\\u");
        let h = format!("{u:04x}");
        for c in h.chars() { let c = if self.rng.coin() { c.to_ascii_uppercase() } else { c }; self.o.push(c as u8) }
    }
    /// a spelling of the shortest digits `d` times ten to the `e`
    fn float(&mut self, sci: String) {
        if !self.st.floats { let s = sci; self.put(&s); return }
        let (neg, r) = match sci.strip_prefix('-') { Some(r) => (true, r), None => (false, &sci[..]) };
        let (m, e) = r.split_once('e').unwrap();
        let mut e: i64 = e.parse().unwrap();
        let (a, f) = m.split_once('.').unwrap_or((m, ""));
        let mut d = format!("{a}{f}");
        e -= f.len() as i64;
        for _ in 0..self.rng.below(4) { d.push('0'); e -= 1 }
        if let Some(n) = crate::big::take(self.rng, 4, 3_000) { for _ in 0..n { d.push('0') } e -= n as i64 }
        // put the point after k digits, prefixing zeros when k <= 0
        let k = self.rng.range(0, 2 * d.len() + 2) as i64 - d.len() as i64 / 2;
        let mut s = String::new();
        if neg { s.push('-') }
        let e2 = if k <= 0 {
            s.push_str("0."); for _ in 0..-k { s.push('0') } s.push_str(&d);
            e + d.len() as i64 - k
        } else if k as usize >= d.len() {
            let z = k as usize - d.len();
            let dd = d.trim_start_matches('0');
            if dd.is_empty() { s.push('0') } else { s.push_str(dd); for _ in 0..z { s.push('0') } }
            let e3 = e - z as i64;
            if self.rng.coin() { s.push('.'); for _ in 0..self.rng.range(1, 3) { s.push('0') } }
            e3
        } else {
            let (x, y) = d.split_at(k as usize);
            let x = x.trim_start_matches('0');
            s.push_str(if x.is_empty() { "0" } else { x }); s.push('.'); s.push_str(y);
            e + y.len() as i64
        };
        // the exponent: value = (mantissa as written) * 10^e2, where written mantissa has its own point
        let e2 = e2;
        if e2 != 0 || self.rng.coin() {
            s.push(if self.rng.coin() { 'e' } else { 'E' });
            if e2 < 0 { s.push('-') } else if self.rng.coin() { s.push('+') }
            if self.rng.one_in(3) { s.push('0') }
            if let Some(n) = crate::big::take(self.rng, 8, 2_000) { for _ in 0..n { s.push('0') } }
            s.push_str(&e2.abs().to_string());
        }
        self.put(&s)
    }
    pub fn sep(&mut self, first: &mut bool) { if !*first { self.ws(); self.o.push(b',') } *first = false; self.ws() }
    pub fn array(&mut self, t: &mut dyn Iterator<Item = (&Sch, &Val)>) {
        self.o.push(b'[');
        let mut f = true;
        for (s, v) in t { self.sep(&mut f); self.val(s, v) }
        self.ws(); self.o.push(b']')
    }
    pub fn fields(&mut self, n: Names, t: &[Sch], v: &[Val]) {
        if self.st.arrays && self.rng.coin() { return self.array(&mut t.iter().zip(v)) }
        let mut ord: Vec<usize> = (0..n.len()).collect();
        if self.st.reorder { self.rng.shuffle(&mut ord) }
        self.o.push(b'{');
        let mut f = true;
        for i in ord {
            self.unknown(n, &mut f);
            if self.st.omit && matches!((&t[i], &v[i]), (Sch::Opt(_), Val::None)) && self.rng.coin() { continue }
            self.sep(&mut f);
            self.string(n[i]); self.ws(); self.o.push(b':'); self.ws();
            self.val(&t[i], &v[i]);
        }
        self.unknown(n, &mut f);
        self.ws(); self.o.push(b'}')
    }
    pub fn unknown(&mut self, n: Names, f: &mut bool) {
        while self.st.unknown && self.rng.one_in(3) {
            let k = loop { let k = gen_str_short(self.rng); if !n.contains(&&k[..]) { break k } };
            self.sep(f);
            self.string(&k); self.ws(); self.o.push(b':'); self.ws();
            self.any(3);
        }
    }
    pub fn key(&mut self, s: &Sch, v: &Val) {
        if self.flt.is_some() && crate::c_err::jkey(self, s, v) { return }
        let t = key_text(s, v).expect("key");
        let raw = matches!(v, Val::Bool(_) | Val::I(_) | Val::U(_)) || { let mut v = v; while let Val::New(i) = v { v = i } matches!(v, Val::Bool(_) | Val::I(_) | Val::U(_)) };
        if raw { self.o.push(b'"'); self.put(&t); self.o.push(b'"') } else { self.string(&t) }
    }
    pub fn val(&mut self, s: &Sch, v: &Val) {
        use Sch::*;
        if self.flt.is_some() && crate::c_err::jnode(self, s, v) { return }
        match (s, v) {
            (Ignore, _) => self.any(3),
            (Unit | UnitStruct, _) | (Opt(_), Val::None) => self.put("null"),
            (_, Val::Bool(b)) => self.put(if *b { "true" } else { "false" }),
            (_, Val::I(n)) => self.put(&n.to_string()),
            (_, Val::U(n)) => self.put(&n.to_string()),
            (_, Val::F32(f)) => if f.is_finite() { self.float(format!("{f:e}")) } else { self.put("null") },
            (_, Val::F64(f)) => if f.is_finite() { self.float(format!("{f:e}")) } else { self.put("null") },
            (_, Val::Char(c)) => self.string(&c.to_string()),
            (_, Val::Str(t)) => self.string(t),
            (_, Val::Bytes(b)) => match self.m {
                BM::Hex if self.rng.below(4) > 0 => {
                    self.o.push(b'"');
                    for c in hex_upper(b).chars() { let c = if self.rng.coin() { c.to_ascii_lowercase() } else { c }; self.o.push(c as u8) }
                    self.o.push(b'"')
                }
                BM::B64 if self.rng.below(4) > 0 => {
                    let mut t = b64(b);
                    if self.rng.coin() { while t.len() % 4 != 0 { t.push('=') } }
                    self.put("\""); self.put(&t); self.put("\"")
                }
                BM::Arr if self.rng.one_in(3) => if let Ok(t) = std::str::from_utf8(b) { let t = t.to_owned(); self.string(&t) } else { self.bytes_arr(b) },
                _ => self.bytes_arr(b),
            },
            (Opt(i), Val::Some(v)) => { if let Some(f) = &mut self.flt { f.under_opt = true } self.val(i, v) }
            (Newtype(i), Val::New(v)) => self.val(i, v),
            (Seq(i), Val::Seq(v)) => { let i: &Sch = i; self.array(&mut v.iter().map(|x| (i, x))) }
            (Tuple(t) | TupStruct(t), Val::Seq(v)) => self.array(&mut t.iter().zip(v)),
            (Map(k, e), Val::Map(v)) => {
                self.o.push(b'{');
                let mut f = true;
                for (a, b) in v { self.sep(&mut f); self.key(k, a); self.ws(); self.o.push(b':'); self.ws(); self.val(e, b) }
                self.ws(); self.o.push(b'}')
            }
            (Struct(n, t), Val::Seq(v)) => self.fields(n, t, v),
            (Enum(n, vs), Val::Enum(i, p)) => {
                let name = n[*i as usize];
                let var = &vs[*i as usize];
                if let Var::Unit = var { return self.string(name) }
                self.o.push(b'{'); self.ws(); self.string(name); self.ws(); self.o.push(b':'); self.ws();
                match var {
                    Var::New(s) => self.val(s, &p[0]),
                    Var::Tup(t) => self.array(&mut t.iter().zip(p)),
                    Var::Struct(f, t) => self.fields(f, t, p),
                    Var::Unit => unreachable!(),
                }
                self.ws(); self.o.push(b'}')
            }
            (s, v) => panic!("render {s:?} {v:?}"),
        }
    }
    pub fn bytes_arr(&mut self, b: &[u8]) {
        self.o.push(b'[');
        let mut f = true;
        for x in b { self.sep(&mut f); self.put(&x.to_string()) }
        self.ws(); self.o.push(b']')
    }
    /// a long array or object of small values, or deep brackets
    fn many(&mut self, n: usize) {
        if self.rng.one_in(4) { let n = n.min(250); let x = self.rng.coin(); for _ in 0..n { self.put(if x { "[" } else { "{\"\":" }) } self.put("0"); for _ in 0..n { self.put(if x { "]" } else { "}" }) } return }
        let obj = self.rng.coin();
        self.o.push(if obj { b'{' } else { b'[' });
        for i in 0..n { if i > 0 { self.o.push(b',') } if obj { self.put("\"k"); self.put(&i.to_string()); self.put("\":") } let t = *self.rng.pick(&["1", "\"\"", "null", "[]", "{}", "-2.5e3", "\"]\"", "\"\\\"\"", "[[0]]", "true"]); self.put(t) }
        self.o.push(if obj { b'}' } else { b']' })
    }
    /// any JSON value
    pub fn any(&mut self, depth: usize) {
        if self.flt.is_some() && crate::c_err::jany(self, depth) { return }
        match self.rng.below(if depth == 0 { 6 } else { 9 }) {
            0 => self.put("null"), 1 => self.put("true"), 2 => self.put("false"),
            3 => { let s = number_lexeme(self.rng); self.put(&s) }
            4 | 5 => { let s = gen_str_short(self.rng); self.string(&s) }
            6 => { if let Some(n) = crate::big::take(self.rng, 3, 20_000) { return self.many(n) } let n = self.rng.below(4); self.o.push(b'['); let mut f = true; for _ in 0..n { self.sep(&mut f); self.any(depth - 1) } self.ws(); self.o.push(b']') }
            7 => {
                let n = self.rng.below(4); self.o.push(b'{'); let mut f = true;
                for _ in 0..n { self.sep(&mut f); let k = gen_str_short(self.rng); self.string(&k); self.ws(); self.o.push(b':'); self.ws(); self.any(depth - 1) }
                self.ws(); self.o.push(b'}')
            }
            8 if self.rng.coin() => { // long runs of escapes before the closing quote
                let (k, pre, post) = (self.rng.below(20) * 2 + if self.rng.one_in(4) { 80 } else { 0 }, self.rng.below(12), self.rng.coin());
                self.o.push(b'"');
                for _ in 0..pre { let c = *self.rng.pick(&["a", "\\\\", "\\\"", "\\n", "\\u005C", "]"]); self.put(c) }
                let k = k + 2 * crate::big::take(self.rng, 2, 20_000).unwrap_or(0);
                for _ in 0..k { self.o.push(b'\\') }
                if post { self.put("\\\"") }
                self.o.push(b'"');
            }
            _ => { // strings whose ends are easy to misjudge
                let t = *self.rng.pick(&["\"\\\"\"", "\"\\\\\"", "\"\\\\\\\"\"", "\"\\\\\\\\\"", "\"a\\\"b\\\\\"", "\"]\"", "\"}\"", "\",\"", "\"\\\"]}\"", "\"\\u0022\"", "\"\\u005c\"", "\"\\\\\\\\\\\"\"", "\"{\\\"a\\\":[1,2\"", "\"\\\\u0022\""]);
                self.put(t)
            }
        }
    }
}
pub fn gen_str_short(rng: &mut Rng) -> String { let n = if let Some(n) = crate::big::take(rng, 8, 70_000) { n } else if !crate::util::tiny() && rng.one_in(40) { rng.range(41, 600) } else { *rng.pick(&[0, 1, 2, 3, 5, 8, 13, 31, 40]) }; gen_str_len(rng, n) }
/// any RFC 8259 number
pub fn number_lexeme(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.one_in(3) { s.push('-') }
    match rng.below(6) {
        0 => s.push('0'),
        1 => s.push_str(&gen_u64(rng, 64).to_string()),
        2 => { s.push((b'1' + rng.below(9) as u8) as char); for _ in 0..rng.below(30) { s.push((b'0' + rng.below(10) as u8) as char) } }
        _ => s.push_str(&rng.range(1, 999).to_string()),
    }
    if rng.one_in(3) { s.push('.'); let n = crate::big::take(rng, 4, 5_000).unwrap_or(0); for _ in 0..n + rng.range(1, 6) { s.push((b'0' + rng.below(10) as u8) as char) } }
    if rng.one_in(4) { s.push(if rng.coin() { 'e' } else { 'E' }); match rng.below(3) { 0 => s.push('+'), 1 => s.push('-'), _ => {} } if let Some(n) = crate::big::take(rng, 4, 2_000) { for _ in 0..n { s.push('0') } } s.push_str(&rng.below(30).to_string()) }
    s
}
pub fn render(rng: &mut Rng, st: Style, m: BM, s: &Sch, v: &Val) -> Vec<u8> {
    let mut r = Ren { rng, st, o: vec![], m, flt: None };
    r.ws();
    r.val(s, v);
    r.ws();
    r.o
}
