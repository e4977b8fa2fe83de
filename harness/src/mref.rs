//! Independent MessagePack reference: parser with minimality, encoder with free choice of forms, typed decoding, images.
use crate::jref::{Cert, D};
use crate::model::*;
use crate::rng::Rng;
use crate::sink::Fl;

#[derive(Clone, Debug)]
pub enum M {
    Nil, Bool(bool),
    /// value, marker byte class: 'p' posfix, 'n' negfix, 'u'/'i' + size
    Int(i128, u8),
    F32(u32), F64(u64), Str(Vec<u8>), Bin(Vec<u8>), Ext(i8, Vec<u8>), Arr(Vec<M>),
    Map(Vec<(M, M)>),
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum MErr { Eof, Reserved }
pub struct MP<'a> { pub b: &'a [u8], pub i: usize, pub minimal: bool, pub fixmaps: Vec<usize> }
impl<'a> MP<'a> {
    pub fn new(b: &'a [u8]) -> MP<'a> { MP { b, i: 0, minimal: true, fixmaps: vec![] } }
    fn take(&mut self, n: usize) -> Result<&'a [u8], MErr> {
        if self.b.len() - self.i < n { return Err(MErr::Eof) }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    fn be(&mut self, n: usize) -> Result<u64, MErr> { Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64)) }
    fn min(&mut self, ok: bool) { if !ok { self.minimal = false } }
    pub fn value(&mut self) -> Result<M, MErr> {
        let c = self.take(1)?[0];
        Ok(match c {
            0..=0x7f => M::Int(c as i128, c), 0xe0..=0xff => M::Int(c as i8 as i128, c),
            0x80..=0x8f => { self.fixmaps.push(self.i - 1); self.map((c & 15) as u64)? }
            0x90..=0x9f => self.arr((c & 15) as u64)?, 0xa0..=0xbf => M::Str(self.take((c & 31) as usize)?.to_vec()),
            0xc0 => M::Nil, 0xc1 => return Err(MErr::Reserved), 0xc2 => M::Bool(false), 0xc3 => M::Bool(true),
            0xc4..=0xc6 => { let k = c - 0xc4; let n = self.be(1 << k)?; self.min(k == 0 || n >> (4 << k) != 0); M::Bin(self.take(n as usize)?.to_vec()) }
            0xc7..=0xc9 => { let n = self.be(1 << (c - 0xc7))?; let t = self.take(1)?[0]; M::Ext(t as i8, self.take(n as usize)?.to_vec()) }
            0xca => M::F32(self.be(4)? as u32), 0xcb => M::F64(self.be(8)?),
            0xcc..=0xcf => {
                let k = c - 0xcc; let n = self.be(1 << k)?;
                self.min(if k == 0 { n > 127 } else { n >> (4 << k) != 0 });
                M::Int(n as i128, c)
            }
            0xd0..=0xd3 => {
                let k = c - 0xd0; let sz = 8u32 << k;
                let n = (self.be(1 << k)? << (64 - sz)) as i64 >> (64 - sz);
                // shortest possible: nothing in a smaller family represents it
                let need = if n >= -32 && n <= 127 { 0 } else if n >= -128 && n <= 255 { 1 } else if n >= -32768 && n <= 65535 { 2 } else if n >= i32::MIN as i64 && n <= u32::MAX as i64 { 4 } else { 8 };
                self.min(need == 1usize << k);
                M::Int(n as i128, c)
            }
            0xd4..=0xd8 => { let t = self.take(1)?[0]; M::Ext(t as i8, self.take(1 << (c - 0xd4))?.to_vec()) }
            0xd9..=0xdb => { let k = c - 0xd9; let n = self.be(1 << k)?; self.min(if k == 0 { n > 31 } else { n >> (4 << k) != 0 }); M::Str(self.take(n as usize)?.to_vec()) }
            0xdc | 0xdd => { let k = c - 0xdc; let n = self.be(2 << k)?; self.min(if k == 0 { n > 15 } else { n > 65535 }); self.arr(n)? }
            0xde | 0xdf => { let k = c - 0xde; let n = self.be(2 << k)?; self.min(if k == 0 { n > 15 } else { n > 65535 }); self.map(n)? }
        })
    }
    fn arr(&mut self, n: u64) -> Result<M, MErr> { let mut v = vec![]; for _ in 0..n { v.push(self.value()?) } Ok(M::Arr(v)) }
    fn map(&mut self, n: u64) -> Result<M, MErr> { let mut v = vec![]; for _ in 0..n { let k = self.value()?; v.push((k, self.value()?)) } Ok(M::Map(v)) }
}
/// First message of `b`: tree, length, all headers minimal.
pub fn parse(b: &[u8]) -> Result<(M, usize, bool), MErr> { let mut p = MP::new(b); let m = p.value()?; Ok((m, p.i, p.minimal)) }

// ---------------------------------------------------------------- encoder
/// Encode with forms chosen by `rng` (None: shortest).
pub struct Enc<'r> { pub o: Vec<u8>, pub rng: Option<&'r mut Rng>, /** single-entry maps always get the one-byte header */ pub fix1: bool }
impl Enc<'_> {
    fn any(&mut self, n: usize) -> usize { match &mut self.rng { Some(r) => r.below(n), None => 0 } }
    fn be(&mut self, v: u64, n: usize) { for i in (0..n).rev() { self.o.push((v >> (8 * i)) as u8) } }
    pub fn int(&mut self, n: i128) {
        let mut f: Vec<u8> = vec![];
        if (0..=127).contains(&n) { f.push(0) }
        if (-32..0).contains(&n) { f.push(1) }
        for k in 0..4u8 {
            let bits = 8u32 << k;
            if n >= 0 && n < 1i128 << bits { f.push(0xcc + k) }
            if n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1) { f.push(0xd0 + k) }
        }
        let c = f[self.any(f.len())];
        self.int_as(n, c)
    }
    pub fn int_as(&mut self, n: i128, c: u8) {
        match c { 0 | 1 => self.o.push(n as u8), c => { self.o.push(c); self.be(n as u64, 1 << ((c - 0xcc) % 4)) } }
    }
    /// unsigned identifier: posfixint, u8, u16, u32
    pub fn ident(&mut self, n: u32) {
        let mut f: Vec<u8> = vec![];
        if n <= 127 { f.push(0) } if n <= 255 { f.push(0xcc) } if n <= 65535 { f.push(0xcd) } f.push(0xce);
        let c = f[self.any(f.len())];
        self.int_as(n as i128, c)
    }
    fn hdr(&mut self, n: usize, fix: Option<(u8, usize)>, sized: &[(u8, usize)]) {
        let mut f: Vec<(u8, usize)> = vec![];
        if let Some((m, max)) = fix { if n <= max { f.push((m, 0)) } }
        for (c, w) in sized { if (n as u64) >> (8 * w) == 0 { f.push((*c, *w)) } }
        let (c, w) = f[self.any(f.len())];
        if w == 0 { self.o.push(c | n as u8) } else { self.o.push(c); self.be(n as u64, w) }
    }
    pub fn str(&mut self, s: &[u8]) { self.hdr(s.len(), Some((0xa0, 31)), &[(0xd9, 1), (0xda, 2), (0xdb, 4)]); self.o.extend_from_slice(s) }
    pub fn bin(&mut self, s: &[u8]) { self.hdr(s.len(), None, &[(0xc4, 1), (0xc5, 2), (0xc6, 4)]); self.o.extend_from_slice(s) }
    pub fn arr(&mut self, n: usize) { self.hdr(n, Some((0x90, 15)), &[(0xdc, 2), (0xdd, 4)]) }
    pub fn map(&mut self, n: usize) { if n == 1 && self.fix1 { return self.o.push(0x81) } self.hdr(n, Some((0x80, 15)), &[(0xde, 2), (0xdf, 4)]) }
    pub fn ext(&mut self, t: i8, s: &[u8]) {
        let fixed = matches!(s.len(), 1 | 2 | 4 | 8 | 16);
        if fixed && self.any(2) == 0 { self.o.push(0xd4 + s.len().trailing_zeros() as u8) } else { self.hdr(s.len(), None, &[(0xc7, 1), (0xc8, 2), (0xc9, 4)]) }
        self.o.push(t as u8);
        self.o.extend_from_slice(s)
    }
    pub fn tree(&mut self, m: &M) {
        match m {
            M::Nil => self.o.push(0xc0), M::Bool(b) => self.o.push(0xc2 + *b as u8), M::Int(n, _) => self.int(*n),
            M::F32(b) => { self.o.push(0xca); self.be(*b as u64, 4) } M::F64(b) => { self.o.push(0xcb); self.be(*b, 8) }
            M::Str(s) => self.str(s), M::Bin(s) => self.bin(s), M::Ext(t, s) => self.ext(*t, s),
            M::Arr(v) => { self.arr(v.len()); for x in v { self.tree(x) } }
            M::Map(v) => { self.map(v.len()); for (k, x) in v { self.tree(k); self.tree(x) } }
        }
    }
}
pub fn gen_tree(rng: &mut Rng, depth: usize, ext: bool) -> M {
    if let Some(n) = crate::big::take(rng, 10, 70_000) { return match rng.below(4) { 0 => M::Bin(vec![rng.next() as u8; n]), 1 if ext => M::Ext(rng.next() as i8, vec![7; n]), 2 => M::Arr((0..n.min(20_000)).map(|i| M::Int(i as i128 % 300, 0)).collect()), _ => M::Str(crate::big::text(rng, n).into_bytes()) } }
    match rng.below(if depth == 0 { 9 } else { 12 }) {
        0 => M::Nil, 1 => M::Bool(rng.coin()),
        2 => M::Int(gen_u64(rng, 64) as i128, 0), 3 => M::Int(gen_i64(rng, 64) as i128, 0),
        4 => M::F32(gen_f32(rng).to_bits()), 5 => M::F64(gen_f64(rng).to_bits()),
        6 => M::Str(gen_str(rng).into_bytes()), 7 => M::Bin(gen_bytes(rng)),
        8 => if ext { let n = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 40, 255, 256]); M::Ext(rng.next() as i8, (0..n).map(|_| rng.next() as u8).collect()) } else { M::Nil },
        9 | 10 => { let n = *rng.pick(&[0, 1, 2, 3, 15, 16, 17]); let d = if n > 3 { 0 } else { depth - 1 }; M::Arr((0..n).map(|_| gen_tree(rng, d, ext)).collect()) }
        _ => { let n = *rng.pick(&[0, 1, 2, 3, 15, 16, 17]); let d = if n > 3 { 0 } else { depth - 1 }; M::Map((0..n).map(|_| (gen_tree(rng, 0, ext), gen_tree(rng, d, ext))).collect()) }
    }
}

// ---------------------------------------------------------------- documented image of a value
pub fn ident_of(fl: Fl, i: usize, n: &str) -> M { if fl == Fl::Named { M::Str(n.as_bytes().to_vec()) } else { M::Int(i as i128, 0) } }
pub fn image(s: &Sch, v: &Val, fl: Fl) -> M {
    use Sch::*;
    match (s, v) {
        (Unit | UnitStruct, _) | (Opt(_), Val::None) => M::Nil,
        (_, Val::Bool(b)) => M::Bool(*b),
        (_, Val::I(n)) => M::Int(*n as i128, 0), (_, Val::U(n)) => M::Int(*n as i128, 0),
        (_, Val::F32(f)) => M::F32(f.to_bits()), (_, Val::F64(f)) => M::F64(f.to_bits()),
        (_, Val::Char(c)) => M::Str(c.to_string().into_bytes()), (_, Val::Str(t)) => M::Str(t.clone().into_bytes()),
        (_, Val::Bytes(b)) => M::Bin(b.clone()),
        (Opt(i), Val::Some(v)) | (Newtype(i), Val::New(v)) => image(i, v, fl),
        (Seq(i), Val::Seq(v)) => M::Arr(v.iter().map(|x| image(i, x, fl)).collect()),
        (Tuple(t) | TupStruct(t), Val::Seq(v)) => M::Arr(t.iter().zip(v).map(|(s, x)| image(s, x, fl)).collect()),
        (Map(k, e), Val::Map(v)) => M::Map(v.iter().map(|(a, b)| (image(k, a, fl), image(e, b, fl))).collect()),
        (Struct(n, t), Val::Seq(v)) => fields_image(n, t, v, fl),
        (Enum(n, vs), Val::Enum(i, p)) => {
            let id = ident_of(fl, *i as usize, n[*i as usize]);
            match &vs[*i as usize] {
                Var::Unit => id,
                Var::New(s) => M::Map(vec![(id, image(s, &p[0], fl))]),
                Var::Tup(t) => M::Map(vec![(id, M::Arr(t.iter().zip(p).map(|(s, x)| image(s, x, fl)).collect()))]),
                Var::Struct(f, t) => M::Map(vec![(id, fields_image(f, t, p, fl))]),
            }
        }
        (s, v) => panic!("image {s:?} {v:?}"),
    }
}
fn fields_image(n: Names, t: &[Sch], v: &[Val], fl: Fl) -> M {
    if fl == Fl::Compact { M::Arr(t.iter().zip(v).map(|(s, x)| image(s, x, fl)).collect()) }
    else { M::Map(t.iter().zip(v).enumerate().map(|(i, (s, x))| (ident_of(fl, i, n[i]), image(s, x, fl))).collect()) }
}
pub fn same(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Nil, M::Nil) => true, (M::Bool(a), M::Bool(b)) => a == b, (M::Int(a, _), M::Int(b, _)) => a == b,
        (M::F32(a), M::F32(b)) => a == b, (M::F64(a), M::F64(b)) => a == b,
        (M::Str(a), M::Str(b)) | (M::Bin(a), M::Bin(b)) => a == b, (M::Ext(t, a), M::Ext(u, b)) => t == u && a == b,
        (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (M::Map(a), M::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(&x.0, &y.0) && same(&x.1, &y.1)),
        _ => false,
    }
}

// ---------------------------------------------------------------- typed decoding
/// One parsed message with the positions of fixmap headers, needed for the data-carrying variant rule.
pub struct Typed<'a> { b: &'a [u8], i: usize, free: bool }
/// Typed reference decode of the first message: None = must be rejected; else value, certainty, consumed bytes.
pub fn decode(s: &Sch, b: &[u8]) -> Option<(Val, Cert, usize)> {
    let mut t = Typed { b, i: 0, free: false };
    let r = t.dec(s);
    if t.free { return Some((Val::Unit, Cert::Free, 0)) }
    let (v, c) = r?;
    Some((v, c, t.i))
}
impl Typed<'_> {
    fn next(&mut self) -> Option<M> { let mut p = MP::new(&self.b[self.i..]); let m = p.value().ok()?; self.i += p.i; Some(m) }
    fn marker(&self) -> Option<u8> { self.b.get(self.i).copied() }
    /// container header: Some((is_map, n))
    fn header(&mut self) -> Option<(bool, u64)> {
        let c = self.marker()?;
        let (map, n, w) = match c {
            0x80..=0x8f => (true, (c & 15) as u64, 0), 0x90..=0x9f => (false, (c & 15) as u64, 0),
            0xdc => (false, 0, 2), 0xdd => (false, 0, 4), 0xde => (true, 0, 2), 0xdf => (true, 0, 4), _ => return None,
        };
        let n = if w == 0 { n } else { self.b.get(self.i + 1..self.i + 1 + w)?.iter().fold(0, |a, b| a << 8 | *b as u64) };
        self.i += 1 + w;
        Some((map, n))
    }
    fn list<'s>(&mut self, it: impl Iterator<Item = &'s Sch>) -> Option<(Vec<Val>, Cert)> {
        let mut v = vec![]; let mut c = Cert::Must;
        for s in it { let (x, d) = self.dec(s)?; c = c.max(d); v.push(x) }
        Some((v, c))
    }
    /// Some(Some(i)) known, Some(None) unknown
    fn ident(&mut self, n: Names) -> Option<Option<usize>> {
        let c = self.marker()?;
        match c {
            0..=0x7f | 0xcc..=0xce => { let M::Int(i, _) = self.next()? else { return None }; Some(if (i as usize) < n.len() { Some(i as usize) } else { None }) }
            0xa0..=0xbf | 0xd9..=0xdb => { let M::Str(s) = self.next()? else { return None }; let s = String::from_utf8(s).ok()?; Some(n.iter().position(|x| *x == s)) }
            _ => None,
        }
    }
    fn odd_ident(&self) -> bool { matches!(self.marker(), Some(0xcf | 0xd0..=0xd3)) }
    fn fields(&mut self, n: Names, t: &[Sch]) -> Option<(Vec<Val>, Cert)> {
        let (map, k) = self.header()?;
        if !map { if k != t.len() as u64 { return None } return self.list(t.iter()) }
        let mut v: Vec<Option<Val>> = vec![None; t.len()];
        let mut c = Cert::Must;
        for _ in 0..k {
            if self.odd_ident() { self.free = true; return None }
            match self.ident(n)? {
                Some(i) => { if v[i].is_some() { return None } let (x, d) = self.dec(&t[i])?; c = c.max(d); v[i] = Some(x) }
                None => { self.next()?; }
            }
        }
        let mut o = vec![];
        for (x, s) in v.into_iter().zip(t) { o.push(match (x, s) { (Some(x), _) => x, (None, Sch::Opt(_)) => Val::None, _ => return None }) }
        Some((o, c))
    }
    fn dec(&mut self, s: &Sch) -> D {
        use Cert::*;
        use Sch::*;
        let must = |v: Val| Some((v, Must));
        match s {
            Ignore => { self.next()?; must(Val::Unit) }
            Unit | UnitStruct => if let M::Nil = self.next()? { must(Val::Unit) } else { None },
            Bool => if let M::Bool(b) = self.next()? { must(Val::Bool(b)) } else { None },
            I8 | I16 | I32 | I64 | U8 | U16 | U32 | U64 => if let M::Int(n, _) = self.next()? { conv(s, n).map(|v| (v, Must)) } else { None },
            F32 => match self.next()? {
                M::F32(b) => must(Val::F32(f32::from_bits(b))), M::F64(b) => must(Val::F32(f64::from_bits(b) as f32)),
                M::Nil => must(Val::F32(f32::NAN)), M::Int(n, _) => must(Val::F32(n as f32)), _ => None,
            },
            F64 => match self.next()? {
                M::F64(b) => must(Val::F64(f64::from_bits(b))), M::F32(b) => must(Val::F64(f32::from_bits(b) as f64)),
                M::Nil => must(Val::F64(f64::NAN)), M::Int(n, _) => must(Val::F64(n as f64)), _ => None,
            },
            Char => if let M::Str(b) = self.next()? { let t = String::from_utf8(b).ok()?; let mut c = t.chars(); match (c.next(), c.next()) { (Some(c), None) => must(Val::Char(c)), _ => None } } else { None },
            Str(_) | Fmt => if let M::Str(b) = self.next()? { must(Val::Str(String::from_utf8(b).ok()?)) } else { None },
            Bytes(_) => if let M::Bin(b) = self.next()? { must(Val::Bytes(b)) } else { None },
            Opt(i) => if self.marker()? == 0xc0 { self.i += 1; must(Val::None) } else { self.dec(i).map(|(v, c)| (Val::Some(Box::new(v)), c)) },
            Newtype(i) => self.dec(i).map(|(v, c)| (Val::New(Box::new(v)), c)),
            Seq(i) => {
                let (map, k) = self.header()?;
                if map { return None }
                let mut v = vec![]; let mut c = Must;
                for _ in 0..k { let (x, d) = self.dec(i)?; c = c.max(d); v.push(x) }
                Some((Val::Seq(v), c))
            }
            Tuple(t) | TupStruct(t) => { let (map, k) = self.header()?; if map || k != t.len() as u64 { return None } self.list(t.iter()).map(|(v, c)| (Val::Seq(v), c)) }
            Map(k, e) => {
                let (map, n) = self.header()?;
                if !map { return None }
                let mut v = vec![]; let mut c = Must;
                for _ in 0..n { let (x, d) = self.dec(k)?; let (y, f) = self.dec(e)?; c = c.max(d).max(f); v.push((x, y)) }
                Some((Val::Map(v), c))
            }
            Struct(n, t) => self.fields(n, t).map(|(v, c)| (Val::Seq(v), c)),
            Enum(n, vs) => {
                let m = self.marker()?;
                if matches!(m, 0xde | 0xdf) || self.odd_ident() { self.free = true; return None } // undocumented forms
                if m == 0x81 {
                    self.i += 1;
                    if self.odd_ident() { self.free = true; return None }
                    let i = self.ident(n)??;
                    let (p, c) = match &vs[i] {
                        Var::Unit => return None,
                        Var::New(s) => { let (v, c) = self.dec(s)?; (vec![v], c) }
                        Var::Tup(t) => { let (map, k) = self.header()?; if map || k != t.len() as u64 { return None } self.list(t.iter())? }
                        Var::Struct(f, t) => self.fields(f, t)?,
                    };
                    return Some((Val::Enum(i as u32, p), c))
                }
                let i = self.ident(n)??;
                if let Var::Unit = vs[i] { must(Val::Enum(i as u32, vec![])) } else { None }
            }
        }
    }
}
pub fn conv(s: &Sch, n: i128) -> Option<Val> {
    Some(match s {
        Sch::I8 => Val::I(i8::try_from(n).ok()? as i64), Sch::I16 => Val::I(i16::try_from(n).ok()? as i64),
        Sch::I32 => Val::I(i32::try_from(n).ok()? as i64), Sch::I64 => Val::I(i64::try_from(n).ok()?),
        Sch::U8 => Val::U(u8::try_from(n).ok()? as u64), Sch::U16 => Val::U(u16::try_from(n).ok()? as u64),
        Sch::U32 => Val::U(u32::try_from(n).ok()? as u64), Sch::U64 => Val::U(u64::try_from(n).ok()?),
        _ => return None,
    })
}

// ---------------------------------------------------------------- renderer: any documented encoding of a value
#[derive(Clone, Copy)]
pub struct MStyle { pub forms: bool, pub reorder: bool, pub unknown: bool, pub floats: bool, pub omit: bool }
pub struct MRen<'r> { pub rng: &'r mut Rng, pub st: MStyle, pub o: Vec<u8>, pub flt: Option<crate::jref::Fault> }
pub fn mstyle(rng: &mut Rng) -> MStyle { MStyle { forms: rng.below(4) > 0, reorder: rng.coin(), unknown: rng.coin(), floats: rng.coin(), omit: rng.one_in(4) } }
impl MRen<'_> {
    pub fn e<T>(&mut self, f: impl FnOnce(&mut Enc) -> T) -> T {
        let o = std::mem::take(&mut self.o);
        let mut e = Enc { o, rng: if self.st.forms { Some(&mut *self.rng) } else { None }, fix1: false };
        let r = f(&mut e);
        self.o = e.o;
        r
    }
    pub fn ident(&mut self, i: usize, n: &str) {
        if self.rng.coin() { self.e(|e| e.ident(i as u32)) } else { self.e(|e| e.str(n.as_bytes())) }
    }
    pub fn val(&mut self, s: &Sch, v: &Val) {
        use Sch::*;
        if self.flt.is_some() && crate::c_err::mnode(self, s, v) { return }
        match (s, v) {
            (Unit | UnitStruct, _) | (Opt(_), Val::None) => self.o.push(0xc0),
            (_, Val::F32(f)) => {
                let alt = if self.st.floats { self.rng.below(3) } else { 0 };
                if f.is_nan() && alt > 0 { return self.o.push(0xc0) }
                if alt == 1 { let d = *f as f64; return self.e(|e| e.tree(&M::F64(d.to_bits()))) }
                if alt == 2 && f.fract() == 0.0 && f.abs() < 9e18 && !(*f == 0.0 && f.is_sign_negative()) { let n = *f as i128; return self.e(|e| e.int(n)) }
                let b = f.to_bits(); self.e(|e| e.tree(&M::F32(b)))
            }
            (_, Val::F64(f)) => {
                let alt = if self.st.floats { self.rng.below(3) } else { 0 };
                if f.is_nan() && alt > 0 { return self.o.push(0xc0) }
                if alt == 1 && (*f as f32) as f64 == *f { let b = (*f as f32).to_bits(); return self.e(|e| e.tree(&M::F32(b))) }
                if alt == 2 && f.fract() == 0.0 && f.abs() < 9e18 && !(*f == 0.0 && f.is_sign_negative()) { let n = *f as i128; return self.e(|e| e.int(n)) }
                let b = f.to_bits(); self.e(|e| e.tree(&M::F64(b)))
            }
            (Opt(i), Val::Some(v)) => {
                // nil would be read as None: floats keep their form here
                let (mut x, f) = (&**i, self.st.floats);
                while let Newtype(y) = x { x = y }
                if matches!(x, F32 | F64) { self.st.floats = false }
                if let Some(f) = &mut self.flt { f.under_opt = true }
                self.val(i, v);
                self.st.floats = f
            }
            (Newtype(i), Val::New(v)) => self.val(i, v),
            (Ignore, _) => { let m = gen_tree(self.rng, 3, true); self.e(|e| e.tree(&m)) }
            (Seq(i), Val::Seq(v)) => { let n = v.len(); self.e(|e| e.arr(n)); for x in v { self.val(i, x) } }
            (Tuple(t) | TupStruct(t), Val::Seq(v)) => { let n = v.len(); self.e(|e| e.arr(n)); for (s, x) in t.iter().zip(v) { self.val(s, x) } }
            (Map(k, e), Val::Map(v)) => { let n = v.len(); self.e(|e| e.map(n)); for (a, b) in v { self.val(k, a); self.val(e, b) } }
            (Struct(n, t), Val::Seq(v)) => self.fields(n, t, v),
            (Enum(n, vs), Val::Enum(i, p)) => {
                let var = &vs[*i as usize];
                if *var != Var::Unit { self.o.push(0x81) }
                self.ident(*i as usize, n[*i as usize]);
                match var {
                    Var::Unit => {}
                    Var::New(s) => self.val(s, &p[0]),
                    Var::Tup(t) => { let k = t.len(); self.e(|e| e.arr(k)); for (s, x) in t.iter().zip(p) { self.val(s, x) } }
                    Var::Struct(f, t) => self.fields(f, t, p),
                }
            }
            (s, v) => { let m = image(s, v, Fl::Idx); self.e(|e| e.tree(&m)) }
        }
    }
    pub fn fields(&mut self, n: Names, t: &[Sch], v: &[Val]) {
        if self.rng.one_in(3) { let k = t.len(); self.e(|e| e.arr(k)); for (s, x) in t.iter().zip(v) { self.val(s, x) } return }
        let mut ord: Vec<usize> = (0..n.len()).collect();
        if self.st.reorder { self.rng.shuffle(&mut ord) }
        let mut items: Vec<Option<usize>> = vec![];
        for i in ord {
            while self.st.unknown && self.rng.one_in(3) { items.push(None) }
            if self.st.omit && matches!((&t[i], &v[i]), (Sch::Opt(_), Val::None)) { continue }
            items.push(Some(i))
        }
        while self.st.unknown && self.rng.one_in(3) { items.push(None) }
        let k = items.len();
        self.e(|e| e.map(k));
        for i in items {
            match i {
                Some(i) => { self.ident(i, n[i]); self.val(&t[i], &v[i]) }
                None => {
                    if self.rng.coin() { let x = n.len() as u32 + self.rng.below(70000) as u32; self.e(|e| e.ident(x)) }
                    else { let x = loop { let k = crate::jref::gen_str_short(self.rng); if !n.contains(&&k[..]) { break k } }; self.e(|e| e.str(x.as_bytes())) }
                    let m = gen_tree(self.rng, 2, true);
                    self.e(|e| e.tree(&m))
                }
            }
        }
    }
}
pub fn render(rng: &mut Rng, st: MStyle, s: &Sch, v: &Val) -> Vec<u8> { let mut r = MRen { rng, st, o: vec![], flt: None }; r.val(s, v); r.o }
