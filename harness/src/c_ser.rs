//! S01..S03: sinks, writer failures, text-formatted values.
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sink::*;
use crate::types;
use crate::util::*;
use crate::{jref, mem, mref};
use serde::{Serialize, Serializer};
use ser_write::{SerError, SerWrite, SliceWriter};
use std::cell::Cell;
use std::fmt;

// ---------------------------------------------------------------- S01
#[derive(Clone, Debug)]
enum Op { W(Vec<u8>), B(u8), S(String) }
fn op(r: &mut Rng, room: usize) -> Op {
    let len = match r.below(10) { 0 => 0, 1 => room, 2 => room + 1, 3 => room.saturating_sub(1), 4 => room + r.below(40), 5 => 1, _ => r.below(room.min(40) + 2) };
    let len = crate::big::take(r, 3, 150_000).unwrap_or(len).min(180_000);
    match r.below(5) { 0 => Op::B(r.next() as u8), 1 | 2 => Op::S(gen_str_len(r, len)), _ => Op::W((0..len).map(|_| r.next() as u8).collect()) }
}
impl Op {
    fn bytes(&self) -> Vec<u8> { match self { Op::W(b) => b.clone(), Op::B(b) => vec![*b], Op::S(s) => s.as_bytes().to_vec() } }
    fn len(&self) -> usize { match self { Op::W(b) => b.len(), Op::B(_) => 1, Op::S(s) => s.len() } }
}
/// through `&mut &mut W` when `refs` is 1 or 2
fn apply<W: SerWrite>(w: &mut W, o: &Op, refs: usize) -> Result<(), W::Error> {
    fn go<W: SerWrite>(mut w: W, o: &Op) -> Result<(), W::Error> { match o { Op::W(b) => w.write(b), Op::B(b) => w.write_byte(*b), Op::S(s) => w.write_str(s) } }
    match refs { 0 => match o { Op::W(b) => w.write(b), Op::B(b) => w.write_byte(*b), Op::S(s) => w.write_str(s) }, 1 => go(w, o), _ => { let mut v = w; go(&mut v, o) } }
}
/// Drive a sink whose content is `get`, capacity `cap` (None: grows), against a byte vector.
fn drive<W: SerWrite<Error = SerError>>(c: &mut Ctx, name: &'static str, w: &mut W, cap: Option<usize>, get: impl Fn(&W) -> Vec<u8>, mut alter: impl FnMut(&mut W, &mut Vec<u8>, &mut Rng)) -> R {
    let mut model: Vec<u8> = get(w);
    let steps = c.rng.range(1, 14);
    let mut trace: Vec<u8> = vec![];
    for _ in 0..steps {
        if c.rng.one_in(9) {
            let mut r = c.rng.fork();
            alter(w, &mut model, &mut r);
            if get(w) != model { return Err(format!("{name}: model and sink disagree after an edit by the user (harness)")) }
            trace.push(3);
        }
        let room = cap.map_or(60, |n| n - model.len());
        let o = op(&mut c.rng, room);
        let refs = c.rng.below(3);
        c.eval();
        let fits = cap.is_none_or(|n| model.len() + o.len() <= n);
        let starve = cap.is_none() && c.rng.one_in(6);
        let (res, failed) = if starve { let lim = c.rng.below(64); mem::failing(lim, || apply(w, &o, refs)) } else { (apply(w, &o, refs), 0) };
        trace.push(match (&res, &o) { (Ok(()), Op::W(_)) => 0, (Ok(()), Op::B(_)) => 1, (Ok(()), Op::S(_)) => 2, (Err(_), _) => 4 });
        match res {
            Ok(()) => {
                if !fits { return Err(format!("{name}: a write of {} bytes succeeded with {} of {:?} bytes taken", o.len(), model.len(), cap)) }
                c.count("writes that fit", 1);
                model.extend(o.bytes());
            }
            Err(SerError::BufferFull) => {
                if fits && failed == 0 { return Err(format!("{name}: a write of {} bytes failed with {} of {:?} bytes taken", o.len(), model.len(), cap)) }
                c.count(if fits { "allocation failures refused cleanly" } else { "writes refused for lack of space" }, 1);
            }
            #[allow(unreachable_patterns)]
            Err(e) => return Err(format!("{name}: failed with {e:?} instead of the buffer-full error")),
        }
        let now = get(w);
        if now != model { return Err(format!("{name}: after {} ({:?} bytes) the content is {} instead of {}", ["write", "write_byte", "write_str"][match o { Op::W(_) => 0, Op::B(_) => 1, Op::S(_) => 2 }], o.len(), hex(&now), hex(&model))) }
        c.evals(1);
    }
    c.count(name, 1);
    c.seen2(&trace, hash(name));
    c.sample(|| format!("{name}: steps {trace:?}, {} bytes in the end", model.len()));
    Ok(())
}
fn hash(s: &str) -> u64 { crate::rng::hash_bytes(s.as_bytes()) }

fn s01_slice(c: &mut Ctx) -> R {
    let n = match c.rng.below(8) { 0 => 0, 1 => 1, 2 => 2, _ => c.rng.below(90) };
    let n = if crate::big::is_on() { crate::big::take(&mut c.rng, 1, 150_000).map_or(n, |x| x + c.rng.below(3)) } else { n };
    let mut g = Guard::new(&vec![0x77u8; n]);
    {
        let mut w = SliceWriter::new(g.buf());
        let base = w.buf.as_ptr() as usize;
        let mut heads: Vec<(usize, Vec<u8>, &mut [u8])> = vec![];
        let mut off = 0;
        let rounds = c.rng.range(1, 3);
        for k in 0..rounds {
            let cap = n - off;
            // the untouched part must stay untouched
            let mut model: Vec<u8> = vec![];
            let steps = c.rng.range(1, 8);
            for _ in 0..steps {
                c.evals(3);
                if w.len() != model.len() || w.is_empty() != model.is_empty() || w.capacity() != cap || w.rem_capacity() != cap - model.len() { return Err(format!("len {} empty {} capacity {} rem {} with {} of {cap} bytes written", w.len(), w.is_empty(), w.capacity(), w.rem_capacity(), model.len())) }
                if w.as_ref() != &model[..] || w.as_mut() != &model[..] { return Err(format!("content {} instead of {}", hex(w.as_ref()), hex(&model))) }
                if c.rng.one_in(12) { w.clear(); model.clear(); c.count("clear", 1); continue }
                let o = op(&mut c.rng, cap - model.len());
                let before = w.buf.to_vec();
                let fits = model.len() + o.len() <= cap;
                let ok = if let (Op::S(s), true) = (&o, c.rng.coin()) { use fmt::Write; if c.rng.coin() { w.write_fmt(format_args!("{}", s)).is_ok() } else { fmt::Write::write_str(&mut w, s).is_ok() } }
                    else { let k = c.rng.below(3); match apply(&mut w, &o, k) { Ok(()) => true, Err(SerError::BufferFull) => false, #[allow(unreachable_patterns)] Err(e) => return Err(format!("failed with {e:?}")) } };
                if ok != fits { return Err(format!("write of {} bytes with {} of {cap} taken: success {ok}", o.len(), model.len())) }
                if ok { model.extend(o.bytes()) }
                c.count(if ok { "writes that fit" } else { "writes refused for lack of space" }, 1);
                if w.buf[..model.len()] != model[..] { return Err(format!("buffer starts with {} instead of {}", hex(&w.buf[..model.len()]), hex(&model))) }
                if ok && w.buf[model.len()..] != before[model.len()..] { return Err("bytes behind the written part changed".into()) }
            }
            for (o, m, h) in &heads { if h.as_ptr() as usize != base + o || h[..] != m[..] { return Err("an earlier part returned by split changed".into()) } }
            if k + 1 < rounds {
                let len = w.len();
                let (h, rest) = w.split();
                c.eval();
                if h[..] != model[..] { return Err(format!("split returned {} instead of {}", hex(h), hex(&model))) }
                heads.push((off, model, h));
                off += len;
                w = rest;
                c.count("split", 1);
                if w.len() != 0 || w.capacity() != n - off || !w.is_empty() || w.buf.as_ptr() as usize != base + off { return Err(format!("after split: len {} capacity {} instead of 0, {}", w.len(), w.capacity(), n - off)) }
            }
            c.seen(&w.buf[..w.len]);
        }
    }
    c.eval();
    if !g.intact() { return Err("memory outside the buffer was written".into()) }
    c.sample(|| format!("buffer of {n} bytes"));
    Ok(())
}
fn s01_fixed(c: &mut Ctx) -> R {
    use arrayvec::ArrayVec as AV;
    use heapless::Vec as HV;
    use tinyvec::{ArrayVec as TA, SliceVec};
    fn trim<T>(f: impl Fn(&mut T, usize)) -> impl FnMut(&mut T, &mut Vec<u8>, &mut Rng) { move |w, m, r| { let k = r.below(m.len() + 1); f(w, k); m.truncate(k) } }
    macro_rules! one_of { ($k:expr; $($e:expr),* $(,)?) => {{ let mut k = $k % [$(stringify!($e)),*].len(); loop { $(if k == 0 { break $e } k -= 1;)* let _ = &mut k; } }} }
    macro_rules! av { ($n:literal) => { drive(c, "arrayvec::ArrayVec", &mut AV::<u8, $n>::new(), Some($n), |w| w.to_vec(), trim(|w: &mut AV<u8, $n>, k| w.truncate(k))) } }
    macro_rules! hv { ($n:literal, $l:ty) => { if c.rng.coin() { drive(c, "heapless::Vec", &mut HV::<u8, $n, $l>::new(), Some($n), |w| w.to_vec(), trim(|w: &mut HV<u8, $n, $l>, k| w.truncate(k))) }
        else { let mut v = HV::<u8, $n, $l>::new(); let v: &mut heapless::VecView<u8, $l> = &mut v; view(c, v, $n, |w| w.to_vec(), |w, k| w.truncate(k)) } } }
    macro_rules! ta { ($n:literal) => { drive(c, "tinyvec::ArrayVec", &mut TA::<[u8; $n]>::new(), Some($n), |w| w.to_vec(), trim(|w: &mut TA<[u8; $n]>, k| w.truncate(k))) } }
    let k = c.rng.below(8);
    match c.rng.below(4) {
        0 => one_of!(k; av!(0), av!(1), av!(2), av!(7), av!(16), av!(64), av!(255), av!(300)),
        1 => one_of!(k; hv!(0, usize), hv!(1, u8), hv!(3, usize), hv!(16, u16), hv!(64, u8), hv!(255, u8), hv!(256, u16), hv!(300, usize)),
        2 => one_of!(k; ta!(0), ta!(1), ta!(2), ta!(7), ta!(16), ta!(64), ta!(128), ta!(256)),
        _ => {
            let n = c.rng.below(80);
            let n = crate::big::take(&mut c.rng, 1, 150_000).unwrap_or(n);
            let mut g = Guard::new(&vec![0x55u8; n]);
            let k = c.rng.below(n + 1);
            let r = {
                let mut w = SliceVec::from_slice_len(g.buf(), k);
                drive(c, "tinyvec::SliceVec", &mut w, Some(n), |w| w.to_vec(), trim(|w: &mut SliceVec<u8>, k| w.truncate(k)))
            };
            if !g.intact() { return Err("tinyvec::SliceVec: memory outside the slice was written".into()) }
            r
        }
    }
}
/// `drive` for an unsized sink: only reachable through a reference
fn view<W: SerWrite<Error = SerError> + ?Sized>(c: &mut Ctx, w: &mut W, cap: usize, get: impl Fn(&W) -> Vec<u8>, cut: impl Fn(&mut W, usize)) -> R {
    let mut model: Vec<u8> = vec![];
    for _ in 0..c.rng.range(1, 14) {
        if c.rng.one_in(9) { let k = c.rng.below(model.len() + 1); cut(w, k); model.truncate(k) }
        let o = op(&mut c.rng, cap - model.len());
        let fits = model.len() + o.len() <= cap;
        let r = match &o { Op::W(b) => w.write(b), Op::B(b) => w.write_byte(*b), Op::S(s) => w.write_str(s) };
        c.evals(2);
        if r.is_ok() != fits || matches!(&r, Err(e) if *e != SerError::BufferFull) { return Err(format!("heapless::VecView: a write of {} bytes with {} of {cap} taken gave {r:?}", o.len(), model.len())) }
        if fits { model.extend(o.bytes()) }
        if get(w) != model { return Err(format!("heapless::VecView: content is {} instead of {}", hex(&get(w)), hex(&model))) }
        c.count(if fits { "writes that fit" } else { "writes refused for lack of space" }, 1);
    }
    c.seen(&model);
    c.count("heapless::VecView", 1);
    Ok(())
}
#[cfg(feature = "heap")]
fn s01_grow(c: &mut Ctx) -> R {
    use std::collections::VecDeque;
    let n0 = c.rng.below(20);
    let init: Vec<u8> = (0..n0).map(|_| c.rng.next() as u8).collect();
    let reserve = c.rng.below(50);
    match c.rng.below(4) {
        0 => { let mut w = Vec::with_capacity(reserve); w.extend_from_slice(&init);
            drive(c, "Vec", &mut w, None, |w| w.clone(), |w, m, r| { if r.coin() { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k) } else { w.shrink_to_fit() } }) }
        1 => { let mut w: VecDeque<u8> = VecDeque::with_capacity(reserve); w.extend(&init);
            drive(c, "VecDeque", &mut w, None, |w| w.iter().copied().collect(), |w, m, r| {
                // move the ring around: bytes leave at the front, may be put back
                let k = r.below(m.len() + 1); w.drain(..k); m.drain(..k);
                if r.coin() { let b = r.next() as u8; w.push_front(b); m.insert(0, b) }
                if r.one_in(4) { w.shrink_to_fit() }
            }) }
        2 => match c.rng.below(4) {
            0 => { let mut w = smallvec::SmallVec::<[u8; 0]>::new(); drive(c, "SmallVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k) }) }
            1 => { let mut w = smallvec::SmallVec::<[u8; 1]>::new(); drive(c, "SmallVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k); if r.coin() { w.shrink_to_fit() } }) }
            2 => { let mut w = smallvec::SmallVec::<[u8; 12]>::from_slice(&init); drive(c, "SmallVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k); if r.coin() { w.shrink_to_fit() } }) }
            _ => { let mut w = smallvec::SmallVec::<[u8; 64]>::from_slice(&init); drive(c, "SmallVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k) }) }
        },
        _ => match c.rng.below(3) {
            0 => { let mut w = tinyvec::TinyVec::<[u8; 1]>::new(); drive(c, "TinyVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k) }) }
            1 => { let mut w = tinyvec::TinyVec::<[u8; 16]>::new(); drive(c, "TinyVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k); if r.coin() { w.shrink_to_fit() } else { w.move_to_the_heap() } }) }
            _ => { let mut w: tinyvec::TinyVec<[u8; 64]> = tinyvec::TinyVec::new(); w.extend_from_slice(&init); drive(c, "TinyVec", &mut w, None, |w| w.to_vec(), |w, m, r| { let k = r.below(m.len() + 1); w.truncate(k); m.truncate(k) }) }
        },
    }
}
#[cfg(not(feature = "heap"))]
fn s01_grow(c: &mut Ctx) -> R { c.eval(); Ok(()) }
#[cfg(feature = "std")]
fn s01_cursor(c: &mut Ctx) -> R {
    use std::io::Cursor;
    /// position-based model: writes overwrite, a growing one extends (zero filled when the position is beyond the end)
    fn go<T>(c: &mut Ctx, name: &'static str, mut w: Cursor<T>, grows: bool, get: impl Fn(&T) -> Vec<u8>) -> R where Cursor<T>: std::io::Write {
        let mut model = get(w.get_ref());
        let mut pos = 0usize;
        for _ in 0..c.rng.range(1, 14) {
            if c.rng.one_in(7) { pos = c.rng.below(model.len() + 4); w.set_position(pos as u64) }
            let o = op(&mut c.rng, if grows { 30 } else { model.len().saturating_sub(pos) });
            let fits = grows || o.len() == 0 || pos + o.len() <= model.len();
            let k = c.rng.below(3);
            let r = apply(&mut w, &o, k);
            c.evals(2);
            if r.is_ok() != fits || matches!(&r, Err(e) if *e != SerError::BufferFull) { return Err(format!("{name}: a write of {} bytes at {pos} of {} gave {r:?}", o.len(), model.len())) }
            let now = get(w.get_ref());
            if fits {
                let b = o.bytes();
                if b.is_empty() && now.len() == pos && pos > model.len() { model.resize(pos, 0) /* std pads up to the position */ }
                if !b.is_empty() { if model.len() < pos + b.len() { model.resize(pos + b.len(), 0) } model[pos..pos + b.len()].copy_from_slice(&b) }
                pos += b.len();
                if now != model || w.position() != pos as u64 { return Err(format!("{name}: content {} position {} instead of {} {pos}", hex(&now), w.position(), hex(&model))) }
                c.count("writes that fit", 1);
            } else {
                if now.len() != model.len() || now[..pos.min(now.len())] != model[..pos.min(now.len())] { return Err(format!("{name}: a refused write changed earlier bytes: {} instead of {}", hex(&now), hex(&model))) }
                model = now;
                pos = w.position() as usize;
                c.count("writes refused for lack of space", 1);
            }
        }
        c.seen2(&model, hash(name));
        c.count(name, 1);
        Ok(())
    }
    let n = c.rng.below(50);
    let n = crate::big::take(&mut c.rng, 1, 150_000).unwrap_or(n);
    match c.rng.below(5) {
        0 => go(c, "Cursor<Vec>", Cursor::new(vec![1u8; n]), true, |v| v.clone()),
        1 => { let mut v = vec![2u8; n]; go(c, "Cursor<&mut Vec>", Cursor::new(&mut v), true, |v| v.to_vec()) }
        2 => { let mut g = Guard::new(&vec![3u8; n]); let r = go(c, "Cursor<&mut [u8]>", Cursor::new(g.buf()), false, |v| v.to_vec()); if !g.intact() { return Err("Cursor<&mut [u8]>: memory outside the slice was written".into()) } r }
        3 => go(c, "Cursor<[u8; 33]>", Cursor::new([4u8; 33]), false, |v| v.to_vec()),
        _ => go(c, "Cursor<Box<[u8]>>", Cursor::new(vec![5u8; n].into_boxed_slice()), false, |v| v.to_vec()),
    }
}
#[cfg(not(feature = "std"))]
fn s01_cursor(c: &mut Ctx) -> R { c.eval(); Ok(()) }
/// very long writes: refused without touching anything
#[cfg(not(miri))]
fn s01_huge(c: &mut Ctx) -> R {
    let n = 1usize << 31;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    // SAFETY: a readable private mapping of n zero bytes
    let big = unsafe { std::slice::from_raw_parts(p as *const u8, n - c.rng.below(5)) };
    let mut b = [9u8; 20];
    let mut fail = vec![];
    macro_rules! t { ($n:expr, $w:expr, $get:expr) => {{ let mut w = $w; let before = $get(&w); let (r, _) = mem::failing(1 << 20, || SerWrite::write(&mut w, big)); c.evals(2); if r != Err(SerError::BufferFull) { fail.push(format!("{}: {r:?}", $n)) } if $get(&w) != before { fail.push(format!("{}: content changed", $n)) } }} }
    t!("SliceWriter", SliceWriter { buf: &mut b, len: 7 }, |w: &SliceWriter| (w.buf.to_vec(), w.len));
    t!("arrayvec", arrayvec::ArrayVec::<u8, 20>::from_iter([1, 2, 3]), |w: &arrayvec::ArrayVec<u8, 20>| w.to_vec());
    t!("heapless u8", heapless::Vec::<u8, 20, u8>::from_slice(&[1, 2]).unwrap(), |w: &heapless::Vec<u8, 20, u8>| w.to_vec());
    t!("heapless", heapless::Vec::<u8, 20>::from_slice(&[1, 2]).unwrap(), |w: &heapless::Vec<u8, 20>| w.to_vec());
    t!("tinyvec", tinyvec::ArrayVec::<[u8; 16]>::from_array_len([1; 16], 3), |w: &tinyvec::ArrayVec<[u8; 16]>| w.to_vec());
    #[cfg(feature = "heap")]
    {
        t!("Vec", vec![1u8, 2], |w: &Vec<u8>| w.clone());
        t!("VecDeque", std::collections::VecDeque::from(vec![1u8, 2]), |w: &std::collections::VecDeque<u8>| w.clone());
        t!("SmallVec", smallvec::SmallVec::<[u8; 8]>::from_slice(&[1, 2]), |w: &smallvec::SmallVec<[u8; 8]>| w.to_vec());
        t!("TinyVec", { let mut t = tinyvec::TinyVec::<[u8; 8]>::new(); t.push(4); t }, |w: &tinyvec::TinyVec<[u8; 8]>| w.to_vec());
        #[cfg(feature = "std")]
        t!("Cursor", std::io::Cursor::new([7u8; 0]), |w: &std::io::Cursor<[u8; 0]>| w.get_ref().to_vec());
    }
    unsafe { libc::munmap(p, n) };
    c.seen(&c.idx.to_le_bytes());
    if fail.is_empty() { Ok(()) } else { Err(format!("a write of {} bytes: {}", big.len(), fail.join("; "))) }
}
#[cfg(miri)]
fn s01_huge(c: &mut Ctx) -> R { c.eval(); Ok(()) }
pub fn s01(t: Tier) -> Vec<Workload> {
    let m = cfg!(miri);
    vec![
        wl("SliceWriter: random operation histories", n(t, 60_000, 3_000_000, 60), s01_slice),
        wl("fixed-capacity sinks", n(t, 80_000, 4_000_000, 80), s01_fixed),
        wl("growing sinks, some allocations failing", if cfg!(feature = "heap") { n(t, 60_000, 3_000_000, 60) } else { 1 }, s01_grow),
        wl("std::io::Cursor", if cfg!(feature = "std") { n(t, 40_000, 2_000_000, 30) } else { 1 }, s01_cursor),
        wl("writes of 2 GiB", if m { 1 } else { 10 }, s01_huge), wl("scale: SliceWriter", n(t, 600, 60000, 1), |c| crate::big::on(c, s01_slice)), wl("scale: fixed-capacity sinks", n(t, 400, 40000, 1), |c| crate::big::on(c, s01_fixed)), wl("scale: growing sinks", n(t, 400, 40000, 1), |c| crate::big::on(c, s01_grow)), wl("scale: Cursor", n(t, 400, 40000, 1), |c| crate::big::on(c, s01_cursor))]
}

// ---------------------------------------------------------------- S02
/// Anything that can be serialized into any sink.
trait Doer { fn run<W: SerWrite>(&self, w: W) -> Result<(), SErr> where W::Error: fmt::Display + fmt::Debug; }
struct JV<'a, T: ?Sized>(BM, &'a T);
impl<T: Serialize + ?Sized> Doer for JV<'_, T> { fn run<W: SerWrite>(&self, w: W) -> Result<(), SErr> where W::Error: fmt::Display + fmt::Debug { jser_to(self.0, w, self.1) } }
struct MV<'a, T: ?Sized>(Fl, &'a T);
impl<T: Serialize + ?Sized> Doer for MV<'_, T> { fn run<W: SerWrite>(&self, w: W) -> Result<(), SErr> where W::Error: fmt::Display + fmt::Debug { mser_to(self.0, w, self.1) } }

fn faults(c: &mut Ctx, d: &impl Doer, what: impl Fn() -> String) -> R {
    let mut base = MonW::new();
    let fmts0 = user::S.with(|u| u.fmts.get());
    let r0 = d.run(&mut base);
    // formatted text has no way to pass the sink's own error on
    let formats = user::S.with(|u| u.fmts.get()) != fmts0;
    let full = base.buf.clone();
    let calls = base.calls;
    // every call index, once sticky and once transient
    let idxs: Vec<u64> = if calls <= 96 { (0..calls).collect() } else { (0..32).chain((0..40).map(|_| c.rng.next() % calls)).chain(calls - 16..calls).collect() };
    for k in idxs {
        for sticky in [true, false] {
            let mut w = MonW::fail_at(k, sticky);
            let r = d.run(&mut w);
            c.eval();
            if r.is_ok() { return Err(format!("Ok although write number {k} of {calls} failed ({} transient {}): {}", hex(&w.buf), !sticky, what())) }
            match &r {
                Err(SErr::Writer) => { let e = last_writer_error(); if e != format!("werr {}", w.first) { return Err(format!("write number {k} failed, but the error returned is {e:?}: {}", what())) } c.count("sink errors returned as they are", 1) }
                Err(SErr::Format) if formats => c.count("sink errors while formatting", 1),
                x => return Err(format!("write number {k} failed, but the result is {x:?}: {}", what())),
            }
            if !full.starts_with(&w.buf) { return Err(format!("after write number {k} failed the sink holds {} which is not a prefix of {}: {}", hex(&w.buf), hex(&full), what())) }
            c.count("injected write failures", 1);
        }
    }
    // every capacity
    let n = full.len();
    let caps: Vec<usize> = if n <= 160 { (0..=n + 2).collect() } else { (0..40).chain((0..60).map(|_| c.rng.below(n))).chain(n - 24..=n + 2).collect() };
    for cap in caps {
        let mut w = MonW::cap(cap);
        let r = d.run(&mut w);
        c.evals(2);
        if r.is_ok() != (r0.is_ok() && cap >= n) && !(r0.is_err() && r.is_err()) { return Err(format!("with room for {cap} of {n} bytes the result is {r:?}: {}", what())) }
        if !full.starts_with(&w.buf) { return Err(format!("with room for {cap} bytes the sink holds {} which is not a prefix of {}: {}", hex(&w.buf), hex(&full), what())) }
        // the real slice writer
        let mut g = Guard::new(&vec![0xEEu8; cap]);
        let (r, len, pre) = { let mut s = SliceWriter::new(g.buf()); let r = d.run(&mut s); let l = s.len; (r, l, s.buf[..l].to_vec()) };
        if r.is_ok() != (r0.is_ok() && cap >= n) || !full.starts_with(&pre) || r.is_ok() && len != n || !g.intact() { return Err(format!("slice of {cap} bytes for {n}: {r:?} holding {} of {}: {}", hex(&pre), hex(&full), what())) }
        if g.buf()[len..].iter().any(|b| *b != 0xEE) && r.is_ok() { return Err(format!("slice of {cap} bytes: written behind the reported length {len}: {}", what())) }
        c.count("capacities tried", 1);
    }
    // other sinks see the same bytes
    macro_rules! sink { ($n:expr, $w:expr, $cap:expr, $get:expr) => {{ let mut w = $w; let r = d.run(&mut w); c.eval(); let got: Vec<u8> = $get(&w);
        let fits = $cap >= n; if r.is_ok() != (r0.is_ok() && fits) || !full.starts_with(&got) || r.is_ok() && got.len() != n || r0.is_err() && fits && got != full { return Err(format!("{}: {r:?} holding {} of {}: {}", $n, hex(&got), hex(&full), what())) } c.count("other sinks", 1); }} }
    match c.rng.below(4) {
        0 => { sink!("arrayvec 13", arrayvec::ArrayVec::<u8, 13>::new(), 13, |w: &arrayvec::ArrayVec<u8, 13>| w.to_vec()); sink!("arrayvec 300", arrayvec::ArrayVec::<u8, 300>::new(), 300, |w: &arrayvec::ArrayVec<u8, 300>| w.to_vec()); }
        1 => { sink!("heapless 20", heapless::Vec::<u8, 20, u8>::new(), 20, |w: &heapless::Vec<u8, 20, u8>| w.to_vec()); sink!("heapless 1000", heapless::Vec::<u8, 1000>::new(), 1000, |w: &heapless::Vec<u8, 1000>| w.to_vec()); }
        2 => { sink!("tinyvec 32", tinyvec::ArrayVec::<[u8; 32]>::new(), 32, |w: &tinyvec::ArrayVec<[u8; 32]>| w.to_vec()); sink!("tinyvec 1024", tinyvec::ArrayVec::<[u8; 1024]>::new(), 1024, |w: &tinyvec::ArrayVec<[u8; 1024]>| w.to_vec()); }
        _ => { let mut b = [0u8; 40]; sink!("tinyvec slice 40", tinyvec::SliceVec::from_slice_len(&mut b, 0), 40, |w: &tinyvec::SliceVec<u8>| w.to_vec()); }
    }
    #[cfg(feature = "heap")]
    {
        let u = usize::MAX;
        sink!("Vec", Vec::<u8>::new(), u, |w: &Vec<u8>| w.clone());
        sink!("VecDeque", std::collections::VecDeque::<u8>::new(), u, |w: &std::collections::VecDeque<u8>| w.iter().copied().collect());
        sink!("SmallVec", smallvec::SmallVec::<[u8; 9]>::new(), u, |w: &smallvec::SmallVec<[u8; 9]>| w.to_vec());
        sink!("TinyVec", tinyvec::TinyVec::<[u8; 8]>::new(), u, |w: &tinyvec::TinyVec<[u8; 8]>| w.to_vec());
        #[cfg(feature = "std")]
        sink!("Cursor<Vec>", std::io::Cursor::new(Vec::<u8>::new()), u, |w: &std::io::Cursor<Vec<u8>>| w.get_ref().clone());
        #[cfg(feature = "std")]
        sink!("Cursor<[u8; 50]>", std::io::Cursor::new([0u8; 50]), 50, |w: &std::io::Cursor<[u8; 50]>| w.get_ref()[..w.position() as usize].to_vec());
    }
    c.seen2(&full, calls);
    c.sample(|| format!("{calls} writes, {n} bytes, {}", what()));
    Ok(())
}
#[cfg(feature = "heap")]
fn starved(c: &mut Ctx, d: &impl Doer, what: impl Fn() -> String) -> R {
    let mut base = MonW::new();
    let r0 = d.run(&mut base);
    for _ in 0..6 {
        let lim = match c.rng.below(4) { 0 => 0, 1 => c.rng.below(16), _ => c.rng.below(base.buf.len() * 2 + 2) };
        macro_rules! t { ($n:expr, $w:expr, $get:expr) => {{ let mut w = $w; let (r, failed) = mem::failing(lim, || d.run(&mut w)); c.eval(); let got: Vec<u8> = $get(&w);
            if !base.buf.starts_with(&got) || (failed == 0) && r != r0 || failed > 0 && r.is_ok() && got != base.buf || r.is_ok() && got.len() != base.buf.len() { return Err(format!("{}: allocations above {lim} bytes fail ({failed} did): {r:?} holding {} of {}: {}", $n, hex(&got), hex(&base.buf), what())) }
            c.count(if failed > 0 { "serializations with failed allocations" } else { "serializations under a limit" }, 1); }} }
        match c.rng.below(4) {
            0 => t!("Vec", Vec::<u8>::new(), |w: &Vec<u8>| w.clone()),
            1 => t!("VecDeque", std::collections::VecDeque::<u8>::new(), |w: &std::collections::VecDeque<u8>| w.iter().copied().collect()),
            2 => t!("SmallVec", smallvec::SmallVec::<[u8; 9]>::new(), |w: &smallvec::SmallVec<[u8; 9]>| w.to_vec()),
            _ => t!("TinyVec", tinyvec::TinyVec::<[u8; 8]>::new(), |w: &tinyvec::TinyVec<[u8; 8]>| w.to_vec()),
        }
    }
    c.seen(&base.buf);
    Ok(())
}
#[cfg(not(feature = "heap"))]
fn starved(c: &mut Ctx, _: &impl Doer, _: impl Fn() -> String) -> R { c.eval(); Ok(()) }

fn small_val(r: &mut Rng, g: Gen) -> (Sch, Val) {
    if crate::big::is_on() { return crate::big::scaled(r, g) }
    loop {
        let d = r.below(4);
        let s = schema(r, g, d);
        let mut b = 14;
        let v = value(r, &s, &mut b);
        if let Sch::Enum(n, _) | Sch::Struct(n, _) = &s { if n.len() > 60 { continue } }
        return (s, v);
    }
}
fn s02_json(c: &mut Ctx) -> R {
    let (s, v) = small_val(&mut c.rng, GJ);
    let m = *c.rng.pick(&[BM::Arr, BM::Hex, BM::B64, BM::Pass]);
    faults(c, &JV(m, &SV(&s, &v)), || format!("JSON {m:?} {} {}", short(&s), short(&v)))
}
fn s02_mp(c: &mut Ctx) -> R {
    let (s, v) = small_val(&mut c.rng, GM);
    let f = fl(&mut c.rng);
    faults(c, &MV(f, &SV(&s, &v)), || format!("MessagePack {f:?} {} {}", short(&s), short(&v)))
}
/// misbehaving serialize implementations (wrong hints, skips, custom errors) and key misuse
fn s02_script(c: &mut Ctx) -> R {
    let d = c.rng.range(0, 3);
    let a = crate::c_json::gen_act(&mut c.rng, d, true);
    if c.rng.coin() { let m = bm(&mut c.rng); faults(c, &JV(m, &a), || format!("JSON {m:?} {}", short(&a))) }
    else { let f = fl(&mut c.rng); faults(c, &MV(f, &a), || format!("MessagePack {f:?} {}", short(&a))) }
}
fn s02_doc(c: &mut Ctx) -> R {
    let d = types::doc(&mut c.rng, 0);
    if c.rng.coin() { let m = bm(&mut c.rng); faults(c, &JV(m, &d), || format!("JSON {m:?} {}", short(&d))) }
    else { let f = fl(&mut c.rng); faults(c, &MV(f, &d), || format!("MessagePack {f:?} {}", short(&d))) }
}
fn s02_alloc(c: &mut Ctx) -> R {
    let g = Gen { fmt: false, ..if c.rng.coin() { GJ } else { GM } };
    let (s, v) = small_val(&mut c.rng, g);
    if g.json { let m = bm(&mut c.rng); starved(c, &JV(m, &SV(&s, &v)), || format!("JSON {m:?} {} {}", short(&s), short(&v))) }
    else { let f = fl(&mut c.rng); starved(c, &MV(f, &SV(&s, &v)), || format!("MessagePack {f:?} {} {}", short(&s), short(&v))) }
}
/// the entry points that allocate their own output give the same bytes
#[cfg(feature = "heap")]
fn s02_owned(c: &mut Ctx) -> R {
    use ser_write_json::ser as js;
    use ser_write_msgpack::ser as ms;
    let (s, v) = small_val(&mut c.rng, Gen { fmt: true, ..GJ });
    let v = SV(&s, &v);
    let what = || format!("{} {}", short(&s), short(v.1));
    for kind in 0..7u8 {
        let full = match kind { 0 => jser(BM::Arr, &v), 1 => jser(BM::Hex, &v), 2 => jser(BM::B64, &v), 3 => jser(BM::Pass, &v), 4 => mser(Fl::Compact, &v), 5 => mser(Fl::Idx, &v), _ => mser(Fl::Named, &v) };
        let r: Result<Vec<u8>, String> = match kind {
            0 => js::to_string(&v).map(|s| s.into_bytes()).map_err(|e| format!("{e:?}")),
            1 => js::to_string_hex_bytes(&v).map(|s| s.into_bytes()).map_err(|e| format!("{e:?}")),
            2 => js::to_string_base64_bytes(&v).map(|s| s.into_bytes()).map_err(|e| format!("{e:?}")),
            3 => js::to_string_pass_bytes(&v).map(|s| s.into_bytes()).map_err(|e| format!("{e:?}")),
            4 => ms::to_vec_compact(&v).map_err(|e| format!("{e:?}")),
            5 => ms::to_vec(&v).map_err(|e| format!("{e:?}")),
            _ => ms::to_vec_named(&v).map_err(|e| format!("{e:?}")),
        };
        c.eval();
        let want = full.ok().filter(|f| kind != 3 || std::str::from_utf8(f).is_ok());
        match (&r, &want) {
            (Ok(o), Some(w)) if o == w => c.count("same bytes", 1),
            (Err(_), None) => c.count("both refused", 1),
            _ => return Err(format!("entry point {kind} gave {:?} instead of {:?}: {}", r.as_ref().map(|b| show(b)), want.map(|b| show(&b)), what())),
        }
        if let Ok(o) = &r { c.seen2(o, kind as u64) }
    }
    Ok(())
}
#[cfg(not(feature = "heap"))]
fn s02_owned(c: &mut Ctx) -> R { c.eval(); Ok(()) }
pub fn s02(t: Tier) -> Vec<Workload> {
    vec![
        wl("JSON: every failing write, every capacity", n(t, 3_000, 150_000, 6), s02_json),
        wl("MessagePack: every failing write, every capacity", n(t, 3_000, 150_000, 6), s02_mp),
        wl("misbehaving Serialize implementations", n(t, 3_000, 120_000, 4), s02_script),
        wl("derived documents", n(t, 300, 20_000, 1), s02_doc),
        wl("failing allocations", if cfg!(feature = "heap") { n(t, 20_000, 800_000, 10) } else { 1 }, s02_alloc),
        wl("entry points that own their output", if cfg!(feature = "heap") { n(t, 8_000, 400_000, 10) } else { 1 }, s02_owned), wl("scale: JSON", n(t, 20, 2000, 1), |c| crate::big::on(c, s02_json)), wl("scale: MessagePack", n(t, 20, 2000, 1), |c| crate::big::on(c, s02_mp))]
}

// ---------------------------------------------------------------- S03
/// Formats into chosen fragments; may fail or change on chosen formattings.
pub struct Frag { pub parts: Vec<(u8, String)>, pub fail_after: Option<usize>, pub fail_from: usize, pub alt: Option<(usize, String)>, pub n: Cell<usize> }
impl fmt::Display for Frag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        user::S.with(|u| u.fmts.set(u.fmts.get() + 1));
        use fmt::Write;
        let k = self.n.get();
        self.n.set(k + 1);
        if let Some((from, s)) = &self.alt { if k >= *from { return f.write_str(s) } }
        let failing = k >= self.fail_from;
        for (i, (how, p)) in self.parts.iter().enumerate() {
            if failing && self.fail_after == Some(i) { return Err(fmt::Error) }
            match how { 0 => f.write_str(p)?, 1 => for c in p.chars() { f.write_char(c)? }, 2 => write!(f, "{p}")?, 3 => write!(f, "{:>1$}", p, 0)?, _ => f.write_fmt(format_args!("{}{}", &p[..0], p))? }
        }
        if failing && self.fail_after.is_some_and(|i| i >= self.parts.len()) { return Err(fmt::Error) }
        Ok(())
    }
}
impl Serialize for Frag { fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { z.collect_str(self) } }
pub struct OneMap<'a, T: ?Sized>(pub &'a T);
impl<T: Serialize + ?Sized> Serialize for OneMap<'_, T> { fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeMap; let mut m = z.serialize_map(Some(1))?; m.serialize_entry(self.0, &true)?; m.end() } }

pub fn frag(r: &mut Rng, total: usize) -> Frag {
    let text = gen_str_len(r, total);
    let mut parts: Vec<(u8, String)> = vec![];
    let mut rest = &text[..];
    let style = r.below(4);
    if r.one_in(6) { parts.push((r.below(5) as u8, String::new())) }
    while !rest.is_empty() {
        let mut k = match style { 0 => rest.len(), 1 => 1, 2 => r.range(1, 5), _ => r.range(1, 1 + rest.len()) }.min(rest.len());
        if parts.len() > 300 { k = rest.len() }
        while !rest.is_char_boundary(k) { k += 1 }
        parts.push((r.below(5) as u8, rest[..k].to_string()));
        rest = &rest[k..];
        if r.one_in(9) { parts.push((r.below(5) as u8, String::new())) }
    }
    Frag { parts, fail_after: None, fail_from: 0, alt: None, n: Cell::new(0) }
}
pub fn frag_len(r: &mut Rng, i: u64) -> usize {
    if crate::util::tiny() { return *r.pick(&[0, 1, 2, 15, 30, 31, 32, 33, 40]) }
    const B: [usize; 16] = [0, 1, 2, 15, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 65535, 65536];
    match i % 50 { 0..=15 => B[(i % 50) as usize], 16 => r.range(65530, 65540), 17..=24 => r.range(28, 36), 25..=30 => r.range(250, 260), _ => r.below(60) }
}
fn s03_same(c: &mut Ctx) -> R {
    let len = frag_len(&mut c.rng, c.idx);
    let len = if crate::util::tiny() { len.min(300) } else { len };
    let f = frag(&mut c.rng, len);
    let text: String = f.parts.iter().map(|p| &p.1[..]).collect();
    let what = || format!("{} fragments, {:?}", f.parts.len(), short(&text));
    let m = bm(&mut c.rng);
    let mode = |k: u8| match k { 0 => Fl::Compact, 1 => Fl::Idx, _ => Fl::Named };
    for kind in 0..8u8 {
        let (got, want) = match kind {
            0 => (jser(m, &f), jser(m, &text)), 1 => (jser(m, &OneMap(&f)), jser(m, &OneMap(&text))),
            k if k < 5 => (mser(mode(k - 2), &f), mser(mode(k - 2), &text)),
            k => (mser(mode(k - 5), &OneMap(&f)), mser(mode(k - 5), &OneMap(&text))),
        };
        c.evals(2);
        let want = want.map_err(|e| format!("a plain string failed with {e:?}"))?;
        match &got { Ok(g) if *g == want => {} g => return Err(format!("collected string (case {kind}) gave {:?} instead of {}: {}", g.as_ref().map(|b| show(b)), show(&want), what())) }
        // anchor the plain string too
        let ok = if kind < 2 { jref::parse(&want).is_ok_and(|p| match (&p.j, kind) { (jref::J::Str(s), 0) => s.text() == Some(&text), (jref::J::Obj(o), 1) => o.len() == 1 && o[0].0.text() == Some(&text), _ => false }) }
            else { mref::parse(&want).is_ok_and(|(p, n, min)| n == want.len() && min && match p { mref::M::Str(s) => kind < 5 && s == text.as_bytes(), mref::M::Map(o) => kind >= 5 && o.len() == 1 && matches!(&o[0].0, mref::M::Str(s) if s == text.as_bytes()), _ => false }) };
        if !ok { return Err(format!("a plain string (case {kind}) is written as {}: {}", show(&want), what())) }
        c.count("collected values and keys equal to plain strings", 1);
    }
    c.seen2(text.as_bytes(), f.parts.len() as u64);
    c.sample(what);
    Ok(())
}
/// sink failures while formatting
fn s03_sink(c: &mut Ctx) -> R {
    let len = c.rng.below(70);
    let f = frag(&mut c.rng, len);
    let what = || format!("collected string in {} fragments", f.parts.len());
    if c.rng.coin() {
        let m = bm(&mut c.rng);
        if c.rng.coin() { faults(c, &JV(m, &f), what) } else { faults(c, &JV(m, &OneMap(&f)), what) }
    } else {
        let l = fl(&mut c.rng);
        if c.rng.coin() { faults(c, &MV(l, &f), what) } else { faults(c, &MV(l, &OneMap(&f)), what) }
    }
}
/// formatters that fail or change their mind
fn s03_bad(c: &mut Ctx) -> R {
    let k = c.rng.next() % 31;
    let len = if c.rng.coin() { c.rng.below(40) } else { frag_len(&mut c.rng, k).min(300) };
    let mut f = frag(&mut c.rng, len);
    let text: String = f.parts.iter().map(|p| &p.1[..]).collect();
    let mut texts = vec![text.clone()];
    let failing = c.rng.coin();
    if failing {
        f.fail_after = Some(c.rng.below(f.parts.len() + 1));
        f.fail_from = c.rng.below(2);
    } else {
        let l2 = match c.rng.below(6) { 0 => 0, 1 => len, 2 => len.saturating_sub(1), 3 => len + 1, 4 => c.rng.below(len + 1), _ => len + c.rng.below(300) };
        let s = gen_str_len(&mut c.rng, l2);
        texts.push(s.clone());
        f.alt = Some((1, s));
    }
    let always = failing && f.fail_from == 0;
    for kind in 0..8u8 {
        f.n.set(0);
        let (f, k) = (&f, kind);
        let m = bm(&mut c.rng);
        let mode = |k: u8| match k { 0 => Fl::Compact, 1 => Fl::Idx, _ => Fl::Named };
        let r = guarded(|| match k { 0 => jser(m, f), 1 => jser(m, &OneMap(f)), k if k < 5 => mser(mode(k - 2), f), k => mser(mode(k - 5), &OneMap(f)) });
        c.eval();
        let what = || format!("formatter with {} fragments, failing {:?} from formatting {}, changing {}, (case {kind})", f.parts.len(), f.fail_after, f.fail_from, f.alt.is_some());
        match r {
            Err((p, _)) => return Err(format!("{p}: {}", what())),
            Ok(Err(_)) => c.count("reported as an error", 1),
            Ok(Ok(o)) => {
                if always { return Err(format!("success although formatting failed, output {}: {}", show(&o), what())) }
                let txt: Option<Vec<u8>> = if kind < 2 {
                    jref::parse(&o).ok().and_then(|p| match (p.j, kind) { (jref::J::Str(s), 0) => s.dec, (jref::J::Obj(mut o), 1) if o.len() == 1 => o.remove(0).0.dec, _ => None })
                } else {
                    mref::parse(&o).ok().filter(|(_, n, _)| *n == o.len()).and_then(|(p, _, _)| match p { mref::M::Str(s) if kind < 5 => Some(s), mref::M::Map(mut o) if kind >= 5 && o.len() == 1 => match o.remove(0).0 { mref::M::Str(s) => Some(s), _ => None }, _ => None })
                };
                match txt {
                    Some(t) if texts.iter().any(|x| x.as_bytes() == &t[..]) => c.count("one of the formatted texts written", 1),
                    _ => return Err(format!("corrupt output {} reported as success, texts are {:?}: {}", show(&o), texts, what())),
                }
            }
        }
    }
    c.seen2(text.as_bytes(), f.fail_after.unwrap_or(99) as u64 ^ (f.fail_from as u64) << 20);
    Ok(())
}
/// the standard library's own formatted values
fn s03_std(c: &mut Ctx) -> R {
    struct D<T: fmt::Display>(T);
    impl<T: fmt::Display> Serialize for D<T> { fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> { z.collect_str(&self.0) } }
    fn chk<T: fmt::Display>(c: &mut Ctx, v: T) -> R {
        let t = v.to_string();
        let d = D(v);
        c.evals(4);
        let m = bm(&mut c.rng);
        if jser(m, &d) != jser(m, &t) || jser(m, &OneMap(&d)) != jser(m, &OneMap(&t)) { return Err(format!("JSON differs from the plain string {t:?}: {:?}", jser(m, &d).map(|b| show(&b)))) }
        for f in FLS { if mser(f, &d) != mser(f, &t) || mser(f, &OneMap(&d)) != mser(f, &OneMap(&t)) { return Err(format!("MessagePack {f:?} differs from the plain string {t:?}: {:?}", mser(f, &d).map(|b| hex(&b)))) } }
        c.seen(t.as_bytes());
        Ok(())
    }
    let r = &mut c.rng.clone();
    c.rng = c.rng.fork();
    match r.below(8) {
        0 => { let v = gen_i64(r, 64); chk(c, v) } 1 => { let v = gen_f64(r); chk(c, v) } 2 => { let v = gen_f32(r); chk(c, v) }
        3 => { let a = std::net::Ipv6Addr::from(((r.next() as u128) << 64 | r.next() as u128) & !(0xffff_ffff << (r.below(90)))); chk(c, a) }
        4 => { let v = gen_char(r); chk(c, v) } 5 => { let s = gen_str(r); chk(c, s.escape_debug()) }
        6 => { let s = gen_str(r); let n = r.below(70); chk(c, format_args!("{:>n$}|{:<5}|{:^9}", s.chars().take(5).collect::<String>(), r.next(), '"')) }
        _ => { let s = gen_str(r); let b = gen_f64(r); chk(c, format_args!("{s}\n{b:e} {:#x} {:?}", r.next(), s)) }
    }
}
pub fn s03(t: Tier) -> Vec<Workload> {
    vec![
        wl("fragmented text equals the plain string", n(t, 20_000, 1_000_000, 20), s03_same),
        wl("scale", n(t, 300, 30000, 1), |c| crate::big::on(c, s03_same)), wl("sink failures while formatting", n(t, 2_000, 100_000, 4), s03_sink),
        wl("failing and changing formatters", n(t, 30_000, 1_500_000, 30), s03_bad),
        wl("standard library formatting", n(t, 20_000, 1_000_000, 16), s03_std),
    ]
}
