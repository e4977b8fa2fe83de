//! Monitored writer, guarded input buffers and uniform entry points of the crates under test.
use crate::model::*;
use ser_write::SerWrite;
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
/// carries the number of the call that failed
pub struct WErr(pub u64);
impl fmt::Display for WErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "werr {}", self.0) } }
impl std::error::Error for WErr {}

/// Records every call; can fail at call `fail_at` or when `cap` bytes would be exceeded.
pub struct MonW {
    pub buf: Vec<u8>, pub cap: usize, pub fail_at: u64, pub calls: u64, pub sizes: Vec<u32>,
    pub fails: u64, pub after_fail: u64, /** the call that failed first */ pub first: u64,
    /// keep failing once failed
    pub sticky: bool,
    /// a write_str call was given bytes that are not UTF-8
    pub bad_str: bool,
}
impl MonW {
    pub fn new() -> MonW { MonW { buf: vec![], cap: usize::MAX, fail_at: u64::MAX, calls: 0, sizes: vec![], fails: 0, after_fail: 0, first: u64::MAX, sticky: true, bad_str: false } }
    pub fn fail_at(n: u64, sticky: bool) -> MonW { MonW { fail_at: n, sticky, ..MonW::new() } }
    pub fn cap(n: usize) -> MonW { MonW { cap: n, ..MonW::new() } }
    fn put(&mut self, b: &[u8]) -> Result<(), WErr> {
        let n = self.calls;
        self.calls += 1;
        user::wrote();
        if self.fails > 0 { self.after_fail += 1 }
        if n == self.fail_at || (self.fails > 0 && self.sticky) || self.buf.len() + b.len() > self.cap { self.fails += 1; if self.fails == 1 { self.first = n } return Err(WErr(n)) }
        self.sizes.push(b.len() as u32);
        self.buf.extend_from_slice(b);
        Ok(())
    }
}
impl SerWrite for MonW {
    type Error = WErr;
    fn write(&mut self, b: &[u8]) -> Result<(), WErr> { self.put(b) }
    fn write_byte(&mut self, b: u8) -> Result<(), WErr> { self.put(&[b]) }
    fn write_str(&mut self, s: &str) -> Result<(), WErr> {
        if std::str::from_utf8(s.as_bytes()).is_err() { self.bad_str = true }
        self.put(s.as_bytes())
    }
}

thread_local! { static LASTW: std::cell::RefCell<Small> = const { std::cell::RefCell::new(Small([0; 40], 0)) }; }
struct Small([u8; 40], usize);
impl fmt::Write for Small { fn write_str(&mut self, s: &str) -> fmt::Result { for b in s.bytes() { if self.1 < 40 { self.0[self.1] = b; self.1 += 1 } } Ok(()) } }
/// remember how the sink's error that came back describes itself
fn writer_error(e: &impl fmt::Display) -> SErr { use fmt::Write; LASTW.with(|l| { let mut l = l.borrow_mut(); l.1 = 0; let _ = write!(l, "{e}"); }); SErr::Writer }
/// the description of the last sink error returned to the caller
pub fn last_writer_error() -> String { LASTW.with(|l| { let l = l.borrow(); String::from_utf8_lossy(&l.0[..l.1]).into_owned() }) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BM { Arr, Hex, B64, Pass }
pub const BMS: [BM; 3] = [BM::Arr, BM::Hex, BM::B64];

/// Outcome classes that may be compared across configurations.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SErr { Writer, Key, Format, Custom, Len, Other }

pub fn jser_to<W: SerWrite, T: serde::Serialize + ?Sized>(m: BM, w: W, v: &T) -> Result<(), SErr>
where W::Error: fmt::Display + fmt::Debug {
    use ser_write_json as j;
    use j::ser::Error as E;
    match m {
        BM::Arr => j::to_writer(w, v), BM::Hex => j::to_writer_hex_bytes(w, v),
        BM::B64 => j::to_writer_base64_bytes(w, v), BM::Pass => j::to_writer_pass_bytes(w, v),
    }.map_err(|e| match e {
        E::Writer(e) => writer_error(&e), E::InvalidKeyType => SErr::Key, E::FormatError => SErr::Format,
        E::SerializeError { .. } => SErr::Custom,
        #[allow(unreachable_patterns)] _ => SErr::Other,
    })
}
pub fn jser<T: serde::Serialize + ?Sized>(m: BM, v: &T) -> Result<Vec<u8>, SErr> {
    let mut w = MonW::new();
    jser_to(m, &mut w, v)?;
    Ok(w.buf)
}
pub fn jde<'a, T: serde::Deserialize<'a>>(m: BM, b: &'a mut [u8]) -> Result<T, ser_write_json::de::Error> {
    use ser_write_json as j;
    match m {
        BM::Arr | BM::Pass => j::from_mut_slice(b), BM::Hex => j::from_mut_slice_hex_bytes(b), BM::B64 => j::from_mut_slice_base64_bytes(b),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fl { Compact, Idx, Named }
pub const FLS: [Fl; 3] = [Fl::Compact, Fl::Idx, Fl::Named];
pub fn mser_to<W: SerWrite, T: serde::Serialize + ?Sized>(f: Fl, w: W, v: &T) -> Result<(), SErr>
where W::Error: fmt::Display + fmt::Debug {
    use ser_write_msgpack as m;
    use m::ser::Error as E;
    match f { Fl::Compact => m::to_writer_compact(w, v), Fl::Idx => m::to_writer(w, v), Fl::Named => m::to_writer_named(w, v) }
        .map_err(|e| match e {
            E::Writer(e) => writer_error(&e),
            E::FormatError => SErr::Format, E::SerializeError { .. } => SErr::Custom,
            E::SeqLength | E::MapLength | E::StrLength | E::DataLength | E::FieldSkipped => SErr::Len,
            #[allow(unreachable_patterns)] _ => SErr::Other,
        })
}
pub fn mser<T: serde::Serialize + ?Sized>(f: Fl, v: &T) -> Result<Vec<u8>, SErr> {
    let mut w = MonW::new();
    mser_to(f, &mut w, v)?;
    Ok(w.buf)
}
pub use ser_write_msgpack::from_slice as mde;

// ---------------------------------------------------------------- guarded buffers
const CAN: usize = 48;
/// A copy of `b` between canaries.
pub struct Guard { v: Vec<u8>, n: usize }
impl Guard {
    pub fn new(b: &[u8]) -> Guard {
        let mut v = vec![0xA5u8; CAN];
        v.extend_from_slice(b);
        // plausible continuation: anything reading past the end finds something to chew on
        v.extend((0..CAN).map(|i| b"1\"]}0=A,\\u0041"[i % 14]));
        Guard { v, n: b.len() }
    }
    pub fn buf(&mut self) -> &mut [u8] { &mut self.v[CAN..CAN + self.n] }
    pub fn intact(&self) -> bool {
        self.v[..CAN].iter().all(|b| *b == 0xA5) && self.v[CAN + self.n..].iter().enumerate().all(|(i, b)| *b == b"1\"]}0=A,\\u0041"[i % 14])
    }
}
/// Run `f` on a copy of `b` whose last byte is directly followed by an inaccessible page.
#[cfg(not(miri))]
pub fn fenced<T>(b: &[u8], f: impl FnOnce(&mut [u8]) -> T) -> T {
    const SZ: usize = 1 << 24;
    thread_local! { static ARENA: usize = {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), SZ + 8192, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let q = (p as usize + 4096) as *mut libc::c_void;
            assert!(libc::mprotect(q, SZ, libc::PROT_READ | libc::PROT_WRITE) == 0);
            q as usize
        }
    } }
    assert!(b.len() <= SZ);
    let base = ARENA.with(|a| *a) + SZ - b.len();
    // SAFETY: inside the mapping made above; this thread is its only user
    let s = unsafe { std::slice::from_raw_parts_mut(base as *mut u8, b.len()) };
    s.copy_from_slice(b);
    f(s)
}
#[cfg(miri)]
pub fn fenced<T>(b: &[u8], f: impl FnOnce(&mut [u8]) -> T) -> T {
    let mut v = b.to_vec().into_boxed_slice();
    f(&mut v)
}

/// Check what the deserializer lent out of `[base, base+n)`; `fin` is the buffer content after the whole document.
pub fn check_lent(rec: &Rec, base: usize, fin: &[u8]) -> Result<usize, String> {
    let l = rec.lent.borrow();
    let mut r: Vec<(usize, usize)> = vec![];
    for x in l.iter() {
        if x.ptr < base || x.ptr + x.len > base + fin.len() { return Err(format!("lent slice at offset {} len {} is outside the {} byte input", x.ptr.wrapping_sub(base) as isize, x.len, fin.len())) }
        let o = x.ptr - base;
        if fin[o..o + x.len] != x.copy[..] {
            return Err(format!("lent slice at {}..{} changed afterwards: {:?} became {:?}", o, o + x.len, String::from_utf8_lossy(&x.copy), String::from_utf8_lossy(&fin[o..o + x.len])));
        }
        if x.is_str && std::str::from_utf8(&x.copy).is_err() { return Err(format!("lent str is not UTF-8: {:?}", x.copy)) }
        if x.len > 0 { r.push((o, x.len)) }
    }
    r.sort();
    for w in r.windows(2) { if w[0].0 + w[0].1 > w[1].0 { return Err(format!("lent slices overlap: {:?} {:?}", w[0], w[1])) } }
    if rec.bad_utf8.get() > 0 { return Err("a str handed out is not UTF-8".into()) }
    if rec.hints_bad.get() > 0 { return Err("size_hint of a container was wrong".into()) }
    Ok(l.len())
}
