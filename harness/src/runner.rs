//! Case runner: seeded cases in parallel, violation capture, crash markers, measured statistics.
use crate::rng::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough, Miri }

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// (case, digest of its observed behaviour)
    pub trace: Vec<(u64, u64)>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.counters { *self.counters.entry(k).or_default() += v; }
        self.distinct.extend(o.distinct);
        for s in o.samples { if self.samples.len() < 3 { self.samples.push(s) } }
        self.trace.extend(o.trace);
    }
}
pub struct Ctx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub st: &'a mut Stats,
    pub verbose: bool,
    dig: u64,
}
impl Ctx<'_> {
    /// Count one oracle evaluation.
    pub fn eval(&mut self) { self.st.evals += 1; }
    pub fn evals(&mut self, n: u64) { self.st.evals += n; }
    /// Record a non-trivial case by content.
    pub fn seen(&mut self, b: &[u8]) { if self.st.distinct.len() < 400_000 { self.st.distinct.insert(hash_bytes(b)); } }
    pub fn seen2(&mut self, a: &[u8], t: u64) { if self.st.distinct.len() < 400_000 { self.st.distinct.insert(mix(hash_bytes(a), t)); } }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.st.counters.entry(k).or_default() += n; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose { let s = f(); eprintln!("case {}: {}", self.idx, s); return }
        if self.idx % 97 == 3 && self.st.samples.len() < 2 {
            let mut s = f();
            if s.len() > 400 { let mut n = 400; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); s.push('…') }
            self.st.samples.push(s)
        }
    }
    /// Record observed behaviour that has to be the same in every configuration.
    pub fn note(&mut self, tag: &str, b: &[u8]) {
        if self.verbose { eprintln!("case {} observed {tag}: {}", self.idx, crate::util::show(b)) }
        self.dig = mix(mix(self.dig, hash_bytes(tag.as_bytes())), hash_bytes(b));
    }
}
pub type Case = fn(&mut Ctx) -> R;
pub struct Workload { pub name: &'static str, pub n: u64, pub f: Case }
pub fn wl(name: &'static str, n: u64, f: Case) -> Workload { Workload { name, n, f } }

pub struct Args {
    pub prop: String, pub tier: Tier, pub seed: u64, pub cfg: String, pub threads: usize,
    pub out: Option<String>, pub marks: Option<String>, pub only: Option<(String, u64)>, pub div: u64,
    pub wls: Option<Vec<String>>, pub trace: Option<String>,
    /// run only the cases with index % .1 == .0
    pub shard: (u64, u64),
}
#[derive(Debug)]
pub struct Violation { pub workload: &'static str, pub idx: u64, pub msg: String, pub harness: bool }

thread_local! { static LAST_PANIC: RefCell<(String, bool)> = const { RefCell::new((String::new(), false)) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_harness = info.location().map(|l| {
            let f = l.file();
            f.starts_with("src/") && !f.starts_with("src/foreign") || f.contains("/verif/harness/")
        }).unwrap_or(false) && !loc.contains("/repo/");
        let p = info.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = (format!("panic at {loc}: {m}"), in_harness));
    }));
}
/// Err((message, raised_inside_harness))
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, bool)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}
fn run_case(w: &Workload, idx: u64, a: &Args, st: &mut Stats, verbose: bool) -> Option<Violation> {
    let mut h = mix(a.seed, hash_bytes(w.name.as_bytes()));
    h = mix(h, hash_bytes(a.prop.as_bytes()));
    let mut ctx = Ctx { rng: Rng::new(mix(h, idx)), idx, st, verbose, dig: 0 };
    let r = guarded(|| (w.f)(&mut ctx));
    if a.trace.is_some() { let d = (idx, ctx.dig); ctx.st.trace.push(d) }
    match r {
        Ok(Ok(())) => None,
        Ok(Err(msg)) => Some(Violation { workload: w.name, idx, msg, harness: false }),
        Err((msg, harness)) => Some(Violation { workload: w.name, idx, msg, harness }),
    }
}
struct Marks(#[allow(dead_code)] usize);
unsafe impl Sync for Marks {}
impl Marks {
    #[cfg(not(miri))]
    fn open(path: &Option<String>, threads: usize) -> Marks {
        let Some(p) = path else { return Marks(0) };
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("marks");
        f.set_len(16 * threads as u64).expect("marks");
        let m = unsafe { libc::mmap(std::ptr::null_mut(), 16 * threads, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(m != libc::MAP_FAILED);
        Marks(m as usize)
    }
    #[cfg(miri)]
    fn open(_: &Option<String>, _: usize) -> Marks { Marks(0) }
    fn set(&self, t: usize, w: u64, i: u64) {
        if self.0 != 0 {
            let p = (self.0 as *mut u64).wrapping_add(t * 2);
            unsafe { p.write_volatile(w); p.add(1).write_volatile(i); }
        }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Returns process exit status: 0 held, 1 violation, 2 harness error.
pub fn run(a: &Args, wls: &[Workload]) -> i32 {
    install_hook();
    if let Some((name, idx)) = &a.only {
        let Some(w) = wls.iter().find(|w| w.name == name) else { eprintln!("no workload {name}"); return 2 };
        let mut st = Stats::default();
        let r = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || run_case(w, *idx, a, &mut st, true)).unwrap().join().unwrap()
        });
        return match r {
            None => { println!("replay: case held"); 0 }
            Some(v) => { println!("replay: {} case {}: {}", v.workload, v.idx, v.msg); if v.harness { 2 } else { 1 } }
        };
    }
    let marks = Marks::open(&a.marks, a.threads);
    let mut per: Vec<(&'static str, u64, Stats)> = vec![];
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    for (wi, w) in wls.iter().enumerate() {
        if let Some(f) = &a.wls { if !f.iter().any(|x| x == w.name) { continue } }
        let n = (w.n / a.div).max(1).min(w.n);
        let next = AtomicU64::new(0);
        let total = Mutex::new(Stats::default());
        let chunk = (n / (a.threads as u64 * 16)).clamp(1, 256);
        let done = AtomicUsize::new(0);
        let work = |t: usize| {
            let mut st = Stats::default();
            'o: loop {
                let s = next.fetch_add(chunk, Ordering::Relaxed);
                if s >= n { break }
                for i in s..(s + chunk).min(n) {
                    if stop.load(Ordering::Relaxed) { break 'o }
                    if i % a.shard.1 != a.shard.0 { continue }
                    marks.set(t, wi as u64 + 1, i);
                    #[cfg(miri)]
                    eprintln!("@case {}:{i}", w.name);
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Some(v) = run_case(w, i, a, &mut st, false) {
                        let mut g = violations.lock().unwrap();
                        g.push(v);
                        if g.len() >= 5 { stop.store(true, Ordering::Relaxed) }
                    }
                }
            }
            marks.set(t, 0, 0);
            total.lock().unwrap().merge(st);
        };
        if a.threads <= 1 { work(0) } else {
            std::thread::scope(|s| {
                for t in 0..a.threads {
                    let work = &work;
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || work(t)).unwrap();
                }
            });
        }
        per.push((w.name, done.load(Ordering::Relaxed) as u64, total.into_inner().unwrap()));
        if stop.load(Ordering::Relaxed) { break }
    }
    let mut vs = violations.into_inner().unwrap();
    vs.sort_by_key(|v| (v.harness, v.workload, v.idx));
    let mut o = String::from("{\"cfg\":");
    o.push_str(&esc(&a.cfg));
    o.push_str(",\"workloads\":[");
    for (i, (n, c, s)) in per.iter().enumerate() {
        if i > 0 { o.push(',') }
        o.push_str(&format!("{{\"name\":{},\"cases\":{},\"evals\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}]}}",
            esc(n), c, s.evals, s.distinct.len(),
            s.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
    }
    o.push_str("],\"violations\":[");
    for (i, v) in vs.iter().enumerate() {
        if i > 0 { o.push(',') }
        let mut m = v.msg.clone();
        if m.len() > 3000 { let mut n = 3000; while !m.is_char_boundary(n) { n -= 1 } m.truncate(n) }
        o.push_str(&format!("{{\"workload\":{},\"idx\":{},\"harness\":{},\"msg\":{}}}", esc(v.workload), v.idx, v.harness, esc(&m)));
    }
    o.push_str("]}");
    if let Some(p) = &a.trace {
        let mut t = String::new();
        for (n, _, s) in per.iter_mut() { s.trace.sort(); for (i, d) in &s.trace { t.push_str(&format!("{n}\t{i}\t{d:016x}\n")) } }
        std::fs::write(p, t).expect("write trace");
    }
    match &a.out { Some(p) => std::fs::write(p, &o).expect("write out"), None => println!("{o}") }
    if vs.iter().any(|v| !v.harness) { 1 } else if !vs.is_empty() { 2 } else { 0 }
}
