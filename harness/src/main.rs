#![allow(dead_code, unused_imports, unused_variables, irrefutable_let_patterns)]
mod any; mod big; mod c_err; mod c_iso; mod c_json; mod c_more; mod c_mp; mod c_res; mod c_ser; mod c_stream; mod c_user; mod c_walk; mod c_x; mod jref; mod mem; mod model; mod mref; mod probe; mod rng; mod runner; mod sink; mod types; mod util;
use runner::*;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn workloads(p: &str, t: Tier) -> Option<Vec<Workload>> {
    Some(match p {
        #[cfg(feature = "p-J01")] "J01" => c_json::j01(t),
        #[cfg(feature = "p-J02")] "J02" => c_json::j02(t),
        #[cfg(feature = "p-J03")] "J03" => c_json::j03(t),
        #[cfg(feature = "p-J04")] "J04" => c_json::j04(t),
        #[cfg(feature = "p-J05")] "J05" => c_json::j05(t),
        #[cfg(feature = "p-J06")] "J06" => c_json::j06(t),
        #[cfg(feature = "p-J07")] "J07" => c_json::j07(t),
        #[cfg(feature = "p-J08")] "J08" => c_json::j08(t),
        #[cfg(feature = "p-J09")] "J09" => c_json::j09(t),
        #[cfg(feature = "p-J10")] "J10" => c_json::j10(t),
        #[cfg(feature = "p-J11")] "J11" => c_more::j11(t),
        #[cfg(feature = "p-M01")] "M01" => c_mp::m01(t),
        #[cfg(feature = "p-M02")] "M02" => c_mp::m02(t),
        #[cfg(feature = "p-M03")] "M03" => c_mp::m03(t),
        #[cfg(feature = "p-M04")] "M04" => c_mp::m04(t),
        #[cfg(feature = "p-M05")] "M05" => c_mp::m05(t),
        #[cfg(feature = "p-M06")] "M06" => c_mp::m06(t),
        #[cfg(feature = "p-M07")] "M07" => c_mp::m07(t),
        #[cfg(feature = "p-S01")] "S01" => c_ser::s01(t),
        #[cfg(feature = "p-S02")] "S02" => c_ser::s02(t),
        #[cfg(feature = "p-S03")] "S03" => c_ser::s03(t),
        #[cfg(feature = "p-S04")] "S04" => c_user::s04(t),
        #[cfg(feature = "p-X07")] "X07" => c_user::x07(t),
        #[cfg(feature = "p-X08")] "X08" => c_user::x08(t),
        #[cfg(feature = "p-X09")] "X09" => c_err::x09(t),
        #[cfg(feature = "p-X10")] "X10" => c_walk::x10(t),
        #[cfg(feature = "p-X11")] "X11" => c_iso::x11(t),
        #[cfg(feature = "p-X01")] "X01" => c_x::x01(t),
        #[cfg(feature = "p-X02")] "X02" => c_x::x02(t),
        #[cfg(feature = "p-X03")] "X03" => c_x::x03(t),
        #[cfg(feature = "p-X04")] "X04" => c_more::x04(t),
        #[cfg(feature = "p-X05")] "X05" => c_res::x05(t),
        #[cfg(feature = "p-X06")] "X06" => c_res::x06(t),
        _ => return None,
    })
}
fn main() {
    let mut a = Args { prop: String::new(), tier: Tier::Quick, seed: 1, cfg: String::new(), threads: 1, out: None, marks: None, only: None, div: 1, wls: None, trace: None, shard: (0, 1) };
    let mut it = std::env::args().skip(1);
    a.prop = it.next().expect("property id");
    if a.prop == "probe" {
        let what = it.next().expect("probe name");
        let n = it.next().expect("depth").parse().expect("depth");
        std::process::exit(if probe::probe(&what, n) { 0 } else { 2 });
    }
    #[cfg(all(feature = "p-X11", not(miri)))]
    if a.prop == "use" {
        use std::io::Write;
        let seed = it.next().expect("seed").parse().expect("seed");
        // with the stack the workers have
        let o = std::thread::Builder::new().stack_size(64 << 20).spawn(move || c_iso::fresh(seed)).expect("thread").join().expect("use");
        std::io::stdout().write_all(&o).expect("stdout");
        return;
    }
    let mut list = false;
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match &k[..] {
            "--tier" => a.tier = match &v()[..] { "quick" => Tier::Quick, "thorough" => Tier::Thorough, "miri" => Tier::Miri, x => panic!("tier {x}") },
            "--seed" => a.seed = v().parse().expect("seed"),
            "--cfg" => a.cfg = v(),
            "--threads" => a.threads = v().parse().expect("threads"),
            "--out" => a.out = Some(v()),
            "--marks" => a.marks = Some(v()),
            "--trace" => a.trace = Some(v()),
            "--shard" => { let x = v(); let (i, n) = x.split_once('/').expect("i/n"); a.shard = (i.parse().expect("i"), n.parse().expect("n")) }
            "--div" => a.div = v().parse().expect("div"),
            "--wls" => a.wls = Some(v().split(',').map(|s| s.to_string()).collect()),
            "--only" => { let x = v(); let (w, i) = x.rsplit_once(':').expect("workload:index"); a.only = Some((w.to_string(), i.parse().expect("index"))) }
            "--list" => list = true,
            x => panic!("option {x}"),
        }
    }
    let _ = util::CFG.set(a.cfg.clone());
    util::TINY.store(a.tier == Tier::Miri, std::sync::atomic::Ordering::Relaxed);
    let Some(w) = workloads(&a.prop, a.tier) else { eprintln!("unknown property {}", a.prop); std::process::exit(2) };
    if list { for w in &w { println!("{}", w.name) } return }
    std::process::exit(run(&a, &w));
}
