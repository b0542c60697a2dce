#![feature(f16, f128)]
#![allow(dead_code)]
mod dom;
mod drive;
mod explore;
mod interp;
mod ll;
mod rules;
mod run;
mod spec;
mod term;
mod wiring;
mod vn;
mod rel;
mod tm;
mod aff;
use dom::*;
use drive::*;
use explore::*;
use interp::*;
use ll::*;

fn parse_arg(t: &Ty, s: &str) -> Val {
    match t {
        Ty::Flt(k) => {
            if s == "all" { return Val::Flt(FltV::top(*k)); }
            if s == "nan" { return Val::Flt(FltV::only_nan(*k, NANS)); }
            let (a, b) = s.split_once("..").unwrap_or((s, s));
            let f = |x: &str| -> u128 { if let Some(h) = x.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else { from_f64(*k, x.parse::<f64>().unwrap()) } };
            Val::Flt(FltV { t: 0, k: *k, lo: key(f(a), *k), hi: key(f(b), *k), nan: 0 })
        }
        Ty::Int(w) => { if s == "all" { return Val::Int(IntV::top(*w)); } let (a, b) = s.split_once("..").unwrap_or((s, s)); Val::Int(IntV::s(*w, a.parse().unwrap(), b.parse().unwrap())) }
        _ => top_of(t),
    }
}

fn load(files: &str) -> Prog {
    let mut m = Module::default();
    for f in files.split(',') { m.load(f).unwrap(); }
    Prog::new(m)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "eval" | "trace" => {
            let mut m = Module::default();
            for f in a[2].split(',') { m.load(f).unwrap(); }
            let p = Prog::new(m);
            let fi = p.fns.iter().find(|f| f.demangled == a[3] || f.demangled.ends_with(&format!("::{}", a[3]))).expect("function");
            let ps: Vec<&Ty> = fi.f.params.iter().filter(|x| x.ty != Ty::Ptr).map(|x| &x.ty).collect();
            let cell: Vec<Val> = ps.iter().zip(&a[4..]).map(|(t, s)| parse_arg(t, s)).collect();
            let o = eval(&p, fi.id, &cell, 1 << 30, 80, a[1] == "trace", true);
            println!("{} ({}) = {}", fi.demangled, cell_str(&cell), o.ret.map_or("diverges".into(), |v| show(&v)));
            println!("steps {} obligations {} widened {:?}", o.steps, o.seen.len(), o.widened);
            for (k, f) in &o.fails { println!("  {:?} {} at {} in {} [{}]", f.kind, f.what, p.loc_of(*k), p.src_fn(*k), p.fns[k.0].f.blocks[k.1 as usize].name); }
        }
        "safety" | "structure" | "reduction" | "wiring" | "contract" | "rules" | "rel" | "accuracy" | "exact" => {
            let p = load(&format!("{0}/libm.ll,{0}/wrap.ll", a[2]));
            let get = |k: &str, d: &str| a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone());
            let o = run::Opts { scale: get("--scale", "1").parse().unwrap(), evals: get("--evals", "20000").parse().unwrap(), steps: get("--steps", "200000").parse().unwrap(), total: get("--total", "400000000").parse().unwrap(), threads: get("--threads", "8").parse().unwrap(), prefix: get("--prefix", "vw_"), only: a.iter().position(|x| x == "--only").map(|i| a[i + 1].split(',').map(|s| s.to_string()).collect()) };
            match a[1].as_str() { "safety" => run::safety(&p, &o), "reduction" => { run::reduction(&p, o.threads, false); if a.iter().any(|x| x == "--again") { run::reduction(&p, o.threads, true) } } "exact" => aff::exact(&p, &get("--file", ""), &o), "accuracy" => tm::accuracy(&p, &get("--file", ""), &o), "rel" => rel::relations(&p, &get("--file", ""), &o), "rules" => rules::rules(&p, &get("--file", ""), &o), "contract" => spec::contract(&p, &o.only.clone().map_or(vec![], |s| s.into_iter().collect::<Vec<_>>()), &o), "wiring" => { let t = std::fs::read_to_string(get("--pairs", "")).unwrap(); let ps: Vec<(String, String)> = t.lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect(); wiring::wiring(&p, &ps, &o) } _ => run::structure(&p) }
        }
        "show" | "showt" => { // show DIR zs|strict kind exprs(;) values...
            let p = load(&format!("{0}/libm.ll,{0}/wrap.ll", a[2]));
            let fk = match a[4].as_str() { "f16" => FK::F16, "f32" => FK::F32, "f64" => FK::F64, _ => FK::F128 };
            let vars = a[6..].iter().map(|s| if let Some(i) = s.strip_prefix('i') { parse_arg(&Ty::Int(32), i) } else { parse_arg(&Ty::Flt(fk), s) }).collect();
            rel::show_rel(&p, "vw_", &a[3], &a[5].split(';').collect::<Vec<_>>(), vars, fk, 14, a[1] == "showt");
        }
        "aprobe" => { let p = load(&format!("{0}/libm.ll,{0}/wrap.ll", a[2])); aff::probe(&p, "vw_", &a[3], a.get(4).map(|s| { let (x, y) = s.split_once("..").unwrap(); (u128::from_str_radix(x, 16).unwrap(), u128::from_str_radix(y, 16).unwrap()) })) }
        "probe" => { let p = load(&format!("{0}/libm.ll,{0}/wrap.ll", a[2])); let c: Vec<&str> = a[4..].iter().map(|s| s.as_str()).collect(); tm::probe(&p, "vw_", &a[3], &c) }
        "survey" => {
            let p = load(&a[2]);
            let me: u64 = a[3].parse().unwrap();
            let ms: u64 = a[4].parse().unwrap();
            let tasks: Vec<Task> = entries(&p, "vw_").into_iter().filter(|(n, _)| a.get(5).map_or(true, |f| f.split(',').any(|x| x == *n))).map(|(n, fid)| Task { name: n.to_string(), fid, cells: full_cells(&p.fns[fid]), max_evals: me, max_steps: ms, total_steps: 200_000_000, unroll: 80, track: true, stop_on_definite: false, max_dives: 4, run: None,
                judge: Box::new(|_, o| { if o.fails.is_empty() { Verdict::Ok } else { Verdict::Fail(o.fails.values().map(|f| fail_key(&p, f)).collect()) } }) }).collect();
            let rs = explore(&p, &tasks, 8);
            for (t, r) in tasks.iter().zip(rs) {
                if r.found.is_empty() && r.secs < 1.0 && r.widened.is_empty() { continue }
                println!("{} evals {} proven {} unproven {} {:.1}s widened {:?}", t.name, r.evals, r.proven, r.unproven, r.secs, r.widened.iter().map(|(k, v)| format!("{}#{} x{}", p.fns[k.0].demangled, k.1, v)).collect::<Vec<_>>());
                for (k, f) in &r.found { println!("    {} x{} {} {} | {}", k, f.count, if f.definite { "DEFINITE" } else { "" }, f.cell, f.text); }
            }
        }
        _ => {}
    }
}
