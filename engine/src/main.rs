mod exec;
mod mem;
mod num;
mod term;
mod wasm;
mod z3;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn arr<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut wasm, mut export, mut out) = (String::new(), String::new(), String::new());
    let mut cfg = exec::Cfg { params: vec![], threads: std::thread::available_parallelism().map_or(4, |n| n.get()), max_steps: 200_000_000, max_depth: 6000,
        time: Duration::from_secs(600), max_viol: 4, samples: 24, query_ms: 60_000, seed: 1 };
    let mut filter = String::from("brack");
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--wasm" => wasm = v(), "--export" => export = v(), "--out" => out = v(),
            "--params" => { let s = v(); cfg.params = s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
            "--threads" => cfg.threads = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-depth" => cfg.max_depth = v().parse().unwrap(),
            "--time" => cfg.time = Duration::from_secs(v().parse().unwrap()),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--query-ms" => cfg.query_ms = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--filter" => filter = v(),
            _ => panic!("option {k}"),
        }
    }
    let t0 = Instant::now();
    let m = wasm::load(&std::fs::read(&wasm).expect("wasm file"));
    let load = t0.elapsed();
    let sh = exec::Shared::new(m, cfg);
    let init = sh.initial(&export).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(3) });
    exec::explore(&sh, init);
    let s = &sh.st;
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let viols = sh.viols.lock().unwrap();
    let inc = sh.incomplete.lock().unwrap();
    let nums = |v: &Vec<u64>| arr(v, |x| x.to_string());
    let mut fns: Vec<String> = sh.funcs.lock().unwrap().iter().map(|i| format!("{:#}", rustc_demangle::demangle(&sh.m.funcs[*i as usize].name))).collect();
    fns.sort();
    fns.dedup();
    let total = fns.len();
    let insts: u64 = { let f = sh.funcs.lock().unwrap(); f.iter().map(|i| sh.m.funcs[*i as usize].code.len() as u64).sum() };
    let pick: Vec<String> = fns.into_iter().filter(|n| n.contains(&filter)).collect();
    let mut sites: Vec<(u64, String)> = sh.forksites.lock().unwrap().iter().map(|(k, v)| (*v, format!("{:#}", rustc_demangle::demangle(&sh.m.funcs[*k as usize].name)))).collect();
    sites.sort_by(|a, b| b.cmp(a));
    sites.truncate(12);
    let j = format!(
        "{{\"export\":{},\"complete\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"load_s\":{:.3},\"asserts\":{},\"max_call_depth\":{},\"functions_total\":{},\"code_size\":{},\n\"functions\":{},\n\"incomplete\":{},\n\"covers\":{},\n\"known\":{},\n\"fork_sites\":{},\n\"violations\":{},\n\"samples\":{}}}\n",
        js(&export), inc.is_empty() && viols.is_empty(), g(&s.paths), g(&s.pruned), g(&s.forks), g(&s.steps), g(&s.queries), g(&s.sat), g(&s.unsat), g(&s.unknown), g(&s.hits),
        g(&s.solver_us) as f64 / 1e6, t0.elapsed().as_secs_f64(), load.as_secs_f64(), g(&s.asserts), g(&s.maxdepth), total, insts,
        arr(&pick, |x| js(x)),
        format!("{{{}}}", inc.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")),
        format!("{{{}}}", sh.covers.lock().unwrap().iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")),
        format!("{{{}}}", sh.known.lock().unwrap().iter().map(|(k, v)| format!("{}:{{\"count\":{},\"draws\":{}}}", js(k), v.0, nums(&v.1))).collect::<Vec<_>>().join(",")),
        arr(&sites, |x| format!("[{},{}]", x.0, js(&x.1))),
        arr(&viols, |v| format!("{{\"kind\":{},\"msg\":{},\"draws\":{},\"stack\":{}}}", js(&v.kind), js(&v.msg), nums(&v.draws), arr(&v.stack, |x| js(x)))),
        arr(&sh.samples.lock().unwrap(), |x| format!("{{\"draws\":{},\"emits\":{}}}", nums(&x.draws), js(&x.emits.iter().map(|b| format!("{b:02x}")).collect::<String>()))),
    );
    if out.is_empty() { print!("{j}"); } else { std::fs::write(&out, j).expect("write"); }
    // z3's timer threads are still there: leave without running their destructors
    extern "C" { fn _exit(code: i32) -> !; }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}
