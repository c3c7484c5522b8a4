mod fx;
mod exec;
mod expr;
mod ir;
mod solver;

use crate::fx::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }

fn main() {
    let mut irs = vec![];
    let mut entry = String::new();
    let mut out = None;
    let mut lib = "libz3.so.4".to_string();
    let mut o = exec::Opts { max_instrs: 400_000_000, max_paths: u64::MAX, time_limit: 600.0, shard: 0, max_viol: 8, verbose: false, fix: HashMap::default(), path_log: false, seed_model: 0, tier: 0 };
    let mut timeout = 60_000;
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut dump = None;
    let mut simple = false;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ir" => irs.push(v()),
            "--entry" => entry = v(),
            "--out" => out = Some(v()),
            "--z3" => lib = v(),
            "--tier" => o.tier = v().parse().unwrap(),
            "--shard" => o.shard = v().parse().unwrap(),
            "--time" => o.time_limit = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--max-instrs" => o.max_instrs = v().parse().unwrap(),
            "--query-timeout" => timeout = v().parse().unwrap(),
            "--key" => keys.push(unhex(&v())),
            "--fix" => { let s = v(); let (n, h) = s.split_once('=').unwrap(); o.fix.insert(n.to_string(), unhex(h)); }
            "--dump" => dump = Some(v()),
            "--simple" => simple = true,
            "-v" => o.verbose = true,
            "--paths" => o.path_log = true,
            _ => { eprintln!("unknown arg {}", a); std::process::exit(4) }
        }
    }
    // deep recursion in expression building: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let t0 = std::time::Instant::now();
        let mut src = String::new();
        for f in &irs { src.push_str(&std::fs::read_to_string(f).expect("read ir")); src.push('\n'); }
        let m = ir::Module::load(src);
        let mut s = solver::Solver::new(&lib, timeout);
        s.dump = dump;
        s.simple = simple;
        let load = t0.elapsed().as_secs_f64();
        let mut x = exec::Exec::new(m, s, o);
        x.keys = keys;
        let t1 = std::time::Instant::now();
        x.run(&entry);
        let wall = t1.elapsed().as_secs_f64();
        let mut j = String::from("{");
        let _ = write!(j, "\"entry\":{},\"shard\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"instructions\":{},\"forks\":{},", js(&entry), x.o.shard, wall, load, x.instrs, x.nforks);
        let _ = write!(j, "\"z3\":{},\"queries\":{},\"cached\":{},\"byte_domain\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"assumed_keys\":{},",
            js(&x.s.version), x.s.queries, x.s.cached, x.s.fastq, x.s.sat, x.s.unsat, x.s.unknown, x.s.time, x.s.max_time, x.assumed_keys);
        let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(j, "\"paths\":{},\"problems\":{},\"known\":{},", map(&x.paths), map(&x.problems), map(&x.knowns));
        let _ = write!(j, "\"covers\":[{}],", x.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(","));
        let ks: Vec<String> = x.known_inputs.iter().map(|(k, v)| format!("{}:{{{}}}", js(k), v.inputs.iter().map(|(n, b)| format!("{}:{}", js(n), js(&hex(b)))).collect::<Vec<_>>().join(","))).collect();
        let _ = write!(j, "\"known_inputs\":{{{}}},\"asserts_const\":{},\"asserts_solver\":{},", ks.join(","), x.asserts_const, x.asserts_solver);
        let vs: Vec<String> = x.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{{{}}},\"trace\":[{}]}}", js(&v.kind), js(&v.msg),
            v.inputs.iter().map(|(n, b)| format!("{}:{}", js(n), js(&hex(b)))).collect::<Vec<_>>().join(","),
            v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(","))).collect();
        let _ = write!(j, "\"violations\":[{}],", vs.join(","));
        let ws: Vec<String> = x.witnesses.iter().map(|(v, c)| format!("{{\"inputs\":{{{}}},\"covers\":[{}]}}",
            v.inputs.iter().map(|(n, b)| format!("{}:{}", js(n), js(&hex(b)))).collect::<Vec<_>>().join(","), c.iter().map(|t| js(t)).collect::<Vec<_>>().join(","))).collect();
        let _ = write!(j, "\"witnesses\":[{}],", ws.join(","));
        let fs: Vec<String> = x.funcs_run.iter().map(|f| js(&x.m.funcs[*f as usize].name)).collect();
        let _ = write!(j, "\"functions\":[{}]}}", fs.join(","));
        match out { Some(f) => std::fs::write(f, &j).unwrap(), None => println!("{}", j) }
    }).unwrap();
    if h.join().is_err() { std::process::exit(4); }
}
