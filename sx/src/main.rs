mod exec;
mod expr;
mod ir;
mod z3;
use std::collections::HashMap;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn ja(v: &exec::Tape) -> String { format!("[{}]", v.iter().map(|(e, x)| if *e { format!("\"e{}\"", x) } else { x.to_string() }).collect::<Vec<_>>().join(",")) }

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap();
    if h.join().is_err() { std::process::exit(6); }
}
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let mut cfg = exec::Cfg { max_steps: 200_000_000, time: 600.0, params: HashMap::new(), entry: "sx_main".into(), samples: 8, max_viol: 4, replay: None, trace: false, shard: (0, 1), seed: 1 };
    let mut ll = String::new();
    let mut out = String::new();
    let mut dump = None;
    let mut i = 1;
    while i < a.len() {
        let cur = a[i].clone();
        let mut nx = || { i += 1; a[i].clone() };
        match cur.as_str() {
            "--entry" => cfg.entry = nx(),
            "--out" => out = nx(),
            "--time" => cfg.time = nx().parse().unwrap(),
            "--steps" => cfg.max_steps = nx().parse().unwrap(),
            "--samples" => cfg.samples = nx().parse().unwrap(),
            "--max-viol" => cfg.max_viol = nx().parse().unwrap(),
            "--seed" => cfg.seed = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "--trace" => cfg.trace = true,
            "--shard" => { let s = nx(); let (x, y) = s.split_once('/').unwrap(); cfg.shard = (x.parse().unwrap(), y.parse().unwrap()); }
            "--param" => { let s = nx(); let (k, v) = s.split_once('=').unwrap(); cfg.params.insert(k.into(), v.parse().unwrap()); }
            "--replay" => { let s = std::fs::read_to_string(nx()).unwrap(); cfg.replay = Some(s.split_whitespace().map(|x| x.trim_start_matches('e').parse().unwrap()).collect()); }
            x => ll = x.to_string(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Eng::new(m, cfg);
    e.z.dump = dump;
    let t1 = std::time::Instant::now();
    e.run();
    let wall = t1.elapsed().as_secs_f64();
    let s = &e.st;
    let (nf, names) = e.used_functions();
    let viol = e.viol.values().map(|v| format!("{{\"kind\":{},\"msg\":{},\"approx\":{},\"tape\":{}}}", js(&v.kind), js(&v.msg), v.approx, ja(&v.tape))).collect::<Vec<_>>().join(",\n  ");
    let samples = e.samples.iter().map(|(t, l)| format!("{{\"tape\":{},\"logs\":[{}]}}", ja(t), l.iter().map(|b| js(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n  ");
    let reach = e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    let r = format!("{{\"error\":{},\"complete\":{},\"paths\":{},\"paths_ok\":{},\"paths_assumed_away\":{},\"paths_given_up\":{},\"gave_up\":{},\"instructions\":{},\"forks\":{},\"asserts\":{},\"asserts_concrete\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"query_cache_hits\":{},\"model_reuse\":{},\"domain_decisions\":{},\"domain_audited\":{},\"linear_decisions\":{},\"linear_audited\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_depth\":{},\"concretized\":{},\"approx_ties\":{},\"expr_nodes\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"z3\":{},\"viol_paths\":{},\n \"functions\":{},\"crate_functions\":[{}],\n \"reach\":{{{}}},\n \"violations\":[{}],\n \"samples\":[{}]}}\n",
        e.err.as_ref().map(|x| js(x)).unwrap_or("null".into()), e.complete && e.err.is_none(), s.paths, s.ok, s.assumed, s.abandoned, e.gave_up.as_ref().map(|x| js(x)).unwrap_or("null".into()), s.instr, s.forks, s.asserts, s.assert_triv, e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, s.qcache, s.mcache, s.domq, s.audited, e.ar.lin_decided, s.lin_audited, e.z.time, e.z.max_q, s.maxdepth, s.concretized, s.approx_ties, e.ar.nodes.len(), wall, load, js(&z3::version()), e.viol_count, nf, names.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), reach, viol, samples);
    if out.is_empty() { println!("{}", r); } else { std::fs::write(&out, &r).unwrap(); }
    if !e.fork_sites.is_empty() { let mut v: Vec<_> = e.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("{:8} {}", n, k); } }
    std::process::exit(if e.err.is_some() { 2 } else if !e.viol.is_empty() { 1 } else { 0 });
}
