mod exec;
mod expr;
mod gauss;
mod ir;
mod selftest;
mod solver;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: Fn(&T) -> String>(v: impl IntoIterator<Item = T>, f: F) -> String {
    let s: Vec<String> = v.into_iter().map(|x| f(&x)).collect();
    format!("[{}]", s.join(","))
}

fn main() {
    // deep recursion happens in term construction
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    match h.join() { Ok(c) => std::process::exit(c), Err(_) => std::process::exit(3) }
}

fn real_main() -> i32 {
    expr::init();
    let args: Vec<String> = std::env::args().collect();
    let mut ll = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut root = String::from("/repo/");
    let mut timeout = 60_000u32;
    let mut o = exec::Opts { tier: 0, params: vec![], split: (0, 1), max_steps: 40_000_000, max_paths: 5_000_000, time_s: 600.0, grace_s: 10.0, seed: 1, witnesses: 8, trace: false };
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut val = || { i += 1; args[i].clone() };
        match a {
            "--selftest" => { let n = val().parse().unwrap(); return selftest::run(n); }
            "--ll" => ll.push(val()),
            "--entry" => entry = val(),
            "--raw" => expr::cx().plain = true,
            "--out" => out = val(),
            "--src-root" => root = val(),
            "--tier" => o.tier = val().parse().unwrap(),
            "--param" => o.params.push(val().parse().unwrap()),
            "--split" => { let v = val(); let (x, y) = v.split_once('/').unwrap(); o.split = (x.parse().unwrap(), y.parse().unwrap()); }
            "--time" => o.time_s = val().parse().unwrap(),
            "--grace" => o.grace_s = val().parse().unwrap(),
            "--max-steps" => o.max_steps = val().parse().unwrap(),
            "--max-paths" => o.max_paths = val().parse().unwrap(),
            "--seed" => o.seed = val().parse().unwrap(),
            "--witnesses" => o.witnesses = val().parse().unwrap(),
            "--query-timeout" => timeout = val().parse().unwrap(),
            _ => { eprintln!("unknown argument {}", a); return 3; }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let prog = ir::Program::load(&ll);
    let load_s = t0.elapsed().as_secs_f64();
    let solver = solver::Solver::new(timeout);
    let mut ex = exec::Exec::new(prog, solver, o);
    ex.run(&entry);
    let mut s = String::new();
    let st = &ex.solver.stats;
    let _ = write!(s, "{{\"entry\":{},\"paths\":{},\"assumed_away\":{},\"aborted\":{},\"instructions\":{},\"forks\":{},\"max_depth\":{},", js(&entry), ex.paths, ex.dead, ex.panics, ex.instrs, ex.forks, ex.max_depth);
    let _ = write!(s, "\"wall_s\":{:.3},\"load_s\":{:.3},\"terms\":{},", t0.elapsed().as_secs_f64(), load_s, expr::cx().nodes.len());
    let _ = write!(s, "\"solver\":{{\"version\":{},\"queries\":{},\"by_simplification\":{},\"by_byte_domain\":{},\"by_cache\":{},\"by_model\":{},\"by_gf2\":{},\"by_search\":{},\"z3\":{},\"z3_sat\":{},\"z3_unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3}}},",
        js(&ex.solver.version), st.queries, st.trivial, st.by_table, st.by_cache, st.by_model, st.by_affine, st.by_search, st.z3, st.z3_sat, st.z3_unsat, st.solver_s, st.max_query_s);
    let _ = write!(s, "\"checks\":{{{}}},", ex.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"covers\":{},\"expected\":{},", list(ex.covers.iter(), |x| js(x)), list(ex.expected.iter(), |x| js(x)));
    let _ = write!(s, "\"functions\":{},", list(ex.used_funcs.iter(), |x| js(x)));
    let src = ex.sources(&root);
    let mut fns = std::collections::BTreeMap::<(String, String), std::collections::BTreeSet<u32>>::new();
    for (f, n, l) in src { fns.entry((f, n)).or_default().insert(l); }
    let _ = write!(s, "\"sources\":{},", list(fns.iter(), |((f, n), l)| format!("[{},{},[{}]]", js(f), js(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))));
    let _ = write!(s, "\"violations\":{},", list(ex.violations.iter(), |v| format!("{{\"kind\":{},\"label\":{},\"site\":{},\"stack\":{},\"inputs\":{}}}", js(&v.kind), js(&v.label), js(&v.site), list(v.stack.iter(), |x| js(x)), list(v.inputs.iter(), |x| x.to_string()))));
    let _ = write!(s, "\"witnesses\":{},", list(ex.witnesses.iter(), |w| format!("{{\"inputs\":{},\"observed\":{}}}", list(w.inputs.iter(), |x| x.to_string()), list(w.observed.iter(), |x| x.to_string()))));
    let _ = write!(s, "\"errors\":{}}}", list(ex.errors.iter(), |x| js(x)));
    if out.is_empty() { println!("{}", s); } else { std::fs::write(&out, &s).unwrap(); }
    if !ex.violations.is_empty() { 1 } else if !ex.errors.is_empty() { 2 } else { 0 }
}
