mod exec;
mod ir;
mod mem;
mod solver;
mod term;
use std::time::{Duration, Instant};

pub fn die(m: &str) -> ! {
    eprintln!("llsym: error: {m}");
    println!("{{\"status\":\"error\",\"error\":{}}}", jstr(m));
    std::process::exit(3)
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn jinputs(v: &[(String, u128)]) -> String {
    format!("[{}]", v.iter().map(|(n, x)| format!("[{},{}]", jstr(n), x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut ll = None;
    let mut entry = None;
    let mut list = None;
    let mut solver = "z3 -in".to_string();
    let mut timeout = 300u64;
    let mut qto = 20000u64;
    let mut max_steps = 50_000_000u64;
    let mut max_paths = 2_000_000u64;
    let mut trace = false;
    let mut serve = false;
    let mut tags: Option<Vec<String>> = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_else(|| die("missing option value"));
        match a.as_str() {
            "--ll" => ll = Some(v()),
            "--entry" => entry = Some(v()),
            "--list" => list = Some(v()),
            "--solver" => solver = v(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--query-timeout-ms" => qto = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--trace" => trace = true,
            "--serve" => serve = true,
            "--tags" => tags = Some(v().split(',').map(|x| format!("[{x}]")).collect()),
            o => die(&format!("unknown option {o}")),
        }
    }
    let ll = ll.unwrap_or_else(|| die("--ll required"));
    let opt = Opt { solver, timeout, qto, max_steps, max_paths, trace, tags };
    let t0 = Instant::now();
    let m = ir::Module::load(&ll).unwrap_or_else(|e| die(&e));
    if let Some(p) = list {
        for f in &m.funcs { if f.span.is_some() && f.name.starts_with(&p) { println!("{}", f.name); } }
        return;
    }
    let load_s = t0.elapsed().as_secs_f64();
    if serve {
        // one request per line: entry name; one JSON answer per line
        let mut m = m;
        let mut line = String::new();
        loop {
            line.clear();
            if std::io::stdin().read_line(&mut line).unwrap_or(0) == 0 { return; }
            let e = line.trim();
            if e.is_empty() { continue; }
            let (m2, _) = run_entry(m, e, &opt, load_s);
            m = m2;
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
    }
    let entry = entry.unwrap_or_else(|| die("--entry required"));
    let (_, code) = run_entry(m, &entry, &opt, load_s);
    std::process::exit(code)
}

struct Opt { solver: String, timeout: u64, qto: u64, max_steps: u64, max_paths: u64, trace: bool, tags: Option<Vec<String>> }

fn run_entry(m: ir::Module, entry: &str, o: &Opt, load_s: f64) -> (ir::Module, i32) {
    let t0 = Instant::now();
    let Some(&fid) = m.fmap.get(entry) else {
        println!("{{\"status\":\"error\",\"entry\":{},\"error\":\"no such function\"}}", jstr(entry));
        return (m, 3);
    };
    let mut e = exec::Engine {
        m, ar: term::Arena::new(), solver: solver::Solver::new(&o.solver, o.qto), gcache: Default::default(), special: Default::default(), executed: Default::default(),
        intrinsics: Default::default(), work: vec![], violations: vec![], vseen: Default::default(), paths: 0, steps: 0, forks: 0, infeasible: 0, checks: 0, checks_solver: 0,
        checks_trivial: 0, reached: 0, expect: 0, unwinds: 0, samples: vec![], max_steps: o.max_steps, max_paths: o.max_paths, deadline: t0 + Duration::from_secs(o.timeout), trace: o.trace, tags: o.tags.clone(),
    };
    let r = e.run(fid);
    let funcs: Vec<String> = e.executed.iter().map(|f| exec::demangle(&e.m.funcs[*f as usize].name)).collect();
    let fm: Vec<&String> = funcs.iter().filter(|n| n.contains("funcmap") || n.contains("FuncMap")).collect();
    let mut vs = vec![];
    for v in &e.violations {
        vs.push(format!("{{\"msg\":{},\"trace\":[{}],\"inputs\":{}}}", jstr(&v.msg), v.trace.iter().map(|t| jstr(t)).collect::<Vec<_>>().join(","), jinputs(&v.inputs)));
    }
    let vac = e.expect & !e.reached;
    let status = if !e.violations.is_empty() { "violation" } else if r.is_err() { "error" } else if vac != 0 || e.paths == 0 { "vacuous" } else { "ok" };
    println!("{{\"status\":\"{status}\",\"entry\":{},\"error\":{},\"violations\":[{}],\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"unwinds\":{},\"checks\":{},\"checks_solver\":{},\"checks_concrete\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"expect\":{},\"reached\":{},\"functions_total\":{},\"functions_funcmap\":[{}],\"samples\":[{}],\"solver\":{}}}",
        jstr(entry), match &r { Ok(()) => "null".into(), Err(x) => jstr(x) }, vs.join(","), e.paths, e.infeasible, e.forks, e.steps, e.unwinds, e.checks, e.checks_solver, e.checks_trivial,
        e.solver.queries, e.solver.sat, e.solver.unsat, e.solver.time.as_secs_f64(), load_s, t0.elapsed().as_secs_f64(), e.expect, e.reached,
        funcs.len(), fm.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(","), e.samples.iter().map(|s| jinputs(s)).collect::<Vec<_>>().join(","), jstr(&e.solver.name));
    let code = match status { "ok" => 0, "violation" => 1, _ => 3 };
    let exec::Engine { m, .. } = e;
    (m, code)
}
