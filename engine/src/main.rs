mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn strs(v: &[String]) -> String {
    v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
}

fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = t.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params = vec![];
    let mut lim = exec::Limits {
        max_steps: 200_000_000,
        max_secs: 600.0,
        max_paths: 100_000_000,
        max_alloc: 64 << 20,
        max_findings: 1,
        mux_limit: 64,
    };
    let mut solver_ms = 60_000;
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--params" => params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--max-steps" => lim.max_steps = v().parse().unwrap(),
            "--max-secs" => lim.max_secs = v().parse().unwrap(),
            "--max-paths" => lim.max_paths = v().parse().unwrap(),
            "--max-alloc" => lim.max_alloc = v().parse().unwrap(),
            "--max-findings" => lim.max_findings = v().parse().unwrap(),
            "--mux" => lim.mux_limit = v().parse().unwrap(),
            "--solver-ms" => solver_ms = v().parse().unwrap(),
            x => {
                eprintln!("unknown argument {x}");
                return 3;
            }
        }
        i += 2;
    }
    let text = std::fs::read_to_string(&ll).expect("ll file");
    let mut ctx = expr::Ctx::new();
    let m = ir::Module::load(text, &mut ctx);
    let mut ex = exec::Exec::new(m, ctx, lim, params, solver_ms);
    ex.run(&entry);
    let s = &ex.solver.stats;
    let mut fns: Vec<(String, u64, usize)> = ex
        .fn_hits
        .iter()
        .map(|(f, n)| {
            let d = &ex.m.funcs[*f as usize];
            (d.name.clone(), *n, d.parsed.as_ref().map(|p| p.ninst).unwrap_or(0))
        })
        .collect();
    fns.sort();
    let mut j = String::new();
    let _ = write!(j, "{{\"entry\":\"{}\",\"wall_s\":{:.3},\"paths\":{},\"killed\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"max_path_steps\":{},", esc(&entry), ex.t0.elapsed().as_secs_f64(), ex.paths_done, ex.paths_killed, ex.paths_infeasible, ex.forks, ex.instrs, ex.max_path_steps);
    let _ = write!(j, "\"obligations\":{},\"discharged\":{},\"asserts_symbolic\":{},\"reached\":{},\"max_symbolic_bytes\":{},", ex.obligations, ex.discharged, ex.asserts_sym, ex.reached, ex.max_vars);
    let _ = write!(j, "\"solver\":{{\"name\":\"{}\",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"time_s\":{:.3},\"linear_elim\":{},\"max_query_s\":{:.3}}},", esc(&solver::version()), s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.time_us as f64 / 1e6, s.linear, s.max_us as f64 / 1e6);
    let _ = write!(j, "\"errors\":[{}],\"incomplete\":[{}],", strs(&ex.errors), strs(&ex.incomplete));
    let _ = write!(j, "\"samples\":[{}],", ex.samples.iter().map(|(b, n)| format!("{{\"model\":\"{}\",\"notes\":[{}]}}", hex(b), n.iter().map(|(i, v)| format!("[{i},{v}]")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"functions\":[{}],", fns.iter().map(|f| format!("[\"{}\",{},{}]", esc(&f.0), f.1, f.2)).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        "\"findings\":[{}]}}",
        ex.findings
            .iter()
            .map(|f| format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"id\":{},\"stack\":[{}],\"model\":\"{}\",\"steps\":{}}}", esc(&f.kind), esc(&f.msg), f.id, strs(&f.stack), hex(&f.model), f.steps))
            .collect::<Vec<_>>()
            .join(",")
    );
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&out, j).unwrap();
    }
    if !ex.findings.is_empty() {
        1
    } else if !ex.errors.is_empty() || !ex.incomplete.is_empty() {
        2
    } else {
        0
    }
}
