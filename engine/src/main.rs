mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = None;
    let mut out = None;
    let mut max_time = 600u64;
    let mut max_paths = u64::MAX;
    let mut max_steps = 50_000_000u64;
    let mut samples = 32usize;
    let mut timeout_ms = 60_000u32;
    let mut dump = None;
    let mut seed = 1u64;
    let mut picks = std::collections::HashMap::new();
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args.get(i).cloned().unwrap_or_default()
        };
        match a {
            "--entry" => entry = Some(nx()),
            "--out" => out = Some(nx()),
            "--max-time" => max_time = nx().parse().unwrap(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--solver-timeout" => timeout_ms = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "--seed" => seed = nx().parse().unwrap(),
            "--pick" => {
                let s = nx();
                let (k, v) = s.split_once('=').unwrap();
                picks.insert(k.parse().unwrap(), v.parse().unwrap());
            }
            _ => file = Some(a.to_string()),
        }
        i += 1;
    }
    let file = file.expect("usage: symex FILE.ll --entry F");
    let entry = entry.expect("--entry");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read ir");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: cannot load {file}: {e}");
            std::process::exit(3);
        }
    };
    let mut x = exec::Exec::new(m, timeout_ms);
    x.max_steps = max_steps;
    x.reseed(seed);
    x.max_samples = samples;
    x.max_paths = max_paths;
    x.forced_picks = picks;
    x.solver.dump = dump;
    x.deadline = Some(Instant::now() + Duration::from_secs(max_time));
    if let Err(e) = x.start(&entry) {
        eprintln!("symex: {e}");
        std::process::exit(3);
    }
    x.run();

    // source lines executed
    let mut files: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    for (id, hit) in x.cov.iter().enumerate() {
        if *hit {
            if let Some((f, l, func)) = x.m.dbg_loc(id as u32) {
                files.entry(f.clone()).or_default().insert(l);
                if f.contains("/repo/") || f.starts_with("src/") || f.contains("brec") {
                    fns.insert(func);
                }
            }
        }
    }
    let left = x.work.len();
    let complete = x.problems.is_empty() && left == 0;
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"entry\": \"{}\",\n", esc(&entry)));
    s.push_str(&format!(" \"status\": \"{}\",\n", if complete { "complete" } else { "incomplete" }));
    s.push_str(&format!(" \"solver\": \"z3 {}\",\n", solver::Solver::version()));
    s.push_str(&format!(
        " \"paths\": {}, \"infeasible\": {}, \"forks\": {}, \"pending\": {}, \"instrs\": {},\n",
        x.paths, x.infeasible, x.forks, left, x.instrs
    ));
    s.push_str(&format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"fallbacks\": {}, \"reduced\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},\n",
        x.solver.queries, x.solver.sat, x.solver.unsat, x.solver.unknown, x.solver.cached, x.solver.fallbacks, x.solver.reduced, x.solver.time, x.solver.max_query
    ));
    s.push_str(&format!(" \"asserts\": {}, \"assert_queries\": {},\n", x.asserts, x.assert_queries));
    s.push_str(&format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64()));
    s.push_str(&format!(
        " \"covers\": {{{}}},\n",
        x.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", ")
    ));
    s.push_str(&format!(
        " \"problems\": [{}],\n",
        x.problems
            .iter()
            .map(|(k, (n, m))| format!("{{\"what\": \"{}\", \"count\": {n}, \"input\": \"{}\"}}", esc(k), hex(m)))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    s.push_str(&format!(
        " \"violations\": [{}],\n",
        x.violations
            .values()
            .map(|v| format!(
                "{{\"kind\": \"{}\", \"id\": \"{}\", \"count\": {}, \"input\": \"{}\", \"loc\": \"{}\", \"stack\": [{}]}}",
                esc(&v.kind),
                esc(&v.id),
                v.count,
                hex(&v.input),
                esc(&v.loc),
                v.stack.iter().take(12).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    ));
    s.push_str(&format!(
        " \"samples\": [{}],\n",
        x.samples
            .iter()
            .map(|p| format!(
                "{{\"input\": \"{}\", \"logs\": [{}]}}",
                hex(&p.input),
                p.logs.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    ));
    let nfun = x.executed.iter().filter(|b| **b).count();
    s.push_str(&format!(" \"functions\": {nfun},\n"));
    s.push_str(&format!(
        " \"fns\": [{}],\n",
        fns.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(", ")
    ));
    s.push_str(&format!(
        " \"lines\": {{{}}}\n",
        files
            .iter()
            .filter(|(f, _)| f.contains("/repo/") || f.starts_with("brec"))
            .map(|(f, l)| format!(
                "\"{}\": [{}]",
                esc(f),
                l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    ));
    s.push_str("}\n");
    match out {
        Some(o) => std::fs::write(o, s).expect("write"),
        None => print!("{s}"),
    }
}
