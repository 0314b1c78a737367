mod exec;
mod expr;
mod ir;
mod sha;
mod poly;
mod solver;
use exec::*;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ins(v: &[(String, String)]) -> String {
    format!("[{}]", v.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(","))
}
fn ufs(v: &[(String, String, String)]) -> String {
    format!("[{}]", v.iter().map(|(a, b, c)| format!("[{},{},{}]", esc(a), esc(b), esc(c))).collect::<Vec<_>>().join(","))
}

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = child.join();
    if r.is_err() {
        std::process::exit(3);
    }
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut h = String::new();
    let mut out = String::new();
    let mut secs = 600u64;
    let mut params = vec![];
    let mut quick = 3000;
    let mut hard = 60000;
    let mut trace = false;
    let mut dump = None;
    let mut maxv = 1usize;
    let mut conc = 600usize;
    let mut forksel = false;
    let mut poly = false;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v,
            "--harness" => h = v,
            "--out" => out = v,
            "--time" => secs = v.parse().unwrap(),
            "--param" => params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--quick-ms" => quick = v.parse().unwrap(),
            "--hard-ms" => hard = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--max-violations" => maxv = v.parse().unwrap(),
            "--conc" => conc = v.parse().unwrap(),
            "--fork-select" => {
                forksel = true;
                i += 1;
                continue;
            }
            "--poly" => {
                poly = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            x => panic!("argument {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut e = Engine::new(m);
    e.deadline = t0 + Duration::from_secs(secs);
    e.params = params.clone();
    e.solver.quick_ms = quick;
    e.solver.hard_ms = hard;
    e.solver.dump = dump;
    e.solver.poly = poly;
    e.ctx.arith = poly;
    e.trace = trace;
    e.max_violations = maxv;
    e.conc_limit = conc;
    e.fork_select = forksel;
    e.start(&h);
    let status = if !e.violations.is_empty() {
        "violation"
    } else if !e.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let files = e.source_lines();
    let mut j = String::from("{");
    j.push_str(&format!("\"harness\":{},\"params\":{:?},\"status\":{},", esc(&h), params, esc(status)));
    j.push_str(&format!(
        "\"paths\":{},\"instructions\":{},\"forks\":{},\"wall_s\":{:.3},\"expr_nodes\":{},",
        e.paths,
        e.steps,
        e.forks,
        t0.elapsed().as_secs_f64(),
        e.ctx.nodes.len()
    ));
    j.push_str(&format!(
        "\"ends\":{{{}}},",
        e.ends.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    ));
    let s = &e.solver.stats;
    let mut by: Vec<_> = s.by.iter().collect();
    by.sort();
    j.push_str(&format!(
        "\"solver\":{{\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3},\"by\":{{{}}}}},",
        s.queries,
        s.cached,
        s.sat,
        s.unsat,
        s.unknown,
        s.time.as_secs_f64(),
        by.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!(
        "\"checks\":{{{}}},",
        e.checks
            .iter()
            .map(|(k, v)| format!("{}:{{\"evals\":{},\"solver\":{},\"folded\":{}}}", esc(k), v.evals, v.proved_by_solver, v.concrete))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        "\"reached\":{{{}}},",
        e.reached.iter().map(|(k, v)| format!("{}:{}", esc(k), ins(v))).collect::<Vec<_>>().join(",")
    ));
    j.push_str(&format!("\"expected\":[{}],", e.expected.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
    e.inconclusive.sort();
    e.inconclusive.dedup();
    j.push_str(&format!("\"inconclusive\":[{}],", e.inconclusive.iter().take(20).map(|x| esc(x)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!(
        "\"violations\":[{}],",
        e.violations
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"name\":{},\"stack\":[{}],\"inputs\":{},\"ufs\":{}}}",
                esc(&v.kind),
                esc(&v.name),
                v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                ins(&v.inputs),
                ufs(&v.ufs)
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|v| format!(
                "{{\"end\":{},\"tags\":[{}],\"inputs\":{},\"ufs\":{},\"obs\":{}}}",
                esc(&v.end),
                v.tags.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                ins(&v.inputs),
                ufs(&v.ufs),
                ins(&v.obs)
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!(
        "\"functions\":{{{}}}}}",
        files
            .iter()
            .map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    ));
    if trace {
        let mut b: Vec<_> = e.branch_stats.iter().collect();
        b.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in b.iter().take(25) {
            eprintln!("{:8} forks at {}", v, k);
        }
        for (t, w) in &e.solver.stats.slow {
            eprintln!("slow {:.1}s {}", t, w);
        }
    }
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}
