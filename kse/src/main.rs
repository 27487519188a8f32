mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.iter().any(|x| x == "--version") {
        println!("kse 0.1.0 ({})", solver::Solver::version());
        return;
    }
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let num = |k: &str, d: f64| get(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let cfg = exec::Cfg {
        max_paths: num("--max-paths", 1e9) as u64,
        max_time: num("--time", 600.0),
        max_instr: num("--max-instr", 2e10) as u64,
        max_viol: num("--max-viol", 4.0) as usize,
        grace: num("--grace", 1e9),
        max_mem: num("--mem", 0.0) as u64,
        verbose: a.iter().any(|x| x == "-v"),
        hash_seed: num("--hash-seed", 0.0) as u64,
        witness: num("--witness", 0.0) as usize,
        concrete: get("--concrete").map(|f| {
            std::fs::read_to_string(f)
                .unwrap()
                .lines()
                .filter_map(|l| {
                    let p: Vec<&str> = l.split(' ').collect();
                    if p[0] == "in" {
                        let h = p.get(2).copied().unwrap_or("");
                        Some((p[1].to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()))
                    } else {
                        None
                    }
                })
                .collect()
        }),
    };
    let t0 = std::time::Instant::now();
    // big stack: recursive expression helpers
    let th = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let m = ir::Module::load(&ll);
            let mut x = exec::Exec::new(m, cfg);
            x.s.set_timeouts(num2(&a, "--t1", 1500.0) as u32, num2(&a, "--t2", 120000.0) as u32);
            x.s.dump_dir = a.iter().position(|x| x == "--dump").and_then(|i| a.get(i + 1)).cloned();
            let cap = num2(&a, "--audit", 0.0) as usize;
            if cap > 0 {
                x.p.audit = Some(vec![]);
                x.p.audit_cap = cap;
            }
            x.wrng = num2(&a, "--seed", 1.0) as u64;
            x.run(&entry);
            let t1 = std::time::Instant::now();
            let rs = x.p.audit.take().unwrap_or_default();
            let (ok, unk, bad) = x.s.audit(&mut x.p, &rs, if x.viols.is_empty() { num2(&a, "--audit-s", 60.0) } else { 2.0 });
            for &(r, s) in bad.iter().take(3) {
                eprintln!("kse: INTERNAL: wrong rewrite {:?} -> {:?}", x.p.n(r), x.p.n(s));
            }
            if !bad.is_empty() {
                *x.incomplete.entry("the solver refutes a rewrite of the simplifier".into()).or_insert(0) += bad.len() as u64;
            }
            let mut o = String::from("{\n");
            let _ = writeln!(o, " \"entry\": {},", esc(&entry));
            let _ = writeln!(o, " \"complete\": {},", x.incomplete.is_empty());
            let _ = writeln!(o, " \"paths\": {}, \"forks\": {}, \"instructions\": {}, \"infeasible\": {},", x.paths, x.forks, x.instrs, x.infeasible);
            let _ = writeln!(
                o,
                " \"queries\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"assertions\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},",
                x.s.queries, x.s.cache_hits, x.s.sat, x.s.unsat, x.s.unknown, x.s.nassert, x.s.time, x.s.max_time
            );
            let _ = writeln!(
                o,
                " \"expr_nodes\": {}, \"sym_vars\": {}, \"mem_checks\": {}, \"max_path_condition\": {}, \"wall_s\": {:.3}, \"solver\": {},",
                x.p.nodes.len(),
                x.p.vars.len(),
                x.mem_checks,
                x.max_pc,
                t0.elapsed().as_secs_f64(),
                esc(&solver::Solver::version())
            );
            let _ = writeln!(
                o,
                " \"audit\": {{\"rewrites\": {}, \"proved\": {}, \"unanswered\": {}, \"wrong\": {}, \"shapes\": {}, \"beyond_cap\": {}, \"s\": {:.3}}},",
                rs.len(),
                ok,
                unk,
                bad.len(),
                x.s.audit_shapes,
                x.p.audit_missed,
                t1.elapsed().as_secs_f64()
            );
            let c: Vec<String> = x.checks.iter().map(|(k, v)| format!("{}: [{}, {}, {}]", esc(k), v.0, v.1, v.2)).collect();
            let _ = writeln!(o, " \"checks\": {{{}}},", c.join(", "));
            let c: Vec<String> = x.covers.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            let _ = writeln!(o, " \"covers\": {{{}}},", c.join(", "));
            let c: Vec<String> = x.incomplete.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            let _ = writeln!(o, " \"incomplete\": {{{}}},", c.join(", "));
            let c: Vec<String> = x.observed.iter().map(|k| esc(k)).collect();
            let _ = writeln!(o, " \"observed\": [{}],", c.join(", "));
            let c: Vec<String> = x.executed_functions().iter().map(|k| esc(k)).collect();
            let _ = writeln!(o, " \"functions\": [{}],", c.join(", "));
            let kv = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|(n, b)| format!("[{}, \"{}\"]", esc(n), hex(b))).collect::<Vec<_>>().join(", ");
            let mut ws = vec![];
            for w in &x.witnesses {
                let ch: Vec<String> = w.choices.iter().map(|c| c.to_string()).collect();
                let uf: Vec<String> = w.ufs.iter().map(|(t, i, o)| format!("[{}, \"{}\", \"{}\"]", t, hex(i), hex(o))).collect();
                let cv: Vec<String> = w.covers.iter().map(|c| esc(c)).collect();
                ws.push(format!(
                    "{{\"inputs\": [{}], \"choices\": [{}], \"ufs\": [{}], \"covers\": [{}], \"observed\": [{}]}}",
                    kv(&w.inputs),
                    ch.join(", "),
                    uf.join(", "),
                    cv.join(", "),
                    kv(&w.observed)
                ));
            }
            let _ = writeln!(o, " \"witnesses\": [{}],", ws.join(",\n  "));
            let mut vs = vec![];
            for v in &x.viols {
                let ins: Vec<String> = v.inputs.iter().map(|(n, b)| format!("[{}, \"{}\"]", esc(n), hex(b))).collect();
                let ch: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
                let uf: Vec<String> = v.ufs.iter().map(|(t, i, o)| format!("[{}, \"{}\", \"{}\"]", t, hex(i), hex(o))).collect();
                let stk: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
                vs.push(format!(
                    "{{\"label\": {}, \"msg\": {}, \"stack\": [{}], \"inputs\": [{}], \"choices\": [{}], \"ufs\": [{}], \"hash_seed\": {}}}",
                    esc(&v.label),
                    esc(&v.msg),
                    stk.join(", "),
                    ins.join(", "),
                    ch.join(", "),
                    uf.join(", "),
                    v.hash_seed
                ));
            }
            let _ = writeln!(o, " \"violations\": [{}]", vs.join(",\n  "));
            o.push_str("}\n");
            match a.iter().position(|x| x == "--out").and_then(|i| a.get(i + 1)) {
                Some(f) => std::fs::write(f, o).unwrap(),
                None => print!("{}", o),
            }
        })
        .unwrap();
    match th.join() {
        Ok(()) => {}
        Err(_) => std::process::exit(3),
    }
}
fn num2(a: &[String], k: &str, d: f64) -> f64 {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d)
}
