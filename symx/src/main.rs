mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::fmt::Write;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(101);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut params = Vec::new();
    let mut out = String::new();
    let mut limits = Limits {
        time: 600.0,
        steps: u64::MAX,
        path_steps: 60_000_000,
        max_fork_values: 300,
        max_violations: 3,
    };
    let mut merge = false;
    let mut use_dom = true;
    let mut audit = false;
    let mut split = None;
    let mut seed = 1u64;
    let mut samples = 8;
    let mut z3t = 60_000;
    let mut dump = None;
    let mut sites = false;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut val = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--ir" => file = val(),
            "--entry" => entry = val(),
            "--param" => params.push(val()),
            "--out" => out = val(),
            "--time" => limits.time = val().parse().unwrap(),
            "--path-steps" => limits.path_steps = val().parse().unwrap(),
            "--fork-values" => limits.max_fork_values = val().parse().unwrap(),
            "--max-violations" => limits.max_violations = val().parse().unwrap(),
            "--merge" => merge = true,
            "--no-dom" => use_dom = false,
            "--audit" => audit = true,
            "--seed" => seed = val().parse().unwrap(),
            "--samples" => samples = val().parse().unwrap(),
            "--z3-timeout" => z3t = val().parse().unwrap(),
            "--dump" => dump = Some(val()),
            "--sites" => sites = true,
            "--split" => {
                let v = val();
                let (a, b) = v.split_once('/').unwrap();
                split = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            x => {
                eprintln!("unknown argument {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&file).expect("IR file");
    let m = ir::Module::load(text);
    let load = t0.elapsed().as_secs_f64();
    let mut e = Exec::new(m, params.clone(), limits, z3t);
    e.merge = merge;
    e.use_dom = use_dom;
    e.audit = audit;
    e.rng ^= seed.wrapping_mul(0x2545F4914F6CDD1D);
    e.max_samples = samples;
    e.z3.dump = dump;
    e.explore(&entry, split);
    if sites {
        let mut v: Vec<(u32, u64)> = e.fork_sites.iter().map(|x| (*x.0, *x.1)).collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (d, n) in v.iter().take(25) {
            let l = e.m.location(*d);
            let s: Vec<String> = l.iter().take(4).map(|x| format!("{}:{}", x.0, x.1)).collect();
            eprintln!("{:8} {}", n, s.join(" <- "));
        }
    }
    // source functions executed, from debug locations
    let mut srcfns = std::collections::BTreeSet::new();
    let mut lines = std::collections::BTreeSet::new();
    for d in 0..e.dbg_used.len() {
        if e.dbg_used[d] {
            for (file, line, name) in e.m.location(d as u32) {
                if file.contains("/repo/") {
                    srcfns.insert(name);
                    lines.insert((file, line));
                }
            }
        }
    }
    let s = &e.stats;
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"entry\":{},\"params\":[{}],\"paths\":{},\"forks\":{},\"instructions\":{},\"merges\":{},\"checks\":{},\"checks_const\":{},\"checks_solver\":{},\"branch_const\":{},\"branch_byte\":{},\"branch_solver\":{},\"concretized\":{},\"assume_pruned\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"audited\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3},\"work_used\":{},\"nodes\":{},\"z3\":{},",
        jstr(&entry),
        params.iter().map(|p| jstr(p)).collect::<Vec<_>>().join(","),
        s.paths, s.forks, s.instrs, s.merges, s.checks, s.checks_const, s.checks_solver,
        s.branch_const, s.branch_dom, s.branch_solver, s.concretized, s.pruned_assume,
        e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown, s.cache_hits, s.truth_audited,
        e.z3.time, e.z3.max_time, load, t0.elapsed().as_secs_f64(), s.work_used, e.ar.nodes.len(), jstr(&z3::Z3::version())
    );
    let _ = write!(
        j,
        "\"reach\":{{{}}},\"check_ids\":{{{}}},",
        e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        e.check_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    );
    let nums = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let _ = write!(
        j,
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|x| format!(
                "{{\"input\":\"{}\",\"picks\":[{}],\"obs\":[{}],\"reached\":[{}]}}",
                hex(&x.input),
                nums(&x.picks),
                x.obs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
                nums(&x.reached)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        j,
        "\"violations\":[{}],\"failures\":{{{}}},",
        e.violations
            .iter()
            .map(|x| format!(
                "{{\"kind\":{},\"id\":{},\"at\":{},\"input\":\"{}\",\"picks\":[{}],\"work\":{}}}",
                jstr(&x.kind),
                x.id,
                jstr(&x.at),
                hex(&x.input),
                nums(&x.picks), x.work
            ))
            .collect::<Vec<_>>()
            .join(","),
        e.failures.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"ir_functions\":{},\"source_functions\":[{}],\"source_lines\":{}}}",
        e.funcs_used.len(),
        srcfns.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(","),
        lines.len()
    );
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, &j).expect("write output");
    }
    if !e.violations.is_empty() {
        1
    } else if !e.failures.is_empty() {
        3
    } else {
        0
    }
}
