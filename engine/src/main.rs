mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::HashMap;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut names = String::new();
    let mut out = String::new();
    let mut qto = 60_000u32;
    let mut seed = 1u32;
    let mut dump: Option<(String, u64, u64)> = None;
    let mut cfg = Cfg {
        entry: String::new(),
        params: vec![],
        max_steps: 50_000_000,
        time_limit: 800.0,
        hash_const: false,
        ite_limit: 300,
        enum_cap: 5000,
        shard: (0, 1),
        shard_depth: 6,
        max_viol: 1,
        trace: false,
        merge: true,
        merge_limit: 60,
        samples: 0,
    };
    let mut check_only = false;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("argument value");
        match a.as_str() {
            "--ll" => ll = nx(),
            "--names" => names = nx(),
            "--entry" => cfg.entry = nx(),
            "--out" => out = nx(),
            "--params" => cfg.params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--time-limit" => cfg.time_limit = nx().parse().unwrap(),
            "--hash-const" => cfg.hash_const = true,
            "--ite-limit" => cfg.ite_limit = nx().parse().unwrap(),
            "--enum-cap" => cfg.enum_cap = nx().parse().unwrap(),
            "--shard" => {
                let s = nx();
                let (a, b) = s.split_once('/').unwrap();
                cfg.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--shard-depth" => cfg.shard_depth = nx().parse().unwrap(),
            "--max-viol" => cfg.max_viol = nx().parse().unwrap(),
            "--query-timeout-ms" => qto = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--dump-unsat" => {
                let d = nx();
                let e: u64 = nx().parse().unwrap();
                let c: u64 = nx().parse().unwrap();
                dump = Some((d, e, c));
            }
            "--no-merge" => cfg.merge = false,
            "--samples" => cfg.samples = nx().parse().unwrap(),
            "--trace" => cfg.trace = true,
            "--check-only" => check_only = true,
            x => panic!("unknown argument {}", x),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read(&ll).expect("read IR");
    let m = ir::parse(&src);
    drop(src);
    let t_parse = t0.elapsed().as_secs_f64();
    let mut dem = HashMap::new();
    if !names.is_empty() {
        for l in std::fs::read_to_string(&names).expect("names").lines() {
            if let Some((a, b)) = l.split_once('\t') {
                dem.insert(a.to_string(), b.to_string());
            }
        }
    }
    if check_only {
        println!("parsed {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t_parse);
        return;
    }
    let mut sv = solver::Solver::new(qto, seed);
    sv.dump = dump;
    let mut eng = Engine::new(m, dem, cfg, sv);
    let complete = eng.run();
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    j += &format!(" \"entry\": \"{}\",\n", esc(&eng.cfg.entry));
    j += &format!(" \"params\": {:?},\n", eng.cfg.params);
    j += &format!(" \"complete\": {},\n", complete && eng.errors.is_empty());
    j += &format!(
        " \"paths_ok\": {}, \"paths_assume\": {}, \"paths_violating\": {}, \"forks\": {}, \"merges\": {},\n",
        eng.paths_ok, eng.paths_assume, eng.paths_viol, eng.forks, eng.merges
    );
    j += &format!(" \"instructions\": {}, \"max_path_instructions\": {},\n", eng.total_steps, eng.max_path_steps);
    j += &format!(" \"asserts_solver\": {}, \"asserts_folded\": {},\n", eng.asserts_solver, eng.asserts_static);
    let s = &eng.solver;
    j += &format!(
        " \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"cases\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},\n",
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cache_hits,
        s.cases,
        s.time.as_secs_f64(),
        s.max_query.as_secs_f64()
    );
    j += &format!(" \"solver\": \"{}\",\n", esc(&solver::Solver::version()));
    j += &format!(" \"symbolic_bytes\": {}, \"expr_nodes\": {},\n", eng.sym_bytes, expr::cx().nodes.len());
    j += &format!(" \"wall_s\": {:.3}, \"parse_s\": {:.3},\n", wall, t_parse);
    let fs: Vec<String> = eng
        .funcs
        .iter()
        .zip(&eng.executed)
        .filter(|(_, e)| **e)
        .map(|(f, _)| format!("\"{}\"", esc(&f.dem)))
        .collect();
    j += &format!(" \"functions\": [{}],\n", fs.join(", "));
    let ex: Vec<String> = eng.ext_used.iter().map(|f| format!("\"{}\"", esc(f))).collect();
    j += &format!(" \"externals\": [{}],\n", ex.join(", "));
    let r: Vec<String> = eng.reach.iter().map(|(k, n)| format!("\"{}\": {}", k, n)).collect();
    j += &format!(" \"reach\": {{{}}},\n", r.join(", "));
    let h: Vec<String> = eng.hot_sites().iter().map(|(k, n)| format!("[\"{}\", {}]", esc(k), n)).collect();
    j += &format!(" \"fork_sites\": [{}],\n", h.join(", "));
    let e: Vec<String> = eng.errors.iter().map(|e| format!("\"{}\"", esc(e))).collect();
    j += &format!(" \"errors\": [{}],\n", e.join(", "));
    let show = |vs: &Vec<Viol>| -> String {
        let v: Vec<String> = vs
            .iter()
            .map(|v| {
                let ins: Vec<String> = v
                    .inputs
                    .iter()
                    .map(|(n, b)| format!("[\"{}\", \"{}\"]", esc(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))
                    .collect();
                let stk: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
                let nt: Vec<String> = v.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
                format!(
                    "{{\"kind\": \"{}\", \"msg\": \"{}\", \"inputs\": [{}], \"stack\": [{}], \"notes\": [{}]}}",
                    esc(&v.kind),
                    esc(&v.msg),
                    ins.join(", "),
                    stk.join(", "),
                    nt.join(", ")
                )
            })
            .collect();
        v.join(",\n  ")
    };
    j += &format!(" \"samples\": [{}],\n", show(&eng.samples));
    j += &format!(" \"violations\": [{}]\n}}\n", show(&eng.viols));
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, j).expect("write result");
    }
}
