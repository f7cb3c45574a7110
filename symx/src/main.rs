//! symx: symbolic execution of LLVM IR (as emitted by rustc) with Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut o = exec::Opts {
        params: vec![],
        max_instr: 400_000_000,
        max_time: 1e9,
        preempts: 2,
        max_viol: 1,
        samples: 8,
        verbose: false,
        seed: 1,
        prefix: vec![],
        fire: true,
        spawn_first: false,
    };
    let mut solver_ms = 60_000u32;
    let mut i = 1;
    while i < args.len() {
        let next = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => {
                entry = next();
                i += 1;
            },
            "--params" => {
                o.params = next().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                i += 1;
            },
            "--max-instr" => {
                o.max_instr = next().parse().unwrap();
                i += 1;
            },
            "--max-time" => {
                o.max_time = next().parse().unwrap();
                i += 1;
            },
            "--preempts" => {
                o.preempts = next().parse().unwrap();
                i += 1;
            },
            "--max-viol" => {
                o.max_viol = next().parse().unwrap();
                i += 1;
            },
            "--samples" => {
                o.samples = next().parse().unwrap();
                i += 1;
            },
            "--solver-ms" => {
                solver_ms = next().parse().unwrap();
                i += 1;
            },
            "--seed" => {
                o.seed = next().parse().unwrap();
                i += 1;
            },
            "--fire" => {
                o.fire = next() != "0";
                i += 1;
            },
            "--spawn-first" => o.spawn_first = true,
            "-v" => o.verbose = true,
            x => file = x.to_string(),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&file).expect("read IR");
    let m = ir::Module::load(text);
    let tp = t0.elapsed().as_secs_f64();
    let sol = z3::Solver::new(solver_ms);
    let mut e = exec::Engine::new(m, sol, o);
    e.run_entry(&entry);
    let mut s = String::new();
    let st = &e.stats;
    write!(
        s,
        "{{\"entry\":\"{}\",\"params\":{:?},\"complete\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"instr\":{},\"pruned\":{},\"asserts\":{},\"switches\":{},\"max_depth\":{},\"timeout_paths\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"pool_hits\":{},\"dd_sat\":{},\"dd_unsat\":{},\"dd_over\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"parse_s\":{:.2},\"wall_s\":{:.2},\"vars\":{},\"nodes\":{}",
        esc(&entry), e.o.params, st.complete && st.unsupported.is_empty(), st.paths, st.forks, st.merges, st.merge_fail, st.instr, st.pruned, st.asserts, st.switches, st.max_depth, st.timeout_paths,
        e.sol.queries, e.sol.sat, e.sol.unsat, e.sol.unknown, e.sol.pool_hits, e.sol.dd_sat, e.sol.dd_unsat, expr::cx().dd_over, e.sol.time_us as f64 / 1e6, e.sol.max_us as f64 / 1e6, tp, t0.elapsed().as_secs_f64(), expr::cx().vars.len(), expr::cx().n.len()
    ).unwrap();
    write!(s, ",\"reach\":{{").unwrap();
    for (k, (a, b)) in st.reach.iter().enumerate() {
        write!(s, "{}\"{a}\":{b}", if k > 0 { "," } else { "" }).unwrap();
    }
    write!(s, "}},\"asserts_by\":{{").unwrap();
    for (k, (a, b)) in st.asserts_by.iter().enumerate() {
        write!(s, "{}\"{a}\":{b}", if k > 0 { "," } else { "" }).unwrap();
    }
    write!(s, "}},\"unsupported\":{{").unwrap();
    for (k, (a, b)) in st.unsupported.iter().enumerate() {
        write!(s, "{}\"{}\":{b}", if k > 0 { "," } else { "" }, esc(a)).unwrap();
    }
    write!(s, "}},\"functions\":[").unwrap();
    let mut fs: Vec<String> = e
        .called
        .keys()
        .map(|i| e.m.funcs[*i as usize].pretty.clone())
        .filter(|p| !p.is_empty())
        .collect();
    fs.sort();
    for (k, f) in fs.iter().enumerate() {
        write!(s, "{}\"{}\"", if k > 0 { "," } else { "" }, esc(f)).unwrap();
    }
    let kv = |v: &Vec<(String, u64)>| {
        let mut s = String::from("{");
        for (k, (a, b)) in v.iter().enumerate() {
            write!(s, "{}\"{}\":{b}", if k > 0 { "," } else { "" }, esc(a)).unwrap();
        }
        s.push('}');
        s
    };
    let sc = |v: &Vec<(u64, u32)>| {
        let mut s = String::from("[");
        for (k, (a, b)) in v.iter().enumerate() {
            write!(s, "{}[{a},{b}]", if k > 0 { "," } else { "" }).unwrap();
        }
        s.push(']');
        s
    };
    write!(s, "],\"violations\":[").unwrap();
    for (k, v) in e.viols.iter().enumerate() {
        write!(
            s,
            "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"model\":{},\"sched\":{},\"trace\":[{}]}}",
            if k > 0 { "," } else { "" },
            esc(&v.kind),
            esc(&v.msg),
            kv(&v.model),
            sc(&v.sched),
            v.trace.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(",")
        )
        .unwrap();
    }
    write!(s, "],\"samples\":[").unwrap();
    for (k, v) in e.samples.iter().enumerate() {
        write!(
            s,
            "{}{{\"model\":{},\"sched\":{},\"obs\":[{}]}}",
            if k > 0 { "," } else { "" },
            kv(&v.model),
            sc(&v.sched),
            v.obs.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(",")
        )
        .unwrap();
    }
    s.push_str("]}");
    println!("{s}");
    std::process::exit(0);
}
