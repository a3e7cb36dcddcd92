mod builtins;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::Ordering;
use std::time::Instant;

extern "C" {
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn getpid() -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn dump(x: &Exec) -> String {
    let s = &x.stats;
    let funcs: Vec<String> = s
        .funcs
        .iter()
        .map(|f| demangle(&x.st.borrow().syms[*f as usize].name))
        .collect();
    let mut sites: Vec<_> = s.fork_sites.iter().collect();
    sites.sort_by_key(|x| std::cmp::Reverse(*x.1));
    let sites: Vec<String> = sites
        .iter()
        .take(15)
        .map(|((f, b), n)| {
            let t = x.st.borrow();
            let y = &t.syms[*f as usize];
            format!(
                "{} {}#{}",
                n,
                demangle(&y.name),
                y.func.as_ref().map(|f| f.blocks[*b as usize].name.clone()).unwrap_or_default()
            )
        })
        .collect();
    let viol: Vec<String> = x
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"at\":{},\"stack\":{},\"inputs\":{}}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.at),
                jlist(&v.stack),
                jlist(&v.inputs)
            )
        })
        .collect();
    let cin: Vec<String> = s
        .cover_inputs
        .iter()
        .map(|(k, v)| format!("{}:{}", js(k), jlist(v)))
        .collect();
    format!(
        "{{\"paths\":{},\"assumed\":{},\"instrs\":{},\"forks\":{},\"branch_unsat\":{},\"asserts_concrete\":{},\"asserts_solver\":{},\"sym_loads\":{},\"sym_stores\":{},\"max_path\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"exprs\":{},\"errors\":{},\"limits\":{},\"covers\":{},\"cover_inputs\":{{{}}},\"violations\":[{}],\"funcs\":{},\"fork_sites\":{}}}",
        s.paths, s.assumed, s.instrs, s.forks, s.branch_unsat, s.asserts_concrete, s.asserts_solver,
        s.sym_loads, s.sym_stores, s.max_path,
        x.solver.queries, x.solver.cache_hits, x.solver.sat, x.solver.unsat, x.solver.unknown,
        x.solver.time_ms, x.solver.max_ms, x.ex.nodes.len(),
        jmap(&s.errors), jmap(&s.limits), jmap(&s.covers), cin.join(","), viol.join(","), jlist(&funcs), jlist(&sites)
    )
}

fn real_main() {
    let mut paths = vec![];
    let mut entry = String::new();
    let mut cfg = Cfg {
        max_secs: 600,
        after_violation_secs: 20,
        max_path_instr: 200_000_000,
        workers: 8,
        enum_cap: 128,
        verbose: false,
        trace_calls: false,
        outdir: "/tmp/rsx".into(),
        params: vec![],
        concrete: None,
    };
    let mut args = std::env::args().skip(1);
    let mut rlimit = 0u32;
    let mut dump_smt = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--entry" => entry = args.next().unwrap(),
            "--secs" => cfg.max_secs = args.next().unwrap().parse().unwrap(),
            "--after-violation" => cfg.after_violation_secs = args.next().unwrap().parse().unwrap(),
            "--path-instr" => cfg.max_path_instr = args.next().unwrap().parse().unwrap(),
            "--workers" => cfg.workers = args.next().unwrap().parse().unwrap(),
            "--enum-cap" => cfg.enum_cap = args.next().unwrap().parse().unwrap(),
            "--rlimit" => rlimit = args.next().unwrap().parse().unwrap(),
            "--out" => cfg.outdir = args.next().unwrap().into(),
            "--dump-smt" => dump_smt = Some(args.next().unwrap()),
            "--concrete" => {
                let t = std::fs::read_to_string(args.next().unwrap()).unwrap();
                let mut v = vec![];
                for l in t.lines() {
                    let Some((k, r)) = l.split_once(' ') else { continue };
                    let k = k.chars().next().unwrap();
                    if k == 'p' {
                        let (i, w) = r.split_once(' ').unwrap();
                        cfg.params.push((i.parse().unwrap(), w.parse().unwrap()));
                        continue;
                    }
                    v.push((
                        k,
                        if k == 'b' {
                            (0..r.len() / 2)
                                .map(|i| u128::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap())
                                .collect()
                        } else {
                            vec![r.parse().unwrap()]
                        },
                    ));
                }
                cfg.concrete = Some(v);
            }
            "--param" => {
                let t = args.next().unwrap();
                let (k, v) = t.split_once('=').unwrap();
                cfg.params.push((k.parse().unwrap(), v.parse().unwrap()));
            }
            "-v" => cfg.verbose = true,
            "--trace" => cfg.trace_calls = true,
            "--version" => {
                println!("{}", solver::version());
                return;
            }
            _ => paths.push(a),
        }
    }
    std::fs::create_dir_all(&cfg.outdir).unwrap();
    let shared: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x1 | 0x20, -1, 0);
        &*(p as *const Shared)
    };
    shared.live.store(1, Ordering::SeqCst);
    let t0 = Instant::now();
    let outdir = cfg.outdir.clone();
    let mut x = Exec::new(&paths, cfg, shared);
    x.solver = solver::Solver::new(rlimit);
    if let Some(d) = dump_smt {
        std::fs::create_dir_all(&d).unwrap();
        x.solver.dump = Some(d.into());
    }
    let load_s = t0.elapsed().as_secs_f64();
    x.start = Instant::now();
    if let Err(e) = x.run(&entry) {
        eprintln!("{e}");
        unsafe { _exit(3) }
    }
    let out = dump(&x);
    let me = unsafe { getpid() };
    std::fs::write(outdir.join(format!("w{me}.json")), out).unwrap();
    shared.live.fetch_sub(1, Ordering::SeqCst);
    let mut bad = 0;
    for c in &x.children {
        let mut st = 0;
        unsafe {
            waitpid(*c, &mut st, 0);
        }
        if st != 0 {
            bad += 1;
        }
    }
    if !x.is_child {
        let s = format!(
            "{{\"load_s\":{:.2},\"run_s\":{:.2},\"z3\":{}}}",
            load_s,
            x.start.elapsed().as_secs_f64(),
            js(&solver::version())
        );
        std::fs::write(outdir.join("root.json"), s).unwrap();
    }
    let _ = std::io::stdout().flush();
    unsafe { _exit(if bad > 0 { 4 } else { 0 }) }
}

fn main() {
    std::thread::Builder::new()
        .stack_size(8 << 30)
        .spawn(real_main)
        .unwrap()
        .join()
        .unwrap();
}
