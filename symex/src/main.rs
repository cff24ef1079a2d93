mod exec;
mod expr;
mod ll;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_int, c_long, c_void};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// key/value lines a worker hands to its parent
fn dump(e: &Engine) -> String {
    let mut o = String::new();
    let s = &e.st;
    let mut n = |k: &str, v: f64| {
        let _ = writeln!(o, "N\t{k}\t{v}");
    };
    n("paths_completed", s.done as f64);
    n("paths_assumed_away", s.assumed as f64);
    n("panics", s.panics as f64);
    n("assert_failures", s.asserts as f64);
    n("errors", s.errors as f64);
    n("instructions", s.insns as f64);
    n("forks", s.forks as f64);
    n("free_bits", s.free as f64);
    n("assertions_checked", s.asserts_checked as f64);
    n("dropped", s.dropped as f64);
    n("samples", s.samples as f64);
    n("queries", e.solver.queries as f64);
    n("query_cache_hits", e.solver.cache_hits as f64);
    n("queries_sat", e.solver.sat as f64);
    n("queries_unsat", e.solver.unsat as f64);
    n("linear_queries", e.solver.linear_queries as f64);
    n("queries_unknown", e.solver.unknown as f64);
    n("solver_time_s", e.solver.time);
    let _ = writeln!(o, "M\tmax_query_s\t{}", e.solver.max_time);
    let _ = writeln!(o, "M\tmax_inputs_per_path\t{}", s.max_inputs);
    for (k, v) in &s.covers {
        let _ = writeln!(o, "C\t{k}\t{v}");
    }
    for (k, v) in &s.assert_ids {
        let _ = writeln!(o, "A\t{k}\t{v}");
    }
    for (k, v) in &s.error_msgs {
        let _ = writeln!(o, "E\t{}\t{v}", k.replace(['\t', '\n'], " "));
    }
    for (k, f) in &s.viol {
        let _ = writeln!(o, "V\t{}\t{f}", k.replace(['\t', '\n'], " "));
    }
    for f in e.touched_names() {
        let _ = writeln!(o, "F\t{}\t1", f.replace(['\t', '\n'], " "));
    }
    o
}

fn main() {
    // expressions can nest deeply
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: symex FILE.ll ENTRY [--out DIR] [--workers N] [--secs S] [--query-ms MS] [--insns N] [--sample N] [--list]");
        return 2;
    }
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let src = match std::fs::read_to_string(&args[1]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {e}", args[1]);
            return 2;
        }
    };
    let m = match ll::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {e}");
            return 2;
        }
    };
    drop(src);
    let num = |k: &str, d: f64| opt(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let out = opt("--out").unwrap_or("/tmp/symex_out".into());
    let _ = std::fs::create_dir_all(&out);
    let cfg = Cfg {
        max_insns: num("--insns", 400e6) as u64,
        max_paths: u64::MAX,
        max_secs: num("--secs", 600.0),
        max_viol: num("--max-viol", 12.0) as usize,
        out: out.clone(),
        sample_every: num("--sample", 50.0) as u64,
        max_alloc: num("--max-alloc", (256u64 << 20) as f64) as u64,
        verbose: args.iter().any(|a| a == "-v"),
        entry: args[2].clone(),
        params: opt("--params").map(|v| v.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
        deadline: None,
    };
    let workers = num("--workers", 8.0) as usize;
    let frontier = num("--frontier", 400.0) as usize;
    let mut sol = solver::Solver::new(num("--query-ms", 60000.0) as u32);
    sol.linear = args.iter().any(|a| a == "--linear");
    if let Some(d) = opt("--dump") {
        let _ = std::fs::create_dir_all(&d);
        sol.dump = Some((d, num("--dump-every", 97.0) as u64, 0));
    }
    let nf = m.funcs.len();
    let mut e = match Engine::new(m, cfg, sol) {
        Ok(e) => e,
        Err(x) => {
            eprintln!("init error: {x}");
            return 2;
        }
    };
    let s0 = match e.initial() {
        Ok(s) => s,
        Err(x) => {
            eprintln!("{x}");
            return 2;
        }
    };
    // phase 1: breadth first until there is enough work to share
    let t0 = e.t0;
    e.bfs = true;
    let mut q = std::collections::VecDeque::new();
    q.push_back(s0);
    while let Some(s) = q.pop_front() {
        e.run(s);
        for s in e.work.drain(..) {
            q.push_back(s);
        }
        if (workers > 1 && q.len() >= frontier) || workers == 1 && !q.is_empty() && q.len() > 0 && frontier == 0 {
            break;
        }
        if t0.elapsed().as_secs_f64() > e.cfg.max_secs {
            e.st.dropped += q.len() as u64;
            q.clear();
        }
    }
    e.bfs = false;
    let mut dumps = vec![];
    let mut crashed = 0;
    if !q.is_empty() {
        let mut states: Vec<Option<State>> = q.into_iter().map(Some).collect();
        // shared counters: next state, busy workers, workers started, workers that reported, stop
        let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const [AtomicU64; 5];
        let [ctr, busy, started, finished, stop]: &[AtomicU64; 5] = unsafe { &*sh };
        dumps.push(dump(&e));
        let reset = |e: &mut Engine| {
            // children start counting from zero
            e.st = Stats::default();
            e.solver.queries = 0;
            e.solver.cache_hits = 0;
            e.solver.sat = 0;
            e.solver.unsat = 0;
            e.solver.unknown = 0;
            e.solver.time = 0.0;
        };
        reset(&mut e);
        let max_forks = 3000;
        let mut worker = false;
        for _ in 0..workers {
            started.fetch_add(1, Ordering::SeqCst);
            busy.fetch_add(1, Ordering::SeqCst);
            if unsafe { fork() } == 0 {
                worker = true;
                break;
            }
        }
        if worker {
            let mut last = std::time::Instant::now();
            loop {
                let s = match e.work.pop() {
                    Some(s) => s,
                    None => {
                        let i = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                        if i >= states.len() {
                            break;
                        }
                        states[i].take().unwrap()
                    }
                };
                if e.t0.elapsed().as_secs_f64() > e.cfg.max_secs {
                    e.st.dropped += 1;
                    continue;
                }
                if stop.load(Ordering::SeqCst) != 0 {
                    continue;
                }
                if e.st.viol.len() >= e.cfg.max_viol || e.st.hard >= 100 {
                    // enough counterexamples
                    stop.store(1, Ordering::SeqCst);
                    continue;
                }
                e.run(s);
                // an idle processor takes over half of the pending states
                if e.work.len() >= 2
                    && ctr.load(Ordering::SeqCst) as usize >= states.len()
                    && busy.load(Ordering::SeqCst) < workers as u64
                    && last.elapsed().as_millis() > 30
                    && started.load(Ordering::SeqCst) < max_forks
                {
                    last = std::time::Instant::now();
                    busy.fetch_add(1, Ordering::SeqCst);
                    started.fetch_add(1, Ordering::SeqCst);
                    let child = unsafe { fork() } == 0;
                    let mut k = 0;
                    e.work.retain(|_| {
                        k += 1;
                        (k % 2 == 0) == child
                    });
                    if child {
                        reset(&mut e);
                    }
                }
            }
            if std::fs::write(format!("{out}/worker_{}.txt", std::process::id()), dump(&e)).is_ok() {
                finished.fetch_add(1, Ordering::SeqCst);
            }
            busy.fetch_sub(1, Ordering::SeqCst);
            drop(std::mem::take(&mut e.work));
            unsafe {
                while waitpid(-1, std::ptr::null_mut(), 0) > 0 {}
                _exit(0)
            }
        }
        unsafe { while waitpid(-1, std::ptr::null_mut(), 0) > 0 {} }
        crashed = started.load(Ordering::SeqCst) - finished.load(Ordering::SeqCst);
        for f in std::fs::read_dir(&out).into_iter().flatten().flatten() {
            if f.file_name().to_string_lossy().starts_with("worker_") {
                dumps.push(std::fs::read_to_string(f.path()).unwrap_or_default());
                let _ = std::fs::remove_file(f.path());
            }
        }
    } else {
        dumps.push(dump(&e));
    }
    // merge
    let mut n: BTreeMap<String, f64> = BTreeMap::new();
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    let mut a: BTreeMap<String, u64> = BTreeMap::new();
    let mut er: BTreeMap<String, u64> = BTreeMap::new();
    let mut v: Vec<(String, String)> = vec![];
    let mut f: BTreeSet<String> = BTreeSet::new();
    for d in &dumps {
        for l in d.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() != 3 {
                continue;
            }
            match p[0] {
                "N" => *n.entry(p[1].into()).or_default() += p[2].parse::<f64>().unwrap(),
                "M" => {
                    let x = n.entry(p[1].into()).or_default();
                    *x = x.max(p[2].parse::<f64>().unwrap());
                }
                "C" => *c.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "A" => *a.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "E" => *er.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "V" => v.push((p[1].into(), p[2].into())),
                "F" => {
                    f.insert(p[1].into());
                }
                _ => {}
            }
        }
    }
    let mut j = String::from("{");
    let _ = write!(j, "\"entry\":{},\"z3\":{},\"wall_s\":{:.2},\"crashed_workers\":{crashed},\"functions_in_module\":{nf}", esc(&args[2]), esc(&solver::version()), t0.elapsed().as_secs_f64());
    for (k, x) in &n {
        let _ = write!(j, ",{}:{}", esc(k), x);
    }
    let obj = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
        format!("{{{}}}", v.join(","))
    };
    let _ = write!(j, ",\"covers\":{},\"asserts\":{},\"error_messages\":{}", obj(&c), obj(&a), obj(&er));
    let vs: Vec<String> = v.iter().map(|(k, f)| format!("{{\"key\":{},\"file\":{}}}", esc(k), esc(f))).collect();
    let _ = write!(j, ",\"violations\":[{}]", vs.join(","));
    let fs: Vec<String> = f.iter().map(|x| esc(x)).collect();
    let _ = write!(j, ",\"functions\":[{}]}}", fs.join(","));
    let _ = std::fs::write(format!("{out}/result.json"), &j);
    println!("{j}");
    0
}
