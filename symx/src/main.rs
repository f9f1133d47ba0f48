mod exec;
mod expr;
mod ffi;
mod ir;
mod mem;
mod models;
mod solver;
mod val;
use exec::*;
use expr::FpMode;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

struct Opts {
    bc: String,
    entry: String,
    args: Vec<u64>,
    real: bool,
    workers: usize,
    time: f64,
    out: String,
    max_paths: u64,
    samples: usize,
    timeout_ms: u32,
    max_insns: u64,
    trace: bool,
    seed: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_pairs(v: &[(String, String)]) -> String {
    let x: Vec<String> = v.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
    format!("[{}]", x.join(","))
}
fn js_list(v: &[String]) -> String {
    let x: Vec<String> = v.iter().map(|a| js(a)).collect();
    format!("[{}]", x.join(","))
}
fn pe_json(p: &PathEnd) -> String {
    let (k, m) = match &p.end {
        End::Return => ("return", String::new()),
        End::Panic(m) => ("panic", m.clone()),
        End::Assume => ("assume", String::new()),
        End::Violation(m) => ("violation", m.clone()),
        End::Exit(c) => ("exit", c.to_string()),
        End::Unsup(m) => ("unsup", m.clone()),
        End::Limit(m) => ("limit", m.clone()),
    };
    format!(
        "{{\"kind\":{},\"msg\":{},\"vals\":{},\"logs\":{},\"covers\":{},\"insns\":{},\"trace\":{},\"checks\":{},\"ok_panic\":{}}}",
        js(k),
        js(&m),
        js_pairs(&p.vals),
        js_pairs(&p.logs),
        js_list(&p.covers),
        p.insns,
        js_list(&p.trace),
        p.checks,
        p.ok_panic
    )
}

#[derive(Default)]
struct Acc {
    kinds: BTreeMap<String, u64>,
    viol: Vec<PathEnd>,
    viol_count: BTreeMap<String, u64>,
    bad: Vec<PathEnd>,
    bad_count: BTreeMap<String, u64>,
    samples: Vec<PathEnd>,
    covers: BTreeMap<String, u64>,
    cover_wit: Vec<(String, PathEnd)>,
    seen: u64,
    paths: u64,
    rng: u64,
}
impl Acc {
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn push(&mut self, p: PathEnd, nsamples: usize) {
        let k = match &p.end {
            End::Return => "return",
            End::Panic(_) if p.ok_panic => "allowed-panic",
            End::Panic(_) => "panic",
            End::Assume => "assume",
            End::Violation(_) => "violation",
            End::Exit(_) => "exit",
            End::Unsup(_) => "unsup",
            End::Limit(_) => "limit",
        };
        *self.kinds.entry(k.into()).or_insert(0) += 1;
        if !matches!(p.end, End::Assume) {
            self.paths += 1;
            for c in &p.covers {
                let n = self.covers.entry(c.clone()).or_insert(0);
                *n += 1;
                if *n == 1 && matches!(p.end, End::Return) {
                    self.cover_wit.push((c.clone(), p.clone()));
                }
            }
        }
        match &p.end {
            End::Violation(m) => {
                self.violation(m.clone(), p);
                return;
            }
            End::Panic(m) if !p.ok_panic => {
                self.violation(m.clone(), p);
                return;
            }
            End::Unsup(m) | End::Limit(m) => {
                let key = format!("{m} @ {}", p.trace.first().cloned().unwrap_or_default());
                let n = self.bad_count.entry(key).or_insert(0);
                *n += 1;
                if *n <= 2 && self.bad.len() < 20 {
                    self.bad.push(p);
                }
                return;
            }
            End::Assume => return,
            _ => {}
        }
        self.seen += 1;
        if self.samples.len() < nsamples {
            self.samples.push(p);
        } else if nsamples > 0 {
            let j = self.rnd() % self.seen;
            if (j as usize) < nsamples {
                self.samples[j as usize] = p;
            }
        }
    }
    fn violation(&mut self, m: String, p: PathEnd) {
        let n = self.viol_count.entry(m).or_insert(0);
        *n += 1;
        if *n <= 6 && self.viol.len() < 60 {
            self.viol.push(p);
        }
    }
}

fn run(eng: &mut Engine, s: State, acc: &mut Acc, o: &Opts) -> u64 {
    let (st, end) = eng.run_state(s);
    for v in std::mem::take(&mut eng.violations) {
        if let End::Violation(m) = &v.end {
            let m = m.clone();
            acc.violation(m, v);
        }
    }
    let ins = st.insns;
    let pe = eng.path_end(&st, end);
    acc.push(pe, o.samples);
    ins
}

fn report(eng: &Engine, acc: &Acc, left: usize, solver0: (u64, u64, u64, u64, u64, u64)) -> String {
    // one JSON object per process
    let mut j = String::from("{");
    let s = &eng.st;
    let _ = write!(
        j,
        "\"paths\":{},\"left\":{},\"forks\":{},\"insns\":{},\"checks_proved\":{},\"checks_conc\":{},\"inconclusive\":{},\"decide_dom\":{},\"decide_model\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"maxq_us\":{},",
        acc.paths,
        left,
        s.forks,
        s.insns,
        s.checks_proved,
        s.checks_conc,
        s.inconclusive,
        s.decide_dom,
        s.decide_model,
        eng.sol.queries + solver0.0,
        eng.sol.sat + solver0.1,
        eng.sol.unsat + solver0.2,
        eng.sol.unknown + solver0.3,
        eng.sol.time_us + solver0.4,
        eng.sol.maxq_us.max(solver0.5)
    );
    let cnt = |m: &BTreeMap<String, u64>| -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")) };
    let _ = write!(j, "\"kinds\":{},", cnt(&acc.kinds));
    let _ = write!(j, "\"violations\":[{}],", acc.viol.iter().map(pe_json).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"violation_counts\":{},", cnt(&acc.viol_count));
    let _ = write!(j, "\"bad\":[{}],", acc.bad.iter().map(pe_json).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"bad_counts\":{},", cnt(&acc.bad_count));
    let _ = write!(j, "\"samples\":[{}],", acc.samples.iter().map(pe_json).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"covers\":{},", cnt(&acc.covers));
    let _ = write!(j, "\"cover_witnesses\":[{}],", acc.cover_wit.iter().map(|(c, p)| format!("[{},{}]", js(c), pe_json(p))).collect::<Vec<_>>().join(","));
    let ci: BTreeMap<String, u64> = eng.check_ids.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let _ = write!(j, "\"check_ids\":{},", cnt(&ci));
    let _ = write!(j, "\"notes\":{},", js_list(&eng.incomplete));
    let fs: BTreeSet<String> = eng.funcs_run.iter().map(|f| demangle(&eng.md.fns[*f as usize].name)).collect();
    let _ = write!(j, "\"functions\":{},", js_list(&fs.into_iter().collect::<Vec<_>>()));
    let mut mu: Vec<String> = eng.models_used.iter().cloned().collect();
    mu.sort();
    let _ = write!(j, "\"models\":{},", js_list(&mu));
    let mut asm: Vec<String> = eng.asm_seen.iter().cloned().collect();
    asm.sort();
    let _ = write!(j, "\"asm\":{},", js_list(&asm));
    let vars: Vec<String> = eng.cx.vars.iter().map(|v| v.name.clone()).collect();
    let _ = write!(j, "\"vars\":{}", js_list(&vars));
    j.push('}');
    j
}

fn main() {
    let mut o = Opts {
        bc: String::new(),
        entry: String::new(),
        args: vec![],
        real: true,
        workers: 8,
        time: 60.,
        out: String::new(),
        max_paths: u64::MAX,
        samples: 12,
        timeout_ms: 20000,
        max_insns: 400_000_000,
        trace: false,
        seed: 1,
    };
    let av: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < av.len() {
        let v = av.get(i + 1).cloned().unwrap_or_default();
        match av[i].as_str() {
            "--bc" => o.bc = v,
            "--entry" => o.entry = v,
            "--args" => o.args = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--mode" => o.real = v == "real",
            "--workers" => o.workers = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--out" => o.out = v,
            "--max-paths" => o.max_paths = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--query-ms" => o.timeout_ms = v.parse().unwrap(),
            "--max-insns" => o.max_insns = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--trace" => {
                o.trace = true;
                i -= 1;
            }
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let mode = if o.real { FpMode::Real } else { FpMode::Ieee };
    let (mut eng, mem) = Engine::new(&o.bc, mode, o.timeout_ms);
    eng.max_insns = o.max_insns;
    eng.trace_calls = o.trace;
    let deadline = t0 + Duration::from_secs_f64(o.time);
    eng.deadline = Some(deadline);
    let load_ms = t0.elapsed().as_millis();
    let s = eng.initial(&o.entry, &o.args, mem);
    let mut acc = Acc { rng: 0x9e3779b97f4a7c15 ^ o.seed, ..Default::default() };
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(s);
    let target = if o.workers > 1 { o.workers * 24 } else { usize::MAX };
    let mut timed_out = false;
    // breadth-first until there is enough work to share
    while let Some(s) = if o.workers > 1 { queue.pop_front() } else { queue.pop_back() } {
        run(&mut eng, s, &mut acc, &o);
        queue.extend(eng.pending.drain(..));
        if Instant::now() > deadline {
            timed_out = true;
            break;
        }
        if acc.paths >= o.max_paths {
            break;
        }
        if queue.len() >= target {
            break;
        }
    }
    let mut parts: Vec<String> = vec![];
    if queue.is_empty() || o.workers <= 1 || timed_out {
        parts.push(report(&eng, &acc, queue.len(), (0, 0, 0, 0, 0, 0)));
        if eng.proflog {
            prof(&eng);
        }
    } else {
        parts.push(report(&eng, &acc, 0, (0, 0, 0, 0, 0, 0)));
        let jobs: Vec<State> = queue.into_iter().collect();
        let shared = unsafe { ffi::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicU64;
        let dir = std::env::temp_dir().join(format!("symx-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        std::io::stdout().flush().unwrap();
        let mut pids = vec![];
        for w in 0..o.workers {
            let pid = unsafe { ffi::fork() };
            if pid == 0 {
                let sol = std::mem::replace(&mut eng.sol, solver::Solver::new(o.timeout_ms));
                std::mem::forget(sol);
                let mut acc = Acc { rng: 0x9e3779b97f4a7c15 ^ (o.seed + 77 * (w as u64 + 1)), ..Default::default() };
                eng.st = Stats::default();
                eng.check_ids.clear();
                eng.incomplete.clear();
                let mut left = 0;
                let mut saved = Instant::now();
                let mut jobs: Vec<Option<State>> = jobs.into_iter().map(Some).collect();
                loop {
                    let k = unsafe { (*shared).fetch_add(1, std::sync::atomic::Ordering::SeqCst) } as usize;
                    if k >= jobs.len() {
                        break;
                    }
                    if Instant::now() > deadline {
                        left += 1;
                        continue;
                    }
                    let mut st = vec![jobs[k].take().unwrap()];
                    while let Some(s) = st.pop() {
                        if Instant::now() > deadline {
                            left += 1;
                            continue;
                        }
                        run(&mut eng, s, &mut acc, &o);
                        st.extend(eng.pending.drain(..));
                        // what is known so far, should this worker get stuck
                        if saved.elapsed() > Duration::from_secs(5) {
                            let r = report(&eng, &acc, st.len(), (0, 0, 0, 0, 0, 0));
                            let tmp = dir.join(format!("{w}.tmp"));
                            std::fs::write(&tmp, r).unwrap();
                            std::fs::rename(&tmp, dir.join(format!("{w}.json"))).unwrap();
                            saved = Instant::now();
                        }
                    }
                }
                let r = report(&eng, &acc, left, (0, 0, 0, 0, 0, 0));
                std::fs::write(dir.join(format!("{w}.json")), r).unwrap();
                if eng.proflog && w == 0 {
                    prof(&eng);
                }
                unsafe { ffi::_exit(0) };
            }
            pids.push(pid);
        }
        for (w, p) in pids.iter().enumerate() {
            let mut st = 0;
            let grace = deadline + Duration::from_secs(10);
            loop {
                if unsafe { ffi::waitpid(*p, &mut st, 1) } != 0 {
                    break;
                }
                if Instant::now() > grace {
                    unsafe {
                        ffi::kill(*p, 9);
                        ffi::waitpid(*p, &mut st, 0);
                    }
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            if st != 0 {
                parts.push(format!("{{\"crashed\":true,\"status\":{st}}}"));
            }
            match std::fs::read_to_string(dir.join(format!("{w}.json"))) {
                Ok(r) => parts.push(r),
                Err(_) if st == 0 => parts.push("{\"crashed\":true,\"status\":0}".to_string()),
                Err(_) => {}
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    let rep = format!(
        "{{\"entry\":{},\"args\":[{}],\"mode\":{},\"load_ms\":{load_ms},\"wall_ms\":{},\"z3\":{},\"parts\":[{}]}}\n",
        js(&o.entry),
        o.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        js(if o.real { "real" } else { "ieee" }),
        t0.elapsed().as_millis(),
        js(&solver::Solver::version()),
        parts.join(",\n")
    );
    if o.out.is_empty() {
        println!("{rep}");
    } else {
        std::fs::write(&o.out, rep).unwrap();
    }
    // skip destructors of the LLVM and solver state
    std::io::stdout().flush().unwrap();
    unsafe { ffi::_exit(0) };
}

fn prof(eng: &Engine) {
    let mut v: Vec<_> = eng.forkpts.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    eprintln!("fork points:");
    for (k, n) in v.iter().take(25) {
        eprintln!("  {n:8} {k}");
    }
    let mut v: Vec<_> = eng.hot.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    eprintln!("hot functions (static instructions entered):");
    for (k, n) in v.iter().take(25) {
        eprintln!("  {n:10} {}", demangle(&eng.md.fns[**k as usize].name));
    }
}
