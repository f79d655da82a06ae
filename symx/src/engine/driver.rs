//! Runs harnesses, replays counterexamples natively, and writes evidence.
use super::cx::*;
use super::explore::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex as StdMutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub tier: Tier,
    /// What is executed and within which bounds.
    pub about: &'static str,
    pub sym: fn(&mut SymCx),
    pub nat: fn(&mut F64Cx),
}

#[macro_export]
macro_rules! h {
    ($v:ident, $p:expr, $n:expr, $tier:ident, $about:expr, |$c:ident| $body:expr) => {
        $v.push($crate::engine::driver::Harness {
            prop: $p,
            name: $n,
            tier: $crate::engine::driver::Tier::$tier,
            about: $about,
            sym: |$c: &mut $crate::engine::cx::SymCx| {
                $body;
            },
            nat: |$c: &mut $crate::engine::cx::F64Cx| {
                $body;
            },
        });
    };
}

static LAST_PANIC: StdMutex<Option<String>> = StdMutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<PathStop>().is_some() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = Some(format!("{} at {}", msg, loc));
    }));
}

fn last_panic() -> String {
    LAST_PANIC.lock().unwrap().take().unwrap_or_else(|| "panic".into())
}

pub struct NativeRun {
    pub failures: Vec<String>,
    pub invalid: Option<String>,
    pub trace: Vec<(String, f64, f64)>,
    pub panicked: bool,
    pub desync: bool,
}

pub fn native(
    h: &Harness,
    values: &std::collections::BTreeMap<String, f64>,
    choices: &[(String, usize)],
) -> NativeRun {
    let mut c = F64Cx { values: values.clone(), choices: choices.to_vec(), ..Default::default() };
    let r = catch_unwind(AssertUnwindSafe(|| (h.nat)(&mut c)));
    let mut panicked = false;
    if r.is_err() {
        panicked = true;
        let m = last_panic();
        if c.invalid.is_none() {
            c.failures.push(format!("panic: {}", m));
        }
    }
    NativeRun { failures: c.failures, invalid: c.invalid, trace: c.trace, panicked, desync: c.desync }
}

/// Reproduces a candidate natively: at the model, at coarser dyadic roundings of it, and in a small
/// neighbourhood (solver models may be irrational, and native arithmetic rounds).
fn reproduce(h: &Harness, c: &Candidate) -> Option<(std::collections::BTreeMap<String, f64>, Vec<String>)> {
    let attempt = |v: &std::collections::BTreeMap<String, f64>| -> Option<Vec<String>> {
        let r = native(h, v, &c.choices);
        if !r.failures.is_empty() && !r.desync {
            Some(r.failures)
        } else {
            None
        }
    };
    if let Some(f) = attempt(&c.values) {
        return Some((c.values.clone(), f));
    }
    for g in [8.0, 64.0, 1024.0, 1048576.0] {
        let v = c.values.iter().map(|(k, x)| (k.clone(), (x * g).round() / g)).collect();
        if let Some(f) = attempt(&v) {
            return Some((v, f));
        }
    }
    let mut seed = 0x9E3779B97F4A7C15u64;
    let mut rnd = || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
    };
    for i in 0..600 {
        let s = [1e-6, 1e-4, 1e-2, 1e-1][i % 4];
        let v: std::collections::BTreeMap<String, f64> =
            c.values.iter().map(|(k, x)| (k.clone(), x + s * rnd() * (1.0 + x.abs()))).collect();
        if let Some(f) = attempt(&v) {
            return Some((v, f));
        }
    }
    None
}

fn run_harness(h: &Harness, budget: f64, full_ms: u64) -> Value {
    install_hook();
    let t0 = Instant::now();
    {
        let mut e = Eng::new();
        e.budget_s = budget;
        e.full_ms = full_ms;
        if let Ok(s) = std::env::var("SYMX_FAST_MS") {
            e.fast_ms = s.parse().unwrap();
        }
        *ENG.lock() = Some(e);
    }
    let mut errors: Vec<String> = vec![];
    let mut incomplete: Vec<String> = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut unreproduced: Vec<Value> = vec![];
    let mut seen_unrep = std::collections::BTreeSet::new();
    let mut path_no = 0u64;
    let mut panics = 0u64;
    loop {
        if !with(|e| e.next_path()) {
            break;
        }
        path_no += 1;
        with(|e| e.div_policy = DivPolicy::Assume);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = SymCx;
            (h.sym)(&mut c);
        }));
        match r {
            Ok(()) => {
                with(|e| e.stats.paths += 1);
                if path_no <= 200 || path_no % 50 == 0 {
                    validate(h);
                }
            }
            Err(p) => {
                if let Some(s) = p.downcast_ref::<PathStop>() {
                    if s.0 != "infeasible" {
                        let err = with(|e| e.error.take()).unwrap_or_else(|| s.0.to_string());
                        if err.starts_with("time budget") {
                            incomplete.push(err);
                        } else {
                            errors.push(err);
                        }
                        break;
                    }
                } else {
                    let m = last_panic();
                    panics += 1;
                    with(|e| {
                        e.stats.paths += 1;
                        e.fail_here("no panic", &m)
                    });
                }
            }
        }
        if let Some(err) = with(|e| e.error.take()) {
            if err.starts_with("time budget") {
                incomplete.push(err);
            } else {
                errors.push(err);
            }
            break;
        }
        let cands = with(|e| std::mem::take(&mut e.candidates));
        for c in cands {
            let key = c.what.clone();
            if seen_unrep.contains(&key) && unreproduced.len() > 5 {
                continue;
            }
            match reproduce(h, &c) {
                Some((v, f)) => {
                    violations.push(json!({
                        "check": c.what, "detail": c.detail, "values": v, "solver_model": c.exact,
                        "choices": c.choices, "native": f,
                    }));
                }
                None => {
                    seen_unrep.insert(key);
                    unreproduced.push(json!({
                        "check": c.what, "detail": c.detail, "values": c.values, "choices": c.choices,
                        "solver_model": c.exact,
                    }));
                }
            }
        }
        if !violations.is_empty() {
            break;
        }
        if with(|e| e.out_of_time()) && with(|e| e.pending()) > 0 {
            incomplete.push(format!("time budget of {} s exhausted with {} paths pending", budget, with(|e| e.pending())));
            break;
        }
    }
    if errors.is_empty() && violations.is_empty() {
        with(|e| e.confirm_all((t0.elapsed().as_secs_f64() * 0.3).clamp(5.0, 20.0)));
    }
    let wall = t0.elapsed().as_secs_f64();
    with(|e| {
        let s = &e.stats;
        if s.checks == 0 && errors.is_empty() && violations.is_empty() {
            errors.push("vacuous: no assertion was reached".into());
        }
        if s.paths == 0 && errors.is_empty() && violations.is_empty() {
            errors.push("vacuous: no feasible path".into());
        }
        if s.traces_validated == 0 && s.traces_diverged > 0 && errors.is_empty() && violations.is_empty() {
            errors.push("no explored path could be validated natively".into());
        }
        json!({
            "property": h.prop, "harness": h.name, "about": h.about,
            "paths": s.paths, "infeasible": s.infeasible_paths, "forks": s.forks,
            "checks": s.checks, "checks_distinct": s.checks_distinct,
            "by_normal_form": s.checks_by_normal_form, "by_solver": s.checks_by_solver,
            "normal_form_given_to_solver": s.confirm_total, "normal_form_confirmed_by_solver": s.confirmed,
            "normal_form_solver_disagrees": s.confirm_disagree,
            "by_tolerance": s.checks_by_tolerance, "bool_checks": s.bool_checks,
            "div_assumed": s.div_assumed, "unknown_feasibility": s.unknown_feasibility,
            "undecided": s.undecided, "by_name": s.by_name,
            "traces_validated": s.traces_validated, "traces_diverged": s.traces_diverged,
            "trace_mismatch": s.trace_mismatch,
            "queries": e.solver.queries, "sat": e.solver.sat, "unsat": e.solver.unsat,
            "unknown": e.solver.unknown, "solver_s": e.solver.time, "solvers": e.solver.by,
            "nodes": e.dag.nodes.len(), "opaque": e.dag.opaque.len(), "max_poly_terms": s.max_poly_terms,
            "panics": panics, "samples": s.samples, "vars": e.vars.iter().map(|v| v.name.clone()).take(40).collect::<Vec<_>>(),
            "n_vars": e.vars.len(),
            "wall_s": wall, "errors": errors, "incomplete": incomplete, "violations": violations, "unreproduced": unreproduced,
        })
    })
}

/// Runs the path natively at a model of its path condition and compares every observed value.
fn validate(h: &Harness) {
    let (model, choices) = with(|e| (e.path_model(), e.choices.clone()));
    let Some(m) = model else { return };
    let values = with(|e| e.values_of(&m));
    let run = native(h, &values, &choices);
    with(|e| {
        let obs = e.obs.clone();
        let mut memo = Default::default();
        let mut ok = !run.desync && !run.panicked && run.trace.len() == obs.len() && run.invalid.is_none();
        let mut why = format!(
            "desync={} panicked={} trace={} obs={} invalid={:?}",
            run.desync,
            run.panicked,
            run.trace.len(),
            obs.len(),
            run.invalid
        );
        if ok {
            for (o, (w, a, b)) in obs.iter().zip(run.trace.iter()) {
                let x = e.eval_in(&m, o.a, &mut memo);
                let y = e.eval_in(&m, o.b, &mut memo);
                let close = |p: f64, q: f64| (p - q).abs() <= 1e-3 * (1.0 + p.abs().max(q.abs())) || (p.is_nan() && q.is_nan());
                if &o.what != w || !close(x, *a) || !close(y, *b) {
                    ok = false;
                    why = format!("{}: symbolic ({:e}, {:e}) native ({:e}, {:e})", w, x, y, a, b);
                    break;
                }
            }
        }
        if ok {
            e.stats.traces_validated += 1;
        } else {
            e.stats.traces_diverged += 1;
            if e.stats.trace_mismatch.len() < 5 {
                e.stats.trace_mismatch.push(why);
            }
        }
    })
}

pub fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Entry point of a check binary.
///   list | one <PROP> <HARNESS> | check <PROP> --tier T --out DIR | replay <FILE>
pub fn main(hs: Vec<Harness>) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("list");
    match cmd {
        "list" => {
            for h in &hs {
                println!("{} {} {:?}", h.prop, h.name, h.tier);
            }
        }
        "one" => {
            let h = hs.iter().find(|h| h.prop == args[2] && h.name == args[3]).expect("no such harness");
            let budget = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(300.0);
            let full = arg(&args, "--full-ms").and_then(|s| s.parse().ok()).unwrap_or(20000);
            // generous stack for deep generic code in debug builds
            let v = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || run_harness(h, budget, full))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            println!("@@RESULT {}", v);
            if args.iter().any(|a| a == "-v") {
                eprintln!("{}", serde_json::to_string_pretty(&v).unwrap());
            }
            std::process::exit(0);
        }
        "replay" => {
            install_hook();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let h = hs
                .iter()
                .find(|h| Some(h.prop) == v["property"].as_str() && Some(h.name) == v["harness"].as_str())
                .expect("no such harness");
            let values = serde_json::from_value(v["values"].clone()).unwrap();
            let choices: Vec<(String, usize)> = serde_json::from_value(v["choices"].clone()).unwrap();
            let r = native(h, &values, &choices);
            for f in &r.failures {
                println!("{}", f);
            }
            std::process::exit(if r.failures.is_empty() { 0 } else { 1 });
        }
        "check" => {
            let prop = args[2].clone();
            let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
            let out = arg(&args, "--out").expect("--out");
            let jobs: usize = arg(&args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or(7);
            let budget: f64 = arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 200.0 });
            let full = if thorough { 60000 } else { 30000 };
            let sel: Vec<&Harness> =
                hs.iter().filter(|h| h.prop == prop && (thorough || h.tier == Tier::Quick)).collect();
            if sel.is_empty() {
                eprintln!("no harness for {}", prop);
                std::process::exit(2);
            }
            let next = AtomicUsize::new(0);
            let results: StdMutex<Vec<(usize, Value)>> = StdMutex::new(vec![]);
            let exe = std::env::current_exe().unwrap();
            let t0 = Instant::now();
            // Once one harness has found a violation the others get a little more time, then the check answers.
            let found: StdMutex<Option<Instant>> = StdMutex::new(None);
            std::thread::scope(|s| {
                for _ in 0..jobs.min(sel.len()) {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= sel.len() {
                            break;
                        }
                        let h = sel[i];
                        // the whole check has to answer within 900 s
                        let left = 760.0 - t0.elapsed().as_secs_f64();
                        let v = run_child(&exe, h, if thorough { budget } else { budget.min(left.max(20.0)) }, full, &found);
                        if v["violations"].as_array().map_or(false, |v| !v.is_empty()) {
                            found.lock().unwrap().get_or_insert_with(Instant::now);
                        }
                        results.lock().unwrap().push((i, v));
                    });
                }
            });
            let mut rs = results.into_inner().unwrap();
            rs.sort_by_key(|x| x.0);
            let rs: Vec<Value> = rs.into_iter().map(|x| x.1).collect();
            let v = json!({"property": prop, "tier": if thorough {"thorough"} else {"quick"}, "wall_s": t0.elapsed().as_secs_f64(), "harnesses": rs});
            std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
        }
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}

/// Time the remaining harnesses get after a violation was found.
const AFTER_VIOLATION: Duration = Duration::from_secs(60);

fn run_child(exe: &std::path::Path, h: &Harness, budget: f64, full: u64, found: &StdMutex<Option<Instant>>) -> Value {
    use std::io::Read;
    let mut child = std::process::Command::new(exe)
        .args(["one", h.prop, h.name, "--budget", &budget.to_string(), "--full-ms", &full.to_string()])
        .env("RAYON_NUM_THREADS", "1")
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut so = child.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(budget + 90.0);
    let mut timed_out = false;
    loop {
        match child.try_wait().unwrap() {
            Some(_) => break,
            None => {
                let enough = found.lock().unwrap().map_or(false, |t| t.elapsed() > AFTER_VIOLATION);
                if enough || t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    timed_out = true;
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
    let s = rd.join().unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("@@RESULT ") {
            if let Ok(v) = serde_json::from_str::<Value>(r) {
                return v;
            }
        }
    }
    json!({"property": h.prop, "harness": h.name, "errors": [if timed_out {"harness timed out"} else {"harness process died"}], "violations": [], "undecided": [], "unreproduced": []})
}
