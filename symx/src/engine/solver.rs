//! SMT solver processes (SMT-LIB2 over pipes) and the query portfolio.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(Vec<(String, f64, String)>),
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Proc {
    pub fn spawn(cmd: &str, args: &[String]) -> std::io::Result<Proc> {
        let mut child = Command::new(cmd)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()?;
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(stdout);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Ok(Proc { child, stdin, rx })
    }
    fn send(&mut self, s: &str) -> bool {
        self.stdin.write_all(s.as_bytes()).is_ok() && self.stdin.flush().is_ok()
    }
    /// Reads lines until the marker; None on timeout/EOF.
    fn read_until(&mut self, marker: &str, deadline: Instant) -> Option<Vec<String>> {
        let mut out = vec![];
        loop {
            let now = Instant::now();
            if now >= deadline {
                return None;
            }
            match self.rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    let t = l.trim().trim_matches('"').to_string();
                    if t == marker {
                        return Some(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(RecvTimeoutError::Disconnected) => return None,
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}

fn start(kind: Kind, ms: u64) -> Option<Proc> {
    let mem = "-memory:3000".to_string();
    match kind {
        Kind::Z3New => Proc::spawn("z3-new", &["-in".into(), mem]).ok(),
        Kind::Z3Old => Proc::spawn("z3", &["-in".into(), mem]).ok(),
        Kind::Cvc5 => Proc::spawn(
            "cvc5",
            &[
                "--lang=smt2".into(),
                "--produce-models".into(),
                "--nl-cov".into(),
                format!("--tlimit={}", ms),
                "-q".into(),
                "--incremental".into(),
            ],
        )
        .ok(),
    }
}

/// Runs one query on one process. The body declares everything and asserts; `names` are the
/// variables whose values are wanted on sat.
fn run_one(p: &mut Proc, kind: Kind, logic: &str, body: &str, names: &[String], ms: u64) -> (Answer, bool) {
    let mut s = String::new();
    if kind != Kind::Cvc5 {
        s.push_str("(reset)\n");
        s.push_str(&format!("(set-option :timeout {})\n", ms));
        s.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n");
    }
    s.push_str(&format!("(set-logic {})\n", logic));
    s.push_str(body);
    s.push_str("(check-sat)\n(echo \"@@A\")\n");
    let deadline = Instant::now() + Duration::from_millis(ms + 1500);
    if !p.send(&s) {
        return (Answer::Unknown("solver died".into()), false);
    }
    let Some(lines) = p.read_until("@@A", deadline) else {
        return (Answer::Unknown("timeout".into()), false);
    };
    let mut verdict = None;
    for l in &lines {
        let t = l.trim();
        if t.contains("(error") {
            return (Answer::Unknown(format!("error: {}", t)), false);
        }
        match t {
            "sat" => verdict = Some(true),
            "unsat" => verdict = Some(false),
            "unknown" | "timeout" => return (Answer::Unknown("unknown".into()), true),
            _ => {}
        }
    }
    match verdict {
        Some(false) => (Answer::Unsat, true),
        None => (Answer::Unknown("no verdict".into()), false),
        Some(true) => {
            if names.is_empty() {
                return (Answer::Sat(vec![]), true);
            }
            let q = format!("(get-value ({}))\n(echo \"@@B\")\n", names.join(" "));
            if !p.send(&q) {
                return (Answer::Unknown("solver died".into()), false);
            }
            let deadline = Instant::now() + Duration::from_millis(10000);
            let Some(lines) = p.read_until("@@B", deadline) else {
                return (Answer::Unknown("model timeout".into()), false);
            };
            let txt = lines.join("\n");
            match parse_values(&txt) {
                Some(v) => (Answer::Sat(v), true),
                None => (Answer::Unknown(format!("unparsed model: {}", &txt[..txt.len().min(200)])), false),
            }
        }
    }
}

pub struct Solver {
    main: Option<Proc>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub by: std::collections::BTreeMap<String, u64>,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            main: None,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            by: Default::default(),
            dump: std::env::var("SYMX_DUMP").ok(),
        }
    }

    pub fn query(&mut self, logic: &str, body: &str, names: &[String], fast_ms: u64, full_ms: u64) -> Answer {
        let t0 = Instant::now();
        self.queries += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(
                format!("{}/q{}.smt2", d, self.queries),
                format!("(set-logic {})\n{}(check-sat)\n", logic, body),
            );
        }
        let mut ans = Answer::Unknown("".into());
        if self.main.is_none() {
            self.main = start(Kind::Z3New, fast_ms);
        }
        if let Some(p) = self.main.as_mut() {
            let (a, ok) = run_one(p, Kind::Z3New, logic, body, names, fast_ms);
            if !ok {
                self.main = None;
            }
            ans = a;
            if !matches!(ans, Answer::Unknown(_)) {
                *self.by.entry("z3-new".into()).or_insert(0) += 1;
            }
        }
        if matches!(ans, Answer::Unknown(_)) && full_ms > fast_ms {
            // portfolio
            let (tx, rx) = channel();
            let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let kinds = [Kind::Z3New, Kind::Z3Old, Kind::Cvc5];
            for k in kinds {
                let tx = tx.clone();
                let (logic, body, names) = (logic.to_string(), body.to_string(), names.to_vec());
                let stop = stop.clone();
                std::thread::spawn(move || {
                    let Some(mut p) = start(k, full_ms) else {
                        let _ = tx.send((k, Answer::Unknown("no solver".into())));
                        return;
                    };
                    let pid = p.child.id();
                    let st2 = stop.clone();
                    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let d2 = done.clone();
                    std::thread::spawn(move || loop {
                        if d2.load(std::sync::atomic::Ordering::Relaxed) {
                            break;
                        }
                        if st2.load(std::sync::atomic::Ordering::Relaxed) {
                            let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(25));
                    });
                    let (a, _) = run_one(&mut p, k, &logic, &body, &names, full_ms);
                    done.store(true, std::sync::atomic::Ordering::Relaxed);
                    let _ = tx.send((k, a));
                });
            }
            drop(tx);
            for _ in 0..kinds.len() {
                match rx.recv_timeout(Duration::from_millis(full_ms + 15000)) {
                    Ok((k, a)) => {
                        if !matches!(a, Answer::Unknown(_)) {
                            *self.by.entry(format!("{:?}", k)).or_insert(0) += 1;
                            ans = a;
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        match &ans {
            Answer::Sat(_) => self.sat += 1,
            Answer::Unsat => self.unsat += 1,
            Answer::Unknown(_) => self.unknown += 1,
        }
        self.time += t0.elapsed().as_secs_f64();
        ans
    }
}

/// Parses `((x 1.0) (y (- (/ 1.0 3.0))))`.
fn parse_values(s: &str) -> Option<Vec<(String, f64, String)>> {
    let toks = tokenize(s);
    let mut pos = 0;
    let e = parse(&toks, &mut pos)?;
    let Sx::L(items) = e else { return None };
    let mut out = vec![];
    for it in items {
        let Sx::L(pair) = it else { return None };
        if pair.len() != 2 {
            return None;
        }
        let Sx::A(name) = &pair[0] else { return None };
        let v = value(&pair[1])?;
        out.push((name.clone(), v, render(&pair[1])));
    }
    Some(out)
}

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn render(s: &Sx) -> String {
    match s {
        Sx::A(a) => a.clone(),
        Sx::L(l) => format!("({})", l.iter().map(render).collect::<Vec<_>>().join(" ")),
    }
}
fn tokenize(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                out.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn parse(t: &[String], p: &mut usize) -> Option<Sx> {
    let x = t.get(*p)?;
    *p += 1;
    if x == "(" {
        let mut v = vec![];
        while t.get(*p)? != ")" {
            v.push(parse(t, p)?);
        }
        *p += 1;
        Some(Sx::L(v))
    } else {
        Some(Sx::A(x.clone()))
    }
}
fn value(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => a.trim_end_matches('?').parse::<f64>().ok(),
        Sx::L(l) => {
            if l.is_empty() {
                return None;
            }
            if let Sx::A(op) = &l[0] {
                match (op.as_str(), l.len()) {
                    ("-", 2) => Some(-value(&l[1])?),
                    ("/", 3) => Some(value(&l[1])? / value(&l[2])?),
                    ("+", _) => {
                        let mut a = 0.0;
                        for x in &l[1..] {
                            a += value(x)?;
                        }
                        Some(a)
                    }
                    ("*", _) => {
                        let mut a = 1.0;
                        for x in &l[1..] {
                            a *= value(x)?;
                        }
                        Some(a)
                    }
                    // cvc5: (_ real_algebraic_number <(poly), (lo, hi)>)
                    ("_", _) => {
                        let nums: Vec<f64> = render(s)
                            .split(|c: char| "(),<> ".contains(c))
                            .filter_map(|w| {
                                if let Some((a, b)) = w.split_once('/') {
                                    Some(a.parse::<f64>().ok()? / b.parse::<f64>().ok()?)
                                } else {
                                    w.parse::<f64>().ok()
                                }
                            })
                            .collect();
                        if nums.len() >= 2 {
                            Some((nums[nums.len() - 1] + nums[nums.len() - 2]) / 2.0)
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            } else {
                None
            }
        }
    }
}
