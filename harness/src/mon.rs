//! Cases, operation trace, verdicts, observation counters.
//!
//! A *case* is one deterministic execution, identified by (phase, index) under a
//! seed. Oracles call `report(tags, ..)`: if the property being checked is among
//! the tags the case ends in a violation, otherwise the mismatch is only counted
//! (it belongs to another property's check) and the caller carries on.
use crate::args::Args;
use crate::rng::{hash_str, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub type Tags = &'static [&'static str];

pub struct Violation {
    pub msg: String,
}
/// Payload of panics that the workload itself injects.
pub struct Injected;

static PROP: Mutex<String> = Mutex::new(String::new());
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<(String, u64)> = Mutex::new((String::new(), 0));

#[derive(Default)]
struct Tl {
    prop: String,
    trace: Vec<(&'static str, [u64; 3])>,
    notes: Vec<String>,
    ops: BTreeMap<&'static str, u64>,
    evals: u64,
    case0: u64,
    distinct: HashSet<u64>,
    foreign: BTreeMap<String, u64>,
    last_panic: String,
    tags: Tags,
    checks: u64,
}

thread_local! {
    static TL: RefCell<Tl> = RefCell::new(Tl::default());
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

const TRACE_CAP: usize = 4000;
const DISTINCT_CAP: usize = 100_000;

/// Begin an operation of the code under test. `tags`: the properties that an
/// unexpected panic, crash or non-termination of this operation violates.
pub fn op(name: &'static str, a: u64, b: u64, c: u64, tags: Tags) {
    PROGRESS.fetch_add(1, Relaxed);
    TL.with(|t| {
        let t = &mut *t.borrow_mut();
        if t.trace.len() < TRACE_CAP {
            t.trace.push((name, [a, b, c]));
        } else {
            let i = TRACE_CAP / 2 + (t.evals as usize % (TRACE_CAP / 2));
            t.trace[i] = (name, [a, b, c]);
        }
        *t.ops.entry(name).or_insert(0) += 1;
        t.tags = tags;
        t.evals += 1;
    });
}

/// Number of operations of this thread so far in the current case's process (a source of variety
/// that does not disturb the random stream).
pub fn ops_so_far() -> u64 {
    TL.with(|t| { let t = t.borrow(); t.evals - t.case0 })
}

/// Is this the property being checked?
pub fn checking(p: &str) -> bool {
    TL.with(|t| t.borrow().prop == p)
}

/// Forget the trace so far (a new sub-execution starts inside the case).
pub fn retrace() {
    TL.with(|t| {
        let t = &mut *t.borrow_mut();
        t.trace.clear();
        t.notes.clear();
    });
}

/// Free-form line for the replay file.
pub fn note(s: String) {
    TL.with(|t| t.borrow_mut().notes.push(s));
}

pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

/// Record an observed abstract state (for distinct-state counting).
pub fn state(h: u64) {
    TL.with(|t| {
        let t = &mut *t.borrow_mut();
        if t.distinct.len() < DISTINCT_CAP {
            t.distinct.insert(h);
        }
    })
}

pub fn h(parts: &[u64]) -> u64 {
    parts.iter().fold(0x1234_5678, |a, &b| mix(a ^ b.wrapping_mul(0x9E37_79B9)))
}

pub fn count(name: &'static str, n: u64) {
    TL.with(|t| *t.borrow_mut().ops.entry(name).or_insert(0) += n);
}

/// A mismatch. Ends the case if it concerns the property under check.
#[cold]
pub fn report(tags: &[&str], msg: String) {
    let mine = TL.with(|t| tags.contains(&t.borrow().prop.as_str()));
    if mine {
        panic_any(Violation { msg: format!("[{}] {}", tags.join(","), msg) });
    }
    TL.with(|t| *t.borrow_mut().foreign.entry(tags.join(",")).or_insert(0) += 1);
}

#[macro_export]
macro_rules! ck {
    ($tags:expr, $cond:expr, $($fmt:tt)+) => {{
        $crate::mon::checked();
        if !$cond { $crate::mon::report($tags, format!($($fmt)+)); false } else { true }
    }};
}

#[inline]
pub fn checked() {
    TL.with(|t| t.borrow_mut().checks += 1);
}

/// Run code that is expected to panic or may do so; no output, payload dropped.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p);
            }
            Err(if p.is::<Injected>() { "injected".into() } else { last_panic() })
        }
    }
}

pub fn last_panic() -> String {
    TL.with(|t| t.borrow().last_panic.clone())
}

pub struct Run {
    pub a: Args,
    pub dict: Vec<u64>,
    cases: u64,
    samples: Vec<String>,
    fd: Option<std::fs::File>,
    phases: BTreeMap<String, u64>,
    t0: std::time::Instant,
    capped: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Observations of a helper thread, to be merged into the main thread's.
pub struct Taken(Tl);
pub fn take_thread() -> Taken {
    Taken(TL.with(|t| std::mem::take(&mut *t.borrow_mut())))
}
pub fn merge_thread(o: Taken) {
    TL.with(|t| {
        let t = &mut *t.borrow_mut();
        let o = o.0;
        t.trace.extend(o.trace);
        t.notes.extend(o.notes);
        for (k, v) in o.ops {
            *t.ops.entry(k).or_insert(0) += v;
        }
        t.evals += o.evals;
        t.checks += o.checks;
        t.distinct.extend(o.distinct);
        for (k, v) in o.foreign {
            *t.foreign.entry(k).or_insert(0) += v;
        }
        t.tags = o.tags;
    })
}
pub fn set_last_panic(s: String) {
    TL.with(|t| t.borrow_mut().last_panic = s);
}

/// Set the property on a helper thread (the main thread is set by Run::new).
pub fn adopt_thread() {
    let p = PROP.lock().unwrap().clone();
    TL.with(|t| t.borrow_mut().prop = p);
}

impl Run {
    pub fn new(a: Args) -> Run {
        *PROP.lock().unwrap() = a.prop.clone();
        adopt_thread();
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else if info.payload().is::<Violation>() || info.payload().is::<Injected>() {
                return;
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = TL.try_with(|t| {
                if let Ok(mut t) = t.try_borrow_mut() {
                    t.last_panic = format!("panicked at {loc}: {msg}");
                }
            });
        }));
        let dict = if a.mode == "miri" { default_dict() } else { source_dict(&a.repo) };
        let fd = a.out.as_ref().filter(|_| a.mode != "miri").map(|o| std::fs::File::create(format!("{o}.cur")).unwrap());
        if a.mode != "miri" {
            watchdog(a.clone());
        }
        Run { a, dict, cases: 0, samples: vec![], fd, phases: BTreeMap::new(), t0: std::time::Instant::now(), capped: false }
    }

    pub fn is(&self, p: &str) -> bool {
        self.a.prop == p
    }
    pub fn any(&self, ps: &[&str]) -> bool {
        ps.contains(&self.a.prop.as_str())
    }
    pub fn miri(&self) -> bool {
        self.a.mode == "miri"
    }
    /// Scale a quick-tier count by tier and by the --scale percentage.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let b = if self.a.thorough { thorough } else { quick };
        (b * self.a.scale / 100).max(1)
    }

    /// Run case `idx` of `phase` if it belongs to this shard.
    pub fn case(&mut self, phase: &str, idx: u64, f: impl FnOnce(&mut Rng)) {
        if let Some((p, c)) = &self.a.only {
            if p != phase || *c != idx {
                return;
            }
        } else if idx % self.a.shards != self.a.shard {
            return;
        }
        // Generous wall-clock cap on the whole shard: stops early, never a verdict.
        if self.cases % 64 == 0 && !self.miri() {
            let cap = if self.a.thorough { 2400 } else { 240 };
            if self.t0.elapsed().as_secs() > cap {
                self.capped = true;
            }
        }
        if self.capped {
            return;
        }
        if let Some(fd) = &self.fd {
            use std::os::unix::fs::FileExt;
            let mut line = [b' '; 80];
            let s = format!("{phase}:{idx}");
            let n = s.len().min(79);
            line[..n].copy_from_slice(&s.as_bytes()[..n]);
            line[79] = b'\n';
            let _ = fd.write_at(&line, 0);
        } else if self.miri() {
            eprintln!("@case {phase}:{idx}");
        }
        if let Ok(mut c) = CURRENT.try_lock() {
            if c.0 != phase {
                c.0 = phase.to_string();
            }
            c.1 = idx;
        }
        let mut rng = Rng::new(mix(self.a.seed) ^ mix(hash_str(phase)) ^ mix(idx.wrapping_mul(0x5851_F42D)));
        TL.with(|t| {
            let t = &mut *t.borrow_mut();
            t.trace.clear();
            t.notes.clear();
            t.tags = &[];
            t.last_panic.clear();
        });
        crate::elem::ledger_reset();
        crate::keys::reset();
        let evals0 = TL.with(|t| {
            let t = &mut *t.borrow_mut();
            t.case0 = t.evals;
            t.evals
        });
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
        self.cases += 1;
        *self.phases.entry(phase.to_string()).or_insert(0) += 1;
        let n_ops = TL.with(|t| t.borrow().evals) - evals0;
        if let Err(p) = r {
            if let Some(v) = p.downcast_ref::<Violation>() {
                self.violation(phase, idx, &v.msg.clone());
            }
            let (mine, tags, lp) = TL.with(|t| {
                let t = t.borrow();
                (t.tags.contains(&t.prop.as_str()), t.tags.join(","), t.last_panic.clone())
            });
            if p.is::<Injected>() {
                eprintln!("stray injected panic in {phase}:{idx}");
                std::process::exit(3);
            }
            // A panic raised by the harness itself is an error of the check, not a verdict;
            // library code (and std code it calls with bad arguments) is the code under test.
            if lp.contains("harness/src/") || lp.starts_with("panicked at src/") {
                eprintln!("HARNESS ERROR in {phase}:{idx}: {lp}");
                self.finish_error(&lp);
            }
            if mine {
                self.violation(phase, idx, &format!("[{tags}] unexpected panic in an operation: {lp}"));
            }
            TL.with(|t| *t.borrow_mut().foreign.entry(format!("panic {tags}")).or_insert(0) += 1);
        } else if self.samples.len() < 3 && n_ops > 0 && (self.samples.is_empty() || idx % 7 == 3) {
            let tr = trace_text(24);
            self.samples.push(format!("{phase}:{idx} {tr}"));
        }
    }

    fn finish_error(&self, m: &str) -> ! {
        if let Some(o) = &self.a.out {
            let _ = std::fs::write(format!("{o}.json"), format!("{{\"status\":\"error\",\"message\":\"{}\"}}", esc(m)));
        }
        std::process::exit(3)
    }

    fn violation(&self, phase: &str, idx: u64, msg: &str) -> ! {
        write_violation(&self.a, phase, idx, msg, &trace_text(usize::MAX));
        std::process::exit(1)
    }

    pub fn finish(&self) -> ! {
        let (ops, evals, distinct, foreign, checks) = TL.with(|t| {
            let t = t.borrow();
            (t.ops.clone(), t.evals, t.distinct.clone(), t.foreign.clone(), t.checks)
        });
        let j = |m: Vec<(String, u64)>| {
            m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",")
        };
        let s = format!(
            "{{\"status\":\"ok\",\"cases\":{},\"evals\":{},\"checks\":{},\"distinct\":{},\"capped\":{},\"ops\":{{{}}},\"foreign\":{{{}}},\"phases\":{{{}}},\"samples\":[{}]}}",
            self.cases, evals, checks, distinct.len(), self.capped,
            j(ops.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
            j(foreign.iter().map(|(k, v)| (k.clone(), *v)).collect()),
            j(self.phases.iter().map(|(k, v)| (k.clone(), *v)).collect()),
            self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
        );
        match &self.a.out {
            Some(o) if !self.miri() => {
                std::fs::write(format!("{o}.json"), s).unwrap();
                let b: Vec<u8> = distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
                std::fs::write(format!("{o}.states"), b).unwrap();
            }
            _ => println!("@result {s}"),
        }
        std::process::exit(0)
    }
}

fn trace_text(limit: usize) -> String {
    TL.with(|t| {
        let t = t.borrow();
        let mut v: Vec<String> = t.notes.clone();
        let skip = t.trace.len().saturating_sub(limit);
        if skip > 0 {
            v.push(format!("... {skip} earlier ops"));
        }
        v.extend(t.trace[skip..].iter().map(|(n, a)| {
            let mut k = 3;
            while k > 0 && a[k - 1] == 0 {
                k -= 1;
            }
            format!("{n}({})", a[..k].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        }));
        v.join("; ")
    })
}

fn write_violation(a: &Args, phase: &str, idx: u64, msg: &str, trace: &str) {
    let s = format!(
        "{{\"status\":\"violation\",\"property\":\"{}\",\"seed\":{},\"phase\":\"{}\",\"case\":{},\"message\":\"{}\",\"trace\":\"{}\"}}",
        a.prop, a.seed, esc(phase), idx, esc(msg), esc(trace)
    );
    match &a.out {
        Some(o) if a.mode != "miri" => std::fs::write(format!("{o}.json"), s).unwrap(),
        _ => println!("@result {s}"),
    }
}

/// An operation that burns CPU without end is a violation (of bounded progress:
/// every operation here is microseconds to at most a second of work). Measured in
/// CPU seconds of this process with no operation completing, so machine load
/// cannot trigger it.
fn watchdog(a: Args) {
    std::thread::spawn(move || {
        let cpu = || -> Option<u64> {
            let s = std::fs::read_to_string("/proc/self/stat").ok()?;
            let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
            Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?) / 100)
        };
        let (mut last, mut at) = (PROGRESS.load(Relaxed), cpu().unwrap_or(0));
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Relaxed);
            let now = cpu().unwrap_or(0);
            if p != last {
                last = p;
                at = now;
            } else if now.saturating_sub(at) > 60 {
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                let msg = "operation did not finish within 60 CPU seconds".to_string();
                write_violation(&a, &c.0, c.1, &msg, "");
                std::process::exit(1);
            }
        }
    });
}

fn default_dict() -> Vec<u64> {
    let mut d: Vec<u64> = (0..10).collect();
    for k in [4u32, 7, 8, 15, 16, 31, 32, 63] {
        let b = 1u64 << k;
        d.extend([b - 1, b, b + 1]);
    }
    d.extend([10, 12, 100, 1000, 10_000, 100_000, u64::MAX, u64::MAX - 1]);
    d
}

/// Workload dictionary: integer literals that occur in the sources (as fuzzers do),
/// plus usual boundary values. Guides inputs only, never verdicts.
fn source_dict(repo: &str) -> Vec<u64> {
    let mut d = default_dict();
    let mut stack = vec![std::path::PathBuf::from(format!("{repo}/src"))];
    while let Some(p) = stack.pop() {
        if let Ok(rd) = std::fs::read_dir(&p) {
            for e in rd.flatten() {
                stack.push(e.path());
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            let s = std::fs::read_to_string(&p).unwrap_or_default();
            // ignore comments and the inline test module
            let s = s.split("#[cfg(test)]").next().unwrap_or("").to_string();
            let mut code = String::new();
            let mut in_doc = false;
            for l in s.lines() {
                if l.contains("/*") {
                    in_doc = true;
                }
                if !in_doc && !l.trim_start().starts_with("//") {
                    code.push_str(l);
                    code.push('\n');
                }
                if l.contains("*/") {
                    in_doc = false;
                }
            }
            // constants written as shifts or products: 1 << 12, 4 * 1024
            let num = |w: &str| w.trim_matches(|c: char| !c.is_ascii_digit()).replace('_', "").parse::<u64>().ok();
            let words: Vec<&str> = code.split_whitespace().collect();
            for w in words.windows(3) {
                if let (Some(a), Some(b)) = (num(w[0]), num(w[2])) {
                    let v = match w[1] {
                        "<<" if b < 64 => a.wrapping_shl(b as u32),
                        "*" => a.wrapping_mul(b),
                        _ => continue,
                    };
                    d.extend([v, v.wrapping_add(1), v.wrapping_sub(1)]);
                }
            }
            for w in code.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                if !w.starts_with(|c: char| c.is_ascii_digit()) {
                    continue;
                }
                let w = w.replace('_', "");
                let (radix, rest) = if let Some(x) = w.strip_prefix("0x") {
                    (16, x.to_string())
                } else if let Some(x) = w.strip_prefix("0b") {
                    (2, x.to_string())
                } else {
                    (10, w.clone())
                };
                let digits: String = rest.chars().take_while(|c| c.is_digit(radix)).collect();
                if let Ok(v) = u64::from_str_radix(&digits, radix) {
                    d.extend([v, v.wrapping_add(1), v.wrapping_sub(1)]);
                }
            }
        }
    }
    d.sort();
    d.dedup();
    d
}
