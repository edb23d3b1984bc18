//! Case execution, parallel search, shrinking, crash reporting.

use crate::gen::{mix, Gen, Src};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
pub struct Ctx {
    /// record human-readable notes (samples, shrunk failures)
    pub verbose: bool,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    /// checks (operation executions compared with the oracle) in this case
    pub ops: u64,
    /// allocator slot of the worker thread
    pub slot: usize,
}

impl Ctx {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self, yes: bool) {
        if yes {
            self.nontrivial = true;
        }
    }
}

pub type CaseFn = fn(&mut Gen, &mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    /// exhaustive / grid part: tapes
    pub enums: fn(thorough: bool, out: &mut Vec<Vec<u64>>),
    /// random cases per profile run in the quick tier
    pub quick: u64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CUR_OP: Cell<&'static str> = const { Cell::new("") };
    static CUR_IDX: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Name of the operation being executed (for panic messages).
pub fn set_op(n: &'static str) {
    CUR_OP.with(|c| c.set(n));
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let tracking = crate::alloc::track(None);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        crate::alloc::track_raw(tracking);
    }));
}

pub fn install_hooks() {
    install_panic_hook();
    #[cfg(not(miri))]
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_RESETHAND | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

#[cfg(not(miri))]
extern "C" fn on_signal(sig: i32) {
    // async-signal-safe: format by hand, write, exit
    let mut buf = [0u8; 64];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for c in s {
            if n < buf.len() {
                buf[n] = *c;
                n += 1;
            }
        }
    };
    let num = |mut v: u64, put: &mut dyn FnMut(&[u8])| {
        let mut t = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        put(&t[i..]);
    };
    let idx = CUR_IDX.try_with(|c| c.get()).unwrap_or(u64::MAX);
    put(b"\nCRASH signal=");
    num(sig as u64, &mut put);
    put(b" index=");
    num(idx, &mut put);
    put(b"\n");
    unsafe {
        libc::write(2, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(99);
    }
}

/// A panic caught around a piece of code: its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(case: CaseFn, g: &mut Gen, ctx: &mut Ctx) -> Result<(), String> {
    set_op("");
    match catch(|| case(g, ctx)) {
        Ok(r) => r,
        Err(m) => {
            let op = CUR_OP.with(|c| c.get());
            Err(format!("unexpected panic in {}: {}", op, m))
        }
    }
}

pub struct Failure {
    pub index: u64,
    pub tape: Vec<u64>,
    pub message: String,
    pub notes: Vec<String>,
    pub shrink_runs: u64,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub enumerated: u64,
    pub ops: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

pub fn case_src(seed: u64, id: &str, salt: u64, index: u64) -> Src {
    let h = id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    Src::seeded(mix(&[seed, h, salt, index]))
}

fn hash_tape(t: &[u64]) -> u64 {
    mix(t)
}

pub fn make_gen(
    p: &Prop,
    enums: &[Vec<u64>],
    seed: u64,
    salt: u64,
    i: u64,
) -> Gen {
    if (i as usize) < enums.len() {
        Gen::replay(enums[i as usize].clone())
    } else {
        Gen::random(case_src(seed, p.id, salt, i))
    }
}

pub struct Opts {
    pub seed: u64,
    pub salt: u64,
    pub cases: u64,
    pub thorough: bool,
    pub threads: usize,
    pub enums: bool,
    pub known: HashSet<u64>,
}

/// First failure found, for the watchdog: (tape, message, case index).
static FOUND: Mutex<Option<(Vec<u64>, String, u64)>> = Mutex::new(None);

/// What each worker is doing: (milliseconds since start + 1, case index);
/// zero when idle.
static BUSY: [(AtomicU64, AtomicU64); crate::alloc::SLOTS] =
    [const { (AtomicU64::new(0), AtomicU64::new(0)) }; crate::alloc::SLOTS];
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// A single case takes milliseconds; one that runs this long does not end.
const HANG_MS: u64 = 90_000;

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// If a failure was found but joining the workers or shrinking does not end
/// (the code under test may loop on other inputs), report the failure as found.
#[cfg(not(miri))]
pub fn watchdog(id: &'static str, rule: &'static str, out: Option<String>) {
    std::thread::spawn(move || {
        let mut since: Option<Instant> = None;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = now_ms();
            for (t, i) in &BUSY {
                let t = t.load(Ordering::Relaxed);
                let idle = FOUND.lock().unwrap_or_else(|e| e.into_inner()).is_none();
                if t != 0 && now > t + HANG_MS && idle {
                    eprintln!("\nHANG index={}", i.load(Ordering::Relaxed));
                    unsafe { libc::_exit(98) }
                }
            }
            let f = FOUND.lock().unwrap_or_else(|e| e.into_inner());
            if f.is_some() && since.is_none() {
                since = Some(Instant::now());
            }
            if let (Some((tape, message, index)), Some(t)) = (f.as_ref(), since) {
                if t.elapsed().as_secs() < 60 {
                    continue;
                }
                let r = Report {
                    evaluations: 1,
                    failure: Some(Failure {
                        index: *index,
                        tape: tape.clone(),
                        message: format!("{} (not shrunk: another case did not end)", message),
                        notes: vec![],
                        shrink_runs: 0,
                    }),
                    ..Report::default()
                };
                let js = report_json_of(id, rule, &r);
                match &out {
                    Some(f) => {
                        let _ = std::fs::write(f, js);
                    }
                    None => println!("{}", js),
                }
                std::process::exit(1);
            }
        }
    });
}

pub fn search(p: &Prop, o: &Opts) -> (Report, HashSet<u64>) {
    let t0 = Instant::now();
    let mut enums = vec![];
    if o.enums {
        (p.enums)(o.thorough, &mut enums);
        // the slow giant cases go to different workers
        let slow = |t: &Vec<u64>| t.first() == Some(&crate::gen::GIANT);
        let giants: Vec<_> = enums.iter().filter(|t| slow(t)).cloned().collect();
        enums.retain(|t| !slow(t));
        for (k, t) in giants.into_iter().enumerate() {
            enums.insert((k * CHUNK as usize).min(enums.len()), t);
        }
    }
    let enums = &enums;
    let total = enums.len() as u64 + o.cases;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    let merged: Mutex<(Report, HashSet<u64>)> =
        Mutex::new((Report::default(), o.known.clone()));
    const CHUNK: u64 = 32;
    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (next, stop, fail, merged) = (&next, &stop, &fail, &merged);
            sc.spawn(move || {
                let mut ctx = Ctx { slot: t, ..Ctx::default() };
                let mut hashes = Vec::new();
                let mut evals = 0u64;
                'outer: loop {
                    let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                    if lo >= total {
                        break;
                    }
                    for i in lo..(lo + CHUNK).min(total) {
                        if stop.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        CUR_IDX.with(|c| c.set(i));
                        #[cfg(miri)]
                        eprintln!("CASE index={}", i);
                        let mut g = make_gen(p, enums, o.seed, o.salt, i);
                        ctx.nontrivial = false;
                        BUSY[t].1.store(i, Ordering::Relaxed);
                        BUSY[t].0.store(now_ms() + 1, Ordering::Relaxed);
                        let r = run_case(p.case, &mut g, &mut ctx);
                        BUSY[t].0.store(0, Ordering::Relaxed);
                        evals += 1;
                        if ctx.nontrivial && hashes.len() < 5_000_000 {
                            let u = g.used();
                            hashes.push(hash_tape(&g.tape[..u]));
                        }
                        if let Err(m) = r {
                            let mut f = fail.lock().unwrap();
                            let u = g.used();
                            if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                *f = Some((i, g.tape[..u].to_vec(), m));
                            }
                            let mut w = FOUND.lock().unwrap();
                            if w.is_none() {
                                *w = f.as_ref().map(|x| (x.1.clone(), x.2.clone(), x.0));
                            }
                            stop.store(true, Ordering::Relaxed);
                            break 'outer;
                        }
                    }
                }
                CUR_IDX.with(|c| c.set(u64::MAX));
                let mut m = merged.lock().unwrap();
                m.0.evaluations += evals;
                m.0.ops += ctx.ops;
                for (k, v) in ctx.labels {
                    *m.0.labels.entry(k).or_insert(0) += v;
                }
                // a cap bounds memory; above it the count is a lower bound
                if m.1.len() < 40_000_000 {
                    m.1.extend(hashes);
                }
            });
        }
    });
    let (mut rep, set) = merged.into_inner().unwrap();
    rep.enumerated = enums.len() as u64;
    rep.distinct_nontrivial = (set.len() - o.known.len()) as u64;
    // samples: a few non-trivial cases written out
    let mut tries = 0;
    let first = enums.len() as u64;
    while rep.samples.len() < 4 && tries < 400 {
        let i = first + tries * 7;
        tries += 1;
        if i >= total {
            break;
        }
        let mut g = make_gen(p, enums, o.seed, o.salt, i);
        let mut ctx = Ctx { verbose: true, slot: 0, ..Ctx::default() };
        if run_case(p.case, &mut g, &mut ctx).is_ok() && ctx.nontrivial {
            let mut s = ctx.notes.join("; ");
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            rep.samples.push(format!("case {}: {}", i, s));
        }
    }
    if let Some((index, tape, message)) = fail.into_inner().unwrap() {
        rep.failure = Some(shrink(p, index, tape, message));
    }
    rep.wall = t0.elapsed().as_secs_f64();
    (rep, set)
}

/// Shrink a failing tape.
pub fn shrink(p: &Prop, index: u64, tape: Vec<u64>, message: String) -> Failure {
    let t0 = Instant::now();
    let mut best = tape;
    let mut msg = message;
    let mut runs = 0u64;
    let attempt = |t: &Vec<u64>, runs: &mut u64| -> Option<(Vec<u64>, String)> {
        *runs += 1;
        let mut g = Gen::replay(t.clone());
        let mut ctx = Ctx { slot: 0, ..Ctx::default() };
        match run_case(p.case, &mut g, &mut ctx) {
            Err(m) => {
                let u = g.used();
                Some((t[..u.min(t.len())].to_vec(), m))
            }
            Ok(()) => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| {
        (a.len(), a.iter().map(|x| *x as u128).sum::<u128>())
            < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>())
    };
    let budget = |runs: u64| runs < 6000 && t0.elapsed().as_secs() < 15;
    // a failure that does not reproduce from its tape keeps its original form
    match attempt(&best, &mut runs) {
        Some((t, m)) => {
            best = t;
            msg = m;
        }
        None => {
            return Failure {
                index,
                tape: best,
                message: format!("{} (did not reproduce from its tape)", msg),
                notes: vec![],
                shrink_runs: runs,
            }
        }
    }
    let mut improved = true;
    while improved && budget(runs) {
        improved = false;
        let mut size = best.len() / 2;
        while size >= 1 && budget(runs) {
            let mut i = 0;
            while i + size <= best.len() && budget(runs) {
                let mut c = best.clone();
                c.drain(i..i + size);
                match attempt(&c, &mut runs) {
                    Some((t, m)) if better(&t, &best) => {
                        best = t;
                        msg = m;
                        improved = true;
                    }
                    _ => i += 1.max(size / 2),
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && budget(runs) {
            let v = best[i];
            let mut cands = vec![0, 1, v >> 32, v >> 8, v >> 1, v & 0xffff_ffff, v & v.wrapping_sub(1), v.wrapping_sub(1), v.wrapping_sub(64)];
            cands.retain(|c| *c < v);
            cands.dedup();
            let mut done = false;
            for c in cands {
                let mut t = best.clone();
                t[i] = c;
                if let Some((t, m)) = attempt(&t, &mut runs) {
                    if better(&t, &best) {
                        best = t;
                        msg = m;
                        improved = true;
                        done = true;
                        break;
                    }
                }
                if !budget(runs) {
                    break;
                }
            }
            if !done {
                i += 1;
            }
        }
    }
    let mut g = Gen::replay(best.clone());
    let mut ctx = Ctx { verbose: true, slot: 0, ..Ctx::default() };
    let _ = run_case(p.case, &mut g, &mut ctx);
    Failure { index, tape: best, message: msg, notes: ctx.notes, shrink_runs: runs }
}

// ---------------------------------------------------------------- JSON out

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report_json(p: &Prop, r: &Report) -> String {
    report_json_of(p.id, p.rule, r)
}

pub fn report_json_of(id: &str, rule: &str, r: &Report) -> String {
    let labels: Vec<String> =
        r.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = r.samples.iter().map(|s| jstr(s)).collect();
    let fail = match &r.failure {
        None => "null".to_string(),
        Some(f) => format!(
            "{{\"index\":{},\"tape\":[{}],\"message\":{},\"notes\":[{}],\"shrink_runs\":{}}}",
            f.index,
            f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            jstr(&f.message),
            f.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            f.shrink_runs
        ),
    };
    format!(
        "{{\"property\":{},\"rule\":{},\"evaluations\":{},\"enumerated\":{},\"ops\":{},\"distinct_nontrivial\":{},\"labels\":{{{}}},\"samples\":[{}],\"failure\":{},\"wall\":{:.3}}}",
        jstr(id), jstr(rule), r.evaluations, r.enumerated, r.ops,
        r.distinct_nontrivial, labels.join(","), samples.join(","), fail, r.wall
    )
}
