//! Executes one simulated run, replays and minimises recordings.
use crate::choices::*;
use crate::world::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/sim/src/")
}
/// location without line numbers and paths of this machine, message without numbers
fn panic_sig(loc: &str, msg: &str) -> String {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.strip_prefix("/repo/").unwrap_or_else(|| {
        file.find("/registry/src/").map(|i| &file[i + 14..]).unwrap_or_else(|| file.find("/library/").map(|i| &file[i + 1..]).unwrap_or(file))
    });
    let mut m = String::new();
    for c in msg.chars().take(90) {
        if c.is_ascii_digit() {
            if !m.ends_with('#') {
                m.push('#')
            }
        } else {
            m.push(c)
        }
    }
    format!("panic {}: {}", file, m)
}

pub enum Caught {
    /// the code under test panicked: (signature, message)
    Panic(String, String),
    Steps,
}
fn classify(p: Box<dyn Any + Send>) -> Caught {
    if p.downcast_ref::<StepLimit>().is_some() {
        return Caught::Steps;
    }
    let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
    if is_harness(&loc) {
        std::panic::resume_unwind(Box::new(format!("HARNESS {}: {}", loc, msg)));
    }
    Caught::Panic(panic_sig(&loc, &msg), format!("{} at {}", msg, loc))
}
/// Runs code under test that may panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    catch_unwind(AssertUnwindSafe(f)).map_err(classify)
}
/// Same, turning panics and exhausted step budgets into a violation message.
pub fn calls<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    guard(f).map_err(|c| match c {
        Caught::Panic(sig, msg) => format!("{}: {} ({})", sig, what, msg),
        Caught::Steps => format!("no-progress: {} exceeded its step budget", what),
    })
}

pub struct Outcome {
    pub sig: String,
    pub msg: Option<String>,
    pub harness: Option<String>,
    pub rec: Recording,
    pub hash: u64,
    pub clock: u64,
    pub steps: u64,
    pub polls: u64,
    pub perturbed: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub cover: BTreeMap<String, u64>,
    pub trace: Vec<String>,
}

pub fn sig_of(msg: &str) -> String {
    if msg.starts_with("panic ") {
        // "panic file: message: what (...)"
        let cut = msg.rfind(" (").unwrap_or(msg.len());
        let m = &msg[..cut];
        return m.rsplit_once(": ").map(|x| x.0).unwrap_or(m).to_string();
    }
    msg.split(": ").next().unwrap_or(msg).to_string()
}

pub fn execute(f: fn() -> R, ch: Choices, thorough: bool, trace: bool, index: u64) -> Outcome {
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let mut w = World::new(ch, thorough);
            w.trace_on = trace;
            w.index = index;
            W.with(|x| *x.borrow_mut() = Some(w));
            crate::hashseed::set(raw(SCHED));
            let r = catch_unwind(AssertUnwindSafe(|| calls("run", f)));
            crate::alloc::set_limit(usize::MAX);
            let w = W.with(|x| x.borrow_mut().take()).unwrap();
            let (msg, harness) = match r {
                Ok(Ok(Ok(()))) => (None, None),
                Ok(Ok(Err(m))) => (Some(m), None),
                Ok(Err(m)) => (Some(m), None),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().unwrap_or_else(|| "harness panic".into());
                    (None, Some(m))
                }
            };
            let (msg, harness) = match msg {
                Some(m) if m.starts_with("HARNESS") => (None, Some(m)),
                m => (m, harness),
            };
            let mut tr: Vec<String> = w.notes.clone();
            tr.extend(w.trace.iter().map(describe));
            Outcome {
                sig: msg.as_deref().map(sig_of).unwrap_or_default(),
                msg,
                harness,
                hash: w.hash,
                clock: w.clock,
                steps: w.steps,
                polls: w.polls,
                perturbed: w.perturbed,
                faults: w.fault_counts,
                cover: w.cover,
                trace: tr,
                rec: w.ch.rec,
            }
        })
        .unwrap()
        .join()
        .unwrap()
}

pub fn seed_for(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD6E8FEB86659FD93)
}

/// Shrinks a failing recording while it keeps failing in the same way.
pub fn minimise(f: fn() -> R, first: &Outcome, thorough: bool, index: u64, budget: std::time::Duration) -> (Recording, u64) {
    let t0 = std::time::Instant::now();
    let mut best = first.rec.clone();
    let mut trials = 0;
    let sig = first.sig.clone();
    let mut attempt = |r: Recording, best: &mut Recording, trials: &mut u64| -> bool {
        *trials += 1;
        let o = execute(f, Choices::replay(r), thorough, false, index);
        if o.msg.is_some() && o.sig == sig && o.harness.is_none() {
            let size = |r: &Recording| (r.iter().map(|x| x.len()).sum::<usize>(), r.iter().flatten().map(|x| (64 - x.leading_zeros()) as usize).sum::<usize>());
            if size(&o.rec) < size(best) {
                *best = o.rec;
                return true;
            }
        }
        false
    };
    let out = |t0: &std::time::Instant, trials: u64| t0.elapsed() > budget || trials > 4000;
    let mut round = 0;
    loop {
        let before = best.clone();
        for s in [IO, SCHED, FAULT, DATA, PLAN] {
            // all of it
            if !best[s].is_empty() {
                let mut r = best.clone();
                r[s].clear();
                attempt(r, &mut best, &mut trials);
            }
            // chunks: delete, then zero
            let mut size = (best[s].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best[s].len() && !out(&t0, trials) {
                    let e = (i + size).min(best[s].len());
                    let mut r = best.clone();
                    r[s].drain(i..e);
                    if attempt(r, &mut best, &mut trials) {
                        continue;
                    }
                    if best[s][i..e.min(best[s].len())].iter().any(|x| *x != 0) {
                        let mut r = best.clone();
                        r[s][i..e].iter_mut().for_each(|x| *x = 0);
                        attempt(r, &mut best, &mut trials);
                    }
                    i += size;
                }
                if size == 1 || out(&t0, trials) {
                    break;
                }
                size /= 2;
            }
            // values
            let mut i = 0;
            while i < best[s].len() && best[s].len() < 400 && !out(&t0, trials) {
                let v = best[s][i];
                for c in [v / 2, v.saturating_sub(1)] {
                    if c < v {
                        let mut r = best.clone();
                        r[s][i] = c;
                        if attempt(r, &mut best, &mut trials) {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        round += 1;
        if best == before || out(&t0, trials) || round > 6 {
            break;
        }
    }
    (best, trials)
}
