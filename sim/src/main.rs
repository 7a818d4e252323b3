//! Deterministic simulation of parquet2: driver.
//!   sim check PROP         run the check (VERIF_SEED, VERIF_TIER)
//!   sim replay FILE        reproduce a recorded violation
//!   sim one PROP INDEX     run one index of a check, printing its trace
//!   sim worker ...         internal
#[macro_use]
mod world;
mod alloc;
mod bloom;
mod choices;
mod codec;
mod decode;
mod exec;
mod foreign;
mod hashseed;
mod json;
mod lie;
mod model;
mod ops;
mod oracle;
mod props;
mod run;

use choices::*;
use json::{s, J};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

const WORKERS: u64 = 8;
/// Runs with this remainder execute in the build of the crate with lz4_flex instead of lz4.
const FLEX: u64 = 7;
const HANG: Duration = Duration::from_secs(40);

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    sig: String,
    text: String,
}
fn known(prop: &str) -> Vec<Known> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != prop {
                return None;
            }
            let (sig, text) = rest.strip_prefix("sig=\"")?.split_once('"')?;
            Some(Known { sig: sig.to_string(), text: text.trim().to_string() })
        })
        .collect()
}

fn rec_json(r: &Recording) -> J {
    J::O(r.iter().enumerate().map(|(i, v)| (NAMES[i].to_string(), J::A(v.iter().map(|x| J::U(*x)).collect()))).collect())
}
fn rec_parse(j: &J) -> Recording {
    let mut r: Recording = Default::default();
    for i in 0..NS {
        if let Some(a) = j.get(NAMES[i]) {
            r[i] = a.arr().iter().map(|x| x.u()).collect();
        }
    }
    r
}
fn case_hash(r: &Recording) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for v in r {
        for x in v {
            h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        h = (h ^ 0x55).wrapping_mul(0x100000001b3);
    }
    h
}
fn counts_json(m: &BTreeMap<String, u64>) -> J {
    J::O(m.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())
}

fn replay_json(prop: &str, seed: u64, index: u64, thorough: bool, o: &run::Outcome, trials: u64, orig: usize) -> J {
    J::O(vec![
        ("property".into(), s(prop)),
        ("kind".into(), s("choices")),
        ("seed".into(), J::U(seed)),
        ("index".into(), J::U(index)),
        ("build".into(), s(variant(index))),
        ("thorough".into(), J::B(thorough)),
        ("signature".into(), s(&o.sig)),
        ("message".into(), s(o.msg.clone().unwrap_or_default())),
        ("trace_hash".into(), s(format!("{:016x}", o.hash))),
        ("minimisation_trials".into(), J::U(trials)),
        ("choices_before_minimisation".into(), J::U(orig as u64)),
        ("choices".into(), rec_json(&o.rec)),
        ("trace".into(), J::A(o.trace.iter().map(s).collect())),
    ])
}

fn worker(a: &[String]) -> i32 {
    let (prop, seed, thorough, w, n) = (&a[0], a[1].parse::<u64>().unwrap(), a[2] == "thorough", a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let dir = PathBuf::from(&a[5]);
    let count: u64 = a[6].parse().unwrap();
    let cap = Duration::from_millis(a[7].parse().unwrap());
    let first: u64 = a[8].parse().unwrap();
    let p = props::get(prop).expect("unknown property");
    let known = known(prop);
    run::install_hook();
    let t0 = Instant::now();
    let progress = fs::File::create(dir.join(format!("progress.{}", w))).unwrap();
    let mut runs = 0u64;
    let mut rechecks = 0u64;
    let mut clock = 0u64;
    let mut steps = 0u64;
    let mut polls = 0u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut cases: HashSet<u64> = HashSet::new();
    let mut findings: BTreeMap<String, (String, u64)> = BTreeMap::new();
    let mut violations: Vec<J> = vec![];
    let mut harness: Option<String> = None;
    let mut samples: Vec<J> = vec![];
    let mut i = first;
    while i < count && t0.elapsed() < cap {
        use std::os::unix::fs::FileExt;
        progress.write_at(format!("{:020}", i).as_bytes(), 0).unwrap();
        let ch = || Choices::gen(run::seed_for(prop, seed, i));
        let o = run::execute(p.run, ch(), thorough, false, i);
        runs += 1;
        if let Some(h) = &o.harness {
            harness = Some(format!("run {}: {}", i, h));
            break;
        }
        // the same seed must give the same execution
        if (i / n) % 64 == 0 {
            let o2 = run::execute(p.run, ch(), thorough, false, i);
            rechecks += 1;
            if o2.hash != o.hash || o2.rec != o.rec || o2.msg != o.msg {
                harness = Some(format!("run {} is not deterministic: {:?} / {:?}", i, o.msg, o2.msg));
                break;
            }
        }
        clock += o.clock;
        steps += o.steps;
        polls += o.polls;
        for (k, v) in &o.faults {
            *faults.entry(k.to_string()).or_default() += v;
        }
        for (k, v) in &o.cover {
            *cover.entry(k.clone()).or_default() += v;
        }
        traces.insert(o.hash);
        if o.perturbed > 0 {
            cases.insert(case_hash(&o.rec));
        }
        if samples.len() < 2 && (o.perturbed > 0 || !o.rec[PLAN].is_empty()) && i % 5 == w % 5 {
            let so = run::execute(p.run, ch(), thorough, true, i);
            samples.push(J::O(vec![
                ("run".into(), J::U(i)),
                ("trace_hash".into(), s(format!("{:016x}", so.hash))),
                ("steps".into(), J::U(so.steps)),
                ("events".into(), J::A(so.trace.iter().take(40).map(s).collect())),
            ]));
        }
        if let Some(m) = &o.msg {
            if let Some(k) = known.iter().find(|k| o.sig == k.sig) {
                let e = findings.entry(k.sig.clone()).or_insert((k.text.clone(), 0));
                e.1 += 1;
            } else {
                eprintln!("worker {} run {}: {}", w, i, m);
                let orig = o.rec.iter().map(|x| x.len()).sum::<usize>();
                let budget = Duration::from_secs(if thorough { 60 } else { 20 });
                let (best, trials) = run::minimise(p.run, &o, thorough, i, budget);
                let mut fin = run::execute(p.run, Choices::replay(best), thorough, true, i);
                if fin.sig != o.sig {
                    fin = run::execute(p.run, Choices::replay(o.rec.clone()), thorough, true, i);
                }
                violations.push(replay_json(prop, seed, i, thorough, &fin, trials, orig));
                break;
            }
        }
        i += n;
    }
    let out = J::O(vec![
        ("runs".into(), J::U(runs)),
        ("rechecks".into(), J::U(rechecks)),
        ("clock".into(), J::U(clock)),
        ("steps".into(), J::U(steps)),
        ("polls".into(), J::U(polls)),
        ("faults".into(), counts_json(&faults)),
        ("cover".into(), counts_json(&cover)),
        ("traces".into(), J::A(traces.into_iter().map(J::U).collect())),
        ("cases".into(), J::A(cases.into_iter().map(J::U).collect())),
        ("findings".into(), J::O(findings.into_iter().map(|(k, (t, n))| (k, J::A(vec![s(t), J::U(n)]))).collect())),
        ("violations".into(), J::A(violations)),
        ("samples".into(), J::A(samples)),
        ("harness".into(), harness.map(s).unwrap_or(J::Null)),
    ]);
    fs::write(dir.join(format!("result.{}", w)), out.dump()).unwrap();
    0
}

/// The binary that holds the build of the crate that run `idx` simulates.
fn exe(idx: u64) -> PathBuf {
    let dir = if idx % WORKERS == FLEX { "target-flex" } else { "target" };
    root().join("sim").join(dir).join("release").join("sim")
}
fn variant(idx: u64) -> &'static str {
    if idx % WORKERS == FLEX {
        "lz4_flex"
    } else {
        "lz4"
    }
}
/// Continues in the other binary when run `idx` belongs to it.
fn switch(idx: u64) {
    if (idx % WORKERS == FLEX) != cfg!(feature = "flex") {
        use std::os::unix::process::CommandExt;
        let e = Command::new(exe(idx)).args(std::env::args().skip(1)).exec();
        eprintln!("{}: {}", exe(idx).display(), e);
        std::process::exit(3);
    }
}

fn spawn(idx: u64, args: &[String]) -> Child {
    Command::new(exe(idx)).args(args).stdin(Stdio::null()).spawn().unwrap()
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let p = match props::get(prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop);
            return 3;
        }
    };
    let secs = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let cap = Duration::from_secs(if thorough { secs("SIM_SECONDS", 600) } else { secs("SIM_SECONDS", 90) });
    let count: u64 = if thorough { u64::MAX / 2 } else { secs("SIM_RUNS", p.runs) };
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let args = |w: u64, first: u64, cap: Duration| -> Vec<String> {
        ["worker".into(), prop.to_string(), seed.to_string(), tier.into(), w.to_string(), WORKERS.to_string(), dir.display().to_string(), count.to_string(), cap.as_millis().to_string(), first.to_string()].to_vec()
    };
    let mut results: Vec<J> = vec![];
    let mut dead: Vec<J> = vec![];
    let mut kids: Vec<(u64, Child, String, Instant)> = (0..WORKERS).map(|w| (w, spawn(w, &args(w, w, cap)), String::new(), Instant::now())).collect();
    let prog = |w: u64| fs::read_to_string(dir.join(format!("progress.{}", w))).unwrap_or_default();
    let known = known(prop);
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut next = vec![];
        for (w, mut c, mut at, mut since) in kids {
            match c.try_wait().unwrap() {
                Some(st) => {
                    let f = dir.join(format!("result.{}", w));
                    if st.success() {
                        let t = fs::read_to_string(&f).unwrap();
                        results.push(J::parse(&t).unwrap());
                    } else {
                        let idx: u64 = prog(w).trim_start_matches('0').parse().unwrap_or(0);
                        let sig = match st.signal() {
                            Some(n) => format!("crash signal {}", n),
                            None => format!("worker exit {:?}", st.code()),
                        };
                        if let Some(J::O(v)) = crash_replay(prop, seed, idx, thorough, &sig, false) {
                            dead.push(J::O(v));
                        }
                    }
                }
                None => {
                    let now = prog(w);
                    if now != at {
                        at = now;
                        since = Instant::now();
                    }
                    // minimisation has its own time limit; a run that does not end is a violation
                    if since.elapsed() > HANG + Duration::from_secs(if thorough { 60 } else { 20 }) {
                        let _ = c.kill();
                        let _ = c.wait();
                        let idx: u64 = at.trim_start_matches('0').parse().unwrap_or(0);
                        if let Some(v) = crash_replay(prop, seed, idx, thorough, "hang", true) {
                            dead.push(v);
                        }
                    } else {
                        next.push((w, c, at, since));
                    }
                }
            }
        }
        kids = next;
    }
    let _ = fs::remove_dir_all(&dir);
    // merge
    let sum = |k: &str| results.iter().map(|r| r.get(k).unwrap().u()).sum::<u64>();
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for r in &results {
            if let Some(J::O(v)) = r.get(k) {
                for (a, b) in v {
                    *m.entry(a.clone()).or_default() += b.u();
                }
            }
        }
        m
    };
    let set = |k: &str| {
        let mut m: BTreeSet<u64> = BTreeSet::new();
        for r in &results {
            m.extend(r.get(k).unwrap().arr().iter().map(|x| x.u()));
        }
        m.len() as u64
    };
    if let Some(h) = results.iter().find_map(|r| match r.get("harness") {
        Some(J::S(h)) => Some(h.clone()),
        _ => None,
    }) {
        println!("HARNESS ERROR property={} {}", prop, h);
        return 3;
    }
    let mut violations: Vec<J> = dead;
    for r in &results {
        violations.extend(r.get("violations").unwrap().arr().iter().cloned());
    }
    let mut finds: BTreeMap<String, (String, u64)> = BTreeMap::new();
    for r in &results {
        if let Some(J::O(v)) = r.get("findings") {
            for (k, x) in v {
                let e = finds.entry(k.clone()).or_insert((x.arr()[0].str().to_string(), 0));
                e.1 += x.arr()[1].u();
            }
        }
    }
    // crashes can be known findings too
    violations.retain(|v| {
        let sig = v.get("signature").unwrap().str();
        match known.iter().find(|k| k.sig == sig) {
            Some(k) => {
                finds.entry(k.sig.clone()).or_insert((k.text.clone(), 0)).1 += 1;
                false
            }
            None => true,
        }
    });
    for k in &known {
        println!("KNOWN-FINDING: property={} {}{}", prop, k.text, finds.get(&k.sig).map(|x| format!(" (seen in {} runs)", x.1)).unwrap_or_default());
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = sum("runs");
    let faults = merge("faults");
    let fault_total: u64 = faults.values().sum();
    let samples: Vec<J> = results.iter().flat_map(|r| r.get("samples").unwrap().arr().to_vec()).take(4).collect();
    let cov = J::O(vec![
        ("evaluations".into(), J::U(runs)),
        ("distinct_nontrivial".into(), J::U(set("cases"))),
        ("rule".into(), s(format!("one evaluation = one simulated run of the scenario of {}, everything in it drawn from (seed, run index); non-trivial = at least one injected fault, short transfer, delayed readiness, cancelled or spurious poll, crash, damage or hostile buffer took effect; distinct = different complete choice recordings. {}", prop, p.rule))),
        ("samples".into(), J::A(samples)),
        ("distinct_traces".into(), J::U(set("traces"))),
        ("distinct_traces_measure".into(), s("64-bit hash over the ordered sequence of device operations, polls, scheduling decisions, faults and damage of the run")),
        ("runs_per_hour".into(), J::U((runs as f64 / wall.max(0.001) * 3600.0) as u64)),
        ("seeds".into(), s(format!("VERIF_SEED={} x run indices 0..{}", seed, runs))),
        ("simulated_time_s".into(), J::F(sum("clock") as f64 / 1e9)),
        ("device_operations".into(), J::U(sum("steps"))),
        ("task_polls".into(), J::U(sum("polls"))),
        ("faults_injected_total".into(), J::U(fault_total)),
        ("faults_injected".into(), counts_json(&faults)),
        ("covered".into(), counts_json(&merge("cover"))),
        ("determinism_rechecks".into(), J::U(sum("rechecks"))),
        ("known_findings_seen".into(), J::O(finds.iter().map(|(k, v)| (k.clone(), J::U(v.1))).collect())),
        ("real_code".into(), s("all of parquet2 built from /repo's working tree, parquet-format-safe (thrift), the compression crates, streaming-decompression, async-stream, futures combinators")),
        ("stubs".into(), s("files, sinks and sources (in-memory simulated devices), executor and wakers, clock and timers, page producers, getrandom (hash seeds), allocator limits where used")),
    ]);
    let ev = J::O(vec![
        ("property".into(), s(prop)),
        ("tier".into(), s(tier)),
        ("seed".into(), J::U(seed)),
        ("level".into(), s(p.level)),
        ("coverage".into(), cov),
        ("assumptions".into(), J::A(p.assumptions.iter().map(|x| s(*x)).collect())),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::U(violations.len() as u64)),
    ]);
    fs::create_dir_all(root().join("evidence")).unwrap();
    fs::write(root().join("evidence").join(format!("{}.json", prop)), ev.dump()).unwrap();
    println!("{} {}: {} runs, {} distinct non-trivial, {} faults, {:.1} s", prop, tier, runs, set("cases"), fault_total, wall);
    if violations.is_empty() {
        return if runs == 0 { 3 } else { 0 };
    }
    fs::create_dir_all(root().join("replays")).unwrap();
    let mut seen = BTreeSet::new();
    for v in &violations {
        let sig = v.get("signature").unwrap().str().to_string();
        if !seen.insert(sig.clone()) {
            continue;
        }
        let path = root().join("replays").join(format!("{}-{}-{}.json", prop, seed, v.get("index").unwrap().u()));
        fs::write(&path, v.dump()).unwrap();
        println!("VIOLATION property={} replay={}", prop, path.display());
        println!("  {}", v.get("message").unwrap().str());
    }
    1
}

/// Re-runs one index in a process of its own; returns the replay record if it dies again.
fn crash_replay(prop: &str, seed: u64, idx: u64, thorough: bool, sig: &str, hang: bool) -> Option<J> {
    let rec = J::O(vec![
        ("property".into(), s(prop)),
        ("kind".into(), s("seed")),
        ("seed".into(), J::U(seed)),
        ("index".into(), J::U(idx)),
        ("build".into(), s(variant(idx))),
        ("thorough".into(), J::B(thorough)),
        ("signature".into(), s(sig)),
        ("message".into(), s(format!("{}: the process running simulation {} of seed {} {}", sig, idx, seed, if hang { "did not finish" } else { "was killed" }))),
    ]);
    Some(rec)
}

fn run_seed_in_child(prop: &str, seed: u64, idx: u64, thorough: bool) -> String {
    let mut c = spawn(idx, &["seedrun".into(), prop.into(), seed.to_string(), idx.to_string(), if thorough { "thorough".into() } else { "quick".into() }]);
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return match st.signal() {
                Some(n) => format!("crash signal {}", n),
                None => format!("exit {:?}", st.code()),
            };
        }
        if t.elapsed() > HANG {
            let _ = c.kill();
            let _ = c.wait();
            return "hang".into();
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn replay(file: &Path) -> i32 {
    let j = J::parse(&fs::read_to_string(file).expect("replay file")).expect("replay file");
    let prop = j.get("property").unwrap().str().to_string();
    let thorough = matches!(j.get("thorough"), Some(J::B(true)));
    let idx = j.get("index").unwrap().u();
    let sig = j.get("signature").unwrap().str().to_string();
    if j.get("kind").unwrap().str() == "seed" {
        let got = run_seed_in_child(&prop, j.get("seed").unwrap().u(), idx, thorough);
        println!("recorded: {}\nreplayed: {}", sig, got);
        if got == sig {
            println!("VIOLATION property={} replay={}", prop, file.display());
            return 1;
        }
        return 0;
    }
    switch(idx);
    run::install_hook();
    let p = props::get(&prop).expect("property");
    let o = run::execute(p.run, Choices::replay(rec_parse(j.get("choices").unwrap())), thorough, true, idx);
    for l in &o.trace {
        println!("{}", l);
    }
    if let Some(h) = o.harness {
        println!("HARNESS ERROR {}", h);
        return 3;
    }
    match o.msg {
        None => {
            println!("not reproduced: the property holds on this schedule");
            0
        }
        Some(m) => {
            println!("{}", m);
            let same = o.sig == sig && format!("{:016x}", o.hash) == j.get("trace_hash").unwrap().str();
            println!("{}", if same { "reproduced exactly (same signature, same trace hash)" } else { "reproduced, but not the recorded trace" });
            println!("VIOLATION property={} replay={}", prop, file.display());
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|x| x.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => worker(&a[1..]),
        Some("replay") => replay(Path::new(&a[1])),
        Some("seedrun") => {
            run::install_hook();
            let p = props::get(&a[1]).unwrap();
            let idx = a[3].parse().unwrap();
            let o = run::execute(p.run, Choices::gen(run::seed_for(&a[1], a[2].parse().unwrap(), idx)), a[4] == "thorough", false, idx);
            o.msg.is_some() as i32
        }
        Some("one") => {
            switch(a[2].parse().unwrap());
            run::install_hook();
            let p = props::get(&a[1]).expect("property");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let idx = a[2].parse().unwrap();
            let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
            let o = run::execute(p.run, Choices::gen(run::seed_for(&a[1], seed, idx)), thorough, true, idx);
            for l in &o.trace {
                println!("{}", l);
            }
            println!("{:?} {:?} faults {:?} cover {:?}", o.msg, o.harness, o.faults, o.cover);
            o.msg.is_some() as i32
        }
        // hash PROP FROM TO: what identifies each of these runs of this build, in the given order
        Some("hash") => {
            run::install_hook();
            let p = props::get(&a[1]).expect("property");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let (from, to): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let idx: Vec<u64> = if from <= to { (from..to).collect() } else { (to..from).rev().collect() };
            for i in idx {
                if (i % WORKERS == FLEX) != cfg!(feature = "flex") {
                    continue;
                }
                let o = run::execute(p.run, Choices::gen(run::seed_for(&a[1], seed, i)), false, false, i);
                println!("{} {:016x} {} {} {} {:?} {:?} {:?}", i, o.hash, o.clock, o.steps, o.polls, o.faults, o.cover, o.msg);
            }
            0
        }
        Some("list") => {
            props::ALL.iter().for_each(|p| println!("{} {}", p.id, p.runs));
            0
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | one PROP INDEX | list");
            3
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
