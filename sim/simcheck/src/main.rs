//! Seeded simulation checks. Subcommands: check, worker, replay, determinism, show.
mod alloc;
mod exec;
mod frames;
mod known;
mod lspgen;
mod lspjudge;
mod lspworld;
mod macroworld;
mod msggen;
mod prettycheck;
mod prettyworld;
mod ports;
mod props;
mod report;
mod serdefmt;
mod serdegen;
mod serdejudge;
mod serdeworld;
mod shrink;
mod unitoracle;
mod verdict;

use exec::Scenario;
use props::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hit {
    pub index: u64,
    pub seed: u64,
    pub class: String,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Stats {
    pub runs: u64,
    pub clean_runs: u64,
    pub fault_runs: u64,
    pub nontrivial: u64,
    pub solo_runs: u64,
    pub steps: u64,
    pub virtual_us: u64,
    pub counters: BTreeMap<String, u64>,
    /// in how many runs each counter moved
    pub runs_with: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sched: HashSet<u64>,
    pub sched_nontrivial: HashSet<u64>,
    pub scenarios: HashSet<u64>,
    pub digest: u64,
    pub hits: Vec<Hit>,
    pub known_hits: BTreeMap<String, u64>,
    pub harness: Vec<String>,
    pub stopped_early: bool,
}

impl Stats {
    fn add(&mut self, o: Stats) {
        self.runs += o.runs;
        self.clean_runs += o.clean_runs;
        self.fault_runs += o.fault_runs;
        self.nontrivial += o.nontrivial;
        self.solo_runs += o.solo_runs;
        self.steps += o.steps;
        self.virtual_us += o.virtual_us;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.runs_with {
            *self.runs_with.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.sched.extend(o.sched);
        self.sched_nontrivial.extend(o.sched_nontrivial);
        self.scenarios.extend(o.scenarios);
        self.digest ^= o.digest;
        self.hits.extend(o.hits);
        for (k, v) in o.known_hits {
            *self.known_hits.entry(k).or_insert(0) += v;
        }
        self.harness.extend(o.harness);
        self.stopped_early |= o.stopped_early;
    }
}

pub fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn num(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).map(|v| v.parse().expect("number")).unwrap_or(d)
}

fn worker(args: &[String]) {
    let prop = arg(args, "--prop").unwrap();
    let base = num(args, "--seed", 1);
    let (start, stride, total) = (num(args, "--start", 0), num(args, "--stride", 1), num(args, "--runs", 100));
    let limit = Duration::from_secs(num(args, "--limit", 3600));
    let known = known::load();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut solo = Solo::default();
    let mut i = start;
    while i < total {
        if t0.elapsed() > limit || st.hits.len() >= 3 || st.harness.len() >= 3 {
            st.stopped_early = true;
            break;
        }
        let seed = run_seed(base, &prop, i);
        let f = faulty(i);
        let sc = generate(&prop, seed, f);
        let shash = simrt::rng::hash64(serde_json::to_string(&sc).unwrap().as_bytes());
        st.scenarios.insert(shash);
        st.runs += 1;
        if f {
            st.fault_runs += 1
        } else {
            st.clean_runs += 1
        }
        match check(&prop, &sc, &mut solo, false) {
            Checked::Harness(e) => st.harness.push(format!("run {} seed {}: {}", i, seed, e)),
            Checked::Done(v, out) => {
                if let Some(o) = &out {
                    let mut d = o.digest() ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    st.digest ^= simrt::rng::splitmix(&mut d);
                    for (k, n) in o.counters() {
                        *st.counters.entry(k.clone()).or_insert(0) += n;
                        *st.runs_with.entry(k.clone()).or_insert(0) += 1;
                    }
                    st.steps += o.steps();
                    st.virtual_us += o.virtual_us();
                    st.sched.insert(o.sched());
                    if v.nontrivial {
                        st.nontrivial += 1;
                        st.sched_nontrivial.insert(o.sched());
                    }
                }
                for p in &v.probes {
                    *st.probes.entry(p.clone()).or_insert(0) += 1;
                }
                for (class, msg) in &v.violations {
                    match known::matching(&known, &prop, class, msg) {
                        Some(id) => *st.known_hits.entry(id).or_insert(0) += 1,
                        None => {
                            st.hits.push(Hit { index: i, seed, class: class.clone(), msg: msg.clone() });
                            break;
                        }
                    }
                }
            }
        }
        i += stride;
    }
    st.solo_runs = solo.runs;
    let mut o = std::io::stdout().lock();
    serde_json::to_writer(&mut o, &st).unwrap();
    o.write_all(b"\n").unwrap();
    o.flush().unwrap();
}

pub fn explore(prop: &str, base: u64, runs: u64, limit: u64, workers: u64) -> Result<Stats, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = vec![];
    for w in 0..workers {
        let c = Command::new(&exe)
            .arg("worker")
            .args(["--prop", prop])
            .args(["--seed", &base.to_string()])
            .args(["--start", &w.to_string()])
            .args(["--stride", &workers.to_string()])
            .args(["--runs", &runs.to_string()])
            .args(["--limit", &limit.to_string()])
            .stdout(Stdio::piped())
            .stdin(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        kids.push(c);
    }
    let readers: Vec<_> = kids
        .iter_mut()
        .map(|k| {
            let o = k.stdout.take().unwrap();
            std::thread::spawn(move || {
                let mut line = String::new();
                BufReader::new(o).read_line(&mut line).map(|_| line)
            })
        })
        .collect();
    let mut st = Stats::default();
    for (k, r) in kids.iter_mut().zip(readers) {
        let line = r.join().unwrap().map_err(|e| e.to_string())?;
        let ok = k.wait().map_err(|e| e.to_string())?.success();
        if !ok {
            return Err("a worker failed".into());
        }
        st.add(serde_json::from_str(&line).map_err(|e| format!("worker output: {}", e))?);
    }
    st.hits.sort_by_key(|h| h.index);
    Ok(st)
}

/// (quick runs, thorough runs)
fn budget(prop: &str) -> (u64, u64) {
    match prop.as_bytes()[0] {
        _ if prop == "L14" => (600, 12_000),
        _ if prop == "C05" => (240, 5_000),
        b'L' => (40_000, 2_000_000),
        b'C' => (24_000, 1_000_000),
        b'Q' => (100_000, 4_000_000),
        _ => (2_000, 60_000),
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub base_seed: u64,
    pub run_index: u64,
    pub run_seed: u64,
    pub digest: u64,
    pub minimised_in_runs: u64,
    pub scenario: Scenario,
    /// the schedule and the faults of the minimised run, in order
    pub trace: Vec<String>,
    pub how: String,
}

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into()
}

/// Re-execute a replay file; Ok(true) if it shows the same violation with the same digest.
fn replay(path: &str, show: bool) -> Result<bool, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let r: Replay = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let mut solo = Solo::default();
    match check(&r.property, &r.scenario, &mut solo, true) {
        Checked::Harness(e) => Err(e),
        Checked::Done(v, out) => {
            let digest = out.as_ref().map(|o| o.digest()).unwrap_or(0);
            let same = v.violations.iter().any(|(c, _)| *c == r.class);
            if show {
                if let Some(o) = &out {
                    for t in o.trace() {
                        println!("{}", t);
                    }
                }
                for (c, m) in &v.violations {
                    println!("{}: {}", c, m);
                }
                println!(
                    "{}; digest {:016x} {} the recorded one",
                    if same { "the violation is reproduced" } else { "no such violation" },
                    digest,
                    if digest == r.digest { "equals" } else { "differs from" }
                );
            }
            Ok(same && digest == r.digest)
        }
    }
}

fn check_cmd(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let tier = arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let base: u64 = arg(args, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let (q, t) = budget(&prop);
    let runs = num(args, "--runs", if tier == "thorough" { t } else { q });
    let limit = num(args, "--limit", if tier == "thorough" { 5400 } else { 240 });
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let workers = num(args, "--workers", cores.min(8));
    let t0 = Instant::now();
    let st = match explore(&prop, base, runs, limit, workers) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("harness error: {}", e);
            return 2;
        }
    };
    // the same seeds again, with another division of the work: every run must repeat exactly
    let sample = runs.min(if tier == "thorough" { 4000 } else { 400 });
    let det = if st.hits.is_empty() {
        let a = explore(&prop, base, sample, limit, workers);
        let b = explore(&prop, base, sample, limit, (workers / 2).max(1) + 1);
        match (a, b) {
            (Ok(a), Ok(b)) => Some((a.digest == b.digest && a.runs == b.runs, a.runs, a.digest)),
            _ => None,
        }
    } else {
        None
    };
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if !st.harness.is_empty() {
        for h in st.harness.iter().take(5) {
            eprintln!("harness error: {}", h);
        }
        code = 2;
    }
    if let Some((false, ..)) = det {
        eprintln!("harness error: the same seeds did not give the same runs");
        code = 2;
    }
    for k in known::load().iter().filter(|k| k.property == prop && k.status == "known") {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    let mut violations = vec![];
    if let Some(h) = st.hits.first() {
        let sc = generate(&prop, h.seed, faulty(h.index));
        let (small, tried) = shrink::minimise(&prop, &h.class, &sc, Duration::from_secs(60));
        let mut solo = Solo::default();
        let (msg, digest, trace) = match check(&prop, &small, &mut solo, true) {
            Checked::Done(v, o) => (
                v.violations.iter().find(|(c, _)| *c == h.class).map(|x| x.1.clone()).unwrap_or(h.msg.clone()),
                o.as_ref().map(|o| o.digest()).unwrap_or(0),
                o.map(|o| o.trace().to_vec()).unwrap_or_default(),
            ),
            Checked::Harness(e) => {
                eprintln!("harness error: {}", e);
                return 2;
            }
        };
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:016x}.json", prop, h.class.replace(' ', "-"), h.seed));
        let rp = Replay {
            property: prop.clone(),
            class: h.class.clone(),
            message: msg.clone(),
            base_seed: base,
            run_index: h.index,
            run_seed: h.seed,
            digest,
            minimised_in_runs: tried,
            scenario: small,
            trace,
            how: "bash /verif/check.sh replay <this file>".into(),
        };
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()) {
            eprintln!("harness error: {}", e);
            return 2;
        }
        // it must come back from the file alone, in a fresh process
        let again = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).stdout(Stdio::null()).status();
        let reproduced = matches!(again, Ok(s) if s.code() == Some(1));
        if !reproduced {
            eprintln!("harness error: the replay file does not reproduce the run exactly: {:?}", again);
            return 2;
        }
        println!("run {} (seed {:#x}) violates {} [{}]: {}", h.index, h.seed, prop, h.class, msg);
        for o in st.hits.iter().skip(1).take(4) {
            println!("also run {} (seed {:#x}) [{}]: {}", o.index, o.seed, o.class, o.msg.chars().take(200).collect::<String>());
        }
        println!("minimised in {} runs; reproduced from the file in a fresh process", tried);
        println!("VIOLATION property={} replay={}", prop, path.display());
        violations.push(serde_json::json!({"class": h.class, "message": msg, "seed": h.seed, "replay": path.display().to_string()}));
        code = 1;
    }
    if let Err(e) = report::write(&verif(), &prop, &tier, base, &st, det, explore_s, t0.elapsed().as_secs_f64(), workers, runs, &violations) {
        eprintln!("harness error: {}", e);
        return 2;
    }
    println!(
        "{}: {} runs ({} reference), {} distinct interleavings, {} nontrivial, {:.1} s simulated, {:.1} s real, exit {}",
        prop,
        st.runs,
        st.solo_runs,
        st.sched.len(),
        st.nontrivial,
        st.virtual_us as f64 / 1e6,
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}

fn main() {
    // backtraces would cost most of the time of every run that fails on purpose
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(&args);
            0
        }
        Some("check") => check_cmd(&args),
        Some("replay") => match replay(&args[1], true) {
            Ok(true) => 1,
            Ok(false) => 0,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("show") => {
            let prop = arg(&args, "--prop").unwrap();
            let i = num(&args, "--run", 0);
            let seed = run_seed(num(&args, "--seed", 1), &prop, i);
            let sc = generate(&prop, seed, faulty(i));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            let mut solo = Solo::default();
            match check(&prop, &sc, &mut solo, true) {
                Checked::Done(v, o) => {
                    if let Some(o) = o {
                        for t in o.trace() {
                            println!("{}", t);
                        }
                    }
                    println!("{:#?}", v);
                }
                Checked::Harness(e) => println!("harness: {}", e),
            }
            0
        }
        Some("bench") => {
            let prop = arg(&args, "--prop").unwrap();
            let runs = num(&args, "--runs", 1000);
            let t0 = Instant::now();
            let st = explore(&prop, 1, runs, 600, num(&args, "--workers", 8)).unwrap();
            let mut classes: BTreeMap<String, (u64, String)> = BTreeMap::new();
            for h in &st.hits {
                let e = classes.entry(h.class.clone()).or_insert((0, format!("run {}: {}", h.index, h.msg.chars().take(700).collect::<String>())));
                e.0 += 1;
            }
            println!("{} runs {:?} {:.2}s harness {:?} probes {:?}", prop, st.runs, t0.elapsed().as_secs_f64(), st.harness.first(), st.probes);
            for (c, (n, m)) in classes {
                println!("   {} x{}: {}", c, n, m);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check --prop ID [--tier quick|thorough] | replay FILE | show --prop ID --run N");
            2
        }
    };
    std::process::exit(code);
}
