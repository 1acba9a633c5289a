//! The evidence file: what this run really covered.
use crate::props::{faulty, generate, run_seed};
use crate::Stats;
use serde_json::{json, Value};
use std::path::Path;

fn components(prop: &str) -> Value {
    match prop.as_bytes()[0] {
        b'L' => json!({
            "real": ["lsp-proxy/src/main.rs (the relay tasks, framing, process start and end)", "lsp-proxy/src/*.rs (message rewriting)", "whippyunits::print", "serde_json, syn, anyhow, tokio's task scheduler, select!, BufReader and channels"],
            "simulated": ["the language server process, its pipes and its exit status", "the editor", "standard streams of the process", "environment, PATH lookup and probing", "time", "hash seeds"],
            "stub": ["clap and env_logger (argument parsing and log formatting)"]
        }),
        b'C' => json!({
            "real": ["whippyunits-pretty/src/main.rs", "whippyunits-pretty/src/rustc_pretty.rs", "lsp-proxy/src/unit_formatter.rs", "whippyunits::print", "std's BufReader, lines() and LineWriter"],
            "simulated": ["standard streams, files, time, exit-time flushing"],
            "stub": ["clap (argument parsing) and env_logger"]
        }),
        b'Q' => json!({
            "real": ["whippyunits::serialization", "whippyunits::print", "whippyunits-core", "serde, serde_json"],
            "simulated": ["readers, writers and formatter sinks", "the parties and the channel between them"],
            "stub": []
        }),
        _ => json!({
            "real": ["whippyunits-proc-macros (every expansion function)", "whippyunits-core"],
            "simulated": ["hash seeds, thread, order and number of expansions"],
            "stub": ["proc_macro is replaced by proc_macro2's fallback outside a compiler"]
        }),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn write(dir: &Path, prop: &str, tier: &str, base: u64, st: &Stats, det: Option<(bool, u64, u64)>, explore_s: f64, wall_s: f64, workers: u64, asked: u64, violations: &[Value]) -> Result<(), String> {
    let samples: Vec<Value> = [1u64, 4, 7]
        .iter()
        .map(|i| {
            let seed = run_seed(base, prop, *i);
            let sc = generate(prop, seed, faulty(*i));
            let mut t = serde_json::to_string(&sc).unwrap();
            if t.len() > 3000 {
                let mut k = 3000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push('…');
            }
            json!({"run": i, "seed": seed, "faults_on": faulty(*i), "scenario": t})
        })
        .collect();
    let faults: serde_json::Map<String, Value> = st
        .counters
        .iter()
        .filter(|(k, _)| k.starts_with("fault."))
        .map(|(k, v)| (k["fault.".len()..].to_string(), json!({"times": v, "in_runs": st.runs_with.get(k)})))
        .collect();
    let mut reach: serde_json::Map<String, Value> = st.probes.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
    for (k, _) in st.counters.iter().filter(|(k, _)| !k.starts_with("fault.")) {
        reach.insert(k.clone(), json!(st.runs_with.get(k)));
    }
    let per_hour = if explore_s > 0.0 { (st.runs as f64 / explore_s * 3600.0) as u64 } else { 0 };
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.sched_nontrivial.len(),
            "rule": format!("one case = one simulated run whose scenario, schedule and faults all follow from one seed; distinct = different digest of the run's sequence of (actor, event) pairs; non-trivial = {}", nontrivial(prop)),
            "samples": samples,
            "runs_asked_for": asked,
            "stopped_at_time_limit": st.stopped_early,
            "runs_without_faults": st.clean_runs,
            "runs_with_faults": st.fault_runs,
            "reference_runs": st.solo_runs,
            "runs_and_seeds_per_hour": per_hour,
            "simulated_time_s": st.virtual_us as f64 / 1e6,
            "scheduler_steps": st.steps,
            "faults_injected": faults,
            "distinct_interleavings": st.sched.len(),
            "distinct_scenarios": st.scenarios.len(),
            "conditions_reached_in_runs": reach,
            "components": components(prop),
            "determinism": det.map(|(ok, n, d)| json!({"runs_repeated": n, "identical": ok, "digest": format!("{:016x}", d), "with": "two different divisions over worker processes"})),
            "workers": workers,
            "known_findings_met": st.known_hits,
            "violations_found": violations,
        },
        "assumptions": assumptions(prop),
        "violations": violations.len(),
        "wall_s": wall_s,
    });
    let d = dir.join("evidence");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    std::fs::write(d.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).map_err(|e| e.to_string())
}

fn nontrivial(prop: &str) -> &'static str {
    match prop {
        "L01" => "at least two messages were fully sent by the editor",
        "L02" => "at least two messages were fully sent by the server",
        "L04" => "at least one message was rewritten",
        "L06" => "at least one header block was not the canonical one",
        "L07" => "the server ended after at least one complete message",
        "L09" => "a stream was damaged or cut",
        "L10" => "at least two messages displaying quantity types were delivered",
        "L11" => "the server wrote diagnostics",
        "C01" | "C04" => "at least two lines",
        "C02" => "the filter waited for input more than once and a complete line had arrived",
        "L14" => "at least twice as many bytes were offered as the proxy may hold",
        "C05" => "more bytes passed than the filter may hold",
        "C03" => "an input or output fault took effect",
        _ if prop.starts_with('L') => "at least one message was delivered, or the property's ending took place",
        _ => "the scenario's operation was carried out with at least one fault or split",
    }
}

fn assumptions(prop: &str) -> Vec<&'static str> {
    match prop.as_bytes()[0] {
        b'L' => vec![
            "the simulated pipes, process exit and runtime shutdown behave like Linux and tokio 1.x (DESIGN.md, section 'Simulator')",
            "tasks interleave at await points and at simulated I/O, as under tokio's cooperative scheduling; data races inside safe Rust are out of scope",
        ],
        b'C' => vec!["the simulated read, write and exit-time flush behave like Linux and std (DESIGN.md, section 'Simulator')"],
        _ => vec!["the simulated readers and writers keep the contracts of std::io::Read, std::io::Write and std::fmt::Write"],
    }
}
