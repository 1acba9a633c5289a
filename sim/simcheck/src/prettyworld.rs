//! The world around the compiler-output filter: a producer, a consumer, a file system, and their faults.
use crate::lspworld::latin1;
use serde::{Deserialize, Serialize};
use simrt::ctx::*;
use simrt::rng::Rng;
use simrt::run::run_program;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pretty {
    pub seed: u64,
    /// option flags, without the program name and the file
    pub flags: Vec<String>,
    pub env: BTreeMap<String, String>,
    /// the text, as the lines it consists of (used by the oracle and the shrinker)
    pub text: Vec<u8>,
    /// Some: file mode with this file name
    pub file: Option<VFile>,
    pub file_missing: bool,
    /// how the text arrives on standard input in stream mode (empty: all at once)
    pub stdin: Vec<InEv>,
    pub sink: SinkFaults,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct PrettyRun {
    pub code: Option<i32>,
    pub hung: bool,
    #[serde(with = "latin1")]
    pub out: Vec<u8>,
    #[serde(with = "latin1")]
    pub stderr_program: Vec<u8>,
    /// (input bytes delivered, output bytes visible) whenever the program was about to block on input
    pub snaps: Vec<(u64, u64)>,
    /// what the program held at those moments
    #[serde(default)]
    pub live: Vec<u64>,
    pub panics: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub digest: u64,
    pub sched: u64,
    pub steps: u64,
    pub virtual_us: u64,
    pub input_left: u64,
    #[serde(default)]
    pub peak: u64,
    pub unsupported: Option<String>,
    pub trace: Vec<String>,
}

pub fn run(p: &Pretty, trace: bool) -> PrettyRun {
    crate::alloc::reset();
    let ctx = Ctx::new(p.seed, Knobs::default(), 3_600_000_000, trace);
    {
        let mut s = ctx.s();
        s.step_cap = 20_000_000;
        s.env = p.env.clone();
        s.args = std::iter::once("whippyunits-pretty".to_string()).chain(p.flags.iter().cloned()).collect();
        if p.file.is_some() || p.file_missing {
            s.args.push("-f".into());
            s.args.push("input.txt".into());
        }
        if let Some(f) = &p.file {
            s.files.insert("input.txt".into(), VFile { content: p.text.clone(), ..f.clone() });
        }
        let evs: VecDeque<InEv> = if p.stdin.is_empty() {
            VecDeque::from(vec![InEv { delay_us: 0, kind: InKind::Data(p.text.clone()) }])
        } else {
            p.stdin.iter().cloned().collect()
        };
        let evs = evs.into_iter().filter(|e| !matches!(&e.kind, InKind::Data(d) if d.is_empty())).collect();
        s.stdin = StdinSrc::Script { evs, cur: vec![], off: 0, eof: false };
    }
    ctx.stdout_raw.lock().unwrap().sink =
        Sink::Script { data: vec![], faults: p.sink.clone(), rng: Rng::stream(p.seed, "sink"), failed: false };
    let mut left = 0;
    let lp: *mut u64 = &mut left;
    let c2 = ctx.clone();
    let end = run_program(
        ctx.clone(),
        gen_pretty_main::__sim_entry,
        |_| {},
        0,
        |_| unsafe {
            // script not consumed (the source itself is gone by now; count what was delivered instead)
            *lp = c2.s().stdin_delivered;
        },
    );
    let peak = crate::alloc::peak();
    let out = match &ctx.stdout_raw.lock().unwrap().sink {
        Sink::Script { data, .. } => data.clone(),
        _ => vec![],
    };
    let mut s = ctx.s();
    let mut program = vec![];
    for (c, b) in &s.stderr_log {
        if *c == Chan::Program {
            program.extend_from_slice(b);
        }
    }
    let virt = end.at_us;
    PrettyRun {
        code: end.code,
        hung: end.hung,
        out,
        stderr_program: program,
        snaps: s.snaps.iter().map(|x| (x.input_delivered, x.output_len)).collect(),
        live: s.snaps.iter().map(|x| x.live).collect(),
        panics: s.panics.clone(),
        counters: s.counters.clone(),
        digest: s.digest,
        sched: s.sched,
        steps: s.steps,
        virtual_us: virt,
        input_left: left,
        peak,
        unsupported: s.unsupported.clone(),
        trace: s.trace.take().unwrap_or_default(),
    }
}
