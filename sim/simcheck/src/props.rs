//! Which world, generator and oracle decide which property.
use crate::exec::{execute, ExecResult, RunOut, Scenario};
use crate::verdict::Verdict;
use simrt::rng::hash64;
use std::collections::HashMap;

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut x = base ^ hash64(prop.as_bytes()).rotate_left(21) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    simrt::rng::splitmix(&mut x)
}

/// Every fourth run injects nothing, so that a failure without any fault shows up as one.
pub fn faulty(i: u64) -> bool {
    i % 4 != 0
}

pub fn generate(prop: &str, seed: u64, faulty: bool) -> Scenario {
    match prop.as_bytes()[0] {
        b'L' => Scenario::Lsp(crate::lspgen::generate(prop, seed, faulty)),
        b'C' => Scenario::Pretty(crate::prettycheck::generate(prop, seed, faulty)),
        b'Q' => Scenario::Serde(crate::serdeworld::generate(prop, seed, faulty)),
        b'M' => Scenario::Macro(crate::macroworld::generate(prop, seed, faulty)),
        _ => panic!("unknown property {}", prop),
    }
}

/// Reference runs, remembered.
#[derive(Default)]
pub struct Solo {
    cache: HashMap<u64, Option<RunOut>>,
    pub runs: u64,
}
impl Solo {
    pub fn get(&mut self, s: &Scenario) -> Option<RunOut> {
        let k = hash64(serde_json::to_string(s).unwrap().as_bytes());
        if let Some(r) = self.cache.get(&k) {
            return r.clone();
        }
        self.runs += 1;
        let r = match execute(s, false) {
            ExecResult::Out(o) => Some(o),
            _ => None,
        };
        if self.cache.len() > 4000 {
            self.cache.clear();
        }
        self.cache.insert(k, r.clone());
        r
    }
}

pub fn judge(prop: &str, sc: &Scenario, out: &RunOut, solo: &mut Solo) -> Verdict {
    match (sc, out) {
        (Scenario::Lsp(s), RunOut::Lsp(r)) => crate::lspjudge::judge(prop, s, r, &mut |q| match solo.get(&Scenario::Lsp(q.clone())) {
            Some(RunOut::Lsp(x)) => Some(x),
            _ => None,
        }),
        (Scenario::Pretty(s), RunOut::Pretty(r)) => {
            crate::prettycheck::judge(prop, s, r, &mut |q| match solo.get(&Scenario::Pretty(q.clone())) {
                Some(RunOut::Pretty(x)) => Some(x),
                _ => None,
            })
        }
        (Scenario::Serde(s), RunOut::Serde(r)) => crate::serdeworld::judge(prop, s, r),
        (Scenario::Macro(s), RunOut::Macro(r)) => crate::macroworld::judge(prop, s, r, &mut |q| match solo.get(&Scenario::Macro(q.clone())) {
            Some(RunOut::Macro(x)) => Some(x),
            _ => None,
        }),
        _ => unreachable!(),
    }
}

pub enum Checked {
    Done(Verdict, Option<RunOut>),
    Harness(String),
}

pub fn check(prop: &str, sc: &Scenario, solo: &mut Solo, trace: bool) -> Checked {
    match execute(sc, trace) {
        ExecResult::Out(o) => {
            let v = judge(prop, sc, &o, solo);
            Checked::Done(v, Some(o))
        }
        ExecResult::Crashed(how) => {
            let mut v = Verdict::default();
            v.bad("crash", format!("the process died: {} (stack overflow, abort or out of memory)", how));
            Checked::Done(v, None)
        }
        ExecResult::Stuck => {
            let mut v = Verdict::default();
            v.bad("stuck", format!("no progress for {} s of real time: it computes without end", crate::exec::WALL_LIMIT_S));
            Checked::Done(v, None)
        }
        ExecResult::Harness(e) => Checked::Harness(e),
    }
}
