//! One simulated run = one forked process: fresh statics, fresh hash seeds from the run's seed, crash isolation.
use crate::{lspworld, prettyworld};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Scenario {
    Lsp(lspworld::Lsp),
    Pretty(prettyworld::Pretty),
    Serde(crate::serdeworld::SerdeScn),
    Macro(crate::macroworld::MacroScn),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RunOut {
    Lsp(lspworld::LspRun),
    Pretty(prettyworld::PrettyRun),
    Serde(crate::serdeworld::SerdeRun),
    Macro(crate::macroworld::MacroRun),
}

impl RunOut {
    pub fn digest(&self) -> u64 {
        // of everything observed, so that a digest match means an exactly repeated run
        simrt::rng::hash64(serde_json::to_string(self).unwrap().as_bytes())
    }
    pub fn sched(&self) -> u64 {
        match self {
            RunOut::Lsp(r) => r.sched,
            RunOut::Pretty(r) => r.sched,
            RunOut::Serde(r) => r.sched,
            RunOut::Macro(r) => r.sched,
        }
    }
    pub fn counters(&self) -> &std::collections::BTreeMap<String, u64> {
        match self {
            RunOut::Lsp(r) => &r.counters,
            RunOut::Pretty(r) => &r.counters,
            RunOut::Serde(r) => &r.counters,
            RunOut::Macro(r) => &r.counters,
        }
    }
    pub fn virtual_us(&self) -> u64 {
        match self {
            RunOut::Lsp(r) => r.virtual_us,
            RunOut::Pretty(r) => r.virtual_us,
            RunOut::Serde(r) => r.virtual_us,
            RunOut::Macro(r) => r.virtual_us,
        }
    }
    pub fn steps(&self) -> u64 {
        match self {
            RunOut::Lsp(r) => r.steps,
            RunOut::Pretty(r) => r.steps,
            RunOut::Serde(r) => r.steps,
            RunOut::Macro(r) => r.steps,
        }
    }
    pub fn unsupported(&self) -> Option<&String> {
        match self {
            RunOut::Lsp(r) => r.unsupported.as_ref(),
            RunOut::Pretty(r) => r.unsupported.as_ref(),
            _ => None,
        }
    }
    pub fn trace(&self) -> &[String] {
        match self {
            RunOut::Lsp(r) => &r.trace,
            RunOut::Pretty(r) => &r.trace,
            RunOut::Serde(r) => &r.trace,
            RunOut::Macro(r) => &r.trace,
        }
    }
}

#[derive(Clone, Debug)]
pub enum ExecResult {
    Out(RunOut),
    /// the process under simulation died: signal or status
    Crashed(String),
    /// no answer within the wall-clock limit: it loops without ever yielding
    Stuck,
    Harness(String),
}

// The hash seeds of std's HashMap come from here instead of the kernel: an input of the run like any other.
static mut HASH_SEED: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x = HASH_SEED;
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = simrt::rng::splitmix(&mut x).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    HASH_SEED = x;
    len as libc::ssize_t
}

fn seed_of(s: &Scenario) -> u64 {
    match s {
        Scenario::Lsp(x) => x.seed,
        Scenario::Pretty(x) => x.seed,
        Scenario::Serde(x) => x.seed,
        Scenario::Macro(x) => x.hash_seed,
    }
}

/// The body of a run, in the child.
pub fn run_here(s: &Scenario, trace: bool) -> RunOut {
    match s {
        Scenario::Lsp(x) => RunOut::Lsp(lspworld::run(x, trace)),
        Scenario::Pretty(x) => RunOut::Pretty(prettyworld::run(x, trace)),
        Scenario::Serde(x) => RunOut::Serde(crate::serdeworld::run(x, trace)),
        Scenario::Macro(x) => RunOut::Macro(crate::macroworld::run(x, trace)),
    }
}

pub const WALL_LIMIT_S: u64 = 60;

pub fn execute(s: &Scenario, trace: bool) -> ExecResult {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return ExecResult::Harness("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return ExecResult::Harness("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // an address-space limit turns absurd allocations into failures of this process alone
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            HASH_SEED = seed_of(s) ^ 0x5eed;
            let sc = s.clone();
            // main threads have 8 MiB, tokio's workers (where the relaying tasks run) 2 MiB
            let stack = match s {
                Scenario::Lsp(_) | Scenario::Serde(_) => 2 << 20,
                Scenario::Macro(_) => 64 << 20,
                _ => 8 << 20,
            };
            let h = std::thread::Builder::new().stack_size(stack).spawn(move || run_here(&sc, trace));
            let code = match h.map(|h| h.join()) {
                Ok(Ok(out)) => {
                    let text = serde_json::to_vec(&out).unwrap();
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    if f.write_all(&text).is_ok() {
                        0
                    } else {
                        4
                    }
                }
                _ => 3,
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(WALL_LIMIT_S);
        let mut chunk = vec![0u8; 1 << 16];
        let mut stuck = false;
        loop {
            let now = std::time::Instant::now();
            if now >= deadline {
                stuck = true;
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, (deadline - now).as_millis() as i32);
            if r <= 0 {
                continue;
            }
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(_) => break,
            }
        }
        if stuck {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if stuck {
            return ExecResult::Stuck;
        }
        if libc::WIFSIGNALED(st) {
            return ExecResult::Crashed(format!("signal {}", libc::WTERMSIG(st)));
        }
        match libc::WEXITSTATUS(st) {
            0 => match serde_json::from_slice::<RunOut>(&buf) {
                Ok(o) => {
                    if let Some(u) = o.unsupported() {
                        return ExecResult::Harness(format!("unsupported by the simulator: {}", u));
                    }
                    ExecResult::Out(o)
                }
                Err(e) => ExecResult::Harness(format!("result not readable: {}", e)),
            },
            3 => ExecResult::Harness("the simulator itself panicked".into()),
            c => ExecResult::Crashed(format!("status {}", c)),
        }
    }
}
