//! One run's world: everything the program under simulation can observe of the outside, and everything the
//! run records. One `Ctx` per run, found through a thread-local (a run owns its OS thread).
use crate::pipe::{PipeR, PipeW};
use crate::rng::{splitmix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, LineWriter, Write};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

/// Probabilities (per mille) of scheduling perturbations and partial I/O on the program's side.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Knobs {
    pub p_yield: u32,
    pub p_short_read: u32,
    pub p_short_write: u32,
    pub p_notready: u32,
    pub p_delay: u32,
    pub max_delay_us: u64,
    /// total virtual time injected delays may add up to
    pub delay_budget_us: u64,
    pub p_eintr: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Probe {
    Ok,
    Exit(i32),
    Signal(i32),
    SpawnErr(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Install {
    pub path: String,
    pub probe: Probe,
    /// errno of a failing spawn (0 = works)
    pub spawn_errno: i32,
}

#[derive(Clone, Debug)]
pub struct SpawnRec {
    pub path: String,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub piped: (bool, bool, bool),
    pub ok: bool,
    pub at_us: u64,
}

pub struct ChildState {
    pub status: Mutex<Option<i32>>,
    pub exited: tokio::sync::Notify,
    pub kill: tokio::sync::Notify,
    pub killed_at: Mutex<Option<u64>>,
}

/// What the world gets when the program starts a child: the far ends of its pipes.
pub struct SpawnedChild {
    pub state: Arc<ChildState>,
    pub stdin: Option<PipeR>,
    pub stdout: Option<PipeW>,
    pub stderr: Option<PipeW>,
    /// child's stderr is the program's own stderr
    pub stderr_inherited: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum InKind {
    Data(Vec<u8>),
    Eintr,
    Err(i32),
    Eof,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct InEv {
    pub delay_us: u64,
    pub kind: InKind,
}

pub enum StdinSrc {
    None,
    Pipe(Arc<PipeR>),
    Script { evs: VecDeque<InEv>, cur: Vec<u8>, off: usize, eof: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct SinkFaults {
    /// after this many bytes, every write fails with this errno
    pub fail_after: Option<(u64, i32)>,
    pub p_short: u32,
    pub p_eintr: u32,
}

pub enum Sink {
    None,
    Pipe(Arc<PipeW>),
    Script { data: Vec<u8>, faults: SinkFaults, rng: Rng, failed: bool },
}

/// Where std's buffered stdout writes to.
pub struct RawOut(pub Arc<Mutex<RawState>>);
pub struct RawState {
    pub sink: Sink,
    pub stage: Vec<u8>,
}

impl Write for RawOut {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // what is still buffered when the process is gone is lost
        let Some(ctx) = try_cur() else { return Ok(b.len()) };
        let mut s = self.0.lock().unwrap();
        let st = &mut *s;
        match &mut st.sink {
            Sink::None => Ok(b.len()),
            Sink::Pipe(_) => {
                st.stage.extend_from_slice(b);
                Ok(b.len())
            }
            Sink::Script { data, faults, rng, failed } => {
                if b.is_empty() {
                    return Ok(0);
                }
                if rng.pm(faults.p_eintr) {
                    ctx.count("fault.stdout_eintr");
                    return Err(io::Error::from_raw_os_error(4));
                }
                let mut n = b.len();
                if let Some((lim, errno)) = faults.fail_after {
                    let left = (lim as usize).saturating_sub(data.len());
                    if left == 0 {
                        if !*failed {
                            *failed = true;
                            ctx.count("fault.stdout_error");
                        }
                        return Err(io::Error::from_raw_os_error(errno));
                    }
                    n = n.min(left);
                }
                if n > 1 && rng.pm(faults.p_short) {
                    n = 1 + rng.usize(n - 1);
                    ctx.count("fault.stdout_short_write");
                }
                crate::task::out_of_program(|| data.extend_from_slice(&b[..n]));
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct VFile {
    pub content: Vec<u8>,
    pub open_errno: i32,
    pub read_err_at: Option<(u64, i32)>,
    pub chunk: u64,
    pub p_eintr: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chan {
    Program,
    Log,
    Panic,
    Child,
}

/// What had been output when the program blocked waiting for input.
#[derive(Clone, Debug)]
pub struct BlockSnap {
    pub input_delivered: u64,
    pub output_len: u64,
    /// what the program held in memory then
    pub live: u64,
}

/// How to ask for what the program holds in memory, if anything keeps count.
pub static HELD: std::sync::OnceLock<fn() -> u64> = std::sync::OnceLock::new();

pub struct State {
    pub digest: u64,
    pub sched: u64,
    pub trace: Option<Vec<String>>,
    pub counters: BTreeMap<String, u64>,
    pub steps: u64,
    pub step_cap: u64,
    pub livelock: bool,
    pub delay_spent: u64,
    pub sync_extra_us: u64,
    pub env: BTreeMap<String, String>,
    pub args: Vec<String>,
    pub exit: Option<i32>,
    pub exiting: bool,
    pub panics: Vec<String>,
    pub unsupported: Option<String>,
    pub stderr_log: Vec<(Chan, Vec<u8>)>,
    pub stderr_pipe: Option<Arc<PipeW>>,
    pub stderr_closed: bool,
    pub stdin: StdinSrc,
    pub stdin_delivered: u64,
    pub stdin_inflight: u32,
    pub stdin_rng: Rng,
    pub stdout_ops: u32,
    pub installs: Vec<Install>,
    pub probes: Vec<String>,
    pub spawns: Vec<SpawnRec>,
    pub files: BTreeMap<String, VFile>,
    pub snaps: Vec<BlockSnap>,
    pub sched_rng: Rng,
    pub aborts: Vec<tokio::task::AbortHandle>,
    pub op_aborts: Vec<tokio::task::AbortHandle>,
    pub next_id: u64,
    pub log_level_on: bool,
    pub log_to_stdout: bool,
    pub pipe_caps: (usize, usize, usize),
}

pub type OnSpawn = Arc<dyn Fn(SpawnedChild) + Send + Sync>;

pub struct Ctx {
    pub seed: u64,
    pub knobs: Knobs,
    pub horizon_us: u64,
    pub m: Mutex<State>,
    pub exit_notify: tokio::sync::Notify,
    pub idle_notify: tokio::sync::Notify,
    pub stdout_raw: Arc<Mutex<RawState>>,
    pub stdout_lw: Mutex<LineWriter<RawOut>>,
    pub stdout_op_lock: tokio::sync::Mutex<()>,
    pub on_spawn: Mutex<Option<OnSpawn>>,
}

thread_local! {
    static CUR: RefCell<Option<Arc<Ctx>>> = const { RefCell::new(None) };
    static RT: RefCell<Option<Rc<tokio::runtime::Runtime>>> = const { RefCell::new(None) };
    static T0: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    pub static IN_PROGRAM: Cell<bool> = const { Cell::new(false) };
}

pub fn cur() -> Arc<Ctx> {
    CUR.with(|c| c.borrow().clone()).expect("no simulated world on this thread")
}
pub fn try_cur() -> Option<Arc<Ctx>> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
pub fn set_cur(c: Option<Arc<Ctx>>) {
    CUR.with(|x| *x.borrow_mut() = c);
}
pub fn set_rt(r: Option<Rc<tokio::runtime::Runtime>>) {
    RT.with(|x| *x.borrow_mut() = r);
}
pub fn rt() -> Rc<tokio::runtime::Runtime> {
    RT.with(|x| x.borrow().clone()).expect("no simulated runtime on this thread")
}
pub fn set_t0() {
    T0.with(|t| t.set(Some(tokio::time::Instant::now())));
}

impl Ctx {
    pub fn new(seed: u64, knobs: Knobs, horizon_us: u64, trace: bool) -> Arc<Ctx> {
        let raw = Arc::new(Mutex::new(RawState { sink: Sink::None, stage: vec![] }));
        Arc::new(Ctx {
            seed,
            knobs,
            horizon_us,
            m: Mutex::new(State {
                digest: seed,
                sched: 0,
                trace: if trace { Some(vec![]) } else { None },
                counters: BTreeMap::new(),
                steps: 0,
                step_cap: 3_000_000,
                livelock: false,
                delay_spent: 0,
                sync_extra_us: 0,
                env: BTreeMap::new(),
                args: vec![],
                exit: None,
                exiting: false,
                panics: vec![],
                unsupported: None,
                stderr_log: vec![],
                stderr_pipe: None,
                stderr_closed: false,
                stdin: StdinSrc::None,
                stdin_delivered: 0,
                stdin_inflight: 0,
                stdin_rng: Rng::stream(seed, "stdin"),
                stdout_ops: 0,
                installs: vec![],
                probes: vec![],
                spawns: vec![],
                files: BTreeMap::new(),
                snaps: vec![],
                sched_rng: Rng::stream(seed, "sched"),
                aborts: vec![],
                op_aborts: vec![],
                next_id: 0,
                log_level_on: false,
                log_to_stdout: false,
                pipe_caps: (65536, 65536, 65536),
            }),
            exit_notify: tokio::sync::Notify::new(),
            idle_notify: tokio::sync::Notify::new(),
            stdout_raw: raw.clone(),
            stdout_lw: Mutex::new(LineWriter::new(RawOut(raw))),
            stdout_op_lock: tokio::sync::Mutex::new(()),
            on_spawn: Mutex::new(None),
        })
    }
    pub fn s(&self) -> MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn now_us(&self) -> u64 {
        let extra = self.s().sync_extra_us;
        let t = T0.with(|t| t.get());
        match t {
            Some(t0) => extra + (tokio::time::Instant::now() - t0).as_micros() as u64,
            None => extra,
        }
    }
    pub fn count(&self, k: &str) {
        self.count_n(k, 1);
    }
    pub fn count_n(&self, k: &str, n: u64) {
        let mut s = self.s();
        if let Some(v) = s.counters.get_mut(k) {
            *v += n;
        } else {
            crate::task::out_of_program(|| s.counters.insert(k.to_string(), n));
        }
    }
    /// Record an event: (who, what) shape the interleaving digest; the amount and the time join the full digest.
    pub fn ev(&self, who: &str, what: &str, n: u64) {
        let t = self.now_us();
        let mut s = self.s();
        let mut x = s.sched ^ crate::rng::hash64(who.as_bytes()).rotate_left(17) ^ crate::rng::hash64(what.as_bytes());
        s.sched = splitmix(&mut x);
        let mut y = s.digest ^ x ^ n.wrapping_mul(0x9E37) ^ t.rotate_left(32);
        s.digest = splitmix(&mut y);
        if let Some(tr) = &mut s.trace {
            if tr.len() < 20_000 {
                crate::task::out_of_program(|| tr.push(format!("{:>10}us {:<14} {:<22} {}", t, who, what, n)));
            }
        }
    }
    /// A random injected delay within the run's budget, if one is due.
    pub fn take_delay(&self, rng: &mut Rng) -> Option<Duration> {
        if !rng.pm(self.knobs.p_delay) {
            return None;
        }
        let d = rng.range(1, self.knobs.max_delay_us.max(1));
        let mut s = self.s();
        if s.exiting || s.delay_spent + d > self.knobs.delay_budget_us {
            return None;
        }
        s.delay_spent += d;
        *s.counters.entry("fault.io_delay".into()).or_insert(0) += 1;
        Some(Duration::from_micros(d))
    }
    pub fn step(&self) -> bool {
        let mut s = self.s();
        s.steps += 1;
        if s.steps > s.step_cap {
            s.livelock = true;
        }
        !s.livelock
    }
    pub fn set_exit(&self, code: i32) {
        let mut s = self.s();
        if s.exit.is_none() {
            s.exit = Some(code);
        }
        s.exiting = true;
        drop(s);
        self.exit_notify.notify_waiters();
        self.exit_notify.notify_one();
    }
    pub fn unsupported(&self, what: &str) -> ! {
        {
            let mut s = self.s();
            if s.unsupported.is_none() {
                s.unsupported = Some(what.to_string());
            }
        }
        std::panic::panic_any(crate::task::SimExit(99))
    }
    pub fn write_stderr(&self, chan: Chan, b: &[u8]) -> io::Result<()> {
        // the record of it is not the program's memory
        crate::task::out_of_program(|| self.write_stderr_(chan, b))
    }
    fn write_stderr_(&self, chan: Chan, b: &[u8]) -> io::Result<()> {
        let mut s = self.s();
        if s.stderr_closed {
            return Err(io::Error::from_raw_os_error(32));
        }
        if let Some(p) = s.stderr_pipe.clone() {
            if p.broken() {
                return Err(io::Error::from_raw_os_error(32));
            }
            let _ = p.push(b);
        }
        match s.stderr_log.last_mut() {
            Some((c, v)) if *c == chan => v.extend_from_slice(b),
            _ => s.stderr_log.push((chan, b.to_vec())),
        }
        Ok(())
    }
    pub fn env_get(&self, k: &str) -> Option<String> {
        self.s().env.get(k).cloned()
    }
    pub fn find_install(&self, path: &str) -> Option<Install> {
        let s = self.s();
        let key = if path.contains('/') {
            path.to_string()
        } else {
            if !s.env.contains_key("PATH") {
                return None;
            }
            format!("PATH/{}", path)
        };
        s.installs.iter().find(|i| i.path == key).cloned()
    }
    pub fn next_id(&self) -> u64 {
        let mut s = self.s();
        s.next_id += 1;
        s.next_id
    }
}
