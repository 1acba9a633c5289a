//! Child processes: the install table, spawning, waiting, killing.
use crate::ctx::*;
use crate::pipe::pipe;
use crate::stdio::{ChildIn, ChildOut};
use std::collections::BTreeMap;
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::process::ExitStatus;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum StdioKind {
    Inherit,
    Null,
    Piped,
}

#[derive(Clone)]
pub struct CmdSpec {
    pub program: String,
    pub args: Vec<String>,
    pub env_ops: Vec<(String, Option<String>)>,
    pub env_clear: bool,
    pub stdin: Option<StdioKind>,
    pub stdout: Option<StdioKind>,
    pub stderr: Option<StdioKind>,
}

impl CmdSpec {
    pub fn new(p: String) -> Self {
        CmdSpec { program: p, args: vec![], env_ops: vec![], env_clear: false, stdin: None, stdout: None, stderr: None }
    }
    pub fn env(&self, ctx: &Ctx) -> BTreeMap<String, String> {
        let mut e = if self.env_clear { BTreeMap::new() } else { ctx.s().env.clone() };
        for (k, v) in &self.env_ops {
            match v {
                Some(v) => {
                    e.insert(k.clone(), v.clone());
                }
                None => {
                    e.remove(k);
                }
            }
        }
        e
    }
    fn is_probe(&self) -> bool {
        self.args.iter().any(|a| a == "--version" || a == "-V" || a == "--help" || a == "-h")
    }
    /// A run whose result is only an exit status (a version probe).
    pub fn run_probe(&self) -> io::Result<ExitStatus> {
        let ctx = cur();
        let inst = ctx.find_install(&self.program);
        ctx.s().probes.push(self.program.clone());
        ctx.ev("process", "probe", self.program.len() as u64);
        match inst {
            None => Err(io::Error::from_raw_os_error(2)),
            Some(i) => match i.probe {
                _ if !self.is_probe() => Ok(ExitStatus::from_raw(2 << 8)),
                Probe::Ok => Ok(ExitStatus::from_raw(0)),
                Probe::Exit(c) => Ok(ExitStatus::from_raw((c & 0xff) << 8)),
                Probe::Signal(sg) => Ok(ExitStatus::from_raw(sg & 0x7f)),
                Probe::SpawnErr(e) => Err(io::Error::from_raw_os_error(e)),
            },
        }
    }
    pub fn spawn(&self) -> io::Result<Spawned> {
        let ctx = cur();
        let inst = ctx.find_install(&self.program);
        let kinds = (
            self.stdin.unwrap_or(StdioKind::Inherit),
            self.stdout.unwrap_or(StdioKind::Inherit),
            self.stderr.unwrap_or(StdioKind::Inherit),
        );
        let rec = SpawnRec {
            path: self.program.clone(),
            args: self.args.clone(),
            env: self.env(&ctx),
            piped: (kinds.0 == StdioKind::Piped, kinds.1 == StdioKind::Piped, kinds.2 == StdioKind::Piped),
            ok: false,
            at_us: ctx.now_us(),
        };
        let fail = match &inst {
            None => Some(2),
            Some(i) if i.spawn_errno != 0 => Some(i.spawn_errno),
            Some(i) => match i.probe {
                Probe::SpawnErr(e) => Some(e),
                _ => None,
            },
        };
        if let Some(e) = fail {
            ctx.s().spawns.push(rec);
            ctx.count("fault.spawn_error");
            ctx.ev("process", "spawn failed", e as u64);
            return Err(io::Error::from_raw_os_error(e));
        }
        let broken = matches!(inst.as_ref().unwrap().probe, Probe::Exit(_) | Probe::Signal(_));
        ctx.s().spawns.push(SpawnRec { ok: true, ..rec });
        ctx.ev("process", "spawn", self.args.len() as u64);
        let state = Arc::new(ChildState {
            status: Mutex::new(None),
            exited: tokio::sync::Notify::new(),
            kill: tokio::sync::Notify::new(),
            killed_at: Mutex::new(None),
        });
        let caps = ctx.s().pipe_caps;
        let (mut ci, mut co, mut ce) = (None, None, None);
        let mut world = SpawnedChild {
            state: state.clone(),
            stdin: None,
            stdout: None,
            stderr: None,
            stderr_inherited: kinds.2 == StdioKind::Inherit,
        };
        if kinds.0 == StdioKind::Piped {
            let (r, w) = pipe(caps.0);
            ci = Some(ChildIn::new(w));
            world.stdin = Some(r);
        }
        if kinds.1 == StdioKind::Piped {
            let (r, w) = pipe(caps.1);
            co = Some(ChildOut::new(r, "child.stdout"));
            world.stdout = Some(w);
        }
        if kinds.2 == StdioKind::Piped {
            let (r, w) = pipe(caps.2);
            ce = Some(ChildOut::new(r, "child.stderr"));
            world.stderr = Some(w);
        }
        if broken {
            // it starts, fails at once, and is gone
            let code = match inst.unwrap().probe {
                Probe::Exit(c) => (c & 0xff) << 8,
                Probe::Signal(s) => s & 0x7f,
                _ => 0,
            };
            drop(world);
            state.finish(code);
        } else {
            let cb = ctx.on_spawn.lock().unwrap().clone();
            match cb {
                Some(cb) => cb(world),
                None => {
                    drop(world);
                    state.finish(0)
                }
            }
        }
        Ok(Spawned { state, stdin: ci, stdout: co, stderr: ce })
    }
}

pub struct Spawned {
    pub state: Arc<ChildState>,
    pub stdin: Option<ChildIn>,
    pub stdout: Option<ChildOut>,
    pub stderr: Option<ChildOut>,
}

impl ChildState {
    pub fn finish(&self, raw: i32) {
        let mut s = self.status.lock().unwrap();
        if s.is_none() {
            *s = Some(raw);
        }
        drop(s);
        self.exited.notify_waiters();
    }
    pub fn try_status(&self) -> Option<ExitStatus> {
        self.status.lock().unwrap().map(ExitStatus::from_raw)
    }
    pub async fn wait(&self) -> ExitStatus {
        loop {
            let n = self.exited.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if let Some(s) = self.try_status() {
                return s;
            }
            n.await;
        }
    }
    pub fn send_kill(&self) {
        let ctx = cur();
        let mut k = self.killed_at.lock().unwrap();
        if k.is_none() {
            *k = Some(ctx.now_us());
            ctx.ev("process", "kill", 0);
            ctx.count("reach.child_killed");
        }
        drop(k);
        self.kill.notify_one();
    }
}

pub async fn reap_delay() {
    let ctx = cur();
    let mut rng = crate::rng::Rng::stream(ctx.seed ^ ctx.next_id(), "reap");
    if let Some(d) = ctx.take_delay(&mut rng) {
        tokio::time::sleep(d.min(Duration::from_millis(5))).await;
    }
}
