//! Running one program from process start to process end, in one simulated world.
use crate::ctx::*;
use crate::task::*;
use std::future::Future;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::Once;
use std::time::Duration;

static HOOK: Once = Once::new();

pub fn install_panic_hook() {
    HOOK.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if info.payload().is::<SimExit>() || info.payload().is::<SimHung>() {
                return;
            }
            let prog = IN_PROGRAM.try_with(|x| x.get()).unwrap_or(false);
            if prog {
                if let Some(c) = try_cur() {
                    let msg = format!("{}", info);
                    if let Ok(mut s) = c.m.try_lock() {
                        s.panics.push(msg.clone());
                    }
                    let _ = c.write_stderr(Chan::Panic, format!("\n{}\n", msg).as_bytes());
                    return;
                }
            }
            default(info);
        }));
    });
}

enum Ended<T> {
    Value(T),
    Panic(Box<dyn std::any::Any + Send>),
    Exit,
    Hung,
}

async fn until_exit(ctx: &Ctx) {
    loop {
        let n = ctx.exit_notify.notified();
        if ctx.s().exiting {
            return;
        }
        n.await;
    }
}

async fn until_horizon(ctx: &Ctx) {
    let now = ctx.now_us();
    tokio::time::sleep(Duration::from_micros(ctx.horizon_us.saturating_sub(now))).await
}

struct CatchMain<F: Future>(SimTask<F>);
impl<F: Future> Future for CatchMain<F> {
    type Output = Result<F::Output, Box<dyn std::any::Any + Send>>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        let inner = std::pin::Pin::new(&mut self.0);
        match catch_unwind(AssertUnwindSafe(|| inner.poll(cx))) {
            Ok(std::task::Poll::Ready(v)) => std::task::Poll::Ready(Ok(v)),
            Ok(std::task::Poll::Pending) => std::task::Poll::Pending,
            Err(e) => std::task::Poll::Ready(Err(e)),
        }
    }
}

/// What `#[tokio::main]` and `Runtime::block_on` become.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let ctx = cur();
    let rt = rt();
    let ended = out_of_program(|| {
        rt.block_on(async {
            let main = CatchMain(SimTask::new(fut));
            let r = tokio::select! {
                biased;
                _ = until_exit(&ctx) => Ended::Exit,
                _ = until_horizon(&ctx) => Ended::Hung,
                v = main => match v { Ok(v) => Ended::Value(v), Err(e) => Ended::Panic(e) },
            };
            let r = match r {
                Ended::Value(v) => {
                    // The runtime is dropped: tasks are cancelled, blocking operations are waited for.
                    match shutdown(&ctx).await {
                        true => Ended::Value(v),
                        false => Ended::Hung,
                    }
                }
                Ended::Panic(e) => match shutdown(&ctx).await {
                    true => Ended::Panic(e),
                    false => Ended::Hung,
                },
                x => x,
            };
            r
        })
    });
    match ended {
        Ended::Value(v) => v,
        Ended::Panic(e) => std::panic::resume_unwind(e),
        Ended::Exit => {
            let code = ctx.s().exit.unwrap_or(0);
            std::panic::panic_any(SimExit(code))
        }
        Ended::Hung => std::panic::panic_any(SimHung),
    }
}

pub async fn abort_tasks(ctx: &Ctx) {
    let hs: Vec<_> = std::mem::take(&mut ctx.s().aborts);
    for h in &hs {
        h.abort();
    }
    for _ in 0..3 {
        tokio::task::yield_now().await;
    }
}

/// Models dropping a tokio runtime. False if it never finishes.
async fn shutdown(ctx: &Arc<Ctx>) -> bool {
    abort_tasks(ctx).await;
    ctx.ev("runtime", "shutdown", 0);
    loop {
        let n = ctx.idle_notify.notified();
        let (i, o) = {
            let s = ctx.s();
            (s.stdin_inflight, s.stdout_ops)
        };
        if i == 0 && o == 0 {
            return true;
        }
        if i > 0 {
            ctx.count("reach.runtime_waits_for_blocking_stdin_read");
        }
        tokio::select! {
            biased;
            _ = n => {}
            _ = until_horizon(ctx) => return false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ProgramEnd {
    /// None: never ended within the horizon
    pub code: Option<i32>,
    pub at_us: u64,
    pub hung: bool,
    pub livelock: bool,
    pub explicit_exit: bool,
}

pub fn make_runtime(seed: u64) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .expect("runtime")
}

/// Run `entry` as the program's process; `actors` starts the rest of the world; `drain` lets the world run on
/// after the program ended.
pub fn run_program<A, D>(ctx: Arc<Ctx>, entry: fn() -> i32, actors: A, drain_us: u64, drain: D) -> ProgramEnd
where
    A: FnOnce(&Arc<Ctx>),
    D: FnOnce(&Arc<Ctx>),
{
    install_panic_hook();
    let rt = Rc::new(make_runtime(ctx.seed));
    set_rt(Some(rt.clone()));
    set_cur(Some(ctx.clone()));
    let guard = rt.enter();
    set_t0();
    actors(&ctx);
    let r = in_program(|| catch_unwind(AssertUnwindSafe(entry)));
    let mut hung = false;
    let mut explicit = false;
    let code = match r {
        Ok(c) => Some(c),
        Err(e) => match e.downcast::<SimExit>() {
            Ok(x) => {
                explicit = true;
                Some(x.0)
            }
            Err(e) => {
                if e.is::<SimHung>() {
                    hung = true;
                    None
                } else {
                    Some(101)
                }
            }
        },
    };
    let end = rt.block_on(async {
        // std's exit-time cleanup: flush buffered stdout unless another thread is inside it.
        if code.is_some() {
            let busy = ctx.s().stdout_ops > 0;
            if !busy {
                let res = ctx.stdout_lw.lock().unwrap_or_else(|e| e.into_inner()).flush();
                let _ = res;
                let (stage, pipe) = {
                    let mut raw = ctx.stdout_raw.lock().unwrap();
                    let stage = std::mem::take(&mut raw.stage);
                    let pipe = match &raw.sink {
                        Sink::Pipe(p) => Some(p.clone()),
                        _ => None,
                    };
                    (stage, pipe)
                };
                if let Some(p) = pipe {
                    if !stage.is_empty() {
                        ctx.count("reach.cleanup_flushed_stdout");
                        tokio::select! {
                            biased;
                            _ = p.write_all(&stage) => {}
                            _ = until_horizon(&ctx) => { hung = true; }
                        }
                    }
                }
            } else {
                ctx.count("reach.exit_during_stdout_write");
            }
        }
        ctx.s().exiting = true;
        let ops = std::mem::take(&mut ctx.s().op_aborts);
        for h in &ops {
            h.abort();
        }
        abort_tasks(&ctx).await;
        ctx.ev("program", "ended", code.unwrap_or(-1) as u64);
        let at = ctx.now_us();
        // the kernel closes the process's descriptors
        {
            let mut s = ctx.s();
            s.stdin = StdinSrc::None;
            s.stderr_pipe = None;
            s.stderr_closed = true;
        }
        ctx.stdout_raw.lock().unwrap().sink_close();
        let livelock = ctx.s().livelock;
        drain(&ctx);
        tokio::time::sleep(Duration::from_micros(drain_us)).await;
        ProgramEnd { code: if hung { None } else { code }, at_us: at, hung, livelock, explicit_exit: explicit }
    });
    *ctx.on_spawn.lock().unwrap() = None;
    drop(guard);
    set_rt(None);
    drop(rt);
    set_cur(None);
    end
}

impl RawState {
    pub fn sink_close(&mut self) {
        if let Sink::Pipe(_) = self.sink {
            self.sink = Sink::None;
        }
    }
}
