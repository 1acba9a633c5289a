//! Wrapping of the program's tasks: seeded yields, step accounting, process exit.
use crate::ctx::{cur, Ctx, IN_PROGRAM};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// Unwinds out of the program when it calls `process::exit`.
pub struct SimExit(pub i32);
/// Unwinds out of the program when the run's horizon passed.
pub struct SimHung;

pub struct SimTask<F> {
    fut: Pin<Box<F>>,
    ctx: Arc<Ctx>,
    name: String,
}

impl<F: Future> SimTask<F> {
    pub fn new(fut: F) -> Self {
        let ctx = cur();
        let name = format!("task{}", ctx.next_id());
        SimTask { fut: Box::pin(fut), ctx, name }
    }
}

pub fn in_program<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_PROGRAM.with(|x| x.set(self.0));
        }
    }
    let _r = Reset(IN_PROGRAM.with(|x| x.replace(true)));
    f()
}
pub fn out_of_program<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_PROGRAM.with(|x| x.set(self.0));
        }
    }
    let _r = Reset(IN_PROGRAM.with(|x| x.replace(false)));
    f()
}

impl<F: Future> Future for SimTask<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        if self.ctx.s().exiting {
            return Poll::Pending;
        }
        if !self.ctx.step() {
            return Poll::Pending; // livelocked: freeze, so that virtual time reaches the horizon
        }
        let y = {
            let p = self.ctx.knobs.p_yield;
            self.ctx.s().sched_rng.pm(p)
        };
        if y {
            self.ctx.ev(&self.name, "yield", 0);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.ctx.ev(&self.name, "poll", 0);
        let this = &mut *self;
        let r = in_program(|| catch_unwind(AssertUnwindSafe(|| this.fut.as_mut().poll(cx))));
        match r {
            Ok(p) => {
                if p.is_ready() {
                    this.ctx.ev(&this.name, "done", 0);
                }
                p
            }
            Err(e) => match e.downcast::<SimExit>() {
                Ok(x) => {
                    this.ctx.ev("program", "exit()", x.0 as u64);
                    this.ctx.set_exit(x.0);
                    Poll::Pending
                }
                Err(e) => {
                    this.ctx.ev(&this.name, "panicked", 0);
                    resume_unwind(e)
                }
            },
        }
    }
}

/// Remember a task, and forget those that have ended: a handle would keep their memory.
pub fn keep(v: &mut Vec<tokio::task::AbortHandle>, h: tokio::task::AbortHandle) {
    out_of_program(|| {
        if v.len() >= 8 {
            v.retain(|h| !h.is_finished());
        }
        v.push(h);
    })
}

pub fn register(h: tokio::task::AbortHandle) {
    keep(&mut cur().s().aborts, h);
}

pub fn spawn<F>(fut: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let h = tokio::spawn(SimTask::new(fut));
    register(h.abort_handle());
    h
}
