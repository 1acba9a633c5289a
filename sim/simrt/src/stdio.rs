//! Standard streams: the synchronous operations behind the std shim, and the asynchronous ones behind the tokio shim.
use crate::ctx::*;
use crate::rng::Rng;
use std::future::Future;
use std::io::{self, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

// ---------------------------------------------------------------- synchronous

enum Next {
    Data(Vec<u8>),
    Err(io::Error),
    Eof,
}

fn snapshot(ctx: &Ctx) {
    crate::task::out_of_program(|| snapshot_(ctx))
}
fn snapshot_(ctx: &Ctx) {
    let out = match &ctx.stdout_raw.lock().unwrap().sink {
        Sink::Script { data, .. } => data.len() as u64,
        _ => return,
    };
    let mut s = ctx.s();
    let input = s.stdin_delivered;
    let live = HELD.get().map_or(0, |f| f());
    s.snaps.push(BlockSnap { input_delivered: input, output_len: out, live });
}

/// The next read(2) result on descriptor 0 from a script, with the delay it took. The caller has already decided
/// that it blocks.
fn script_next(ctx: &Ctx, max: usize) -> (u64, Next) {
    let mut s = ctx.s();
    let st = &mut *s;
    if let StdinSrc::Script { evs, cur, off, eof } = &mut st.stdin {
        if *off < cur.len() {
            let n = max.min(cur.len() - *off);
            let v = cur[*off..*off + n].to_vec();
            *off += n;
            st.stdin_delivered += n as u64;
            return (0, Next::Data(v));
        }
        if *eof {
            return (0, Next::Eof);
        }
        match evs.pop_front() {
            None => {
                *eof = true;
                (0, Next::Eof)
            }
            Some(ev) => match ev.kind {
                InKind::Eof => {
                    *eof = true;
                    (ev.delay_us, Next::Eof)
                }
                InKind::Eintr => {
                    *st.counters.entry("fault.stdin_eintr".into()).or_insert(0) += 1;
                    (ev.delay_us, Next::Err(io::Error::from_raw_os_error(4)))
                }
                InKind::Err(e) => {
                    *st.counters.entry("fault.stdin_error".into()).or_insert(0) += 1;
                    (ev.delay_us, Next::Err(io::Error::from_raw_os_error(e)))
                }
                InKind::Data(d) => {
                    let n = max.min(d.len());
                    let v = d[..n].to_vec();
                    if n < d.len() {
                        *cur = d;
                        *off = n;
                    }
                    st.stdin_delivered += n as u64;
                    (ev.delay_us, Next::Data(v))
                }
            },
        }
    } else {
        (0, Next::Eof)
    }
}

fn script_would_block(ctx: &Ctx) -> bool {
    match &ctx.s().stdin {
        StdinSrc::Script { cur, off, eof, .. } => *off >= cur.len() && !*eof,
        _ => false,
    }
}

/// read(0, ..) on the program's own thread.
pub fn stdin_read_sync(buf: &mut [u8]) -> io::Result<usize> {
    let ctx = cur();
    if !ctx.step() {
        ctx.unsupported("synchronous livelock");
    }
    let is_pipe = matches!(&ctx.s().stdin, StdinSrc::Pipe(_));
    if is_pipe {
        ctx.unsupported("synchronous read of standard input in an interactive session");
    }
    if script_would_block(&ctx) {
        snapshot(&ctx);
    }
    let (d, n) = script_next(&ctx, buf.len());
    ctx.s().sync_extra_us += d;
    match n {
        Next::Data(v) => {
            ctx.ev("stdin", "read", v.len() as u64);
            buf[..v.len()].copy_from_slice(&v);
            Ok(v.len())
        }
        Next::Err(e) => {
            ctx.ev("stdin", "read error", e.raw_os_error().unwrap_or(0) as u64);
            Err(e)
        }
        Next::Eof => {
            ctx.ev("stdin", "eof", 0);
            Ok(0)
        }
    }
}

pub fn stdout_with<R>(f: impl FnOnce(&mut dyn Write) -> io::Result<R>) -> io::Result<R> {
    let ctx = cur();
    let r = {
        let mut lw = ctx.stdout_lw.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut *lw)
    };
    // synchronous writes to a pipe: hand over without modelling a full pipe
    let mut raw = ctx.stdout_raw.lock().unwrap();
    let raw = &mut *raw;
    if let Sink::Pipe(p) = &raw.sink {
        if !raw.stage.is_empty() {
            let b = std::mem::take(&mut raw.stage);
            p.push(&b)?;
        }
    }
    r
}

pub fn print(args: std::fmt::Arguments<'_>) {
    let r = stdout_with(|w| w.write_fmt(args));
    if let Err(e) = r {
        panic!("failed printing to stdout: {e}");
    }
}
pub fn eprint(args: std::fmt::Arguments<'_>) {
    let ctx = cur();
    if let Err(e) = ctx.write_stderr(Chan::Program, args.to_string().as_bytes()) {
        panic!("failed printing to stderr: {e}");
    }
}

// ---------------------------------------------------------------- asynchronous

type Op<T> = Arc<Mutex<(Option<T>, Option<std::task::Waker>)>>;

fn op_new<T>() -> Op<T> {
    Arc::new(Mutex::new((None, None)))
}
fn op_finish<T>(op: &Op<T>, v: T) {
    let w = {
        let mut o = op.lock().unwrap();
        o.0 = Some(v);
        o.1.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
fn op_poll<T>(op: &Op<T>, cx: &mut Context<'_>) -> Poll<T> {
    let mut o = op.lock().unwrap();
    match o.0.take() {
        Some(v) => Poll::Ready(v),
        None => {
            o.1 = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

/// `tokio::io::Stdin`: at most one blocking read outstanding; a read once started cannot be cancelled and keeps the
/// runtime from shutting down.
pub struct AsyncStdin {
    buf: Vec<u8>,
    off: usize,
    op: Option<Op<io::Result<Vec<u8>>>>,
}

impl AsyncStdin {
    pub fn new() -> Self {
        AsyncStdin { buf: vec![], off: 0, op: None }
    }
}
impl Default for AsyncStdin {
    fn default() -> Self {
        Self::new()
    }
}

async fn stdin_op(ctx: Arc<Ctx>, max: usize, op: Op<io::Result<Vec<u8>>>) {
    let pipe = match &ctx.s().stdin {
        StdinSrc::Pipe(p) => Some(p.clone()),
        _ => None,
    };
    let r = match pipe {
        Some(p) => {
            loop {
                p.ready().await;
                let d = {
                    let mut rng = ctx.s().stdin_rng.clone();
                    let d = ctx.take_delay(&mut rng);
                    ctx.s().stdin_rng = rng;
                    d
                };
                if let Some(d) = d {
                    tokio::time::sleep(d).await;
                }
                let mut n = max;
                {
                    let mut s = ctx.s();
                    let avail = p.available();
                    let k = ctx.knobs.p_short_read;
                    if avail > 1 && s.stdin_rng.pm(k) {
                        let m = s.stdin_rng.skewed(avail.min(max) as u64) as usize;
                        if m < avail.min(max) {
                            *s.counters.entry("fault.stdin_short_read".into()).or_insert(0) += 1;
                        }
                        n = m;
                    }
                    if s.stdin_rng.pm(ctx.knobs.p_eintr) {
                        // std retries EINTR inside tokio's blocking read
                        *s.counters.entry("fault.stdin_eintr".into()).or_insert(0) += 1;
                        continue;
                    }
                }
                break Ok(p.read(n).await);
            }
        }
        None => {
            let (d, n) = script_next(&ctx, max);
            if d > 0 {
                tokio::time::sleep(Duration::from_micros(d)).await;
                snapshot(&ctx);
            }
            match n {
                Next::Data(v) => Ok(v),
                Next::Err(e) => Err(e),
                Next::Eof => Ok(vec![]),
            }
        }
    };
    ctx.ev("stdin", "read", r.as_ref().map(|v| v.len() as u64).unwrap_or(u64::MAX));
    ctx.s().stdin_inflight -= 1;
    op_finish(&op, r);
    ctx.idle_notify.notify_waiters();
}

impl AsyncRead for AsyncStdin {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, dst: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            if self.off < self.buf.len() {
                let n = dst.remaining().min(self.buf.len() - self.off);
                let o = self.off;
                dst.put_slice(&self.buf[o..o + n]);
                self.off += n;
                return Poll::Ready(Ok(()));
            }
            match &self.op {
                Some(op) => match op_poll(op, cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(r) => {
                        self.op = None;
                        match r {
                            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                            Err(e) => return Poll::Ready(Err(e)),
                            Ok(v) => {
                                if v.is_empty() {
                                    return Poll::Ready(Ok(()));
                                }
                                self.buf = v;
                                self.off = 0;
                            }
                        }
                    }
                },
                None => {
                    if dst.remaining() == 0 {
                        return Poll::Ready(Ok(()));
                    }
                    let ctx = cur();
                    let op = op_new();
                    ctx.s().stdin_inflight += 1;
                    let max = dst.remaining().min(2 * 1024 * 1024);
                    let h = crate::task::out_of_program(|| tokio::spawn(stdin_op(ctx.clone(), max, op.clone())));
                    crate::task::keep(&mut ctx.s().op_aborts, h.abort_handle());
                    self.op = Some(op);
                }
            }
        }
    }
}

/// `tokio::io::Stdout`: writes are handed to a blocking thread that goes through std's line-buffered stdout.
pub struct AsyncStdout {
    op: Option<Op<io::Result<()>>>,
    need_flush: bool,
    err: Option<io::Error>,
}
impl AsyncStdout {
    pub fn new() -> Self {
        AsyncStdout { op: None, need_flush: false, err: None }
    }
}
impl Default for AsyncStdout {
    fn default() -> Self {
        Self::new()
    }
}

async fn stdout_op(ctx: Arc<Ctx>, data: Option<Vec<u8>>, op: Op<io::Result<()>>) {
    let r = {
        let _g = ctx.stdout_op_lock.lock().await;
        let mut rng = Rng::stream(ctx.seed ^ ctx.next_id(), "stdout");
        let r = {
            let mut lw = ctx.stdout_lw.lock().unwrap_or_else(|e| e.into_inner());
            match &data {
                Some(d) => lw.write_all(d),
                None => lw.flush(),
            }
        };
        let (stage, pipe) = {
            let mut raw = ctx.stdout_raw.lock().unwrap();
            let st = std::mem::take(&mut raw.stage);
            let p = match &raw.sink {
                Sink::Pipe(p) => Some(p.clone()),
                _ => None,
            };
            (st, p)
        };
        let mut r = r;
        if let Some(p) = pipe {
            let mut off = 0;
            while off < stage.len() {
                if let Some(d) = ctx.take_delay(&mut rng) {
                    tokio::time::sleep(d).await;
                }
                let mut n = stage.len() - off;
                if n > 1 && rng.pm(ctx.knobs.p_short_write) {
                    n = rng.skewed(n as u64) as usize;
                    ctx.count("fault.stdout_short_write");
                }
                match p.write(&stage[off..off + n]).await {
                    Ok(k) => {
                        ctx.ev("stdout", "write", k as u64);
                        off += k;
                    }
                    Err(e) => {
                        ctx.ev("stdout", "write error", 0);
                        ctx.count("fault.stdout_epipe");
                        r = Err(e);
                        break;
                    }
                }
            }
        }
        r
    };
    ctx.s().stdout_ops -= 1;
    op_finish(&op, r);
    ctx.idle_notify.notify_waiters();
}

impl AsyncStdout {
    fn start(&mut self, data: Option<Vec<u8>>) {
        let ctx = cur();
        ctx.s().stdout_ops += 1;
        let op = op_new();
        let h = crate::task::out_of_program(|| tokio::spawn(stdout_op(ctx.clone(), data, op.clone())));
        crate::task::keep(&mut ctx.s().op_aborts, h.abort_handle());
        self.op = Some(op);
    }
    fn settle(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if let Some(op) = &self.op {
            match op_poll(op, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(r) => {
                    self.op = None;
                    return Poll::Ready(r);
                }
            }
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for AsyncStdout {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if let Some(e) = self.err.take() {
            return Poll::Ready(Err(e));
        }
        match self.settle(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => {}
        }
        let n = b.len().min(2 * 1024 * 1024);
        self.start(Some(b[..n].to_vec()));
        self.need_flush = true;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        loop {
            match self.settle(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => {
                    self.need_flush = false;
                    return Poll::Ready(Err(e));
                }
                Poll::Ready(Ok(())) => {}
            }
            if !self.need_flush {
                return Poll::Ready(Ok(()));
            }
            self.need_flush = false;
            self.start(None);
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

/// `tokio::io::Stderr`; its blocking is not modelled.
#[derive(Default)]
pub struct AsyncStderr;
impl AsyncWrite for AsyncStderr {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let ctx = cur();
        Poll::Ready(ctx.write_stderr(Chan::Program, b).map(|_| b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------- child pipes, program side

pub struct Perturb {
    rng: Rng,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    fresh: bool,
    name: &'static str,
}
impl Perturb {
    pub fn new(name: &'static str) -> Self {
        let ctx = cur();
        Perturb { rng: Rng::stream(ctx.seed, name), sleep: None, fresh: true, name }
    }
    fn gate(&mut self, ctx: &Ctx, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(s) = &mut self.sleep {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.sleep = None;
            return Poll::Ready(());
        }
        if self.fresh {
            if let Some(d) = ctx.take_delay(&mut self.rng) {
                self.sleep = Some(Box::pin(tokio::time::sleep(d)));
                self.fresh = false;
                if self.sleep.as_mut().unwrap().as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.sleep = None;
                return Poll::Ready(());
            }
            if self.rng.pm(ctx.knobs.p_notready) {
                self.fresh = false;
                ctx.count("fault.spurious_not_ready");
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        Poll::Ready(())
    }
}

pub struct ChildIn {
    w: crate::pipe::PipeW,
    p: Perturb,
    /// errno injected once this many bytes were accepted
    fail_after: Option<(u64, i32)>,
    total: u64,
}
impl ChildIn {
    pub fn new(w: crate::pipe::PipeW) -> Self {
        ChildIn { w, p: Perturb::new("child.stdin"), fail_after: None, total: 0 }
    }
}
impl AsyncWrite for ChildIn {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let ctx = cur();
        let this = &mut *self;
        if this.p.gate(&ctx, cx).is_pending() {
            return Poll::Pending;
        }
        if let Some((n, e)) = this.fail_after {
            if this.total >= n {
                return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
            }
        }
        let mut n = b.len();
        if n > 1 && this.p.rng.pm(ctx.knobs.p_short_write) {
            n = this.p.rng.skewed(n as u64) as usize;
            ctx.count("fault.child_stdin_short_write");
        }
        match this.w.poll_write(cx, &b[..n]) {
            Poll::Ready(r) => {
                this.p.fresh = true;
                match &r {
                    Ok(k) => {
                        this.total += *k as u64;
                        ctx.ev(this.p.name, "write", *k as u64)
                    }
                    Err(_) => {
                        ctx.count("fault.child_stdin_epipe");
                        ctx.ev(this.p.name, "write error", 0)
                    }
                }
                Poll::Ready(r)
            }
            Poll::Pending => {
                ctx.count("reach.child_stdin_full");
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub struct ChildOut {
    r: crate::pipe::PipeR,
    p: Perturb,
}
impl ChildOut {
    pub fn new(r: crate::pipe::PipeR, name: &'static str) -> Self {
        ChildOut { r, p: Perturb::new(name) }
    }
}
impl AsyncRead for ChildOut {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, dst: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let ctx = cur();
        let this = &mut *self;
        if dst.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if this.p.gate(&ctx, cx).is_pending() {
            return Poll::Pending;
        }
        let mut n = dst.remaining();
        let avail = this.r.available();
        if avail > 1 && this.p.rng.pm(ctx.knobs.p_short_read) {
            let m = avail.min(n);
            n = this.p.rng.skewed(m as u64) as usize;
            if n < m {
                ctx.count("fault.child_out_short_read");
            }
        }
        match this.r.poll_read(cx, n) {
            Poll::Ready(v) => {
                this.p.fresh = true;
                ctx.ev(this.p.name, "read", v.len() as u64);
                dst.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
