//! Kernel pipes: bounded byte queues with independent read and write ends.
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct Inner {
    buf: VecDeque<u8>,
    cap: usize,
    writer: bool,
    reader: bool,
    rw: Vec<Waker>,
    ww: Vec<Waker>,
    pub total_in: u64,
    pub total_out: u64,
}

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<Inner>>);

pub struct PipeR(Pipe);
pub struct PipeW(Pipe);

pub fn pipe(cap: usize) -> (PipeR, PipeW) {
    let p = Pipe(Arc::new(Mutex::new(Inner {
        buf: VecDeque::new(),
        cap: cap.max(1),
        writer: true,
        reader: true,
        rw: vec![],
        ww: vec![],
        total_in: 0,
        total_out: 0,
    })));
    (PipeR(p.clone()), PipeW(p))
}

fn wake(ws: &mut Vec<Waker>) {
    for w in ws.drain(..) {
        w.wake();
    }
}

impl Drop for PipeR {
    fn drop(&mut self) {
        let mut p = self.0 .0.lock().unwrap();
        p.reader = false;
        p.buf.clear();
        let mut ws = std::mem::take(&mut p.ww);
        drop(p);
        wake(&mut ws);
    }
}
impl Drop for PipeW {
    fn drop(&mut self) {
        let mut p = self.0 .0.lock().unwrap();
        p.writer = false;
        let mut ws = std::mem::take(&mut p.rw);
        drop(p);
        wake(&mut ws);
    }
}

impl PipeR {
    /// Up to `max` bytes; `Ok(empty)` is end of file.
    pub fn poll_read(&self, cx: &mut Context<'_>, max: usize) -> Poll<Vec<u8>> {
        let mut p = self.0 .0.lock().unwrap();
        if p.buf.is_empty() {
            if !p.writer {
                return Poll::Ready(vec![]);
            }
            p.rw.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = max.min(p.buf.len());
        let out: Vec<u8> = p.buf.drain(..n).collect();
        p.total_out += n as u64;
        let mut ws = std::mem::take(&mut p.ww);
        drop(p);
        wake(&mut ws);
        Poll::Ready(out)
    }
    /// Ready when a read would not block.
    pub fn poll_ready(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut p = self.0 .0.lock().unwrap();
        if !p.buf.is_empty() || !p.writer {
            return Poll::Ready(());
        }
        p.rw.push(cx.waker().clone());
        Poll::Pending
    }
    pub async fn read(&self, max: usize) -> Vec<u8> {
        poll_fn(|cx| self.poll_read(cx, max)).await
    }
    pub async fn ready(&self) {
        poll_fn(|cx| self.poll_ready(cx)).await
    }
    pub fn available(&self) -> usize {
        self.0 .0.lock().unwrap().buf.len()
    }
    pub fn handle(&self) -> Pipe {
        self.0.clone()
    }
}

impl PipeW {
    pub fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0 .0.lock().unwrap();
        if !p.reader {
            return Poll::Ready(Err(io::Error::from_raw_os_error(32))); // EPIPE
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        // a pipe of a few bytes stays that small only for a while: a long body would take all day
        let cap = if p.cap < 512 && p.total_in > 4096 { 65536 } else { p.cap };
        let room = cap.saturating_sub(p.buf.len());
        if room == 0 {
            p.ww.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = room.min(data.len());
        crate::task::out_of_program(|| p.buf.extend(&data[..n]));
        p.total_in += n as u64;
        let mut ws = std::mem::take(&mut p.rw);
        drop(p);
        wake(&mut ws);
        Poll::Ready(Ok(n))
    }
    pub async fn write(&self, data: &[u8]) -> io::Result<usize> {
        poll_fn(|cx| self.poll_write(cx, data)).await
    }
    pub async fn write_all(&self, mut data: &[u8]) -> io::Result<()> {
        while !data.is_empty() {
            let n = self.write(data).await?;
            data = &data[n..];
        }
        Ok(())
    }
    /// A write that never blocks: for small diagnostics whose blocking is not modelled.
    pub fn push(&self, data: &[u8]) -> io::Result<()> {
        let mut p = self.0 .0.lock().unwrap();
        if !p.reader {
            return Err(io::Error::from_raw_os_error(32));
        }
        p.buf.extend(data);
        p.total_in += data.len() as u64;
        let mut ws = std::mem::take(&mut p.rw);
        drop(p);
        wake(&mut ws);
        Ok(())
    }
    /// The read end is gone.
    pub fn broken(&self) -> bool {
        !self.0 .0.lock().unwrap().reader
    }
}
