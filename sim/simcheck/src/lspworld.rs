//! The world around the language-server proxy: an editor, a language server, their streams and their faults.
use serde::{Deserialize, Serialize};
use simrt::ctx::*;
use simrt::pipe::{pipe, PipeR, PipeW};
use simrt::rng::Rng;
use simrt::run::{run_program, ProgramEnd};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Text(String),
    Raw(Vec<u8>),
}
impl Body {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Body::Text(s) => s.as_bytes(),
            Body::Raw(b) => b,
        }
    }
}

/// One thing a peer writes: a header block and a body, in chunks.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Item {
    pub delay_us: u64,
    /// `None`: the canonical `Content-Length: n\r\n\r\n`
    pub header: Option<String>,
    pub header_raw: Option<Vec<u8>>,
    pub body: Body,
    /// sizes of the peer's successive writes (cycled); empty = one write
    pub chunks: Vec<u32>,
    pub gap_us: u64,
    /// only this many bytes are ever written; the stream ends there
    pub cut: Option<u32>,
    /// wait until this many messages arrived from the other side (at most 3 virtual seconds)
    pub after_recv: u32,
    /// false: malformed on purpose
    pub good: bool,
}

impl Item {
    pub fn new(body: String) -> Item {
        Item {
            delay_us: 0,
            header: None,
            header_raw: None,
            body: Body::Text(body),
            chunks: vec![],
            gap_us: 0,
            cut: None,
            after_recv: 0,
            good: true,
        }
    }
    pub fn wire(&self) -> Vec<u8> {
        let b = self.body.bytes();
        let mut v = match (&self.header_raw, &self.header) {
            (Some(r), _) => r.clone(),
            (None, Some(h)) => h.clone().into_bytes(),
            (None, None) => format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes(),
        };
        v.extend_from_slice(b);
        if let Some(c) = self.cut {
            v.truncate(c as usize);
        }
        v
    }
    pub fn complete(&self) -> bool {
        self.good && self.cut.is_none()
    }
    pub fn text(&self) -> &str {
        match &self.body {
            Body::Text(s) => s,
            Body::Raw(_) => "",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Reading {
    pub chunk_max: u32,
    /// (from, for) windows without reading
    pub stalls: Vec<(u64, u64)>,
    /// pause after each read
    pub pause_us: u64,
}
impl Reading {
    pub fn eager() -> Reading {
        Reading { chunk_max: 65536, stalls: vec![], pause_us: 0 }
    }
    pub fn total_stall(&self) -> u64 {
        self.stalls.iter().map(|s| s.1).sum()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EditorEnd {
    Stay,
    /// closes its sending side only
    CloseStdin { delay_us: u64 },
    /// goes away: closes everything
    CloseAll { delay_us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ServerEnd {
    Stay,
    /// after its script: closes its outputs and exits `linger_us` later
    Exit { delay_us: u64, raw_status: i32, linger_us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OnEof {
    Ignore,
    ExitAfter { us: u64, last: Vec<Item> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ErrItem {
    pub delay_us: u64,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lsp {
    pub seed: u64,
    pub knobs: Knobs,
    pub env: BTreeMap<String, String>,
    pub args: Vec<String>,
    pub installs: Vec<Install>,
    /// editor->proxy, proxy->editor, proxy->server, server->proxy, server stderr
    pub caps: [u32; 5],
    pub editor: Vec<Item>,
    pub editor_end: EditorEnd,
    pub editor_read: Reading,
    pub server: Vec<Item>,
    pub server_end: ServerEnd,
    pub server_eof: OnEof,
    pub server_read: Reading,
    pub stderr: Vec<ErrItem>,
    /// the server closes its stderr this long after its last item there
    pub stderr_close_us: Option<u64>,
    /// the editor closes the proxy's stderr at this time
    pub editor_closes_stderr_us: Option<u64>,
    pub horizon_us: u64,
    /// how often what the program holds is looked at (0: never)
    #[serde(default)]
    pub sample_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Stream {
    #[serde(with = "latin1")]
    pub bytes: Vec<u8>,
    /// (time, cumulative length)
    pub marks: Vec<(u64, u64)>,
    pub eof_at: Option<u64>,
}
impl Stream {
    fn add(&mut self, t: u64, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        let n = self.bytes.len() as u64;
        match self.marks.last_mut() {
            Some(m) if m.0 == t => m.1 = n,
            _ => self.marks.push((t, n)),
        }
    }
    /// when byte number `n` (1-based count) had arrived
    pub fn time_of(&self, n: u64) -> Option<u64> {
        self.marks.iter().find(|m| m.1 >= n).map(|m| m.0)
    }
}

pub mod latin1 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        let t: String = b.iter().map(|&c| c as char).collect();
        s.serialize_str(&t)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok(s.chars().map(|c| c as u32 as u8).collect())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct LspRun {
    pub code: Option<i32>,
    pub ended_at: u64,
    pub hung: bool,
    pub livelock: bool,
    pub to_server: Stream,
    pub to_editor: Stream,
    /// when the last byte of item i was accepted by the pipe (None: not fully written)
    pub editor_sent: Vec<Option<u64>>,
    pub server_sent: Vec<Option<u64>>,
    pub last_sent: Vec<Option<u64>>,
    pub stderr_sent: Vec<Option<u64>>,
    pub editor_closed_at: Option<u64>,
    pub server_closed_at: Option<u64>,
    pub server_exit_at: Option<u64>,
    pub server_status: Option<i32>,
    pub server_killed_at: Option<u64>,
    pub servers_started: u32,
    #[serde(with = "latin1")]
    pub stderr_program: Vec<u8>,
    #[serde(with = "latin1")]
    pub stderr_other: Vec<u8>,
    pub probes: Vec<String>,
    pub spawns: Vec<(String, Vec<String>, (bool, bool, bool), bool)>,
    pub panics: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub digest: u64,
    pub sched: u64,
    pub steps: u64,
    pub virtual_us: u64,
    pub max_alloc: u64,
    #[serde(default)]
    pub peak: u64,
    /// from time to time: what the program held, and how much had come through by then (to the editor, to the server, diagnostics)
    #[serde(default)]
    pub samples: Vec<[u64; 4]>,
    pub unsupported: Option<String>,
    pub trace: Vec<String>,
}

#[derive(Default)]
struct Rec {
    to_server: Stream,
    to_editor: Stream,
    editor_sent: Vec<Option<u64>>,
    server_sent: Vec<Option<u64>>,
    last_sent: Vec<Option<u64>>,
    stderr_sent: Vec<Option<u64>>,
    editor_closed_at: Option<u64>,
    server_closed_at: Option<u64>,
    server_exit_at: Option<u64>,
    server_status: Option<i32>,
    server_killed_at: Option<u64>,
    servers_started: u32,
    to_server_msgs: u32,
    to_editor_msgs: u32,
    samples: Vec<[u64; 4]>,
}
type Shared = Arc<Mutex<Rec>>;

async fn sleep(us: u64) {
    if us > 0 {
        tokio::time::sleep(Duration::from_micros(us)).await
    }
}

fn count_frames(b: &[u8]) -> u32 {
    crate::frames::parse(b).frames.len() as u32
}

/// Write one item; false if the stream is gone or ends here.
async fn send_item(ctx: &Ctx, who: &str, w: &PipeW, it: &Item) -> Result<bool, ()> {
    let wire = it.wire();
    let mut off = 0;
    let mut k = 0;
    while off < wire.len() {
        let n = if it.chunks.is_empty() {
            wire.len()
        } else {
            it.chunks[k % it.chunks.len()].max(1) as usize
        };
        k += 1;
        // a cyclic pattern of tiny writes over a long body would only cost time
        let n = if k > 400 { wire.len() } else { n };
        let end = (off + n).min(wire.len());
        if w.write_all(&wire[off..end]).await.is_err() {
            ctx.ev(who, "peer write: broken", 0);
            return Err(());
        }
        ctx.ev(who, "peer write", (end - off) as u64);
        off = end;
        if off < wire.len() && it.gap_us > 0 && k <= 64 {
            sleep(it.gap_us).await;
        }
    }
    Ok(it.cut.is_none())
}

async fn read_loop(ctx: Arc<Ctx>, who: &'static str, r: &PipeR, pol: Reading, mut got: impl FnMut(u64, &[u8])) {
    let mut rng = Rng::stream(ctx.seed, who);
    let mut pol = pol;
    let mut reads = 0u32;
    loop {
        // a peer that trickles does so for a while, not for hundreds of kilobytes
        reads += 1;
        if reads > 2000 {
            pol.chunk_max = 65536;
            pol.pause_us = 0;
        }
        let now = ctx.now_us();
        if let Some((from, d)) = pol.stalls.iter().find(|(f, d)| *f <= now && now < f + d) {
            ctx.count("fault.peer_stalled");
            ctx.ev(who, "stall", *d);
            sleep(from + d - now).await;
            continue;
        }
        // do not let a read begun before a stall window complete inside it
        let next_stall = pol.stalls.iter().filter(|(f, _)| *f > now).map(|(f, _)| *f).min();
        let max = if pol.chunk_max <= 1 { 1 } else { rng.range(1, pol.chunk_max as u64) as usize };
        let v = match next_stall {
            Some(f) => tokio::select! {
                biased;
                _ = sleep(f - now) => continue,
                v = r.read(max) => v,
            },
            None => r.read(max).await,
        };
        ctx.ev(who, "peer read", v.len() as u64);
        got(ctx.now_us(), &v);
        if v.is_empty() {
            return;
        }
        sleep(pol.pause_us).await;
    }
}

async fn wait_recv(rec: &Shared, editor: bool, n: u32) {
    for _ in 0..60 {
        let have = {
            let r = rec.lock().unwrap();
            if editor {
                r.to_editor_msgs
            } else {
                r.to_server_msgs
            }
        };
        if have >= n {
            return;
        }
        sleep(50_000).await;
    }
}

async fn editor_writer(ctx: Arc<Ctx>, sc: Arc<Lsp>, rec: Shared, w: PipeW) {
    for (i, it) in sc.editor.iter().enumerate() {
        if it.after_recv > 0 {
            wait_recv(&rec, true, it.after_recv).await;
        }
        sleep(it.delay_us).await;
        match send_item(&ctx, "editor", &w, it).await {
            Ok(true) => {
                rec.lock().unwrap().editor_sent[i] = Some(ctx.now_us());
            }
            Ok(false) => break,
            Err(()) => break,
        }
    }
    match sc.editor_end {
        EditorEnd::Stay => {
            std::future::pending::<()>().await;
        }
        EditorEnd::CloseStdin { delay_us } | EditorEnd::CloseAll { delay_us } => {
            sleep(delay_us).await;
            rec.lock().unwrap().editor_closed_at = Some(ctx.now_us());
            ctx.ev("editor", "closes", 0);
            drop(w);
        }
    }
}

async fn server_main(ctx: Arc<Ctx>, sc: Arc<Lsp>, rec: Shared, ch: SpawnedChild) {
    let SpawnedChild { state, stdin, stdout, stderr, stderr_inherited } = ch;
    let eof = tokio::sync::Notify::new();
    let scripted = tokio::sync::Notify::new();
    let stop = std::cell::Cell::new(false);
    let stop = SendCell(stop);
    let out = tokio::sync::Mutex::new(stdout);
    let err = tokio::sync::Mutex::new(stderr);
    let reader = async {
        if let Some(r) = &stdin {
            read_loop(ctx.clone(), "server", r, sc.server_read.clone(), |t, b| {
                let mut rc = rec.lock().unwrap();
                if b.is_empty() {
                    rc.to_server.eof_at = Some(t);
                } else {
                    rc.to_server.add(t, b);
                    if sc.server.iter().any(|i| i.after_recv > 0) {
                        rc.to_server_msgs = count_frames(&rc.to_server.bytes);
                    }
                }
            })
            .await;
            if let OnEof::ExitAfter { .. } = sc.server_eof {
                stop.set(true);
            }
            eof.notify_one();
        }
        std::future::pending::<()>().await
    };
    let writer = async {
        for (i, it) in sc.server.iter().enumerate() {
            if it.after_recv > 0 {
                wait_recv(&rec, false, it.after_recv).await;
            }
            sleep(it.delay_us).await;
            if stop.get() {
                break;
            }
            let g = out.lock().await;
            let Some(w) = g.as_ref() else { break };
            match send_item(&ctx, "server", w, it).await {
                Ok(true) => {
                    rec.lock().unwrap().server_sent[i] = Some(ctx.now_us());
                }
                _ => break,
            }
        }
        scripted.notify_one();
        std::future::pending::<()>().await
    };
    let errw = async {
        for (i, e) in sc.stderr.iter().enumerate() {
            sleep(e.delay_us).await;
            let g = err.lock().await;
            if stderr_inherited {
                let _ = ctx.write_stderr(Chan::Program, &e.data);
                rec.lock().unwrap().stderr_sent[i] = Some(ctx.now_us());
            } else if let Some(w) = g.as_ref() {
                if w.write_all(&e.data).await.is_ok() {
                    ctx.ev("server", "stderr", e.data.len() as u64);
                    rec.lock().unwrap().stderr_sent[i] = Some(ctx.now_us());
                } else {
                    break;
                }
            }
        }
        if let Some(d) = sc.stderr_close_us {
            sleep(d).await;
            err.lock().await.take();
            ctx.count("fault.server_stderr_closed_early");
            ctx.ev("server", "closes stderr", 0);
        }
        std::future::pending::<()>().await
    };
    let by_script = async {
        match sc.server_end {
            ServerEnd::Stay => std::future::pending::<(i32, u64)>().await,
            ServerEnd::Exit { delay_us, raw_status, linger_us } => {
                scripted.notified().await;
                sleep(delay_us).await;
                (raw_status, linger_us)
            }
        }
    };
    let by_eof = async {
        match &sc.server_eof {
            OnEof::Ignore => std::future::pending::<(i32, u64)>().await,
            OnEof::ExitAfter { us, last } => {
                eof.notified().await;
                sleep(*us).await;
                let g = out.lock().await;
                if let Some(w) = g.as_ref() {
                    for (i, it) in last.iter().enumerate() {
                        sleep(it.delay_us).await;
                        match send_item(&ctx, "server", w, it).await {
                            Ok(true) => rec.lock().unwrap().last_sent[i] = Some(ctx.now_us()),
                            _ => break,
                        }
                    }
                }
                (0, 0)
            }
        }
    };
    let ended = tokio::select! {
        biased;
        _ = state.kill.notified() => None,
        x = by_script => Some(x),
        x = by_eof => Some(x),
        _ = reader => None,
        _ = writer => None,
        _ = errw => None,
    };
    drop(out);
    drop(err);
    match ended {
        Some((status, linger)) => {
            let t = ctx.now_us();
            rec.lock().unwrap().server_closed_at = Some(t);
            ctx.ev("server", "closes output", 0);
            drop(stdin);
            tokio::select! {
                biased;
                _ = state.kill.notified() => killed(&ctx, &rec, &state),
                _ = sleep(linger) => exited(&ctx, &rec, &state, status),
            }
        }
        None => {
            drop(stdin);
            killed(&ctx, &rec, &state);
        }
    }
}

/// The world runs on one thread.
struct SendCell(std::cell::Cell<bool>);
unsafe impl Sync for SendCell {}
impl SendCell {
    fn set(&self, v: bool) {
        self.0.set(v)
    }
    fn get(&self) -> bool {
        self.0.get()
    }
}

fn killed(ctx: &Ctx, rec: &Shared, state: &ChildState) {
    let t = ctx.now_us();
    {
        let mut r = rec.lock().unwrap();
        r.server_exit_at = Some(t);
        r.server_killed_at = Some(t);
        r.server_status = Some(9);
        r.server_closed_at.get_or_insert(t);
    }
    ctx.ev("server", "killed", 0);
    state.finish(9);
}
fn exited(ctx: &Ctx, rec: &Shared, state: &ChildState, status: i32) {
    let t = ctx.now_us();
    {
        let mut r = rec.lock().unwrap();
        r.server_exit_at = Some(t);
        r.server_status = Some(status);
        r.server_closed_at.get_or_insert(t);
    }
    ctx.ev("server", "exits", status as u64);
    state.finish(status);
}

impl Lsp {
    pub fn last_len(&self) -> usize {
        match &self.server_eof {
            OnEof::ExitAfter { last, .. } => last.len(),
            _ => 0,
        }
    }
    pub fn last_items(&self) -> &[Item] {
        match &self.server_eof {
            OnEof::ExitAfter { last, .. } => last,
            _ => &[],
        }
    }
}

pub fn run(sc: &Lsp, trace: bool) -> LspRun {
    crate::alloc::reset();
    let sc = Arc::new(sc.clone());
    let ctx = Ctx::new(sc.seed, sc.knobs.clone(), sc.horizon_us, trace);
    let rec: Shared = Arc::new(Mutex::new(Rec {
        editor_sent: vec![None; sc.editor.len()],
        server_sent: vec![None; sc.server.len()],
        last_sent: vec![None; sc.last_len()],
        stderr_sent: vec![None; sc.stderr.len()],
        ..Default::default()
    }));
    {
        let mut s = ctx.s();
        s.env = sc.env.clone();
        s.args = std::iter::once("lsp-proxy".to_string()).chain(sc.args.iter().cloned()).collect();
        s.installs = sc.installs.clone();
        s.pipe_caps = (sc.caps[2] as usize, sc.caps[3] as usize, sc.caps[4] as usize);
    }
    let (in_r, in_w) = pipe(sc.caps[0] as usize);
    let (out_r, out_w) = pipe(sc.caps[1] as usize);
    let (err_r, err_w) = pipe(usize::MAX / 2);
    ctx.s().stdin = StdinSrc::Pipe(Arc::new(in_r));
    ctx.stdout_raw.lock().unwrap().sink = Sink::Pipe(Arc::new(out_w));
    ctx.s().stderr_pipe = Some(Arc::new(err_w));
    {
        let sc = sc.clone();
        let rec = rec.clone();
        let ctx2 = Arc::downgrade(&ctx);
        *ctx.on_spawn.lock().unwrap() = Some(Arc::new(move |ch: SpawnedChild| {
            let ctx = ctx2.upgrade().unwrap();
            rec.lock().unwrap().servers_started += 1;
            let (sc, rec) = (sc.clone(), rec.clone());
            tokio::spawn(async move { server_main(ctx, sc, rec, ch).await });
        }));
    }
    let actors = {
        let (sc, rec) = (sc.clone(), rec.clone());
        move |ctx: &Arc<Ctx>| {
            let gone = Arc::new(tokio::sync::Notify::new());
            {
                let (ctx, sc, rec, gone) = (ctx.clone(), sc.clone(), rec.clone(), gone.clone());
                tokio::spawn(async move {
                    let all = matches!(sc.editor_end, EditorEnd::CloseAll { .. });
                    editor_writer(ctx, sc, rec, in_w).await;
                    if all {
                        gone.notify_one();
                    }
                });
            }
            {
                let (ctx, sc, rec, gone) = (ctx.clone(), sc.clone(), rec.clone(), gone.clone());
                tokio::spawn(async move {
                    let track = sc.editor.iter().any(|i| i.after_recv > 0);
                    let rl = read_loop(ctx.clone(), "editor-reader", &out_r, sc.editor_read.clone(), |t, b| {
                        let mut rc = rec.lock().unwrap();
                        if b.is_empty() {
                            rc.to_editor.eof_at = Some(t);
                        } else {
                            rc.to_editor.add(t, b);
                            if track {
                                rc.to_editor_msgs = count_frames(&rc.to_editor.bytes);
                            }
                        }
                    });
                    tokio::select! {
                        biased;
                        _ = gone.notified() => { ctx.count("fault.editor_gone"); }
                        _ = rl => {}
                    }
                    drop(out_r);
                });
            }
            {
                let (ctx, sc, rec) = (ctx.clone(), sc.clone(), rec.clone());
                tokio::spawn(async move {
                    while sc.sample_us > 0 && !ctx.s().exiting {
                        sleep(sc.sample_us).await;
                        let e = ctx.s().stderr_log.iter().map(|x| x.1.len() as u64).sum();
                        let mut rc = rec.lock().unwrap();
                        let s = [crate::alloc::live(), rc.to_editor.bytes.len() as u64, rc.to_server.bytes.len() as u64, e];
                        rc.samples.push(s);
                    }
                });
            }
            {
                let sc = sc.clone();
                let ctx = ctx.clone();
                tokio::spawn(async move {
                    match sc.editor_closes_stderr_us {
                        Some(t) => {
                            sleep(t).await;
                            ctx.count("fault.proxy_stderr_closed");
                            drop(err_r);
                        }
                        None => {
                            std::future::pending::<()>().await;
                            drop(err_r);
                        }
                    }
                });
            }
        }
    };
    let end: ProgramEnd = run_program(ctx.clone(), gen_lsp_main::__sim_entry, actors, 40_000_000, |_| {});
    let max_alloc = crate::alloc::max();
    let peak = crate::alloc::peak();
    let mut s = ctx.s();
    let r = rec.lock().unwrap();
    let mut program = vec![];
    let mut other = vec![];
    for (c, b) in &s.stderr_log {
        match c {
            Chan::Program => program.extend_from_slice(b),
            _ => other.extend_from_slice(b),
        }
    }
    // what the peers do once the world is being taken down is no part of an open session
    let before = |t: Option<u64>| t.filter(|t| !end.hung || *t < end.at_us);
    LspRun {
        code: end.code,
        ended_at: end.at_us,
        hung: end.hung,
        livelock: end.livelock,
        to_server: r.to_server.clone(),
        to_editor: r.to_editor.clone(),
        editor_sent: r.editor_sent.clone(),
        server_sent: r.server_sent.clone(),
        last_sent: r.last_sent.clone(),
        stderr_sent: r.stderr_sent.clone(),
        editor_closed_at: before(r.editor_closed_at),
        server_closed_at: before(r.server_closed_at),
        server_exit_at: before(r.server_exit_at),
        server_status: r.server_status,
        server_killed_at: before(r.server_killed_at),
        servers_started: r.servers_started,
        stderr_program: program,
        stderr_other: other,
        probes: s.probes.clone(),
        spawns: s.spawns.iter().map(|x| (x.path.clone(), x.args.clone(), x.piped, x.ok)).collect(),
        panics: s.panics.clone(),
        counters: s.counters.clone(),
        digest: s.digest,
        sched: s.sched,
        steps: s.steps,
        virtual_us: end.at_us,
        max_alloc,
        peak,
        samples: r.samples.clone(),
        unsupported: s.unsupported.clone(),
        trace: s.trace.take().unwrap_or_default(),
    }
}
