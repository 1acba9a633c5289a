//! The world around the library's serialisation: sources and sinks that misbehave, and parties that exchange
//! quantities over a faulty network and keep them in journals on faulty disks. The library code is the real one.
use crate::lspworld::latin1;
use crate::ports::{ports, FHow, How, WHow};
use crate::serdefmt::{Fields, Item, Rec};
use serde::{Deserialize, Serialize};
use simrt::rng::{hash64, Rng};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SerdeScn {
    pub seed: u64,
    pub kind: Kind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Decode(Vec<DStep>),
    Write(Vec<WStep>),
    Stream(Vec<StreamScn>),
    Exchange(Exchange),
}

/// How a source hands over its bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ReadPlan {
    /// sizes of the pieces, repeated; empty: everything at once
    pub pieces: Vec<u32>,
    /// numbers of the calls that are interrupted
    pub eintr: Vec<u32>,
    /// after this many bytes, an error
    pub err_at: Option<u32>,
    pub err_kind: u8,
}
/// How a sink takes bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct SinkPlan {
    pub pieces: Vec<u32>,
    pub eintr: Vec<u32>,
    /// after this many bytes nothing more is taken
    pub fail_at: Option<u32>,
    /// the refusal is "0 bytes taken" instead of an error
    pub zero: bool,
    pub err_kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DStep {
    pub port: u16,
    /// steps of one group present the same record
    pub group: u32,
    pub src: Src,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Src {
    Bytes {
        how: How,
        #[serde(with = "latin1")]
        data: Vec<u8>,
        plan: ReadPlan,
    },
    Fields { items: Vec<(String, Item)>, owned: bool, size_hint: bool, fail_at: Option<u32> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WStep {
    pub port: u16,
    /// bits of the stored value
    pub value: u64,
    pub what: What,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Record { how: WHow, sink: SinkPlan },
    Text { how: FHow, fail_at: Option<u32>, partial: bool },
    /// text into a byte sink, by write!
    TextIo { how: FHow, sink: SinkPlan },
    Calls { fail_at: Option<u32> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StreamScn {
    pub records: Vec<SRec>,
    /// between records; the last also after the last record
    pub plan: ReadPlan,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SRec {
    pub port: u16,
    /// 0: one record, 1: a list of records, 2: an envelope
    pub form: u8,
    #[serde(with = "latin1")]
    pub data: Vec<u8>,
    pub sep: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Exchange {
    pub parties: Vec<Party>,
    pub tokens: Vec<Token>,
    pub net: Net,
    /// (from, to, party): nothing reaches or leaves the party
    pub cuts: Vec<(u64, u64, u8)>,
    /// (at, party, down for)
    pub crashes: Vec<(u64, u8, u64)>,
    /// no faults from here on
    pub heal_us: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Party {
    pub port: u16,
    /// Some: sends text in this unit instead of records
    pub text_unit: Option<String>,
    pub write: WHow,
    /// the disk: refuses at (append number, byte), short writes
    pub disk_full: Vec<(u32, u32)>,
    pub disk_pieces: Vec<u32>,
    pub sync_us: u64,
    pub read_pieces: Vec<u32>,
    pub resend_us: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Token {
    pub value: u64,
    pub at_us: u64,
    pub path: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Net {
    pub min_us: u64,
    pub max_us: u64,
    pub loss: u32,
    pub dup: u32,
    pub cut: u32,
    pub eintr: u32,
    pub pieces: Vec<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Got {
    Value(u64),
    Refused(String),
    Panicked(String),
    NotApplicable,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Read { step: u32, got: Got, fired: bool },
    Wrote {
        step: u32,
        ideal: Result<String, String>,
        #[serde(with = "latin1")]
        reached: Vec<u8>,
        ok: bool,
        fired: bool,
        err: String,
        again: Result<String, String>,
    },
    Streamed { stream: u32, record: u32, got: Vec<Got> },
    /// how the stream stood after the last record
    StreamEnd { stream: u32, clean: bool, why: String },
    Sent { party: u8, value: u64, text: bool, data: String },
    Received { party: u8, got: Got, text: bool, intact: bool, data: String },
    Recovered { party: u8, complete: u32, read: u32, why: String },
    Held { party: u8, token: u32, hop: u32, value: u64 },
    DiskRefused { party: u8, reported: bool },
    Wrong(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct SerdeRun {
    pub events: Vec<Ev>,
    pub counters: BTreeMap<String, u64>,
    pub sched: u64,
    pub steps: u64,
    pub virtual_us: u64,
    pub trace: Vec<String>,
}

pub struct W {
    pub out: SerdeRun,
    log: bool,
}
impl W {
    fn count(&mut self, k: &str) {
        *self.out.counters.entry(k.to_string()).or_default() += 1;
    }
    fn seen(&mut self, what: &str) {
        self.out.steps += 1;
        self.out.sched = hash64(format!("{:x}{}", self.out.sched, what).as_bytes());
        if self.log {
            self.out.trace.push(what.to_string());
        }
    }
}

fn kind(k: u8) -> io::ErrorKind {
    [io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull][k as usize % 8]
}

pub struct Source<'a> {
    data: &'a [u8],
    plan: &'a ReadPlan,
    pos: usize,
    calls: u32,
    piece: usize,
    pub interrupted: u64,
    pub failed: u64,
    pub split: u64,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], plan: &'a ReadPlan) -> Self {
        Source { data, plan, pos: 0, calls: 0, piece: 0, interrupted: 0, failed: 0, split: 0 }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if self.plan.eintr.contains(&k) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = self.data.len() - self.pos;
        if let Some(e) = self.plan.err_at {
            let left = (e as usize).saturating_sub(self.pos);
            if left == 0 {
                self.failed += 1;
                return Err(io::Error::new(kind(self.plan.err_kind), "read failed"));
            }
            n = n.min(left);
        }
        if !self.plan.pieces.is_empty() {
            n = n.min((self.plan.pieces[self.piece % self.plan.pieces.len()] as usize).max(1));
            self.piece += 1;
        }
        let n = n.min(buf.len());
        if self.pos + n < self.data.len() {
            self.split += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct Sink<'a> {
    pub data: Vec<u8>,
    plan: &'a SinkPlan,
    calls: u32,
    piece: usize,
    pub failed: u64,
    pub interrupted: u64,
    pub short: u64,
}
impl<'a> Sink<'a> {
    pub fn new(plan: &'a SinkPlan) -> Self {
        Sink { data: vec![], plan, calls: 0, piece: 0, failed: 0, interrupted: 0, short: 0 }
    }
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.eintr.contains(&k) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some(f) = self.plan.fail_at {
            let left = (f as usize).saturating_sub(self.data.len());
            if left == 0 {
                self.failed += 1;
                return if self.plan.zero { Ok(0) } else { Err(io::Error::new(kind(self.plan.err_kind), "write failed")) };
            }
            n = n.min(left);
        }
        if !self.plan.pieces.is_empty() {
            n = n.min((self.plan.pieces[self.piece % self.plan.pieces.len()] as usize).max(1));
            self.piece += 1;
        }
        if n < buf.len() {
            self.short += 1;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A text sink that refuses from some byte on.
struct TextSink {
    data: String,
    fail_at: Option<usize>,
    partial: bool,
    failed: bool,
}
impl std::fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if let Some(f) = self.fail_at {
            if self.data.len() + s.len() > f || self.failed {
                if self.partial && !self.failed {
                    let mut k = f.saturating_sub(self.data.len()).min(s.len());
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.data.push_str(&s[..k]);
                } else if self.failed && !s.is_empty() {
                    // whoever goes on after a refusal shows up in the text
                    self.data.push_str(s);
                }
                self.failed = true;
                return Err(std::fmt::Error);
            }
        }
        self.data.push_str(s);
        Ok(())
    }
}

fn message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
fn got(f: impl FnOnce() -> Result<f64, String>) -> Got {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Got::Value(v.to_bits()),
        Ok(Err(e)) => Got::Refused(short(&e)),
        Err(p) => Got::Panicked(short(&message(p))),
    }
}
fn short(s: &str) -> String {
    s.chars().take(160).collect()
}
fn outcome(g: &Got) -> &'static str {
    match g {
        Got::Value(_) => "value",
        Got::Refused(_) => "refused",
        Got::Panicked(_) => "panicked",
        Got::NotApplicable => "n/a",
    }
}

pub fn read_step(s: &DStep, w: Option<&mut W>) -> (Got, bool) {
    let p = &ports()[s.port as usize];
    let mut fired = false;
    let mut counts: Vec<(&str, u64)> = vec![];
    let g = match &s.src {
        Src::Bytes { how, data, plan } => match how {
            How::Reader | How::ReaderOne => match p.read_io {
                Some(f) => {
                    let mut src = Source::new(data, plan);
                    let g = got(|| f(&mut src, *how));
                    fired = src.failed > 0;
                    counts = vec![("fault.read error", src.failed.min(1)), ("fault.interrupted read", src.interrupted), ("fault.short read", src.split)];
                    g
                }
                None => Got::NotApplicable,
            },
            How::Macro | How::Text => match (if *how == How::Macro { p.read_macro } else { p.read_text }, std::str::from_utf8(data)) {
                (Some(f), Ok(t)) => got(|| f(t)),
                _ => Got::NotApplicable,
            },
            How::Core | How::CoreText => match (p.read_core, std::str::from_utf8(data)) {
                (Some(f), Ok(t)) => got(|| f(t, *how)),
                _ => Got::NotApplicable,
            },
            How::Fields => Got::NotApplicable,
            _ => match p.read {
                Some(f) => got(|| f(data, *how)),
                None => Got::NotApplicable,
            },
        },
        Src::Fields { items, owned, size_hint, fail_at } => match p.read_fields {
            Some(f) => {
                let fl = Fields { items: items.clone(), owned: *owned, size_hint: *size_hint, fail_at: *fail_at };
                let g = got(|| f(fl));
                // an access number beyond the last one never fires; 2 per field and one for the end
                fired = fail_at.map_or(false, |k| (k as usize) <= 2 * items.len());
                counts = vec![("fault.source failed between fields", fired as u64)];
                g
            }
            None => Got::NotApplicable,
        },
    };
    if let Some(w) = w {
        for (k, n) in counts {
            if n > 0 {
                *w.out.counters.entry(k.into()).or_default() += n;
            }
        }
    }
    (g, fired)
}

/// text as an ideal sink receives it
fn ideal_text(p: &crate::ports::Port, v: f64, how: &FHow) -> Result<String, String> {
    let f = p.fmt.ok_or("n/a")?;
    catch_unwind(AssertUnwindSafe(|| {
        let mut t = String::new();
        f(v, how, &mut t).map_err(|_| "error".to_string())?;
        Ok(t)
    }))
    .unwrap_or_else(|p| Err(format!("panic: {}", message(p))))
}
pub fn ideal_record(p: &crate::ports::Port, v: f64, how: WHow) -> Result<String, String> {
    catch_unwind(AssertUnwindSafe(|| {
        if how == WHow::Json {
            return p.json.ok_or("n/a".to_string())?(v);
        }
        let mut t = vec![];
        (p.write)(v, how, &mut t)?;
        String::from_utf8(t).map_err(|_| "not UTF-8".into())
    }))
    .unwrap_or_else(|p| Err(format!("panic: {}", message(p))))
}
fn calls(p: &crate::ports::Port, v: f64, fail_at: Option<u32>) -> (Rec, Result<(), String>) {
    let mut r = Rec { fail_at, ..Default::default() };
    let x = catch_unwind(AssertUnwindSafe(|| (p.ser)(v, &mut r).map_err(|e| e.0))).unwrap_or_else(|p| Err(format!("panic: {}", message(p))));
    (r, x)
}

fn write_step(i: u32, s: &WStep, w: &mut W) {
    let p = &ports()[s.port as usize];
    let v = f64::from_bits(s.value);
    match &s.what {
        What::Record { how, sink } => {
            let ideal = ideal_record(p, v, *how);
            if *how == WHow::Json {
                let again = ideal_record(p, v, *how);
                w.seen("json");
                w.out.events.push(Ev::Wrote { step: i, reached: ideal.clone().unwrap_or_default().into_bytes(), ok: ideal.is_ok(), fired: false, err: String::new(), ideal, again });
                return;
            }
            let mut k = Sink::new(sink);
            let r = catch_unwind(AssertUnwindSafe(|| (p.write)(v, *how, &mut k))).unwrap_or_else(|p| Err(format!("panic: {}", message(p))));
            let (data, failed, intr, short_writes) = (k.data, k.failed, k.interrupted, k.short);
            for (n, c) in [("fault.write refused", failed.min(1)), ("fault.interrupted write", intr), ("fault.short write", short_writes)] {
                if c > 0 {
                    *w.out.counters.entry(n.into()).or_default() += c;
                }
            }
            w.seen(&format!("record {:?} {} {} {}", how, r.is_ok(), failed > 0, data.len()));
            let again = ideal_record(p, v, *how);
            w.out.events.push(Ev::Wrote { step: i, ideal, reached: data, ok: r.is_ok(), fired: failed > 0, err: r.err().map(|e| short(&e)).unwrap_or_default(), again });
        }
        What::Text { how, fail_at, partial } => {
            let ideal = ideal_text(p, v, how);
            if ideal == Err("n/a".into()) {
                return;
            }
            let mut k = TextSink { data: String::new(), fail_at: fail_at.map(|x| x as usize), partial: *partial, failed: false };
            let f = p.fmt.unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| f(v, how, &mut k).map_err(|_| "error".to_string()))).unwrap_or_else(|p| Err(format!("panic: {}", message(p))));
            if k.failed {
                w.count("fault.formatter refused");
            }
            w.seen(&format!("text {:?} {} {} {}", std::mem::discriminant(how), r.is_ok(), k.failed, k.data.len()));
            let again = ideal_text(p, v, how);
            w.out.events.push(Ev::Wrote { step: i, ideal, reached: k.data.into_bytes(), ok: r.is_ok(), fired: k.failed, err: r.err().unwrap_or_default(), again });
        }
        What::TextIo { how, sink } => {
            let ideal = ideal_text(p, v, how);
            if ideal == Err("n/a".into()) {
                return;
            }
            struct Io<'a, 'b>(&'a mut Sink<'b>, Option<io::Error>);
            impl std::fmt::Write for Io<'_, '_> {
                // what io::Write::write_fmt does
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0.write_all(s.as_bytes()).map_err(|e| {
                        self.1 = Some(e);
                        std::fmt::Error
                    })
                }
            }
            let mut k = Sink::new(sink);
            let f = p.fmt.unwrap();
            let r = {
                let mut io = Io(&mut k, None);
                catch_unwind(AssertUnwindSafe(|| f(v, how, &mut io).map_err(|_| "error".to_string()))).unwrap_or_else(|p| Err(format!("panic: {}", message(p))))
            };
            let (data, failed, intr, short_writes) = (k.data, k.failed, k.interrupted, k.short);
            for (n, c) in [("fault.write refused", failed.min(1)), ("fault.interrupted write", intr), ("fault.short write", short_writes)] {
                if c > 0 {
                    *w.out.counters.entry(n.into()).or_default() += c;
                }
            }
            w.seen(&format!("textio {:?} {} {} {}", std::mem::discriminant(how), r.is_ok(), failed > 0, data.len()));
            let again = ideal_text(p, v, how);
            w.out.events.push(Ev::Wrote { step: i, ideal, reached: data, ok: r.is_ok(), fired: failed > 0, err: r.err().unwrap_or_default(), again });
        }
        What::Calls { fail_at } => {
            let show = |r: &Rec, x: &Result<(), String>| -> Result<String, String> { x.clone().map(|_| format!("{}{}", r.out.join("\n"), if r.ended { "" } else { "\nnot ended" })) };
            let (a, x) = calls(p, v, None);
            let ideal = show(&a, &x);
            let (b, y) = calls(p, v, *fail_at);
            let (c, z) = calls(p, v, None);
            if b.failed {
                w.count("fault.serializer refused");
            }
            w.seen(&format!("calls {} {} {}", y.is_ok(), b.failed, b.out.len()));
            w.out.events.push(Ev::Wrote { step: i, ideal, reached: b.out.join("\n").into_bytes(), ok: y.is_ok(), fired: b.failed, err: y.err().unwrap_or_default(), again: show(&c, &z) });
        }
    }
}

fn stream(i: u32, s: &StreamScn, w: &mut W) {
    let mut data = vec![];
    for r in &s.records {
        data.extend_from_slice(&r.data);
        data.extend_from_slice(r.sep.as_bytes());
    }
    let mut src = Source::new(&data, &s.plan);
    let (mut evs, mut clean, mut why) = (vec![], true, String::new());
    {
        let dy: &mut dyn Read = &mut src;
        let mut de = serde_json::Deserializer::from_reader(dy);
        for (k, r) in s.records.iter().enumerate() {
            let p = &ports()[r.port as usize];
            let many = |f: &mut dyn FnMut() -> Result<Vec<f64>, String>| match catch_unwind(AssertUnwindSafe(|| f())) {
                Ok(Ok(v)) => v.iter().map(|v| Got::Value(v.to_bits())).collect(),
                Ok(Err(e)) => vec![Got::Refused(short(&e))],
                Err(p) => vec![Got::Panicked(message(p))],
            };
            let g: Vec<Got> = match r.form {
                0 => match p.read_next {
                    Some(f) => vec![got(|| f(&mut de))],
                    None => vec![Got::NotApplicable],
                },
                1 => match p.read_list {
                    Some(f) => many(&mut || f(&mut de)),
                    None => vec![Got::NotApplicable],
                },
                _ => match p.read_envelope {
                    Some(f) => vec![got(|| f(&mut de).map(|x| x.2))],
                    None => vec![Got::NotApplicable],
                },
            };
            evs.push(Ev::Streamed { stream: i, record: k as u32, got: g });
        }
        match catch_unwind(AssertUnwindSafe(|| de.end())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                clean = false;
                why = short(&e.to_string());
            }
            Err(p) => {
                clean = false;
                why = format!("panic: {}", message(p));
            }
        }
    }
    let (a, b, c) = (src.failed, src.interrupted, src.split);
    for (k, n) in [("fault.read error", a.min(1)), ("fault.interrupted read", b), ("fault.short read", c)] {
        if n > 0 {
            *w.out.counters.entry(k.into()).or_default() += n;
        }
    }
    for e in &evs {
        if let Ev::Streamed { record, got, .. } = e {
            w.seen(&format!("stream {} {} {}", record, got.len(), got.first().map_or("none", outcome)));
        }
    }
    w.seen(&format!("end {} {} {}", clean, c, b));
    w.out.events.extend(evs);
    w.out.events.push(Ev::StreamEnd { stream: i, clean, why });
}

// ---------------------------------------------------------------------------------------------------------
// exchange

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Act {
    Create(u32),
    Deliver { to: u8, from: u8, id: u32, hop: u32, text: bool, intact: bool, data: Vec<u8> },
    Ack { to: u8, id: u32, hop: u32 },
    Synced { party: u8, life: u32, upto: usize },
    Resend { party: u8, life: u32, id: u32, hop: u32 },
    Crash(u32),
    Restart(u8),
}
struct St {
    up: bool,
    life: u32,
    disk: Vec<u8>,
    synced: usize,
    appends: u32,
    /// in memory: what is held, by (token, hop); true: durable
    held: BTreeMap<(u32, u32), (f64, usize)>,
    acked: BTreeSet<(u32, u32)>,
}


fn exchange(x: &Exchange, seed: u64, w: &mut W) {
    let mut rng = Rng::stream(seed, "net");
    let mut disk_rng = Rng::stream(seed, "disk");
    let mut q: BinaryHeap<std::cmp::Reverse<(u64, u64, Act)>> = BinaryHeap::new();
    let mut seq = 0u64;
    let mut push = |q: &mut BinaryHeap<std::cmp::Reverse<(u64, u64, Act)>>, at: u64, a: Act| {
        seq += 1;
        q.push(std::cmp::Reverse((at, seq, a)));
    };
    let mut ps: Vec<St> = x.parties.iter().map(|_| St { up: true, life: 0, disk: vec![], synced: 0, appends: 0, held: BTreeMap::new(), acked: BTreeSet::new() }).collect();
    for (i, t) in x.tokens.iter().enumerate() {
        push(&mut q, t.at_us, Act::Create(i as u32));
    }
    for (i, c) in x.crashes.iter().enumerate() {
        push(&mut q, c.0, Act::Crash(i as u32));
    }
    // liveness: this long after the last fault everything has arrived
    let longest = x.parties.iter().map(|p| p.resend_us + p.sync_us).max().unwrap_or(0) + x.net.max_us;
    let hops = x.tokens.iter().map(|t| t.path.len() as u64).max().unwrap_or(0);
    let start = x.tokens.iter().map(|t| t.at_us).max().unwrap_or(0).max(x.heal_us).max(x.crashes.iter().map(|c| c.0 + c.2).max().unwrap_or(0));
    let end = start + (hops + 2) * (4 * longest + 10_000);
    let mut now = 0;
    let mut first_at_dest: BTreeSet<u32> = BTreeSet::new();
    while let Some(std::cmp::Reverse((at, _, act))) = q.pop() {
        if at > end || w.out.steps > 200_000 {
            break;
        }
        now = at;
        let faults = now < x.heal_us;
        // what a party does once it holds a token: write it to its journal, and pass it on when it is durable
        macro_rules! keep {
            ($party:expr, $id:expr, $hop:expr, $v:expr) => {{
                let (party, id, hop, v): (u8, u32, u32, f64) = ($party, $id, $hop, $v);
                let pc = &x.parties[party as usize];
                let port = &ports()[pc.port as usize];
                let st = &mut ps[party as usize];
                let n = st.appends;
                st.appends += 1;
                let plan = SinkPlan {
                    pieces: if faults { pc.disk_pieces.clone() } else { vec![] },
                    fail_at: if faults { pc.disk_full.iter().find(|d| d.0 == n).map(|d| d.1) } else { None },
                    err_kind: 7,
                    ..Default::default()
                };
                let mut sink = Sink::new(&plan);
                let r = catch_unwind(AssertUnwindSafe(|| (port.write_envelope)(id as u64, hop as u64, v, &mut sink))).unwrap_or_else(|p| Err(format!("panic: {}", message(p))));
                let (failed, shorts) = (sink.failed, sink.short);
                if shorts > 0 {
                    *w.out.counters.entry("fault.short write".into()).or_default() += shorts;
                }
                if failed > 0 {
                    w.count("fault.disk full");
                    w.out.events.push(Ev::DiskRefused { party, reported: r.is_err() });
                } else if let Err(e) = &r {
                    w.out.events.push(Ev::Wrong(format!("party {} cannot write its journal: {}", party, e)));
                }
                if r.is_ok() {
                    let mut line = sink.data;
                    line.push(b'\n');
                    st.disk.extend_from_slice(&line);
                    st.held.insert((id, hop), (v, st.disk.len()));
                    push(&mut q, now + pc.sync_us, Act::Synced { party, life: st.life, upto: st.disk.len() });
                }
            }};
        }
        macro_rules! send {
            ($party:expr, $id:expr, $hop:expr) => {{
                let (party, id, hop): (u8, u32, u32) = ($party, $id, $hop);
                let path = &x.tokens[id as usize].path;
                if (hop as usize) + 1 < path.len() && !ps[party as usize].acked.contains(&(id, hop)) {
                    let pc = &x.parties[party as usize];
                    let port = &ports()[pc.port as usize];
                    let v = ps[party as usize].held[&(id, hop)].0;
                    let to = path[hop as usize + 1];
                    let text = pc.text_unit.is_some() && ports()[x.parties[to as usize].port as usize].read_text.is_some();
                    let data: Result<Vec<u8>, String> = if text {
                        let u = pc.text_unit.as_ref().unwrap();
                        match catch_unwind(AssertUnwindSafe(|| (port.conv.unwrap())(v, u))) {
                            Ok(t) => Ok(t.into_bytes()),
                            Err(p) => Err(message(p)),
                        }
                    } else {
                        ideal_record(port, v, if pc.write == WHow::Json && port.json.is_none() { WHow::Writer } else { pc.write })
                            .map(|t| t.into_bytes())
                    };
                    match data {
                        Err(e) => w.out.events.push(Ev::Wrong(format!("party {} cannot write: {}", party, e))),
                        Ok(data) => {
                            w.out.events.push(Ev::Sent { party, value: v.to_bits(), text, data: String::from_utf8_lossy(&data).into_owned() });
                            let cut_off = |p: u8| x.cuts.iter().any(|c| c.2 == p && c.0 <= now && now < c.1);
                            let copies = if faults && (cut_off(party) || cut_off(to)) {
                                w.count("fault.partition");
                                0
                            } else if faults && rng.pm(x.net.loss) {
                                w.count("fault.loss");
                                0
                            } else if faults && rng.pm(x.net.dup) {
                                w.count("fault.duplication");
                                2
                            } else {
                                1
                            };
                            for _ in 0..copies {
                                let mut d = data.clone();
                                let mut intact = true;
                                if faults && d.len() > 1 && rng.pm(x.net.cut) {
                                    d.truncate(1 + rng.usize(d.len() - 1));
                                    intact = false;
                                    w.count("fault.cut short");
                                }
                                let delay = x.net.min_us + rng.below(x.net.max_us.saturating_sub(x.net.min_us) + 1);
                                push(&mut q, now + delay, Act::Deliver { to, from: party, id, hop: hop + 1, text, intact, data: d });
                            }
                            push(&mut q, now + pc.resend_us.max(1), Act::Resend { party, life: ps[party as usize].life, id, hop });
                        }
                    }
                }
            }};
        }
        match act {
            Act::Create(i) => {
                w.seen(&format!("create {}", i));
                let p = x.tokens[i as usize].path[0];
                if !ps[p as usize].up {
                    push(&mut q, now + 1000, Act::Create(i));
                } else {
                    keep!(p, i, 0, f64::from_bits(x.tokens[i as usize].value));
                    if !ps[p as usize].held.contains_key(&(i, 0)) {
                        push(&mut q, now + 1000, Act::Create(i));
                    }
                }
            }
            Act::Synced { party, life, upto } => {
                if ps[party as usize].up && ps[party as usize].life == life {
                    w.seen(&format!("sync {} {}", party, upto));
                    let old = ps[party as usize].synced;
                    let st = &mut ps[party as usize];
                    st.synced = st.synced.max(upto);
                    let new: Vec<(u32, u32)> = st.held.iter().filter(|(_, (_, end))| *end > old && *end <= upto).map(|(k, _)| *k).collect();
                    for (id, hop) in new {
                        let path = &x.tokens[id as usize].path;
                        if hop > 0 {
                            push(&mut q, now + x.net.min_us, Act::Ack { to: path[hop as usize - 1], id, hop: hop - 1 });
                        }
                        if hop as usize + 1 == path.len() {
                            first_at_dest.insert(id);
                        }
                        send!(party, id, hop);
                    }
                }
            }
            Act::Resend { party, life, id, hop } => {
                if ps[party as usize].up && ps[party as usize].life == life && ps[party as usize].held.contains_key(&(id, hop)) {
                    w.seen(&format!("resend {} {} {}", party, id, hop));
                    send!(party, id, hop);
                }
            }
            Act::Ack { to, id, hop } => {
                let lost = faults && (rng.pm(x.net.loss) || x.cuts.iter().any(|c| c.2 == to && c.0 <= now && now < c.1));
                w.seen(&format!("ack {} {} {} {}", to, id, hop, lost));
                if lost {
                    w.count("fault.loss");
                } else if ps[to as usize].up {
                    ps[to as usize].acked.insert((id, hop));
                }
            }
            Act::Deliver { to, from, id, hop, text, intact, data } => {
                if !ps[to as usize].up {
                    w.seen(&format!("deliver to a dead party {}", to));
                    continue;
                }
                let pc = &x.parties[to as usize];
                let port = &ports()[pc.port as usize];
                w.seen(&format!("deliver {}>{} {} {} {} {}", from, to, id, hop, intact, data.len()));
                if let Some((_, end)) = ps[to as usize].held.get(&(id, hop)) {
                    // seen before: acknowledged again once durable
                    if *end <= ps[to as usize].synced {
                        push(&mut q, now + x.net.min_us, Act::Ack { to: from, id, hop: hop - 1 });
                    }
                    w.count("duplicates discarded");
                    continue;
                }
                if text && !intact {
                    continue; // text carries its length outside
                }
                let g = if text {
                    let f = port.read_text.unwrap();
                    match std::str::from_utf8(&data) {
                        Ok(t) => got(|| f(t)),
                        Err(_) => Got::Refused("not UTF-8".into()),
                    }
                } else {
                    let plan = ReadPlan {
                        pieces: x.net.pieces.clone(),
                        eintr: if faults { (0..12).filter(|_| rng.pm(x.net.eintr)).collect() } else { vec![] },
                        ..Default::default()
                    };
                    let inner = x.parties[from as usize].write == WHow::Inner;
                    let mut src = Source::new(&data, &plan);
                    let g = if inner {
                        let f = port.read_list.unwrap();
                        let dy: &mut dyn Read = &mut src;
                        let mut de = serde_json::Deserializer::from_reader(dy);
                        got(|| f(&mut de).and_then(|v| v.first().copied().ok_or("empty".into())))
                    } else {
                        let f = port.read_io.unwrap();
                        got(|| f(&mut src, How::Reader))
                    };
                    let (a, b) = (src.interrupted, src.split);
                    for (k, n) in [("fault.interrupted read", a), ("fault.short read", b)] {
                        if n > 0 {
                            *w.out.counters.entry(k.into()).or_default() += n;
                        }
                    }
                    g
                };
                w.out.events.push(Ev::Received { party: to, got: g.clone(), text, intact, data: String::from_utf8_lossy(&data).into_owned() });
                if let Got::Value(v) = g {
                    keep!(to, id, hop, f64::from_bits(v));
                }
            }
            Act::Crash(i) => {
                let (_, p, down) = x.crashes[i as usize];
                let st = &mut ps[p as usize];
                if st.up {
                    w.count("fault.crash");
                    w.out.steps += 1;
                    st.up = false;
                    st.life += 1;
                    st.held.clear();
                    st.acked.clear();
                    // what was not synced survives up to any byte
                    let loose = st.disk.len() - st.synced;
                    let k = st.synced + if loose > 0 { disk_rng.usize(loose + 1) } else { 0 };
                    if k < st.disk.len() {
                        *w.out.counters.entry("fault.torn journal".into()).or_default() += 1;
                    }
                    st.disk.truncate(k);
                    w.out.sched = hash64(format!("{:x}crash {} {}", w.out.sched, p, k).as_bytes());
                    push(&mut q, now + down.max(1), Act::Restart(p));
                }
            }
            Act::Restart(p) => {
                w.seen(&format!("restart {}", p));
                let pc = &x.parties[p as usize];
                let port = &ports()[pc.port as usize];
                let st = &mut ps[p as usize];
                st.up = true;
                let complete = st.disk.iter().filter(|b| **b == b'\n').count();
                let ends: Vec<usize> = st.disk.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
                let mut read = 0;
                let mut why = String::new();
                if let Some(f) = port.read_envelope {
                    let plan = ReadPlan { pieces: pc.read_pieces.clone(), ..Default::default() };
                    let mut src = Source::new(&st.disk, &plan);
                    let dy: &mut dyn Read = &mut src;
                    let mut de = serde_json::Deserializer::from_reader(dy);
                    while read < complete {
                        match catch_unwind(AssertUnwindSafe(|| f(&mut de))) {
                            Ok(Ok((id, hop, v))) => {
                                st.held.insert((id as u32, hop as u32), (v, ends[read]));
                                read += 1;
                            }
                            Ok(Err(e)) => {
                                why = short(&e);
                                break;
                            }
                            Err(e) => {
                                why = format!("panic: {}", message(e));
                                break;
                            }
                        }
                    }
                } else {
                    // a party that cannot read its own type re-creates what it was given
                    read = complete;
                    for (k, e) in ends.iter().enumerate() {
                        let line = &st.disk[if k == 0 { 0 } else { ends[k - 1] }..*e];
                        if let Ok(v) = serde_json::from_slice::<serde_json::Value>(line) {
                            if let (Some(id), Some(hop)) = (v["id"].as_u64(), v["hop"].as_u64()) {
                                st.held.insert((id as u32, hop as u32), (f64::from_bits(x.tokens[id as usize].value), *e));
                            }
                        }
                    }
                }
                st.disk.truncate(if read == 0 { 0 } else { ends[read - 1] });
                st.synced = st.disk.len();
                w.out.events.push(Ev::Recovered { party: p, complete: complete as u32, read: read as u32, why });
                let all: Vec<(u32, u32)> = ps[p as usize].held.keys().cloned().collect();
                for (id, hop) in all {
                    send!(p, id, hop);
                }
                // tokens created here but lost before they were durable are created again
                for (i, t) in x.tokens.iter().enumerate() {
                    if t.path[0] == p && t.at_us <= now && !ps[p as usize].held.contains_key(&(i as u32, 0)) {
                        push(&mut q, now + 1, Act::Create(i as u32));
                    }
                }
            }
        }
    }
    w.out.virtual_us = now;
    for (p, st) in ps.iter().enumerate() {
        for ((id, hop), (v, _)) in &st.held {
            w.out.events.push(Ev::Held { party: p as u8, token: *id, hop: *hop, value: v.to_bits() });
        }
    }
}

pub fn run(s: &SerdeScn, trace: bool) -> SerdeRun {
    std::panic::set_hook(Box::new(|_| {}));
    let mut w = W { out: SerdeRun::default(), log: trace };
    match &s.kind {
        Kind::Decode(v) => {
            for (i, d) in v.iter().enumerate() {
                let (g, fired) = read_step(d, Some(&mut w));
                let what = match &d.src {
                    Src::Bytes { how, data, .. } => format!("{:?} {}", how, data.len()),
                    Src::Fields { items, .. } => format!("fields {}", items.len()),
                };
                w.seen(&format!("read {} {} {} {}", d.port, what, outcome(&g), fired));
                w.out.events.push(Ev::Read { step: i as u32, got: g, fired });
            }
        }
        Kind::Write(v) => {
            for (i, x) in v.iter().enumerate() {
                write_step(i as u32, x, &mut w);
            }
        }
        Kind::Stream(v) => {
            for (i, x) in v.iter().enumerate() {
                stream(i as u32, x, &mut w);
            }
        }
        Kind::Exchange(x) => exchange(x, s.seed, &mut w),
    }
    w.out
}

pub use crate::serdegen::generate;
pub use crate::serdejudge::{judge, shrink};
