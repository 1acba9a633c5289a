//! The macro world: one long-lived compiler process (rustc, or rust-analyzer's macro server) in which expansions happen
//! in some order, on some threads, between other expansions, at some time, with some hash seeds and some heap.
use crate::alloc;
use crate::verdict::Verdict;
use proc_macro2::TokenStream;
use serde::{Deserialize, Serialize};
use simrt::rng::{hash64, Rng};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MOp {
    pub entry: String,
    pub input: String,
    /// 0 is the compiler's main thread, the others are long-lived worker threads
    #[serde(default)]
    pub thread: u8,
    /// bytes left allocated on the heap before this expansion
    #[serde(default)]
    pub garbage: u32,
    /// the clocks move by this much before this expansion
    #[serde(default)]
    pub clock_jump_us: i64,
    /// environment variable set (or, with no value, removed) before this expansion
    #[serde(default)]
    pub env: Option<(String, Option<String>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct MacroScn {
    pub hash_seed: u64,
    #[serde(default)]
    pub clock_us: u64,
    #[serde(default)]
    pub pid: i32,
    pub ops: Vec<MOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Tokens(String),
    /// a long expansion: its length, and a hash for every stretch of it
    Long { len: u64, parts: Vec<u64> },
    Panic(String),
    Lex,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct MacroRun {
    pub events: Vec<Ev>,
    pub counters: BTreeMap<String, u64>,
    pub sched: u64,
    pub steps: u64,
    pub virtual_us: u64,
    pub trace: Vec<String>,
}

// ----- the clock and the process id as the macros see them

static ON: AtomicBool = AtomicBool::new(false);
static CLOCK_NS: AtomicI64 = AtomicI64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static PID: AtomicI32 = AtomicI32::new(1);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.load(SeqCst) && alloc::in_macro() {
        CLOCK_READS.fetch_add(1, SeqCst);
        let t = CLOCK_NS.fetch_add(137, SeqCst);
        (*ts).tv_sec = t / 1_000_000_000;
        (*ts).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if ON.load(SeqCst) && alloc::in_macro() {
        return PID.load(SeqCst);
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}

// ----- expansion

macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        fn expand(entry: &str, t: TokenStream) -> Option<TokenStream> {
            Some(match entry { $(stringify!($n) => gen_proc_macros::$n(t),)* _ => return None })
        }
    };
}
entries!(
    compute_unit_dimensions, define_generic_dimension, proc_unit, proc_quantity, proc_value, local_unit_type, define_literals, pow_lookup, pow_pi_lookup,
    generate_all_dimensionless_cross_type, generate_all_radian_erasures, generate_default_declarators, generate_literals_module, generate_local_unit_literals,
    define_local_quantity, define_unit_declarators, output,
);

fn one(entry: &str, input: &str) -> Ev {
    alloc::macro_mode(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t: TokenStream = match input.parse() {
            Ok(t) => t,
            Err(_) => return None,
        };
        Some(expand(entry, t).expect("known entry").to_string())
    }));
    alloc::macro_mode(false);
    match r {
        Ok(Some(text)) => text_ev(text.as_str()),
        Ok(None) => Ev::Lex,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            std::mem::forget(p);
            Ev::Panic(m.as_str().to_owned())
        }
    }
}

const PART: usize = 4096;
fn text_ev(t: &str) -> Ev {
    if t.len() <= 24_000 {
        return Ev::Tokens(t.to_owned());
    }
    Ev::Long { len: t.len() as u64, parts: t.as_bytes().chunks(PART).map(hash64).collect() }
}

pub fn run(s: &MacroScn, trace: bool) -> MacroRun {
    // panics of an expansion are reported by the compiler; here they are events
    std::panic::set_hook(Box::new(|_| {}));
    ON.store(true, SeqCst);
    let mut clock: i64 = 1_700_000_000_000_000_000 + s.clock_us as i64 * 1000;
    let start = clock;
    PID.store(if s.pid == 0 { 4242 } else { s.pid }, SeqCst);
    for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
        std::env::remove_var(k);
    }
    let mut out = MacroRun::default();
    let mut sched = vec![];
    let mut threads: BTreeMap<u8, (Sender<(String, String)>, Receiver<Ev>)> = BTreeMap::new();
    let mut count = |k: &str| *out.counters.entry(k.to_string()).or_insert(0) += 1;
    if s.hash_seed != 0 {
        count("fault.hash seeds changed");
    }
    if s.clock_us != 0 {
        count("fault.another time of day");
    }
    if s.pid != 0 {
        count("fault.another process id");
    }
    let mut bad_before = false;
    for (i, op) in s.ops.iter().enumerate() {
        if op.garbage > 0 {
            alloc::macro_gap(op.garbage as usize);
            count("fault.heap displaced");
        }
        if op.clock_jump_us != 0 {
            clock += op.clock_jump_us * 1000;
            count("fault.clock jump");
        }
        CLOCK_NS.store(clock, SeqCst);
        if let Some((k, v)) = &op.env {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
            count("fault.environment changed");
        }
        if op.thread > 0 {
            count("fault.expanded on another thread");
        }
        if i > 0 {
            count("fault.expanded after others");
        }
        if bad_before {
            count("fault.expanded after a failed expansion");
        }
        let ev = if op.thread == 0 {
            one(&op.entry, &op.input)
        } else {
            let (tx, rx) = threads.entry(op.thread).or_insert_with(|| {
                let (tx, trx) = channel::<(String, String)>();
                let (ttx, rx) = channel();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        for (e, i) in trx {
                            if ttx.send(one(&e, &i)).is_err() {
                                break;
                            }
                        }
                    })
                    .unwrap();
                (tx, rx)
            });
            tx.send((op.entry.clone(), op.input.clone())).unwrap();
            rx.recv().unwrap()
        };
        clock = CLOCK_NS.load(SeqCst) + 1_000_000;
        bad_before |= match &ev {
            Ev::Panic(_) => {
                count("expansion panicked");
                true
            }
            Ev::Tokens(t) if t.contains("compile_error") => {
                count("expansion reported an error");
                true
            }
            _ => false,
        };
        count(&format!("expanded {}", op.entry));
        let what = match &ev {
            Ev::Tokens(t) => hash64(t.as_bytes()),
            Ev::Long { parts, .. } => hash64(format!("{:?}", parts).as_bytes()),
            Ev::Panic(m) => hash64(m.as_bytes()) ^ 1,
            Ev::Lex => 2,
        };
        sched.push(hash64(format!("{} {:x} {} {} {} {:?}", op.entry, hash64(op.input.as_bytes()), op.thread, op.garbage > 0, op.clock_jump_us, op.env).as_bytes()));
        if trace {
            out.trace.push(format!(
                "{}: thread {} {}!({}) heap+{} clock{:+} {:?} -> {}",
                i,
                op.thread,
                op.entry,
                op.input,
                op.garbage,
                op.clock_jump_us,
                op.env,
                match &ev {
                    Ev::Tokens(t) => t.chars().take(300).collect::<String>(),
                    Ev::Long { len, .. } => format!("{} bytes, {:016x}", len, what),
                    Ev::Panic(m) => format!("panic: {}", m),
                    Ev::Lex => "not Rust tokens".into(),
                }
            ));
        }
        out.events.push(ev);
    }
    if CLOCK_READS.load(SeqCst) > 0 {
        count("clock read");
    }
    out.virtual_us = ((clock - start).unsigned_abs()) / 1000;
    out.steps = s.ops.len() as u64;
    out.sched = hash64(format!("{:?} {}", sched, s.hash_seed != 0).as_bytes());
    out
}

// ----- scenarios

const NAMES: [&[&str]; 8] = [
    &["Kilogram", "Gram", "Milligram", "Megagram"],
    &["Meter", "Millimeter", "Kilometer", "Centimeter"],
    &["Second", "Millisecond", "Microsecond"],
    &["Ampere", "Milliampere"],
    &["Kelvin", "Millikelvin"],
    &["Mole", "Kilomole"],
    &["Candela", "Millicandela"],
    &["Radian", "Milliradian"],
];
const WRONG_NAMES: &[&str] = &["Meterr", "Kilgram", "Foot", "Seccond", "Kilo", "Foo", "Millimetre", "kilogram", "Turn"];
const WRONG_UNITS: &[&str] = &["foo", "metre", "kgg", "mmm", "m^x", "m^99", "m//s", "", "m s", "*m", "2m", "m^", "sekond", "Nn", "kilometer2", "hz", "PA", "1/s", "deg_C", "µm", "m^-2", "(m", "m.s-1"];
const STORES: &[&str] = &["f64", "f32", "i32", "i64", "u8"];

struct G {
    r: Rng,
}
impl G {
    fn one(&mut self, xs: &[&str]) -> String {
        self.r.pick(xs).to_string()
    }
    fn unit(&mut self) -> String {
        match self.r.usize(10) {
            0 => self.one(WRONG_UNITS),
            1..=4 => self.one(&["m", "kg", "s", "mm", "km/h", "kg*m^2/s^2", "N", "J", "degC", "ft", "m/s^2", "rad", "mol/L", "A.s", "inch", "cd", "Hz", "kW*h", "Pa", "g", "K", "degF"]),
            _ => crate::serdegen::unit_text(self.r.next() % 160),
        }
    }
    fn scales(&mut self) -> String {
        (0..8)
            .map(|i| if self.r.pm(20) { self.one(WRONG_NAMES) } else if self.r.pm(600) { NAMES[i][if i == 1 { 0 } else { 0 }].to_string() } else { self.one(NAMES[i]) })
            .collect::<Vec<_>>()
            .join(", ")
    }
    fn tail(&mut self) -> String {
        match self.r.usize(4) {
            0 | 1 => String::new(),
            2 => format!(", {}", self.one(STORES)),
            _ => format!(", {}, MyBrand", self.one(STORES)),
        }
    }
    fn dim(&mut self, depth: u32) -> String {
        let names = ["Length", "Mass", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle", "Energy", "Force", "Velocity", "Area", "Pressure", "Lenght", "M", "L", "T", "1"];
        if depth == 0 || self.r.pm(400) {
            let n = self.one(&names);
            return match self.r.usize(5) {
                0 => format!("{}^{}", n, self.r.usize(4)),
                1 => format!("{}{}", n, 2),
                _ => n,
            };
        }
        let (a, b) = (self.dim(depth - 1), self.dim(depth - 1));
        match self.r.usize(4) {
            0 => format!("{}/{}", a, b),
            1 => format!("({} * {})", a, b),
            2 => format!("{}.{}", a, b),
            _ => format!("{} * {}", a, b),
        }
    }
    fn op(&mut self, heavy: &mut u32) -> MOp {
        let k = self.r.usize(if *heavy > 0 { 20 } else { 16 });
        let (entry, input) = match k {
            0 | 1 => ("compute_unit_dimensions", self.unit()),
            2 | 3 => ("proc_unit", format!("{}{}", self.unit(), self.tail())),
            4 | 5 => ("proc_quantity", format!("{}, {}{}", self.one(&["5.0", "x", "2", "a + b", "f(1)"]), self.unit(), self.tail())),
            6 | 7 => ("proc_value", format!("{}, {}{}", self.one(&["q", "x.y", "f(q)"]), self.unit(), self.tail())),
            8 | 9 => ("local_unit_type", format!("{}, {}{}", self.unit(), self.scales(), self.tail())),
            10 => {
                let r = self.r.pm(500);
                let base = self.one(if r { &["2", "3", "5", "10", "-2", "x"] } else { &["2.0", "3.0", "5.0", "1.5"] });
                ("pow_lookup", format!("p{}, {}, {}, {}", self.r.usize(3), base, self.one(&["0", "1", "10", "40", "100"]), if self.r.pm(30) { "other" } else if r { "rational" } else { "float" }))
            }
            11 => ("pow_pi_lookup", format!("pow_pi, {}, {}", self.one(&["0", "3", "8"]), self.one(&["rational", "float"]))),
            12 => ("output", self.one(&["A * B", "(A + B) / C", "1 / T", "A", "x.y", "A - 2", "Vec<f64> * B", "a::B * a::C"])),
            13 | 14 => {
                let n = 1 + self.r.usize(4);
                let d: Vec<String> = (0..n).map(|_| self.dim(2)).collect();
                ("define_generic_dimension", format!("{}, {}", self.one(&["MyDim", "Speedy", "X"]), d.join(", ")))
            }
            15 => ("generate_all_radian_erasures", self.one(&["1", "3", "9", "x"])),
            _ => {
                *heavy -= 1;
                match k {
                    16 => match self.r.usize(3) {
                        0 => ("generate_all_dimensionless_cross_type", String::new()),
                        1 => ("define_local_quantity", String::new()),
                        _ => ("generate_literals_module", String::new()),
                    },
                    17 => ("generate_default_declarators", String::new()),
                    18 => match self.r.usize(2) {
                        0 => ("define_literals", self.one(&["my_literals", "", "x y"])),
                        _ => ("generate_local_unit_literals", self.scales()),
                    },
                    _ => {
                        let tail = match self.r.usize(6) {
                            0 => ", Brand".to_string(),
                            1 => format!(", Brand, {}", self.scales()),
                            2 => self.one(&["", ", A, B", ",", ", 5"]),
                            _ => format!(", {}", self.scales()),
                        };
                        ("define_unit_declarators", format!("{}{}", self.one(&["local_scale", "ns"]), tail))
                    }
                }
            }
        };
        MOp { entry: entry.into(), input, ..Default::default() }
    }
}

impl G {
    /// Nearly the same expansion: what a careless key would take for the same.
    fn twin(&mut self, o: &MOp) -> MOp {
        let mut o = o.clone();
        let letters: Vec<usize> = o.input.char_indices().filter(|c| c.1.is_ascii_alphabetic()).map(|c| c.0).collect();
        let flip = |t: &mut String, at: usize| {
            let c = t.as_bytes()[at] as char;
            let n = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            t.replace_range(at..at + 1, &n.to_string());
        };
        match self.r.usize(8) {
            0 | 1 if !letters.is_empty() => {
                let at = letters[self.r.usize(letters.len())];
                flip(&mut o.input, at);
            }
            2 if !letters.is_empty() => {
                // the first letter of a word
                let b = o.input.as_bytes().to_vec();
                let first: Vec<usize> = letters.iter().copied().filter(|i| *i == 0 || !b[*i - 1].is_ascii_alphanumeric()).collect();
                if !first.is_empty() {
                    flip(&mut o.input, first[self.r.usize(first.len())]);
                }
            }
            3 if self.r.pm(500) => o.input = o.input.to_uppercase(),
            3 => o.input = o.input.to_lowercase(),
            4 => {
                let digits: Vec<usize> = o.input.char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
                if !digits.is_empty() {
                    let at = digits[self.r.usize(digits.len())];
                    let d = (b'0' + self.r.usize(5) as u8) as char;
                    o.input.replace_range(at..at + 1, &d.to_string());
                } else {
                    o.input.push_str("2");
                }
            }
            5 => {
                let (a, b) = *self.r.pick(&[("f64", "f32"), ("f32", "f64"), ("MyBrand", "Mybrand"), ("MyBrand", "MyBrand2"), ("i32", "i64"), (", f64", ""), (", MyBrand", ""), ("Kilogram", "Gram"), ("Meter", "Millimeter"), ("Second", "Millisecond")]);
                o.input = o.input.replacen(a, b, 1);
            }
            6 => {
                let (a, b) = *self.r.pick(&[("^", ""), ("*", "."), (".", "*"), ("/", "*"), ("*", "/"), (" ", ""), (",", " , "), ("k", "m"), ("m", "M"), ("deg", "degree")]);
                o.input = o.input.replacen(a, b, 1);
            }
            _ => {
                let to = match o.entry.as_str() {
                    "compute_unit_dimensions" => "proc_unit",
                    "proc_unit" => "compute_unit_dimensions",
                    "proc_quantity" => "proc_value",
                    "proc_value" => "proc_quantity",
                    "pow_lookup" => "pow_pi_lookup",
                    e => e,
                };
                o.entry = to.into();
            }
        }
        o
    }
}

pub fn generate(_p: &str, seed: u64, faulty: bool) -> MacroScn {
    let mut g = G { r: Rng::stream(seed, "scenario") };
    let most = if g.r.pm(100) { 24 } else { 7 };
    let n = 1 + g.r.usize(most);
    let mut heavy = 1 + g.r.usize(2) as u32;
    let mut ops: Vec<MOp> = (0..n).map(|_| g.op(&mut heavy)).collect();
    // the same expansion again later, as when a file is built or analysed again
    if g.r.pm(600) {
        let k = 1 + g.r.usize(2);
        for _ in 0..k {
            let o = ops[g.r.usize(ops.len())].clone();
            ops.push(o);
        }
    }
    if g.r.pm(600) {
        for _ in 0..1 + g.r.usize(3) {
            let light: Vec<usize> = (0..ops.len()).filter(|i| !ops[*i].input.is_empty()).collect();
            if light.is_empty() {
                break;
            }
            let o = ops[light[g.r.usize(light.len())]].clone();
            let heavy = matches!(o.entry.as_str(), "define_unit_declarators" | "generate_local_unit_literals" | "define_literals");
            if heavy && g.r.pm(700) {
                continue;
            }
            let o = g.twin(&o);
            let at = g.r.usize(ops.len() + 1);
            ops.insert(at, o);
        }
    }
    let mut s = MacroScn { ops, ..Default::default() };
    if !faulty {
        return s;
    }
    // which kinds of disturbance this run has at all
    let on: Vec<bool> = (0..6).map(|_| g.r.pm(600)).collect();
    if on[0] {
        s.hash_seed = g.r.next() | 1;
    }
    if on[1] {
        s.clock_us = g.r.next() % 4_000_000_000_000_000 / 1000;
    }
    if on[2] {
        s.pid = 2 + g.r.usize(60_000) as i32;
    }
    let threads = 1 + g.r.usize(4);
    for o in &mut s.ops {
        if on[3] && g.r.pm(500) {
            o.thread = 1 + g.r.usize(threads) as u8;
        }
        if on[4] && g.r.pm(500) {
            o.garbage = 1 + g.r.usize(5000) as u32;
        }
        if on[1] && g.r.pm(300) {
            o.clock_jump_us = g.r.usize(200_000_000) as i64 - 100_000_000;
        }
        if on[5] && g.r.pm(300) {
            let k = g.one(&["HOME", "USER", "LANG", "TZ", "CARGO_PKG_NAME", "CARGO_MANIFEST_DIR", "OUT_DIR", "PROFILE", "RUST_LOG", "TMPDIR", "DEBUG", "TERM", "NO_COLOR", "SOURCE_DATE_EPOCH", "CARGO_CRATE_NAME", "RUSTC"]);
            let v = if g.r.pm(200) { None } else { Some(g.one(&["", "1", "/nonexistent", "de_DE.UTF-8", "debug", "release", "whippyunits", "trace"])) };
            o.env = Some((k, v));
        }
    }
    s
}

// ----- the oracle: the same expansion alone, in a new process, with nothing disturbed

fn show(e: &Ev) -> String {
    match e {
        Ev::Tokens(t) => format!("{} bytes", t.len()),
        Ev::Long { len, .. } => format!("{} bytes", len),
        Ev::Panic(m) => format!("panic {:?}", m),
        Ev::Lex => "not tokens".into(),
    }
}

fn difference(a: &Ev, b: &Ev) -> String {
    match (a, b) {
        (Ev::Tokens(x), Ev::Tokens(y)) => {
            let k = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
            let cut = |t: &str| {
                let from = t.char_indices().map(|c| c.0).filter(|c| *c + 40 <= k.max(40)).last().unwrap_or(0);
                t[from..].chars().take(120).collect::<String>()
            };
            format!("from byte {}: {:?} instead of {:?}", k, cut(x), cut(y))
        }
        (Ev::Long { parts: x, .. }, Ev::Long { parts: y, .. }) => {
            let k = x.iter().zip(y).take_while(|(p, q)| p == q).count();
            format!("{} instead of {}, different from byte {} at the latest", show(a), show(b), (k + 1) * PART)
        }
        _ => format!("{} instead of {}", show(a), show(b)),
    }
}

pub fn judge(_p: &str, s: &MacroScn, r: &MacroRun, solo: &mut dyn FnMut(&MacroScn) -> Option<MacroRun>) -> Verdict {
    let mut v = Verdict::default();
    for (i, op) in s.ops.iter().enumerate() {
        let alone = MacroScn { ops: vec![MOp { entry: op.entry.clone(), input: op.input.clone(), ..Default::default() }], ..Default::default() };
        let Some(q) = solo(&alone) else {
            v.bad("no reference", format!("{}!({}) cannot be expanded on its own", op.entry, op.input));
            continue;
        };
        let (got, want) = (&r.events[i], &q.events[0]);
        if got != want {
            v.bad("differs", format!("expansion {} of this process, {}!({}), is not what it is on its own: {}", i, op.entry, op.input, difference(got, want)));
        }
        match got {
            Ev::Long { .. } => v.probe("a whole module of items was generated"),
            Ev::Tokens(t) if t.contains("compile_error") => v.probe("a bad input was reported"),
            Ev::Tokens(_) => v.probe("a type or value was generated"),
            Ev::Panic(_) => v.probe("an expansion panicked"),
            Ev::Lex => v.probe("an input was not even tokens"),
        }
        v.probe_if(s.ops[..i].iter().any(|o| o.entry == op.entry && o.input == op.input), "the same expansion twice in one process");
        v.probe_if(s.ops[..i].iter().any(|o| o.entry == op.entry && o.input == op.input && o.thread != op.thread), "the same expansion on two threads");
    }
    v.nontrivial = s.ops.len() >= 2 && (s.hash_seed != 0 || r.counters.keys().any(|k| k.starts_with("fault.")));
    v
}

pub fn shrink(s: &MacroScn) -> Vec<MacroScn> {
    let mut o = vec![];
    let mut push = |c: MacroScn| {
        if c != *s && !c.ops.is_empty() {
            o.push(c)
        }
    };
    let n = s.ops.len();
    if n >= 4 {
        push(MacroScn { ops: s.ops[..n / 2].to_vec(), ..s.clone() });
        push(MacroScn { ops: s.ops[n / 2..].to_vec(), ..s.clone() });
    }
    for k in 0..n {
        let mut c = s.clone();
        c.ops.remove(k);
        push(c);
    }
    push(MacroScn { hash_seed: 0, ..s.clone() });
    push(MacroScn { clock_us: 0, ..s.clone() });
    push(MacroScn { pid: 0, ..s.clone() });
    let each: [fn(&mut MOp); 4] = [|x| x.thread = 0, |x| x.garbage = 0, |x| x.clock_jump_us = 0, |x| x.env = None];
    for f in each {
        let mut c = s.clone();
        c.ops.iter_mut().for_each(f);
        push(c);
        for k in 0..n {
            let mut c = s.clone();
            f(&mut c.ops[k]);
            push(c);
        }
    }
    for k in 0..n {
        if s.ops[k].thread > 1 {
            let mut c = s.clone();
            c.ops[k].thread = 1;
            push(c);
        }
    }
    o
}
