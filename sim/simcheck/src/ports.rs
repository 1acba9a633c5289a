//! The library's reading and writing interfaces for a set of declared types, behind plain function pointers.
use crate::unitoracle::{self, Meaning, Unit};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::sync::OnceLock;
use whippyunits::quantity::{Dimension, Quantity, Scale, _2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ};

/// a storage type of the user's own, exact
#[derive(Clone, Copy)]
pub struct Exact(pub f64);
impl From<f64> for Exact {
    fn from(v: f64) -> Self {
        Exact(v)
    }
}
impl From<Exact> for f64 {
    fn from(v: Exact) -> f64 {
        v.0
    }
}
/// a storage type of the user's own that rounds to single precision
#[derive(Clone, Copy)]
pub struct Single(pub f32);
impl From<f64> for Single {
    fn from(v: f64) -> Self {
        Single(v as f32)
    }
}
impl From<Single> for f64 {
    fn from(v: Single) -> f64 {
        v.0 as f64
    }
}
pub struct Tagged;

pub trait Rebrand<B> {
    type Out;
}
pub trait Qty {
    fn mk(v: f64) -> Self;
    fn val(&self) -> f64;
    /// the library's reading of a value and a unit, without a quantity around it
    fn core(v: f64, unit: &str) -> Result<f64, whippyunits::serialization::SerializationError>;
}
/// f64 → stored value, also for types without From<f64>
pub trait Stored: Copy {
    fn make(v: f64) -> Self;
    fn take(self) -> f64;
}
macro_rules! stored {
    ($($t:ty: $mk:expr, $tk:expr;)*) => {$(impl Stored for $t {
        fn make(v: f64) -> Self { let f: fn(f64) -> $t = $mk; f(v) }
        fn take(self) -> f64 { let f: fn($t) -> f64 = $tk; f(self) }
    })*};
}
stored! {
    f64: |v| v, |v| v;
    f32: |v| v as f32, |v| v as f64;
    i32: |v| v as i32, |v| v as f64;
    u8: |v| v as u8, |v| v as f64;
    Exact: Exact, |v| v.0;
    Single: |v| Single(v as f32), |v| v.0 as f64;
}

impl<const A: i16, const B: i16, const C: i16, const D: i16, const E: i16, const F: i16, const G: i16, const H: i16, const P2: i16, const P3: i16, const P5: i16, const PI: i16, S: Stored, X> Qty
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<A>, _L<B>, _T<C>, _I<D>, _Θ<E>, _N<F>, _J<G>, _A<H>>, S, X>
{
    fn mk(v: f64) -> Self {
        Self::new(S::make(v))
    }
    fn val(&self) -> f64 {
        self.unsafe_value.take()
    }
    fn core(v: f64, unit: &str) -> Result<f64, whippyunits::serialization::SerializationError> {
        whippyunits::serialization::deserialize_core::<A, B, C, D, E, F, G, H, P2, P3, P5, PI>(v, unit)
    }
}
impl<S, D, T, X> Rebrand<X> for Quantity<S, D, T, ()> {
    type Out = Quantity<S, D, T, X>;
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum How {
    Slice,
    Str,
    Reader,
    ReaderOne,
    Value,
    Macro,
    Text,
    Fields,
    Owned,
    List,
    Option,
    Inner,
    /// the library's own steps one by one: take the record apart, then decode value and unit
    Core,
    CoreText,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum WHow {
    Writer,
    Pretty,
    String,
    Vec,
    Json,
    Value,
    Inner,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FHow {
    Display,
    DisplayPrecision(usize),
    DisplayWidth(usize),
    Debug,
    DebugAlt,
    Unit(String),
    UnitPrecision(String, usize),
    UnitWidth(String, usize),
}

/// a record somewhere inside a user's own type
#[derive(Serialize, Deserialize)]
pub struct Envelope<Q> {
    pub id: u64,
    pub hop: u64,
    pub q: Q,
}

pub type Res = Result<f64, String>;
pub type JsonDe<'a> = serde_json::Deserializer<serde_json::de::IoRead<&'a mut dyn Read>>;

pub struct Port {
    pub name: &'static str,
    pub expr: &'static str,
    /// the meaning of the declared unit, from the oracle
    pub unit: Meaning,
    pub storage: &'static str,
    pub tol: f64,
    pub write: fn(f64, WHow, &mut dyn Write) -> Result<(), String>,
    pub write_envelope: fn(u64, u64, f64, &mut dyn Write) -> Result<(), String>,
    pub ser: fn(f64, &mut crate::serdefmt::Rec) -> Result<(), crate::serdefmt::E>,
    pub json: Option<fn(f64) -> Result<String, String>>,
    pub fmt: Option<fn(f64, &FHow, &mut dyn std::fmt::Write) -> Result<(), std::fmt::Error>>,
    pub conv: Option<fn(f64, &str) -> String>,
    pub read: Option<fn(&[u8], How) -> Res>,
    pub read_io: Option<fn(&mut dyn Read, How) -> Res>,
    pub read_next: Option<fn(&mut JsonDe) -> Res>,
    pub read_list: Option<fn(&mut JsonDe) -> Result<Vec<f64>, String>>,
    pub read_envelope: Option<fn(&mut JsonDe) -> Result<(u64, u64, f64), String>>,
    pub read_fields: Option<fn(crate::serdefmt::Fields) -> Res>,
    pub read_core: Option<fn(&str, How) -> Res>,
    pub read_macro: Option<fn(&str) -> Res>,
    pub read_text: Option<fn(&str) -> Res>,
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

fn write<Q: Qty + Serialize>(v: f64, how: WHow, w: &mut dyn Write) -> Result<(), String> {
    let q = Q::mk(v);
    match how {
        WHow::Writer => e(serde_json::to_writer(w, &q)),
        WHow::Pretty => e(serde_json::to_writer_pretty(w, &q)),
        WHow::String => e(w.write_all(e(serde_json::to_string(&q))?.as_bytes())),
        WHow::Vec => e(w.write_all(&e(serde_json::to_vec_pretty(&q))?)),
        WHow::Value => e(w.write_all(e(serde_json::to_value(&q))?.to_string().as_bytes())),
        WHow::Inner => e(serde_json::to_writer(w, &[Some(&q)])),
        WHow::Json => unreachable!(),
    }
}
fn write_envelope<Q: Qty + Serialize>(id: u64, hop: u64, v: f64, w: &mut dyn Write) -> Result<(), String> {
    e(serde_json::to_writer(w, &Envelope { id, hop, q: Q::mk(v) }))
}
fn ser<Q: Qty + Serialize>(v: f64, r: &mut crate::serdefmt::Rec) -> Result<(), crate::serdefmt::E> {
    Q::mk(v).serialize(r)
}
fn fmt<Q: Qty + std::fmt::Display + std::fmt::Debug>(v: f64, how: &FHow, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    let q = Q::mk(v);
    match how {
        FHow::Display => write!(w, "{}", q),
        FHow::DisplayPrecision(n) => write!(w, "{:.*}", *n, q),
        FHow::DisplayWidth(n) => write!(w, "{:>1$}", q, *n),
        FHow::Debug => write!(w, "{:?}", q),
        FHow::DebugAlt => write!(w, "{:#?}", q),
        _ => unreachable!(),
    }
}
fn read<Q: Qty + DeserializeOwned>(b: &[u8], how: How) -> Res {
    match how {
        How::Slice => e(serde_json::from_slice::<Q>(b)).map(|q| q.val()),
        How::Str => e(serde_json::from_str::<Q>(std::str::from_utf8(b).map_err(|e| e.to_string())?)).map(|q| q.val()),
        How::Value => {
            let v: serde_json::Value = e(serde_json::from_slice(b))?;
            e(serde_json::from_value::<Q>(v)).map(|q| q.val())
        }
        How::Owned => {
            // borrowed from a value instead of consuming it
            let v: serde_json::Value = e(serde_json::from_slice(b))?;
            e(Q::deserialize(&v)).map(|q| q.val())
        }
        How::List => e(serde_json::from_slice::<Vec<Q>>(&[b"[", b, b"]"].concat())).and_then(|v| match &v[..] {
            [q] => Ok(q.val()),
            _ => Err(format!("{} elements", v.len())),
        }),
        How::Option => e(serde_json::from_slice::<Option<Q>>(b)).and_then(|q| q.map(|q| q.val()).ok_or("none".into())),
        How::Inner => e(serde_json::from_slice::<Envelope<Q>>(&[b"{\"hop\":1,\"q\":", b, b",\"id\":2}"].concat())).map(|q| q.q.val()),
        _ => unreachable!(),
    }
}
fn read_io<Q: Qty + DeserializeOwned>(r: &mut dyn Read, how: How) -> Res {
    match how {
        How::Reader => e(serde_json::from_reader::<_, Q>(r)).map(|q| q.val()),
        How::ReaderOne => {
            let mut d = serde_json::Deserializer::from_reader(r);
            let q = e(Q::deserialize(&mut d))?;
            Ok(q.val())
        }
        _ => unreachable!(),
    }
}
fn read_next<Q: Qty + DeserializeOwned>(d: &mut JsonDe) -> Res {
    e(Q::deserialize(d)).map(|q| q.val())
}
fn read_list<Q: Qty + DeserializeOwned>(d: &mut JsonDe) -> Result<Vec<f64>, String> {
    e(Vec::<Q>::deserialize(d)).map(|q| q.iter().map(|q| q.val()).collect())
}
fn read_envelope<Q: Qty + DeserializeOwned>(d: &mut JsonDe) -> Result<(u64, u64, f64), String> {
    e(Envelope::<Q>::deserialize(d)).map(|x| (x.id, x.hop, x.q.val()))
}
fn read_core<Q: Qty>(t: &str, how: How) -> Res {
    use whippyunits::serialization::*;
    let (v, u) = e(if how == How::Core { parse_json_input(t) } else { parse_string_input(t) })?;
    e(Q::core(v, &u)).map(|x| Q::mk(x).val())
}
fn read_fields<Q: Qty + DeserializeOwned>(f: crate::serdefmt::Fields) -> Res {
    e(Q::deserialize(f)).map(|q| q.val())
}

fn base(expr: &'static str) -> Meaning {
    match unitoracle::unit(expr) {
        Unit::Must(m) => m,
        x => panic!("port unit {}: {:?}", expr, x),
    }
}

macro_rules! full {
    ($u:expr, $t:ty, $s:expr, $tol:expr) => {
        Port {
            name: concat!(stringify!($u), " as ", stringify!($t)),
            expr: $s,
            unit: base($s),
            storage: stringify!($t),
            tol: $tol,
            write: write::<whippyunits::unit!($u, $t)>,
            write_envelope: write_envelope::<whippyunits::unit!($u, $t)>,
            ser: ser::<whippyunits::unit!($u, $t)>,
            json: Some(|v| e(whippyunits::serialization::serialize_to_json(&<whippyunits::unit!($u, $t) as Qty>::mk(v)))),
            fmt: None,
            conv: Some(|v, unit| {
                let q = <whippyunits::unit!($u, $t) as Qty>::mk(v);
                let mut s = String::new();
                let _ = write!(s, "{}", q.fmt(unit));
                s
            }),
            read: Some(read::<whippyunits::unit!($u, $t)>),
            read_io: Some(read_io::<whippyunits::unit!($u, $t)>),
            read_next: Some(read_next::<whippyunits::unit!($u, $t)>),
            read_list: Some(read_list::<whippyunits::unit!($u, $t)>),
            read_envelope: Some(read_envelope::<whippyunits::unit!($u, $t)>),
            read_fields: Some(read_fields::<whippyunits::unit!($u, $t)>),
            read_core: Some(read_core::<whippyunits::unit!($u, $t)>),
            read_macro: Some(|s| e(whippyunits::from_json!(s, $u, $t)).map(|q| q.val())),
            read_text: Some(|s| e(whippyunits::from_string!(s, $u, $t)).map(|q| q.val())),
        }
    };
}
macro_rules! shown {
    ($u:expr, $t:ty, $s:expr, $tol:expr) => {
        Port {
            fmt: Some(|v, how, w| {
                let q = <whippyunits::unit!($u, $t) as Qty>::mk(v);
                match how {
                    FHow::Unit(u) => write!(w, "{}", q.fmt(u)),
                    FHow::UnitPrecision(u, n) => write!(w, "{:.*}", *n, q.fmt(u)),
                    FHow::UnitWidth(u, n) => write!(w, "{:>1$}", q.fmt(u), *n),
                    h => fmt::<whippyunits::unit!($u, $t)>(v, h, w),
                }
            }),
            ..full!($u, $t, $s, $tol)
        }
    };
}
/// the two-argument forms of the macros
macro_rules! dflt {
    ($u:expr, $s:expr) => {
        Port {
            name: stringify!($u),
            read_macro: Some(|s| e(whippyunits::from_json!(s, $u)).map(|q| q.val())),
            read_text: Some(|s| e(whippyunits::from_string!(s, $u)).map(|q| q.val())),
            ..shown!($u, f64, $s, 1e-11)
        }
    };
}
macro_rules! branded {
    ($u:expr, $s:expr) => {
        Port {
            name: concat!(stringify!($u), " tagged"),
            expr: $s,
            unit: base($s),
            storage: "f64",
            tol: 1e-11,
            write: write::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>,
            write_envelope: write_envelope::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>,
            ser: ser::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>,
            json: None,
            fmt: Some(|v, how, w| {
                let q = <<whippyunits::unit!($u) as Rebrand<Tagged>>::Out as Qty>::mk(v);
                match how {
                    FHow::Unit(u) => write!(w, "{}", q.fmt(u)),
                    FHow::UnitPrecision(u, n) => write!(w, "{:.*}", *n, q.fmt(u)),
                    FHow::UnitWidth(u, n) => write!(w, "{:>1$}", q.fmt(u), *n),
                    h => fmt::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>(v, h, w),
                }
            }),
            conv: Some(|v, unit| {
                let q = <<whippyunits::unit!($u) as Rebrand<Tagged>>::Out as Qty>::mk(v);
                let mut s = String::new();
                let _ = write!(s, "{}", q.fmt(unit));
                s
            }),
            read: Some(read::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_io: Some(read_io::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_next: Some(read_next::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_list: Some(read_list::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_envelope: Some(read_envelope::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_fields: Some(read_fields::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_core: Some(read_core::<<whippyunits::unit!($u) as Rebrand<Tagged>>::Out>),
            read_macro: None,
            read_text: None,
        }
    };
}
/// storage that can be written but not read
macro_rules! wronly {
    ($u:expr, $t:ty, $s:expr, $tol:expr) => {
        Port {
            name: concat!(stringify!($u), " as ", stringify!($t)),
            expr: $s,
            unit: base($s),
            storage: stringify!($t),
            tol: $tol,
            write: write::<whippyunits::unit!($u, $t)>,
            write_envelope: write_envelope::<whippyunits::unit!($u, $t)>,
            ser: ser::<whippyunits::unit!($u, $t)>,
            json: Some(|v| e(whippyunits::serialization::serialize_to_json(&<whippyunits::unit!($u, $t) as Qty>::mk(v)))),
            fmt: Some(|v, how, w| {
                let q = <whippyunits::unit!($u, $t) as Qty>::mk(v);
                match how {
                    FHow::Unit(u) => write!(w, "{}", q.fmt(u)),
                    FHow::UnitPrecision(u, n) => write!(w, "{:.*}", *n, q.fmt(u)),
                    FHow::UnitWidth(u, n) => write!(w, "{:>1$}", q.fmt(u), *n),
                    h => fmt::<whippyunits::unit!($u, $t)>(v, h, w),
                }
            }),
            conv: Some(|v, unit| {
                let q = <whippyunits::unit!($u, $t) as Qty>::mk(v);
                let mut s = String::new();
                let _ = write!(s, "{}", q.fmt(unit));
                s
            }),
            read: None,
            read_io: None,
            read_next: None,
            read_list: None,
            read_envelope: None,
            read_fields: None,
            read_core: None,
            read_macro: None,
            read_text: None,
        }
    };
}

static PORTS: OnceLock<Vec<Port>> = OnceLock::new();
pub fn ports() -> &'static [Port] {
    PORTS.get_or_init(|| {
        vec![
            dflt!(m, "m"),
            dflt!(km, "km"),
            dflt!(mm, "mm"),
            dflt!(nm, "nm"),
            dflt!(s, "s"),
            dflt!(ms, "ms"),
            dflt!(min, "min"),
            dflt!(h, "h"),
            dflt!(d, "d"),
            dflt!(kg, "kg"),
            dflt!(g, "g"),
            dflt!(mg, "mg"),
            dflt!(ct, "ct"),
            dflt!(A, "A"),
            dflt!(mA, "mA"),
            dflt!(K, "K"),
            dflt!(mK, "mK"),
            dflt!(mol, "mol"),
            dflt!(cd, "cd"),
            dflt!(rad, "rad"),
            dflt!(deg, "deg"),
            dflt!(rot, "rot"),
            dflt!(N, "N"),
            dflt!(kN, "kN"),
            dflt!(J, "J"),
            dflt!(kWh, "kWh"),
            dflt!(W, "W"),
            dflt!(MW, "MW"),
            dflt!(Pa, "Pa"),
            dflt!(bar, "bar"),
            dflt!(V, "V"),
            dflt!(uV, "uV"),
            dflt!(C, "C"),
            dflt!(pF, "pF"),
            dflt!(S, "S"),
            dflt!(mH, "mH"),
            dflt!(T, "T"),
            dflt!(G, "G"),
            dflt!(Wb, "Wb"),
            dflt!(klx, "klx"),
            dflt!(Hz, "Hz"),
            dflt!(MHz, "MHz"),
            dflt!(L, "L"),
            dflt!(mL, "mL"),
            dflt!(St, "St"),
            dflt!(m / s, "m/s"),
            dflt!(km / h, "km/h"),
            dflt!(m / s ^ 2, "m/s^2"),
            dflt!(m ^ 2, "m^2"),
            dflt!(mm ^ 2, "mm^2"),
            dflt!(m ^ 3, "m^3"),
            dflt!(1 / s, "1/s"),
            dflt!(1 / K, "1/K"),
            dflt!(rad / s, "rad/s"),
            dflt!(rot / min, "rot/min"),
            dflt!(W / m ^ 2, "W/m^2"),
            dflt!(kg * m ^ 2 / s ^ 3, "kg*m^2/s^3"),
            dflt!(J / kg * K, "J/kg*K"),
            dflt!(mol / L, "mol/L"),
            dflt!(g / mol, "g/mol"),
            dflt!(ym, "ym"),
            dflt!(Qg, "Qg"),
            dflt!(1, "1"),
            dflt!(m / m, "m/m"),
            dflt!(mm / m, "mm/m"),
            dflt!(deg / rad, "deg/rad"),
            dflt!(1 / m ^ 3, "1/m^3"),
            dflt!(A * h, "A*h"),
            dflt!(N * m / rad, "N*m/rad"),
            full!(cm, Exact, "cm", 1e-11),
            full!(us, Exact, "us", 1e-11),
            full!(kJ, Exact, "kJ", 1e-11),
            full!(km / s, Exact, "km/s", 1e-11),
            full!(m, Single, "m", 1e-6),
            full!(kW, Single, "kW", 1e-6),
            full!(kPa, Single, "kPa", 1e-6),
            branded!(km, "km"),
            branded!(mg, "mg"),
            branded!(m / s, "m/s"),
            wronly!(m, f32, "m", 1e-6),
            wronly!(kV, f32, "kV", 1e-6),
            wronly!(mm, i32, "mm", 1e-11),
            wronly!(mg / L, i32, "mg/L", 1e-11),
            wronly!(deg, u8, "deg", 1e-11),
        ]
    })
}
