//! What a record means, decided without the library: own unit table, own expression parser, own number
//! scanner. The executable reference model behind the Q properties.
use serde::de::{IgnoredAny, MapAccess, Visitor};
use serde::Deserialize;
use std::f64::consts::PI;

pub type Dims = [i32; 8]; // kg m s A K mol cd rad

pub struct U {
    pub name: &'static str,
    pub symbols: &'static [&'static str],
    pub dims: Dims,
    /// amount in SI units = (value + offset) * factor
    pub factor: f64,
    pub offset: f64,
    /// may carry an SI prefix
    pub prefixable: bool,
}

const fn u(name: &'static str, symbols: &'static [&'static str], dims: Dims, factor: f64) -> U {
    U { name, symbols, dims, factor, offset: 0.0, prefixable: false }
}
const fn p(name: &'static str, symbols: &'static [&'static str], dims: Dims, factor: f64) -> U {
    U { name, symbols, dims, factor, offset: 0.0, prefixable: true }
}
const fn aff(name: &'static str, symbols: &'static [&'static str], factor: f64, offset: f64) -> U {
    U { name, symbols, dims: K, factor, offset, prefixable: false }
}
const M: Dims = [1, 0, 0, 0, 0, 0, 0, 0];
const L: Dims = [0, 1, 0, 0, 0, 0, 0, 0];
const T: Dims = [0, 0, 1, 0, 0, 0, 0, 0];
const I: Dims = [0, 0, 0, 1, 0, 0, 0, 0];
const K: Dims = [0, 0, 0, 0, 1, 0, 0, 0];
const MOL: Dims = [0, 0, 0, 0, 0, 1, 0, 0];
const CD: Dims = [0, 0, 0, 0, 0, 0, 1, 0];
const RAD: Dims = [0, 0, 0, 0, 0, 0, 0, 1];
const ENERGY: Dims = [1, 2, -2, 0, 0, 0, 0, 0];
const POWER: Dims = [1, 2, -3, 0, 0, 0, 0, 0];
const PRESSURE: Dims = [1, -1, -2, 0, 0, 0, 0, 0];
const AREA: Dims = [0, 2, 0, 0, 0, 0, 0, 0];
const VOLUME: Dims = [0, 3, 0, 0, 0, 0, 0, 0];
const IN3: f64 = 0.0254 * 0.0254 * 0.0254;
const GAL: f64 = 231.0 * IN3;
const UKGAL: f64 = 4.54609e-3;
const LB: f64 = 0.45359237;
const G0: f64 = 9.80665;
const FT: f64 = 0.3048;

/// The units the library documents, with the values of the standards that define them (and, where several
/// are in use, the one the library documents: the long ton, the tropical year, IAU parsec, US bushel).
pub const UNITS: &[U] = &[
    p("gram", &["g"], M, 1e-3),
    u("grain", &["gr"], M, 64.79891e-6),
    u("carat", &["ct"], M, 2e-4),
    u("ounce", &["oz"], M, LB / 16.0),
    u("troy_ounce", &["ozt"], M, 480.0 * 64.79891e-6),
    u("troy_pound", &["lbt"], M, 5760.0 * 64.79891e-6),
    u("pound", &["lb"], M, LB),
    u("stone", &["st"], M, 14.0 * LB),
    u("ton", &["t"], M, 2240.0 * LB),
    p("meter", &["m"], L, 1.0),
    u("inch", &["in"], L, 0.0254),
    u("foot", &["ft"], L, FT),
    u("yard", &["yd"], L, 3.0 * FT),
    u("mile", &["mi"], L, 5280.0 * FT),
    u("nautical_mile", &["nmi"], L, 1852.0),
    u("astronomical_unit", &["AU"], L, 149_597_870_700.0),
    u("light_year", &["ly"], L, 299_792_458.0 * 31_557_600.0),
    u("parsec", &["pc"], L, 3.08567758128e16),
    p("second", &["s"], T, 1.0),
    u("minute", &["min"], T, 60.0),
    u("hour", &["h", "hr"], T, 3600.0),
    u("day", &["d"], T, 86400.0),
    u("week", &["wk"], T, 604800.0),
    u("month", &["mo"], T, 2592000.0),
    u("year", &["yr"], T, 31556926.0),
    p("ampere", &["A"], I, 1.0),
    p("kelvin", &["K"], K, 1.0),
    aff("celsius", &["degC"], 1.0, 273.15),
    aff("rankine", &["degR"], 5.0 / 9.0, 0.0),
    aff("fahrenheit", &["degF"], 5.0 / 9.0, 459.67),
    p("mole", &["mol"], MOL, 1.0),
    p("candela", &["cd"], CD, 1.0),
    p("radian", &["rad"], RAD, 1.0),
    u("degree", &["deg"], RAD, PI / 180.0),
    u("gradian", &["grad"], RAD, PI / 200.0),
    u("turn", &["rot", "turn"], RAD, 2.0 * PI),
    u("arcminute", &["arcmin"], RAD, PI / 10800.0),
    u("arcsecond", &["arcsec"], RAD, PI / 648000.0),
    p("hectare", &["hect"], AREA, 1e4),
    u("acre", &["acre"], AREA, 43560.0 * FT * FT),
    p("liter", &["L", "l"], VOLUME, 1e-3),
    u("gallon", &["gal", "gallon"], VOLUME, GAL),
    u("quart", &["qrt"], VOLUME, GAL / 4.0),
    u("pint", &["pnt"], VOLUME, GAL / 8.0),
    u("cup", &["cup"], VOLUME, GAL / 16.0),
    u("fluid_ounce", &["fl_oz"], VOLUME, GAL / 128.0),
    u("tablespoon", &["tbsp"], VOLUME, GAL / 256.0),
    u("teaspoon", &["tsp"], VOLUME, GAL / 768.0),
    u("uk_gallon", &["uk_gal"], VOLUME, UKGAL),
    u("uk_quart", &["uk_qrt"], VOLUME, UKGAL / 4.0),
    u("uk_pint", &["uk_pnt"], VOLUME, UKGAL / 8.0),
    u("uk_cup", &["uk_cup"], VOLUME, UKGAL / 16.0),
    u("uk_fluid_ounce", &["uk_fl_oz"], VOLUME, UKGAL / 160.0),
    u("uk_tablespoon", &["uk_tbsp"], VOLUME, UKGAL / 256.0),
    u("uk_teaspoon", &["uk_tsp"], VOLUME, UKGAL / 768.0),
    u("bushel", &["bu"], VOLUME, 2150.42 * IN3),
    p("hertz", &["Hz"], [0, 0, -1, 0, 0, 0, 0, 0], 1.0),
    p("newton", &["N"], [1, 1, -2, 0, 0, 0, 0, 0], 1.0),
    p("joule", &["J"], ENERGY, 1.0),
    u("electron_volt", &["eV"], ENERGY, 1.602176634e-19),
    u("erg", &["erg"], ENERGY, 1e-7),
    u("newton_meter", &["Nm"], ENERGY, 1.0),
    u("calorie", &["cal"], ENERGY, 4.184),
    u("foot_pound", &["ft_lb"], ENERGY, FT * LB * G0),
    u("kilowatt_hour", &["kWh"], ENERGY, 3.6e6),
    u("therm", &["thm"], ENERGY, 1.05505585262e8),
    p("watt", &["W"], POWER, 1.0),
    u("horsepower", &["hp"], POWER, 550.0 * FT * LB * G0),
    p("pascal", &["Pa"], PRESSURE, 1.0),
    u("torr", &["Torr"], PRESSURE, 101325.0 / 760.0),
    u("psi", &["psi"], PRESSURE, LB * G0 / (0.0254 * 0.0254)),
    u("bar", &["bar"], PRESSURE, 1e5),
    u("atmosphere", &["atm"], PRESSURE, 101325.0),
    p("coulomb", &["C"], [0, 0, 1, 1, 0, 0, 0, 0], 1.0),
    p("volt", &["V"], [1, 2, -3, -1, 0, 0, 0, 0], 1.0),
    p("farad", &["F"], [-1, -2, 4, 2, 0, 0, 0, 0], 1.0),
    p("ohm", &["Ω"], [1, 2, -3, -2, 0, 0, 0, 0], 1.0),
    p("siemens", &["S"], [-1, -2, 3, 2, 0, 0, 0, 0], 1.0),
    p("henry", &["H"], [1, 2, -2, -2, 0, 0, 0, 0], 1.0),
    p("tesla", &["T"], [1, 0, -2, -1, 0, 0, 0, 0], 1.0),
    u("gauss", &["G"], [1, 0, -2, -1, 0, 0, 0, 0], 1e-4),
    p("weber", &["Wb"], [1, 2, -2, -1, 0, 0, 0, 0], 1.0),
    p("lux", &["lx"], [0, -2, 0, 0, 0, 0, 1, 0], 1.0),
    p("stokes", &["St"], [0, 2, -1, 0, 0, 0, 0, 0], 1e-4),
];
/// Names whose meaning the oracle leaves open: defined by the library in a way a standard does not back
/// (lumen), defined but not registered (slug, fathom, furlong, metric fluid ounce), or names of its own.
const OPEN: &[&str] =
    &["lm", "lumen", "slug", "slg", "fathom", "ftm", "furlong", "fur", "metric_fluid_ounce", "metric_fl_oz", "dimensionless", "power_of_10"];

pub const PREFIXES: &[(&str, &str, i32)] = &[
    ("q", "quecto", -30), ("r", "ronto", -27), ("y", "yocto", -24), ("z", "zepto", -21), ("a", "atto", -18),
    ("f", "femto", -15), ("p", "pico", -12), ("n", "nano", -9), ("\u{b5}", "micro", -6), ("u", "micro", -6),
    ("m", "milli", -3), ("c", "centi", -2), ("d", "deci", -1), ("da", "deca", 1), ("h", "hecto", 2),
    ("k", "kilo", 3), ("M", "mega", 6), ("G", "giga", 9), ("T", "tera", 12), ("P", "peta", 15),
    ("E", "exa", 18), ("Z", "zetta", 21), ("Y", "yotta", 24), ("R", "ronna", 27), ("Q", "quetta", 30),
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Meaning {
    pub dims: Dims,
    pub log10: i32,
    pub factor: f64,
    pub offset: f64,
}
const ONE: Meaning = Meaning { dims: [0; 8], log10: 0, factor: 1.0, offset: 0.0 };

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Unit {
    /// documented notation: has to be understood, as this
    Must(Meaning),
    /// understood as this, or refused
    May(Meaning),
    /// not decided by the oracle (any meaning, or refused)
    Open,
    /// not a unit expression over known units
    Refuse,
}

/// A single name, prefixed or not.
pub fn name(s: &str) -> Unit {
    if OPEN.contains(&s) || OPEN.iter().any(|o| s.len() > o.len() && s.ends_with(o) && PREFIXES.iter().any(|x| s[..s.len() - o.len()] == *x.0 || s[..s.len() - o.len()].to_lowercase() == x.1)) {
        return Unit::Open;
    }
    for x in UNITS {
        if x.symbols.contains(&s) || x.name == s {
            return Unit::Must(Meaning { dims: x.dims, log10: 0, factor: x.factor, offset: x.offset });
        }
    }
    let mut found: Vec<Meaning> = vec![];
    for (sym, long, e) in PREFIXES {
        for x in UNITS.iter().filter(|x| x.prefixable) {
            let by_symbol = s.strip_prefix(sym).map_or(false, |b| x.symbols.contains(&b));
            let mut upper = long.to_string();
            upper[..1].make_ascii_uppercase();
            let by_name = [long, &upper.as_str()].iter().any(|l| s.strip_prefix(**l) == Some(x.name));
            if by_symbol || (by_name && *sym != "u") {
                found.push(Meaning { dims: x.dims, log10: *e, factor: x.factor, offset: 0.0 });
            }
        }
    }
    match found.len() {
        0 => Unit::Refuse,
        1 => Unit::Must(found[0]),
        _ => Unit::Open,
    }
}

fn pow(m: Meaning, e: i32) -> Meaning {
    let mut d = m.dims;
    d.iter_mut().for_each(|x| *x = x.saturating_mul(e));
    Meaning { dims: d, log10: m.log10.saturating_mul(e), factor: m.factor.powi(e), offset: m.offset }
}
fn mul(a: Meaning, b: Meaning, sign: i32) -> Meaning {
    let mut d = a.dims;
    for i in 0..8 {
        d[i] = d[i].saturating_add(b.dims[i].saturating_mul(sign));
    }
    Meaning { dims: d, log10: a.log10.saturating_add(b.log10.saturating_mul(sign)), factor: if sign > 0 { a.factor * b.factor } else { a.factor / b.factor }, offset: 0.0 }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(String),
    Int(String),
    Op(char),
}

struct Parse<'a> {
    t: &'a [Tok],
    i: usize,
    open: bool,
    may: bool,
    affine: bool,
    atoms: usize,
    depth: usize,
}
type R = Option<Meaning>; // None: not an expression
impl Parse<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn op(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::Op(c)) {
            self.i += 1;
            return true;
        }
        false
    }
    fn expr(&mut self) -> R {
        self.depth += 1;
        if self.depth > 60 {
            self.open = true;
            return None;
        }
        let mut a = self.product()?;
        let mut n = 0;
        while self.op('/') {
            n += 1;
            a = mul(a, self.product()?, -1);
        }
        if n > 1 {
            self.may = true;
        }
        self.depth -= 1;
        Some(a)
    }
    fn product(&mut self) -> R {
        let mut a = self.power()?;
        while self.op('*') || self.op('.') {
            a = mul(a, self.power()?, 1);
        }
        Some(a)
    }
    fn int(&mut self) -> Option<i32> {
        let neg = self.op('-');
        match self.peek().cloned() {
            Some(Tok::Int(t)) => {
                self.i += 1;
                if t.len() > 1 && t.starts_with('0') {
                    self.may = true;
                }
                // exponents beyond what is useful may be refused; beyond the parser's, too
                let v = if t.len() > 8 { 100_000_000 } else { t.parse::<i32>().ok()? };
                if v > 20 || v == 0 {
                    self.may = true;
                }
                Some(if neg { -v } else { v })
            }
            _ => None,
        }
    }
    fn power(&mut self) -> R {
        let a = self.atom()?;
        if self.op('^') {
            let e = if self.op('(') {
                self.may = true;
                let e = self.int()?;
                if !self.op(')') {
                    return None;
                }
                e
            } else {
                self.int()?
            };
            return Some(pow(a, e));
        }
        Some(a)
    }
    fn atom(&mut self) -> R {
        self.atoms += 1;
        match self.peek().cloned() {
            Some(Tok::Op('(')) => {
                self.i += 1;
                self.may = true;
                let a = self.expr()?;
                if !self.op(')') {
                    return None;
                }
                Some(a)
            }
            Some(Tok::Int(t)) => {
                self.i += 1;
                // only a leading 1 is documented notation
                if t != "1" || self.i != 1 {
                    self.may = true;
                }
                Some(Meaning { factor: t.parse().ok()?, ..ONE })
            }
            Some(Tok::Name(n)) => {
                self.i += 1;
                let (base, e) = match n.find(|c: char| c.is_ascii_digit()) {
                    Some(k) => {
                        let digits = &n[k..];
                        if !digits.bytes().all(|b| b.is_ascii_digit()) {
                            return None;
                        }
                        let v = if digits.len() > 8 { 100_000_000 } else { digits.parse::<i32>().ok()? };
                        if v > 20 || v == 0 || (digits.len() > 1 && digits.starts_with('0')) {
                            self.may = true;
                        }
                        (&n[..k], v)
                    }
                    None => (&n[..], 1),
                };
                match name(base) {
                    Unit::Must(m) => {
                        if m.offset != 0.0 {
                            self.affine = true;
                            if e != 1 {
                                self.open = true;
                            }
                        }
                        Some(pow(m, e))
                    }
                    Unit::May(m) => {
                        self.may = true;
                        Some(pow(m, e))
                    }
                    Unit::Open => {
                        self.open = true;
                        Some(ONE)
                    }
                    Unit::Refuse => None,
                }
            }
            _ => None,
        }
    }
}

pub fn unit(s: &str) -> Unit {
    if s.contains("r#") {
        return Unit::Open;
    }
    let mut toks = vec![];
    // a byte order mark is no character of the text
    let (s, mut may) = match s.strip_prefix('\u{feff}') {
        Some(t) => (t, true),
        None => (s, s.len() > 512),
    };
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut open = false;
    while i < cs.len() {
        let c = cs[i];
        if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
            i += 1;
        } else if c.is_whitespace() || c == '\u{200e}' || c == '\u{200f}' || c == '\u{b}' || c == '\u{c}' {
            open = true;
            i += 1;
        } else if c.is_ascii_digit() {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let t: String = cs[i..j].iter().collect();
            if !t.bytes().all(|b| b.is_ascii_digit()) {
                return Unit::Refuse; // 1e3, 0x2, 2u8, 5m
            }
            // 1.5 is a number of its own
            if j + 1 < cs.len() && cs[j] == '.' && cs[j + 1].is_ascii_digit() && !matches!(toks.last(), Some(Tok::Op('^')) | Some(Tok::Op('-'))) {
                return Unit::Refuse;
            }
            // "2. s": the dot may be taken for the number's
            if j < cs.len() && cs[j] == '.' && !cs.get(j + 1).map_or(false, |c| c.is_alphabetic() || *c == '_') {
                may = true;
            }
            toks.push(Tok::Int(t));
            i = j;
        } else if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            toks.push(Tok::Name(cs[i..j].iter().collect()));
            i = j;
        } else if "*./^-()".contains(c) {
            toks.push(Tok::Op(c));
            i += 1;
        } else {
            return Unit::Refuse;
        }
    }
    let mut p = Parse { t: &toks, i: 0, open: false, may, affine: false, atoms: 0, depth: 0 };
    let m = p.expr();
    if p.open || open {
        // what is left open stays open only while every name in it is known
        let unknown = toks.iter().any(|t| matches!(t, Tok::Name(n) if name(&n[..n.find(|c: char| c.is_ascii_digit()).unwrap_or(n.len())]) == Unit::Refuse));
        return if unknown && p.depth <= 60 { Unit::Refuse } else { Unit::Open };
    }
    let m = match m {
        Some(m) if p.i == toks.len() => m,
        _ => return Unit::Refuse,
    };
    if p.affine && (p.atoms > 1 || toks.len() > 1) {
        return Unit::Open;
    }
    if p.may {
        Unit::May(m)
    } else {
        Unit::Must(m)
    }
}

/// Length of the longest prefix that is a decimal number, 0 if none.
pub fn number_len(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let mut digits = i - d0;
    if i < b.len() && b[i] == b'.' {
        let f0 = i + 1;
        let mut j = f0;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        digits += j - f0;
        if digits > 0 {
            i = j;
        }
    }
    if digits == 0 {
        return 0;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        let mut j = i + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let e0 = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        if j > e0 {
            i = j;
        }
    }
    i
}

/// What a text in the form "value unit" states.
pub fn text_form(s: &str) -> (Option<f64>, Unit) {
    let t = s.trim();
    let low = t.to_lowercase();
    let low = low.trim_start_matches(['+', '-']);
    if low.starts_with("inf") || low.starts_with("nan") {
        return (None, Unit::Open);
    }
    let odd = t.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t' && c != '\n' && c != '\r');
    let n = number_len(t);
    if n == 0 {
        return (None, Unit::Refuse);
    }
    let v: f64 = t[..n].parse().unwrap();
    let rest = &t[n..];
    if rest.trim().is_empty() {
        return (Some(v), Unit::Refuse);
    }
    let mut m = unit(&rest.split_whitespace().collect::<Vec<_>>().join(" "));
    // a space inside the unit but none before it: read either way
    let spaced = rest.chars().next().map_or(false, |c| c.is_whitespace());
    if let Unit::Must(x) = m {
        if (!spaced && rest.contains(char::is_whitespace)) || odd || !v.is_finite() {
            m = Unit::May(x);
        }
    }
    if odd && m == Unit::Refuse {
        m = Unit::Open;
    }
    (Some(v), m)
}

// ---------------------------------------------------------------------------------------------------------
// records

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// this amount in SI units, of these dimensions, from this value (for error bounds)
    Must(Amount),
    May(Amount),
    Open,
    Refuse,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Amount {
    pub value: f64,
    pub unit: Meaning,
}

struct Raw {
    value: Vec<serde_json::Value>,
    unit: Vec<serde_json::Value>,
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Raw;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("record")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Raw, A::Error> {
                let mut r = Raw { value: vec![], unit: vec![] };
                while let Some(k) = m.next_key::<String>()? {
                    match k.as_str() {
                        "value" => r.value.push(m.next_value()?),
                        "unit" => r.unit.push(m.next_value()?),
                        _ => {
                            m.next_value::<IgnoredAny>()?;
                        }
                    }
                }
                Ok(r)
            }
        }
        d.deserialize_map(V)
    }
}

/// What the bytes of one record state, for a reader that is shown exactly them.
pub fn record(bytes: &[u8]) -> Expect {
    let raw: Raw = match serde_json::from_slice(bytes) {
        Ok(r) => r,
        Err(_) => return Expect::Refuse,
    };
    if raw.value.len() != 1 || raw.unit.len() != 1 {
        return Expect::Refuse;
    }
    let Some(u) = raw.unit[0].as_str() else { return Expect::Refuse };
    let m = unit(u);
    let (v, number) = match &raw.value[0] {
        serde_json::Value::Number(n) => (n.as_f64().unwrap_or(f64::NAN), true),
        serde_json::Value::String(s) => match s.parse::<f64>() {
            Ok(v) => (v, false),
            _ => return Expect::Refuse,
        },
        _ => return Expect::Refuse,
    };
    match m {
        Unit::Refuse => Expect::Refuse,
        Unit::Open => Expect::Open,
        Unit::May(m) => Expect::May(Amount { value: v, unit: m }),
        Unit::Must(m) if number => Expect::Must(Amount { value: v, unit: m }),
        Unit::Must(m) => Expect::May(Amount { value: v, unit: m }),
    }
}

pub fn string(s: &str) -> Expect {
    match text_form(s) {
        (Some(v), Unit::Must(m)) => Expect::Must(Amount { value: v, unit: m }),
        (Some(v), Unit::May(m)) => Expect::May(Amount { value: v, unit: m }),
        (_, Unit::Open) => Expect::Open,
        _ => Expect::Refuse,
    }
}

/// 10^e without leaving f64's range on the way
fn scaled(v: f64, log10: i32) -> f64 {
    let mut v = v;
    let mut e = log10;
    while e != 0 && v != 0.0 && v.is_finite() {
        let s = e.clamp(-200, 200);
        v *= 10f64.powi(s);
        e -= s;
    }
    v
}

impl Amount {
    /// value in a unit with meaning `to` (same dimensions), and the magnitude rounding errors relate to
    pub fn in_unit(&self, to: &Meaning) -> (f64, f64) {
        let si = (self.value + self.unit.offset) * (self.unit.factor / to.factor);
        let mag = (self.value.abs() + self.unit.offset.abs()) * (self.unit.factor / to.factor).abs();
        let e = self.unit.log10 - to.log10;
        let off = to.offset;
        (scaled(si, e) - off, scaled(mag, e).abs() + off.abs())
    }
}

/// Is `got` the value of `a` in the unit `to`, up to `tol` relative rounding?
pub fn agrees(a: &Amount, to: &Meaning, got: f64, tol: f64) -> bool {
    let (want, mag) = a.in_unit(to);
    // steps along the way leave the range of normal numbers: nothing is claimed
    if !want.is_finite() || !mag.is_finite() || mag > 1e250 || (want != 0.0 && mag < 1e-250) || a.value.abs() > 1e250 || (a.value != 0.0 && a.value.abs() < 1e-250) {
        return true;
    }
    let f = (a.unit.factor / to.factor).abs();
    if !(1e-200..1e200).contains(&f) || (a.unit.log10 - to.log10).abs() > 200 {
        return true;
    }
    got.is_finite() && (got - want).abs() <= tol * mag + f64::MIN_POSITIVE
}

/// the coherent SI unit of these dimensions
#[allow(non_snake_case)]
pub fn SI(dims: Dims) -> Meaning {
    Meaning { dims, ..ONE }
}
