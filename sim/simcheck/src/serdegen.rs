//! Seeded scenarios for the serialisation properties.
use crate::ports::{ports, FHow, How, Port, WHow};
use crate::serdefmt::Item;
use crate::serdeworld::*;
use crate::unitoracle::{self, Dims, Meaning, Unit, PREFIXES, UNITS};
use simrt::rng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub fn generate(prop: &str, seed: u64, faulty: bool) -> SerdeScn {
    let mut g = G { r: Rng::stream(seed, "scenario"), faulty };
    let kind = match prop {
        "Q01" => Kind::Exchange(g.exchange()),
        "Q02" => Kind::Decode(g.damaged()),
        "Q03" => Kind::Decode(g.wrong_units()),
        "Q04" => Kind::Write(g.writes()),
        "Q05" => Kind::Stream(g.streams()),
        _ => panic!("unknown property {}", prop),
    };
    SerdeScn { seed, kind }
}

/// one of many unit expressions in documented notation
pub fn unit_text(k: u64) -> String {
    let mut g = G { r: Rng::stream(k, "unit"), faulty: false };
    let mut d: Dims = [0; 8];
    for _ in 0..1 + g.r.usize(3) {
        d[g.r.usize(8)] = g.r.usize(6) as i32 - 2;
    }
    g.unit_for(&d)
}

struct G {
    r: Rng,
    faulty: bool,
}

fn log10_of(m: &Meaning) -> f64 {
    m.log10 as f64 + m.factor.abs().log10()
}

/// ports by dimension
fn groups() -> &'static Vec<(Dims, Vec<usize>)> {
    static G: OnceLock<Vec<(Dims, Vec<usize>)>> = OnceLock::new();
    G.get_or_init(|| {
        let mut m: BTreeMap<Dims, Vec<usize>> = BTreeMap::new();
        for (i, p) in ports().iter().enumerate() {
            m.entry(p.unit.dims).or_default().push(i);
        }
        m.into_iter().filter(|(_, v)| v.iter().any(|i| ports()[*i].read.is_some())).collect()
    })
}

const READS: [How; 10] = [How::Slice, How::Str, How::Reader, How::ReaderOne, How::Value, How::Macro, How::Core, How::Owned, How::List, How::Inner];
const WRITES: [WHow; 7] = [WHow::Writer, WHow::Pretty, WHow::String, WHow::Vec, WHow::Json, WHow::Value, WHow::Inner];

impl G {
    fn p(&mut self, pm: u32) -> bool {
        self.r.pm(pm)
    }
    fn f(&mut self, pm: u32) -> bool {
        self.r.pm(pm) && self.faulty
    }
    fn one<T: Clone>(&mut self, xs: &[T]) -> T {
        self.r.pick(xs).clone()
    }
    fn pieces(&mut self) -> Vec<u32> {
        match self.r.usize(4) {
            0 => vec![],
            1 => vec![1],
            2 => (0..1 + self.r.usize(6)).map(|_| 1 + self.r.below(7) as u32).collect(),
            _ => (0..1 + self.r.usize(4)).map(|_| 1 + self.r.below(40) as u32).collect(),
        }
    }
    fn eintr(&mut self, n: usize) -> Vec<u32> {
        if !self.f(400) {
            return vec![];
        }
        let k = 1 + self.r.usize(5);
        let mut v: Vec<u32> = (0..k).map(|_| self.r.below(n.max(1) as u64 + 2) as u32).collect();
        v.sort();
        v.dedup();
        v
    }
    fn read_plan(&mut self, len: usize, err: u32) -> ReadPlan {
        ReadPlan {
            pieces: self.pieces(),
            eintr: self.eintr(len),
            err_at: if self.f(err) { Some(self.r.below(len as u64 + 2) as u32) } else { None },
            err_kind: self.r.below(8) as u8,
        }
    }

    // ----- values

    fn nice(&mut self) -> f64 {
        match self.r.usize(9) {
            0 => self.r.below(10) as f64,
            1 => self.r.below(100000) as f64 / 100.0,
            2 => 0.0,
            3 => 1.0,
            4 => -(self.r.below(10000) as f64) / 8.0,
            5 => f64::from_bits(0x3ff0_0000_0000_0000 | (self.r.next() >> 12)),
            6 => self.log_uniform(-12.0, 12.0),
            7 => -self.log_uniform(-9.0, 9.0),
            _ => self.log_uniform(-3.0, 6.0),
        }
    }
    fn log_uniform(&mut self, lo: f64, hi: f64) -> f64 {
        let x = self.r.below(1 << 30) as f64 / (1u64 << 30) as f64;
        10f64.powf(lo + x * (hi - lo))
    }
    fn any_value(&mut self) -> f64 {
        match self.r.usize(14) {
            0 => f64::from_bits(self.r.next()),
            1 => f64::NAN,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => -0.0,
            5 => f64::MIN_POSITIVE / 8.0,
            6 => f64::MAX,
            7 => self.log_uniform(-300.0, 300.0),
            8 => 1e21,
            9 => 0.1 + 0.2,
            _ => self.nice(),
        }
    }
    /// a value for the port whose amount in SI units lies within 1e-9..1e9
    fn value_for(&mut self, p: &Port) -> f64 {
        match p.storage {
            "i32" => return self.r.below(200_001) as f64 - 100_000.0,
            "u8" => return self.r.below(201) as f64,
            _ => {}
        }
        if self.p(100) {
            return 0.0;
        }
        let v = if self.p(500) {
            // ordinary in the port's own unit
            let v = self.log_uniform(-3.0, 6.0);
            if self.p(500) {
                v.round().max(1.0)
            } else {
                v
            }
        } else {
            let si = self.log_uniform(-9.0, 9.0);
            let e = si.log10() - log10_of(&p.unit);
            10f64.powf(e)
        };
        let v = if self.p(250) { -v } else { v };
        if p.storage == "Single" || p.storage == "f32" {
            v as f32 as f64
        } else {
            v
        }
    }
    fn number_text(&mut self) -> String {
        let v = self.nice();
        match self.r.usize(9) {
            0 => format!("{:e}", v),
            1 => format!("{:E}", v),
            2 => format!("{:.3}", v),
            3 => format!("{}", v as i64),
            4 => format!("{:?}", v),
            5 => format!("{:.17}", v),
            6 => format!("{:e}", v).replace("e", "e+").replace("+-", "-"),
            _ => format!("{}", v),
        }
    }

    // ----- units

    /// one name for exactly these dimensions, and its meaning
    fn named(&mut self, dims: &Dims, prefix: bool) -> Option<(String, Meaning)> {
        let fit: Vec<&unitoracle::U> = UNITS.iter().filter(|u| u.dims == *dims).collect();
        if fit.is_empty() {
            return None;
        }
        for _ in 0..8 {
            let u = *self.r.pick(&fit);
            let long = self.p(250);
            let base = if long { u.name.to_string() } else { self.one(u.symbols).to_string() };
            let s = if prefix && u.prefixable && self.p(500) {
                let (a, b, e) = *self.r.pick(PREFIXES);
                if e.abs() > 12 && !self.p(150) {
                    continue;
                }
                let mut pre = if long { b } else { a }.to_string();
                if long && self.p(300) {
                    pre[..1].make_ascii_uppercase();
                }
                format!("{}{}", pre, base)
            } else {
                base
            };
            if let Unit::Must(m) = unitoracle::name(&s) {
                if m.dims == *dims {
                    return Some((s, m));
                }
            }
        }
        None
    }

    /// a unit expression in documented notation with these dimensions
    pub fn unit_for(&mut self, dims: &Dims) -> String {
        for _ in 0..30 {
            let s = self.try_unit(dims);
            if s.len() > 200 {
                continue;
            }
            if let Unit::Must(m) = unitoracle::unit(&s) {
                if m.dims == *dims && log10_of(&m).abs() < 40.0 {
                    return s;
                }
            }
        }
        self.plain(dims)
    }
    fn plain(&mut self, dims: &Dims) -> String {
        let sy = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
        let up: Vec<String> = (0..8).filter(|i| dims[*i] > 0).map(|i| format!("{}^{}", sy[i], dims[i])).collect();
        let dn: Vec<String> = (0..8).filter(|i| dims[*i] < 0).map(|i| format!("{}^{}", sy[i], -dims[i])).collect();
        let a = if up.is_empty() { "1".to_string() } else { up.join("*") };
        if dn.is_empty() {
            a
        } else {
            format!("{}/{}", a, dn.join("*"))
        }
    }
    fn try_unit(&mut self, dims: &Dims) -> String {
        if self.p(400) {
            if let Some((s, _)) = self.named(dims, true) {
                return s;
            }
        }
        let mut left = *dims;
        let mut atoms: Vec<(String, i32)> = vec![];
        // derived units, corrected by the rest
        let n = if self.p(500) { 0 } else { 1 + self.r.usize(2) };
        for _ in 0..n {
            let u = self.r.pick(UNITS);
            if u.offset != 0.0 {
                continue;
            }
            let d = u.dims;
            let e = if self.p(600) { 1 } else { -1 };
            if let Some((s, _)) = self.named(&d, true) {
                if matches!(unitoracle::name(&s), Unit::Must(m) if m.offset == 0.0) {
                    for i in 0..8 {
                        left[i] -= d[i] * e;
                    }
                    atoms.push((s, e));
                }
            }
        }
        for i in 0..8 {
            let mut e = left[i];
            let mut d: Dims = [0; 8];
            d[i] = 1;
            while e != 0 {
                let step = if e.abs() > 1 && self.p(200) { e.signum() } else { e };
                let prefix = step.abs() <= 3 && self.p(400);
                let s = match self.named(&d, prefix) {
                    Some((s, m)) if m.offset == 0.0 => s,
                    _ => ["kg", "m", "s", "A", "K", "mol", "cd", "rad"][i].to_string(),
                };
                atoms.push((s, step));
                e -= step;
            }
        }
        // shuffled
        for i in (1..atoms.len()).rev() {
            let j = self.r.usize(i + 1);
            atoms.swap(i, j);
        }
        self.spell(&atoms)
    }
    fn spell(&mut self, atoms: &[(String, i32)]) -> String {
        let style = self.r.usize(3);
        let space = self.p(200);
        let dot = self.p(500);
        let atom = |g: &mut G, s: &str, e: i32| -> String {
            if e == 1 {
                s.to_string()
            } else if e > 0 && (style == 0 || (style == 2 && g.p(500))) {
                format!("{}{}", s, e)
            } else if space && g.p(300) {
                format!("{} ^ {}", s, e)
            } else {
                format!("{}^{}", s, e)
            }
        };
        let mut up = vec![];
        let mut dn = vec![];
        let negatives = self.p(200);
        for (s, e) in atoms {
            if *e > 0 || negatives {
                let t = atom(self, s, *e);
                up.push(t);
            } else {
                let t = atom(self, s, -*e);
                dn.push(t);
            }
        }
        let sep = match (dot, space) {
            (true, false) => ".",
            (true, true) => " . ",
            (false, false) => "*",
            (false, true) => " * ",
        };
        let a = if up.is_empty() { "1".to_string() } else { up.join(sep) };
        if dn.is_empty() {
            a
        } else {
            format!("{}{}{}", a, if space { " / " } else { "/" }, dn.join(sep))
        }
    }

    // ----- records

    fn key(&mut self, k: &str) -> String {
        if self.p(60) {
            // the same key, escaped
            let cs: Vec<char> = k.chars().collect();
            let i = self.r.usize(cs.len());
            return cs.iter().enumerate().map(|(j, c)| if i == j { format!("\\u{:04x}", *c as u32) } else { c.to_string() }).collect();
        }
        k.to_string()
    }
    fn json_string(&mut self, s: &str) -> String {
        let esc = self.p(120);
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '/' if self.p(100) => o.push_str("\\/"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c if esc && self.p(300) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04X}", u));
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    fn ws(&mut self) -> String {
        if self.p(150) {
            self.one(&[" ", "\n", "\t", "\r\n", "   ", " \n\t "]).to_string()
        } else {
            String::new()
        }
    }
    fn extra(&mut self) -> (String, String) {
        let k = self.one(&["note", "Value", "units", "UNIT", "value ", "", "v", "ünit", "timestamp", "valueunit", "scale", "brand"]);
        let v = self.one(&["null", "true", "5", "-1.5e3", "\"m\"", "[1,[2,{\"value\":3}]]", "{\"value\":9,\"unit\":\"kg\"}", "\"\\u00e9\\\"}\"", "{}", "[]", "\"}{\"", "12345678901234567890123"]);
        (k.to_string(), v.to_string())
    }
    /// a record with the given number text and unit text, in one of its equivalent spellings
    fn record(&mut self, num: &str, unit: &str, extras: bool) -> Vec<u8> {
        let mut fields = vec![];
        let kv = self.key("value");
        let ku = self.key("unit");
        let us = self.json_string(unit);
        fields.push((format!("\"{}\"", kv), num.to_string()));
        fields.push((format!("\"{}\"", ku), us));
        if self.p(300) {
            fields.swap(0, 1);
        }
        if extras {
            while self.p(250) {
                let (k, v) = self.extra();
                let at = self.r.usize(fields.len() + 1);
                fields.insert(at, (serde_json::to_string(&k).unwrap(), v));
            }
        }
        let mut o = self.ws();
        o.push('{');
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            for part in [k.as_str(), ":", v.as_str()] {
                o.push_str(&self.ws());
                o.push_str(part);
            }
            o.push_str(&self.ws());
        }
        o.push('}');
        o.into_bytes()
    }
    fn json_number(&mut self) -> String {
        loop {
            let t = self.number_text();
            if serde_json::from_str::<f64>(&t).is_ok() {
                return t;
            }
        }
    }
    fn readable(&mut self) -> usize {
        loop {
            let (_, v) = self.r.pick(groups());
            let i = *self.r.pick(v);
            if ports()[i].read.is_some() {
                return i;
            }
        }
    }

    // ----- Q01

    fn exchange(&mut self) -> Exchange {
        let gs: Vec<&(Dims, Vec<usize>)> = groups().iter().filter(|g| g.1.len() > 1).collect();
        let (dims, mem) = if self.p(800) { (*self.r.pick(&gs)).clone() } else { self.r.pick(groups()).clone() };
        let readers: Vec<usize> = mem.iter().copied().filter(|i| ports()[*i].read.is_some()).collect();
        let n = 2 + self.r.usize(5);
        let faulty = self.faulty;
        let mut parties = vec![];
        for k in 0..n {
            // two parties at least can read
            let port = if k < 2 || self.p(700) { *self.r.pick(&readers) } else { *self.r.pick(&mem) };
            let conv = ports()[port].conv.is_some();
            let text = self.p(300) && conv;
            let disk_bad = self.f(300);
            parties.push(Party {
                port: port as u16,
                text_unit: if text { Some(self.unit_for(&dims)) } else { None },
                write: self.one(&WRITES),
                disk_full: if disk_bad { (0..1 + self.r.usize(3)).map(|_| (self.r.below(8) as u32, self.r.below(70) as u32)).collect() } else { vec![] },
                disk_pieces: if faulty { self.pieces() } else { vec![] },
                sync_us: self.r.below(5000),
                read_pieces: self.pieces(),
                resend_us: 1000 + self.r.below(30_000),
            });
        }
        let can_read: Vec<u8> = (0..n as u8).filter(|p| ports()[parties[*p as usize].port as usize].read.is_some()).collect();
        let mut tokens = vec![];
        let many = self.p(200);
        let nt = 1 + self.r.usize(if many { 12 } else { 4 });
        for _ in 0..nt {
            let first = self.r.below(n as u64) as u8;
            let long = self.p(200);
            let hops = 1 + self.r.usize(if long { 24 } else { 5 });
            let mut path = vec![first];
            while path.len() <= hops {
                let c = *self.r.pick(&can_read);
                if Some(&c) != path.last() {
                    path.push(c);
                } else if can_read.len() == 1 {
                    break;
                }
            }
            let v = self.value_for(&ports()[parties[first as usize].port as usize]);
            tokens.push(Token { value: v.to_bits(), at_us: self.r.below(50_000), path });
        }
        let swarm: Vec<bool> = (0..6).map(|_| self.f(500)).collect();
        let net = Net {
            min_us: self.r.below(500),
            max_us: 500 + self.r.below(20_000),
            loss: if swarm[0] { self.r.below(400) as u32 } else { 0 },
            dup: if swarm[1] { self.r.below(400) as u32 } else { 0 },
            cut: if swarm[2] { self.r.below(400) as u32 } else { 0 },
            eintr: if swarm[3] { self.r.below(400) as u32 } else { 0 },
            pieces: self.pieces(),
        };
        let heal_us = 20_000 + self.r.below(400_000);
        let cuts = if swarm[4] {
            (0..1 + self.r.usize(3))
                .map(|_| {
                    let a = self.r.below(heal_us);
                    (a, a + self.r.below(60_000), self.r.below(n as u64) as u8)
                })
                .collect()
        } else {
            vec![]
        };
        let crashes = if swarm[5] {
            (0..1 + self.r.usize(5)).map(|_| (self.r.below(heal_us), self.r.below(n as u64) as u8, 1 + self.r.below(30_000))).collect()
        } else {
            vec![]
        };
        Exchange { parties, tokens, net, cuts, crashes, heal_us }
    }

    // ----- Q02

    fn good_record(&mut self, port: usize) -> (Vec<u8>, String, String) {
        let dims = ports()[port].unit.dims;
        let u = if self.p(300) { self.plain(&dims) } else { self.unit_for(&dims) };
        let n = self.json_number();
        (self.record(&n, &u, true), n, u)
    }
    fn hostile_number(&mut self) -> String {
        match self.r.usize(7) {
            0 => format!("1{}", "0".repeat(self.r.usize(500))),
            1 => format!("0.{}1", "0".repeat(self.r.usize(500))),
            2 => format!("1e{}", self.r.below(1 << 40)),
            3 => format!("-1e-{}", self.r.below(1 << 20)),
            _ => self
                .one(&[
                    "1e999", "-1e999", "1e308", "1e-400", "NaN", "Infinity", "inf", "-inf", "nan", "+5", "01", "1.", ".5", "0x10", "1_000", "5f64", "null", "true", "[5]", "{}", "\"5\"", "\"5.5e2\"", "\"\"", "\" 5\"", "\"NaN\"", "\"inf\"", "\"1e999\"",
                    "\"5 m\"", "-", "--5", "1e", "1e+", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1.7976931348623159e308", "4.9e-324", "-0", "-0.0", "0e0", "\"0x1p3\"", "\"1_0\"", "\"+7\"", "\"7.\"",
                ])
                .to_string(),
        }
    }
    fn hostile_unit(&mut self, dims: &Dims) -> String {
        let good = self.unit_for(dims);
        let (a, _) = self.named(dims, true).unwrap_or(("m".into(), unitoracle::UNITS[9].into_meaning()));
        match self.r.usize(18) {
            0 => {
                let n = self.r.usize(200);
                format!("{}{}{}", "(".repeat(n), good, ")".repeat(n))
            }
            1 => {
                let n = self.r.usize(400);
                format!("{}{}", "(".repeat(n), a)
            }
            2 => format!("{}^{}", a, self.one(&["32767", "32768", "-32768", "65537", "2147483648", "99999999999999999999", "-1", "0", "00", "127", "128", "255", "256", "-", "", "^2", "1.5", "a", "(2)", "(-2)", "2^2", "- 1", "+1"])),
            3 => format!("{}{}", a, self.one(&["2", "32767", "32768", "65537", "99999999999999999999", "0", "1", "2_", "_2", "2m", "²", "³", "⁻¹", "2.5", "'", "!", "#"])),
            4 => (0..1 + self.r.usize(200)).map(|_| a.clone()).collect::<Vec<_>>().join(self.one(&["*", "/", ".", " "])),
            5 => (0..1 + self.r.usize(40)).map(|_| format!("{}^{}", a, self.r.below(40000))).collect::<Vec<_>>().join("*"),
            6 => self
                .one(&[
                    "", " ", "1", "10", "2", "0", "1m", "m1", "m0", "*", "/", "^", ".", "m/", "/m", "m*", "*m", "m//s", "m**2", "m^^2", "()", "(m", "m)", "[m]", "{m}", "m,s", "m;s", "m s", "m\u{0}", "\u{0}", "m'", "'a", "'m", "\"m\"", "m\\", "r#m", "r#in", "#m", "$m", "@", "m!",
                    "_", "__", "_m", "m_", "self", "Self", "super", "crate", "fn", "in", "as", "type", "if", "in2", "as^2", "m::s", "m->s", "m..s", "m...s", "m..=s", "1.m", "m.1", "m.0.1", "1.0", "1e3", "1e3m", "0x1F", "0b1", "1u8", "1m2", "b'm'", "c\"m\"", "// m", "m // s",
                    "m /* s */", "/* */ m", "m\ns", "\u{feff}m", "\u{200b}m", "m\u{301}", "ｍ", "µm", "μm", "Ω", "\u{2126}", "Å", "°C", "℃", "%", "‰", "m·s", "m×s", "m÷s", "m−1", "m⋅s",
                ])
                .to_string(),
            7 => self.one(PREFIXES).0.to_string(),
            8 => self.one(PREFIXES).1.to_string(),
            9 => format!("{}{}", self.one(PREFIXES).0, good),
            10 => format!("{}{}", good, self.one(&["^", "*", "/", "^-", ".", " ", "\t", "\u{a0}", "\u{2009}", "\u{85}", "(", ")", "\u{0}", "2", "^2^2"])),
            11 => {
                // characters taken out, put in, doubled
                let mut cs: Vec<char> = good.chars().collect();
                for _ in 0..1 + self.r.usize(3) {
                    let i = self.r.usize(cs.len() + 1);
                    if self.p(400) && i < cs.len() {
                        cs.remove(i);
                    } else {
                        let c = self.one(&['m', 's', 'k', '^', '*', '/', '.', '-', '1', '2', '9', '(', ')', ' ', '_', '#', '\'', 'é', 'Ω', '\u{b5}', '\0']);
                        cs.insert(i, c);
                    }
                }
                cs.into_iter().collect()
            }
            12 => (0..self.r.usize(40)).map(|_| char::from_u32(self.r.below(0x500) as u32).unwrap_or('x')).collect(),
            13 => (0..self.r.usize(30)).map(|_| self.one(&["m", "s", "kg", "^", "2", "-", "(", ")", "/", "*", ".", " ", "1", "10", "_", "rad", "Ω"])).collect(),
            14 => format!("({})^{}", good, self.one(&["1", "2", "-1", "0", "16000", "32767", "(1)"])),
            15 => "m".repeat(self.r.usize(1000)),
            16 => {
                let n = self.r.usize(120);
                format!("{}{}{}", "1/(".repeat(n), good, ")".repeat(n))
            }
            _ => {
                let n = self.r.usize(250);
                format!("{}{}", "-".repeat(n), good)
            }
        }
    }
    fn damage(&mut self, data: &[u8], other: &[u8]) -> Vec<u8> {
        let mut d = data.to_vec();
        let n = 1 + if self.p(250) { self.r.usize(4) } else { 0 };
        for _ in 0..n {
            let at = self.r.usize(d.len() + 1);
            match self.r.usize(9) {
                0 | 1 => d.truncate(at),
                2 if at < d.len() => d[at] ^= 1 << self.r.usize(8),
                3 if at < d.len() => {
                    let to = (at + 1 + self.r.usize(6)).min(d.len());
                    d.drain(at..to);
                }
                4 => {
                    let k = self.r.usize(other.len() + 1);
                    d.truncate(at);
                    d.extend_from_slice(&other[k..]);
                }
                5 => {
                    let ins = self.one(&[&b"\""[..], b"{", b"}", b"[", b"]", b",", b":", b"\\", b"\x00", b"\xff", b"\xc3", b"0", b"9", b".", b"e", b"-", b" ", b"\n", b"\\u00", b"\xef\xbb\xbf"]).to_vec();
                    d.splice(at..at, ins);
                }
                6 => {
                    // a torn write: the rest of the block is still zero
                    for b in &mut d[at..] {
                        *b = 0;
                    }
                }
                7 => {
                    // the tail never made it, something older is behind it
                    let m = at.min(other.len());
                    d.truncate(at);
                    d.extend_from_slice(&other[m..]);
                }
                _ => {
                    let to = (at + self.r.usize(12)).min(d.len());
                    let copy = d[at..to].to_vec();
                    d.splice(at..at, copy);
                }
            }
        }
        d
    }
    fn hows(&mut self, port: usize) -> How {
        let mut h = self.one(&READS);
        if h == How::Macro && ports()[port].read_macro.is_none() {
            h = How::Slice;
        }
        if self.p(40) {
            h = How::Option;
        }
        h
    }
    fn field_value(&mut self) -> Item {
        let v = self.nice();
        match self.r.usize(12) {
            0 => Item::I64(v as i64),
            1 => Item::U64(v.abs() as u64),
            2 => Item::F32((v as f32).to_bits()),
            3 => Item::Str(format!("{}", v)),
            4 => Item::I64(self.one(&[i64::MIN, i64::MAX, -1, 0])),
            5 => Item::U64(u64::MAX),
            6 => self.one(&[Item::Null, Item::Bool(true), Item::Bytes("5".into()), Item::Many(vec![Item::F64(v.to_bits())]), Item::Str("x".into()), Item::F64(f64::NAN.to_bits()), Item::F64(f64::INFINITY.to_bits())]),
            _ => Item::F64(v.to_bits()),
        }
    }
    fn fields(&mut self, unit: &str, tidy: bool) -> Src {
        let v = if tidy { Item::F64(self.nice().to_bits()) } else { self.field_value() };
        let mut items = vec![("value".to_string(), v), ("unit".to_string(), Item::Str(unit.to_string()))];
        if self.p(400) {
            items.swap(0, 1);
        }
        while self.p(200) {
            let at = self.r.usize(items.len() + 1);
            let x = (self.extra().0, self.one(&[Item::Null, Item::Bool(false), Item::F64(0), Item::Str("kg".into()), Item::Many(vec![Item::Str("a".into()), Item::Null]), Item::Bytes("x".into())]));
            items.insert(at, x);
        }
        if !tidy {
            if self.p(100) {
                let i = self.r.usize(items.len());
                items.remove(i);
            }
            if self.p(100) && !items.is_empty() {
                let i = self.r.usize(items.len());
                let x = items[i].clone();
                items.push(x);
            }
            if self.p(60) {
                for it in &mut items {
                    if it.0 == "unit" {
                        it.1 = self.one(&[Item::Null, Item::F64(0), Item::Bool(true), Item::Bytes(unit.to_string()), Item::Many(vec![])]);
                    }
                }
            }
        }
        let n = items.len() as u64;
        Src::Fields { items, owned: self.p(500), size_hint: self.p(500), fail_at: if !tidy && self.f(250) { Some(self.r.below(2 * n + 2) as u32) } else { None } }
    }
    fn damaged(&mut self) -> Vec<DStep> {
        let mut steps = vec![];
        let mut group = 0;
        let err = if self.p(400) { 400 } else { 0 };
        let pool: Vec<usize> = (0..1 + self.r.usize(3)).map(|_| self.readable()).collect();
        for _ in 0..4 + self.r.usize(14) {
            let port = *self.r.pick(&pool);
            let p = &ports()[port];
            let dims = p.unit.dims;
            group += 1;
            let (good, num, unit) = self.good_record(port);
            let bad = !self.faulty || self.p(850);
            match self.r.usize(10) {
                0 | 1 if p.read_text.is_some() => {
                    let u = if self.p(700) { self.hostile_unit(&dims) } else { unit.clone() };
                    let n = if self.p(500) { self.hostile_number() } else { self.number_text() };
                    let sep = self.one(&["", " ", "  ", "\t", "\n", "\u{a0}"]);
                    let mut t = format!("{}{}{}", n.trim_matches('"'), sep, u);
                    if self.p(300) {
                        let d = self.damage(t.as_bytes(), good.as_slice());
                        t = String::from_utf8_lossy(&d).into_owned();
                    }
                    let how = if self.p(300) { How::CoreText } else { How::Text };
                    steps.push(DStep { port: port as u16, group, src: Src::Bytes { how, data: t.into_bytes(), plan: ReadPlan::default() } });
                }
                2 => {
                    let u = if self.p(500) { self.hostile_unit(&dims) } else { unit.clone() };
                    let src = self.fields(&u, false);
                    steps.push(DStep { port: port as u16, group, src });
                }
                3 | 4 => {
                    let u = if self.p(700) { self.hostile_unit(&dims) } else { unit.clone() };
                    let n = if self.p(500) { self.hostile_number() } else { num.clone() };
                    let mut d = self.record(&n, &u, true);
                    if self.p(100) {
                        // something deep beside it
                        let k = self.r.usize(200);
                        let deep = format!("{{\"x\":{}{},", "[".repeat(k), "]".repeat(k));
                        let at = d.iter().position(|b| *b == b'{').unwrap();
                        d.splice(at..at + 1, deep.into_bytes());
                    }
                    let how = self.hows(port);
                    let plan = self.read_plan(d.len(), err);
                    steps.push(DStep { port: port as u16, group, src: Src::Bytes { how, data: d, plan } });
                }
                _ => {
                    let (other, _, _) = self.good_record(port);
                    let d = if bad { self.damage(&good, &other) } else { good.clone() };
                    let how = self.hows(port);
                    let plan = self.read_plan(d.len(), err);
                    steps.push(DStep { port: port as u16, group, src: Src::Bytes { how, data: d, plan } });
                }
            }
            // the intact copy afterwards
            if self.p(600) {
                group += 1;
                let how = self.hows(port);
                let plan = self.read_plan(good.len(), 0);
                steps.push(DStep { port: port as u16, group, src: Src::Bytes { how, data: good, plan } });
            }
        }
        steps
    }

    // ----- Q03

    fn unknown_name(&mut self) -> String {
        for _ in 0..50 {
            let s = match self.r.usize(7) {
                0 => self
                    .one(&[
                        "foo", "lbs", "sec", "metre", "kgs", "mph", "kmh", "rpm", "percent", "px", "em", "USD", "unit", "x", "Km", "KG", "hZ", "PA", "kelvins", "meters", "seconds", "Meter", "kilo", "milli", "da", "k", "Mm_", "m_2", "mol_", "degrees", "cels", "mins", "hrs", "yrs", "btu", "BTU",
                        "ohms", "amp", "volts", "Newton", "µ", "bit", "byte", "KB", "dB", "pH", "oC", "sr", "Bq", "Gy", "Sv", "kat",
                    ])
                    .to_string(),
                1 => {
                    let u = self.r.pick(UNITS);
                    let s = self.one(u.symbols);
                    format!("{}{}", self.one(PREFIXES).0, s)
                }
                2 => {
                    let u = self.r.pick(UNITS);
                    let s = self.one(u.symbols);
                    format!("{}{}{}", self.one(PREFIXES).0, self.one(PREFIXES).0, s)
                }
                3 => {
                    let u = self.r.pick(UNITS);
                    let mut cs: Vec<char> = u.name.chars().collect();
                    let i = self.r.usize(cs.len());
                    if self.p(500) {
                        cs.remove(i);
                    } else {
                        cs.insert(i, (b'a' + self.r.below(26) as u8) as char);
                    }
                    cs.into_iter().collect()
                }
                4 => {
                    let u = self.r.pick(UNITS);
                    let s = self.one(u.symbols);
                    let t: String = s.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect();
                    t
                }
                5 => {
                    let u = self.r.pick(UNITS);
                    format!("{}{}", self.one(PREFIXES).1, u.name)
                }
                _ => {
                    let u = self.r.pick(UNITS);
                    format!("{}{}", u.name, self.one(&["s", "es", "_", "x", "_m", "s2"]))
                }
            };
            let base: String = s.chars().take_while(|c| !c.is_ascii_digit()).collect();
            if !base.is_empty() && unitoracle::name(&base) == Unit::Refuse && matches!(unitoracle::unit(&s), Unit::Refuse) {
                return s;
            }
        }
        "foo".into()
    }
    fn wrong_unit(&mut self, dims: &Dims) -> String {
        match self.r.usize(9) {
            0 => {
                // dimensions of another kind
                let d = self.r.pick(groups()).0;
                self.unit_for(&d)
            }
            1 => {
                // one exponent off
                let mut d = *dims;
                let i = self.r.usize(8);
                d[i] += if self.p(500) { 1 } else { -1 };
                self.unit_for(&d)
            }
            2 => {
                let mut d = *dims;
                d.iter_mut().for_each(|x| *x = -*x);
                self.unit_for(&d)
            }
            3 => self.unknown_name(),
            4 => {
                let u = self.unknown_name();
                let g = self.unit_for(dims);
                match self.r.usize(6) {
                    0 => format!("{}*{}", g, u),
                    1 => format!("{}*{}", u, g),
                    2 => format!("{}.{}/{}", g.split('/').next().unwrap(), u, u),
                    3 => format!("{}/{}", g, u),
                    4 => format!("{}*{}^0", g, u),
                    _ => format!("{}^-1*{}*{}", u, u, g),
                }
            }
            5 => {
                // exponents that would come back to the right ones if they wrapped around
                let i = (0..8).find(|i| dims[*i] != 0).unwrap_or(1);
                let w = self.one(&[65536i64, -65536, 256, -256, 4294967296]);
                let n = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"][i];
                let mut d = *dims;
                d[i] = 0;
                let rest = self.plain(&d);
                let e = dims[i] as i64 + w;
                if self.p(300) {
                    format!("({}^{})^{}*{}", n, 32768 / 2, 4, self.plain(dims))
                } else if rest.starts_with("1/") {
                    format!("{}^{}{}", n, e, &rest[1..])
                } else if rest == "1" {
                    format!("{}^{}", n, e)
                } else {
                    format!("{}^{}*{}", n, e, rest)
                }
            }
            6 => self.hostile_unit(dims),
            7 => {
                // an angle, or the lack of one
                let mut d = *dims;
                d[7] += 1;
                self.unit_for(&d)
            }
            _ => self.one(&["1", "", "10", "m/m", "rad", "1/1", "s*Hz"]).to_string(),
        }
    }
    fn wrong_units(&mut self) -> Vec<DStep> {
        let mut steps = vec![];
        for group in 0..3 + self.r.below(8) as u32 {
            let port = self.readable();
            let p = &ports()[port];
            let dims = p.unit.dims;
            let unit = if self.p(300) { self.unit_for(&dims) } else { self.wrong_unit(&dims) };
            let num = self.json_number();
            let v: f64 = num.parse().unwrap();
            let one_spelling = self.record(&num, &unit, true);
            let hows: Vec<How> = [How::Slice, How::Str, How::Reader, How::ReaderOne, How::Value, How::Macro, How::Core, How::Owned, How::List, How::Option, How::Inner]
                .into_iter()
                .filter(|_| self.p(650))
                .collect();
            for how in hows {
                if how == How::Macro && p.read_macro.is_none() {
                    continue;
                }
                let data = if self.p(600) { one_spelling.clone() } else { self.record(&num, &unit, true) };
                let plan = self.read_plan(data.len(), 0);
                steps.push(DStep { port: port as u16, group, src: Src::Bytes { how, data, plan } });
            }
            if self.p(500) {
                let items = vec![("value".into(), Item::F64(v.to_bits())), ("unit".into(), Item::Str(unit.clone()))];
                steps.push(DStep { port: port as u16, group, src: Src::Fields { items, owned: self.p(500), size_hint: self.p(500), fail_at: None } });
            }
            if p.read_text.is_some() && self.p(700) {
                let t = format!("{} {}", num, unit);
                // text is its own group: where it begins and ends is less strict than in a record
                for how in if self.p(300) { vec![How::CoreText, How::Text] } else { vec![How::Text] } {
                    steps.push(DStep { port: port as u16, group: 1000 + group, src: Src::Bytes { how, data: t.clone().into_bytes(), plan: ReadPlan::default() } });
                }
            }
        }
        self.twins(&mut steps);
        // histories: interfaces and records in any order
        for i in (1..steps.len()).rev() {
            let j = self.r.usize(i + 1);
            steps.swap(i, j);
        }
        steps
    }

    /// Records whose unit differs from another's by the case of a letter, or by one exponent.
    fn twins(&mut self, steps: &mut Vec<DStep>) {
        for k in 0..self.r.usize(4) as u32 {
            let of: Vec<usize> = (0..steps.len()).filter(|i| matches!(&steps[*i].src, Src::Bytes { .. })).collect();
            if of.is_empty() {
                return;
            }
            let mut s = steps[of[self.r.usize(of.len())]].clone();
            s.group = 2000 + k;
            let Src::Bytes { how, data, .. } = &mut s.src else { unreachable!() };
            let Ok(mut t) = String::from_utf8(data.clone()) else { continue };
            let from = if *how == How::Text || *how == How::CoreText {
                t.find(' ').map(|i| i + 1)
            } else {
                t.rfind("\"unit\"").and_then(|i| t[i + 6..].find('"').map(|j| i + 6 + j + 1))
            };
            let Some(from) = from else { continue };
            let to = t[from..].find('"').map_or(t.len(), |j| from + j);
            let at: Vec<usize> = t[from..to].char_indices().filter(|c| c.1.is_ascii_alphanumeric()).map(|c| from + c.0).collect();
            if at.is_empty() || t[from..to].contains('\\') {
                continue;
            }
            let i = at[self.r.usize(at.len())];
            let c = t.as_bytes()[i];
            let n = if c.is_ascii_digit() {
                b'1' + self.r.usize(4) as u8
            } else {
                c ^ 0x20
            };
            t.replace_range(i..i + 1, &(n as char).to_string());
            *data = t.into_bytes();
            let at = self.r.usize(steps.len() + 1);
            steps.insert(at, s);
        }
    }

    // ----- Q04

    fn sink(&mut self, len: u64) -> SinkPlan {
        SinkPlan {
            pieces: if self.faulty { self.pieces() } else { vec![] },
            eintr: self.eintr(12),
            fail_at: if self.f(600) { Some(self.r.below(len) as u32) } else { None },
            zero: self.p(300),
            err_kind: self.r.below(8) as u8,
        }
    }
    fn fhow(&mut self, dims: &Dims) -> FHow {
        match self.r.usize(10) {
            0 => FHow::Display,
            1 => FHow::DisplayPrecision(self.r.usize(20)),
            2 => FHow::DisplayWidth(self.r.usize(60)),
            3 => FHow::Debug,
            4 => FHow::DebugAlt,
            k => {
                let u = if self.p(850) { self.unit_for(dims) } else { self.wrong_unit(dims) };
                match k {
                    5 | 6 => FHow::UnitPrecision(u, self.r.usize(20)),
                    7 => FHow::UnitWidth(u, self.r.usize(60)),
                    _ => FHow::Unit(u),
                }
            }
        }
    }
    fn writes(&mut self) -> Vec<WStep> {
        let mut v = vec![];
        let n = 4 + self.r.usize(16);
        for _ in 0..n {
            let port = self.r.usize(ports().len());
            let p = &ports()[port];
            let value = match p.storage {
                "i32" => self.r.next() as i32 as f64,
                "u8" => self.r.below(256) as f64,
                "f32" | "Single" => self.any_value() as f32 as f64,
                _ => self.any_value(),
            };
            let what = match self.r.usize(8) {
                0 | 1 | 2 => What::Record { how: self.one(&WRITES), sink: self.sink(60) },
                3 => What::Calls { fail_at: if self.f(800) { Some(self.r.below(9) as u32) } else { None } },
                k => {
                    let how = self.fhow(&p.unit.dims);
                    if k == 4 {
                        What::TextIo { how, sink: self.sink(50) }
                    } else {
                        What::Text { how, fail_at: if self.f(800) { Some(self.r.below(60) as u32) } else { None }, partial: self.p(500) }
                    }
                }
            };
            if matches!(what, What::Record { how: WHow::Json, .. }) && p.json.is_none() {
                continue;
            }
            v.push(WStep { port: port as u16, value: value.to_bits(), what });
        }
        v
    }

    // ----- Q05

    fn streams(&mut self) -> Vec<StreamScn> {
        let n = 1 + self.r.usize(4);
        (0..n).map(|_| self.stream()).collect()
    }
    fn stream(&mut self) -> StreamScn {
        let mut records = vec![];
        let pool: Vec<usize> = (0..1 + self.r.usize(3)).map(|_| self.readable()).collect();
        let long = self.p(200);
        let n = if self.p(4) { 100 + self.r.usize(300) } else { 1 + self.r.usize(if long { 16 } else { 6 }) };
        for _ in 0..n {
            let port = *self.r.pick(&pool);
            let dims = ports()[port].unit.dims;
            let form = if self.p(700) { 0 } else { 1 + self.r.usize(2) as u8 };
            let data = match form {
                0 => {
                    let num = self.json_number();
                    match self.r.usize(10) {
                        0 => {
                            let u = self.wrong_unit(&dims);
                            self.record(&num, &u, true)
                        }
                        1 => {
                            let u = self.unknown_name();
                            self.record(&num, &u, true)
                        }
                        2 => {
                            // a field missing
                            let (k, v) = self.extra();
                            let k = serde_json::to_string(&k).unwrap();
                            let r = match self.r.usize(4) {
                                0 => format!("{{\"value\":{}}}", num),
                                1 => format!("{{\"unit\":\"m\",{}:{}}}", k, v),
                                2 => "{}".to_string(),
                                _ => format!("{{{}:{},\"value\":{}}}", k, v, num),
                            };
                            r.into_bytes()
                        }
                        _ => {
                            let u = self.unit_for(&dims);
                            self.record(&num, &u, true)
                        }
                    }
                }
                1 => {
                    let mut d = b"[".to_vec();
                    for i in 0..self.r.usize(4) {
                        if i > 0 {
                            d.push(b',');
                        }
                        let u = self.unit_for(&dims);
                        let num = self.json_number();
                        d.extend(self.record(&num, &u, true));
                    }
                    d.push(b']');
                    d
                }
                _ => {
                    let u = self.unit_for(&dims);
                    let num = self.json_number();
                    let r = self.record(&num, &u, true);
                    let parts: [Vec<u8>; 3] = [b"\"id\":7".to_vec(), b"\"hop\":3".to_vec(), [b"\"q\":".to_vec(), r].concat()];
                    let mut order = [0, 1, 2];
                    for i in (1..3).rev() {
                        let j = self.r.usize(i + 1);
                        order.swap(i, j);
                    }
                    let mut d = b"{".to_vec();
                    for (i, k) in order.iter().enumerate() {
                        if i > 0 {
                            d.push(b',');
                        }
                        d.extend(&parts[*k]);
                    }
                    d.push(b'}');
                    d
                }
            };
            let sep = self.one(&["", "", "\n", " ", "\r\n", "\t \n"]).to_string();
            records.push(SRec { port: port as u16, form, data, sep });
        }
        let len: usize = records.iter().map(|r| r.data.len() + r.sep.len()).sum();
        StreamScn { records, plan: self.read_plan(len, 250) }
    }
}

impl unitoracle::U {
    fn into_meaning(&self) -> Meaning {
        Meaning { dims: self.dims, log10: 0, factor: self.factor, offset: self.offset }
    }
}
