//! What the serialisation properties require of a recorded run.
use crate::ports::{ports, How, Port, WHow};
use crate::serdefmt::Item;
use crate::serdeworld::*;
use crate::unitoracle::{self, agrees, Amount, Expect, Unit};
use crate::verdict::Verdict;
use std::collections::BTreeMap;

pub fn judge(prop: &str, s: &SerdeScn, r: &SerdeRun) -> Verdict {
    let mut v = Verdict::default();
    match &s.kind {
        Kind::Decode(steps) => decode(prop, steps, r, &mut v),
        Kind::Write(steps) => writes(steps, r, &mut v),
        Kind::Stream(x) => streams(x, r, &mut v),
        Kind::Exchange(x) => exchange(x, r, &mut v),
    }
    for k in r.counters.keys() {
        v.probe_if(k.starts_with("fault."), k);
    }
    v
}

fn right(p: &Port, a: &Amount, got: f64) -> bool {
    let (want, _) = a.in_unit(&p.unit);
    if p.storage == "Single" && (want.abs() > 1e37 || (want.abs() < 1e-36 && want != 0.0)) {
        return true;
    }
    agrees(a, &p.unit, got, p.tol)
}

fn json_text(how: How, data: &[u8]) -> Expect {
    match how {
        How::Text | How::CoreText => match std::str::from_utf8(data) {
            Ok(t) => unitoracle::string(t),
            Err(_) => Expect::Open,
        },
        How::Value | How::Owned => match serde_json::from_slice::<serde_json::Value>(data) {
            // what a generic value keeps
            Ok(v) => unitoracle::record(v.to_string().as_bytes()),
            Err(_) => Expect::Refuse,
        },
        How::ReaderOne => {
            let mut it = serde_json::Deserializer::from_slice(data).into_iter::<serde::de::IgnoredAny>();
            match it.next() {
                Some(Ok(_)) => {
                    let n = it.byte_offset();
                    unitoracle::record(&data[..n])
                }
                _ => first_object(data),
            }
        }
        How::Inner if serde_json::from_slice::<serde::de::IgnoredAny>(data).is_err() => Expect::Open,
        _ => unitoracle::record(data),
    }
}
/// The generic iterator wants a separator behind a value; a reader of one object does not.
fn first_object(data: &[u8]) -> Expect {
    let mut d = serde_json::Deserializer::from_slice(data);
    struct M;
    impl<'de> serde::de::Visitor<'de> for M {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("map")
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<(), A::Error> {
            while m.next_entry::<String, serde::de::IgnoredAny>()?.is_some() {}
            Ok(())
        }
    }
    // complete as an object: its meaning is that of its shortest complete prefix
    if serde::Deserializer::deserialize_map(&mut d, M).is_err() {
        return Expect::Refuse;
    }
    for n in 2..=data.len() {
        if data[n - 1] == b'}' && serde_json::from_slice::<serde::de::IgnoredAny>(&data[..n]).is_ok() {
            return unitoracle::record(&data[..n]);
        }
    }
    Expect::Refuse
}

fn fields(items: &[(String, Item)]) -> Expect {
    let values: Vec<&Item> = items.iter().filter(|x| x.0 == "value").map(|x| &x.1).collect();
    let units: Vec<&Item> = items.iter().filter(|x| x.0 == "unit").map(|x| &x.1).collect();
    if values.len() != 1 || units.len() != 1 {
        return Expect::Refuse;
    }
    let mut may = false;
    let u = match units[0] {
        Item::Str(s) => s,
        Item::Bytes(s) => {
            may = true;
            s
        }
        _ => return Expect::Refuse,
    };
    let x = match values[0] {
        Item::F64(b) => f64::from_bits(*b),
        Item::F32(b) => f32::from_bits(*b) as f64,
        Item::I64(x) => *x as f64,
        Item::U64(x) => *x as f64,
        Item::Str(s) | Item::Bytes(s) => {
            may = true;
            match s.parse() {
                Ok(x) => x,
                Err(_) => return Expect::Refuse,
            }
        }
        _ => return Expect::Refuse,
    };
    if !x.is_finite() {
        return if unitoracle::unit(u) == Unit::Refuse { Expect::Refuse } else { Expect::Open };
    }
    match unitoracle::unit(u) {
        Unit::Must(m) if !may => Expect::Must(Amount { value: x, unit: m }),
        Unit::Must(m) | Unit::May(m) => Expect::May(Amount { value: x, unit: m }),
        Unit::Open => Expect::Open,
        Unit::Refuse => Expect::Refuse,
    }
}

fn show(data: &[u8]) -> String {
    let t: String = String::from_utf8_lossy(data).chars().take(300).collect();
    format!("{:?}", t)
}

/// None: as it should be
fn compare(p: &Port, e: &Expect, g: &Got) -> Option<(&'static str, String)> {
    match (e, g) {
        (_, Got::Panicked(m)) => Some(("panic", format!("panicked: {}", m))),
        (_, Got::NotApplicable) => None,
        (Expect::Open, _) => None,
        (Expect::Refuse, Got::Value(b)) => Some(("accepted", format!("was read as {:e} although it is not a quantity the reader can know", f64::from_bits(*b)))),
        (Expect::Refuse, _) => None,
        (Expect::Must(a) | Expect::May(a), Got::Value(b)) => {
            let got = f64::from_bits(*b);
            if a.unit.dims != p.unit.dims {
                return Some(("wrong dimension accepted", format!("was read as {:e} although its dimension is another", got)));
            }
            if !right(p, a, got) {
                return Some(("misread", format!("was read as {:e}, states {:e}", got, a.in_unit(&p.unit).0)));
            }
            None
        }
        (Expect::Must(a), Got::Refused(w)) => {
            if a.unit.dims != p.unit.dims {
                return None;
            }
            Some(("intact refused", format!("was refused: {}", w)))
        }
        (Expect::May(_), Got::Refused(_)) => None,
    }
}

fn decode(prop: &str, steps: &[DStep], r: &SerdeRun, v: &mut Verdict) {
    let mut by_group: BTreeMap<u32, Vec<(usize, u64, bool)>> = BTreeMap::new();
    let mut refused_before = false;
    for e in &r.events {
        let Ev::Read { step, got, fired } = e else { continue };
        let st = &steps[*step as usize];
        let p = &ports()[st.port as usize];
        let (exp, what, comparable) = match &st.src {
            Src::Bytes { how, data, .. } => {
                let x = json_text(*how, data);
                // invalid UTF-8 in a place nobody looks at may pass or not
                let x = if !matches!(*how, How::Text | How::CoreText) && std::str::from_utf8(data).is_err() {
                    match x {
                        Expect::Must(a) => Expect::May(a),
                        x => x,
                    }
                } else {
                    x
                };
                (x, format!("{:?} {}", how, show(data)), !matches!(*how, How::Text | How::CoreText))
            }
            Src::Fields { items, .. } => (fields(items), format!("fields {:?}", items), true),
        };
        if *fired {
            if let Got::Value(b) = got {
                v.bad("read error ignored", format!("step {} ({}): {}: the source failed, and yet {:e} was read", step, p.name, what, f64::from_bits(*b)));
            } else if let Got::Panicked(m) = got {
                v.bad("panic", format!("step {} ({}): {}: panicked: {}", step, p.name, what, m));
            }
            v.probe("refused after a read error");
            refused_before = true;
            v.nontrivial = true;
            continue;
        }
        if let Some((class, msg)) = compare(p, &exp, got) {
            v.bad(class, format!("step {} ({}): {} {}", step, p.name, what, msg));
        }
        match (&exp, got) {
            (Expect::Must(a) | Expect::May(a), Got::Refused(_)) if a.unit.dims != p.unit.dims => v.probe("wrong dimension refused"),
            (Expect::Refuse, Got::Refused(_)) => v.probe("not a quantity: refused"),
            (Expect::Must(_), Got::Value(_)) => {
                v.probe("intact read");
                v.probe_if(refused_before, "intact read after a refusal");
            }
            (Expect::May(_), Got::Value(_)) => v.probe("unusual notation read"),
            (Expect::May(_), Got::Refused(_)) => v.probe("unusual notation refused"),
            (Expect::Open, Got::Value(_)) => v.probe("left open: read"),
            (Expect::Open, Got::Refused(_)) => v.probe("left open: refused"),
            _ => {}
        }
        if matches!(got, Got::Refused(_)) {
            refused_before = true;
            v.nontrivial = true;
        }
        if comparable {
            match got {
                Got::Value(b) => by_group.entry(st.group).or_default().push((*step as usize, *b, true)),
                Got::Refused(_) => by_group.entry(st.group).or_default().push((*step as usize, 0, false)),
                _ => {}
            }
        }
    }
    if prop == "Q03" {
        for (_, g) in by_group {
            for x in &g[1..] {
                let y = &g[0];
                let (a, b) = (f64::from_bits(x.1), f64::from_bits(y.1));
                if x.2 != y.2 || (x.2 && !(x.1 == y.1 || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()))) {
                    let w = |s: &(usize, u64, bool)| format!("{:?} {}", steps[s.0].src, if s.2 { format!("-> {:e}", f64::from_bits(s.1)) } else { "-> refused".into() });
                    v.bad("interfaces disagree", format!("{}: {} but {}", ports()[steps[x.0].port as usize].name, w(x), w(y)));
                }
            }
            v.probe_if(g.len() > 1, "one record through several interfaces");
        }
    }
}

fn writes(steps: &[WStep], r: &SerdeRun, v: &mut Verdict) {
    for e in &r.events {
        let Ev::Wrote { step, ideal, reached, ok, fired, err, again } = e else { continue };
        let s = &steps[*step as usize];
        let p = &ports()[s.port as usize];
        let x = f64::from_bits(s.value);
        let id = format!("step {} ({} of {:e}, {:?})", step, p.name, x, s.what);
        let ideal_text = match ideal {
            Ok(t) => t,
            Err(e) => {
                v.bad("healthy sink", format!("{}: fails even with a healthy sink: {}", id, e));
                continue;
            }
        };
        let reached_text = show(reached);
        match (ok, fired) {
            (true, false) => {
                if reached != ideal_text.as_bytes() {
                    v.bad("wrong text", format!("{}: reports success with {} in the sink, a healthy sink gets {:?}", id, reached_text, ideal_text));
                }
                v.probe("complete");
            }
            (true, true) => {
                v.bad("failure hidden", format!("{}: the sink refused, success was reported, {} in the sink", id, reached_text));
            }
            (false, false) => {
                v.bad("false failure", format!("{}: fails although the sink never refused: {}", id, err));
            }
            (false, true) => {
                v.probe("refusal reported");
                if err.starts_with("panic") {
                    v.bad("panic", format!("{}: {}", id, err));
                }
            }
        }
        if *fired {
            v.nontrivial = true;
        }
        if !ideal_text.as_bytes().starts_with(reached) {
            v.bad("not a prefix", format!("{}: {} in the sink is no beginning of {:?}", id, reached_text, ideal_text));
        }
        if again != ideal {
            v.bad("later attempt", format!("{}: a later attempt on a healthy sink gives {:?}, the one before gave {:?}", id, again, ideal));
        }
        if let What::Record { how, .. } = &s.what {
            if x.is_finite() {
                check_sent(p, x, false, *how == WHow::Inner && p.json.is_some() || *how == WHow::Inner, ideal_text, v, &id);
            }
        }
    }
    v.nontrivial |= r.counters.keys().any(|k| k.starts_with("fault."));
}

fn inner(data: &str) -> &str {
    data.strip_prefix('[').and_then(|d| d.strip_suffix(']')).unwrap_or(data)
}

/// what a writer wrote states the amount it holds
fn check_sent(p: &Port, held: f64, text: bool, wrapped: bool, data: &str, v: &mut Verdict, id: &str) {
    let e = if text { unitoracle::string(data) } else { unitoracle::record(if wrapped { inner(data) } else { data }.as_bytes()) };
    let a = Amount { value: held, unit: p.unit };
    match e {
        Expect::Must(_) | Expect::May(_) if held != 0.0 && !(1e-250..1e250).contains(&a.in_unit(&unitoracle::SI(p.unit.dims)).0.abs()) => {}
        Expect::Must(b) | Expect::May(b) => {
            // compared in the writer's unit
            if b.unit.dims != p.unit.dims || !agrees(&b, &p.unit, held, 1e-11) {
                v.bad("written wrong", format!("{}: {:e} of {} was written as {}", id, held, p.name, data));
            }
            v.probe("written record states its amount");
        }
        Expect::Open => {}
        Expect::Refuse => {
            // beyond what a number can hold there is nothing to write
            let (si, _) = a.in_unit(&unitoracle::SI(p.unit.dims));
            if si.is_finite() && held.is_finite() {
                v.bad("written unreadable", format!("{}: {:e} of {} was written as {}", id, held, p.name, data));
            }
        }
    }
}

fn streams(scn: &[StreamScn], r: &SerdeRun, v: &mut Verdict) {
    for (i, s) in scn.iter().enumerate() {
        let total: usize = s.records.iter().map(|r| r.data.len() + r.sep.len()).sum();
        let cut = s.plan.err_at.map(|e| e as usize).filter(|e| *e <= total);
        let mut end = 0;
        let mut failed = false;
        let mut after_refusal = false;
        for (k, rec) in s.records.iter().enumerate() {
            end += rec.data.len();
            let p = &ports()[rec.port as usize];
            let got = r.events.iter().find_map(|e| match e {
                Ev::Streamed { stream, record, got } if *stream == i as u32 && *record == k as u32 => Some(got),
                _ => None,
            });
            let Some(got) = got else {
                v.bad("missing", format!("stream {} record {}: no result", i, k));
                continue;
            };
            let id = format!("stream {} record {} ({}) {}", i, k, p.name, show(&rec.data));
            for g in got {
                if let Got::Panicked(m) = g {
                    v.bad("panic", format!("{}: panicked: {}", id, m));
                }
            }
            if got.contains(&Got::NotApplicable) {
                end += rec.sep.len();
                continue;
            }
            if failed || cut.map_or(false, |c| c < end) {
                // the source failed within it or before
                failed = true;
                if got.iter().any(|g| matches!(g, Got::Value(_))) {
                    v.bad("read error ignored", format!("{}: read although the source had failed: {:?}", id, got));
                }
                v.probe("record lost to a read error");
                end += rec.sep.len();
                continue;
            }
            v.probe_if(cut.is_some(), "intact record before a read error");
            let parts: Vec<Vec<u8>> = match rec.form {
                0 => vec![rec.data.clone()],
                1 => raw_list(&rec.data),
                _ => vec![raw_q(&rec.data)],
            };
            if parts.len() != got.len() {
                v.bad("lost or doubled", format!("{}: {} records, {} results: {:?}", id, parts.len(), got.len(), got));
            } else {
                for (d, g) in parts.iter().zip(got) {
                    let e = unitoracle::record(d);
                    if let Some((class, msg)) = compare(p, &e, g) {
                        v.bad(class, format!("{} {}", id, msg));
                    }
                    match g {
                        Got::Refused(_) => {
                            v.probe("refused within a stream");
                            after_refusal = true;
                        }
                        Got::Value(_) => v.probe_if(after_refusal, "read behind a refused one"),
                        _ => {}
                    }
                }
            }
            v.nontrivial |= s.records.len() > 1 && (!s.plan.pieces.is_empty() || !s.plan.eintr.is_empty() || cut.is_some());
            end += rec.sep.len();
        }
        for e in &r.events {
            if let Ev::StreamEnd { stream, clean, why } = e {
                if *stream == i as u32 && *clean != cut.is_none() {
                    v.bad("end", format!("stream {}: after the last record the stream is {} ({})", i, if *clean { "at its end although it failed" } else { "not at its end" }, why));
                }
            }
        }
    }
}
fn raw_list(d: &[u8]) -> Vec<Vec<u8>> {
    // extra fields and escapes survive in a raw slice; a generic value would merge duplicates, which lists do not have here
    serde_json::from_slice::<Vec<serde_json::Value>>(d).map(|v| v.iter().map(|x| x.to_string().into_bytes()).collect()).unwrap_or_default()
}
fn raw_q(d: &[u8]) -> Vec<u8> {
    serde_json::from_slice::<serde_json::Value>(d).map(|v| v["q"].to_string().into_bytes()).unwrap_or_default()
}

fn exchange(x: &Exchange, r: &SerdeRun, v: &mut Verdict) {
    for e in &r.events {
        match e {
            Ev::Sent { party, value, text, data } => {
                let p = &ports()[x.parties[*party as usize].port as usize];
                check_sent(p, f64::from_bits(*value), *text, data.starts_with('['), data, v, &format!("party {}", party));
            }
            Ev::Received { party, got, text, intact, data } => {
                let p = &ports()[x.parties[*party as usize].port as usize];
                let id = format!("party {} ({}) {}", party, p.name, show(data.as_bytes()));
                if !intact {
                    match got {
                        Got::Value(b) => v.bad("cut record accepted", format!("{}: cut short, yet read as {:e}", id, f64::from_bits(*b))),
                        Got::Panicked(m) => v.bad("panic", format!("{}: panicked: {}", id, m)),
                        _ => v.probe("cut record refused"),
                    }
                    continue;
                }
                let e = if *text { unitoracle::string(data) } else { unitoracle::record(inner(data).as_bytes()) };
                if let Some((class, msg)) = compare(p, &e, got) {
                    v.bad(class, format!("{} {}", id, msg));
                } else if let Got::Refused(w) = got {
                    v.bad("intact refused", format!("{}: refused: {}", id, w));
                }
            }
            Ev::Recovered { party, complete, read, why } => {
                v.probe("journal read back");
                v.probe_if(*read > 0, "records recovered from a journal");
                if complete != read {
                    v.bad("journal", format!("party {} recovered {} of {} complete records of its journal: {}", party, read, complete, why));
                }
            }
            Ev::DiskRefused { party, reported } => {
                v.probe("full disk met");
                if !reported {
                    v.bad("failure hidden", format!("party {}: the disk refused a record and success was reported", party));
                }
            }
            Ev::Wrong(w) => v.bad("wrong", w.clone()),
            _ => {}
        }
    }
    for (i, t) in x.tokens.iter().enumerate() {
        let last = t.path.len() - 1;
        let dest = t.path[last];
        let held: Vec<u64> = r
            .events
            .iter()
            .filter_map(|e| match e {
                Ev::Held { party, token, hop, value } if *token == i as u32 && *hop as usize == last && *party == dest => Some(*value),
                _ => None,
            })
            .collect();
        if held.len() != 1 {
            v.bad("lost", format!("quantity {} was held {} times at its destination (party {}) after the faults had ended", i, held.len(), dest));
            continue;
        }
        let port = |k: usize| &ports()[x.parties[t.path[k] as usize].port as usize];
        let a = Amount { value: f64::from_bits(t.value), unit: port(0).unit };
        let (want, mag) = a.in_unit(&port(last).unit);
        let got = f64::from_bits(held[0]);
        // every hop may round once in writing and once in reading, every recovery once more
        let crashes = x.crashes.len() as f64 + 1.0;
        let mut allowed = f64::MIN_POSITIVE;
        for k in 0..t.path.len() {
            allowed += (port(k).tol * crashes.min(2.0) + 1e-11) * mag;
            if let Some(u) = &x.parties[t.path[k] as usize].text_unit {
                if let Unit::Must(m) | Unit::May(m) = unitoracle::unit(u) {
                    let off = Amount { value: m.offset, unit: unitoracle::Meaning { offset: 0.0, ..m } }.in_unit(&port(last).unit).0;
                    allowed += 1e-11 * off.abs();
                }
            }
        }
        if !((got - want).abs() <= allowed) {
            v.bad("drifted", format!("quantity {}: {:e} of {} arrived as {:e} of {} after {} hops, should be {:e}", i, a.value, port(0).name, got, port(last).name, last, want));
        }
        v.probe_if(last >= 4, "chain of four hops or more");
        v.nontrivial = true;
    }
}

// ---------------------------------------------------------------------------------------------------------

pub fn shrink(s: &SerdeScn) -> Vec<SerdeScn> {
    let mut o: Vec<SerdeScn> = vec![];
    let mut push = |k: Kind| {
        if k != s.kind {
            o.push(SerdeScn { seed: s.seed, kind: k })
        }
    };
    match &s.kind {
        Kind::Decode(v) => {
            for w in fewer(v) {
                push(Kind::Decode(w));
            }
            for i in 0..v.len() {
                let mut alt: Vec<Src> = vec![];
                match &v[i].src {
                    Src::Bytes { how, data, plan } => {
                        if *plan != ReadPlan::default() {
                            alt.push(Src::Bytes { how: *how, data: data.clone(), plan: ReadPlan::default() });
                            alt.push(Src::Bytes { how: *how, data: data.clone(), plan: ReadPlan { eintr: vec![], ..plan.clone() } });
                            alt.push(Src::Bytes { how: *how, data: data.clone(), plan: ReadPlan { pieces: vec![], ..plan.clone() } });
                        }
                        if !matches!(*how, How::Text | How::CoreText) {
                            alt.push(Src::Bytes { how: How::Slice, data: data.clone(), plan: plan.clone() });
                        }
                        for d in pieces_out(data) {
                            alt.push(Src::Bytes { how: *how, data: d, plan: plan.clone() });
                        }
                    }
                    Src::Fields { items, owned, size_hint, fail_at } => {
                        for w in fewer(items) {
                            alt.push(Src::Fields { items: w, owned: *owned, size_hint: *size_hint, fail_at: *fail_at });
                        }
                    }
                }
                for a in alt {
                    // the members of a group are the same record: another record goes on its own
                    let same = |x: &Src, y: &Src| match (x, y) {
                        (Src::Bytes { data: x, .. }, Src::Bytes { data: y, .. }) => x == y,
                        _ => false,
                    };
                    let mut w = v.clone();
                    if same(&a, &v[i].src) {
                        w[i].src = a;
                        push(Kind::Decode(w));
                        continue;
                    }
                    if let Src::Bytes { data, .. } = &a {
                        let mut n = 0;
                        for (j, st) in w.iter_mut().enumerate() {
                            if st.group == v[i].group && same(&st.src, &v[i].src) {
                                n += (j != i) as u32;
                                if let Src::Bytes { data: d, .. } = &mut st.src {
                                    *d = data.clone();
                                }
                            }
                        }
                        if n > 0 {
                            push(Kind::Decode(w));
                        }
                    }
                    let mut w = v.clone();
                    if w.iter().filter(|st| st.group == v[i].group).count() > 1 {
                        w[i].group = 1 + w.iter().map(|st| st.group).max().unwrap();
                    }
                    w[i].src = a;
                    push(Kind::Decode(w));
                }
            }
        }
        Kind::Write(v) => {
            for w in fewer(v) {
                push(Kind::Write(w));
            }
            for i in 0..v.len() {
                let mut w = v.clone();
                w[i].value = 1f64.to_bits();
                push(Kind::Write(w));
                let mut w = v.clone();
                match &mut w[i].what {
                    What::Record { sink, .. } | What::TextIo { sink, .. } => {
                        let f = sink.fail_at;
                        *sink = SinkPlan { fail_at: f, ..Default::default() };
                        push(Kind::Write(w.clone()));
                        if let What::Record { sink, .. } | What::TextIo { sink, .. } = &mut w[i].what {
                            *sink = SinkPlan::default();
                        }
                        push(Kind::Write(w));
                    }
                    What::Text { partial, .. } => {
                        *partial = false;
                        push(Kind::Write(w));
                    }
                    _ => {}
                }
            }
        }
        Kind::Stream(v) => {
            for w in fewer(v) {
                push(Kind::Stream(w));
            }
            for i in 0..v.len() {
                for rs in fewer(&v[i].records) {
                    let mut w = v.clone();
                    w[i].records = rs;
                    push(Kind::Stream(w));
                }
                for plan in [ReadPlan::default(), ReadPlan { eintr: vec![], ..v[i].plan.clone() }, ReadPlan { pieces: vec![], ..v[i].plan.clone() }] {
                    let mut w = v.clone();
                    w[i].plan = plan;
                    push(Kind::Stream(w));
                }
                for k in 0..v[i].records.len() {
                    let mut w = v.clone();
                    w[i].records[k].sep = "\n".into();
                    push(Kind::Stream(w));
                }
            }
        }
        Kind::Exchange(x) => {
            for t in fewer(&x.tokens) {
                push(Kind::Exchange(Exchange { tokens: t, ..x.clone() }));
            }
            for c in fewer(&x.crashes) {
                push(Kind::Exchange(Exchange { crashes: c, ..x.clone() }));
            }
            for c in fewer(&x.cuts) {
                push(Kind::Exchange(Exchange { cuts: c, ..x.clone() }));
            }
            for n in [Net { min_us: 0, max_us: 1, ..Default::default() }, Net { loss: 0, ..x.net.clone() }, Net { dup: 0, ..x.net.clone() }, Net { cut: 0, ..x.net.clone() }, Net { eintr: 0, ..x.net.clone() }, Net { pieces: vec![], ..x.net.clone() }] {
                push(Kind::Exchange(Exchange { net: n, ..x.clone() }));
            }
            for (i, p) in x.parties.iter().enumerate() {
                for q in [
                    Party { disk_full: vec![], ..p.clone() },
                    Party { disk_pieces: vec![], read_pieces: vec![], ..p.clone() },
                    Party { text_unit: None, ..p.clone() },
                    Party { write: WHow::Writer, ..p.clone() },
                    Party { sync_us: 0, resend_us: 1000, ..p.clone() },
                ] {
                    let mut y = x.clone();
                    y.parties[i] = q;
                    push(Kind::Exchange(y));
                }
            }
            for (i, t) in x.tokens.iter().enumerate() {
                if t.path.len() > 2 {
                    for k in 0..t.path.len() {
                        let mut y = x.clone();
                        y.tokens[i].path.remove(k);
                        let p = &y.tokens[i].path;
                        if p.windows(2).all(|w| w[0] != w[1]) && (k != 0) {
                            push(Kind::Exchange(y));
                        }
                    }
                }
                let mut y = x.clone();
                y.tokens[i].value = 1f64.to_bits();
                push(Kind::Exchange(y));
            }
        }
    }
    o
}

fn fewer<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![];
    let n = v.len();
    if n >= 4 {
        o.push(v[n / 2..].to_vec());
        o.push(v[..n / 2].to_vec());
    }
    for k in (0..n).rev() {
        let mut w = v.to_vec();
        w.remove(k);
        o.push(w);
    }
    o
}
fn pieces_out(d: &[u8]) -> Vec<Vec<u8>> {
    let n = d.len();
    let mut o = vec![];
    let mut w = n / 2;
    while w >= 1 && w >= n / 64 {
        let mut a = 0;
        while a < n {
            let b = (a + w).min(n);
            o.push([&d[..a], &d[b..]].concat());
            a += w;
        }
        w /= 2;
    }
    o
}
