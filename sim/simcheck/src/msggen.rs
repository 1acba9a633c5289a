//! Message bodies: what editors and language servers say, from ordinary to hostile.
use serde_json::{json, Map, Value};
use simrt::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flavor {
    /// no mention of a quantity type
    Plain,
    /// ordinary messages displaying quantity types
    Quantity,
    /// anything that is still one JSON text or at least UTF-8
    Hostile,
}

const WORDS: &[&str] = &[
    "foo", "bar", "Δx", "größe", "長さ", "\"quoted\"", "back\\slash", "tab\there", "line\nbreak", "🚀", "e\u{301}",
    "null", "</script>", "{}", "a<b>c", "Content-Length: 5\r\n\r\nhello", "\r\n\r\n", "%20", "\u{0}", "\u{7f}", "ᚠ",
    "Scale", "Dimension", "quantity", "---", "```", "let", "impl", "where ", "μm", "\u{2028}",
];

pub fn words(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(r.pick(WORDS));
    }
    s
}

fn uri(r: &mut Rng) -> Value {
    json!(format!("file:///home/u/{}/src/{}.rs", r.pick(&["proj", "größe", "a b"]), r.pick(&["main", "lib", "unité"])))
}
fn pos(r: &mut Rng) -> Value {
    json!({"line": r.below(500), "character": r.below(120)})
}
fn range(r: &mut Rng) -> Value {
    json!({"start": pos(r), "end": pos(r)})
}

pub fn any_value(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => json!(r.below(2) == 0),
        2 => json!(r.below(1 << 40) as i64 - (1 << 39)),
        3 => json!((r.below(1000) as f64) / 8.0),
        4 | 5 => {
            let n = r.usize(4);
            json!(words(r, n))
        }
        6 => {
            let n = r.usize(4);
            Value::Array((0..n).map(|_| any_value(r, depth - 1)).collect())
        }
        _ => {
            let n = r.usize(4);
            let mut m = Map::new();
            for i in 0..n {
                m.insert(format!("{}{}", r.pick(&["k", "schlüssel", "x.y", "result", "label", "position"]), i), any_value(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

fn method(r: &mut Rng) -> &'static str {
    r.pick(&[
        "textDocument/hover",
        "textDocument/inlayHint",
        "inlayHint/resolve",
        "textDocument/didChange",
        "textDocument/completion",
        "$/progress",
        "$/cancelRequest",
        "window/logMessage",
        "textDocument/publishDiagnostics",
        "workspace/configuration",
        "initialize",
        "shutdown",
        "exit",
    ])
}

/// Serialise like different peers do: compact, pretty, or with escapes.
fn render(r: &mut Rng, v: &Value) -> String {
    match r.below(8) {
        0 => serde_json::to_string_pretty(v).unwrap(),
        1 => {
            // escape every non-ASCII character
            let s = serde_json::to_string(v).unwrap();
            let mut o = String::new();
            for c in s.chars() {
                if c.is_ascii() {
                    o.push(c)
                } else {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                }
            }
            o
        }
        2 => format!(" {}\n", serde_json::to_string(v).unwrap()),
        _ => serde_json::to_string(v).unwrap(),
    }
}

fn pad(r: &mut Rng) -> String {
    // now and then a body larger than every buffer in the path
    match r.below(24) {
        0 => "x".repeat(r.range(8_000, 9_000) as usize),
        1 => "ü".repeat(r.range(30_000, 70_000) as usize),
        2 => "y".repeat(r.range(1, 3_000) as usize),
        _ => String::new(),
    }
}

fn some_words(r: &mut Rng, max: usize) -> String {
    let n = r.usize(max);
    words(r, n)
}
fn padded(r: &mut Rng, max: usize) -> String {
    let mut s = some_words(r, max);
    s.push_str(&pad(r));
    s
}

pub fn plain(r: &mut Rng, id: u64) -> String {
    loop {
        let mut m = Map::new();
        m.insert("jsonrpc".into(), json!("2.0"));
        match r.below(7) {
            0 => {
                m.insert("id".into(), json!(id));
                m.insert("method".into(), json!(method(r)));
                m.insert("params".into(), any_value(r, 3));
            }
            1 => {
                m.insert("method".into(), json!(method(r)));
                m.insert("params".into(), json!({"textDocument": {"uri": uri(r), "version": id}, "text": padded(r, 12)}));
            }
            2 => {
                m.insert("id".into(), json!(id));
                m.insert("result".into(), any_value(r, 3));
            }
            3 => {
                m.insert("id".into(), json!(format!("req-{}", id)));
                m.insert("error".into(), json!({"code": -32600, "message": some_words(r, 6), "data": any_value(r, 2)}));
            }
            4 => {
                m.insert("id".into(), json!(id));
                m.insert("result".into(), json!({"contents": {"kind": "markdown", "value": format!("```rust\nlet x: {}\n```\n{}", r.pick(&["String", "Vec<f64>", "Option<Box<dyn Fn() -> u8>>"]), words(r, 3))}, "range": range(r)}));
            }
            5 => {
                let n = r.usize(5);
                let hints: Vec<Value> = (0..n).map(|_| json!({"position": pos(r), "label": [{"value": ": "}, {"value": r.pick(&["String","f64","Vec"]) }], "kind": 1})).collect();
                m.insert("id".into(), json!(id));
                m.insert("result".into(), Value::Array(hints));
            }
            _ => {
                m.insert("method".into(), json!("window/logMessage"));
                m.insert("params".into(), json!({"type": 3, "message": padded(r, 20), "n": id}));
            }
        }
        let s = render(r, &Value::Object(m));
        if !s.contains("Quantity") {
            return s;
        }
    }
}

// ------------------------------------------------------------------ quantity types

pub fn exp(r: &mut Rng, wild: bool) -> String {
    if wild {
        match r.below(10) {
            0 => "_".into(),
            1 => "9223372036854775807".into(),
            2 => format!("{}", r.range(0, 70000) as i64 - 35000),
            3 => "-32768".into(),
            4 => "32767".into(),
            5 => "".into(),
            6 => "{ N + 1 }".into(),
            _ => format!("{}", r.below(9) as i64 - 4),
        }
    } else {
        match r.below(8) {
            0 => "_".into(),
            1 | 2 | 3 => "0".into(),
            _ => format!("{}", r.below(7) as i64 - 3),
        }
    }
}

/// The printed form of one quantity type.
pub fn qtype(r: &mut Rng, wild: bool) -> String {
    let scale_names = ["_2", "_3", "_5", "_Pi"];
    let dim_names = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"];
    let resolved = !wild && r.below(4) > 0;
    let e = |r: &mut Rng| {
        if resolved {
            let k = r.below(3);
            if k > 0 {
                "0".to_string()
            } else {
                format!("{}", r.below(7) as i64 - 3)
            }
        } else {
            exp(r, wild)
        }
    };
    let scale = match r.below(6) {
        0 => "Scale".to_string(),
        1 => {
            // only some parameters carry a value
            let parts: Vec<String> = scale_names
                .iter()
                .map(|n| if r.below(2) == 0 { n.to_string() } else { format!("{}<{}>", n, e(r)) })
                .collect();
            format!("Scale<{}>", parts.join(", "))
        }
        _ => {
            let parts: Vec<String> = if r.below(2) == 0 {
                // powers of ten, as real units have them
                let k = r.below(13) as i64 - 6;
                vec![format!("_2<{}>", k), "_3<0>".into(), format!("_5<{}>", k), "_Pi<0>".into()]
            } else {
                scale_names.iter().map(|n| format!("{}<{}>", n, e(r))).collect()
            };
            format!("Scale<{}>", parts.join(", "))
        }
    };
    let dim = match r.below(7) {
        0 => "Dimension".to_string(),
        1 => {
            let k = 1 + r.usize(3);
            let parts: Vec<String> = (0..k).map(|_| format!("{}<{}>", r.pick(&dim_names), e(r))).collect();
            format!("Dimension<{}>", parts.join(", "))
        }
        _ => {
            let parts: Vec<String> = dim_names.iter().map(|n| format!("{}<{}>", n, e(r))).collect();
            format!("Dimension<{}>", parts.join(", "))
        }
    };
    let mut s = format!("Quantity<{}, {}", scale, dim);
    if r.below(8) > 0 {
        s.push_str(", ");
        s.push_str(match r.below(8) {
            0 => "f32",
            1 => "i32",
            2 => "Vec<f64>",
            3 => "Option<[u8; 4]>",
            _ => "f64",
        });
        if r.below(6) == 0 {
            s.push_str(r.pick(&[", ()", ", Lunar", ", my::Brand", ", Brand<Größe>"]));
        }
    }
    s.push('>');
    if wild {
        match r.below(8) {
            0 => {
                let n = r.usize(s.chars().count() + 1);
                s = s.chars().take(n).collect();
            }
            1 => s = s.replace(", ", ","),
            2 => s = format!("Quantity<{}, Scale, Dimension>", s),
            3 => s = s.replace("_L", "_Lü"),
            4 => s = s.replace('>', ""),
            5 => s.push_str(">>>"),
            _ => {}
        }
    }
    s
}

/// The head of a trait implementation, with its clause, brace, line ends and method in any order.
fn impl_code(r: &mut Rng) -> String {
    let t = *r.pick(&["Add", "Sub", "Mul", "Div", "Mul<f64>", "Div<f64>", "AddAssign", "Neg"]);
    let wild = r.below(3) == 0;
    let q = qtype(r, wild);
    let of = if r.below(4) == 0 { "f64".to_string() } else { q.clone() };
    let mut s = format!("impl<{}> {} for{}{}", r.pick(&["const A: i16, T", "T", "const SCALE_P2: i16, const SCALE_P3: i16", "T: Größe"]), t, r.pick(&[" ", " ", " ", "\n", ""]), of);
    let n = r.usize(6);
    let line = r.below(2) == 0;
    for _ in 0..n {
        s.push_str(*r.pick(if line { &["", " ", " ", "  "] } else { &["", " ", "\n", "\n    "] }));
        match r.below(8) {
            0 | 1 => s.push_str("where T: Clone "),
            2 => s.push_str(if line { "where T: Copy, " } else { "where\n    T: Mul<Output = T>," }),
            3 => s.push('{'),
            4 => s.push_str(&format!("fn {}(self, other: {}) -> Self::Output", r.pick(&["add", "mul", "div"]), r.pick(&["f64", "Self", &q]))),
            5 => s.push_str("}"),
            6 => s.push_str("{ é }"),
            _ => s.push_str(&format!("type Output = {};", q)),
        }
    }
    // the code looks for a type in its expanded form before it reads any further
    if !s.contains("Quantity<Scale") && r.below(3) > 0 {
        s.push_str(&format!("{}fn mul(self, other: {})", if line { " " } else { "\n" }, qtype(r, false)));
    }
    s
}

/// Text around and including quantity types, as code.
pub fn qcode(r: &mut Rng, wild: bool) -> String {
    if wild && r.below(4) == 0 {
        return impl_code(r);
    }
    let q = qtype(r, wild);
    match r.below(if wild { 16 } else { 9 }) {
        0 => format!("let x: {}", q),
        1 => format!("let mut größe: {} = 5.0.meters();", q),
        2 => format!("fn f(a: {}, b: Vec<String>) -> {}", q, qtype(r, wild)),
        3 => format!("struct S {{\n    a: {},\n    b: u8,\n}}", q),
        4 => format!("size: 8, let y: Option<{}>", q),
        5 => format!("{} // {}", q, words(r, 3)),
        6 => format!("let t: ({}, {})", q, qtype(r, wild)),
        7 => format!("长度 : {}", q),
        8 => format!("let x: {}\n", q),
        9 => format!("impl<const A: i16> Add for {}\nwhere A: B {{", q),
        10 => format!("impl<const A: i16, T> {} for {}", r.pick(&["Add", "Sub", "Mul", "Div", "Mul<f64>", "Div<f64>"]), q),
        11 => format!("impl<const A: i16> {} for\n{}", r.pick(&["Mul", "Div", "Mul<f64>", "Div<f64>"]), q),
        12 => format!("impl<T> Mul for f64\nfn mul(self, other: {}) where ", q),
        13 => format!("impl<T> {} forß{}", r.pick(&["Mul", "Div", "Mul<f64>"]), q),
        14 => format!("ü: {}{}", r.pick(&["λ", "é ", ""]), q),
        _ => format!("pub struct Quantity<Scale, Dimension, T = f64> {}", q),
    }
}

fn hover_value(r: &mut Rng, wild: bool) -> String {
    let c = qcode(r, wild);
    // on its own, as peers with plain-text hovers show it
    if c.starts_with("impl") && r.below(3) == 0 {
        return c;
    }
    match r.below(if wild { 10 } else { 6 }) {
        0 => format!("```rust\n{}\n```", c),
        1 => format!("```rust\n{}\n```\n\n---\n\n{}", c, words(r, 4)),
        2 => format!("```rust\nmy_crate::module\n```\n\n```rust\n{}\n```\n\n---\n\n{}", c, words(r, 2)),
        3 => c,
        4 => format!("```rust\n{}\n```\n\nsee also: {}\n", c, words(r, 3)),
        5 => format!("{}\n\n```rust\n{}\n```\n---\nunits: {}", words(r, 3), c, words(r, 1)),
        6 => format!("```rust{}", c),
        7 => format!("```rust\n{}\n``", c),
        8 => {
            let d = if r.below(6) == 0 { r.range(500, 3000) } else { r.range(2, 60) } as usize;
            format!("```rust\nlet x: {}{}{}\n```", "Option<".repeat(d), c, ">".repeat(d))
        }
        _ => {
            let d = if r.below(6) == 0 { r.range(500, 3000) } else { r.range(2, 60) } as usize;
            format!("Quantity<Scale, Dimension<_L<1>>, {}f64{}>", "Box<".repeat(d), ">".repeat(d))
        }
    }
}

pub fn hover(r: &mut Rng, id: u64, wild: bool) -> Value {
    let mut res = Map::new();
    let contents = match r.below(6) {
        0 => {
            let n = 1 + r.usize(3);
            Value::Array((0..n).map(|i| if i % 2 == 0 { json!({"language": "rust", "value": hover_value(r, wild)}) } else { json!({"language": "rust", "value": words(r, 2)}) }).collect())
        }
        1 => json!({"kind": "plaintext", "value": hover_value(r, wild)}),
        _ => json!({"kind": "markdown", "value": hover_value(r, wild)}),
    };
    res.insert("contents".into(), contents);
    if r.below(3) > 0 {
        res.insert("range".into(), range(r));
    }
    if r.below(3) == 0 {
        // rust-analyzer's hover actions
        res.insert("actions".into(), json!([{"title": "Go to", "commands": [{"title": "Quantity", "command": "rust-analyzer.gotoLocation", "arguments": [any_value(r, 2)], "tooltip": words(r, 1)}]}]));
    }
    let mut m = Map::new();
    m.insert("jsonrpc".into(), json!("2.0"));
    m.insert("id".into(), if r.below(4) == 0 { json!(format!("h{}", id)) } else { json!(id) });
    m.insert("result".into(), Value::Object(res));
    if r.below(10) == 0 {
        m.insert("x-extension".into(), any_value(r, 1));
    }
    Value::Object(m)
}

/// A type's text as the label parts rust-analyzer makes of it: names are linked parts, the rest is merged text.
pub fn label_parts(r: &mut Rng, text: &str) -> Vec<Value> {
    let mut parts = vec![];
    let mut cur = String::new();
    let mut word = String::new();
    let linked = |w: &str| matches!(w, "Quantity" | "Scale" | "Dimension" | "Option" | "Vec" | "String" | "Box" | "Lunar") || w.starts_with('_') && w.len() > 1;
    let out = |parts: &mut Vec<Value>, w: &str, r: &mut Rng| {
        let mut p = json!({"value": w, "location": {"uri": uri(r), "range": range(r)}});
        if r.below(6) == 0 {
            p["tooltip"] = json!(words(r, 1));
        }
        if r.below(8) == 0 {
            p["command"] = json!({"title": "t", "command": "c"});
        }
        parts.push(p);
    };
    for c in text.chars().chain(std::iter::once('\u{0}')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            if linked(&word) {
                if !cur.is_empty() {
                    parts.push(json!({"value": cur}));
                    cur = String::new();
                }
                out(&mut parts, &word, r);
            } else {
                cur.push_str(&word);
            }
            word.clear();
        }
        if c != '\u{0}' {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        parts.push(json!({"value": cur}));
    }
    parts
}

fn hint_text(r: &mut Rng, wild: bool) -> String {
    let q = qtype(r, wild);
    match r.below(if wild { 9 } else { 7 }) {
        0 => format!("Option<{}>", q),
        1 => format!("Vec<Option<{}>>", q),
        2 => format!("({}, String)", q),
        3 => format!("Box<{}> = x", q),
        7 => format!("(Quantity, {})", q),
        8 => format!("Option<Quantity> {}", q),
        _ => q,
    }
}

pub fn hint(r: &mut Rng, wild: bool, resolve: bool) -> Value {
    let q = r.below(4) > 0 || resolve;
    let p = pos(r);
    let mut h = Map::new();
    h.insert("position".into(), p.clone());
    let mut parts = vec![];
    let t = if q { hint_text(r, wild) } else { r.pick(&["String", "Vec<f64>", "i32"]).to_string() };
    if r.below(5) > 0 {
        parts.push(json!({"value": ": "}));
        parts.extend(label_parts(r, &t));
    } else {
        parts.extend(label_parts(r, &format!(": {}", t)));
    }
    h.insert("label".into(), if r.below(12) == 0 { json!(t) } else { Value::Array(parts) });
    if r.below(2) == 0 {
        h.insert("kind".into(), json!(1));
    }
    if r.below(2) == 0 {
        h.insert("paddingLeft".into(), json!(r.below(2) == 0));
    }
    if r.below(2) == 0 {
        h.insert("tooltip".into(), json!({"kind": "markdown", "value": words(r, 2)}));
    }
    if r.below(2) == 0 {
        h.insert("data".into(), json!({"file_id": r.below(1 << 50), "hash": format!("{}", r.next()), "version": null}));
    }
    if r.below(3) > 0 {
        let rg = if r.below(2) == 0 { json!({"start": p, "end": p}) } else { range(r) };
        let text = format!(": {}", t);
        h.insert("textEdits".into(), json!([{"range": rg, "newText": text}]));
    }
    Value::Object(h)
}

pub fn inlay(r: &mut Rng, id: u64, wild: bool) -> Value {
    let n = 1 + r.usize(4);
    let hints: Vec<Value> = (0..n).map(|_| hint(r, wild, false)).collect();
    json!({"jsonrpc": "2.0", "id": id, "result": hints})
}
pub fn resolve(r: &mut Rng, id: u64, wild: bool) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": hint(r, wild, true)})
}
/// Other traffic that happens to mention quantity types.
pub fn mention(r: &mut Rng, id: u64, wild: bool) -> Value {
    let q = qtype(r, wild);
    match r.below(6) {
        0 => json!({"jsonrpc": "2.0", "method": "textDocument/publishDiagnostics", "params": {"uri": uri(r), "version": id, "diagnostics": [{"range": range(r), "severity": 1, "message": format!("expected `{}`, found `{}`", q, qtype(r, wild)), "code": "E0308"}]}}),
        1 => json!({"jsonrpc": "2.0", "id": id, "result": {"isIncomplete": false, "items": [{"label": "x", "detail": q, "kind": 6, "textEdit": {"range": range(r), "newText": "x"}}]}}),
        2 => json!({"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 3, "message": q, "n": id}}),
        3 => json!({"jsonrpc": "2.0", "id": id, "result": {"signatures": [{"label": format!("fn f(a: {})", q)}], "activeSignature": 0}}),
        4 => json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": q}}),
        _ => json!({"jsonrpc": "2.0", "id": id, "method": "workspace/applyEdit", "params": {"edit": {"changes": {"file:///x": [{"range": range(r), "newText": format!("let x: {} = y;", q)}]}}}}),
    }
}

pub fn quantity(r: &mut Rng, id: u64) -> String {
    let v = match r.below(10) {
        0..=3 => hover(r, id, false),
        4..=6 => inlay(r, id, false),
        7 | 8 => resolve(r, id, false),
        _ => mention(r, id, false),
    };
    render(r, &v)
}

pub fn hostile(r: &mut Rng, id: u64) -> String {
    match r.below(16) {
        0..=3 => {
            let v = hover(r, id, true);
            render(r, &v)
        }
        4..=5 => {
            let v = inlay(r, id, true);
            render(r, &v)
        }
        6..=7 => {
            let v = resolve(r, id, true);
            render(r, &v)
        }
        8 => {
            let v = mention(r, id, true);
            render(r, &v)
        }
        9 => {
            // contents of shapes the protocol also allows
            let q = qtype(r, true);
            let c = match r.below(5) {
                0 => json!(q),
                1 => json!([q, {"language": "rust", "value": q}]),
                2 => json!([]),
                3 => json!({"value": q}),
                _ => json!({"kind": null, "language": 5, "value": q}),
            };
            let v = json!({"jsonrpc": "2.0", "id": id, "result": {"contents": c, "range": any_value(r, 1)}});
            render(r, &v)
        }
        10 => {
            // hints of unexpected shapes
            let q = qtype(r, true);
            let l = match r.below(5) {
                0 => json!(q),
                1 => json!([{"value": "Quantity"}, {"nope": "<Scale"}, {"value": 5}]),
                2 => json!([{"value": "Quantity"}, q]),
                3 => json!([{"value": "Quantity"}, {"value": "<Scale, Dimension"}]),
                _ => json!(null),
            };
            let v = match r.below(3) {
                0 => json!({"jsonrpc": "2.0", "id": id, "result": [{"position": null, "label": l}, 5, null, {"label": l, "note": q}]}),
                1 => json!({"jsonrpc": "2.0", "id": id, "result": {"position": 3, "label": l, "textEdits": {"a": 1}, "note": q}}),
                _ => json!({"jsonrpc": "2.0", "id": id, "result": {"position": {"line": 1, "character": 2}, "label": l, "textEdits": [5, q]}}),
            };
            render(r, &v)
        }
        11 => {
            // not an object
            let q = qtype(r, true);
            let v = match r.below(4) {
                0 => json!(q),
                1 => json!([{"jsonrpc": "2.0", "id": id, "result": q}]),
                2 => json!({"jsonrpc": 2, "id": id, "result": q}),
                _ => json!({"id": id, "result": {"contents": {"value": q}}}),
            };
            render(r, &v)
        }
        12 => {
            // not JSON
            let q = qtype(r, true);
            format!("{}{}", q, words(r, 3))
        }
        13 => {
            let v = hover(r, id, true);
            let s = render(r, &v);
            let n = r.usize(s.chars().count() + 1);
            s.chars().take(n).collect()
        }
        14 => String::new(),
        _ => {
            let n = r.usize(40);
            let q = qtype(r, true);
            let v = json!({"jsonrpc": "2.0", "id": id, "result": {"contents": {"kind": "markdown", "value": format!("{} {} {}", words(r, n), q, words(r, 2))}}});
            render(r, &v)
        }
    }
}

/// Nearly the same text again: one exponent, storage type or brand of a displayed type is another one.
pub fn twin(r: &mut Rng, t: &str) -> String {
    let mut t = t.to_string();
    for _ in 0..1 + r.usize(2) {
        let mut at: Vec<(usize, usize, u8)> = vec![];
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'<' {
                let mut k = i + 1;
                if k < b.len() && b[k] == b'-' {
                    k += 1;
                }
                let d = k;
                while k < b.len() && b[k].is_ascii_digit() && k < d + 3 {
                    k += 1;
                }
                if k > d && k < b.len() && b[k] == b'>' {
                    at.push((i + 1, k, 0));
                }
            }
            i += 1;
        }
        for (w, k) in [("f64", 1), ("f32", 1), ("Lunar", 2), ("my::Brand", 2), (", f64>", 3), ("mut ", 4), ("let ", 4)] {
            at.extend(t.match_indices(w).map(|(i, w)| (i, i + w.len(), k)));
        }
        // the kinds of change are equally likely, however many exponents there are
        let mut kinds: Vec<u8> = at.iter().map(|x| x.2).collect();
        kinds.sort();
        kinds.dedup();
        if kinds.is_empty() {
            return t;
        }
        let kind = *r.pick(&kinds);
        let of: Vec<&(usize, usize, u8)> = at.iter().filter(|x| x.2 == kind).collect();
        let (from, to, k) = **r.pick(&of);
        let new = match k {
            0 => format!("{}", r.below(7) as i64 - 3),
            1 => r.pick(&["f64", "f32", "i64", "f16"]).to_string(),
            2 => r.pick(&["Solar", "lunar", "Lunar2", "my::Brand", "()"]).to_string(),
            3 => format!(", f64, {}>", r.pick(&["Lunar", "Solar", "my::Brand"])),
            _ => r.pick(&["", "ref "]).to_string(),
        };
        t.replace_range(from..to, &new);
    }
    t
}

pub fn body(r: &mut Rng, id: u64, f: Flavor) -> String {
    match f {
        Flavor::Plain => plain(r, id),
        Flavor::Quantity => quantity(r, id),
        Flavor::Hostile => hostile(r, id),
    }
}
