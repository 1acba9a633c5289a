//! Random worlds for the language-server proxy, one generator per property.
use crate::lspworld::*;
use crate::msggen::{self, Flavor};
use simrt::ctx::{Install, Knobs, Probe};
use simrt::rng::Rng;
use std::collections::BTreeMap;

const S: u64 = 1_000_000;
const MS: u64 = 1_000;

pub fn knobs(r: &mut Rng, faulty: bool) -> Knobs {
    if !faulty {
        return Knobs::default();
    }
    // swarm: each run switches every kind on or off for itself
    let k = |r: &mut Rng, hi: u64| if r.below(2) == 0 { 0 } else { r.range(5, hi) as u32 };
    Knobs {
        p_yield: k(r, 400),
        p_short_read: k(r, 900),
        p_short_write: k(r, 900),
        p_notready: k(r, 400),
        p_delay: k(r, 120),
        max_delay_us: *r.pick(&[100, 5 * MS, 100 * MS]),
        delay_budget_us: 500 * MS,
        p_eintr: k(r, 200),
    }
}

pub fn env(r: &mut Rng) -> BTreeMap<String, String> {
    let mut e = BTreeMap::new();
    e.insert("PATH".to_string(), "/bin".to_string());
    e.insert("HOME".to_string(), "/home/u".to_string());
    for (k, vals) in [
        ("WHIPPYUNITS_VERBOSE", &["true", "1", "false", ""][..]),
        ("WHIPPYUNITS_UNICODE", &["false", "0", "true"][..]),
        ("WHIPPYUNITS_INCLUDE_RAW", &["true", "1", "false"][..]),
        ("RUST_LOG", &["info", "debug", "trace", "warn"][..]),
    ] {
        if r.below(2) == 0 {
            e.insert(k.to_string(), r.pick(vals).to_string());
        }
    }
    e
}

fn cap(r: &mut Rng, faulty: bool) -> u32 {
    if !faulty {
        return 65536;
    }
    match r.below(6) {
        0 => 1 + r.below(16) as u32,
        1 => 512,
        2 => 4096,
        _ => 65536,
    }
}

pub fn reading(r: &mut Rng, faulty: bool, stall_total: u64) -> Reading {
    let mut x = Reading::eager();
    if !faulty {
        return x;
    }
    x.chunk_max = *r.pick(&[1, 7, 100, 4096, 65536, 65536]);
    if x.chunk_max == 1 && r.below(3) > 0 {
        x.chunk_max = 50;
    }
    if r.below(4) == 0 {
        x.pause_us = *r.pick(&[1, 50, 1000]);
        if x.chunk_max < 100 {
            x.pause_us = 1;
        }
    }
    if stall_total > 0 && r.below(2) == 0 {
        let n = 1 + r.below(3);
        for _ in 0..n {
            let from = r.below(400 * MS);
            x.stalls.push((from, 1 + r.below(stall_total / n)));
        }
    }
    x
}

pub fn dress(r: &mut Rng, it: &mut Item, faulty: bool) {
    it.delay_us = match r.below(4) {
        0 | 1 => 0,
        2 => r.below(2 * MS),
        _ => r.below(60 * MS),
    };
    if faulty {
        match r.below(6) {
            0 => it.chunks = vec![1],
            1 => it.chunks = (0..1 + r.usize(5)).map(|_| r.skewed(40) as u32).collect(),
            2 => it.chunks = vec![r.skewed(5000) as u32],
            3 => {
                // split exactly around the header's end
                let h = it.wire().len() - it.body.bytes().len();
                let d = r.below(5) as i64 - 2;
                it.chunks = vec![(h as i64 + d).max(1) as u32, r.skewed(3000) as u32];
            }
            4 => {
                // one interruption somewhere inside
                let w = it.wire().len() as u64;
                it.chunks = vec![r.range(1, w.max(2) - 1) as u32, u32::MAX];
            }
            _ => {}
        }
        if !it.chunks.is_empty() {
            it.gap_us = *r.pick(&[0, 0, 10, 500, 3 * MS]);
            if it.chunks.len() == 2 && it.chunks[1] == u32::MAX {
                it.gap_us = *r.pick(&[0, 3 * MS, 200 * MS]);
            }
        }
    }
}

pub fn flavor(r: &mut Rng, mix: &[Flavor]) -> Flavor {
    *r.pick(mix)
}

/// A body larger than every buffer on the way.
fn huge(r: &mut Rng, id: u64) -> String {
    let n = *r.pick(&[9_000u64, 70_000, 140_000, 300_000]);
    let n = r.range(n / 2, n) as usize;
    let unit = *r.pick(&["z", "é", "長さ ", "\\n", "Quantit "]);
    format!("{{\"jsonrpc\":\"2.0\",\"method\":\"big\",\"params\":{{\"n\":{},\"t\":\"{}\"}}}}", id, unit.repeat(n / unit.len() + 1))
}

pub fn stream(r: &mut Rng, n: usize, mix: &[Flavor], id0: u64, faulty: bool) -> Vec<Item> {
    let mut v = vec![];
    // now and then a long session: what only shows after many messages
    let many = r.below(150) == 0;
    let n = if many && n > 0 { r.range(60, 300) as usize } else { n };
    for i in 0..n {
        let f = flavor(r, mix);
        let mut it = Item::new(msggen::body(r, id0 + i as u64, f));
        if !many && r.below(60) == 0 {
            it = Item::new(huge(r, id0 + i as u64));
        }
        // the same message again: at once, or after others
        if i > 0 && r.below(9) == 0 {
            let k = if r.below(2) == 0 { i - 1 } else { r.usize(i) };
            let was: &Item = &v[k];
            it = Item::new(String::new());
            it.body = was.body.clone();
        } else if i > 0 && r.below(12) == 0 {
            // nearly the same message as an earlier one
            let k = if r.below(2) == 0 { i - 1 } else { r.usize(i) };
            if let Body::Text(t) = &v[k].body {
                it = Item::new(msggen::twin(r, t));
            }
        }
        dress(r, &mut it, faulty);
        if many {
            it.delay_us = it.delay_us.min(500);
            it.gap_us = it.gap_us.min(10);
        }
        if faulty && r.below(10) == 0 {
            it.after_recv = 1 + r.below(4) as u32;
        }
        v.push(it);
    }
    v
}

pub fn count(r: &mut Rng, hi: u64) -> usize {
    match r.below(5) {
        0 => r.below(3) as usize,
        1 | 2 => r.below(hi.min(6) + 1) as usize,
        _ => r.below(hi + 1) as usize,
    }
}

pub fn args(r: &mut Rng) -> Vec<String> {
    let pool = [
        "--log-file", "/tmp/x y", "-v", "--version", "--", "ünï", "", "$HOME", "a\"b", "lsp-server", "--wait-dbg", "~", "~/ra.toml", "~root", "~/",
        "${HOME}/x", "%HOME%", "@args", "--config=a=b", "-vv", "--stdio", "-", "*", "?", "a\\b", "'q'", "a\nb", "\t", " ", " x ", "a;b", "a|b", "&", "`id`",
        "#c", "--help", "-h", "-V", "--print-config-schema", "diagnostics", ".", "..", "./rel", "/", "/abs/rust-analyzer", "rust-analyzer", "\u{feff}x", "長い", "0",
        "--no-unicode", "--verbose", "-q", "--log-file=", "-=", "--lsp-proxy",
    ];
    let mut a: Vec<String> = (0..if r.below(6) == 0 { r.usize(12) } else { r.usize(4) }).map(|_| r.pick(&pool).to_string()).collect();
    if !a.is_empty() && r.below(6) == 0 {
        // the same again
        let k = r.usize(a.len());
        a.insert(k, a[k].clone());
    }
    if r.below(60) == 0 {
        a.push("x".repeat(r.range(5_000, 70_000) as usize));
    }
    a
}

pub fn ok_install() -> Vec<Install> {
    vec![Install { path: "PATH/rust-analyzer".into(), probe: Probe::Ok, spawn_errno: 0 }]
}

fn base(r: &mut Rng, seed: u64, faulty: bool) -> Lsp {
    Lsp {
        seed,
        knobs: knobs(r, faulty),
        env: env(r),
        args: args(r),
        installs: ok_install(),
        caps: [cap(r, faulty), cap(r, faulty), cap(r, faulty), cap(r, faulty), cap(r, faulty)],
        editor: vec![],
        editor_end: EditorEnd::Stay,
        editor_read: Reading::eager(),
        server: vec![],
        server_end: ServerEnd::Stay,
        server_eof: OnEof::ExitAfter { us: 10 * MS, last: vec![] },
        server_read: Reading::eager(),
        stderr: vec![],
        stderr_close_us: None,
        editor_closes_stderr_us: None,
        horizon_us: 120 * S,
        sample_us: 0,
    }
}

pub fn stderr_items(r: &mut Rng, flood: bool, faulty: bool) -> Vec<ErrItem> {
    let n = count(r, 8);
    (0..n)
        .map(|i| {
            let mut data: Vec<u8> = match r.below(9) {
                0 => b"thread 'main' panicked at src/main.rs:1:2:\nboom\n".to_vec(),
                1 => "größe λ 長さ\n".as_bytes().to_vec(),
                2 if faulty => vec![0xff, 0xfe, b'x', 0xc3, b'\n', 0x80],
                3 => b"no newline at the end".to_vec(),
                4 => b"\n\n\r\n".to_vec(),
                5 => b"Content-Length: 5\r\n\r\nhello".to_vec(),
                6 if flood => {
                    let k = *r.pick(&[5_000, 90_000, 90_000, 600_000]);
                    let k = r.range(2_000, k) as usize;
                    let mut v: Vec<u8> = (0..k).map(|j| b"0123456789abcdef\n"[(j * 7 + i) % 17]).collect();
                    if faulty && r.below(3) == 0 {
                        let at = r.usize(v.len());
                        v[at] = 0xe2;
                    }
                    v
                }
                7 => "é".repeat(r.range(1, 300) as usize).into_bytes(),
                _ => format!("[INFO rust_analyzer] loading {}\n", r.below(1000)).into_bytes(),
            };
            if faulty && r.below(8) == 0 {
                // a character cut between two writes
                let k = data.len() / 2;
                data.truncate(k.max(1));
            }
            ErrItem { delay_us: if r.below(2) == 0 { 0 } else { r.below(50 * MS) }, data }
        })
        .collect()
}

/// Header blocks the base protocol allows.
fn legal_header(r: &mut Rng, n: usize) -> String {
    let name: String = match r.below(5) {
        0 => "content-length".into(),
        1 => "CONTENT-LENGTH".into(),
        2 => "Content-length".into(),
        _ => "Content-Length".into(),
    };
    let sep = *r.pick(&[": ", ":", ":  ", ": \t", ":\t"]);
    let tail = *r.pick(&["", "", " ", "\t"]);
    let num = if r.below(8) == 0 { format!("0{}", n) } else { n.to_string() };
    let len = format!("{}{}{}{}\r\n", name, sep, num, tail);
    let ty = match r.below(6) {
        0 => "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n",
        1 => "content-type: application/vscode-jsonrpc; charset=utf8\r\n",
        2 => "Content-Type:application/vscode-jsonrpc\r\n",
        _ => "",
    };
    match r.below(2) {
        0 => format!("{}{}\r\n", ty, len),
        _ => format!("{}{}\r\n", len, ty),
    }
}

fn junk(r: &mut Rng) -> Item {
    let mut it = Item::new("{\"jsonrpc\":\"2.0\",\"id\":9,\"result\":\"lost\"}".into());
    it.good = false;
    let n = it.body.bytes().len();
    match r.below(14) {
        0 => it.header = Some("Content-Length: banana\r\n\r\n".into()),
        1 => it.header = Some("Content-Length: -5\r\n\r\n".into()),
        2 => it.header = Some(format!("Content-Length: {}\r\n\r\n", n as u64 + 1 + r.below(3000))),
        3 => it.header = Some(format!("Content-Length: {}\r\n\r\n", 1u64 << r.range(20, 34))),
        4 => it.header = Some(format!("Content-Length: {}\r\n\r\n", u64::MAX - r.below(4))),
        5 => it.header = Some("Content-Length: 99999999999999999999999999\r\n\r\n".into()),
        6 => it.header = Some("Content-Type: x\r\n\r\n".into()),
        7 => it.header = Some("GET / HTTP/1.1\r\nHost: x\r\n\r\n".into()),
        8 => it.header = Some("warning: something printed to standard output\n".into()),
        9 => {
            it.header_raw = Some(vec![b'C', 0xff, 0xfe, b':', b'1', b'\r', b'\n', b'\r', b'\n']);
        }
        10 => {
            // correctly framed, but not text
            let mut b = it.body.bytes().to_vec();
            let k = r.usize(b.len());
            b[k] = 0x80 | b[k];
            it.body = Body::Raw(b);
        }
        11 => it.header = Some("Content-Length: 1e3\r\n\r\n".into()),
        12 => {
            // an endless header line
            it.header = Some("X".repeat(r.range(10, 40_000) as usize));
        }
        _ => it.header = Some(format!("Content-Length: {} {}\r\n\r\n", n, n)),
    }
    it
}

pub fn generate(prop: &str, seed: u64, faulty: bool) -> Lsp {
    let mut rr = Rng::stream(seed, prop);
    let r = &mut rr;
    let mut s = base(r, seed, faulty);
    let any = [Flavor::Plain, Flavor::Quantity, Flavor::Hostile];
    let polite = [Flavor::Plain, Flavor::Quantity];
    match prop {
        "L01" => {
            let n = 1 + count(r, 13);
            s.editor = stream(r, n, &any, 100, faulty);
            let n = count(r, 8);
            s.server = stream(r, n, &polite, 1, faulty);
            s.server_read = reading(r, faulty, 2 * S);
            s.editor_read = reading(r, faulty, S);
            if r.below(2) == 0 {
                s.editor_end = EditorEnd::CloseStdin { delay_us: if r.below(2) == 0 { 0 } else { r.below(2 * S) } };
                if faulty && r.below(3) == 0 {
                    cut_last(r, &mut s.editor);
                }
            }
            if faulty {
                s.stderr = stderr_items(r, false, faulty);
            }
        }
        "L02" => {
            let n = 1 + count(r, 13);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = count(r, 8);
            s.editor = stream(r, n, &any, 100, faulty);
            s.server_read = reading(r, faulty, S);
            s.editor_read = reading(r, faulty, 2 * S);
            if r.below(3) == 0 {
                s.server_end = ServerEnd::Exit { delay_us: r.below(2 * S), raw_status: 0, linger_us: 0 };
                if faulty && r.below(3) == 0 {
                    cut_last(r, &mut s.server);
                }
            }
            if faulty {
                s.stderr = stderr_items(r, false, faulty);
            }
        }
        "L03" => {
            let n = count(r, 8);
            s.server = stream(r, n, &any, 1, faulty);
            let n = count(r, 8);
            s.editor = stream(r, n, &any, 100, faulty);
            s.server_read = reading(r, faulty, 2 * S);
            s.editor_read = reading(r, faulty, 2 * S);
            s.stderr = stderr_items(r, true, faulty);
            s.env.insert("RUST_LOG".into(), r.pick(&["debug", "trace", "info", "whippyunits_lsp_proxy=debug"]).to_string());
            if faulty {
                ends(r, &mut s);
                for side in [true, false] {
                    let v = if side { &mut s.server } else { &mut s.editor };
                    if r.below(3) == 0 && !v.is_empty() {
                        let k = r.usize(v.len());
                        v.truncate(k + 1);
                        let w = v[k].wire().len();
                        v[k].cut = Some(r.usize(w) as u32);
                        if side {
                            s.server_end = ServerEnd::Exit { delay_us: r.below(1000), raw_status: 11, linger_us: 0 };
                        } else {
                            s.editor_end = EditorEnd::CloseStdin { delay_us: r.below(1000) };
                        }
                    }
                }
            }
        }
        "L04" => {
            let n = 1 + count(r, 9);
            s.server = stream(r, n, &[Flavor::Quantity, Flavor::Quantity, Flavor::Quantity, Flavor::Plain], 1, faulty);
            let n = count(r, 3);
            s.editor = stream(r, n, &polite, 100, faulty);
        }
        "L05" => {
            let n = 1 + count(r, 9);
            s.server = stream(r, n, &[Flavor::Hostile, Flavor::Hostile, Flavor::Plain, Flavor::Quantity], 1, faulty);
            let n = 1 + count(r, 6);
            s.editor = stream(r, n, &[Flavor::Hostile, Flavor::Plain], 100, faulty);
            // one ordinary message of each side after everything else
            let mut it = Item::new("{\"jsonrpc\":\"2.0\",\"id\":99999,\"result\":\"still here\"}".into());
            it.delay_us = 400 * MS;
            s.server.push(it);
            let mut it = Item::new("{\"jsonrpc\":\"2.0\",\"method\":\"still/there\"}".into());
            it.delay_us = 600 * MS;
            s.editor.push(it);
        }
        "L06" => {
            let n = 1 + count(r, 7);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = 1 + count(r, 7);
            s.editor = stream(r, n, &polite, 100, faulty);
            for v in [&mut s.server, &mut s.editor] {
                for it in v.iter_mut() {
                    if r.below(3) > 0 {
                        it.header = Some(legal_header(r, it.body.bytes().len()));
                    }
                }
            }
        }
        "L07" => {
            let n = count(r, 9);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = count(r, 6);
            s.editor = stream(r, n, &polite, 100, faulty);
            s.editor_read = reading(r, faulty, 3 * S);
            s.server_read = reading(r, faulty, S);
            if faulty {
                if r.below(3) == 0 {
                    s.stderr = stderr_items(r, true, faulty);
                }
                if r.below(4) == 0 {
                    s.stderr_close_us = Some(r.below(100 * MS));
                }
                if r.below(3) == 0 && !s.server.is_empty() {
                    let k = s.server.len() - 1;
                    let w = s.server[k].wire().len();
                    s.server[k].cut = Some(r.usize(w) as u32);
                }
            }
            s.server_end = ServerEnd::Exit {
                delay_us: if r.below(2) == 0 { 0 } else { r.below(S) },
                raw_status: *r.pick(&[0, 9, 11, 134, 256, 101 << 8]),
                linger_us: if r.below(3) == 0 { r.below(300 * MS) } else { 0 },
            };
            s.server_eof = OnEof::Ignore;
        }
        "L08" => {
            let n = count(r, 9);
            s.editor = stream(r, n, &polite, 100, faulty);
            let n = count(r, 6);
            s.server = stream(r, n, &polite, 1, faulty);
            for it in s.server.iter_mut() {
                it.after_recv = 0;
            }
            s.server_read = reading(r, faulty, 2 * S);
            let delay_us = match r.below(3) {
                0 => 0,
                1 => r.below(10 * MS),
                _ => r.below(S),
            };
            s.editor_end = if faulty && r.below(3) == 0 {
                EditorEnd::CloseAll { delay_us }
            } else {
                EditorEnd::CloseStdin { delay_us }
            };
            if faulty && r.below(4) == 0 && !s.editor.is_empty() {
                let k = s.editor.len() - 1;
                let w = s.editor[k].wire().len();
                s.editor[k].cut = Some(r.usize(w) as u32);
            }
            s.server_eof = if faulty && r.below(3) == 0 {
                OnEof::Ignore
            } else {
                let n = r.usize(4);
                let mut last = stream(r, n, &polite, 900, faulty);
                for it in last.iter_mut() {
                    it.after_recv = 0;
                    it.gap_us = it.gap_us.min(10);
                    it.delay_us = it.delay_us.min(50 * MS);
                }
                OnEof::ExitAfter { us: r.below(600 * MS), last }
            };
            if faulty && r.below(3) == 0 {
                s.stderr = stderr_items(r, false, faulty);
            }
        }
        "L09" => {
            let n = count(r, 5);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = count(r, 5);
            s.editor = stream(r, n, &polite, 100, faulty);
            let bad_side = r.below(3);
            let do_side = |r: &mut Rng, v: &mut Vec<Item>| {
                if r.below(3) == 0 && !v.is_empty() {
                    let k = r.usize(v.len());
                    v.truncate(k + 1);
                    let w = v[k].wire().len();
                    v[k].cut = Some(r.usize(w) as u32);
                } else {
                    let at = r.usize(v.len() + 1);
                    let mut j = junk(r);
                    dress(r, &mut j, faulty);
                    v.insert(at, j);
                }
            };
            if bad_side != 1 {
                do_side(r, &mut s.server);
            }
            if bad_side != 0 {
                do_side(r, &mut s.editor);
            }
            match r.below(3) {
                0 => s.server_end = ServerEnd::Exit { delay_us: r.below(S), raw_status: 0, linger_us: 0 },
                1 => s.editor_end = EditorEnd::CloseStdin { delay_us: r.below(S) },
                _ => {
                    s.server_end = ServerEnd::Exit { delay_us: r.below(S), raw_status: 0, linger_us: 0 };
                    s.editor_end = EditorEnd::CloseStdin { delay_us: r.below(S) };
                }
            }
        }
        "L10" => {
            let n = 2 + count(r, 8);
            s.server = stream(r, n, &[Flavor::Quantity, Flavor::Quantity, Flavor::Hostile, Flavor::Plain], 1, faulty);
            // the same message again, and again
            for _ in 0..count(r, 4) {
                let k = r.usize(s.server.len());
                let mut again = s.server[k].clone();
                if r.below(2) == 0 {
                    if let Body::Text(t) = &again.body {
                        again.body = Body::Text(msggen::twin(r, t));
                    }
                }
                dress(r, &mut again, faulty);
                let at = r.usize(s.server.len() + 1);
                s.server.insert(at, again);
            }
            let n = count(r, 8);
            s.editor = stream(r, n, &any, 100, faulty);
            s.editor_read = reading(r, faulty, S);
            s.server_read = reading(r, faulty, S);
        }
        "L11" => {
            let n = count(r, 6);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = count(r, 6);
            s.editor = stream(r, n, &polite, 100, faulty);
            s.stderr = stderr_items(r, true, faulty);
            if r.below(2) == 0 {
                s.stderr_close_us = Some(r.below(200 * MS));
            }
            if faulty && r.below(4) == 0 {
                s.editor_closes_stderr_us = Some(r.below(200 * MS));
            }
            match r.below(3) {
                0 => s.server_end = ServerEnd::Exit { delay_us: r.below(300 * MS), raw_status: *r.pick(&[0, 134]), linger_us: 0 },
                1 => s.editor_end = EditorEnd::CloseStdin { delay_us: r.below(300 * MS) },
                _ => {}
            }
        }
        "L12" => {
            let n = 1 + count(r, 9);
            s.server = stream(r, n, &polite, 1, faulty);
            let n = 1 + count(r, 9);
            s.editor = stream(r, n, &polite, 100, faulty);
            for v in [&mut s.server, &mut s.editor] {
                let many = v.len() > 20;
                for it in v.iter_mut() {
                    it.after_recv = 0;
                    if many {
                        continue;
                    }
                    // keep on sending across the stall
                    if r.below(3) == 0 {
                        it.delay_us = r.below(3 * S);
                    }
                }
            }
            // a message that stops halfway for a long time, right behind a complete one
            if faulty && r.below(3) == 0 {
                let v = if r.below(2) == 0 { &mut s.server } else { &mut s.editor };
                let k = r.usize(v.len());
                let w = v[k].wire().len() as u64;
                v[k].chunks = vec![r.range(1, w.max(2) - 1) as u32, u32::MAX];
                v[k].gap_us = r.range(3 * S, 9 * S);
                v[k].delay_us = 0;
            }
            if faulty && r.below(3) > 0 {
                let big = |r: &mut Rng, v: &mut Vec<Item>, id0: u64| {
                    // enough to fill every pipe on the way
                    for i in 0..r.range(2, 6) {
                        let n = r.range(20_000, 120_000) as usize;
                        let mut it = Item::new(format!("{{\"jsonrpc\":\"2.0\",\"method\":\"big\",\"params\":{{\"n\":{},\"t\":\"{}\"}}}}", id0 + i, "z".repeat(n)));
                        it.delay_us = r.below(100 * MS);
                        let at = r.usize(v.len() + 1);
                        v.insert(at, it);
                    }
                };
                let from = r.below(500 * MS);
                let long = r.range(3 * S, 40 * S);
                if r.below(2) == 0 {
                    s.editor_read.stalls = vec![(from, long)];
                    big(r, &mut s.server, 5000);
                } else {
                    s.server_read.stalls = vec![(from, long)];
                    big(r, &mut s.editor, 6000);
                }
            }
            s.horizon_us = 200 * S;
            if faulty && r.below(3) == 0 {
                s.stderr = stderr_items(r, false, faulty);
            }
        }
        "L14" => {
            // sessions that carry far more than the proxy may hold at a time
            let total = r.range(4_000_000, 9_000_000) as usize;
            let small = |r: &mut Rng, id: u64| loop {
                let f = if r.below(3) == 0 { Flavor::Quantity } else { Flavor::Plain };
                let b = msggen::body(r, id, f);
                if b.len() <= 3000 {
                    return b;
                }
            };
            let flow = |r: &mut Rng, total: usize, id0: u64, gap: u64| {
                let kinds: Vec<String> = (0..24).map(|i| small(r, id0 + i)).collect();
                let pad = r.below(5);
                // every message converts another type in another text, under another long id
                let rich = r.below(4) == 0;
                let mut v = vec![];
                let mut n = 0;
                while n < total && v.len() < 2500 {
                    let i = v.len() as u64;
                    let b = if rich && r.below(4) > 0 {
                        rich_message(r, id0 + i)
                    } else if pad > 0 && r.below(4) > 0 {
                        let k = r.range(3000, 12_000) as usize;
                        format!("{{\"jsonrpc\":\"2.0\",\"method\":\"note\",\"params\":{{\"n\":{},\"t\":\"{}\"}}}}", id0 + i, "y".repeat(k))
                    } else if r.below(5) == 0 {
                        small(r, id0 + i)
                    } else {
                        r.pick(&kinds).clone()
                    };
                    n += b.len();
                    let mut it = Item::new(b);
                    it.delay_us = if gap > 0 && r.below(3) == 0 { r.below(gap) } else { 0 };
                    v.push(it);
                }
                v
            };
            for c in s.caps.iter_mut() {
                *c = (*c).max(4096);
            }
            s.knobs.p_delay = s.knobs.p_delay.min(5);
            let stalled = r.below(2) == 0;
            let gap = if stalled { 0 } else { *r.pick(&[0, 200, 2 * MS]) };
            let both = r.below(3);
            if both != 0 {
                s.server = flow(r, total, 1, gap);
            }
            if both != 1 {
                let t = if both == 0 { total } else { total / 2 };
                s.editor = flow(r, t, 100_000, gap);
            }
            s.server_read = reading(r, faulty, 0);
            s.editor_read = reading(r, faulty, 0);
            for x in [&mut s.server_read, &mut s.editor_read] {
                x.chunk_max = x.chunk_max.max(4096);
                x.pause_us = x.pause_us.min(50);
            }
            if stalled && faulty {
                // a receiver that takes nothing for long, while everything is sent to it
                let w = (r.below(100 * MS), r.range(5 * S, 60 * S));
                if both == 1 || both == 2 && r.below(2) == 0 {
                    s.editor_read.stalls = vec![w];
                } else {
                    s.server_read.stalls = vec![w];
                }
            }
            if r.below(4) == 0 {
                s.stderr = (0..r.range(500, 3000))
                    .map(|i| {
                        let k = r.range(10, 2000) as usize;
                        ErrItem { delay_us: if r.below(8) == 0 { r.below(2 * MS) } else { 0 }, data: format!("[INFO {}] {}\n", i, "x".repeat(k)).into_bytes() }
                    })
                    .collect();
            }
            s.horizon_us = 200 * S;
            if r.below(4) == 0 {
                talk(r, &mut s);
            }
        }
        "L13" => {
            s.installs.clear();
            let home = match r.below(4) {
                0 => {
                    s.env.remove("HOME");
                    "/tmp".to_string()
                }
                1 => {
                    s.env.insert("HOME".into(), "/home/größe user".into());
                    "/home/größe user".to_string()
                }
                _ => "/home/u".to_string(),
            };
            if r.below(5) == 0 {
                s.env.remove("PATH");
            }
            let dirs = candidates(&home);
            for d in dirs.iter() {
                let d = if d == "rust-analyzer" { "PATH/rust-analyzer".to_string() } else { d.clone() };
                if r.below(3) > 0 {
                    continue;
                }
                let probe = if faulty {
                    match r.below(5) {
                        0 => Probe::Exit(*r.pick(&[1, 101, 127])),
                        1 => Probe::Signal(*r.pick(&[9, 11])),
                        2 => Probe::SpawnErr(*r.pick(&[13, 8, 12])),
                        _ => Probe::Ok,
                    }
                } else {
                    Probe::Ok
                };
                let spawn_errno = if faulty && r.below(6) == 0 { *r.pick(&[11, 12, 13]) } else { 0 };
                s.installs.push(Install { path: d, probe, spawn_errno });
            }
            // something unrelated that must not be started
            s.installs.push(Install { path: "/opt/other/rust-analyzer".into(), probe: Probe::Ok, spawn_errno: 0 });
            let n = count(r, 3);
            s.editor = stream(r, n, &polite, 100, faulty);
            let n = count(r, 3);
            s.server = stream(r, n, &polite, 1, faulty);
            s.editor_end = EditorEnd::CloseStdin { delay_us: 500 * MS };
        }
        p => panic!("no generator for {}", p),
    }
    if !matches!(prop, "L13" | "L14") && r.below(30) == 0 {
        idle(prop, r, &mut s);
    }
    if matches!(prop, "L01" | "L02" | "L03") && r.below(700) == 0 {
        very_long(r, &mut s, prop != "L01");
    }
    if matches!(prop, "L01" | "L02" | "L03" | "L04") && r.below(300) == 0 {
        // larger than what an asynchronous standard stream takes at once
        let n = r.range(2_000_000, 4_500_000) as usize;
        let unit = *r.pick(&["z", "é", "Quantit "]);
        let it = Item::new(format!("{{\"jsonrpc\":\"2.0\",\"method\":\"vast\",\"params\":{{\"t\":\"{}\"}}}}", unit.repeat(n / unit.len())));
        let v = if prop == "L01" { &mut s.editor } else { &mut s.server };
        let at = r.usize(v.len() + 1);
        // (what a peer was cut off in stays its last message)
        if at < v.len() || v.last().map_or(true, |i| i.cut.is_none()) {
            v.insert(at, it);
        }
        s.horizon_us += 60 * S;
    }
    s
}

/// Somebody thinks, or compiles, for minutes: before a message or in the middle of one.
fn idle(prop: &str, r: &mut Rng, s: &mut Lsp) {
    let d = *r.pick(&[35, 95, 6 * 60, 16 * 60, 40 * 60]) * S + r.below(S);
    // (a server that thinks for minutes after its input has ended is one that ignores the end)
    let v = if prop != "L08" && r.below(2) == 0 { &mut s.server } else { &mut s.editor };
    if v.is_empty() {
        return;
    }
    let k = r.usize(v.len());
    let w = v[k].wire().len() as u64;
    if r.below(4) == 0 && w > 2 {
        v[k].chunks = vec![r.range(1, w - 1) as u32, u32::MAX];
        v[k].gap_us = d;
    } else {
        v[k].delay_us = d;
    }
    s.horizon_us += d;
}

/// Thousands of messages.
fn very_long(r: &mut Rng, s: &mut Lsp, from_server: bool) {
    let n = r.range(1000, 4500);
    let v = if from_server { &mut s.server } else { &mut s.editor };
    let kinds: Vec<Item> = v.drain(..).filter(|i| i.good && i.cut.is_none() && i.body.bytes().len() < 4000).collect();
    for i in 0..n {
        let b = if !kinds.is_empty() && i % 60 == 7 {
            r.pick(&kinds).text().to_string()
        } else {
            format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":null}}", 10_000 + i)
        };
        v.push(Item::new(b));
    }
}

/// The documented search order, independently of the code.
pub fn candidates(home: &str) -> Vec<String> {
    let mut v = vec!["rust-analyzer".to_string(), format!("{}/.cargo/bin/rust-analyzer", home)];
    for t in [
        "stable-x86_64-unknown-linux-gnu",
        "nightly-x86_64-unknown-linux-gnu",
        "stable-aarch64-apple-darwin",
        "nightly-aarch64-apple-darwin",
    ] {
        v.push(format!("{}/.rustup/toolchains/{}/bin/rust-analyzer", home, t));
    }
    v
}

/// The stream ends inside its last message.
fn cut_last(r: &mut Rng, v: &mut [Item]) {
    if let Some(it) = v.last_mut() {
        let w = it.wire().len();
        it.cut = Some(r.usize(w) as u32);
    }
}

fn ends(r: &mut Rng, s: &mut Lsp) {
    match r.below(5) {
        0 => {
            s.server_end = ServerEnd::Exit {
                delay_us: r.below(500 * MS),
                raw_status: *r.pick(&[0, 9, 11, 134]),
                linger_us: if r.below(2) == 0 { r.below(100 * MS) } else { 0 },
            }
        }
        1 => s.editor_end = EditorEnd::CloseStdin { delay_us: r.below(500 * MS) },
        2 => s.editor_end = EditorEnd::CloseAll { delay_us: r.below(500 * MS) },
        _ => {}
    }
    if r.below(4) == 0 {
        s.server_eof = OnEof::Ignore;
    }
    if r.below(4) == 0 {
        s.stderr_close_us = Some(r.below(100 * MS));
    }
    if r.below(6) == 0 {
        s.editor_closes_stderr_us = Some(r.below(200 * MS));
    }
}

/// A request or an answer to one, with a long identifier and long texts around quantity types,
/// none of which occurs in any other message.
fn rich_message(r: &mut Rng, n: u64) -> String {
    let mut e = || r.below(199) as i64 - 99;
    let t = format!(
        "Quantity<Scale<_2<{0}>, _3<0>, _5<{0}>, _Pi<0>>, Dimension<_M<{1}>, _L<{2}>, _T<{3}>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>, f64>",
        e() % 10,
        e(),
        e(),
        e()
    );
    let k = r.range(1000, 4000) as usize;
    let id = format!("{}-{}", n, "i".repeat(k));
    let doc = format!("{} {}", n, "d".repeat(r.range(1000, 4000) as usize));
    match r.below(5) {
        0 => format!("{{\"jsonrpc\":\"2.0\",\"id\":\"{id}\",\"method\":\"textDocument/hover\",\"params\":{{\"textDocument\":{{\"uri\":\"file:///{n}/{}\"}},\"position\":{{\"line\":{n},\"character\":0}}}}}}", "u".repeat(k)),
        1 | 2 => format!("{{\"jsonrpc\":\"2.0\",\"id\":\"{id}\",\"result\":{{\"contents\":{{\"kind\":\"markdown\",\"value\":\"```rust\\nlet x{n}: {t}\\n```\\n\\n---\\n\\n{doc}\"}}}}}}"),
        3 => format!("{{\"jsonrpc\":\"2.0\",\"id\":\"{id}\",\"result\":[{{\"position\":{{\"line\":{n},\"character\":7}},\"label\":[{{\"value\":\": \"}},{{\"value\":\"{t}\",\"tooltip\":\"{doc}\"}}],\"kind\":1,\"data\":{{\"id\":{n},\"doc\":\"{doc}\"}}}}]}}"),
        _ => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/publishDiagnostics\",\"params\":{{\"uri\":\"file:///{n}/{id}\",\"diagnostics\":[{{\"message\":\"expected {t}, found {doc}\"}}]}}}}"),
    }
}

/// Bursts of many short messages with silence between them: what each leaves behind adds up.
fn talk(r: &mut Rng, s: &mut Lsp) {
    let bursts = r.range(4, 8);
    let each = r.range(100, 500);
    s.server.clear();
    s.editor.clear();
    s.stderr.clear();
    s.editor_read = Reading::eager();
    s.server_read = Reading::eager();
    let logs = r.below(2) == 0;
    let both = r.below(3);
    let mut n = 0;
    for _ in 0..bursts {
        let (e0, s0, l0) = (s.editor.len(), s.server.len(), s.stderr.len());
        for _ in 0..each {
            n += 1;
            if both != 0 || r.below(4) == 0 {
                s.editor.push(Item::new(match r.below(4) {
                    0 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didChange\",\"params\":{{\"version\":{n}}}}}"),
                    1 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"$/cancelRequest\",\"params\":{{\"id\":{n}}}}}"),
                    _ => format!("{{\"jsonrpc\":\"2.0\",\"id\":{n},\"method\":\"textDocument/{}\",\"params\":{{}}}}", r.pick(&["hover", "inlayHint", "completion"])),
                }));
            }
            if both != 1 || r.below(4) == 0 {
                s.server.push(Item::new(match r.below(6) {
                    0 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{n},\"result\":{{\"contents\":{{\"kind\":\"markdown\",\"value\":\"{}\"}}}}}}", msggen::qtype(r, false)),
                    1 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{n},\"result\":[{{\"position\":{{\"line\":{n},\"character\":1}},\"label\":[{{\"value\":\"{}\"}}]}}]}}", msggen::qtype(r, false)),
                    2 => format!("{{\"jsonrpc\":\"2.0\",\"method\":\"$/progress\",\"params\":{{\"token\":{n}}}}}"),
                    _ => format!("{{\"jsonrpc\":\"2.0\",\"id\":{n},\"result\":null}}"),
                }));
            }
            if logs {
                s.stderr.push(ErrItem { delay_us: 0, data: format!("[INFO {}]\n", n).into_bytes() });
            }
        }
        // (each list's first item of a burst comes long after the burst before it)
        let gap = 10 * S;
        if let Some(i) = s.editor.get_mut(e0) {
            i.delay_us = gap;
        }
        if let Some(i) = s.server.get_mut(s0) {
            i.delay_us = gap;
        }
        if let Some(i) = s.stderr.get_mut(l0) {
            i.delay_us = gap;
        }
    }
    s.sample_us = S;
    s.horizon_us = (bursts + 6) * 10 * S;
}
