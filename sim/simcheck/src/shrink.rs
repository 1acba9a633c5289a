//! Making a failing scenario smaller while it still fails in the same way.
use crate::exec::Scenario;
use crate::lspworld::*;
use crate::prettyworld::Pretty;
use crate::props::{check, Checked, Solo};
use simrt::ctx::{InKind, Knobs, SinkFaults};
use std::time::{Duration, Instant};

pub fn fails(prop: &str, class: &str, sc: &Scenario, solo: &mut Solo) -> bool {
    match check(prop, sc, solo, false) {
        Checked::Done(v, _) => v.violations.iter().any(|(c, _)| c == class),
        Checked::Harness(_) => false,
    }
}

type Edit = Box<dyn FnOnce(&mut Lsp)>;

fn push<F: FnOnce(&mut Lsp) + 'static>(out: &mut Vec<Edit>, f: F) {
    out.push(Box::new(f));
}

/// Edits, not edited copies: a long session has thousands of them.
fn lsp(s: &Lsp) -> Vec<Edit> {
    let mut o = vec![];
    // halves first, then single items
    for side in 0..2 {
        let n = if side == 0 { s.editor.len() } else { s.server.len() };
        let mut w = n / 2;
        while w >= 1 {
            for a in (0..n).step_by(w).rev() {
                let b = (a + w).min(n);
                push(&mut o, move |c| {
                    let v = if side == 0 { &mut c.editor } else { &mut c.server };
                    v.drain(a..b);
                });
            }
            w /= 2;
        }
        if n == 1 {
            push(&mut o, move |c| if side == 0 { c.editor.clear() } else { c.server.clear() });
        }
    }
    push(&mut o, move |c| c.stderr.clear());
    for k in 0..s.stderr.len() {
        push(&mut o, move |c| {
            c.stderr.remove(k);
        });
    }
    push(&mut o, move |c| {
        if let OnEof::ExitAfter { last, .. } = &mut c.server_eof {
            last.clear()
        }
    });
    push(&mut o, move |c| c.knobs = Knobs { delay_budget_us: c.knobs.delay_budget_us, ..Default::default() });
    for f in [
        |k: &mut Knobs| k.p_yield = 0,
        |k: &mut Knobs| k.p_short_read = 0,
        |k: &mut Knobs| k.p_short_write = 0,
        |k: &mut Knobs| k.p_notready = 0,
        |k: &mut Knobs| k.p_delay = 0,
        |k: &mut Knobs| k.p_eintr = 0,
    ] {
        push(&mut o, move |c| f(&mut c.knobs));
    }
    push(&mut o, move |c| c.caps = [65536; 5]);
    push(&mut o, move |c| c.editor_read = Reading::eager());
    push(&mut o, move |c| c.server_read = Reading::eager());
    push(&mut o, move |c| c.args.clear());
    for k in s.env.keys() {
        if k.starts_with("WHIPPY") || k == "RUST_LOG" {
            let k = k.clone();
            push(&mut o, move |c| {
                c.env.remove(&k);
            });
        }
    }
    for k in 0..s.installs.len() {
        push(&mut o, move |c| {
            c.installs.remove(k);
        });
    }
    push(&mut o, move |c| c.stderr_close_us = None);
    push(&mut o, move |c| c.editor_closes_stderr_us = None);
    push(&mut o, move |c| c.server_end = ServerEnd::Stay);
    push(&mut o, move |c| c.editor_end = EditorEnd::Stay);
    push(&mut o, move |c| {
        if let ServerEnd::Exit { delay_us, linger_us, .. } = &mut c.server_end {
            *delay_us = 0;
            *linger_us = 0;
        }
    });
    push(&mut o, move |c| {
        if let EditorEnd::CloseStdin { delay_us } | EditorEnd::CloseAll { delay_us } = &mut c.editor_end {
            *delay_us = 0
        }
    });
    push(&mut o, move |c| {
        if let EditorEnd::CloseAll { delay_us } = c.editor_end {
            c.editor_end = EditorEnd::CloseStdin { delay_us }
        }
    });
    let each: [fn(&mut Item); 4] = [
        |i| {
            i.chunks.clear();
            i.gap_us = 0
        },
        |i| i.delay_us = 0,
        |i| i.after_recv = 0,
        |i| {
            if i.good && i.header.is_some() {
                i.header = None
            }
        },
    ];
    for f in each {
        push(&mut o, move |c| {
            c.editor.iter_mut().chain(c.server.iter_mut()).for_each(f);
        });
        for k in 0..s.editor.len() {
            push(&mut o, move |c| f(&mut c.editor[k]));
        }
        for k in 0..s.server.len() {
            push(&mut o, move |c| f(&mut c.server[k]));
        }
    }
    for e in 0..s.stderr.len() {
        push(&mut o, move |c| c.stderr[e].delay_us = 0);
        let n = s.stderr[e].data.len();
        if n > 8 {
            push(&mut o, move |c| {
                c.stderr[e].data.truncate(n / 2);
            });
        }
    }
    // message texts: whole pieces out of the middle
    for side in 0..2 {
        let v = if side == 0 { &s.editor } else { &s.server };
        for (k, it) in v.iter().enumerate() {
            if let (Body::Text(t), None, None) = (&it.body, &it.header, &it.header_raw) {
                for (a, b) in spans(t.chars().count()) {
                    push(&mut o, move |c| {
                        let v = if side == 0 { &mut c.editor } else { &mut c.server };
                        if let Body::Text(t) = &v[k].body {
                            let t2: String = t.chars().take(a).chain(t.chars().skip(b)).collect();
                            v[k].body = Body::Text(t2);
                        }
                        if let Some(cut) = v[k].cut {
                            let w = {
                                let mut u = v[k].clone();
                                u.cut = None;
                                u.wire().len()
                            };
                            v[k].cut = Some(cut.min(w.saturating_sub(1) as u32));
                        }
                    });
                }
            }
        }
    }
    o
}

fn spans(n: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut w = n / 2;
    let floor = (n / 48).max(1);
    while w >= floor && w > 0 {
        let mut a = 0;
        while a < n {
            let b = (a + w).min(n);
            out.push((a, b));
            a += w;
        }
        w /= 2;
    }
    out
}

/// Pieces of so many bytes to leave out.
fn pieces(n: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut w = n / 2;
    let floor = (n / 64).max(1);
    while w >= floor && w > 0 {
        out.extend((0..n).step_by(w).map(|a| (a, (a + w).min(n))));
        w /= 2;
    }
    out
}

/// Edits, not edited copies: the text may have millions of bytes.
fn pretty(s: &Pretty) -> Vec<Box<dyn FnOnce(&mut Pretty)>> {
    let mut o: Vec<Box<dyn FnOnce(&mut Pretty)>> = vec![];
    // the text and the way it arrives shrink together
    fn total(c: &mut Pretty) {
        c.text = c.stdin.iter().filter_map(|e| if let InKind::Data(d) = &e.kind { Some(&d[..]) } else { None }).flatten().copied().collect();
    }
    if s.stdin.is_empty() {
        for (a, b) in pieces(s.text.len()) {
            o.push(Box::new(move |c| {
                c.text.drain(a..b);
            }));
        }
    } else {
        o.push(Box::new(|c| c.stdin = vec![]));
        let n = s.stdin.len();
        let mut w = n / 2;
        while w >= 2 && w >= n / 64 {
            for a in (0..n).step_by(w).rev() {
                o.push(Box::new(move |c| {
                    c.stdin.drain(a..(a + w).min(n));
                    total(c);
                }));
            }
            w /= 2;
        }
        for k in 0..n.min(60) {
            o.push(Box::new(move |c| {
                c.stdin.remove(k);
                total(c);
            }));
            if k + 1 < n {
                o.push(Box::new(move |c| {
                    if let (InKind::Data(a), InKind::Data(b)) = (&c.stdin[k].kind, &c.stdin[k + 1].kind) {
                        c.stdin[k].kind = InKind::Data([&a[..], &b[..]].concat());
                        c.stdin.remove(k + 1);
                    }
                }));
            }
            if let InKind::Data(d) = &s.stdin[k].kind {
                for (a, b) in pieces(d.len()).into_iter().take(40) {
                    o.push(Box::new(move |c| {
                        if let InKind::Data(d) = &mut c.stdin[k].kind {
                            d.drain(a..b);
                        }
                        total(c);
                    }));
                }
            }
        }
        o.push(Box::new(|c| c.stdin.iter_mut().for_each(|e| e.delay_us = 0)));
    }
    o.push(Box::new(|c| c.sink = SinkFaults { fail_after: c.sink.fail_after, ..Default::default() }));
    o.push(Box::new(|c| c.sink.fail_after = None));
    o.push(Box::new(|c| c.env.clear()));
    for k in 0..s.flags.len() {
        o.push(Box::new(move |c| {
            c.flags.remove(k);
        }));
    }
    o.push(Box::new(|c| {
        if let Some(f) = &mut c.file {
            f.chunk = 0;
            f.p_eintr = 0;
        }
    }));
    o
}

pub fn candidates(s: &Scenario) -> Box<dyn Iterator<Item = Scenario>> {
    match s {
        Scenario::Lsp(x) => {
            let x = x.clone();
            Box::new(lsp(&x).into_iter().filter_map(move |f| {
                let mut c = x.clone();
                f(&mut c);
                (c != x).then_some(Scenario::Lsp(c))
            }))
        }
        Scenario::Pretty(x) => {
            let x = x.clone();
            Box::new(pretty(&x).into_iter().filter_map(move |f| {
                let mut c = x.clone();
                f(&mut c);
                (c != x).then_some(Scenario::Pretty(c))
            }))
        }
        Scenario::Serde(x) => Box::new(crate::serdeworld::shrink(x).into_iter().map(Scenario::Serde)),
        Scenario::Macro(x) => Box::new(crate::macroworld::shrink(x).into_iter().map(Scenario::Macro)),
    }
}

pub fn minimise(prop: &str, class: &str, sc: &Scenario, budget: Duration) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut solo = Solo::default();
    let mut best = sc.clone();
    let mut tried = 0;
    'again: loop {
        for c in candidates(&best) {
            if t0.elapsed() > budget {
                break 'again;
            }
            tried += 1;
            if fails(prop, class, &c, &mut solo) {
                best = c;
                continue 'again;
            }
        }
        break;
    }
    (best, tried)
}
