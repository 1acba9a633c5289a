//! Random worlds and oracles for the compiler-output filter.
use crate::frames::show;
use crate::msggen;
use crate::prettyworld::*;
use crate::verdict::Verdict;
use simrt::ctx::*;
use simrt::rng::Rng;
use std::collections::BTreeMap;

const MS: u64 = 1000;
/// What the filter may hold however short the lines are, and for each byte of the longest.
const HELD: u64 = 2 << 20;
const PER_BYTE: u64 = 64;

fn line(r: &mut Rng, wild: bool) -> String {
    let q = |r: &mut Rng| msggen::qtype(r, wild);
    let s = match r.below(16) {
        0 => "error[E0308]: mismatched types".to_string(),
        1 => String::new(),
        2 => format!("  --> src/größe.rs:{}:{}", r.below(100), r.below(80)),
        3 | 4 => format!("   |         ^ expected `{}`, found `{{float}}`", q(r)),
        5 | 6 => format!("  = note: expected struct `{}`\n", q(r)).trim_end().to_string(),
        7 => format!("expected `{}`, found `{}`", q(r), q(r)),
        8 => msggen::qcode(r, wild).replace(['\n', '\r'], " "),
        9 => msggen::words(r, 5).replace(['\n', '\r'], " "),
        10 => format!("\u{1b}[0m\u{1b}[1m\u{1b}[38;5;9merror\u{1b}[0m {}", q(r)),
        11 => match r.below(6) {
            0 => "x".repeat(r.range(8_000, 20_000) as usize),
            1 => "長".repeat(r.range(3_000, 30_000) as usize),
            2 => format!("{} {}", "pad ".repeat(r.range(2_000, 4_000) as usize), q(r)),
            _ => "\t".into(),
        },
        12 => "Quantity of nothing, on a Scale without Dimension".into(),
        13 => format!("Option<{}>", q(r)),
        14 => "warning: unused variable: `x`".into(),
        _ => format!("{}", r.below(1_000_000)),
    };
    let s = s.replace('\u{0}', "");
    // what a careless reader takes for something else than a part of the line
    if r.below(14) > 0 {
        return s;
    }
    let odd = ["\u{feff}", " ", "   ", "\t", "\u{c}", "\u{b}", "\u{85}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{a0}", "```", "```rust", "\u{1a}", "\u{8}", "#", "//", "> "];
    let o = r.pick(&odd).to_string();
    match r.below(3) {
        0 => o + &s,
        1 => s + &o,
        _ => o,
    }
}

fn text(r: &mut Rng, wild: bool, max: u64) -> Vec<u8> {
    // now and then a long text: what only shows after many lines
    let many = r.below(300) == 0;
    let n = if many { r.range(300, 3000) } else { r.below(max + 1) };
    let mut t = Vec::new();
    let style = r.below(4);
    let mut had: Vec<String> = vec![];
    if n > 0 && r.below(30) == 0 {
        t.extend_from_slice("\u{feff}".as_bytes());
    }
    for i in 0..n {
        if many && i > 20 && r.below(20) > 0 {
            let l = if r.below(4) == 0 { format!("{}", i) } else { had[r.usize(20)].chars().take(300).collect() };
            t.extend_from_slice(l.as_bytes());
            t.push(b'\n');
            continue;
        }
        let l = match r.below(8) {
            // an earlier line again, or nearly so
            0 if i > 0 => had[r.usize(had.len())].clone(),
            1 if i > 0 => {
                let k = r.usize(had.len());
                msggen::twin(r, &had[k].clone())
            }
            _ => line(r, wild),
        };
        had.push(l.clone());
        t.extend_from_slice(l.as_bytes());
        let last = i + 1 == n;
        if last && r.below(3) == 0 {
            if r.below(8) == 0 {
                t.push(b'\r');
            }
            break;
        }
        match (style, r.below(10)) {
            (0, _) | (2, 0) => t.extend_from_slice(b"\r\n"),
            (3, 0) => t.extend_from_slice(b"\r\r\n"),
            _ => t.push(b'\n'),
        }
    }
    t
}

/// Cut the text into the reads the filter will see.
fn deliver(r: &mut Rng, t: &[u8], faulty: bool) -> Vec<InEv> {
    let mut evs = vec![];
    let mut off = 0;
    let mode = if faulty { r.below(5) } else { 0 };
    while off < t.len() {
        let left = t.len() - off;
        let n = match mode {
            0 => left,
            1 => (r.skewed(5) as usize).min(left),
            2 => (r.skewed(200) as usize).min(left),
            3 => {
                // line by line, sometimes stopping just short of the end of the line or just past it
                let k = t[off..].iter().position(|c| *c == b'\n').map(|k| k + 1).unwrap_or(left);
                match r.below(4) {
                    0 if k > 1 => k - 1,
                    1 => (k + 1).min(left),
                    _ => k,
                }
            }
            _ => (r.skewed(9000) as usize).min(left),
        };
        let n = if evs.len() > 3000 { left } else { n };
        if faulty && r.below(12) == 0 {
            evs.push(InEv { delay_us: r.below(MS), kind: InKind::Eintr });
        }
        evs.push(InEv {
            delay_us: match r.below(3) {
                0 => 0,
                1 => r.below(MS),
                _ => r.below(2000 * MS),
            },
            kind: InKind::Data(t[off..off + n].to_vec()),
        });
        off += n;
    }
    if faulty && r.below(6) == 0 {
        evs.push(InEv { delay_us: r.below(MS), kind: InKind::Eintr });
    }
    evs
}

fn sink(r: &mut Rng, faulty: bool) -> SinkFaults {
    let mut s = SinkFaults::default();
    if faulty {
        if r.below(2) == 0 {
            s.p_short = r.range(10, 900) as u32;
        }
        if r.below(2) == 0 {
            s.p_eintr = r.range(10, 300) as u32;
        }
    }
    s
}

fn flags(r: &mut Rng) -> Vec<String> {
    let mut f = vec![];
    for (a, b) in [("-v", "--verbose"), ("-n", "--no-unicode"), ("-r", "--include-raw"), ("-d", "--debug")] {
        if r.below(3) == 0 {
            f.push(if r.below(2) == 0 { a.to_string() } else { b.to_string() });
        }
    }
    f
}

pub fn generate(prop: &str, seed: u64, faulty: bool) -> Pretty {
    let mut rr = Rng::stream(seed, prop);
    let r = &mut rr;
    let mut env = BTreeMap::new();
    if r.below(4) == 0 {
        env.insert("RUST_LOG".to_string(), r.pick(&["debug", "trace", "info"]).to_string());
    }
    let wild = r.below(2) == 0;
    let t = text(r, wild, 14);
    let mut p = Pretty {
        seed,
        flags: flags(r),
        env,
        stdin: deliver(r, &t, faulty),
        text: t,
        file: None,
        file_missing: false,
        sink: sink(r, faulty),
    };
    let vfile = |r: &mut Rng| {
        Some(VFile {
            content: vec![],
            open_errno: 0,
            read_err_at: None,
            chunk: if faulty { *r.pick(&[1, 3, 100, 4096, 0]) } else { 0 },
            p_eintr: if faulty && r.below(2) == 0 { 200 } else { 0 },
        })
    };
    match prop {
        "C01" | "C02" => {}
        "C03" => {
            let n = p.text.len() as u64;
            if r.below(3) == 0 {
                p.file = vfile(r);
            }
            // fault-free runs check the other half: success is reported when all is written
            if faulty {
                match r.below(6) {
                    0 | 1 => {
                        let full = 2 * n + 10;
                        let at = match r.below(4) {
                            0 => 0,
                            1 => r.below(20),
                            _ => r.below(full),
                        };
                        p.sink.fail_after = Some((at, *r.pick(&[28, 32, 5, 27])));
                    }
                    2 => {
                        // bytes that are no text
                        if n > 0 {
                            let k = r.below(n) as usize;
                            p.text[k] = *r.pick(&[0xff, 0xc0, 0x80, 0xf8]);
                            p.stdin = deliver(r, &p.text.clone(), true);
                        }
                    }
                    3 => {
                        if let Some(f) = &mut p.file {
                            f.read_err_at = Some((r.below(n + 1), 5));
                        } else {
                            let k = r.usize(p.stdin.len() + 1);
                            p.stdin.insert(k, InEv { delay_us: r.below(MS), kind: InKind::Err(*r.pick(&[5, 9, 11])) });
                        }
                    }
                    4 => {
                        if p.file.is_some() || r.below(2) == 0 {
                            p.stdin.clear();
                            if r.below(2) == 0 {
                                p.file = None;
                                p.file_missing = true;
                            } else {
                                let mut f = vfile(r).unwrap();
                                f.open_errno = *r.pick(&[13, 24, 5]);
                                p.file = Some(f);
                            }
                        }
                    }
                    _ => {
                        // the last bytes cannot be written
                        p.sink.fail_after = Some((n.saturating_sub(1 + r.below(6)), *r.pick(&[28, 32])));
                    }
                }
            }
        }
        "C04" => {
            p.file = vfile(r);
            p.stdin.clear();
        }
        "C05" => {
            // a stream far longer than what the filter may hold of it
            let kinds: Vec<String> = (0..30)
                .map(|_| loop {
                    let l = line(r, wild);
                    if l.len() < 2000 {
                        return l;
                    }
                })
                .collect();
            // (or a stream of many short lines: what each leaves behind adds up)
            let short = r.below(6) == 0;
            let total = r.range(4_000_000, 9_000_000) as usize;
            let total = if short { total / 20 } else { total };
            let odd = r.below(3);
            let width = if short { 1 } else { r.range(10, 3000) };
            // every line another quantity type: what is kept for each of them shows
            let (distinct, total) = if r.below(4) == 0 { (true, total / 2) } else { (false, total) };
            p.text.clear();
            let mut i = 0u64;
            while p.text.len() < total {
                i += 1;
                if distinct && r.below(4) > 0 {
                    let mut e = || r.below(199) as i64 - 99;
                    let t = format!(
                        "Quantity<Scale<_2<{0}>, _3<0>, _5<{0}>, _Pi<0>>, Dimension<_M<{1}>, _L<{2}>, _T<{3}>, _I<0>, _Θ<0>, _N<0>, _J<0>, _A<0>>, f64>",
                        e() % 10,
                        e(),
                        e(),
                        e()
                    );
                    p.text.extend_from_slice(format!("expected `{}`, found {} {}", t, i, "z".repeat(width as usize / 2)).as_bytes());
                } else if i % 40 == 0 || odd == 0 && r.below(30) == 0 {
                    p.text.extend_from_slice(r.pick(&kinds).as_bytes());
                } else {
                    p.text.extend_from_slice(format!("{} {}", i, "y".repeat(width as usize)).as_bytes());
                }
                p.text.push(b'\n');
            }
            p.stdin.clear();
            let mut off = 0;
            let big = if faulty { r.range(500, 200_000) } else { u64::MAX };
            while off < p.text.len() {
                if short {
                    // whole lines only, so that what is held between them is nothing
                    let n = (p.text.len() - off).min(20_000);
                    let n = off + n + p.text[off + n..].iter().position(|c| *c == b'\n').map_or(p.text.len() - off - n, |k| k + 1);
                    p.stdin.push(InEv { delay_us: 0, kind: InKind::Data(p.text[off..n].to_vec()) });
                    off = n;
                    continue;
                }
                let n = (r.range(1, big) as usize).min(p.text.len() - off);
                let n = if p.stdin.len() > 3000 { p.text.len() - off } else { n };
                p.stdin.push(InEv { delay_us: if r.below(4) == 0 { r.below(MS) } else { 0 }, kind: InKind::Data(p.text[off..off + n].to_vec()) });
                off += n;
            }
        }
        x => panic!("no generator for {}", x),
    }
    p
}

fn split_lines(t: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
    let terminated = t.last() == Some(&b'\n') || t.is_empty();
    if terminated {
        v.pop();
    }
    let n = v.len();
    v.into_iter()
        .enumerate()
        .map(|(i, l)| if (i + 1 < n || terminated) && l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l })
        .collect()
}

type Solo<'a> = dyn FnMut(&Pretty) -> Option<PrettyRun> + 'a;

/// What the filter makes of one line on its own.
fn alone(p: &Pretty, l: &[u8], solo: &mut Solo) -> Option<Vec<u8>> {
    let mut q = p.clone();
    q.seed = 7;
    q.env = BTreeMap::new();
    q.flags.retain(|f| f != "-d" && f != "--debug");
    q.text = l.to_vec();
    q.text.extend_from_slice(if l.last() == Some(&b'\r') { b"\r\n" } else { b"\n" });
    q.file = None;
    q.file_missing = false;
    q.stdin = vec![];
    q.sink = SinkFaults::default();
    let r = solo(&q)?;
    if r.code != Some(0) || r.out.last() != Some(&b'\n') {
        return None;
    }
    Some(r.out[..r.out.len() - 1].to_vec())
}

pub fn judge(prop: &str, p: &Pretty, r: &PrettyRun, solo: &mut Solo) -> Verdict {
    let mut v = Verdict::default();
    if r.hung {
        v.bad("hang", "the filter does not end after its input has ended".into());
        return v;
    }
    let mentions = |l: &[u8]| l.windows(8).any(|w| w == b"Quantity");
    if prop == "C05" {
        let longest = split_lines(&p.text).iter().map(|l| l.len() as u64).max().unwrap_or(0);
        let may = HELD + PER_BYTE * longest;
        if r.peak > may {
            v.bad("memory", format!("the filter held {} bytes at once; the longest of its lines has {}, all {} bytes passed through", r.peak, longest, r.out.len()));
        }
        // whenever it has finished all lines it was given
        let idle: Vec<(u64, u64)> = r
            .snaps
            .iter()
            .zip(&r.live)
            .filter(|(s, _)| s.0 > 0 && p.text.get(s.0 as usize - 1) == Some(&b'\n'))
            .map(|(s, l)| (s.0, *l))
            .collect();
        if let Some(last) = idle.last() {
            let first = idle.iter().find(|i| i.0 >= last.0 / 3).unwrap();
            let n = p.text[first.0 as usize..last.0 as usize].iter().filter(|c| **c == b'\n').count() as u64;
            if last.1 > first.1 + 4096 + 4 * longest + 2 * n {
                v.bad("left-behind", format!("the filter held {} bytes between two lines, and {} bytes {} lines later", first.1, last.1, n));
            }
            v.probe_if(n > 5000, "reach.many_lines_between_two_looks");
        }
        if r.code != Some(0) {
            v.bad("status", format!("exit status {:?} without any failure; stderr: {}", r.code, show(&r.stderr_program)));
        }
        v.probe_if(p.text.windows(10).filter(|w| *w == b"Quantity<S").count() > 1000, "reach.many_distinct_types");
        v.probe_if(r.out.len() as u64 > 2 * may, "reach.carried_far_more_than_may_be_held");
        v.nontrivial = r.out.len() as u64 > may || idle.len() > 5;
        return v;
    }
    // the fault-free output, line by line; ends of lines as offsets
    let lines = split_lines(&p.text);
    let mut want: Vec<u8> = vec![];
    let mut marks = vec![];
    let mut undecodable = false;
    let mut converted = false;
    if prop != "C04" {
        for l in &lines {
            if std::str::from_utf8(l).is_err() {
                undecodable = true;
                break;
            }
            if mentions(l) {
                match alone(p, l, solo) {
                    Some(o) => {
                        converted |= o != *l;
                        if o != *l && !l.windows(9).any(|w| w == b"Quantity<") {
                            v.bad("altered", format!("a line without a quantity type was altered: {} became {}", show(l), show(&o)));
                        }
                        want.extend_from_slice(&o)
                    }
                    None => {
                        v.bad("line-refused", format!("the filter fails on this line alone: {}", show(l)));
                        return v;
                    }
                }
            } else {
                want.extend_from_slice(l);
            }
            want.push(b'\n');
            marks.push(want.len());
        }
    }
    v.probe_if(converted, "reach.line_converted");
    v.probe_if(undecodable, "reach.undecodable_input");
    let diff = |a: &[u8], b: &[u8]| {
        let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        let s = k.saturating_sub(20);
        format!("they differ from byte {}: wanted …{}, got …{}", k, show(&a[s.min(a.len())..]), show(&b[s.min(b.len())..]))
    };
    match prop {
        "C01" => {
            if r.code != Some(0) {
                v.bad("status", format!("exit status {:?} without any failure; stderr: {}", r.code, show(&r.stderr_program)));
            }
            if r.out != want {
                v.bad("output", format!("the output is not the lines' conversions: {}", diff(&want, &r.out)));
            }
            v.nontrivial = lines.len() > 1;
        }
        "C02" => {
            for (input, output) in &r.snaps {
                // complete lines in what had been delivered
                let k = p.text[..(*input as usize).min(p.text.len())].iter().filter(|c| **c == b'\n').count();
                let need = if k == 0 { 0 } else { marks.get(k - 1).copied().unwrap_or(usize::MAX) };
                if (*output as usize) < need {
                    v.bad("held-back", format!("after {} input bytes ({} complete lines) the filter waited for more with {} of {} output bytes visible", input, k, output, need));
                    break;
                }
            }
            v.probe_if(r.snaps.len() > 2, "reach.waited_for_input");
            v.nontrivial = r.snaps.len() > 1 && !marks.is_empty();
        }
        "C03" => {
            let fired = |k: &str| r.counters.get(k).copied().unwrap_or(0) > 0;
            let input_fault = fired("fault.stdin_error") || fired("fault.file_error") || fired("fault.file_open_error") || p.file_missing || undecodable;
            let file_mode = p.file.is_some() || p.file_missing;
            let full: &[u8] = if file_mode && want.last() == Some(&b'\n') { &want[..want.len() - 1] } else { &want };
            let complete = r.out == want || r.out == full;
            if r.code == Some(0) {
                if input_fault {
                    v.bad("false-success", "success was reported although the input could not be read".into());
                } else if !complete {
                    v.bad("false-success", format!("success was reported although {} of {} bytes were written", r.out.len(), full.len()));
                }
            } else if !input_fault && !fired("fault.stdout_error") {
                v.bad("status", format!("exit status {:?} without any failure; stderr: {}", r.code, show(&r.stderr_program)));
            }
            if !want.starts_with(&r.out) {
                v.bad("not-prefix", format!("what was written is no prefix of the fault-free output: {}", diff(&want, &r.out)));
            }
            v.probe_if(r.code != Some(0), "reach.failure_reported");
            v.nontrivial = input_fault || fired("fault.stdout_error");
        }
        "C04" => {
            let mut q = p.clone();
            q.file = None;
            q.stdin = vec![];
            q.sink = SinkFaults::default();
            if let Some(s) = solo(&q) {
                if s.code != r.code {
                    v.bad("status", format!("file mode ends with {:?}, stream mode with {:?}", r.code, s.code));
                } else if r.code == Some(0) {
                    let trimmed = s.out.strip_suffix(b"\n").unwrap_or(&s.out);
                    if r.out != s.out && r.out != trimmed {
                        v.bad("output", format!("file and stream mode differ: {}", diff(&s.out, &r.out)));
                    }
                }
                v.nontrivial = lines.len() > 1;
            }
        }
        x => panic!("no oracle for {}", x),
    }
    v
}
