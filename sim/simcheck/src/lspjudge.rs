//! Oracles over a finished run of the language-server proxy.
use crate::frames::{parse, show, Frame, Parsed};
use crate::lspworld::*;
use crate::verdict::Verdict;
use serde_json::Value;

const S: u64 = 1_000_000;
/// What the proxy may hold however small the messages are, and for each byte of the longest messages (a parsed message
/// takes several times its text).
const HELD: u64 = 2 << 20;
const PER_BYTE: u64 = 32;

fn mentions(body: &[u8]) -> bool {
    body.windows(8).any(|w| w == b"Quantity")
}

fn json(b: &[u8]) -> Option<Value> {
    serde_json::from_slice(b).ok()
}

/// Items of a script whose last byte was accepted by the pipe.
fn sent<'a>(items: &'a [Item], when: &[Option<u64>]) -> Vec<(&'a Item, u64)> {
    items.iter().zip(when).filter(|(i, w)| w.is_some() && i.complete()).map(|(i, w)| (i, w.unwrap())).collect()
}

fn framing(v: &mut Verdict, who: &str, p: &Parsed) {
    if let Some(e) = &p.error {
        v.bad("framing", format!("what was written to the {} is not correctly framed after {} messages: {}", who, p.frames.len(), e));
    }
}

/// to_server must be exactly `want` (bodies), with nothing else.
fn exact(v: &mut Verdict, who: &str, frames: &[Frame], want: &[(&Item, u64)]) {
    for (i, (it, _)) in want.iter().enumerate() {
        match frames.get(i) {
            None => {
                v.bad("lost", format!("message {} of {} ({}) never reached the {}", i + 1, want.len(), show(it.body.bytes()), who));
                return;
            }
            Some(f) if f.body != it.body.bytes() => {
                v.bad("altered", format!("message {} reached the {} as {} instead of {}", i + 1, who, show(&f.body), show(it.body.bytes())));
                return;
            }
            _ => {}
        }
    }
    if frames.len() > want.len() {
        v.bad("extra", format!("the {} received {} messages, {} were sent; extra: {}", who, frames.len(), want.len(), show(&frames[want.len()].body)));
    }
}

/// May this delivered body stand for that sent body?
fn corresponds(body: &[u8], it: &Item) -> bool {
    let orig = it.body.bytes();
    if body == orig {
        return true;
    }
    if !mentions(orig) {
        return false;
    }
    match (json(orig), json(body)) {
        (Some(a), Some(b)) => a.get("id") == b.get("id") && a.get("method") == b.get("method"),
        (None, _) => false,
        _ => false,
    }
}

fn loosely(v: &mut Verdict, frames: &[Frame], want: &[(&Item, u64)], all: bool) {
    for (i, (it, _)) in want.iter().enumerate() {
        match frames.get(i) {
            None => {
                if all {
                    v.bad("lost", format!("message {} of {} ({}) never reached the editor", i + 1, want.len(), show(it.body.bytes())));
                }
                return;
            }
            Some(f) if !corresponds(&f.body, it) => {
                v.bad("altered", format!("message {} reached the editor as {} instead of {}", i + 1, show(&f.body), show(it.body.bytes())));
                return;
            }
            _ => {}
        }
    }
    if frames.len() > want.len() {
        v.bad("extra", format!("the editor received {} messages, {} were sent; extra: {}", frames.len(), want.len(), show(&frames[want.len()].body)));
    }
}

fn no_rest(v: &mut Verdict, who: &str, p: &Parsed) {
    if !p.rest.is_empty() && p.error.is_none() {
        v.bad("leftover", format!("the {} is left with an incomplete message: {}", who, show(&p.rest)));
    }
}

fn livelock(v: &mut Verdict, r: &LspRun) {
    if r.livelock {
        v.bad("livelock", "the program spins without making progress".into());
    }
}

fn ended_by(v: &mut Verdict, r: &LspRun, from: Option<u64>, why: &str) {
    let Some(t) = from else { return };
    if r.hung || r.code.is_none() {
        v.bad("hang", format!("the proxy is still running long after {} at {} us", why, t));
    } else if r.ended_at > t + 60 * S {
        v.bad("slow-end", format!("the proxy ended {} s after {}", (r.ended_at - t) / S, why));
    }
}

pub fn judge(prop: &str, sc: &Lsp, r: &LspRun, solo: &mut dyn FnMut(&Lsp) -> Option<LspRun>) -> Verdict {
    let mut v = Verdict::default();
    let ps = parse(&r.to_server.bytes);
    let pe = parse(&r.to_editor.bytes);
    let es = sent(&sc.editor, &r.editor_sent);
    let mut ss = sent(&sc.server, &r.server_sent);
    ss.extend(sent(sc.last_items(), &r.last_sent));
    livelock(&mut v, r);
    if prop != "L13" && r.servers_started != 1 {
        v.bad("no-server", format!("{} servers were started", r.servers_started));
        return v;
    }
    v.probe_if(!ps.frames.is_empty(), "reach.message_to_server");
    v.probe_if(!pe.frames.is_empty(), "reach.message_to_editor");
    v.probe_if(pe.frames.iter().zip(&ss).any(|(f, (i, _))| f.body != i.body.bytes()), "reach.message_rewritten");
    v.probe_if(r.hung, "reach.session_kept_open");
    v.probe_if(!r.panics.is_empty(), "reach.program_panicked");
    v.probe_if(r.server_killed_at.is_some(), "reach.server_killed_by_proxy");
    v.nontrivial = !ps.frames.is_empty() || !pe.frames.is_empty();
    match prop {
        "L01" => {
            framing(&mut v, "server", &ps);
            exact(&mut v, "server", &ps.frames, &es);
            no_rest(&mut v, "server", &ps);
            // the server is there for as long as there is somebody to serve, so everything can be sent
            if sc.server_end == ServerEnd::Stay && es.len() < sc.editor.iter().filter(|i| i.complete()).count() {
                v.bad("not-taken", format!("the proxy took {} of the editor's {} messages (exit status {:?} at {} us)", es.len(), sc.editor.len(), r.code, r.ended_at));
            }
            v.nontrivial = es.len() > 1;
        }
        "L02" => {
            framing(&mut v, "editor", &pe);
            loosely(&mut v, &pe.frames, &ss, true);
            no_rest(&mut v, "editor", &pe);
            if sc.editor_end == EditorEnd::Stay && ss.len() < sc.server.iter().filter(|i| i.complete()).count() {
                v.bad("not-taken", format!("the proxy took {} of the server's {} messages (exit status {:?} at {} us)", ss.len(), sc.server.len(), r.code, r.ended_at));
            }
            v.nontrivial = ss.len() > 1;
        }
        "L03" => {
            framing(&mut v, "editor", &pe);
            framing(&mut v, "server", &ps);
            // every complete frame stands for a message that was really sent, in its place
            let all_s: Vec<(&Item, u64)> = sc.server.iter().chain(sc.last_items()).map(|i| (i, 0)).collect();
            let all_e: Vec<(&Item, u64)> = sc.editor.iter().map(|i| (i, 0)).collect();
            framed_exactly(&mut v, "editor", &pe, &all_s);
            framed_exactly(&mut v, "server", &ps, &all_e);
            let editor_gone = matches!(sc.editor_end, EditorEnd::CloseAll { .. });
            let cut = |items: &[Item]| items.iter().any(|i| i.cut.is_some());
            if !editor_gone && r.server_killed_at.is_none() && !cut(&sc.server) {
                no_rest(&mut v, "editor", &pe);
            }
            if r.server_exit_at.is_none() && !cut(&sc.editor) {
                no_rest(&mut v, "server", &ps);
            }
        }
        "L04" => {
            framing(&mut v, "editor", &pe);
            let opts = Opts::of(sc);
            for (i, (it, _)) in ss.iter().enumerate() {
                let Some(f) = pe.frames.get(i) else {
                    v.bad("lost", format!("message {} never reached the editor", i + 1));
                    break;
                };
                if f.body == it.body.bytes() {
                    continue;
                }
                v.probe("reach.rewrite_compared");
                if let Err((class, e)) = same_message(it.text(), &f.body, &opts) {
                    v.bad(&class, format!("{}\n  sent:      {}\n  delivered: {}", e, it.text(), String::from_utf8_lossy(&f.body)));
                    break;
                }
            }
            v.nontrivial = pe.frames.iter().zip(&ss).any(|(f, (i, _))| f.body != i.body.bytes());
        }
        "L05" => {
            framing(&mut v, "editor", &pe);
            framing(&mut v, "server", &ps);
            exact(&mut v, "server", &ps.frames, &es);
            if es.len() < sc.editor.len() || ss.len() < sc.server.len() {
                v.bad("wedged", "the proxy stopped reading from one of its peers".into());
            }
            if pe.frames.len() != ss.len() {
                let k = pe.frames.len().min(ss.len().saturating_sub(1));
                v.bad("lost", format!("{} of {} messages reached the editor; the first missing or extra one is near {}", pe.frames.len(), ss.len(), show(ss[k].0.body.bytes())));
            } else {
                for (f, (it, _)) in pe.frames.iter().zip(&ss) {
                    if !mentions(it.body.bytes()) && f.body != it.body.bytes() {
                        v.bad("poisoned", format!("a later message arrived as {} instead of {}", show(&f.body), show(it.body.bytes())));
                        break;
                    }
                }
            }
            no_rest(&mut v, "editor", &pe);
            no_rest(&mut v, "server", &ps);
            if !r.hung {
                v.bad("ended", format!("the session ended (code {:?}) though both peers were still there", r.code));
            }
        }
        "L06" => {
            framing(&mut v, "editor", &pe);
            framing(&mut v, "server", &ps);
            if es.len() < sc.editor.len() || ss.len() < sc.server.len() {
                v.bad("wedged", "the proxy stopped reading from one of its peers".into());
            }
            exact(&mut v, "server", &ps.frames, &es);
            loosely(&mut v, &pe.frames, &ss, true);
            v.nontrivial = sc.server.iter().chain(&sc.editor).any(|i| i.header.is_some());
        }
        "L07" => {
            framing(&mut v, "editor", &pe);
            loosely(&mut v, &pe.frames, &ss, true);
            if !pe.rest.is_empty() && pe.error.is_none() && !sc.server.iter().any(|i| i.cut.is_some()) {
                no_rest(&mut v, "editor", &pe);
            }
            ended_by(&mut v, r, r.server_exit_at, "the server's exit");
            v.probe_if(r.server_exit_at.is_some() && r.editor_closed_at.is_none(), "reach.server_exited_while_editor_stayed");
            v.nontrivial = r.server_exit_at.is_some() && !ss.is_empty();
        }
        "L08" => {
            let Some(closed) = r.editor_closed_at else {
                v.bad("wedged", "the proxy stopped reading from the editor before it could close".into());
                return v;
            };
            framing(&mut v, "server", &ps);
            exact(&mut v, "server", &ps.frames, &es);
            if r.to_server.eof_at.is_none() && r.server_killed_at.is_none() {
                v.bad("no-eof", "the server never saw the end of its input".into());
            }
            let all = matches!(sc.editor_end, EditorEnd::CloseAll { .. });
            if let OnEof::ExitAfter { .. } = &sc.server_eof {
                if r.server_killed_at.is_some() {
                    v.bad("cut-short", format!("the server was killed at {:?} us while it was winding down after the end of its input at {:?} us", r.server_killed_at, r.to_server.eof_at));
                }
                if !all && r.server_killed_at.is_none() {
                    framing(&mut v, "editor", &pe);
                    loosely(&mut v, &pe.frames, &ss, true);
                }
            }
            ended_by(&mut v, r, Some(closed), "the editor closed");
            if r.server_exit_at.is_none() && r.server_killed_at.is_none() {
                v.bad("left-behind", "the server process is still running after the proxy ended".into());
            }
            v.probe_if(matches!(sc.server_eof, OnEof::Ignore), "reach.server_ignores_end_of_input");
            v.probe_if(all, "reach.editor_vanished");
            v.nontrivial = true;
        }
        "L09" => {
            for (who, items, when, p, out) in [
                ("editor", &sc.server, &r.server_sent, &pe, &r.to_editor),
                ("server", &sc.editor, &r.editor_sent, &ps, &r.to_server),
            ] {
                let _ = out;
                framing(&mut v, who, p);
                // messages complete before anything went wrong
                let good: Vec<(&Item, u64)> = items
                    .iter()
                    .zip(when.iter())
                    .take_while(|(i, w)| i.complete() && w.is_some())
                    .map(|(i, w)| (i, w.unwrap()))
                    .collect();
                // what the whole stream contains by the protocol's rules, as far as they go
                let mut stream = vec![];
                for i in items.iter() {
                    stream.extend_from_slice(&i.wire());
                }
                let legal: Vec<Vec<u8>> = lenient_frames(&stream);
                let rewritable = who == "editor";
                for (k, f) in p.frames.iter().enumerate() {
                    if k < good.len() {
                        let ok = if rewritable { corresponds(&f.body, good[k].0) } else { f.body == good[k].0.body.bytes() };
                        if !ok {
                            v.bad("altered", format!("message {} reached the {} as {} instead of {}", k + 1, who, show(&f.body), show(good[k].0.body.bytes())));
                        }
                        continue;
                    }
                    let as_sent = items.iter().any(|i| i.cut.is_none() && (f.body == i.body.bytes() || rewritable && corresponds(&f.body, i)));
                    if !as_sent && !legal.iter().any(|b| *b == f.body) {
                        v.bad("fabricated", format!("the {} received a message that was never sent: {}", who, show(&f.body)));
                    }
                }
                if p.frames.len() > legal.len().max(items.len()) {
                    v.bad("extra", format!("the {} received {} messages", who, p.frames.len()));
                }
                // what preceded the damage arrives, unless the other side's damage ended the session first
                let own_damage_only = {
                    let other = if who == "editor" { &sc.editor } else { &sc.server };
                    other.iter().all(|i| i.complete())
                };
                let server_stayed = r.server_exit_at.is_none() || sc.server_end == ServerEnd::Stay && r.server_killed_at.is_none();
                if own_damage_only && p.frames.len() < good.len() && (who == "editor" || server_stayed) {
                    let early = if who == "editor" { r.editor_closed_at.is_some() } else { false };
                    if !early {
                        v.bad("lost", format!("message {} ({}) preceded the damage but never reached the {}", p.frames.len() + 1, show(good[p.frames.len()].0.body.bytes()), who));
                    }
                }
            }
            if r.editor_closed_at.is_some() || r.server_exit_at.is_some() {
                let t = r.editor_closed_at.into_iter().chain(r.server_exit_at).min();
                ended_by(&mut v, r, t, "the end of a peer's stream");
            }
            let received: u64 = sc.server.iter().chain(&sc.editor).map(|i| i.wire().len() as u64).sum();
            if r.max_alloc > (1 << 20) + 8 * received {
                v.bad("memory", format!("an allocation of {} bytes for {} received bytes", r.max_alloc, received));
            }
            v.nontrivial = sc.server.iter().chain(&sc.editor).any(|i| !i.complete());
        }
        "L10" => {
            framing(&mut v, "editor", &pe);
            for (i, (it, _)) in ss.iter().enumerate() {
                let Some(f) = pe.frames.get(i) else { break };
                if !mentions(it.body.bytes()) {
                    if f.body != it.body.bytes() {
                        v.bad("altered", format!("message {} arrived as {} instead of {}", i + 1, show(&f.body), show(it.body.bytes())));
                        break;
                    }
                    continue;
                }
                // in a long session, the last ones: a lone run each is the expensive part
                if i + 24 < ss.len() && i % 16 != 0 {
                    continue;
                }
                let q = quiet(sc, it);
                let Some(alone) = solo(&q) else { continue };
                let pa = parse(&alone.to_editor.bytes);
                let Some(fa) = pa.frames.first() else { continue };
                v.probe("reach.compared_with_solo_run");
                if fa.body != f.body {
                    v.bad("context", format!("message {} ({}) was delivered as {} but alone in a quiet session as {}", i + 1, show(it.body.bytes()), show(&f.body), show(&fa.body)));
                    break;
                }
            }
            if pe.frames.len() < ss.len() {
                v.bad("lost", format!("{} of {} messages were delivered", pe.frames.len(), ss.len()));
            }
            v.nontrivial = ss.iter().filter(|(i, _)| mentions(i.body.bytes())).count() > 1;
        }
        "L11" => {
            framing(&mut v, "editor", &pe);
            framing(&mut v, "server", &ps);
            let mut want = vec![];
            let mut partial: &[u8] = &[];
            for (e, w) in sc.stderr.iter().zip(&r.stderr_sent) {
                if w.is_some() {
                    want.extend_from_slice(&e.data);
                } else {
                    partial = &e.data;
                    break;
                }
            }
            let got = &r.stderr_program;
            // while the stream is open, a line that has not ended yet may be held back
            if r.hung && sc.stderr_close_us.is_none() && r.server_exit_at.is_none() {
                let line = want.iter().rposition(|c| *c == b'\n').map(|k| k + 1).unwrap_or(0);
                if got.len() < want.len() && want.starts_with(got) && got.len() >= line {
                    want.truncate(got.len());
                    partial = &[];
                }
            }
            if sc.editor_closes_stderr_us.is_none() {
                if got.len() < want.len() || got[..want.len()] != want[..] {
                    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    v.bad("stderr", format!("{} bytes of server diagnostics, {} relayed; they differ from byte {}: wanted {}, got {}", want.len(), got.len(), k, show(&want[k.min(want.len())..]), show(&got[k.min(got.len())..])));
                } else if !partial.starts_with(&got[want.len()..]) {
                    v.bad("stderr", format!("more was relayed than the server wrote: {}", show(&got[want.len()..])));
                }
            }
            // the protocol streams do not notice
            if r.editor_closed_at.is_none() && r.server_exit_at.is_none() {
                if es.len() < sc.editor.len() || ss.len() < sc.server.len() {
                    v.bad("wedged", "the proxy stopped reading from one of its peers".into());
                }
                if !r.hung {
                    v.bad("ended", format!("the session ended (code {:?}) though both peers were still there", r.code));
                }
            }
            if r.server_exit_at.is_none() || r.editor_closed_at.is_some() {
                exact(&mut v, "server", &ps.frames, &es);
            }
            loosely(&mut v, &pe.frames, &ss, true);
            v.nontrivial = !sc.stderr.is_empty();
            v.probe_if(r.stderr_sent.iter().any(|x| x.is_none()), "reach.diagnostics_cut_off");
        }
        "L12" => {
            exact(&mut v, "server", &ps.frames, &es);
            loosely(&mut v, &pe.frames, &ss, true);
            if es.len() < sc.editor.len() || ss.len() < sc.server.len() {
                v.bad("wedged", "the proxy stopped reading from one of its peers".into());
            }
            for (who, p, want, reading, st) in [
                ("server", &ps, &es, &sc.server_read, &r.to_server),
                ("editor", &pe, &ss, &sc.editor_read, &r.to_editor),
            ] {
                for (i, (f, (_, t))) in p.frames.iter().zip(want.iter()).enumerate() {
                    // while its receiver does not read, nothing is owed
                    let mut due = *t;
                    for (from, d) in &reading.stalls {
                        if due + 2 * S >= *from && *t < from + d {
                            due = due.max(from + d);
                        }
                    }
                    let got = st.time_of(f.end).unwrap_or(u64::MAX);
                    if got > due + 2 * S {
                        v.bad("late", format!("message {} was complete at {} us and owed to the {} from {} us, but arrived at {} us", i + 1, t, who, due, got));
                        break;
                    }
                }
            }
            v.probe_if(!sc.editor_read.stalls.is_empty() || !sc.server_read.stalls.is_empty(), "reach.direction_stalled");
            v.nontrivial = es.len() + ss.len() > 2;
        }
        "L13" => l13(&mut v, sc, r, &pe),
        "L14" => {
            let longest = |x: &[Item]| x.iter().map(|i| i.wire().len() as u64).max().unwrap_or(0);
            let line = sc.stderr.iter().map(|e| e.data.len() as u64).max().unwrap_or(0);
            let most = longest(&sc.editor) + longest(&sc.server) + longest(sc.last_items()) + line;
            let carried = (r.to_server.bytes.len() + r.to_editor.bytes.len() + r.stderr_other.len()) as u64;
            let offered: u64 = sc.editor.iter().chain(&sc.server).map(|i| i.wire().len() as u64).sum();
            let may = HELD + PER_BYTE * most;
            if r.peak > may {
                v.bad(
                    "memory",
                    format!("the proxy held {} bytes at once in a session whose longest messages are {} bytes together ({} bytes carried, {} offered)", r.peak, most, carried, offered),
                );
            }
            // moments at which nothing had moved for a while: what is held then has been left behind
            let quiet: Vec<&[u64; 4]> = r.samples.windows(3).filter(|w| w[0][1..] == w[2][1..]).map(|w| &w[2]).collect();
            let done = |q: &[u64; 4]| {
                let n = |b: &[u8], k: u64| b[..(k as usize).min(b.len())].windows(16).filter(|w| w == b"Content-Length: ").count() as u64;
                n(&r.to_editor.bytes, q[1]) + n(&r.to_server.bytes, q[2]) + q[3] / 12
            };
            if let Some(last) = quiet.last().map(|q| done(q)) {
                let first = quiet.iter().find(|q| done(q) >= last / 3).unwrap();
                let (end, n) = (quiet.last().unwrap()[0], last - done(first));
                if end > first[0] + 4096 + 4 * most + 2 * n {
                    v.bad("left-behind", format!("the proxy held {} bytes when it had nothing to do, and {} bytes {} messages later (of at most {} bytes each)", first[0], end, n, most));
                }
                v.probe_if(n > 500, "reach.many_messages_between_two_silences");
            }
            let stalled = !sc.editor_read.stalls.is_empty() || !sc.server_read.stalls.is_empty();
            v.probe_if(sc.server.iter().filter(|i| i.wire().windows(10).any(|w| w == b"Quantity<S")).count() > 300, "reach.many_distinct_types");
            v.probe_if(stalled && offered > 2 * may, "reach.stalled_receiver_with_far_more_to_come");
            v.probe_if(carried > 2 * may, "reach.carried_far_more_than_may_be_held");
            v.probe_if(r.stderr_other.len() as u64 > may, "reach.diagnostics_far_more_than_may_be_held");
            v.nontrivial = offered > 2 * may || quiet.len() > 3;
        }
        p => panic!("no oracle for {}", p),
    }
    v
}

/// Bodies of complete frames: identical, or at least one whole JSON text where one was sent.
fn framed_exactly(v: &mut Verdict, who: &str, p: &Parsed, all: &[(&Item, u64)]) {
    for (i, f) in p.frames.iter().enumerate() {
        match all.get(i) {
            None => {
                v.bad("extra", format!("the {} received more messages than were ever sent: {}", who, show(&f.body)));
                return;
            }
            Some((it, _)) => {
                if f.body == it.body.bytes() {
                    continue;
                }
                if json(it.body.bytes()).is_some() && json(&f.body).is_none() || !mentions(it.body.bytes()) || who == "server" {
                    v.bad("length", format!("message {} for the {} was framed as {} though it is {}", i + 1, who, show(&f.body), show(it.body.bytes())));
                    return;
                }
            }
        }
    }
}

/// Frames of a damaged stream: legal ones, and whatever follows each possible resynchronisation point.
fn lenient_frames(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let low: Vec<u8> = b.iter().map(|c| c.to_ascii_lowercase()).collect();
    let mut i = 0;
    while let Some(k) = low[i..].windows(15).position(|w| w == b"content-length:") {
        let at = i + k;
        let digits: String = low[at + 15..].iter().skip_while(|c| **c == b' ' || **c == b'\t').take_while(|c| c.is_ascii_digit()).map(|c| *c as char).collect();
        if let Ok(n) = digits.parse::<usize>() {
            if let Some(h) = b[at..].windows(4).position(|w| w == b"\r\n\r\n") {
                let s = at + h + 4;
                if let Some(e) = s.checked_add(n) {
                    if e <= b.len() {
                        out.push(b[s..e].to_vec());
                    }
                }
            }
        }
        i = at + 15;
    }
    out
}

/// The quiet session that shows what one message becomes under these options.
pub fn quiet(sc: &Lsp, it: &Item) -> Lsp {
    let mut q = sc.clone();
    q.seed = 77;
    q.knobs = Default::default();
    q.env.remove("RUST_LOG");
    q.args = vec![];
    q.caps = [65536; 5];
    q.editor = vec![];
    q.editor_end = EditorEnd::Stay;
    q.editor_read = Reading::eager();
    let mut one = Item::new(String::new());
    one.body = it.body.clone();
    q.server = vec![one];
    q.server_end = ServerEnd::Stay;
    q.server_eof = OnEof::ExitAfter { us: 0, last: vec![] };
    q.server_read = Reading::eager();
    q.stderr = vec![];
    q.stderr_close_us = None;
    q.editor_closes_stderr_us = None;
    q.horizon_us = 20 * S;
    q
}

fn l13(v: &mut Verdict, sc: &Lsp, r: &LspRun, pe: &Parsed) {
    use simrt::ctx::Probe;
    let home = sc.env.get("HOME").cloned().unwrap_or("/tmp".into());
    let first = crate::lspgen::candidates(&home).into_iter().find(|c| {
        let key = if c.contains('/') {
            c.clone()
        } else if sc.env.contains_key("PATH") {
            format!("PATH/{}", c)
        } else {
            return false;
        };
        sc.installs.iter().any(|i| i.path == key && i.probe == Probe::Ok)
    });
    let key = |c: &str| if c.contains('/') { c.to_string() } else { format!("PATH/{}", c) };
    let starts = first.as_ref().map(|c| sc.installs.iter().find(|i| i.path == key(c)).unwrap().spawn_errno == 0).unwrap_or(false);
    let ok: Vec<_> = r.spawns.iter().filter(|s| s.3).collect();
    v.nontrivial = true;
    if let (Some(c), true) = (&first, starts) {
        v.probe("reach.server_found");
        if ok.len() != 1 || r.servers_started != 1 {
            v.bad("spawns", format!("{} servers were started; expected exactly {}", ok.len(), c));
            return;
        }
        let (path, args, piped, _) = ok[0];
        if path != c {
            v.bad("wrong-server", format!("{} was started; the first that works is {}", path, c));
        }
        if *args != sc.args {
            v.bad("args", format!("the server got the arguments {:?} instead of {:?}", args, sc.args));
        }
        if *piped != (true, true, true) {
            v.bad("pipes", format!("the server's stdin/stdout/stderr piped: {:?}", piped));
        }
        if let Some(c) = r.code {
            if c == 101 {
                v.bad("panic", "the proxy panicked".into());
            }
        }
    } else {
        v.probe("reach.no_server_usable");
        if !ok.is_empty() || r.servers_started != 0 {
            v.bad("spawns", format!("{:?} was started though {:?} is the first that works and it cannot be started", ok, first));
        }
        match r.code {
            Some(0) => v.bad("success", "exit status 0 without a language server".into()),
            None => v.bad("hang", "no end without a language server".into()),
            _ => {}
        }
        if !r.to_editor.bytes.is_empty() {
            v.bad("noise", format!("written to the editor: {}", show(&r.to_editor.bytes)));
        }
    }
    let _ = pe;
}

pub struct Opts {
    pub include_raw: bool,
}
impl Opts {
    fn of(sc: &Lsp) -> Opts {
        let b = |k: &str| sc.env.get(k).map(|v| v == "true" || v == "1").unwrap_or(false);
        Opts { include_raw: b("WHIPPYUNITS_INCLUDE_RAW") }
    }
}

type Bad = (String, String);
fn bad<T>(c: &str, m: String) -> Result<T, Bad> {
    Err((c.to_string(), m))
}

/// L04: is `now` the same protocol message as `orig` but for displayed type text?
pub fn same_message(orig: &str, now: &[u8], o: &Opts) -> Result<(), Bad> {
    let (Ok(a), Ok(b)) = (serde_json::from_str::<Value>(orig), serde_json::from_slice::<Value>(now)) else {
        return bad("not-json", "a message that is JSON became something else, or one that is not was altered".into());
    };
    if !mentions(orig.as_bytes()) {
        return bad("plain-altered", "a message without quantity types was altered".into());
    }
    let (Some(ao), Some(bo)) = (a.as_object(), b.as_object()) else {
        return if a == b { Ok(()) } else { bad("kind", "not an object any more".into()) };
    };
    keys("message", ao, bo)?;
    for (k, av) in ao {
        let bv = &bo[k];
        if av == bv {
            continue;
        }
        if k != "result" {
            return bad("field", format!("field {} of the message changed", k));
        }
        match (av, bv) {
            (Value::Object(x), Value::Object(y)) if x.contains_key("contents") => hover(x, y, o)?,
            (Value::Object(x), Value::Object(y)) => hint(x, y, true)?,
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return bad("hints", format!("{} hints became {}", x.len(), y.len()));
                }
                for (p, q) in x.iter().zip(y) {
                    match (p, q) {
                        (Value::Object(p), Value::Object(q)) => hint(p, q, false)?,
                        _ if p == q => {}
                        _ => return bad("hints", "an element that is no hint changed".into()),
                    }
                }
            }
            _ => return bad("field", "the result changed its shape".into()),
        }
    }
    Ok(())
}

fn keys(what: &str, a: &serde_json::Map<String, Value>, b: &serde_json::Map<String, Value>) -> Result<(), Bad> {
    for k in a.keys() {
        if !b.contains_key(k) {
            return bad("field-lost", format!("the {} lost its field {:?}", what, k));
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return bad("field-invented", format!("the {} gained a field {:?}", what, k));
        }
    }
    Ok(())
}

fn hover(a: &serde_json::Map<String, Value>, b: &serde_json::Map<String, Value>, o: &Opts) -> Result<(), Bad> {
    keys("hover", a, b)?;
    for (k, av) in a {
        if k != "contents" && *av != b[k] {
            return bad("field", format!("field {} of the hover changed", k));
        }
    }
    let one = |x: &Value, y: &Value| -> Result<(), Bad> {
        if x == y {
            return Ok(());
        }
        match (x, y) {
            (Value::Object(p), Value::Object(q)) => {
                keys("hover contents", p, q)?;
                for (k, pv) in p {
                    if k != "value" && *pv != q[k] {
                        return bad("field", format!("field {} of the hover contents changed", k));
                    }
                }
                match (p["value"].as_str(), q["value"].as_str()) {
                    (Some(s), Some(t)) => display_text(s, t, o),
                    _ => bad("field", "the hover text is no text any more".into()),
                }
            }
            (Value::String(s), Value::String(t)) => display_text(s, t, o),
            _ => bad("field", "the hover contents changed their shape".into()),
        }
    };
    match (&a["contents"], &b["contents"]) {
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return bad("field", "the hover contents changed their number".into());
            }
            for (p, q) in x.iter().zip(y) {
                one(p, q)?;
            }
            Ok(())
        }
        (x, y) => one(x, y),
    }
}

/// Split a text at its quantity types: (outside pieces, types), one more piece than types.
pub fn split_types(t: &str) -> (Vec<String>, Vec<String>) {
    let mut out = vec![];
    let mut types = vec![];
    let mut rest = t;
    let mut cur = String::new();
    while let Some(i) = rest.find("Quantity<") {
        let body = &rest[i + 9..];
        let mut depth = 1i64;
        let mut end = None;
        for (k, c) in body.char_indices() {
            match c {
                '<' => depth += 1,
                '>' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(k + 1);
                        break;
                    }
                }
                _ => {}
            }
        }
        match end {
            Some(e) => {
                cur.push_str(&rest[..i]);
                out.push(std::mem::take(&mut cur));
                types.push(rest[i..i + 9 + e].to_string());
                rest = &rest[i + 9 + e..];
            }
            None => {
                cur.push_str(&rest[..i + 9]);
                rest = &rest[i + 9..];
            }
        }
    }
    cur.push_str(rest);
    out.push(cur);
    (out, types)
}

/// Blanks next to a code fence are layout.
fn norm(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("```") {
        let mut head = rest[..i].trim_end();
        if !out.is_empty() {
            head = head.trim_start();
        }
        out.push_str(head);
        let mut tail = &rest[i + 3..];
        out.push('\u{1}');
        if let Some(t) = tail.strip_prefix("rust") {
            out.push_str("rust");
            tail = t;
        }
        out.push('\u{2}');
        rest = tail;
    }
    let tail = if out.is_empty() { rest } else { rest.trim_start() };
    out.push_str(tail);
    out
}

fn display_text(orig: &str, now: &str, o: &Opts) -> Result<(), Bad> {
    if orig == now {
        return Ok(());
    }
    if !orig.contains("Quantity<") {
        return bad("text", "a text without quantity types was altered".into());
    }
    let mut now = now.to_string();
    if o.include_raw && now.matches("Raw:").count() > orig.matches("Raw:").count() {
        // take the extra section out again; it must quote the original
        let at = now.find("Raw:\n\n```rust\n").ok_or(("raw".to_string(), "unreadable raw section".to_string()))?;
        let body_at = at + "Raw:\n\n```rust\n".len();
        let end = now[body_at..].find("\n```").ok_or(("raw".to_string(), "unterminated raw section".to_string()))? + body_at;
        let raw = now[body_at..end].to_string();
        if !orig.contains(raw.trim()) {
            return bad("raw", format!("the raw section shows {:?}, which the original does not contain", raw));
        }
        let mut head = now[..at].to_string();
        if head.ends_with("---\n") {
            head.truncate(head.len() - 4);
        }
        now = format!("{}{}", head, &now[end + 4..]);
    }
    let impl_sig = !orig.contains("```rust") && orig.contains("impl<") && (orig.contains("for Quantity<") || orig.contains("for f64"));
    let orig_cmp = if impl_sig { &orig[..orig.find("impl<").unwrap()] } else { orig };
    let (pieces, types) = split_types(orig_cmp);
    // fences around pieces must be recognised in the whole text, so mark the types before normalising
    let mut marked = String::new();
    for (i, p) in pieces.iter().enumerate() {
        marked.push_str(p);
        if i < types.len() {
            marked.push_str(&format!("\u{3}{}\u{3}", i));
        }
    }
    let marked = norm(&marked);
    let now_n = norm(&now);
    let mut want = vec![];
    let mut rest = marked.as_str();
    for i in 0..types.len() {
        let m = format!("\u{3}{}\u{3}", i);
        let k = rest.find(&m).unwrap();
        want.push(rest[..k].to_string());
        rest = &rest[k + m.len()..];
    }
    want.push(rest.to_string());
    if !now_n.starts_with(&want[0]) {
        return bad("text", format!("the text before the first type was altered: wanted {:?}", want[0]));
    }
    let mut pos = want[0].len();
    let n = want.len();
    for i in 1..n {
        let last = i == n - 1;
        let found = if last && !impl_sig {
            if now_n.len() >= pos + want[i].len() && now_n.ends_with(&want[i]) {
                Some(now_n.len() - want[i].len())
            } else {
                None
            }
        } else {
            // unchanged type first: its own brackets may contain the piece
            let t = &types[i - 1];
            if now_n[pos..].starts_with(t.as_str()) && now_n[pos + t.len()..].starts_with(&want[i]) {
                Some(pos + t.len())
            } else {
                now_n[pos..].find(&want[i]).map(|k| pos + k)
            }
        };
        let Some(k) = found else {
            return bad("text", format!("the text after type {} was lost or altered: wanted {:?}", i, want[i]));
        };
        if k == pos {
            return bad("text", format!("type {} disappeared", i));
        }
        let shown = &now_n[pos..k];
        if !last && shown.contains('\u{1}') || shown.len() > 4 * types[i - 1].len() + 400 {
            return bad("text", format!("type {} is displayed as {:?}", i, shown));
        }
        if last && shown.contains('\u{1}') {
            return bad("text", format!("type {} is displayed as {:?}", i, shown));
        }
        pos = k + want[i].len();
    }
    Ok(())
}

fn label_text(p: &Value) -> Option<&str> {
    p.get("value").and_then(|v| v.as_str())
}

fn hint(a: &serde_json::Map<String, Value>, b: &serde_json::Map<String, Value>, resolve: bool) -> Result<(), Bad> {
    let shows = a.get("label").and_then(|l| l.as_array()).map(|l| l.iter().any(|p| label_text(p) == Some("Quantity"))).unwrap_or(false);
    if !shows {
        return if a == b { Ok(()) } else { bad("hint", "a hint that shows no quantity type changed".into()) };
    }
    let mut a2 = a.clone();
    let mut b2 = b.clone();
    let (la, lb) = (a2.remove("label").unwrap(), b2.remove("label").unwrap_or(Value::Null));
    if resolve {
        let (ea, eb) = (a2.remove("textEdits"), b2.remove("textEdits"));
        match (&ea, &eb) {
            (Some(x), Some(y)) if x != y => {
                let (Some(x), Some(y)) = (x.as_array(), y.as_array()) else {
                    return bad("edit", "textEdits changed its shape".into());
                };
                if x.is_empty() {
                    // nothing to insert before: an insertion at the hint may appear
                } else if x.len() != y.len() {
                    return bad("edit", format!("{} text edits became {}", x.len(), y.len()));
                }
                for (p, q) in x.iter().zip(y) {
                    if p.get("range") != q.get("range") {
                        return bad("edit-range", format!("a text edit for {} became one for {}", p["range"], q["range"]));
                    }
                    if !q["newText"].is_string() {
                        return bad("edit", "a text edit without text".into());
                    }
                }
            }
            (Some(_), None) => return bad("field-lost", "the hint lost its textEdits".into()),
            _ => {}
        }
    }
    keys("hint", &a2, &b2)?;
    for (k, v) in &a2 {
        if *v != b2[k] {
            return bad("field", format!("field {} of the hint changed", k));
        }
    }
    if la == lb {
        return Ok(());
    }
    let (Some(pa), Some(pb)) = (la.as_array(), lb.as_array()) else {
        return bad("label", "the label changed its shape".into());
    };
    let q = pa.iter().position(|p| label_text(p) == Some("Quantity")).unwrap();
    // the parts that spell the type's parameters
    let mut depth = 0i64;
    let mut opened = false;
    let mut end = q + 1;
    let mut surplus = String::new();
    'outer: for (i, p) in pa.iter().enumerate().skip(q + 1) {
        let Some(t) = label_text(p) else { break };
        if i == q + 1 && !t.trim_start().starts_with('<') {
            break;
        }
        for (k, c) in t.char_indices() {
            if c == '<' {
                depth += 1;
                opened = true;
            } else if c == '>' {
                depth -= 1;
                if opened && depth == 0 {
                    surplus = t[k + 1..].to_string();
                    end = i + 1;
                    break 'outer;
                }
            }
        }
    }
    if end == q + 1 {
        return bad("label", "a bare or unfinished type name swallowed other label parts".into());
    }
    if pb.len() < q + 1 || pb[..q] != pa[..q] {
        return bad("label", "label parts before the type changed".into());
    }
    let tail = &pa[end..];
    let mid = pb.len().saturating_sub(tail.len());
    if pb.len() < tail.len() + q + 1 || pb[mid..] != *tail {
        return bad("label", format!("label parts after the type were lost or changed: {:?} wanted at the end of {:?}", tail, pb));
    }
    let mids = &pb[q..mid];
    if mids.is_empty() || mids.len() > 2 {
        return bad("label", format!("the type became {} label parts", mids.len()));
    }
    let (Some(x), Some(y)) = (pa[q].as_object(), mids[0].as_object()) else {
        return bad("label", "the type's label part changed its shape".into());
    };
    keys("label part", x, y)?;
    for (k, v) in x {
        if k != "value" && *v != y[k] {
            return bad("label", format!("field {} of the type's label part changed", k));
        }
    }
    let text: String = mids.iter().filter_map(|p| label_text(p)).collect();
    if !surplus.is_empty() && !text.ends_with(&surplus) {
        return bad("label", format!("the text {:?} after the type was lost from {:?}", surplus, text));
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn splits() {
        let (p, t) = split_types("a Quantity<X<1>, Y> b Quantity<Z c");
        assert_eq!(t, vec!["Quantity<X<1>, Y>"]);
        assert_eq!(p, vec!["a ", " b Quantity<Z c"]);
    }
}
