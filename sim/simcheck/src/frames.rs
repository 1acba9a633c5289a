//! Reference framing: what the base protocol says, written independently of the code under test.

#[derive(Debug, Clone)]
pub struct Parsed {
    pub frames: Vec<Frame>,
    /// bytes after the last complete frame
    pub rest: Vec<u8>,
    /// the stream is not a prefix of a sequence of framed messages
    pub error: Option<String>,
}
#[derive(Debug, Clone)]
pub struct Frame {
    pub body: Vec<u8>,
    /// offset just past the frame
    pub end: u64,
}

/// A prefix of a legal header field line is acceptable at the very end of the stream.
fn header_prefix_ok(rest: &[u8]) -> bool {
    let low: Vec<u8> = rest.iter().map(|c| c.to_ascii_lowercase()).collect();
    let names: [&[u8]; 2] = [b"content-length:", b"content-type:"];
    for line in low.split(|c| *c == b'\n') {
        let line = line.strip_suffix(b"\r").unwrap_or(line);
        if line.is_empty() {
            continue;
        }
        let ok = names.iter().any(|n| {
            if line.len() < n.len() {
                n.starts_with(line)
            } else if n == &b"content-length:" && line.starts_with(n) {
                line[n.len()..].iter().all(|c| c.is_ascii_digit() || *c == b' ' || *c == b'\t')
            } else {
                line.starts_with(n)
            }
        });
        if !ok {
            return false;
        }
    }
    true
}

pub fn parse(b: &[u8]) -> Parsed {
    let mut frames = vec![];
    let mut pos = 0;
    loop {
        let rest = &b[pos..];
        if rest.is_empty() {
            return Parsed { frames, rest: vec![], error: None };
        }
        let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            let error = if header_prefix_ok(rest) { None } else { Some(format!("not a header: {:?}", show(rest))) };
            return Parsed { frames, rest: rest.to_vec(), error };
        };
        let head = &rest[..h];
        let mut len: Option<usize> = None;
        for line in head.split(|c| *c == b'\n') {
            let line = line.strip_suffix(b"\r").unwrap_or(line);
            let Ok(line) = std::str::from_utf8(line) else {
                return Parsed { frames, rest: rest.to_vec(), error: Some("header is not text".into()) };
            };
            let Some((name, val)) = line.split_once(':') else {
                return Parsed {
                    frames,
                    rest: rest.to_vec(),
                    error: Some(format!("header line without a colon: {:?}", show(line.as_bytes()))),
                };
            };
            match name.trim().to_ascii_lowercase().as_str() {
                "content-length" => match val.trim().parse::<usize>() {
                    Ok(n) => len = Some(n),
                    Err(_) => {
                        return Parsed {
                            frames,
                            rest: rest.to_vec(),
                            error: Some(format!("bad length {:?}", val)),
                        }
                    }
                },
                "content-type" => {}
                other => {
                    return Parsed {
                        frames,
                        rest: rest.to_vec(),
                        error: Some(format!("unknown header field {:?}", other)),
                    }
                }
            }
        }
        let Some(len) = len else {
            return Parsed { frames, rest: rest.to_vec(), error: Some("header block without a length".into()) };
        };
        if rest.len() < h + 4 + len {
            return Parsed { frames, rest: rest.to_vec(), error: None };
        }
        let body = rest[h + 4..h + 4 + len].to_vec();
        pos += h + 4 + len;
        frames.push(Frame { body, end: pos as u64 });
    }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(160).collect();
    if s.chars().count() > 160 {
        t.push('…');
    }
    t
}
