//! Reference model of the framing layer, written from the documentation: a message is a line, or a line that announces a
//! literal, the literal, and again a line (and so on) until a line that announces nothing. It looks at a whole stream
//! at once, so it knows nothing of chunks.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frag {
    pub literal: bool,
    /// Relative to the message.
    pub start: usize,
    pub end: usize,
    /// Length and whether it is non-synchronising.
    pub announce: Option<(u32, bool)>,
    pub crlf: bool,
    /// Last fragment of its message.
    pub last: bool,
}

/// The announcement at the end of a line (given without its line ending).
pub fn announcement(line: &[u8]) -> Option<(u32, bool)> {
    let rest = line.strip_suffix(b"}")?;
    let (rest, nonsync) = match rest.strip_suffix(b"+") {
        Some(r) => (r, true),
        None => (rest, false),
    };
    let digits = rest.iter().rev().take_while(|b| b.is_ascii_digit()).count();
    if digits == 0 {
        return None;
    }
    let (head, num) = rest.split_at(rest.len() - digits);
    head.strip_suffix(b"{")?;
    let mut v: u64 = 0;
    for d in num {
        v = v * 10 + (d - b'0') as u64;
        if v > u32::MAX as u64 {
            return None;
        }
    }
    Some((v as u32, nonsync))
}

/// The next fragment of a message that starts at `msg`, the fragment starting at `pos`. `lit` is the length of an
/// announced literal, if one is due. `None` if the stream ends before the fragment does.
pub fn next(stream: &[u8], msg: usize, pos: usize, lit: Option<u32>) -> Option<Frag> {
    match lit {
        Some(n) => {
            let end = pos + n as usize;
            if end > stream.len() {
                return None;
            }
            Some(Frag { literal: true, start: pos - msg, end: end - msg, announce: None, crlf: false, last: false })
        }
        None => {
            let lf = stream[pos..].iter().position(|b| *b == b'\n')? + pos;
            let line = &stream[pos..lf];
            let (body, crlf) = match line.strip_suffix(b"\r") {
                Some(b) => (b, true),
                None => (line, false),
            };
            let announce = announcement(body);
            Some(Frag { literal: false, start: pos - msg, end: lf + 1 - msg, announce, crlf, last: announce.is_none() })
        }
    }
}

/// All complete fragments of a stream, with the absolute start of their message.
pub fn lex(stream: &[u8]) -> Vec<(usize, Frag)> {
    let mut out = vec![];
    let (mut msg, mut pos, mut lit) = (0, 0, None);
    while let Some(f) = next(stream, msg, pos, lit) {
        pos = msg + f.end;
        lit = f.announce.map(|a| a.0);
        let last = f.last;
        out.push((msg, f));
        if last {
            msg = pos;
        }
    }
    out
}

/// Splits a stream into complete messages (absolute ranges).
pub fn messages(stream: &[u8]) -> Vec<(usize, usize)> {
    lex(stream).into_iter().filter(|(_, f)| f.last).map(|(m, f)| (m, m + f.end)).collect()
}
