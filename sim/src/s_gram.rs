//! Interoperability with peers that are not built on the code under test: what the encoder writes is read by a reference
//! reader (C10); what a reference writer spells in its own way is read by the decoder (C11); and what arrives damaged is
//! either refused or means what its bytes say (C12).

use imap_codec::fragmentizer::Fragmentizer;

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    gens::{Cfg, G},
    gram::{self, Gr, Lenient, Style},
    lexref,
    net::Profile,
    s_frame::mutate,
    spec,
    tape::Mix,
    wire::{Err, Kind, Msg, Whole},
};

pub const STRICT: Lenient = Lenient { tol: false, lf: false };
const LENIENT: Lenient = Lenient { tol: true, lf: cfg!(feature = "quirk_off") };

/// What sort of message: its first words, for coverage.
pub fn sort_of(b: &[u8]) -> u64 {
    let mut m = Mix::new();
    let mut words = 0;
    for c in b.iter().take(80) {
        match c {
            b' ' | b'[' | b'(' | b'\r' => {
                words += 1;
                m.u(*c as u64);
                if words == 3 {
                    break;
                }
            }
            c if words > 0 && c.is_ascii_alphabetic() => {
                m.u(c.to_ascii_uppercase() as u64);
            }
            _ => {}
        }
    }
    m.0
}

pub fn describe(g: &Gr, b: &[u8], l: Lenient) -> String {
    let p = gram::progress(g, b, l).min(b.len());
    format!("follows the grammar up to {:?}, then comes {:?}", esc(&b[p.saturating_sub(40)..p]), esc(&b[p..(p + 40).min(b.len())]))
}

pub fn c10(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(3);
    let msgs: Vec<Msg> = (0..n).map(|_| Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind)).collect();
    let mut stream = vec![];
    for m in &msgs {
        stream.extend(m.bytes());
    }
    let total = stream.len();
    if ctx.t.chance(1, 8) {
        let k = ctx.t.usize(stream.len());
        stream.truncate(k);
        ctx.fault("eof");
    }
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    // The reference reader: takes the next message out of its buffer as soon as it is complete.
    let mut buf: Vec<u8> = vec![];
    let mut got = 0;
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        buf.extend_from_slice(&stream[s.start..s.end]);
        while let Some((_, end)) = if buf.contains(&b'\n') { lexref::messages(&buf).first().copied() } else { None } {
            let bytes: Vec<u8> = buf.drain(..end).collect();
            ensure!(got < msgs.len(), "interop: more messages than were written", "{:?}", esc(&bytes));
            let m = &msgs[got];
            let g = spec::message(m);
            ctx.log(|| format!("reference reader takes {:?}", esc(&bytes)));
            ensure!(gram::matches(&g, &bytes, STRICT), "interop: what was encoded is no valid spelling of the value", "{m:?} was encoded as {:?}: {}", esc(&bytes), describe(&g, &bytes, STRICT));
            ctx.state(sort_of(&bytes));
            ctx.probe("message");
            got += 1;
        }
    }
    if stream.len() == total {
        ensure!(buf.is_empty() && got == msgs.len(), "interop: messages do not end where they should", "{} of {} messages read, left over {:?}", got, msgs.len(), esc(&buf));
    }
    Ok(())
}

/// Feeds `stream` to a receiver of the drawn type; yields each complete message with its bytes.
pub struct Recv {
    kind: Kind,
    frag: Option<Fragmentizer>,
    buf: Vec<u8>,
}

impl Recv {
    pub fn new(ctx: &mut Ctx, kind: Kind) -> Recv {
        Recv { kind, frag: if ctx.t.bool() { Some(Fragmentizer::without_max_message_size()) } else { None }, buf: vec![] }
    }
    pub fn push(&mut self, b: &[u8], out: &mut Vec<(Vec<u8>, Whole)>) {
        match &mut self.frag {
            Some(f) => {
                f.enqueue_bytes(b);
                while f.progress().is_some() {
                    if f.is_message_complete() {
                        out.push((f.message_bytes().to_vec(), self.kind.decode_message(f)));
                    }
                }
            }
            None => {
                self.buf.extend_from_slice(b);
                loop {
                    match self.kind.decode(&self.buf) {
                        Ok((rem, m)) => {
                            let used: Vec<u8> = self.buf.drain(..self.buf.len() - rem).collect();
                            out.push((used, Whole::Ok(m)));
                        }
                        Result::Err(Err::Failed) => {
                            // Give up on this message: continue behind it.
                            match lexref::messages(&self.buf).first() {
                                Some((_, end)) => {
                                    let used: Vec<u8> = self.buf.drain(..*end).collect();
                                    out.push((used, Whole::Err(Err::Failed)));
                                }
                                None => break,
                            }
                        }
                        Result::Err(_) => break,
                    }
                }
            }
        }
    }
}

pub fn c11(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(3);
    let sloppy = ctx.t.chance(1, 3);
    let style = Style::draw(&mut ctx.t, sloppy);
    let mut stream = vec![];
    let mut sent = vec![];
    for _ in 0..n {
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let start = stream.len();
        gram::write(&spec::message(&m), &mut ctx.t, style, &mut stream);
        let bytes = stream[start..].to_vec();
        ctx.log(|| format!("reference writer spells {:?}", esc(&bytes)));
        if bytes != m.bytes() {
            ctx.fault(if sloppy { "sloppy_spelling" } else { "other_spelling" });
        }
        sent.push((m, bytes));
    }
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut r = Recv::new(ctx, kind);
    let mut out = vec![];
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        r.push(&stream[s.start..s.end], &mut out);
    }
    for (i, (bytes, w)) in out.iter().enumerate() {
        let Some((m, spelled)) = sent.get(i) else { fail!("interop: more messages than were written", "{:?} gives {w:?}", esc(bytes)) };
        match w {
            Whole::Ok(v) if v.same(m) => {}
            Whole::Ok(v) => fail!("interop: valid spelling read as something else", "{:?} is a spelling of {m:?}, got {v:?}", esc(spelled)),
            w => fail!("interop: valid spelling refused", "{:?} is a spelling of {m:?}, got {w:?}", esc(spelled)),
        }
        ensure!(bytes == spelled, "interop: wrong message boundary", "spelled {:?}, taken {:?}", esc(spelled), esc(bytes));
        ctx.state(sort_of(bytes));
        ctx.probe("message");
    }
    ensure!(out.len() == sent.len(), "interop: valid spelling not accepted", "{:?} is a spelling of {:?}", esc(&sent[out.len()].1), sent[out.len()].0);
    Ok(())
}

/// Damage at the level of words: a number out of range, a word of another message, a missing or doubled word, ...
fn mutate_words(ctx: &mut Ctx, b: &mut Vec<u8>, other: &[u8]) {
    let t = &mut ctx.t;
    let words = |b: &[u8]| {
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            let class = |c: u8| if c.is_ascii_digit() { 0 } else if c.is_ascii_alphabetic() || c >= 0x80 { 1 } else { 2 };
            let mut j = i + 1;
            if class(b[i]) != 2 {
                while j < b.len() && class(b[j]) == class(b[i]) {
                    j += 1;
                }
            }
            v.push((i, j));
            i = j;
        }
        v
    };
    for _ in 0..1 + t.usize(2) {
        let ws = words(b);
        if ws.is_empty() {
            return;
        }
        let (i, j) = *t.pick(&ws);
        match t.below(8) {
            0 => {
                b.splice(i..j, []);
            }
            1 => {
                let w = b[i..j].to_vec();
                b.splice(j..j, w);
            }
            2 => {
                let ow = words(other);
                if !ow.is_empty() {
                    let (x, y) = *t.pick(&ow);
                    b.splice(i..j, other[x..y].to_vec());
                }
            }
            3 => {
                let ow = words(other);
                if !ow.is_empty() {
                    let (x, _) = *t.pick(&ow);
                    let y = (x + t.usize(30)).min(other.len());
                    b.splice(i..i, other[x..y].to_vec());
                }
            }
            4 => {
                // Another number, if this is one.
                if b[i].is_ascii_digit() {
                    let w: &[&str] = &["0", "00", "1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99", "31", "32", "24", "60", "2", "007", "-1", "29", "30", "9999", "10000"];
                    let w = *t.pick(w);
                    b.splice(i..j, w.bytes());
                } else {
                    let w: &[&[u8]] = &[b"NIL", b"()", b"\"\"", b" ", b"  ", b"(", b")", b"{0}\r\n", b"\\", b"*", b"[", b"]", b"INBOX", b"\"nil\"", b"+", b"~{0}\r\n", b"=", b"\0", b"\x7f"];
                    let w = *t.pick(w);
                    b.splice(i..j, w.iter().copied());
                }
            }
            5 => {
                let (x, y) = *t.pick(&ws);
                let (a, c) = if i <= x { ((i, j), (x, y)) } else { ((x, y), (i, j)) };
                if a.1 <= c.0 {
                    let (wa, wc) = (b[a.0..a.1].to_vec(), b[c.0..c.1].to_vec());
                    b.splice(c.0..c.1, wa);
                    b.splice(a.0..a.1, wc);
                }
            }
            6 => {
                for c in &mut b[i..j] {
                    if c.is_ascii_alphabetic() {
                        *c ^= 0x20;
                    }
                }
            }
            _ => {
                // Reconnect: the rest is that of another message.
                if !other.is_empty() {
                    let x = t.usize(other.len());
                    b.truncate(i);
                    b.extend_from_slice(&other[x..]);
                }
            }
        }
    }
}

pub fn c12(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(3);
    let sloppy = ctx.t.bool();
    let style = Style::draw(&mut ctx.t, sloppy);
    let mut stream = vec![];
    let spell = |ctx: &mut Ctx| {
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let mut b = vec![];
        gram::write(&spec::message(&m), &mut ctx.t, style, &mut b);
        b
    };
    let mut prev = vec![];
    for _ in 0..n {
        let mut b = spell(ctx);
        let keep = b.clone();
        if ctx.t.bool() {
            if prev.is_empty() || ctx.t.chance(1, 4) {
                prev = spell(ctx);
            }
            mutate_words(ctx, &mut b, &prev);
            ctx.fault("corrupt_words");
        } else if ctx.t.chance(3, 4) {
            mutate(ctx, &mut b);
            ctx.fault("corrupt");
        }
        prev = keep;
        stream.extend(b);
    }
    if ctx.t.chance(1, 10) {
        let k = ctx.t.usize(stream.len() + 1);
        stream.truncate(k);
        ctx.fault("eof");
    }
    ctx.log(|| format!("arrives: {:?}", esc(&stream)));
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut r = Recv::new(ctx, kind);
    let mut out = vec![];
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        r.push(&stream[s.start..s.end], &mut out);
    }
    for (bytes, w) in out {
        let (v, used) = match w {
            Whole::Ok(v) => (v, bytes.clone()),
            Whole::Remainder(v, rem) => {
                let n = bytes.len() - rem.len();
                (v, bytes[..n].to_vec())
            }
            _ => {
                ctx.probe("refused");
                continue;
            }
        };
        ctx.probe("accepted");
        let g = spec::message(&v);
        ensure!(gram::matches(&g, &used, LENIENT), "damaged: accepted bytes do not spell the value they are decoded to", "{:?} decodes to {v:?}: {}", esc(&used), describe(&g, &used, LENIENT));
        ctx.state(sort_of(&used));
    }
    Ok(())
}

/// A chain of relays (proxies): each decodes what it receives and encodes it again for the next one.
pub fn c13(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(3);
    let sloppy = ctx.t.bool();
    let style = Style::draw(&mut ctx.t, sloppy);
    let damaged = ctx.t.bool();
    let mut stream = vec![];
    let mut prev = vec![];
    for _ in 0..n {
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let mut b = vec![];
        gram::write(&spec::message(&m), &mut ctx.t, style, &mut b);
        let keep = b.clone();
        if damaged && ctx.t.bool() {
            if ctx.t.bool() {
                mutate_words(ctx, &mut b, &prev);
                ctx.fault("corrupt_words");
            } else {
                mutate(ctx, &mut b);
                ctx.fault("corrupt");
            }
        } else if b != m.bytes() {
            ctx.fault("foreign_spelling");
        }
        prev = keep;
        stream.extend(b);
    }
    ctx.log(|| format!("origin sends {:?}", esc(&stream)));
    let hops = 1 + ctx.t.usize(3);
    let mut first: Option<(Vec<Msg>, Vec<Vec<u8>>)> = None;
    for hop in 0..=hops {
        let profile = Profile::draw(ctx);
        let segs = profile.schedule(ctx, &stream);
        let mut r = Recv::new(ctx, kind);
        let mut out = vec![];
        for s in &segs {
            ctx.now_us = s.at_us;
            ctx.step();
            r.push(&stream[s.start..s.end], &mut out);
        }
        let mut vals = vec![];
        for (bytes, w) in out {
            match w {
                Whole::Ok(v) => {
                    // Human readable text that ends like a literal announcement: a known finding, see known_findings.json.
                    let b = v.bytes();
                    if hop == 0 && b.ends_with(b"\r\n") && lexref::announcement(&b[..b.len() - 2]).is_some() {
                        ctx.probe("known_text_announces");
                        continue;
                    }
                    vals.push(v)
                }
                w => {
                    ensure!(hop == 0, "relay: a message is refused behind a relay", "relay {hop} sent {:?}, which is taken as {w:?}", esc(&bytes));
                    ctx.probe("refused");
                }
            }
        }
        let spelled: Vec<Vec<u8>> = vals.iter().map(|v| v.bytes()).collect();
        stream = spelled.concat();
        ctx.log(|| format!("relay {} sends {:?}", hop + 1, esc(&stream)));
        match &first {
            None => {
                for b in &spelled {
                    ctx.state(sort_of(b));
                    ctx.probe("relayed");
                }
                first = Some((vals, spelled));
            }
            Some((v0, b0)) => {
                ensure!(v0.len() == vals.len(), "relay: number of messages changed", "{} messages left the first relay ({:?}), {} arrived", v0.len(), esc(&b0.concat()), vals.len());
                for i in 0..vals.len() {
                    ensure!(vals[i].alike(&v0[i]), "relay: a message changed behind a relay", "the first relay read {:?} and wrote {:?}, behind {hop} relays it reads {:?}", v0[i], esc(&b0[i]), vals[i]);
                    ensure!(spelled[i] == b0[i], "relay: the spelling changes from relay to relay", "{:?}, then {:?}", esc(&b0[i]), esc(&spelled[i]));
                }
            }
        }
    }
    Ok(())
}
