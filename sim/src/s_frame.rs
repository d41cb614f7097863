//! Framing (C01), its size limit (C02), poisoning and skipping (C03), isolation of malformed messages (C04).
//!
//! World: a sender that writes a byte stream (well-formed messages, malformed ones, garbage), a network that delivers it
//! in pieces, and a receiver: the real fragmentizer, driven the way applications drive it. Oracle: `lexref`, which looks
//! at the stream as a whole.

use imap_codec::{
    fragmentizer::{FragmentInfo, Fragmentizer, LineEnding, LiteralAnnouncement},
    imap_types::core::LiteralMode,
};

use crate::{
    alloc,
    ctx::{Ctx, R, esc},
    ensure,
    gens::{Cfg, G},
    lexref::{self, Frag},
    net::Profile,
    tape::Mix,
    wire::{Kind, Msg, Whole},
};

/// Generates bytes that are malformed, or at least unusual, but interesting for framing.
fn odd_line(ctx: &mut Ctx) -> Vec<u8> {
    let t = &mut ctx.t;
    let mut out = vec![];
    let pieces: &[&[u8]] = &[
        b"A1 NOOP", b"* OK hi", b"\r", b"\r\r", b"{", b"}", b"{}", b"{+}", b"{3}", b"{3+}", b"{03}", b"{3-}", b"{ 3}", b"{3 }", b"{-1}", b"{4294967295}",
        b"{4294967296}", b"{99999999999999999999}", b"{{3}", b"{3}}", b"{3}{4}", b"{0}", b"{00}", b"{1}", b"{12+}", b"~{3}", b"\"{3}\"", b"\"", b"\\", b" ",
        b"\0", b"\xff", b"DONE", b"{3}\r", b"{3+}\r", b"{3\r", b"+", b"{10}", b"A LOGIN {5}", b"X APPEND b {7+}", b"\t", b"{3++}", b"{+3}", b"{3}x", b"{429496729}",
        b"{3{4}", b"{3+{2}", b"{3}{", b"{3}+", b"{3}3", b"+}", b"3}", b"{1}\r\r",
    ];
    for _ in 0..t.usize(4) + 1 {
        if t.chance(1, 5) {
            out.push(t.below(256) as u8);
        } else {
            out.extend_from_slice(t.pick(pieces));
        }
    }
    if t.chance(1, 3) {
        // End in an announcement.
        let n = t.below(20);
        let z = *t.pick(&["", "0", "000"]);
        let p = *t.pick(&["", "+"]);
        out.extend_from_slice(format!("{{{z}{n}{p}}}").as_bytes());
    }
    out.extend_from_slice(t.pick(&[b"\r\n".as_slice(), b"\n", b"\r\n"]));
    out
}

pub struct Stream {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    /// Messages that were put in unchanged: start, end, value.
    pub sent: Vec<(usize, usize, Msg)>,
}

fn compose(ctx: &mut Ctx, max_msgs: usize, oddness: u64) -> Stream {
    let kind = Kind::draw(&mut ctx.t);
    let mut s = Stream { kind, bytes: vec![], sent: vec![] };
    let n = 1 + ctx.t.usize(max_msgs);
    let cfg = Cfg::draw(&mut ctx.t);
    for _ in 0..n {
        match ctx.t.below(10) {
            x if x < oddness => {
                let mut b = odd_line(ctx);
                if ctx.t.chance(1, 80) {
                    // Very many fragments in one message.
                    let one = *ctx.t.pick(&[&b" {1}\r\na"[..], b"{0+}\r\n", b"{3}\r\n\r\n{"]);
                    let k = *ctx.t.pick(&[40usize, 126, 255, 300, 1100]);
                    b.splice(0..0, one.repeat(k));
                    ctx.fault("many_fragments");
                }
                s.bytes.extend(b);
                ctx.fault("odd_bytes");
            }
            x if x == 9 => {
                // A well-formed message with a few bytes damaged on the way.
                let mut b = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes();
                mutate(ctx, &mut b);
                ctx.fault("corrupt");
                s.bytes.extend(b);
            }
            8 if ctx.t.chance(1, 3) => {
                // A message that ends in an announcement, and what is announced: all of it is one message.
                let mut b = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes();
                b.truncate(b.len() - 2);
                let more = match ctx.t.below(6) {
                    0 => b"  ".to_vec(),
                    1 => b"\r\n".to_vec(),
                    2 => vec![],
                    3 => Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes(),
                    4 => vec![*ctx.t.pick(b" \0\n\r\ta)"); 1 + ctx.t.usize(4)],
                    _ => odd_line(ctx),
                };
                let sp: &str = ctx.t.pick(&[" ", "", " ~"]);
                let plus: &str = ctx.t.pick(&["", "+"]);
                b.extend(format!("{sp}{{{}{plus}}}\r\n", more.len()).bytes());
                b.extend(more);
                b.extend_from_slice(*ctx.t.pick(&[&b"\r\n"[..], b"\n", b" \r\n", b")\r\n"]));
                s.bytes.extend(b);
                ctx.fault("trailing_literal");
            }
            _ => {
                let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
                let start = s.bytes.len();
                s.bytes.extend(m.bytes());
                s.sent.push((start, s.bytes.len(), m));
            }
        }
    }
    // A connection that lives long.
    if ctx.t.chance(1, 600) {
        let (n, k) = (s.bytes.len(), s.sent.len());
        let reps = (*ctx.t.pick(&[30usize, 300, 3000])).min(200_000 / n.max(1)).max(1);
        s.bytes = s.bytes.repeat(reps);
        for i in 1..reps {
            for j in 0..k {
                let (a, z, m) = s.sent[j].clone();
                s.sent.push((a + i * n, z + i * n, m));
            }
        }
        ctx.fault("long_connection");
    }
    s
}

pub fn mutate(ctx: &mut Ctx, b: &mut Vec<u8>) {
    let t = &mut ctx.t;
    for _ in 0..1 + t.usize(3) {
        if b.is_empty() {
            return;
        }
        let i = t.usize(b.len());
        match t.below(7) {
            0 => b[i] ^= 1 << t.below(8),
            1 => b[i] = *t.pick(b"\r\n {}()\"\\+*~0129aAzZ[]<>\0\xff%:,."),
            2 => {
                b.remove(i);
            }
            3 => {
                let x = *t.pick(b"\r\n {}()\"\\+*~0129aAzZ[]<>\0\xff%:,.");
                b.insert(i, x);
            }
            4 => {
                let j = t.usize(b.len());
                b.swap(i, j);
            }
            5 => {
                // Duplicate a span.
                let j = (i + 1 + t.usize(8)).min(b.len());
                let span = b[i..j].to_vec();
                b.splice(j..j, span);
            }
            _ => {
                let j = (i + 1 + t.usize(8)).min(b.len());
                b.drain(i..j);
            }
        }
    }
}

fn class(b: u8) -> u64 {
    match b {
        b'\r' => 1,
        b'\n' => 2,
        b'{' => 3,
        b'}' => 4,
        b'+' => 5,
        b'0'..=b'9' => 6,
        b' ' => 7,
        b'"' => 8,
        0x80.. => 9,
        _ => 0,
    }
}

pub fn agrees(f: FragmentInfo, r: &Frag) -> bool {
    match f {
        FragmentInfo::Line { start, end, announcement, ending } => {
            let a = announcement.map(|LiteralAnnouncement { mode, length }| (length, mode == LiteralMode::NonSync));
            !r.literal && start == r.start && end == r.end && a == r.announce && (ending == LineEnding::CrLf) == r.crlf
        }
        FragmentInfo::Literal { start, end } => r.literal && start == r.start && end == r.end,
    }
}

/// The receiver together with the reference's view of it.
struct Recv {
    f: Fragmentizer,
    max: Option<usize>,
    enq: usize,
    msg: usize,
    pos: usize,
    lit: Option<u32>,
    /// The current message is complete; the next `progress` starts another one.
    done: bool,
    poisoned: bool,
    /// `progress` returned `None`, and nothing was enqueued since.
    drained: bool,
    frags: u64,
}

impl Recv {
    fn new(max: Option<u32>) -> Recv {
        let f = match max {
            Some(m) => Fragmentizer::new(m),
            None => Fragmentizer::without_max_message_size(),
        };
        Recv { f, max: max.map(|m| m as usize), enq: 0, msg: 0, pos: 0, lit: None, done: false, poisoned: false, drained: false, frags: 0 }
    }
    fn enqueue(&mut self, stream: &[u8], upto: usize) {
        self.f.enqueue_bytes(&stream[self.enq..upto]);
        self.enq = upto;
        self.drained = false;
    }
    /// Facts that hold at every instant.
    fn invariant(&self, stream: &[u8]) -> R {
        let b = self.f.message_bytes();
        ensure!(
            stream[self.msg..self.enq].starts_with(b),
            "framing: message bytes are not what was sent",
            "message starts at {} of {:?}, but the bytes of the message are {:?}",
            self.msg,
            esc(&stream[..self.enq]),
            esc(b)
        );
        if let Some(max) = self.max {
            ensure!(b.len() <= max, "limit: more bytes kept than allowed", "limit {max}, kept {}", b.len());
        }
        ensure!(
            self.f.is_message_complete() == self.done,
            "framing: wrong completeness",
            "is_message_complete() is {} at byte {} of {:?}",
            self.f.is_message_complete(),
            self.pos,
            esc(&stream[..self.enq])
        );
        ensure!(
            self.f.is_message_poisoned() == self.poisoned,
            "poison: flag wrong",
            "is_message_poisoned() is {}, expected {} at byte {} of {:?}",
            self.f.is_message_poisoned(),
            self.poisoned,
            self.pos,
            esc(&stream[..self.enq])
        );
        Ok(())
    }
    /// One call of `progress`, checked against the reference.
    fn progress(&mut self, ctx: &mut Ctx, stream: &[u8]) -> Result<Option<Frag>, crate::ctx::Violation> {
        ctx.step();
        if self.done {
            self.done = false;
            self.poisoned = false;
            self.msg = self.pos;
        }
        let want = lexref::next(&stream[..self.enq], self.msg, self.pos, self.lit);
        let got = self.f.progress();
        ctx.log(|| format!("progress -> {got:?}"));
        match (got, want) {
            (None, None) => {
                self.drained = true;
                self.invariant(stream)?;
                Ok(None)
            }
            (Some(g), Some(w)) => {
                ensure!(agrees(g, &w), "framing: wrong fragment", "got {g:?}, expected {w:?} at byte {} of {:?}", self.pos, esc(&stream[..self.enq]));
                self.frags += 1;
                self.pos = self.msg + w.end;
                self.lit = w.announce.map(|a| a.0);
                self.done = w.last;
                self.invariant(stream)?;
                // Which bytes are there now is settled: everything up to the limit.
                let len = self.pos - self.msg;
                let kept = self.max.map_or(len, |m| m.min(len));
                let b = self.f.message_bytes();
                ensure!(
                    b == &stream[self.msg..self.msg + kept],
                    "framing: message bytes are not what was sent",
                    "expected {:?}, got {:?}",
                    esc(&stream[self.msg..self.msg + kept]),
                    esc(b)
                );
                let exceeded = self.max.is_some_and(|m| len > m);
                ensure!(
                    self.f.is_max_message_size_exceeded() == exceeded,
                    "limit: flag wrong",
                    "message has {len} bytes, limit {:?}, but is_max_message_size_exceeded() is {}",
                    self.max,
                    self.f.is_max_message_size_exceeded()
                );
                let fb = self.f.fragment_bytes(g);
                let (a, z) = (w.start.min(kept), w.end.min(kept));
                ensure!(
                    fb == &stream[self.msg + a..self.msg + z],
                    "framing: fragment bytes are not what was sent",
                    "expected {:?}, got {:?}",
                    esc(&stream[self.msg + a..self.msg + z]),
                    esc(fb)
                );
                ensure!(g.range() == (w.start..w.end), "framing: wrong range", "{g:?} has range {:?}", g.range());
                Ok(Some(w))
            }
            (g, w) => Err(crate::ctx::viol(
                if g.is_none() { "framing: fragment withheld" } else { "framing: fragment invented" },
                format!("progress returned {g:?}, expected {w:?}; stream so far {:?}, position {}", esc(&stream[..self.enq]), self.pos),
            )),
        }
    }
    /// The verdict on the current (complete) message must be the decoder's on its bytes, unless it is too long or poisoned.
    fn verdict(&self, ctx: &mut Ctx, stream: &[u8], kind: Kind) -> Result<Whole, crate::ctx::Violation> {
        let bytes = &stream[self.msg..self.pos];
        let got = kind.decode_message(&self.f);
        let too_long = self.max.is_some_and(|m| bytes.len() > m);
        let kept = &bytes[..self.max.map_or(bytes.len(), |m| m.min(bytes.len()))];
        match &got {
            Whole::TooLong(b) => {
                ensure!(too_long, "limit: short message rejected", "a message of {} bytes was rejected as too long (limit {:?})", bytes.len(), self.max);
                ensure!(b == kept, "limit: wrong initial bytes", "got {:?}, expected {:?}", esc(b), esc(kept));
                ctx.probe("too_long");
            }
            Whole::Poisoned(b) => {
                ensure!(self.poisoned, "poison: healthy message rejected", "message {:?} was rejected as poisoned", esc(bytes));
                ensure!(b == kept, "poison: wrong discarded bytes", "got {:?}, expected {:?}", esc(b), esc(kept));
                ctx.probe("poisoned");
            }
            w => {
                ensure!(!too_long, "limit: too long message decoded", "message of {} bytes (limit {:?}) decoded to {w:?}", bytes.len(), self.max);
                ensure!(!self.poisoned, "poison: poisoned message decoded", "poisoned message {:?} decoded to {w:?}", esc(bytes));
                let alone = kind.decode_whole(bytes);
                ensure!(alone.same(w), "isolation: verdict depends on history", "{:?} alone: {alone:?}, in the stream: {w:?}", esc(bytes));
                ctx.probe(match w {
                    Whole::Ok(_) => "decoded",
                    Whole::Remainder(..) => "remainder",
                    _ => "rejected",
                });
            }
        }
        Ok(got)
    }
    fn observe_state(&self, ctx: &mut Ctx, stream: &[u8]) {
        let mut m = Mix::new();
        let at = |i: usize| stream.get(i).map_or(15, |b| class(*b));
        let lit = match self.lit {
            Some(n) => 1 + ((n as u64).saturating_sub((self.enq - self.pos) as u64)).min(40),
            None => 0,
        };
        m.u(lit).u(at(self.enq)).u(if self.enq > 0 { at(self.enq - 1) } else { 14 }).u(if self.enq > 1 { at(self.enq - 2) } else { 14 });
        m.u(if self.enq > 2 { at(self.enq - 3) } else { 14 });
        m.u((self.enq - self.pos).min(6) as u64).u(self.done as u64).u(self.poisoned as u64).u(self.frags.min(8));
        if let Some(max) = self.max {
            m.u(((self.enq - self.msg) as i64 - max as i64).clamp(-3, 3) as u64);
        }
        ctx.state(m.0);
    }
}

/// Harmless questions an application may ask at any moment.
fn pry(ctx: &mut Ctx, r: &Recv, kind: Kind) {
    // (Looking costs time in the length of the stream.)
    if ctx.t.chance(1, 4) && (r.pos < 4000 || ctx.t.chance(1, 50)) {
        match ctx.t.below(4) {
            0 => {
                let _ = r.f.decode_tag();
            }
            1 => {
                let _ = kind.decode_message(&r.f);
            }
            2 => {
                let _ = r.f.message_bytes().len();
            }
            _ => {
                let _ = format!("{:?}", r.f);
            }
        }
        ctx.probe("pry");
    }
}

fn cut_short(ctx: &mut Ctx, bytes: &mut Vec<u8>) {
    if ctx.t.chance(1, 4) && !bytes.is_empty() {
        let n = ctx.t.usize(bytes.len());
        bytes.truncate(n);
        ctx.fault("eof");
    }
}

/// Delivers `stream` to `r`; `hook` runs after each call of `progress` with its result.
fn deliver(
    ctx: &mut Ctx,
    r: &mut Recv,
    stream: &[u8],
    mut hook: impl FnMut(&mut Ctx, &mut Recv, Option<&Frag>) -> R,
) -> R {
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, stream);
    let lazy = ctx.t.below(4);
    for (i, s) in segs.iter().enumerate() {
        ctx.now_us = ctx.now_us.max(s.at_us);
        r.enqueue(stream, s.end);
        ctx.log(|| format!("deliver {}..{} {:?}", s.start, s.end, esc(&stream[s.start..s.end])));
        r.observe_state(ctx, stream);
        // The connection is handed over to another task, with a copy of the state.
        if ctx.t.chance(1, 24) {
            r.f = r.f.clone();
            ctx.fault("handover");
        }
        // A slow receiver does not always get to it.
        if lazy > 1 && i + 1 < segs.len() && ctx.t.chance(lazy - 1, 6) {
            ctx.fault("receiver_stalled");
            if lazy == 3 && ctx.t.bool() {
                let f = r.progress(ctx, stream)?;
                hook(ctx, r, f.as_ref())?;
            }
            continue;
        }
        loop {
            let f = r.progress(ctx, stream)?;
            hook(ctx, r, f.as_ref())?;
            if f.is_none() && r.drained {
                break;
            }
        }
        // Asking again changes nothing.
        if ctx.t.chance(1, 8) {
            let f = r.progress(ctx, stream)?;
            hook(ctx, r, f.as_ref())?;
        }
    }
    // Whatever was enqueued is worked off.
    loop {
        let f = r.progress(ctx, stream)?;
        hook(ctx, r, f.as_ref())?;
        if f.is_none() && r.drained {
            break;
        }
    }
    Ok(())
}

/// Framing is a function of the stream, not of its delivery.
pub fn c01(ctx: &mut Ctx) -> R {
    let mut s = compose(ctx, 6, 5);
    cut_short(ctx, &mut s.bytes);
    ctx.log(|| format!("stream {:?}", esc(&s.bytes)));
    let mut r = Recv::new(if ctx.t.bool() { Some(u32::MAX) } else { None });
    let kind = s.kind;
    deliver(ctx, &mut r, &s.bytes, |ctx, r, _| {
        pry(ctx, r, kind);
        Ok(())
    })?;
    let all = lexref::lex(&s.bytes).len() as u64;
    ensure!(r.frags == all, "framing: fragment withheld", "{} of {all} fragments", r.frags);
    Ok(())
}

/// The size limit bounds what is kept, and nothing else.
pub fn c02(ctx: &mut Ctx) -> R {
    if ctx.t.chance(1, 24) {
        return c02_flood(ctx);
    }
    let mut s = compose(ctx, 5, 3);
    cut_short(ctx, &mut s.bytes);
    // Interesting limits lie around the ends of fragments.
    let ends: Vec<usize> = lexref::lex(&s.bytes).iter().map(|(_, f)| f.end).collect();
    let max = match ctx.t.below(4) {
        0 => ctx.t.below(40) as u32,
        1 => ctx.t.below(s.bytes.len() as u64 + 2) as u32,
        _ if ends.is_empty() => 0,
        _ => {
            let e = *ctx.t.pick(&ends) as u32;
            (e + ctx.t.below(3) as u32).saturating_sub(1)
        }
    };
    ctx.log(|| format!("limit {max}, stream {:?}", esc(&s.bytes)));
    let mut r = Recv::new(Some(max));
    let stream = s.bytes.clone();
    let kind = s.kind;
    let mut seen = vec![];
    deliver(ctx, &mut r, &stream, |ctx, r, f| {
        pry(ctx, r, kind);
        if f.is_some() && r.done {
            let w = r.verdict(ctx, &stream, kind)?;
            if r.pos - r.msg > max as usize {
                ctx.fault("oversized_message");
            }
            if (r.pos - r.msg) as u32 == max {
                ctx.probe("exactly_at_limit");
            }
            seen.push((r.msg, w));
        }
        Ok(())
    })?;
    // Messages within the limit got through, whatever came before them.
    let ms: std::collections::BTreeSet<(usize, usize)> = lexref::messages(&stream).into_iter().collect();
    for (start, end, m) in &s.sent {
        if *end <= stream.len() && end - start <= max as usize && ms.contains(&(*start, *end)) {
            let ok = seen.binary_search_by_key(start, |(p, _)| *p).is_ok_and(|i| matches!(&seen[i].1, Whole::Ok(x) if x.same(m)));
            ensure!(ok, "limit: message after an oversized one lost", "{:?} was not received", esc(&stream[*start..*end]));
        }
    }
    Ok(())
}

/// A peer that announces and sends far more than allowed; memory stays bounded.
fn c02_flood(ctx: &mut Ctx) -> R {
    ctx.fault("flood");
    let max = *ctx.t.pick(&[100u32, 0, 1, 1000, 5000]);
    let chunk = *ctx.t.pick(&[4096usize, 512, 16384]);
    let total = *ctx.t.pick(&[300_000usize, 60_000, 1_500_000]);
    let total = total / chunk * chunk;
    let announced = *ctx.t.pick(&[u32::MAX, total as u32, u32::MAX - 1, 2_000_000_000, total as u32]);
    let by_line = ctx.t.bool();
    let mut head = b"A1 APPEND x ".to_vec();
    if !by_line {
        head.extend(format!("{{{announced}{}}}\r\n", if ctx.t.bool() { "+" } else { "" }).as_bytes());
    }
    let fill = vec![*ctx.t.pick(b"x{0\n"); chunk];
    let fill: Vec<u8> = if by_line { fill.iter().map(|b| if *b == b'\n' { b'y' } else { *b }).collect() } else { fill };
    ctx.log(|| format!("flood: limit {max}, head {:?}, {total} bytes in chunks of {chunk}", esc(&head)));
    let bound = 64 * 1024 + 8 * chunk as i64 + 8 * max as i64;
    let literal = if by_line { usize::MAX } else { announced as usize };
    let (res, peak) = alloc::peak_of(|| -> R {
        let mut f = Fragmentizer::new(max);
        f.enqueue_bytes(&head);
        let first = f.progress();
        ensure!(first.is_some() != by_line, "framing: wrong fragment", "progress returned {first:?} for {:?}", esc(&head));
        let mut sent = 0usize;
        let mut literal_done = false;
        while sent < total {
            f.enqueue_bytes(&fill);
            sent += fill.len();
            while let Some(info) = f.progress() {
                ensure!(
                    !by_line && !literal_done && sent >= literal && matches!(info, FragmentInfo::Literal { .. }) || literal_done,
                    "framing: fragment invented",
                    "{info:?} after {sent} bytes of {literal}"
                );
                literal_done = true;
            }
            ensure!(f.message_bytes().len() <= max as usize, "limit: more bytes kept than allowed", "limit {max}, kept {}", f.message_bytes().len());
        }
        // The flood ends, and the next message is as good as any.
        if by_line || literal_done {
            f.enqueue_bytes(b"\r\nA2 NOOP\r\n");
            let end = f.progress();
            ensure!(f.is_message_complete() && f.is_max_message_size_exceeded() && end.is_some_and(|i| i.range().end == head.len() + sent + 2), "limit: the end of an oversized message is not found", "{end:?} after {} bytes", head.len() + sent);
            let kept = &f.message_bytes()[..];
            ensure!(kept.len() == max as usize && kept.iter().zip(head.iter().chain(fill.iter().cycle())).all(|(a, b)| a == b), "limit: wrong initial bytes", "{} bytes kept", kept.len());
            let w = Kind::Command.decode_message(&f);
            ensure!(matches!(w, Whole::TooLong(_)), "limit: too long message decoded", "{w:?}");
            let next = f.progress();
            ensure!(next.is_some_and(|i| i.range() == (0..9)) && f.is_message_complete() && f.is_max_message_size_exceeded() == (max < 9), "limit: message after an oversized one lost", "{next:?}");
            let w = Kind::Command.decode_message(&f);
            ensure!(if max < 9 { matches!(w, Whole::TooLong(_)) } else { matches!(w, Whole::Ok(_)) }, "limit: message after an oversized one lost", "{w:?}");
        }
        Ok(())
    });
    res?;
    ensure!(
        peak <= bound,
        "limit: memory grows with what the peer sends",
        "limit {max} bytes, read {chunk} bytes at a time, {total} bytes sent: the heap grew by {peak} bytes (allowed {bound})"
    );
    ctx.now_us += total as u64;
    ctx.state(Mix::new().u(max as u64).u(chunk as u64).u(total as u64).u(by_line as u64).0);
    Ok(())
}

/// Poisoning and skipping, at any instant.
pub fn c03(ctx: &mut Ctx) -> R {
    let mut s = compose(ctx, 6, 4);
    cut_short(ctx, &mut s.bytes);
    ctx.log(|| format!("stream {:?}", esc(&s.bytes)));
    let max = if ctx.t.chance(1, 4) { Some(ctx.t.below(s.bytes.len() as u64 + 2) as u32) } else { None };
    let mut r = Recv::new(max);
    let rate = *ctx.t.pick(&[2u64, 1, 4]);
    let skips = ctx.t.bool();
    let stream = s.bytes.clone();
    let kind = s.kind;
    deliver(ctx, &mut r, &stream, |ctx, r, f| {
        pry(ctx, r, kind);
        if f.is_some() && r.done {
            r.verdict(ctx, &stream, kind)?;
        }
        if !ctx.t.chance(rate, 12) {
            return Ok(());
        }
        if skips && ctx.t.bool() {
            // Everything that `progress` consumed is gone: up to the end of the fragment, or all that was enqueued.
            let at = if f.is_some() { r.pos } else { r.enq };
            ctx.fault(if f.is_none() {
                "skip_mid_fragment"
            } else if r.done {
                "skip_complete"
            } else if r.lit.is_some() {
                "skip_at_announcement"
            } else {
                "skip_after_literal"
            });
            ctx.log(|| format!("skip at {at}"));
            r.f.skip_message();
            r.msg = at;
            r.pos = at;
            r.lit = None;
            r.done = false;
            r.poisoned = false;
            r.invariant(&stream)?;
            ensure!(r.f.message_bytes().is_empty(), "skip: bytes left over", "{:?} is left after skipping", esc(r.f.message_bytes()));
            ensure!(!r.f.is_max_message_size_exceeded(), "skip: limit flag left over", "limit flag survived skipping");
            ensure!(r.f.decode_tag().is_none(), "skip: tag left over", "decode_tag() is {:?} after skipping", r.f.decode_tag());
        } else {
            ctx.fault(if f.is_none() {
                "poison_mid_fragment"
            } else if r.done {
                "poison_complete"
            } else {
                "poison_mid_message"
            });
            ctx.log(|| "poison".into());
            r.f.poison_message();
            r.poisoned = true;
            r.invariant(&stream)?;
            let w = kind.decode_message(&r.f);
            ensure!(matches!(w, Whole::Poisoned(_) | Whole::TooLong(_)), "poison: poisoned message decoded", "right after poisoning: {w:?}");
            if r.done {
                r.verdict(ctx, &stream, kind)?;
            }
        }
        Ok(())
    })
}

/// The tag of a message, as far as its first bytes tell.
fn ref_tag(b: &[u8]) -> Option<Vec<u8>> {
    let sp = b.iter().position(|c| *c == b' ' || *c == b'\n')?;
    if b[sp] == b'\n' || sp == 0 {
        return None;
    }
    let t = &b[..sp];
    let ok = t.iter().all(|c| (0x21..0x7f).contains(c) && !b"(){%*\"\\+".contains(c));
    ok.then(|| t.to_vec())
}

/// A malformed message harms neither its neighbours nor the connection.
pub fn c04(ctx: &mut Ctx) -> R {
    let mut s = compose(ctx, 7, 3);
    cut_short(ctx, &mut s.bytes);
    ctx.log(|| format!("stream {:?}", esc(&s.bytes)));
    let max = if ctx.t.chance(1, 5) { Some(ctx.t.below(s.bytes.len() as u64 + 2) as u32) } else { None };
    let mut r = Recv::new(max);
    let stream = s.bytes.clone();
    let kind = s.kind;
    let mut seen: Vec<(usize, usize, Whole)> = vec![];
    deliver(ctx, &mut r, &stream, |ctx, r, f| {
        pry(ctx, r, kind);
        if f.is_none() {
            return Ok(());
        }
        // At every fragment the tag, if there is one, can be recovered.
        let kept = r.max.map_or(r.pos - r.msg, |m| m.min(r.pos - r.msg));
        let want = ref_tag(&stream[r.msg..r.msg + kept]);
        let got = r.f.decode_tag().map(|t| t.inner().as_bytes().to_vec());
        ensure!(got == want, "isolation: wrong tag recovered", "from {:?}: {:?}, expected {:?}", esc(&stream[r.msg..r.pos]), got.map(|t| esc(&t)), want.map(|t| esc(&t)));
        if r.done {
            // Sometimes ask twice, sometimes as the wrong kind of message (the peer is out of step).
            if ctx.t.chance(1, 5) {
                let other = *ctx.t.pick(&crate::wire::KINDS);
                r.verdict(ctx, &stream, other)?;
                ctx.fault("wrong_codec");
            }
            let w = r.verdict(ctx, &stream, kind)?;
            if !matches!(w, Whole::Ok(_)) {
                ctx.fault("malformed_message");
            }
            seen.push((r.msg, r.pos, w));
        }
        Ok(())
    })?;
    let ms = lexref::messages(&stream);
    ensure!(seen.len() == ms.len(), "isolation: messages lost", "{} of {} messages", seen.len(), ms.len());
    let at: std::collections::BTreeSet<(usize, usize)> = ms.into_iter().collect();
    for (start, end, m) in &s.sent {
        // Framed as it was sent, and short enough: then it arrives as it was sent.
        if at.contains(&(*start, *end)) && max.is_none_or(|x| end - start <= x as usize) {
            let got = seen.binary_search_by_key(start, |x| x.0).ok().map(|i| &seen[i].2);
            ensure!(
                matches!(got, Some(Whole::Ok(x)) if x.same(m)),
                "isolation: healthy message lost",
                "sent {m:?} as {:?}, got {got:?}",
                esc(&stream[*start..*end])
            );
        }
    }
    Ok(())
}
