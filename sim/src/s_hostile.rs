//! A hostile peer: it may send anything. It must not crash, wedge or bloat the receiver (C09, C20), nor keep honest
//! messages behind its own from being received (C09).

use imap_codec::fragmentizer::Fragmentizer;

use crate::{
    alloc,
    ctx::{Ctx, R, esc},
    ensure,
    gens::{Cfg, G},
    lexref,
    net::Profile,
    s_frame::mutate,
    tape::Mix,
    wire::{Kind, Msg, Whole},
};

const CMD_PREFIX: &[&str] = &[
    "A SEARCH ", "A UID SEARCH CHARSET x ", "A THREAD REFERENCES UTF-8 ", "A SORT (", "A SORT (DATE) UTF-8 ", "A FETCH 1 (", "A FETCH 1 BODY[", "A FETCH 1 BINARY.PEEK[", "A FETCH ",
    "A APPEND INBOX (", "A APPEND x ", "A STORE 1 FLAGS (", "A STORE 1 +FLAGS ", "A STATUS x (", "A ID (", "A SETQUOTA x (", "A SETMETADATA x (", "A GETMETADATA (", "A GETMETADATA x (",
    "A SELECT x (", "A SELECT x (QRESYNC (1 1 ", "A ENABLE ", "A LOGIN ", "A LOGIN \"", "A AUTHENTICATE PLAIN ", "A LIST \"\" ", "A ", "", "A COPY ", "A UID EXPUNGE ", "A COMPRESS ", "A CREATE {",
    "A FETCH 1 BODY.PEEK[HEADER.FIELDS (", "A FETCH 1 (BODY[]<", "A STORE 1 (UNCHANGEDSINCE ",
];
const RSP_PREFIX: &[&str] = &[
    "* 1 FETCH (BODYSTRUCTURE ", "* 1 FETCH (BODY ", "* 1 FETCH (ENVELOPE (", "* 1 FETCH (ENVELOPE (NIL NIL ", "* 1 FETCH (FLAGS (", "* 1 FETCH (BODY[", "* 1 FETCH (BINARY[", "* 1 FETCH (BODY[] ",
    "* 1 FETCH (", "* THREAD ", "* SEARCH ", "* SORT ", "* LIST (", "* LSUB () \"/\" ", "* STATUS x (", "* OK [", "* OK [CAPABILITY ", "* OK [PERMANENTFLAGS (", "* NAMESPACE ", "* METADATA x (",
    "* ID (", "* QUOTA x (", "* QUOTAROOT x ", "* VANISHED ", "* OK [COPYUID 1 ", "* OK [COPYUID 1 1:4 ", "+ ", "* ", "", "A OK ", "* FLAGS (", "* CAPABILITY ", "* BYE ", "* 1 ", "* ENABLED ",
    "* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL ", "* 1 FETCH (BODYSTRUCTURE (\"A\" \"B\" (", "* 1 FETCH (INTERNALDATE ", "* OK [BADCHARSET (",
    "* PREAUTH [CAPABILITY ", "* OK [UIDNEXT ", "* NO [METADATA ", "* OK [MODIFIED ", "* LIST () NIL ",
];
/// What is piled up, and what closes it again.
const NEST: &[(&str, &str, &str)] = &[
    ("(", ")", ""),
    ("(", ")", "1"),
    ("(", ")", "ALL"),
    ("(", ")", "\"a\""),
    ("(", ")", "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)"),
    ("(", " \"MIXED\")", "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)"),
    ("(", " \"MIXED\" NIL NIL NIL NIL)", "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)"),
    (
        "(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ",
        " 1)",
        "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)",
    ),
    (
        "((\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ",
        " 1) \"MIXED\")",
        "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)",
    ),
    ("NOT ", "", "ALL"),
    ("OR ", " ALL", "ALL"),
    ("OR ALL ", "", "ALL"),
    ("(NOT ", ")", "ALL"),
    ("NOT (", ")", "ALL"),
    ("OR (", ") SEEN", "ALL"),
    ("(1 ", ")", "2"),
    ("((1)", ")", "(2)"),
    ("(1 2 (3)", ")", "(4 5)"),
    ("(\"a\" ", ")", "NIL"),
    ("(NIL ", ")", "1"),
    ("((NIL NIL ", "))", "1"),
    ("[", "]", "1"),
    ("<", ">", "1"),
    ("\"", "\"", "x"),
    ("{", "}", "1"),
    ("1.", "", "1"),
    ("1:", "", "1"),
    ("BODY[", "]", "1"),
    ("(BODYSTRUCTURE ", ")", "NIL"),
];
const LONG: &[&str] = &[
    "a", "\"", "\\", "\\\\", "\\\"", " ", "0", "9", "1,", "1:2,", "*,", "NIL ", "\"\" ", "() ", "\\Seen ", "ALL ", "UID 1 ", "(", ")", "{0}\r\n ", "\0", "\u{fc}", "a=", "A ", "1 ", "1.", "%", "*",
    "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)", "(NIL NIL NIL NIL)", "FLAGS () ", "IMAP4rev1 ", "\r", "{", "~{0}\r\n ", "(1)", "(1 2)", "1 (", "BODY[] NIL ", "MESSAGES 1 ", "STORAGE 1 2 ",
    "HEADER.FIELDS (a) ", "DATE ", "=", "+", "AAAA", "4294967295,", "4294967294:4294967295,", "NOT ", "OR ", "KEYWORD a ", "SEEN ", "((\"\" \"/\")) ",
];

fn times(ctx: &mut Ctx) -> usize {
    let t = &mut ctx.t;
    match t.below(10) {
        0..=3 => 1 + t.usize(24),
        4..=6 => 1 + t.usize(300),
        7..=8 => 1 + t.usize(4000),
        _ => 1 + t.usize(60_000),
    }
}

/// One message (or a torrent of bytes) of a hostile peer.
pub fn hostile(ctx: &mut Ctx, kind: Kind, cfg: &Cfg) -> Vec<u8> {
    let prefixes = if matches!(kind, Kind::Command) { CMD_PREFIX } else { RSP_PREFIX };
    let mut out: Vec<u8> = vec![];
    match ctx.t.below(8) {
        0..=2 => {
            ctx.fault("nesting");
            out.extend(ctx.t.pick(prefixes).bytes());
            let (open, close, core) = *ctx.t.pick(NEST);
            let n = times(ctx).min(4_000_000 / open.len());
            let m = match ctx.t.below(4) {
                0 => ctx.t.usize(n + 2),
                _ => n,
            };
            out.extend(open.repeat(n).bytes());
            out.extend(core.bytes());
            out.extend(close.repeat(m).bytes());
            for _ in 0..ctx.t.usize(3) {
                out.push(*ctx.t.pick(b")] \""));
            }
        }
        3..=4 => {
            ctx.fault("flood");
            out.extend(ctx.t.pick(prefixes).bytes());
            for _ in 0..1 + ctx.t.usize(2) {
                let unit = *ctx.t.pick(LONG);
                let n = times(ctx) * if ctx.t.chance(1, 10) { 10 } else { 1 };
                out.extend(unit.repeat(n.min(1_000_000 / unit.len())).bytes());
            }
            out.extend(ctx.t.pick(&["", ")", " ", "x", "\"", "] x", "))"]).bytes());
        }
        5 => {
            ctx.fault("announcement");
            out.extend(ctx.t.pick(prefixes).bytes());
            let n = match ctx.t.below(4) {
                0 => ctx.t.u32() as u64,
                1 => ctx.t.u64(),
                2 => ctx.t.below(40),
                _ => u32::MAX as u64,
            };
            let p = *ctx.t.pick(&["", "+", "-", "++"]);
            let pre = *ctx.t.pick(&["", "~", "\"", "(", "00"]);
            out.extend(format!("{pre}{{{n}{p}}}\r\n").bytes());
            let k = ctx.t.usize(30);
            for _ in 0..k {
                out.push(ctx.t.below(256) as u8);
            }
        }
        6 => {
            ctx.fault("corrupt");
            out = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes();
            for _ in 0..1 + ctx.t.usize(3) {
                mutate(ctx, &mut out);
            }
            return out;
        }
        _ => {
            // A bomb inside an honest message.
            ctx.fault("splice");
            out = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes();
            let i = ctx.t.usize(out.len() + 1);
            let (open, close, core) = *ctx.t.pick(NEST);
            let n = times(ctx);
            let bomb = format!("{}{core}{}", open.repeat(n), close.repeat(n));
            out.splice(i..i, bomb.into_bytes());
            return out;
        }
    }
    out.extend_from_slice(ctx.t.pick(&[b"\r\n".as_slice(), b"\n", b"\r\n", b""]));
    out
}

/// Everything an application does with a value it received.
fn use_value(m: &Msg) -> usize {
    let copy = m.clone();
    let n = format!("{copy:?}").len();
    let bytes = copy.bytes();
    let again = m.kind().decode(&bytes).is_ok();
    assert!(copy == *m);
    drop(copy);
    n + bytes.len() + again as usize
}

pub fn c09(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let mut stream = vec![];
    let mut honest: Vec<(usize, usize, Msg)> = vec![];
    let n = 1 + ctx.t.usize(3);
    for _ in 0..n {
        let b = hostile(ctx, kind, &cfg);
        ctx.log(|| format!("peer sends {:?} ({} bytes)", esc(&b), b.len()));
        stream.extend(b);
        if ctx.t.bool() {
            let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
            let b = m.bytes();
            honest.push((stream.len(), stream.len() + b.len(), m));
            stream.extend(b);
        }
    }
    // What the receiver will see as messages: known only now, since a bomb may swallow what follows it.
    let real: Vec<(usize, usize)> = lexref::messages(&stream);
    honest.retain(|(s, e, _)| real.contains(&(*s, *e)));
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let limit = match ctx.t.below(3) {
        0 => Some(ctx.t.usize(4000) as u32),
        _ => None,
    };
    let mut f = match limit {
        Some(l) => Fragmentizer::new(l),
        None => Fragmentizer::without_max_message_size(),
    };
    // The application asks for partial messages too, but not at each byte of a megabyte.
    let mut asks = 20usize;
    let mut done = 0;
    let mut got = 0;
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        f.enqueue_bytes(&stream[s.start..s.end]);
        while f.progress().is_some() {
            ctx.step();
            let complete = f.is_message_complete();
            if complete || asks > 0 {
                asks = asks.saturating_sub(1);
                let _ = f.decode_tag();
                let len = f.message_bytes().len();
                let w = kind.decode_message(&f);
                let mut m = Mix::new();
                m.u(match &w {
                    Whole::Ok(_) => 0,
                    Whole::Err(_) => 1,
                    Whole::Remainder(..) => 2,
                    Whole::TooLong(_) => 3,
                    Whole::Poisoned(_) => 4,
                });
                m.u((len as u64 + 1).ilog2() as u64).u(kind as u64).b(&f.message_bytes()[..len.min(14)]);
                ctx.state(m.0);
                match &w {
                    Whole::Ok(v) | Whole::Remainder(v, _) => {
                        ctx.probe("accepted");
                        use_value(v);
                    }
                    Whole::Err(_) => ctx.probe("refused"),
                    _ => ctx.probe("too_long"),
                }
                if complete && done < real.len() {
                    let at = real[done];
                    if let Some((s, e, m)) = honest.iter().find(|h| (h.0, h.1) == at) {
                        if limit.map(|l| l as usize >= e - s).unwrap_or(true) {
                            ensure!(matches!(&w, Whole::Ok(v) if v.same(m)), "hostile: an honest message was not received", "{m:?} came as {:?}, behind {:?}: {w:?}", esc(&stream[*s..*e]), esc(&stream[..*s]));
                            ctx.probe("honest");
                            got += 1;
                        }
                    }
                }
            }
            if complete {
                done += 1;
            }
        }
        ensure!(f.progress().is_none(), "hostile: the receiver does not come to rest", "after {} bytes", s.end);
    }
    ensure!(done == real.len(), "hostile: messages lost", "{} of {} messages seen, {} honest ones received", done, real.len(), got);
    // The same bytes straight into the decoder, as a receiver without a fragmentizer does, at a few instants.
    let mut cuts: Vec<usize> = vec![stream.len()];
    for _ in 0..ctx.t.usize(3) {
        cuts.push(ctx.t.usize(stream.len() + 1));
    }
    let start = if real.is_empty() { 0 } else { real[ctx.t.usize(real.len())].0 };
    for c in cuts {
        if c >= start {
            if let Ok((_, m)) = kind.decode(&stream[start..c]) {
                use_value(&m);
            }
            let _ = kind.decode_static(&stream[start..c]);
        }
    }
    Ok(())
}

/// Heap growth allowed for a message of `n` bytes: far above what the widest type needs per byte on the wire.
fn budget(n: usize) -> i64 {
    8 * 1024 + 400 * n as i64
}
fn call_budget(n: usize) -> u64 {
    128 + 4 * n as u64
}

/// Heap growth allowed to the buffers behind `n` bytes received: two buffers that grow by doubling, with room to spare.
fn frame_budget(n: usize) -> i64 {
    4 * 1024 + 24 * n as i64
}

pub fn c20(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let mut stream = if ctx.t.chance(1, 5) { Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind).bytes() } else { hostile(ctx, kind, &cfg) };
    if ctx.t.chance(1, 4) {
        let more = hostile(ctx, kind, &cfg);
        stream.extend(more);
    }
    ctx.log(|| format!("peer sends {:?} ({} bytes)", esc(&stream), stream.len()));
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut asks = 12;
    let mut worst = (0i64, 0u64);
    // The receiver's buffers: they hold what was received, not what was announced.
    let mut frag = match ctx.t.below(4) {
        0 => Some(Fragmentizer::without_max_message_size()),
        1 => Some(Fragmentizer::new(*ctx.t.pick(&[0, 1, 16, 1024, 1 << 20, u32::MAX]))),
        _ => None,
    };
    let mut held = 0;
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        if let Some(f) = &mut frag {
            let before = alloc::live();
            let got = s.end;
            let (_, peak) = alloc::peak_of(|| {
                f.enqueue_bytes(&stream[s.start..s.end]);
                while f.progress().is_some() {}
            });
            let grown = held + peak;
            held += alloc::live() - before;
            ensure!(grown <= frame_budget(got), "memory: framing grows the heap out of proportion", "{} bytes for {} bytes received: {:?}", grown, got, esc(&stream[..got]));
            ctx.probe("framed");
        }
        if s.end < stream.len() {
            if asks == 0 {
                continue;
            }
            asks -= 1;
        }
        let b = &stream[..s.end];
        let c0 = alloc::count();
        let (r, peak) = alloc::peak_of(|| kind.decode(b));
        let calls = alloc::count() - c0;
        ensure!(peak <= budget(b.len()), "memory: decoding grows the heap out of proportion", "{} bytes for {} bytes received: {:?}", peak, b.len(), esc(b));
        ensure!(calls <= call_budget(b.len()), "memory: decoding allocates out of proportion", "{} allocations for {} bytes received: {:?}", calls, b.len(), esc(b));
        worst = (worst.0.max(peak / (b.len() as i64 + 16)), worst.1.max(100 * calls / (b.len() as u64 + 16)));
        let mut m = Mix::new();
        m.u(kind as u64).u((peak + 1).ilog2() as u64).u((b.len() as u64 + 1).ilog2() as u64).u(calls.max(1).ilog2() as u64).u(r.is_ok() as u64);
        ctx.state(m.0);
        if let Ok((rem, v)) = r {
            ctx.probe("accepted");
            let used = b.len() - rem;
            // Holding, copying and sending it on is no more expensive.
            let (_, p2) = alloc::peak_of(|| v.clone());
            ensure!(p2 <= budget(used), "memory: a copy of a message is out of proportion", "{} bytes for {} bytes received: {:?}", p2, used, esc(b));
            let (out, p3) = alloc::peak_of(|| v.bytes());
            ensure!(p3 <= budget(used) && out.len() <= 64 + 8 * used, "memory: encoding is out of proportion", "{} bytes of heap, {} bytes of output for {} bytes received: {:?}", p3, out.len(), used, esc(b));
        } else {
            ctx.probe("refused");
        }
    }
    if std::env::var_os("IMAPSIM_WORST").is_some() {
        eprintln!("{} {} {}", worst.1, worst.0, esc(&stream[..stream.len().min(100)]));
    }
    Ok(())
}
