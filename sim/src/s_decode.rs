//! Incremental decoding without the fragmentizer (C05): a receiver that collects bytes in a buffer and asks the decoder
//! after each delivery, as the examples of the repository do.

use imap_codec::imap_types::core::LiteralMode;

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    gens::{Cfg, G},
    lexref,
    net::Profile,
    tape::Mix,
    wire::{Err, Kind, Msg},
};

/// What the decoder must say about the first `n` bytes of a message (all of it is `m`).
fn expect_prefix(frags: &[lexref::Frag], n: usize, kind: Kind, tag: Option<&str>) -> Err {
    for f in frags {
        if let (Some((len, nonsync)), true) = (f.announce, f.end == n) {
            return match kind {
                Kind::Command => Err::Literal(tag.map(|t| t.to_string()), len, Some(if nonsync { LiteralMode::NonSync } else { LiteralMode::Sync })),
                _ => Err::Literal(None, len, None),
            };
        }
    }
    Err::Incomplete
}

pub fn tag_of(m: &Msg) -> Option<&str> {
    match m {
        Msg::Command(c) => Some(c.tag.inner()),
        _ => None,
    }
}

pub fn c05(ctx: &mut Ctx) -> R {
    let kind = Kind::draw(&mut ctx.t);
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(4);
    let mut stream = vec![];
    let mut sent: Vec<(usize, usize, Msg)> = vec![];
    for _ in 0..n {
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let start = stream.len();
        stream.extend(m.bytes());
        sent.push((start, stream.len(), m));
    }
    ctx.log(|| format!("stream {:?}", esc(&stream)));
    let wholes: Vec<Vec<u8>> = sent.iter().map(|(a, z, _)| stream[*a..*z].to_vec()).collect();
    if ctx.t.chance(1, 6) {
        let k = ctx.t.usize(stream.len());
        stream.truncate(k);
        ctx.fault("eof");
    }
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut buf: Vec<u8> = vec![];
    let mut at = 0usize; // absolute position of the start of `buf`
    let mut got = 0usize;
    let frags: Vec<Vec<lexref::Frag>> = wholes.iter().map(|w| lexref::lex(w).into_iter().map(|x| x.1).collect()).collect();
    let mut work = 0usize;
    for s in &segs {
        ctx.now_us = ctx.now_us.max(s.at_us);
        buf.extend_from_slice(&stream[s.start..s.end]);
        ctx.log(|| format!("deliver {:?}", esc(&stream[s.start..s.end])));
        // Looking again and again at a long buffer takes its time: at last only where something happens.
        work += buf.len();
        if work > 10_000_000 && buf.last() != Some(&b'\n') && sent.get(got).is_some_and(|x| x.1 > at + buf.len()) {
            continue;
        }
        loop {
            ctx.step();
            let r = kind.decode(&buf);
            // Owned and borrowed decoding agree.
            let r2 = kind.decode_static(&buf);
            ensure!(r == r2 && (r.is_err() || format!("{r:?}") == format!("{r2:?}")), "incremental: decode and decode_static disagree", "{:?}: {r:?} vs {r2:?}", esc(&buf));
            let Some((start, end, m)) = sent.get(got) else {
                // Nothing more was sent.
                ensure!(buf.is_empty() && r == Result::Err(Err::Incomplete), "incremental: message out of nothing", "{:?} decodes to {r:?}", esc(&buf));
                break;
            };
            assert_eq!(*start, at);
            let have = at + buf.len();
            let mut st = Mix::new();
            st.u(kind as u64).u((have < *end) as u64).u(buf.len().min(64) as u64).u(buf.last().copied().unwrap_or(0) as u64).u(end.saturating_sub(have).min(9) as u64);
            st.u(buf.get(buf.len().saturating_sub(2)).copied().unwrap_or(0) as u64);
            ctx.state(st.0);
            if have < *end {
                let whole = &wholes[got];
                let want = expect_prefix(&frags[got], buf.len(), kind, tag_of(m));
                match &r {
                    Result::Err(e) if *e == want => {
                        if matches!(e, Err::Literal(..)) {
                            ctx.probe("literal_found");
                        }
                    }
                    _ => fail!(
                        match r {
                            Ok(_) => "incremental: message accepted before it was complete",
                            Result::Err(Err::Failed) => "incremental: incomplete message rejected",
                            Result::Err(Err::Literal(..)) => "incremental: literal reported at the wrong place or with wrong details",
                            Result::Err(Err::Incomplete) => "incremental: literal not reported",
                        },
                        "of {:?} only {:?} is there: got {r:?}, expected {want:?}",
                        esc(whole),
                        esc(&buf)
                    ),
                }
                break;
            }
            match r {
                Ok((rem, v)) => {
                    ensure!(v.same(m), "incremental: wrong message", "sent {m:?} as {:?}, got {v:?}", esc(&stream[*start..*end]));
                    let want = have - *end;
                    ensure!(rem == want, "incremental: wrong remainder", "{rem} bytes left of {:?}, expected {want}", esc(&buf));
                    if rem > 0 {
                        ctx.fault("pipelined");
                    }
                    ctx.probe("message");
                    buf.drain(..buf.len() - rem);
                    at = *end;
                    got += 1;
                }
                e => fail!("incremental: complete message not accepted", "{:?} gives {e:?}", esc(&buf)),
            }
        }
    }
    Ok(())
}
