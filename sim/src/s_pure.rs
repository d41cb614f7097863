//! Results depend on the message alone (C19): not on what was decoded before, where in memory the bytes lie, what follows
//! them, which buffer is reused, or who owns the value.

use std::hash::{DefaultHasher, Hash, Hasher};

use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
    decode::Decoder,
    encode::{Encoder, Fragment},
    fragmentizer::Fragmentizer,
    imap_types::{IntoStatic, ToStatic},
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    gens::{Cfg, G},
    gram::{self, Style},
    s_frame::mutate,
    spec,
    tape::Mix,
    wire::{Kind, Msg},
};

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Everything an observer sees of one decode of `b`, with the bytes at `place` of a buffer that is overwritten afterwards.
fn observe(kind: Kind, b: &[u8], buf: &mut Vec<u8>, place: usize, junk: u8) -> Result<String, crate::ctx::Violation> {
    buf.clear();
    buf.resize(place, junk);
    buf.extend_from_slice(b);
    let end = buf.len();
    macro_rules! go {
        ($codec:ident) => {{
            let r = $codec::default().decode(&buf[place..end]);
            match r {
                Err(e) => format!("{e:?}"),
                Ok((rem, m)) => {
                    // The remainder is the rest of the same bytes.
                    ensure!(buf[place..end].ends_with(rem) && rem.as_ptr_range().end == buf[place..end].as_ptr_range().end, "purity: the remainder is not the rest of the input", "{:?} of {:?}", esc(rem), esc(b));
                    let n = rem.len();
                    let before = format!("{m:?}");
                    let wire = $codec::default().encode(&m).dump();
                    let copy = m.clone();
                    let to = m.to_static();
                    ensure!(copy == m && to == m && hash(&copy) == hash(&m) && hash(&to) == hash(&m), "purity: a copy is not equal to the original", "{m:?} {copy:?} {to:?}");
                    let into = m.into_static();
                    // The buffer is reused for something else.
                    for x in buf.iter_mut() {
                        *x = junk;
                    }
                    for (what, v) in [("to_static", &to), ("into_static", &into)] {
                        ensure!(format!("{v:?}") == before, "purity: a value changes when it is made independent of its buffer", "{what}: {before} becomes {v:?}");
                        ensure!($codec::default().encode(v).dump() == wire, "purity: a value is sent differently when it is independent of its buffer", "{what}: {before}");
                    }
                    ensure!(to == into && hash(&to) == hash(&into), "purity: a copy is not equal to the original", "{to:?} {into:?}");
                    let stat = { buf.clear(); buf.extend_from_slice(b); $codec::default().decode_static(&buf[..]).map(|(r, m)| (r.len(), m)) };
                    match stat {
                        Ok((r, s)) => ensure!(r == n && s == into && format!("{s:?}") == before, "purity: decode_static differs from decode", "{before}: {s:?}"),
                        Err(e) => fail!("purity: decode_static differs from decode", "{before}: {e:?}"),
                    }
                    format!("{n} {before} {}", esc(&wire))
                }
            }
        }};
    }
    Ok(match kind {
        Kind::Command => go!(CommandCodec),
        Kind::Response => go!(ResponseCodec),
        Kind::Greeting => go!(GreetingCodec),
        Kind::Auth => go!(AuthenticateDataCodec),
        Kind::Idle => go!(IdleDoneCodec),
    })
}

pub fn c19(ctx: &mut Ctx) -> R {
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 2 + ctx.t.usize(4);
    let mut work: Vec<(Kind, Vec<u8>, Option<Msg>)> = vec![];
    for _ in 0..n {
        let kind = Kind::draw(&mut ctx.t);
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let mut b = m.bytes();
        let mut keep = Some(m.clone());
        match ctx.t.below(5) {
            0 => {
                mutate(ctx, &mut b);
                ctx.fault("corrupt");
                keep = None;
            }
            1 => {
                b = vec![];
                let style = Style::draw(&mut ctx.t, false);
                gram::write(&spec::message(&m), &mut ctx.t, style, &mut b);
                keep = None;
            }
            2 => {
                let k = ctx.t.usize(b.len() + 1);
                b.truncate(k);
                ctx.fault("eof");
                keep = None;
            }
            _ => {}
        }
        ctx.log(|| format!("{kind:?} {:?}", esc(&b)));
        work.push((kind, b, keep));
    }
    // Senders: the same value is always the same bytes, however the fragments are taken.
    for (_, _, m) in &work {
        let Some(m) = m else { continue };
        let whole = m.bytes();
        let again = m.clone();
        ensure!(again == *m && again.bytes() == whole, "purity: a value is sent differently the second time", "{m:?}");
        let mut e = m.encoded();
        let mut out: Vec<u8> = vec![];
        let mut parts: Vec<Fragment> = vec![];
        let take = ctx.t.usize(4);
        for _ in 0..take {
            if let Some(f) = e.next() {
                parts.push(f);
            }
        }
        let resumed = e.clone();
        for f in &parts {
            match f {
                Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend(data),
            }
        }
        let mut a = out.clone();
        a.extend(e.dump());
        ensure!(a == whole, "purity: the fragments are not the message", "{m:?}: {:?} and {:?}", esc(&a), esc(&whole));
        for f in resumed {
            match f {
                Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend(data),
            }
        }
        ensure!(out == whole, "purity: the fragments are not the message", "{m:?}: {:?} and {:?}", esc(&out), esc(&whole));
    }
    // Receivers: each message alone, then all of them in any order, at any place, in one buffer.
    let mut alone = vec![];
    for (kind, b, _) in &work {
        alone.push(observe(*kind, b, &mut vec![], 0, 0)?);
    }
    let mut buf = vec![];
    for round in 0..2 + ctx.t.usize(4) {
        ctx.step();
        ctx.now_us += 1;
        let i = ctx.t.usize(work.len());
        let place = ctx.t.usize(20);
        let junk = *ctx.t.pick(b"#\r\n\0{\"}) 7");
        let (kind, b, _) = &work[i];
        let now = observe(*kind, b, &mut buf, place, junk)?;
        ensure!(now == alone[i], "purity: the same bytes are decoded differently", "{:?}, alone: {}, in round {round}: {now}", esc(b), alone[i]);
        ctx.fault("reused_buffer");
        // Another decoder looks at the same bytes in between.
        if ctx.t.chance(1, 3) {
            let k = *ctx.t.pick(&crate::wire::KINDS);
            let _ = observe(k, b, &mut buf, place, junk)?;
        }
    }
    // The same through one long-lived connection and through a connection of its own.
    let mut shared = Fragmentizer::without_max_message_size();
    for (kind, b, m) in &work {
        let Some(m) = m else { continue };
        let mut own = Fragmentizer::without_max_message_size();
        own.enqueue_bytes(b);
        shared.enqueue_bytes(b);
        while own.progress().is_some() {}
        loop {
            if shared.progress().is_none() {
                break;
            }
        }
        let (x, y) = (kind.decode_message(&own), kind.decode_message(&shared));
        ensure!(x.same(&y), "purity: the same bytes are received differently on an older connection", "{m:?}: {x:?}, {y:?}");
        // A copy of the connection state behaves as the original does.
        let copy = shared.clone();
        let z = kind.decode_message(&copy);
        ensure!(z.same(&y) && copy.message_bytes() == shared.message_bytes() && copy.is_message_complete() == shared.is_message_complete(), "purity: a copy of the receiver behaves differently", "{m:?}");
    }
    let mut h = Mix::new();
    for (i, (kind, b, _)) in work.iter().enumerate() {
        h.u(*kind as u64).b(&alone[i].as_bytes()[..alone[i].len().min(24)]);
        ctx.states.push(h.0);
        ctx.log(|| format!("{:?} gives {}", esc(b), alone[i]));
        h = Mix::new();
    }
    ctx.sig.b(alone.concat().as_bytes());
    Ok(())
}
