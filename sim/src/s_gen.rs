//! The generators of test values (feature `arbitrary`): what they make out of the simulator's randomness is legal, survives a
//! link, and depends on nothing but that randomness (C22).

use arbitrary::{Arbitrary, Unstructured};
use imap_codec::imap_types::{
    IntoStatic, ToStatic,
    auth::AuthenticateData,
    command::Command,
    response::{Greeting, Response},
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure,
    gram,
    lexref,
    net::Profile,
    s_gram::{Recv, STRICT, describe, sort_of},
    spec,
    tape::Tape,
    wire::{Kind, Msg, Whole},
};

/// Randomness for one value: what a fuzzer would feed.
fn entropy(t: &mut Tape) -> Vec<u8> {
    let n = *t.pick(&[16usize, 64, 256, 1024, 3000]);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let k = 1 + t.usize(12);
        match t.below(6) {
            0 => v.extend(std::iter::repeat_n(0, k)),
            1 => v.extend((0..k).map(|_| t.below(256) as u8)),
            2 => v.extend((0..k).map(|_| t.below(8) as u8)),
            3 => v.extend((0..k).map(|_| 0x20 + t.below(0x5f) as u8)),
            4 => v.extend_from_slice(&t.u64().to_le_bytes()),
            _ => {
                let w: &[&str] = &["INBOX", "\\Seen", "[", "{5}", "\r\n", "nil", "IMAP4rev1", "AUTH=PLAIN", "é", "\"", "\\", "NIL", "]", "%", "*", "PLAIN", "STORAGE"];
                v.extend_from_slice(t.pick(w).as_bytes());
            }
        }
    }
    v.truncate(n);
    // Lengths are taken from the end.
    let k = t.usize(n / 2 + 1);
    let small = 1 + t.below(16);
    for i in 0..k {
        v.push(if t.chance(1, 12) { t.below(256) as u8 } else if i % 2 == 0 || t.bool() { 0 } else { t.below(small) as u8 });
    }
    v
}

/// Up to `max` values from the same randomness, and copies made of them.
fn make(kind: Kind, data: &[u8], max: usize) -> Vec<(Msg, Msg)> {
    macro_rules! go {
        ($t:ident, $m:ident) => {{
            let mut u = Unstructured::new(data);
            let mut v = vec![];
            for _ in 0..40 {
                if v.len() == max {
                    break;
                }
                match $t::arbitrary(&mut u) {
                    Ok(x) => v.push((Msg::$m(x.to_static()), Msg::$m(x.into_static()))),
                    Err(_) => {}
                }
                if u.is_empty() {
                    break;
                }
            }
            v
        }};
    }
    match kind {
        Kind::Command => go!(Command, Command),
        Kind::Response => go!(Response, Response),
        Kind::Greeting => go!(Greeting, Greeting),
        _ => go!(AuthenticateData, Auth),
    }
}

pub fn c22(ctx: &mut Ctx) -> R {
    let kind = *ctx.t.pick(&[Kind::Command, Kind::Response, Kind::Command, Kind::Response, Kind::Greeting, Kind::Auth]);
    let max = 1 + ctx.t.usize(4);
    let data = entropy(&mut ctx.t);
    let made = make(kind, &data, max);
    if made.is_empty() {
        ctx.probe("no_value");
        return Ok(());
    }
    // Elsewhere in memory, later: the same.
    let again = {
        let mut shifted = vec![0u8; 1 + ctx.t.usize(9)];
        let k = shifted.len();
        shifted.extend_from_slice(&data);
        make(kind, &shifted[k..], max)
    };
    ctx.fault("randomness_replayed");
    ensure!(again == made, "generated: the same randomness gives other values", "{made:?}, then {again:?}");
    let mut stream = vec![];
    let mut sent = vec![];
    for (m, n) in made {
        ensure!(m.same(&n), "generated: the copies of a generated value differ", "{m:?}, {n:?}");
        if known(&m) {
            ctx.probe("known_finding");
            continue;
        }
        let b = m.bytes();
        let text_announces = b.ends_with(b"\r\n") && lexref::announcement(&b[..b.len() - 2]).is_some();
        if text_announces {
            ctx.probe("known_text_announces");
            continue;
        }
        ctx.log(|| format!("generated {:?}", esc(&b)));
        ctx.probe("generated");
        ctx.state(sort_of(&b));
        stream.extend_from_slice(&b);
        sent.push((m, b));
    }
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut r = Recv::new(ctx, kind);
    let mut out = vec![];
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        r.push(&stream[s.start..s.end], &mut out);
    }
    for (i, (m, b)) in sent.iter().enumerate() {
        let Some((_, w)) = out.get(i) else { crate::fail!("generated: a value is not received", "{m:?}, sent as {:?}", esc(b)) };
        // Sequence sets may arrive normalised.
        let v = match w {
            Whole::Ok(v) if v.alike(m) => v,
            w => crate::fail!("generated: a value is received as something else", "{m:?}, sent as {:?}, is received as {w:?}", esc(b)),
        };
        let g = spec::message(v);
        ensure!(gram::matches(&g, b, STRICT), "generated: a value that has no valid spelling", "{m:?} is encoded as {:?}: {}", esc(b), describe(&g, b, STRICT));
    }
    ensure!(out.len() == sent.len(), "generated: more is received than was sent", "{:?}", out.last());
    Ok(())
}

/// The recorded findings: types without validation of their own.
fn known(m: &Msg) -> bool {
    let s = format!("{m:?}");
    s.contains("Referral(") || s.contains("QuotedUtf8(")
}
