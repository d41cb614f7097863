//! Secrets (C18): an application logs every message and every error it meets, with `{:?}`. No credential may appear in
//! the log, whatever happens on the connection. Decided on builds without debug assertions (where the redaction is on).

use std::borrow::Cow;

use imap_codec::{
    AuthenticateDataCodec, CommandCodec,
    decode::Decoder,
    fragmentizer::Fragmentizer,
    imap_types::{
        IntoStatic, ToStatic,
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::{AString, Literal, LiteralMode},
        secret::Secret,
    },
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure,
    net::Profile,
    s_frame::mutate,
    spec,
    tape::{Mix, Tape},
    wire::Msg,
};

/// Letters that appear three in a row nowhere else.
const CANARY: &[u8] = b"QXZJqxzj";

/// A secret of any length: of letters that are found wherever they appear (if it isn't too short), or of something else.
fn canary(t: &mut Tape, shift: usize) -> Vec<u8> {
    // (The base64 of these has neither `+` nor `/`, so that what it can be mistaken for doesn't depend on the secret.)
    let set: &[u8] = if t.chance(1, 10) { b"0123456789" } else { CANARY };
    let n = match t.below(12) {
        0 | 1 => 1 + t.usize(4),
        2 => 40 + t.usize(300),
        _ => 5 + t.usize(12),
    };
    (0..n).map(|_| set[(t.usize(set.len()) + shift) % set.len()]).collect()
}

struct Outcome {
    log: Vec<(String, &'static str)>,
    secrets: Vec<Vec<u8>>,
    damage: u64,
    /// Where the damage could have been done.
    places: Vec<usize>,
}

/// What of the secret appears in the log, in any of the usual spellings.
fn leak(log: &str, secret: &[u8]) -> Option<String> {
    if !CANARY.contains(&secret[0]) {
        // (Found by comparison with another secret only.)
        return None;
    }
    let b64 = spec::base64(secret);
    let pretty = if log.contains('\n') { log.split_whitespace().collect::<String>() } else { String::new() };
    let find = |x: &str| log.contains(x);
    for w in secret.windows(3) {
        let s = std::str::from_utf8(w).unwrap();
        let list = format!("{}, {}, {}", w[0], w[1], w[2]);
        let hex: String = w.iter().map(|b| format!("{b:02x}")).collect();
        if find(s) {
            return Some(s.to_string());
        }
        if find(&list) || pretty.contains(&format!("{},{},{}", w[0], w[1], w[2])) {
            return Some(list);
        }
        if find(&hex) {
            return Some(hex);
        }
    }
    for w in b64.windows(8) {
        let s = std::str::from_utf8(w).unwrap();
        if !s.contains('=') && find(s) {
            return Some(s.to_string());
        }
    }
    None
}

/// The same run with other secrets (of the same lengths) must print the same.
pub fn c18(ctx: &mut Ctx) -> R {
    let from = ctx.t.rec.len();
    let one = world(ctx, 0);
    let tape = ctx.t.rec[from..].to_vec();
    check(ctx, &one)?;
    if one.damage != 0 {
        let two = world(&mut Ctx::new(Tape::replay(tape), false), 1);
        // (Damage that was aimed at a letter may have met another one.)
        // (Nor may damage have made a message of what was a credential: letters alone are none.)
        if one.places == two.places && (one.places.is_empty() || one.secrets.iter().all(|s| CANARY.contains(&s[0]))) {
            ensure!(one.log.len() == two.log.len(), "secret: the output depends on the credential", "{} lines with one secret, {} with another", one.log.len(), two.log.len());
            for (a, b) in one.log.iter().zip(&two.log) {
                ensure!(a == b, "secret: the output depends on the credential", "{}: {:?} with secrets {:?}, {:?} with secrets {:?}", a.1, a.0, one.secrets.iter().map(|s| esc(s)).collect::<Vec<_>>(), b.0, two.secrets.iter().map(|s| esc(s)).collect::<Vec<_>>());
            }
            ctx.probe("compared_with_other_secret");
        }
    }
    Ok(())
}

fn world(ctx: &mut Ctx, shift: usize) -> Outcome {
    let mut places = vec![];
    let mut log: Vec<(String, &'static str)> = vec![];
    let mut secrets: Vec<Vec<u8>> = vec![];
    let mut stream: Vec<u8> = vec![];
    let mut auth = vec![];
    macro_rules! say {
        ($what:expr, $v:expr) => {{
            let v = &$v;
            log.push((format!("{v:?}"), $what));
            log.push((format!("{v:#?}"), $what));
        }};
    }
    for i in 0..1 + ctx.t.usize(4) {
        let s = canary(&mut ctx.t, shift);
        secrets.push(s.clone());
        let mut bad = s.clone();
        if ctx.t.chance(1, 6) {
            // Something that cannot be a password; the error is logged.
            let at = ctx.t.usize(bad.len() + 1);
            bad.insert(at, *ctx.t.pick(b"\0\r\n\xff\"\\ "));
        }
        let body = match ctx.t.below(6) {
            0 | 1 => match ctx.t.below(4) {
                0 => {
                    let r = CommandBody::login(&b"alice"[..], bad.as_slice());
                    say!("login", r);
                    r.ok().map(|x| x.into_static())
                }
                1 => {
                    let p = AString::try_from(bad.clone());
                    // (The string itself is not a secret yet; only its failure is logged.)
                    if let Err(e) = &p {
                        say!("password", e);
                    }
                    p.ok().and_then(|p| CommandBody::login("bob", p).ok())
                }
                2 => {
                    let l = Literal::try_from(bad.clone());
                    if let Err(e) = &l {
                        say!("password", e);
                    }
                    l.ok().map(|mut l| {
                        if ctx.t.bool() {
                            l.set_mode(LiteralMode::NonSync);
                        }
                        CommandBody::Login { username: AString::try_from("carol").unwrap(), password: Secret::new(AString::from(l)) }
                    })
                }
                _ => {
                    let r = String::from_utf8(bad.clone()).ok().map(|b| CommandBody::login("dave", b));
                    if let Some(r) = &r {
                        say!("login", r);
                    }
                    r.and_then(|r| r.ok())
                }
            },
            2 => Some(CommandBody::authenticate_with_ir(AuthMechanism::Plain, Cow::<[u8]>::Owned(s.clone()))),
            3 => {
                let ir = [b"\0alice\0".as_slice(), &s].concat();
                Some(CommandBody::authenticate_with_ir(AuthMechanism::XOAuth2, Cow::<[u8]>::Owned(ir)))
            }
            _ => {
                let d = AuthenticateData::r#continue(Cow::<[u8]>::Owned(s.clone()));
                say!("authenticate data", d);
                say!("authenticate data", d.to_static());
                auth.push(Msg::Auth(d).bytes());
                None
            }
        };
        if let Some(body) = body {
            say!("body", body);
            let sec = match &body {
                CommandBody::Login { password, .. } => format!("{password:?}"),
                CommandBody::Authenticate { initial_response, .. } => format!("{initial_response:?}"),
                _ => String::new(),
            };
            log.push((sec, "secret"));
            let tagged = body.clone().tag(format!("A{i}"));
            say!("command", tagged);
            if let Ok(c) = tagged {
                let c: Command<'static> = c.into_static();
                say!("command", c.clone());
                stream.extend(Msg::Command(c).bytes());
            }
            // A tag that is not one: the error is logged.
            say!("tag error", body.tag("A+").map(|_| ()));
        }
    }
    // The connection: damage, truncation, a limit, poison; all that the receiver meets is logged.
    let damage = ctx.t.below(6);
    match damage {
        0 if !stream.is_empty() => {
            mutate(ctx, &mut stream);
            ctx.fault("corrupt");
        }
        1 | 2 => {
            // Damage that leaves the credential where it is.
            let (from, to): (&[u8], &[u8]) = *ctx.t.pick::<(&[u8], &[u8])>(&[(b" LOGIN ", b" LOGUN "), (b"\r\n", b" x\r\n"), (b" ", b"  "), (b"AUTHENTICATE", b"AUTH"), (b"A", b"(A"), (b"\r\n", b"\n"), (b"\r\n", b"\r\r\n"), (b"alice", b"al(ice"), (b"}", b"+}"), (b"{", b"{9")]);
            let all: Vec<usize> = (0..stream.len()).filter(|i| stream[*i..].starts_with(from) && (*i == 0 || (stream[*i - 1] != b'}' && (from != b"}" || stream[*i - 1] != b'+')))).collect();
            places = all.clone();
            if !all.is_empty() {
                let i = *ctx.t.pick(&all);
                stream.splice(i..i + from.len(), to.iter().copied());
                ctx.fault("corrupt_frame");
            }
        }
        _ => {}
    }
    let profile = Profile::draw(ctx);
    // (The schedule must not look at the secrets.)
    let shape: Vec<u8> = stream.iter().map(|b| if b.is_ascii_alphanumeric() || *b >= 0x80 || matches!(b, b'+' | b'/') { b'x' } else { *b }).collect();
    let segs = profile.schedule(ctx, &shape);
    let limited = ctx.t.chance(1, 3);
    let mut f = if limited { Fragmentizer::new(ctx.t.below(40) as u32) } else { Fragmentizer::without_max_message_size() };
    let mut raw: Vec<u8> = vec![];
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        f.enqueue_bytes(&stream[s.start..s.end]);
        raw.extend_from_slice(&stream[s.start..s.end]);
        // A receiver without framing looks at the bytes so far.
        if ctx.t.chance(1, 8) {
            match CommandCodec::default().decode(&raw) {
                Ok((_, c)) => say!("decoded", c),
                Err(e) => say!("decode error", e),
            }
        }
        while let Some(i) = f.progress() {
            say!("fragment", i);
            if ctx.t.chance(1, 10) {
                f.poison_message();
                ctx.fault("poison");
            }
            if f.is_message_complete() || ctx.t.chance(1, 4) {
                match f.decode_message(&CommandCodec::default()) {
                    Ok(c) => {
                        say!("received", c);
                        ctx.probe("received");
                    }
                    Err(e) => {
                        say!("receive error", e);
                        ctx.probe("receive_error");
                    }
                }
                // A server that takes it for something else.
                if ctx.t.chance(1, 8) {
                    match f.decode_message(&AuthenticateDataCodec::default()) {
                        Ok(c) => say!("received", c),
                        Err(e) => say!("receive error", e),
                    }
                }
                say!("tag", f.decode_tag());
            }
        }
    }
    for a in &auth {
        let cut = if ctx.t.chance(1, 4) { ctx.t.usize(a.len() + 1) } else { a.len() };
        let mut f = if ctx.t.chance(1, 4) { Fragmentizer::new(ctx.t.below(12) as u32) } else { Fragmentizer::without_max_message_size() };
        f.enqueue_bytes(&a[..cut]);
        while f.progress().is_some() {}
        if ctx.t.chance(1, 5) {
            f.poison_message();
            ctx.fault("poison");
        }
        match f.decode_message(&AuthenticateDataCodec::default()) {
            Ok(c) => say!("received", c),
            Err(e) => say!("receive error", e),
        }
        if ctx.t.chance(1, 4) {
            match f.decode_message(&CommandCodec::default()) {
                Ok(c) => say!("received", c),
                Err(e) => say!("receive error", e),
            }
        }
    }
    Outcome { log, secrets, damage, places }
}

fn check(ctx: &mut Ctx, o: &Outcome) -> R {
    let Outcome { secrets, damage, .. } = o;
    let mut log = o.log.clone();
    log.sort();
    log.dedup();
    for (line, what) in &log {
        // A damaged stream can turn a password into something that is not one (a user name, a mailbox, a tag).
        if *damage == 0 && matches!(*what, "received" | "receive error" | "decoded" | "tag" | "decode error") && !(line.starts_with("MessageTooLong") || line.starts_with("MessagePoisoned")) {
            continue;
        }
        ctx.state({
            let mut h = Mix::new();
            h.b(what.as_bytes()).b(&line.bytes().filter(u8::is_ascii_alphabetic).take(40).collect::<Vec<_>>());
            h.0
        });
        for s in secrets {
            let l = leak(line, s);
            ensure!(l.is_none(), "secret: a credential is printed", "{what}: {:?} shows {:?} of {:?}", esc(line.as_bytes()), l, esc(s));
        }
    }
    ctx.probe("log_checked");
    Ok(())
}

