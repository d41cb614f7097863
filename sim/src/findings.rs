//! Probes for the recorded findings (known_findings.json): each re-runs the specific history that fails.

use imap_codec::imap_types::response::{Code, Response, Status};

use crate::wire::{Kind, Msg, Whole};

/// Sends one response and says what the peer makes of the stream: the number of messages it sees, and whether the first is the one meant.
fn send(m: &Msg) -> (Vec<u8>, usize, bool) {
    let stream = m.bytes();
    let mut f = imap_codec::fragmentizer::Fragmentizer::without_max_message_size();
    f.enqueue_bytes(&stream);
    let (mut n, mut same) = (0, false);
    while f.progress().is_some() {
        if f.is_message_complete() {
            let w = Kind::Response.decode_message(&f);
            same |= n == 0 && matches!(&w, Whole::Ok(v) if v.same(m));
            n += 1;
        }
    }
    (stream, n, same)
}

fn text(t: &str) -> Option<String> {
    let m = Msg::Response(Response::Status(Status::no(None, None, t.to_string()).ok()?));
    let (b, n, same) = send(&m);
    if n == 1 && same { None } else { Some(format!("{:?}: the peer sees {n} messages", crate::ctx::esc(&b))) }
}

/// Human readable text that ends like a literal announcement.
pub fn text_announces() -> Option<String> {
    text("quota exceeded {5}")
}

/// Human readable text that starts with "[", without a code in front of it.
pub fn text_bracket() -> Option<String> {
    text("[a] b")
}

/// `Code::Referral` is written and never read.
#[cfg(feature = "ext")]
pub fn referral_read() -> Option<String> {
    let m = Msg::Response(Response::Status(Status::no(None, Some(Code::Referral("imap://h/".into())), "moved").ok()?));
    let (b, n, same) = send(&m);
    if n == 1 && same { None } else { Some(format!("{:?}", crate::ctx::esc(&b))) }
}
/// `Code::Referral` carries any string.
#[cfg(feature = "ext")]
pub fn referral_breaks_out() -> Option<String> {
    let m = Msg::Response(Response::Status(Status::no(None, Some(Code::Referral("x\r\n* BYE y".into())), "moved").ok()?));
    let (b, n, _) = send(&m);
    if n == 1 { None } else { Some(format!("{:?}: the peer sees {n} messages", crate::ctx::esc(&b))) }
}
/// `QuotedUtf8` carries any string.
#[cfg(feature = "ext")]
pub fn utf8_breaks_out() -> Option<String> {
    use imap_codec::imap_types::{command::{Command, CommandBody}, core::{AString, IString}, extensions::utf8::QuotedUtf8, secret::Secret};
    let u = AString::String(IString::QuotedUtf8(QuotedUtf8("x\r\nA2 LOGOUT".into())));
    let m = Msg::Command(Command::new("A1", CommandBody::Login { username: u.clone(), password: Secret::new(u) }).ok()?);
    let n = crate::lexref::messages(&m.bytes()).len();
    if n == 1 { None } else { Some(format!("{n} messages on the wire")) }
}
#[cfg(not(feature = "ext"))]
pub fn referral_read() -> Option<String> {
    let _ = Code::Alert;
    None
}
#[cfg(not(feature = "ext"))]
pub fn referral_breaks_out() -> Option<String> {
    None
}
#[cfg(not(feature = "ext"))]
pub fn utf8_breaks_out() -> Option<String> {
    None
}

// ----- storage -----

fn load(j: &str) -> Option<Response<'static>> {
    use imap_codec::imap_types::IntoStatic;
    serde_json::from_str::<Response>(j).ok().map(|r| r.into_static())
}
/// Variants for unknown names take known names from storage.
pub fn stored_other_name() -> Option<String> {
    use imap_codec::imap_types::auth::AuthMechanism;
    let m: AuthMechanism = serde_json::from_str(r#"{"type":"Other","content":"PLAIN"}"#).ok()?;
    if m == AuthMechanism::Plain { None } else { Some(format!("{m:?}")) }
}
/// `CodeOther` takes any bytes from storage.
pub fn stored_code_other() -> Option<String> {
    let bytes: Vec<String> = b"x] y\r\n* BYE z".iter().map(|b| b.to_string()).collect();
    let m = load(&serde_json::to_string(&Response::Status(Status::no(None, Some(Code::Other(imap_codec::imap_types::response::CodeOther::unvalidated(&b"CANARY"[..]))), "x").ok()?)).ok()?.replace("67,65,78,65,82,89", &bytes.join(",")))?;
    let b = Msg::Response(m).bytes();
    let n = crate::lexref::messages(&b).len();
    if n == 1 { None } else { Some(format!("{:?}", crate::ctx::esc(&b))) }
}
