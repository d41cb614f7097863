//! Hostile application data (C14): strings chosen by an attacker go through the constructors of imap-types into messages
//! on a shared connection. Whatever is accepted arrives as it is, in its place; nothing else happens on the connection.

use std::borrow::Cow;

use chrono::{Datelike, FixedOffset, TimeZone};
#[cfg(feature = "ext")]
use imap_codec::imap_types::extensions::{condstore_qresync::AttributeFlag, metadata::{Entry, EntryValue}};
use imap_codec::imap_types::{
    IntoStatic,
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable, quota::QuotaGet, quota::Resource, sort::SortAlgorithm, thread::ThreadingAlgorithm},
    fetch::{MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName, Section},
    flag::*,
    mailbox::*,
    response::*,
    search::SearchKey,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::StatusDataItemName,
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    lexref,
    net::Profile,
    seqref,
    tape::{Mix, Tape},
    wire::{Kind, Msg, Whole},
};

// ----- what each kind of string may hold, by the grammar -----

fn atom_char(c: u8) -> bool {
    matches!(c, 0x21..=0x7e) && !b"(){%*\"\\]".contains(&c)
}
pub fn atom_ok(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| atom_char(*c))
}
pub fn atom_ext_ok(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| atom_char(*c) || *c == b']')
}
pub fn tag_ok(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| (atom_char(*c) || *c == b']') && *c != b'+')
}
pub fn list_ok(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| atom_char(*c) || b"]%*".contains(c))
}
pub fn quoted_ok(b: &[u8]) -> bool {
    b.iter().all(|c| matches!(c, 1..=0x7f) && *c != b'\r' && *c != b'\n')
}
pub fn text_ok(b: &[u8]) -> bool {
    !b.is_empty() && quoted_ok(b)
}
pub fn literal_ok(b: &[u8]) -> bool {
    !b.contains(&0)
}
pub fn charset_ok(b: &[u8]) -> bool {
    quoted_ok(b)
}
pub fn flag_ok(b: &[u8]) -> bool {
    atom_ok(b.strip_prefix(b"\\").unwrap_or(b))
}
fn num_ok(b: &[u8]) -> Option<Option<u32>> {
    if b == b"*" {
        return Some(None);
    }
    if b.is_empty() || b[0] == b'0' || !b.iter().all(|c| c.is_ascii_digit()) || b.len() > 10 {
        return None;
    }
    std::str::from_utf8(b).ok()?.parse::<u32>().ok().map(Some)
}
pub fn seq_ok(b: &[u8]) -> Option<Vec<seqref::Item>> {
    b.split(|c| *c == b',')
        .map(|p| {
            let q: Vec<&[u8]> = p.split(|c| *c == b':').collect();
            match q[..] {
                [a] => num_ok(a).map(|a| (a, a)),
                [a, b] => Some((num_ok(a)?, num_ok(b)?)),
                _ => None,
            }
        })
        .collect()
}

/// A string as an attacker would choose it.
pub fn evil(t: &mut Tape) -> Vec<u8> {
    let bits: &[&[u8]] = &[
        b"\r\n", b"\r", b"\n", b"\0", b"\"", b"\\", b"{5}", b"{5+}", b"{5}\r\n", b"A1 LOGOUT", b"\r\nA2 DELETE INBOX\r\n", b"(", b")", b"[", b"]", b"*", b"%", b" ", b"+", b"\\Seen", b"inbox", b"INBOX", b"NIL",
        b"nil", b"\xc3\xbc", b"\xff", b"\x80", b"\x7f", b"\x01", b"\t", b"~{3}", b"* BYE x", b"0", b"1", b"4294967295", b"4294967296", b":", b",", b"1:*", b"5:3", b"=", b"AUTH=PLAIN", b"/", b".", b"BADCHARSET", b"\\\"", b"\\\\",
        b"\x0b", b"\x0c", b"\x1b", b"\xe2\x80\xa8", b"\xc2\x85", b"a", b"abc", b"Zz9", b"{", b"}", b"%s", b"\\*", b"\\Recent", b"]x", b"[x", b"]]", b"=plain", b"STORAGE", b"DEFLATE", b"UTF8=ACCEPT",
    ];
    match t.below(8) {
        // One byte that does not belong, somewhere in a harmless string.
        0..=1 => {
            let n = match t.below(16) {
                0 => t.usize(300),
                // Around the sizes at which implementations change their ways.
                1 => {
                    let e = 3 + t.below(11);
                    (1usize << e) + t.usize(5) - 2
                }
                _ => t.usize(12),
            };
            let pattern: Vec<u8> = (0..1 + t.usize(12)).map(|_| *t.pick(b"abcXYZ019-_./")).collect();
            let mut b: Vec<u8> = pattern.iter().copied().cycle().take(n).collect();
            let i = if t.bool() { b.len() - t.usize(3.min(b.len() + 1)) } else { t.usize(b.len() + 1) };
            let bad = t.below(256) as u8;
            b.insert(i, bad);
            b
        }
        2 => vec![t.below(256) as u8],
        3 => {
            // A sequence set, or nearly.
            let n = 1 + t.usize(4);
            let parts: Vec<String> = (0..n)
                .map(|_| {
                    let num = |t: &mut Tape| match t.below(8) {
                        0 => "*".to_string(),
                        1 => format!("{}", t.u64()),
                        2 => format!("0{}", t.u32()),
                        3 => format!("+{}", t.u32()),
                        4 => format!("-{}", t.u32()),
                        5 => t.pick(&["0", "", " 1", "1 ", "1e3", "0x1", "٣", "**", "1.", "+", "1_0", "+*"]).to_string(),
                        _ => format!("{}", t.u32()),
                    };
                    match t.below(4) {
                        0 => format!("{}:{}", num(t), num(t)),
                        1 if t.chance(1, 8) => format!("{}:{}:{}", num(t), num(t), num(t)),
                        _ => num(t),
                    }
                })
                .collect();
            parts.join(",").into_bytes()
        }
        4 => {
            let n = t.usize(10);
            (0..n).map(|_| t.below(256) as u8).collect()
        }
        _ => {
            let mut b = vec![];
            for _ in 0..t.usize(5) {
                b.extend_from_slice(t.pick(bits));
            }
            b
        }
    }
}

/// All ways of construction agree with the grammar, and keep the string as it is.
macro_rules! forms {
    ($name:expr, $b:expr, $ok:expr, $t:ty, [$($form:expr),*], $get:expr) => {{
        let mut made: Option<$t> = None;
        let b: &[u8] = $b;
        let ok: bool = $ok;
        $(
            #[allow(clippy::redundant_closure_call)]
            if let Some(r) = $form(b) {
                let r: Result<$t, String> = r;
                match r {
                    Ok(v) => {
                        ensure!(ok, "injection: a string is accepted that its type cannot carry", "{} accepts {:?}", $name, esc(b));
                        #[allow(clippy::redundant_closure_call)]
                        let inner: Vec<u8> = $get(&v);
                        ensure!(inner == b, "injection: a constructor changes the string", "{} makes {:?} of {:?}", $name, esc(&inner), esc(b));
                        if let Some(m) = &made {
                            ensure!(*m == v, "injection: constructors disagree", "{}: {:?}, {:?}", $name, m, v);
                        }
                        made = Some(v);
                    }
                    Err(e) => ensure!(!ok, "injection: a string is refused that its type can carry", "{} refuses {:?}: {e}", $name, esc(b)),
                }
            }
        )*
        made
    }};
}
macro_rules! from {
    (str, $t:ident) => { |b: &[u8]| std::str::from_utf8(b).ok().map(|s| $t::try_from(s).map(|v| v.into_static()).map_err(|e| e.to_string())) };
    (string, $t:ident) => { |b: &[u8]| std::str::from_utf8(b).ok().map(|s| $t::try_from(s.to_string()).map(|v| v.into_static()).map_err(|e| e.to_string())) };
    (bytes, $t:ident) => { |b: &[u8]| Some($t::try_from(b).map(|v| v.into_static()).map_err(|e| e.to_string())) };
    (vec, $t:ident) => { |b: &[u8]| Some($t::try_from(b.to_vec()).map(|v| v.into_static()).map_err(|e| e.to_string())) };
}
macro_rules! all4 {
    ($t:ident, $b:expr, $ok:expr, $get:expr) => {
        forms!(stringify!($t), $b, $ok, $t<'static>, [from!(str, $t), from!(string, $t), from!(bytes, $t), from!(vec, $t)], $get)
    };
}

fn atom_of(b: &[u8]) -> Result<Option<Atom<'static>>, crate::ctx::Violation> {
    Ok((|| -> Result<Option<Atom<'static>>, crate::ctx::Violation> { Ok(all4!(Atom, b, atom_ok(b), |v: &Atom| v.inner().as_bytes().to_vec())) })()?)
}
fn astring_of(b: &[u8]) -> Result<Option<AString<'static>>, crate::ctx::Violation> {
    Ok(all4!(AString, b, literal_ok(b), |v: &AString| v.as_ref().to_vec()))
}
fn istring_of(b: &[u8]) -> Result<Option<IString<'static>>, crate::ctx::Violation> {
    Ok(all4!(IString, b, literal_ok(b), |v: &IString| v.as_ref().to_vec()))
}
fn mailbox_of(b: &[u8]) -> Result<Option<Mailbox<'static>>, crate::ctx::Violation> {
    let inbox = b.eq_ignore_ascii_case(b"inbox");
    let m = all4!(Mailbox, b, literal_ok(b), |v: &Mailbox| match v {
        Mailbox::Inbox if inbox => b.to_vec(),
        Mailbox::Inbox => b"(taken for INBOX)".to_vec(),
        Mailbox::Other(o) => o.inner().as_ref().to_vec(),
    });
    if let Some(Mailbox::Other(_)) = m {
        ensure!(!inbox, "injection: INBOX is not recognised", "{:?}", esc(b));
    }
    let _ = forms!("MailboxOther", b, literal_ok(b) && !inbox, MailboxOther<'static>, [from!(str, MailboxOther), from!(string, MailboxOther), from!(bytes, MailboxOther), from!(vec, MailboxOther)], |v: &MailboxOther| v.inner().as_ref().to_vec());
    Ok(m)
}
fn text_of(b: &[u8]) -> Result<Option<Text<'static>>, crate::ctx::Violation> {
    Ok(all4!(Text, b, text_ok(b), |v: &Text| v.inner().as_bytes().to_vec()))
}
fn tag_of(b: &[u8]) -> Result<Option<Tag<'static>>, crate::ctx::Violation> {
    Ok(all4!(Tag, b, tag_ok(b), |v: &Tag| v.inner().as_bytes().to_vec()))
}
fn seq_of(b: &[u8]) -> Result<Option<SequenceSet>, crate::ctx::Violation> {
    let Ok(s) = std::str::from_utf8(b) else { return Ok(None) };
    let want = seq_ok(b);
    let got = SequenceSet::try_from(s).ok();
    ensure!(s.parse::<SequenceSet>().ok() == got, "injection: constructors disagree", "SequenceSet of {:?}", esc(b));
    match (&want, &got) {
        (None, None) => {}
        (Some(w), Some(g)) => ensure!(*w == seqref::items(g), "injection: a constructor changes the string", "SequenceSet makes {g:?} of {:?}", esc(b)),
        (None, Some(g)) => fail!("injection: a string is accepted that its type cannot carry", "SequenceSet takes {:?} for {g:?}", esc(b)),
        (Some(_), None) => fail!("injection: a string is refused that its type can carry", "SequenceSet refuses {:?}", esc(b)),
    }
    ensure!(Sequence::try_from(s).is_ok() == want.as_ref().is_some_and(|w| w.len() == 1), "injection: a number range is judged wrongly", "Sequence of {:?}: {:?}", esc(b), Sequence::try_from(s));
    ensure!(SeqOrUid::try_from(s).is_ok() == num_ok(b).is_some(), "injection: a number is judged wrongly", "SeqOrUid of {:?}: {:?}", esc(b), SeqOrUid::try_from(s));
    Ok(got)
}

/// Text that cannot be told from something else on the wire: known findings, see known_findings.json.
fn ambiguous(t: &Text, code: bool) -> bool {
    (!code && t.inner().starts_with('[')) || lexref::announcement(t.inner().as_bytes()).is_some()
}

fn command(ctx: &mut Ctx, a: &[u8], b: &[u8]) -> Result<Option<CommandBody<'static>>, crate::ctx::Violation> {
    let (sa, sb) = (std::str::from_utf8(a).ok().map(str::to_string), std::str::from_utf8(b).ok().map(str::to_string));
    let which = ctx.t.below(28);
    let body = match which {
        0 => {
            let (u, p) = (astring_of(a)?, astring_of(b)?);
            let r = CommandBody::login(a.to_vec(), b.to_vec());
            ensure!(r.is_ok() == (u.is_some() && p.is_some()), "injection: LOGIN judges its strings wrongly", "{:?} {:?}: {r:?}", esc(a), esc(b));
            if let (Ok(CommandBody::Login { username, password }), Some(u), Some(p)) = (&r, &u, &p) {
                ensure!(username == u && password.declassify() == p, "injection: LOGIN changes its strings", "{:?} {:?}", esc(a), esc(b));
            }
            r.ok()
        }
        1..=8 => {
            let m = mailbox_of(a)?;
            let r = match which {
                1 => CommandBody::select(a.to_vec()).ok(),
                2 => CommandBody::examine(a.to_vec()).ok(),
                3 => CommandBody::create(a.to_vec()).ok(),
                4 => CommandBody::delete(a.to_vec()).ok(),
                5 => CommandBody::subscribe(a.to_vec()).ok(),
                6 => CommandBody::unsubscribe(a.to_vec()).ok(),
                7 => CommandBody::status(a.to_vec(), vec![StatusDataItemName::Messages]).ok(),
                _ => CommandBody::get_quota_root(a.to_vec()).ok(),
            };
            ensure!(r.is_some() == m.is_some(), "injection: a mailbox name is judged wrongly", "{:?}: {r:?}", esc(a));
            r
        }
        9 => {
            let (x, y) = (mailbox_of(a)?, mailbox_of(b)?);
            let r = CommandBody::rename(a.to_vec(), b.to_vec()).ok();
            ensure!(r.is_some() == (x.is_some() && y.is_some()), "injection: a mailbox name is judged wrongly", "RENAME {:?} {:?}: {r:?}", esc(a), esc(b));
            r
        }
        10 | 11 => {
            let x = mailbox_of(a)?;
            let lm = forms!("ListMailbox", b, literal_ok(b), ListMailbox<'static>, [from!(str, ListMailbox), from!(string, ListMailbox)], |v: &ListMailbox| match v {
                ListMailbox::Token(t) => t.as_ref().to_vec(),
                ListMailbox::String(s) => s.as_ref().to_vec(),
            });
            let _ = forms!("ListCharString", b, list_ok(b), ListCharString<'static>, [from!(str, ListCharString), from!(string, ListCharString)], |v: &ListCharString| v.as_ref().to_vec());
            match (x, lm) {
                (Some(x), Some(l)) => if which == 10 { CommandBody::list(x, l).ok() } else { CommandBody::lsub(x, l).ok() },
                _ => None,
            }
        }
        12 => {
            let m = mailbox_of(a)?;
            let l = all4!(Literal, b, literal_ok(b), |v: &Literal| v.as_ref().to_vec());
            let f = match &sa {
                Some(s) => Flag::try_from(s.as_str()).ok().map(|f| f.into_static()),
                None => None,
            };
            ensure!(f.is_some() == (sa.is_some() && flag_ok(a)), "injection: a flag is judged wrongly", "{:?}: {f:?}", esc(a));
            let r = CommandBody::append(a.to_vec(), f.into_iter().collect(), None, b.to_vec()).ok();
            ensure!(r.is_some() == (m.is_some() && l.is_some()), "injection: APPEND judges its data wrongly", "{:?} {:?}: {r:?}", esc(a), esc(b));
            r
        }
        13 => {
            let c = all4!(Charset, a, charset_ok(a), |v: &Charset| match v {
                Charset::Atom(x) => x.inner().as_bytes().to_vec(),
                Charset::Quoted(q) => q.inner().as_bytes().to_vec(),
            });
            astring_of(b)?.map(|k| CommandBody::search(c, Vec1::from(SearchKey::Subject(k)), false))
        }
        14 => {
            let (x, y) = (astring_of(a)?, astring_of(b)?);
            match (x, y) {
                (Some(x), Some(y)) => Some(CommandBody::search(None, Vec1::try_from(vec![SearchKey::Header(x, y.clone()), SearchKey::Text(y)]).unwrap(), true)),
                _ => None,
            }
        }
        15 => atom_of(a)?.map(|k| CommandBody::search(None, Vec1::from(SearchKey::Keyword(k)), false)),
        16 => seq_of(a)?.map(|s| CommandBody::fetch(s, MacroOrMessageDataItemNames::MessageDataItemNames(vec![MessageDataItemName::Flags]), true).unwrap_or_else(|e| match e {})),
        17 => match (seq_of(a)?, mailbox_of(b)?) {
            (Some(s), Some(m)) => CommandBody::copy(s, m, false).ok(),
            _ => None,
        },
        18 => match astring_of(a)? {
            Some(f) => Some(
                CommandBody::fetch(
                    "1",
                    vec![MessageDataItemName::BodyExt { section: Some(Section::HeaderFields(None, Vec1::from(f))), partial: None, peek: true }],
                    false,
                )
                .unwrap(),
            ),
            None => None,
        },
        19 => {
            let m = match &sa {
                Some(s) => {
                    let m = AuthMechanism::try_from(s.as_str()).ok().map(|m| m.into_static());
                    ensure!(m.is_some() == atom_ok(a), "injection: a mechanism name is judged wrongly", "{:?}: {m:?}", esc(a));
                    ensure!(s.parse::<AuthMechanism>().ok() == m && AuthMechanism::try_from(s.clone()).ok() == m, "injection: constructors disagree", "AuthMechanism of {:?}", esc(a));
                    if let Some(m) = &m {
                        ensure!(m.as_ref().as_bytes().eq_ignore_ascii_case(a), "injection: a constructor changes the string", "AuthMechanism makes {m:?} of {:?}", esc(a));
                    }
                    m
                }
                None => None,
            };
            m.map(|m| if ctx.t.bool() { CommandBody::authenticate_with_ir(m, b.to_vec()) } else { CommandBody::authenticate(m) })
        }
        20 => match &sa {
            Some(s) => {
                let c = CapabilityEnable::try_from(s.as_str()).ok().map(|c| c.into_static());
                ensure!(c.is_some() == atom_ok(a), "injection: a capability name is judged wrongly", "{:?}: {c:?}", esc(a));
                c.map(|c| CommandBody::enable(vec![c]).unwrap())
            }
            None => None,
        },
        21 => match &sa {
            Some(s) => {
                let c = CompressionAlgorithm::try_from(s.as_str());
                ensure!(c.is_ok() == s.eq_ignore_ascii_case("deflate") && CompressionAlgorithm::try_from(a).is_ok() == c.is_ok(), "injection: an algorithm is judged wrongly", "{:?}: {c:?}", esc(a));
                c.ok().map(CommandBody::compress)
            }
            None => None,
        },
        22 => {
            let root = astring_of(a)?;
            let r = CommandBody::get_quota(a.to_vec()).ok();
            ensure!(r.is_some() == root.is_some(), "injection: a quota root is judged wrongly", "{:?}: {r:?}", esc(a));
            r
        }
        23 => {
            let f = match &sa {
                Some(s) => Flag::try_from(s.as_str()).ok().map(|f| f.into_static()),
                None => None,
            };
            if let Some(f) = &f {
                let shown = f.to_string();
                ensure!(shown.as_bytes().eq_ignore_ascii_case(a), "injection: a constructor changes the string", "Flag makes {shown:?} of {:?}", esc(a));
            }
            f.map(|f| CommandBody::store("1", imap_codec::imap_types::flag::StoreType::Add, imap_codec::imap_types::flag::StoreResponse::Answer, vec![f], false).unwrap())
        }
        24 => {
            let (y, m, d) = (ctx.t.range(0, 24000) as i32 - 12000, ctx.t.range(1, 12) as u32, ctx.t.range(1, 28) as u32);
            let y = *ctx.t.pick(&[y, -1, 0, 9999, 10000, 2000]);
            let cd = chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap();
            let nd = NaiveDate::try_from(cd);
            ensure!(nd.is_ok() == (0..=9999).contains(&cd.year()), "injection: a date is judged wrongly", "{cd}: {nd:?}");
            nd.ok().map(|d| CommandBody::search(None, Vec1::from(SearchKey::SentOn(d)), false))
        }
        25 => {
            let y = ctx.t.range(0, 24000) as i32 - 12000;
            let y = *ctx.t.pick(&[y, -1, 0, 9999, 10000, 2000]);
            let off = ctx.t.range(0, 2 * 86399) as i32 - 86399;
            let off = *ctx.t.pick(&[off, off / 60 * 60, 0, 30, -30, 86340, -86340, 3599]);
            let nanos = *ctx.t.pick(&[0, 0, 0, 1, 999_999_999, 1_000_000_000]);
            let local = chrono::NaiveDate::from_ymd_opt(y, ctx.t.range(1, 12) as u32, ctx.t.range(1, 28) as u32).unwrap().and_hms_nano_opt(23, 59, 59, nanos).unwrap();
            match FixedOffset::east_opt(off).and_then(|o| o.from_local_datetime(&local).single()) {
                Some(dt) => {
                    let ok = (0..=9999).contains(&dt.year()) && nanos == 0 && off % 60 == 0;
                    let v = DateTime::try_from(dt);
                    ensure!(v.is_ok() == ok, "injection: a date is judged wrongly", "{dt}: {v:?}");
                    match (v, mailbox_of(a)?) {
                        (Ok(v), Some(m)) => CommandBody::append(m, vec![], Some(v), b"x".to_vec()).ok(),
                        _ => None,
                    }
                }
                None => None,
            }
        }
        #[cfg(feature = "ext")]
        26 => match (istring_of(a)?, istring_of(b)?) {
            (Some(x), Some(y)) => Some(CommandBody::Id { parameters: Some(vec![(x, NString(Some(y)))]) }),
            _ => None,
        },
        #[cfg(feature = "ext")]
        27 => match (mailbox_of(a)?, astring_of(b)?) {
            (Some(m), Some(e)) => Some(CommandBody::SetMetadata { mailbox: m, entry_values: Vec1::from(EntryValue { entry: Entry::try_from(e).unwrap(), value: NString8::NString(NString(istring_of(a)?)) }) }),
            _ => None,
        },
        _ => match (&sa, &sb) {
            (Some(_), Some(s)) => mailbox_of(a)?.map(|m| CommandBody::Move { sequence_set: SequenceSet::try_from("*").unwrap(), mailbox: m, uid: s.len() % 2 == 0 }),
            _ => None,
        },
    };
    Ok(body)
}

fn response(ctx: &mut Ctx, a: &[u8], b: &[u8]) -> Result<Option<Response<'static>>, crate::ctx::Violation> {
    let sa = std::str::from_utf8(a).ok().map(str::to_string);
    let which = ctx.t.below(20);
    Ok(match which {
        0..=3 => {
            let Some(t) = text_of(a)? else {
                if let Some(s) = &sa {
                    ensure!(Status::ok(None, None, s.as_str()).is_err() && Status::bye(None, s.as_str()).is_err(), "injection: a status text is judged wrongly", "{:?}", esc(a));
                }
                return Ok(None);
            };
            let code = if ctx.t.bool() { Some(Code::Alert) } else { None };
            if ambiguous(&t, code.is_some()) {
                ctx.probe("known_ambiguous_text");
                return Ok(None);
            }
            let tag = tag_of(b)?;
            let s = match which {
                0 => Status::ok(tag, code, t),
                1 => Status::no(tag, code, t),
                2 => Status::bad(tag, code, t),
                _ => Status::bye(code, t),
            };
            Some(Response::Status(s.unwrap_or_else(|e| match e {})))
        }
        4 | 5 => {
            let t = text_of(a)?;
            let code = if which == 5 { Some(Code::Alert) } else { None };
            let r = CommandContinuationRequest::basic(code.clone(), a.to_vec());
            match t {
                None => {
                    ensure!(r.is_err(), "injection: a string is accepted that its type cannot carry", "continuation request takes {:?}", esc(a));
                    None
                }
                Some(t) => {
                    if code.is_none() && a.starts_with(b"[") {
                        ensure!(r.is_err(), "injection: a string is accepted that its type cannot carry", "continuation request takes {:?}", esc(a));
                    }
                    if code.is_some() || (a.contains(&b' ') && !a.starts_with(b"[")) {
                        ensure!(r.is_ok(), "injection: a string is refused that its type can carry", "continuation request refuses {:?}", esc(a));
                    }
                    if ambiguous(&t, code.is_some()) {
                        ctx.probe("known_ambiguous_text");
                        return Ok(None);
                    }
                    r.ok().map(Response::CommandContinuationRequest)
                }
            }
        }
        6 => Some(Response::CommandContinuationRequest(CommandContinuationRequest::base64(a.to_vec()))),
        7 | 8 => {
            let m = mailbox_of(a)?;
            let qc = sa.as_ref().and_then(|s| s.chars().last()).or_else(|| b.first().map(|c| *c as char));
            let d = match qc {
                Some(c) => {
                    let d = QuotedChar::try_from(c);
                    let ok = c.is_ascii() && c != '\0' && c != '\r' && c != '\n';
                    ensure!(d.is_ok() == ok, "injection: a delimiter is judged wrongly", "{c:?}: {d:?}");
                    d.ok()
                }
                None => None,
            };
            let items = match atom_of(b)? {
                Some(x) => vec![FlagNameAttribute::from(x)],
                None => vec![],
            };
            m.map(|mailbox| {
                Response::Data(if which == 7 { Data::List { items, delimiter: d, mailbox } } else { Data::Lsub { items, delimiter: d, mailbox } })
            })
        }
        9 => atom_of(a)?.map(|x| Response::Data(Data::capability(vec![Capability::from(x)]).unwrap())),
        10 => match &sa {
            Some(s) => {
                let f = Flag::try_from(s.as_str()).ok().map(|f| f.into_static());
                ensure!(f.is_some() == flag_ok(a), "injection: a flag is judged wrongly", "{:?}: {f:?}", esc(a));
                f.map(|f| Response::Data(Data::Flags(vec![f])))
            }
            None => None,
        },
        11 => istring_of(a)?.map(|s| Response::Data(Data::fetch(1, vec![MessageDataItem::Rfc822(NString(Some(s)))]).unwrap())),
        12 => {
            let q = all4!(Quoted, a, quoted_ok(a), |v: &Quoted| v.inner().as_bytes().to_vec());
            q.map(|q| {
                Response::Data(
                    Data::fetch(1, vec![MessageDataItem::BodyExt { section: None, origin: None, data: NString(Some(IString::Quoted(q))) }]).unwrap(),
                )
            })
        }
        13 => {
            let c = all4!(Charset, a, charset_ok(a), |v: &Charset| match v {
                Charset::Atom(x) => x.inner().as_bytes().to_vec(),
                Charset::Quoted(q) => q.inner().as_bytes().to_vec(),
            });
            c.map(|c| Response::Status(Status::no(None, Some(Code::badcharset(vec![c])), "x").unwrap()))
        }
        14 => {
            let x = all4!(AtomExt, a, atom_ext_ok(a), |v: &AtomExt| v.inner().as_bytes().to_vec());
            x.map(|x| Response::Data(Data::QuotaRoot { mailbox: Mailbox::Inbox, roots: vec![AString::from(x)] }))
        }
        15 => astring_of(a)?.map(|r| Response::Data(Data::Quota { root: r, quotas: Vec1::from(QuotaGet::new(Resource::Storage, 1, 2)) })),
        16 => {
            // Numbers that must not be zero, lists that must not be empty.
            let n = *ctx.t.pick(&[0, 1, u32::MAX]);
            ensure!(Data::expunge(n).is_ok() == (n != 0) && Code::uidnext(n).is_ok() == (n != 0) && Code::uidvalidity(n).is_ok() == (n != 0) && Code::unseen(n).is_ok() == (n != 0) && SeqOrUid::try_from(n).is_ok() == (n != 0), "injection: zero is judged wrongly", "{n}");
            ensure!(Vec1::<u8>::try_from(vec![]).is_err() && Vec2::<u8>::try_from(vec![1]).is_err() && Vec2::<u8>::try_from(vec![1, 2]).is_ok() && Vec1::<u8>::try_from(vec![1]).is_ok(), "injection: list lengths are judged wrongly", "Vec1, Vec2");
            ensure!(Data::capability(Vec::<Capability>::new()).is_err() && SequenceSet::try_from(Vec::<Sequence>::new()).is_err() && Data::fetch(1, Vec::<MessageDataItem>::new()).is_err(), "injection: empty lists are judged wrongly", "capability, sequence set, fetch");
            Data::expunge(n).ok().map(Response::Data)
        }
        17 => atom_of(a)?.map(|x| Response::Data(Data::capability(vec![Capability::Sort(Some(SortAlgorithm::from(x.clone()))), Capability::Thread(ThreadingAlgorithm::from(x))]).unwrap())),
        18 => atom_of(a)?.map(|x| Response::Status(Status::ok(None, Some(Code::permanentflags(vec![FlagPerm::Flag(Flag::keyword(x)), FlagPerm::Asterisk])), "x").unwrap())),
        _ => {
            #[cfg(feature = "ext")]
            if let Some(s) = &sa {
                let f = AttributeFlag::try_from(s.as_str()).ok();
                let ok = atom_ok(a.strip_prefix(b"\\\\").unwrap_or(a));
                ensure!(f.is_some() == ok, "injection: a flag is judged wrongly", "AttributeFlag of {:?}: {f:?}", esc(a));
            }
            atom_of(a)?.map(|x| Response::Data(Data::capability(vec![Capability::Auth(AuthMechanism::from(x))]).unwrap()))
        }
    })
}

pub fn c14(ctx: &mut Ctx) -> R {
    let kind = *ctx.t.pick(&[Kind::Command, Kind::Response, Kind::Command, Kind::Response, Kind::Greeting, Kind::Auth]);
    let n = 1 + ctx.t.usize(5);
    let mut stream = vec![];
    let mut sent: Vec<(Msg, usize)> = vec![];
    for i in 0..n {
        let (a, b) = (evil(&mut ctx.t), evil(&mut ctx.t));
        ctx.step();
        ctx.log(|| format!("attacker supplies {:?} and {:?}", esc(&a), esc(&b)));
        if ctx.t.chance(1, 2) {
            crate::catalogue::check(ctx, &a)?;
        }
        let m = match kind {
            Kind::Command => {
                let body = command(ctx, &a, &b)?;
                match body {
                    Some(body) => {
                        let tag: Vec<u8> = if ctx.t.chance(1, 4) { b.clone() } else { format!("T{i}").into_bytes() };
                        let made = tag_of(&tag)?;
                        let c = Command::new(tag.clone(), body.clone()).ok();
                        ensure!(c.is_some() == made.is_some() && body.tag(tag.clone()).is_ok() == made.is_some(), "injection: a tag is judged wrongly", "{:?}", esc(&tag));
                        c.map(Msg::Command)
                    }
                    None => None,
                }
            }
            Kind::Response => response(ctx, &a, &b)?.map(Msg::Response),
            Kind::Greeting => match std::str::from_utf8(&a) {
                Ok(s) => {
                    let code = if ctx.t.bool() { Some(Code::Alert) } else { None };
                    let t = text_of(&a)?;
                    let g = match ctx.t.below(3) {
                        0 => Greeting::ok(code.clone(), s),
                        1 => Greeting::preauth(code.clone(), s),
                        _ => Greeting::bye(code.clone(), s),
                    };
                    ensure!(g.is_ok() == t.is_some(), "injection: a greeting is judged wrongly", "{:?}: {g:?}", esc(&a));
                    if t.as_ref().is_some_and(|t| ambiguous(t, code.is_some())) {
                        ctx.probe("known_ambiguous_text");
                        None
                    } else {
                        g.ok().map(|g| Msg::Greeting(g.into_static()))
                    }
                }
                Err(_) => None,
            },
            _ => Some(Msg::Auth(AuthenticateData::r#continue(Cow::<[u8]>::Owned(a.clone())))),
        };
        ctx.fault("hostile_string");
        let mut h = Mix::new();
        let classes = |b: &[u8]| b.iter().fold(0u64, |m, c| m | 1 << match c { 0 => 0, b'\r' => 1, b'\n' => 2, 0x80.. => 3, 0x7f | 1..=0x1f => 4, b'"' => 5, b'\\' => 6, b'{' => 7, b'[' | b']' => 8, b'*' | b'%' => 9, b'(' | b')' => 10, b' ' => 11, b'+' => 12, b'0'..=b'9' => 13, _ => 14 });
        h.u(kind as u64).u(m.is_some() as u64).u(classes(&a)).u(a.len().min(3) as u64);
        ctx.state(h.0);
        match m {
            None => ctx.probe("refused"),
            Some(m) => {
                ctx.probe("accepted");
                let bytes = m.bytes();
                crate::session::check_fragments(&m.fragments(), &m)?;
                stream.extend_from_slice(&bytes);
                sent.push((m, stream.len()));
            }
        }
    }
    // The network, a reference reader of the framing, and the peer.
    let ends: Vec<usize> = lexref::messages(&stream).iter().map(|m| m.1).collect();
    let want: Vec<usize> = sent.iter().map(|s| s.1).collect();
    ensure!(ends == want, "injection: a string breaks out of its message", "messages should end at {want:?}, they end at {ends:?}: {:?}", esc(&stream));
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut f = imap_codec::fragmentizer::Fragmentizer::without_max_message_size();
    let mut got = 0;
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        f.enqueue_bytes(&stream[s.start..s.end]);
        while f.progress().is_some() {
            if f.is_message_complete() {
                let w = kind.decode_message(&f);
                ensure!(got < sent.len() && matches!(&w, Whole::Ok(v) if v.alike(&sent[got].0)), "injection: the peer sees something else than was meant", "meant {:?}, sent {:?}, the peer sees {w:?}", sent.get(got).map(|s| &s.0), esc(f.message_bytes()));
                got += 1;
            }
        }
    }
    ensure!(got == sent.len(), "injection: messages are lost", "{got} of {}", sent.len());
    Ok(())
}
