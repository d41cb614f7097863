//! Every way in and out of the string types of imap-types (C14): constructors agree with each other and with the grammar,
//! accessors give back what was put in, conversions keep it, known names are recognised however they are spelled.

use std::{borrow::Cow, fmt::Debug};

use imap_codec::imap_types::{
    auth::AuthMechanism,
    core::*,
    extensions::{binary::Literal8, compress::CompressionAlgorithm, enable::CapabilityEnable, quota::{QuotaGet, QuotaSet, Resource}, sort::SortAlgorithm, thread::ThreadingAlgorithm},
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItemName},
    flag::*,
    mailbox::*,
    command::CommandBody,
    response::*,
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure,
    gens::G,
    s_inject::{atom_ext_ok, atom_ok, charset_ok, flag_ok, list_ok, literal_ok, quoted_ok, tag_ok, text_ok},
};

/// All of `made` are accepted exactly if `ok`, and are the same.
fn agree<T: PartialEq + Debug>(name: &str, b: &[u8], ok: bool, made: Vec<Option<T>>) -> Result<Option<T>, crate::ctx::Violation> {
    for m in &made {
        ensure!(m.is_some() || !ok, "injection: a string is refused that its type can carry", "{name} refuses {:?}", esc(b));
        ensure!(m.is_none() || ok, "injection: a string is accepted that its type cannot carry", "{name} accepts {:?} as {m:?}", esc(b));
    }
    let mut it = made.into_iter();
    let first = it.next().flatten();
    for m in it {
        ensure!(m == first, "injection: constructors disagree", "{name}: {first:?}, {m:?}");
    }
    Ok(first)
}
fn same(name: &str, b: &[u8], got: &[&[u8]]) -> R {
    for g in got {
        ensure!(*g == b, "injection: an accessor gives something else than was put in", "{name} of {:?}: {:?}", esc(b), esc(g));
    }
    Ok(())
}
fn eq<T: PartialEq + Debug>(name: &str, a: T, b: T) -> R {
    ensure!(a == b, "injection: constructors disagree", "{name}: {a:?}, {b:?}");
    Ok(())
}
fn recase(ctx: &mut Ctx, s: &str) -> String {
    s.chars().map(|c| if ctx.t.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
}

macro_rules! four {
    ($t:ident, $b:expr, $ok:expr) => {{
        let b: &[u8] = $b;
        let mut v = vec![$t::try_from(b).ok(), $t::try_from(b.to_vec()).ok()];
        if let Ok(s) = std::str::from_utf8(b) {
            v.push($t::try_from(s).ok());
            v.push($t::try_from(s.to_string()).ok());
        }
        agree(stringify!($t), b, $ok, v)?
    }};
}
/// A name with known values: the constructors accept atoms, agree, and keep the spelling up to the case of known names.
macro_rules! named {
    ($ctx:expr, $t:ident, $b:expr, $value:expr, $made:expr) => {{
        let b: &[u8] = $b;
        let made: fn(&str) -> Vec<Option<$t<'_>>> = $made;
        if let Ok(s) = std::str::from_utf8(b) {
            let v = agree(stringify!($t), b, atom_ok(b), made(s))?;
            if let Some(v) = v {
                let shown = v.to_string();
                ensure!(shown.eq_ignore_ascii_case(s), "injection: a name becomes another one", "{} of {:?} is {v:?} ({shown:?})", stringify!($t), esc(b));
            }
        }
        let value = $value;
        let shown = value.to_string();
        let known = !format!("{value:?}").contains("Other");
        let spelled = if known { recase($ctx, &shown) } else { shown };
        let v = agree(stringify!($t), spelled.as_bytes(), true, made(&spelled))?;
        ensure!(v.as_ref() == Some(&value), "injection: a known name is not recognised", "{} of {spelled:?} is {v:?}, not {value:?}", stringify!($t));
    }};
}

/// What a printed byte string stands for.
fn unescape(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut it) = (Vec::new(), s.bytes());
    while let Some(c) = it.next() {
        out.push(match c {
            b'\\' => match it.next()? {
                b't' => b'\t',
                b'n' => b'\n',
                b'r' => b'\r',
                b'x' => {
                    let h = [it.next()?, it.next()?];
                    u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?
                }
                c => c,
            },
            c => c,
        });
    }
    Some(out)
}

pub fn check(ctx: &mut Ctx, b: &[u8]) -> R {
    let s = std::str::from_utf8(b).ok();
    match ctx.t.below(19) {
        18 => {
            use imap_codec::imap_types::utils::{escape_byte_string, escape_quoted, indicators as i, unescape_quoted};
            if let Some(s) = s {
                let e = escape_quoted(s);
                let want: String = s.chars().flat_map(|c| (c == '"' || c == '\\').then_some('\\').into_iter().chain([c])).collect();
                ensure!(e == want, "injection: quoting gives another string", "escape_quoted({s:?}) is {e:?}");
                ensure!(unescape_quoted(&e) == s, "injection: quoting gives another string", "{s:?} is escaped as {e:?}, and that unescaped as {:?}", unescape_quoted(&e));
            }
            let e = escape_byte_string(b);
            ensure!(e.bytes().all(|c| (0x20..0x7f).contains(&c)), "injection: an escaped string is not printable", "{e:?}");
            ensure!(unescape(&e).as_deref() == Some(b), "injection: an escaped string stands for something else", "{:?} as {e:?}", esc(b));
            for &c in b {
                let one = [c];
                let special = matches!(c, b'(' | b')' | b'{' | b' ' | b'%' | b'*' | b'"' | b'\\' | b']') || c < 0x20 || c == 0x7f;
                let want = [
                    (0x01..=0x7f).contains(&c), c < 0x20 || c == 0x7f, c == b'"' || c == b'\\', atom_ext_ok(&one), atom_ok(&one), special, c == b'%' || c == b'*', c == b']', c != 0,
                    (0x01..=0x7f).contains(&c) && c != b'\r' && c != b'\n', list_ok(&one),
                ];
                let got = [
                    i::is_char(c), i::is_ctl(c), i::is_quoted_specials(c), i::is_astring_char(c), i::is_atom_char(c), i::is_atom_specials(c), i::is_list_wildcards(c), i::is_resp_specials(c), i::is_char8(c),
                    i::is_text_char(c), i::is_list_char(c),
                ];
                ensure!(got == want, "injection: a character class holds other characters", "{c:#04x}: {got:?}, not {want:?}");
            }
        }
        0 => {
            ensure!(Atom::validate(b).is_ok() == atom_ok(b), "injection: validate judges wrongly", "Atom {:?}", esc(b));
            let a = four!(Atom, b, atom_ok(b));
            if let Some(s) = s {
                agree("Atom", b, atom_ok(b), vec![a.clone(), Atom::try_from(Cow::Borrowed(s)).ok(), Atom::try_from(Cow::<str>::Owned(s.to_string())).ok()])?;
            }
            if let (Some(a), Some(s)) = (a, s) {
                same("Atom", b, &[a.inner().as_bytes(), a.as_ref().as_bytes(), a.to_string().as_bytes(), a.clone().into_inner().as_bytes()])?;
                eq("Atom", Atom::unvalidated(s), a.clone())?;
                same("AtomExt::from(Atom)", b, &[AtomExt::from(a.clone()).inner().as_bytes()])?;
                same("AString::from(Atom)", b, &[AString::from(a.clone()).as_ref()])?;
                eq("Charset::from(Atom)", Charset::from(a.clone()), Charset::Atom(a.clone()))?;
                eq("Flag::keyword", Flag::keyword(a.clone()), Flag::Keyword(a))?;
            }
        }
        1 => {
            ensure!(AtomExt::validate(b).is_ok() == atom_ext_ok(b), "injection: validate judges wrongly", "AtomExt {:?}", esc(b));
            if let (Some(a), Some(s)) = (four!(AtomExt, b, atom_ext_ok(b)), s) {
                same("AtomExt", b, &[a.inner().as_bytes(), a.as_ref().as_bytes(), a.clone().into_inner().as_bytes(), AString::from(a.clone()).as_ref()])?;
                eq("AtomExt", AtomExt::unvalidated(s), a)?;
            }
        }
        2 => {
            ensure!(Tag::validate(b).is_ok() == tag_ok(b), "injection: validate judges wrongly", "Tag {:?}", esc(b));
            if let (Some(a), Some(s)) = (four!(Tag, b, tag_ok(b)), s) {
                same("Tag", b, &[a.inner().as_bytes(), a.as_ref().as_bytes()])?;
                eq("Tag", Tag::unvalidated(s), a.clone())?;
                let st = Status::ok(Some(a.clone()), Some(Code::Alert), "x").unwrap();
                eq("Status::tag", st.tag(), Some(&a))?;
                eq("Status::code", st.code(), Some(&Code::Alert))?;
                same("Status::text", b"x", &[st.text().inner().as_bytes()])?;
            }
        }
        3 => {
            ensure!(Text::validate(b).is_ok() == text_ok(b), "injection: validate judges wrongly", "Text {:?}", esc(b));
            let a = four!(Text, b, text_ok(b));
            if let Some(s) = s {
                let k = *ctx.t.pick(&[GreetingKind::Ok, GreetingKind::PreAuth, GreetingKind::Bye]);
                let g = Greeting::new(k, Some(Code::Alert), s);
                ensure!(g.is_ok() == text_ok(b), "injection: a greeting is judged wrongly", "{:?}: {g:?}", esc(b));
                if let (Some(a), Ok(g)) = (&a, g) {
                    ensure!(g.kind == k && g.code == Some(Code::Alert) && g.text == *a, "injection: a constructor changes the string", "Greeting of {:?}: {g:?}", esc(b));
                    same("Text", b, &[a.inner().as_bytes(), a.as_ref().as_bytes(), a.to_string().as_bytes(), a.clone().into_inner().as_bytes()])?;
                    eq("Text", Text::unvalidated(s), a.clone())?;
                    for st in [Status::no(None, None, a.clone()).unwrap(), Status::bye(None, a.clone()).unwrap()] {
                        ensure!(st.tag().is_none() && st.code().is_none() && st.text() == a, "injection: an accessor gives something else than was put in", "{st:?}");
                    }
                }
            }
        }
        4 => {
            ensure!(Quoted::validate(b).is_ok() == quoted_ok(b), "injection: validate judges wrongly", "Quoted {:?}", esc(b));
            if let (Some(a), Some(s)) = (four!(Quoted, b, quoted_ok(b)), s) {
                same("Quoted", b, &[a.inner().as_bytes(), a.as_ref().as_bytes(), a.clone().into_inner().as_bytes()])?;
                eq("Quoted", Quoted::unvalidated(s), a.clone())?;
                eq("IString::from(Quoted)", IString::from(a.clone()), IString::Quoted(a.clone()))?;
                eq("NString::from(Quoted)", NString::from(a.clone()), NString(Some(IString::Quoted(a.clone()))))?;
                eq("AString::from(Quoted)", AString::from(a.clone()), AString::String(IString::Quoted(a.clone())))?;
                eq("Charset::from(Quoted)", Charset::from(a.clone()), Charset::Quoted(a.clone()))?;
                same("IString::into_inner", b, &[&IString::Quoted(a.clone()).into_inner(), IString::Quoted(a).as_ref()])?;
            }
        }
        5 => {
            ensure!(Literal::validate(b).is_ok() == literal_ok(b), "injection: validate judges wrongly", "Literal {:?}", esc(b));
            if let Some(a) = four!(Literal, b, literal_ok(b)) {
                same("Literal", b, &[a.data(), a.as_ref(), &a.clone().into_inner()])?;
                ensure!(a.mode() == LiteralMode::Sync, "injection: constructors disagree", "{a:?}");
                let n = a.clone().into_non_sync();
                ensure!(n.mode() == LiteralMode::NonSync && n.data() == b && n != a && n.clone().into_sync() == a && a.clone().into_sync() == a, "injection: the mode of a literal changes more than the mode", "{a:?} {n:?}");
                eq("Literal", Literal::unvalidated(b), a.clone())?;
                eq("Literal", Literal::unvalidated_non_sync(b), n.clone())?;
                for l in [a, n] {
                    eq("IString::from(Literal)", IString::from(l.clone()), IString::Literal(l.clone()))?;
                    eq("NString::from(Literal)", NString::from(l.clone()), NString(Some(IString::Literal(l.clone()))))?;
                    eq("AString::from(Literal)", AString::from(l.clone()), AString::String(IString::Literal(l.clone())))?;
                    same("IString", b, &[&IString::Literal(l.clone()).into_inner(), AString::from(l).as_ref()])?;
                }
            }
            for mode in [LiteralMode::Sync, LiteralMode::NonSync] {
                let l = Literal8 { data: Cow::Borrowed(b), mode };
                same("Literal8", b, &[&l.data])?;
            }
        }
        6 => {
            let i = four!(IString, b, literal_ok(b));
            let n = four!(NString, b, literal_ok(b));
            if let (Some(i), Some(n)) = (i, n) {
                same("IString", b, &[i.as_ref(), &i.clone().into_inner()])?;
                ensure!(n == NString(Some(i)), "injection: constructors disagree", "{n:?}");
                let o = n.into_option();
                ensure!(o.as_deref() == Some(b), "injection: an accessor gives something else than was put in", "{o:?} of {:?}", esc(b));
            }
            ensure!(NString::NIL.into_option().is_none() && NString::default() == NString::NIL && NString::NIL == NString(None), "injection: an accessor gives something else than was put in", "NIL");
        }
        7 => {
            if let Some(a) = four!(AString, b, literal_ok(b)) {
                same("AString", b, &[a.as_ref()])?;
                let m = Mailbox::from(a.clone());
                let o = MailboxOther::try_from(a.clone());
                let inbox = b.eq_ignore_ascii_case(b"inbox");
                ensure!((m == Mailbox::Inbox) == inbox && o.is_err() == inbox && MailboxOther::validate(b).is_err() == inbox, "injection: INBOX is judged wrongly", "{:?}: {m:?} {o:?}", esc(b));
                if let (Mailbox::Other(m), Ok(o)) = (m, o) {
                    eq("MailboxOther", &m, &o)?;
                    eq("MailboxOther", &MailboxOther::unvalidated(a), &o)?;
                    same("MailboxOther", b, &[o.as_ref(), o.inner().as_ref()])?;
                }
            }
        }
        8 => {
            if let Some(c) = four!(Charset, b, charset_ok(b)) {
                same("Charset", b, &[c.as_ref().as_bytes()])?;
                ensure!(matches!(c, Charset::Atom(_)) == atom_ok(b), "injection: a charset is spelled in the wrong way", "{c:?}");
            }
        }
        9 => named!(ctx, Capability, b, G::new(&mut ctx.t).capability(), |s| {
            let mut v = vec![Capability::try_from(s).ok(), Capability::try_from(s.to_string()).ok(), Capability::try_from(s.as_bytes()).ok(), Capability::try_from(s.as_bytes().to_vec()).ok()];
            v.push(Atom::try_from(s).ok().map(Capability::from));
            v
        }),
        10 => named!(ctx, AuthMechanism, b, G::new(&mut ctx.t).auth_mechanism(), |s| {
            let mut v = vec![AuthMechanism::try_from(s).ok(), AuthMechanism::try_from(s.to_string()).ok(), AuthMechanism::try_from(s.as_bytes()).ok(), AuthMechanism::try_from(s.as_bytes().to_vec()).ok()];
            v.push(AuthMechanism::try_from(Cow::Borrowed(s)).ok());
            v.push(s.parse::<AuthMechanism<'static>>().ok());
            v.push(Atom::try_from(s).ok().map(AuthMechanism::from).filter(|a| a.as_ref().eq_ignore_ascii_case(s)));
            v
        }),
        11 => named!(ctx, Resource, b, G::new(&mut ctx.t).resource(), |s| {
            let mut v = vec![Resource::try_from(s).ok(), Resource::try_from(s.to_string()).ok(), Resource::try_from(s.as_bytes()).ok(), Resource::try_from(s.as_bytes().to_vec()).ok()];
            v.push(Resource::try_from(Cow::Borrowed(s)).ok());
            v.push(Atom::try_from(s).ok().map(Resource::from));
            v
        }),
        12 => named!(ctx, CapabilityEnable, b, G::new(&mut ctx.t).capability_enable(), |s| vec![CapabilityEnable::try_from(s).ok(), Atom::try_from(s).ok().map(CapabilityEnable::from)]),
        13 => {
            named!(ctx, ThreadingAlgorithm, b, G::new(&mut ctx.t).threading_algorithm(), |s| vec![Atom::try_from(s).ok().map(ThreadingAlgorithm::from)]);
            named!(ctx, SortAlgorithm, b, SortAlgorithm::Display, |s| vec![Atom::try_from(s).ok().map(SortAlgorithm::from)]);
            if let Some(s) = s {
                let ok = s.eq_ignore_ascii_case("deflate");
                let c = agree("CompressionAlgorithm", b, ok, vec![CompressionAlgorithm::try_from(s).ok(), CompressionAlgorithm::try_from(b).ok(), Atom::try_from(s).ok().and_then(|a| CompressionAlgorithm::try_from(a).ok())])?;
                if let Some(c) = c {
                    same("CompressionAlgorithm", b"DEFLATE", &[c.to_string().as_bytes(), c.as_ref().as_bytes()])?;
                }
            }
        }
        14 => {
            if let Some(s) = s {
                let f = agree("Flag", b, flag_ok(b), vec![Flag::try_from(s).ok()])?;
                if let Some(f) = f {
                    let sys = s.strip_prefix('\\');
                    ensure!(f.to_string().eq_ignore_ascii_case(s) && (sys.is_some() || f.to_string() == s), "injection: a name becomes another one", "Flag of {:?} is {f:?}", esc(b));
                    eq("Flag", f.clone(), match sys {
                        Some(x) => Flag::system(Atom::try_from(x).unwrap()),
                        None => Flag::keyword(Atom::try_from(s).unwrap()),
                    })?;
                    eq("FlagFetch::from(Flag)", FlagFetch::from(f.clone()), FlagFetch::Flag(f.clone()))?;
                    eq("FlagPerm::from(Flag)", FlagPerm::from(f.clone()), FlagPerm::Flag(f))?;
                }
            }
            let v = G::new(&mut ctx.t).flag();
            let shown = v.to_string();
            let spelled = if matches!(v, Flag::Extension(_) | Flag::Keyword(_)) { shown } else { recase(ctx, &shown) };
            let f = Flag::try_from(spelled.as_str()).ok();
            ensure!(f.as_ref() == Some(&v), "injection: a known name is not recognised", "Flag of {spelled:?} is {f:?}, not {v:?}");
            let v = G::new(&mut ctx.t).flag_name();
            let shown = v.to_string();
            let spelled = if matches!(v, FlagNameAttribute::Extension(_)) { shown } else { recase(ctx, &shown) };
            let f = FlagNameAttribute::from(Atom::try_from(&spelled[1..]).unwrap());
            ensure!(spelled.starts_with('\\') && f == v, "injection: a known name is not recognised", "FlagNameAttribute of {spelled:?} is {f:?}, not {v:?}");
            ensure!(v.is_selectability() == matches!(v, FlagNameAttribute::Noselect | FlagNameAttribute::Marked | FlagNameAttribute::Unmarked), "injection: an accessor gives something else than was put in", "{v:?}");
        }
        15 => {
            // Lists.
            let v: Vec<u8> = b.to_vec();
            let (one, two) = (Vec1::try_from(v.clone()), Vec2::try_from(v.clone()));
            ensure!(one.is_ok() == !v.is_empty() && two.is_ok() == (v.len() >= 2) && Vec1::<u8>::validate(&v).is_ok() == one.is_ok() && Vec2::<u8>::validate(&v).is_ok() == two.is_ok(), "injection: list lengths are judged wrongly", "{} elements", v.len());
            if let Ok(x) = one {
                ensure!(x.as_ref() == &v[..] && x.clone().into_inner() == v && x.clone().into_iter().collect::<Vec<_>>() == v && x == Vec1::unvalidated(v.clone()), "injection: a list changes", "{v:?}: {x:?}");
                ensure!(Vec1::<u8>::from(v[0]).as_ref() == [v[0]] && Vec1::<u8>::from([v[0]]).as_ref() == [v[0]], "injection: a list changes", "{v:?}");
            }
            if let Ok(x) = two {
                ensure!(x.as_ref() == &v[..] && x.clone().into_inner() == v && x.clone().into_iter().collect::<Vec<_>>() == v && x == Vec2::unvalidated(v.clone()), "injection: a list changes", "{v:?}: {x:?}");
                ensure!(Vec2::from((v[0], v[1])).as_ref() == [v[0], v[1]] && Vec2::from([v[0], v[1]]).as_ref() == [v[0], v[1]], "injection: a list changes", "{v:?}");
            }
            if let Some(c) = s.and_then(|s| s.chars().next()) {
                let ok = c.is_ascii() && c != '\0' && c != '\r' && c != '\n';
                let q = QuotedChar::try_from(c).ok();
                ensure!(q.is_some() == ok && QuotedChar::validate(c).is_ok() == ok && (!ok || (q.unwrap().inner() == c && QuotedChar::unvalidated(c) == q.unwrap())), "injection: a delimiter is judged wrongly", "{c:?}");
            }
        }
        16 => {
            if let Some(s) = s {
                let t = agree("ListCharString", b, list_ok(b), vec![ListCharString::try_from(s).ok(), ListCharString::try_from(s.to_string()).ok(), ListCharString::validate(b).ok().map(|_| ListCharString::unvalidated(s))])?;
                if let Some(t) = &t {
                    same("ListCharString", b, &[t.as_ref()])?;
                }
                let l = agree("ListMailbox", b, literal_ok(b), vec![ListMailbox::try_from(s).ok(), ListMailbox::try_from(s.to_string()).ok()])?;
                if let Some(l) = l {
                    ensure!(matches!(l, ListMailbox::Token(_)) == t.is_some(), "injection: constructors disagree", "{l:?} {t:?}");
                }
            }
        }
        _ => {
            // Constructors of messages against the fields they fill.
            let ok = literal_ok(b);
            let (u, l) = (ctx.t.u64(), ctx.t.u64());
            let get = vec![QuotaGet::new(Resource::Storage, u, l)];
            let d = Data::quota(b.to_vec(), get.clone());
            ensure!(d.is_ok() == ok && (!ok || d.as_ref().ok() == Some(&Data::Quota { root: AString::try_from(b).unwrap(), quotas: Vec1::unvalidated(get) })), "injection: constructors disagree", "{d:?}");
            ensure!(Data::quota(b.to_vec(), Vec::<QuotaGet>::new()).is_err(), "injection: empty lists are judged wrongly", "QUOTA");
            let roots: Vec<AString> = AString::try_from(b).into_iter().collect();
            let d = Data::quota_root(b.to_vec(), roots.clone());
            ensure!(d.is_ok() == ok && (!ok || d.as_ref().ok() == Some(&Data::QuotaRoot { mailbox: Mailbox::try_from(b).unwrap(), roots })), "injection: constructors disagree", "{d:?}");
            let set = vec![QuotaSet::new(Resource::Message, l)];
            let c = CommandBody::set_quota(b.to_vec(), set.clone());
            ensure!(c.is_ok() == ok && (!ok || c.as_ref().ok() == Some(&CommandBody::SetQuota { root: AString::try_from(b).unwrap(), quotas: set })), "injection: constructors disagree", "{c:?}");
            eq("unselect", CommandBody::unselect(), CommandBody::Unselect)?;
            use MessageDataItemName::*;
            let m = ctx.t.pick(&[Macro::All, Macro::Fast, Macro::Full]).clone();
            let want = match m {
                Macro::All => vec![Flags, InternalDate, Rfc822Size, Envelope],
                Macro::Fast => vec![Flags, InternalDate, Rfc822Size],
                _ => vec![Flags, InternalDate, Rfc822Size, Envelope, Body],
            };
            eq("Macro::expand", m.expand(), want)?;
            eq("Macro", MacroOrMessageDataItemNames::from(m.clone()), MacroOrMessageDataItemNames::Macro(m))?;
        }
    }
    Ok(())
}
