//! The reference grammar: for a value, all its spellings (RFC 3501 and the extensions the repository lists). Written from
//! the RFCs; what the code under test deliberately accepts beyond them is marked as tolerated (`Tol`, `Nz`, ...).

use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        enable::CapabilityEnable,
        quota::Resource,
        sort::{SortAlgorithm, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::*,
    response::*,
    search::SearchKey,
    sequence::*,
    status::{StatusDataItem, StatusDataItemName},
};
#[cfg(feature = "ext")]
use imap_codec::imap_types::{
    command::{FetchModifier, SelectParameter, StoreModifier},
    extensions::{
        condstore_qresync::{AttributeFlag, EntryTypeReq},
        metadata::{Depth, Entry, EntryValue, GetMetadataOption, MetadataCode, MetadataResponse},
        namespace::Namespaces,
        utf8::Utf8Kind,
    },
};

use crate::{
    gram::{Gr::*, *},
    wire::Msg,
};

const QUIRK: bool = cfg!(feature = "quirk");
const QUIRK_OFF: bool = cfg!(feature = "quirk_off");

/// A value that has no spelling: nothing matches it.
fn never() -> Gr {
    Alt(vec![])
}
fn only_if(ok: bool, b: &[u8]) -> Gr {
    if ok { raw(b) } else { never() }
}
fn atom_char(c: u8) -> bool {
    matches!(c, 0x21..=0x7e) && !b"(){%*\"\\]".contains(&c)
}
fn astring_char(c: u8) -> bool {
    atom_char(c) || c == b']'
}
fn list_char(c: u8) -> bool {
    astring_char(c) || c == b'%' || c == b'*'
}
fn text_char(c: u8) -> bool {
    matches!(c, 1..=0x7f) && c != b'\r' && c != b'\n'
}
fn all_of(s: &[u8], f: fn(u8) -> bool) -> bool {
    !s.is_empty() && s.iter().all(|c| f(*c))
}
/// The atom inside a newtype that has no accessor.
fn inner<T: serde::Serialize>(v: &T) -> Gr {
    match serde_json::to_value(v) {
        Ok(serde_json::Value::String(s)) => only_if(all_of(s.as_bytes(), atom_char), s.as_bytes()),
        other => panic!("not a string: {other:?}"),
    }
}
fn tag(t: &Tag) -> Gr {
    let s = t.inner().as_bytes();
    only_if(all_of(s, astring_char) && !s.contains(&b'+'), s)
}
fn text(t: &Text) -> Gr {
    only_if(all_of(t.inner().as_bytes(), text_char), t.inner().as_bytes())
}
fn tol(valid: Gr, tolerated: Vec<Gr>) -> Gr {
    let mut v = vec![valid];
    v.extend(tolerated);
    Tol(v)
}
/// Tolerated if the quirks are on.
fn quirk(valid: Gr, tolerated: Gr) -> Gr {
    if QUIRK { Tol(vec![valid, tolerated]) } else { valid }
}
fn nil() -> Gr {
    kw("NIL")
}
fn empty() -> Gr {
    Seq(vec![])
}
fn nz<T: Into<u32>>(n: T) -> Gr {
    Nz(n.into() as u64)
}
fn words(s: &str) -> Gr {
    join(s.split(' ').map(kw).collect(), sp())
}
fn opt_space() -> Gr {
    if QUIRK { Tol(vec![empty(), raw(" ")]) } else { empty() }
}

// ----- strings -----

fn quoted_bytes(s: &str) -> Gr {
    let mut b = vec![b'"'];
    for c in s.bytes() {
        if c == b'"' || c == b'\\' {
            b.push(b'\\');
        }
        b.push(c);
    }
    b.push(b'"');
    Raw(b)
}
fn quoted(q: &Quoted) -> Gr {
    if q.inner().bytes().all(text_char) { quoted_bytes(q.inner()) } else { never() }
}
fn lit(prefix: &str, data: &[u8], mode: LiteralMode) -> Gr {
    let plus = if mode == LiteralMode::NonSync { "+}" } else { "}" };
    Seq(vec![raw(prefix), raw("{"), Num(data.len() as u64), raw(plus), Eol, raw(data)])
}
fn literal(l: &Literal) -> Gr {
    if l.as_ref().contains(&0) {
        return never();
    }
    lit("", l.as_ref(), l.mode())
}
fn literal8(l: &Literal8) -> Gr {
    lit("~", &l.data, l.mode)
}
fn string(s: &IString) -> Gr {
    match s {
        IString::Literal(l) => literal(l),
        IString::Quoted(q) => quoted(q),
        #[cfg(feature = "ext")]
        // (That NUL is accepted here is pinned by a test of the repository.)
        IString::QuotedUtf8(u) if !u.0.contains(['\r', '\n']) => quoted_bytes(&u.0),
        #[cfg(feature = "ext")]
        IString::QuotedUtf8(_) => never(),
    }
}
fn nstring(s: &NString) -> Gr {
    match &s.0 {
        None => nil(),
        Some(s) => string(s),
    }
}
fn nstring8(s: &NString8) -> Gr {
    match s {
        NString8::NString(n) => nstring(n),
        NString8::Literal8(l) => literal8(l),
    }
}
fn astring(s: &AString) -> Gr {
    match s {
        AString::Atom(a) => only_if(all_of(a.inner().as_bytes(), astring_char), a.inner().as_bytes()),
        AString::String(s) => string(s),
    }
}
fn atom(a: &Atom) -> Gr {
    only_if(all_of(a.inner().as_bytes(), atom_char), a.inner().as_bytes())
}
fn charset(c: &Charset) -> Gr {
    match c {
        Charset::Atom(a) => atom(a),
        Charset::Quoted(q) => quoted(q),
    }
}
fn mailbox(m: &Mailbox) -> Gr {
    match m {
        // INBOX may be spelled in any case and as any kind of string.
        Mailbox::Inbox => Alt(vec![
            kw("INBOX"),
            Seq(vec![raw("\""), kw("INBOX"), raw("\"")]),
            Seq(vec![raw("{"), Num(5), raw("}"), Eol, kw("INBOX")]),
            Seq(vec![raw("{"), Num(5), raw("+}"), Eol, kw("INBOX")]),
        ]),
        Mailbox::Other(o) => {
            let is_inbox = match o.inner() {
                AString::Atom(a) => a.inner().eq_ignore_ascii_case("inbox"),
                AString::String(s) => s.as_ref().eq_ignore_ascii_case(b"inbox"),
            };
            if is_inbox { never() } else { astring(o.inner()) }
        }
    }
}
fn list_mailbox(m: &ListMailbox) -> Gr {
    match m {
        ListMailbox::Token(t) => only_if(all_of(t.as_ref(), list_char), t.as_ref()),
        ListMailbox::String(s) => string(s),
    }
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn base64(data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(B64[(n >> (18 - 6 * i)) as usize & 63]);
            } else {
                out.push(b'=');
            }
        }
    }
    out
}

// ----- dates -----

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn date(d: &NaiveDate) -> Gr {
    use chrono::Datelike;
    let d = d.as_ref();
    let rest = Seq(vec![raw("-"), kw(MONTHS[d.month0() as usize]), raw(format!("-{:04}", d.year()))]);
    let day = if d.day() < 10 { Alt(vec![raw(format!("0{}", d.day())), raw(d.day().to_string())]) } else { raw(d.day().to_string()) };
    let text = Seq(vec![day, rest]);
    Alt(vec![Seq(vec![raw("\""), text.clone(), raw("\"")]), text])
}
fn datetime(d: &DateTime) -> Gr {
    use chrono::{Datelike, Timelike};
    let d = d.as_ref();
    let off = d.offset().local_minus_utc();
    let day = if d.day() < 10 { Alt(vec![raw(format!("0{}", d.day())), raw(format!(" {}", d.day()))]) } else { raw(d.day().to_string()) };
    let (h, m) = (off.abs() / 3600, off.abs() / 60 % 60);
    let zone = |sign: char| {
        let plain = raw(format!("{sign}{h:02}{m:02}"));
        // Not a sensible zone, but it denotes the same offset.
        if h > 0 && m < 40 { tol(plain, vec![raw(format!("{sign}{:02}{:02}", h - 1, m + 60))]) } else { plain }
    };
    let zone = match off {
        0 => Alt(vec![zone('+'), zone('-')]),
        o if o > 0 => zone('+'),
        _ => zone('-'),
    };
    Seq(vec![
        raw("\""),
        day,
        raw("-"),
        kw(MONTHS[d.month0() as usize]),
        raw(format!("-{:04} {:02}:{:02}:{:02} ", d.year(), d.hour(), d.minute(), d.second())),
        zone,
        raw("\""),
    ])
}

// ----- flags, sets -----

fn flag(f: &Flag) -> Gr {
    match f {
        Flag::Answered => kw("\\Answered"),
        Flag::Deleted => kw("\\Deleted"),
        Flag::Draft => kw("\\Draft"),
        Flag::Flagged => kw("\\Flagged"),
        Flag::Seen => kw("\\Seen"),
        Flag::Extension(e) => Seq(vec![raw("\\"), inner(e)]),
        Flag::Keyword(a) => atom(a),
    }
}
fn flag_fetch(f: &FlagFetch) -> Gr {
    match f {
        FlagFetch::Recent => kw("\\Recent"),
        FlagFetch::Flag(f) => flag(f),
    }
}
fn flag_perm(f: &FlagPerm) -> Gr {
    match f {
        FlagPerm::Asterisk => raw("\\*"),
        FlagPerm::Flag(f) => flag(f),
    }
}
fn flag_name(f: &FlagNameAttribute) -> Gr {
    match f {
        FlagNameAttribute::Noinferiors => kw("\\Noinferiors"),
        FlagNameAttribute::Noselect => kw("\\Noselect"),
        FlagNameAttribute::Marked => kw("\\Marked"),
        FlagNameAttribute::Unmarked => kw("\\Unmarked"),
        FlagNameAttribute::Extension(e) => Seq(vec![raw("\\"), inner(e)]),
    }
}
fn seq_no(s: &SeqOrUid) -> Gr {
    match s {
        SeqOrUid::Value(n) => nz(*n),
        SeqOrUid::Asterisk => raw("*"),
    }
}
fn sequence_set(s: &SequenceSet) -> Gr {
    join(
        s.0.as_ref()
            .iter()
            .map(|s| match s {
                Sequence::Single(n) => seq_no(n),
                Sequence::Range(a, b) => Seq(vec![seq_no(a), raw(":"), seq_no(b)]),
            })
            .collect(),
        raw(","),
    )
}
fn uid_set(s: &UidSet) -> Gr {
    join(
        s.0.as_ref()
            .iter()
            .map(|s| match s {
                UidElement::Single(n) => nz(*n),
                UidElement::Range(a, b) => Seq(vec![nz(*a), raw(":"), nz(*b)]),
            })
            .collect(),
        raw(","),
    )
}

// ----- names -----

fn auth_mechanism(m: &AuthMechanism) -> Gr {
    kw(match m {
        AuthMechanism::Plain => "PLAIN",
        AuthMechanism::Login => "LOGIN",
        AuthMechanism::OAuthBearer => "OAUTHBEARER",
        AuthMechanism::XOAuth2 => "XOAUTH2",
        AuthMechanism::ScramSha1 => "SCRAM-SHA-1",
        AuthMechanism::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
        AuthMechanism::ScramSha256 => "SCRAM-SHA-256",
        AuthMechanism::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
        AuthMechanism::ScramSha3_512 => "SCRAM-SHA3-512",
        AuthMechanism::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
        AuthMechanism::Other(o) => return inner(o),
        _ => return raw("?unknown mechanism?"),
    })
}
fn resource(r: &Resource) -> Gr {
    kw(match r {
        Resource::Storage => "STORAGE",
        Resource::Message => "MESSAGE",
        Resource::Mailbox => "MAILBOX",
        Resource::AnnotationStorage => "ANNOTATION-STORAGE",
        Resource::Other(o) => return inner(o),
    })
}
fn threading(t: &ThreadingAlgorithm) -> Gr {
    match t {
        ThreadingAlgorithm::OrderedSubject => kw("ORDEREDSUBJECT"),
        ThreadingAlgorithm::References => kw("REFERENCES"),
        ThreadingAlgorithm::Other(o) => inner(o),
    }
}
fn capability(c: &Capability) -> Gr {
    kw(match c {
        Capability::Imap4Rev1 => "IMAP4REV1",
        Capability::Auth(m) => return Seq(vec![kw("AUTH="), auth_mechanism(m)]),
        Capability::LoginDisabled => "LOGINDISABLED",
        Capability::Idle => "IDLE",
        Capability::SaslIr => "SASL-IR",
        Capability::Enable => "ENABLE",
        Capability::Compress { .. } => "COMPRESS=DEFLATE",
        Capability::Quota => "QUOTA",
        Capability::QuotaRes(r) => return Seq(vec![kw("QUOTA=RES-"), resource(r)]),
        Capability::QuotaSet => "QUOTASET",
        Capability::LiteralPlus => "LITERAL+",
        Capability::LiteralMinus => "LITERAL-",
        Capability::Move => "MOVE",
        Capability::Unselect => "UNSELECT",
        Capability::Sort(None) => "SORT",
        Capability::Sort(Some(SortAlgorithm::Display)) => "SORT=DISPLAY",
        Capability::Sort(Some(SortAlgorithm::Other(o))) => return Seq(vec![kw("SORT="), inner(o)]),
        Capability::Thread(t) => return Seq(vec![kw("THREAD="), threading(t)]),
        Capability::Binary => "BINARY",
        Capability::UidPlus => "UIDPLUS",
        #[cfg(feature = "ext")]
        Capability::StartTls => "STARTTLS",
        #[cfg(feature = "ext")]
        Capability::MailboxReferrals => "MAILBOX-REFERRALS",
        #[cfg(feature = "ext")]
        Capability::LoginReferrals => "LOGIN-REFERRALS",
        #[cfg(feature = "ext")]
        Capability::Id => "ID",
        #[cfg(feature = "ext")]
        Capability::Metadata => "METADATA",
        #[cfg(feature = "ext")]
        Capability::MetadataServer => "METADATA-SERVER",
        #[cfg(feature = "ext")]
        Capability::CondStore => "CONDSTORE",
        #[cfg(feature = "ext")]
        Capability::QResync => "QRESYNC",
        #[cfg(feature = "ext")]
        Capability::Namespace => "NAMESPACE",
        #[cfg(feature = "ext")]
        Capability::Utf8(Utf8Kind::Accept) => "UTF8=ACCEPT",
        #[cfg(feature = "ext")]
        Capability::Utf8(Utf8Kind::Only) => "UTF8=ONLY",
        Capability::Other(o) => return inner(o),
        _ => return raw("?unknown capability?"),
    })
}
fn capability_enable(c: &CapabilityEnable) -> Gr {
    match c {
        #[cfg(feature = "ext")]
        CapabilityEnable::CondStore => kw("CONDSTORE"),
        #[cfg(feature = "ext")]
        CapabilityEnable::Utf8(Utf8Kind::Accept) => kw("UTF8=ACCEPT"),
        #[cfg(feature = "ext")]
        CapabilityEnable::Utf8(Utf8Kind::Only) => kw("UTF8=ONLY"),
        #[cfg(feature = "ext")]
        CapabilityEnable::Metadata => kw("METADATA"),
        #[cfg(feature = "ext")]
        CapabilityEnable::MetadataServer => kw("METADATA-SERVER"),
        CapabilityEnable::Other(o) => inner(o),
        _ => raw("?unknown capability?"),
    }
}
fn capability_data<'a>(caps: impl IntoIterator<Item = &'a Capability<'a>>) -> Gr {
    let list = join(caps.into_iter().map(capability).collect(), sp());
    Seq(vec![kw("CAPABILITY"), sp(), list, opt_space()])
}

// ----- sections, fetch -----

fn part(p: &Part) -> Gr {
    join(p.0.as_ref().iter().map(|n| nz(*n)).collect(), raw("."))
}
fn section(s: &Option<Section>) -> Gr {
    let prefixed = |p: &Option<Part>, rest: Gr| match p {
        Some(p) => Seq(vec![part(p), raw("."), rest]),
        None => rest,
    };
    let fields = |k: &str, l: &Vec1<AString>| Seq(vec![kw(k), sp(), parens(l.as_ref().iter().map(astring).collect())]);
    let spec = match s {
        None => empty(),
        Some(Section::Part(p)) => part(p),
        Some(Section::Header(p)) => prefixed(p, kw("HEADER")),
        Some(Section::HeaderFields(p, l)) => prefixed(p, fields("HEADER.FIELDS", l)),
        Some(Section::HeaderFieldsNot(p, l)) => prefixed(p, fields("HEADER.FIELDS.NOT", l)),
        Some(Section::Text(p)) => prefixed(p, kw("TEXT")),
        Some(Section::Mime(p)) => Seq(vec![part(p), raw("."), kw("MIME")]),
    };
    Seq(vec![raw("["), spec, raw("]")])
}
fn section_binary(s: &[std::num::NonZeroU32]) -> Gr {
    Seq(vec![raw("["), join(s.iter().map(|n| nz(*n)).collect(), raw(".")), raw("]")])
}
fn partial(p: &Option<(u32, std::num::NonZeroU32)>) -> Gr {
    match p {
        None => empty(),
        Some((a, b)) => Seq(vec![raw("<"), Num(*a as u64), raw("."), nz(*b), raw(">")]),
    }
}
fn item_name(i: &MessageDataItemName) -> Gr {
    use MessageDataItemName::*;
    match i {
        Body => kw("BODY"),
        BodyExt { section: s, partial: p, peek } => Seq(vec![kw(if *peek { "BODY.PEEK" } else { "BODY" }), section(s), partial(p)]),
        BodyStructure => kw("BODYSTRUCTURE"),
        Envelope => kw("ENVELOPE"),
        Flags => kw("FLAGS"),
        InternalDate => kw("INTERNALDATE"),
        Rfc822 => kw("RFC822"),
        Rfc822Header => kw("RFC822.HEADER"),
        Rfc822Size => kw("RFC822.SIZE"),
        Rfc822Text => kw("RFC822.TEXT"),
        Uid => kw("UID"),
        Binary { section, partial: p, peek } => Seq(vec![kw(if *peek { "BINARY.PEEK" } else { "BINARY" }), section_binary(section), partial(p)]),
        BinarySize { section } => Seq(vec![kw("BINARY.SIZE"), section_binary(section)]),
        #[cfg(feature = "ext")]
        ModSeq => kw("MODSEQ"),
    }
}
fn address(a: &Address) -> Gr {
    let gap = if QUIRK { TolSpaces } else { empty() };
    Seq(vec![gap, parens(vec![nstring(&a.name), nstring(&a.adl), nstring(&a.mailbox), nstring(&a.host)])])
}
fn addresses(l: &[Address]) -> Gr {
    if l.is_empty() {
        return nil();
    }
    Seq(vec![raw("("), Seq(l.iter().map(address).collect()), raw(")")])
}
fn envelope(e: &Envelope) -> Gr {
    parens(vec![
        nstring(&e.date),
        nstring(&e.subject),
        addresses(&e.from),
        addresses(&e.sender),
        addresses(&e.reply_to),
        addresses(&e.to),
        addresses(&e.cc),
        addresses(&e.bcc),
        nstring(&e.in_reply_to),
        nstring(&e.message_id),
    ])
}
fn params(p: &[(IString, IString)]) -> Gr {
    if p.is_empty() {
        return tol(nil(), vec![raw("()")]);
    }
    parens(p.iter().flat_map(|(k, v)| [string(k), string(v)]).collect())
}
fn basic_fields(b: &BasicFields) -> Gr {
    let enc = string(&b.content_transfer_encoding);
    let enc = match &b.content_transfer_encoding {
        IString::Quoted(q) if q.inner().is_empty() => quirk(enc, nil()),
        _ => enc,
    };
    let size = if b.size == 0 { quirk(Num(0), Seq(vec![raw("-"), TolDigits])) } else { Num(b.size as u64) };
    join(vec![params(&b.parameter_list), nstring(&b.id), nstring(&b.description), enc, size], sp())
}
fn body_ext(e: &BodyExtension) -> Gr {
    match e {
        BodyExtension::NString(n) => nstring(n),
        BodyExtension::Number(n) => Num(*n as u64),
        BodyExtension::List(l) => parens(l.as_ref().iter().map(body_ext).collect()),
    }
}
fn disposition(d: &Option<Disposition>) -> Gr {
    let Some(d) = d else { return empty() };
    let mut v = vec![
        sp(),
        match &d.disposition {
            None => nil(),
            Some((s, p)) => parens(vec![string(s), params(p)]),
        },
    ];
    if let Some(l) = &d.tail {
        v.push(sp());
        let list = parens(l.language.iter().map(string).collect());
        v.push(match l.language.as_slice() {
            [] => nil(),
            [one] => Alt(vec![list, string(one)]),
            _ => list,
        });
        if let Some(l) = &l.tail {
            v.push(sp());
            v.push(nstring(&l.location));
            for e in &l.extensions {
                v.push(sp());
                v.push(body_ext(e));
            }
        }
    }
    Seq(v)
}
fn body(b: &BodyStructure) -> Gr {
    let mut v = vec![raw("(")];
    match b {
        BodyStructure::Single { body: b, extension_data } => {
            let basic = basic_fields(&b.basic);
            v.push(match &b.specific {
                SpecificFields::Basic { r#type, subtype } => join(vec![string(r#type), string(subtype), basic], sp()),
                SpecificFields::Message { envelope: e, body_structure, number_of_lines } => {
                    join(vec![kw("\"MESSAGE\""), kw("\"RFC822\""), basic, envelope(e), body(body_structure), Num(*number_of_lines as u64)], sp())
                }
                SpecificFields::Text { subtype, number_of_lines } => join(vec![kw("\"TEXT\""), string(subtype), basic, Num(*number_of_lines as u64)], sp()),
            });
            if let Some(x) = extension_data {
                v.push(sp());
                v.push(nstring(&x.md5));
                v.push(disposition(&x.tail));
            }
        }
        BodyStructure::Multi { bodies, subtype, extension_data } => {
            v.extend(bodies.as_ref().iter().map(body));
            v.push(sp());
            v.push(string(subtype));
            if let Some(x) = extension_data {
                v.push(sp());
                v.push(params(&x.parameter_list));
                v.push(disposition(&x.tail));
            }
        }
    }
    v.push(raw(")"));
    Seq(v)
}
fn item(i: &MessageDataItem) -> Gr {
    use MessageDataItem::*;
    let two = |k: &str, g: Gr| Seq(vec![kw(k), sp(), g]);
    match i {
        Body(b) => two("BODY", body(b)),
        BodyStructure(b) => two("BODYSTRUCTURE", body(b)),
        BodyExt { section: s, origin, data } => Seq(vec![
            kw("BODY"),
            section(s),
            match origin {
                None => empty(),
                Some(o) => Seq(vec![raw("<"), Num(*o as u64), raw(">")]),
            },
            sp(),
            nstring(data),
        ]),
        Envelope(e) => two("ENVELOPE", envelope(e)),
        Flags(f) => two("FLAGS", parens(f.iter().map(flag_fetch).collect())),
        InternalDate(d) => two("INTERNALDATE", datetime(d)),
        Rfc822(n) => two("RFC822", nstring(n)),
        Rfc822Header(n) => two("RFC822.HEADER", nstring(n)),
        Rfc822Size(n) => two("RFC822.SIZE", Num(*n as u64)),
        Rfc822Text(n) => two("RFC822.TEXT", nstring(n)),
        Uid(n) => two("UID", nz(*n)),
        Binary { section, value } => Seq(vec![kw("BINARY"), section_binary(section), sp(), nstring8(value)]),
        BinarySize { section, size } => Seq(vec![kw("BINARY.SIZE"), section_binary(section), sp(), Num(*size as u64)]),
        #[cfg(feature = "ext")]
        ModSeq(n) => two("MODSEQ", Seq(vec![raw("("), Nz(n.get()), raw(")")])),
    }
}

// ----- search, sort, thread -----

fn search_key(k: &SearchKey) -> Gr {
    use SearchKey::*;
    let two = |k: &str, g: Gr| Seq(vec![kw(k), sp(), g]);
    match k {
        And(l) => parens(l.as_ref().iter().map(search_key).collect()),
        SequenceSet(s) => sequence_set(s),
        All => kw("ALL"),
        Answered => kw("ANSWERED"),
        Bcc(a) => two("BCC", astring(a)),
        Before(d) => two("BEFORE", date(d)),
        Body(a) => two("BODY", astring(a)),
        Cc(a) => two("CC", astring(a)),
        Deleted => kw("DELETED"),
        Draft => kw("DRAFT"),
        Flagged => kw("FLAGGED"),
        From(a) => two("FROM", astring(a)),
        Header(a, b) => Seq(vec![kw("HEADER"), sp(), astring(a), sp(), astring(b)]),
        Keyword(a) => two("KEYWORD", atom(a)),
        Larger(n) => two("LARGER", Num(*n as u64)),
        New => kw("NEW"),
        Not(k) => two("NOT", search_key(k)),
        Old => kw("OLD"),
        On(d) => two("ON", date(d)),
        Or(a, b) => Seq(vec![kw("OR"), sp(), search_key(a), sp(), search_key(b)]),
        Recent => kw("RECENT"),
        Seen => kw("SEEN"),
        SentBefore(d) => two("SENTBEFORE", date(d)),
        SentOn(d) => two("SENTON", date(d)),
        SentSince(d) => two("SENTSINCE", date(d)),
        Since(d) => two("SINCE", date(d)),
        Smaller(n) => two("SMALLER", Num(*n as u64)),
        Subject(a) => two("SUBJECT", astring(a)),
        Text(a) => two("TEXT", astring(a)),
        To(a) => two("TO", astring(a)),
        Uid(s) => two("UID", sequence_set(s)),
        Unanswered => kw("UNANSWERED"),
        Undeleted => kw("UNDELETED"),
        Undraft => kw("UNDRAFT"),
        Unflagged => kw("UNFLAGGED"),
        Unkeyword(a) => two("UNKEYWORD", atom(a)),
        Unseen => kw("UNSEEN"),
        #[cfg(feature = "ext")]
        ModSequence { entry, modseq } => {
            let mut v = vec![kw("MODSEQ"), sp()];
            if let Some((f, t)) = entry {
                let sys = |s: &str| Seq(vec![raw("\\\\"), kw(s)]);
                v.push(kw("\"/flags/"));
                v.push(match f {
                    AttributeFlag::Answered => sys("Answered"),
                    AttributeFlag::Deleted => sys("Deleted"),
                    AttributeFlag::Draft => sys("Draft"),
                    AttributeFlag::Flagged => sys("Flagged"),
                    AttributeFlag::Seen => sys("Seen"),
                    AttributeFlag::Extension(e) => Seq(vec![raw("\\\\"), inner(e)]),
                    AttributeFlag::Keyword(a) => atom(a),
                });
                v.push(raw("\""));
                v.push(sp());
                v.push(kw(match t {
                    EntryTypeReq::Private => "priv",
                    EntryTypeReq::Shared => "shared",
                    EntryTypeReq::All => "all",
                }));
                v.push(sp());
            }
            v.push(Num(*modseq));
            Seq(v)
        }
    }
}
fn search_keys(l: &Vec1<SearchKey>) -> Gr {
    join(l.as_ref().iter().map(search_key).collect(), sp())
}
fn sort_key(k: &SortKey) -> Gr {
    kw(match k {
        SortKey::Arrival => "ARRIVAL",
        SortKey::Cc => "CC",
        SortKey::Date => "DATE",
        SortKey::From => "FROM",
        SortKey::Size => "SIZE",
        SortKey::Subject => "SUBJECT",
        SortKey::To => "TO",
        SortKey::DisplayFrom => "DISPLAYFROM",
        SortKey::DisplayTo => "DISPLAYTO",
    })
}
fn thread(t: &Thread) -> Gr {
    let answers = |v: &Vec2<Thread>| Seq(v.as_ref().iter().map(thread).collect());
    match t {
        Thread::Members { prefix, answers: a } => {
            let mut v = vec![raw("("), join(prefix.as_ref().iter().map(|n| nz(*n)).collect(), sp())];
            if let Some(a) = a {
                v.push(sp());
                v.push(answers(a));
            }
            v.push(raw(")"));
            Seq(v)
        }
        Thread::Nested { answers: a } => Seq(vec![raw("("), answers(a), raw(")")]),
    }
}

// ----- status -----

fn status_name(n: &StatusDataItemName) -> Gr {
    use StatusDataItemName::*;
    kw(match n {
        Messages => "MESSAGES",
        Recent => "RECENT",
        UidNext => "UIDNEXT",
        UidValidity => "UIDVALIDITY",
        Unseen => "UNSEEN",
        Deleted => "DELETED",
        DeletedStorage => "DELETED-STORAGE",
        #[cfg(feature = "ext")]
        HighestModSeq => "HIGHESTMODSEQ",
    })
}
fn status_item(i: &StatusDataItem) -> Gr {
    use StatusDataItem::*;
    let (k, n) = match i {
        Messages(n) => ("MESSAGES", Num(*n as u64)),
        Recent(n) => ("RECENT", Num(*n as u64)),
        UidNext(n) => ("UIDNEXT", nz(*n)),
        UidValidity(n) => ("UIDVALIDITY", nz(*n)),
        Unseen(n) => ("UNSEEN", Num(*n as u64)),
        Deleted(n) => ("DELETED", Num(*n as u64)),
        DeletedStorage(n) => ("DELETED-STORAGE", Num(*n)),
        #[cfg(feature = "ext")]
        HighestModSeq(n) => ("HIGHESTMODSEQ", Num(*n)),
    };
    Seq(vec![kw(k), sp(), n])
}

// ----- extensions -----

#[cfg(feature = "ext")]
fn id_params(p: &Option<Vec<(IString, NString)>>) -> Gr {
    match p {
        None => nil(),
        Some(l) => {
            let list = Seq(vec![raw("("), join(l.iter().flat_map(|(k, v)| [string(k), nstring(v)]).collect(), sp()), opt_space(), raw(")")]);
            if l.is_empty() && QUIRK_OFF { Alt(vec![list, nil()]) } else { list }
        }
    }
}
#[cfg(feature = "ext")]
fn entry(e: &Entry) -> Gr {
    astring(e.inner())
}
#[cfg(feature = "ext")]
fn entry_values(l: &Vec1<EntryValue>) -> Gr {
    parens(l.as_ref().iter().flat_map(|e| [entry(&e.entry), nstring8(&e.value)]).collect())
}
#[cfg(feature = "ext")]
fn select_params(l: &[SelectParameter]) -> Gr {
    if l.is_empty() {
        return empty();
    }
    let one = |p: &SelectParameter| match p {
        SelectParameter::CondStore => kw("CONDSTORE"),
        SelectParameter::QResync { uid_validity, mod_sequence_value, known_uids, seq_match_data } => {
            let mut v = vec![nz(*uid_validity), Nz(mod_sequence_value.get())];
            v.extend(known_uids.iter().map(sequence_set));
            v.extend(seq_match_data.iter().map(|(a, b)| parens(vec![sequence_set(a), sequence_set(b)])));
            Seq(vec![kw("QRESYNC"), sp(), parens(v)])
        }
    };
    Seq(vec![sp(), parens(l.iter().map(one).collect())])
}
fn delimiter(d: &Option<QuotedChar>) -> Gr {
    match d {
        None => nil(),
        Some(c) if c.inner().is_ascii() && text_char(c.inner() as u8) => quoted_bytes(&c.inner().to_string()),
        Some(_) => never(),
    }
}
#[cfg(feature = "ext")]
fn namespaces(l: &Namespaces) -> Gr {
    if l.is_empty() {
        return nil();
    }
    let mut v = vec![raw("(")];
    for n in l {
        v.push(raw("("));
        v.push(string(&n.prefix));
        v.push(sp());
        v.push(delimiter(&n.delimiter));
        for e in &n.extensions {
            v.push(sp());
            v.push(string(&e.key));
            v.push(sp());
            v.push(parens(e.values.as_ref().iter().map(string).collect()));
        }
        v.push(raw(")"));
    }
    v.push(raw(")"));
    Seq(v)
}

// ----- messages -----

fn command_body(c: &CommandBody) -> Gr {
    use CommandBody::*;
    let two = |k: &str, g: Gr| Seq(vec![kw(k), sp(), g]);
    let uidk = |uid: &bool, k: &str| if *uid { Seq(vec![kw("UID"), sp(), kw(k)]) } else { kw(k) };
    match c {
        Capability => kw("CAPABILITY"),
        Noop => kw("NOOP"),
        Logout => kw("LOGOUT"),
        #[cfg(feature = "ext")]
        StartTLS => kw("STARTTLS"),
        Authenticate { mechanism, initial_response } => {
            let mut v = vec![kw("AUTHENTICATE"), sp(), auth_mechanism(mechanism)];
            if let Some(r) = initial_response {
                v.push(sp());
                let r = r.declassify();
                v.push(if r.is_empty() { tol(raw("="), vec![empty()]) } else { raw(base64(r)) });
            }
            Seq(v)
        }
        Login { username, password } => Seq(vec![kw("LOGIN"), sp(), astring(username), sp(), astring(password.declassify())]),
        #[cfg(not(feature = "ext"))]
        Select { mailbox: m } => two("SELECT", mailbox(m)),
        #[cfg(feature = "ext")]
        Select { mailbox: m, parameters } => Seq(vec![kw("SELECT"), sp(), mailbox(m), select_params(parameters)]),
        #[cfg(not(feature = "ext"))]
        Examine { mailbox: m } => two("EXAMINE", mailbox(m)),
        #[cfg(feature = "ext")]
        Examine { mailbox: m, parameters } => Seq(vec![kw("EXAMINE"), sp(), mailbox(m), select_params(parameters)]),
        Unselect => kw("UNSELECT"),
        Create { mailbox: m } => two("CREATE", mailbox(m)),
        Delete { mailbox: m } => two("DELETE", mailbox(m)),
        Rename { from, to } => Seq(vec![kw("RENAME"), sp(), mailbox(from), sp(), mailbox(to)]),
        Subscribe { mailbox: m } => two("SUBSCRIBE", mailbox(m)),
        Unsubscribe { mailbox: m } => two("UNSUBSCRIBE", mailbox(m)),
        List { reference, mailbox_wildcard } => Seq(vec![kw("LIST"), sp(), mailbox(reference), sp(), list_mailbox(mailbox_wildcard)]),
        Lsub { reference, mailbox_wildcard } => Seq(vec![kw("LSUB"), sp(), mailbox(reference), sp(), list_mailbox(mailbox_wildcard)]),
        Status { mailbox: m, item_names } => Seq(vec![kw("STATUS"), sp(), mailbox(m), sp(), parens(item_names.iter().map(status_name).collect())]),
        Append { mailbox: m, flags, date, message } => {
            let mut v = vec![kw("APPEND"), sp(), mailbox(m)];
            let list = Seq(vec![sp(), parens(flags.iter().map(flag).collect())]);
            v.push(if flags.is_empty() { Alt(vec![empty(), list]) } else { list });
            if let Some(d) = date {
                v.push(sp());
                v.push(datetime(d));
            }
            v.push(sp());
            v.push(match message {
                LiteralOrLiteral8::Literal(l) => literal(l),
                LiteralOrLiteral8::Literal8(l) => literal8(l),
            });
            Seq(v)
        }
        Check => kw("CHECK"),
        Close => kw("CLOSE"),
        Expunge => kw("EXPUNGE"),
        ExpungeUid { sequence_set: s } => Seq(vec![kw("UID"), sp(), kw("EXPUNGE"), sp(), sequence_set(s)]),
        Search { charset: c, criteria, uid } => {
            let mut v = vec![uidk(uid, "SEARCH"), sp()];
            if let Some(c) = c {
                v.extend([kw("CHARSET"), sp(), charset(c), sp()]);
            }
            v.push(search_keys(criteria));
            Seq(v)
        }
        Sort { sort_criteria, charset: c, search_criteria, uid } => {
            let crit = sort_criteria.as_ref().iter().map(|s| if s.reverse { Seq(vec![kw("REVERSE"), sp(), sort_key(&s.key)]) } else { sort_key(&s.key) }).collect();
            join(vec![uidk(uid, "SORT"), parens(crit), charset(c), search_keys(search_criteria)], sp())
        }
        Thread { algorithm, charset: c, search_criteria, uid } => join(vec![uidk(uid, "THREAD"), threading(algorithm), charset(c), search_keys(search_criteria)], sp()),
        Fetch {
            sequence_set: s,
            macro_or_item_names,
            uid,
            #[cfg(feature = "ext")]
            modifiers,
        } => {
            let what = match macro_or_item_names {
                MacroOrMessageDataItemNames::Macro(m) => kw(match m {
                    Macro::All => "ALL",
                    Macro::Fast => "FAST",
                    Macro::Full => "FULL",
                    _ => "?unknown macro?",
                }),
                MacroOrMessageDataItemNames::MessageDataItemNames(l) => {
                    let list = parens(l.iter().map(item_name).collect());
                    match l.as_slice() {
                        [one] => Alt(vec![item_name(one), list]),
                        _ => list,
                    }
                }
            };
            #[allow(unused_mut)]
            let mut v = vec![uidk(uid, "FETCH"), sequence_set(s), what];
            #[cfg(feature = "ext")]
            if !modifiers.is_empty() {
                v.push(parens(
                    modifiers
                        .iter()
                        .map(|m| match m {
                            FetchModifier::ChangedSince(n) => two("CHANGEDSINCE", Nz(n.get())),
                            FetchModifier::Vanished => kw("VANISHED"),
                        })
                        .collect(),
                ));
            }
            join(v, sp())
        }
        Store {
            sequence_set: s,
            kind,
            response,
            flags,
            uid,
            #[cfg(feature = "ext")]
            modifiers,
        } => {
            let mut v = vec![uidk(uid, "STORE"), sequence_set(s)];
            #[cfg(feature = "ext")]
            if !modifiers.is_empty() {
                v.push(parens(
                    modifiers
                        .iter()
                        .map(|m| match m {
                            StoreModifier::UnchangedSince(n) => two("UNCHANGEDSINCE", Num(*n)),
                        })
                        .collect(),
                ));
            }
            v.push(Seq(vec![
                raw(match kind {
                    StoreType::Replace => "",
                    StoreType::Add => "+",
                    StoreType::Remove => "-",
                }),
                kw(match response {
                    StoreResponse::Answer => "FLAGS",
                    StoreResponse::Silent => "FLAGS.SILENT",
                }),
            ]));
            let l: Vec<Gr> = flags.iter().map(flag).collect();
            v.push(if l.is_empty() { raw("()") } else { Alt(vec![parens(l.clone()), join(l, sp())]) });
            join(v, sp())
        }
        Copy { sequence_set: s, mailbox: m, uid } => join(vec![uidk(uid, "COPY"), sequence_set(s), mailbox(m)], sp()),
        Move { sequence_set: s, mailbox: m, uid } => join(vec![uidk(uid, "MOVE"), sequence_set(s), mailbox(m)], sp()),
        Idle => kw("IDLE"),
        Enable { capabilities } => two("ENABLE", join(capabilities.as_ref().iter().map(capability_enable).collect(), sp())),
        Compress { .. } => words("COMPRESS DEFLATE"),
        GetQuota { root } => two("GETQUOTA", astring(root)),
        GetQuotaRoot { mailbox: m } => two("GETQUOTAROOT", mailbox(m)),
        SetQuota { root, quotas } => join(
            vec![kw("SETQUOTA"), astring(root), parens(quotas.iter().flat_map(|q| [resource(&q.resource), Num(q.limit)]).collect())],
            sp(),
        ),
        #[cfg(feature = "ext")]
        Id { parameters } => two("ID", id_params(parameters)),
        #[cfg(feature = "ext")]
        SetMetadata { mailbox: m, entry_values: l } => join(vec![kw("SETMETADATA"), mailbox(m), entry_values(l)], sp()),
        #[cfg(feature = "ext")]
        GetMetadata { options, mailbox: m, entries } => {
            let mut v = vec![kw("GETMETADATA")];
            if !options.is_empty() {
                v.push(parens(
                    options
                        .iter()
                        .map(|o| match o {
                            GetMetadataOption::MaxSize(n) => two("MAXSIZE", Num(*n as u64)),
                            GetMetadataOption::Depth(d) => two(
                                "DEPTH",
                                kw(match d {
                                    Depth::Null => "0",
                                    Depth::One => "1",
                                    Depth::Infinity => "infinity",
                                }),
                            ),
                        })
                        .collect(),
                ));
            }
            v.push(mailbox(m));
            let list = parens(entries.as_ref().iter().map(entry).collect());
            v.push(match entries.as_ref() {
                [one] => Alt(vec![entry(one), list]),
                _ => list,
            });
            join(v, sp())
        }
        #[cfg(feature = "ext")]
        Namespace => kw("NAMESPACE"),
    }
}

fn code(c: &Code) -> Gr {
    use Code::*;
    let two = |k: &str, g: Gr| Seq(vec![kw(k), sp(), g]);
    match c {
        Alert => kw("ALERT"),
        BadCharset { allowed } => {
            if allowed.is_empty() {
                kw("BADCHARSET")
            } else {
                two("BADCHARSET", parens(allowed.iter().map(charset).collect()))
            }
        }
        Capability(l) => capability_data(l.as_ref()),
        Parse => kw("PARSE"),
        PermanentFlags(l) => two("PERMANENTFLAGS", parens(l.iter().map(flag_perm).collect())),
        ReadOnly => kw("READ-ONLY"),
        ReadWrite => kw("READ-WRITE"),
        TryCreate => kw("TRYCREATE"),
        UidNext(n) => two("UIDNEXT", nz(*n)),
        UidValidity(n) => two("UIDVALIDITY", nz(*n)),
        Unseen(n) => two("UNSEEN", nz(*n)),
        CompressionActive => kw("COMPRESSIONACTIVE"),
        OverQuota => kw("OVERQUOTA"),
        TooBig => kw("TOOBIG"),
        UnknownCte => kw("UNKNOWN-CTE"),
        AppendUid { uid_validity, uid } => join(vec![kw("APPENDUID"), nz(*uid_validity), nz(*uid)], sp()),
        CopyUid { uid_validity, source, destination } => join(vec![kw("COPYUID"), nz(*uid_validity), uid_set(source), uid_set(destination)], sp()),
        UidNotSticky => kw("UIDNOTSTICKY"),
        #[cfg(feature = "ext")]
        Referral(url) => two("REFERRAL", raw(url.as_bytes())),
        #[cfg(feature = "ext")]
        HighestModSeq(n) => two("HIGHESTMODSEQ", Nz(n.get())),
        #[cfg(feature = "ext")]
        NoModSeq => kw("NOMODSEQ"),
        #[cfg(feature = "ext")]
        Modified(s) => two("MODIFIED", sequence_set(s)),
        #[cfg(feature = "ext")]
        Closed => kw("CLOSED"),
        #[cfg(feature = "ext")]
        Metadata(m) => two(
            "METADATA",
            match m {
                MetadataCode::LongEntries(n) => two("LONGENTRIES", Num(*n as u64)),
                MetadataCode::MaxSize(n) => two("MAXSIZE", Num(*n as u64)),
                MetadataCode::TooMany => kw("TOOMANY"),
                MetadataCode::NoPrivate => kw("NOPRIVATE"),
            },
        ),
        Other(o) => only_if(!o.inner().iter().any(|c| b"]\r\n".contains(c)), o.inner()),
    }
}
fn resp_text(c: Option<&Code>, txt: &Text) -> Gr {
    let t = text(txt);
    match c {
        None => t,
        Some(c) => {
            let rest = Seq(vec![sp(), t]);
            let rest = if txt.inner() == "..." { quirk(rest, empty()) } else { rest };
            Seq(vec![raw("["), code(c), raw("]"), rest])
        }
    }
}
fn status(s: &Status) -> Gr {
    let kind = |k: &StatusKind| {
        kw(match k {
            StatusKind::Ok => "OK",
            StatusKind::No => "NO",
            StatusKind::Bad => "BAD",
        })
    };
    match s {
        Status::Untagged(b) => join(vec![raw("*"), kind(&b.kind), resp_text(b.code.as_ref(), &b.text)], sp()),
        Status::Tagged(t) => join(vec![tag(&t.tag), kind(&t.body.kind), resp_text(t.body.code.as_ref(), &t.body.text)], sp()),
        Status::Bye(b) => join(vec![raw("*"), kw("BYE"), resp_text(b.code.as_ref(), &b.text)], sp()),
    }
}
#[cfg(feature = "ext")]
fn mod_seq(m: &Option<std::num::NonZeroU64>) -> Gr {
    match m {
        None => empty(),
        Some(n) => Seq(vec![sp(), raw("("), kw("MODSEQ"), sp(), Nz(n.get()), raw(")")]),
    }
}
fn data(d: &Data) -> Gr {
    use Data::*;
    let two = |k: &str, g: Gr| Seq(vec![kw(k), sp(), g]);
    let all = |k: &str, v: Vec<Gr>| {
        let mut out = vec![kw(k)];
        for g in v {
            out.push(sp());
            out.push(g);
        }
        Seq(out)
    };
    let nums = |l: &[std::num::NonZeroU32]| l.iter().map(|n| nz(*n)).collect::<Vec<_>>();
    match d {
        Capability(l) => capability_data(l.as_ref()),
        List { items, delimiter: d, mailbox: m } => join(vec![kw("LIST"), parens(items.iter().map(flag_name).collect()), delimiter(d), mailbox(m)], sp()),
        Lsub { items, delimiter: d, mailbox: m } => join(vec![kw("LSUB"), parens(items.iter().map(flag_name).collect()), delimiter(d), mailbox(m)], sp()),
        Status { mailbox: m, items } => Seq(vec![join(vec![kw("STATUS"), mailbox(m), parens(items.iter().map(status_item).collect())], sp()), opt_space()]),
        #[cfg(feature = "ext")]
        Search(l, m) => Seq(vec![all("SEARCH", nums(l)), mod_seq(m), opt_space()]),
        #[cfg(not(feature = "ext"))]
        Search(l) => Seq(vec![all("SEARCH", nums(l)), opt_space()]),
        #[cfg(feature = "ext")]
        Sort(l, m) => Seq(vec![all("SORT", nums(l)), mod_seq(m)]),
        #[cfg(not(feature = "ext"))]
        Sort(l) => all("SORT", nums(l)),
        Thread(l) => {
            if l.is_empty() {
                kw("THREAD")
            } else {
                two("THREAD", Seq(l.iter().map(thread).collect()))
            }
        }
        Flags(l) => two("FLAGS", parens(l.iter().map(flag).collect())),
        Exists(n) => Seq(vec![Num(*n as u64), sp(), kw("EXISTS")]),
        Recent(n) => Seq(vec![Num(*n as u64), sp(), kw("RECENT")]),
        Expunge(n) => Seq(vec![nz(*n), sp(), kw("EXPUNGE")]),
        Fetch { seq, items } => join(vec![nz(*seq), kw("FETCH"), parens(items.as_ref().iter().map(item).collect())], sp()),
        Enabled { capabilities } => all("ENABLED", capabilities.iter().map(capability_enable).collect()),
        Quota { root, quotas } => {
            let q = |q: &imap_codec::imap_types::extensions::quota::QuotaGet| Seq(vec![resource(&q.resource), Sp(QUIRK), Num(q.usage), Sp(QUIRK), Num(q.limit)]);
            join(vec![kw("QUOTA"), astring(root), parens(quotas.as_ref().iter().map(q).collect())], sp())
        }
        QuotaRoot { mailbox: m, roots } => {
            let mut v = vec![kw("QUOTAROOT"), mailbox(m)];
            v.extend(roots.iter().map(astring));
            join(v, sp())
        }
        #[cfg(feature = "ext")]
        Id { parameters } => two("ID", id_params(parameters)),
        #[cfg(feature = "ext")]
        Metadata { mailbox: m, items } => join(
            vec![
                kw("METADATA"),
                mailbox(m),
                match items {
                    MetadataResponse::WithValues(l) => entry_values(l),
                    MetadataResponse::WithoutValues(l) => join(l.as_ref().iter().map(entry).collect(), sp()),
                },
            ],
            sp(),
        ),
        #[cfg(feature = "ext")]
        Vanished { earlier, known_uids } => {
            let mut v = vec![kw("VANISHED")];
            if *earlier {
                v.push(kw("(EARLIER)"));
            }
            v.push(sequence_set(known_uids));
            join(v, sp())
        }
        #[cfg(feature = "ext")]
        Namespace { personal, other, shared } => join(vec![kw("NAMESPACE"), namespaces(personal), namespaces(other), namespaces(shared)], sp()),
    }
}

pub fn command(c: &Command) -> Gr {
    Seq(vec![tag(&c.tag), sp(), command_body(&c.body), Eol])
}
pub fn response(r: &Response) -> Gr {
    match r {
        Response::Status(s) => Seq(vec![status(s), Eol]),
        Response::Data(d) => Seq(vec![raw("* "), data(d), Eol]),
        Response::CommandContinuationRequest(c) => match c {
            CommandContinuationRequest::Basic(b) => {
                let g = Seq(vec![raw("+ "), resp_text(b.code(), b.text()), Eol]);
                if b.code().is_none() && b.text().inner() == "..." { quirk(g, Seq(vec![raw("+"), Eol])) } else { g }
            }
            CommandContinuationRequest::Base64(d) => Seq(vec![raw("+ "), raw(base64(d)), Eol]),
        },
    }
}
pub fn greeting(g: &Greeting) -> Gr {
    let k = kw(match g.kind {
        GreetingKind::Ok => "OK",
        GreetingKind::PreAuth => "PREAUTH",
        GreetingKind::Bye => "BYE",
    });
    Seq(vec![raw("* "), k, sp(), resp_text(g.code.as_ref(), &g.text), Eol])
}
pub fn message(m: &Msg) -> Gr {
    match m {
        Msg::Command(c) => command(c),
        Msg::Response(r) => response(r),
        Msg::Greeting(g) => greeting(g),
        Msg::Auth(AuthenticateData::Cancel) => Seq(vec![raw("*"), Eol]),
        Msg::Auth(AuthenticateData::Continue(d)) => Seq(vec![raw(base64(d.declassify())), Eol]),
        Msg::Idle(_) => Seq(vec![kw("DONE"), Eol]),
    }
}
