//! Generators of IMAP values, driven by the tape. Only public constructors of the code under test are used.

use std::{
    any::{Any, TypeId},
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    num::NonZeroU32,
    rc::Rc,
};
#[cfg(feature = "ext")]
use std::num::NonZeroU64;

use chrono::{FixedOffset, TimeZone};
#[cfg(feature = "ext")]
use imap_codec::imap_types::extensions::{
    condstore_qresync::{AttributeFlag, EntryTypeReq},
    metadata::{Depth, Entry, EntryValue, GetMetadataOption, MetadataCode, MetadataResponse},
    namespace::NamespaceResponseExtension,
    utf8::{QuotedUtf8, Utf8Kind},
};
#[cfg(feature = "ext")]
use imap_codec::imap_types::command::{FetchModifier, SelectParameter, StoreModifier};
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::{QuotaGet, QuotaSet, Resource},
        sort::{SortAlgorithm, SortCriterion, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::*,
    response::*,
    search::SearchKey,
    sequence::*,
    status::{StatusDataItem, StatusDataItemName},
};
use imap_codec::imap_types::secret::Secret;

use crate::tape::Tape;

/// Per-run weights ("swarm"): each run draws its own mix, so that some runs are all literals, some all long strings, ...
#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_str: usize,
    /// 0..=8: how often strings become literals (out of 8).
    pub lit: u64,
    /// 0..=8: how often a literal is non-synchronising.
    pub nonsync: u64,
    pub max_list: usize,
    pub depth: usize,
    /// Prefer awkward bytes.
    pub nasty: bool,
    /// How many long strings and lists, with lengths at the usual limits, may still come.
    pub big: u8,
    /// 0..=8: how often a value is one that this run has used before (out of 8).
    pub reuse: u64,
    /// Values of this run that may come again. All clones share it, so that messages of one run have values in common.
    pub pool: Pool,
}

#[derive(Clone, Default)]
pub struct Pool(Rc<RefCell<BTreeMap<TypeId, Vec<(Box<dyn Any>, bool)>>>>, Rc<Cell<usize>>);
impl std::fmt::Debug for Pool {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pool")
    }
}
impl Pool {
    fn size(&self, t: TypeId) -> usize {
        self.0.borrow().get(&t).map_or(0, |v| v.len())
    }
    fn get<T: Clone + 'static>(&self, i: usize) -> Option<T> {
        let m = self.0.borrow();
        let (v, long) = m.get(&TypeId::of::<T>())?.get(i)?;
        if *long {
            // Long values come again a few times only: messages of many megabytes cost more than they tell.
            if self.1.get() >= 6 {
                return None;
            }
            self.1.set(self.1.get() + 1);
        }
        v.downcast_ref::<T>().cloned()
    }
    fn put<T: Clone + 'static>(&self, v: &T, long: bool) {
        let mut m = self.0.borrow_mut();
        let e = m.entry(TypeId::of::<T>()).or_default();
        if e.len() >= 4 {
            e.remove(0);
        }
        e.push((Box::new(v.clone()), long));
    }
}

/// What these strings usually are.
const WORDS: &[&str] = &[
    "7BIT", "8BIT", "BASE64", "QUOTED-PRINTABLE", "BINARY", "UTF-8", "US-ASCII", "TEXT", "PLAIN", "HTML", "MIXED", "ALTERNATIVE", "RELATED", "MESSAGE", "RFC822",
    "GLOBAL", "APPLICATION", "OCTET-STREAM", "IMAGE", "PNG", "attachment", "inline", "filename", "name", "charset", "boundary", "en", "en-US", "NIL", "nil", "INBOX",
    "inbox", "Inbox", "", " ", "0", "1", "example.org", "Sent", "Trash", "/", ".", "*", "%", "#news.", "~/Mail/", "\\Seen", "DONE", "(", ")", "()", "{0}", "{3}", "{1+}",
    "name\"", "vendor", "version", "\\", "\"", "\\\\", "\"\"",
];

impl Cfg {
    pub fn draw(t: &mut Tape) -> Cfg {
        Cfg {
            max_str: *t.pick(&[6, 3, 12, 40, 90]),
            lit: *t.pick(&[2, 0, 1, 4, 7]),
            nonsync: *t.pick(&[4, 0, 8, 2]),
            max_list: *t.pick(&[3, 1, 2, 6]),
            depth: *t.pick(&[2, 0, 1, 3, 4]),
            nasty: t.bool(),
            big: if t.chance(1, 16) { 2 } else { 0 },
            reuse: *t.pick(&[0, 1, 0, 2, 5]),
            pool: Pool::default(),
        }
    }
}

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub c: Cfg,
}

const ATOM_CHARS: &[u8] = b"aAbINBOXnil019.-_+=/:<>@#$&!^`|~?,;'}[sSeEnFfLlAaGgTtZz";
const TAG_CHARS: &[u8] = b"aA019.-_=/:<>@#$&!^`|~?,;'}[]bTag";
const NASTY: &[u8] = b"{}+\r\n \"\\()*%[]~0123456789\t\x01\x7f\xff\x80a.<>";

fn nz(v: u32) -> NonZeroU32 {
    NonZeroU32::new(v).unwrap_or(NonZeroU32::MIN)
}

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape) -> Self {
        let c = Cfg::draw(t);
        G { t, c }
    }
    pub fn with(t: &'t mut Tape, c: Cfg) -> Self {
        G { t, c }
    }
    fn again<T: Clone + 'static>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        if self.c.reuse == 0 {
            return f(self);
        }
        let n = self.c.pool.size(TypeId::of::<T>());
        if n > 0 && self.t.below(8) < self.c.reuse {
            let i = self.t.usize(n);
            if let Some(v) = self.c.pool.get::<T>(n - 1 - i) {
                return v;
            }
        }
        let (big, used) = (self.c.big, self.c.pool.1.get());
        let v = f(self);
        self.c.pool.put(&v, self.c.big != big || self.c.pool.1.get() != used);
        v
    }
    fn word(&mut self) -> String {
        let w = *self.t.pick(WORDS);
        match self.t.below(4) {
            0 | 1 => w.to_string(),
            2 => w.to_ascii_lowercase(),
            _ => w.to_ascii_uppercase(),
        }
    }
    fn len(&mut self) -> usize {
        let m = self.c.max_str;
        if self.c.big > 0 && self.t.chance(1, 5) {
            self.c.big -= 1;
            return self.big_len();
        }
        if self.t.chance(1, 64) {
            return self.t.range(100, 1200) as usize;
        }
        self.t.range(1, m as u64) as usize
    }
    fn big_len(&mut self) -> usize {
        let around = *self.t.pick(&[64usize, 128, 256, 1000, 1024, 2048, 4096, 8192, 512, 998, 65536]);
        if around > 10_000 && !self.t.chance(1, 6) {
            return 100;
        }
        match self.t.below(4) {
            0 => around - 1,
            1 => around,
            2 => around + 1,
            _ => around + self.t.usize(around),
        }
    }
    fn big_count(&mut self) -> usize {
        let around = *self.t.pick(&[300usize, 16, 32, 50, 64, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096]);
        if around > 300 && !self.t.chance(1, 3) {
            return 64;
        }
        around - 1 + self.t.usize(3)
    }
    /// Items of a list. Sometimes an item is repeated.
    fn list<T: Clone>(&mut self, min: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        if self.c.big > 0 && self.t.chance(1, 5) {
            let saved = self.c.clone();
            (self.c.big, self.c.max_list, self.c.max_str, self.c.depth, self.c.reuse) = (0, 1, 3, 0, 0);
            let pattern: Vec<T> = (0..3).map(|_| f(self)).collect();
            let n = self.big_count();
            self.c = saved;
            self.c.big -= 1;
            return (0..n).map(|i| pattern[i % 3].clone()).collect();
        }
        let extra = if self.t.chance(1, 100) { self.t.usize(40) } else { self.t.usize(self.c.max_list + 1) };
        let mut out: Vec<T> = vec![];
        for i in 0..min + extra {
            if i > 0 && self.t.chance(1, 16) {
                let j = self.t.usize(out.len());
                out.push(out[j].clone());
            } else {
                out.push(f(self));
            }
        }
        out
    }
    /// `n` items; where there are many, a short pattern is repeated (so that the tape stays short).
    fn fill<T: Copy>(&mut self, n: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        if n <= 160 {
            return (0..n).map(|_| f(self)).collect();
        }
        let pattern: Vec<T> = (0..23).map(|_| f(self)).collect();
        let mut out: Vec<T> = (0..n).map(|i| pattern[i % pattern.len()]).collect();
        // ... but for one place, and the end.
        let i = self.t.usize(n);
        out[i] = f(self);
        out[n - 1] = f(self);
        out
    }
    fn vec1<T: Clone>(&mut self, f: impl FnMut(&mut Self) -> T) -> Vec1<T> {
        Vec1::try_from(self.list(1, f)).unwrap_or_else(|_| unreachable!())
    }
    fn chars(&mut self, alphabet: &[u8], n: usize) -> Vec<u8> {
        self.fill(n, |g| *g.t.pick(alphabet))
    }
    pub fn nzu32(&mut self) -> NonZeroU32 {
        nz(self.t.u32())
    }
    #[cfg(feature = "ext")]
    pub fn nzu64(&mut self) -> NonZeroU64 {
        NonZeroU64::new(self.t.u64()).unwrap_or(NonZeroU64::MIN)
    }

    // ----- core -----

    pub fn atom_str(&mut self) -> String {
        if self.t.chance(1, 6) {
            let words: &[&str] = &[
                "NIL", "nil", "INBOX", "inbox", "Seen", "ALL", "OR", "0", "1", "BODY", "UID", "{", "+", "a=b", "PLAIN", "UTF-8", "X", "HEADER",
                "Recent", "STORAGE", "=", "BODY[", "CHARSET", "NOT", "4294967295", "*", "FLAGS.SILENT", "(", "DONE", "RETURN",
            ];
            let w = *self.t.pick(words);
            if Atom::try_from(w).is_ok() {
                return w.to_string();
            }
        }
        let n = self.len();
        String::from_utf8(self.chars(ATOM_CHARS, n)).unwrap()
    }
    pub fn atom(&mut self) -> Atom<'static> {
        self.again(|g| g.new_atom())
    }
    fn new_atom(&mut self) -> Atom<'static> {
        let s = self.atom_str();
        Atom::try_from(s.clone()).unwrap_or_else(|_| Atom::try_from("atom").unwrap())
    }
    pub fn atom_ext(&mut self) -> AtomExt<'static> {
        let mut s = self.atom_str();
        if self.t.chance(1, 4) {
            let i = self.t.usize(s.len() + 1);
            s.insert(i, ']');
        }
        AtomExt::try_from(s).unwrap_or_else(|_| AtomExt::try_from("x").unwrap())
    }
    pub fn tag(&mut self) -> Tag<'static> {
        let n = match self.t.below(40) {
            39 => self.t.range(9, 70) as usize,
            38 => self.len(),
            _ => self.t.range(1, 8) as usize,
        };
        let b = self.chars(TAG_CHARS, n);
        Tag::try_from(b).unwrap_or_else(|_| Tag::try_from("A").unwrap())
    }
    pub fn quoted_str(&mut self) -> String {
        if self.t.chance(1, 8) {
            return self.word();
        }
        let n = if self.t.chance(1, 8) { 0 } else { self.len() };
        let nasty = self.c.nasty;
        self.fill(n, |g| {
            let c = if nasty { *g.t.pick(b"\"\\\\\"{}()[]*% \t+01a") } else { g.t.range(0x20, 0x7e) as u8 };
            if g.t.chance(1, 40) {
                let c = g.t.range(1, 0x7f) as u8;
                if c == b'\r' || c == b'\n' { '\x7f' } else { c as char }
            } else {
                c as char
            }
        })
        .into_iter()
        .collect()
    }
    pub fn quoted(&mut self) -> Quoted<'static> {
        Quoted::try_from(self.quoted_str()).unwrap_or_else(|_| Quoted::try_from("q").unwrap())
    }
    pub fn lit_mode(&mut self) -> LiteralMode {
        if self.t.below(8) < self.c.nonsync { LiteralMode::NonSync } else { LiteralMode::Sync }
    }
    pub fn lit_bytes(&mut self, nul: bool) -> Vec<u8> {
        let n = if self.t.chance(1, 10) {
            0
        } else if self.t.chance(1, 200) {
            self.t.range(1000, 9000) as usize
        } else {
            self.len()
        };
        let nasty = self.c.nasty;
        if self.t.chance(1, 12) {
            return self.word().into_bytes();
        }
        if self.t.chance(1, 10) {
            // Things that look like protocol.
            let w: &[&[u8]] = &[
                b"\r\nA1 LOGOUT\r\n", b"{3}\r\n", b"{3+}\r\nabc", b"* BYE x\r\n", b"+ \r\n", b"\n", b"\r", b"{", b"~{5}\r\n", b"DONE\r\n", b"x {99999}\r\n",
            ];
            return self.t.pick(w).to_vec();
        }
        self.fill(n, |g| {
            let b = if nasty { *g.t.pick(NASTY) } else { g.t.below(256) as u8 };
            if b == 0 && !nul { 1 } else { b }
        })
    }
    pub fn literal(&mut self) -> Literal<'static> {
        let b = self.lit_bytes(false);
        let m = self.lit_mode();
        let l = Literal::try_from(b).unwrap_or_else(|_| Literal::try_from("l").unwrap());
        match m {
            LiteralMode::Sync => l.into_sync(),
            LiteralMode::NonSync => l.into_non_sync(),
        }
    }
    pub fn literal8(&mut self) -> Literal8<'static> {
        let data = Cow::Owned(self.lit_bytes(true));
        Literal8 { data, mode: self.lit_mode() }
    }
    #[cfg(feature = "ext")]
    fn utf8(&mut self) -> QuotedUtf8<'static> {
        let n = if self.t.chance(1, 20) { self.len() } else { self.t.range(0, 6) as usize };
        let mut s: String = self.fill(n, |g| *g.t.pick(&['a', 'ü', '"', '\\', '日', '😀', ' ', '\u{80}', '\u{7ff}', '\u{ffff}', '{', '\u{10ffff}'])).into_iter().collect();
        // A pure ASCII value is spelled like `Quoted`, and comes back as one.
        s.push(*self.t.pick(&['ü', '\u{80}', '日', '😀']));
        QuotedUtf8(Cow::Owned(s))
    }
    pub fn istring(&mut self) -> IString<'static> {
        let s = self.again(|g| g.new_istring());
        // The same content, spelled differently.
        if self.c.reuse > 0 && self.t.chance(1, 8) {
            return match s {
                IString::Quoted(q) => Literal::try_from(q.as_ref().as_bytes().to_vec()).map(IString::Literal).unwrap_or(IString::Quoted(q)),
                IString::Literal(l) => match std::str::from_utf8(l.as_ref()).ok().and_then(|s| Quoted::try_from(s.to_string()).ok()) {
                    Some(q) => IString::Quoted(q),
                    None => IString::Literal(l),
                },
                #[allow(unreachable_patterns)]
                other => other,
            };
        }
        s
    }
    fn new_istring(&mut self) -> IString<'static> {
        if self.t.below(8) < self.c.lit {
            return IString::Literal(self.literal());
        }
        #[cfg(feature = "ext")]
        if self.t.chance(1, 8) {
            return IString::QuotedUtf8(self.utf8());
        }
        IString::Quoted(self.quoted())
    }
    pub fn nstring(&mut self) -> NString<'static> {
        if self.t.chance(1, 3) { NString(None) } else { NString(Some(self.istring())) }
    }
    pub fn nstring8(&mut self) -> NString8<'static> {
        if self.t.chance(1, 3) { NString8::Literal8(self.literal8()) } else { NString8::NString(self.nstring()) }
    }
    pub fn astring(&mut self) -> AString<'static> {
        self.again(|g| g.new_astring())
    }
    fn new_astring(&mut self) -> AString<'static> {
        if self.t.bool() { AString::String(self.istring()) } else { AString::Atom(self.atom_ext()) }
    }
    pub fn mailbox(&mut self) -> Mailbox<'static> {
        self.again(|g| g.new_mailbox())
    }
    fn new_mailbox(&mut self) -> Mailbox<'static> {
        if self.t.chance(1, 5) {
            return Mailbox::Inbox;
        }
        Mailbox::from(self.astring())
    }
    pub fn list_mailbox(&mut self) -> ListMailbox<'static> {
        if self.t.chance(1, 3) {
            return ListMailbox::String(self.istring());
        }
        let n = self.len();
        let s = String::from_utf8(self.chars(b"%*]aB./INBOX-", n)).unwrap();
        ListMailbox::Token(ListCharString::try_from(s).unwrap_or_else(|_| ListCharString::try_from("*").unwrap()))
    }
    pub fn charset(&mut self) -> Charset<'static> {
        if self.t.bool() { Charset::Quoted(self.quoted()) } else { Charset::Atom(self.atom()) }
    }
    pub fn text(&mut self) -> Text<'static> {
        let n = self.len();
        let nasty = self.c.nasty;
        let mut s: String = self
            .fill(n, |g| {
                let c = if nasty { *g.t.pick(b"[]{}+=\"\\ ()\tab0*\x7f") } else { g.t.range(0x20, 0x7e) as u8 };
                c as char
            })
            .into_iter()
            .collect();
        // Issue #301 of the repository: text that starts with "[" is ambiguous. Covered by a known finding.
        if s.starts_with('[') {
            s.insert(0, 'x');
        }
        // A human readable text that ends like a literal announcement is a known finding (see known_findings.json).
        if crate::lexref::announcement(s.as_bytes()).is_some() {
            s.push('.');
        }
        Text::try_from(s).unwrap_or_else(|_| Text::try_from("text").unwrap())
    }
    pub fn flag(&mut self) -> Flag<'static> {
        self.again(|g| g.new_flag())
    }
    fn new_flag(&mut self) -> Flag<'static> {
        match self.t.below(8) {
            0 => Flag::Seen,
            1 => Flag::Answered,
            2 => Flag::Deleted,
            3 => Flag::Draft,
            4 => Flag::Flagged,
            5 => Flag::system(self.atom()),
            _ => Flag::keyword(self.atom()),
        }
    }
    pub fn flag_fetch(&mut self) -> FlagFetch<'static> {
        if self.t.chance(1, 6) {
            return FlagFetch::Recent;
        }
        let f = self.flag();
        if f.to_string().eq_ignore_ascii_case("\\recent") { FlagFetch::Recent } else { FlagFetch::Flag(f) }
    }
    pub fn flag_perm(&mut self) -> FlagPerm<'static> {
        if self.t.chance(1, 6) { FlagPerm::Asterisk } else { FlagPerm::Flag(self.flag()) }
    }
    pub fn flag_name(&mut self) -> FlagNameAttribute<'static> {
        match self.t.below(6) {
            0 => FlagNameAttribute::Noinferiors,
            1 => FlagNameAttribute::Noselect,
            2 => FlagNameAttribute::Marked,
            3 => FlagNameAttribute::Unmarked,
            _ => FlagNameAttribute::from(self.atom()),
        }
    }
    pub fn datetime(&mut self) -> DateTime {
        self.again(|g| g.new_datetime())
    }
    fn new_datetime(&mut self) -> DateTime {
        if self.t.chance(1, 24) {
            // What the type should refuse is sent if it does not.
            let y = *self.t.pick(&[2000, -1, 10000, 12345, 9999]);
            let nanos = *self.t.pick(&[0, 1, 999_999_999, 1_000_000_000]);
            let off = *self.t.pick(&[0, 1, -1, 30, 59, -86399, 3601]);
            let time = chrono::NaiveTime::from_hms_nano_opt(23, 59, 59, nanos).unwrap();
            let local = chrono::NaiveDateTime::new(chrono::NaiveDate::from_ymd_opt(y, 12, 31).unwrap(), time);
            if let Some(dt) = FixedOffset::east_opt(off).and_then(|o| o.from_local_datetime(&local).single()).and_then(|dt| DateTime::try_from(dt).ok()) {
                return dt;
            }
        }
        let y = match self.t.below(4) {
            0 => 2000,
            1 => *self.t.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 9998, 9999, 1900, 1970]),
            _ => self.t.range(0, 9999) as i32,
        };
        let mo = self.t.range(1, 12) as u32;
        let d = self.t.range(1, 31) as u32;
        let date = chrono::NaiveDate::from_ymd_opt(y, mo, d).unwrap_or_else(|| chrono::NaiveDate::from_ymd_opt(y, mo, 28).unwrap());
        let time = chrono::NaiveTime::from_hms_opt(self.t.below(24) as u32, self.t.below(60) as u32, self.t.below(60) as u32).unwrap();
        let off = match self.t.below(3) {
            0 => 0,
            1 => *self.t.pick(&[60, -60, 3600, -3600, 86340, -86340, 19800, -12600, 540 * 60]),
            _ => (self.t.below(2 * 1439 + 1) as i32 - 1439) * 60,
        };
        let local = chrono::NaiveDateTime::new(date, time);
        FixedOffset::east_opt(off)
            .and_then(|o| o.from_local_datetime(&local).single())
            .and_then(|dt| DateTime::try_from(dt).ok())
            .unwrap_or_else(|| {
                DateTime::try_from(FixedOffset::east_opt(0).unwrap().from_local_datetime(&chrono::NaiveDate::from_ymd_opt(2000, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()).unwrap())
                    .unwrap()
            })
    }
    pub fn date(&mut self) -> NaiveDate {
        self.again(|g| g.new_date())
    }
    fn new_date(&mut self) -> NaiveDate {
        if self.t.chance(1, 24) {
            let y = *self.t.pick(&[10000, -1, 12345, -9999]);
            if let Ok(d) = NaiveDate::try_from(chrono::NaiveDate::from_ymd_opt(y, 1, 31).unwrap()) {
                return d;
            }
        }
        let y = match self.t.below(3) {
            0 => 2000,
            1 => *self.t.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 9998, 9999]),
            _ => self.t.range(0, 9999) as i32,
        };
        let mo = self.t.range(1, 12) as u32;
        let d = self.t.range(1, 31) as u32;
        let date = chrono::NaiveDate::from_ymd_opt(y, mo, d).unwrap_or_else(|| chrono::NaiveDate::from_ymd_opt(y, mo, 28).unwrap());
        NaiveDate::try_from(date).unwrap()
    }

    // ----- sequences -----

    pub fn seq_num(&mut self) -> SeqOrUid {
        if self.t.chance(1, 6) {
            return SeqOrUid::Asterisk;
        }
        let v = if self.t.bool() { self.t.range(1, 12) as u32 } else { self.t.u32().max(1) };
        SeqOrUid::Value(nz(v))
    }
    pub fn sequence(&mut self) -> Sequence {
        if self.t.bool() { Sequence::Range(self.seq_num(), self.seq_num()) } else { Sequence::Single(self.seq_num()) }
    }
    pub fn raw_sequence_set(&mut self) -> SequenceSet {
        SequenceSet(self.vec1(|g| g.sequence()))
    }
    /// A sequence set in order and without overlaps or neighbours: it has only one sensible spelling, so that it comes back
    /// as it is even if the encoder normalises (which it does by default).
    pub fn canonical_sequence_set(&mut self) -> SequenceSet {
        if self.c.big > 0 && self.t.chance(1, 5) {
            // A long one, at equal distances.
            self.c.big -= 1;
            let n = self.big_count() as u64;
            let (start, step) = (1 + if self.t.bool() { self.t.below(20) } else { self.t.below(1 << 31) }, 2 + self.t.below(20));
            let range = self.t.below(step);
            let v = |x: u64| SeqOrUid::Value(nz(x as u32));
            let one = |i: u64| {
                let a = start + i * (step + 1);
                if range > 0 && (i & 1 == 0) { Sequence::Range(v(a), v(a + range)) } else { Sequence::Single(v(a)) }
            };
            let mut out: Vec<Sequence> = (0..n).map(one).collect();
            if self.t.chance(1, 4) {
                out.push(Sequence::Single(SeqOrUid::Asterisk));
            }
            return SequenceSet(Vec1::try_from(out).unwrap());
        }
        let n = 1 + if self.t.chance(1, 60) { self.t.usize(40) } else { self.t.usize(self.c.max_list + 1) };
        let mut out = vec![];
        let mut next: u64 = 1;
        for _ in 0..n {
            if self.t.chance(1, 8) {
                break;
            }
            let gap = |g: &mut Self| if g.t.chance(1, 8) { g.t.u32() as u64 } else { g.t.below(20) };
            let a = next + gap(self);
            if a > u32::MAX as u64 {
                break;
            }
            let v = |x: u64| SeqOrUid::Value(nz(x as u32));
            if self.t.bool() {
                let b = a + 1 + gap(self);
                if b > u32::MAX as u64 {
                    break;
                }
                if self.t.chance(1, 6) {
                    out.push(Sequence::Range(v(a), SeqOrUid::Asterisk));
                    return SequenceSet(Vec1::try_from(out).unwrap());
                }
                out.push(Sequence::Range(v(a), v(b)));
                next = b + 2;
            } else {
                out.push(Sequence::Single(v(a)));
                next = a + 2;
            }
        }
        if out.is_empty() || (next <= u32::MAX as u64 && self.t.chance(1, 6)) {
            out.push(Sequence::Single(SeqOrUid::Asterisk));
        }
        SequenceSet(Vec1::try_from(out).unwrap())
    }
    pub fn sequence_set(&mut self) -> SequenceSet {
        self.again(|g| g.new_sequence_set())
    }
    fn new_sequence_set(&mut self) -> SequenceSet {
        if cfg!(feature = "quirk") { self.canonical_sequence_set() } else { self.raw_sequence_set() }
    }
    pub fn uid_set(&mut self) -> UidSet {
        self.again(|g| g.new_uid_set())
    }
    fn new_uid_set(&mut self) -> UidSet {
        UidSet(self.vec1(|g| if g.t.bool() { UidElement::Range(g.nzu32(), g.nzu32()) } else { UidElement::Single(g.nzu32()) }))
    }

    // ----- fetch -----

    pub fn part(&mut self) -> Part {
        self.again(|g| g.new_part())
    }
    fn new_part(&mut self) -> Part {
        Part(self.vec1(|g| g.nzu32()))
    }
    pub fn section(&mut self) -> Section<'static> {
        self.again(|g| g.new_section())
    }
    fn new_section(&mut self) -> Section<'static> {
        match self.t.below(9) {
            0 => Section::Part(self.part()),
            1 => Section::Header(None),
            2 => Section::Header(Some(self.part())),
            3 => {
                let p = if self.t.bool() { Some(self.part()) } else { None };
                Section::HeaderFields(p, self.vec1(|g| g.astring()))
            }
            4 => {
                let p = if self.t.bool() { Some(self.part()) } else { None };
                Section::HeaderFieldsNot(p, self.vec1(|g| g.astring()))
            }
            5 => Section::Text(None),
            6 => Section::Text(Some(self.part())),
            _ => Section::Mime(self.part()),
        }
    }
    fn partial(&mut self) -> Option<(u32, NonZeroU32)> {
        if self.t.bool() { Some((self.t.u32(), self.nzu32())) } else { None }
    }
    pub fn item_name(&mut self) -> MessageDataItemName<'static> {
        use MessageDataItemName::*;
        match self.t.below(16) {
            0 => Flags,
            1 => Body,
            2 | 3 => {
                let section = if self.t.chance(1, 4) { None } else { Some(self.section()) };
                BodyExt { section, partial: self.partial(), peek: self.t.bool() }
            }
            4 => BodyStructure,
            5 => Envelope,
            6 => InternalDate,
            7 => Rfc822,
            8 => Rfc822Header,
            9 => Rfc822Size,
            10 => Rfc822Text,
            11 => Uid,
            12 => Binary { section: self.list(0, |g| g.nzu32()), partial: self.partial(), peek: self.t.bool() },
            13 => BinarySize { section: self.list(0, |g| g.nzu32()) },
            #[cfg(feature = "ext")]
            14 => ModSeq,
            _ => Flags,
        }
    }
    pub fn address(&mut self) -> Address<'static> {
        self.again(|g| g.new_address())
    }
    fn new_address(&mut self) -> Address<'static> {
        Address { name: self.nstring(), adl: self.nstring(), mailbox: self.nstring(), host: self.nstring() }
    }
    fn addresses(&mut self) -> Vec<Address<'static>> {
        self.again(|g| g.list(0, |g| g.address()))
    }
    pub fn envelope(&mut self) -> Envelope<'static> {
        let mut c = self.c.clone();
        c.max_list = c.max_list.min(2);
        std::mem::swap(&mut c, &mut self.c);
        let e = Envelope {
            date: self.nstring(),
            subject: self.nstring(),
            from: self.addresses(),
            sender: self.addresses(),
            reply_to: self.addresses(),
            to: self.addresses(),
            cc: self.addresses(),
            bcc: self.addresses(),
            in_reply_to: self.nstring(),
            message_id: self.nstring(),
        };
        self.c = c;
        e
    }
    fn params(&mut self) -> Vec<(IString<'static>, IString<'static>)> {
        self.again(|g| g.list(0, |g| (g.istring(), g.istring())))
    }
    fn basic_fields(&mut self) -> BasicFields<'static> {
        BasicFields {
            parameter_list: self.params(),
            id: self.nstring(),
            description: self.nstring(),
            content_transfer_encoding: self.istring(),
            size: self.t.u32(),
        }
    }
    fn body_ext(&mut self, d: usize) -> BodyExtension<'static> {
        match self.t.below(if d == 0 { 2 } else { 3 }) {
            0 => BodyExtension::Number(self.t.u32()),
            1 => BodyExtension::NString(self.nstring()),
            _ => BodyExtension::List(self.vec1(|g| g.body_ext(d - 1))),
        }
    }
    fn disposition(&mut self) -> Option<Disposition<'static>> {
        if !self.t.bool() {
            return None;
        }
        let disposition = if self.t.bool() { Some((self.istring(), self.params())) } else { None };
        let tail = if self.t.bool() {
            let language = self.list(0, |g| g.istring());
            let tail = if self.t.bool() {
                let location = self.nstring();
                let extensions = if self.t.chance(1, 16) {
                    let mut e = self.body_ext(0);
                    for _ in 0..self.t.range(3, 7) {
                        let mut v = vec![e];
                        if self.t.chance(1, 4) {
                            v.push(self.body_ext(0));
                        }
                        e = BodyExtension::List(Vec1::try_from(v).unwrap());
                    }
                    vec![e]
                } else {
                    self.list(0, |g| g.body_ext(3))
                };
                Some(Location { location, extensions })
            } else {
                None
            };
            Some(Language { language, tail })
        } else {
            None
        };
        Some(Disposition { disposition, tail })
    }
    pub fn body_structure(&mut self, d: usize) -> BodyStructure<'static> {
        let k = if d == 0 { self.t.below(2) } else { self.t.below(5) };
        match k {
            0 | 1 | 2 => {
                let basic = self.basic_fields();
                let specific = match k {
                    0 => SpecificFields::Text { subtype: self.istring(), number_of_lines: self.t.u32() },
                    1 => SpecificFields::Basic { r#type: self.media_type(), subtype: self.istring() },
                    _ => SpecificFields::Message {
                        envelope: Box::new(self.envelope()),
                        body_structure: Box::new(self.body_structure(d - 1)),
                        number_of_lines: self.t.u32(),
                    },
                };
                let extension_data =
                    if self.t.bool() { Some(SinglePartExtensionData { md5: self.nstring(), tail: self.disposition() }) } else { None };
                BodyStructure::Single { body: Body { basic, specific }, extension_data }
            }
            _ => {
                let n = 1 + self.t.usize(2);
                let bodies: Vec<_> = (0..n).map(|_| self.body_structure(d - 1)).collect();
                let subtype = self.istring();
                let extension_data =
                    if self.t.bool() { Some(MultiPartExtensionData { parameter_list: self.params(), tail: self.disposition() }) } else { None };
                BodyStructure::Multi { bodies: Vec1::try_from(bodies).unwrap(), subtype, extension_data }
            }
        }
    }
    /// A media type for a basic body. `TEXT` and `MESSAGE` belong to the typed variants.
    fn media_type(&mut self) -> IString<'static> {
        if self.t.bool() {
            let w = *self.t.pick(&["APPLICATION", "image", "Audio", "VIDEO", "FONT", "TEXTUAL", "MESSAGES", "MESSAGE-X"]);
            return IString::Quoted(Quoted::try_from(w).unwrap());
        }
        let s = self.istring();
        let b = s.as_ref().to_ascii_uppercase();
        if b == b"TEXT" || b == b"MESSAGE" { IString::Quoted(Quoted::try_from("x").unwrap()) } else { s }
    }
    /// One chain as deep as the decoder follows (or nearly), with little on each level.
    fn deep_body(&mut self) -> BodyStructure<'static> {
        let saved = self.c.clone();
        (self.c.max_list, self.c.max_str, self.c.big) = (0, 3, 0);
        let n = self.t.range(3, 6);
        let mut b = self.body_structure(0);
        for _ in 0..n {
            b = if self.t.bool() {
                let subtype = self.istring();
                let mut bodies = vec![b];
                if self.t.chance(1, 4) {
                    bodies.push(self.body_structure(0));
                }
                BodyStructure::Multi { bodies: Vec1::try_from(bodies).unwrap(), subtype, extension_data: None }
            } else {
                let specific = SpecificFields::Message { envelope: Box::new(self.envelope()), body_structure: Box::new(b), number_of_lines: self.t.u32() };
                BodyStructure::Single { body: imap_codec::imap_types::body::Body { basic: self.basic_fields(), specific }, extension_data: None }
            };
        }
        self.c = saved;
        b
    }
    fn any_body(&mut self) -> BodyStructure<'static> {
        if self.t.chance(1, 24) {
            return self.deep_body();
        }
        let d = self.c.depth.min(3);
        self.body_structure(d)
    }
    pub fn item(&mut self) -> MessageDataItem<'static> {
        use MessageDataItem::*;
        match self.t.below(17) {
            0 => Uid(self.nzu32()),
            1 => Body(self.any_body()),
            2 | 3 => {
                let section = if self.t.chance(1, 4) { None } else { Some(self.section()) };
                let origin = if self.t.bool() { Some(self.t.u32()) } else { None };
                BodyExt { section, origin, data: self.nstring() }
            }
            4 => BodyStructure(self.any_body()),
            5 => Envelope(self.envelope()),
            6 => Flags(self.list(0, |g| g.flag_fetch())),
            7 => InternalDate(self.datetime()),
            8 => Rfc822(self.nstring()),
            9 => Rfc822Header(self.nstring()),
            10 => Rfc822Size(self.t.u32()),
            11 => Rfc822Text(self.nstring()),
            12 => Binary { section: self.list(0, |g| g.nzu32()), value: self.nstring8() },
            13 => BinarySize { section: self.list(0, |g| g.nzu32()), size: self.t.u32() },
            #[cfg(feature = "ext")]
            14 => ModSeq(self.nzu64()),
            _ => Flags(self.list(0, |g| g.flag_fetch())),
        }
    }

    // ----- search & friends -----

    pub fn search_key(&mut self, d: usize) -> SearchKey<'static> {
        use SearchKey::*;
        if d > 2 && self.t.chance(1, 30) {
            let mut k = self.search_key(0);
            // (at most 8 below the top, of which `d` may already be used by the caller)
            for _ in 0..self.t.range(2, 4 + d as u64).min(if d == self.c.depth { 8 } else { d as u64 }) {
                k = match self.t.below(4) {
                    0 => Or(Box::new(k), Box::new(self.search_key(0))),
                    1 => Or(Box::new(self.search_key(0)), Box::new(k)),
                    2 => And(Vec1::from(k)),
                    _ => Not(Box::new(k)),
                };
            }
            return k;
        }
        if d > 0 && self.t.chance(1, 3) {
            return match self.t.below(3) {
                0 => Not(Box::new(self.search_key(d - 1))),
                1 => Or(Box::new(self.search_key(d - 1)), Box::new(self.search_key(d - 1))),
                _ => And(self.vec1(|g| g.search_key(d - 1))),
            };
        }
        match self.t.below(37) {
            0 => All,
            1 => SequenceSet(self.sequence_set()),
            2 => Answered,
            3 => Bcc(self.astring()),
            4 => Before(self.date()),
            5 => Body(self.astring()),
            6 => Cc(self.astring()),
            7 => Deleted,
            8 => Draft,
            9 => Flagged,
            10 => From(self.astring()),
            11 => Header(self.astring(), self.astring()),
            12 => Keyword(self.atom()),
            13 => Larger(self.t.u32()),
            14 => New,
            15 => Old,
            16 => On(self.date()),
            17 => Recent,
            18 => Seen,
            19 => SentBefore(self.date()),
            20 => SentOn(self.date()),
            21 => SentSince(self.date()),
            22 => Since(self.date()),
            23 => Smaller(self.t.u32()),
            24 => Subject(self.astring()),
            25 => Text(self.astring()),
            26 => To(self.astring()),
            27 => Uid(self.sequence_set()),
            28 => Unanswered,
            29 => Undeleted,
            30 => Undraft,
            31 => Unflagged,
            32 => Unkeyword(self.atom()),
            33 => Unseen,
            #[cfg(feature = "ext")]
            34 | 35 => {
                let entry = if self.t.bool() {
                    let f = match self.t.below(7) {
                        0 => AttributeFlag::Answered,
                        1 => AttributeFlag::Deleted,
                        2 => AttributeFlag::Draft,
                        3 => AttributeFlag::Flagged,
                        4 => AttributeFlag::Seen,
                        5 => AttributeFlag::system(self.atom()),
                        _ => AttributeFlag::keyword(self.atom()),
                    };
                    let ty = match self.t.below(3) {
                        0 => EntryTypeReq::Private,
                        1 => EntryTypeReq::Shared,
                        _ => EntryTypeReq::All,
                    };
                    Some((f, ty))
                } else {
                    None
                };
                ModSequence { entry, modseq: self.t.u64() }
            }
            _ => All,
        }
    }
    pub fn thread(&mut self, d: usize) -> Thread {
        let answers = |g: &mut Self| {
            let n = 2 + g.t.usize(2);
            Vec2::try_from((0..n).map(|_| g.thread(d - 1)).collect::<Vec<_>>()).unwrap_or_else(|_| unreachable!())
        };
        if d == 0 || self.t.below(3) == 0 {
            return Thread::Members { prefix: self.vec1(|g| g.nzu32()), answers: None };
        }
        if self.t.bool() {
            Thread::Members { prefix: self.vec1(|g| g.nzu32()), answers: Some(answers(self)) }
        } else {
            Thread::Nested { answers: answers(self) }
        }
    }
    pub fn auth_mechanism(&mut self) -> AuthMechanism<'static> {
        self.again(|g| g.new_auth_mechanism())
    }
    fn new_auth_mechanism(&mut self) -> AuthMechanism<'static> {
        match self.t.below(12) {
            0 => AuthMechanism::Plain,
            1 => AuthMechanism::Login,
            2 => AuthMechanism::OAuthBearer,
            3 => AuthMechanism::XOAuth2,
            4 => AuthMechanism::ScramSha1,
            5 => AuthMechanism::ScramSha1Plus,
            6 => AuthMechanism::ScramSha256,
            7 => AuthMechanism::ScramSha256Plus,
            8 => AuthMechanism::ScramSha3_512,
            9 => AuthMechanism::ScramSha3_512Plus,
            _ => AuthMechanism::from(self.atom()),
        }
    }
    pub fn threading_algorithm(&mut self) -> ThreadingAlgorithm<'static> {
        match self.t.below(3) {
            0 => ThreadingAlgorithm::OrderedSubject,
            1 => ThreadingAlgorithm::References,
            _ => ThreadingAlgorithm::from(self.atom()),
        }
    }
    pub fn resource(&mut self) -> Resource<'static> {
        self.again(|g| g.new_resource())
    }
    fn new_resource(&mut self) -> Resource<'static> {
        match self.t.below(6) {
            0 => Resource::Storage,
            1 => Resource::Message,
            2 => Resource::Mailbox,
            3 => Resource::AnnotationStorage,
            _ => Resource::from(self.atom()),
        }
    }
    pub fn capability(&mut self) -> Capability<'static> {
        self.again(|g| g.new_capability())
    }
    fn new_capability(&mut self) -> Capability<'static> {
        match self.t.below(30) {
            0 => Capability::Imap4Rev1,
            1 => Capability::Auth(self.auth_mechanism()),
            2 => Capability::LoginDisabled,
            3 => Capability::Idle,
            4 => Capability::SaslIr,
            5 => Capability::Enable,
            6 => Capability::Compress { algorithm: CompressionAlgorithm::Deflate },
            7 => Capability::Quota,
            8 => Capability::QuotaRes(self.resource()),
            9 => Capability::QuotaSet,
            10 => Capability::LiteralPlus,
            11 => Capability::LiteralMinus,
            12 => Capability::Move,
            13 => Capability::Unselect,
            14 => Capability::Sort(None),
            15 => Capability::Sort(Some(if self.t.bool() { SortAlgorithm::Display } else { SortAlgorithm::from(self.atom()) })),
            16 => Capability::Thread(self.threading_algorithm()),
            17 => Capability::Binary,
            18 => Capability::UidPlus,
            #[cfg(feature = "ext")]
            19 => Capability::StartTls,
            #[cfg(feature = "ext")]
            20 => Capability::MailboxReferrals,
            #[cfg(feature = "ext")]
            21 => Capability::LoginReferrals,
            #[cfg(feature = "ext")]
            22 => Capability::Id,
            #[cfg(feature = "ext")]
            23 => *self.t.pick(&[Capability::Metadata, Capability::MetadataServer]).clone_box(),
            #[cfg(feature = "ext")]
            24 => *self.t.pick(&[Capability::CondStore, Capability::QResync]).clone_box(),
            #[cfg(feature = "ext")]
            25 => Capability::Namespace,
            #[cfg(feature = "ext")]
            26 => Capability::Utf8(if self.t.bool() { Utf8Kind::Accept } else { Utf8Kind::Only }),
            _ => Capability::from(self.atom()),
        }
    }
    pub fn capability_enable(&mut self) -> CapabilityEnable<'static> {
        match self.t.below(6) {
            #[cfg(feature = "ext")]
            0 => CapabilityEnable::CondStore,
            #[cfg(feature = "ext")]
            1 => CapabilityEnable::Utf8(if self.t.bool() { Utf8Kind::Accept } else { Utf8Kind::Only }),
            #[cfg(feature = "ext")]
            2 => if self.t.bool() { CapabilityEnable::Metadata } else { CapabilityEnable::MetadataServer },
            _ => CapabilityEnable::from(self.atom()),
        }
    }
    pub fn status_name(&mut self) -> StatusDataItemName {
        use StatusDataItemName::*;
        match self.t.below(8) {
            0 => Messages,
            1 => Recent,
            2 => UidNext,
            3 => UidValidity,
            4 => Unseen,
            5 => Deleted,
            6 => DeletedStorage,
            #[cfg(feature = "ext")]
            _ => HighestModSeq,
            #[cfg(not(feature = "ext"))]
            _ => Messages,
        }
    }
    pub fn status_item(&mut self) -> StatusDataItem {
        use StatusDataItem::*;
        match self.t.below(8) {
            0 => Messages(self.t.u32()),
            1 => Recent(self.t.u32()),
            2 => UidNext(self.nzu32()),
            3 => UidValidity(self.nzu32()),
            4 => Unseen(self.t.u32()),
            5 => Deleted(self.t.u32()),
            6 => DeletedStorage(self.t.u64()),
            #[cfg(feature = "ext")]
            _ => HighestModSeq(self.t.u64()),
            #[cfg(not(feature = "ext"))]
            _ => Messages(self.t.u32()),
        }
    }
    #[cfg(feature = "ext")]
    fn id_params(&mut self) -> Option<Vec<(IString<'static>, NString<'static>)>> {
        if self.t.chance(1, 4) {
            return None;
        }
        // With `quirk_id_empty_to_nil` an empty list is deliberately encoded as NIL.
        let min = if cfg!(feature = "quirk_off") { 1 } else { 0 };
        Some(self.list(min, |g| (g.istring(), g.nstring())))
    }
    #[cfg(feature = "ext")]
    fn entry(&mut self) -> Entry<'static> {
        Entry::try_from(self.astring()).unwrap()
    }
    #[cfg(feature = "ext")]
    fn entry_value(&mut self) -> EntryValue<'static> {
        EntryValue { entry: self.entry(), value: self.nstring8() }
    }
    #[cfg(feature = "ext")]
    fn select_params(&mut self) -> Vec<SelectParameter> {
        if !self.t.chance(1, 3) {
            return vec![];
        }
        self.list(1, |g| {
            if g.t.bool() {
                let known_uids = if g.t.bool() { Some(g.sequence_set()) } else { None };
                let seq_match_data = if g.t.bool() { Some((g.sequence_set(), g.sequence_set())) } else { None };
                SelectParameter::QResync { uid_validity: g.nzu32(), mod_sequence_value: g.nzu64(), known_uids, seq_match_data }
            } else {
                SelectParameter::CondStore
            }
        })
    }

    // ----- messages -----

    pub const COMMAND_KINDS: u64 = 44;

    pub fn command_body(&mut self) -> CommandBody<'static> {
        let k = self.t.below(Self::COMMAND_KINDS);
        self.command_body_kind(k)
    }
    pub fn command_body_kind(&mut self, k: u64) -> CommandBody<'static> {
        use CommandBody::*;
        let uid = self.t.bool();
        let d = self.c.depth;
        match k {
            0 => Noop,
            1 => Capability,
            2 => Logout,
            #[cfg(feature = "ext")]
            3 => StartTLS,
            4 => {
                let mechanism = self.auth_mechanism();
                let initial_response = if self.t.bool() { Some(Secret::new(Cow::Owned(self.lit_bytes(true)))) } else { None };
                Authenticate { mechanism, initial_response }
            }
            5 => Login { username: self.astring(), password: Secret::new(self.astring()) },
            6 => Select {
                mailbox: self.mailbox(),
                #[cfg(feature = "ext")]
                parameters: self.select_params(),
            },
            7 => Unselect,
            8 => Examine {
                mailbox: self.mailbox(),
                #[cfg(feature = "ext")]
                parameters: self.select_params(),
            },
            9 => Create { mailbox: self.mailbox() },
            10 => Delete { mailbox: self.mailbox() },
            11 => Rename { from: self.mailbox(), to: self.mailbox() },
            12 => Subscribe { mailbox: self.mailbox() },
            13 => Unsubscribe { mailbox: self.mailbox() },
            14 => List { reference: self.mailbox(), mailbox_wildcard: self.list_mailbox() },
            15 => Lsub { reference: self.mailbox(), mailbox_wildcard: self.list_mailbox() },
            16 => Status { mailbox: self.mailbox(), item_names: Cow::Owned(self.list(0, |g| g.status_name())) },
            17 | 18 => {
                let message = if self.t.chance(1, 3) { LiteralOrLiteral8::Literal8(self.literal8()) } else { LiteralOrLiteral8::Literal(self.literal()) };
                let date = if self.t.bool() { Some(self.datetime()) } else { None };
                Append { mailbox: self.mailbox(), flags: self.list(0, |g| g.flag()), date, message }
            }
            19 => Check,
            20 => Close,
            21 => Expunge,
            22 => ExpungeUid { sequence_set: self.sequence_set() },
            23 | 24 => {
                let charset = if self.t.chance(1, 3) { Some(self.charset()) } else { None };
                Search { charset, criteria: self.vec1(|g| g.search_key(d)), uid }
            }
            25 => Sort {
                sort_criteria: self.vec1(|g| SortCriterion {
                    reverse: g.t.bool(),
                    key: match g.t.below(9) {
                        0 => SortKey::Arrival,
                        1 => SortKey::Cc,
                        2 => SortKey::Date,
                        3 => SortKey::From,
                        4 => SortKey::Size,
                        5 => SortKey::Subject,
                        6 => SortKey::To,
                        7 => SortKey::DisplayFrom,
                        _ => SortKey::DisplayTo,
                    },
                }),
                charset: self.charset(),
                search_criteria: self.vec1(|g| g.search_key(d)),
                uid,
            },
            26 => Thread { algorithm: self.threading_algorithm(), charset: self.charset(), search_criteria: self.vec1(|g| g.search_key(d)), uid },
            27 | 28 => Fetch {
                sequence_set: self.sequence_set(),
                macro_or_item_names: if self.t.chance(1, 4) {
                    MacroOrMessageDataItemNames::Macro(match self.t.below(3) {
                        0 => Macro::Fast,
                        1 => Macro::All,
                        _ => Macro::Full,
                    })
                } else {
                    MacroOrMessageDataItemNames::MessageDataItemNames(self.list(0, |g| g.item_name()))
                },
                uid,
                #[cfg(feature = "ext")]
                modifiers: if self.t.chance(1, 3) {
                    self.list(1, |g| if g.t.bool() { FetchModifier::ChangedSince(g.nzu64()) } else { FetchModifier::Vanished })
                } else {
                    vec![]
                },
            },
            29 => Store {
                sequence_set: self.sequence_set(),
                kind: match self.t.below(3) {
                    0 => StoreType::Replace,
                    1 => StoreType::Add,
                    _ => StoreType::Remove,
                },
                response: if self.t.bool() { StoreResponse::Answer } else { StoreResponse::Silent },
                flags: self.list(0, |g| g.flag()),
                uid,
                #[cfg(feature = "ext")]
                modifiers: if self.t.chance(1, 3) { self.list(1, |g| StoreModifier::UnchangedSince(g.t.u64())) } else { vec![] },
            },
            30 => Copy { sequence_set: self.sequence_set(), mailbox: self.mailbox(), uid },
            31 => Idle,
            32 => Enable { capabilities: self.vec1(|g| g.capability_enable()) },
            33 => Compress { algorithm: CompressionAlgorithm::Deflate },
            34 => GetQuota { root: self.astring() },
            35 => GetQuotaRoot { mailbox: self.mailbox() },
            36 => SetQuota { root: self.astring(), quotas: self.list(0, |g| QuotaSet::new(g.resource(), g.t.u64())) },
            37 => Move { sequence_set: self.sequence_set(), mailbox: self.mailbox(), uid },
            #[cfg(feature = "ext")]
            38 => Id { parameters: self.id_params() },
            #[cfg(feature = "ext")]
            39 => SetMetadata { mailbox: self.mailbox(), entry_values: self.vec1(|g| g.entry_value()) },
            #[cfg(feature = "ext")]
            40 => GetMetadata {
                options: if self.t.bool() {
                    self.list(1, |g| {
                        if g.t.bool() {
                            GetMetadataOption::MaxSize(g.t.u32())
                        } else {
                            GetMetadataOption::Depth(match g.t.below(3) {
                                0 => Depth::Null,
                                1 => Depth::One,
                                _ => Depth::Infinity,
                            })
                        }
                    })
                } else {
                    vec![]
                },
                mailbox: self.mailbox(),
                entries: self.vec1(|g| g.entry()),
            },
            #[cfg(feature = "ext")]
            41 => Namespace,
            _ => Noop,
        }
    }
    pub fn command(&mut self) -> Command<'static> {
        let tag = self.tag();
        Command { tag, body: self.command_body() }
    }
    pub fn auth_data(&mut self) -> AuthenticateData<'static> {
        if self.t.chance(1, 5) { AuthenticateData::Cancel } else { AuthenticateData::r#continue(self.lit_bytes(true)) }
    }
    pub fn code(&mut self) -> Code<'static> {
        use Code::*;
        match self.t.below(29) {
            0 => Alert,
            1 => BadCharset { allowed: self.list(0, |g| g.charset()) },
            2 => Capability(self.vec1(|g| g.capability())),
            3 => Parse,
            4 => PermanentFlags(self.list(0, |g| g.flag_perm())),
            5 => ReadOnly,
            6 => ReadWrite,
            7 => TryCreate,
            8 => UidNext(self.nzu32()),
            9 => UidValidity(self.nzu32()),
            10 => Unseen(self.nzu32()),
            11 => CompressionActive,
            12 => OverQuota,
            13 => TooBig,
            14 => UnknownCte,
            15 => AppendUid { uid_validity: self.nzu32(), uid: self.nzu32() },
            16 => CopyUid { uid_validity: self.nzu32(), source: self.uid_set(), destination: self.uid_set() },
            17 => UidNotSticky,
            #[cfg(feature = "ext")]
            18 => HighestModSeq(self.nzu64()),
            #[cfg(feature = "ext")]
            19 => Modified(self.sequence_set()),
            #[cfg(feature = "ext")]
            20 => NoModSeq,
            #[cfg(feature = "ext")]
            21 => Closed,
            #[cfg(feature = "ext")]
            22 => Metadata(match self.t.below(4) {
                0 => MetadataCode::LongEntries(self.t.u32()),
                1 => MetadataCode::MaxSize(self.t.u32()),
                2 => MetadataCode::TooMany,
                _ => MetadataCode::NoPrivate,
            }),
            _ => {
                // `CodeOther` is a fallback for codes the library does not know.
                let n = self.len();
                let mut s = b"X-".to_vec();
                s.extend(self.chars(b"ABCxyz-019", n.min(20)));
                if self.t.bool() {
                    s.push(b' ');
                    s.extend(self.chars(b"abc (){}\"\\*%+019[", n.min(20)));
                }
                Other(CodeOther::unvalidated(s))
            }
        }
    }
    fn opt_code(&mut self) -> Option<Code<'static>> {
        if self.t.bool() { Some(self.code()) } else { None }
    }
    pub fn greeting(&mut self) -> Greeting<'static> {
        let kind = match self.t.below(3) {
            0 => GreetingKind::Ok,
            1 => GreetingKind::PreAuth,
            _ => GreetingKind::Bye,
        };
        Greeting { kind, code: self.opt_code(), text: self.text() }
    }
    pub fn status(&mut self, tag: Option<Tag<'static>>) -> Status<'static> {
        let kind = match self.t.below(3) {
            0 => StatusKind::Ok,
            1 => StatusKind::No,
            _ => StatusKind::Bad,
        };
        let body = StatusBody { kind, code: self.opt_code(), text: self.text() };
        match tag {
            Some(tag) => Status::Tagged(Tagged { tag, body }),
            None => {
                if self.t.chance(1, 4) {
                    Status::Bye(Bye { code: body.code, text: body.text })
                } else {
                    Status::Untagged(body)
                }
            }
        }
    }
    pub fn continuation(&mut self) -> CommandContinuationRequest<'static> {
        if self.t.bool() {
            return CommandContinuationRequest::base64(self.lit_bytes(true));
        }
        let code = self.opt_code();
        let text = self.text();
        CommandContinuationRequest::basic(code, text).unwrap_or_else(|_| CommandContinuationRequest::basic(None, "please go on").unwrap())
    }
    pub const DATA_KINDS: u64 = 24;
    pub fn data(&mut self) -> Data<'static> {
        let k = self.t.below(Self::DATA_KINDS);
        self.data_kind(k)
    }
    pub fn data_kind(&mut self, k: u64) -> Data<'static> {
        use Data::*;
        let delim = |g: &mut Self| {
            if g.t.bool() {
                let c = if g.t.bool() { *g.t.pick(&['/', '.', '\\', '"']) } else { g.t.range(1, 0x7f) as u8 as char };
                QuotedChar::try_from(c).ok()
            } else {
                None
            }
        };
        match k {
            0 => Exists(self.t.u32()),
            1 => Capability(self.vec1(|g| g.capability())),
            2 => List { items: self.list(0, |g| g.flag_name()), delimiter: delim(self), mailbox: self.mailbox() },
            3 => Lsub { items: self.list(0, |g| g.flag_name()), delimiter: delim(self), mailbox: self.mailbox() },
            4 => Status { mailbox: self.mailbox(), items: Cow::Owned(self.list(0, |g| g.status_item())) },
            5 => {
                let nums = self.list(0, |g| g.nzu32());
                #[cfg(feature = "ext")]
                {
                    // In RFC 7162, a MODSEQ comes only with at least one result; the codec allows it without ("edited").
                    let m = if self.t.bool() { Some(self.nzu64()) } else { None };
                    Search(nums, m)
                }
                #[cfg(not(feature = "ext"))]
                Search(nums)
            }
            6 => {
                let nums = self.list(0, |g| g.nzu32());
                #[cfg(feature = "ext")]
                {
                    let m = if self.t.bool() { Some(self.nzu64()) } else { None };
                    Sort(nums, m)
                }
                #[cfg(not(feature = "ext"))]
                Sort(nums)
            }
            7 => {
                let d = self.c.depth;
                if self.t.chance(1, 20) {
                    let mut k = self.thread(0);
                    for _ in 0..self.t.range(3, 7) {
                        let answers = Vec2::try_from(if self.t.bool() { vec![k, self.thread(0)] } else { vec![self.thread(0), k] }).unwrap_or_else(|_| unreachable!());
                        k = if self.t.bool() {
                            imap_codec::imap_types::extensions::thread::Thread::Members { prefix: self.vec1(|g| g.nzu32()), answers: Some(answers) }
                        } else {
                            imap_codec::imap_types::extensions::thread::Thread::Nested { answers }
                        };
                    }
                    return Thread(vec![k]);
                }
                Thread(self.list(0, |g| g.thread(d)))
            }
            8 => Flags(self.list(0, |g| g.flag())),
            9 => Recent(self.t.u32()),
            10 => Expunge(self.nzu32()),
            11 | 12 | 13 | 14 => Fetch { seq: self.nzu32(), items: self.vec1(|g| g.item()) },
            15 => Enabled { capabilities: self.list(0, |g| g.capability_enable()) },
            16 => Quota { root: self.astring(), quotas: self.vec1(|g| QuotaGet::new(g.resource(), g.t.u64(), g.t.u64())) },
            17 => QuotaRoot { mailbox: self.mailbox(), roots: self.list(0, |g| g.astring()) },
            #[cfg(feature = "ext")]
            18 => Id { parameters: self.id_params() },
            #[cfg(feature = "ext")]
            19 => Metadata {
                mailbox: self.mailbox(),
                items: if self.t.bool() {
                    MetadataResponse::WithValues(self.vec1(|g| g.entry_value()))
                } else {
                    MetadataResponse::WithoutValues(self.vec1(|g| g.entry()))
                },
            },
            #[cfg(feature = "ext")]
            20 => Vanished { earlier: self.t.bool(), known_uids: self.sequence_set() },
            #[cfg(feature = "ext")]
            21 => {
                let ns = |g: &mut Self| {
                    g.list(0, |g| {
                        let prefix = g.istring();
                        let delimiter = delim(g);
                        let extensions = g.list(0, |g| NamespaceResponseExtension { key: g.istring(), values: g.vec1(|g| g.istring()) });
                        imap_codec::imap_types::extensions::namespace::Namespace { prefix, delimiter, extensions }
                    })
                };
                Namespace { personal: ns(self), other: ns(self), shared: ns(self) }
            }
            _ => Exists(self.t.u32()),
        }
    }
    pub fn response(&mut self) -> Response<'static> {
        match self.t.below(8) {
            0 => {
                let tag = if self.t.bool() { Some(self.tag_for_response()) } else { None };
                Response::Status(self.status(tag))
            }
            1 => Response::CommandContinuationRequest(self.continuation()),
            _ => Response::Data(self.data()),
        }
    }
    pub fn tag_for_response(&mut self) -> Tag<'static> {
        self.tag()
    }
}

#[cfg(feature = "ext")]
trait CloneBox {
    fn clone_box(&self) -> Box<Self>;
}
#[cfg(feature = "ext")]
impl<T: Clone> CloneBox for T {
    fn clone_box(&self) -> Box<T> {
        Box::new(self.clone())
    }
}
