//! Persistence (C17): an application keeps messages as JSON in a journal on a disk that loses, tears and damages writes.
//! After a restart, what was durable is there unchanged, and what was damaged is refused or is a value that the type allows.

use imap_codec::imap_types::{auth::AuthenticateData, command::Command, extensions::idle::IdleDone, response::{Greeting, Response}, state::State};
use serde_json::Value;

use crate::{
    ctx::{Ctx, R, esc, viol, Violation},
    ensure, fail,
    gens::{Cfg, G},
    gram, lexref,
    s_inject::evil,
    spec,
    tape::{Mix, Tape},
    wire::{Kind, Msg, Whole},
};

fn save(m: &Msg) -> Result<Vec<u8>, Violation> {
    match m {
        Msg::Command(x) => serde_json::to_vec(x),
        Msg::Response(x) => serde_json::to_vec(x),
        Msg::Greeting(x) => serde_json::to_vec(x),
        Msg::Auth(x) => serde_json::to_vec(x),
        Msg::Idle(x) => serde_json::to_vec(x),
    }
    .map_err(|e| viol("storage: a message cannot be stored", format!("{m:?}: {e}")))
}
fn load(kind: Kind, b: &[u8]) -> Result<Msg, String> {
    use imap_codec::imap_types::IntoStatic;
    match kind {
        Kind::Command => serde_json::from_slice::<Command>(b).map(|x| Msg::Command(x.into_static())),
        Kind::Response => serde_json::from_slice::<Response>(b).map(|x| Msg::Response(x.into_static())),
        Kind::Greeting => serde_json::from_slice::<Greeting>(b).map(|x| Msg::Greeting(x.into_static())),
        Kind::Auth => serde_json::from_slice::<AuthenticateData>(b).map(|x| Msg::Auth(x.into_static())),
        Kind::Idle => serde_json::from_slice::<IdleDone>(b).map(Msg::Idle),
    }
    .map_err(|e| e.to_string())
}

/// A disk that hands out a file in pieces, and is interrupted now and then.
struct Pieces<'a, 'c>(&'a [u8], &'c mut Ctx);
impl std::io::Read for Pieces<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1.t.chance(1, 40) {
            self.1.fault("interrupted_read");
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = (1 + self.1.t.usize(30)).min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// The same as `load`, by an application that reads from a file or from a document store.
fn load_otherwise(ctx: &mut Ctx, kind: Kind, b: &[u8]) -> Result<Msg, String> {
    if ctx.t.bool() {
        ctx.fault("short_reads");
        let r = std::io::BufReader::with_capacity(64, Pieces(b, ctx));
        match kind {
            Kind::Command => serde_json::from_reader::<_, Command>(r).map(Msg::Command),
            Kind::Response => serde_json::from_reader::<_, Response>(r).map(Msg::Response),
            Kind::Greeting => serde_json::from_reader::<_, Greeting>(r).map(Msg::Greeting),
            Kind::Auth => serde_json::from_reader::<_, AuthenticateData>(r).map(Msg::Auth),
            Kind::Idle => serde_json::from_reader::<_, IdleDone>(r).map(Msg::Idle),
        }
    } else {
        serde_json::from_slice::<Value>(b).and_then(|r| match kind {
            Kind::Command => serde_json::from_value::<Command>(r).map(Msg::Command),
            Kind::Response => serde_json::from_value::<Response>(r).map(Msg::Response),
            Kind::Greeting => serde_json::from_value::<Greeting>(r).map(Msg::Greeting),
            Kind::Auth => serde_json::from_value::<AuthenticateData>(r).map(Msg::Auth),
            Kind::Idle => serde_json::from_value::<IdleDone>(r).map(Msg::Idle),
        })
    }
    .map_err(|e| e.to_string())
}

/// All places in a JSON value.
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.concat());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(format!("/{i}"));
                places(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(format!("/{}", k.replace('~', "~0").replace('/', "~1")));
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn nth(t: &mut Tape, v: &Value) -> String {
    let mut out = vec![];
    places(v, &mut vec![], &mut out);
    out[t.usize(out.len())].clone()
}

/// Damage that keeps the file well-formed JSON: a wrong editor, migration or attacker.
fn edit(ctx: &mut Ctx, v: &mut Value, other: &Value) {
    let mut at = nth(&mut ctx.t, v);
    for _ in 0..ctx.t.below(5) {
        // Mostly the data, not the structure around it (bytes are arrays of numbers).
        if matches!(v.pointer(&at), Some(Value::String(s)) if !at.ends_with("/type") || s.is_empty()) || matches!(v.pointer(&at), Some(Value::Array(a)) if a.iter().all(Value::is_number)) {
            break;
        }
        at = nth(&mut ctx.t, v);
    }
    let from = nth(&mut ctx.t, other);
    let donor = other.pointer(&from).cloned().unwrap_or(Value::Null);
    let t = &mut ctx.t;
    let Some(x) = v.pointer_mut(&at) else { return };
    match x {
        Value::String(s) if t.chance(3, 4) => {
            *s = match t.below(5) {
                0 => String::new(),
                1 => {
                    let mut c: Vec<char> = s.chars().collect();
                    let i = t.usize(c.len() + 1);
                    c.insert(i, *t.pick(&['\r', '\n', '\0', '"', '\\', ' ', '(', ')', '{', '}', '[', ']', '*', '%', '+', '\u{7f}', '\u{1}', '\u{fc}', 'x', '\u{2028}']));
                    c.into_iter().collect()
                }
                2 => String::from_utf8_lossy(&evil(t)).into_owned(),
                3 => match &donor {
                    Value::String(d) => d.clone(),
                    d => d.to_string(),
                },
                _ => s.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
            };
        }
        Value::Number(n) if t.chance(3, 4) => {
            *x = match t.below(6) {
                0 => 0.into(),
                1 => (-1).into(),
                2 => u64::MAX.into(),
                3 => (n.as_u64().unwrap_or(0).wrapping_add(1)).into(),
                4 => t.below(256).into(),
                _ => (u32::MAX as u64 + t.below(3)).into(),
            };
        }
        Value::Array(a) if t.chance(3, 4) => match t.below(4) {
            0 => a.clear(),
            1 if !a.is_empty() => {
                let i = t.usize(a.len());
                a.remove(i);
            }
            2 if !a.is_empty() => {
                let i = t.usize(a.len());
                let y = a[i].clone();
                a.push(y);
            }
            _ => {
                // Bytes are arrays of numbers.
                let i = t.usize(a.len() + 1);
                let y = *t.pick(b"\r\n\0\"\\{}[] )(x\xff\x80");
                a.insert(i, y.into());
            }
        },
        Value::Object(o) if t.chance(1, 2) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            if !keys.is_empty() {
                let k = t.pick(&keys).clone();
                match t.below(3) {
                    0 => {
                        o.remove(&k);
                    }
                    1 => {
                        o.insert(k, donor);
                    }
                    _ => {
                        let y = o.remove(&k).unwrap();
                        o.insert(t.pick(&["type", "content", "value", "x", "data", "mode"]).to_string(), y);
                    }
                }
            }
        }
        x => *x = donor,
    }
}

/// Names that have a variant of their own, held by a variant for unknown names: a known finding, see known_findings.json.
fn known_other(meant: &str, read: &str) -> bool {
    const T: [&str; 9] = ["SortAlgorithmOther(", "ResourceOther(", "ThreadingAlgorithmOther(", "CapabilityEnableOther(", "AuthMechanismOther(", "CapabilityOther(", "FlagExtension(", "FlagNameAttributeExtension(", "AttributeFlagExtension("];
    meant != read && T.iter().any(|t| meant.matches(t).count() > read.matches(t).count())
}
/// Values without validation on the way from storage: known findings, see known_findings.json.
fn known_unvalidated(s: &str) -> bool {
    s.contains("CodeOther(") || s.contains("Referral(") || s.contains("QuotedUtf8(")
}

/// What was loaded is a value of its type: it can be sent, and it is one message.
fn sound(ctx: &mut Ctx, m: &Msg, json: &[u8]) -> R {
    match sound_at_all(ctx, m, json) {
        Err(_) if known_unvalidated(&format!("{m:?}")) => {
            ctx.probe("known_unvalidated");
            Ok(())
        }
        r => r,
    }
}
fn sound_at_all(ctx: &mut Ctx, m: &Msg, json: &[u8]) -> R {
    let d = format!("{m:?}");
    let b = m.bytes();
    let texts = text_of(m);
    if texts.iter().any(|(t, code)| (!code && t.starts_with('[')) || lexref::announcement(t.as_bytes()).is_some()) {
        ctx.probe("known_ambiguous_text");
        return Ok(());
    }
    ensure!(lexref::messages(&b).len() == 1, "storage: a loaded message breaks out of its place on the wire", "{:?} loads as {m:?}, which is sent as {:?}", esc(json), esc(&b));
    match m.kind().decode_whole(&b) {
        Whole::Ok(v) if v.alike(m) => Ok(()),
        // (Nesting deeper than the receiver allows, and the like, is no matter of the type. The encoder normalises sequence sets.)
        Whole::Err(_) => {
            let fits = d.contains("SequenceSet(") || gram::matches(&spec::message(m), &b, gram::Lenient { tol: false, lf: false });
            ensure!(fits, "storage: a value is loaded that its type does not allow", "{:?} loads as {m:?}, which is sent as {:?}", esc(json), esc(&b));
            ctx.probe("not_received");
            Ok(())
        }
        w => {
            let r = format!("{w:?}");
            if known_other(&d, &r) {
                ctx.probe("known_other_name");
                return Ok(());
            }
            fail!("storage: a loaded value means something else on the wire", "{:?} loads as {m:?}, sent as {:?}, received as {w:?}", esc(json), esc(&b))
        }
    }
}

fn text_of(m: &Msg) -> Vec<(String, bool)> {
    use imap_codec::imap_types::response::{CommandContinuationRequest as C, Status as S};
    match m {
        Msg::Greeting(g) => vec![(g.text.inner().to_string(), g.code.is_some())],
        Msg::Response(Response::Status(s)) => match s {
            S::Untagged(b) => vec![(b.text.inner().to_string(), b.code.is_some())],
            S::Tagged(t) => vec![(t.body.text.inner().to_string(), t.body.code.is_some())],
            S::Bye(b) => vec![(b.text.inner().to_string(), b.code.is_some())],
        },
        Msg::Response(Response::CommandContinuationRequest(C::Basic(b))) => vec![(b.text().inner().to_string(), b.code().is_some())],
        _ => vec![],
    }
}

pub fn c17(ctx: &mut Ctx) -> R {
    let cfg = Cfg::draw(&mut ctx.t);
    let n = 1 + ctx.t.usize(4);
    let mut disk: Vec<u8> = vec![];
    let mut durable = 0;
    let mut journal: Vec<(Kind, Option<Msg>, usize, usize)> = vec![];
    let mut state_json = None;
    for _ in 0..n {
        ctx.step();
        ctx.now_us += ctx.t.below(10_000);
        let kind = Kind::draw(&mut ctx.t);
        let m = Msg::generate(&mut G::with(&mut ctx.t, cfg.clone()), kind);
        let j = save(&m)?;
        ctx.log(|| format!("store {:?}", esc(&j)));
        // Through a tree as well: what a document store would do.
        let tree: Value = serde_json::from_slice(&j).map_err(|e| viol("storage: what is stored is not JSON", e.to_string()))?;
        match load(kind, &serde_json::to_vec(&tree).unwrap()) {
            Ok(v) => ensure!(v.same(&m), "storage: a message changes through a document store", "{m:?} becomes {v:?}"),
            Err(e) => fail!("storage: a message does not come back from a document store", "{m:?}: {e}"),
        }
        let start = disk.len();
        disk.extend(&j);
        disk.push(b'\n');
        journal.push((kind, Some(m.clone()), start, disk.len()));
        if ctx.t.chance(1, 2) {
            durable = disk.len();
        }
        if ctx.t.chance(1, 4) {
            if let Msg::Command(c) = &m {
                let mb = match &c.body {
                    imap_codec::imap_types::command::CommandBody::Select { mailbox, .. } => mailbox.clone(),
                    _ => imap_codec::imap_types::mailbox::Mailbox::Inbox,
                };
                let s = match ctx.t.below(7) {
                    0 => State::Greeting,
                    1 => State::NotAuthenticated,
                    2 => State::Authenticated,
                    3 => State::Selected(mb),
                    4 => State::Logout,
                    5 => State::IdleSelected(c.tag.clone(), mb),
                    _ => State::IdleAuthenticated(c.tag.clone()),
                };
                let j = serde_json::to_vec(&s).map_err(|e| viol("storage: a session state cannot be stored", e.to_string()))?;
                state_json = Some((s, j));
            }
        }
    }
    if let Some((s, j)) = &state_json {
        let back = serde_json::from_slice::<State>(j);
        ensure!(back.as_ref().ok() == Some(s), "storage: a session state changes", "{s:?} becomes {back:?}");
    }
    // A crash: what is not durable is lost, torn, or there by luck.
    let keep = if ctx.t.bool() {
        ctx.fault("crash");
        durable + ctx.t.usize(disk.len() - durable + 1)
    } else {
        disk.len()
    };
    let mut image = disk[..keep].to_vec();
    let mut damaged: Option<(usize, usize)> = None;
    if keep < disk.len() && ctx.t.chance(1, 4) {
        // The length of the file was written, its contents were not.
        image.resize(disk.len(), if ctx.t.bool() { 0 } else { b'#' });
        ctx.fault("lost_pages");
        damaged = Some((keep, disk.len()));
    }
    match ctx.t.below(4) {
        0 if keep > 0 => {
            let p = ctx.t.usize(keep);
            if image[p] != b'\n' {
                image[p] ^= 1 << ctx.t.below(7);
                ctx.fault("bit_flip");
                damaged = Some(damaged.map(|d| (d.0.min(p), d.1.max(p + 1))).unwrap_or((p, p + 1)));
            }
        }
        1 if keep > 4 => {
            // A misdirected write.
            let (p, q) = (ctx.t.usize(keep - 1), ctx.t.usize(keep - 1));
            let len = (1 + ctx.t.usize(40)).min(keep - p).min(keep - q);
            let block = image[q..q + len].to_vec();
            image[p..p + len].copy_from_slice(&block);
            ctx.fault("misdirected_write");
            damaged = Some(damaged.map(|d| (d.0.min(p), d.1.max(p + len))).unwrap_or((p, p + len)));
        }
        _ => {}
    }
    // Restart.
    for (kind, m, a, b) in &journal {
        ctx.step();
        let rec = &image[(*a).min(image.len())..(*b).min(image.len())];
        let intact = rec.len() == b - a && damaged.is_none_or(|(x, y)| y <= *a || x >= *b);
        let loaded = if ctx.t.chance(1, 4) { load_otherwise(ctx, *kind, rec) } else { load(*kind, rec) };
        match (loaded, m) {
            (Ok(v), Some(m)) if intact => {
                ensure!(v.same(m), "storage: a message changes in storage", "{m:?} becomes {v:?}");
                ctx.probe("recovered");
            }
            (Err(e), Some(m)) if intact => fail!("storage: a durable message is lost", "{m:?}, stored as {:?}: {e}", esc(rec)),
            (Ok(v), _) => {
                ctx.probe("damaged_loaded");
                sound(ctx, &v, rec)?;
            }
            (Err(_), _) => ctx.probe("damaged_refused"),
        }
        let mut h = Mix::new();
        h.u(*kind as u64).u(intact as u64).u((rec.len() as u64).checked_ilog2().unwrap_or(0) as u64);
        ctx.state(h.0);
    }
    // A store that was edited by hand, migrated, or tampered with.
    for _ in 0..2 {
        let i = ctx.t.usize(journal.len());
        let k = ctx.t.usize(journal.len());
        let (kind, _, a, b) = &journal[i];
        let mut v: Value = serde_json::from_slice(&disk[*a..*b]).unwrap();
        let other: Value = serde_json::from_slice(&disk[journal[k].2..journal[k].3]).unwrap();
        for _ in 0..1 + ctx.t.usize(2) {
            edit(ctx, &mut v, &other);
        }
        ctx.fault("edited");
        let j = serde_json::to_vec(&v).unwrap();
        ctx.log(|| format!("edited: {:?}", esc(&j)));
        let loaded = if ctx.t.chance(1, 4) { load_otherwise(ctx, *kind, &j) } else { load(*kind, &j) };
        match loaded {
            Ok(v) => {
                ctx.probe("edited_loaded");
                sound(ctx, &v, &j)?;
            }
            Err(_) => ctx.probe("edited_refused"),
        }
    }
    Ok(())
}
