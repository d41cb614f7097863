//! Sequence sets (C15): the messages that a client names are the messages that the server acts on, over every way to
//! build, transfer, normalise and expand a set, while the mailbox changes.

use std::num::NonZeroU32;

use imap_codec::imap_types::{
    IntoStatic,
    command::{Command, CommandBody},
    core::Vec1,
    fetch::{Macro, MacroOrMessageDataItemNames},
    flag::{StoreResponse, StoreType},
    mailbox::Mailbox,
    search::SearchKey,
    sequence::{SeqOrUid, Sequence, SequenceSet},
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    net::Profile,
    seqref::{self, Item},
    tape::{Mix, Tape},
    wire::{Kind, Msg, Whole},
};

fn nz(v: u32) -> NonZeroU32 {
    NonZeroU32::new(v.max(1)).unwrap()
}
fn num(n: Option<u32>) -> SeqOrUid {
    match n {
        Some(v) => SeqOrUid::Value(nz(v)),
        None => SeqOrUid::Asterisk,
    }
}
fn show(items: &[Item]) -> String {
    let n = |x: &Option<u32>| x.map(|v| v.to_string()).unwrap_or("*".into());
    items.iter().map(|(a, b)| if a == b { n(a) } else { format!("{}:{}", n(a), n(b)) }).collect::<Vec<_>>().join(",")
}
fn pos(n: Option<u32>) -> u64 {
    n.map(|v| v as u64).unwrap_or(1 << 32)
}

/// A number of the mailbox, or near one, or at the edge of the range.
fn draw_num(t: &mut Tape, uids: &[u32]) -> Option<u32> {
    match t.below(10) {
        0..=1 => None,
        2..=4 => Some(1 + t.below(40) as u32),
        5..=7 if !uids.is_empty() => {
            let u = *t.pick(uids);
            Some(match t.below(3) {
                0 => u,
                1 => u.saturating_add(1),
                _ => (u - 1).max(1),
            })
        }
        8 => Some(u32::MAX - t.below(3) as u32),
        _ => Some(t.u32().max(1)),
    }
}

/// How many items: mostly few.
fn count(t: &mut Tape, few: usize) -> usize {
    match t.below(64) {
        63 => t.usize(300),
        60..=62 => t.usize(40),
        _ => t.usize(few),
    }
}

/// Builds a set the way an application would, and says what it is meant to name (`None`: nothing, must be refused).
fn build(ctx: &mut Ctx, uids: &[u32]) -> Result<(Option<Vec<Item>>, Option<SequenceSet>, String), crate::ctx::Violation> {
    let t = &mut ctx.t;
    let route = t.below(16);
    macro_rules! ranges {
        ($ty:ty) => {{
            let a = { let v = draw_num(t, uids).unwrap_or(0) as i128 - if t.chance(1, 8) { 3 } else { 0 }; if t.chance(1, 12) { v + (1i128 << 32) } else { v } };
            let b = match t.below(4) { 0 => a, 1 => a + 1, 2 => a - 1, _ => draw_num(t, uids).unwrap_or(0) as i128 + t.below(2) as i128 };
            let clamp = |v: i128| v.clamp(<$ty>::MIN as i128, <$ty>::MAX as i128) as $ty;
            let (x, y) = (clamp(a), clamp(b));
            let (xi, yi) = (x as i128, y as i128);
            let good = |v: i128| (1..=u32::MAX as i128).contains(&v);
            let (want, got, how) = match t.below(7) {
                0 => (if good(xi) { Some((Some(xi as u32), Some(xi as u32))) } else { None }, SequenceSet::try_from(x).ok(), format!("{x}")),
                1 => (if good(xi) { Some((Some(xi as u32), None)) } else { None }, SequenceSet::try_from(x..).ok(), format!("{x}..")),
                2 => (if good(yi - 1) { Some((Some(1), Some((yi - 1) as u32))) } else { None }, SequenceSet::try_from(..y).ok(), format!("..{y}")),
                3 => (if good(yi) { Some((Some(1), Some(yi as u32))) } else { None }, SequenceSet::try_from(..=y).ok(), format!("..={y}")),
                4 | 5 => (if good(xi) && good(yi - 1) && xi < yi { Some((Some(xi as u32), Some((yi - 1) as u32))) } else { None }, SequenceSet::try_from(x..y).ok(), format!("{x}..{y}")),
                _ => {
                    // What a reversed inclusive range means is not specified; not asked.
                    let (x, y) = if x <= y { (x, y) } else { (y, x) };
                    let (xi, yi) = (x as i128, y as i128);
                    (if good(xi) && good(yi) { Some((Some(xi as u32), Some(yi as u32))) } else { None }, SequenceSet::try_from(x..=y).ok(), format!("{x}..={y}"))
                }
            };
            (want.map(|w| vec![w]), got, format!("{how} ({})", stringify!($ty)))
        }};
    }
    Ok(match route {
        0..=3 => {
            let n = 1 + count(t, 6);
            let items: Vec<Item> = (0..n).map(|_| { let a = draw_num(t, uids); if t.bool() { (a, a) } else { (a, draw_num(t, uids)) } }).collect();
            let s = show(&items);
            (Some(items), SequenceSet::try_from(s.as_str()).ok(), format!("{s:?}"))
        }
        4..=6 => {
            let n = 1 + count(t, 6);
            let items: Vec<Item> = (0..n).map(|_| (draw_num(t, uids), draw_num(t, uids))).collect();
            let v: Vec<Sequence> = items.iter().map(|(a, b)| if a == b && t.bool() { Sequence::Single(num(*a)) } else { Sequence::Range(num(*a), num(*b)) }).collect();
            let how = format!("{v:?}");
            (Some(items), SequenceSet::try_from(v).ok(), how)
        }
        7 => {
            let n = count(t, 5);
            let v: Vec<NonZeroU32> = (0..n).map(|_| nz(draw_num(t, uids).unwrap_or(7))).collect();
            let items: Vec<Item> = v.iter().map(|x| (Some(x.get()), Some(x.get()))).collect();
            let (a, b) = (SequenceSet::try_from(v.clone()).ok(), SequenceSet::try_from(v.as_slice()).ok());
            ensure!(a == b, "sequence: constructors disagree", "{v:?}");
            (if items.is_empty() { None } else { Some(items) }, a, format!("{v:?}"))
        }
        8 => {
            let n = count(t, 5);
            let v: Vec<i64> = (0..n).map(|_| if t.chance(1, 10) { t.u64() as i64 } else { draw_num(t, uids).unwrap_or(0) as i64 }).collect();
            let ok = !v.is_empty() && v.iter().all(|x| (1..=u32::MAX as i64).contains(x));
            let items: Vec<Item> = v.iter().map(|x| (Some(*x as u32), Some(*x as u32))).collect();
            (if ok { Some(items) } else { None }, SequenceSet::try_from(v.as_slice()).ok(), format!("{v:?}"))
        }
        9 => {
            let (a, b) = (draw_num(t, uids).unwrap_or(9), draw_num(t, uids).unwrap_or(9));
            let (x, y) = (nz(a), nz(b));
            match t.below(7) {
                0 => (Some(vec![(Some(1), None)]), Some(SequenceSet::from(..)), "..".into()),
                1 => (Some(vec![(Some(a), None)]), Some(SequenceSet::from(x..)), format!("{x}..")),
                2 => (if b > 1 { Some(vec![(Some(1), Some(b - 1))]) } else { None }, SequenceSet::try_from(..y).ok(), format!("..{y}")),
                3 => (Some(vec![(Some(1), Some(b))]), Some(SequenceSet::from(..=y)), format!("..={y}")),
                4 => (if a < b { Some(vec![(Some(a), Some(b - 1))]) } else { None }, SequenceSet::try_from(x..y).ok(), format!("{x}..{y}")),
                5 => (Some(vec![(Some(a.min(b)), Some(a.max(b)))]), Some(SequenceSet::from(x.min(y)..=x.max(y))), format!("{x}..={y}")),
                _ => (Some(vec![(Some(a), Some(a))]), Some(SequenceSet::from(x)), format!("{x}")),
            }
        }
        10 => ranges!(u32),
        11 => ranges!(i64),
        12 => match t.below(4) { 0 => ranges!(i8), 1 => ranges!(u8), 2 => ranges!(i16), _ => ranges!(u16) },
        13 => ranges!(u64),
        14 => match t.below(3) { 0 => ranges!(i32), 1 => ranges!(isize), _ => ranges!(usize) },
        _ => {
            let a = draw_num(t, uids);
            (Some(vec![(a, a)]), Some(SequenceSet::from(num(a))), "SeqOrUid".into())
        }
    })
}

/// Expansion, against the reference: `iter` is the sorted set, `iter_naive` the list as written.
fn check_iter(set: &SequenceSet, items: &[Item], last: u32) -> R {
    let largest = nz(last);
    let mut want: Vec<(u64, u64)> = items
        .iter()
        .map(|(a, b)| {
            let (a, b) = (a.unwrap_or(last) as u64, b.unwrap_or(last) as u64);
            (a.min(b), a.max(b))
        })
        .collect();
    want.sort_unstable();
    let mut merged: Vec<(u64, u64)> = vec![];
    for (a, b) in want {
        match merged.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => merged.push((a, b)),
        }
    }
    let total: u64 = merged.iter().map(|(a, b)| b - a + 1).sum();
    let cap = 300;
    let expect: Vec<u64> = merged.iter().flat_map(|(a, b)| *a..=*b).take(cap).collect();
    let got: Vec<u64> = set.iter(largest).take(cap).map(|x| x.get() as u64).collect();
    ensure!(got == expect, "sequence: iteration yields other numbers", "{} with largest {last}: {:?}, expected {:?}", show(items), &got[..got.len().min(20)], &expect[..expect.len().min(20)]);
    if total < cap as u64 {
        ensure!(set.iter(largest).count() as u64 == total, "sequence: iteration does not end where it should", "{} with largest {last}", show(items));
    }
    let expect: Vec<u64> = items
        .iter()
        .flat_map(|(a, b)| {
            let (a, b) = (a.unwrap_or(last) as u64, b.unwrap_or(last) as u64);
            let up = a..=b;
            let down = (b..=a).rev();
            let v: Vec<u64> = if a <= b { up.take(cap).collect() } else { down.take(cap).collect() };
            v
        })
        .take(cap)
        .collect();
    let got: Vec<u64> = set.iter_naive(largest).take(cap).map(|x| x.get() as u64).collect();
    ensure!(got == expect, "sequence: naive iteration yields other numbers", "{} with largest {last}: {:?}, expected {:?}", show(items), &got[..got.len().min(20)], &expect[..expect.len().min(20)]);
    Ok(())
}

fn set_in(c: &Command) -> Option<SequenceSet> {
    match &c.body {
        CommandBody::Fetch { sequence_set, .. } | CommandBody::Store { sequence_set, .. } | CommandBody::Copy { sequence_set, .. } | CommandBody::Move { sequence_set, .. } | CommandBody::ExpungeUid { sequence_set } => {
            Some(sequence_set.clone())
        }
        CommandBody::Search { criteria, .. } => match &criteria.as_ref()[0] {
            SearchKey::SequenceSet(s) | SearchKey::Uid(s) => Some(s.clone()),
            SearchKey::Not(k) => match &**k {
                SearchKey::SequenceSet(s) | SearchKey::Uid(s) => Some(s.clone()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

pub fn c15(ctx: &mut Ctx) -> R {
    // The mailbox: UIDs in ascending order; the sequence number is the position.
    let mut uids: Vec<u32> = vec![];
    let mut next: u64 = 1 + ctx.t.below(3);
    for _ in 0..count(&mut ctx.t, 30) {
        uids.push(next as u32);
        next += 1 + if ctx.t.chance(1, 4) { ctx.t.u32() as u64 / 8 } else { ctx.t.below(3) };
        if next > u32::MAX as u64 {
            break;
        }
    }
    if ctx.t.chance(1, 6) {
        let e = u32::MAX - ctx.t.below(2) as u32;
        if uids.last().is_none_or(|l| *l < e) {
            uids.push(e);
        }
    }
    let n = 1 + ctx.t.usize(4);
    let mut stream = vec![];
    let mut sent: Vec<(Vec<Item>, bool)> = vec![];
    for i in 0..n {
        ctx.step();
        let (want, got, how) = build(ctx, &uids)?;
        ctx.log(|| format!("client selects {how}"));
        let (items, set) = match (want, got) {
            (Some(w), Some(g)) => (w, g),
            (None, None) => {
                ctx.probe("refused");
                continue;
            }
            (None, Some(g)) => fail!("sequence: a selection that names nothing valid is accepted", "{how} becomes {g:?}"),
            (Some(w), None) => fail!("sequence: a valid selection is refused", "{how}, meaning {}", show(&w)),
        };
        if let Some(l) = seqref::differ(&items, &seqref::items(&set)) {
            fail!("sequence: a constructor names other messages", "{how} becomes {set:?}, which differs in a mailbox of {l}");
        }
        // Normalisation.
        let mut norm = set.clone();
        norm.normalize();
        let ni = seqref::items(&norm);
        if let Some(l) = seqref::differ(&items, &ni) {
            fail!("sequence: normalisation changes the meaning", "{} becomes {}, which differs in a mailbox of {l}", show(&items), show(&ni));
        }
        let mut again = norm.clone();
        again.normalize();
        ensure!(again == norm, "sequence: normalisation is not stable", "{} becomes {} becomes {}", show(&items), show(&ni), show(&seqref::items(&again)));
        ensure!(ni.len() <= items.len(), "sequence: normalisation makes it longer", "{} becomes {}", show(&items), show(&ni));
        ensure!(ni.windows(2).all(|w| pos(w[0].1) < pos(w[1].0)) && ni.iter().all(|x| pos(x.0) <= pos(x.1)), "sequence: normalisation does not sort", "{} becomes {}", show(&items), show(&ni));
        // Order.
        for a in set.0.as_ref() {
            for b in set.0.as_ref() {
                let span = |s: &Sequence| match s {
                    Sequence::Single(x) => { let p = seqpos(x); (p, p) }
                    Sequence::Range(x, y) => (seqpos(x).min(seqpos(y)), seqpos(x).max(seqpos(y))),
                };
                let (sa, sb) = (span(a), span(b));
                ensure!((a < b) == (sa.1 < sb.0) && (a > b) == (sa.0 > sb.1), "sequence: wrong order", "{a:?} {b:?}: {:?}", a.partial_cmp(b));
            }
        }
        let uid = ctx.t.bool();
        let body = match ctx.t.below(8) {
            0 => CommandBody::fetch(set, MacroOrMessageDataItemNames::Macro(Macro::Fast), uid).unwrap_or_else(|e| match e {}),
            1 => CommandBody::store(set, StoreType::Add, StoreResponse::Silent, vec![], uid).unwrap_or_else(|e| match e {}),
            2 => CommandBody::copy(set, Mailbox::Inbox, uid).unwrap_or_else(|_| unreachable!()),
            3 => CommandBody::r#move(set, Mailbox::Inbox, uid).unwrap_or_else(|_| unreachable!()),
            4 => CommandBody::ExpungeUid { sequence_set: set },
            5 => CommandBody::search(None, Vec1::from(SearchKey::SequenceSet(set)), uid),
            6 => CommandBody::search(None, Vec1::from(SearchKey::uid(set)), uid),
            _ => CommandBody::search(None, Vec1::from(SearchKey::Not(Box::new(SearchKey::SequenceSet(set)))), uid),
        };
        let by_uid = match &body {
            CommandBody::ExpungeUid { .. } => true,
            CommandBody::Search { criteria, .. } => matches!(criteria.as_ref()[0], SearchKey::Uid(_)),
            _ => uid,
        };
        let m = Msg::Command(Command::new(format!("A{i}"), body).unwrap());
        stream.extend(m.bytes());
        sent.push((items, by_uid));
    }
    let profile = Profile::draw(ctx);
    let segs = profile.schedule(ctx, &stream);
    let mut f = imap_codec::fragmentizer::Fragmentizer::without_max_message_size();
    let mut got = 0;
    for s in &segs {
        ctx.now_us = s.at_us;
        ctx.step();
        f.enqueue_bytes(&stream[s.start..s.end]);
        // Meanwhile, the mailbox changes.
        if ctx.t.chance(1, 4) {
            if ctx.t.bool() && !uids.is_empty() {
                let i = ctx.t.usize(uids.len());
                uids.remove(i);
                ctx.fault("expunge");
            } else if uids.last().is_none_or(|l| *l < u32::MAX) {
                let l = uids.last().copied().unwrap_or(0);
                let step = (1 + ctx.t.below(5) as u32).min(u32::MAX - l);
                uids.push(l + step);
                ctx.fault("append");
            }
        }
        while f.progress().is_some() {
            if !f.is_message_complete() {
                continue;
            }
            let w = Kind::Command.decode_message(&f);
            let set = match &w {
                Whole::Ok(Msg::Command(c)) => set_in(c).map(|s| s.into_static()),
                _ => None,
            };
            let (Some(set), Some((items, by_uid))) = (set, sent.get(got)) else { fail!("sequence: the server does not understand the set", "{:?}: {w:?}", esc(f.message_bytes())) };
            got += 1;
            if let Some(l) = seqref::differ(items, &seqref::items(&set)) {
                fail!("sequence: the server sees other messages", "client means {}, server reads {}, which differs in a mailbox of {l}", show(items), show(&seqref::items(&set)));
            }
            // The server acts on its mailbox as it is now.
            if uids.is_empty() {
                ctx.probe("empty_mailbox");
                continue;
            }
            let all: Vec<u32> = if *by_uid { uids.clone() } else { (1..=uids.len() as u32).collect() };
            let last = *all.last().unwrap();
            let den = seqref::denote(items, last);
            let want: Vec<u32> = all.iter().copied().filter(|m| den.iter().any(|(a, b)| (*a..=*b).contains(&(*m as u64)))).collect();
            check_iter(&set, &seqref::items(&set), last)?;
            // (Expansion of a huge range is the application's problem; it would intersect first.)
            let at = |n: Option<u32>| n.unwrap_or(last) as u64;
            let size: u64 = seqref::items(&set).iter().map(|(a, b)| at(*a).abs_diff(at(*b)) + 1).sum();
            if size < 20_000 {
                let acts: Vec<u32> = set.iter(nz(last)).map(|x| x.get()).filter(|x| all.binary_search(x).is_ok()).collect();
                ensure!(acts == want, "sequence: the server acts on other messages", "client means {} in {all:?}: {want:?}, server acts on {acts:?}", show(items));
                ctx.probe("resolved");
            }
            let mut h = Mix::new();
            h.u(items.len() as u64).u(want.len() as u64).u(all.len() as u64).u(*by_uid as u64).u(items.iter().filter(|x| x.0.is_none() || x.1.is_none()).count() as u64);
            ctx.state(h.0);
        }
    }
    ensure!(got == sent.len(), "sequence: commands lost", "{got} of {}", sent.len());
    Ok(())
}

fn seqpos(x: &SeqOrUid) -> u64 {
    match x {
        SeqOrUid::Value(v) => v.get() as u64,
        SeqOrUid::Asterisk => 1 << 32,
    }
}
