//! What a sequence set means: for a mailbox whose largest number is `last`, a set of numbers.

/// `None` is `*`.
pub type Num = Option<u32>;
pub type Item = (Num, Num);

/// The numbers meant, as sorted disjoint intervals with gaps between them. "5:*" and "*:5" always include `last`.
pub fn denote(items: &[Item], last: u32) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = items
        .iter()
        .map(|(a, b)| {
            let (a, b) = (a.unwrap_or(last) as u64, b.unwrap_or(last) as u64);
            (a.min(b), a.max(b))
        })
        .collect();
    v.sort_unstable();
    let mut out: Vec<(u64, u64)> = vec![];
    // Numbers that are not in the mailbox mean nothing.
    for (a, b) in v.into_iter().filter(|x| x.0 <= last as u64).map(|x| (x.0, x.1.min(last as u64))) {
        match out.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

/// A mailbox size for which the two sets mean different things, if any.
pub fn differ(a: &[Item], b: &[Item]) -> Option<u32> {
    if a == b {
        return None;
    }
    let mut lasts: Vec<u32> = vec![1, 2, 3, u32::MAX, u32::MAX - 1];
    for (x, y) in a.iter().chain(b) {
        for n in [x, y].into_iter().flatten() {
            lasts.extend([n.saturating_sub(1).max(1), *n, n.saturating_add(1)]);
        }
    }
    lasts.sort_unstable();
    lasts.dedup();
    if lasts.len() > 300 {
        // Of long sets, the edges and a sample (u32::MAX, where every number counts, is among them).
        let (n, step) = (lasts.len(), lasts.len() / 250 + 1);
        lasts = lasts.into_iter().enumerate().filter(|(i, _)| *i < 20 || i + 20 >= n || i % step == 0).map(|x| x.1).collect();
    }
    lasts.into_iter().find(|l| denote(a, *l) != denote(b, *l))
}

pub fn items(s: &imap_codec::imap_types::sequence::SequenceSet) -> Vec<Item> {
    use imap_codec::imap_types::sequence::{SeqOrUid, Sequence};
    let n = |x: &SeqOrUid| match x {
        SeqOrUid::Value(v) => Some(v.get()),
        SeqOrUid::Asterisk => None,
    };
    s.0.as_ref()
        .iter()
        .map(|q| match q {
            Sequence::Single(a) => (n(a), n(a)),
            Sequence::Range(a, b) => (n(a), n(b)),
        })
        .collect()
}

/// Takes the sequence sets out of the debug representation of a value.
pub fn extract(debug: &str) -> (String, Vec<Vec<Item>>) {
    let mut rest = String::new();
    let mut sets = vec![];
    let mut s = debug;
    while let Some(i) = s.find("SequenceSet([") {
        rest.push_str(&s[..i]);
        rest.push('#');
        let body = &s[i + "SequenceSet([".len()..];
        let Some(end) = body.find("]+)") else { break };
        let mut list = vec![];
        let mut nums: Vec<Num> = vec![];
        let mut t = &body[..end];
        loop {
            if let Some(r) = t.strip_prefix("Value(") {
                let e = r.find(')').unwrap_or(0);
                nums.push(r[..e].parse().ok());
                t = &r[e..];
            } else if let Some(r) = t.strip_prefix("Asterisk") {
                nums.push(None);
                t = r;
            } else if t.starts_with("Single(") || t.starts_with("Range(") || t.is_empty() {
                match nums[..] {
                    [a] => list.push((a, a)),
                    [a, b] => list.push((a, b)),
                    _ => {}
                }
                nums.clear();
                if t.is_empty() {
                    break;
                }
                t = &t[6..];
            } else {
                let mut c = t.chars();
                c.next();
                t = c.as_str();
            }
        }
        sets.push(list);
        s = &body[end + 3..];
    }
    rest.push_str(s);
    (rest, sets)
}
