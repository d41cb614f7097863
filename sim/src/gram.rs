//! Spellings of one value: a small grammar tree, with a matcher and a random writer. Independent of the code under test.

use crate::tape::Tape;

#[derive(Debug, Clone)]
pub enum Gr {
    /// Case-insensitive keyword, ASCII.
    Kw(String),
    /// Exactly these bytes.
    Raw(Vec<u8>),
    /// Decimal number; leading zeros are fine.
    Num(u64),
    /// Decimal number without leading zeros (with: tolerated).
    Nz(u64),
    Seq(Vec<Gr>),
    /// Any of these spellings.
    Alt(Vec<Gr>),
    /// The first one is valid, the others are tolerated by a lenient reader only.
    Tol(Vec<Gr>),
    /// End of line.
    Eol,
    /// One space; further ones tolerated if set.
    Sp(bool),
    /// Any number (if at all) of spaces, tolerated.
    TolSpaces,
    /// Any decimal number, tolerated where the value says nothing about it.
    TolDigits,
}
use Gr::*;

pub fn kw(s: &str) -> Gr {
    Kw(s.to_string())
}
pub fn raw(b: impl AsRef<[u8]>) -> Gr {
    Raw(b.as_ref().to_vec())
}
pub fn sp() -> Gr {
    Sp(false)
}
pub fn seq(v: Vec<Gr>) -> Gr {
    Seq(v)
}
/// Elements with `sep` in between.
pub fn join(v: Vec<Gr>, sep: Gr) -> Gr {
    let mut out = vec![];
    for (i, g) in v.into_iter().enumerate() {
        if i > 0 {
            out.push(sep.clone());
        }
        out.push(g);
    }
    Seq(out)
}
/// `(a b c)`
pub fn parens(v: Vec<Gr>) -> Gr {
    Seq(vec![raw("("), join(v, sp()), raw(")")])
}

#[derive(Clone, Copy)]
pub struct Lenient {
    /// Accept tolerated spellings.
    pub tol: bool,
    /// A line may end in LF alone.
    pub lf: bool,
}

fn zeros(b: &[u8], p: usize) -> usize {
    b[p..].iter().take_while(|c| **c == b'0').count()
}

fn num_at(b: &[u8], p: usize, n: u64, leading: bool, out: &mut Vec<usize>) {
    let z = zeros(b, p);
    let digits = n.to_string();
    // The value 0 is all zeros.
    let want = digits.as_bytes();
    let max = if leading { z } else { 0 };
    for skip in 0..=max {
        if b[p + skip..].starts_with(want) {
            let e = p + skip + want.len();
            out.push(e);
        }
    }
}

/// All positions at which a spelling of `g` that starts at one of `ps` can end. Sorted, without duplicates.
pub fn ends(g: &Gr, b: &[u8], ps: &[usize], l: Lenient) -> Vec<usize> {
    let mut out = vec![];
    match g {
        Seq(v) => {
            let mut cur = ps.to_vec();
            for x in v {
                if cur.is_empty() {
                    return cur;
                }
                cur = ends(x, b, &cur, l);
            }
            return cur;
        }
        Alt(v) => {
            for x in v {
                out.extend(ends(x, b, ps, l));
            }
        }
        Tol(v) => {
            for (i, x) in v.iter().enumerate() {
                if i == 0 || l.tol {
                    out.extend(ends(x, b, ps, l));
                }
            }
        }
        _ => {
            for &p in ps {
                match g {
                    Kw(s) => {
                        if b.len() >= p + s.len() && b[p..p + s.len()].eq_ignore_ascii_case(s.as_bytes()) {
                            out.push(p + s.len());
                        }
                    }
                    Raw(r) => {
                        if b[p..].starts_with(r) {
                            out.push(p + r.len());
                        }
                    }
                    Num(n) => num_at(b, p, *n, true, &mut out),
                    Nz(n) => num_at(b, p, *n, l.tol, &mut out),
                    Eol => {
                        if b[p..].starts_with(b"\r\n") {
                            out.push(p + 2);
                        } else if l.lf && b[p..].starts_with(b"\n") {
                            out.push(p + 1);
                        }
                    }
                    Sp(many) => {
                        let mut q = p;
                        while b.get(q) == Some(&b' ') {
                            q += 1;
                            out.push(q);
                            if !(*many && l.tol) {
                                break;
                            }
                        }
                    }
                    TolSpaces => {
                        let mut q = p;
                        out.push(q);
                        while l.tol && b.get(q) == Some(&b' ') {
                            q += 1;
                            out.push(q);
                        }
                    }
                    TolDigits => {
                        let mut q = p;
                        while l.tol && b.get(q).is_some_and(|c| c.is_ascii_digit()) {
                            q += 1;
                            out.push(q);
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

pub fn matches(g: &Gr, b: &[u8], l: Lenient) -> bool {
    ends(g, b, &[0], l).contains(&b.len())
}

/// How far a spelling can be followed (for diagnostics).
pub fn progress(g: &Gr, b: &[u8], l: Lenient) -> usize {
    fn go(g: &Gr, b: &[u8], ps: &[usize], l: Lenient, far: &mut usize) -> Vec<usize> {
        for p in ps {
            *far = (*far).max(*p);
        }
        match g {
            Seq(v) => {
                let mut cur = ps.to_vec();
                for x in v {
                    cur = go(x, b, &cur, l, far);
                }
                cur
            }
            Alt(v) | Tol(v) => {
                let mut out = vec![];
                for x in v {
                    out.extend(go(x, b, ps, l, far));
                }
                out
            }
            _ => ends(g, b, ps, l),
        }
    }
    let mut far = 0;
    go(g, b, &[0], l, &mut far);
    far
}

/// How a writer varies its spelling.
#[derive(Clone, Copy)]
pub struct Style {
    /// Out of 8: how often to deviate from the first alternative.
    pub vary: u64,
    /// 0: as is, 1: lower, 2: upper, 3: random per letter.
    pub case: u64,
    /// Use tolerated spellings as well.
    pub tol: bool,
}

impl Style {
    pub fn draw(t: &mut Tape, tol: bool) -> Style {
        Style { vary: *t.pick(&[0, 1, 4, 8]), case: t.below(4), tol }
    }
}

/// Writes one spelling.
pub fn write(g: &Gr, t: &mut Tape, s: Style, out: &mut Vec<u8>) {
    match g {
        Kw(k) => match s.case {
            0 => out.extend(k.bytes()),
            1 => out.extend(k.bytes().map(|c| c.to_ascii_lowercase())),
            2 => out.extend(k.bytes().map(|c| c.to_ascii_uppercase())),
            _ => {
                let bits = t.below(1 << 16);
                out.extend(k.bytes().enumerate().map(|(i, c)| if bits >> (i % 16) & 1 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }));
            }
        },
        Raw(r) => out.extend(r),
        Num(n) => {
            if t.below(16) < s.vary {
                out.extend(std::iter::repeat_n(b'0', 1 + t.usize(3)));
            }
            out.extend(n.to_string().bytes());
        }
        Nz(n) => {
            if s.tol && t.below(16) < s.vary {
                out.extend(std::iter::repeat_n(b'0', 1 + t.usize(3)));
            }
            out.extend(n.to_string().bytes());
        }
        Seq(v) => v.iter().for_each(|x| write(x, t, s, out)),
        Alt(v) => {
            let i = if t.below(8) < s.vary { t.usize(v.len()) } else { 0 };
            write(&v[i], t, s, out);
        }
        Tol(v) => {
            let i = if s.tol && t.below(8) < s.vary { t.usize(v.len()) } else { 0 };
            write(&v[i], t, s, out);
        }
        Eol => out.extend(b"\r\n"),
        Sp(many) => {
            out.push(b' ');
            if *many && s.tol && t.below(8) < s.vary {
                out.push(b' ');
            }
        }
        TolSpaces => {
            if s.tol && t.below(8) < s.vary {
                out.push(b' ');
            }
        }
        TolDigits => {
            if s.tol {
                out.extend(t.u32().to_string().bytes());
            }
        }
    }
}
