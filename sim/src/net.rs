//! The simulated network: a reliable byte stream whose segmentation and timing the seed decides. What TCP allows to
//! happen: any split, any coalescing, any delay, stalls, and an end at any byte.

use crate::ctx::Ctx;

#[derive(Clone, Debug)]
pub struct Segment {
    pub at_us: u64,
    pub start: usize,
    pub end: usize,
}

/// How a link behaves in this run.
#[derive(Clone, Debug)]
pub struct Profile {
    mode: u64,
    mtu: usize,
    delay: u64,
    jitter: u64,
    stall: u64,
}

impl Profile {
    pub fn draw(ctx: &mut Ctx) -> Profile {
        let t = &mut ctx.t;
        Profile {
            mode: t.below(6),
            mtu: *t.pick(&[1460, 1, 2, 3, 5, 7, 16, 64, 536]),
            delay: *t.pick(&[100, 10, 20_000, 150_000]),
            jitter: *t.pick(&[0, 50, 10_000]),
            stall: *t.pick(&[0, 0, 1, 4]),
        }
    }
    pub fn latency(&self, ctx: &mut Ctx) -> u64 {
        let mut d = self.delay + ctx.t.below(self.jitter + 1);
        if self.stall > 0 && ctx.t.chance(self.stall, 16) {
            ctx.fault("stall");
            d += ctx.t.range(1_000_000, 120_000_000);
        }
        d
    }
    /// The points at which the bytes are cut.
    pub fn cuts(&self, ctx: &mut Ctx, bytes: &[u8]) -> Vec<usize> {
        let n = bytes.len();
        let mut cuts = vec![];
        // For long streams: few cuts, near one place.
        let most = (1_500_000 / n.max(1)).clamp(40, 1500);
        match self.mode {
            0 => {}
            1 => {
                // One byte at a time; for long streams only in a window.
                ctx.fault("bytewise");
                if n <= most {
                    cuts.extend(1..n);
                } else {
                    let s = ctx.t.usize(n - most);
                    cuts.extend(s + 1..s + most);
                }
            }
            2 => {
                let mut p = self.mtu + if n > self.mtu * most { ctx.t.usize(n - self.mtu * most) } else { 0 };
                while p < n && cuts.len() < most {
                    cuts.push(p);
                    p += self.mtu;
                }
            }
            3 => {
                // Cut where it hurts: next to CR, LF, braces, quotes, digits.
                let first = if n > 4000 { 1 + ctx.t.usize(n - 1000) } else { 1 };
                for p in first..n {
                    let hot = matches!(bytes[p - 1], b'\r' | b'\n' | b'{' | b'}' | b'+' | b'"' | b'\\' | b'0'..=b'9') || matches!(bytes[p], b'\r' | b'\n' | b'{' | b'}');
                    if hot && cuts.len() < most && ctx.t.chance(1, 2) {
                        cuts.push(p);
                    }
                }
                if !cuts.is_empty() {
                    ctx.fault("boundary_cut");
                }
            }
            4 => {
                let k = ctx.t.usize(6) + 1;
                for _ in 0..k {
                    if n > 1 {
                        cuts.push(1 + ctx.t.usize(n - 1));
                    }
                }
            }
            _ => {
                // Random sizes.
                let mut p = if n > self.mtu * most { ctx.t.usize(n - self.mtu * most) } else { 0 };
                while p < n && cuts.len() < most {
                    p += 1 + ctx.t.usize(self.mtu.max(2) * 2);
                    if p < n {
                        cuts.push(p);
                    }
                }
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        if !cuts.is_empty() {
            ctx.fault("split");
        }
        if cuts.iter().any(|c| *c > 0 && *c < n && bytes[*c - 1] == b'\r' && bytes[*c] == b'\n') {
            ctx.fault("split_crlf");
        }
        cuts
    }
    /// A delivery schedule for one direction.
    pub fn schedule(&self, ctx: &mut Ctx, bytes: &[u8]) -> Vec<Segment> {
        let mut cuts = self.cuts(ctx, bytes);
        cuts.push(bytes.len());
        let mut at = ctx.now_us;
        let mut start = 0;
        let mut out = vec![];
        for end in cuts {
            if end > start {
                at += self.latency(ctx);
                out.push(Segment { at_us: at, start, end });
                start = end;
            }
        }
        out
    }
}
