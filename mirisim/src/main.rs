//! Threads that share the code under test, run inside Miri: its seeded scheduler decides every preemption, every weak
//! memory effect and all randomness (also the one used here), so one seed is one execution.
//!
//!     mirisim tags <threads> <generators per thread> <tags per generator>
//!     mirisim codec <threads> <messages per thread>
//!
//! Prints one line "RUN <signature> <details>", or "BAD <what>" and exits with 1.

use std::{
    collections::BTreeMap,
    hash::{BuildHasher, Hasher, RandomState},
    sync::mpsc,
    thread,
};

use imap_codec::imap_types::core::{Tag, TagGenerator};

mod codec;

/// Seeded by Miri (std takes it from the interpreter's own source of randomness).
pub struct Rng(u64);
impl Rng {
    pub fn new() -> Rng {
        Rng(RandomState::new().build_hasher().finish() | 1)
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next() | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) % n.max(1) as u64) as usize
    }
}

pub fn mix(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn bad(what: String) -> ! {
    println!("BAD {what}");
    std::process::exit(1)
}

fn tags(threads: usize, gens: usize, n: usize) {
    let mut rng = Rng::new();
    // Some generators are made before the threads start and move there; some wander from one thread to the next.
    let (tx, rx): (Vec<_>, Vec<_>) = (0..threads).map(|_| mpsc::channel::<TagGenerator>()).unzip();
    let mut handles = vec![];
    for (i, rx) in rx.into_iter().enumerate() {
        let mut r = rng.fork();
        let next = tx[(i + 1) % threads].clone();
        let mut mine: Vec<TagGenerator> = if r.below(3) == 0 { vec![TagGenerator::new()] } else { vec![] };
        handles.push(thread::spawn(move || {
            let mut out: Vec<(usize, Tag<'static>)> = vec![];
            let mut made = 0;
            let mut ids: Vec<usize> = mine.iter().map(|_| 1000 * i + 999).collect();
            let mut steps = 0;
            while made < gens || steps < gens * n {
                steps += 1;
                if made < gens && (mine.is_empty() || r.below(2) == 0) {
                    ids.push(1000 * i + made);
                    made += 1;
                    mine.push(TagGenerator::new());
                }
                if let Ok(g) = rx.try_recv() {
                    ids.push(1000 * i + 500 + steps);
                    mine.push(g);
                }
                if mine.is_empty() {
                    continue;
                }
                let k = r.below(mine.len());
                out.push((ids[k], mine[k].generate()));
                if r.below(12) == 0 {
                    ids.remove(k);
                    let _ = next.send(mine.remove(k));
                } else if r.below(12) == 0 {
                    // Dropped, and perhaps another one in its place.
                    ids.remove(k);
                    mine.remove(k);
                }
            }
            out
        }));
    }
    drop(tx);
    let outs: Vec<Vec<(usize, Tag)>> = handles.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("a thread panicked".into()))).collect();
    let mut seen: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut sig = 0xcbf2_9ce4_8422_2325;
    let mut count = 0;
    let mut first = String::new();
    for (t, out) in outs.iter().enumerate() {
        for (k, (g, tag)) in out.iter().enumerate() {
            count += 1;
            let s = tag.inner().to_string();
            if Tag::try_from(s.clone()).is_err() {
                bad(format!("thread {t} generated {s:?}, which is no tag"));
            }
            if let Some((u, h)) = seen.insert(s.clone(), (t, *g)) {
                bad(format!("tag {s:?} was generated twice: by thread {u} (generator {h}) and by thread {t} (generator {g})"));
            }
            // Which generator got which number: a measure of the interleaving that needs no synchronisation.
            sig = mix(sig, s.rsplit_once('.').map(|x| x.0).unwrap_or(&s).as_bytes());
            if t == 0 && k == 0 {
                first = s;
            }
        }
    }
    println!("RUN {sig:016x} {count} {first}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(2);
    match a.get(1).map(|s| s.as_str()) {
        Some("tags") => tags(n(2), n(3), n(4)),
        Some("codec") => codec::run(n(2), n(3)),
        _ => panic!("mode"),
    }
}
