//! Per-run context: choices, virtual clock, fault accounting, trace and coverage.

use std::collections::{BTreeMap, HashSet};

use crate::tape::{Mix, Tape};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Violation {
    /// Stable name of what went wrong; shrinking keeps it.
    pub class: String,
    pub detail: String,
    /// Set if this is one of the recorded known findings, by id.
    pub known: Option<String>,
}

pub type R = Result<(), Violation>;

pub fn viol(class: &str, detail: impl Into<String>) -> Violation {
    Violation { class: class.to_string(), detail: detail.into(), known: None }
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => { return Err($crate::ctx::viol($class, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !$cond { return Err($crate::ctx::viol($class, format!($($arg)*))); } };
}

/// Statistics of a worker, over all its runs.
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub states: HashSet<u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub t: Tape,
    pub now_us: u64,
    pub steps: u64,
    pub nfaults: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sig: Mix,
    pub states: Vec<u64>,
    pub nontrivial: bool,
    pub trace: Option<Vec<String>>,
    pub trace_hash: Mix,
}

impl Ctx {
    pub fn new(t: Tape, tracing: bool) -> Self {
        Ctx {
            t,
            now_us: 0,
            steps: 0,
            nfaults: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sig: Mix::new(),
            states: Vec::new(),
            nontrivial: false,
            trace: if tracing { Some(Vec::new()) } else { None },
            trace_hash: Mix::new(),
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.nfaults += 1;
        self.nontrivial = true;
        self.sig.b(kind.as_bytes());
    }
    /// Something interesting was reached (coverage, not a fault).
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
    /// Records an abstract state reached; distinct states are counted over the whole search.
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
        self.sig.u(h);
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("[{:>9}us] {}", self.now_us, f());
            self.trace_hash.b(s.as_bytes());
            self.trace.as_mut().unwrap().push(s);
        }
    }
}

pub fn esc(b: &[u8]) -> String {
    if b.len() > 600 {
        format!("{}...[{} bytes]", b[..600].escape_ascii(), b.len())
    } else {
        b.escape_ascii().to_string()
    }
}
