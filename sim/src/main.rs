mod alloc;
mod catalogue;
mod ctx;
mod findings;
mod gens;
mod gram;
mod lexref;
mod net;
mod s_decode;
mod s_frame;
#[cfg(feature = "arb")]
mod s_gen;
mod s_gram;
mod s_hostile;
mod s_inject;
mod s_secret;
mod s_pure;
mod s_seq;
mod s_store;
mod s_tags;
mod scen;
mod seqref;
mod session;
mod shrink;
mod spec;
mod tape;
mod wire;

use std::{
    cell::RefCell,
    io::Write,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

use ctx::{Ctx, R, Stats, Violation};
use serde_json::{Value, json};
use tape::{Mix, Tape};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Start of the current run in ms since start, 0 if none; read by the watchdog.
static RUN_STARTED: AtomicU64 = AtomicU64::new(0);
static RUN_WALL: AtomicU64 = AtomicU64::new(0);

pub enum Outcome {
    Ok,
    Violation(Violation),
    /// The harness itself panicked.
    Harness(String),
}

/// One run. Pure function of the tape.
pub fn execute(prop: &str, tape: Tape, tracing: bool) -> (Outcome, Ctx) {
    let mut ctx = Ctx::new(tape, tracing);
    let f = scen::scenario(prop);
    let r = catch_unwind(AssertUnwindSafe(|| -> R { f(&mut ctx) }));
    let o = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => Outcome::Violation(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Paths of this crate are relative, paths of everything else (the code under test and what it uses) are absolute.
            if loc.starts_with("src/") && std::env::var_os("IMAPSIM_HARNESS").is_some() {
                Outcome::Harness(format!("{loc}: {msg}"))
            } else if loc.starts_with("src/") {
                // The simulated applications unwrap what the code under test gives them where it may not fail.
                let class = format!("application: a valid call fails at {loc}");
                Outcome::Violation(ctx::viol(&class, msg))
            } else {
                let class = format!("panic at {}", loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc));
                Outcome::Violation(ctx::viol(&class, format!("panicked at {loc}: {msg}")))
            }
        }
    };
    (o, ctx)
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut m = Mix::new();
    m.u(base).b(prop.as_bytes()).u(index);
    m.0
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map(|s| s.parse().unwrap_or_else(|_| panic!("bad {name}"))).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    if let Some(gb) = arg(&args, "--mem-gb") {
        let b = gb.parse::<u64>().unwrap() << 30;
        let r = libc::rlimit { rlim_cur: b, rlim_max: b };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    }
    // The runs live on a thread with the default stack size of Rust threads (2 MiB), whatever `ulimit -s` says.
    let hang = num(&args, "--hang-secs", 30);
    let stack = num(&args, "--stack-kb", 2048) as usize * 1024;
    let started = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        // In time that this process spent computing: a busy machine is no hang.
        let s = RUN_STARTED.load(Ordering::Relaxed);
        let w = RUN_WALL.load(Ordering::Relaxed);
        if s != 0 && (cpu_ms() > s + hang * 1000 || started.elapsed().as_millis() as u64 > w + 20 * hang * 1000) {
            eprintln!("HANG");
            std::process::exit(86);
        }
    });
    let code = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || match catch_unwind(AssertUnwindSafe(|| command(&args, started))) {
            Ok(c) => c,
            Err(_) => {
                eprintln!("harness error: {:?}", PANIC.with(|p| p.borrow().clone()));
                3
            }
        })
        .unwrap()
        .join()
        .unwrap();
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn mark(started: Instant, on: bool) {
    RUN_WALL.store(started.elapsed().as_millis() as u64, Ordering::Relaxed);
    RUN_STARTED.store(if on { cpu_ms().max(1) } else { 0 }, Ordering::Relaxed);
}

fn vjson(v: &Violation) -> Value {
    json!({"class": v.class, "detail": v.detail})
}

fn command(args: &[String], started: Instant) -> i32 {
    let prop = arg(args, "--prop").unwrap_or("").to_string();
    match args.get(1).map(|s| s.as_str()) {
        // A batch of runs; prints one JSON object.
        Some("run") => {
            let base = num(args, "--seed", 1);
            let from = num(args, "--from", 0);
            let stride = num(args, "--stride", 1);
            let count = num(args, "--count", 100);
            let secs = num(args, "--secs", 600);
            let mut status = arg(args, "--status").map(|p| std::fs::File::create(p).unwrap());
            let mut st = Stats::default();
            let mut found: Option<(u64, Violation, Vec<u64>)> = None;
            let mut slowest = (0u64, 0u64);
            let mut i = from;
            for _ in 0..count {
                if started.elapsed().as_secs() >= secs {
                    break;
                }
                if let Some(f) = &mut status {
                    use std::io::{Seek, SeekFrom};
                    let _ = f.seek(SeekFrom::Start(0));
                    let _ = f.write_all(format!("{i:>20}").as_bytes());
                }
                mark(started, true);
                let sample = st.samples.len() < 2 && i % 7 == from % 7;
                let (o, ctx) = execute(&prop, Tape::seeded(run_seed(base, &prop, i)), sample);
                let ms = cpu_ms().saturating_sub(RUN_STARTED.load(Ordering::Relaxed));
                slowest = slowest.max((ms, i));
                mark(started, false);
                st.runs += 1;
                st.sim_us += ctx.now_us;
                st.steps += ctx.steps;
                for (k, n) in &ctx.faults {
                    *st.faults.entry(k).or_insert(0) += n;
                }
                for (k, n) in &ctx.probes {
                    *st.probes.entry(k).or_insert(0) += n;
                }
                if ctx.nontrivial {
                    st.nontrivial += 1;
                    st.sigs.insert(ctx.sig.0);
                }
                if st.states.len() < 4_000_000 {
                    st.states.extend(ctx.states.iter());
                }
                if let (true, Some(tr)) = (ctx.nontrivial, &ctx.trace) {
                    let mut s = format!("run {i}: ");
                    s.push_str(&tr.iter().take(14).cloned().collect::<Vec<_>>().join(" | "));
                    s.truncate(1500);
                    st.samples.push(s);
                }
                match o {
                    Outcome::Ok => {}
                    Outcome::Violation(v) => {
                        found = Some((i, v, ctx.t.rec));
                        break;
                    }
                    Outcome::Harness(m) => {
                        println!("{}", json!({"harness_error": m, "index": i}));
                        return 3;
                    }
                }
                i += stride;
            }
            let wall = started.elapsed().as_secs_f64();
            if let Some(p) = arg(args, "--sets") {
                for (name, set) in [("sigs", &st.sigs), ("states", &st.states)] {
                    let mut b = Vec::with_capacity(set.len() * 8);
                    for h in set {
                        b.extend_from_slice(&h.to_le_bytes());
                    }
                    std::fs::write(format!("{p}.{name}"), b).unwrap();
                }
            }
            let mut out = json!({
                "runs": st.runs, "nontrivial": st.nontrivial, "sim_us": st.sim_us, "steps": st.steps,
                "faults": st.faults, "probes": st.probes, "samples": st.samples, "wall_s": wall,
                "slowest_run": {"cpu_ms": slowest.0, "index": slowest.1},
            });
            if let Some((i, v, tape)) = found {
                let (tape, v, tries) = shrink::shrink(&prop, tape, v, Duration::from_secs(num(args, "--shrink-secs", 45)), &|on| mark(started, on));
                mark(started, true);
                let (_, ctx) = execute(&prop, Tape::replay(tape.clone()), true);
                mark(started, false);
                out["violation"] = json!({
                    "prop": prop, "index": i, "base_seed": base, "run_seed": run_seed(base, &prop, i).to_string(), "class": v.class, "detail": v.detail,
                    "tape": tape, "shrink_attempts": tries, "trace": ctx.trace, "trace_hash": format!("{:016x}", ctx.trace_hash.0),
                    "faults": ctx.faults,
                });
            }
            println!("{out}");
            0
        }
        // One run, from a seed index or from a tape, printed as JSON.
        Some("exec") => {
            let mut tape = match arg(args, "--tape") {
                Some(p) => {
                    let v: Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
                    let t = v.get("tape").unwrap_or(&v);
                    Tape::replay(t.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect())
                }
                None => Tape::seeded(run_seed(num(args, "--seed", 1), &prop, num(args, "--index", 0))),
            };
            if let Some(p) = arg(args, "--log") {
                tape.log_to(std::fs::File::create(p).unwrap());
            }
            let trace = !args.iter().any(|a| a == "--no-trace");
            mark(started, true);
            let (o, ctx) = execute(&prop, tape, trace);
            mark(started, false);
            let (code, v) = match &o {
                Outcome::Ok => (0, Value::Null),
                Outcome::Violation(v) => (1, vjson(v)),
                Outcome::Harness(m) => (3, json!({"harness_error": m})),
            };
            println!(
                "{}",
                json!({"violation": v, "trace": ctx.trace, "trace_hash": format!("{:016x}", ctx.trace_hash.0), "tape": ctx.t.rec, "faults": ctx.faults})
            );
            code
        }
        // Digest of the event logs of many runs, to prove determinism.
        Some("digest") => {
            let (base, from, count) = (num(args, "--seed", 1), num(args, "--from", 0), num(args, "--count", 20));
            for i in from..from + count {
                mark(started, true);
                let (o, ctx) = execute(&prop, Tape::seeded(run_seed(base, &prop, i)), true);
                mark(started, false);
                let tag = match o {
                    Outcome::Ok => "ok".to_string(),
                    Outcome::Violation(v) => format!("violation {}", v.class),
                    Outcome::Harness(m) => format!("harness {m}"),
                };
                println!("{i} {:016x} {} {} {tag}", ctx.trace_hash.0, ctx.t.rec.len(), ctx.now_us);
            }
            0
        }
        // Which of the recorded findings are (still) there.
        Some("findings") => {
            let list: Vec<Value> = scen::findings(&prop)
                .into_iter()
                .map(|(id, f)| {
                    let r = catch_unwind(f);
                    json!({"id": id, "present": r.as_ref().map(|x| x.is_some()).unwrap_or(true), "what": r.ok().flatten()})
                })
                .collect();
            println!("{}", Value::Array(list));
            0
        }
        _ => {
            eprintln!("usage: imapsim run|exec|digest|findings ...");
            2
        }
    }
}
