//! Threads that encode, decode and frame different messages at the same time: each must see what it would see alone.

use std::{sync::Arc, thread};

use imap_codec::{
    decode::Decoder,
    encode::Encoder,
    fragmentizer::{FragmentInfo, Fragmentizer},
    imap_types::{
        command::{Command, CommandBody},
        core::{Literal, LiteralMode},
        IntoStatic, ToStatic,
        response::Response,
    },
    CommandCodec, ResponseCodec,
};

use crate::{bad, mix, Rng};

const COMMANDS: &[&[u8]] = &[
    b"a1 NOOP\r\n",
    b"b2 LOGIN {5}\r\nalice \"pa\\\"ss\"\r\n",
    b"c3 SELECT INBOX\r\n",
    b"d4 FETCH 1:3,7,*:9 (FLAGS BODY.PEEK[1.HEADER.FIELDS (Subject)]<3.5>)\r\n",
    b"e5 SEARCH CHARSET UTF-8 OR (NOT SEEN) SUBJECT {3}\r\nabc\r\n",
    b"f6 APPEND x (\\Seen foo) \"01-Feb-2020 01:02:03 +0100\" {4}\r\na\r\nb\r\n",
    b"g7 ID (\"name\" NIL)\r\n",
    b"h8 UID STORE 5 +FLAGS.SILENT (\\Deleted)\r\n",
];
const RESPONSES: &[&[u8]] = &[
    b"* OK [CAPABILITY IMAP4REV1 AUTH=PLAIN] hello\r\n",
    b"* 3 FETCH (FLAGS (\\Seen) UID 7 BODY[] {3}\r\nabc)\r\n",
    b"* LIST (\\Noselect) \"/\" {3}\r\nfoo\r\n",
    b"+ idling\r\n",
    b"* SEARCH 1 2 3\r\n",
    b"z9 NO [TRYCREATE] no\r\n",
    b"* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" (\"CHARSET\" \"utf-8\") NIL NIL \"7BIT\" 3 1))\r\n",
];

/// Everything a user sees of one message that arrives in pieces, as text.
fn observe(b: &[u8], command: bool, cut: usize, reuse: &mut Vec<u8>, r: &mut Rng) -> String {
    let mut out = String::new();
    let mut f = Fragmentizer::new(100);
    // The buffer belongs to the thread and is reused: nothing may keep looking into it.
    reuse.clear();
    reuse.extend_from_slice(b);
    for part in [&b[..cut], &b[cut..]] {
        f.enqueue_bytes(part);
        if r.below(4) == 0 {
            thread::yield_now();
        }
        while let Some(i) = f.progress() {
            if let FragmentInfo::Line { announcement: Some(a), .. } = i {
                out.push_str(&format!("{a:?}"));
            }
            out.push_str(&format!("{i:?}"));
        }
    }
    if command {
        let m: Command<'static> = match CommandCodec::default().decode(reuse) {
            Ok((rem, m)) => {
                if !rem.is_empty() {
                    bad("remainder".into());
                }
                if r.below(2) == 0 { m.to_static() } else { m.into_static() }
            }
            Err(e) => bad(format!("{e:?}")),
        };
        reuse.iter_mut().for_each(|x| *x = b'#');
        out.push_str(&format!("{:?}{m:?}", f.decode_message(&CommandCodec::default())));
        for x in CommandCodec::default().encode(&m) {
            if r.below(4) == 0 {
                thread::yield_now();
            }
            out.push_str(&format!("{x:?}"));
        }
    } else {
        let m: Response<'static> = match ResponseCodec::default().decode(reuse) {
            Ok((_, m)) => m.into_static(),
            Err(e) => bad(format!("{e:?}")),
        };
        reuse.iter_mut().for_each(|x| *x = b'#');
        out.push_str(&format!("{:?}{m:?}", f.decode_message(&ResponseCodec::default())));
        for x in ResponseCodec::default().encode(&m) {
            out.push_str(&format!("{x:?}"));
        }
    }
    out
}

pub fn run(threads: usize, n: usize) {
    let mut rng = Rng::new();
    // A value that all threads share and encode at the same time.
    let shared = Arc::new(Command::new("s", CommandBody::append("x", vec![], None, Literal::try_from(&b"ab"[..]).unwrap().into_static()).unwrap()).unwrap());
    let alone_shared = CommandCodec::default().encode(&shared).dump();
    let mut handles = vec![];
    let mut sig = 0xcbf2_9ce4_8422_2325u64;
    for _ in 0..threads {
        let mut r = rng.fork();
        let work: Vec<(bool, usize, usize)> = (0..n)
            .map(|_| {
                let c = r.below(2) == 0;
                let l = if c { COMMANDS } else { RESPONSES };
                let k = r.below(l.len());
                (c, k, r.below(l[k].len() + 1))
            })
            .collect();
        for w in &work {
            sig = mix(sig, format!("{w:?}").as_bytes());
        }
        let shared = shared.clone();
        handles.push(thread::spawn(move || {
            let mut buf = vec![];
            let out: Vec<String> = work.iter().map(|(c, k, cut)| observe(if *c { COMMANDS[*k] } else { RESPONSES[*k] }, *c, *cut, &mut buf, &mut r)).collect();
            (work, out, CommandCodec::default().encode(&shared).dump())
        }));
    }
    let outs: Vec<_> = handles.into_iter().map(|h| h.join().unwrap_or_else(|_| bad("a thread panicked".into()))).collect();
    let mut buf = vec![];
    let mut count = 0;
    for (t, (work, out, s)) in outs.iter().enumerate() {
        if *s != alone_shared {
            bad(format!("thread {t}: a shared message is encoded as {s:?}"));
        }
        for ((c, k, cut), o) in work.iter().zip(out) {
            count += 1;
            let b = if *c { COMMANDS[*k] } else { RESPONSES[*k] };
            let alone = observe(b, *c, *cut, &mut buf, &mut Rng::new());
            if alone != *o {
                bad(format!("thread {t}: {:?} behaves differently among other threads: {o} and alone: {alone}", String::from_utf8_lossy(b)));
            }
        }
    }
    let _ = LiteralMode::Sync;
    println!("RUN {sig:016x} {count} -");
}
