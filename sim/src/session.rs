//! Whole sessions: a client and a server, both built on the code under test, talk over simulated connections.
//!
//! The client sends a script of commands (literal handshakes, AUTHENTICATE and IDLE exchanges, pipelining), the server
//! answers. Connections are reset at arbitrary bytes; the client reconnects and goes on. The seed decides everything:
//! commands, answers, segmentation, delays, stalls, resets, who accepts which literal. Nothing here knows how messages
//! are spelled; the oracles compare what one application handed over with what the other one got.

use std::{
    cmp::Reverse,
    collections::{BinaryHeap, VecDeque},
};

use imap_codec::{
    encode::Fragment,
    fragmentizer::{FragmentInfo, Fragmentizer},
    imap_types::{
        command::{Command, CommandBody},
        core::{LiteralMode, Tag},
        extensions::idle::IdleDone,
        response::{CommandContinuationRequest, Response, Status, StatusBody, StatusKind, Tagged},
    },
};

use crate::{
    ctx::{Ctx, R, Violation, esc, viol},
    ensure, fail,
    gens::{Cfg, G},
    lexref,
    net::Profile,
    tape::Mix,
    wire::{Err, Kind, Msg, Whole},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    Commands,
    Responses,
    Literals,
}

const C2S: usize = 0;
const S2C: usize = 1;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Flush(usize),
    Deliver(usize, Vec<u8>),
    /// The application of the client (0) or of the server (1) gets to run.
    Wake(usize),
}

struct Link {
    profile: Profile,
    pending: Vec<u8>,
    flushing: bool,
    last_at: u64,
    written: usize,
}

/// The receiving side, built in either of the two ways the crate offers.
enum Rx {
    Frag(Fragmentizer),
    /// (`work`: bytes looked at so far; `fresh`: a line may have ended since the last look.)
    Buffer { buf: Vec<u8>, acked: usize, work: usize, fresh: bool },
}

enum RxEv {
    /// The peer announced a literal: mode if known, tag if known, length.
    Literal(Option<LiteralMode>, Option<String>, u32),
    Msg(Msg),
    More,
}

impl Rx {
    fn draw(ctx: &mut Ctx) -> Rx {
        match ctx.t.below(3) {
            0 => Rx::Frag(Fragmentizer::without_max_message_size()),
            1 => Rx::Frag(Fragmentizer::new(1 << 28)),
            _ => Rx::Buffer { buf: vec![], acked: 0, work: 0, fresh: false },
        }
    }
    fn feed(&mut self, b: &[u8]) {
        match self {
            Rx::Frag(f) => f.enqueue_bytes(b),
            Rx::Buffer { buf, fresh, .. } => {
                *fresh |= b.contains(&b'\n');
                buf.extend_from_slice(b);
            }
        }
    }
    fn skip(&mut self) {
        match self {
            Rx::Frag(f) => f.skip_message(),
            Rx::Buffer { buf, acked, .. } => {
                buf.clear();
                *acked = 0;
            }
        }
    }
    fn poll(&mut self, ctx: &mut Ctx, kind: Kind) -> Result<RxEv, Violation> {
        match self {
            Rx::Frag(f) => loop {
                ctx.step();
                let Some(info) = f.progress() else { return Ok(RxEv::More) };
                if let FragmentInfo::Line { announcement: Some(a), .. } = info {
                    let tag = f.decode_tag().map(|t| t.inner().to_string());
                    return Ok(RxEv::Literal(Some(a.mode), tag, a.length));
                }
                if f.is_message_complete() {
                    return match kind.decode_message(f) {
                        Whole::Ok(m) => Ok(RxEv::Msg(m)),
                        w => Err(viol("session: message not understood", format!("{kind:?} {:?} was not accepted: {w:?}", esc(f.message_bytes())))),
                    };
                }
            },
            Rx::Buffer { buf, acked, work, fresh } => {
                ctx.step();
                // Looking at a long message after each byte has its price: then only where a line may have ended.
                *work += buf.len();
                if *work > 60_000_000 && !*fresh {
                    return Ok(RxEv::More);
                }
                match kind.decode(buf) {
                    Ok((rem, m)) => {
                        let n = buf.len() - rem;
                        buf.drain(..n);
                        *acked = 0;
                        Ok(RxEv::Msg(m))
                    }
                    Result::Err(Err::Incomplete) => {
                        *fresh = false;
                        Ok(RxEv::More)
                    }
                    Result::Err(Err::Literal(tag, len, mode)) => {
                        // The decoder reports the announcement as long as no byte of the literal has arrived.
                        if *acked == buf.len() {
                            return Ok(RxEv::More);
                        }
                        *acked = buf.len();
                        Ok(RxEv::Literal(mode, tag, len))
                    }
                    Result::Err(Err::Failed) => Err(viol("session: message not understood", format!("{kind:?} {:?} was not accepted", esc(buf)))),
                }
            }
        }
    }
}

/// One entry of the client's script.
#[derive(Clone)]
struct Job {
    cmd: Command<'static>,
    /// What the client sends after AUTHENTICATE.
    auth: Vec<Msg>,
}

#[derive(PartialEq, Debug)]
enum CState {
    Greeting,
    Ready,
    /// Waits for a go-ahead for a synchronising literal.
    AwaitLiteral,
    Auth,
    Idle,
    IdleDone,
}

enum SState {
    Command,
    Auth(Tag<'static>, usize),
    Idle(Tag<'static>),
}

struct Session<'c> {
    ctx: &'c mut Ctx,
    cfg: Cfg,
    focus: Focus,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    links: [Link; 2],
    // Client
    c_rx: Rx,
    c_state: CState,
    script: VecDeque<Job>,
    outstanding: VecDeque<(String, Job)>,
    sending: VecDeque<Fragment>,
    auth_left: VecDeque<Msg>,
    window: usize,
    c_sent: Vec<Msg>,
    c_got: Vec<Msg>,
    rejected: usize,
    completed: usize,
    c_wake: bool,
    // Server
    s_rx: Rx,
    s_state: SState,
    s_sent: Vec<Msg>,
    s_got: Vec<Msg>,
    reject_rate: u64,
    s_stopped: bool,
    s_todo: Vec<u8>,
}

fn text_ok() -> StatusBody<'static> {
    StatusBody { kind: StatusKind::Ok, code: None, text: "done".try_into().unwrap() }
}

impl<'c> Session<'c> {
    fn push(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Reverse((at, self.seq, ev)));
    }
    fn write(&mut self, dir: usize, b: &[u8]) {
        self.links[dir].pending.extend_from_slice(b);
        if !self.links[dir].flushing {
            self.links[dir].flushing = true;
            // Writes within this time share segments.
            let d = *self.ctx.t.pick(&[0u64, 0, 200, 40_000]);
            let at = self.ctx.now_us + d;
            self.push(at, Ev::Flush(dir));
        }
    }
    fn flush(&mut self, dir: usize) {
        let bytes = std::mem::take(&mut self.links[dir].pending);
        self.links[dir].flushing = false;
        self.links[dir].written += bytes.len();
        let profile = self.links[dir].profile.clone();
        let mut cuts = profile.cuts(self.ctx, &bytes);
        cuts.push(bytes.len());
        let mut start = 0;
        let mut at = self.links[dir].last_at.max(self.ctx.now_us);
        for end in cuts {
            if end > start {
                at += profile.latency(self.ctx);
                self.push(at, Ev::Deliver(dir, bytes[start..end].to_vec()));
                start = end;
            }
        }
        self.links[dir].last_at = at;
    }

    // ----- client -----

    fn tag_text(&self) -> usize {
        self.c_sent.len()
    }
    /// Starts commands as far as the protocol allows, and sends fragments up to the next synchronising literal.
    fn client_run(&mut self) -> R {
        loop {
            // Finish what was begun.
            while let Some(f) = self.sending.front() {
                match f {
                    Fragment::Literal { mode: LiteralMode::Sync, .. } if self.c_state != CState::AwaitLiteral => {
                        self.c_state = CState::AwaitLiteral;
                        self.ctx.probe("client_waits_for_literal");
                        return Ok(());
                    }
                    Fragment::Literal { mode: LiteralMode::Sync, .. } => return Ok(()),
                    _ => {}
                }
                let f = self.sending.pop_front().unwrap();
                let b = match f {
                    Fragment::Line { data } => data,
                    Fragment::Literal { data, .. } => data,
                };
                self.ctx.log(|| format!("C: {:?}", esc(&b)));
                self.write(C2S, &b);
            }
            if self.c_state != CState::Ready || self.outstanding.len() >= self.window {
                return Ok(());
            }
            // After AUTHENTICATE or IDLE the client waits for the server.
            if let Some((_, j)) = self.outstanding.back() {
                if matches!(j.cmd.body, CommandBody::Authenticate { .. } | CommandBody::Idle) {
                    return Ok(());
                }
            }
            let Some(job) = self.script.front() else { return Ok(()) };
            let exclusive = matches!(job.cmd.body, CommandBody::Authenticate { .. } | CommandBody::Idle);
            if exclusive && !self.outstanding.is_empty() {
                return Ok(());
            }
            if !self.outstanding.is_empty() {
                self.ctx.fault("pipelined");
            }
            let mut job = self.script.pop_front().unwrap();
            // A tag is used once per connection.
            let n = self.tag_text();
            let t = format!("{}{}", job.cmd.tag.inner(), n);
            job.cmd.tag = Tag::try_from(t.clone()).unwrap();
            let m = Msg::Command(job.cmd.clone());
            let frags = m.fragments();
            check_fragments(&frags, &m)?;
            self.sending = frags.into();
            if exclusive {
                self.c_state = if matches!(job.cmd.body, CommandBody::Idle) { CState::Idle } else { CState::Auth };
                self.auth_left = job.auth.clone().into();
            }
            self.c_sent.push(m);
            self.outstanding.push_back((t, job));
        }
    }
    fn send_whole(&mut self, m: Msg) -> R {
        let frags = m.fragments();
        check_fragments(&frags, &m)?;
        for f in frags {
            let b = match f {
                Fragment::Line { data } => data,
                Fragment::Literal { data, .. } => data,
            };
            self.ctx.log(|| format!("C: {:?}", esc(&b)));
            self.write(C2S, &b);
        }
        self.c_sent.push(m);
        Ok(())
    }
    fn client_poll(&mut self) -> R {
        loop {
            let kind = if self.c_state == CState::Greeting { Kind::Greeting } else { Kind::Response };
            match self.c_rx.poll(self.ctx, kind)? {
                RxEv::More => return Ok(()),
                RxEv::Literal(..) => continue,
                RxEv::Msg(m) => self.client_on(m)?,
            }
        }
    }
    fn client_on(&mut self, m: Msg) -> R {
        self.ctx.log(|| format!("client got {m:?}"));
        let i = self.c_got.len();
        match self.s_sent.get(i) {
            Some(w) if w.same(&m) => {}
            w => fail!("session: client received something else than the server sent", "message {i}: sent {w:?} as {:?}, received {m:?}", w.map(|w| esc(&w.bytes()))),
        }
        self.c_got.push(m.clone());
        match m {
            Msg::Greeting(_) => self.c_state = CState::Ready,
            Msg::Response(Response::CommandContinuationRequest(_)) => match self.c_state {
                CState::AwaitLiteral => {
                    // Go ahead: the literal, and then on.
                    if let Some(Fragment::Literal { data, .. }) = self.sending.pop_front() {
                        self.ctx.log(|| format!("C: {:?}", esc(&data)));
                        self.write(C2S, &data);
                    }
                    self.c_state = match self.outstanding.back() {
                        Some((_, j)) if matches!(j.cmd.body, CommandBody::Authenticate { .. }) => CState::Auth,
                        _ => CState::Ready,
                    };
                }
                CState::Auth => {
                    if let Some(m) = self.auth_left.pop_front() {
                        self.send_whole(m)?;
                    }
                }
                CState::Idle => {
                    self.send_whole(Msg::Idle(IdleDone))?;
                    self.c_state = CState::IdleDone;
                }
                _ => fail!("session: out of step", "unexpected go-ahead in state {:?}", self.c_state),
            },
            Msg::Response(Response::Status(Status::Tagged(Tagged { tag, .. }))) => {
                let t = tag.inner().to_string();
                let Some(p) = self.outstanding.iter().position(|(x, _)| *x == t) else {
                    fail!("session: answer to an unknown command", "tag {t:?} is not outstanding: {:?}", self.outstanding.iter().map(|x| &x.0).collect::<Vec<_>>());
                };
                ensure!(p == 0, "session: answers out of order", "{t:?} was answered before {:?}", self.outstanding[0].0);
                let last = self.outstanding.len() == 1;
                self.outstanding.pop_front();
                self.completed += 1;
                if last {
                    if self.c_state == CState::AwaitLiteral {
                        // The literal was refused; it must not be sent.
                        self.sending.clear();
                        self.rejected += 1;
                        self.c_sent.pop();
                        self.ctx.probe("literal_refused");
                    }
                    self.c_state = CState::Ready;
                }
            }
            _ => {}
        }
        Ok(())
    }

    // ----- server -----

    fn respond(&mut self, m: Msg) -> R {
        let frags = m.fragments();
        check_fragments(&frags, &m)?;
        for f in frags {
            match f {
                Fragment::Line { data } | Fragment::Literal { data, .. } => {
                    self.ctx.log(|| format!("S: {:?}", esc(&data)));
                    self.write(S2C, &data);
                }
            }
        }
        self.s_sent.push(m);
        Ok(())
    }
    fn go_ahead(&mut self) -> R {
        let c = if self.focus == Focus::Responses && self.ctx.t.bool() {
            G::with(&mut self.ctx.t, self.cfg.clone()).continuation()
        } else {
            CommandContinuationRequest::basic(None, "go").unwrap()
        };
        self.respond(Msg::Response(Response::CommandContinuationRequest(c)))
    }
    fn tagged(&mut self, tag: Tag<'static>, no: bool) -> R {
        let st = if self.focus == Focus::Responses && self.ctx.t.bool() {
            G::with(&mut self.ctx.t, self.cfg.clone()).status(Some(tag))
        } else {
            let mut body = text_ok();
            if no {
                body.kind = StatusKind::No;
            }
            Status::Tagged(Tagged { tag, body })
        };
        self.respond(Msg::Response(Response::Status(st)))
    }
    fn server_poll(&mut self) -> R {
        loop {
            let kind = match self.s_state {
                SState::Command => Kind::Command,
                SState::Auth(..) => Kind::Auth,
                SState::Idle(_) => Kind::Idle,
            };
            match self.s_rx.poll(self.ctx, kind)? {
                RxEv::More => return Ok(()),
                RxEv::Literal(mode, tag, len) => {
                    let Some(Msg::Command(cur)) = self.c_sent.get(self.s_got.len()) else {
                        fail!("session: server received something else than the client sent", "a literal of {len} bytes was announced, but no command is due");
                    };
                    ensure!(
                        tag.as_deref() == Some(cur.tag.inner()),
                        "session: wrong tag at a literal",
                        "the command with tag {:?} announces a literal, but the tag recovered is {tag:?}",
                        cur.tag.inner()
                    );
                    ensure!(mode.is_some(), "session: mode of the literal unknown", "no mode for the literal of {}", tag.unwrap_or_default());
                    if mode == Some(LiteralMode::Sync) {
                        if self.ctx.t.chance(self.reject_rate, 16) {
                            // Refuse, and forget the command.
                            self.ctx.fault("literal_rejected");
                            self.ctx.log(|| format!("server refuses a literal of {len} bytes"));
                            let tag = cur.tag.clone();
                            self.s_rx.skip();
                            self.tagged(tag, true)?;
                        } else {
                            self.ctx.probe("literal_accepted");
                            self.go_ahead()?;
                        }
                    } else {
                        self.ctx.probe("literal_nonsync");
                    }
                }
                RxEv::Msg(m) => self.server_on(m)?,
            }
        }
    }
    fn server_on(&mut self, m: Msg) -> R {
        self.ctx.log(|| format!("server got {m:?}"));
        let i = self.s_got.len();
        match self.c_sent.get(i) {
            Some(w) if w.same(&m) => {}
            w => fail!("session: server received something else than the client sent", "message {i}: sent {w:?} as {:?}, received {m:?}", w.map(|w| esc(&w.bytes()))),
        }
        self.s_got.push(m.clone());
        let mut st = Mix::new();
        st.u(i.min(5) as u64).u(self.outstanding.len() as u64).u(matches!(self.s_rx, Rx::Frag(_)) as u64);
        match &m {
            Msg::Command(c) => {
                st.b(c.name().as_bytes());
            }
            Msg::Auth(_) => {
                st.u(1000);
            }
            _ => {
                st.u(1001);
            }
        }
        self.ctx.state(st.0);
        if self.focus == Focus::Responses {
            // The server has something to say.
            for _ in 0..self.ctx.t.count(4) {
                let r = loop {
                    let r = G::with(&mut self.ctx.t, self.cfg.clone()).response();
                    // Go-aheads and tagged answers have a meaning of their own; those are sent where they belong.
                    match r {
                        Response::CommandContinuationRequest(_) | Response::Status(Status::Tagged(_)) => {
                            break Response::Status(G::with(&mut self.ctx.t, self.cfg.clone()).status(None));
                        }
                        r => break r,
                    }
                };
                let mut st = Mix::new();
                if let Response::Data(d) = &r {
                    st.b(format!("{:?}", std::mem::discriminant(d)).as_bytes());
                }
                self.ctx.state(st.0);
                self.respond(Msg::Response(r))?;
            }
        }
        match std::mem::replace(&mut self.s_state, SState::Command) {
            SState::Command => {
                let Msg::Command(c) = m else { unreachable!() };
                let left = match self.c_sent.get(i) {
                    Some(Msg::Command(_)) => self.auth_left.len(),
                    _ => 0,
                };
                match c.body {
                    CommandBody::Authenticate { .. } if left > 0 => {
                        self.s_state = SState::Auth(c.tag, left);
                        self.go_ahead()?;
                    }
                    CommandBody::Idle => {
                        self.s_state = SState::Idle(c.tag);
                        self.go_ahead()?;
                    }
                    _ => self.tagged(c.tag, false)?,
                }
            }
            SState::Auth(tag, left) => {
                if left > 1 {
                    self.s_state = SState::Auth(tag, left - 1);
                    self.go_ahead()?;
                } else {
                    self.tagged(tag, false)?;
                }
            }
            SState::Idle(tag) => self.tagged(tag, false)?,
        }
        Ok(())
    }

    // ----- world -----

    /// The connection is gone; the client starts over with what was not answered.
    fn reconnect(&mut self) -> R {
        self.ctx.fault("reset");
        self.ctx.log(|| "connection reset".into());
        // What did arrive before is what was sent, in order (checked on arrival). The rest is lost.
        self.q.clear();
        for l in &mut self.links {
            l.pending.clear();
            l.flushing = false;
            l.last_at = self.ctx.now_us;
            l.written = 0;
        }
        let again: Vec<Job> = self.outstanding.drain(..).map(|x| x.1).collect();
        for j in again.into_iter().rev() {
            // The tag got a suffix; shorten it again.
            let mut j = j;
            j.cmd.tag = Tag::unvalidated("r");
            self.script.push_front(j);
        }
        self.sending.clear();
        self.auth_left.clear();
        self.c_sent.clear();
        self.c_got.clear();
        self.s_sent.clear();
        self.s_got.clear();
        self.c_state = CState::Greeting;
        self.s_state = SState::Command;
        self.s_todo.clear();
        self.s_stopped = false;
        self.c_wake = false;
        self.c_rx = Rx::draw(self.ctx);
        self.s_rx = Rx::draw(self.ctx);
        self.greet()
    }
    fn greet(&mut self) -> R {
        let g = G::with(&mut self.ctx.t, self.cfg.clone()).greeting();
        self.respond(Msg::Greeting(g))
    }
    fn run(&mut self, jobs: usize, mut resets: usize) -> R {
        self.greet()?;
        let budget = 400_000.max(40_000 * jobs as u64);
        let mut n = 0u64;
        loop {
            if self.completed == jobs {
                break;
            }
            let Some(Reverse((at, _, ev))) = self.q.pop() else {
                fail!(
                    "session: deadlock",
                    "nothing is in flight, but {} of {jobs} commands are unanswered; client {:?} with {} fragments to send, client sent {:?}, server got {}",
                    jobs - self.completed,
                    self.c_state,
                    self.sending.len(),
                    self.c_sent.last(),
                    self.s_got.len()
                );
            };
            n += 1;
            ensure!(n < budget, "session: no progress", "{} of {jobs} commands unanswered after {n} events", jobs - self.completed);
            self.ctx.now_us = at;
            match ev {
                Ev::Flush(d) => self.flush(d),
                Ev::Deliver(C2S, b) => {
                    if self.s_stopped || self.ctx.t.chance(1, 24) {
                        // The server is busy; bytes pile up until it gets to run.
                        self.s_todo.extend_from_slice(&b);
                        if !self.s_stopped {
                            self.s_stopped = true;
                            self.ctx.fault("server_stalled");
                            let d = self.ctx.t.range(1, 5_000_000);
                            self.push(at + d, Ev::Wake(1));
                        }
                    } else {
                        self.s_rx.feed(&b);
                        self.server_poll()?;
                    }
                }
                Ev::Deliver(_, b) => {
                    self.c_rx.feed(&b);
                    if self.ctx.t.chance(1, 12) {
                        if !self.c_wake {
                            self.c_wake = true;
                            self.ctx.fault("client_stalled");
                            let d = self.ctx.t.range(1, 5_000_000);
                            self.push(at + d, Ev::Wake(0));
                        }
                    } else {
                        self.client_poll()?;
                        self.client_run()?;
                    }
                }
                Ev::Wake(0) => {
                    self.c_wake = false;
                    self.client_poll()?;
                    self.client_run()?;
                }
                Ev::Wake(_) => {
                    self.s_stopped = false;
                    let b = std::mem::take(&mut self.s_todo);
                    self.s_rx.feed(&b);
                    self.server_poll()?;
                }
            }
            if resets > 0 && self.ctx.t.chance(1, 40) && self.completed < jobs {
                resets -= 1;
                self.reconnect()?;
            }
        }
        Ok(())
    }
}

/// What the encoder hands to the application: lines and literals, each literal announced by the line before it.
pub fn check_fragments(frags: &[Fragment], m: &Msg) -> R {
    let mut all = vec![];
    let mut due: Option<(u32, bool)> = None;
    for (i, f) in frags.iter().enumerate() {
        match f {
            Fragment::Line { data } => {
                ensure!(due.is_none(), "fragments: announced literal missing", "{m:?}: line {:?} instead of a literal", esc(data));
                let body = data.strip_suffix(b"\r\n");
                ensure!(body.is_some(), "fragments: line does not end in CRLF", "{m:?}: line {:?}", esc(data));
                let body = body.unwrap();
                ensure!(!body.contains(&b'\n'), "fragments: line break within a line", "{m:?}: line {:?}", esc(data));
                due = lexref::announcement(body);
                if i + 1 == frags.len() {
                    ensure!(due.is_none(), "fragments: announced literal missing", "{m:?} ends in {:?}", esc(data));
                }
                all.extend_from_slice(data);
            }
            Fragment::Literal { data, mode } => {
                let want = Some((data.len() as u32, *mode == LiteralMode::NonSync));
                ensure!(due == want, "fragments: announcement and literal disagree", "{m:?}: announced {due:?}, literal is {want:?}");
                due = None;
                all.extend_from_slice(data);
                ensure!(i + 1 < frags.len(), "fragments: message ends in a literal", "{m:?}");
            }
        }
    }
    ensure!(due.is_none() && !frags.is_empty(), "fragments: incomplete message", "{m:?}");
    let dump = m.bytes();
    ensure!(dump == all, "fragments: dump differs from the fragments", "{:?} vs {:?}", esc(&dump), esc(&all));
    let ms = lexref::messages(&all);
    ensure!(ms == vec![(0, all.len())], "fragments: not one message", "{m:?} is framed as {ms:?} in {:?}", esc(&all));
    Ok(())
}

fn run_session(ctx: &mut Ctx, focus: Focus) -> R {
    let mut cfg = Cfg::draw(&mut ctx.t);
    if focus == Focus::Literals {
        cfg.lit = *ctx.t.pick(&[5, 8, 3]);
        cfg.nonsync = *ctx.t.pick(&[0, 2, 4, 8]);
    }
    let mut jobs = 1 + ctx.t.usize(6);
    if ctx.t.chance(1, 1000) {
        jobs = *ctx.t.pick(&[30, 140, 300]);
        (cfg.big, cfg.max_str, cfg.max_list) = (0, 3, 1);
        ctx.fault("long_session");
    }
    let mut script = VecDeque::new();
    for _ in 0..jobs {
        let mut g = G::with(&mut ctx.t, cfg.clone());
        let cmd = match focus {
            Focus::Responses => {
                let body = match g.t.below(6) {
                    0 => CommandBody::Idle,
                    1 => CommandBody::Authenticate { mechanism: g.auth_mechanism(), initial_response: None },
                    2 => CommandBody::Check,
                    _ => CommandBody::Noop,
                };
                Command { tag: g.tag(), body }
            }
            Focus::Literals => {
                let k = *g.t.pick(&[5u64, 17, 18, 9, 11, 14, 23, 27, 34, 36, 4, 31, 16]);
                Command { tag: g.tag(), body: g.command_body_kind(k) }
            }
            Focus::Commands => g.command(),
        };
        let auth = if matches!(cmd.body, CommandBody::Authenticate { .. }) { (0..g.t.usize(3)).map(|_| Msg::Auth(g.auth_data())).collect() } else { vec![] };
        script.push_back(Job { cmd, auth });
    }
    let window = 1 + ctx.t.usize(4);
    let resets = if ctx.t.chance(1, 4) { 1 + ctx.t.usize(2) } else { 0 };
    let link = |ctx: &mut Ctx| Link { profile: Profile::draw(ctx), pending: vec![], flushing: false, last_at: 0, written: 0 };
    let links = [link(ctx), link(ctx)];
    let c_rx = Rx::draw(ctx);
    let s_rx = Rx::draw(ctx);
    let reject_rate = if focus == Focus::Literals { *ctx.t.pick(&[0, 2, 8]) } else { *ctx.t.pick(&[0, 0, 2]) };
    let mut s = Session {
        ctx,
        cfg,
        focus,
        q: BinaryHeap::new(),
        seq: 0,
        links,
        c_rx,
        c_state: CState::Greeting,
        script,
        outstanding: VecDeque::new(),
        sending: VecDeque::new(),
        auth_left: VecDeque::new(),
        window,
        c_sent: vec![],
        c_got: vec![],
        rejected: 0,
        completed: 0,
        c_wake: false,
        s_rx,
        s_state: SState::Command,
        s_sent: vec![],
        s_got: vec![],
        reject_rate,
        s_stopped: false,
        s_todo: vec![],
    };
    s.run(jobs, resets)?;
    if s.resets_happened() {
        s.ctx.probe("resumed_after_reset");
    }
    Ok(())
}

impl Session<'_> {
    fn resets_happened(&self) -> bool {
        self.ctx.faults.contains_key("reset")
    }
}

pub fn c06(ctx: &mut Ctx) -> R {
    run_session(ctx, Focus::Commands)
}
pub fn c07(ctx: &mut Ctx) -> R {
    run_session(ctx, Focus::Responses)
}
pub fn c08(ctx: &mut Ctx) -> R {
    run_session(ctx, Focus::Literals)
}
