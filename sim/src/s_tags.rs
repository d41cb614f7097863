//! Tags (C16): generators are created, used, moved and dropped in any order; no tag ever appears twice. (The same under
//! preemption of real threads: see ../../mirisim.)

use std::collections::{HashMap, VecDeque};

use imap_codec::imap_types::{
    IntoStatic,
    command::{Command, CommandBody},
    core::{Tag, TagGenerator},
    response::{Response, Status, Tagged},
};

use crate::{
    ctx::{Ctx, R, esc},
    ensure, fail,
    tape::Mix,
    wire::{Kind, Msg, Whole},
};

struct Seen(HashMap<String, (usize, usize)>);
impl Seen {
    fn new_tag(&mut self, generator: usize, n: usize, tag: &Tag) -> R {
        let s = tag.inner();
        ensure!(!s.is_empty() && s.bytes().all(|b| matches!(b, 0x21..=0x7e) && !b"(){%*\"\\+".contains(&b)), "tags: a generated tag is no tag", "{s:?}");
        if let Some((g, k)) = self.0.insert(s.to_string(), (generator, n)) {
            fail!("tags: the same tag is generated twice", "tag {} of generator {g} and tag {} of generator {generator} (of those created in this run, counted from 0)", k, n);
        }
        Ok(())
    }
}

pub fn c16(ctx: &mut Ctx) -> R {
    let mut seen = Seen(HashMap::new());
    let mut live: Vec<(usize, usize, TagGenerator)> = vec![];
    let mut made = 0;
    // Long histories: many generators, or many tags of one.
    let heavy = ctx.t.below(400);
    if heavy < 2 {
        let n = 66_000 + ctx.t.usize(8000);
        ctx.fault("long_history");
        if heavy == 0 {
            for g in 0..n {
                seen.new_tag(g, 0, &TagGenerator::new().generate())?;
            }
            made = n;
        } else {
            let (mut a, mut b) = (TagGenerator::new(), TagGenerator::new());
            for k in 0..n {
                seen.new_tag(0, k, &a.generate())?;
                if k % 97 == 0 {
                    seen.new_tag(1, k, &b.generate())?;
                }
            }
            made = 2;
        }
    }
    let bulk = ctx.t.chance(1, 6);
    // Clients that match responses to commands by tag, over one multiplexed proxy connection.
    let mut outstanding: VecDeque<(Tag<'static>, usize)> = VecDeque::new();
    let mut done = 0;
    let steps = 4 + ctx.t.usize(40);
    for _ in 0..steps {
        ctx.step();
        ctx.now_us += ctx.t.below(1000);
        match ctx.t.below(8) {
            0 | 1 => {
                let n = if bulk { 1 + ctx.t.usize(400) } else { 1 };
                for _ in 0..n {
                    live.push((made, 0, TagGenerator::new()));
                    made += 1;
                }
                ctx.log(|| format!("{n} new generators"));
            }
            2 if !live.is_empty() => {
                // A client goes away (and its generator with it).
                let i = ctx.t.usize(live.len());
                let (g, ..) = live.remove(i);
                ctx.fault("client_gone");
                ctx.log(|| format!("generator {g} is dropped"));
            }
            3 if !live.is_empty() => {
                let i = ctx.t.usize(live.len());
                let j = ctx.t.usize(live.len());
                live.swap(i, j);
            }
            _ if live.is_empty() => {}
            _ => {
                let i = ctx.t.usize(live.len());
                let n = if bulk { 1 + ctx.t.usize(300) } else { 1 + ctx.t.usize(3) };
                let (g, k, maker) = &mut live[i];
                for _ in 0..n {
                    let tag = maker.generate();
                    seen.new_tag(*g, *k, &tag)?;
                    *k += 1;
                    if outstanding.len() < 12 {
                        // Sent as a command; what the server reads is the tag.
                        let c = Command { tag: tag.clone(), body: CommandBody::Noop };
                        let m = Msg::Command(c);
                        let b = m.bytes();
                        let w = Kind::Command.decode_whole(&b);
                        ensure!(matches!(&w, Whole::Ok(v) if v.same(&m)), "tags: a generated tag is not understood", "{:?}", esc(&b));
                        outstanding.push_back((tag.into_static(), *g));
                    }
                }
                let (g, k) = (*g, *k);
                ctx.log(|| format!("generator {g}: {n} tags, {k} so far"));
            }
        }
        // The server answers in any order; the answer must find its command.
        while outstanding.len() > 6 {
            let i = ctx.t.usize(outstanding.len());
            let (tag, g) = outstanding.remove(i).unwrap();
            let m = Msg::Response(Response::Status(Status::Tagged(Tagged { tag: tag.clone(), body: imap_codec::imap_types::response::StatusBody { kind: imap_codec::imap_types::response::StatusKind::Ok, code: None, text: imap_codec::imap_types::core::Text::try_from("done").unwrap() } })));
            let Whole::Ok(Msg::Response(Response::Status(Status::Tagged(t)))) = Kind::Response.decode_whole(&m.bytes()) else { fail!("tags: an answer is not understood", "{:?}", esc(&m.bytes())) };
            let owners: Vec<usize> = outstanding.iter().filter(|o| o.0 == t.tag).map(|o| o.1).collect();
            ensure!(t.tag == tag && owners.is_empty(), "tags: an answer matches more than one command", "generators {g} and {owners:?}");
            done += 1;
        }
        let mut h = Mix::new();
        h.u(live.len().min(20) as u64).u(outstanding.len() as u64).u((made as u64).ilog2_or()).u((seen.0.len() as u64).ilog2_or());
        ctx.state(h.0);
    }
    if done > 0 {
        ctx.probe("answered");
    }
    ctx.nontrivial |= made > 1;
    Ok(())
}

trait Ilog {
    fn ilog2_or(self) -> u64;
}
impl Ilog for u64 {
    fn ilog2_or(self) -> u64 {
        if self == 0 { 0 } else { self.ilog2() as u64 + 1 }
    }
}
