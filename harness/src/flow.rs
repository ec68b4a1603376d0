//! C13, C14, C17 while the server sends without a pause: what the client has
//! to write must get out all the same.
use crate::client::part;
use crate::gen::{J, S};
use crate::runner::{AnyPart, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, Driven, End, Reader};
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Special {
    Ping,
    /// An event whose handler replies.
    Event { args: Vec<J>, reply: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flooded {
    conf: Conf,
    kind: u8,
    emits: Vec<Step>,
    /// replies of the handlers
    replies: Vec<(Vec<S>, bool)>,
    specials: Vec<(u8, Special)>,
}

/// Everything to write comes up within so many messages,
const HEAD: usize = 64;
/// and must be written before so many more are taken. A fair client needs
/// about two messages for each write.
const PATIENCE: usize = 1000;

fn filler(kind: u8) -> Vec<u8> {
    match kind % 7 {
        0 => sim::frame(true, sim::TEXT, b"3"),
        1 => sim::frame(true, sim::PING, b"x"),
        2 => sim::frame(true, sim::PONG, b""),
        3 => sim::frame(true, sim::TEXT, b"40/x,"),
        4 => sim::frame(true, sim::TEXT, b"42/nobody,[\"msg\",1]"),
        5 => sim::frame(true, sim::TEXT, b"42/quiet,[\"msg\",1]"),
        _ => {
            let mut v = sim::frame(true, sim::TEXT, b"451-/quiet,[\"msg\",{\"_placeholder\":true,\"num\":0}]");
            v.extend(sim::frame(true, sim::BINARY, b"\x04abc"));
            v
        }
    }
}

struct Seen {
    /// what was written in time
    wire: Vec<Wire>,
    sends: Vec<Sent>,
    pings: usize,
    specials: usize,
    tail: usize,
    close: Option<Result<(), String>>,
}

fn run(c: &Flooded, close: bool) -> Result<Option<Seen>, String> {
    let mut i = Interp::new(Session::start(&c.conf)?);
    i.step(0, &Step::SetFallback { ns: 0, act: Act::Drop })?;
    for (k, (a, b)) in c.replies.iter().enumerate() {
        i.step(1, &Step::SetEvent { ns: 0, ev: k as u8, act: Act::Reply(a.clone(), *b) })?;
    }
    i.s.client().set_namespace_fallback_callback("/quiet", |_: &socket_io_client::protocol::Args, _| ());
    i.s.idle()?;
    let mut q: VecDeque<Vec<u8>> = VecDeque::new();
    let mut pings = 0;
    for at in 0..HEAD {
        for (k, (p, s)) in c.specials.iter().enumerate() {
            if *p as usize % HEAD != at {
                continue;
            }
            match s {
                Special::Ping => {
                    pings += 1;
                    q.push_back(sim::frame(true, sim::TEXT, b"2"));
                }
                Special::Event { args, reply } => {
                    let mut all = vec![J::Str(ev(*reply % 4).into()), J::U(k as u64)];
                    all.extend(args.iter().cloned());
                    let mut b = vec![];
                    for (op, p) in server_packet(false, "/", Some(k as u64), &all, 0, 0) {
                        b.extend(sim::frame(true, op, &p));
                    }
                    q.push_back(b);
                }
            }
        }
        q.push_back(filler(c.kind));
    }
    let mark = q.len() + PATIENCE;
    while q.len() < mark + 40 {
        q.push_back(filler(c.kind));
    }
    i.s.pipe.flood(q, mark);
    for (k, e) in c.emits.iter().enumerate() {
        i.step(100 + k, e)?;
    }
    let mut s = i.s;
    let closed = if close {
        // the call comes before the messages
        s.exec.tasks_first = false;
        let mut client = s.client.take().unwrap();
        let mut f = Driven::new(client.close());
        let mut r = s.exec.drive(&mut f)?;
        s.pipe.feed(&sim::frame(true, sim::CLOSE, &[3, 232]));
        s.pipe.end(End::Eof);
        if r.is_none() {
            r = s.exec.drive(&mut f)?;
        }
        drop(f);
        s.client = Some(client);
        Some(match r {
            Some(r) => r.map_err(|e| e.to_string()),
            None => Err("it still waits".into()),
        })
    } else {
        s.idle()?;
        None
    };
    let (used, Some(written)) = s.pipe.flooded() else {
        // the connection ended: other properties
        return Ok(None);
    };
    let mut r = Reader::default();
    let all = s.pipe.written();
    r.bytes(&all[..written])?;
    let Ok(wire) = read_wire(&r.frames, true) else { return Ok(None) };
    let w = lock(&s.world);
    let out = Seen { wire, sends: w.sends.clone(), pings, specials: c.specials.len(), tail: used, close: closed };
    drop(w);
    Ok(Some(out))
}

fn cover(o: &Seen) -> Covered {
    let mut cov = Covered::default();
    cov.label("emits", o.sends.iter().any(|s| matches!(s, Sent::Emit { .. })));
    cov.label("replies", o.sends.iter().any(|s| matches!(s, Sent::Reply { .. })));
    cov.label("pings", o.pings > 0);
    cov.label("specials", o.specials > 0);
    cov.nontrivial = o.tail >= PATIENCE;
    cov
}

fn c13_check(c: &Flooded) -> CheckResult {
    let Some(o) = run(c, false)? else { return Ok(Covered::trivial()) };
    let n = packets(&o.wire).len();
    if n != o.sends.len() {
        return Err(format!("of {} packets sent, {n} are on the wire when the client has read {PATIENCE} further messages", o.sends.len()));
    }
    let mut cov = cover(&o);
    cov.nontrivial &= n > 0;
    Ok(cov)
}

fn c14_check(c: &Flooded) -> CheckResult {
    let Some(o) = run(c, false)? else { return Ok(Covered::trivial()) };
    let n = pongs(&o.wire);
    if n != o.pings {
        return Err(format!("of {} pings, {n} are answered when the client has read {PATIENCE} further messages", o.pings));
    }
    let mut cov = cover(&o);
    cov.nontrivial &= n > 0;
    Ok(cov)
}

fn c17_check(c: &Flooded) -> CheckResult {
    let Some(o) = run(c, true)? else { return Ok(Covered::trivial()) };
    if !matches!(o.wire.last(), Some(Wire::Close(_))) {
        return Err(format!("no close frame when the client has read {PATIENCE} further messages: {:?}", o.wire.last()));
    }
    let emits = o.sends.iter().filter(|s| matches!(s, Sent::Emit { .. })).count();
    let n = packets(&o.wire).iter().filter(|p| !p.ack).count();
    if n != emits {
        return Err(format!("{emits} packets sent before close, {n} written before the close frame"));
    }
    match &o.close {
        Some(Ok(())) => (),
        r => return Err(format!("close gives {r:?} though the peer, after more messages, closed too")),
    }
    Ok(cover(&o))
}

fn strategy(_: Tier) -> BoxedStrategy<Flooded> {
    let special = one_of![2 => Just(Special::Ping), 2 => (j_args(), any::<u8>()).prop_map(|(args, reply)| Special::Event { args, reply })];
    let plan = one_of![3 => Just(vec![]), 1 => vec(1u16..400, 1..4)];
    (plan, any::<bool>(), any::<u8>(), vec(emit(), 0..4), vec((s_args(), any::<bool>()), 0..4), vec((any::<u8>(), special), 0..5))
        .prop_map(|(write_plan, tasks_first, kind, emits, replies, specials)| Flooded { conf: Conf { read_plan: vec![], write_plan, tasks_first, names: vec![], spurious: false }, kind, emits, replies, specials })
        .boxed()
}

pub fn part_of(id: &str) -> Box<dyn AnyPart> {
    match id {
        "C13" => part!("busy", "The server sends messages without a pause; what is sent must be written before the client has read a thousand further ones; non-trivial: at least one packet.", strategy, c13_check, 4000, 100_000),
        "C14" => part!("busy", "The server sends messages without a pause; pings must be answered before the client has read a thousand further ones; non-trivial: at least one ping.", strategy, c14_check, 4000, 100_000),
        _ => part!("busy", "The server sends messages without a pause; close must get its close frame out before the client has read a thousand further ones; all are non-trivial.", strategy, c17_check, 4000, 100_000),
    }
}
