//! C28: how often the client is polled, and what wakes it.
use crate::client::{part, same_calls, same_wire, SIM};
use crate::one_of;
use crate::runner::{last_panic, panics, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, clock, Driven, End};
use crate::Property;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Last {
    /// The connection stays as it is.
    Open,
    /// close(), never answered, with writes blocked or not.
    Close { blocked: bool },
    /// The peer's close frame, but not yet the end of the stream.
    Peer,
    End { error: bool },
    Bad(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Waits {
    conf: Conf,
    steps: Vec<Step>,
    last: Last,
    /// Milliseconds that pass while nothing happens.
    naps: Vec<u32>,
}

/// Polls that so many moves of bytes and so many other happenings may cost.
fn allowed(moves: u64, happenings: u64) -> u64 {
    2 * moves + 10 * happenings
}

/// Nothing happens for a while.
fn nap(s: &mut Session, ms: u32, when: &str) -> Result<(), String> {
    let spurious = std::mem::replace(&mut s.exec.spurious, false);
    let (polls, moves) = (s.exec.polls, s.pipe.moves());
    let t = clock::now() + Duration::from_millis(ms as u64);
    loop {
        s.exec.idle()?;
        match clock::next_deadline() {
            Some(d) if d <= t => clock::advance_to(d),
            _ if clock::now() < t => clock::advance_to(t),
            _ => break,
        }
    }
    s.exec.idle()?;
    s.exec.spurious = spurious;
    if s.exec.polls > polls {
        return Err(format!("polled {} times in {ms} ms without a cause, {when}", s.exec.polls - polls));
    }
    if s.pipe.moves() > moves {
        return Err(format!("moves bytes without a cause, {when}"));
    }
    Ok(())
}

fn check(c: &Waits) -> CheckResult {
    let before = panics();
    let r = run(c);
    if panics() != before {
        return Err(format!("panic inside the client: {}", last_panic()));
    }
    r
}

fn run(c: &Waits) -> CheckResult {
    let mut cov = Covered::default();
    let mut i = Interp::new(Session::start(&c.conf)?);
    nap(&mut i.s, 30_000, "after connecting")?;
    let mut naps = c.naps.iter();
    let mut blocked = false;
    for (k, st) in c.steps.iter().enumerate() {
        let (polls, moves) = (i.s.exec.polls, i.s.pipe.moves());
        i.step(k, st)?;
        i.run()?;
        let (polls, moves) = (i.s.exec.polls - polls, i.s.pipe.moves() - moves);
        // A binary packet is one message for the header and each attachment.
        let happened = 4 + match st {
            Step::Event { args, inter, .. } => 4 + count(args) + inter.len() as u64,
            Step::Ack { args, inter, .. } => 4 + count(args) + inter.len() as u64,
            _ => 0,
        };
        if polls > allowed(moves, happened) {
            return Err(format!("step {k}, {st:?}: {polls} polls for {moves} moves of bytes"));
        }
        if let Step::Block(b) = st {
            blocked = *b;
        }
        if k % 3 == 0 {
            if let Some(ms) = naps.next() {
                let when = format!("after step {k}, {st:?} (writes blocked: {blocked})");
                nap(&mut i.s, *ms, &when)?;
                cov.label("nap-while-blocked", blocked);
            }
        }
    }
    let alive = i.s.exec.live_tasks() > 0;
    let ms = c.naps.first().copied().unwrap_or(500);
    match &c.last {
        Last::Open => (),
        Last::Close { blocked } => {
            i.s.pipe.block(*blocked);
            let mut client = i.s.client.take().unwrap();
            {
                let mut f = Driven::new(client.close());
                let polls = i.s.exec.polls;
                let moves = i.s.pipe.moves();
                let r = i.s.exec.drive(&mut f)?;
                let (polls, moves) = (i.s.exec.polls - polls, i.s.pipe.moves() - moves);
                // Blocked packets have been waiting for this.
                if polls > allowed(moves, 8 + c.steps.len() as u64) {
                    return Err(format!("close: {polls} polls for {moves} moves of bytes"));
                }
                if r.is_none() {
                    // Waiting for the peer, or to write, before the ten seconds are over.
                    nap(&mut i.s, ms.min(9_000), "while closing")?;
                    if f.woken() {
                        return Err("close is woken though nothing happens".into());
                    }
                    cov.label("nap-while-closing", true);
                }
            }
            i.s.client = Some(client);
            cov.nontrivial = true;
            return Ok(cov);
        }
        Last::Peer => i.s.pipe.feed(&sim::frame(true, sim::CLOSE, &[3, 232])),
        Last::End { error } => i.s.pipe.end(if *error { End::Error } else { End::Eof }),
        Last::Bad(b) => i.s.pipe.feed(&bad_bytes(b)),
    }
    if !matches!(c.last, Last::Open) {
        i.s.pipe.block(false);
        i.s.idle()?;
        nap(&mut i.s, ms, "after the end")?;
        cov.label("nap-after-the-end", alive);
        cov.nontrivial = true;
        return Ok(cov);
    }
    // What arrived meanwhile has had its effect: nothing sleeps through it.
    let o = i.finish(false)?;
    same_calls(&o)?;
    if !o.dead {
        same_wire(&o)?;
        if pongs(&o.wire) != o.pings {
            return Err(format!("{} pongs after {} pings", pongs(&o.wire), o.pings));
        }
    }
    cov.label("spurious-polls", c.conf.spurious);
    cov.nontrivial = !o.calls.is_empty() || !packets(&o.wire).is_empty();
    Ok(cov)
}

fn count(args: &[crate::gen::J]) -> u64 {
    format!("{args:?}").matches("Bin").count() as u64
}

fn strategy(t: Tier) -> BoxedStrategy<Waits> {
    let n = if t == Tier::Quick { 12 } else { 40 };
    let step = one_of![
        2 => set_event(),
        1 => set_fallback(),
        4 => event(),
        4 => emit(),
        3 => ack(1),
        2 => held(),
        2 => noise(),
        2 => any::<bool>().prop_map(Step::Block),
    ];
    let last = one_of![
        4 => Just(Last::Open),
        3 => any::<bool>().prop_map(|blocked| Last::Close { blocked }),
        1 => Just(Last::Peer),
        1 => any::<bool>().prop_map(|error| Last::End { error }),
        1 => bad().prop_map(Last::Bad),
    ];
    (conf(), vec(step, 0..n), last, vec(one_of![1 => 0u32..1000, 1 => 1000u32..200_000, 1 => Just(25_000u32), 1 => Just(3_600_000u32)], 1..4))
        .prop_map(|(conf, steps, last, naps)| Waits { conf, steps, last, naps })
        .boxed()
}

pub fn property(id: &str) -> Option<Property> {
    match id {
        "C28" => Some(Property {
            id: "C28",
            parts: vec![part!("waiting", "Random sessions with silences between the steps, while writes are blocked, while closing and after the end; polls are counted against the bytes moved, and the outcome is judged against the model, with polls for no reason in a quarter of the cases; non-trivial: something was handled or written, or the session closes or ends.", strategy, check, 300_000, 12_000_000)],
            known: vec![],
            assumptions: SIM,
        }),
        _ => None,
    }
}
