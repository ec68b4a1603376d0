//! C27: messages that arrive while the client is closing.
use crate::client::{part, same_calls, SIM};
use crate::one_of;
use crate::runner::{last_panic, panics, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, Driven, End, Frame};
use crate::Property;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use socket_io_client::Error;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Finish {
    /// A close frame, in one chunk with what was sent before it or not, then
    /// the end of the stream.
    Close { code: u16, same_chunk: bool },
    /// The stream just stays open.
    Silence,
    Error,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flight {
    conf: Conf,
    before: Vec<Step>,
    /// Fed, but not or only partly read when close is called.
    unread: Vec<Step>,
    cut: Option<u8>,
    /// Writes are blocked when close is called, and for how many steps.
    blocked: Option<u8>,
    during: Vec<Step>,
    cuts: Vec<u8>,
    finish: Finish,
}

fn check(c: &Flight) -> CheckResult {
    let before = panics();
    let r = run(c);
    if panics() != before {
        return Err(format!("panic inside the client: {}", last_panic()));
    }
    r
}

fn run(c: &Flight) -> CheckResult {
    let mut cov = Covered::default();
    let mut i = Interp::new(Session::start(&c.conf)?);
    let mut at = 0;
    for st in &c.before {
        i.step(at, st)?;
        at += 1;
    }
    i.run()?;
    if i.s.exec.live_tasks() == 0 {
        return Ok(cov); // other properties
    }
    let handled = i.out.want_calls.len() + i.out.want_acks.len();
    for st in &c.unread {
        i.step(at, st)?;
        at += 1;
    }
    let mut half = match c.cut {
        Some(cut) => i.half(cut)?,
        None => false,
    };
    cov.label("half-delivered-at-close", half);
    i.s.pipe.block(c.blocked.is_some());
    let mut client = i.s.client.take().unwrap();
    let mut early = None;
    let (outcome, result, frames) = {
        let mut f = Driven::new(client.close());
        let t0 = sim::clock::now();
        early = early.or(i.s.exec.drive(&mut f)?);
        for (k, st) in c.during.iter().enumerate() {
            if c.blocked == Some(k as u8) {
                i.s.pipe.block(false);
            }
            if std::mem::take(&mut half) {
                i.other_half()?;
            }
            i.step(at, st)?;
            at += 1;
            let cut = c.cuts.get(k).copied().unwrap_or(0);
            if cut % 4 == 1 {
                half = i.half(cut / 4)?;
            }
            if early.is_none() {
                early = i.s.exec.drive(&mut f)?;
            }
        }
        i.s.pipe.block(false);
        if half {
            i.other_half()?;
        }
        match &c.finish {
            Finish::Close { code, same_chunk } => {
                if !*same_chunk {
                    i.run()?;
                }
                i.s.pipe.feed(&sim::frame(true, sim::CLOSE, &if *code == 0 { vec![] } else { code.to_be_bytes().to_vec() }));
                i.s.pipe.end(End::Eof);
            }
            Finish::Error => {
                i.run()?;
                i.s.pipe.end(End::Error);
            }
            Finish::Silence => i.run()?,
        }
        i.run()?;
        if early.is_none() {
            early = i.s.exec.drive(&mut f)?;
        }
        if early.is_none() && matches!(c.finish, Finish::Silence) {
            early = sim::pass_time(&mut i.s.exec, &mut f, t0 + Duration::from_millis(10_000))?;
        }
        drop(f);
        i.s.client = Some(client);
        i.s.reader.read(&i.s.pipe)?;
        let frames = i.s.reader.frames.clone();
        (i.finish(false)?, early, frames)
    };
    let o = outcome;
    same_calls(&o)?;
    if o.acks != o.want_acks {
        return Err(format!("ack callbacks that ran: {:?}, due: {:?}", o.acks, o.want_acks));
    }
    match (&result, &c.finish) {
        (None, _) => return Err("close still waits".into()),
        (Some(Err(Error::AlreadyClosed)), _) => return Err("the first close reports AlreadyClosed".into()),
        (Some(Err(Error::Timeout(_))), Finish::Silence) if !o.dead => (),
        (Some(Err(Error::Timeout(_))), _) => return Err(format!("close reports a timeout after {:?} (protocol violation: {})", c.finish, o.dead)),
        (Some(Ok(())), Finish::Close { .. }) if !o.dead => (),
        (Some(Err(_)), Finish::Error) => (),
        (Some(Err(_)), _) if o.dead => (),
        (r, f) => return Err(format!("close gives {r:?} after {f:?} (protocol violation: {})", o.dead)),
    }
    if let Some(k) = frames.iter().position(|f| matches!(f, Frame::Close(_))) {
        if k + 1 != frames.len() {
            return Err(format!("written after the close frame: {:?}", &frames[k + 1..]));
        }
    }
    let late = o.want_calls.len() + o.want_acks.len() - handled;
    cov.label("handled-while-closing", late > 0);
    cov.label("ack-while-closing", !o.want_acks.is_empty());
    cov.label("violation-while-closing", o.dead);
    cov.label("binary", o.delivered_binary);
    cov.label("blocked-while-closing", c.blocked.is_some());
    cov.nontrivial = late > 0;
    Ok(cov)
}

fn strategy(t: Tier) -> BoxedStrategy<Flight> {
    let n = if t == Tier::Quick { 8 } else { 30 };
    let before = one_of![
        3 => set_event(),
        2 => set_fallback(),
        1 => clears(),
        2 => event(),
        5 => emit(),
        1 => ack(0),
        3 => Just(Step::Run),
        1 => noise(),
    ];
    let inbound = || one_of![
        6 => event(),
        5 => ack(0),
        2 => noise(),
        1 => held(),
    ];
    let during = one_of![12 => inbound(), 3 => Just(Step::Run)];
    let finish = one_of![
        6 => (prop::sample::select(vec![0u16, 1000, 1001, 4999]), any::<bool>()).prop_map(|(code, same_chunk)| Finish::Close { code, same_chunk }),
        1 => Just(Finish::Silence),
        1 => Just(Finish::Error),
    ];
    (conf(), vec(before, 1..n + 4), vec(inbound(), 0..3), prop::option::of(any::<u8>()), prop::option::weighted(0.2, 0u8..4), (vec(during, 0..n), prop::option::weighted(0.12, bad())), vec(one_of![2 => Just(0u8), 1 => any::<u8>()], 0..n), finish)
        .prop_map(|(conf, mut before, unread, cut, blocked, (mut during, bad), cuts, finish)| {
            before.insert(0, Step::SetFallback { ns: 0, act: Act::Hold });
            during.extend(bad.map(Step::Bad));
            Flight { conf, before, unread, cut, blocked, during, cuts, finish }
        })
        .boxed()
}

pub fn property(id: &str) -> Option<Property> {
    match id {
        "C27" => Some(Property {
            id: "C27",
            parts: vec![part!("closing", "Random sessions; close is called with messages unread, half delivered or still to come, in any chunks, with writes blocked for a while, and ended by the peer's close frame, silence, an error or a violation; handlers and callbacks judged against the model; non-trivial: at least one handler or callback was due after close was called.", strategy, check, 250_000, 16_000_000)],
            known: vec![],
            assumptions: SIM,
        }),
        _ => None,
    }
}
