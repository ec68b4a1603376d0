//! C23: using a client whose connection has ended. C24: several clients.
use crate::client::{part, same_calls, same_wire, Script, SIM};
use crate::runner::{last_panic, panics, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, Driven, End};
use crate::Property;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ending {
    /// A close frame, then the end of the stream.
    Peer { code: u16 },
    Eof,
    Error,
    WriteError,
    Violation(Bad),
    /// close(), answered.
    Close,
    /// close() that times out after ten seconds.
    Silence,
    /// close() begun and dropped.
    Abandon,
    /// The client is dropped.
    Drop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct After {
    conf: Conf,
    before: Vec<Step>,
    ending: Ending,
    after: Vec<Step>,
    /// Drop the client before this step, leaving the reply handles.
    drop_at: Option<u8>,
}

struct Ended {
    close: Option<String>,
    acted: usize,
    replied: bool,
    dropped: bool,
}

/// None: the connection has not ended (other properties).
fn run(c: &After, act: bool) -> Result<Option<Ended>, String> {
    let before = panics();
    let mut i = Interp::new(Session::start(&c.conf)?);
    for (k, st) in c.before.iter().enumerate() {
        i.step(k, st)?;
    }
    i.s.idle()?;
    if i.s.exec.live_tasks() == 0 {
        return Ok(None);
    }
    let mut closed = false;
    match &c.ending {
        Ending::Peer { code } => {
            i.s.feed(&[(sim::CLOSE, code.to_be_bytes().to_vec())]);
            i.s.pipe.end(End::Eof);
        }
        Ending::Eof => i.s.pipe.end(End::Eof),
        Ending::Error => i.s.pipe.end(End::Error),
        Ending::WriteError => {
            i.s.pipe.fail_writes();
            i.s.feed(&[(sim::TEXT, b"2".to_vec())]);
        }
        Ending::Violation(b) => i.s.pipe.feed(&bad_bytes(b)),
        Ending::Close | Ending::Silence | Ending::Abandon => {
            closed = true;
            let mut client = i.s.client.take().unwrap();
            let mut f = Driven::new(client.close());
            let mut r = i.s.exec.drive(&mut f)?;
            match c.ending {
                Ending::Close => {
                    i.s.pipe.feed(&sim::frame(true, sim::CLOSE, &[3, 232]));
                    i.s.pipe.end(End::Eof);
                    if r.is_none() {
                        r = i.s.exec.drive(&mut f)?;
                    }
                }
                Ending::Silence if r.is_none() => {
                    let t = sim::clock::now() + Duration::from_millis(10_001);
                    r = sim::pass_time(&mut i.s.exec, &mut f, t)?;
                }
                _ => (),
            }
            drop(f);
            i.s.client = Some(client);
            if r.is_none() && !matches!(c.ending, Ending::Abandon) {
                return Ok(None);
            }
        }
        Ending::Drop => i.s.client = None,
    }
    i.s.exec.idle()?;
    if panics() != before {
        return Err(format!("panic when the connection ends: {}", last_panic()));
    }
    if i.s.exec.live_tasks() > 0 {
        return Ok(None);
    }
    let world = i.s.world.clone();
    let count = || {
        let w = lock(&world);
        (w.calls.len(), w.acks.len())
    };
    let (calls, written) = (count(), i.s.pipe.written_from(0).len());
    let mut out = Ended { close: None, acted: 0, replied: false, dropped: i.s.client.is_none() };
    if act {
        for (k, st) in c.after.iter().enumerate() {
            if c.drop_at.map_or(false, |d| d as usize % c.after.len() == k) && i.s.client.is_some() {
                i.s.client = None;
                out.dropped = true;
            }
            let reply = matches!(st, Step::UseHeld { .. } | Step::DropHeld { .. });
            let feeds = matches!(st, Step::Event { .. } | Step::Ping(_));
            if i.s.client.is_none() && !reply && !feeds {
                continue;
            }
            out.replied |= matches!(st, Step::UseHeld { send: true, .. }) && !lock(&i.s.world).held.is_empty();
            i.step(c.before.len() + k, st)?;
            i.s.exec.idle()?;
            out.acted += !feeds as usize;
            if panics() != before {
                return Err(format!("panic after the connection has ended: {}", last_panic()));
            }
            if count() != calls {
                return Err(format!("a handler or callback runs after the connection has ended ({st:?})"));
            }
            if i.s.pipe.written_from(0).len() != written {
                return Err(format!("the client writes after its connection has ended ({st:?})"));
            }
        }
    }
    if i.s.client.is_some() {
        let what = |r: Option<Result<(), socket_io_client::Error>>| match r {
            None => "waits".to_string(),
            Some(Ok(())) => "success".to_string(),
            Some(Err(e)) => format!("error {e}"),
        };
        let first = what(i.s.close_now()?);
        if closed && first != "error Already closed" {
            return Err(format!("close, the second time: {first}"));
        }
        let second = what(i.s.close_now()?);
        if second != "error Already closed" {
            return Err(format!("close, after it said {first}: {second}"));
        }
        out.close = Some(first);
        if count() != calls || i.s.pipe.written_from(0).len() != written {
            return Err("close of an ended connection writes or runs a handler".into());
        }
    }
    if panics() != before {
        return Err(format!("panic after the connection has ended: {}", last_panic()));
    }
    Ok(Some(out))
}

fn after_check(c: &After) -> CheckResult {
    let mut cov = Covered::default();
    let Some(o) = run(c, true)? else { return Ok(cov) };
    if let Some(with) = &o.close {
        if let Some(Ended { close: Some(without), .. }) = run(c, false)? {
            if *with != without {
                return Err(format!("close reports {with:?} after the client was used, {without:?} if it was not"));
            }
        }
    }
    cov.label("reply-after-the-end", o.replied);
    cov.label("client-dropped", o.dropped);
    cov.label("close-abandoned", matches!(c.ending, Ending::Abandon));
    cov.label("close-timed-out", matches!(c.ending, Ending::Silence));
    cov.label("peer-closed", matches!(c.ending, Ending::Peer { .. }));
    cov.label("violation", matches!(c.ending, Ending::Violation(_)));
    cov.label("transport-failed", matches!(c.ending, Ending::Error | Ending::WriteError | Ending::Eof));
    cov.nontrivial = o.acted > 0;
    Ok(cov)
}

fn after_strategy(t: Tier) -> BoxedStrategy<After> {
    let before = one_of![3 => set_event(), 2 => set_fallback(), 6 => event(), 3 => emit(), 2 => held(), 4 => Just(Step::Run), 1 => noise(), 1 => any::<bool>().prop_map(Step::Block)];
    let after = one_of![4 => emit(), 6 => held(), 2 => set_event(), 2 => set_fallback(), 2 => clears(), 2 => event(), 1 => any::<bool>().prop_map(Step::Ping)];
    let ending = one_of![
        2 => (1000u16..1004).prop_map(|code| Ending::Peer { code }),
        1 => Just(Ending::Eof),
        1 => Just(Ending::Error),
        1 => Just(Ending::WriteError),
        3 => bad().prop_map(Ending::Violation),
        2 => Just(Ending::Close),
        1 => Just(Ending::Silence),
        1 => Just(Ending::Abandon),
        1 => Just(Ending::Drop),
    ];
    let n = if t == Tier::Quick { 14 } else { 40 };
    (conf(), (any::<u8>(), s_args()), vec(before, 0..n), ending, vec(after, 1..12), prop::option::weighted(0.3, any::<u8>()))
        .prop_map(|(conf, (ev, _), before, ending, after, drop_at)| {
            let mut all = vec![Step::SetFallback { ns: 0, act: Act::Hold }, Step::SetFallback { ns: ev, act: Act::Hold }];
            all.extend(before);
            After { conf, before: all, ending, after, drop_at }
        })
        .boxed()
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Several {
    clients: Vec<Script>,
    /// Who goes next.
    order: Vec<u8>,
    /// Whether only a part of what a step sends arrives at first.
    #[serde(default)]
    cuts: Vec<u8>,
}

fn judge(o: &Outcome) -> Result<(), String> {
    same_calls(o)?;
    if o.acks != o.want_acks {
        return Err(format!("ack callbacks that ran: {:?}, due: {:?}", o.acks, o.want_acks));
    }
    if !o.dead {
        same_wire(o)?;
        if pongs(&o.wire) != o.pings {
            return Err(format!("{} pongs after {} pings", pongs(&o.wire), o.pings));
        }
    }
    match &o.close {
        None if o.dead => Err("close waits after a protocol violation".into()),
        Some(r) if !o.dead => Err(format!("close of a live connection returns at once: {r:?}")),
        _ => Ok(()),
    }
}

fn several_check(c: &Several) -> CheckResult {
    let before = panics();
    let mut clients = vec![];
    for s in &c.clients {
        clients.push((s, Interp::new(Session::start(&s.conf)?), 0, false));
    }
    let (mut turn, mut halves) = (0, 0);
    loop {
        let open: Vec<usize> = (0..clients.len()).filter(|k| clients[*k].2 < clients[*k].0.steps.len()).collect();
        if open.is_empty() {
            break;
        }
        let pick = c.order.get(turn).copied().unwrap_or(turn as u8);
        turn += 1;
        let (s, i, at, half) = &mut clients[open[pick as usize % open.len()]];
        if std::mem::take(half) {
            i.other_half()?;
        }
        i.step(*at, &s.steps[*at])?;
        // Now and then the others go on while a message is half delivered.
        let cut = c.cuts.get(*at).copied().unwrap_or(0);
        if cut % 2 == 1 {
            *half = i.half(cut / 2)?;
            halves += *half as usize;
        }
        *at += 1;
    }
    let mut cov = Covered::default();
    let mut active = 0;
    for (k, (s, mut i, _, half)) in clients.into_iter().enumerate() {
        if half {
            i.other_half()?;
        }
        let o = i.finish(true)?;
        let together = judge(&o);
        if panics() != before {
            return Err(format!("panic inside a client: {}", last_panic()));
        }
        if let Err(e) = together {
            // Alone, too? Then it is not about the others.
            let mut i = Interp::new(Session::start(&s.conf)?);
            for (k, st) in s.steps.iter().enumerate() {
                i.step(k, st)?;
            }
            if judge(&i.finish(true)?).is_ok() {
                return Err(format!("client {k}, right when it is alone, is not with others: {e}"));
            }
        }
        active += (!o.calls.is_empty() || !o.acks.is_empty() || !packets(&o.wire).is_empty()) as usize;
        cov.label("one-ended-early", o.dead);
        cov.label("handler-ran", !o.calls.is_empty());
        cov.label("ack-delivered", !o.acks.is_empty());
    }
    cov.label("half-delivered", halves > 0);
    cov.label("three-clients", c.clients.len() > 2);
    cov.nontrivial = active > 1;
    Ok(cov)
}

fn several_strategy(t: Tier) -> BoxedStrategy<Several> {
    let step = one_of![
        4 => set_event(),
        2 => set_fallback(),
        2 => clears(),
        5 => event(),
        4 => emit(),
        4 => ack(1),
        2 => held(),
        5 => Just(Step::Run),
        2 => noise(),
        1 => any::<bool>().prop_map(Step::Block),
    ];
    let n = if t == Tier::Quick { 16 } else { 40 };
    let script = (conf(), vec(one_of![2 => set_event(), 1 => set_fallback()], 0..4), vec(step, 1..n), prop::option::weighted(0.1, bad())).prop_map(|(conf, mut steps, b, bad)| {
        steps.extend(b);
        steps.extend(bad.map(Step::Bad));
        Script { conf, steps }
    });
    (vec(script, 2..4), vec(any::<u8>(), 0..80), vec(one_of![1 => Just(0u8), 1 => any::<u8>()], 0..n)).prop_map(|(mut clients, order, cuts)| {
        // One set of names, as names belong to the thread.
        let names = clients[0].conf.names.clone();
        clients.iter_mut().for_each(|s| s.conf.names = names.clone());
        Several { clients, order, cuts }
    }).boxed()
}

pub fn property(id: &str) -> Option<Property> {
    let p = |id, parts| Some(Property { id, parts, known: vec![], assumptions: SIM });
    match id {
        "C23" => p("C23", vec![part!("ended", "Random sessions brought to an end in nine ways, then further calls, replies and messages; non-trivial: at least one call or reply after the end.", after_strategy, after_check, 450_000, 18_000_000)]),
        "C24" => p("C24", vec![part!("several", "Two or three clients with histories of their own, interleaved at random, each against its own model; non-trivial: at least two clients did something.", several_strategy, several_check, 300_000, 12_000_000)]),
        _ => None,
    }
}
