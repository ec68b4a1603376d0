//! C11-C14, C18, C21: scripted sessions judged facet by facet.
use crate::runner::{panics, last_panic, CheckResult, Covered, Part, Tier};
use crate::gen;
use crate::session::*;
use crate::Property;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub conf: Conf,
    pub steps: Vec<Step>,
}

fn play(s: &Script, close: bool) -> Result<Outcome, String> {
    let mut i = Interp::new(Session::start(&s.conf)?);
    for (k, st) in s.steps.iter().enumerate() {
        i.step(k, st)?;
    }
    i.finish(close)
}

fn script(setup: BoxedStrategy<Vec<Step>>, step: BoxedStrategy<Step>, t: Tier) -> BoxedStrategy<Script> {
    let n = if t == Tier::Quick { 24 } else { 60 };
    (conf(), setup, vec(step, 1..n))
        .prop_map(|(conf, mut a, b)| {
            a.extend(b);
            Script { conf, steps: a }
        })
        .boxed()
}

fn show<T: std::fmt::Debug>(v: &[T]) -> String {
    format!("{v:?}")
}

// ---------------------------------------------------------------- C11

pub fn same_calls(o: &Outcome) -> Result<(), String> {
    for (i, w) in o.want_calls.iter().enumerate() {
        match o.calls.get(i) {
            Some(c) if c.handler == w.handler && c.args == w.args => (),
            Some(c) => return Err(format!("handler call {i} is {c:?}, due is {w:?} (handlers are named by the step that set them)")),
            None => return Err(format!("{} handler calls, due are {}: missing {w:?}", o.calls.len(), o.want_calls.len())),
        }
    }
    if o.calls.len() > o.want_calls.len() {
        return Err(format!("handler runs though none is due: {:?}", o.calls[o.want_calls.len()]));
    }
    if let Some(b) = &o.bad_args {
        return Err(b.clone());
    }
    Ok(())
}

fn c11_check(s: &Script) -> CheckResult {
    let o = play(s, false)?;
    same_calls(&o)?;
    let mut cov = Covered::default();
    cov.label("handler-ran", !o.calls.is_empty());
    cov.label("event-without-handler", o.events.len() > o.want_calls.len());
    cov.label("handlers-changed-after-events", o.handler_changes_between_events);
    cov.label("binary", o.delivered_binary);
    let fb = o.want_calls.iter().any(|c| matches!(s.steps[c.handler], Step::SetFallback { .. }));
    cov.label("fallback-ran", fb);
    cov.nontrivial = o.calls.len() > 1;
    Ok(cov)
}

fn c11_strategy(t: Tier) -> BoxedStrategy<Script> {
    let step = one_of![
        4 => set_event(),
        2 => set_fallback(),
        4 => clears(),
        14 => event(),
        6 => Just(Step::Run),
        1 => noise(),
        1 => emit(),
    ];
    script(vec(one_of![3 => set_event(), 1 => set_fallback()], 0..5).boxed(), step.boxed(), t)
}

// ---------------------------------------------------------------- C12

fn c12_check(s: &Script) -> CheckResult {
    let o = play(s, false)?;
    for (i, w) in o.want_acks.iter().enumerate() {
        match o.acks.get(i) {
            Some(c) if c == w => (),
            Some(c) => return Err(format!("ack callback call {i} is {c:?}, due is {w:?} (callbacks are named by the step of their emit)")),
            None => return Err(format!("{} ack callback calls, due are {}: missing {w:?}", o.acks.len(), o.want_acks.len())),
        }
    }
    if o.acks.len() > o.want_acks.len() {
        return Err(format!("ack callback runs though none is due: {:?}", o.acks[o.want_acks.len()]));
    }
    // Ids on the wire.
    let mut ids: BTreeMap<u64, u64> = BTreeMap::new();
    let mut cov = Covered::default();
    for p in packets(&o.wire) {
        if p.ack {
            continue;
        }
        let Some(step) = p.args.get(1).and_then(Value::as_u64) else { continue };
        let Some(Step::Emit { cb, .. }) = s.steps.get(step as usize) else { continue };
        match (cb, p.id) {
            (true, Some(id)) => {
                if let Some(other) = ids.insert(id, step) {
                    return Err(format!("the emits of steps {other} and {step} carry the same id {id}"));
                }
            }
            (true, None) => return Err(format!("the emit of step {step} asks for an ack but carries no id")),
            (false, Some(id)) => return Err(format!("the emit of step {step} asks for no ack but carries id {id}")),
            (false, None) => (),
        }
    }
    cov.label("ack-delivered", !o.acks.is_empty());
    cov.label("two-acks", o.acks.len() > 1);
    cov.label("empty-ack", o.acks.iter().any(|a| a.args.is_empty()));
    cov.label("wrong-or-repeated-ack", o.acks_twisted > 0);
    cov.label("session-ended-by-ack", o.dead);
    let order: Vec<usize> = o.acks.iter().map(|a| a.emit).collect();
    cov.label("acks-out-of-order", order.windows(2).any(|w| w[0] > w[1]));
    cov.nontrivial = !o.acks.is_empty();
    Ok(cov)
}

fn c12_strategy(t: Tier) -> BoxedStrategy<Script> {
    let emit_cb = (n(), e(), any::<bool>(), s_args(), one_of![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(ns, ev, binary, args, drop)| Step::Emit { ns, ev, binary, cb: true, args, drop });
    let step = one_of![
        4 => emit_cb,
        2 => emit(),
        10 => ack(2),
        6 => Just(Step::Run),
        2 => event(),
        2 => clears(),
        1 => set_event(),
        1 => set_fallback(),
        1 => noise(),
    ];
    script(vec(one_of![1 => set_event(), 1 => set_fallback()], 0..2).boxed(), step.boxed(), t)
}

// ---------------------------------------------------------------- C13

/// The packet that must be on the wire for something sent.
#[allow(clippy::type_complexity)]
fn expected(sent: &Sent, o: &Outcome) -> Result<(bool, String, Option<u64>, bool, Vec<Value>, usize), String> {
    Ok(match sent {
        Sent::Emit { ns, name, args, cb, files, .. } => {
            let mut all = vec![Value::String(name.clone())];
            all.extend(args.iter().cloned());
            (false, ns.clone(), None, *cb, all, *files)
        }
        Sent::Reply { tag, args, files } => {
            let e = o.events.iter().find(|e| e.tag.is_some() && e.tag == *tag).ok_or("a reply to no event")?;
            (true, e.ns.clone(), e.id, e.id.is_some(), args.clone(), *files)
        }
    })
}

/// The packets on the wire are those sent, in order. None: cannot be judged.
pub fn same_wire(o: &Outcome) -> Result<Option<()>, String> {
    if let Some(e) = &o.wire_error {
        return Err(e.clone());
    }
    let wire = packets(&o.wire);
    for (i, sent) in o.sends.iter().enumerate() {
        let Some(p) = wire.get(i) else {
            return Err(format!("{} packets on the wire, {} sent: missing {sent:?}", wire.len(), o.sends.len()));
        };
        let (ack, ns, id, has_id, args, files) = match expected(sent, o) {
            Ok(x) => x,
            // a handler saw wrong arguments or got a handle it should not
            // have: other properties
            Err(_) => return Ok(None),
        };
        let same_id = if ack { p.id == id } else { p.id.is_some() == has_id };
        if p.ack != ack || p.ns != ns || !same_id || p.args != args || p.attachments != files {
            return Err(format!("packet {i} on the wire is {p:?}, sent was {sent:?}"));
        }
    }
    if wire.len() > o.sends.len() {
        return Err(format!("packet on the wire that was never sent: {:?}", wire[o.sends.len()]));
    }
    Ok(Some(()))
}

fn c13_check(s: &Script) -> CheckResult {
    let o = play(s, false)?;
    if same_wire(&o)?.is_none() {
        return Ok(Covered::trivial());
    }
    let wire = packets(&o.wire);
    for (sends, packets, _, _, blocked) in &o.quiet {
        if packets > sends || !blocked && packets != sends {
            return Err(format!("{packets} packets on the wire when {sends} were sent and nothing moves (writes blocked: {blocked})"));
        }
    }
    let mut cov = Covered::default();
    cov.label("several-packets", wire.len() > 1);
    cov.label("attachments", wire.iter().any(|p| p.attachments > 0));
    cov.label("reply-among-emits", wire.iter().any(|p| p.ack) && wire.iter().any(|p| !p.ack));
    cov.label("sent-while-blocked", o.blocked_sends);
    cov.label("pong-between", pongs(&o.wire) > 0);
    cov.label("built-not-sent", s.steps.iter().any(|s| matches!(s, Step::Emit { drop: 1..=2, .. })));
    cov.nontrivial = wire.len() > 1;
    Ok(cov)
}

fn c13_strategy(t: Tier) -> BoxedStrategy<Script> {
    let step = one_of![
        10 => emit(),
        5 => event(),
        3 => held(),
        5 => Just(Step::Run),
        3 => any::<bool>().prop_map(Step::Block),
        3 => noise(),
        1 => clears(),
    ];
    script(vec(one_of![2 => set_event(), 1 => set_fallback()], 0..4).boxed(), step.boxed(), t)
}

// ---------------------------------------------------------------- C14

fn c14_check(s: &Script) -> CheckResult {
    let o = play(s, false)?;
    if o.wire_error.is_some() {
        return Ok(Covered::trivial());
    }
    for (_, _, pings, pongs, blocked) in &o.quiet {
        if pongs > pings || !blocked && pongs != pings {
            return Err(format!("{pongs} pongs on the wire after {pings} pings when nothing moves (writes blocked: {blocked})"));
        }
    }
    if pongs(&o.wire) != o.pings {
        return Err(format!("{} pongs on the wire at the end after {} pings", pongs(&o.wire), o.pings));
    }
    if let Err(e) = same_calls(&o) {
        // Did the pings and pongs disturb it, or is it broken anyway?
        let mut calm = s.clone();
        for st in &mut calm.steps {
            match st {
                Step::Event { inter, .. } | Step::Ack { inter, .. } => inter.clear(),
                Step::Ping(_) | Step::Pong => *st = Step::Run,
                _ => (),
            }
        }
        if same_calls(&play(&calm, false)?).is_ok() {
            return Err(format!("pings or pongs disturb a packet: {e}"));
        }
    }
    let mut cov = Covered::default();
    cov.label("ping", o.pings > 0);
    cov.label("ping-inside-binary-packet", o.ping_inside_binary);
    cov.label("several-pings", o.pings > 2);
    cov.label("packets-sent", !packets(&o.wire).is_empty());
    cov.nontrivial = o.pings > 0;
    Ok(cov)
}

fn c14_strategy(t: Tier) -> BoxedStrategy<Script> {
    let binary_event = (n(), e(), crate::gen::opt_id(), vec(crate::gen::bytes(5).prop_map(crate::gen::J::Bin), 1..4), any::<u8>(), vec((any::<u8>(), any::<u8>()), 0..4))
        .prop_map(|(ns, ev, id, args, extra, inter)| Step::Event { ns, ev, id, args, extra, style: 0, inter });
    let step = one_of![
        6 => any::<bool>().prop_map(Step::Ping),
        2 => Just(Step::Pong),
        4 => event(),
        6 => binary_event,
        3 => emit(),
        5 => Just(Step::Run),
        1 => any::<bool>().prop_map(Step::Block),
        2 => ack(0),
        2 => noise(),
        1 => clears(),
        1 => set_event(),
    ];
    script(vec(one_of![2 => set_event(), 2 => set_fallback()], 0..4).boxed(), step.boxed(), t)
}

// ---------------------------------------------------------------- C18

fn c18_check(s: &Script) -> CheckResult {
    let before = panics();
    let mut i = Interp::new(Session::start(&s.conf)?);
    for (k, st) in s.steps.iter().enumerate() {
        i.step(k, st)?;
    }
    // A good connection answers a ping at the end.
    i.run()?;
    i.step(s.steps.len(), &Step::Ping(false))?;
    let o = i.finish(true)?;
    if panics() != before {
        return Err(format!("panic inside the client: {}", last_panic()));
    }
    same_calls(&o)?;
    if o.acks != o.want_acks {
        return Err(format!("ack callbacks that ran: {}, due: {}", show(&o.acks), show(&o.want_acks)));
    }
    if o.dead {
        match &o.close {
            None => return Err("close waits although the connection ended with a protocol violation".into()),
            Some(Ok(())) => return Err("close reports success after a protocol violation".into()),
            Some(Err(e)) if e == "Already closed" => return Err("close reports AlreadyClosed after a protocol violation".into()),
            Some(Err(_)) => (),
        }
    } else {
        if let Some(r) = &o.close {
            return Err(format!("the connection ended without a violation: close gives {r:?}"));
        }
        if o.wire_error.is_none() && pongs(&o.wire) != o.pings {
            return Err(format!("the connection does not answer a ping any more, without a violation ({} pongs, {} pings)", pongs(&o.wire), o.pings));
        }
    }
    let mut cov = Covered::default();
    cov.label("violation", o.dead);
    cov.label("calls-before-violation", o.dead && !o.calls.is_empty());
    cov.label("messages-after-violation", o.after_bad > 0);
    cov.label("no-violation", !o.dead);
    cov.nontrivial = o.dead && (!o.calls.is_empty() || o.after_bad > 0);
    Ok(cov)
}

fn c18_strategy(t: Tier) -> BoxedStrategy<Script> {
    let good = || {
        one_of![
            8 => event(),
            2 => emit(),
            3 => ack(0),
            3 => Just(Step::Run),
            3 => noise(),
            1 => set_event(),
            1 => clears(),
            1 => held(),
        ]
    };
    let n = if t == Tier::Quick { 10 } else { 30 };
    let setup = vec(one_of![3 => set_event(), 2 => set_fallback()], 1..5);
    (conf(), setup, vec(good(), 0..n), one_of![9 => bad().prop_map(Some), 1 => Just(None)], vec(one_of![4 => good(), 1 => bad().prop_map(Step::Bad)], 0..5), any::<bool>())
        .prop_map(|(conf, mut a, b, bad, c, fallback)| {
            if fallback {
                a.push(Step::SetFallback { ns: 0, act: Act::Drop });
            }
            a.extend(b);
            if let Some(bad) = bad {
                a.push(Step::Bad(bad));
                a.extend(c);
            }
            Script { conf, steps: a }
        })
        .boxed()
}

// ---------------------------------------------------------------- C21

fn c21_check(s: &Script) -> CheckResult {
    let o = play(s, false)?;
    let mut cov = Covered::default();
    // Handles are given exactly for events with an id.
    for c in &o.calls {
        let Some(e) = o.events.iter().find(|e| e.args == c.args) else { continue };
        let any_with = o.events.iter().any(|x| x.args == c.args && x.id.is_some() == c.has_ack);
        if !any_with {
            return Err(format!("event {e:?}: the handler's reply handle is {}", if c.has_ack { "present" } else { "missing" }));
        }
    }
    if o.wire_error.is_some() {
        return Ok(cov);
    }
    let mut want: Vec<String> = vec![];
    for sent in &o.sends {
        if let Sent::Reply { tag, args, files } = sent {
            let Some(e) = o.events.iter().find(|e| e.tag.is_some() && e.tag == *tag) else { return Ok(cov) };
            want.push(format!("{:?} {:?} {} with {files} attachments", e.ns, e.id, Value::Array(args.clone())));
        }
    }
    let mut got: Vec<String> = packets(&o.wire).iter().filter(|p| p.ack).map(|p| format!("{:?} {:?} {} with {} attachments", p.ns, p.id, Value::Array(p.args.clone()), p.attachments)).collect();
    let (g, w) = (got.clone(), want.clone());
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("acknowledgements on the wire: {g:?}; replies made: {w:?}"));
    }
    cov.label("reply", !got.is_empty());
    cov.label("several-replies", got.len() > 1);
    cov.label("binary-reply", packets(&o.wire).iter().any(|p| p.ack && p.attachments > 0));
    cov.label("namespaced-reply", packets(&o.wire).iter().any(|p| p.ack && p.ns != "/"));
    cov.label("event-without-id", o.events.iter().any(|e| e.id.is_none()));
    cov.label("id-without-reply", o.events.iter().filter(|e| e.id.is_some()).count() > got.len());
    cov.nontrivial = !got.is_empty();
    Ok(cov)
}

fn c21_strategy(t: Tier) -> BoxedStrategy<Script> {
    let step = one_of![
        12 => event(),
        6 => held(),
        4 => Just(Step::Run),
        2 => set_event(),
        1 => set_fallback(),
        1 => emit(),
        1 => noise(),
        1 => clears(),
    ];
    script(vec(one_of![3 => set_event(), 2 => set_fallback()], 1..5).boxed(), step.boxed(), t)
}

// ---------------------------------------------------------------- large and long sessions

/// A script with repeated steps.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blocks {
    conf: Conf,
    blocks: Vec<(u32, Step)>,
}

impl Blocks {
    fn script(&self) -> Script {
        let mut steps = vec![];
        for (n, s) in &self.blocks {
            for _ in 0..*n {
                steps.push(s.clone());
            }
        }
        Script { conf: self.conf.clone(), steps }
    }
}

/// Roughly the work one such step makes.
fn heft(v: &serde_json::Value) -> u64 {
    use serde_json::Value::*;
    let long = |v: &serde_json::Value| v.as_u64().or(v.get(0).and_then(|n| n.as_u64())).unwrap_or(0);
    match v {
        Array(a) => a.iter().map(heft).sum::<u64>() + 1,
        Object(o) => o.iter().map(|(k, x)| match k.as_str() {
            "Many" => long(x) * 4,
            "StrN" | "BytesN" | "BinN" => long(x) / 4,
            _ => heft(x),
        }).sum::<u64>() + 1,
        String(s) => 1 + s.len() as u64 / 8,
        _ => 1,
    }
}

/// Long runs of one step, and packets with one large dimension.
fn blocks(setup: BoxedStrategy<Vec<Step>>, many: BoxedStrategy<Step>, other: BoxedStrategy<Step>, large: BoxedStrategy<Step>) -> BoxedStrategy<Blocks> {
    let plan = || one_of![4 => Just(vec![]), 2 => vec(50u16..5000, 1..4), 1 => plan()];
    let n = one_of![120 => Just(1u32), 120 => 2u32..40, 120 => gen::size().prop_map(|n| n.min(600)), 1 => gen::lit_count(1500)];
    let block = one_of![
        3 => (n.clone(), many).prop_map(|(n, s)| (n, s)),
        4 => other.prop_map(|s| (1, s)),
        3 => large.prop_map(|s| (1, s)),
        4 => Just((1, Step::Run)),
    ];
    (plan(), plan(), any::<bool>(), one_of![6 => Just(vec![]), 1 => names(100)], setup, vec(block, 1..9))
        .prop_map(|(read_plan, write_plan, tasks_first, names, a, b)| {
            let mut left = 2200;
            let mut blocks: Vec<(u32, Step)> = a.into_iter().map(|s| (1, s)).collect();
            // Every run may come with an answer from any of the handlers.
            let hefts: Vec<u64> = blocks.iter().map(|x| &x.1).chain(b.iter().map(|x| &x.1)).map(|s| serde_json::to_value(s).map_or(0, |v| heft(&v))).collect();
            let most = hefts.iter().max().copied().unwrap_or(0);
            // A websocket buffer of megabytes takes minutes to drain by single bytes.
            let (read_plan, write_plan) = if most > 10_000 {
                let wide = |p: Vec<u16>| p.into_iter().map(|n| if n == 0 { 0 } else { n.max(500) }).collect();
                (wide(read_plan), wide(write_plan))
            } else {
                (read_plan, write_plan)
            };
            for (n, s) in b {
                let n = n.min((300_000 / most.max(1)).max(1) as u32);
                let n = if n > 600 { n.min(left) } else { n.min(left.saturating_sub(1500)) };
                left -= n;
                blocks.push((n, s));
            }
            Blocks { conf: Conf { read_plan, write_plan, tasks_first, names, spurious: false }, blocks }
        })
        .boxed()
}

fn large_event() -> BoxedStrategy<Step> {
    event_with((j_args(), crate::proto::j_bulk((0u16..100).boxed(), true)).prop_map(|(mut a, b)| {
        a.truncate(1);
        a.push(b);
        a
    }).boxed())
}

fn large_emit() -> BoxedStrategy<Step> {
    emit_with(crate::proto::bulk_args())
}

fn setup() -> BoxedStrategy<Vec<Step>> {
    vec(one_of![2 => set_event(), 2 => set_fallback()], 1..5).boxed()
}

fn c11_long(_: Tier) -> BoxedStrategy<Blocks> {
    blocks(setup(), one_of![3 => event(), 1 => set_event(), 1 => clears()].boxed(), one_of![event(), set_event(), clears(), set_fallback(), emit()].boxed(), large_event())
}
fn c12_long(_: Tier) -> BoxedStrategy<Blocks> {
    let cb = (n(), e(), any::<bool>(), one_of![6 => Just(0u8), 1 => Just(1u8)]).prop_map(|(ns, ev, binary, drop)| Step::Emit { ns, ev, binary, cb: true, args: vec![], drop });
    blocks(setup(), one_of![3 => cb, 3 => ack(1)].boxed(), one_of![2 => emit(), 2 => ack(1), 1 => clears(), 1 => Just(Step::Run)].boxed(), one_of![1 => large_emit(), 1 => (any::<u16>(), crate::proto::j_bulk((0u16..100).boxed(), true)).prop_map(|(nth, j)| Step::Ack { nth, twist: Twist::Exact, args: vec![j], style: 0, inter: vec![] })].boxed())
}
fn c13_long(_: Tier) -> BoxedStrategy<Blocks> {
    blocks(setup(), one_of![3 => emit(), 2 => event()].boxed(), one_of![2 => emit(), 2 => event(), 1 => held(), 2 => any::<bool>().prop_map(Step::Block), 1 => noise()].boxed(), one_of![3 => large_emit(), 1 => large_event()].boxed())
}
fn c14_long(_: Tier) -> BoxedStrategy<Blocks> {
    blocks(setup(), one_of![4 => any::<bool>().prop_map(Step::Ping), 1 => Just(Step::Pong), 1 => emit(), 1 => event()].boxed(), one_of![2 => any::<bool>().prop_map(Step::Ping), 1 => event(), 1 => emit(), 1 => any::<bool>().prop_map(Step::Block)].boxed(), one_of![large_emit(), large_event()].boxed())
}
fn c21_long(_: Tier) -> BoxedStrategy<Blocks> {
    let reply = (n(), crate::proto::bulk_args(), any::<bool>()).prop_map(|(ns, a, b)| Step::SetFallback { ns, act: Act::Reply(a, b) });
    blocks(setup(), one_of![3 => event(), 1 => held()].boxed(), one_of![4 => event(), 2 => held(), 1 => set_event()].boxed(), one_of![2 => reply.boxed(), 1 => large_event(), 2 => (any::<u16>(), crate::proto::bulk_args(), any::<bool>()).prop_map(|(nth, args, binary)| Step::UseHeld { nth, args, binary, send: true }).boxed()].boxed())
}
fn c11_blocks(b: &Blocks) -> CheckResult {
    c11_check(&b.script())
}
fn c12_blocks(b: &Blocks) -> CheckResult {
    c12_check(&b.script())
}
fn c13_blocks(b: &Blocks) -> CheckResult {
    c13_check(&b.script())
}
fn c14_blocks(b: &Blocks) -> CheckResult {
    c14_check(&b.script())
}
fn c21_blocks(b: &Blocks) -> CheckResult {
    c21_check(&b.script())
}

/// Very many emits that ask for an acknowledgement, acknowledged in some order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flood {
    emits: u32,
    /// emits without callback in between
    other: bool,
    /// acknowledge after so many emits (0: at the end), stepping through them by this
    window: u32,
    stride: u32,
}

fn c12_flood_strategy(_: Tier) -> BoxedStrategy<Flood> {
    (one_of![3 => 1u32..600, 6 => gen::size()], any::<bool>(), one_of![2 => Just(0u32), 3 => 1u32..300], 1u32..50).prop_map(|(emits, other, window, stride)| Flood { emits, other, window, stride }).boxed()
}

fn c12_flood(f: &Flood) -> CheckResult {
    let conf = Conf { read_plan: vec![], write_plan: vec![], tasks_first: false, names: vec![], spurious: false };
    let mut s = Session::start(&conf)?;
    let mut ids: Vec<u64> = vec![];
    let mut unique = std::collections::HashSet::new();
    let mut seen = 0;
    let mut due = vec![];
    let mut open: Vec<usize> = vec![];
    for i in 0..f.emits as usize {
        let h = ack_handler(&s.world, i);
        let c = s.client();
        c.emit("msg").callback(h).args().send();
        if f.other && i % 3 == 0 {
            c.emit("msg").args().send();
        }
        let last = i + 1 == f.emits as usize;
        open.push(i);
        if !(last || f.window > 0 && open.len() as u32 >= f.window) {
            continue;
        }
        s.idle()?;
        for fr in &s.reader.frames[seen..] {
            let crate::sim::Frame::Text(t) = fr else { return Err(format!("unexpected frame {fr:?}")) };
            let id = t.strip_prefix("42").and_then(|t| t.strip_suffix("[\"msg\"]")).ok_or_else(|| format!("unexpected message {t:?}"))?;
            if id.is_empty() {
                continue;
            }
            let id: u64 = id.parse().map_err(|_| format!("unexpected message {t:?}"))?;
            if !unique.insert(id) {
                return Err(format!("emit number {} of {} that ask for an ack reuses id {id}", ids.len(), f.emits));
            }
            ids.push(id);
        }
        seen = s.reader.frames.len();
        if ids.len() != i + 1 {
            return Err(format!("{} emits with an id on the wire, {} sent", ids.len(), i + 1));
        }
        // Acknowledge what is open, by strides.
        let n = open.len();
        let stride = (1..).map(|k| f.stride as usize * k % n.max(1) + 1).find(|k| gcd(*k, n) == 1).unwrap();
        for k in 0..n {
            let e = open[k * stride % n];
            s.feed(&[(crate::sim::TEXT, format!("43{}[{e}]", ids[e]).into_bytes())]);
            due.push(AckCall { emit: e, args: vec![Value::from(e)] });
        }
        open.clear();
        s.idle()?;
    }
    let got = lock(&s.world).acks.clone();
    for (i, w) in due.iter().enumerate() {
        match got.get(i) {
            Some(c) if c == w => (),
            c => return Err(format!("ack callback call {i} is {c:?}, due is {w:?}")),
        }
    }
    if got.len() > due.len() {
        return Err(format!("ack callback runs though none is due: {:?}", got[due.len()]));
    }
    let mut cov = Covered::default();
    cov.label("more-than-256-ids", ids.len() > 256);
    cov.label("more-than-65536-ids", ids.len() > 65536);
    cov.nontrivial = ids.len() > 1;
    Ok(cov)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

// ----------------------------------------------------------------

pub const SIM: &[&str] = &[
    "The harness's transport, executor and virtual clock stand in for a real one; tungstenite, async-tungstenite and futures are part of the system under test.",
    "select! inside the client picks among ready branches by a per-thread generator the harness cannot seed; workers start in a fixed order so that runs repeat.",
];

macro_rules! part {
    ($name:expr, $rule:expr, $s:expr, $c:expr, $q:expr, $t:expr) => {
        Box::new(Part { name: $name, rule: $rule, strategy: $s, check: $c, quick: $q, thorough: $t, max_shrink: 3000, repeat: 20 })
    };
}
pub(crate) use part;

pub fn property(id: &str) -> Option<Property> {
    let p = |id, parts| Some(Property { id, parts, known: vec![], assumptions: SIM });
    match id {
        "C11" => p("C11", vec![part!("sessions", "Random histories of set, clear and replace calls and received events over a few namespaces and names, against a model of the handler tables; non-trivial: at least two handler calls.", c11_strategy, c11_check, 400_000, 16_000_000), part!("long", "Runs of up to 600 equal steps and packets with one large dimension; non-trivial as in the other part.", c11_long, c11_blocks, 20000, 500_000), crate::many::part_of("C11"), crate::threads::part_of("C11")]),
        "C12" => p("C12", vec![part!("sessions", "Random histories of emits (with and without callback, some dropped) and acknowledgements in any order, wrong, repeated and binary; non-trivial: at least one acknowledgement is due.", c12_strategy, c12_check, 400_000, 16_000_000), part!("long", "Runs of up to 600 equal steps and packets with one large dimension; non-trivial as in the other part.", c12_long, c12_blocks, 20000, 500_000), crate::race::part_of("C12"), part!("flood", "Up to 66000 emits that ask for an ack, acknowledged in windows and strides; non-trivial: at least two.", c12_flood_strategy, c12_flood, 6000, 100_000), crate::many::part_of("C12"), crate::threads::part_of("C12")]),
        "C13" => p("C13", vec![part!("sessions", "Random histories of emits and replies (also from handlers) with write chunking and back-pressure; the peer's frames against the send calls; non-trivial: at least two packets.", c13_strategy, c13_check, 450_000, 18_000_000), part!("long", "Runs of up to 600 equal steps and packets with one large dimension; non-trivial as in the other part.", c13_long, c13_blocks, 6000, 150_000), crate::race::part_of("C13"), crate::flow::part_of("C13"), crate::threads::part_of("C13")]),
        "C14" => p("C14", vec![part!("sessions", "Random histories with pings and pongs everywhere, also between a header and its attachments; non-trivial: at least one ping.", c14_strategy, c14_check, 400_000, 16_000_000), part!("long", "Runs of up to 600 equal steps and packets with one large dimension; non-trivial as in the other part.", c14_long, c14_blocks, 20000, 500_000), crate::race::part_of("C14"), crate::flow::part_of("C14"), crate::threads::part_of("C14")]),
        "C18" => p("C18", vec![part!("sessions", "Random sessions with a protocol violation at a random position (some without), all log statements formatted; non-trivial: a violation with handler calls before or messages after it.", c18_strategy, c18_check, 700_000, 28_000_000)]),
        "C21" => p("C21", vec![part!("sessions", "Random events with and without ids; replies at once, later, reordered, dropped; non-trivial: at least one reply.", c21_strategy, c21_check, 400_000, 16_000_000), part!("long", "Runs of up to 600 equal steps and packets with one large dimension; non-trivial as in the other part.", c21_long, c21_blocks, 8000, 200_000)]),
        _ => None,
    }
}
