//! C26: what a long-lived connection keeps, and how much memory one message takes.
use crate::gen::{self, Ser, S, J};
use crate::one_of;
use crate::runner::{CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim;
use crate::client::part;
use crate::{mem, Property};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use socket_io_client::{protocol::Args, AckBuilder};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Thing {
    /// fresh namespace, fresh name, id, plain arguments, byte strings
    Event(bool, bool, bool, Vec<J>, u8),
    /// callback, binary, arguments, sent, acknowledged with these
    Emit { cb: bool, binary: bool, args: Vec<S>, send: bool, fresh: bool, reply: Vec<J> },
    Ping,
    Pong,
    Connect,
    Disconnect,
    WsPing,
    WsPong,
    /// set (twice) and clear a handler of a fresh name
    SetClear(bool),
    /// set the same handler once more
    SetSame,
    SetFallback,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lasting {
    conf: Conf,
    things: Vec<Thing>,
    reply: Option<(Vec<S>, bool)>,
}

const WARM: u32 = 40;
const MORE: u32 = 140;
/// Memory may move by this much, and must do so twice to count: a table that
/// grows or shrinks once is none of our business.
const SLACK: i64 = 1000;

fn lasting_check(c: &Lasting) -> CheckResult {
    mem::reset();
    let mut s = Session::start(&c.conf)?;
    let reply = c.reply.clone();
    let handler = move |_: &Args, ack: Option<AckBuilder>| {
        if let (Some(a), Some((args, binary))) = (ack, &reply) {
            let mut b = a.binary(*binary).args();
            for x in args {
                if let Ok(n) = b.arg(&Ser(x)) {
                    b = n;
                } else {
                    return;
                }
            }
            b.send();
        }
    };
    s.client().set_event_callback("msg", handler.clone());
    s.client().set_namespace_fallback_callback("/a", handler.clone());
    let mut live = vec![];
    let mut seen = 0;
    let mut sent = 0;
    for round in 0..WARM + 2 * MORE {
        for (k, t) in c.things.iter().enumerate() {
            let fresh = format!("{:06}-{k}", round);
            match t {
                Thing::Event(ns, ev, id, args, bin) => {
                    let n = if *ns { format!("/{fresh}") } else if k % 2 == 0 { "/".into() } else { "/a".into() };
                    let mut all = vec![J::Str(if *ev { fresh } else { "msg".into() })];
                    all.extend(args.iter().cloned());
                    all.extend((0..*bin).map(|n| J::Bin(vec![n; 9])));
                    s.feed(&server_packet(false, &n, if *id { Some(1_000_000 + round as u64) } else { None }, &all, 0, 0));
                }
                Thing::Emit { cb, binary, args, send, fresh: f, reply } => {
                    let name = if *f { fresh } else { "msg".to_string() };
                    let ok = mem::counting(true, || {
                        let mut b = s.client().namespace_emit(if k % 2 == 0 { "/" } else { "/a" }, &name).binary(*binary);
                        if *cb {
                            let big = [round as u64; 8];
                            b = b.callback(move |_: &Args| {
                                std::hint::black_box(big);
                            });
                        }
                        let mut b = b.args();
                        for x in args {
                            b = match b.arg(&Ser(x)) {
                                Ok(b) => b,
                                Err(_) => return false,
                            };
                        }
                        if *send {
                            b.send();
                        }
                        *send
                    });
                    if ok {
                        sent += 1;
                        mem::counting(true, || s.exec.idle())?;
                        if *cb {
                            let w = { s.reader.read(&s.pipe)?; read_wire(&s.reader.frames[seen..], true)? };
                            let p = packets(&w).into_iter().rev().find(|p| p.id.is_some() && p.args.first().and_then(|a| a.as_str()).is_some()).ok_or("an emit with a callback is not written, or has no id")?;
                            s.feed(&server_packet(true, &p.ns, p.id, reply, 0, 0));
                        }
                    }
                }
                Thing::Ping => s.feed(&[(sim::TEXT, b"2".to_vec())]),
                Thing::Pong => s.feed(&[(sim::TEXT, b"3".to_vec())]),
                Thing::Connect => s.feed(&[(sim::TEXT, format!("40/{fresh},").into_bytes())]),
                Thing::Disconnect => s.feed(&[(sim::TEXT, format!("41/{fresh},").into_bytes())]),
                Thing::WsPing => s.feed(&[(sim::PING, fresh.into_bytes())]),
                Thing::WsPong => s.feed(&[(sim::PONG, fresh.into_bytes())]),
                Thing::SetClear(twice) => mem::counting(true, || {
                    let c = s.client();
                    for _ in 0..=*twice as u8 {
                        let big = [round as u64; 8];
                        c.set_namespace_event_callback("/a", &fresh, move |_: &Args, _: Option<AckBuilder>| {
                            std::hint::black_box(big);
                        });
                    }
                    c.clear_namespace_event_callback("/a", &fresh);
                }),
                Thing::SetSame => {
                    let h = handler.clone();
                    mem::counting(true, || s.client().set_event_callback("msg", h));
                }
                Thing::SetFallback => mem::counting(true, || {
                    let big = [round as u64; 8];
                    s.client().set_namespace_fallback_callback("/b", move |_: &Args, _: Option<AckBuilder>| {
                        std::hint::black_box(big);
                    });
                    s.client().clear_namespace_fallback_callback("/b");
                }),
            }
            mem::counting(true, || s.exec.idle())?;
        }
        s.reader.read(&s.pipe)?;
        seen = s.reader.frames.len();
        if round + 1 == WARM || round + 1 == WARM + MORE || round + 1 == WARM + 2 * MORE {
            live.push(mem::live());
        }
    }
    if s.exec.tasks.is_empty() {
        return Err("the connection does not stay up".into());
    }
    if live[1] - live[0] > SLACK && live[2] - live[1] > SLACK {
        return Err(format!("memory held after {WARM}, {} and {} rounds of the same: {live:?} bytes", WARM + MORE, WARM + 2 * MORE));
    }
    let mut cov = Covered { nontrivial: true, labels: vec![] };
    cov.label("emits", sent > 0);
    cov.label("replies", c.reply.is_some());
    cov.label("fresh-namespaces", c.things.iter().any(|t| matches!(t, Thing::Event(true, ..) | Thing::Connect | Thing::Disconnect)));
    cov.label("handler-changes", c.things.iter().any(|t| matches!(t, Thing::SetClear(_) | Thing::SetFallback)));
    Ok(cov)
}

fn lasting_strategy(_: Tier) -> BoxedStrategy<Lasting> {
    let thing = one_of![
        5 => (any::<bool>(), any::<bool>(), any::<bool>(), vec(small_j(), 0..2), one_of![2 => Just(0u8), 1 => 1u8..4]).prop_map(|(a, b, c, d, e)| Thing::Event(a, b, c, d, e)),
        5 => (any::<bool>(), any::<bool>(), vec(small_s(), 0..2), one_of![3 => Just(true), 1 => Just(false)], any::<bool>(), vec(small_j(), 0..2)).prop_map(|(cb, binary, args, send, fresh, reply)| Thing::Emit { cb, binary, args, send, fresh, reply }),
        1 => Just(Thing::Ping),
        1 => Just(Thing::Pong),
        1 => Just(Thing::Connect),
        1 => Just(Thing::Disconnect),
        1 => Just(Thing::WsPing),
        1 => Just(Thing::WsPong),
        2 => any::<bool>().prop_map(Thing::SetClear),
        1 => Just(Thing::SetSame),
        1 => Just(Thing::SetFallback),
    ];
    let plan = || one_of![6 => Just(vec![]), 1 => vec(3u16..200, 1..4)];
    ((plan(), plan(), any::<bool>()), vec(thing, 1..5), prop::option::weighted(0.7, (vec(small_s(), 0..2), any::<bool>())))
        .prop_map(|((read_plan, write_plan, tasks_first), things, reply)| Lasting { conf: Conf { read_plan, write_plan, tasks_first, names: vec![], spurious: false }, things, reply })
        .boxed()
}

// ---------------------------------------------------------------- one message

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    /// A binary header that announces so many attachments.
    Header { ack: bool, ns: u8, count: u64, id: Option<u64>, args: Vec<J> },
    Attachment(Vec<u8>),
    Event { ns: u8, ev: u8, id: Option<u64>, args: Vec<J> },
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Peak {
    conf: Conf,
    msgs: Vec<Msg>,
    handler: bool,
}

fn peak_check(c: &Peak) -> CheckResult {
    // Tables and caches of the libraries, made when first used on a thread.
    const FIXED: i64 = 12 << 20;
    const FACTOR: i64 = 400;
    mem::reset();
    let mut s = Session::start(&c.conf)?;
    if c.handler {
        s.client().set_fallback_callback(|_: &Args, _: Option<AckBuilder>| ());
    }
    let mut bytes = 0;
    let mut cov = Covered::default();
    for m in &c.msgs {
        let frames = match m {
            Msg::Header { ack, ns: n, count, id, args } => {
                let mut w = gen::Writer::new(0, true);
                let mut all = args.clone();
                if !*ack {
                    all.insert(0, J::Str("msg".into()));
                }
                w.args(&all);
                let n = ns(*n);
                let n = if n == "/" { String::new() } else { format!("{n},") };
                let id = id.map(|i| i.to_string()).unwrap_or_default();
                cov.nontrivial |= *count > 1000;
                vec![(sim::TEXT, format!("4{}{count}-{n}{id}{}", if *ack { 6 } else { 5 }, w.out).into_bytes())]
            }
            Msg::Attachment(b) => vec![(sim::BINARY, [&[4u8][..], b].concat())],
            Msg::Event { ns: n, ev: e, id, args } => {
                let mut all = vec![J::Str(ev(*e).into())];
                all.extend(args.iter().cloned());
                server_packet(false, ns(*n), *id, &all, 0, 0)
            }
            Msg::Text(t) => vec![(sim::TEXT, t.clone().into_bytes())],
        };
        bytes += frames.iter().map(|f| f.1.len() as i64).sum::<i64>();
        s.feed(&frames);
        mem::counting(true, || s.exec.idle())?;
        let peak = mem::peak();
        if peak > FIXED + FACTOR * bytes {
            return Err(format!("{peak} bytes of memory claimed after {bytes} received; last message {m:?}"));
        }
    }
    cov.label("huge-count", cov.nontrivial);
    cov.nontrivial |= bytes > 10_000;
    Ok(cov)
}

fn peak_strategy(_: Tier) -> BoxedStrategy<Peak> {
    let count = one_of![3 => gen::id(), 2 => (20u32..40, 0u64..3).prop_map(|(s, d)| (1u64 << s) + d), 1 => 1u64..100, 1 => (60u32..64).prop_map(|s| 1u64 << s)];
    let msg = one_of![
        5 => (any::<bool>(), n(), count, gen::id(), any::<bool>(), j_args()).prop_map(|(ack, ns, count, id, with, args)| Msg::Header { ack, ns, count, id: if ack || with { Some(id) } else { None }, args }),
        2 => gen::bytes(20).prop_map(Msg::Attachment),
        4 => (n(), e(), gen::opt_id(), one_of![4 => j_args(), 1 => crate::proto::j_bulk((0u16..100).boxed(), true).prop_map(|j| vec![j])]).prop_map(|(ns, ev, id, args)| Msg::Event { ns, ev, id, args }),
        1 => gen::text(20).prop_map(Msg::Text),
    ];
    (conf(), vec(msg, 1..4), any::<bool>())
        .prop_map(|(mut conf, msgs, handler)| {
            conf.read_plan.iter_mut().for_each(|n| *n = (*n).max(100));
            Peak { conf, msgs, handler }
        })
        .boxed()
}

pub fn property(id: &str) -> Option<Property> {
    match id {
        "C26" => Some(Property {
            id: "C26",
            parts: vec![
                part!("growth", "Random rounds of received and sent packets, each with fresh names, repeated hundreds of times; the bytes held by the client before, midway and after are compared; all are non-trivial.", lasting_strategy, lasting_check, 20_000, 600_000),
                part!("claims", "Random messages, among them headers that announce huge numbers of attachments; the most memory claimed at any moment against the bytes received; non-trivial: a huge number or over 10000 bytes.", peak_strategy, peak_check, 150_000, 5_000_000),
            ],
            known: vec![],
            assumptions: crate::client::SIM,
        }),
        _ => None,
    }
}
