//! C11, C12, C21 with hundreds of namespaces, names and outstanding callbacks
//! at a time.
use crate::client::part;
use crate::gen::J;
use crate::one_of;
use crate::runner::{AnyPart, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::Frame;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_client::{protocol::Args, AckBuilder};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Every a-th from b on.
type Every = (u8, u8);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(Every, Every),
    Clear(Every, Every),
    Fallback(Every),
    ClearFallback(Every),
    /// with a callback?
    Emit(Every, Every, bool),
    /// with an id, that is with a reply?
    Event(Every, Every, bool),
    /// Acknowledge what is outstanding, some left for later.
    Ack { stride: u8, leave: Every },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    conf: Conf,
    spaces: u16,
    names: u16,
    pad: u8,
    ops: Vec<Op>,
}

#[derive(Default)]
struct Log {
    /// (handler, event)
    calls: Vec<(u64, u64)>,
    /// (emit, what the acknowledgement carried)
    acks: Vec<(u64, u64)>,
    odd: Option<String>,
}

type Shared = Arc<Mutex<Log>>;

fn handler(log: &Shared, id: u64) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let log = log.clone();
    move |a: &Args, ack: Option<AckBuilder>| {
        let tag = a.get(1).and_then(|a| a.deserialize::<u64>().ok());
        let mut l = lock(&log);
        match tag {
            Some(t) => l.calls.push((id, t)),
            None => l.odd = Some(format!("handler {id} is called without the event's argument")),
        }
        if let (Some(ack), Some(t)) = (ack, tag) {
            if let Ok(b) = ack.args().arg(&t) {
                b.send();
            }
        }
    }
}

fn each(e: Every, of: u16) -> impl Iterator<Item = u16> {
    let step = e.0.max(1) as u16;
    (e.1 as u16 % step..of).step_by(step as usize)
}

struct World {
    s: Session,
    log: Shared,
    spaces: Vec<String>,
    names: Vec<String>,
    tags: u64,
    handlers: HashMap<(u16, u16), u64>,
    fallbacks: HashMap<u16, u64>,
    calls: Vec<(u64, u64)>,
    acks: Vec<(u64, u64)>,
    /// (namespace, name, tag, with callback), not yet seen on the wire
    emits: Vec<(u16, u16, u64, bool)>,
    /// (namespace, id, tag)
    replies: Vec<(u16, u64, u64)>,
    /// (namespace, id, tag)
    open: Vec<(u16, u64, u64)>,
    seen: usize,
    most: [usize; 3],
}

impl World {
    fn tag(&mut self) -> u64 {
        self.tags += 1;
        self.tags
    }

    fn op(&mut self, o: &Op) -> Result<(), String> {
        let (nn, ne) = (self.spaces.len() as u16, self.names.len() as u16);
        match o {
            Op::Set(a, b) => {
                for n in each(*a, nn) {
                    for e in each(*b, ne) {
                        let t = self.tag();
                        let h = handler(&self.log, t);
                        let (ns, ev) = (&self.spaces[n as usize], &self.names[e as usize]);
                        if n == 0 && t % 2 == 0 {
                            self.s.client.as_mut().unwrap().set_event_callback(ev, h);
                        } else {
                            self.s.client.as_mut().unwrap().set_namespace_event_callback(ns, ev, h);
                        }
                        self.handlers.insert((n, e), t);
                    }
                }
            }
            Op::Clear(a, b) => {
                for n in each(*a, nn) {
                    for e in each(*b, ne) {
                        self.s.client.as_mut().unwrap().clear_namespace_event_callback(&self.spaces[n as usize], &self.names[e as usize]);
                        self.handlers.remove(&(n, e));
                    }
                }
            }
            Op::Fallback(a) => {
                for n in each(*a, nn) {
                    let t = self.tag();
                    let h = handler(&self.log, t);
                    self.s.client.as_mut().unwrap().set_namespace_fallback_callback(&self.spaces[n as usize], h);
                    self.fallbacks.insert(n, t);
                }
            }
            Op::ClearFallback(a) => {
                for n in each(*a, nn) {
                    self.s.client.as_mut().unwrap().clear_namespace_fallback_callback(&self.spaces[n as usize]);
                    self.fallbacks.remove(&n);
                }
            }
            Op::Emit(a, b, cb) => {
                for n in each(*a, nn) {
                    for e in each(*b, ne) {
                        let t = self.tag();
                        let mut em = self.s.client.as_mut().unwrap().namespace_emit(&self.spaces[n as usize], &self.names[e as usize]);
                        if *cb {
                            let log = self.log.clone();
                            em = em.callback(move |a: &Args| {
                                let v = a.get(0).and_then(|a| a.deserialize::<u64>().ok());
                                let mut l = lock(&log);
                                match v {
                                    Some(v) => l.acks.push((t, v)),
                                    None => l.odd = Some(format!("the callback of emit {t} is called without the argument")),
                                }
                            });
                        }
                        em.args().arg(&t).map_err(|e| e.to_string())?.send();
                        self.emits.push((n, e, t, *cb));
                    }
                }
                self.read()?;
            }
            Op::Event(a, b, id) => {
                for n in each(*a, nn) {
                    for e in each(*b, ne) {
                        let t = self.tag();
                        let args = [J::Str(self.names[e as usize].clone()), J::U(t)];
                        // Ids of events need not differ.
                        let id = if *id { Some(t % 1000) } else { None };
                        self.s.feed(&server_packet(false, &self.spaces[n as usize], id, &args, 0, 0));
                        if let Some(h) = self.handlers.get(&(n, e)).or_else(|| self.fallbacks.get(&n)) {
                            self.calls.push((*h, t));
                            if let Some(id) = id {
                                self.replies.push((n, id, t));
                            }
                        }
                    }
                }
                self.read()?;
                self.compare()?;
            }
            Op::Ack { stride, leave } => self.acknowledge(*stride, *leave)?,
        }
        self.most = [self.most[0].max(self.handlers.len()), self.most[1].max(self.open.len()), self.most[2].max(self.fallbacks.len())];
        Ok(())
    }

    fn acknowledge(&mut self, stride: u8, leave: Every) -> Result<(), String> {
        let all = std::mem::take(&mut self.open);
        let k = stride.max(1) as usize;
        let mut later = vec![];
        for first in 0..k.min(all.len()) {
            for i in (first..all.len()).step_by(k) {
                let (n, id, t) = all[i];
                if leave.0 > 1 && i % leave.0 as usize == leave.1 as usize % leave.0 as usize {
                    later.push(all[i]);
                    continue;
                }
                let v = self.tag();
                self.s.feed(&server_packet(true, &self.spaces[n as usize], Some(id), &[J::U(v)], 0, 0));
                self.acks.push((t, v));
            }
        }
        self.open = later;
        self.read()?;
        self.compare()
    }

    /// What is new on the wire against what was sent.
    fn read(&mut self) -> Result<(), String> {
        self.s.idle()?;
        let frames: &[Frame] = &self.s.reader.frames[self.seen..];
        let wire = read_wire(frames, false)?;
        self.seen = self.s.reader.frames.len();
        let (mut emits, mut replies) = (std::mem::take(&mut self.emits).into_iter(), std::mem::take(&mut self.replies).into_iter());
        for p in packets(&wire) {
            if p.ack {
                let Some((n, id, t)) = replies.next() else { return Err(format!("a reply too many: {p:?}")) };
                if p.ns != self.spaces[n as usize] || p.id != Some(id) || p.args != [Value::from(t)] {
                    return Err(format!("the reply to event {t} in {:?} with id {id} is {p:?}", self.spaces[n as usize]));
                }
            } else {
                let Some((n, e, t, cb)) = emits.next() else { return Err(format!("a packet too many: {p:?}")) };
                if p.ns != self.spaces[n as usize] || p.args != [Value::from(&*self.names[e as usize]), Value::from(t)] || p.id.is_some() != cb {
                    return Err(format!("emit {t} of {:?} in {:?}, with callback {cb}, is {p:?}", self.names[e as usize], self.spaces[n as usize]));
                }
                if let Some(id) = p.id {
                    if self.open.iter().any(|o| o.1 == id && o.0 == n) {
                        return Err(format!("emit {t} uses id {id}, which is not yet acknowledged"));
                    }
                    self.open.push((n, id, t));
                }
            }
        }
        match (emits.next(), replies.next()) {
            (None, None) => Ok(()),
            m => Err(format!("never written (emit, reply): {m:?}")),
        }
    }

    fn compare(&mut self) -> Result<(), String> {
        fn diff(what: &str, got: &[(u64, u64)], want: &[(u64, u64)]) -> Result<(), String> {
            if got == want {
                return Ok(());
            }
            let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
            Err(format!("{what} {i} of {} is {:?}, due is {:?}", got.len(), got.get(i), want.get(i)))
        }
        let mut l = lock(&self.log);
        if let Some(o) = l.odd.take() {
            return Err(o);
        }
        let r = diff("handler call (handler, event)", &l.calls, &self.calls).and_then(|_| diff("callback call (emit, argument)", &l.acks, &self.acks));
        r?;
        l.calls.clear();
        l.acks.clear();
        self.calls.clear();
        self.acks.clear();
        if self.s.exec.tasks.is_empty() {
            return Err("the connection has ended".into());
        }
        Ok(())
    }
}

fn check(c: &Many) -> CheckResult {
    let pad = "x".repeat(c.pad as usize);
    let mut w = World {
        s: Session::start(&c.conf)?,
        log: Default::default(),
        spaces: (0..c.spaces).map(|i| if i == 0 { "/".into() } else { format!("/{pad}{i}") }).collect(),
        names: (0..c.names).map(|i| format!("{pad}{i}")).collect(),
        tags: 0,
        handlers: HashMap::new(),
        fallbacks: HashMap::new(),
        calls: vec![],
        acks: vec![],
        emits: vec![],
        replies: vec![],
        open: vec![],
        seen: 0,
        most: [0; 3],
    };
    for o in &c.ops {
        w.op(o)?;
    }
    w.op(&Op::Event((1, 0), (1, 0), false))?;
    w.op(&Op::Ack { stride: 1, leave: (0, 0) })?;
    let mut cov = Covered { nontrivial: w.most[0] >= 20 || w.most[1] >= 20, labels: vec![] };
    cov.label("over-100-handlers", w.most[0] > 100);
    cov.label("over-100-outstanding", w.most[1] > 100);
    cov.label("over-20-fallbacks", w.most[2] > 20);
    Ok(cov)
}

fn strategy(_: Tier) -> BoxedStrategy<Many> {
    let every = || one_of![3 => Just((1u8, 0u8)), 4 => (1u8..8, any::<u8>()), 1 => (any::<u8>(), any::<u8>())];
    let op = one_of![
        4 => (every(), every()).prop_map(|(a, b)| Op::Set(a, b)),
        2 => (every(), every()).prop_map(|(a, b)| Op::Clear(a, b)),
        2 => every().prop_map(Op::Fallback),
        1 => every().prop_map(Op::ClearFallback),
        3 => (every(), every(), prop::bool::weighted(0.8)).prop_map(|(a, b, c)| Op::Emit(a, b, c)),
        2 => (every(), every(), any::<bool>()).prop_map(|(a, b, c)| Op::Event(a, b, c)),
        2 => (1u8..9, every()).prop_map(|(stride, leave)| Op::Ack { stride, leave }),
    ];
    let size = one_of![2 => (1u16..4, 1u16..300), 2 => (1u16..200, 1u16..4), 1 => (1u16..25, 1u16..25)];
    let plan = || one_of![6 => Just(vec![]), 1 => vec(20u16..2000, 1..4)];
    ((plan(), plan(), any::<bool>()), size, one_of![3 => Just(0u8), 1 => 0u8..80], vec(op, 1..9))
        .prop_map(|((read_plan, write_plan, tasks_first), (spaces, names), pad, ops)| Many { conf: Conf { read_plan, write_plan, tasks_first, names: vec![], spurious: false }, spaces, names, pad, ops })
        .boxed()
}

pub fn part_of(_id: &str) -> Box<dyn AnyPart> {
    part!("many", "Up to hundreds of namespaces, names, handlers and outstanding callbacks at a time, set, cleared, emitted and acknowledged by strides, against a model; non-trivial: at least 20 handlers or outstanding callbacks.", strategy, check, 20_000, 600_000)
}
