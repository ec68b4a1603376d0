//! C22: handlers and callbacks are dropped when they are done, not before.
use crate::client::{part, SIM};
use crate::gen;
use crate::runner::{CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, Driven, End};
use crate::Property;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use socket_io_client::{protocol::Args, AckBuilder, EventCallback};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    SetEvent(u8, u8),
    SetFallback(u8),
    /// The same callback under two names.
    SetBoth((u8, u8), (u8, u8)),
    ClearEvent(u8, u8),
    ClearFallback(u8),
    /// An emit with callback; dropped unsent (1: before, 2: after its arguments, 3: by an
    /// argument that fails).
    Emit {
        ns: u8,
        ev: u8,
        drop: u8,
        #[serde(default)]
        binary: bool,
        /// a callback given first, and replaced
        #[serde(default)]
        first: bool,
        /// an argument that fails and is left out
        #[serde(default)]
        fail: bool,
    },
    /// Acknowledge an open emit.
    Ack { nth: u8, binary: bool },
    Event { ns: u8, ev: u8, id: Option<u64> },
    Run,
    Block(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Last {
    /// Drop the client as it is.
    Drop,
    PeerEnds,
    TransportError,
    Violation(Bad),
    Close { answered: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Held {
    conf: Conf,
    ops: Vec<Op>,
    last: Last,
}

/// What is alive: token -> holders, by counting drops.
#[derive(Clone, Default)]
struct Tokens(Arc<Mutex<Vec<Arc<AtomicUsize>>>>);

struct Token(Arc<AtomicUsize>);
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

impl Tokens {
    fn new(&self) -> (usize, Token) {
        let mut t = lock(&self.0);
        let a = Arc::new(AtomicUsize::new(0));
        t.push(a.clone());
        (t.len() - 1, Token(a))
    }
    fn dropped(&self, i: usize) -> bool {
        lock(&self.0)[i].load(Ordering::SeqCst) > 0
    }
    fn len(&self) -> usize {
        lock(&self.0).len()
    }
}

fn check(c: &Held) -> CheckResult {
    let mut s = Session::start(&c.conf)?;
    let tokens = Tokens::default();
    let replies: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let held = replies.clone();
    let handler = move |t: Token| {
        let replies = replies.clone();
        move |_: &Args, ack: Option<AckBuilder>| {
            let _ = &t;
            lock(&replies).extend(ack);
        }
    };
    let mut events: BTreeMap<(&str, &str), usize> = Default::default();
    let mut fallbacks: BTreeMap<&str, usize> = Default::default();
    // emits by their number, in the order sent: (namespace, token)
    let mut emits: Vec<(&str, usize, bool)> = vec![];
    let mut ids: Vec<u64> = vec![];
    let mut cov = Covered::default();
    let mut ended = 0;
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::SetEvent(n, e) => {
                let (k, t) = tokens.new();
                s.client().set_namespace_event_callback(ns(*n), ev(*e), handler(t));
                cov.label("replaced", events.insert((ns(*n), ev(*e)), k).is_some());
            }
            Op::SetFallback(n) => {
                let (k, t) = tokens.new();
                s.client().set_namespace_fallback_callback(ns(*n), handler(t));
                cov.label("replaced", fallbacks.insert(ns(*n), k).is_some());
            }
            Op::SetBoth(a, b) => {
                let (k, t) = tokens.new();
                let cb: EventCallback = handler(t).into();
                for (n, e) in [a, b] {
                    s.client().set_namespace_event_callback(ns(*n), ev(*e), cb.clone());
                    events.insert((ns(*n), ev(*e)), k);
                }
            }
            Op::ClearEvent(n, e) => {
                s.client().clear_namespace_event_callback(ns(*n), ev(*e));
                cov.label("cleared", events.remove(&(ns(*n), ev(*e))).is_some());
            }
            Op::ClearFallback(n) => {
                s.client().clear_namespace_fallback_callback(ns(*n));
                cov.label("cleared", fallbacks.remove(ns(*n)).is_some());
            }
            Op::Emit { ns: n, ev: e, drop, binary, first, fail } => {
                let mut b = s.client().namespace_emit(ns(*n), ev(*e)).binary(*binary);
                if *first {
                    let (_, t) = tokens.new();
                    b = b.callback(move |_: &Args| {
                        let _ = &t;
                    });
                }
                let (k, t) = tokens.new();
                let b = b.callback(move |_: &Args| {
                    let _ = &t;
                });
                if *drop == 1 {
                    std::mem::drop(b);
                } else {
                    let mut b = b.args().arg(&(i as u64)).map_err(|e| format!("argument refused: {e}"))?;
                    let bad = gen::S::Seq(vec![gen::S::Bytes(vec![1]), gen::S::Fail], true);
                    if *fail && b.arg_ref(&gen::Ser(&bad)).is_ok() {
                        return Err("an argument that fails is taken".into());
                    }
                    if *drop == 2 {
                        std::mem::drop(b);
                    } else if *drop == 3 {
                        if b.arg(&gen::Ser(&bad)).is_ok() {
                            return Err("an argument that fails is taken".into());
                        }
                    } else {
                        b.send();
                        emits.push((ns(*n), k, true));
                    }
                }
                cov.label("emit-callback-replaced", *first);
                cov.label("emit-dropped-unsent", *drop > 0);
            }
            Op::Ack { nth, binary } => {
                let open: Vec<usize> = (0..ids.len()).filter(|k| emits[*k].2).collect();
                if open.is_empty() {
                    continue;
                }
                let k = open[*nth as usize % open.len()];
                let args = if *binary { vec![gen::J::Bin(vec![1, 2])] } else { vec![] };
                // a client that cannot write need not read
                s.pipe.block(false);
                s.feed(&server_packet(true, emits[k].0, Some(ids[k]), &args, 1, 0));
                s.idle()?;
                emits[k].2 = false;
                cov.label("acknowledged", true);
            }
            Op::Event { ns: n, ev: e, id } => {
                s.feed(&server_packet(false, ns(*n), *id, &[gen::J::Str(ev(*e).into())], 0, 0));
            }
            Op::Run => (),
            Op::Block(b) => s.pipe.block(*b),
        }
        if !matches!(op, Op::Event { .. }) {
            s.idle()?;
            // ids of the emits that reached the peer
            let Ok(w) = s.wire() else { return Ok(Covered::trivial()) };
            ids = packets(&w).iter().filter(|p| !p.ack).filter_map(|p| p.id).collect();
            if ids.len() > emits.len() || s.exec.live_tasks() == 0 {
                return Ok(Covered::trivial()); // other properties
            }
        }
        let due: Vec<usize> = events.values().chain(fallbacks.values()).copied().chain(emits.iter().filter(|e| e.2).map(|e| e.1)).collect();
        let gone = tokens.len() - (0..tokens.len()).filter(|t| due.contains(t)).count();
        ended = ended.max(gone);
        for t in 0..tokens.len() {
            match (due.contains(&t), tokens.dropped(t)) {
                (true, true) => return Err(format!("after step {i} the callback given as number {t} is dropped though it is still due")),
                (false, false) => return Err(format!("after step {i} the callback given as number {t} is kept though it is replaced, cleared, used or was never sent")),
                _ => (),
            }
        }
    }
    match &c.last {
        Last::Drop => (),
        Last::PeerEnds => {
            s.feed(&[(sim::CLOSE, vec![3, 232])]);
            s.pipe.end(End::Eof);
            s.idle()?;
        }
        Last::TransportError => {
            s.pipe.end(End::Error);
            s.idle()?;
        }
        Last::Violation(b) => {
            s.pipe.feed(&bad_bytes(b));
            s.idle()?;
        }
        Last::Close { answered } => {
            let mut client = s.client.take().unwrap();
            let mut f = Driven::new(client.close());
            s.exec.drive(&mut f)?;
            if *answered {
                s.pipe.feed(&sim::frame(true, sim::CLOSE, &[3, 232]));
                s.pipe.end(End::Eof);
                s.exec.drive(&mut f)?;
            }
            drop(f);
            s.client = Some(client);
        }
    }
    // Reply handles and the sending half may outlive the client.
    let send = s.client().send.clone();
    s.client = None;
    s.exec.idle()?;
    for t in 0..tokens.len() {
        if !tokens.dropped(t) {
            return Err(format!("the callback given as number {t} is kept though the client is dropped ({:?})", c.last));
        }
    }
    cov.label("reply-handles-outlive", !lock(&held).is_empty());
    drop(send);
    cov.nontrivial = ended > 0;
    Ok(cov)
}

fn strategy(t: Tier) -> BoxedStrategy<Held> {
    let op = one_of![
        4 => (n(), e()).prop_map(|(n, e)| Op::SetEvent(n, e)),
        2 => n().prop_map(Op::SetFallback),
        1 => ((n(), e()), (n(), e())).prop_map(|(a, b)| Op::SetBoth(a, b)),
        2 => (n(), e()).prop_map(|(n, e)| Op::ClearEvent(n, e)),
        1 => n().prop_map(Op::ClearFallback),
        4 => (n(), e(), one_of![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], any::<bool>(), one_of![5 => Just(false), 1 => Just(true)], one_of![5 => Just(false), 1 => Just(true)]).prop_map(|(ns, ev, drop, binary, first, fail)| Op::Emit { ns, ev, drop, binary, first, fail }),
        4 => (any::<u8>(), any::<bool>()).prop_map(|(nth, binary)| Op::Ack { nth, binary }),
        4 => (n(), e(), gen::opt_id()).prop_map(|(ns, ev, id)| Op::Event { ns, ev, id }),
        2 => Just(Op::Run),
        1 => any::<bool>().prop_map(Op::Block),
    ];
    let last = one_of![
        3 => Just(Last::Drop),
        2 => Just(Last::PeerEnds),
        1 => Just(Last::TransportError),
        2 => bad().prop_map(Last::Violation),
        2 => any::<bool>().prop_map(|answered| Last::Close { answered }),
    ];
    let k = if t == Tier::Quick { 20 } else { 60 };
    (conf(), vec(op, 1..k), last).prop_map(|(conf, ops, last)| Held { conf, ops, last }).boxed()
}

pub fn property(id: &str) -> Option<Property> {
    (id == "C22").then(|| Property {
        id: "C22",
        parts: vec![part!("release", "Random histories of set, replace, clear, emit, acknowledge, then an end of the connection and of the client; every callback counts its drops; non-trivial: at least one callback replaced, cleared, used or never sent.", strategy, check, 900_000, 36_000_000)],
        known: vec![],
        assumptions: SIM,
    })
}
