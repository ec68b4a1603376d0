//! C12, C13, C14, C21 under preemption: whenever a call of the user wakes the
//! client's task, the task runs at once (on another thread, since the caller
//! may hold a lock), and the peer reacts to each frame as soon as it is
//! written. This is the schedule a multi-threaded executor can produce between
//! any two steps of a call.
use crate::client::part;
use crate::gen::{self, Ser, J, S};
use crate::refparse;
use crate::runner::{AnyPart, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, Exec, Frame, Pipe, Reader};
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- helper thread

type Job = Box<dyn FnOnce() + Send>;

thread_local! {
    static HELPER: Sender<Job> = {
        let (tx, rx) = channel::<Job>();
        std::thread::Builder::new().name("preempting".into()).stack_size(32 << 20).spawn(move || {
            while let Ok(j) = rx.recv() {
                j()
            }
        }).expect("spawn helper");
        tx
    };
}

fn submit(j: Job) {
    HELPER.with(|h| h.send(j).expect("helper runs"))
}

/// Start this thread's helper and run `f` on it.
pub fn init(f: fn()) {
    let (tx, rx) = channel();
    submit(Box::new(move || {
        f();
        let _ = tx.send(());
    }));
    rx.recv().expect("helper runs");
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum React {
    Nothing,
    Ping,
    Pong,
    Event { ns: u8, ev: u8, id: Option<u64>, args: Vec<J>, style: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Emit { ns: u8, ev: u8, binary: bool, cb: bool, args: Vec<S> },
    /// Reply with a held handle.
    Held { nth: u16, args: Vec<S>, binary: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    eager: bool,
    what: What,
    /// What the peer does on the frames it sees, one by one.
    reacts: Vec<React>,
    /// Some: emits are acknowledged when complete, with these arguments.
    ack: Option<(Vec<J>, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    conf: Conf,
    handlers: Vec<(u8, Option<u8>, Act)>,
    ops: Vec<Op>,
}

// ---------------------------------------------------------------- the peer

#[derive(Default)]
struct Turn {
    exec: Exec,
    reader: Reader,
    pipe: Option<Arc<Pipe>>,
    seen: usize,
    /// Packet whose attachments are still missing: (ns, id, emit, attachments).
    open: Option<(String, Option<u64>, Option<usize>, u64)>,
    reacts: VecDeque<React>,
    ack: Option<(Vec<J>, u64)>,
    tags: u64,
    pings: usize,
    acked: Vec<AckCall>,
    events: Vec<EventIn>,
    error: Option<String>,
    mid_pings: usize,
}

impl Turn {
    fn run(&mut self) {
        if let Err(e) = self.try_run() {
            self.error.get_or_insert(e);
        }
    }

    fn try_run(&mut self) -> Result<(), String> {
        let pipe = self.pipe.clone().expect("set up");
        loop {
            self.exec.idle()?;
            self.reader.read(&pipe)?;
            if self.seen == self.reader.frames.len() {
                return Ok(());
            }
            while self.seen < self.reader.frames.len() {
                let f = self.reader.frames[self.seen].clone();
                self.seen += 1;
                self.frame(&pipe, f);
            }
        }
    }

    fn frame(&mut self, pipe: &Pipe, f: Frame) {
        match f {
            Frame::Text(t) if t != "3" => {
                let Some(text) = t.strip_prefix('4') else { return };
                // Malformed output is judged at the end.
                if let refparse::Verdict::Accept(p) = refparse::packet(text) {
                    if p.is_event() {
                        let emit = p.args().get(1).and_then(|a| a.parse().ok());
                        self.open = Some((p.namespace().to_string(), p.id, emit, p.count.unwrap_or(0)));
                    } else {
                        self.open = Some((String::new(), None, None, p.count.unwrap_or(0)));
                    }
                }
            }
            Frame::Bin(_) => {
                if let Some(o) = &mut self.open {
                    o.3 = o.3.saturating_sub(1);
                }
            }
            _ => (),
        }
        if self.open.as_ref().map_or(false, |o| o.3 == 0) {
            let (n, id, emit, _) = self.open.take().unwrap();
            if let (Some(id), Some(emit), Some((args, style))) = (id, emit, self.ack.clone()) {
                for (op, b) in server_packet(true, &n, Some(id), &args, style, 0) {
                    pipe.feed(&sim::frame(true, op, &b));
                }
                self.acked.push(AckCall { emit, args: json_values(&args) });
            }
        }
        match self.reacts.pop_front() {
            Some(React::Ping) => {
                self.mid_pings += self.open.is_some() as usize;
                self.pings += 1;
                pipe.feed(&sim::frame(true, sim::TEXT, b"2"));
            }
            Some(React::Pong) => pipe.feed(&sim::frame(true, sim::TEXT, b"3")),
            Some(React::Event { ns: n, ev: e, id, args, style }) => {
                self.tags += 1;
                let mut all = vec![J::Str(ev(e).into()), J::U(self.tags)];
                all.extend(args);
                for (op, b) in server_packet(false, ns(n), id, &all, style, 0) {
                    pipe.feed(&sim::frame(true, op, &b));
                }
                self.events.push(EventIn { ns: ns(n).into(), name: ev(e).into(), id, tag: Some(self.tags), args: json_values(&all) });
            }
            Some(React::Nothing) | None => (),
        }
    }
}

#[derive(Default)]
struct Stage {
    active: AtomicBool,
    preempted: AtomicU64,
    slow: AtomicU64,
    turn: Mutex<Turn>,
    done: Mutex<Option<Receiver<()>>>,
}

impl Stage {
    /// The client's task was woken by the user's thread.
    fn woken(self: &Arc<Self>) {
        if !self.active.swap(false, Ordering::SeqCst) {
            return;
        }
        self.preempted.fetch_add(1, Ordering::SeqCst);
        let (tx, rx) = channel();
        let me = self.clone();
        submit(Box::new(move || {
            let mut t = lock(&me.turn);
            if let Err(p) = crate::runner::no_panic(|| t.run()) {
                t.error.get_or_insert(p);
            }
            drop(t);
            let _ = tx.send(());
        }));
        // The task may be waiting for a lock the caller holds: carry on then.
        let limit = if self.slow.load(Ordering::SeqCst) > 2 { 2 } else { 30 };
        match rx.recv_timeout(Duration::from_millis(limit)) {
            Ok(()) => self.active.store(true, Ordering::SeqCst),
            Err(_) => {
                self.slow.fetch_add(1, Ordering::SeqCst);
                *lock(&self.done) = Some(rx);
            }
        }
    }

    fn join(&self) {
        self.active.store(false, Ordering::SeqCst);
        if let Some(rx) = lock(&self.done).take() {
            if rx.recv_timeout(Duration::from_secs(60)).is_err() {
                println!("a preempting task does not finish within 60 s");
                std::process::exit(crate::runner::STUCK);
            }
        }
    }
}

struct Raced {
    calls: Vec<Call>,
    acks: Vec<AckCall>,
    sends: Vec<Sent>,
    frames: Vec<Frame>,
    alive: bool,
    pings: usize,
    mid_pings: usize,
    acked: Vec<AckCall>,
    events: Vec<EventIn>,
    preempted: u64,
    bad_args: Option<String>,
}

fn play(c: &Race) -> Result<Raced, String> {
    let mut s = Session::start(&c.conf)?;
    let world = s.world.clone();
    for (i, (n, e, act)) in c.handlers.iter().enumerate() {
        let h = handler(&world, i, act.clone());
        match e {
            Some(e) => s.client().set_namespace_event_callback(ns(*n), ev(*e), h),
            None => s.client().set_namespace_fallback_callback(ns(*n), h),
        }
    }
    s.idle()?;
    let stage = Arc::new(Stage::default());
    for (flag, _) in &s.exec.tasks {
        let st = stage.clone();
        flag.on_wake(Box::new(move || st.woken()));
    }
    {
        let mut t = lock(&stage.turn);
        t.exec = std::mem::take(&mut s.exec);
        t.reader = std::mem::take(&mut s.reader);
        t.seen = t.reader.frames.len();
        t.pipe = Some(s.pipe.clone());
        t.tags = 1000;
    }
    let mut r = Ok(());
    for (i, op) in c.ops.iter().enumerate() {
        {
            let mut t = lock(&stage.turn);
            t.reacts = op.reacts.iter().cloned().collect();
            t.ack = op.ack.clone();
        }
        stage.active.store(op.eager, Ordering::SeqCst);
        r = perform(&mut s, i, op);
        stage.join();
        lock(&stage.turn).run();
        if r.is_err() {
            break;
        }
    }
    let mut t = lock(&stage.turn);
    s.exec = std::mem::take(&mut t.exec);
    r?;
    if let Some(e) = t.error.take() {
        return Err(e);
    }
    let alive = s.exec.live_tasks() > 0;
    let w = lock(&world);
    Ok(Raced {
        calls: w.calls.clone(),
        acks: w.acks.clone(),
        sends: w.sends.clone(),
        frames: t.reader.frames.clone(),
        alive,
        pings: t.pings,
        mid_pings: t.mid_pings,
        acked: t.acked.clone(),
        events: t.events.clone(),
        preempted: stage.preempted.load(Ordering::SeqCst),
        bad_args: w.bad_args.clone(),
    })
}

fn perform(s: &mut Session, i: usize, op: &Op) -> Result<(), String> {
    let world = s.world.clone();
    match &op.what {
        What::Emit { ns: n, ev: e, binary, cb, args } => {
            let mut all = vec![S::U64(i as u64)];
            all.extend(args.iter().cloned());
            let mut b = s.client().namespace_emit(ns(*n), ev(*e)).binary(*binary);
            if *cb {
                b = b.callback(ack_handler(&world, i));
            }
            let mut b = b.args();
            for a in &all {
                b.arg_ref(&Ser(a)).map_err(|e| format!("argument refused: {e}"))?;
            }
            lock(&world).sends.push(Sent::Emit { step: i, ns: ns(*n).into(), name: ev(*e).into(), args: values(&all), cb: *cb, files: files(&all, *binary) });
            b.send();
        }
        What::Held { nth, args, binary } => {
            let h = {
                let mut w = lock(&world);
                if w.held.is_empty() {
                    return Ok(());
                }
                let k = *nth as usize % w.held.len();
                w.held.remove(k)
            };
            reply(&world, h.0, h.1, args, *binary, true);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- oracles

fn covered(o: &Raced) -> Covered {
    let mut cov = Covered::default();
    cov.label("preempted", o.preempted > 0);
    cov.label("acked-at-once", !o.acked.is_empty());
    cov.label("ping-before-attachments", o.mid_pings > 0);
    cov.label("event-during-send", !o.events.is_empty());
    cov.label("handler-ran", !o.calls.is_empty());
    cov
}

fn c12_race(c: &Race) -> CheckResult {
    let o = play(c)?;
    if let Some(e) = &o.bad_args {
        return Err(e.clone());
    }
    if o.acks != o.acked {
        return Err(format!("ack callback calls {:?}, acknowledgements sent {:?} (connection up: {})", o.acks, o.acked, o.alive));
    }
    if !o.alive {
        return Err("the connection ended though every acknowledgement was due".into());
    }
    let mut cov = covered(&o);
    cov.nontrivial = o.preempted > 0 && !o.acked.is_empty();
    Ok(cov)
}

fn c13_race(c: &Race) -> CheckResult {
    let o = play(c)?;
    if !o.alive {
        // other properties
        return Ok(Covered::trivial());
    }
    let wire = read_wire(&o.frames, false)?;
    let wire = packets(&wire);
    let mut got: Vec<String> = vec![];
    let mut emits = vec![];
    for p in &wire {
        if p.ack {
            got.push(format!("{:?} {:?} {} with {} attachments", p.ns, p.id, Value::Array(p.args.clone()), p.attachments));
        } else {
            emits.push(p);
        }
    }
    let mut want: Vec<String> = vec![];
    let mut k = 0;
    for s in &o.sends {
        match s {
            Sent::Emit { ns, name, args, cb, files, .. } => {
                let mut all = vec![Value::String(name.clone())];
                all.extend(args.iter().cloned());
                let Some(p) = emits.get(k) else { return Err(format!("missing on the wire: {s:?}")) };
                if &p.ns != ns || p.id.is_some() != *cb || p.args != all || p.attachments != *files {
                    return Err(format!("emit {k} on the wire is {p:?}, sent was {s:?}"));
                }
                k += 1;
            }
            Sent::Reply { tag, args, files } => {
                let Some(e) = o.events.iter().find(|e| e.tag == *tag) else { return Ok(Covered::trivial()) };
                want.push(format!("{:?} {:?} {} with {files} attachments", e.ns, e.id, Value::Array(args.clone())));
            }
        }
    }
    if k < emits.len() {
        return Err(format!("emit on the wire that was never sent: {:?}", emits[k]));
    }
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("replies on the wire {got:?}, sent {want:?}"));
    }
    let mut cov = covered(&o);
    cov.nontrivial = o.preempted > 0 && wire.len() > 1 && o.frames.len() > wire.len();
    Ok(cov)
}

fn c14_race(c: &Race) -> CheckResult {
    let o = play(c)?;
    if !o.alive {
        return Ok(Covered::trivial());
    }
    let n = o.frames.iter().filter(|f| matches!(f, Frame::Text(t) if t == "3")).count();
    if n != o.pings {
        return Err(format!("{n} pongs for {} pings", o.pings));
    }
    let mut cov = covered(&o);
    cov.nontrivial = o.preempted > 0 && o.pings > 0;
    Ok(cov)
}

// ---------------------------------------------------------------- generators

fn strategy(t: Tier) -> BoxedStrategy<Race> {
    let react = one_of![
        2 => Just(React::Nothing),
        4 => Just(React::Ping),
        1 => Just(React::Pong),
        4 => (n(), e(), gen::opt_id(), j_args(), gen::style()).prop_map(|(ns, ev, id, args, style)| React::Event { ns, ev, id, args, style }),
    ];
    let what = one_of![
        5 => (n(), e(), any::<bool>(), any::<bool>(), s_args()).prop_map(|(ns, ev, binary, cb, args)| What::Emit { ns, ev, binary, cb, args }),
        2 => (any::<u16>(), s_args(), any::<bool>()).prop_map(|(nth, args, binary)| What::Held { nth, args, binary }),
    ];
    let ack = one_of![1 => Just(None), 2 => (j_args(), gen::style()).prop_map(Some)];
    let op = (one_of![4 => Just(true), 1 => Just(false)], what, vec(react, 0..4), ack).prop_map(|(eager, what, reacts, ack)| Op { eager, what, reacts, ack });
    let k = if t == Tier::Quick { 6 } else { 16 };
    (conf(), vec((n(), one_of![2 => e().prop_map(Some), 1 => Just(None)], act()), 1..5), vec(op, 1..k))
        .prop_map(|(conf, handlers, ops)| Race { conf, handlers, ops })
        .boxed()
}

pub fn part_of(id: &str) -> Box<dyn AnyPart> {
    const RULE: &str = "The client's task runs inside the user's calls, at every point where they wake it, and the peer reacts to each frame at once (ping, event, acknowledgement); non-trivial: preempted and ";
    match id {
        "C12" => part!("preempted", concat_rule(RULE, "at least one acknowledgement."), strategy, c12_race, 40_000, 1_500_000),
        "C13" => part!("preempted", concat_rule(RULE, "at least two packets, one with attachments or a pong in between."), strategy, c13_race, 40_000, 1_500_000),
        _ => part!("preempted", concat_rule(RULE, "at least one ping."), strategy, c14_race, 40_000, 1_500_000),
    }
}

fn concat_rule(a: &str, b: &str) -> &'static str {
    Box::leak(format!("{a}{b}").into_boxed_str())
}
