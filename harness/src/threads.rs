//! C11-C14 on real threads: the client's task on one, the user on another,
//! replies from a third, the peer on a fourth. The histories of calls are
//! checked afterwards; a run is not repeatable step by step.
use crate::client::part;
use crate::gen::{Ser, J, S};
use crate::runner::{AnyPart, CheckResult, Covered, Part, Tier, STUCK};
use crate::session::*;
use crate::sim::{self, Frame};
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_client::{protocol::Args, AckBuilder, EventCallback};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::channel;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Toggle {
    SetEvent,
    ClearEvent,
    SetFallback,
    ClearFallback,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    conf: Conf,
    toggles: Vec<Toggle>,
    /// The user emits once in so many rounds of toggles.
    every: u8,
    emits: Vec<(Vec<S>, bool, bool)>,
    /// The server's events, in turn: to the toggled name or another one, with
    /// an id or not.
    events: Vec<(bool, bool, Vec<J>)>,
    count: u16,
    replies: Vec<(Vec<S>, bool)>,
    /// How long the user waits between changes.
    pause: u8,
    /// A ping after so many events.
    pings: u8,
}

/// One change of the handlers: when it began and when it was done.
#[derive(Clone, Copy, Debug)]
struct Change {
    what: Toggle,
    from: u64,
    to: u64,
}

#[derive(Clone, Debug)]
struct Ran {
    handler: usize,
    at: u64,
    args: Vec<Value>,
    has_ack: bool,
}

#[derive(Default)]
struct Log {
    ran: Vec<Ran>,
    acks: Vec<AckCall>,
}

struct Fed {
    msg: bool,
    id: Option<u64>,
    at: u64,
    args: Vec<Value>,
}

struct Done {
    changes: Vec<Change>,
    ran: Vec<Ran>,
    fed: Vec<Fed>,
    emits: Vec<Sent>,
    replies: Vec<Sent>,
    acks: Vec<AckCall>,
    acked: Vec<AckCall>,
    frames: Vec<Frame>,
    pings: usize,
    alive: bool,
}

/// Changes in one run.
const MOST: usize = 4000;

fn stuck(what: &str) -> ! {
    println!("threads: {what}");
    std::process::exit(STUCK);
}

fn play(c: &Threads) -> Result<Done, String> {
    let mut s = Session::start(&c.conf)?;
    let clock = Arc::new(AtomicU64::new(1));
    let tick = {
        let c = clock.clone();
        move || c.fetch_add(1, SeqCst)
    };
    let log: Arc<Mutex<Log>> = Default::default();
    let (reply_tx, reply_rx) = channel::<(AckBuilder, Option<u64>)>();
    let fence = Arc::new(AtomicBool::new(false));
    let f = fence.clone();
    s.client().set_namespace_event_callback("/fence", "fence", move |_: &Args, _| f.store(true, SeqCst));
    s.idle()?;
    // The executor's thread.
    let wake: Arc<(Mutex<bool>, Condvar)> = Default::default();
    for (flag, _) in &s.exec.tasks {
        let w = wake.clone();
        flag.on_wake(Box::new(move || {
            *lock(&w.0) = true;
            w.1.notify_one();
        }));
    }
    let stop = AtomicBool::new(false);
    let resting = AtomicBool::new(false);
    let fed_all = AtomicBool::new(false);
    let user_done = AtomicBool::new(false);
    let user_ready = AtomicBool::new(false);
    let sent = AtomicUsize::new(0);
    // replies: handles handed out, replies sent
    let handed = Arc::new(AtomicUsize::new(0));
    let replied = AtomicUsize::new(0);
    let pipe = s.pipe.clone();
    let mut client = s.client.take().unwrap();
    let mut exec = std::mem::take(&mut s.exec);
    let mut reader = std::mem::take(&mut s.reader);
    let first = reader.frames.len();
    let (mut changes, mut emits) = (vec![], vec![]);
    let t0 = Instant::now();
    let over = || t0.elapsed() > Duration::from_secs(60);
    let (fed, acked, pings, replies, exec, reader, error) = std::thread::scope(|scope| {
        let (stop, resting, fed_all, user_done, user_ready, sent, replied) = (&stop, &resting, &fed_all, &user_done, &user_ready, &sent, &replied);
        let handed2 = handed.clone();
        let wake2 = wake.clone();
        let task = scope.spawn(move || {
            let mut error = None;
            loop {
                if let Err(e) = crate::runner::no_panic(|| exec.idle()).and_then(|r| r) {
                    error.get_or_insert(e);
                    resting.store(true, SeqCst);
                    return (exec, error);
                }
                let mut g = lock(&wake2.0);
                while !*g {
                    if stop.load(SeqCst) {
                        return (exec, error);
                    }
                    resting.store(true, SeqCst);
                    g = wake2.1.wait_timeout(g, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner()).0;
                }
                resting.store(false, SeqCst);
                *g = false;
            }
        });
        let replier = scope.spawn(move || {
            let mut out = vec![];
            let mut k = 0;
            while let Ok((ack, tag)) = reply_rx.recv() {
                let (args, binary) = &c.replies[k % c.replies.len()];
                k += 1;
                let mut b = ack.binary(*binary).args();
                for a in args {
                    b.arg_ref(&Ser(a)).expect("argument serializes");
                }
                out.push(Sent::Reply { tag, args: values(args), files: files(args, *binary) });
                b.send();
                sent.fetch_add(1, SeqCst);
                replied.fetch_add(1, SeqCst);
            }
            out
        });
        let (pipe2, fence2, tick2) = (pipe.clone(), fence.clone(), tick.clone());
        let peer = scope.spawn(move || {
            let (mut fed, mut acked, mut pings) = (vec![], vec![], 0usize);
            while !user_ready.load(SeqCst) {
                std::thread::yield_now();
            }
            let mut seen = first;
            let mut error = None;
            let mut quiet: Option<Instant> = None;
            let mut fence_sent = false;
            let (mut wired, mut attachments) = (0usize, 0u64);
            let (mut open, mut pongs): (Option<(u64, u64, bool)>, usize) = (None, 0);
            loop {
                if let Err(e) = reader.read(&pipe2) {
                    error = Some(e);
                    break;
                }
                // what the client wrote
                for f in &reader.frames[seen..] {
                    match f {
                        Frame::Text(t) if t == "3" => pongs += 1,
                        Frame::Text(t) => {
                            if let Some(crate::refparse::Verdict::Accept(p)) = t.strip_prefix('4').map(crate::refparse::packet) {
                                attachments = p.count.unwrap_or(0);
                                if p.is_event() {
                                    if let (Some(id), Some(k)) = (p.id, p.args().get(1).and_then(|a| a.parse().ok())) {
                                        open = Some((id, k, true));
                                    }
                                }
                            }
                            wired += 1;
                        }
                        Frame::Bin(_) => attachments = attachments.saturating_sub(1),
                        _ => (),
                    }
                    if attachments == 0 {
                        if let Some((id, k, _)) = open.take() {
                            let args = [J::U(k)];
                            for (op, b) in server_packet(true, "/", Some(id), &args, 0, 0) {
                                pipe2.feed(&sim::frame(true, op, &b));
                            }
                            acked.push(AckCall { emit: k as usize, args: json_values(&args) });
                        }
                    }
                }
                seen = reader.frames.len();
                // the next event
                let n = fed.len();
                if n < c.count as usize {
                    if pipe2.unread() < 300 {
                        let (msg, id, args) = &c.events[n % c.events.len()];
                        let id = id.then_some(n as u64);
                        let mut all = vec![J::Str(if *msg { "msg" } else { "other" }.into()), J::U(n as u64)];
                        all.extend(args.iter().cloned());
                        let mut bytes = vec![];
                        for (op, b) in server_packet(false, "/", id, &all, 0, 0) {
                            bytes.extend(sim::frame(true, op, &b));
                        }
                        fed.push(Fed { msg: *msg, id, at: tick2(), args: json_values(&all) });
                        pipe2.feed(&bytes);
                        if c.pings > 0 && n % c.pings as usize == 0 {
                            pings += 1;
                            pipe2.feed(&sim::frame(true, sim::TEXT, b"2"));
                        }
                    } else {
                        std::thread::yield_now();
                    }
                    if over() {
                        stuck("the client does not read");
                    }
                    continue;
                }
                fed_all.store(true, SeqCst);
                if user_done.load(SeqCst) && !fence_sent {
                    fence_sent = true;
                    pipe2.feed(&sim::frame(true, sim::TEXT, b"42/fence,[\"fence\"]"));
                }
                // All done when everything sent is written and acknowledged, or nothing moves.
                let fenced = fence2.load(SeqCst);
                if fenced && replied.load(SeqCst) == handed2.load(SeqCst) && wired >= sent.load(SeqCst) && pongs >= pings && open.is_none() && resting.load(SeqCst) && pipe2.unread() == 0 {
                    // the last acknowledgements have been taken
                    let q = quiet.get_or_insert_with(Instant::now);
                    if q.elapsed() > Duration::from_micros(300) {
                        break;
                    }
                } else if resting.load(SeqCst) && fence_sent && replied.load(SeqCst) == handed2.load(SeqCst) {
                    if quiet.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(3) {
                        break;
                    }
                } else {
                    quiet = None;
                }
                if over() {
                    stuck("the session does not come to rest");
                }
                std::thread::yield_now();
            }
            (fed, acked, pings, reader, error)
        });
        // The user.
        let mut made: Vec<Option<EventCallback>> = vec![];
        for id in 0..MOST + c.toggles.len() {
            if !matches!(c.toggles[id % c.toggles.len()], Toggle::SetEvent | Toggle::SetFallback) {
                made.push(None);
                continue;
            }
            let (l, tx, tk, hd) = (log.clone(), reply_tx.clone(), tick.clone(), handed.clone());
                let h: EventCallback = (move |args: &Args, ack: Option<AckBuilder>| {
                    let at = tk();
                    let got: Vec<Value> = args.iter().map(|a| a.to_json_value().unwrap_or(Value::Null)).collect();
                    let tag = tag_of(&got);
                    lock(&l).ran.push(Ran { handler: id, at, args: got, has_ack: ack.is_some() });
                    if let Some(a) = ack {
                        hd.fetch_add(1, SeqCst);
                        let _ = tx.send((a, tag));
                    }
                }).into();
            made.push(Some(h));
        }
        user_ready.store(true, SeqCst);
        let mut round = 0usize;
        while !fed_all.load(SeqCst) && changes.len() < MOST {
            for t in &c.toggles {
                let id = changes.len();
                let h = || made[id].clone().expect("a setter");
                let from = tick();
                match t {
                    Toggle::SetEvent => client.set_event_callback("msg", h()),
                    Toggle::ClearEvent => client.clear_event_callback("msg"),
                    Toggle::SetFallback => client.set_fallback_callback(h()),
                    Toggle::ClearFallback => client.clear_fallback_callback(),
                }
                changes.push(Change { what: *t, from, to: tick() });
                // The client's thread must get at the handlers, too.
                for _ in 0..c.pause as u32 * 4 {
                    std::hint::spin_loop();
                }
            }
            if round % (c.every as usize + 1) == 0 && emits.len() < 300 {
                let k = emits.len();
                let (args, binary, cb) = &c.emits[k % c.emits.len()];
                let mut all = vec![S::U64(k as u64)];
                all.extend(args.iter().cloned());
                let mut b = client.emit("msg").binary(*binary);
                if *cb {
                    let l = log.clone();
                    b = b.callback(move |args: &Args| {
                        let got = args.iter().map(|a| a.to_json_value().unwrap_or(Value::Null)).collect();
                        lock(&l).acks.push(AckCall { emit: k, args: got });
                    });
                }
                let mut b = b.args();
                for a in &all {
                    b.arg_ref(&Ser(a)).expect("argument serializes");
                }
                b.send();
                sent.fetch_add(1, SeqCst);
                emits.push(Sent::Emit { step: k, ns: "/".into(), name: "msg".into(), args: values(&all), cb: *cb, files: files(&all, *binary) });
            }
            round += 1;
        }
        user_done.store(true, SeqCst);
        let (fed, acked, pings, reader, e1) = peer.join().expect("peer");
        stop.store(true, SeqCst);
        wake.1.notify_all();
        let (exec, e2) = task.join().expect("task");
        // No handler can be called any more: the handles end with the client.
        let alive = exec.live_tasks() > 0;
        drop((reply_tx, made));
        drop(client);
        let mut exec = exec;
        let e3 = exec.idle().err();
        let replies = replier.join().expect("replier");
        (fed, acked, pings, replies, alive, reader, e1.or(e2).or(e3))
    });
    if let Some(e) = error {
        return Err(e);
    }
    let mut l = lock(&log);
    Ok(Done { changes, ran: std::mem::take(&mut l.ran), fed, emits, replies, acks: std::mem::take(&mut l.acks), acked, frames: reader.frames[first..].to_vec(), pings, alive: exec })
}

/// Is there, for each event in turn, a moment at which the handlers in force
/// explain what ran?
fn explain(o: &Done) -> Result<(), String> {
    let k = o.changes.len();
    // handlers in force after the first i changes
    let mut states: Vec<(Option<usize>, Option<usize>)> = vec![(None, None)];
    for (i, c) in o.changes.iter().enumerate() {
        let mut s = *states.last().unwrap();
        match c.what {
            Toggle::SetEvent => s.0 = Some(i),
            Toggle::ClearEvent => s.0 = None,
            Toggle::SetFallback => s.1 = Some(i),
            Toggle::ClearFallback => s.1 = None,
        }
        states.push(s);
    }
    let mut next = 0; // next call
    let mut state = 0;
    let mut earliest = 0;
    for (j, e) in o.fed.iter().enumerate() {
        let call = o.ran.get(next).filter(|r| r.args == e.args);
        earliest = earliest.max(e.at);
        let latest = o.ran.get(next).map_or(u64::MAX, |r| r.at);
        let want = call.map(|r| r.handler);
        if let Some(r) = call {
            if r.has_ack != e.id.is_some() {
                return Err(format!("event {j}: reply handle {}", r.has_ack));
            }
        }
        let mut found = None;
        let mut s = state;
        while s <= k {
            if s > 0 && o.changes[s - 1].from > latest {
                break;
            }
            let over = s < k && o.changes[s].to < earliest;
            if !over {
                let (ev, fb) = states[s];
                let h = if e.msg { ev.or(fb) } else { fb };
                if h == want {
                    found = Some(s);
                    break;
                }
            }
            s += 1;
        }
        match found {
            Some(s) => state = s,
            None => {
                let near: Vec<_> = o.changes[state.saturating_sub(1)..].iter().take(6).collect();
                return Err(match want {
                    Some(h) => format!("event {j} (fed at {}) runs the handler set by change {h} at {}, which is not in force at any time between; changes: {near:?}", e.at, call.unwrap().at),
                    None => format!("event {j} (fed at {}) runs no handler though one is in force all the time up to {latest}; the next call is {:?}; changes from {state}: {near:?}", e.at, o.ran.get(next)),
                });
            }
        }
        if let Some(r) = call {
            earliest = r.at;
            next += 1;
        }
    }
    if next < o.ran.len() {
        return Err(format!("call {:?} belongs to no event at its place", o.ran[next]));
    }
    Ok(())
}

fn cover(o: &Done) -> Covered {
    let mut cov = Covered::default();
    cov.label("handlers-ran", !o.ran.is_empty());
    cov.label("over-1000-changes", o.changes.len() > 1000);
    cov.label("replies", !o.replies.is_empty());
    cov.label("acks", !o.acked.is_empty());
    cov.label("pings", o.pings > 0);
    cov.label("several-handlers-ran", o.ran.windows(2).any(|w| w[0].handler != w[1].handler));
    cov
}

fn c11_check(c: &Threads) -> CheckResult {
    let o = play(c)?;
    if !o.alive {
        return Err("the connection ended".into());
    }
    explain(&o)?;
    let mut cov = cover(&o);
    cov.nontrivial = o.ran.windows(2).any(|w| w[0].handler != w[1].handler);
    Ok(cov)
}

fn c12_check(c: &Threads) -> CheckResult {
    let o = play(c)?;
    if o.acks != o.acked || !o.alive {
        let at = o.acks.iter().zip(&o.acked).take_while(|(a, b)| a == b).count();
        return Err(format!("{} ack callback calls for {} acknowledgements, first difference at {at}: {:?} for {:?} (connection up: {})", o.acks.len(), o.acked.len(), o.acks.get(at), o.acked.get(at), o.alive));
    }
    let mut cov = cover(&o);
    cov.nontrivial = o.acks.len() > 1;
    Ok(cov)
}

fn c13_check(c: &Threads) -> CheckResult {
    let o = play(c)?;
    if !o.alive {
        return Ok(Covered::trivial());
    }
    let wire = read_wire(&o.frames, false)?;
    let (mut e, mut r) = (o.emits.iter(), o.replies.iter());
    for p in packets(&wire) {
        let ok = if p.ack {
            match r.next() {
                Some(Sent::Reply { tag, args, files }) => p.id == *tag && p.args == *args && p.attachments == *files,
                _ => false,
            }
        } else {
            match e.next() {
                Some(Sent::Emit { args, cb, files, .. }) => p.attachments == *files && p.id.is_some() == *cb && p.args[1..] == args[..] && p.args[0] == "msg",
                _ => false,
            }
        };
        if !ok {
            return Err(format!("packet {p:?} on the wire is not the next one of its thread"));
        }
    }
    if let Some(s) = e.next().or(r.next()) {
        return Err(format!("missing on the wire: {s:?}"));
    }
    let mut cov = cover(&o);
    cov.nontrivial = !o.replies.is_empty() && !o.emits.is_empty();
    Ok(cov)
}

fn c14_check(c: &Threads) -> CheckResult {
    let o = play(c)?;
    let n = o.frames.iter().filter(|f| matches!(f, Frame::Text(t) if t == "3")).count();
    if o.alive && n != o.pings {
        return Err(format!("{n} pongs for {} pings", o.pings));
    }
    let mut cov = cover(&o);
    cov.nontrivial = o.pings > 0;
    Ok(cov)
}

fn strategy(t: Tier) -> BoxedStrategy<Threads> {
    use Toggle::*;
    let toggles = one_of![
        3 => Just(vec![SetEvent]),
        2 => Just(vec![SetFallback]),
        3 => Just(vec![SetEvent, ClearFallback, SetFallback, ClearEvent]),
        2 => Just(vec![SetFallback, SetEvent, ClearEvent]),
        2 => vec(one_of![2 => Just(SetEvent), 2 => Just(SetFallback), 1 => Just(ClearEvent), 1 => Just(ClearFallback)], 1..6),
    ];
    let k = if t == Tier::Quick { 120u16 } else { 400 };
    let events = vec((one_of![4 => Just(true), 1 => Just(false)], any::<bool>(), one_of![3 => Just(vec![]), 1 => vec(small_j(), 1..3)]), 1..5);
    (conf_fast(), toggles, 0u8..12, vec((one_of![1 => Just(vec![]), 1 => vec(small_s(), 1..3)], any::<bool>(), any::<bool>()), 1..4), events, 20..k, vec((one_of![1 => Just(vec![]), 1 => vec(small_s(), 1..3)], any::<bool>()), 1..3), (one_of![1 => Just(0u8), 2 => 1u8..20], one_of![3 => Just(0u8), 2 => 1u8..20, 2 => 5u8..255]))
        .prop_map(|(conf, toggles, every, emits, events, count, replies, (pings, pause))| Threads { conf, toggles, pause, every, emits, events, count, replies, pings })
        .boxed()
}

fn conf_fast() -> BoxedStrategy<Conf> {
    let plan = || one_of![3 => Just(vec![]), 1 => vec(5u16..200, 1..4)];
    (plan(), plan()).prop_map(|(read_plan, write_plan)| Conf { read_plan, write_plan, tasks_first: false, names: vec![], spurious: false }).boxed()
}

pub fn part_of(id: &str) -> Box<dyn AnyPart> {
    match id {
        "C11" => part!("threads", "Client task, user, replies and peer on real threads; the calls must be explained by handlers in force at some moment between arrival and call; non-trivial: different handlers ran.", strategy, c11_check, 6000, 300_000),
        "C12" => part!("threads", "Client task, user, replies and peer on real threads; non-trivial: at least two acknowledgements.", strategy, c12_check, 3000, 200_000),
        "C13" => part!("threads", "Client task, user, replies and peer on real threads; non-trivial: emits and replies.", strategy, c13_check, 3000, 150_000),
        _ => part!("threads", "Client task, user, replies and peer on real threads; non-trivial: at least one ping.", strategy, c14_check, 2000, 100_000),
    }
}
