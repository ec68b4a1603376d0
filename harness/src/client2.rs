//! C15-C17, C19, C20: chunking, connecting, closing, handlers using the
//! client, URLs.
use crate::client::{part, SIM};
use crate::gen::{self, S};
use crate::proto::{eng_valid_open, eng_ws, Eng};
use crate::runner::{last_panic, panics, CheckResult, Covered, Part, Tier};
use crate::session::*;
use crate::sim::{self, clock, pass_time, Driven, End, Exec, Frame, Pipe, Reader};
use crate::Property;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_client::{Client, Error};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum In {
    Event { ns: u8, ev: u8, id: Option<u64>, args: Vec<gen::J>, extra: u8, style: u64 },
    Ack { nth: u8, args: Vec<gen::J>, style: u64 },
    Ping,
    Pong,
    ConnectNs(u8),
    Long(u32, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Finish {
    Open,
    CloseFrame(u16),
    Eof,
    Error,
    Bad(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chunked {
    handlers: Vec<Step>,
    emits: Vec<Step>,
    msgs: Vec<In>,
    finish: Finish,
    // the other way to deliver the same messages
    conf: Conf,
    merged: bool,
    early_pings: u8,
    frag: Vec<u64>,
    /// Where the byte stream is cut between quiet points.
    cuts: Vec<u16>,
}

struct Seen {
    calls: Vec<Call>,
    acks: Vec<AckCall>,
    wire: Vec<Wire>,
    close: Option<bool>,
    alive: bool,
}

fn c15_run(c: &Chunked, base: bool) -> Result<Option<Seen>, String> {
    let plain = Conf { read_plan: vec![], write_plan: vec![], tasks_first: false, names: c.conf.names.clone(), spurious: false };
    let mut first = sim::frame(true, sim::TEXT, sim::OPEN.as_bytes());
    for i in 0..c.early_pings % 3 {
        if !base && c.frag.first().map_or(false, |f| f % 2 == 1) {
            first.extend(sim::frame(true, sim::PING, &[i]));
        }
        first.extend(sim::frame(true, sim::TEXT, b"2"));
    }
    let s = if base { Session::start_with(&plain, &first, false)? } else { Session::start_with(&c.conf, &first, c.merged)? };
    let mut i = Interp::new(s);
    // the answers to early pings before the emissions
    i.s.idle()?;
    for (k, st) in c.handlers.iter().chain(&c.emits).enumerate() {
        i.step(k, st)?;
    }
    i.s.idle()?;
    let Ok(w) = i.s.wire() else { return Ok(None) };
    let ids: Vec<(String, u64)> = packets(&w).iter().filter_map(|p| p.id.map(|id| (p.ns.clone(), id))).collect();
    let mut s = i.s;
    // Messages as frames; byte positions that end a message.
    let mut answered = vec![];
    let mut msgs: Vec<(u8, Vec<u8>)> = vec![];
    for (k, m) in c.msgs.iter().enumerate() {
        match m {
            In::Event { ns: n, ev: e, id, args, extra, style } => {
                let mut all = vec![gen::J::Str(ev(*e).into()), gen::J::U(k as u64)];
                all.extend(args.iter().cloned());
                msgs.extend(server_packet(false, ns(*n), *id, &all, *style, *extra));
            }
            In::Ack { nth, args, style } => {
                if ids.is_empty() {
                    continue;
                }
                let a = *nth as usize % ids.len();
                if answered.contains(&a) {
                    continue;
                }
                answered.push(a);
                msgs.extend(server_packet(true, &ids[a].0, Some(ids[a].1), args, *style, 0));
            }
            In::Ping => msgs.push((sim::TEXT, b"2".to_vec())),
            In::Pong => msgs.push((sim::TEXT, b"3".to_vec())),
            In::ConnectNs(n) => msgs.push((sim::TEXT, format!("40{},", ns(n % 6 + 1)).into_bytes())),
            In::Long(len, bin) => {
                let len = *len as usize;
                let all = vec![gen::J::Str("msg".into()), gen::J::U(k as u64), if *bin { gen::J::Bin((0..len).map(|i| i as u8).collect()) } else { gen::J::Str("é".repeat(len / 2)) }];
                msgs.extend(server_packet(false, "/", None, &all, 0, 0));
            }
        }
    }
    let tail = match &c.finish {
        Finish::CloseFrame(code) => sim::frame(true, sim::CLOSE, &if *code == 0 { vec![] } else { code.to_be_bytes().to_vec() }),
        Finish::Bad(b) => bad_bytes(b),
        _ => vec![],
    };
    if base {
        for (op, p) in &msgs {
            s.pipe.feed(&sim::frame(true, *op, p));
            s.idle()?;
        }
        s.pipe.feed(&tail);
    } else {
        let mut bytes = vec![];
        for (k, (op, p)) in msgs.iter().enumerate() {
            let how = if c.frag.is_empty() { 0 } else { c.frag[k % c.frag.len()] };
            // every third way: one plain frame
            bytes.extend(sim::message(*op, p, if how % 3 == 0 { 0 } else { how.wrapping_add(k as u64 * 7919) | 1 }));
        }
        bytes.extend(tail);
        let mut cuts: Vec<usize> = c.cuts.iter().map(|f| *f as usize * bytes.len() / 65536).collect();
        cuts.sort();
        let mut at = 0;
        for cut in cuts {
            s.pipe.feed(&bytes[at..cut]);
            s.idle()?;
            at = cut;
        }
        s.pipe.feed(&bytes[at..]);
    }
    match c.finish {
        Finish::Eof => s.pipe.end(End::Eof),
        Finish::Error => s.pipe.end(End::Error),
        Finish::CloseFrame(_) => {
            s.idle()?;
            s.pipe.end(End::Eof);
        }
        _ => (),
    }
    s.idle()?;
    let alive = s.exec.live_tasks() > 0;
    let wire = match s.wire() {
        Ok(w) => w.into_iter().filter(|w| *w != Wire::WsPong).collect(),
        Err(_) => return Ok(None),
    };
    let close = if alive { None } else { s.close_now()?.map(|r| r.is_ok()) };
    let w = lock(&s.world);
    Ok(Some(Seen { calls: w.calls.clone(), acks: w.acks.clone(), wire, close, alive }))
}

fn c15_check(c: &Chunked) -> CheckResult {
    let mut cov = Covered::default();
    let (Some(a), Some(b)) = (c15_run(c, true)?, c15_run(c, false)?) else { return Ok(cov) };
    let diff = |what: &str, x: String, y: String| Err(format!("{what} differ: one message at a time {x}; chunked differently {y}"));
    if a.calls != b.calls {
        return diff("handler calls", format!("{:?}", a.calls), format!("{:?}", b.calls));
    }
    if a.acks != b.acks {
        return diff("ack callback calls", format!("{:?}", a.acks), format!("{:?}", b.acks));
    }
    if a.alive != b.alive || a.close != b.close {
        return diff("endings", format!("up: {}, close succeeds: {:?}", a.alive, a.close), format!("up: {}, close succeeds: {:?}", b.alive, b.close));
    }
    let strip = |w: &[Wire]| w.iter().filter(|w| !matches!(w, Wire::Close(_))).cloned().collect::<Vec<_>>();
    let (x, y) = (strip(&a.wire), strip(&b.wire));
    // What is underway when the connection ends may or may not get out.
    let n = x.len().min(y.len());
    if x[..n] != y[..n] || a.alive && x.len() != y.len() {
        return diff("packets sent", format!("{:?}", a.wire), format!("{:?}", b.wire));
    }
    cov.label("handlers-ran", !a.calls.is_empty());
    cov.label("ended", !a.alive);
    cov.label("ended-orderly", a.close == Some(true));
    cov.label("merged-with-handshake", c.merged);
    cov.label("fragmented", c.frag.iter().any(|f| f % 3 != 0));
    cov.label("long-message", c.msgs.iter().any(|m| matches!(m, In::Long(..))));
    cov.nontrivial = c.msgs.len() > 1 && (!a.calls.is_empty() || !a.wire.is_empty());
    Ok(cov)
}

fn c15_strategy(t: Tier) -> BoxedStrategy<Chunked> {
    let m = one_of![
        120 => (n(), e(), gen::opt_id(), j_args(), any::<u8>(), gen::style()).prop_map(|(ns, ev, id, args, extra, style)| In::Event { ns, ev, id, args, extra, style }),
        60 => (any::<u8>(), j_args(), gen::style()).prop_map(|(nth, args, style)| In::Ack { nth, args, style }),
        40 => Just(In::Ping),
        20 => Just(In::Pong),
        10 => any::<u8>().prop_map(In::ConnectNs),
        2 => (one_of![1 => 60_000u32..70_000, 2 => 100u32..140, 1 => 4000u32..9000], any::<bool>()).prop_map(|(l, b)| In::Long(l, b)),
    ];
    let finish = one_of![
        4 => Just(Finish::Open),
        3 => prop::sample::select(vec![0u16, 1000, 1001, 1011, 4000]).prop_map(Finish::CloseFrame),
        1 => Just(Finish::Eof),
        1 => Just(Finish::Error),
        2 => bad().prop_map(Finish::Bad),
    ];
    let k = if t == Tier::Quick { 12 } else { 40 };
    let handlers = vec(one_of![3 => set_event(), 2 => set_fallback()], 1..5);
    let emits = vec((n(), e(), any::<bool>(), s_args()).prop_map(|(ns, ev, binary, args)| Step::Emit { ns, ev, binary, cb: true, args, drop: 0 }), 0..4);
    (handlers, emits, vec(m, 1..k), finish, conf(), any::<bool>(), any::<u8>(), vec(any::<u64>(), 0..4), vec(any::<u16>(), 0..6))
        .prop_map(|(handlers, emits, msgs, finish, conf, merged, early_pings, frag, cuts)| Chunked { handlers, emits, msgs, finish, conf, merged, early_pings, frag, cuts })
        .boxed()
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Resp {
    Good { lower: bool, extra: Vec<u8> },
    Status(u16),
    WrongKey(u8),
    NoKey,
    NoUpgrade,
    Garbage(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    Eof,
    Error,
    Stall,
    Flip(u8),
    WriteError,
    /// The user drops the attempt there.
    Abandon,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Connecting {
    conf: Conf,
    /// Some: through `connect`, the connector takes this long; then its error flag.
    connector: Option<(u16, bool)>,
    refuse_spawn: bool,
    resp: Resp,
    /// websocket control frames before the first engine message
    control: Vec<(bool, Vec<u8>)>,
    first: Eng,
    frag: u64,
    fault: Fault,
    fault_at: u16,
    /// (position, delay in ms)
    delays: Vec<(u16, u32)>,
}

#[derive(Debug)]
struct NoConn;
impl std::fmt::Display for NoConn {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for NoConn {}

fn c16_check(c: &Connecting) -> CheckResult {
    sim::clock::reset();
    let before = panics();
    let mut cov = Covered::default();
    let pipe = Pipe::new(&c.conf.read_plan, &c.conf.write_plan);
    let mut exec = Exec { tasks_first: c.conf.tasks_first, ..Default::default() };
    exec.spawner.refuse = c.refuse_spawn;
    let spawner = exec.spawner.clone();
    let stream = pipe.stream();
    let handed = Arc::new(Mutex::new(None::<Duration>));
    let given = handed.clone();
    let connector = c.connector;
    let mut f: Driven<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Client, Error>>>>> = match connector {
        None => {
            *lock(&given) = Some(ms(0));
            Driven::new(Box::pin(async move { Client::from_stream("http://h/", stream, &spawner).await }))
        }
        Some((delay, fail)) => {
            let stream = Arc::new(Mutex::new(Some(stream)));
            Driven::new(Box::pin(async move {
                Client::connect(
                    "http://h/",
                    move |_, _| {
                        let (stream, given) = (stream.clone(), given.clone());
                        async move {
                            futures_timer::Delay::new(ms(delay as u64)).await;
                            let s = lock(&stream).take().unwrap();
                            if fail {
                                return Err(NoConn);
                            }
                            *lock(&given) = Some(clock::now());
                            Ok(s)
                        }
                    },
                    &spawner,
                )
                .await
            }))
        }
    };
    let released = |exec: &mut Exec, pipe: &Pipe| -> Result<(), String> {
        exec.idle()?;
        if !pipe.dropped() {
            return Err("the failed attempt keeps the transport".into());
        }
        Ok(())
    };
    // Up to the connector's answer.
    let mut result = None;
    if let Some((delay, fail)) = connector {
        result = pass_time(&mut exec, &mut f, ms(delay as u64))?;
        if fail {
            cov.label("connector-error", true);
            cov.nontrivial = true;
            return match result {
                Some(Err(_)) => {
                    drop(f);
                    released(&mut exec, &pipe)?;
                    Ok(cov)
                }
                Some(Ok(_)) => Err("connect succeeds although the connector failed".into()),
                None => Err("connect does not return although the connector failed".into()),
            };
        }
    }
    if matches!(c.fault, Fault::WriteError) {
        pipe.fail_writes();
    }
    if result.is_none() {
        result = exec.drive(&mut f)?;
    }
    let Some(t0) = *lock(&handed) else { return Err("the connector was not asked".into()) };
    // The server's bytes.
    let mut reader = Reader::default();
    reader.read(&pipe)?;
    let mut bytes = vec![];
    let mut good = false;
    let mut good_first = false;
    if result.is_none() && reader.head.is_some() {
        let key = reader.accept_key()?;
        good = matches!(c.resp, Resp::Good { .. });
        bytes = match &c.resp {
            Resp::Good { lower, extra } => {
                let mut h: Vec<String> = vec!["Upgrade: websocket".into(), "Connection: Upgrade".into(), format!("Sec-WebSocket-Accept: {key}")];
                if *lower {
                    h = vec![format!("sec-websocket-accept: {key}"), "connection: upgrade".into(), "upgrade: WebSocket".into()];
                }
                for (i, e) in extra.iter().enumerate() {
                    h.insert(*e as usize % (h.len() + 1), format!("X-Extra-{i}: {}", "v".repeat(*e as usize % 50)));
                }
                format!("HTTP/1.1 101 Switching Protocols\r\n{}\r\n\r\n", h.join("\r\n")).into_bytes()
            }
            Resp::Status(s) => format!("HTTP/1.1 {s} Nope\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {key}\r\n\r\n").into_bytes(),
            Resp::WrongKey(k) => {
                let mut key = key.into_bytes();
                let i = *k as usize % 26;
                key[i] = if key[i] == b'A' { b'B' } else { b'A' };
                format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", String::from_utf8(key).unwrap()).into_bytes()
            }
            Resp::NoKey => b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n".to_vec(),
            Resp::NoUpgrade => format!("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {key}\r\n\r\n").into_bytes(),
            Resp::Garbage(b) => {
                // never the start of an HTTP response
                let mut v = vec![b'X'];
                v.extend(b);
                v.extend(b"\r\n\r\n");
                v
            }
        };
        for (ping, b) in &c.control {
            bytes.extend(sim::frame(true, if *ping { sim::PING } else { sim::PONG }, &b[..b.len().min(125)]));
        }
        let w = eng_ws(&c.first);
        good_first = eng_valid_open(&c.first);
        bytes.extend(match &w {
            tungstenite::Message::Text(t) => sim::message(sim::TEXT, t.as_bytes(), c.frag),
            tungstenite::Message::Binary(b) => sim::message(sim::BINARY, b, c.frag),
            tungstenite::Message::Close(_) => sim::frame(true, sim::CLOSE, &[3, 232]),
            // no engine message at all
            _ => vec![],
        });
    }
    let total = bytes.len();
    let faulty = !matches!(c.fault, Fault::None);
    let at = if faulty { (c.fault_at as usize * (total + 1)) >> 16 } else { total };
    if let Fault::Flip(x) = c.fault {
        if at < total {
            bytes[at] ^= x | 1;
        }
    }
    let upto = if matches!(c.fault, Fault::Flip(_)) { total } else { at };
    // Deliver, letting time pass on the way.
    let mut cuts: Vec<(usize, u64)> = c.delays.iter().map(|(p, d)| (((*p as usize * (total + 1)) >> 16).min(upto), *d as u64)).collect();
    cuts.sort();
    let mut elapsed = 0u64;
    let mut pos = 0;
    let limit = ms(10_000);
    let mut last = 0u64;
    for (cut, d) in cuts {
        if cut > pos {
            pipe.feed(&bytes[pos..cut]);
            pos = cut;
            last = elapsed;
        }
        elapsed += d;
        if elapsed == 10_000 {
            elapsed += 1;
        }
        if result.is_none() {
            result = pass_time(&mut exec, &mut f, t0 + ms(elapsed).min(limit))?;
        }
        if ms(elapsed) >= limit {
            break;
        }
    }
    let in_time = elapsed < 10_000;
    if in_time {
        if upto > pos {
            pipe.feed(&bytes[pos..upto]);
            pos = upto;
            last = elapsed;
        }
        match c.fault {
            Fault::Eof => pipe.end(End::Eof),
            Fault::Error => pipe.end(End::Error),
            _ => (),
        }
        if result.is_none() {
            result = exec.drive(&mut f)?;
        }
    }
    let _ = last;
    if matches!(c.fault, Fault::Abandon) && result.is_none() {
        drop(f);
        exec.idle()?;
        if !pipe.dropped() {
            return Err(format!("an attempt dropped after {pos} of {total} server bytes keeps the transport"));
        }
        sim::clock::reset();
        cov.label("abandoned", true);
        cov.nontrivial = true;
        return Ok(cov);
    }
    if result.is_none() {
        result = pass_time(&mut exec, &mut f, t0 + limit)?;
    }
    if panics() != before {
        return Err(format!("panic inside the client: {}", last_panic()));
    }
    let complete = pos == total && total > 0;
    let expect = match c.fault {
        // what a flipped byte makes of the server's bytes is not judged
        Fault::Flip(_) if at < total => None,
        Fault::WriteError => Some(false),
        _ => Some(good && good_first && complete && !c.refuse_spawn),
    };
    let what = format!("server bytes {:?} delivered up to {pos} of {total} after {elapsed} ms", String::from_utf8_lossy(&bytes));
    let ok = match result {
        None => return Err(format!("connect is still waiting ten seconds after it was given the transport; {what}")),
        Some(Ok(client)) => {
            if expect == Some(false) {
                return Err(format!("connect succeeds; {what}"));
            }
            if c.refuse_spawn {
                return Err("connect succeeds without its task".into());
            }
            // The connection is really there: the open packet was accepted, and
            // without a fault it still lives.
            if !faulty && pipe.dropped() {
                return Err("connect succeeds but has given up the transport".into());
            }
            drop(f);
            drop(client);
            exec.idle()?;
            true
        }
        Some(Err(e)) => {
            if expect == Some(true) {
                return Err(format!("connect fails with {e}; {what}"));
            }
            if matches!(e, Error::UrlError(..)) {
                return Err(format!("connect blames the URL: {e}"));
            }
            drop(f);
            released(&mut exec, &pipe)?;
            false
        }
    };
    sim::clock::reset();
    cov.label("success", ok);
    cov.label("failure", !ok);
    cov.label("end-of-stream", matches!(c.fault, Fault::Eof));
    cov.label("transport-error", matches!(c.fault, Fault::Error));
    cov.label("stall", matches!(c.fault, Fault::Stall));
    cov.label("timeout", !in_time || matches!(c.fault, Fault::Stall) && !ok);
    cov.label("slow-success", ok && elapsed > 5000);
    cov.label("bad-response", !good);
    cov.label("wrong-first-message", good && !good_first);
    cov.label("spawn-refused", c.refuse_spawn);
    cov.nontrivial = !ok || elapsed > 0 || !c.control.is_empty();
    Ok(cov)
}

fn c16_strategy(_: Tier) -> BoxedStrategy<Connecting> {
    let resp = one_of![
        16 => (any::<bool>(), vec(any::<u8>(), 0..3)).prop_map(|(lower, extra)| Resp::Good { lower, extra }),
        1 => prop::sample::select(vec![200u16, 204, 301, 302, 400, 401, 404, 426, 500, 502, 503, 100, 102]).prop_map(Resp::Status),
        1 => any::<u8>().prop_map(Resp::WrongKey),
        1 => Just(Resp::NoKey),
        1 => Just(Resp::NoUpgrade),
        1 => gen::bytes(30).prop_map(Resp::Garbage),
    ];
    let first = one_of![3 => crate::proto::eng_open(), 2 => crate::proto::eng()];
    let fault = one_of![
        4 => Just(Fault::None),
        3 => Just(Fault::Eof),
        3 => Just(Fault::Error),
        3 => Just(Fault::Stall),
        1 => any::<u8>().prop_map(Fault::Flip),
        1 => Just(Fault::WriteError),
        2 => Just(Fault::Abandon),
    ];
    let at = one_of![6 => any::<u16>(), 2 => Just(65535u16), 1 => Just(0u16)];
    let delay = one_of![2 => 0u32..100, 3 => 0u32..4000, 2 => 3000u32..9999, 1 => 9990u32..10020, 1 => 10_000u32..100_000];
    let connector = one_of![
        3 => Just(None),
        2 => (one_of![Just(0u16), 1u16..60_000], one_of![4 => Just(false), 1 => Just(true)]).prop_map(Some),
    ];
    (
        (conf(), connector, one_of![20 => Just(false), 1 => Just(true)], resp, one_of![3 => Just(vec![]), 1 => vec((any::<bool>(), gen::bytes(5)), 1..3)]),
        (first, one_of![2 => Just(0u64), 1 => any::<u64>()], fault, at, one_of![1 => Just(vec![]), 2 => vec((any::<u16>(), delay), 1..4)]),
    )
        .prop_map(|((conf, connector, refuse_spawn, resp, control), (first, frag, fault, fault_at, delays))| Connecting { conf, connector, refuse_spawn, resp, control, first, frag, fault, fault_at, delays })
        .boxed()
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Reaction {
    /// Close frame and end of stream, this many ms after the client's frame.
    Close { after: u32, code: u16, eof_after: u16 },
    /// Events first, then as above.
    DataThenClose { events: Vec<Step>, after: u32 },
    Silent,
    /// A close frame, but the stream stays open.
    NoEof,
    /// End of stream without a close frame.
    OnlyEof,
    Error(u32),
    /// The peer's close frame crosses the client's.
    Crossing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Death {
    Orderly { code: u16, pings_before: u8, emits_after: u8, same_chunk: bool },
    Violation(Bad),
    Error,
    Eof,
    WriteError,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    Live { reaction: Reaction, block: Option<(u32, bool)>, run_before: bool, unread_pings: u8 },
    Dead(Death),
    /// Just drop the client, blocked or not.
    Drop { blocked: bool },
    /// Start closing, then drop without waiting for it.
    DropWhileClosing { drive: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Closing {
    conf: Conf,
    handlers: Vec<Step>,
    emits: Vec<Step>,
    how: How,
    again: bool,
}

fn release_check(s: &mut Session) -> Result<(), String> {
    let send = s.client().send.clone();
    s.client = None;
    s.exec.idle()?;
    drop(send);
    if !s.pipe.dropped() {
        return Err("dropping the client does not release the transport".into());
    }
    Ok(())
}

fn again(c: &Closing, s: &mut Session) -> Result<(), String> {
    if c.again {
        match s.close_now()? {
            Some(Err(Error::AlreadyClosed)) => (),
            r => return Err(format!("a further close gives {r:?}")),
        }
    }
    Ok(())
}

fn close_frames(f: &[Frame]) -> usize {
    f.iter().filter(|f| matches!(f, Frame::Close(_))).count()
}

fn c17_check(c: &Closing) -> CheckResult {
    let before = panics();
    let r = c17_run(c);
    if r.is_ok() && panics() != before {
        return Err(format!("panic inside the client: {}", last_panic()));
    }
    r
}

fn c17_run(c: &Closing) -> CheckResult {
    let mut cov = Covered::default();
    let mut i = Interp::new(Session::start(&c.conf)?);
    for (k, st) in c.handlers.iter().enumerate() {
        i.step(k, st)?;
    }
    let base = c.handlers.len();
    match &c.how {
        How::Live { reaction, block, run_before, unread_pings } => {
            if block.is_some() {
                i.s.pipe.block(true);
            }
            for (k, st) in c.emits.iter().enumerate() {
                i.step(base + k, st)?;
            }
            if *run_before {
                i.s.idle()?;
            }
            for _ in 0..*unread_pings {
                i.s.pipe.feed(&sim::frame(true, sim::TEXT, b"2"));
            }
            if matches!(reaction, Reaction::Crossing) {
                i.s.pipe.feed(&sim::frame(true, sim::CLOSE, &[3, 232]));
            }
            let sends = lock(&i.s.world).sends.clone();
            let mut s = i.s;
            let mut client = s.client.take().unwrap();
            let mut t = 0u64;
            let done = {
                let mut f = Driven::new(client.close());
                let mut r = s.exec.drive(&mut f)?;
                if let Some((d, forever)) = block {
                    if r.is_none() && !*forever {
                        t += *d as u64;
                        r = pass_time(&mut s.exec, &mut f, ms(t))?;
                        s.pipe.block(false);
                        if r.is_none() {
                            r = s.exec.drive(&mut f)?;
                        }
                    }
                    if *forever {
                        if r.is_some() {
                            return Err(format!("close returns {r:?} though nothing could be written"));
                        }
                        r = pass_time(&mut s.exec, &mut f, ms(10_000))?;
                        match r {
                            Some(Err(Error::Timeout(_))) => (),
                            r => return Err(format!("close gives {r:?} ten seconds after a blocked write")),
                        }
                        drop(f);
                        s.client = Some(client);
                        cov.label("blocked-forever", true);
                        cov.nontrivial = true;
                        again(c, &mut s)?;
                        release_check(&mut s)?;
                        return Ok(cov);
                    }
                }
                if matches!(reaction, Reaction::Crossing) {
                    s.pipe.end(End::Eof);
                    if r.is_none() {
                        r = s.exec.drive(&mut f)?;
                    }
                    match r {
                        Some(Ok(())) => (),
                        r => return Err(format!("close gives {r:?} when the peer closes at the same time")),
                    }
                    cov.label("crossing", true);
                    r
                } else {
                    if let Some(r) = r {
                        return Err(format!("close returns {r:?} before the peer reacts"));
                    }
                    // Everything sent before, then one close frame, is there.
                    s.reader.read(&s.pipe)?;
                    let frames = s.reader.frames.clone();
                    let wire = read_wire(&frames, false)?;
                    check_flushed(&sends, &wire)?;
                    match wire.last() {
                        Some(Wire::Close(_)) if close_frames(&frames) == 1 => (),
                        _ => return Err(format!("no close frame, or something after it: {wire:?}")),
                    }
                    let count = frames.len();
                    let finish = |s: &mut Session, t: u64, code: u16| -> Result<(), String> {
                        let _ = t;
                        s.pipe.feed(&sim::frame(true, sim::CLOSE, &if code == 0 { vec![] } else { code.to_be_bytes().to_vec() }));
                        Ok(())
                    };
                    let r: Option<Result<(), Error>>;
                    match reaction {
                        Reaction::Close { after, code, eof_after } => {
                            t += *after as u64;
                            let mut x = pass_time(&mut s.exec, &mut f, ms(t.min(10_000)))?;
                            if x.is_none() {
                                finish(&mut s, t, *code)?;
                                x = s.exec.drive(&mut f)?;
                            }
                            t += *eof_after as u64;
                            if t == 10_000 {
                                t += 1;
                            }
                            if x.is_none() {
                                x = pass_time(&mut s.exec, &mut f, ms(t.min(10_000)))?;
                            }
                            if x.is_none() {
                                s.pipe.end(End::Eof);
                                x = s.exec.drive(&mut f)?;
                            }
                            if t < 10_000 {
                                match &x {
                                    Some(Ok(())) => (),
                                    x => return Err(format!("close gives {x:?} although the peer closed after {t} ms")),
                                }
                            } else {
                                // Whether a close frame alone counts is left open.
                                match &x {
                                    Some(Err(Error::Timeout(_))) => (),
                                    Some(Ok(())) if t - (*eof_after as u64) < 10_000 => (),
                                    x => return Err(format!("close gives {x:?} although the peer needs {t} ms")),
                                }
                            }
                            cov.label("slow-peer", t > 1000);
                            cov.label("too-slow-peer", t >= 10_000);
                            r = x;
                        }
                        Reaction::DataThenClose { events, after } => {
                            for e in events {
                                if let Step::Event { ns: n, ev: e, id, args, extra, style, .. } = e {
                                    let mut all = vec![gen::J::Str(ev(*e).into()), gen::J::U(7)];
                                    all.extend(args.iter().cloned());
                                    s.feed(&server_packet(false, ns(*n), *id, &all, *style, *extra));
                                }
                                s.pipe.feed(&sim::frame(true, sim::TEXT, b"2"));
                            }
                            let mut x = s.exec.drive(&mut f)?;
                            t += *after as u64 % (9_999 - t.min(9_998));
                            if x.is_none() {
                                x = pass_time(&mut s.exec, &mut f, ms(t))?;
                            }
                            if x.is_none() {
                                finish(&mut s, t, 1000)?;
                                s.pipe.end(End::Eof);
                                x = s.exec.drive(&mut f)?;
                            }
                            match &x {
                                Some(Ok(())) => (),
                                x => return Err(format!("close gives {x:?} although the peer closed after sending data")),
                            }
                            cov.label("data-before-peer-close", !events.is_empty());
                            r = x;
                        }
                        Reaction::Silent => {
                            let x = pass_time(&mut s.exec, &mut f, ms(9_999))?;
                            if let Some(x) = x {
                                return Err(format!("close gives {x:?} before ten seconds passed, the peer being silent"));
                            }
                            r = pass_time(&mut s.exec, &mut f, ms(10_000))?;
                            match &r {
                                Some(Err(Error::Timeout(_))) => (),
                                r => return Err(format!("close gives {r:?} ten seconds after a silent peer")),
                            }
                            cov.label("silent-peer", true);
                        }
                        Reaction::NoEof | Reaction::OnlyEof => {
                            if matches!(reaction, Reaction::NoEof) {
                                finish(&mut s, t, 1000)?;
                            } else {
                                s.pipe.end(End::Eof);
                            }
                            r = pass_time(&mut s.exec, &mut f, ms(10_000))?;
                            if r.is_none() {
                                return Err("close still waits after ten seconds".into());
                            }
                        }
                        Reaction::Error(after) => {
                            t += *after as u64 % (9_999 - t.min(9_998));
                            let mut x = pass_time(&mut s.exec, &mut f, ms(t))?;
                            if x.is_none() {
                                s.pipe.end(End::Error);
                                x = s.exec.drive(&mut f)?;
                            }
                            match &x {
                                Some(Err(Error::AlreadyClosed)) | Some(Ok(())) | None => return Err(format!("close gives {x:?} after a transport error")),
                                Some(Err(_)) => (),
                            }
                            cov.label("error-while-closing", true);
                            r = x;
                        }
                        Reaction::Crossing => unreachable!(),
                    }
                    s.reader.read(&s.pipe)?;
                    if s.reader.frames.len() > count {
                        return Err(format!("written after the close frame: {:?}", &s.reader.frames[count..]));
                    }
                    r
                }
            };
            let _ = done;
            s.client = Some(client);
            again(c, &mut s)?;
            release_check(&mut s)?;
            cov.label("live", true);
            cov.label("unsent-packets", !sends.is_empty() && (!*run_before || block.is_some()));
            cov.nontrivial = true;
        }
        How::Dead(d) => {
            for (k, st) in c.emits.iter().enumerate() {
                i.step(base + k, st)?;
            }
            let mut s = i.s;
            s.idle()?;
            let ok = match d {
                Death::Orderly { code, pings_before, emits_after, same_chunk } => {
                    let mut b = vec![];
                    for _ in 0..*pings_before {
                        b.extend(sim::frame(true, sim::TEXT, b"2"));
                    }
                    if !*same_chunk {
                        s.pipe.feed(&b);
                        s.idle()?;
                        b.clear();
                    }
                    b.extend(sim::frame(true, sim::CLOSE, &if *code == 0 { vec![] } else { code.to_be_bytes().to_vec() }));
                    s.pipe.feed(&b);
                    s.idle()?;
                    if close_frames(&s.reader.frames) != 1 {
                        return Err("the client does not answer the peer's close frame".into());
                    }
                    for k in 0..*emits_after {
                        s.client().emit("late").args().arg(&k).expect("argument").send();
                        s.idle()?;
                    }
                    s.pipe.end(End::Eof);
                    cov.label("emit-after-peer-closed", *emits_after > 0);
                    cov.label("ping-with-close-frame", *pings_before > 0 && *same_chunk);
                    true
                }
                Death::Violation(b) => {
                    if let Bad::UnknownAck { ns: n, id } | Bad::UnknownAckBinary { ns: n, id } = b {
                        let w = s.wire()?;
                        if packets(&w).iter().any(|p| p.id == Some(*id) && p.ns == ns(*n)) {
                            return Ok(cov); // due, so no violation
                        }
                    }
                    s.pipe.feed(&bad_bytes(b));
                    false
                }
                Death::Error => {
                    s.pipe.end(End::Error);
                    false
                }
                Death::Eof => {
                    s.pipe.end(End::Eof);
                    false
                }
                Death::WriteError => {
                    s.pipe.fail_writes();
                    s.client().emit("x").args().arg(&1).expect("argument").send();
                    false
                }
            };
            s.idle()?;
            let t0 = clock::now();
            match (s.close_now()?, ok) {
                (Some(Ok(())), true) => (),
                (Some(Err(Error::AlreadyClosed)), _) => return Err("the first close reports AlreadyClosed".into()),
                (Some(Err(_)), false) => (),
                (r, _) => return Err(format!("close gives {r:?} after {d:?}")),
            }
            if clock::now() != t0 {
                return Err("time passed".into());
            }
            again(c, &mut s)?;
            release_check(&mut s)?;
            cov.label("dead-orderly", ok);
            cov.label("dead-error", !ok);
            cov.nontrivial = true;
        }
        How::Drop { blocked } => {
            i.s.pipe.block(*blocked);
            for (k, st) in c.emits.iter().enumerate() {
                i.step(base + k, st)?;
            }
            let mut s = i.s;
            s.idle()?;
            release_check(&mut s)?;
            cov.label("dropped", true);
            cov.nontrivial = *blocked;
        }
        How::DropWhileClosing { drive } => {
            for (k, st) in c.emits.iter().enumerate() {
                i.step(base + k, st)?;
            }
            let mut s = i.s;
            let mut client = s.client.take().unwrap();
            {
                let mut f = Driven::new(client.close());
                if *drive {
                    s.exec.drive(&mut f)?;
                }
                drop(f);
            }
            s.client = Some(client);
            release_check(&mut s)?;
            cov.label("dropped-while-closing", true);
            cov.nontrivial = true;
        }
    }
    Ok(cov)
}

/// The packets sent are on the wire, in order, nothing else.
fn check_flushed(sends: &[Sent], wire: &[Wire]) -> Result<(), String> {
    let ps = packets(wire);
    for (k, s) in sends.iter().enumerate() {
        let Sent::Emit { ns, name, args, cb, files, .. } = s else { continue };
        let mut all = vec![Value::String(name.clone())];
        all.extend(args.iter().cloned());
        match ps.get(k) {
            Some(p) if !p.ack && p.ns == *ns && p.args == all && p.id.is_some() == *cb && p.attachments == *files => (),
            p => return Err(format!("sent before close: {s:?}; on the wire at its place: {p:?}")),
        }
    }
    if ps.len() != sends.len() {
        return Err(format!("{} packets on the wire, {} sent", ps.len(), sends.len()));
    }
    Ok(())
}

fn c17_strategy(t: Tier) -> BoxedStrategy<Closing> {
    let after = one_of![2 => Just(0u32), 2 => 0u32..5000, 2 => 5000u32..10_001, 1 => 9_990u32..10_010, 1 => 10_000u32..40_000];
    let eof_after = one_of![3 => Just(0u16), 1 => 0u16..5000, 1 => 5000u16..12_000];
    let code = prop::sample::select(vec![0u16, 1000, 1001, 1011, 4999]);
    let reaction = one_of![
        6 => (after.clone(), code.clone(), eof_after).prop_map(|(after, code, eof_after)| Reaction::Close { after, code, eof_after }),
        3 => (vec(event(), 0..4), any::<u32>()).prop_map(|(events, after)| Reaction::DataThenClose { events, after }),
        1 => Just(Reaction::Silent),
        1 => Just(Reaction::NoEof),
        1 => Just(Reaction::OnlyEof),
        1 => any::<u32>().prop_map(Reaction::Error),
        2 => Just(Reaction::Crossing),
    ];
    let block = one_of![3 => Just(None), 2 => (0u32..9000).prop_map(|d| Some((d, false))), 1 => Just(Some((0, true)))];
    let death = one_of![
        6 => (code, 0u8..4, 0u8..3, any::<bool>()).prop_map(|(code, pings_before, emits_after, same_chunk)| Death::Orderly { code, pings_before, emits_after, same_chunk }),
        3 => bad().prop_map(Death::Violation),
        1 => Just(Death::Error),
        1 => Just(Death::Eof),
        1 => Just(Death::WriteError),
    ];
    let how = one_of![
        8 => (reaction, block, any::<bool>(), one_of![3 => Just(0u8), 1 => 1u8..4]).prop_map(|(reaction, block, run_before, unread_pings)| {
            // What crosses or blocks stays simple.
            let block = if matches!(reaction, Reaction::Crossing) { None } else { block };
            How::Live { reaction, block, run_before, unread_pings }
        }),
        5 => death.prop_map(How::Dead),
        1 => any::<bool>().prop_map(|blocked| How::Drop { blocked }),
        1 => any::<bool>().prop_map(|drive| How::DropWhileClosing { drive }),
    ];
    let k = if t == Tier::Quick { 6 } else { 20 };
    (conf(), vec(one_of![1 => set_event(), 1 => set_fallback()], 0..3), vec(emit(), 0..k), how, any::<bool>())
        .prop_map(|(conf, handlers, emits, how, again)| Closing { conf, handlers, emits, how, again })
        .boxed()
}

/// A lot is unsent when close is called: many packets, or large ones.
fn c17_long(t: Tier) -> BoxedStrategy<Closing> {
    let large = (n(), e(), any::<bool>(), one_of![3 => 0u32..300, 1 => 0u32..70_000, 1 => 60_000u32..200_000], any::<u8>(), any::<bool>()).prop_map(|(ns, ev, binary, n, b, cb)| Step::Emit { ns, ev, binary, cb, args: vec![S::BytesN(n, b)], drop: 0 });
    let step = one_of![3 => emit(), 1 => large];
    (c17_strategy(t), vec(step, 1..4), one_of![1 => 1u16..20, 2 => 10u16..120, 1 => 100u16..400])
        .prop_map(|(mut c, emits, times)| {
            let heft: usize = emits.iter().map(|s| if let Step::Emit { args, .. } = s { 100 + args.iter().map(|a| if let S::BytesN(n, _) = a { *n as usize } else { 10 }).sum::<usize>() } else { 0 }).sum();
            let times = (times as usize).min(1 + 600_000 / heft);
            // In steps that fit the volume.
            for p in [&mut c.conf.read_plan, &mut c.conf.write_plan] {
                p.iter_mut().for_each(|n| *n = (*n).max((heft * times / 600).clamp(20, 8000) as u16));
            }
            c.emits = (0..times).flat_map(|_| emits.iter().cloned()).collect();
            c
        })
        .boxed()
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    SetEvent(u8, u8),
    ClearEvent(u8, u8),
    SetFallback(u8),
    ClearFallback(u8),
    Emit(u8, u8),
    EmitCb(u8, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Where {
    Event,
    Fallback,
    Ack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inside {
    conf: Conf,
    at: Where,
    ns: u8,
    ev: u8,
    binary: bool,
    /// The operation, and whether the handler also does it itself.
    ops: Vec<(Op, bool)>,
    panics: bool,
    probes: Vec<(u8, u8)>,
}

type SharedClient = Arc<Mutex<Option<Client>>>;

#[derive(Default)]
struct Tally {
    /// number of emits done, so that each has its own first argument
    emits: usize,
    calls: Vec<(usize, u64)>,
    acked: Vec<usize>,
    blocked: Option<Op>,
    waiting: Vec<std::sync::mpsc::Receiver<()>>,
    ran: usize,
}

fn perform(client: &SharedClient, tally: &Arc<Mutex<Tally>>, op: Op, tag: usize) {
    let mut g = lock(client);
    let c = g.as_mut().expect("client");
    let t = tally.clone();
    let record = move |args: &socket_io_client::protocol::Args, _: Option<socket_io_client::AckBuilder>| {
        let n = args.get(1).and_then(|a| a.deserialize::<u64>().ok()).unwrap_or(u64::MAX);
        lock(&t).calls.push((tag, n));
    };
    match op {
        Op::SetEvent(n, e) => c.set_namespace_event_callback(ns(n), ev(e), record),
        Op::ClearEvent(n, e) => c.clear_namespace_event_callback(ns(n), ev(e)),
        Op::SetFallback(n) => c.set_namespace_fallback_callback(ns(n), record),
        Op::ClearFallback(n) => c.clear_namespace_fallback_callback(ns(n)),
        Op::Emit(n, e) => c.namespace_emit(ns(n), ev(e)).args().arg(&tag).expect("argument").send(),
        Op::EmitCb(n, e) => {
            let t = tally.clone();
            c.namespace_emit(ns(n), ev(e)).callback(move |_: &socket_io_client::protocol::Args| lock(&t).acked.push(tag)).args().arg(&tag).expect("argument").send()
        }
    }
}

fn thread_state(tid: &str) -> Option<char> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    s[s.rfind(')')? + 2..].chars().next()
}

/// Do `op` on a helper thread while the handler waits. Blocked: the helper
/// slept without a break for two seconds.
fn on_helper(client: &SharedClient, tally: &Arc<Mutex<Tally>>, op: Op, tag: usize) -> bool {
    let (tx, rx) = std::sync::mpsc::channel();
    let (tid_tx, tid_rx) = std::sync::mpsc::channel();
    let (c, t, own) = (client.clone(), tally.clone(), own_names());
    std::thread::spawn(move || {
        use_names(own);
        let link = std::fs::read_link("/proc/thread-self").ok();
        let _ = tid_tx.send(link.and_then(|l| l.file_name().map(|f| f.to_string_lossy().into_owned())));
        perform(&c, &t, op, tag);
        let _ = tx.send(());
    });
    let tid = tid_rx.recv().ok().flatten();
    let mut asleep = 0;
    for _ in 0..60_000 {
        match rx.recv_timeout(ms(1)) {
            Ok(()) | Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return true,
            Err(_) => (),
        }
        match tid.as_deref().and_then(thread_state) {
            Some('S') | Some('D') => asleep += 1,
            _ => asleep = 0,
        }
        if asleep > 1800 {
            let mut t = lock(tally);
            t.blocked = Some(op);
            t.waiting.push(rx);
            return false;
        }
    }
    println!("ERROR: C19: a helper thread neither finishes nor sleeps for a minute; inconclusive");
    std::process::exit(3);
}

fn c19_check(c: &Inside) -> CheckResult {
    let mut s = Session::start(&c.conf)?;
    let client: SharedClient = Arc::new(Mutex::new(s.client.take()));
    let tally: Arc<Mutex<Tally>> = Default::default();
    let r = c19_run(c, &mut s, &client, &tally);
    // Helpers that were blocked must get on now.
    let waiting = std::mem::take(&mut lock(&tally).waiting);
    let mut late = true;
    for w in waiting {
        late &= w.recv_timeout(Duration::from_secs(60)).is_ok();
    }
    if !late {
        let blocked = lock(&tally).blocked;
        return Err(format!("{blocked:?} from another thread waits until the {:?} handler returns, and longer", c.at));
    }
    let _ = s.exec.idle();
    *lock(&client) = None;
    let _ = s.exec.idle();
    let blocked = lock(&tally).blocked;
    if let Some(op) = blocked {
        return Err(format!("{op:?} from another thread waits until the {:?} handler returns", c.at));
    }
    r
}

fn c19_run(c: &Inside, s: &mut Session, client: &SharedClient, tally: &Arc<Mutex<Tally>>) -> CheckResult {
    let mut cov = Covered::default();
    const FIRST: usize = 1_000_000;
    let (cl, ta, ops, pan) = (client.clone(), tally.clone(), c.ops.clone(), c.panics);
    let body = move || {
        {
            let mut t = lock(&ta);
            t.ran += 1;
            if t.ran > 1 {
                return;
            }
        }
        for (k, (op, own)) in ops.iter().enumerate() {
            if !on_helper(&cl, &ta, *op, 2 * k) {
                return;
            }
            if *own {
                perform(&cl, &ta, *op, 2 * k + 1);
            }
        }
        if pan {
            panic!("handler panics on purpose");
        }
    };
    let (n, e) = (ns(c.ns), ev(c.ev));
    let t = tally.clone();
    let note = move |args: &socket_io_client::protocol::Args| {
        let n = args.get(1).and_then(|a| a.deserialize::<u64>().ok()).unwrap_or(u64::MAX);
        lock(&t).calls.push((FIRST, n));
    };
    // handler tables of the model
    let mut events: std::collections::BTreeMap<(&str, &str), usize> = Default::default();
    let mut fallbacks: std::collections::BTreeMap<&str, usize> = Default::default();
    let (nsi, evi) = (ns, ev);
    let mut ack_id = 0;
    match c.at {
        Where::Event => {
            lock(client).as_mut().unwrap().set_namespace_event_callback(n, e, move |a: &socket_io_client::protocol::Args, _: Option<socket_io_client::AckBuilder>| {
                note(a);
                body()
            });
            events.insert((nsi(c.ns), evi(c.ev)), FIRST);
        }
        Where::Fallback => {
            lock(client).as_mut().unwrap().set_namespace_fallback_callback(n, move |a: &socket_io_client::protocol::Args, _: Option<socket_io_client::AckBuilder>| {
                note(a);
                body()
            });
            fallbacks.insert(nsi(c.ns), FIRST);
        }
        Where::Ack => {
            lock(client)
                .as_mut()
                .unwrap()
                .namespace_emit(n, e)
                .callback(move |a: &socket_io_client::protocol::Args| {
                    note(a);
                    body()
                })
                .args()
                .send();
            s.idle()?;
            let w = s.wire()?;
            ack_id = packets(&w).first().and_then(|p| p.id).ok_or("the emit carries no id")?;
        }
    }
    let sent_before = packets(&s.wire()?).len();
    let mut args = vec![gen::J::Str(if c.at == Where::Ack { "first".into() } else { e.into() }), gen::J::U(1)];
    if c.binary {
        args.push(gen::J::Bin(vec![1, 2, 3]));
    }
    let id = if c.at == Where::Ack { Some(ack_id) } else { None };
    s.feed(&server_packet(c.at == Where::Ack, n, id, &args, 0, 0));
    s.idle()?;
    {
        let t = lock(tally);
        if t.blocked.is_some() {
            return Ok(cov); // judged by the caller
        }
        if t.ran != 1 {
            return Err(format!("the handler ran {} times", t.ran));
        }
    }
    let mut want_calls = vec![(FIRST, 1u64)];
    cov.nontrivial = true;
    cov.label("event-handler", c.at == Where::Event);
    cov.label("fallback-handler", c.at == Where::Fallback);
    cov.label("ack-callback", c.at == Where::Ack);
    cov.label("handler-uses-client-itself", c.ops.iter().any(|(_, own)| *own));
    if c.panics {
        // The connection is gone, but the calls must not panic.
        cov.label("handler-panics", true);
        for (k, op) in [Op::SetEvent(c.ns, c.ev), Op::ClearEvent(c.ns, c.ev), Op::SetFallback(c.ns), Op::ClearFallback(c.ns), Op::Emit(c.ns, c.ev), Op::EmitCb(c.ns, c.ev)].into_iter().enumerate() {
            if catch_unwind(AssertUnwindSafe(|| perform(client, tally, op, 500 + k))).is_err() {
                return Err(format!("{op:?} panics after a handler panicked: {}", last_panic()));
            }
        }
        return Ok(cov);
    }
    // What the operations did counts from now on.
    let mut emits: Vec<(usize, Op)> = vec![];
    for (k, (op, own)) in c.ops.iter().enumerate() {
        for tag in [2 * k, 2 * k + 1] {
            if tag % 2 == 1 && !*own {
                continue;
            }
            match op {
                Op::SetEvent(n, e) => {
                    events.insert((nsi(*n), evi(*e)), tag);
                }
                Op::ClearEvent(n, e) => {
                    events.remove(&(nsi(*n), evi(*e)));
                }
                Op::SetFallback(n) => {
                    fallbacks.insert(nsi(*n), tag);
                }
                Op::ClearFallback(n) => {
                    fallbacks.remove(&nsi(*n));
                }
                op => emits.push((tag, *op)),
            }
        }
    }
    let w = s.wire()?;
    let ps: Vec<_> = packets(&w)[sent_before..].to_vec();
    let mut want_acked = vec![];
    if ps.len() != emits.len() {
        return Err(format!("{} packets sent from inside the handler, {} on the wire", emits.len(), ps.len()));
    }
    let mut acks = vec![];
    for (p, (tag, op)) in ps.iter().zip(&emits) {
        let (Op::Emit(n, e) | Op::EmitCb(n, e)) = op else { unreachable!() };
        if p.ns != ns(*n) || p.args != [Value::from(ev(*e)), Value::from(*tag)] {
            return Err(format!("{op:?} with argument {tag} is on the wire as {p:?}"));
        }
        if let Op::EmitCb(..) = op {
            let id = p.id.ok_or("an emit with a callback carries no id")?;
            acks.push((p.ns.clone(), id));
            want_acked.push(*tag);
        }
    }
    for (n, id) in acks {
        s.feed(&server_packet(true, &n, Some(id), &[], 0, 0));
    }
    for (k, (n, e)) in c.probes.iter().enumerate() {
        let (n, e) = (nsi(*n), evi(*e));
        s.feed(&server_packet(false, n, None, &[gen::J::Str(e.into()), gen::J::U(100 + k as u64)], 0, 0));
        if let Some(h) = events.get(&(n, e)).or_else(|| fallbacks.get(n)) {
            want_calls.push((*h, 100 + k as u64));
        }
    }
    s.idle()?;
    let t = lock(tally);
    if t.calls != want_calls {
        return Err(format!("handler calls (operation, argument) {:?}, due {:?}", t.calls, want_calls));
    }
    if t.acked != want_acked {
        return Err(format!("ack callbacks of emits {:?}, due {:?}", t.acked, want_acked));
    }
    cov.label("later-events-changed", want_calls.iter().any(|(h, _)| *h != FIRST));
    cov.label("acks-of-inner-emits", !want_acked.is_empty());
    Ok(cov)
}

fn c19_strategy(_: Tier) -> BoxedStrategy<Inside> {
    let op = one_of![
        3 => (n(), e()).prop_map(|(n, e)| Op::SetEvent(n, e)),
        2 => (n(), e()).prop_map(|(n, e)| Op::ClearEvent(n, e)),
        2 => n().prop_map(Op::SetFallback),
        2 => n().prop_map(Op::ClearFallback),
        2 => (n(), e()).prop_map(|(n, e)| Op::Emit(n, e)),
        3 => (n(), e()).prop_map(|(n, e)| Op::EmitCb(n, e)),
    ];
    let at = one_of![3 => Just(Where::Event), 2 => Just(Where::Fallback), 2 => Just(Where::Ack)];
    (conf(), at, n(), e(), any::<bool>(), vec((op, any::<bool>()), 1..5), one_of![4 => Just(false), 1 => Just(true)], vec((n(), e()), 0..5))
        .prop_map(|(conf, at, ns, ev, binary, ops, panics, probes)| Inside { conf, at, ns, ev, binary, ops, panics, probes })
        .boxed()
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Address {
    Good {
        scheme: String,
        user: Option<String>,
        host: u8,
        /// digits as written
        port: Option<u16>,
        path: Option<Vec<String>>,
        query: Option<String>,
        fragment: Option<String>,
        connector: bool,
    },
    Bad {
        url: String,
        connector: bool,
    },
}

/// Hosts as written, as they must reach the connector, and in the request.
const HOSTS: [(&str, &str, &str); 14] = [
    ("example.com", "example.com", "example.com"),
    ("localhost", "localhost", "localhost"),
    ("EXAMPLE.Com", "example.com", "example.com"),
    ("a-b.c_d.e.example", "a-b.c_d.e.example", "a-b.c_d.e.example"),
    ("xn--bcher-kva.de", "xn--bcher-kva.de", "xn--bcher-kva.de"),
    ("bücher.de", "xn--bcher-kva.de", "xn--bcher-kva.de"),
    ("h%2Dx.example", "h-x.example", "h-x.example"),
    ("127.0.0.1", "127.0.0.1", "127.0.0.1"),
    ("192.168.1.254", "192.168.1.254", "192.168.1.254"),
    ("[::1]", "::1", "[::1]"),
    ("[2001:db8::ff00:42:8329]", "2001:db8::ff00:42:8329", "[2001:db8::ff00:42:8329]"),
    ("[::ffff:1.2.3.4]", "::ffff:102:304", "[::ffff:102:304]"),
    ("[FE80:0:0:0:0:0:0:1]", "fe80::1", "[fe80::1]"),
    ("x", "x", "x"),
];

/// How a character of a path or query is written in the request.
fn encoded(s: &str, query: bool) -> String {
    let mut out = String::new();
    for c in s.chars() {
        let keep = c.is_ascii_alphanumeric() || "-._~!$&()*+,;=:@/%".contains(c) || query && c == '?' || !query && c == '\'';
        if keep {
            out.push(c)
        } else {
            let mut b = [0u8; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                out.push_str(&format!("%{x:02X}"));
            }
        }
    }
    out
}

fn c20_check(a: &Address) -> CheckResult {
    sim::clock::reset();
    let before = panics();
    let mut cov = Covered::default();
    let (url, connector) = match a {
        Address::Good { scheme, user, host, port, path, query, fragment, connector } => {
            let mut u = format!("{scheme}://");
            if let Some(x) = user {
                u.push_str(x);
                u.push('@');
            }
            u.push_str(HOSTS[*host as usize % HOSTS.len()].0);
            if let Some(p) = port {
                u.push_str(&format!(":{p}"));
            }
            if let Some(p) = path {
                for seg in p {
                    u.push('/');
                    u.push_str(seg);
                }
            }
            if let Some(q) = query {
                u.push('?');
                u.push_str(q);
            }
            if let Some(f) = fragment {
                u.push('#');
                u.push_str(f);
            } else if u.ends_with(' ') {
                // spaces at the end are not part of a URL
                u.push('#');
            }
            (u, *connector)
        }
        Address::Bad { url, connector } => (url.clone(), *connector),
    };
    let pipe = Pipe::new(&[], &[]);
    let mut exec = Exec::default();
    let spawner = exec.spawner.clone();
    let stream = Arc::new(Mutex::new(Some(pipe.stream())));
    let asked: Arc<Mutex<Vec<(String, u16)>>> = Default::default();
    let (u, log) = (url.clone(), asked.clone());
    let mut f: Driven<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Client, Error>>>>> = if connector {
        Driven::new(Box::pin(async move {
            Client::connect(
                u,
                move |h, p| {
                    lock(&log).push((h, p));
                    let s = lock(&stream).take();
                    async move { s.ok_or(NoConn) }
                },
                &spawner,
            )
            .await
        }))
    } else {
        Driven::new(Box::pin(async move {
            let s = lock(&stream).take().unwrap();
            Client::from_stream(u, s, &spawner).await
        }))
    };
    let r = exec.drive(&mut f)?;
    drop(f);
    exec.idle()?;
    let asked = lock(&asked).clone();
    let bytes = pipe.written();
    if panics() != before {
        return Err(format!("{url}: panic inside the client: {}", last_panic()));
    }
    match a {
        Address::Bad { .. } => {
            cov.label("bad-url", true);
            cov.nontrivial = true;
            match r {
                Some(Err(Error::UrlError(..))) => (),
                Some(Err(e)) => return Err(format!("{url:?} gives {e}, not a URL error")),
                Some(Ok(_)) => return Err(format!("{url:?} connects")),
                None => return Err(format!("{url:?} makes connect wait")),
            }
            if !asked.is_empty() || !bytes.is_empty() {
                return Err(format!("{url:?}: contacted {asked:?}, wrote {} bytes", bytes.len()));
            }
        }
        Address::Good { scheme, host, port, path, query, .. } => {
            let tls = scheme.eq_ignore_ascii_case("https") || scheme.eq_ignore_ascii_case("wss");
            let (_, want_host, in_request) = HOSTS[*host as usize % HOSTS.len()];
            let default = if tls { 443 } else { 80 };
            let want_port = port.unwrap_or(default);
            if connector {
                // IPv6 addresses may be written in different ways.
                let same = |h: &str| match want_host.parse::<std::net::Ipv6Addr>() {
                    Ok(a) => h.parse() == Ok(a),
                    _ => h == want_host,
                };
                if asked.len() != 1 || !same(&asked[0].0) || asked[0].1 != want_port {
                    return Err(format!("{url}: the connector is asked for {asked:?}, not for {want_host:?} port {want_port}"));
                }
            }
            let by_name = want_host.chars().any(|c| c.is_ascii_alphabetic()) && !want_host.contains(':');
            cov.label("tls", tls);
            cov.label("ipv6", want_host.contains(':'));
            cov.label("explicit-port", port.is_some());
            cov.label("query", query.is_some());
            cov.nontrivial = port.is_some() || query.is_some() || path.is_some() || want_host.contains(':');
            if tls {
                // A TLS handshake record, or nothing for hosts TLS cannot name.
                if !bytes.is_empty() && (bytes.len() < 6 || bytes[0] != 0x16 || bytes[1] != 3 || bytes[5] != 1) {
                    return Err(format!("{url}: the first bytes on the transport are {:?}, no TLS handshake", String::from_utf8_lossy(&bytes[..bytes.len().min(60)])));
                }
                // Names with an underscore are refused by the TLS library.
                if by_name && !want_host.contains('_') {
                    if bytes.is_empty() {
                        return Err(format!("{url}: no TLS handshake is started (result {:?})", r.map(|r| r.map(|_| ()))));
                    }
                    if !bytes.windows(want_host.len()).any(|w| w == want_host.as_bytes()) {
                        return Err(format!("{url}: the TLS handshake does not name {want_host}"));
                    }
                }
                if matches!(r, Some(Ok(_))) || matches!(r, Some(Err(Error::UrlError(..)))) {
                    return Err(format!("{url}: unexpected result"));
                }
                return Ok(cov);
            }
            if let Some(r) = r {
                return Err(format!("{url}: connect gives {:?} before the server answers", r.map(|_| ())));
            }
            let head = String::from_utf8(bytes).map_err(|_| format!("{url}: the request is not text"))?;
            let line = head.lines().next().unwrap_or("");
            let target = line.strip_prefix("GET ").and_then(|l| l.strip_suffix(" HTTP/1.1")).ok_or_else(|| format!("{url}: request line {line:?}"))?;
            let (got_path, got_query) = target.split_once('?').ok_or_else(|| format!("{url}: request target {target:?} has no query"))?;
            let want_path = match path {
                Some(p) => p.iter().map(|s| format!("/{}", encoded(s, false))).collect::<String>(),
                None => "/".into(),
            };
            if got_path != want_path {
                return Err(format!("{url}: the request asks for path {got_path:?}, not {want_path:?}"));
            }
            let mut parts: Vec<&str> = got_query.split('&').collect();
            for add in ["EIO=4", "transport=websocket"] {
                let k = parts.iter().rposition(|p| *p == add).ok_or_else(|| format!("{url}: the query {got_query:?} lacks {add}"))?;
                parts.remove(k);
            }
            let want = query.as_ref().map(|q| encoded(q, true)).unwrap_or_default();
            if parts.join("&") != want && !(want.is_empty() && parts.iter().all(|p| p.is_empty())) {
                return Err(format!("{url}: the query sent is {got_query:?}"));
            }
            let hosts: Vec<&str> = head.lines().filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case("host")).map(|(_, v)| v.trim()).collect();
            let bare = in_request.to_string();
            let full = format!("{in_request}:{want_port}");
            let ok = match port {
                Some(p) if *p != default => hosts == [full.as_str()],
                Some(_) => hosts == [full.as_str()] || hosts == [bare.as_str()],
                None => hosts == [bare.as_str()],
            };
            if !ok {
                return Err(format!("{url}: the request names host {hosts:?}"));
            }
        }
    }
    Ok(cov)
}

fn c20_strategy(_: Tier) -> BoxedStrategy<Address> {
    let scheme = one_of![
        8 => prop::sample::select(vec!["http", "ws"]),
        2 => prop::sample::select(vec!["https", "wss"]),
        1 => prop::sample::select(vec!["HTTP", "Ws", "WSS", "hTTps"]),
    ]
    .prop_map(|s| s.to_string());
    let port = one_of![2 => Just(None), 2 => prop::sample::select(vec![80u16, 443, 8000, 8080, 1, 65535, 3000]).prop_map(Some), 1 => (1u16..).prop_map(Some)];
    let ok = "abcXYZ019-_~!$()*+,;=:@";
    let piece = |more: &'static str| {
        vec(
            one_of![
                8 => prop::sample::select(ok.chars().collect::<Vec<_>>()).prop_map(|c| c.to_string()),
                2 => prop::sample::select(more.chars().collect::<Vec<_>>()).prop_map(|c| c.to_string()),
                1 => prop::sample::select(vec!["%20", "%2F", "%2f", "%25", "%C3%A9", "%00", "%3F", "%26"]).prop_map(|s| s.to_string()),
            ],
            0..6,
        )
        .prop_map(|v| v.concat())
    };
    let path = one_of![
        1 => Just(None),
        2 => Just(Some(vec!["socket.io".to_string(), String::new()])),
        4 => vec(piece("é \"<>`{}&'"), 1..4).prop_map(Some),
    ];
    let pair = one_of![
        3 => (piece("é \"<>?/&'"), piece("é \"<>?/&'")).prop_map(|(a, b)| format!("{a}={b}")),
        1 => piece("é ?/"),
        1 => prop::sample::select(vec!["EIO=4", "EIO=3", "transport=polling", "transport=websocket", "t=a%26b", "=", ""]).prop_map(|s| s.to_string()),
    ];
    let query = one_of![2 => Just(None), 1 => Just(Some(String::new())), 4 => vec(pair, 1..4).prop_map(|v| Some(v.join("&")))];
    let user = one_of![4 => Just(None), 1 => prop::sample::select(vec!["u", "u:p", "us%20er:p%40ss", "u:", "a.b:c-d"]).prop_map(|s| Some(s.to_string()))];
    let fragment = one_of![4 => Just(None), 1 => prop::sample::select(vec!["", "frag", "a?b=c", "/x"]).prop_map(|s| Some(s.to_string()))];
    let good = (scheme, user, any::<u8>(), port, path, query, fragment, any::<bool>())
        .prop_map(|(scheme, user, host, port, path, query, fragment, connector)| Address::Good { scheme, user, host, port, path, query, fragment, connector });
    let bad_scheme = (prop::sample::select(vec!["ftp", "file", "mailto", "tcp", "unix", "socket.io", "wsss", "httpx", "h", "gopher", "ws+unix", "data"]), prop::sample::select(vec!["://example.com/", "://example.com:80/x", ":example", "://[::1]:80/?a=b", "://user@h/"]))
        .prop_map(|(s, r)| format!("{s}{r}"));
    let broken = prop::sample::select(vec![
        "", " ", "/", "//example.com/", "/socket.io/", "localhost", "localhost:8000", "example.com:80/x", "http://", "http://?a=b", "http://#f", "ws:///", "http://h:99999/", "http://h:-1/", "http://h:x/", "http://[::1/", "http://[zz]/", "http://a b/", "http://h<x>/", "http://%00/", "http://1.2.3.4.5.6.256/", "http://256.1.1.1/", "://h/", "1http://h/", "ht tp://h/", "http ://h/", "?", "#", "http://u@/", "http://:80/",
    ])
    .prop_map(|s| s.to_string());
    let garbage = gen::text(12).prop_map(|t| format!("x{}", t.replace(':', ";")));
    let bad = (one_of![3 => bad_scheme, 3 => broken, 1 => garbage], any::<bool>()).prop_map(|(url, connector)| Address::Bad { url, connector });
    one_of![4 => good, 1 => bad].boxed()
}

// ----------------------------------------------------------------

pub fn property(id: &str) -> Option<Property> {
    let p = |id, parts| Some(Property { id, parts, known: vec![], assumptions: SIM });
    match id {
        "C15" => p("C15", vec![part!("chunking", "Random inbound messages delivered one at a time and once more cut, merged, fragmented and interleaved with websocket pings at random; both runs are compared; non-trivial: at least two messages with a visible effect.", c15_strategy, c15_check, 300_000, 12_000_000)]),
        "C16" => p("C16", vec![part!("connecting", "Random server answers and first messages with a fault (end of stream, error, stall, flipped byte, write error) at a random byte and random delays under a virtual clock; non-trivial: a failure, a delay or control frames.", c16_strategy, c16_check, 2_000_000, 80_000_000)]),
        "C17" => p("C17", vec![part!("closing", "Random unsent packets, back-pressure and peer reactions around close, deaths before close, drops; non-trivial: all but plain drops.", c17_strategy, c17_check, 1_200_000, 48_000_000), part!("long", "The same with up to hundreds of packets or megabytes unsent; non-trivial as in the other part.", c17_long, c17_check, 5_000, 500_000), crate::flow::part_of("C17")]),
        "C19" => p("C19", vec![part!("inside", "Random client operations from a helper thread and from the handler itself while an event handler, fallback or ack callback runs, then events that show their effect; non-trivial: the handler ran.", c19_strategy, c19_check, 150_000, 6_000_000)]),
        "C20" => p("C20", vec![part!("urls", "Random URLs from parts, and malformed ones; connector arguments and request bytes against the parts; non-trivial: a port, path, query, IPv6 host, or a bad URL.", c20_strategy, c20_check, 5_000_000, 200_000_000)]),
        _ => None,
    }
}

