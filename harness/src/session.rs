//! Scripted sessions of one client against the simulated peer, and the model
//! of what the client must do.
use crate::gen::{self, Ser, Writer, J, S};
use crate::refparse;
use crate::sim::{self, Driven, Exec, Frame, Pipe, Reader};
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_client::{protocol::Args, AckBuilder, Client};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, MutexGuard};

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub read_plan: Vec<u16>,
    pub write_plan: Vec<u16>,
    pub tasks_first: bool,
    /// Poll everything once more, for no reason, when nothing is left to do.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub spurious: bool,
    /// The case's own names, see names().
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub names: Vec<(String, String)>,
}

impl Conf {
    /// Makes ns() and ev() stand for this case's names on this thread.
    pub fn enter(&self) {
        OWN.with(|o| *o.borrow_mut() = self.names.iter().map(|(n, e)| (keep(n), keep(e))).collect());
    }
}

/// The names in force on this thread, to be used on another.
pub fn own_names() -> Vec<(&'static str, &'static str)> {
    OWN.with(|o| o.borrow().clone())
}
pub fn use_names(v: Vec<(&'static str, &'static str)>) {
    OWN.with(|o| *o.borrow_mut() = v);
}

/// What a handler does with the reply handle it is given.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Drop,
    Hold,
    /// Reply with these arguments, binary or not.
    Reply(Vec<S>, bool),
    /// Build a reply and drop it.
    BuildOnly(Vec<S>, bool),
    /// Hold it and reply with one held earlier.
    Swap(Vec<S>, bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Twist {
    Exact,
    WrongNs(u8),
    WrongId(u64),
    Again,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    SetEvent { ns: u8, ev: u8, act: Act },
    ClearEvent { ns: u8, ev: u8 },
    SetFallback { ns: u8, act: Act },
    ClearFallback { ns: u8 },
    /// drop: 0 sent, 1 dropped before its arguments, 2 dropped after them.
    Emit { ns: u8, ev: u8, binary: bool, cb: bool, args: Vec<S>, drop: u8 },
    /// inter: messages between the frames of a binary packet (0 ping, 1 pong).
    Event { ns: u8, ev: u8, id: Option<u64>, args: Vec<J>, extra: u8, style: u64, inter: Vec<(u8, u8)> },
    Ack { nth: u16, twist: Twist, args: Vec<J>, style: u64, inter: Vec<(u8, u8)> },
    Ping(bool),
    Pong,
    ConnectNs(u8),
    DisconnectNs(u8),
    WsPing(Vec<u8>),
    Run,
    Block(bool),
    UseHeld { nth: u16, args: Vec<S>, binary: bool, send: bool },
    DropHeld { nth: u16 },
    /// A message that violates the protocol.
    Bad(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    Text(String),
    Bin(Vec<u8>),
    /// Socket packet text (after the engine type digit).
    Socket(String),
    SecondOpen,
    /// An engine close, then this engine message.
    AfterClose(u8),
    OrphanBinary(Vec<u8>),
    /// A packet announcing n attachments with a text message as the k-th.
    TextIntruder { n: u8, k: u8, text: String },
    /// Event whose first argument is this JSON.
    BadName(String),
    /// Binary event whose first argument is no string.
    BadNameBinary(String),
    UnknownAck { ns: u8, id: u64 },
    UnknownAckBinary { ns: u8, id: u64 },
    /// A websocket frame no websocket implementation may accept.
    RawFrame(u8),
}

pub const NS: [&str; 10] = ["/", "/a", "/ab", "/a/b", "/é?x=1&[2]", "/1-", "/\n\"[]", "/A", "/a/", "/a?x=1"];
pub const EV: [&str; 11] = ["msg", "message", "", "m\"s\\g", "é\n😀", "connect", "_placeholder", "msg\u{0}", "0", "MSG", "msg "];

thread_local! {
    /// The names of the case that runs, if it brings its own.
    static OWN: RefCell<Vec<(&'static str, &'static str)>> = const { RefCell::new(vec![]) };
}

fn keep(s: &str) -> &'static str {
    static KEPT: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut k = lock(&KEPT);
    match k.get(s) {
        Some(s) => s,
        None => {
            let s: &'static str = Box::leak(s.to_string().into_boxed_str());
            k.insert(s);
            s
        }
    }
}

/// Number 0 is always the root namespace.
pub fn ns(n: u8) -> &'static str {
    if n == 0 {
        return NS[0];
    }
    OWN.with(|o| match o.borrow().as_slice() {
        [] => NS[n as usize % NS.len()],
        own => own[(n as usize - 1) % own.len()].0,
    })
}
pub fn ev(n: u8) -> &'static str {
    OWN.with(|o| match o.borrow().as_slice() {
        [] => EV[n as usize % EV.len()],
        own => own[n as usize % own.len()].1,
    })
}

/// Names that are nearly the same, for a case to use in place of NS and EV.
pub fn names(max: u32) -> BoxedStrategy<Vec<(String, String)>> {
    let base = || one_of![3 => gen::text(12), 1 => gen::lit_text(), 2 => (gen::text(4), gen::size().prop_map(move |n| n.min(max)), gen::ch(), gen::text(4)).prop_map(|(a, n, c, b)| format!("{a}{}{b}", c.to_string().repeat(n as usize)))];
    let variant = || one_of![3 => Just(0u8), 16 => 1u8..16];
    fn vary(s: &str, how: u8, c: char) -> String {
        let n = s.chars().count();
        let at = |k: usize, c: char| s.chars().enumerate().map(|(i, x)| if i == k { c } else { x }).collect::<String>();
        match how {
            0 => s.to_string(),
            1 => format!("{s}{c}"),
            2 => format!("{c}{s}"),
            3 => s.chars().take(n.saturating_sub(1)).collect(),
            4 => s.chars().skip(1).collect(),
            5 => s.to_uppercase(),
            6 => s.to_lowercase(),
            7 => at(n.saturating_sub(1), c),
            8 => at(n / 2, c),
            9 => at(0, c),
            10 => format!("{s}{s}"),
            11 => s.chars().rev().collect(),
            12 => format!("{s} "),
            13 => format!("{s}\0"),
            14 => s.trim().to_string(),
            _ => format!("{s}/{s}"),
        }
    }
    (base(), base(), vec((variant(), gen::ch(), variant(), gen::ch()), 1..6))
        .prop_map(|(a, b, v)| v.into_iter().map(|(h, c, g, d)| (format!("/{}", vary(&a, h, c).replace(',', ";")), vary(&b, g, d))).map(|(n, e)| (if n == "/" { "/?".into() } else { n }, e)).collect())
        .boxed()
}

// ---------------------------------------------------------------- recording

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    /// Step that set the handler.
    pub handler: usize,
    pub args: Vec<Value>,
    pub has_ack: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct AckCall {
    pub emit: usize,
    pub args: Vec<Value>,
}

/// A packet handed to the client for sending.
#[derive(Clone, Debug, PartialEq)]
pub enum Sent {
    /// files: the number of attachments due
    Emit { step: usize, ns: String, name: String, args: Vec<Value>, cb: bool, files: usize },
    /// tag: the second argument of the event replied to.
    Reply { tag: Option<u64>, args: Vec<Value>, files: usize },
}

#[derive(Default)]
pub struct World {
    pub calls: Vec<Call>,
    pub acks: Vec<AckCall>,
    pub held: Vec<(AckBuilder, Option<u64>)>,
    pub sends: Vec<Sent>,
    pub bad_args: Option<String>,
    /// Set while the closing phase runs.
    pub counting: u64,
}

pub type Shared = Arc<Mutex<World>>;

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn values(args: &[S]) -> Vec<Value> {
    args.iter().map(|s| serde_json::from_str(&serde_json::to_string(&Ser(s)).expect("serializable")).expect("JSON")).collect()
}

fn read_args(w: &mut World, args: &Args) -> Vec<Value> {
    let mut out = vec![];
    for a in args.iter() {
        out.push(match a.to_json_value() {
            Ok(v) => v,
            Err(e) => {
                w.bad_args.get_or_insert(format!("argument {a} cannot be read: {e}"));
                Value::String(format!("!unreadable {e}"))
            }
        });
    }
    if args.len() != out.len() {
        w.bad_args.get_or_insert(format!("{} arguments by len(), {} by iteration", args.len(), out.len()));
    }
    out
}

/// How many attachments arguments make.
pub fn files(args: &[S], binary: bool) -> usize {
    let mut atts = vec![];
    if binary {
        args.iter().for_each(|a| drop(a.extract(&mut atts)));
    }
    atts.len()
}

pub fn tag_of(args: &[Value]) -> Option<u64> {
    args.get(1).and_then(|v| v.as_u64())
}

pub fn reply(w: &Shared, ack: AckBuilder, tag: Option<u64>, args: &[S], binary: bool, send: bool) {
    // Text is the default.
    let mut b = if !binary && args.len() % 2 == 0 { ack.args() } else { ack.binary(binary).args() };
    for (i, a) in args.iter().enumerate() {
        if i % 2 == 0 {
            b.arg_ref(&Ser(a)).expect("argument serializes");
        } else {
            b = b.arg(&Ser(a)).expect("argument serializes");
        }
    }
    if send {
        lock(w).sends.push(Sent::Reply { tag, args: values(args), files: files(args, binary) });
        b.send();
    }
}

fn run_act(world: &Shared, act: &Act, ack: Option<AckBuilder>, args: &[Value]) {
    let Some(ack) = ack else { return };
    let tag = tag_of(args);
    match act {
        Act::Drop => drop(ack),
        Act::Hold => lock(world).held.push((ack, tag)),
        Act::Reply(a, b) => reply(world, ack, tag, a, *b, true),
        Act::BuildOnly(a, b) => reply(world, ack, tag, a, *b, false),
        Act::Swap(a, b) => {
            let old = {
                let mut w = lock(world);
                w.held.push((ack, tag));
                w.held.remove(0)
            };
            reply(world, old.0, old.1, a, *b, true)
        }
    }
}

pub fn handler(world: &Shared, id: usize, act: Act) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let world = world.clone();
    move |args: &Args, ack: Option<AckBuilder>| {
        let got = {
            let mut w = lock(&world);
            let got = read_args(&mut w, args);
            w.calls.push(Call { handler: id, args: got.clone(), has_ack: ack.is_some() });
            got
        };
        run_act(&world, &act, ack, &got);
    }
}

pub fn ack_handler(world: &Shared, emit: usize) -> impl FnOnce(&Args) + Send + 'static {
    let world = world.clone();
    move |args: &Args| {
        let mut w = lock(&world);
        let got = read_args(&mut w, args);
        w.acks.push(AckCall { emit, args: got });
    }
}

// ---------------------------------------------------------------- the peer's view

#[derive(Clone, Debug, PartialEq)]
pub struct WirePacket {
    pub ack: bool,
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<Value>,
    pub attachments: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wire {
    Packet(WirePacket),
    Pong,
    WsPong,
    Close(Option<u16>),
}

fn resolve(v: Value, atts: &[Vec<u8>]) -> Result<Value, String> {
    Ok(match v {
        Value::Object(m) => {
            if m.len() == 2 && m.get("_placeholder") == Some(&Value::Bool(true)) {
                let n = m.get("num").and_then(|n| n.as_u64()).ok_or("placeholder without a number")?;
                let b = atts.get(n as usize).ok_or(format!("placeholder {n} of {}", atts.len()))?;
                return Ok(Value::from(b.clone()));
            }
            Value::Object(m.into_iter().map(|(k, v)| Ok((k, resolve(v, atts)?))).collect::<Result<_, String>>()?)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(|v| resolve(v, atts)).collect::<Result<_, _>>()?),
        v => v,
    })
}

/// What the frames the client wrote mean. The last packet may be incomplete
/// when `cut` allows it (it is left out then).
pub fn read_wire(frames: &[Frame], cut: bool) -> Result<Vec<Wire>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < frames.len() {
        match &frames[i] {
            Frame::Ping(_) => return Err("the client sends a websocket ping".into()),
            Frame::Pong(_) => out.push(Wire::WsPong),
            Frame::Close(b) => out.push(Wire::Close(if b.len() >= 2 { Some(u16::from_be_bytes([b[0], b[1]])) } else { None })),
            Frame::Bin(_) => return Err(format!("frame {i}: binary message outside a packet")),
            Frame::Text(t) if t == "3" => out.push(Wire::Pong),
            Frame::Text(t) => {
                let text = t.strip_prefix('4').ok_or_else(|| format!("frame {i}: {t:?} is no engine message"))?;
                // An acknowledgement without arguments may omit the array.
                let full = format!("{text}[]");
                let p = match (refparse::packet(text), refparse::packet(&full)) {
                    (refparse::Verdict::Accept(p), _) => p,
                    (refparse::Verdict::Open, refparse::Verdict::Accept(p)) => p,
                    _ => return Err(format!("frame {i}: {text:?} is no socket packet")),
                };
                if !p.is_event() && !p.is_ack() {
                    return Err(format!("frame {i}: unexpected packet {text:?}"));
                }
                let n = p.count.unwrap_or(0) as usize;
                let mut atts = vec![];
                while atts.len() < n {
                    i += 1;
                    match frames.get(i) {
                        Some(Frame::Bin(b)) if b.first() == Some(&4) => atts.push(b[1..].to_vec()),
                        Some(Frame::Pong(_)) => out.push(Wire::WsPong),
                        None if cut => return Ok(out),
                        f => return Err(format!("{text:?} needs attachment {} of {n}, but the next message is {f:?}", atts.len() + 1)),
                    }
                }
                let args = p.args().iter().map(|a| resolve(serde_json::from_str(a).map_err(|e| e.to_string())?, &atts)).collect::<Result<Vec<_>, String>>()?;
                out.push(Wire::Packet(WirePacket { ack: p.is_ack(), ns: p.namespace().to_string(), id: p.id, args, attachments: n }));
            }
        }
        i += 1;
    }
    Ok(out)
}

pub fn packets(w: &[Wire]) -> Vec<&WirePacket> {
    w.iter().filter_map(|w| if let Wire::Packet(p) = w { Some(p) } else { None }).collect()
}
pub fn pongs(w: &[Wire]) -> usize {
    w.iter().filter(|w| **w == Wire::Pong).count()
}

// ---------------------------------------------------------------- writing packets

/// Frames (websocket opcode, payload) of one packet as the server sends it.
pub fn server_packet(ack: bool, ns: &str, id: Option<u64>, args: &[J], style: u64, extra: u8) -> Vec<(u8, Vec<u8>)> {
    let binary = args.iter().any(J::has_bin) || extra % 4 == 3;
    let mut w = Writer::new(style, binary);
    if !args.is_empty() || style % 2 == 1 {
        w.args(args);
    }
    let mut atts = w.atts.take().unwrap_or_default();
    if binary {
        // an attachment no placeholder names
        if extra % 4 == 3 {
            atts.push(vec![extra; extra as usize % 5]);
        }
        if atts.is_empty() {
            atts.push(vec![7]);
        }
    }
    let kind = match (ack, binary) {
        (false, false) => '2',
        (true, false) => '3',
        (false, true) => '5',
        (true, true) => '6',
    };
    let mut t = format!("4{kind}");
    if binary {
        t.push_str(&format!("{}-", atts.len()));
    }
    if ns != "/" {
        t.push_str(ns);
        t.push(',');
    }
    if let Some(id) = id {
        t.push_str(&id.to_string());
    }
    t.push_str(&w.out);
    let mut out = vec![(sim::TEXT, t.into_bytes())];
    for a in atts {
        let mut b = vec![4];
        b.extend(a);
        out.push((sim::BINARY, b));
    }
    out
}

pub fn json_values(args: &[J]) -> Vec<Value> {
    args.iter().map(|j| j.value(&[]).expect("no explicit placeholders")).collect()
}

// ---------------------------------------------------------------- a running session

pub struct Session {
    pub exec: Exec,
    pub pipe: Arc<Pipe>,
    pub reader: Reader,
    pub client: Option<Client>,
    pub world: Shared,
}

impl Session {
    /// Connect and receive the open packet.
    pub fn start(conf: &Conf) -> Result<Session, String> {
        Self::start_with(conf, &sim::frame(true, sim::TEXT, sim::OPEN.as_bytes()), false)
    }

    /// `first`: the server's frames that follow its handshake response, in
    /// the same write when `merged`.
    pub fn start_with(conf: &Conf, first: &[u8], merged: bool) -> Result<Session, String> {
        conf.enter();
        sim::clock::reset();
        let pipe = Pipe::new(&conf.read_plan, &conf.write_plan);
        let mut exec = Exec { tasks_first: conf.tasks_first, spurious: conf.spurious, ..Default::default() };
        let mut reader = Reader::default();
        let spawner = exec.spawner.clone();
        let stream = pipe.stream();
        let mut f = Driven::new(async move { Client::from_stream("http://h/socket.io/", stream, &spawner).await });
        if exec.drive(&mut f)?.is_some() {
            return Err("connect returned before the handshake".into());
        }
        reader.read(&pipe)?;
        let mut bytes = reader.response()?;
        if !merged {
            pipe.feed(&bytes);
            bytes.clear();
            if exec.drive(&mut f)?.is_some() {
                return Err("connect returned before the open packet".into());
            }
        }
        bytes.extend(first);
        pipe.feed(&bytes);
        let client = match exec.drive(&mut f)? {
            Some(Ok(c)) => c,
            Some(Err(e)) => return Err(format!("connect fails: {e}")),
            None => return Err("connect does not return after the open packet".into()),
        };
        drop(f);
        Ok(Session { exec, pipe, reader, client: Some(client), world: Default::default() })
    }

    pub fn client(&mut self) -> &mut Client {
        self.client.as_mut().unwrap()
    }

    pub fn feed(&self, frames: &[(u8, Vec<u8>)]) {
        for (op, p) in frames {
            self.pipe.feed(&sim::frame(true, *op, p));
        }
    }

    pub fn idle(&mut self) -> Result<(), String> {
        self.exec.idle()?;
        self.reader.read(&self.pipe)
    }

    /// Everything on the wire so far; an unfinished last packet is left out.
    pub fn wire(&mut self) -> Result<Vec<Wire>, String> {
        self.reader.read(&self.pipe)?;
        read_wire(&self.reader.frames, true)
    }

    /// Close without passing time: None while it waits.
    pub fn close_now(&mut self) -> Result<Option<Result<(), socket_io_client::Error>>, String> {
        let c = self.client.as_mut().unwrap();
        let mut f = Driven::new(c.close());
        let r = self.exec.drive(&mut f)?;
        drop(f);
        Ok(r)
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        self.client = None;
        lock(&self.world).held.clear();
        let _ = self.exec.idle();
        sim::clock::reset();
    }
}

// ---------------------------------------------------------------- interpreting a script

/// What the model says about one inbound event.
#[derive(Clone, Debug)]
pub struct EventIn {
    pub ns: String,
    pub name: String,
    pub id: Option<u64>,
    pub tag: Option<u64>,
    pub args: Vec<Value>,
}

#[derive(Clone, Debug)]
enum Inbound {
    Event(EventIn),
    Ack { ns: String, id: u64, args: Vec<Value> },
    Bad,
}

/// Everything a facet's oracle needs.
#[derive(Default)]
pub struct Outcome {
    pub calls: Vec<Call>,
    pub want_calls: Vec<Call>,
    pub acks: Vec<AckCall>,
    pub want_acks: Vec<AckCall>,
    pub sends: Vec<Sent>,
    pub wire: Vec<Wire>,
    pub pings: usize,
    pub events: Vec<EventIn>,
    pub dead: bool,
    pub bad_args: Option<String>,
    pub emits_with_cb: usize,
    pub acks_twisted: usize,
    pub handler_changes_between_events: bool,
    pub ping_inside_binary: bool,
    pub blocked_sends: bool,
    pub close: Option<Result<(), String>>,
    pub task_alive: bool,
    /// sends made before the wire state at each quiet point
    pub quiet: Vec<(usize, usize, usize, usize, bool)>,
    pub wire_error: Option<String>,
    pub delivered_binary: bool,
    pub after_bad: usize,
}

pub struct Interp {
    pub s: Session,
    pub out: Outcome,
    queue: Vec<Inbound>,
    events: BTreeMap<(String, String), (usize, Act)>,
    fallbacks: BTreeMap<String, (usize, Act)>,
    /// (namespace, id) -> emit step, for emits seen on the wire
    waiting: BTreeMap<(String, u64), usize>,
    answered: Vec<(String, u64)>,
    seen: Vec<(String, u64)>,
    wire_seen: usize,
    tags: u64,
    blocked: bool,
    /// Writes were blocked at the last run.
    behind: bool,
    /// (step) of emits with callbacks handed to send, in order
    cb_emits: Vec<usize>,
    ids: BTreeSet<(String, u64)>,
}

impl Interp {
    pub fn new(s: Session) -> Interp {
        Interp {
            s,
            out: Outcome::default(),
            queue: vec![],
            events: Default::default(),
            fallbacks: Default::default(),
            waiting: Default::default(),
            answered: vec![],
            seen: vec![],
            wire_seen: 0,
            tags: 1000,
            blocked: false,
            behind: false,
            cb_emits: vec![],
            ids: Default::default(),
        }
    }

    fn model(&mut self, q: Vec<Inbound>) {
        for m in q {
            if self.out.dead {
                self.out.after_bad += 1;
                continue;
            }
            match m {
                Inbound::Bad => self.out.dead = true,
                Inbound::Event(e) => {
                    let h = self.events.get(&(e.ns.clone(), e.name.clone())).or_else(|| self.fallbacks.get(&e.ns));
                    if let Some((id, _)) = h {
                        self.out.want_calls.push(Call { handler: *id, args: e.args.clone(), has_ack: e.id.is_some() });
                    }
                    self.out.events.push(e);
                }
                Inbound::Ack { ns, id, args } => match self.waiting.remove(&(ns.clone(), id)) {
                    Some(emit) => {
                        self.answered.push((ns, id));
                        self.out.want_acks.push(AckCall { emit, args });
                    }
                    None => self.out.dead = true,
                },
            }
        }
    }

    fn look(&mut self) -> Result<(), String> {
        // Emits that reached the wire can be acknowledged from now on.
        let w = match self.s.wire() {
            Ok(w) => w,
            Err(e) => {
                self.out.wire_error.get_or_insert(e);
                return Ok(());
            }
        };
        let ps = packets(&w);
        for p in &ps[self.wire_seen.min(ps.len())..] {
            if let (false, Some(id)) = (p.ack, p.id) {
                // The emit this is: by its tag, its first argument after the name.
                let step = p.args.get(1).and_then(|v| v.as_u64()).map(|n| n as usize);
                if let Some(step) = step.filter(|s| self.cb_emits.contains(s)) {
                    if self.ids.insert((p.ns.clone(), id)) {
                        self.waiting.insert((p.ns.clone(), id), step);
                        self.seen.push((p.ns.clone(), id));
                    }
                }
            }
        }
        self.wire_seen = ps.len();
        Ok(())
    }

    pub fn run(&mut self) -> Result<(), String> {
        let q = std::mem::take(&mut self.queue);
        self.model(q);
        self.s.idle()?;
        self.behind = self.blocked;
        self.look()?;
        if !self.out.dead && self.out.wire_error.is_none() {
            let w = self.s.wire().unwrap_or_default();
            let sends = lock(&self.s.world).sends.len();
            self.out.quiet.push((sends, packets(&w).len(), self.out.pings, pongs(&w), self.blocked));
        }
        Ok(())
    }

    /// Lets only a part of what was fed arrive; `run` before anything else.
    pub fn half(&mut self, cut: u8) -> Result<bool, String> {
        if self.s.pipe.keep_back(cut) {
            self.s.idle()?;
            return Ok(true);
        }
        Ok(false)
    }
    pub fn other_half(&mut self) -> Result<(), String> {
        self.s.pipe.catch_up();
        self.run()
    }

    fn between(&mut self, inter: &[(u8, u8)], at: usize, last: usize) {
        for (p, kind) in inter {
            // positions inside the packet only
            if last > 0 && *p as usize % last == at {
                self.engine(*kind % 2 == 0);
                self.out.ping_inside_binary |= *kind % 2 == 0;
            }
        }
    }

    fn engine(&mut self, ping: bool) {
        if ping {
            self.s.pipe.feed(&sim::frame(true, sim::TEXT, b"2"));
            if !self.out.dead && !self.queue.iter().any(|q| matches!(q, Inbound::Bad)) {
                self.out.pings += 1;
            }
        } else {
            self.s.pipe.feed(&sim::frame(true, sim::TEXT, b"3"));
        }
    }

    fn packet(&mut self, frames: Vec<(u8, Vec<u8>)>, inter: &[(u8, u8)]) {
        let n = frames.len();
        self.out.delivered_binary |= n > 1;
        for (i, f) in frames.into_iter().enumerate() {
            self.s.feed(&[f]);
            if i + 1 < n {
                self.between(inter, i, n - 1);
            }
        }
    }

    pub fn step(&mut self, i: usize, st: &Step) -> Result<(), String> {
        let world = self.s.world.clone();
        let before_events = self.out.want_calls.len() + self.out.events.len();
        if self.behind && matches!(st, Step::SetEvent { .. } | Step::ClearEvent { .. } | Step::SetFallback { .. } | Step::ClearFallback { .. }) {
            // A client stuck in a write need not read on: what it was sent
            // before the change is only sure to be handled once it can write.
            self.s.pipe.block(false);
            self.blocked = false;
            self.run()?;
        }
        match st {
            Step::SetEvent { ns: n, ev: e, act } => {
                let (n, e) = (ns(*n), ev(*e));
                let h = handler(&world, i, act.clone());
                if n == "/" && i % 2 == 0 {
                    self.s.client().set_event_callback(e, h);
                } else {
                    self.s.client().set_namespace_event_callback(n, e, h);
                }
                self.events.insert((n.into(), e.into()), (i, act.clone()));
                self.out.handler_changes_between_events |= before_events > 0;
            }
            Step::ClearEvent { ns: n, ev: e } => {
                let (n, e) = (ns(*n), ev(*e));
                if n == "/" && i % 2 == 0 {
                    self.s.client().clear_event_callback(e);
                } else {
                    self.s.client().clear_namespace_event_callback(n, e);
                }
                self.events.remove(&(n.into(), e.into()));
                self.out.handler_changes_between_events |= before_events > 0;
            }
            Step::SetFallback { ns: n, act } => {
                let n = ns(*n);
                let h = handler(&world, i, act.clone());
                if n == "/" && i % 2 == 0 {
                    self.s.client().set_fallback_callback(h);
                } else {
                    self.s.client().set_namespace_fallback_callback(n, h);
                }
                self.fallbacks.insert(n.into(), (i, act.clone()));
                self.out.handler_changes_between_events |= before_events > 0;
            }
            Step::ClearFallback { ns: n } => {
                let n = ns(*n);
                if n == "/" && i % 2 == 0 {
                    self.s.client().clear_fallback_callback();
                } else {
                    self.s.client().clear_namespace_fallback_callback(n);
                }
                self.fallbacks.remove(n);
                self.out.handler_changes_between_events |= before_events > 0;
            }
            Step::Emit { ns: n, ev: e, binary, cb, args, drop: d } => {
                let (n, e) = (ns(*n), ev(*e));
                // Every emit carries its step number as first argument.
                let mut all = vec![S::U64(i as u64)];
                all.extend(args.iter().cloned());
                let c = self.s.client.as_mut().unwrap();
                let mut b = if n == "/" && i % 2 == 0 { c.emit(e) } else { c.namespace_emit(n, e) };
                if *cb && i % 5 == 2 {
                    // Given twice: the one given last is the one to call.
                    b = b.callback(ack_handler(&world, usize::MAX - i));
                }
                if *cb && i % 3 == 0 {
                    b = b.callback(ack_handler(&world, i)).binary(*binary);
                } else {
                    if *binary || i % 4 != 1 {
                        b = b.binary(*binary);
                    }
                    if *cb {
                        b = b.callback(ack_handler(&world, i));
                    }
                }
                if *d == 1 {
                    drop(b);
                    return Ok(());
                }
                let mut b = b.args();
                for (k, a) in all.iter().enumerate() {
                    if k % 2 == 0 {
                        b = b.arg(&Ser(a)).map_err(|e| format!("argument refused: {e}"))?;
                    } else {
                        b.arg_ref(&Ser(a)).map_err(|e| format!("argument refused: {e}"))?;
                    }
                }
                if *d == 2 {
                    drop(b);
                    return Ok(());
                }
                lock(&world).sends.push(Sent::Emit { step: i, ns: n.into(), name: e.into(), args: values(&all), cb: *cb, files: files(&all, *binary) });
                if *cb {
                    self.cb_emits.push(i);
                    self.out.emits_with_cb += 1;
                }
                self.out.blocked_sends |= self.blocked;
                b.send();
            }
            Step::Event { ns: n, ev: e, id, args, extra, style, inter } => {
                let (n, e) = (ns(*n), ev(*e));
                self.tags += 1;
                let mut all = vec![J::Str(e.into())];
                // A bare event now and then; replies need the tag.
                let bare = id.is_none() && args.is_empty() && extra % 4 != 3;
                if !bare {
                    all.push(J::U(self.tags));
                    all.extend(args.iter().cloned());
                }
                let frames = server_packet(false, n, *id, &all, *style, *extra);
                self.packet(frames, inter);
                self.queue.push(Inbound::Event(EventIn {
                    ns: n.into(),
                    name: e.into(),
                    id: *id,
                    tag: if bare { None } else { Some(self.tags) },
                    args: json_values(&all),
                }));
            }
            Step::Ack { nth, twist, args, style, inter } => {
                let (n, id) = match twist {
                    Twist::Again => {
                        if self.answered.is_empty() {
                            return Ok(());
                        }
                        self.answered[*nth as usize % self.answered.len()].clone()
                    }
                    _ => {
                        // one not answered yet, by what the peer has seen and sent
                        let open: Vec<_> = self
                            .seen
                            .iter()
                            .filter(|k| self.waiting.contains_key(*k) && !self.queue.iter().any(|q| matches!(q, Inbound::Ack{ns, id, ..} if *ns == k.0 && *id == k.1)))
                            .cloned()
                            .collect();
                        if open.is_empty() {
                            return Ok(());
                        }
                        let k = open[*nth as usize % open.len()].clone();
                        match twist {
                            Twist::WrongNs(n) => (ns(*n).to_string(), k.1),
                            Twist::WrongId(id) => (k.0, *id),
                            _ => k,
                        }
                    }
                };
                let twisted = *twist != Twist::Exact;
                if twisted {
                    // What is underway counts first; then the id must be one
                    // the peer knows, or one no emit can have.
                    self.run()?;
                    if self.out.dead || self.ids.len() < self.cb_emits.len() {
                        return Ok(());
                    }
                }
                self.out.acks_twisted += twisted as usize;
                let frames = server_packet(true, &n, Some(id), args, *style, 0);
                self.packet(frames, inter);
                self.queue.push(Inbound::Ack { ns: n, id, args: json_values(args) });
                if twisted {
                    self.run()?;
                }
            }
            Step::Ping(probe) => {
                if *probe {
                    self.s.pipe.feed(&sim::frame(true, sim::PING, b"p"));
                }
                self.engine(true);
            }
            Step::Pong => self.engine(false),
            Step::ConnectNs(n) | Step::DisconnectNs(n) => {
                let k = if matches!(st, Step::ConnectNs(_)) { 0 } else { 1 };
                let t = if ns(*n) == "/" { format!("4{k}") } else { format!("4{k}{},", ns(*n)) };
                self.s.feed(&[(sim::TEXT, t.into_bytes())]);
            }
            Step::WsPing(b) => self.s.pipe.feed(&sim::frame(true, sim::PING, &b[..b.len().min(125)])),
            Step::Run => self.run()?,
            Step::Block(b) => {
                self.blocked = *b;
                self.s.pipe.block(*b);
            }
            Step::UseHeld { nth, args, binary, send } => {
                let h = {
                    let mut w = lock(&world);
                    if w.held.is_empty() {
                        return Ok(());
                    }
                    let k = *nth as usize % w.held.len();
                    w.held.remove(k)
                };
                reply(&world, h.0, h.1, args, *binary, *send);
                self.out.blocked_sends |= self.blocked && *send;
            }
            Step::DropHeld { nth } => {
                let mut w = lock(&world);
                if !w.held.is_empty() {
                    let k = *nth as usize % w.held.len();
                    w.held.remove(k);
                }
            }
            Step::Bad(b) => {
                if let Bad::UnknownAck { ns: n, id } | Bad::UnknownAckBinary { ns: n, id } = b {
                    // only when really nobody waits for it
                    self.run()?;
                    if self.waiting.contains_key(&(ns(*n).to_string(), *id)) || self.ids.len() < self.cb_emits.len() {
                        return Ok(());
                    }
                }
                if let Bad::Text(t) = b {
                    if t.strip_prefix('4').map_or(false, |t| !matches!(refparse::packet(t), refparse::Verdict::Reject)) {
                        return Err(format!("harness: {t:?} is no violation"));
                    }
                }
                self.s.pipe.feed(&bad_bytes(b));
                self.queue.push(Inbound::Bad);
                if let Bad::UnknownAck { .. } | Bad::UnknownAckBinary { .. } = b {
                    self.run()?;
                }
            }
        }
        Ok(())
    }

    /// Unblock, run, and collect what happened.
    pub fn finish(mut self, close: bool) -> Result<Outcome, String> {
        self.s.pipe.block(false);
        self.blocked = false;
        self.run()?;
        self.out.task_alive = self.s.exec.live_tasks() > 0;
        match self.s.wire() {
            Ok(w) => self.out.wire = w,
            Err(e) => {
                self.out.wire_error.get_or_insert(e);
            }
        }
        {
            let w = lock(&self.s.world);
            self.out.calls = w.calls.clone();
            self.out.acks = w.acks.clone();
            self.out.sends = w.sends.clone();
            self.out.bad_args = w.bad_args.clone();
        }
        if close {
            let r = self.s.close_now()?;
            self.out.close = r.map(|r| r.map_err(|e| e.to_string()));
        }
        Ok(std::mem::take(&mut self.out))
    }
}

pub fn bad_bytes(b: &Bad) -> Vec<u8> {
    let text = |t: &str| sim::frame(true, sim::TEXT, t.as_bytes());
    let bin = |b: &[u8]| sim::frame(true, sim::BINARY, b);
    let att = |b: &[u8]| {
        let mut v = vec![4];
        v.extend_from_slice(b);
        sim::frame(true, sim::BINARY, &v)
    };
    match b {
        Bad::Text(t) => text(t),
        Bad::Bin(b) => bin(b),
        Bad::Socket(t) => text(&format!("4{t}")),
        Bad::SecondOpen => text(sim::OPEN),
        Bad::AfterClose(k) => {
            let mut v = text("1");
            v.extend(match k % 6 {
                0 => text("2"),
                1 => text("3"),
                2 => text("42[\"msg\"]"),
                3 => text("1"),
                4 => text("40"),
                _ => text("42/a,[\"msg\",1]"),
            });
            v
        }
        Bad::OrphanBinary(b) => att(b),
        Bad::TextIntruder { n, k, text: t } => {
            let n = (*n as usize % 4) + 1;
            let k = *k as usize % n;
            let holders: Vec<String> = (0..n).map(|i| format!("{{\"_placeholder\":true,\"num\":{i}}}")).collect();
            let mut v = text(&format!("45{n}-[\"msg\",{}]", holders.join(",")));
            for i in 0..n {
                v.extend(if i == k { text(&format!("4{t}")) } else { att(&[i as u8]) });
            }
            v
        }
        Bad::BadName(j) => text(&format!("42[{j}]")),
        Bad::BadNameBinary(j) => {
            let mut v = text(&format!("451-[{j},{{\"_placeholder\":true,\"num\":0}}]"));
            v.extend(att(&[1]));
            v
        }
        Bad::UnknownAck { ns: n, id } => text(&format!("43{}{id}[]", if ns(*n) == "/" { String::new() } else { format!("{},", ns(*n)) })),
        Bad::UnknownAckBinary { ns: n, id } => {
            let mut v = text(&format!("461-{}{id}[{{\"_placeholder\":true,\"num\":0}}]", if ns(*n) == "/" { String::new() } else { format!("{},", ns(*n)) }));
            v.extend(att(&[1]));
            v
        }
        Bad::RawFrame(k) => match k % 5 {
            0 => sim::frame(true, sim::TEXT, &[0x34, 0xff, 0xfe]),
            1 => vec![0xc1, 1, b'2'],
            2 => sim::frame(true, 3, b"2"),
            3 => sim::frame(true, 0, b"2"),
            _ => sim::frame(false, sim::PING, b"2"),
        },
    }
}

// ---------------------------------------------------------------- generators

pub fn plan() -> BoxedStrategy<Vec<u16>> {
    one_of![
        3 => Just(vec![]),
        2 => vec(one_of![1 => Just(0u16), 4 => 1u16..8, 2 => 8u16..200], 1..8),
        1 => Just(vec![1]),
        1 => Just(vec![1, 0]),
        1 => Just(vec![2, 125]),
    ]
    .boxed()
}

pub fn conf() -> BoxedStrategy<Conf> {
    (plan(), plan(), any::<bool>(), one_of![3 => Just(vec![]), 1 => names(5000)], prop::bool::weighted(0.25)).prop_map(|(read_plan, write_plan, tasks_first, names, spurious)| Conf { read_plan, write_plan, tasks_first, names, spurious }).boxed()
}

/// Arguments of emits and replies.
pub fn small_s() -> BoxedStrategy<S> {
    one_of![
        4 => gen::s_leaf(),
        3 => gen::bytes(10).prop_map(S::Bytes),
        1 => vec(any::<u8>(), 0..5).prop_map(S::U8Seq),
        2 => gen::s_value(0),
    ]
    .boxed()
}

pub fn s_args() -> BoxedStrategy<Vec<S>> {
    one_of![2 => Just(vec![]), 4 => vec(small_s(), 1..4)].boxed()
}

pub fn small_j() -> BoxedStrategy<J> {
    one_of![
        3 => gen::json(0),
        3 => gen::bytes(10).prop_map(J::Bin),
        2 => vec(gen::bytes(6).prop_map(J::Bin), 0..3).prop_map(J::Arr),
        2 => gen::text(10).prop_map(J::Str),
        2 => (0u64..5).prop_map(J::U),
        1 => gen::json(6),
    ]
    .boxed()
}

pub fn j_args() -> BoxedStrategy<Vec<J>> {
    one_of![2 => Just(vec![]), 4 => vec(small_j(), 1..4)].boxed()
}

pub fn inter() -> BoxedStrategy<Vec<(u8, u8)>> {
    one_of![3 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>()), 1..4)].boxed()
}

/// Namespaces and names are drawn from few, so that they meet.
pub fn n() -> BoxedStrategy<u8> {
    one_of![4 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8), 1 => 3u8..7, 1 => 7u8..10].boxed()
}
pub fn e() -> BoxedStrategy<u8> {
    one_of![5 => Just(0u8), 3 => Just(1u8), 2 => 2u8..11].boxed()
}

pub fn act() -> BoxedStrategy<Act> {
    one_of![
        2 => Just(Act::Drop),
        3 => Just(Act::Hold),
        4 => (s_args(), any::<bool>()).prop_map(|(a, b)| Act::Reply(a, b)),
        1 => (s_args(), any::<bool>()).prop_map(|(a, b)| Act::BuildOnly(a, b)),
        1 => (s_args(), any::<bool>()).prop_map(|(a, b)| Act::Swap(a, b)),
    ]
    .boxed()
}

pub fn set_event() -> BoxedStrategy<Step> {
    (n(), e(), act()).prop_map(|(ns, ev, act)| Step::SetEvent { ns, ev, act }).boxed()
}
pub fn set_fallback() -> BoxedStrategy<Step> {
    (n(), act()).prop_map(|(ns, act)| Step::SetFallback { ns, act }).boxed()
}
pub fn clears() -> BoxedStrategy<Step> {
    one_of![
        3 => (n(), e()).prop_map(|(ns, ev)| Step::ClearEvent { ns, ev }),
        1 => n().prop_map(|ns| Step::ClearFallback { ns }),
    ]
    .boxed()
}
pub fn emit() -> BoxedStrategy<Step> {
    emit_with(s_args())
}
pub fn emit_with(args: BoxedStrategy<Vec<S>>) -> BoxedStrategy<Step> {
    (n(), e(), any::<bool>(), any::<bool>(), args, one_of![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(ns, ev, binary, cb, args, drop)| Step::Emit { ns, ev, binary, cb, args, drop })
        .boxed()
}
pub fn event() -> BoxedStrategy<Step> {
    event_with(j_args())
}
pub fn event_with(args: BoxedStrategy<Vec<J>>) -> BoxedStrategy<Step> {
    (n(), e(), gen::opt_id(), args, any::<u8>(), gen::style(), inter())
        .prop_map(|(ns, ev, id, args, extra, style, inter)| Step::Event { ns, ev, id, args, extra, style, inter })
        .boxed()
}
pub fn ack(twisted: u32) -> BoxedStrategy<Step> {
    let twist = one_of![
        20 => Just(Twist::Exact),
        twisted => one_of![n().prop_map(Twist::WrongNs), gen::id().prop_map(Twist::WrongId), Just(Twist::Again)],
    ];
    (any::<u16>(), twist, j_args(), gen::style(), inter()).prop_map(|(nth, twist, args, style, inter)| Step::Ack { nth, twist, args, style, inter }).boxed()
}
pub fn held() -> BoxedStrategy<Step> {
    one_of![
        4 => (any::<u16>(), s_args(), any::<bool>(), one_of![4 => Just(true), 1 => Just(false)]).prop_map(|(nth, args, binary, send)| Step::UseHeld { nth, args, binary, send }),
        1 => any::<u16>().prop_map(|nth| Step::DropHeld { nth }),
    ]
    .boxed()
}
pub fn noise() -> BoxedStrategy<Step> {
    one_of![
        3 => any::<bool>().prop_map(Step::Ping),
        2 => Just(Step::Pong),
        1 => n().prop_map(Step::ConnectNs),
        1 => n().prop_map(Step::DisconnectNs),
        1 => gen::bytes(10).prop_map(Step::WsPing),
    ]
    .boxed()
}
pub fn bad() -> BoxedStrategy<Bad> {
    one_of![
        2 => prop::sample::select(vec!["", "5", "6", "7", "8x", "x", " ", "é", "0", "0{}", "42", "4", "4x", "47", "42[", "42[]", "44", "41[1]", "43[1]", "42[\"msg\"", "42[\"msg\"]x", "45[\"msg\"]", "451[\"msg\"]", "42/a[\"msg\"]", "42x[\"msg\"]", "43/a,[]", "46-1[]", "42[\"msg\",]", "42[,\"msg\"]", "42[\"msg\" 1]", "4299999999999999999999[\"msg\"]", "4501-[\"msg\"]"]).prop_map(|s| Bad::Text(s.into())),
        1 => prop::sample::select(vec![vec![], vec![0u8], vec![3], vec![5, 1], vec![0x34, 1], vec![255]]).prop_map(Bad::Bin),
        1 => Just(Bad::SecondOpen),
        1 => any::<u8>().prop_map(Bad::AfterClose),
        1 => gen::bytes(6).prop_map(Bad::OrphanBinary),
        2 => (any::<u8>(), any::<u8>(), one_of![gen::text(6), Just("2[\"msg\"]".to_string())]).prop_map(|(n, k, text)| Bad::TextIntruder { n, k, text }),
        1 => prop::sample::select(vec!["1", "null", "{}", "[]", "[\"msg\"]", "true", "1.5", "{\"msg\":1}", "\"\\ud800\"", "1e999", "{\"_placeholder\":true,\"num\":0}"]).prop_map(|s| Bad::BadName(s.into())),
        1 => prop::sample::select(vec!["1", "null", "{}", "[]", "[\"msg\"]", "true", "1.5", "{\"msg\":1}", "{\"_placeholder\":true,\"num\":1}"]).prop_map(|s| Bad::BadNameBinary(s.into())),
        2 => (n(), gen::id()).prop_map(|(ns, id)| Bad::UnknownAck { ns, id }),
        1 => (n(), gen::id()).prop_map(|(ns, id)| Bad::UnknownAckBinary { ns, id }),
        1 => any::<u8>().prop_map(Bad::RawFrame),
    ]
    .boxed()
}
