//! C01-C09: the protocol crate.
use crate::gen::{self, Ser, Writer, J, S};
use crate::refparse::{self, RefPacket, Tree, Verdict};
use crate::runner::{CheckResult, Covered, Part, Tier};
use crate::types::{self, Buf};
use crate::Property;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::value::RawValue;
use serde_json::Value;
use socket_io_protocol::engine::{self, Decoder, Message as EngineMessage, Packet as EnginePacket};
use socket_io_protocol::socket::{self, Arg, Args, Data, DeserializeResult, Packet, PacketBuilder};
use std::collections::BTreeMap;
use tungstenite::Message as Ws;

pub fn active() -> Decoder {
    let mut d = Decoder::new();
    d.decode(Ws::Text(r#"0{"sid":"s","pingInterval":25000,"pingTimeout":20000}"#.into())).expect("a plain open packet is accepted");
    d
}

fn engine_message(d: &mut Decoder, m: Ws) -> Result<EngineMessage, String> {
    match d.decode(m) {
        Ok(EnginePacket::Message(m)) => Ok(m),
        other => Err(format!("engine layer gives {other:?} for a message")),
    }
}

pub fn text_message(t: &str) -> EngineMessage {
    engine_message(&mut active(), Ws::Text(format!("4{t}"))).expect("text message")
}

pub fn bin_message(b: &[u8]) -> EngineMessage {
    let mut v = vec![4];
    v.extend_from_slice(b);
    engine_message(&mut active(), Ws::Binary(v)).expect("binary message")
}

/// Decode what a builder produced, checking the framing rules on the way.
pub fn decode_frames(frames: Vec<Ws>) -> Result<Packet, String> {
    let mut d = active();
    let shown = format!("{frames:?}");
    let mut it = frames.into_iter();
    let head = it.next().ok_or("no frame at all")?;
    match &head {
        Ws::Text(t) if std::str::from_utf8(t.as_bytes()).is_ok() => (),
        other => return Err(format!("first frame is not valid text: {other:?}")),
    }
    let head = engine_message(&mut d, head).map_err(|e| format!("{e}; frames {shown}"))?;
    let rest: Vec<Ws> = it.collect();
    match socket::deserialize(head).map_err(|e| format!("own packet rejected: {e}; frames {shown}"))? {
        DeserializeResult::Packet(p) => {
            if rest.is_empty() {
                Ok(p)
            } else {
                Err(format!("frames after a complete packet: {shown}"))
            }
        }
        DeserializeResult::DataNeeded(partial) => {
            if partial.attachments() != rest.len() as u64 {
                return Err(format!("needs {} attachments, {} sent: {shown}", partial.attachments(), rest.len()));
            }
            let mut atts = vec![];
            for r in rest {
                if !matches!(r, Ws::Binary(_)) {
                    return Err(format!("attachment frame is not binary: {shown}"));
                }
                atts.push(engine_message(&mut d, r)?);
            }
            socket::deserialize_partial(partial, atts).map_err(|e| format!("own attachments rejected: {e}; frames {shown}"))
        }
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum K {
    Connect,
    Disconnect,
    Event,
    Ack,
}

pub struct View<'a> {
    pub kind: K,
    pub id: Option<u64>,
    pub args: Option<Args<'a>>,
}

pub fn view(p: &Packet) -> View<'_> {
    match p.data() {
        Data::Connect => View { kind: K::Connect, id: None, args: None },
        Data::Disconnect => View { kind: K::Disconnect, id: None, args: None },
        Data::Event { id, args } => View { kind: K::Event, id, args: Some(args) },
        Data::Ack { id, args } => View { kind: K::Ack, id: Some(id), args: Some(args) },
    }
}

fn json_of(a: &Arg) -> Result<Value, String> {
    a.to_json_value().map_err(|e| format!("reading the argument as JSON fails: {e}"))
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Head {
    Connect,
    Disconnect,
    Event(String, Option<u64>),
    Ack(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    head: Head,
    ns: String,
    binary: bool,
    args: Vec<S>,
}

pub fn builder(head: &Head, ns: &str, binary: bool) -> PacketBuilder {
    match head {
        Head::Event(name, id) => PacketBuilder::new_event(name, ns, *id, binary),
        Head::Ack(id) => PacketBuilder::new_ack(ns, *id, binary),
        _ => unreachable!(),
    }
}

fn plain_json(s: &S) -> Result<String, ()> {
    serde_json::to_string(&Ser(s)).map_err(|_| ())
}

fn c01_check(c: &Built) -> CheckResult {
    let mut cov = Covered::default();
    let (frames, want_args) = match &c.head {
        Head::Connect | Head::Disconnect => {
            let m = if matches!(c.head, Head::Connect) { socket::serialize_connect(&c.ns) } else { socket::serialize_disconnect(&c.ns) };
            let EngineMessage::Text(t) = m else { return Err("not a text message".into()) };
            let t: &str = &t;
            // The returned text starts with the engine header.
            (vec![Ws::Text(t.to_string())], vec![])
        }
        head => {
            let mut b = builder(head, &c.ns, c.binary);
            let mut want = vec![];
            if let Head::Event(name, _) = head {
                want.push(Value::String(name.clone()));
            }
            for a in &c.args {
                // Arguments that plain serialization refuses are C07's business.
                if let Ok(j) = plain_json(a) {
                    b.serialize_arg(&Ser(a)).map_err(|e| format!("argument {j} refused: {e}"))?;
                    want.push(serde_json::from_str::<Value>(&j).map_err(|e| e.to_string())?);
                }
            }
            (b.finish(), want)
        }
    };
    let n_frames = frames.len();
    let p = decode_frames(frames)?;
    let v = view(&p);
    let (kind, id) = match &c.head {
        Head::Connect => (K::Connect, None),
        Head::Disconnect => (K::Disconnect, None),
        Head::Event(_, id) => (K::Event, *id),
        Head::Ack(id) => (K::Ack, Some(*id)),
    };
    if v.kind != kind || v.id != id || p.namespace() != c.ns {
        return Err(format!("decoded as {:?} id {:?} namespace {:?}, built as {:?} id {:?} namespace {:?}", v.kind, v.id, p.namespace(), kind, id, c.ns));
    }
    let got_len = v.args.as_ref().map_or(0, |a| a.len());
    if got_len != want_args.len() {
        return Err(format!("{} arguments decoded, {} built", got_len, want_args.len()));
    }
    if let Some(args) = &v.args {
        for (i, want) in want_args.iter().enumerate() {
            let a = args.get(i).ok_or_else(|| format!("argument {i} missing"))?;
            let got = json_of(&a)?;
            if got != *want {
                return Err(format!("argument {i} reads {got}, built as {want}"));
            }
            let typed: Value = a.deserialize().map_err(|e| format!("argument {i} ({want}): typed read fails: {e}"))?;
            if typed != *want {
                return Err(format!("argument {i} typed read gives {typed}, built as {want}"));
            }
        }
        if args.get(want_args.len()).is_some() {
            return Err("an argument beyond the last".into());
        }
        if let Head::Event(name, _) = &c.head {
            let got: String = args.get(0).unwrap().deserialize().map_err(|e| format!("event name {name:?}: {e}"))?;
            if got != *name {
                return Err(format!("event name {got:?}, built as {name:?}"));
            }
        }
    }
    cov.label("binary-mode", c.binary);
    cov.label("attachments", n_frames > 1);
    cov.label("several-attachments", n_frames > 2);
    cov.label("namespace", c.ns != "/");
    cov.label("no-arguments", want_args.is_empty() && v.args.is_some());
    cov.label("id-and-namespace", c.ns != "/" && id.is_some());
    cov.label("connect-or-disconnect", v.args.is_none());
    cov.nontrivial = want_args.len() > 1 || c.ns != "/" || matches!(&c.head, Head::Event(n, _) if n.chars().any(|c| !c.is_ascii_alphanumeric()));
    Ok(cov)
}

pub fn head() -> BoxedStrategy<Head> {
    one_of![
        1 => Just(Head::Connect),
        1 => Just(Head::Disconnect),
        14 => data_head(),
    ]
    .boxed()
}

pub fn data_head() -> BoxedStrategy<Head> {
    one_of![
        8 => (gen::text(14), gen::opt_id()).prop_map(|(n, i)| Head::Event(n, i)),
        6 => gen::id().prop_map(Head::Ack),
    ]
    .boxed()
}

/// Values with one large dimension.
pub fn bulk(inner: BoxedStrategy<S>) -> BoxedStrategy<S> {
    one_of![
        3 => gen::size().prop_map(S::Many),
        2 => (gen::size(), gen::ch()).prop_map(|(n, c)| S::StrN(n, c)),
        3 => (gen::size(), any::<u8>()).prop_map(|(n, b)| S::BytesN(n, b)),
        2 => (0u16..100, any::<bool>(), inner.clone()).prop_map(|(n, m, s)| S::Deep(n, m, Box::new(s))),
        1 => (gen::size(), any::<bool>(), inner.clone()).prop_map(|(n, h, s)| S::Seq(vec![s; n as usize % 2100], h)),
        1 => (gen::size(), any::<bool>(), inner).prop_map(|(n, h, s)| S::Map((0..n as u64 % 2100).map(|k| (S::U64(k), s.clone())).collect(), h, true)),
    ]
    .boxed()
}

pub fn bulk_args() -> BoxedStrategy<Vec<S>> {
    one_of![
        6 => (vec(gen::s_leaf(), 0..3), bulk(gen::s_leaf()), vec(gen::s_leaf(), 0..3)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
        1 => (gen::size(), gen::s_leaf()).prop_map(|(n, s)| vec![s; n as usize % 2100]),
        1 => vec(gen::s_leaf(), 0..3),
    ]
    .boxed()
}

fn long_text() -> BoxedStrategy<String> {
    one_of![6 => gen::text(14), 1 => (gen::size(), gen::ch()).prop_map(|(n, c)| c.to_string().repeat(n as usize))].boxed()
}

fn long_ns() -> BoxedStrategy<String> {
    one_of![6 => gen::namespace(), 1 => long_text().prop_map(|t| format!("/{}", t.replace(',', ";")))].boxed()
}

fn long_head() -> BoxedStrategy<Head> {
    one_of![
        8 => (long_text(), gen::opt_id()).prop_map(|(n, i)| Head::Event(n, i)),
        6 => gen::id().prop_map(Head::Ack),
    ]
    .boxed()
}

fn c01_large(_: Tier) -> BoxedStrategy<Built> {
    (one_of![1 => Just(Head::Connect), 1 => Just(Head::Disconnect), 14 => long_head()], long_ns(), any::<bool>(), bulk_args())
        .prop_map(|(head, ns, binary, args)| Built { head, ns, binary, args })
        .boxed()
}

fn c06_large(_: Tier) -> BoxedStrategy<Extract> {
    (long_head(), long_ns(), bulk_args()).prop_map(|(head, ns, args)| Extract { head, ns, args }).boxed()
}

fn c07_large(_: Tier) -> BoxedStrategy<Failing> {
    let fails = (bulk(gen::s_leaf()), gen::s_leaf(), any::<u8>()).prop_map(|(a, b, how)| match how % 4 {
        0 => S::Seq(vec![a, S::Fail], true),
        1 => S::Struct(vec![(0, b), (1, a), (2, S::Fail)]),
        2 => S::Tuple(vec![a, b, S::Fail]),
        _ => S::Map(vec![(S::Str("k".into()), a), (S::Bytes(vec![1]), b)], true, false),
    });
    let arg = one_of![2 => gen::s_leaf(), 1 => bulk(gen::s_leaf()), 2 => fails];
    (long_head(), long_ns(), any::<bool>(), vec(arg, 1..5)).prop_map(|(head, ns, binary, args)| Failing { head, ns, binary, args }).boxed()
}

pub fn j_bulk(max_depth: BoxedStrategy<u16>, bin: bool) -> BoxedStrategy<J> {
    let leaf = move || gen::json(if bin { 6 } else { 0 }).prop_map(|j| if j.depth() > 0 { J::U(j.depth() as u64) } else { j });
    let leaf2 = leaf();
    let w = bin as u32 * 3;
    one_of![
        w => gen::size().prop_map(J::Many),
        2 => (gen::size(), gen::ch()).prop_map(|(n, c)| J::StrN(n, c)),
        w => (gen::size(), any::<u8>()).prop_map(|(n, b)| J::BinN(n, b)),
        3 => (max_depth, any::<bool>(), leaf()).prop_map(|(n, o, j)| J::Deep(n, o, Box::new(j))),
        2 => (gen::size(), leaf2).prop_map(|(n, j)| J::Arr(vec![j; n as usize % 2100])),
        1 => (gen::size(), leaf()).prop_map(|(n, j)| J::Obj((0..n as u64 % 2100).map(|k| (k.to_string(), j.clone())).collect())),
    ]
    .boxed()
}

fn c02_large(_: Tier) -> BoxedStrategy<Wire> {
    let edits = one_of![4 => Just(vec![]), 1 => vec(edit_strategy(), 1..3)].boxed();
    let bulk = one_of![
        3 => (vec(gen::json(0), 0..3), j_bulk(gen::depth(), false), vec(gen::json(0), 0..2)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
        1 => (gen::size(), gen::json(0)).prop_map(|(n, j)| vec![j; n as usize % 600]),
    ];
    (wire(edits), prop::option::of(long_ns()), bulk, long_text(), one_of![3 => Just(None), 1 => (0u64..600).prop_map(Some)])
        .prop_map(|(mut w, ns, args, name, count)| {
            if w.kind > '1' {
                w.args = args;
                if matches!(w.kind, '2' | '5') {
                    w.args.insert(0, J::Str(name));
                }
            }
            if let Some(ns) = ns.filter(|n| n != "/") {
                w.ns = Some(ns);
            }
            if w.count.is_some() && count.is_some() {
                w.count = count;
            }
            w
        })
        .boxed()
}

/// Large arguments read as the types that take them.
fn c05_large(_: Tier) -> BoxedStrategy<Reads> {
    let table = types::table();
    let of: Vec<usize> = ["Value", "de::IgnoredAny", "Vec<u8>", "Vec<u16>", "Vec<f64>", "Vec<Value>", "BTreeSet<u8>", "Box<[u8]>", "Buf", "Option<Buf>", "Vec<Vec<u8>>", "Vec<Option<Buf>>", "Vec<Option<u8>>", "Vec<Unt>", "Unt", "Triple", "BTreeMap<String, Value>", "BTreeMap<u8, Vec<u8>>", "BTreeMap<i64, Value>", "[u8; 3]", "(u8, u8)", "Transparent"]
        .iter()
        .map(|n| table.iter().position(|t| t.name == *n).unwrap_or_else(|| panic!("harness: no type {n}")))
        .collect();
    let texts: Vec<usize> = ["String", "&str", "Cow<str>", "Box<str>", "Value", "Buf", "char"].iter().map(|n| table.iter().position(|t| t.name == *n).unwrap()).collect();
    let pick = one_of![
        8 => (prop::sample::select(of), j_bulk(gen::depth(), true)),
        1 => (prop::sample::select(texts), (gen::size(), gen::ch()).prop_map(|(n, c)| J::StrN(n, c))),
    ];
    (pick, gen::style(), (0u8..3, 0u8..3)).prop_map(|((ty, arg), style, spare)| Reads { ty, arg, style, spare }).boxed()
}

fn c01_strategy(t: Tier) -> BoxedStrategy<Built> {
    let n = if t == Tier::Quick { 4 } else { 8 };
    (head(), gen::namespace(), any::<bool>(), vec(gen::s_value(0), 0..=n)).prop_map(|(head, ns, binary, args)| Built { head, ns, binary, args }).boxed()
}

/// Typed values with byte strings, read back into the same type.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rich {
    blob: Buf,
    list: Vec<u8>,
    #[serde(rename = "m ap")]
    map: BTreeMap<i32, Buf>,
    words: BTreeMap<String, Vec<Buf>>,
    choice: Choice,
    tag: Tagged,
    maybe: Option<Box<Rich>>,
    tup: (u8, String, Buf, i64),
    arr: [u8; 3],
    arr_of: [Buf; 2],
    c: char,
    float: f64,
    big: u64,
    deep: Vec<Vec<Vec<u8>>>,
    unit: (),
    flag: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Choice {
    None,
    One(Buf),
    Two(u8, Vec<u8>),
    Three { b: Buf, n: Option<u32> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
enum Tagged {
    A,
    B { data: Buf, list: Vec<u16> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    head: Head,
    ns: String,
    binary: bool,
    args: Vec<Rich>,
}

fn buf() -> BoxedStrategy<Buf> {
    gen::bytes(8).prop_map(Buf).boxed()
}

fn rich(depth: u32) -> BoxedStrategy<Rich> {
    let choice = one_of![
        Just(Choice::None),
        buf().prop_map(Choice::One),
        (any::<u8>(), gen::bytes(4)).prop_map(|(a, b)| Choice::Two(a, b)),
        (buf(), any::<Option<u32>>()).prop_map(|(b, n)| Choice::Three { b, n })
    ];
    let tag = one_of![Just(Tagged::A), (buf(), vec(any::<u16>(), 0..3)).prop_map(|(data, list)| Tagged::B { data, list })];
    let maybe = if depth == 0 { Just(None).boxed() } else { one_of![3 => Just(None), 1 => rich(depth - 1).prop_map(|r| Some(Box::new(r)))].boxed() };
    let a = (buf(), gen::bytes(6), prop::collection::btree_map(any::<i32>(), buf(), 0..3), prop::collection::btree_map(gen::key(), vec(buf(), 0..3), 0..3), choice, tag, maybe);
    let b = ((any::<u8>(), gen::text(8), buf(), any::<i64>()), any::<[u8; 3]>(), (buf(), buf()), gen::ch(), any::<i32>(), gen::id(), vec(vec(gen::bytes(3), 0..3), 0..3), any::<bool>());
    (a, b)
        .prop_map(|((blob, list, map, words, choice, tag, maybe), (tup, arr, ab, c, f, big, deep, flag))| Rich {
            blob,
            list,
            map,
            words,
            choice,
            tag,
            maybe,
            tup,
            arr,
            arr_of: [ab.0, ab.1],
            c,
            float: f as f64 / 8.0,
            big,
            deep,
            unit: (),
            flag,
        })
        .boxed()
}

fn c01_typed_check(c: &Typed) -> CheckResult {
    let mut cov = Covered::default();
    let mut b = builder(&c.head, &c.ns, c.binary);
    for a in &c.args {
        b.serialize_arg(a).map_err(|e| format!("refused: {e}"))?;
    }
    let frames = b.finish();
    cov.label("attachments", frames.len() > 1);
    let p = decode_frames(frames)?;
    let v = view(&p);
    let args = v.args.ok_or("no arguments")?;
    let skip = matches!(c.head, Head::Event(..)) as usize;
    if args.len() != c.args.len() + skip {
        return Err(format!("{} arguments decoded of {}", args.len(), c.args.len() + skip));
    }
    for (i, want) in c.args.iter().enumerate() {
        let got: Rich = args.get(i + skip).unwrap().deserialize().map_err(|e| format!("argument {i} does not read back: {e}"))?;
        if got != *want {
            return Err(format!("argument {i} reads back as {got:?}, was {want:?}"));
        }
    }
    for (i, a) in args.iter().skip(skip).enumerate() {
        let got: Rich = a.deserialize().map_err(|e| format!("argument {i} (iterating) does not read back: {e}"))?;
        if got != c.args[i] {
            return Err(format!("argument {i} (iterating) reads back as {got:?}, was {:?}", c.args[i]));
        }
    }
    cov.label("recursive", c.args.iter().any(|a| a.maybe.is_some()));
    cov.nontrivial = !c.args.is_empty();
    Ok(cov)
}

fn c01_typed_strategy(_: Tier) -> BoxedStrategy<Typed> {
    (data_head(), gen::namespace(), any::<bool>(), vec(rich(2), 1..3)).prop_map(|(head, ns, binary, args)| Typed { head, ns, binary, args }).boxed()
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    kind: char,
    count: Option<u64>,
    ns: Option<String>,
    id: Option<u64>,
    args: Vec<J>,
    style: u64,
    /// written in full after the kind digit when set (malformed variants)
    edits: Vec<Edit>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Insert(u16, String),
    Delete(u16, u8),
    Replace(u16, char),
    Swap(u16, u16),
    Dup(u16, u16),
    Truncate(u16),
}

fn at(text: &[char], f: u16) -> usize {
    (f as usize * (text.len() + 1)) >> 16
}

fn edit(text: &str, edits: &[Edit]) -> String {
    let mut t: Vec<char> = text.chars().collect();
    for e in edits {
        match e {
            Edit::Insert(p, s) => {
                let p = at(&t, *p);
                for (i, c) in s.chars().enumerate() {
                    t.insert(p + i, c);
                }
            }
            Edit::Delete(p, n) => {
                let p = at(&t, *p);
                let e = (p + *n as usize).min(t.len());
                t.drain(p..e);
            }
            Edit::Replace(p, c) => {
                let p = at(&t, *p);
                if p < t.len() {
                    t[p] = *c
                }
            }
            Edit::Swap(a, b) => {
                let (a, b) = (at(&t, *a), at(&t, *b));
                if a < t.len() && b < t.len() {
                    t.swap(a, b)
                }
            }
            Edit::Dup(a, b) => {
                let (a, b) = (at(&t, *a), at(&t, *b));
                let (a, b) = (a.min(b), a.max(b));
                let piece: Vec<char> = t[a..b].iter().take(40).copied().collect();
                for (i, c) in piece.into_iter().enumerate() {
                    t.insert(b + i, c);
                }
            }
            Edit::Truncate(p) => {
                let p = at(&t, *p);
                t.truncate(p)
            }
        }
    }
    t.into_iter().collect()
}

fn wire_text(w: &Wire) -> String {
    let mut t = String::new();
    t.push(w.kind);
    if let Some(n) = w.count {
        t.push_str(&format!("{n}-"));
    }
    if let Some(ns) = &w.ns {
        t.push_str(&format!("{ns},"));
    }
    if let Some(id) = w.id {
        t.push_str(&id.to_string());
    }
    if !w.args.is_empty() || w.kind == '3' || w.kind == '6' {
        let mut wr = Writer::new(w.style, true);
        wr.args(&w.args);
        t.push_str(&wr.out);
    }
    edit(&t, &w.edits)
}

/// The packet decoded from `text` (with dummy attachments for binary kinds), or
/// why it was rejected.
fn accept(text: &str, count: Option<u64>) -> Result<Result<Packet, String>, String> {
    match socket::deserialize(text_message(text)) {
        Err(e) => Ok(Err(e.to_string())),
        Ok(DeserializeResult::Packet(p)) => {
            if count.unwrap_or(0) > 0 {
                return Err(format!("{text:?} announces attachments but is complete at once"));
            }
            Ok(Ok(p))
        }
        Ok(DeserializeResult::DataNeeded(part)) => {
            let n = part.attachments();
            if Some(n) != count || n == 0 {
                return Err(format!("{text:?}: needs {n} attachments, announces {count:?}"));
            }
            if n > 600 {
                // Too many to supply: its own missing parts show only on completion.
                return Ok(Err("unfinished".into()));
            }
            let atts: Vec<EngineMessage> = (0..n).map(|i| bin_message(&[i as u8])).collect();
            Ok(socket::deserialize_partial(part, atts).map_err(|e| e.to_string()))
        }
    }
}

fn check_text(text: &str, cov: &mut Covered) -> Result<(), String> {
    match refparse::packet(text) {
        Verdict::Open => {
            cov.label("left-open", true);
            let _ = socket::deserialize(text_message(text));
            Ok(())
        }
        Verdict::Reject => {
            cov.label("rejected", true);
            match socket::deserialize(text_message(text)) {
                Err(_) => Ok(()),
                Ok(DeserializeResult::Packet(p)) => Err(format!("{text:?} does not follow the grammar but is accepted as {p:?}")),
                Ok(DeserializeResult::DataNeeded(p)) => Err(format!("{text:?} does not follow the grammar but is accepted as {p:?}")),
            }
        }
        Verdict::Accept(want) => {
            cov.label("accepted", true);
            let big = want.count.unwrap_or(0) > 600;
            match accept(text, want.count)? {
                Ok(p) => same_packet(text, &p, &want),
                Err(e) if big && e == "unfinished" => Ok(()),
                Err(e) => Err(format!("{text:?} follows the grammar but is rejected: {e}")),
            }
        }
    }
}

fn same_packet(text: &str, p: &Packet, want: &RefPacket) -> Result<(), String> {
    let v = view(p);
    let kind = match want.kind {
        b'0' => K::Connect,
        b'1' => K::Disconnect,
        b'2' | b'5' => K::Event,
        _ => K::Ack,
    };
    if v.kind != kind {
        return Err(format!("{text:?}: kind {:?}, written {kind:?}", v.kind));
    }
    if p.namespace() != want.namespace() {
        return Err(format!("{text:?}: namespace {:?}, written {:?}", p.namespace(), want.namespace()));
    }
    if v.id != want.id {
        return Err(format!("{text:?}: id {:?}, written {:?}", v.id, want.id));
    }
    let Some(args) = v.args else { return Ok(()) };
    let want_args = want.args();
    if args.len() != want_args.len() || args.is_empty() != want_args.is_empty() {
        return Err(format!("{text:?}: {} arguments, written {}", args.len(), want_args.len()));
    }
    if args.get(args.len()).is_some() {
        return Err(format!("{text:?}: get() past the end gives an argument"));
    }
    let by_iter: Vec<Arg> = args.iter().collect();
    if by_iter.len() != want_args.len() {
        return Err(format!("{text:?}: iteration sees {} arguments, written {}", by_iter.len(), want_args.len()));
    }
    for (i, want_text) in want_args.iter().enumerate() {
        for (how, a) in [("index", args.get(i).unwrap()), ("iteration", by_iter[i].clone())] {
            if want.count.unwrap_or(0) == 0 {
                let raw: &RawValue = a.deserialize().map_err(|e| format!("{text:?}: argument {i} ({how}) unreadable: {e}"))?;
                if raw.get() != want_text {
                    return Err(format!("{text:?}: argument {i} ({how}) is {:?}, written {want_text:?}", raw.get()));
                }
            } else if !want_text.contains("placeholder") && !want_text.contains("\\u") {
                let w: Result<Value, _> = serde_json::from_str(want_text);
                if let Ok(w) = w {
                    let got = json_of(&a).map_err(|e| format!("{text:?}: argument {i} ({how}): {e}"))?;
                    if got != w {
                        return Err(format!("{text:?}: argument {i} ({how}) is {got}, written {w}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c02_check(w: &Wire) -> CheckResult {
    let text = wire_text(w);
    let mut cov = Covered::default();
    if w.edits.is_empty() {
        if let v @ (Verdict::Reject | Verdict::Open) = refparse::packet(&text) {
            panic!("harness: generated packet {text:?} judged {v:?} by the reference");
        }
        cov.nontrivial = w.args.len() > 1 || (w.ns.is_some() && !w.args.is_empty());
        cov.label("namespaced-with-array-argument", w.ns.is_some() && w.args.iter().any(|a| matches!(a, J::Arr(_))));
        cov.label("styled", w.style != 0);
    } else {
        cov.nontrivial = text != wire_text(&Wire { edits: vec![], ..w.clone() });
    }
    check_text(&text, &mut cov)?;
    Ok(cov)
}

pub fn wire_ns() -> BoxedStrategy<Option<String>> {
    one_of![2 => Just(None), 3 => gen::namespace().prop_map(|n| if n == "/" { None } else { Some(n) })].boxed()
}

fn wire(edits: BoxedStrategy<Vec<Edit>>) -> BoxedStrategy<Wire> {
    let head = one_of![1 => Just('0'), 1 => Just('1'), 6 => Just('2'), 4 => Just('3'), 3 => Just('5'), 3 => Just('6')];
    (head, one_of![3 => Just(0u64), 3 => 1u64..5, 1 => gen::id()], wire_ns(), gen::opt_id(), gen::json_args(1, 0, 4), gen::text(8), gen::style(), edits)
        .prop_map(|(kind, count, ns, id, mut args, name, style, edits)| {
            let data = kind > '1';
            if !data {
                args.clear();
            }
            if matches!(kind, '2' | '5') && args.is_empty() {
                args.push(J::Str(name));
            }
            let binary = matches!(kind, '5' | '6');
            Wire {
                kind,
                count: if binary { Some(count) } else { None },
                ns,
                id: match kind {
                    '0' | '1' => None,
                    '3' | '6' => Some(id.unwrap_or(7)),
                    _ => id,
                },
                args,
                style,
                edits,
            }
        })
        .boxed()
}

fn c02_valid(_: Tier) -> BoxedStrategy<Wire> {
    wire(Just(vec![]).boxed())
}

fn edit_strategy() -> BoxedStrategy<Edit> {
    // Mostly near the front, where the packet's own grammar is.
    let pos = one_of![3 => 0u16..9000, 1 => any::<u16>(), 1 => 60000u16..=65535];
    let bit = one_of![
        4 => gen::ch().prop_map(|c| c.to_string()),
        4 => prop::sample::select(vec!["0", "1", "-", "1-", "0-", "/", "/a,", ",", "[", "]", "[]", "[1]", "00", "01", " ", "\n", "\u{a0}", "18446744073709551615", "18446744073709551616", "99999999999999999999-", "\"", "\\", "2", "5", "4", "+", "٣", "NaN", "1e5", "-1", "null", "\u{0}", "{", "}"]).prop_map(|s| s.to_string()),
    ];
    one_of![
        5 => (pos.clone(), bit).prop_map(|(p, s)| Edit::Insert(p, s)),
        3 => (pos.clone(), 1u8..4).prop_map(|(p, n)| Edit::Delete(p, n)),
        3 => (pos.clone(), gen::ch()).prop_map(|(p, c)| Edit::Replace(p, c)),
        2 => (pos.clone(), prop::sample::select("0123456789-/,[]".chars().collect::<Vec<_>>())).prop_map(|(p, c)| Edit::Replace(p, c)),
        1 => (pos.clone(), pos.clone()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => (pos.clone(), pos.clone()).prop_map(|(a, b)| Edit::Dup(a, b)),
        1 => pos.prop_map(Edit::Truncate),
    ]
    .boxed()
}

fn c02_mutated(_: Tier) -> BoxedStrategy<Wire> {
    wire(vec(edit_strategy(), 1..4).boxed())
}

/// Texts made of grammar pieces in any order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Soup(Vec<String>);

fn c02_soup(_: Tier) -> BoxedStrategy<Soup> {
    let piece = one_of![
        6 => prop::sample::select(vec!["0", "1", "2", "3", "4", "5", "6", "7", "-", "/", ",", "[", "]", "[]", "[1]", "[\"e\"]", "[\"e\",1]", "\"", "/a", "/a,", "10", "1-", "0-", "00", "{}", "[[]]", ",[1]", " ", "\n", "null", "[\"a,b]\"]", "[\"\\\"]\"]", "\\", "18446744073709551616", "18446744073709551615"]).prop_map(|s| s.to_string()),
        1 => gen::text(4),
    ];
    vec(piece, 0..7).prop_map(Soup).boxed()
}

fn c02_soup_check(s: &Soup) -> CheckResult {
    let mut cov = Covered::default();
    let text = s.0.concat();
    check_text(&text, &mut cov)?;
    cov.nontrivial = matches!(text.as_bytes().first(), Some(b'0'..=b'6')) && text.len() > 1;
    Ok(cov)
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    Packet(Wire, String),
    Text(String),
    Bin(Vec<u8>),
    /// a well-framed attachment
    Att(Vec<u8>),
    Control(u8, Vec<u8>),
    Open,
}

fn ws(m: &Msg) -> Ws {
    match m {
        // the engine header may itself be replaced
        Msg::Packet(w, h) => Ws::Text(format!("{h}{}", wire_text(w))),
        Msg::Text(t) => Ws::Text(t.clone()),
        Msg::Bin(b) => Ws::Binary(b.clone()),
        Msg::Att(b) => {
            let mut v = vec![4];
            v.extend_from_slice(b);
            Ws::Binary(v)
        }
        Msg::Control(0, b) => Ws::Ping(b.clone()),
        Msg::Control(1, b) => Ws::Pong(b.clone()),
        Msg::Control(_, _) => Ws::Close(None),
        Msg::Open => Ws::Text(r#"0{"sid":"s","pingInterval":25000,"pingTimeout":20000}"#.into()),
    }
}

fn use_packet(p: &Packet, types: &[types::Ty]) -> usize {
    let mut n = 0;
    let _ = format!("{p} {p:?} {:?} {}", p.data(), p.data());
    let _ = p.namespace().len();
    let q = p.clone();
    if let Some(args) = view(&q).args {
        let _ = format!("{args} {args:?}");
        let _ = args.get(args.len());
        let _ = args.get(usize::MAX);
        let all: Vec<Arg> = (0..args.len()).filter_map(|i| args.get(i)).collect();
        for a in args.iter().chain(all) {
            let _ = format!("{a} {a:?}");
            let _ = a.to_json_value().map_err(|e| e.to_string());
            let _ = a.deserialize::<&[u8]>().map_err(|e| e.to_string());
            let _ = a.deserialize::<&RawValue>().map_err(|e| e.to_string());
            // serde_json itself panics on a bool map key that starts with a
            // multi-byte character (see DESIGN.md), so that type is left out here.
            for t in types.iter().filter(|t| !t.name.contains("<bool")) {
                let _ = (t.from_arg)(&a);
            }
            n += 1;
        }
    }
    n
}

fn c03_check(msgs: &Vec<Msg>) -> CheckResult {
    let mut cov = Covered::default();
    let types = TYPES.with(|t| t.clone());
    let mut d = Decoder::new();
    let mut pending: Option<(socket::Partial, Vec<EngineMessage>)> = None;
    for m in msgs {
        let packet = match d.decode(ws(m)) {
            Ok(p) => p,
            Err(e) => {
                let _ = format!("{e} {e:?}");
                continue;
            }
        };
        let _ = format!("{packet:?}");
        let EnginePacket::Message(m) = packet else { continue };
        let done = match pending.take() {
            Some((part, mut atts)) => {
                atts.push(m);
                if part.attachments() <= atts.len() as u64 {
                    cov.label("assembled", true);
                    socket::deserialize_partial(part, atts)
                } else {
                    pending = Some((part, atts));
                    continue;
                }
            }
            None => match socket::deserialize(m) {
                Ok(DeserializeResult::Packet(p)) => Ok(p),
                Ok(DeserializeResult::DataNeeded(part)) => {
                    let _ = format!("{part:?}");
                    pending = Some((part, vec![]));
                    continue;
                }
                Err(e) => Err(e),
            },
        };
        match done {
            Ok(p) => {
                let n = use_packet(&p, &types);
                cov.nontrivial |= n > 0;
                cov.label("arguments-read", n > 0);
            }
            Err(e) => {
                cov.label("rejected", true);
                let _ = format!("{e} {e:?}");
            }
        }
    }
    if let Some((part, atts)) = pending {
        cov.label("left-unfinished", true);
        // Completed with the wrong number.
        let _ = socket::deserialize_partial(part, atts).map_err(|e| e.to_string());
    }
    Ok(cov)
}

thread_local! {
    static TYPES: std::rc::Rc<Vec<types::Ty>> = std::rc::Rc::new(types::table());
}

/// JSON texts a strict reader may stumble over although they scan as JSON.
pub fn odd_json() -> BoxedStrategy<String> {
    let leaf = one_of![
        6 => prop::sample::select(vec![
            "1e999", "-1e999", "1e-999", "0e99999999999999999999", "1e18446744073709551616", "-0", "-0.0", "123456789012345678901234567890", "-9223372036854775809", "18446744073709551616", "0.1e1", "1E+2",
            "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud83d\\ude00\"", "\"\\uDBFF\\uDFFF\"", "\"\\u0000\"", "\"\\ud800x\"", "\"\u{7f}\"", "\"\\/\"",
            "{\"_placeholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":1}", "{\"_placeholder\":true,\"num\":99}", "{\"_placeholder\":true,\"num\":18446744073709551615}", "{\"_placeholder\":true,\"num\":-1}", "{\"_placeholder\":true,\"num\":0.5}", "{\"_placeholder\":true,\"num\":\"0\"}", "{\"_placeholder\":true}", "{\"_placeholder\":1,\"num\":0}", "{\"num\":0,\"_placeholder\":true}", "{\"_placeholder\":true,\"num\":0,\"x\":1}", "{\"_placeholder\":true,\"_placeholder\":true}", "{\"_placeholder\":{\"_placeholder\":true,\"num\":0},\"num\":0}", "{\"\\u005fplaceholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":1e999}", "{\"_placeholder\":null,\"num\":null}",
            "{\"\\ud800\":1}", "{\"a\":1,\"a\":2}", "{\"a\":1,\"a\":{\"_placeholder\":true,\"num\":0}}",
            "{\"$serde_json::private::RawValue\":\"1\"}", "{\"$serde_json::private::Number\":\"1\"}",
            "null", "[]", "{}", "\"x\"", "7",
        ]).prop_map(|s| s.to_string()),
        1 => vec(prop::sample::select("0123456789.eE+-".chars().collect::<Vec<_>>()), 1..400).prop_map(|v| v.into_iter().collect()),
        1 => (1usize..600).prop_map(|n| "9".repeat(n)),
        2 => (1usize..300, prop::sample::select(vec![("[", "1", "]"), ("{\"a\":", "1", "}"), ("[", "", "]"), ("[", "{\"_placeholder\":true,\"num\":0}", "]")])).prop_map(|(n, (a, b, c))| format!("{}{}{}", a.repeat(n), b, c.repeat(n))),
        1 => gen::json(2).prop_map(|j| { let mut w = Writer::new(5, true); w.value(&j); w.out }),
    ];
    crate::one_of::nest(2, leaf.boxed(), |inner| {
        one_of![
            vec(inner.clone(), 0..3).prop_map(|v| format!("[{}]", v.join(","))),
            (prop::sample::select(vec!["a", "num", "data", "B", "x", "type", "1"]), inner).prop_map(|(k, v)| format!("{{\"{k}\":{v}}}")),
        ]
        .boxed()
    })
    .boxed()
}

fn odd_packet() -> BoxedStrategy<String> {
    let count = one_of![4 => (0u64..4).prop_map(|n| format!("{n}-")), 1 => gen::id().prop_map(|n| format!("{n}-")), 1 => Just("99999999999999999999999-".to_string())];
    let id = one_of![2 => Just(String::new()), 2 => gen::id().prop_map(|n| n.to_string()), 1 => vec(prop::char::range('0', '9'), 1..60).prop_map(|v| v.into_iter().collect())];
    let ns = one_of![2 => Just(String::new()), 1 => gen::namespace().prop_map(|n| format!("{n},")), 1 => gen::text(6)];
    (prop::sample::select(vec!["2", "3", "5", "6", "5", "6"]), count, ns, id, vec(odd_json(), 0..4), any::<bool>())
        .prop_map(|(k, c, ns, id, args, named)| {
            let c = if k > "3" { c } else { String::new() };
            let mut args = args;
            if named {
                args.insert(0, "\"e\"".into());
            }
            format!("4{k}{c}{ns}{id}[{}]", args.join(","))
        })
        .boxed()
}

fn c03_strategy(t: Tier) -> BoxedStrategy<Vec<Msg>> {
    let edits = one_of![2 => Just(vec![]), 1 => vec(edit_strategy(), 1..4)].boxed();
    let one = one_of![
        16 => odd_packet().prop_map(Msg::Text),
        16 => wire(edits).prop_map(|w| Msg::Packet(w, "4".into())),
        20 => gen::bytes(6).prop_map(Msg::Att),
        1 => (gen::size(), any::<u8>()).prop_map(|(n, b)| Msg::Att(gen::counted(n, b))),
        8 => vec(gen::ch(), 0..30).prop_map(|v| Msg::Text(v.into_iter().collect())),
        4 => (prop::sample::select(vec!["0", "1", "2", "3", "5", "6", "", "44"]), gen::text(8)).prop_map(|(a, b)| Msg::Text(format!("{a}{b}"))),
        4 => odd_json().prop_map(|j| Msg::Text(format!("0{j}"))),
        4 => gen::bytes(6).prop_map(Msg::Bin),
        4 => (0u8..3, gen::bytes(4)).prop_map(|(k, b)| Msg::Control(k, b)),
    ];
    let n = if t == Tier::Quick { 8 } else { 20 };
    (one_of![9 => Just(true), 1 => Just(false)], vec(one, 1..n))
        .prop_map(|(open, mut v)| {
            if open {
                v.insert(0, Msg::Open);
            }
            v
        })
        .boxed()
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attached {
    ack: bool,
    ns: Option<String>,
    id: u64,
    args: Vec<J>,
    style: u64,
    atts: Vec<Vec<u8>>,
    /// more attachments: i bytes i mod 256, i from 0
    #[serde(default)]
    more: u32,
    /// announced minus supplied
    delta: i64,
    /// a text message instead of this attachment
    intruder: Option<(u8, String)>,
}

fn attached_text(c: &Attached, announced: u64) -> String {
    let mut t = format!("{}{}-", if c.ack { 6 } else { 5 }, announced);
    if let Some(ns) = &c.ns {
        t.push_str(&format!("{ns},"));
    }
    t.push_str(&c.id.to_string());
    let mut w = Writer::new(c.style, true);
    w.args(&c.args);
    t + &w.out
}

/// A target that takes a string of bytes and nothing else.
struct OnlyBytes<const BUF: bool>(Vec<u8>);
struct OnlyBytesVisitor<const BUF: bool>;
impl<'de, const BUF: bool> serde::de::Visitor<'de> for OnlyBytesVisitor<BUF> {
    type Value = OnlyBytes<BUF>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Self::Value, E> {
        Ok(OnlyBytes(v.to_vec()))
    }
}
impl<'de, const BUF: bool> Deserialize<'de> for OnlyBytes<BUF> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if BUF {
            d.deserialize_byte_buf(OnlyBytesVisitor)
        } else {
            d.deserialize_bytes(OnlyBytesVisitor)
        }
    }
}

fn fixed(k: &[u8], a: &Arg, what: &str) -> Result<(), String> {
    macro_rules! arr {
        ($($n:literal),*) => { $(
            let r: Result<[u8; $n], _> = a.deserialize();
            match r {
                Ok(v) if k.len() == $n && v[..] == *k => (),
                Err(_) if k.len() != $n => (),
                r => return Err(format!("{what}: attachment {k:?} read as [u8; {}]: {:?}", $n, r.map_err(|e| e.to_string()))),
            }
        )* };
    }
    arr!(0, 1, 2, 3, 4, 5, 8, 16, 32);
    macro_rules! tup {
        ($n:literal, $t:ty, $e:expr) => {
            let r: Result<$t, _> = a.deserialize();
            match r {
                Ok(v) if k.len() == $n && $e(&v) == k => (),
                Err(_) if k.len() != $n => (),
                r => return Err(format!("{what}: attachment {k:?} read as {}: {:?}", stringify!($t), r.map_err(|e| e.to_string()))),
            }
        };
    }
    tup!(2, (u8, u8), |v: &(u8, u8)| vec![v.0, v.1]);
    tup!(3, (u8, u8, u8), |v: &(u8, u8, u8)| vec![v.0, v.1, v.2]);
    #[derive(Debug, Deserialize)]
    struct P(u8, u8);
    tup!(2, P, |v: &P| vec![v.0, v.1]);
    #[derive(Debug, Deserialize)]
    struct Q {
        a: u8,
        b: u8,
        c: u8,
    }
    tup!(3, Q, |v: &Q| vec![v.a, v.b, v.c]);
    let v: Vec<u8> = a.deserialize().map_err(|e| format!("{what}: Vec<u8>: {e}"))?;
    let b: &[u8] = a.deserialize().map_err(|e| format!("{what}: &[u8]: {e}"))?;
    let c: Buf = a.deserialize().map_err(|e| format!("{what}: byte buffer: {e}"))?;
    let o: Option<Buf> = a.deserialize().map_err(|e| format!("{what}: Option<byte buffer>: {e}"))?;
    let wide: Vec<u32> = a.deserialize().map_err(|e| format!("{what}: Vec<u32>: {e}"))?;
    let one: OnlyBytes<true> = a.deserialize().map_err(|e| format!("{what}: target asking for a byte buffer: {e}"))?;
    let two: OnlyBytes<false> = a.deserialize().map_err(|e| format!("{what}: target asking for bytes: {e}"))?;
    let opt: Option<OnlyBytes<true>> = a.deserialize().map_err(|e| format!("{what}: optional target asking for a byte buffer: {e}"))?;
    if one.0 != k || two.0 != k || opt.as_ref().map(|x| &x.0[..]) != Some(k) {
        return Err(format!("{what}: attachment {k:?} reads {:?} / {:?} / {:?}", one.0, two.0, opt.map(|x| x.0)));
    }
    if v != k || b != k || c.0 != k || o != Some(Buf(k.to_vec())) || wide.iter().map(|x| *x as u8).collect::<Vec<_>>() != k {
        return Err(format!("{what}: attachment {k:?} reads {v:?} / {b:?} / {c:?} / {o:?} / {wide:?}"));
    }
    if a.deserialize::<u8>().is_ok() || a.deserialize::<bool>().is_ok() || a.deserialize::<()>().is_ok() {
        return Err(format!("{what}: an attachment reads as a scalar"));
    }
    Ok(())
}

fn c04_check(c: &Attached) -> CheckResult {
    let mut cov = Covered::default();
    let mut atts_all = c.atts.clone();
    atts_all.extend((0..c.more).map(|i| vec![i as u8; i as usize % 4]));
    let supplied = atts_all.len() as i64;
    let announced = supplied.saturating_add(c.delta).max(1) as u64;
    let text = attached_text(c, announced);
    let part = match socket::deserialize(text_message(&text)) {
        Ok(DeserializeResult::DataNeeded(p)) => p,
        other => return Err(format!("{text:?} gives {other:?}, expected to wait for {announced} attachments")),
    };
    if part.attachments() != announced {
        return Err(format!("{text:?}: waits for {} attachments, announces {announced}", part.attachments()));
    }
    let mut msgs: Vec<EngineMessage> = atts_all.iter().map(|a| bin_message(a)).collect();
    let mut bad = announced != msgs.len() as u64;
    cov.label("wrong-count", bad);
    if let Some((i, t)) = &c.intruder {
        if !msgs.is_empty() {
            let i = *i as usize % msgs.len();
            msgs[i] = text_message(t);
            bad = true;
            cov.label("text-intruder", true);
        }
    }
    let r = socket::deserialize_partial(part, msgs);
    if bad {
        cov.nontrivial = true;
        return match r {
            Err(_) => Ok(cov),
            Ok(p) => Err(format!("{text:?} with attachments {:?} (intruder {:?}) is accepted: {p:?}", c.atts, c.intruder)),
        };
    }
    let p = r.map_err(|e| format!("{text:?} with its {announced} attachments is rejected: {e}"))?;
    let v = view(&p);
    if v.kind != (if c.ack { K::Ack } else { K::Event }) || v.id != Some(c.id) || p.namespace() != c.ns.as_deref().unwrap_or("/") {
        return Err(format!("{text:?}: completed as {:?} {:?} {:?}", v.kind, v.id, p.namespace()));
    }
    let args = v.args.unwrap();
    if args.len() != c.args.len() {
        return Err(format!("{text:?}: {} arguments", args.len()));
    }
    for (i, j) in c.args.iter().enumerate() {
        let a = args.get(i).unwrap();
        let what = format!("{text:?} attachments {:?}: argument {i}", c.atts);
        let as_json = a.to_json_value();
        let typed: Result<Value, _> = a.deserialize();
        match j.value(&atts_all) {
            Ok(want) => {
                let got = as_json.map_err(|e| format!("{what}: {e}"))?;
                if got != want {
                    return Err(format!("{what}: JSON {got}, expected {want}"));
                }
                let got = typed.map_err(|e| format!("{what}: typed: {e}"))?;
                if got != want {
                    return Err(format!("{what}: typed {got}, expected {want}"));
                }
            }
            Err(k) => {
                cov.label("out-of-range", true);
                if let Ok(v) = as_json {
                    return Err(format!("{what}: placeholder {k} is out of range but JSON gives {v}"));
                }
                if let Ok(v) = typed {
                    return Err(format!("{what}: placeholder {k} is out of range but a typed read gives {v}"));
                }
                if let J::Ph(_) = j {
                    if a.deserialize::<Vec<u8>>().is_ok() || a.deserialize::<&[u8]>().is_ok() || a.deserialize::<Buf>().is_ok() {
                        return Err(format!("{what}: placeholder {k} is out of range but reads as bytes"));
                    }
                }
            }
        }
        if let J::Ph(k) = j {
            if let Some(b) = atts_all.get(*k as usize) {
                fixed(b, &a, &what)?;
                cov.label("fixed-size-targets", true);
            }
        }
    }
    let mut used = std::collections::HashMap::<u64, u32>::new();
    fn count(j: &J, used: &mut std::collections::HashMap<u64, u32>) {
        match j {
            J::Ph(k) => *used.entry(*k).or_default() += 1,
            J::Arr(v) => v.iter().for_each(|j| count(j, used)),
            J::Obj(v) => v.iter().for_each(|(_, j)| count(j, used)),
            _ => (),
        }
    }
    c.args.iter().for_each(|j| count(j, &mut used));
    cov.label("repeated-placeholder", used.values().any(|n| *n > 1));
    cov.label("several-attachments", atts_all.len() > 1);
    cov.label("more-than-255-attachments", atts_all.len() > 255);
    cov.nontrivial = !used.is_empty();
    Ok(cov)
}

/// Replace byte strings by placeholders numbered freely.
pub fn place(j: J, n: u64, wild: bool) -> J {
    match j {
        J::Bin(b) => {
            let x = b.iter().fold(b.len() as u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64));
            if wild && x % 5 == 0 {
                J::Ph([n, n + 1, u64::MAX, u32::MAX as u64 + 1, 1 << 63][(x / 5 % 5) as usize])
            } else {
                J::Ph(x % n)
            }
        }
        J::Arr(v) => J::Arr(v.into_iter().map(|j| place(j, n, wild)).collect()),
        J::Obj(v) => J::Obj(v.into_iter().map(|(k, j)| (k, place(j, n, wild))).collect()),
        j => j,
    }
}

fn c04_strategy(t: Tier) -> BoxedStrategy<Attached> {
    let max = if t == Tier::Quick { 6 } else { 20 };
    let arg = one_of![1 => gen::json(8), 2 => gen::bytes(4).prop_map(J::Bin)];
    let att = one_of![3 => gen::bytes(9), 2 => vec(any::<u8>(), 0..4), 1 => prop::sample::select(vec![8usize, 16, 32]).prop_flat_map(|n| vec(any::<u8>(), n..=n))];
    (
        any::<bool>(),
        wire_ns(),
        gen::id(),
        vec(arg, 1..5),
        gen::style(),
        vec(att, 1..max),
        one_of![8 => Just(0i64), 1 => 1i64..4, 1 => -3i64..0, 1 => prop::sample::select(vec![256i64, 65536, 1 << 32, i64::MAX])],
        one_of![12 => Just(None), 1 => (any::<u8>(), one_of![gen::text(6), Just("2[\"e\"]".to_string())]).prop_map(Some)],
        one_of![3 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(ack, ns, id, args, style, atts, delta, intruder, wild)| {
            let n = atts.len() as u64;
            Attached { ack, ns, id, args: args.into_iter().map(|j| place(j, n, wild)).collect(), style, atts, more: 0, delta, intruder }
        })
        .boxed()
}

/// Many attachments; placeholders far into the list.
fn c04_large(_: Tier) -> BoxedStrategy<Attached> {
    let att = vec(any::<u8>(), 0..4);
    (any::<bool>(), wire_ns(), gen::id(), vec(any::<u32>(), 1..5), gen::style(), vec(att, 0..3), gen::size(), one_of![12 => Just(0i64), 1 => prop::sample::select(vec![-256i64, 256, -1, 1, -65536, 65536])], 0u8..8)
        .prop_map(|(ack, ns, id, ph, style, mut atts, more, delta, wild)| {
            if atts.is_empty() && more == 0 {
                atts.push(vec![5]);
            }
            let n = atts.len() as u64 + more as u64;
            let args = ph
                .into_iter()
                .map(|x| {
                    let x = x as u64;
                    let k = match x % 8 {
                        0 => n - 1,
                        1 => 255 % n,
                        2 => 256 % n,
                        3 if wild == 0 => n,
                        _ => (x / 8) % n,
                    };
                    let p = J::Ph(k);
                    match x % 3 {
                        0 => p,
                        1 => J::Arr(vec![J::U(x), p]),
                        _ => J::Deep((x / 8 % 100) as u16, x & 1 == 0, Box::new(p)),
                    }
                })
                .collect();
            Attached { ack, ns, id, args, style, atts, more, delta, intruder: None }
        })
        .boxed()
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reads {
    ty: usize,
    arg: J,
    style: u64,
    /// attachments nobody refers to, before and after
    spare: (u8, u8),
}

fn bin_to_numbers(j: &J, style: u64) -> String {
    let mut w = Writer::new(style, false);
    w.value(j);
    w.out
}

fn c05_check(c: &Reads) -> CheckResult {
    let mut cov = Covered::default();
    let types = TYPES.with(|t| t.clone());
    let ty = &types[c.ty % types.len()];
    // The argument with byte strings written out.
    let plain = bin_to_numbers(&c.arg, c.style);
    // The argument with placeholders, and its attachments.
    let (text, atts) = {
        let mut w = Writer::new(c.style, true);
        let before: Vec<Vec<u8>> = (0..c.spare.0).map(|i| vec![0xee, i]).collect();
        w.atts = Some(before);
        w.value(&c.arg);
        let mut a = w.atts.take().unwrap();
        for i in 0..c.spare.1 {
            a.push(vec![0xdd; i as usize]);
        }
        if a.is_empty() {
            a.push(vec![9, 9]);
        }
        (w.out, a)
    };
    if ty.name.contains("<bool") && !plain.is_ascii() {
        // serde_json itself panics on such a key (see DESIGN.md).
        return Ok(cov);
    }
    let want = (ty.from_json)(&plain);
    let want_json: Result<Value, _> = serde_json::from_str(&plain);

    let check = |how: &str, msg: EngineMessage, atts: Vec<EngineMessage>| -> Result<(), String> {
        let p = match socket::deserialize(msg) {
            Ok(DeserializeResult::Packet(p)) => p,
            Ok(DeserializeResult::DataNeeded(part)) => socket::deserialize_partial(part, atts).map_err(|e| e.to_string())?,
            Err(e) => return Err(format!("{how}: rejected: {e}")),
        };
        let args = view(&p).args.ok_or("no args")?;
        let a = args.get(1).ok_or("no argument 1")?;
        let got = (ty.from_arg)(&a);
        if got != want {
            return Err(format!("{how}: as {}: {:?}; plain JSON {plain} gives {:?}", ty.name, got, want));
        }
        let got = a.to_json_value();
        match (&got, &want_json) {
            (Ok(g), Ok(w)) if g == w => (),
            (Err(_), Err(_)) => (),
            _ => return Err(format!("{how}: JSON view {got:?}; plain JSON {plain} gives {want_json:?}")),
        }
        Ok(())
    };
    check(&format!("2[\"e\",{plain}]"), text_message(&format!("2[\"e\",{plain}]")), vec![])?;
    let head = format!("5{}-[\"e\",{text}]", atts.len());
    let msgs = atts.iter().map(|a| bin_message(a)).collect();
    check(&format!("{head} with {atts:?}"), text_message(&head), msgs)?;

    cov.label("readable", want.is_some());
    cov.label("placeholder-inside", c.arg.has_bin());
    cov.label("readable-with-placeholder", want.is_some() && c.arg.has_bin());
    cov.label("object", matches!(&c.arg, J::Obj(v) if !v.is_empty()));
    cov.label("other-style", c.style != 0);
    cov.nontrivial = want.is_some() && (c.arg.has_bin() || matches!(c.arg, J::Obj(_) | J::Arr(_) | J::Str(_)));
    Ok(cov)
}

fn c05_strategy(_: Tier) -> BoxedStrategy<Reads> {
    let table = types::table();
    let each: Vec<(u32, BoxedStrategy<(usize, J)>)> =
        table.iter().enumerate().map(|(i, t)| (if t.name.len() > 12 { 2 } else { 1 }, (t.sch)().gen().prop_map(move |j| (i, j)).boxed())).collect();
    (proptest::strategy::Union::new_weighted(each), gen::style(), (0u8..3, 0u8..3)).prop_map(|((ty, arg), style, spare)| Reads { ty, arg, style, spare }).boxed()
}

fn with_attachment<R>(arg: &str, att: &[u8], f: impl FnOnce(&Arg) -> R) -> R {
    let Ok(DeserializeResult::DataNeeded(part)) = socket::deserialize(text_message(&format!("51-[\"e\",{arg}]"))) else { panic!("not waiting") };
    let p = socket::deserialize_partial(part, vec![bin_message(att)]).expect("completes");
    let a = view(&p).args.unwrap().get(1).unwrap();
    f(&a)
}

/// Present: the JSON view understands a placeholder whose members come in the
/// other order, the typed view does not.
fn finding_num_first() -> bool {
    with_attachment(r#"{"num":0,"_placeholder":true}"#, &[1, 2], |a| a.to_json_value().ok() == Some(serde_json::json!([1, 2])) && a.deserialize::<Vec<u8>>().is_err())
}

// ---------------------------------------------------------------- C06, C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Extract {
    head: Head,
    ns: String,
    args: Vec<S>,
}

fn text_of(m: &Ws) -> Result<&str, String> {
    match m {
        Ws::Text(t) => Ok(t),
        other => Err(format!("not a text frame: {other:?}")),
    }
}

/// Members of a placeholder in any order.
fn canon(t: Tree) -> Tree {
    match t {
        Tree::Arr(v) => Tree::Arr(v.into_iter().map(canon).collect()),
        Tree::Obj(v) => {
            let mut v: Vec<(String, Tree)> = v.into_iter().map(|(k, t)| (k, canon(t))).collect();
            if v.iter().any(|(k, _)| k == "_placeholder") {
                v.sort_by(|a, b| a.0.cmp(&b.0));
            }
            Tree::Obj(v)
        }
        t => t,
    }
}

fn trees(texts: &[String]) -> Vec<Tree> {
    texts.iter().map(|t| canon(refparse::tree(t).expect("JSON"))).collect()
}

fn c06_check(c: &Extract) -> CheckResult {
    let mut cov = Covered::default();
    // Reference.
    let mut atts: Vec<Vec<u8>> = vec![];
    let mut plain_args: Vec<String> = vec![];
    let mut bin_args: Vec<String> = vec![];
    if let Head::Event(name, _) = &c.head {
        let j = serde_json::to_string(name).unwrap();
        plain_args.push(j.clone());
        bin_args.push(j);
    }
    let mut ok = vec![];
    for a in &c.args {
        match plain_json(a) {
            Ok(j) => {
                let e = a.extract(&mut atts);
                bin_args.push(plain_json(&e).map_err(|_| "reference extraction does not serialize".to_string())?);
                plain_args.push(j);
                ok.push(true);
            }
            Err(()) => ok.push(false),
        }
    }
    for binary in [false, true] {
        let mut b = builder(&c.head, &c.ns, binary);
        for (a, ok) in c.args.iter().zip(&ok) {
            let r = b.serialize_arg(&Ser(a));
            if r.is_ok() != *ok {
                return Err(format!("binary={binary}: argument {a:?}: serialization gives {:?}; plain JSON serialization {}", r.map_err(|e| e.to_string()), if *ok { "succeeds" } else { "fails" }));
            }
        }
        let frames = b.finish();
        let head = text_of(frames.first().ok_or("no frame")?)?.to_string();
        let Some(text) = head.strip_prefix('4') else { return Err(format!("{head:?} is not an engine message")) };
        let p = match refparse::packet(text) {
            Verdict::Accept(p) => p,
            // An acknowledgement without arguments has no array.
            Verdict::Open if plain_args.is_empty() => return Ok(cov),
            v => return Err(format!("{text:?} does not follow the packet grammar: {v:?}")),
        };
        let want_kind = match (&c.head, binary) {
            (Head::Event(..), false) => b'2',
            (Head::Event(..), true) => b'5',
            (_, false) => b'3',
            (_, true) => b'6',
        };
        let want_id = match &c.head {
            Head::Event(_, id) => *id,
            Head::Ack(id) => Some(*id),
            _ => None,
        };
        if p.kind != want_kind || p.id != want_id || p.namespace() != c.ns {
            return Err(format!("{text:?}: wrong header for {:?} in {:?}, binary={binary}", c.head, c.ns));
        }
        let (want_args, want_atts): (&[String], &[Vec<u8>]) = if binary { (&bin_args, &atts) } else { (&plain_args, &[]) };
        if p.count != if binary { Some(want_atts.len() as u64) } else { None } {
            return Err(format!("{text:?}: announces {:?} attachments, {} expected", p.count, want_atts.len()));
        }
        if trees(p.args()) != trees(want_args) {
            return Err(format!("binary={binary}: arguments {:?}, expected {:?}", p.args(), want_args));
        }
        let got: Vec<&Ws> = frames.iter().skip(1).collect();
        if got.len() != want_atts.len() {
            return Err(format!("binary={binary}: {} attachments sent, {} expected: {frames:?}", got.len(), want_atts.len()));
        }
        for (g, w) in got.iter().zip(want_atts) {
            match g {
                Ws::Binary(b) if b.first() == Some(&4) && b[1..] == w[..] => (),
                other => return Err(format!("attachment {other:?}, expected engine message with {w:?}")),
            }
        }
    }
    cov.label("attachments", !atts.is_empty());
    cov.label("several-attachments", atts.len() > 1);
    cov.label("mixed-sequence", c.args.iter().any(|a| a.mixed_u8_seq()));
    cov.label("bytes-in-map", c.args.iter().any(|a| a.any(&|s| matches!(s, S::Map(v, ..) if v.iter().any(|(_, x)| matches!(x, S::Bytes(_) | S::U8Seq(_)))))));
    cov.label("unserializable", ok.contains(&false));
    cov.nontrivial = !atts.is_empty() || c.args.iter().any(|a| a.mixed_u8_seq());
    Ok(cov)
}

fn c06_strategy(t: Tier) -> BoxedStrategy<Extract> {
    let n = if t == Tier::Quick { 3 } else { 6 };
    (data_head(), gen::namespace(), vec(one_of![9 => gen::s_value(0), 1 => gen::s_value(2)], 1..=n)).prop_map(|(head, ns, args)| Extract { head, ns, args }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    head: Head,
    ns: String,
    binary: bool,
    args: Vec<S>,
}

fn c07_check(c: &Failing) -> CheckResult {
    let mut cov = Covered::default();
    let mut all = builder(&c.head, &c.ns, c.binary);
    let mut good = builder(&c.head, &c.ns, c.binary);
    let mut failed = 0;
    let mut ok = 0;
    for (i, a) in c.args.iter().enumerate() {
        match all.serialize_arg(&Ser(a)) {
            Ok(()) => {
                good.serialize_arg(&Ser(a)).map_err(|e| format!("argument {i} {a:?} is accepted after failures but refused without: {e}"))?;
                ok += 1;
            }
            Err(_) => {
                failed += 1;
                cov.label("first-argument-fails", i == 0);
                cov.label("fails-after-success", ok > 0);
                cov.label("fails-after-bytes", a.any(&|s| matches!(s, S::Bytes(_) | S::U8Seq(_))));
            }
        }
    }
    let (x, y) = (all.finish(), good.finish());
    if x != y {
        return Err(format!("frames {x:?}; without the {failed} failed arguments {y:?}"));
    }
    cov.label("attachments", x.len() > 1);
    cov.label("several-failures", failed > 1);
    cov.label("nothing-succeeds", ok == 0 && failed > 0);
    cov.nontrivial = failed > 0;
    Ok(cov)
}

fn c07_strategy(t: Tier) -> BoxedStrategy<Failing> {
    let n = if t == Tier::Quick { 6 } else { 14 };
    // Something succeeds, then the value fails at its end.
    let late = (gen::s_value(0), gen::s_leaf(), any::<u8>()).prop_map(|(a, b, how)| match how % 6 {
        0 => S::Seq(vec![a, b, S::Fail], true),
        1 => S::Tuple(vec![a, b, S::Fail]),
        2 => S::Struct(vec![(0, a), (1, b), (2, S::Fail)]),
        3 => S::Map(vec![(S::Str("k".into()), a), (S::Bytes(vec![1]), b)], true, how & 8 == 0),
        4 => S::TupleVariant(1, vec![b, S::Fail, a]),
        _ => S::Seq(vec![S::U8(7), S::U8(8), S::Fail], false),
    });
    let arg = one_of![3 => gen::s_value(0), 2 => gen::s_value(6), 2 => late, 1 => Just(S::Fail)];
    (data_head(), gen::namespace(), any::<bool>(), vec(arg, 1..=n)).prop_map(|(head, ns, binary, args)| Failing { head, ns, binary, args }).boxed()
}

// ---------------------------------------------------------------- C08, C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Eng {
    Open { sid: String, interval: u64, timeout: u64, extra: Vec<(String, J)>, order: u8, style: u64 },
    BadOpen(String),
    Close,
    Ping(bool),
    Pong(bool),
    Text(String),
    Bin(Vec<u8>),
    Empty(bool),
    Unknown(char, String),
    BadBin(u8, Vec<u8>),
    Control(u8, Vec<u8>),
}

fn open_text(sid: &str, interval: u64, timeout: u64, extra: &[(String, J)], order: u8, style: u64) -> String {
    let mut m: Vec<(String, J)> = vec![("sid".into(), J::Str(sid.into())), ("pingInterval".into(), J::U(interval)), ("pingTimeout".into(), J::U(timeout))];
    m.rotate_left(order as usize % 3);
    for (i, (k, j)) in extra.iter().enumerate() {
        if !["sid", "pingInterval", "pingTimeout"].contains(&k.as_str()) {
            let p = (order as usize / 3 + i) % (m.len() + 1);
            m.insert(p, (k.clone(), j.clone()));
        }
    }
    let mut w = Writer::new(style, false);
    w.value(&J::Obj(m));
    format!("0{}", w.out)
}

pub fn eng_ws(e: &Eng) -> Ws {
    match e {
        Eng::Open { sid, interval, timeout, extra, order, style } => Ws::Text(open_text(sid, *interval, *timeout, extra, *order, *style)),
        Eng::BadOpen(t) => Ws::Text(format!("0{t}")),
        Eng::Close => Ws::Text("1".into()),
        Eng::Ping(probe) => Ws::Text(if *probe { "2probe" } else { "2" }.into()),
        Eng::Pong(probe) => Ws::Text(if *probe { "3probe" } else { "3" }.into()),
        Eng::Text(t) => Ws::Text(format!("4{t}")),
        Eng::Bin(b) => Ws::Binary(std::iter::once(4).chain(b.iter().copied()).collect()),
        Eng::Empty(text) => {
            if *text {
                Ws::Text(String::new())
            } else {
                Ws::Binary(vec![])
            }
        }
        Eng::Unknown(c, t) => Ws::Text(format!("{c}{t}")),
        Eng::BadBin(h, b) => Ws::Binary(std::iter::once(*h).chain(b.iter().copied()).collect()),
        Eng::Control(0, b) => Ws::Ping(b.clone()),
        Eng::Control(1, b) => Ws::Pong(b.clone()),
        Eng::Control(_, _) => Ws::Close(None),
    }
}

/// A well-formed open packet.
pub fn eng_valid_open(e: &Eng) -> bool {
    matches!(e, Eng::Open { .. })
}

fn same_eng(e: &Eng, p: &EnginePacket) -> bool {
    match (e, p) {
        (Eng::Open { sid, interval, timeout, .. }, EnginePacket::Open(o)) => o.sid == *sid && o.ping_interval == *interval && o.ping_timeout == *timeout,
        (Eng::Close, EnginePacket::Close) | (Eng::Ping(_), EnginePacket::Ping) | (Eng::Pong(_), EnginePacket::Pong) => true,
        (Eng::Text(t), EnginePacket::Message(EngineMessage::Text(m))) => **m == **t && format!("{m}") == *t,
        (Eng::Bin(b), EnginePacket::Message(EngineMessage::Binary(m))) => **m == b[..],
        _ => false,
    }
}

fn c08_check(v: &Vec<Eng>) -> CheckResult {
    let mut cov = Covered::default();
    let mut d = Decoder::new();
    #[derive(PartialEq, Clone, Copy, Debug)]
    enum St {
        Initial,
        Active,
        Closed,
    }
    let mut st = St::Initial;
    let mut rejected_then_accepted = false;
    let mut rejected = false;
    for (i, e) in v.iter().enumerate() {
        let ok = match (st, e) {
            (St::Initial, Eng::Open { .. }) => true,
            (St::Active, Eng::Close | Eng::Ping(_) | Eng::Pong(_) | Eng::Text(_) | Eng::Bin(_)) => true,
            _ => false,
        };
        let r = d.decode(eng_ws(e));
        match r {
            Ok(p) if ok => {
                if !same_eng(e, &p) {
                    return Err(format!("message {i} {:?} decodes as {p:?}", eng_ws(e)));
                }
                rejected_then_accepted |= rejected;
                match e {
                    Eng::Open { .. } => st = St::Active,
                    Eng::Close => st = St::Closed,
                    _ => (),
                }
            }
            Err(_) if !ok => {
                rejected = true;
                cov.label("rejected-initial", st == St::Initial);
                cov.label("rejected-active", st == St::Active);
                cov.label("rejected-closed", st == St::Closed);
            }
            Ok(p) => return Err(format!("message {i} {:?} in state {st:?} is accepted as {p:?}", eng_ws(e))),
            Err(x) => return Err(format!("message {i} {:?} in state {st:?} is rejected: {x}", eng_ws(e))),
        }
    }
    cov.label("opened", st != St::Initial);
    cov.label("closed", st == St::Closed);
    cov.label("accepted-after-a-rejection", rejected_then_accepted);
    cov.nontrivial = rejected_then_accepted;
    Ok(cov)
}

pub fn eng_open() -> BoxedStrategy<Eng> {
    let extra = one_of![
        1 => Just(vec![]),
        1 => Just(vec![("upgrades".to_string(), J::Arr(vec![J::Str("websocket".into())])), ("maxPayload".to_string(), J::U(1000000))]),
        2 => vec((gen::key(), gen::json(0)), 0..4).prop_map(|v| {
            let mut seen = std::collections::HashSet::new();
            v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect::<Vec<_>>()
        }),
    ];
    (gen::text(20), gen::id(), gen::id(), extra, any::<u8>(), gen::style()).prop_map(|(sid, interval, timeout, extra, order, style)| Eng::Open { sid, interval, timeout, extra, order, style }).boxed()
}

pub fn eng() -> BoxedStrategy<Eng> {
    one_of![
        4 => eng_open(),
        2 => prop::sample::select(vec!["", "{}", "{\"sid\":\"x\"}", "{\"sid\":1,\"pingInterval\":1,\"pingTimeout\":1}", "{\"sid\":\"x\",\"pingInterval\":-1,\"pingTimeout\":1}", "{\"sid\":\"x\",\"pingInterval\":1,\"pingTimeout\":1", "{\"sid\":\"x\",\"pingInterval\":1,\"pingTimeout\":1}x", "{\"sid\":\"x\",\"pingInterval\":1.5,\"pingTimeout\":1}", "{\"sid\":\"x\",\"pingInterval\":18446744073709551616,\"pingTimeout\":1}", "null", "{\"sid\":\"x\",\"pingInterval\":\"1\",\"pingTimeout\":1}", "{\"sid\":\"x\",\"pingInterval\":null,\"pingTimeout\":1}", "{\"sid\":\"x\",\"ping_interval\":1,\"pingTimeout\":1}", "0{}"]).prop_map(|s| Eng::BadOpen(s.into())),
        1 => Just(Eng::Close),
        3 => one_of![4 => Just(false), 1 => Just(true)].prop_map(Eng::Ping),
        3 => one_of![4 => Just(false), 1 => Just(true)].prop_map(Eng::Pong),
        4 => gen::text(12).prop_map(Eng::Text),
        4 => gen::bytes(10).prop_map(Eng::Bin),
        2 => any::<bool>().prop_map(Eng::Empty),
        2 => (gen::ch().prop_filter("known type", |c| !('0'..='4').contains(c)), gen::text(5)).prop_map(|(c, t)| Eng::Unknown(c, t)),
        1 => (prop::sample::select(vec!['5', '6', '7', '9', '\u{4}', 'é', '\u{664}', '\u{ff14}']), gen::text(3)).prop_map(|(c, t)| Eng::Unknown(c, t)),
        2 => (any::<u8>().prop_filter("header", |b| *b != 4), gen::bytes(5)).prop_map(|(h, b)| Eng::BadBin(h, b)),
        1 => (prop::sample::select(vec![0u8, 1, 2, 3, 5, 0x34, 0x30, 0x62]), gen::bytes(5)).prop_map(|(h, b)| Eng::BadBin(h, b)),
        3 => (0u8..3, gen::bytes(5)).prop_map(|(k, b)| Eng::Control(k, b)),
    ]
    .boxed()
}

fn c08_strategy(t: Tier) -> BoxedStrategy<Vec<Eng>> {
    let n = if t == Tier::Quick { 14 } else { 40 };
    (vec(eng(), 0..4), one_of![5 => eng_open().prop_map(Some), 1 => Just(None)], vec(eng(), 0..n))
        .prop_map(|(mut a, o, b)| {
            a.retain(|e| !matches!(e, Eng::Open { .. }));
            a.extend(o);
            a.extend(b);
            a
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Frame {
    Text(String),
    Bin(Vec<u8>),
    Long(u32, char),
    LongBin(u32, u8),
    Control,
    Open(Eng),
}

fn c09_check(f: &Frame) -> CheckResult {
    let mut cov = Covered::default();
    let text = |t: &str, cov: &mut Covered| -> Result<(), String> {
        let copies = [("encode_message", engine::encode_message(t)), ("package_message", engine::package_message(format!("4{t}")))];
        for (how, m) in copies {
            match &m {
                Ws::Text(x) if x.len() == t.len() + 1 && x.starts_with('4') && x[1..] == *t => (),
                _ => return Err(format!("{how} of {t:?} gives {m:?}")),
            }
            match active().decode(m) {
                Ok(EnginePacket::Message(EngineMessage::Text(s))) if *s == *t && s.to_string() == t => (),
                other => return Err(format!("{how} of {t:?} decodes as {other:?}")),
            }
        }
        cov.label("text", true);
        cov.label("multi-byte", !t.is_ascii());
        cov.nontrivial = !t.is_empty();
        Ok(())
    };
    let bin = |b: &[u8], cov: &mut Covered| -> Result<(), String> {
        let mut packed = vec![engine::BINARY_HEADER];
        packed.extend_from_slice(b);
        let copies = [("encode_binary", engine::encode_binary(b)), ("package_binary", engine::package_binary(packed.clone()))];
        for (how, m) in copies {
            match &m {
                Ws::Binary(x) if *x == packed && x[0] == 4 => (),
                _ => return Err(format!("{how} of {b:?} gives {m:?}")),
            }
            match active().decode(m) {
                Ok(EnginePacket::Message(EngineMessage::Binary(s))) if *s == *b => (),
                other => return Err(format!("{how} of {b:?} decodes as {other:?}")),
            }
        }
        cov.label("binary", true);
        cov.nontrivial = !b.is_empty();
        Ok(())
    };
    match f {
        Frame::Text(t) => text(t, &mut cov)?,
        Frame::Bin(b) => bin(b, &mut cov)?,
        Frame::Long(n, c) => text(&c.to_string().repeat(*n as usize), &mut cov)?,
        Frame::LongBin(n, c) => bin(&vec![*c; *n as usize], &mut cov)?,
        Frame::Control => {
            let mut d = active();
            for _ in 0..2 {
                match (d.decode(engine::encode_ping()), d.decode(engine::encode_pong())) {
                    (Ok(EnginePacket::Ping), Ok(EnginePacket::Pong)) => (),
                    other => return Err(format!("ping and pong decode as {other:?}")),
                }
            }
            if engine::encode_ping() != Ws::Text("2".into()) || engine::encode_pong() != Ws::Text("3".into()) {
                return Err("ping or pong is not the one-digit message".into());
            }
        }
        Frame::Open(e) => {
            let m = eng_ws(e);
            let p = Decoder::new().decode(m.clone()).map_err(|x| format!("open packet {m:?} rejected: {x}"))?;
            if !same_eng(e, &p) {
                return Err(format!("open packet {m:?} decodes as {p:?}"));
            }
            cov.label("open", true);
            cov.nontrivial = true;
        }
    }
    Ok(cov)
}

fn c09_strategy(_: Tier) -> BoxedStrategy<Frame> {
    one_of![
        6 => gen::text(40).prop_map(Frame::Text),
        6 => gen::bytes(60).prop_map(Frame::Bin),
        1 => (one_of![9 => 0u32..3000, 1 => gen::size()], gen::ch()).prop_map(|(n, c)| Frame::Long(n, c)),
        1 => (one_of![1 => 0u32..70000, 1 => gen::size()], any::<u8>()).prop_map(|(n, c)| Frame::LongBin(n, c)),
        1 => Just(Frame::Control),
        8 => eng_open().prop_map(Frame::Open),
    ]
    .boxed()
}

// ----------------------------------------------------------------

pub const GENERAL: &[&str] = &["serde_json, serde and tungstenite's message type behave as documented; the references are built on them or on the harness's own scanner."];

pub fn property(id: &str) -> Option<Property> {
    let p = |id: &'static str, parts: Vec<Box<dyn crate::runner::AnyPart>>, known: Vec<(&'static str, fn() -> bool)>| Some(Property { id, parts, known, assumptions: GENERAL });
    match id {
        "C01" => p(
            "C01",
            vec![
                Box::new(Part { name: "values", rule: "Random kind, event name, namespace, id, mode and arguments over the whole serde data model, built, decoded and read back; non-trivial: an argument besides the name, a namespace, or a name with other than letters and digits.", strategy: c01_strategy, check: c01_check, quick: 5_000_000, thorough: 200_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "typed", rule: "Values of a rich recursive Rust type (byte buffers, integer-keyed maps, enums, options, fixed arrays) sent and read back into the same type; non-trivial: all cases.", strategy: c01_typed_strategy, check: c01_typed_check, quick: 300_000, thorough: 12_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "large", rule: "One dimension large (attachments, arguments, lengths, depth, around 2^8 and 2^16); non-trivial as in the other part", strategy: c01_large, check: c01_check, quick: 100_000, thorough: 4_000_000, max_shrink: 2000, repeat: 1 }),
            ],
            vec![],
        ),
        "C02" => p(
            "C02",
            vec![
                Box::new(Part { name: "valid", rule: "Packets written from random parts in random JSON style, judged by an independent scanner; non-trivial: several arguments, or arguments next to a namespace.", strategy: c02_valid, check: c02_check, quick: 2_500_000, thorough: 100_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "mutated", rule: "The same with one to three edits; non-trivial: the text changed.", strategy: c02_mutated, check: c02_check, quick: 3_000_000, thorough: 120_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "soup", rule: "Grammar pieces in any order; non-trivial: starts with a digit 0-6 and has more.", strategy: c02_soup, check: c02_soup_check, quick: 6_000_000, thorough: 240_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "large", rule: "Long names, namespaces, argument lists and deep nesting, some edited; non-trivial as in the valid part, or edited", strategy: c02_large, check: c02_check, quick: 150_000, thorough: 6_000_000, max_shrink: 2000, repeat: 1 }),
            ],
            vec![],
        ),
        "C03" => p(
            "C03",
            vec![Box::new(Part { name: "messages", rule: "Random histories of text and binary messages (odd numbers, escapes, nesting, placeholders; mutated packets; garbage), decoded, assembled, printed and read as JSON and as every type of the family; non-trivial: at least one argument was read.", strategy: c03_strategy, check: c03_check, quick: 500_000, thorough: 20_000_000, max_shrink: 4000, repeat: 1 })],
            vec![],
        ),
        "C04" => p(
            "C04",
            vec![Box::new(Part { name: "attachments", rule: "Random packets with freely numbered placeholders, random attachment lists, wrong counts and text intruders; non-trivial: a placeholder is present or the list is wrong.", strategy: c04_strategy, check: c04_check, quick: 1_600_000, thorough: 64_000_000, max_shrink: 4000, repeat: 1 }), Box::new(Part { name: "large", rule: "Up to 66000 attachments, placeholders at their ends; non-trivial as in the other part", strategy: c04_large, check: c04_check, quick: 60_000, thorough: 2_400_000, max_shrink: 2000, repeat: 1 })],
            vec![],
        ),
        "C05" => p(
            "C05",
            vec![Box::new(Part { name: "reads", rule: "For each of about 90 target types, JSON shaped for it (with deviations), in random style, read from a packet with and one without attachments and compared with serde_json on the written-out JSON; non-trivial: the reference read succeeds and the argument has a placeholder, text or structure.", strategy: c05_strategy, check: c05_check, quick: 2_000_000, thorough: 80_000_000, max_shrink: 4000, repeat: 1 }), Box::new(Part { name: "large", rule: "Large and deep arguments (nesting around the reader's limit of 128) read as types that take them; non-trivial as in the other part", strategy: c05_large, check: c05_check, quick: 60_000, thorough: 2_400_000, max_shrink: 2000, repeat: 1 })],
            vec![
                (r#"typed read of a placeholder written {"num":k,"_placeholder":true} is refused although the JSON view accepts it"#, finding_num_first as fn() -> bool),
            ],
        ),
        "C06" => p(
            "C06",
            vec![Box::new(Part { name: "extract", rule: "Random arguments over the whole serde data model, serialized in both modes and compared with a reference extraction followed by plain JSON serialization; non-trivial: at least one attachment, or a sequence that starts with u8 values and goes on otherwise.", strategy: c06_strategy, check: c06_check, quick: 3_000_000, thorough: 120_000_000, max_shrink: 4000, repeat: 1 }), Box::new(Part { name: "large", rule: "One dimension large; non-trivial as in the other part", strategy: c06_large, check: c06_check, quick: 60_000, thorough: 2_400_000, max_shrink: 2000, repeat: 1 })],
            vec![],
        ),
        "C07" => p(
            "C07",
            vec![Box::new(Part { name: "failing", rule: "Random interleavings of arguments that serialize and arguments that fail at some point inside; the frames are compared with those of a builder given only the successes; non-trivial: at least one failure.", strategy: c07_strategy, check: c07_check, quick: 3_000_000, thorough: 120_000_000, max_shrink: 4000, repeat: 1 }), Box::new(Part { name: "large", rule: "Large values before the failure; non-trivial as in the other part", strategy: c07_large, check: c07_check, quick: 200_000, thorough: 8_000_000, max_shrink: 2000, repeat: 1 })],
            vec![],
        ),
        "C08" => p(
            "C08",
            vec![Box::new(Part { name: "session", rule: "Random message histories against the three-state session model; non-trivial: a message is accepted after an earlier one was rejected.", strategy: c08_strategy, check: c08_check, quick: 2_000_000, thorough: 80_000_000, max_shrink: 4000, repeat: 1 })],
            vec![],
        ),
        "C09" => p(
            "C09",
            vec![Box::new(Part { name: "framing", rule: "Random payloads through every encoder and the decoder, and random well-formed open packets; non-trivial: a non-empty payload or an open packet.", strategy: c09_strategy, check: c09_check, quick: 6_000_000, thorough: 240_000_000, max_shrink: 4000, repeat: 1 })],
            vec![],
        ),
        _ => None,
    }
}
