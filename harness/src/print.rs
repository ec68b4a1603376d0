//! C25: how packets and arguments print.
use crate::gen::{self, Pick, Writer, J};
use crate::one_of;
use crate::proto::{bin_message, text_message, K};
use crate::runner::{CheckResult, Covered, Part, Tier};
use crate::Property;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_protocol::socket::{self, Data, DeserializeResult, Packet};
use std::fmt::{self, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum A {
    J(J),
    /// A text that is JSON by syntax but has no value here.
    Odd(Odd),
    /// The odd text deep inside, next to a value.
    In(Odd, J, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd {
    Lone(u16),
    LoneKey(u16),
    Huge(bool, u16),
    Nested(u16, bool),
    /// placeholder without a usable number (only odd next to attachments)
    NoNum(u8),
}

impl Odd {
    fn text(&self) -> String {
        match self {
            Odd::Lone(u) => format!("\"a\\u{:04x}b\"", 0xd800 + u % 0x800),
            Odd::LoneKey(u) => format!("{{\"\\u{:04X}\":1}}", 0xd800 + u % 0x800),
            Odd::Huge(neg, n) => format!("{}1e{}", if *neg { "-" } else { "" }, 309 + n),
            Odd::Nested(n, obj) => {
                let n = 128 + *n as usize;
                if *obj { format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)) } else { format!("{}{}", "[".repeat(n), "]".repeat(n)) }
            }
            Odd::NoNum(k) => ["{\"_placeholder\":true}", "{\"_placeholder\":true,\"num\":-1}", "{\"_placeholder\":true,\"num\":\"0\"}", "{\"_placeholder\":true,\"num\":0.5}", "{\"_placeholder\":true,\"num\":null}"][*k as usize % 5].to_string(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Printed {
    kind: u8,
    ns: Option<String>,
    id: Option<u64>,
    args: Vec<A>,
    style: u64,
    atts: Vec<Vec<u8>>,
    room: u16,
}

/// Takes so many bytes and then fails.
struct Narrow(String, usize);
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn packet(c: &Printed, text: &str) -> Result<Packet, String> {
    match socket::deserialize(text_message(text)) {
        Ok(DeserializeResult::Packet(p)) if c.atts.is_empty() => Ok(p),
        Ok(DeserializeResult::DataNeeded(p)) if !c.atts.is_empty() => socket::deserialize_partial(p, c.atts.iter().map(|a| bin_message(a)).collect::<Vec<_>>()).map_err(|e| format!("{text:?} with {:?}: {e}", c.atts)),
        r => Err(format!("{text:?} with {} attachments gives {r:?}", c.atts.len())),
    }
}

fn print_check(c: &Printed) -> CheckResult {
    let mut cov = Covered::default();
    let kind = match c.kind % 8 {
        0 => K::Connect,
        1 => K::Disconnect,
        2..=4 => K::Event,
        _ => K::Ack,
    };
    let digit = match (kind, c.atts.is_empty()) {
        (K::Connect, _) => '0',
        (K::Disconnect, _) => '1',
        (K::Event, true) => '2',
        (K::Event, false) => '5',
        (K::Ack, true) => '3',
        (K::Ack, false) => '6',
    };
    let mut text = digit.to_string();
    let data = matches!(kind, K::Event | K::Ack);
    let c = &Printed { atts: if data { c.atts.clone() } else { vec![] }, ..c.clone() };
    if !c.atts.is_empty() {
        text.push_str(&format!("{}-", c.atts.len()));
    }
    if let Some(n) = &c.ns {
        text.push_str(&format!("{n},"));
    }
    let id = if kind == K::Ack { Some(c.id.unwrap_or(7)) } else { c.id };
    let mut wants = vec![];
    if data {
        if let Some(i) = id {
            text.push_str(&i.to_string());
        }
        let mut pick = Pick::new(c.style);
        text.push('[');
        for (i, a) in c.args.iter().enumerate() {
            if i > 0 {
                text.push(',');
            }
            let space = if c.style > 0 && pick.one_in(5) { [" ", "\n", "\t "][pick.below(3) as usize] } else { "" };
            let mut w = Writer::new(c.style, true);
            let (t, v) = match a {
                A::J(j) => {
                    w.value(j);
                    (w.out, j.value(&c.atts).ok())
                }
                A::Odd(o) => (o.text(), None),
                A::In(o, j, obj) => {
                    w.value(j);
                    (if *obj { format!("{{\"k\" : {},\"o\":[{}]}}", w.out, o.text()) } else { format!("[ {},{{\"o\":{}}}]", w.out, o.text()) }, None)
                }
            };
            text.push_str(space);
            text.push_str(&t);
            text.push_str(space);
            // Without attachments a placeholder is an object like any other, and nesting
            // too deep for serde_json has no value.
            let v = match serde_json::from_str::<Value>(&t) {
                Err(_) => None,
                Ok(plain) if c.atts.is_empty() => Some(plain),
                Ok(_) => v,
            };
            cov.label("no-value", v.is_none());
            wants.push(v.map(|v| v.to_string()).unwrap_or(t));
        }
        text.push(']');
    }
    let p = packet(c, &text)?;
    let all = format!("[{}]", wants.join(", "));
    let want = match kind {
        K::Connect => "Connect".to_string(),
        K::Disconnect => "Disconnect".to_string(),
        K::Event => format!("Event {{ id: {}, args: {all} }}", id.map(|i| format!("Some({i})")).unwrap_or("None".into())),
        K::Ack => format!("Ack {{ id: {}, args: {all} }}", id.unwrap()),
    };
    let what = || format!("{text:?} with {:?}", c.atts);
    let got = p.to_string();
    if got != want {
        return Err(format!("{} prints as {got:?}, expected {want:?}", what()));
    }
    if p.data().to_string() != want || p.clone().to_string() != want {
        return Err(format!("{}: its data or its copy prints as {:?} / {:?}, expected {want:?}", what(), p.data().to_string(), p.clone().to_string()));
    }
    if let Data::Event { args, .. } | Data::Ack { args, .. } = p.data() {
        if args.to_string() != all || args.clone().to_string() != all {
            return Err(format!("{}: arguments print as {args}, expected {all}", what()));
        }
        for (i, want) in wants.iter().enumerate() {
            for (how, a) in [("index", args.get(i)), ("iteration", args.iter().nth(i))] {
                match a {
                    Some(a) if a.to_string() == *want => (),
                    a => return Err(format!("{}: argument {i} ({how}) prints as {:?}, expected {want:?}", what(), a.map(|a| a.to_string()))),
                }
            }
        }
    }
    // A destination that fails: what it took is how the text begins.
    let room = c.room as usize % (want.len() + 40);
    let mut n = Narrow(String::new(), room);
    let r = write!(n, "{p}");
    if r.is_ok() != (want.len() <= room) || !want.starts_with(&n.0) || (r.is_ok() && n.0 != want) {
        return Err(format!("{}: printed to a destination with room for {room} bytes: {r:?}, {:?}", what(), n.0));
    }
    cov.label("failing-destination", r.is_err());
    cov.label("attachments", !c.atts.is_empty());
    cov.label("several-arguments", wants.len() > 1);
    cov.label("long", want.len() > 65536);
    cov.nontrivial = wants.iter().any(|w| w.len() > 2);
    Ok(cov)
}

fn odd() -> BoxedStrategy<Odd> {
    one_of![
        2 => any::<u16>().prop_map(Odd::Lone),
        1 => any::<u16>().prop_map(Odd::LoneKey),
        2 => (any::<bool>(), 0u16..300).prop_map(|(n, e)| Odd::Huge(n, e)),
        1 => (0u16..3, any::<bool>()).prop_map(|(n, o)| Odd::Nested(n, o)),
        1 => any::<u8>().prop_map(Odd::NoNum),
    ]
    .boxed()
}

fn printed(args: BoxedStrategy<Vec<A>>, atts: BoxedStrategy<Vec<Vec<u8>>>) -> BoxedStrategy<Printed> {
    (any::<u8>(), crate::proto::wire_ns(), gen::opt_id(), args, gen::style(), atts, any::<u16>(), any::<bool>())
        .prop_map(|(kind, ns, id, mut args, style, atts, room, wild)| {
            let n = atts.len() as u64;
            for a in &mut args {
                if let A::J(j) | A::In(_, j, _) = a {
                    *j = crate::proto::place(std::mem::replace(j, J::Null), n.max(1), wild || n == 0);
                }
            }
            // An event has a name.
            args.insert(0, A::J(J::Str("e".into())));
            Printed { kind, ns, id, args, style, atts, room }
        })
        .boxed()
}

fn print_strategy(_: Tier) -> BoxedStrategy<Printed> {
    let arg = one_of![
        8 => gen::json(8).prop_map(A::J),
        2 => gen::bytes(4).prop_map(|b| A::J(J::Bin(b))),
        1 => odd().prop_map(A::Odd),
        1 => (odd(), gen::json(4), any::<bool>()).prop_map(|(o, j, b)| A::In(o, j, b)),
    ];
    printed(vec(arg, 0..5).boxed(), one_of![2 => Just(vec![]), 3 => vec(gen::bytes(9), 1..5)].boxed())
}

fn print_large(_: Tier) -> BoxedStrategy<Printed> {
    let big = one_of![
        6 => crate::proto::j_bulk(gen::depth(), false).prop_map(A::J),
        1 => (60u16..200, any::<bool>()).prop_map(|(n, b)| A::Odd(Odd::Nested(n, b))),
    ];
    let args = (vec(gen::json(4).prop_map(A::J), 0..3), big, vec(gen::json(4).prop_map(A::J), 0..2)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a });
    let atts = one_of![1 => Just(vec![]), 1 => vec(gen::bytes(9), 1..5), 1 => (gen::size(), any::<u8>()).prop_map(|(n, b)| vec![gen::counted(n, b)])];
    printed(args.boxed(), atts.boxed())
}

pub fn property(id: &str) -> Option<Property> {
    match id {
        "C25" => Some(Property {
            id: "C25",
            parts: vec![
                Box::new(Part { name: "printing", rule: "Random packets of every kind (values, placeholders in and out of range, texts without a value), printed whole, by part and to a destination that fails; non-trivial: an argument that prints as more than two characters.", strategy: print_strategy, check: print_check, quick: 1_500_000, thorough: 60_000_000, max_shrink: 4000, repeat: 1 }),
                Box::new(Part { name: "large", rule: "The same with one large or deep argument.", strategy: print_large, check: print_check, quick: 40_000, thorough: 1_600_000, max_shrink: 2000, repeat: 1 }),
            ],
            known: vec![],
            assumptions: crate::proto::GENERAL,
        }),
        _ => None,
    }
}
