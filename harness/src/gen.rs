//! Generators shared by the checks, and the value models they produce.
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::Value;

use crate::lit::lits;

/// Small deterministic generator for choices derived from a case field.
#[derive(Clone)]
pub struct Pick(u64);
impl Pick {
    pub fn new(seed: u64) -> Self {
        Pick(crate::runner::splitmix(seed ^ 0x5bd1e995))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = crate::runner::splitmix(self.0);
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
}

// ---------------------------------------------------------------- literals of the tested sources

fn some_of<T: Clone + std::fmt::Debug + 'static>(v: &[T], or: T) -> BoxedStrategy<T> {
    if v.is_empty() {
        Just(or).boxed()
    } else {
        prop::sample::select(v.to_vec()).boxed()
    }
}
pub fn lit_int() -> BoxedStrategy<u64> {
    some_of(&lits().ints, 0)
}
/// A literal at most this big (a length or count).
pub fn lit_count(max: u64) -> BoxedStrategy<u32> {
    let v: Vec<u32> = lits().ints.iter().filter(|n| **n <= max).map(|n| *n as u32).collect();
    some_of(&v, 0)
}
pub fn lit_text() -> BoxedStrategy<String> {
    some_of(&lits().texts, String::new())
}
pub fn lit_char() -> BoxedStrategy<char> {
    some_of(&lits().chars, 'a')
}

// ---------------------------------------------------------------- texts

pub fn ch() -> BoxedStrategy<char> {
    one_of![
        1 => lit_char(),
        8 => prop::char::range('a', 'z'),
        3 => prop::char::range('0', '9'),
        8 => prop::sample::select(vec!['"', '\\', '/', ',', '[', ']', '{', '}', ':', '-', ' ', '.', '+', 'e', 'E', '_', '?', '=', '&', '#', '%', '\'']),
        2 => prop::sample::select(vec!['\n', '\r', '\t', '\u{0}', '\u{1}', '\u{7f}', '\u{8}', '\u{c}', '\u{1b}', '\u{1f}']),
        3 => prop::sample::select(vec!['é', 'ß', '中', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{300}', '\u{80}', '\u{a0}']),
        1 => any::<char>(),
    ]
    .boxed()
}

pub fn text(max: usize) -> BoxedStrategy<String> {
    one_of![
        1 => Just(String::new()),
        6 => vec(prop::char::range('a', 'z'), 1..8).prop_map(|v| v.into_iter().collect()),
        8 => vec(ch(), 0..max.max(1)).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (one_of![1 => Just(String::new()), 1 => vec(ch(), 0..3).prop_map(|v| v.into_iter().collect::<String>())], lit_text(), one_of![1 => Just(String::new()), 1 => vec(ch(), 0..3).prop_map(|v| v.into_iter().collect::<String>())]).prop_map(|(a, l, b)| format!("{a}{l}{b}")),
        2 => prop::sample::select(vec!["[]", "[1]", ",", "\"", "\\", "]", "2[\"a\"]", "/nsp,", ",[1]", "],[", "0", "_placeholder", "num", "null", "\\u0041", "51-", "{\"_placeholder\":true,\"num\":0}"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

/// Namespaces the protocol can express: start with '/', contain no comma.
pub fn namespace() -> BoxedStrategy<String> {
    one_of![
        5 => Just("/".to_string()),
        4 => prop::sample::select(vec!["/a", "/b", "/nsp", "/a/b", "/nsp?token=x&y=1", "/5", "/[1]", "/[]", "/-1", "/a 1[\"x\"]", "//", "/é", "/😀", "/\"", "/a]", "/1-", "/\n", "/a\nb"]).prop_map(|s| s.to_string()),
        4 => text(12).prop_map(|s| format!("/{}", s.replace(',', ";"))),
    ]
    .boxed()
}

pub fn id() -> BoxedStrategy<u64> {
    one_of![
        3 => 0u64..12,
        3 => prop::sample::select(vec![0, 1, 9, 10, 99, 100, 255, 256, 65535, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
        2 => any::<u64>(),
        1 => lit_int(),
    ]
    .boxed()
}

pub fn opt_id() -> BoxedStrategy<Option<u64>> {
    one_of![1 => Just(None), 2 => id().prop_map(Some)].boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    one_of![
        1 => Just(vec![]),
        4 => vec(any::<u8>(), 0..max.max(1)),
        2 => vec(prop::sample::select(vec![0u8, 1, 4, 0x34, 0xff, 0x80, 0x22, 0x5b]), 1..6),
        1 => vec(any::<u8>(), 120..140),
        1 => (lit_count(600), any::<u8>()).prop_map(|(n, b)| counted(n, b)),
    ]
    .boxed()
}

/// Lengths around the places where a narrower type would wrap or a buffer
/// would be full.
pub fn size() -> BoxedStrategy<u32> {
    one_of![
        20 => 0u32..40,
        30 => prop::sample::select(vec![15u32, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 125, 126, 127, 128, 129, 200]),
        50 => prop::sample::select(vec![254u32, 255, 256, 257, 258, 300, 511, 512, 513]),
        8 => prop::sample::select(vec![1000u32, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192]),
        10 => lit_count(4096),
        1 => lit_count(70000),
        1 => prop::sample::select(vec![16384u32, 32767, 32768, 65534, 65535, 65536, 65537, 66000]),
    ]
    .boxed()
}

/// Nesting depths, also around where the JSON reader stops (128).
pub fn depth() -> BoxedStrategy<u16> {
    one_of![2 => 0u16..20, 3 => 20u16..110, 3 => 110u16..140].boxed()
}

// ---------------------------------------------------------------- JSON values a peer sends

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum J {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    /// The number n/8.
    F(i32),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    /// A byte string: an attachment in a binary packet, else an array of numbers.
    Bin(Vec<u8>),
    /// A placeholder with this explicit number.
    Ph(u64),
    /// Short for: an array of n one-byte byte strings.
    Many(u32),
    /// Short for: a text of n times this character.
    StrN(u32, char),
    /// Short for: a byte string of n bytes counted up from this.
    BinN(u32, u8),
    /// Short for: this, inside n arrays (or objects).
    Deep(u16, bool, Box<J>),
}

pub fn counted(n: u32, b: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_add(b)).collect()
}

impl J {
    /// What a short form stands for.
    fn long(&self) -> Option<J> {
        Some(match self {
            J::Many(n) => J::Arr((0..*n).map(|i| J::Bin(vec![i as u8])).collect()),
            J::StrN(n, c) => J::Str(c.to_string().repeat(*n as usize)),
            J::BinN(n, b) => J::Bin(counted(*n, *b)),
            J::Deep(n, obj, j) => (0..*n).fold((**j).clone(), |j, _| if *obj { J::Obj(vec![("a".into(), j)]) } else { J::Arr(vec![j]) }),
            _ => return None,
        })
    }
    pub fn has_bin(&self) -> bool {
        match self {
            J::Bin(_) | J::Ph(_) | J::BinN(..) => true,
            J::Many(n) => *n > 0,
            J::Deep(_, _, j) => j.has_bin(),
            J::Arr(v) => v.iter().any(J::has_bin),
            J::Obj(v) => v.iter().any(|(_, j)| j.has_bin()),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            J::Deep(n, _, j) => *n as usize + j.depth(),
            J::Arr(v) => 1 + v.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(v) => 1 + v.iter().map(|(_, j)| j.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// The JSON value a reader must see. `atts`: what placeholders stand for;
    /// Err(k): placeholder k is out of range.
    pub fn value(&self, atts: &[Vec<u8>]) -> Result<Value, u64> {
        Ok(match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(*b),
            J::U(n) => Value::from(*n),
            J::I(n) => Value::from(*n),
            J::F(n) => Value::from(*n as f64 / 8.0),
            J::Str(s) => Value::String(s.clone()),
            J::Arr(v) => Value::Array(v.iter().map(|j| j.value(atts)).collect::<Result<_, _>>()?),
            J::Obj(v) => {
                let mut m = serde_json::Map::new();
                for (k, j) in v {
                    m.insert(k.clone(), j.value(atts)?);
                }
                Value::Object(m)
            }
            J::Bin(b) => Value::Array(b.iter().map(|x| Value::from(*x)).collect()),
            J::Ph(k) => match usize::try_from(*k).ok().and_then(|k| atts.get(k)) {
                Some(b) => Value::Array(b.iter().map(|x| Value::from(*x)).collect()),
                None => return Err(*k),
            },
            short => return short.long().unwrap().value(atts),
        })
    }
}

/// Writes JSON the way some peer might: style 0 is JSON.stringify's compact
/// form, other styles add insignificant whitespace and alternative escapes.
pub struct Writer {
    pub out: String,
    pick: Pick,
    style: u64,
    plain: bool,
    /// Some: byte strings become placeholders and are collected here.
    pub atts: Option<Vec<Vec<u8>>>,
}

impl Writer {
    pub fn new(style: u64, binary: bool) -> Self {
        Writer { out: String::new(), pick: Pick::new(style), style, plain: style == 0, atts: if binary { Some(vec![]) } else { None } }
    }
    fn ws(&mut self) {
        if self.plain || !self.pick.one_in(4) {
            return;
        }
        for _ in 0..=self.pick.below(2) {
            let c = [' ', '\t', '\n', '\r'][self.pick.below(4) as usize];
            self.out.push(c);
        }
    }
    pub fn string(&mut self, s: &str) {
        self.string_with(s, true)
    }
    /// A member name; names that spell a number or boolean are written plainly
    /// (serde_json itself does not read an escaped digit as an integer key).
    pub fn key(&mut self, s: &str) {
        let plain = s == "true" || s == "false" || s.starts_with(|c: char| c == '-' || c.is_ascii_digit());
        self.string_with(s, !plain)
    }
    fn string_with(&mut self, s: &str, escapes: bool) {
        self.out.push('"');
        // A string is spelled the same way wherever it occurs.
        let mut pick = Pick::new(s.bytes().fold(self.style, |h, b| crate::runner::splitmix(h ^ b as u64)));
        for c in s.chars() {
            let mandatory = c == '"' || c == '\\' || (c as u32) < 0x20;
            let escape = mandatory || (escapes && !self.plain && pick.one_in(6));
            if !escape {
                self.out.push(c);
                continue;
            }
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(e) if self.plain || !pick.one_in(4) => {
                    self.out.push('\\');
                    self.out.push(e);
                }
                _ => {
                    let mut buf = [0u16; 2];
                    for u in c.encode_utf16(&mut buf) {
                        let upper = !self.plain && pick.one_in(2);
                        let h = if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) };
                        self.out.push_str(&h);
                    }
                }
            }
        }
        self.out.push('"');
    }
    fn placeholder(&mut self, k: u64) {
        // The member order is the one every reference encoder uses.
        self.out.push('{');
        self.ws();
        self.out.push_str("\"_placeholder\"");
        self.ws();
        self.out.push(':');
        self.ws();
        self.out.push_str("true");
        self.ws();
        self.out.push(',');
        self.ws();
        self.out.push_str("\"num\"");
        self.ws();
        self.out.push(':');
        self.ws();
        self.out.push_str(&k.to_string());
        self.ws();
        self.out.push('}');
    }
    pub fn value(&mut self, j: &J) {
        match j {
            J::Null => self.out.push_str("null"),
            J::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            J::U(n) => self.out.push_str(&n.to_string()),
            J::I(n) => self.out.push_str(&n.to_string()),
            J::F(n) => {
                let f = *n as f64 / 8.0;
                let s = format!("{f}");
                self.out.push_str(&s);
                if !s.contains('.') {
                    self.out.push_str(".0");
                }
            }
            J::Str(s) => self.string(s),
            J::Arr(v) => {
                self.out.push('[');
                self.ws();
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    self.value(j);
                    self.ws();
                }
                self.out.push(']');
            }
            J::Obj(v) => {
                self.out.push('{');
                self.ws();
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    self.key(k);
                    self.ws();
                    self.out.push(':');
                    self.ws();
                    self.value(j);
                    self.ws();
                }
                self.out.push('}');
            }
            J::Bin(b) => match &mut self.atts {
                Some(a) => {
                    a.push(b.clone());
                    let k = a.len() as u64 - 1;
                    self.placeholder(k);
                }
                None => {
                    let v: Vec<J> = b.iter().map(|x| J::U(*x as u64)).collect();
                    self.value(&J::Arr(v));
                }
            },
            J::Ph(k) => self.placeholder(*k),
            short => self.value(&short.long().unwrap()),
        }
    }
    /// The argument list; returns each argument's text.
    pub fn args(&mut self, args: &[J]) -> Vec<String> {
        let mut texts = vec![];
        self.out.push('[');
        self.ws();
        for (i, j) in args.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
                self.ws();
            }
            let start = self.out.len();
            self.value(j);
            texts.push(self.out[start..].to_string());
            self.ws();
        }
        self.out.push(']');
        texts
    }
}

pub fn style() -> BoxedStrategy<u64> {
    one_of![2 => Just(0u64), 3 => 1u64..1_000_000].boxed()
}

fn dedup(v: Vec<(String, J)>) -> J {
    let mut seen = std::collections::HashSet::new();
    J::Obj(v.into_iter().filter(|(k, _)| k != "_placeholder" && seen.insert(k.clone())).collect())
}

pub fn key() -> BoxedStrategy<String> {
    one_of![
        4 => prop::sample::select(vec!["a", "b", "key", "num", "data", "", "0", "1", "-7", "true", "x y", "é", "a\"b", "\\", "\n", "type", "args", "😀", "num\u{0}"]).prop_map(|s| s.to_string()),
        2 => text(6).prop_map(|s| if s == "_placeholder" { "place".into() } else { s }),
    ]
    .boxed()
}

/// JSON values; `bin` is the weight of byte strings.
pub fn json(bin: u32) -> BoxedStrategy<J> {
    let leaf = one_of![
        2 => Just(J::Null),
        2 => any::<bool>().prop_map(J::Bool),
        4 => id().prop_map(J::U),
        3 => one_of![-20i64..0, Just(i64::MIN), Just(-1i64), i64::MIN..0].prop_map(J::I),
        2 => any::<i32>().prop_map(J::F),
        6 => text(12).prop_map(J::Str),
        1 => Just(J::Arr(vec![])),
        1 => Just(J::Obj(vec![])),
        bin => bytes(12).prop_map(J::Bin),
    ];
    crate::one_of::nest(3, leaf.boxed(), |inner| {
        one_of![
            3 => vec(inner.clone(), 0..5).prop_map(J::Arr),
            3 => vec((key(), inner), 0..5).prop_map(dedup),
        ]
        .boxed()
    })
    .boxed()
}

pub fn json_args(bin: u32, min: usize, max: usize) -> BoxedStrategy<Vec<J>> {
    vec(json(bin), min..=max).boxed()
}

// ---------------------------------------------------------------- values of the serde data model

pub const NAMES: [&str; 10] = ["a", "b", "num", "data", "é\"k", "_p", "x y", "", "k\\n", "zz"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum S {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u64),
    /// 128 bits: high, low, signed
    Wide(u64, u64, bool),
    /// n/8 as f32
    F32(i16),
    /// n/8 as f64
    F64(i32),
    Nan,
    Char(char),
    Str(String),
    /// through collect_str
    Disp(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<S>),
    Unit,
    UnitStruct,
    /// What the serializer says about its format.
    Human,
    UnitVariant(u8),
    Newtype(Box<S>),
    NewtypeVariant(u8, Box<S>),
    /// elements, give a length hint
    Seq(Vec<S>, bool),
    U8Seq(Vec<u8>),
    Tuple(Vec<S>),
    TupleStruct(Vec<S>),
    TupleVariant(u8, Vec<S>),
    /// entries, give a length hint, use serialize_entry
    Map(Vec<(S, S)>, bool, bool),
    Struct(Vec<(u8, S)>),
    StructVariant(u8, Vec<(u8, S)>),
    /// serialization fails here
    Fail,
    /// (reference side only) a placeholder
    Ph(u64),
    /// Short for: a sequence of n one-byte byte strings.
    Many(u32),
    /// Short for: a text of n times this character.
    StrN(u32, char),
    /// Short for: a byte string of n bytes counted up from this.
    BytesN(u32, u8),
    /// Short for: this, inside n sequences (or maps).
    Deep(u16, bool, Box<S>),
}

fn nm(i: u8) -> &'static str {
    NAMES[i as usize % NAMES.len()]
}

/// Wrapper giving `S` the serialization it describes (the derived one is for
/// replay files).
pub struct Ser<'a>(pub &'a S);

#[derive(Serialize)]
struct RefPlaceholder {
    _placeholder: bool,
    num: u64,
}

impl<'a> Serialize for Ser<'a> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.0 {
            S::Bool(v) => z.serialize_bool(*v),
            S::I8(v) => z.serialize_i8(*v),
            S::I16(v) => z.serialize_i16(*v),
            S::I32(v) => z.serialize_i32(*v),
            S::I64(v) => z.serialize_i64(*v),
            S::I128(v) => z.serialize_i128(*v as i128),
            S::U8(v) => z.serialize_u8(*v),
            S::U16(v) => z.serialize_u16(*v),
            S::U32(v) => z.serialize_u32(*v),
            S::U64(v) => z.serialize_u64(*v),
            S::U128(v) => z.serialize_u128(*v as u128),
            S::Wide(h, l, true) => z.serialize_i128(((*h as u128) << 64 | *l as u128) as i128),
            S::Wide(h, l, false) => z.serialize_u128((*h as u128) << 64 | *l as u128),
            S::F32(v) => z.serialize_f32(*v as f32 / 8.0),
            S::F64(v) => z.serialize_f64(*v as f64 / 8.0),
            S::Nan => z.serialize_f64(f64::NAN),
            S::Char(v) => z.serialize_char(*v),
            S::Str(v) => z.serialize_str(v),
            S::Disp(v) => z.collect_str(v),
            S::Bytes(v) => z.serialize_bytes(v),
            S::None => z.serialize_none(),
            S::Some(v) => z.serialize_some(&Ser(v)),
            S::Unit => z.serialize_unit(),
            S::UnitStruct => z.serialize_unit_struct("U"),
            S::Human => {
                let h = z.is_human_readable();
                z.serialize_bool(h)
            }
            S::UnitVariant(n) => z.serialize_unit_variant("E", *n as u32, nm(*n)),
            S::Newtype(v) => z.serialize_newtype_struct("N", &Ser(v)),
            S::NewtypeVariant(n, v) => z.serialize_newtype_variant("E", *n as u32, nm(*n), &Ser(v)),
            S::Seq(v, hint) => {
                let mut s = z.serialize_seq(if *hint { Some(v.len()) } else { None })?;
                for x in v {
                    s.serialize_element(&Ser(x))?;
                }
                s.end()
            }
            S::U8Seq(v) => v.serialize(z),
            S::Tuple(v) => {
                let mut s = z.serialize_tuple(v.len())?;
                for x in v {
                    s.serialize_element(&Ser(x))?;
                }
                s.end()
            }
            S::TupleStruct(v) => {
                let mut s = z.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    s.serialize_field(&Ser(x))?;
                }
                s.end()
            }
            S::TupleVariant(n, v) => {
                let mut s = z.serialize_tuple_variant("E", *n as u32, nm(*n), v.len())?;
                for x in v {
                    s.serialize_field(&Ser(x))?;
                }
                s.end()
            }
            S::Map(v, hint, entry) => {
                let mut s = z.serialize_map(if *hint { Some(v.len()) } else { None })?;
                for (k, x) in v {
                    if *entry {
                        s.serialize_entry(&Ser(k), &Ser(x))?;
                    } else {
                        s.serialize_key(&Ser(k))?;
                        s.serialize_value(&Ser(x))?;
                    }
                }
                s.end()
            }
            S::Struct(v) => {
                let mut s = z.serialize_struct("S", v.len())?;
                for (n, x) in v {
                    s.serialize_field(nm(*n), &Ser(x))?;
                    s.skip_field("skipped")?;
                }
                s.end()
            }
            S::StructVariant(n, v) => {
                let mut s = z.serialize_struct_variant("E", *n as u32, nm(*n), v.len())?;
                for (n, x) in v {
                    s.serialize_field(nm(*n), &Ser(x))?;
                    s.skip_field("skipped")?;
                }
                s.end()
            }
            S::Fail => Err(ser::Error::custom("this value refuses to be serialized")),
            S::Many(_) | S::StrN(..) | S::BytesN(..) | S::Deep(..) => Ser(&self.0.long().unwrap()).serialize(z),
            S::Ph(n) => RefPlaceholder { _placeholder: true, num: *n }.serialize(z),
        }
    }
}

impl S {
    fn long(&self) -> Option<S> {
        Some(match self {
            S::Many(n) => S::Seq((0..*n).map(|i| S::Bytes(vec![i as u8])).collect(), true),
            S::StrN(n, c) => S::Str(c.to_string().repeat(*n as usize)),
            S::BytesN(n, b) => S::Bytes(counted(*n, *b)),
            S::Deep(n, map, s) => (0..*n).fold((**s).clone(), |s, _| if *map { S::Map(vec![(S::Str("a".into()), s)], true, false) } else { S::Seq(vec![s], true) }),
            _ => return None,
        })
    }
    /// The binary-mode reference: byte strings and non-empty all-u8 sequences
    /// become placeholders numbered from `atts.len()` in order of appearance.
    pub fn extract(&self, atts: &mut Vec<Vec<u8>>) -> S {
        fn put(b: Vec<u8>, atts: &mut Vec<Vec<u8>>) -> S {
            atts.push(b);
            S::Ph(atts.len() as u64 - 1)
        }
        let many = |v: &Vec<S>, atts: &mut Vec<Vec<u8>>| v.iter().map(|x| x.extract(atts)).collect::<Vec<_>>();
        match self {
            S::Bytes(b) => put(b.clone(), atts),
            S::U8Seq(b) if !b.is_empty() => put(b.clone(), atts),
            S::Seq(v, h) => {
                let b: Option<Vec<u8>> = v.iter().map(|x| if let S::U8(b) = x { Some(*b) } else { None }).collect();
                match b {
                    Some(b) if !b.is_empty() => put(b, atts),
                    _ => S::Seq(many(v, atts), *h),
                }
            }
            S::Some(v) => S::Some(Box::new(v.extract(atts))),
            S::Newtype(v) => S::Newtype(Box::new(v.extract(atts))),
            S::NewtypeVariant(n, v) => S::NewtypeVariant(*n, Box::new(v.extract(atts))),
            S::Tuple(v) => S::Tuple(many(v, atts)),
            S::TupleStruct(v) => S::TupleStruct(many(v, atts)),
            S::TupleVariant(n, v) => S::TupleVariant(*n, many(v, atts)),
            S::Map(v, h, e) => S::Map(v.iter().map(|(k, x)| (k.clone(), x.extract(atts))).collect(), *h, *e),
            S::Struct(v) => S::Struct(v.iter().map(|(k, x)| (*k, x.extract(atts))).collect()),
            S::StructVariant(n, v) => S::StructVariant(*n, v.iter().map(|(k, x)| (*k, x.extract(atts))).collect()),
            S::Many(_) | S::BytesN(..) | S::Deep(..) => self.long().unwrap().extract(atts),
            other => other.clone(),
        }
    }
    pub fn any(&self, f: &dyn Fn(&S) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            S::Some(v) | S::Newtype(v) | S::NewtypeVariant(_, v) | S::Deep(_, _, v) => v.any(f),
            S::Seq(v, _) | S::Tuple(v) | S::TupleStruct(v) | S::TupleVariant(_, v) => v.iter().any(|x| x.any(f)),
            S::Map(v, _, _) => v.iter().any(|(k, x)| k.any(f) || x.any(f)),
            S::Struct(v) | S::StructVariant(_, v) => v.iter().any(|(_, x)| x.any(f)),
            _ => false,
        }
    }
    pub fn mixed_u8_seq(&self) -> bool {
        self.any(&|s| matches!(s, S::Seq(v, _) if v.len() > 1 && matches!(v[0], S::U8(_)) && !v.iter().all(|x| matches!(x, S::U8(_)))))
    }
}

fn uniq_fields(v: Vec<(u8, S)>) -> Vec<(u8, S)> {
    let mut seen = [false; NAMES.len()];
    v.into_iter()
        .filter(|(n, _)| {
            let i = *n as usize % NAMES.len();
            !std::mem::replace(&mut seen[i], true)
        })
        .collect()
}

fn good_key() -> BoxedStrategy<S> {
    one_of![
        5 => key().prop_filter("placeholder key", |k| k != "_placeholder").prop_map(S::Str),
        1 => text(5).prop_filter("placeholder key", |k| k != "_placeholder").prop_map(S::Disp),
        2 => any::<u8>().prop_map(S::U8),
        1 => any::<i64>().prop_map(S::I64),
        1 => any::<u64>().prop_map(S::U64),
        1 => any::<i8>().prop_map(S::I8),
        1 => any::<u32>().prop_map(S::U32),
        1 => ch().prop_map(S::Char),
        1 => any::<u8>().prop_map(S::UnitVariant),
        1 => text(4).prop_filter("placeholder key", |k| k != "_placeholder").prop_map(|s| S::Newtype(Box::new(S::Str(s)))),
    ]
    .boxed()
}

fn bad_key() -> BoxedStrategy<S> {
    one_of![
        Just(S::Unit),
        Just(S::Fail),
        bytes(4).prop_map(S::Bytes),
        bytes(4).prop_map(S::U8Seq),
        Just(S::Seq(vec![], true)),
        Just(S::Tuple(vec![S::U8(1)])),
        Just(S::Struct(vec![])),
        Just(S::NewtypeVariant(1, Box::new(S::U8(1)))),
    ]
    .boxed()
}

pub fn s_leaf() -> BoxedStrategy<S> {
    one_of![
        1 => any::<bool>().prop_map(S::Bool),
        1 => any::<i8>().prop_map(S::I8),
        1 => any::<i16>().prop_map(S::I16),
        1 => any::<i32>().prop_map(S::I32),
        1 => any::<i64>().prop_map(S::I64),
        1 => any::<i64>().prop_map(S::I128),
        4 => any::<u8>().prop_map(S::U8),
        1 => any::<u16>().prop_map(S::U16),
        1 => any::<u32>().prop_map(S::U32),
        2 => id().prop_map(S::U64),
        1 => id().prop_map(S::U128),
        1 => (id(), id(), any::<bool>()).prop_map(|(h, l, s)| S::Wide(h, l, s)),
        1 => any::<i16>().prop_map(S::F32),
        1 => any::<i32>().prop_map(S::F64),
        1 => Just(S::Nan),
        1 => ch().prop_map(S::Char),
        4 => text(10).prop_map(S::Str),
        1 => text(6).prop_map(S::Disp),
        5 => bytes(10).prop_map(S::Bytes),
        5 => bytes(10).prop_map(S::U8Seq),
        1 => Just(S::None),
        1 => Just(S::Unit),
        1 => Just(S::UnitStruct),
        1 => Just(S::Human),
        1 => any::<u8>().prop_map(S::UnitVariant),
    ]
    .boxed()
}

/// Values that serialize to JSON (`fail` = 0) or also values that fail
/// somewhere inside.
pub fn s_value(fail: u32) -> BoxedStrategy<S> {
    let leaf = one_of![40 => s_leaf(), fail => Just(S::Fail)];
    crate::one_of::nest(3, leaf.boxed(), move |inner| {
        let k = one_of![30 => good_key(), fail => bad_key()].boxed();
        one_of![
            2 => inner.clone().prop_map(|v| S::Some(Box::new(v))),
            1 => inner.clone().prop_map(|v| S::Newtype(Box::new(v))),
            1 => (any::<u8>(), inner.clone()).prop_map(|(n, v)| S::NewtypeVariant(n, Box::new(v))),
            3 => (vec(inner.clone(), 0..5), any::<bool>()).prop_map(|(v, h)| S::Seq(v, h)),
            // u8 values followed by something else
            2 => (vec(any::<u8>().prop_map(S::U8), 0..4), vec(inner.clone(), 0..3), vec(any::<u8>().prop_map(S::U8), 0..3), any::<bool>())
                .prop_map(|(a, b, c, h)| S::Seq(a.into_iter().chain(b).chain(c).collect(), h)),
            1 => vec(inner.clone(), 0..5).prop_map(S::Tuple),
            1 => vec(inner.clone(), 0..4).prop_map(S::TupleStruct),
            1 => (any::<u8>(), vec(inner.clone(), 0..4)).prop_map(|(n, v)| S::TupleVariant(n, v)),
            3 => (vec((k, inner.clone()), 0..4), any::<bool>(), any::<bool>()).prop_map(|(v, h, e)| S::Map(uniq_keys(v), h, e)),
            3 => vec((any::<u8>(), inner.clone()), 0..5).prop_map(|v| S::Struct(uniq_fields(v))),
            1 => (any::<u8>(), vec((any::<u8>(), inner), 0..4)).prop_map(|(n, v)| S::StructVariant(n, uniq_fields(v))),
        ]
        .boxed()
    })
    .boxed()
}

/// Keep the first entry of each key text (a JSON reader keeps only one anyway).
fn uniq_keys(v: Vec<(S, S)>) -> Vec<(S, S)> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter()
        .filter(|(k, _)| match serde_json::to_string(&Ser(&S::Map(vec![(k.clone(), S::Unit)], true, false))) {
            Ok(t) => seen.insert(t),
            Err(_) => true,
        })
        .collect()
}
