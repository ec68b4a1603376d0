//! A family of target types for typed reads, each with the shape of the JSON
//! it expects.
use crate::gen::{self, J};
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::de::{self, Visitor};
use serde::{Deserialize, Deserializer};
use serde_json::Value;
use socket_io_protocol::socket::Arg;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

/// Shape of the JSON a type reads.
#[derive(Clone)]
pub enum Sch {
    Any,
    Null,
    Bool,
    U(u64),
    I,
    F,
    Str,
    Word(&'static [&'static str]),
    Char,
    /// bytes of a length between
    Bytes(usize, usize),
    List(Box<Sch>),
    Tup(Vec<Sch>),
    /// (name, always present, shape)
    Obj(Vec<(&'static str, bool, Sch)>),
    MapOf(Key, Box<Sch>),
    Opt(Box<Sch>),
    OneOf(Vec<Sch>),
    /// shape 1 with the members of a free map mixed in
    ObjAnd(Vec<(&'static str, bool, Sch)>, Box<Sch>),
}

#[derive(Clone, Copy)]
pub enum Key {
    Text,
    Int,
    Bool,
    Char,
    Word(&'static [&'static str]),
}

impl Sch {
    /// A text target inside: placeholders must stay away, since text targets
    /// also take a placeholder's bytes.
    pub fn has_text(&self) -> bool {
        match self {
            Sch::Str => true,
            Sch::List(s) | Sch::MapOf(_, s) | Sch::Opt(s) => s.has_text(),
            Sch::Tup(v) | Sch::OneOf(v) => v.iter().any(Sch::has_text),
            Sch::Obj(v) => v.iter().any(|x| x.2.has_text()),
            Sch::ObjAnd(v, s) => s.has_text() || v.iter().any(|x| x.2.has_text()),
            _ => false,
        }
    }
    pub fn gen(&self) -> BoxedStrategy<J> {
        let bin = if self.has_text() { 0 } else { 3 };
        self.gen_with(bin)
    }
    fn gen_with(&self, bin: u32) -> BoxedStrategy<J> {
        let exact: BoxedStrategy<J> = match self {
            Sch::Any => return if bin > 0 { gen::json(4) } else { gen::json(0) },
            Sch::Null => Just(J::Null).boxed(),
            Sch::Bool => any::<bool>().prop_map(J::Bool).boxed(),
            Sch::U(max) => {
                let max = *max;
                one_of![6 => (0..=max).prop_map(J::U), 1 => Just(J::U(max)), 1 => gen::id().prop_map(J::U)].boxed()
            }
            Sch::I => one_of![any::<i32>().prop_map(|n| if n < 0 { J::I(n as i64) } else { J::U(n as u64) }), (i64::MIN..0).prop_map(J::I)].boxed(),
            Sch::F => one_of![any::<i32>().prop_map(J::F), (0u64..100).prop_map(J::U)].boxed(),
            Sch::Str => gen::text(10).prop_map(J::Str).boxed(),
            Sch::Word(w) => prop::sample::select(w.to_vec()).prop_map(|s| J::Str(s.to_string())).boxed(),
            Sch::Char => gen::ch().prop_map(|c| J::Str(c.to_string())).boxed(),
            Sch::Bytes(a, b) => {
                let (a, b) = (*a, *b);
                let plain = vec(any::<u8>(), a..=b).prop_map(|v| J::Arr(v.into_iter().map(|x| J::U(x as u64)).collect())).boxed();
                // Lengths next to the wanted ones too.
                let near = vec(any::<u8>(), a.saturating_sub(1)..=b + 2).prop_map(J::Bin).boxed();
                let att = vec(any::<u8>(), a..=b).prop_map(J::Bin).boxed();
                one_of![4 => att, 2 => near, 2 => plain].boxed()
            }
            Sch::List(s) => vec(s.gen_with(bin), 0..4).prop_map(J::Arr).boxed(),
            Sch::Tup(v) => v.iter().map(|s| s.gen_with(bin)).collect::<Vec<_>>().prop_map(J::Arr).boxed(),
            Sch::Obj(v) => obj(v, bin),
            Sch::MapOf(k, s) => map_of(*k, s, bin),
            Sch::Opt(s) => one_of![1 => Just(J::Null), 3 => s.gen_with(bin)].boxed(),
            Sch::OneOf(v) => proptest::strategy::Union::new(v.iter().map(|s| s.gen_with(bin)).collect::<Vec<_>>()).boxed(),
            Sch::ObjAnd(v, s) => (obj(v, bin), map_of(Key::Text, s, bin), any::<bool>())
                .prop_map(|(a, b, first)| {
                    let (J::Obj(a), J::Obj(b)) = (a, b) else { unreachable!() };
                    let (x, y) = if first { (a, b) } else { (b, a) };
                    uniq(x.into_iter().chain(y).collect())
                })
                .boxed(),
        };
        one_of![20 => exact, 1 => gen::json(bin)].boxed()
    }
}

fn uniq(v: Vec<(String, J)>) -> J {
    let mut seen = std::collections::HashSet::new();
    J::Obj(v.into_iter().filter(|(k, _)| k != "_placeholder" && seen.insert(k.clone())).collect())
}

fn obj(v: &[(&'static str, bool, Sch)], bin: u32) -> BoxedStrategy<J> {
    let fields: Vec<BoxedStrategy<Option<(String, J)>>> = v
        .iter()
        .map(|(n, req, s)| {
            let n = n.to_string();
            let present = s.gen_with(bin).prop_map(move |j| Some((n.clone(), j)));
            if *req {
                one_of![40 => present, 1 => Just(None)].boxed()
            } else {
                one_of![3 => present, 2 => Just(None)].boxed()
            }
        })
        .collect();
    let extra = one_of![6 => Just(None), 1 => (gen::key(), gen::json(bin)).prop_map(Some)];
    let extra_first = any::<bool>();
    (fields, extra, any::<u64>(), extra_first)
        .prop_map(|(f, x, rot, extra_first)| {
            let mut f: Vec<(String, J)> = f.into_iter().flatten().collect();
            if !f.is_empty() && rot % 3 == 0 {
                let n = f.len();
                f.rotate_left((rot / 3) as usize % n);
            }
            if let Some(x) = x {
                if extra_first {
                    f.insert(0, x)
                } else {
                    f.push(x)
                }
            }
            uniq(f)
        })
        .boxed()
}

fn map_of(k: Key, s: &Sch, bin: u32) -> BoxedStrategy<J> {
    let key: BoxedStrategy<String> = match k {
        Key::Text => gen::key(),
        Key::Int => one_of![
            6 => (0u8..=255).prop_map(|n| n.to_string()),
            2 => any::<i64>().prop_map(|n| n.to_string()),
            2 => prop::sample::select(vec!["-1", "256", "00", "1.0", "1e2", "+1", " 1", "1 ", "", "x", "-", "18446744073709551615", "18446744073709551616", "-0", "1.5"]).prop_map(|s| s.to_string())
        ]
        .boxed(),
        Key::Bool => prop::sample::select(vec!["true", "false", "true", "false", "1", "True", "tru", "true ", "null"]).prop_map(|s| s.to_string()).boxed(),
        Key::Char => one_of![5 => gen::ch().prop_map(|c| c.to_string()), 1 => gen::text(3)].boxed(),
        Key::Word(w) => one_of![8 => prop::sample::select(w.to_vec()).prop_map(|s| s.to_string()), 1 => gen::text(4)].boxed(),
    };
    vec((key, s.gen_with(bin)), 0..4).prop_map(uniq).boxed()
}

fn o(v: Vec<(&'static str, bool, Sch)>) -> Sch {
    Sch::Obj(v)
}
fn l(s: Sch) -> Sch {
    Sch::List(Box::new(s))
}
fn m(k: Key, s: Sch) -> Sch {
    Sch::MapOf(k, Box::new(s))
}
fn opt(s: Sch) -> Sch {
    Sch::Opt(Box::new(s))
}
fn u8s() -> Sch {
    Sch::Bytes(0, 6)
}

// ---------------------------------------------------------------- the types

/// An owned byte string, as serde_bytes::ByteBuf.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
pub struct Buf(pub Vec<u8>);

struct BufVisitor;
impl<'de> Visitor<'de> for BufVisitor {
    type Value = Buf;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Buf, E> {
        Ok(Buf(v.to_vec()))
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Buf, E> {
        Ok(Buf(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Buf, E> {
        Ok(Buf(v.as_bytes().to_vec()))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Buf, A::Error> {
        let mut v = vec![];
        while let Some(b) = seq.next_element()? {
            v.push(b)
        }
        Ok(Buf(v))
    }
}
impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(BufVisitor)
    }
}
impl serde::Serialize for Buf {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
/// The same through deserialize_bytes.
#[derive(Debug)]
pub struct Buf2(#[allow(dead_code)] Buf);
impl<'de> Deserialize<'de> for Buf2 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_bytes(BufVisitor).map(Buf2)
    }
}

macro_rules! quiet { ($($i:item)*) => { $( #[allow(dead_code)] $i )* } }
quiet! {
    #[derive(Debug, Deserialize)]
    struct Unit;
    #[derive(Debug, Deserialize)]
    struct New(Vec<u8>);
    #[derive(Debug, Deserialize)]
    struct NewInt(u32);
    #[derive(Debug, Deserialize)]
    #[serde(transparent)]
    struct Transparent { x: BTreeMap<String, Value> }
    #[derive(Debug, Deserialize)]
    struct Pair(u8, u8);
    #[derive(Debug, Deserialize)]
    struct Triple(Vec<u8>, Value, Option<Buf>);
    #[derive(Debug, Deserialize)]
    struct Xy { x: u8, y: u8 }
    #[derive(Debug, Deserialize)]
    #[serde(default)]
    #[derive(Default)]
    struct Defaulted { x: u8, data: Vec<u8>, z: Option<u64> }
    #[derive(Debug, Deserialize)]
    #[serde(deny_unknown_fields)]
    struct Strict { data: Buf, #[serde(default)] num: Option<u64> }
    #[derive(Debug, Deserialize)]
    struct Renamed { #[serde(rename = "_p")] p: Buf, #[serde(rename = "a\"b", default)] q: Option<Vec<u8>>, #[serde(alias = "zz", default)] r: u8 }
    #[derive(Debug, Deserialize)]
    struct Nested { head: Option<Xy>, items: Vec<Strict>, arr: [u8; 4], rest: Value, dead: de::IgnoredAny }
    #[derive(Debug, Deserialize)]
    struct Texts { label: String, lines: Vec<String>, note: Option<String> }
    #[derive(Debug, Deserialize)]
    struct Borrowed<'a> { label: &'a str, #[serde(borrow)] alt: Option<Cow<'a, str>> }
    #[derive(Debug, Deserialize)]
    struct Flat { x: u8, #[serde(flatten)] rest: BTreeMap<String, Value> }
    #[derive(Debug, Deserialize)]
    struct Flat2 { data: Vec<u8>, #[serde(flatten)] xy: Option<Xy>, #[serde(flatten)] s: Strict2 }
    #[derive(Debug, Deserialize)]
    struct Strict2 { num: Option<u64>, buf: Buf }
    #[derive(Debug, Deserialize)]
    enum Ext { A, B(Vec<u8>), C(u8, Buf), D { x: u8, data: Vec<u8> }, E(Xy), #[serde(rename = "F g")] F(Option<Buf>), G() }
    #[derive(Debug, Deserialize)]
    #[serde(tag = "type")]
    enum Int { A, B { data: Vec<u8> }, C(Xy), D { rest: Value } }
    #[derive(Debug, Deserialize)]
    #[serde(tag = "type", content = "args")]
    enum Adj { A, B(Vec<u8>), C(u8, Buf), D { data: Vec<u8> } }
    #[derive(Debug, Deserialize)]
    #[serde(untagged)]
    enum Unt { N(u64), Xy(Xy), M(BTreeMap<String, Unt>), B(Vec<u8>), L(Vec<Unt>), Z(Option<bool>) }
    #[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
    enum Word { #[serde(rename = "red")] Red, #[serde(rename = "gr een")] Green, #[serde(rename = "bl\"ue")] Blue }
    #[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
    struct KeyNew(u32);
    #[derive(Debug, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
    struct KeyStr(String);
    #[derive(Debug, Deserialize)]
    struct Tree { kids: Vec<Tree>, data: Option<Buf> }
}

/// Takes whatever it is given, and says what that was.
struct Anything;
impl<'de> Visitor<'de> for Anything {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<String, E> {
        Ok(v.to_string())
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(format!("{v:?}"))
    }
    fn visit_unit<E: de::Error>(self) -> Result<String, E> {
        Ok("null".into())
    }
    fn visit_none<E: de::Error>(self) -> Result<String, E> {
        Ok("none".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Ok(format!("some {}", d.deserialize_any(Anything)?))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Ok(format!("new {}", d.deserialize_any(Anything)?))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut s = String::from("[");
        while let Some(v) = a.next_element::<AskAny>()? {
            s.push_str(&v.0);
            s.push(',');
        }
        Ok(s + "]")
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut s = String::from("{");
        while let Some((k, v)) = a.next_entry::<String, AskAny>()? {
            s.push_str(&format!("{k:?}:{},", v.0));
        }
        Ok(s + "}")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        use de::VariantAccess;
        let (v, c): (String, _) = a.variant()?;
        Ok(format!("{v}({})", c.newtype_variant::<AskAny>()?.0))
    }
}
macro_rules! ask {
    ($($t:ident $m:ident($($a:expr),*);)*) => { $(
        #[derive(Debug)]
        pub struct $t(String);
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                d.$m($($a,)* Anything).map($t)
            }
        }
    )* }
}
ask! {
    AskAny deserialize_any();
    AskI8 deserialize_i8();
    AskU64 deserialize_u64();
    AskF32 deserialize_f32();
    AskI128 deserialize_i128();
}

/// What the deserializer says about its format, and the value.
#[derive(Debug)]
pub struct Hum(pub bool, pub Value);
impl<'de> Deserialize<'de> for Hum {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hum, D::Error> {
        let h = d.is_human_readable();
        Ok(Hum(h, Value::deserialize(d)?))
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct KeyHum(bool, String);
impl<'de> Deserialize<'de> for KeyHum {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<KeyHum, D::Error> {
        let h = d.is_human_readable();
        Ok(KeyHum(h, String::deserialize(d)?))
    }
}
#[derive(Debug, Deserialize)]
pub struct HumIn { #[allow(unused)] a: Hum, #[serde(default)] #[allow(unused)] b: Option<Hum> }
#[derive(Debug, Deserialize)]
#[allow(unused)]
pub enum HumOf { A(Hum), B { h: Hum }, C(u8, Hum) }
#[derive(Debug, Deserialize)]
#[serde(tag = "type", content = "args")]
#[allow(unused)]
pub enum HumAdj { A(Hum), B { h: Hum } }

/// Bytes, or a list of values without byte strings.
fn asked() -> Sch {
    Sch::OneOf(vec![u8s(), l(Sch::OneOf(vec![Sch::U(300), Sch::Null, Sch::Bool, Sch::F, Sch::Char, l(Sch::Bool), o(vec![("A", true, Sch::U(300))])]))])
}

const IPS: &[&str] = &["127.0.0.1", "::1", "255.255.255.255", "2001:db8::ff00:42:8329", "1.2.3", ""];

fn ip() -> Sch {
    Sch::OneOf(vec![Sch::Word(IPS), Sch::Word(IPS), Sch::Str, o(vec![("V4", true, Sch::Bytes(4, 4))]), Sch::Bytes(4, 4)])
}

const WORDS: &[&str] = &["red", "gr een", "bl\"ue"];

fn tree_sch() -> Sch {
    let leaf = o(vec![("kids", true, l(Sch::Null)), ("data", false, opt(u8s()))]);
    let mid = o(vec![("kids", true, l(leaf)), ("data", false, opt(u8s()))]);
    o(vec![("data", false, opt(u8s())), ("kids", true, l(mid))])
}

pub struct Ty {
    pub name: &'static str,
    /// Debug form of the value read, or None when the read fails.
    pub from_arg: fn(&Arg) -> Option<String>,
    pub from_json: fn(&str) -> Option<String>,
    pub sch: fn() -> Sch,
}

macro_rules! table {
    ($( $t:ty => $s:expr ; )*) => {
        pub fn table() -> Vec<Ty> {
            vec![ $( Ty {
                name: stringify!($t),
                from_arg: |a| a.deserialize::<$t>().ok().map(|v| format!("{:?}", v)),
                from_json: |s| serde_json::from_str::<$t>(s).ok().map(|v| format!("{:?}", v)),
                sch: || $s,
            } ),* ]
        }
    }
}

table! {
    Value => Sch::Any;
    de::IgnoredAny => Sch::Any;
    () => Sch::Null;
    bool => Sch::Bool;
    u8 => Sch::U(255);
    i16 => Sch::U(32767);
    u64 => Sch::U(u64::MAX);
    i64 => Sch::I;
    i128 => Sch::I;
    u128 => Sch::U(u64::MAX);
    f32 => Sch::F;
    f64 => Sch::F;
    char => Sch::Char;
    String => Sch::Str;
    &str => Sch::Str;
    Cow<str> => Sch::Str;
    Box<str> => Sch::Str;
    serde_json::Number => Sch::OneOf(vec![Sch::F, Sch::I]);
    Vec<u8> => u8s();
    Vec<u16> => u8s();
    Vec<f64> => u8s();
    Vec<Value> => l(Sch::Any);
    BTreeSet<u8> => u8s();
    Box<[u8]> => u8s();
    [u8; 0] => Sch::Bytes(0, 0);
    [u8; 1] => Sch::Bytes(1, 1);
    [u8; 3] => Sch::Bytes(3, 3);
    (u8, u8) => Sch::Bytes(2, 2);
    (u8, Value, u8) => Sch::OneOf(vec![Sch::Bytes(3, 3), Sch::Tup(vec![Sch::U(255), Sch::Any, Sch::U(255)])]);
    Buf => u8s();
    Buf2 => u8s();
    Option<Vec<u8>> => opt(u8s());
    Option<Buf> => opt(u8s());
    Option<Option<u8>> => opt(Sch::U(255));
    Option<()> => Sch::Null;
    Vec<Option<Buf>> => l(opt(u8s()));
    Vec<Vec<u8>> => l(u8s());
    Vec<Option<u8>> => u8s();
    Vec<NewInt> => u8s();
    Vec<i128> => u8s();
    Vec<Unt> => u8s();
    Vec<Option<NewInt>> => u8s();
    BTreeSet<Option<Option<u16>>> => u8s();
    (Option<u8>, NewInt) => Sch::Bytes(2, 2);
    Option<[Option<u8>; 2]> => opt(Sch::Bytes(2, 2));
    Vec<serde_json::Number> => u8s();
    Vec<Word> => u8s();
    Vec<[u8; 2]> => l(Sch::Bytes(2, 2));
    (Buf, Vec<u8>, [u8; 2]) => Sch::Tup(vec![u8s(), u8s(), Sch::Bytes(2, 2)]);
    Unit => Sch::Null;
    New => u8s();
    NewInt => Sch::U(u32::MAX as u64);
    Transparent => m(Key::Text, Sch::Any);
    Pair => Sch::Bytes(2, 2);
    Triple => Sch::Tup(vec![u8s(), Sch::Any, opt(u8s())]);
    Xy => Sch::OneOf(vec![o(vec![("x", true, Sch::U(255)), ("y", true, Sch::U(255))]), Sch::Bytes(2, 2)]);
    Defaulted => o(vec![("x", false, Sch::U(255)), ("data", false, u8s()), ("z", false, opt(Sch::U(9)))]);
    Strict => o(vec![("num", false, opt(Sch::U(9))), ("data", true, u8s())]);
    Renamed => o(vec![("_p", true, u8s()), ("a\"b", false, opt(u8s())), ("zz", false, Sch::U(255))]);
    Nested => o(vec![
        ("head", false, opt(o(vec![("x", true, Sch::U(255)), ("y", true, Sch::U(255))]))),
        ("items", true, l(o(vec![("data", true, u8s()), ("num", false, opt(Sch::U(9)))]))),
        ("arr", true, Sch::Bytes(4, 4)),
        ("rest", true, Sch::Any),
        ("dead", true, Sch::Any),
    ]);
    Tree => tree_sch();
    Texts => o(vec![("label", true, Sch::Str), ("lines", true, l(Sch::Str)), ("note", false, opt(Sch::Str))]);
    Borrowed => o(vec![("label", true, Sch::Str), ("alt", false, opt(Sch::Str))]);
    Flat => Sch::ObjAnd(vec![("x", true, Sch::U(255))], Box::new(Sch::Any));
    Flat2 => o(vec![("data", true, u8s()), ("buf", true, u8s()), ("x", false, Sch::U(255)), ("y", false, Sch::U(255)), ("num", false, Sch::U(9))]);
    Ext => Sch::OneOf(vec![
        Sch::Word(&["A", "B", "F g", "Z"]),
        o(vec![("A", true, Sch::Null)]),
        o(vec![("B", true, u8s())]),
        o(vec![("C", true, Sch::OneOf(vec![Sch::Tup(vec![Sch::U(255), u8s()]), Sch::Bytes(2, 2)]))]),
        o(vec![("D", true, Sch::OneOf(vec![o(vec![("x", true, Sch::U(255)), ("data", true, u8s())]), Sch::Tup(vec![Sch::U(255), u8s()]), Sch::Bytes(2, 2)]))]),
        o(vec![("E", true, Sch::OneOf(vec![o(vec![("x", true, Sch::U(255)), ("y", true, Sch::U(255))]), Sch::Bytes(2, 2)]))]),
        o(vec![("F g", true, opt(u8s()))]),
        o(vec![("G", true, Sch::Bytes(0, 0))]),
    ]);
    Int => Sch::OneOf(vec![
        o(vec![("type", true, Sch::Word(&["A", "B", "C", "D"])), ("data", false, u8s()), ("x", false, Sch::U(255)), ("y", false, Sch::U(255)), ("rest", false, Sch::Any)]),
        o(vec![("type", true, Sch::Word(&["B"])), ("data", true, u8s())]),
        o(vec![("type", true, Sch::Word(&["C"])), ("x", true, Sch::U(255)), ("y", true, Sch::U(255))]),
        o(vec![("rest", true, Sch::Any), ("type", true, Sch::Word(&["D"]))]),
    ]);
    Adj => Sch::OneOf(vec![
        o(vec![("type", true, Sch::Word(&["A"]))]),
        o(vec![("type", true, Sch::Word(&["B"])), ("args", true, u8s())]),
        o(vec![("type", true, Sch::Word(&["C"])), ("args", true, Sch::Tup(vec![Sch::U(255), u8s()]))]),
        o(vec![("type", true, Sch::Word(&["D"])), ("args", true, o(vec![("data", true, u8s())]))]),
    ]);
    Unt => Sch::OneOf(vec![
        Sch::U(300), Sch::Null, Sch::Bool, u8s(), l(u8s()),
        o(vec![("x", true, Sch::U(255)), ("y", true, Sch::U(255))]),
        m(Key::Text, Sch::OneOf(vec![u8s(), Sch::U(9), l(Sch::Bool), m(Key::Text, u8s())])),
    ]);
    Word => Sch::Word(WORDS);
    Vec<Word> => l(Sch::Word(WORDS));
    BTreeMap<String, Value> => m(Key::Text, Sch::Any);
    BTreeMap<String, Buf> => m(Key::Text, u8s());
    BTreeMap<&str, Buf> => m(Key::Text, u8s());
    BTreeMap<Cow<str>, Value> => m(Key::Text, Sch::Any);
    BTreeMap<u8, Vec<u8>> => m(Key::Int, u8s());
    BTreeMap<i64, Value> => m(Key::Int, Sch::Any);
    BTreeMap<u64, Buf> => m(Key::Int, u8s());
    BTreeMap<i128, u8> => m(Key::Int, Sch::U(255));
    BTreeMap<bool, Buf> => m(Key::Bool, u8s());
    BTreeMap<char, Buf> => m(Key::Char, u8s());
    BTreeMap<Word, Buf> => m(Key::Word(WORDS), u8s());
    BTreeMap<KeyNew, Buf> => m(Key::Int, u8s());
    BTreeMap<KeyStr, Buf> => m(Key::Text, u8s());
    BTreeMap<Option<String>, Buf> => m(Key::Text, u8s());
    BTreeMap<Option<u16>, Buf> => m(Key::Int, u8s());
    BTreeMap<Buf, Buf> => m(Key::Text, u8s());
    BTreeMap<(), Buf> => m(Key::Text, u8s());
    Vec<BTreeMap<u8, Ext>> => l(m(Key::Int, Sch::OneOf(vec![o(vec![("B", true, u8s())]), Sch::Word(&["A"])])));
    Option<BTreeMap<String, BTreeMap<i8, Vec<u8>>>> => opt(m(Key::Text, m(Key::Int, u8s())));
    Hum => Sch::Any;
    Vec<Hum> => l(Sch::Any);
    Option<Hum> => opt(Sch::Any);
    (Hum, Hum) => Sch::OneOf(vec![Sch::Tup(vec![Sch::Any, Sch::Any]), Sch::Bytes(2, 2)]);
    BTreeMap<KeyHum, Hum> => m(Key::Text, Sch::Any);
    HumIn => o(vec![("a", true, Sch::Any), ("b", false, opt(Sch::Any))]);
    HumOf => Sch::OneOf(vec![o(vec![("A", true, Sch::Any)]), o(vec![("B", true, o(vec![("h", true, Sch::Any)]))]), o(vec![("C", true, Sch::Tup(vec![Sch::U(255), Sch::Any]))])]);
    HumAdj => Sch::OneOf(vec![o(vec![("type", true, Sch::Word(&["A"])), ("args", true, Sch::Any)]), o(vec![("type", true, Sch::Word(&["B"])), ("args", true, o(vec![("h", true, Sch::Any)]))])]);
    std::net::IpAddr => ip();
    Vec<std::net::Ipv4Addr> => l(ip());
    BTreeMap<String, std::net::IpAddr> => m(Key::Text, ip());
    std::time::Duration => o(vec![("secs", true, Sch::U(u64::MAX)), ("nanos", true, Sch::U(2_000_000_000))]);
    std::ops::Range<Vec<u8>> => o(vec![("start", true, u8s()), ("end", true, u8s())]);
    Result<Buf, u8> => Sch::OneOf(vec![o(vec![("Ok", true, u8s())]), o(vec![("Err", true, Sch::U(255))])]);
    std::ops::Bound<Buf> => Sch::OneOf(vec![o(vec![("Included", true, u8s())]), o(vec![("Excluded", true, u8s())]), Sch::Word(&["Unbounded"])]);
    std::collections::VecDeque<u8> => u8s();
    Vec<std::num::NonZeroU8> => u8s();
    std::num::Wrapping<u8> => Sch::U(255);
    Option<std::ffi::CString> => opt(u8s());
    [u8; 32] => Sch::Bytes(32, 32);
    std::marker::PhantomData<u8> => Sch::Null;
    Vec<Box<Value>> => l(Sch::Any);
    std::cell::Cell<u8> => Sch::U(255);
    AskAny => Sch::Any;
    Vec<AskI8> => asked();
    Vec<AskU64> => asked();
    Vec<AskF32> => asked();
    Vec<AskI128> => asked();
}
