//! C10: OwnedSubslice against plain slices.
use crate::gen;
use crate::runner::{CheckResult, Covered, Part, Tier};
use crate::Property;
use owned_subslice::OwnedSubslice;
use proptest::collection::vec;
use crate::one_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Fractions (of 65536) of the current length; the last says how far the
    /// end is put beyond the current end (0: inside).
    Sub(u16, u16, End),
    /// Keep a clone for later comparison.
    Clone,
    /// Go on with a clone.
    Swap,
    /// Write: element index fraction and what.
    Write(u16, u8),
    /// Change every element.
    WriteAll(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    Inside,
    AtEnd,
    Beyond(u16),
    NearMax(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Container {
    Text(String),
    Bytes(Vec<u8>),
    Ints(Vec<i32>),
    Texts(Vec<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    data: Container,
    /// None: through From.
    range: Option<(u16, u16)>,
    ops: Vec<Op>,
    /// Where the equal slice elsewhere lies, and what is written into it.
    #[serde(default)]
    twin: u32,
}

fn frac(f: u16, n: usize) -> usize {
    // 0..=n
    (f as usize * (n + 1)) >> 16
}

fn floor_char(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

trait Kind: Clone + std::ops::IndexMut<std::ops::Range<usize>> + Into<OwnedSubslice<Self>>
where
    Self::Output: PartialEq + Debug,
{
    fn len(&self) -> usize;
    fn floor(&self, i: usize) -> usize;
    /// A container holding the slice after `pre` other elements and before
    /// `post` more.
    fn embed(o: &Self::Output, pre: usize, post: usize) -> Self;
    fn write(o: &mut Self::Output, at: u16, v: u8);
    fn write_all(o: &mut Self::Output, v: u8);
    fn show(_: &OwnedSubslice<Self>) -> Option<(String, String, String)> {
        None
    }
    fn show_ref(_: &Self::Output) -> Option<(String, String, String)> {
        None
    }
}

impl Kind for String {
    fn len(&self) -> usize {
        String::len(self)
    }
    fn floor(&self, i: usize) -> usize {
        floor_char(self, i)
    }
    fn embed(o: &str, pre: usize, post: usize) -> Self {
        format!("{}{o}{}", "x".repeat(pre), "y".repeat(post))
    }
    fn write(o: &mut str, _: u16, v: u8) {
        Self::write_all(o, v)
    }
    fn write_all(o: &mut str, v: u8) {
        if v % 2 == 0 {
            o.make_ascii_uppercase()
        } else {
            o.make_ascii_lowercase()
        }
    }
    fn show(s: &OwnedSubslice<Self>) -> Option<(String, String, String)> {
        Some((format!("{s}"), format!("{s:>9}|{s:<9}|{s:.2}"), s.to_string()))
    }
    fn show_ref(s: &str) -> Option<(String, String, String)> {
        Some((format!("{s}"), format!("{s:>9}|{s:<9}|{s:.2}"), s.to_string()))
    }
}

macro_rules! vec_kind {
    ($t:ty, $v:ident => $new:expr) => {
        impl Kind for Vec<$t> {
            fn len(&self) -> usize {
                Vec::len(self)
            }
            fn floor(&self, i: usize) -> usize {
                i
            }
            fn embed(o: &[$t], pre: usize, post: usize) -> Self {
                let $v = 77u8;
                let mut v = vec![$new; pre];
                v.extend_from_slice(o);
                v.extend(vec![$new; post]);
                v
            }
            fn write(o: &mut [$t], at: u16, $v: u8) {
                if !o.is_empty() {
                    let i = frac(at, o.len() - 1);
                    o[i] = $new;
                }
            }
            fn write_all(o: &mut [$t], $v: u8) {
                o.iter_mut().for_each(|x| *x = $new);
                o.reverse();
            }
        }
    };
}
vec_kind!(u8, v => v);
vec_kind!(i32, v => v as i32 * 3);
vec_kind!(String, v => format!("w{v}"));

fn same<K: Kind>(what: &str, s: &OwnedSubslice<K>, c: &K, a: usize, b: usize) -> Result<(), String>
where
    K::Output: PartialEq + Debug,
{
    let want = &c[a..b];
    let got: &K::Output = s;
    if got != want {
        return Err(format!("{what}: reads {got:?}, the slice is {want:?}"));
    }
    if format!("{s:?}") != format!("{want:?}") || format!("{s:#?}") != format!("{want:#?}") {
        return Err(format!("{what}: prints as {s:?}, the slice as {want:?}"));
    }
    if K::show(s) != K::show_ref(want) {
        return Err(format!("{what}: displays as {:?}, the slice as {:?}", K::show(s), K::show_ref(want)));
    }
    if !(*s == want) || !(want == *s) || *s != want || want != *s {
        return Err(format!("{what}: not equal to its own slice {want:?}"));
    }
    Ok(())
}

fn drive<K: Kind + 'static>(mut c: K, case: &Case, cov: &mut Covered) -> Result<(), String>
where
    K::Output: PartialEq + Debug,
{
    let (mut a, mut b) = match case.range {
        Some((x, y)) => {
            let i = c.floor(frac(x, c.len()));
            let j = c.floor(i + frac(y, c.len() - i));
            (i, j.max(i))
        }
        None => (0, c.len()),
    };
    let mut s: OwnedSubslice<K> = if case.range.is_some() { OwnedSubslice::new(c.clone(), a..b) } else { c.clone().into() };
    let mut kept: Vec<(OwnedSubslice<K>, K, usize, usize)> = vec![];
    same("new", &s, &c, a, b)?;
    cov.label("proper-range", (a > 0 || b < c.len()) && a < b);
    let mut subs = 0;
    for (n, op) in case.ops.iter().enumerate() {
        let what = format!("after op {n} {op:?}");
        match op {
            Op::Sub(x, y, end) => {
                let len = b - a;
                let i = c.floor(a + frac(*x, len)) - a.min(c.floor(a + frac(*x, len)));
                let j = match end {
                    End::Inside => (c.floor(a + i + frac(*y, len - i)) - a).max(i),
                    End::AtEnd => len,
                    End::Beyond(k) => len + *k as usize,
                    End::NearMax(k) => usize::MAX - *k as usize,
                };
                s = s.subslice(i..j);
                let nb = a + j.min(len);
                a += i;
                b = nb;
                subs += 1;
                cov.label("clamped", j > len);
                cov.label("chained-subslice", subs > 1);
            }
            Op::Clone => kept.push((s.clone(), c.clone(), a, b)),
            Op::Swap => s = s.clone(),
            Op::Write(at, v) => {
                K::write(&mut s, *at, *v);
                K::write(&mut c[a..b], *at, *v);
                cov.label("write-in-proper-range", (a > 0 || b < c.len()) && a < b);
            }
            Op::WriteAll(v) => {
                K::write_all(&mut s, *v);
                K::write_all(&mut c[a..b], *v);
                cov.label("write-in-proper-range", (a > 0 || b < c.len()) && a < b);
            }
        }
        same(&what, &s, &c, a, b)?;
    }
    cov.label("kept-clones", !kept.is_empty());
    for (i, (k, kc, x, y)) in kept.iter().enumerate() {
        same(&format!("clone {i} at the end"), k, kc, *x, *y)?;
        let eq = kc[*x..*y] == c[a..b];
        if (*k == s) != eq || (s == *k) != eq {
            return Err(format!("equality of {k:?} and {s:?} is not that of their slices"));
        }
    }
    // Equality is that of the slices, wherever they lie.
    let (pre, post) = (case.twin as usize % 4, case.twin as usize / 4 % 4);
    let mut twin = OwnedSubslice::new(K::embed(&s, pre, post), pre..pre + (b - a));
    same("twin elsewhere", &twin, &K::embed(&c[a..b], pre, post), pre, pre + (b - a))?;
    if !(s == twin) || !(twin == s) || s != twin || twin != s {
        return Err(format!("{s:?} at {a} is not equal to {twin:?} at {pre}"));
    }
    K::write(&mut twin, case.twin as u16, (case.twin >> 4) as u8);
    let eq = *(&*twin) == *(&*s);
    cov.label("unequal-same-length", !eq);
    if (s == twin) != eq || (twin == s) != eq || (s != twin) == eq {
        return Err(format!("equality of {s:?} and {twin:?} is not that of their slices"));
    }
    let longer = OwnedSubslice::new(K::embed(&s, pre, post + 1), pre..pre + (b - a) + 1);
    if s == longer || longer == s {
        return Err(format!("{s:?} equals the longer {longer:?}"));
    }
    cov.label("long", b - a > 255);
    cov.nontrivial = a < b && (subs > 0 || case.range.is_some());
    Ok(())
}

fn check(c: &Case) -> CheckResult {
    let mut cov = Covered::default();
    match &c.data {
        Container::Text(t) => drive(t.clone(), c, &mut cov)?,
        Container::Bytes(t) => drive(t.clone(), c, &mut cov)?,
        Container::Ints(t) => drive(t.clone(), c, &mut cov)?,
        Container::Texts(t) => drive(t.clone(), c, &mut cov)?,
    }
    Ok(cov)
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let max = if t == Tier::Quick { 12 } else { 40 };
    let data = one_of![
        40 => gen::text(24).prop_map(Container::Text),
        30 => vec(any::<u8>(), 0..20).prop_map(Container::Bytes),
        1 => (prop::sample::select(vec![254usize, 255, 256, 257, 300, 65535, 65536, 65600]), any::<u8>()).prop_map(|(n, b)| Container::Bytes((0..n).map(|i| (i as u8).wrapping_mul(b)).collect())),
        20 => vec(-3i32..4, 0..20).prop_map(Container::Ints),
        10 => vec(gen::text(3), 0..8).prop_map(Container::Texts),
    ];
    let end = one_of![
        5 => Just(End::Inside),
        1 => Just(End::AtEnd),
        2 => (0u16..40).prop_map(End::Beyond),
        1 => one_of![Just(0u16), 0u16..40].prop_map(End::NearMax)
    ];
    let small = one_of![3 => Just(0u16), 5 => 0u16..12000, 2 => any::<u16>()];
    let big = one_of![3 => Just(65535u16), 5 => 50000u16..65535, 3 => any::<u16>()];
    let op = one_of![
        5 => (small.clone(), big.clone(), end).prop_map(|(a, b, e)| Op::Sub(a, b, e)),
        2 => Just(Op::Clone),
        1 => Just(Op::Swap),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Op::Write(a, b)),
        1 => any::<u8>().prop_map(Op::WriteAll),
    ];
    (data, prop::option::of((small, big)), vec(op, 0..max), any::<u32>()).prop_map(|(data, range, ops, twin)| Case { data, range, ops, twin }).boxed()
}

pub fn property(id: &str) -> Option<Property> {
    if id != "C10" {
        return None;
    }
    Some(Property {
        id: "C10",
        parts: vec![Box::new(Part {
            name: "model",
            rule: "Random container (text with multi-byte characters, bytes, integers, texts), range and sequence of subslice/clone/write steps against the container's own slice; non-trivial: the final slice is not empty and a range or subslice was taken.",
            strategy,
            check,
            quick: 600_000,
            thorough: 15_000_000,
            max_shrink: 4000,
            repeat: 1,
        })],
        known: vec![],
        assumptions: &["Ranges start inside the container at character boundaries, as slicing itself demands."],
    })
}

