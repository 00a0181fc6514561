//! C15: what a deserialized value may be, given the events that were delivered.

use crate::ev::*;
use crate::props::*;
use crate::run::*;
use crate::soup;
use crate::source::*;
use crate::tape::Tape;
use serde::Deserialize;
use serde::de::{DeserializeOwned, MapAccess, SeqAccess, Visitor};
use std::collections::BTreeMap;
use std::fmt::{Debug, Write};
use std::rc::Rc;

/// Self-describing target.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}

impl<'de> Deserialize<'de> for V {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = V;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<V, E> {
                Ok(V::Null)
            }
            fn visit_none<E>(self) -> Result<V, E> {
                Ok(V::Null)
            }
            fn visit_bool<E>(self, x: bool) -> Result<V, E> {
                Ok(V::Bool(x))
            }
            fn visit_i64<E>(self, x: i64) -> Result<V, E> {
                Ok(V::Int(x))
            }
            fn visit_u64<E>(self, x: u64) -> Result<V, E> {
                Ok(V::Int(x as i64))
            }
            fn visit_f64<E>(self, x: f64) -> Result<V, E> {
                Ok(V::Float(x.to_bits()))
            }
            fn visit_str<E>(self, x: &str) -> Result<V, E> {
                Ok(V::Str(x.to_string()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(V::Seq(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(V::Map(v))
            }
        }
        d.deserialize_any(Vis)
    }
}

/// The node graph of a document as its events describe it.
#[derive(Clone, Debug)]
pub enum R {
    Scalar { v: String, st: char, tag: TagO },
    Seq(Vec<R>),
    Map(Vec<(R, R)>),
}

impl R {
    fn value(&self) -> Option<V> {
        let R::Scalar { v, st, tag } = self else { return None };
        crate::oracle::resolve(v, *st, tag)
    }
    fn all_resolved(&self) -> bool {
        match self {
            R::Scalar { .. } => self.value().is_some(),
            R::Seq(v) => v.iter().all(R::all_resolved),
            R::Map(v) => v.iter().all(|(a, b)| a.all_resolved() && b.all_resolved()),
        }
    }
}

/// The first document, aliases replaced; `None` if its events are not all there.
fn first_doc(evs: &[E]) -> Option<R> {
    let mut stack: Vec<(R, Option<R>, usize)> = Vec::new();
    let mut anchors: BTreeMap<usize, R> = BTreeMap::new();
    let mut root = None;
    for e in evs {
        let (node, a) = match e {
            E::DocEnd => return root,
            E::Scalar { v, st, a, tag } => (R::Scalar { v: v.clone(), st: *st, tag: tag.clone() }, *a),
            E::Alias(n) => (anchors.get(n)?.clone(), 0),
            E::SeqStart(a, _) => {
                stack.push((R::Seq(Vec::new()), None, *a));
                continue;
            }
            E::MapStart(a, _) => {
                stack.push((R::Map(Vec::new()), None, *a));
                continue;
            }
            E::SeqEnd | E::MapEnd => {
                let (n, _, a) = stack.pop()?;
                (n, a)
            }
            _ => continue,
        };
        if a > 0 {
            anchors.insert(a, node.clone());
        }
        match stack.last_mut() {
            None => root = Some(node),
            Some((R::Seq(v), ..)) => v.push(node),
            Some((R::Map(v), k, _)) => match k.take() {
                None => *k = Some(node),
                Some(key) => v.push((key, node)),
            },
            _ => return None,
        }
    }
    None
}

/// Whether `self` is a value the node denotes for this target type.
pub trait Denotes {
    fn ok(&self, r: &R) -> bool;
}

impl Denotes for V {
    fn ok(&self, r: &R) -> bool {
        match (self, r) {
            (V::Seq(a), R::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.ok(y)),
            (V::Map(a), R::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.ok(&y.0) && x.1.ok(&y.1)),
            (x, R::Scalar { .. }) => r.value().as_ref() == Some(x),
            _ => false,
        }
    }
}
fn int_of(v: &str) -> Option<i128> {
    let radix = |p: &str, n: u32| v.strip_prefix(p).filter(|d| !d.starts_with(['+', '-'])).and_then(|d| i128::from_str_radix(d, n).ok());
    v.parse::<i128>().ok().or_else(|| radix("0x", 16)).or_else(|| radix("0o", 8))
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Denotes for $t {
            fn ok(&self, r: &R) -> bool {
                let R::Scalar { v, .. } = r else { return false };
                int_of(v) == Some(i128::from(*self))
            }
        }
    )*};
}
ints!(i64, i8, i16, i32, u8, u16, u32, u64, i128);
impl Denotes for u128 {
    fn ok(&self, r: &R) -> bool {
        let R::Scalar { v, .. } = r else { return false };
        let radix = |p: &str, n: u32| v.strip_prefix(p).filter(|d| !d.starts_with(['+', '-'])).and_then(|d| u128::from_str_radix(d, n).ok());
        v.parse::<u128>().ok().or_else(|| radix("0x", 16)).or_else(|| radix("0o", 8)) == Some(*self)
    }
}
impl Denotes for bool {
    fn ok(&self, r: &R) -> bool {
        r.value() == Some(V::Bool(*self))
    }
}
impl Denotes for f64 {
    fn ok(&self, r: &R) -> bool {
        match r.value() {
            Some(V::Float(f)) => f == self.to_bits(),
            Some(V::Int(i)) => i as f64 == *self,
            _ => false,
        }
    }
}
impl Denotes for f32 {
    fn ok(&self, r: &R) -> bool {
        match r.value() {
            Some(V::Float(f)) => (f64::from_bits(f) as f32).to_bits() == self.to_bits(),
            Some(V::Int(i)) => i as f32 == *self,
            _ => false,
        }
    }
}
impl Denotes for char {
    fn ok(&self, r: &R) -> bool {
        r.value() == Some(V::Str(self.to_string()))
    }
}
impl<T: Denotes> Denotes for Box<T> {
    fn ok(&self, r: &R) -> bool {
        (**self).ok(r)
    }
}
#[derive(Deserialize, PartialEq, Debug, Clone)]
pub struct UnitS;
impl Denotes for UnitS {
    fn ok(&self, r: &R) -> bool {
        is_null(r)
    }
}
#[derive(Deserialize, PartialEq, Debug, Clone)]
pub struct NewS(i64);
impl Denotes for NewS {
    fn ok(&self, r: &R) -> bool {
        self.0.ok(r)
    }
}
#[derive(Deserialize, PartialEq, Debug, Clone)]
pub struct TupS(bool, f64, Option<String>);
impl Denotes for TupS {
    fn ok(&self, r: &R) -> bool {
        matches!(r, R::Seq(v) if v.len() == 3 && self.0.ok(&v[0]) && self.1.ok(&v[1]) && self.2.ok(&v[2]))
    }
}
impl<A: Denotes, B: Denotes, C: Denotes> Denotes for (A, B, C) {
    fn ok(&self, r: &R) -> bool {
        matches!(r, R::Seq(v) if v.len() == 3 && self.0.ok(&v[0]) && self.1.ok(&v[1]) && self.2.ok(&v[2]))
    }
}
/// Every scalar width in one record, with collections of records and of enums inside.
#[derive(Deserialize, PartialEq, Debug, Clone)]
pub struct Wide {
    i1: i8,
    i2: i16,
    i4: i32,
    i8: i64,
    u1: u8,
    u2: u16,
    u4: u32,
    u8: u64,
    f: f64,
    f4: f32,
    yes: bool,
    c: char,
    n: NewS,
    t: TupS,
    z: (),
    #[serde(default)]
    o: Option<Option<i64>>,
    e: Vec<En>,
    sub: Option<Box<S>>,
}
impl Denotes for Wide {
    fn ok(&self, r: &R) -> bool {
        let get = |i: usize, k: &str| -> Option<&R> {
            match r {
                R::Map(v) => {
                    let mut it = v.iter().filter(|(x, _)| x.value() == Some(V::Str(k.into()))).map(|x| &x.1);
                    let x = it.next();
                    if it.next().is_some() { None } else { x }
                }
                R::Seq(v) if v.len() <= 18 => v.get(i),
                _ => None,
            }
        };
        let f = |i: usize, k: &str, x: &dyn Denotes| get(i, k).is_some_and(|r| x.ok(r));
        f(0, "i1", &self.i1)
            && f(1, "i2", &self.i2)
            && f(2, "i4", &self.i4)
            && f(3, "i8", &self.i8)
            && f(4, "u1", &self.u1)
            && f(5, "u2", &self.u2)
            && f(6, "u4", &self.u4)
            && f(7, "u8", &self.u8)
            && f(8, "f", &self.f)
            && f(9, "f4", &self.f4)
            && f(10, "yes", &self.yes)
            && f(11, "c", &self.c)
            && f(12, "n", &self.n)
            && f(13, "t", &self.t)
            && f(14, "z", &self.z)
            && (f(15, "o", &self.o) || (self.o.is_none() && get(15, "o").is_none()))
            && f(16, "e", &self.e)
            && (f(17, "sub", &self.sub) || (self.sub.is_none() && get(17, "sub").is_none()))
    }
}
impl Denotes for BTreeMap<i32, Vec<u8>> {
    fn ok(&self, r: &R) -> bool {
        let R::Map(v) = r else { return false };
        // the last entry of a key counts
        self.iter().all(|(k, x)| v.iter().rev().find(|e| k.ok(&e.0)).is_some_and(|e| x.ok(&e.1))) && v.iter().all(|e| self.keys().any(|k| k.ok(&e.0)))
    }
}
impl Denotes for () {
    fn ok(&self, r: &R) -> bool {
        is_null(r)
    }
}
/// A plain scalar that resolves to null, or an empty one (which the resolver calls a string)
/// unless a core tag says otherwise.
fn is_null(r: &R) -> bool {
    match r {
        R::Scalar { v, st: ':', tag } => {
            let core = tag.as_ref().is_some_and(|t| t.0 == "tag:yaml.org,2002:");
            (v.is_empty() && !core) || r.value() == Some(V::Null)
        }
        _ => false,
    }
}
impl Denotes for String {
    fn ok(&self, r: &R) -> bool {
        r.value() == Some(V::Str(self.clone()))
    }
}
impl<T: Denotes> Denotes for Option<T> {
    fn ok(&self, r: &R) -> bool {
        match self {
            None => is_null(r),
            Some(x) => x.ok(r),
        }
    }
}
impl<T: Denotes> Denotes for Vec<T> {
    fn ok(&self, r: &R) -> bool {
        matches!(r, R::Seq(v) if v.len() == self.len() && self.iter().zip(v).all(|(a, b)| a.ok(b)))
    }
}
impl<A: Denotes, B: Denotes> Denotes for (A, B) {
    fn ok(&self, r: &R) -> bool {
        matches!(r, R::Seq(v) if v.len() == 2 && self.0.ok(&v[0]) && self.1.ok(&v[1]))
    }
}
impl<T: Denotes> Denotes for BTreeMap<String, T> {
    fn ok(&self, r: &R) -> bool {
        // a later entry with the same key replaces the earlier one, as serde's maps do
        let R::Map(v) = r else { return false };
        let mut last: BTreeMap<String, &R> = BTreeMap::new();
        for (k, x) in v {
            let Some(V::Str(k)) = k.value() else { return false };
            last.insert(k, x);
        }
        last.len() == self.len() && self.iter().all(|(k, x)| last.get(k).is_some_and(|r| x.ok(r)))
    }
}

#[derive(Deserialize, PartialEq, Debug, Clone)]
pub struct S {
    pub a: i64,
    pub b: Option<String>,
    pub c: Vec<i64>,
}
impl Denotes for S {
    fn ok(&self, r: &R) -> bool {
        match r {
            R::Map(v) => {
                let get = |k: &str| -> Vec<&R> { v.iter().filter(|(x, _)| x.value() == Some(V::Str(k.into()))).map(|x| &x.1).collect() };
                let (a, b, c) = (get("a"), get("b"), get("c"));
                a.len() == 1 && c.len() == 1 && b.len() <= 1 && self.a.ok(a[0]) && self.c.ok(c[0]) && b.first().map_or(self.b.is_none(), |b| self.b.ok(b))
            }
            R::Seq(v) => v.len() == 3 && self.a.ok(&v[0]) && self.b.ok(&v[1]) && self.c.ok(&v[2]),
            _ => false,
        }
    }
}

#[derive(Deserialize, PartialEq, Debug, Clone)]
pub enum En {
    Unit,
    New(i64),
    Tup(i64, Option<i64>),
    Rec { x: i64, y: Vec<i64> },
}
impl Denotes for En {
    fn ok(&self, r: &R) -> bool {
        match r {
            R::Scalar { v, .. } => *self == En::Unit && v == "Unit",
            R::Map(m) if m.len() == 1 => {
                let (k, x) = &m[0];
                let Some(V::Str(k)) = k.value() else { return false };
                match self {
                    En::Unit => k == "Unit" && is_null(x),
                    En::New(i) => k == "New" && i.ok(x),
                    En::Tup(a, b) => k == "Tup" && matches!(x, R::Seq(v) if v.len() == 2 && a.ok(&v[0]) && b.ok(&v[1])),
                    En::Rec { x: i, y } => {
                        k == "Rec"
                            && match x {
                                R::Map(v) => {
                                    let get = |k: &str| -> Vec<&R> { v.iter().filter(|(x, _)| x.value() == Some(V::Str(k.into()))).map(|x| &x.1).collect() };
                                    let (a, b) = (get("x"), get("y"));
                                    a.len() == 1 && b.len() == 1 && i.ok(a[0]) && y.ok(b[0])
                                }
                                _ => false,
                            }
                    }
                }
            }
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- writers of typed documents

struct Wr<'t> {
    t: &'t mut Tape,
    flow: u32,
    comments: u32,
}

/// A value as nested text, block or flow.
enum Tx {
    S(String),
    Seq(Vec<Tx>),
    Map(Vec<(String, Tx)>),
}

impl Wr<'_> {
    fn int(&mut self) -> i64 {
        match self.t.below(4) {
            0 => i64::from(self.t.below(10)),
            1 => i64::from(self.t.below(2000)) - 1000,
            2 => *self.t.pick(&[i64::MAX, i64::MIN, 0, -1, 1 << 40]),
            _ => i64::from(self.t.below(100_000)),
        }
    }
    fn note(&mut self, out: &mut String) {
        if self.t.chance(self.comments) {
            out.push_str(" # c: [x]");
        }
    }
    /// An anchor or a tag that says nothing about the value.
    fn props(&mut self, x: &Tx, out: &mut String) {
        if matches!(x, Tx::S(s) if s.is_empty() || s.starts_with('!')) || !self.t.chance(40) {
            return;
        }
        let core = match x {
            Tx::S(_) => "&s",
            Tx::Seq(_) => "!!seq",
            Tx::Map(_) => "!!map",
        };
        out.push_str(*self.t.pick(&["&a", "!t", "&a !t", "!t &b", "!<x:y>", core]));
        out.push(' ');
    }
    fn flow(&mut self, x: &Tx, out: &mut String) {
        let sp = *self.t.pick(&["", " ", "  "]);
        self.props(x, out);
        match x {
            Tx::S(s) => out.push_str(s),
            Tx::Seq(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(sp);
                    self.flow(x, out);
                }
                if !v.is_empty() && self.t.chance(150) {
                    out.push(',');
                }
                out.push_str(sp);
                out.push(']');
            }
            Tx::Map(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(sp);
                    let _ = write!(out, "{k}: ");
                    self.flow(x, out);
                }
                if !v.is_empty() && self.t.chance(150) {
                    out.push(',');
                }
                out.push_str(sp);
                out.push('}');
            }
        }
    }
    /// Writes the node after a `-`, `:` or at the start; ends with a line break.
    fn block(&mut self, x: &Tx, ind: usize, top: bool, after_key: bool, out: &mut String) {
        let flow = match x {
            Tx::S(_) => true,
            Tx::Seq(v) => v.is_empty() || self.t.chance(self.flow),
            Tx::Map(v) => v.is_empty() || self.t.chance(self.flow),
        };
        if flow {
            if !top {
                out.push(' ');
            }
            self.flow(x, out);
            self.note(out);
            out.push('\n');
            return;
        }
        let compact = !top && !after_key && self.t.chance(500);
        if !top && !compact {
            let mut props = String::from(" ");
            self.props(x, &mut props);
            if props.len() > 1 {
                out.push_str(&props);
            }
            self.note(out);
            out.push('\n');
        }
        let mut first = true;
        let pad = |out: &mut String, first: &mut bool| {
            if compact && *first {
                out.push(' ');
            } else if !(top && *first) || true {
                out.push_str(&" ".repeat(ind));
            }
            *first = false;
        };
        // compact collections start two columns further in
        match x {
            Tx::Seq(v) => {
                for x in v {
                    pad(out, &mut first);
                    out.push('-');
                    self.block(x, ind + 2, false, false, out);
                }
            }
            Tx::Map(v) => {
                for (k, x) in v {
                    pad(out, &mut first);
                    let _ = write!(out, "{k}:");
                    self.block(x, ind + 2, false, true, out);
                }
            }
            Tx::S(_) => {}
        }
    }
    fn opt(&mut self) -> (Option<i64>, Tx) {
        if self.t.chance(300) {
            (None, self.null())
        } else {
            let i = self.int();
            (Some(i), Tx::S(i.to_string()))
        }
    }
    /// An integer of `bits` bits, spelled as the core schema allows.
    fn wide(&mut self, bits: u32, signed: bool) -> (i128, Tx) {
        let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        let n = match self.t.below(6) {
            0 => lo,
            1 => hi,
            2 => hi / 2 + i128::from(self.t.below(3)) - 1,
            3 => lo / 2,
            _ => i128::from(self.t.below(100)).clamp(lo, hi),
        };
        let s = match self.t.below(12) {
            0 if n >= 0 => format!("+{n}"),
            1 if n >= 0 => format!("00{n}"),
            3 if n >= 0 => format!("0x{n:x}"),
            4 if n >= 0 => format!("0o{n:o}"),
            2 if n < 0 => format!("-0{}", -n),
            _ => n.to_string(),
        };
        (n, Tx::S(s))
    }
    fn float(&mut self) -> (f64, Tx) {
        let (f, s) = *self.t.pick(&[
            (1.5, "1.5"), (-0.25, "-.25"), (1e3, "1e3"), (1e-7, "1.0E-7"), (12.0, "12."), (0.5, "+0.5"), (f64::INFINITY, ".inf"), (f64::INFINITY, "+.Inf"), (f64::NEG_INFINITY, "-.INF"), (0.1, "0.1"),
            (-0.0, "-0.0"), (1.7976931348623157e308, "1.7976931348623157e308"), (5e-324, "5e-324"), (3.0, "3"), (-7.0, "-7"),
        ]);
        (f, Tx::S(s.into()))
    }
    fn yes(&mut self) -> (bool, Tx) {
        let (b, s) = *self.t.pick(&[(true, "true"), (false, "false"), (true, "True"), (true, "TRUE"), (false, "False"), (false, "FALSE")]);
        (b, Tx::S(s.into()))
    }
    fn null(&mut self) -> Tx {
        Tx::S((*self.t.pick(&["null", "~", "Null", "NULL"])).into())
    }
    /// Any value, with the text the core schema reads as it.
    fn any(&mut self, depth: u32) -> (V, Tx) {
        let k = if depth == 0 { self.t.us(6) } else { self.t.weighted(&[2, 1, 1, 1, 1, 2, 6, 6]) };
        match k {
            0 => {
                let (n, x) = self.wide(64, true);
                let i = n as i64;
                (V::Int(i), x)
            }
            1 => {
                let (f, x) = self.float();
                match &x {
                    Tx::S(s) if s == "3" || s == "-7" => (V::Int(f as i64), x),
                    _ => (V::Float(f.to_bits()), x),
                }
            }
            2 => {
                let (b, x) = self.yes();
                (V::Bool(b), x)
            }
            3 => (V::Null, self.null()),
            4 if self.t.chance(300) => {
                let f = |x: f64| V::Float(x.to_bits());
                let (v, s) = self
                    .t
                    .pick(&[
                        (V::Str("12".into()), "!!str 12"), (V::Str("null".into()), "!!str null"), (V::Str("x y".into()), "!<tag:yaml.org,2002:str> x y"), (V::Int(5), "!!int 5"), (V::Int(31), "!!int 0x1F"), (V::Int(8), "!!int 0o10"),
                        (V::Int(-5), "!!int -5"), (f(1.5), "!!float 1.5"), (f(3.0), "!!float 3"), (f(f64::INFINITY), "!!float .INF"), (V::Bool(true), "!!bool true"), (V::Bool(true), "!!bool True"), (V::Bool(false), "!!bool FALSE"),
                        (V::Null, "!!null null"), (V::Null, "!!null ~"), (V::Null, "!!null NULL"), (V::Int(7), "!degree 7"), (V::Str("hot".into()), "!degree hot"), (V::Str("7".into()), "! '7'"), (V::Str("7".into()), "!degree \"7\""),
                    ])
                    .clone();
                (v, Tx::S(s.into()))
            }
            4 => {
                // plain text that only looks like something else
                let s = *self.t.pick(&["-+3", "0x", "0xg", "0o8", "1e", "1e+", ".", "-.", "+", "nUll", "tRue", "yes", "1_000", "0x-1", "inf", "nan", "-.nan", "1.2.3", "12a", "--1", "0b1", "1:2", "e5", ".e5", "infinity1", "0X1F"]);
                (V::Str(s.into()), Tx::S(s.into()))
            }
            5 => {
                let (s, x) = self.word();
                (V::Str(s), x)
            }
            6 => {
                let (a, x) = self.list(4, |w| w.any(depth - 1));
                (V::Seq(a), x)
            }
            _ => {
                let n = self.t.us(4);
                let mut a = Vec::new();
                let mut b = Vec::new();
                for i in 0..n {
                    let (k, ks) = match self.t.below(5) {
                        0 => (V::Int(i as i64), format!("{i}")),
                        1 => (V::Bool(true), "true".to_string()),
                        2 => (V::Null, "~".to_string()),
                        3 => (V::Str("3".into()), "\"3\"".to_string()),
                        _ => (V::Str(format!("k{i}")), format!("k{i}")),
                    };
                    let (v, x) = self.any(depth - 1);
                    a.push((k, v));
                    b.push((ks, x));
                }
                (V::Map(a), Tx::Map(b))
            }
        }
    }
    fn ints(&mut self, max: usize) -> (Vec<i64>, Tx) {
        let v: Vec<i64> = (0..self.t.us(max + 1)).map(|_| self.int()).collect();
        let x = Tx::Seq(v.iter().map(|i| Tx::S(i.to_string())).collect());
        (v, x)
    }
    fn word(&mut self) -> (String, Tx) {
        let w = *self.t.pick(&["alpha", "b c", "é日本", "x-1", "say \"hi\"", "tab\there", "line\nbreak", "12", "null", "# no", "a: b", ""]);
        let plain = matches!(w, "alpha" | "b c" | "é日本" | "x-1");
        if plain && self.t.chance(600) {
            (w.into(), Tx::S(w.into()))
        } else {
            (w.into(), Tx::S(format!("\"{}\"", w.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t"))))
        }
    }
    fn en(&mut self) -> (En, Tx) {
        match self.t.below(5) {
            0 => (En::Unit, Tx::S("Unit".into())),
            1 => (En::Unit, Tx::Map(vec![("Unit".into(), Tx::S("null".into()))])),
            2 => {
                let i = self.int();
                (En::New(i), Tx::Map(vec![("New".into(), Tx::S(i.to_string()))]))
            }
            3 => {
                let i = self.int();
                let (o, x) = self.opt();
                (En::Tup(i, o), Tx::Map(vec![("Tup".into(), Tx::Seq(vec![Tx::S(i.to_string()), x]))]))
            }
            _ => {
                let i = self.int();
                let (v, x) = self.ints(4);
                let mut f = vec![("x".to_string(), Tx::S(i.to_string())), ("y".to_string(), x)];
                if self.t.chance(400) {
                    f.reverse();
                }
                (En::Rec { x: i, y: v }, Tx::Map(vec![("Rec".into(), Tx::Map(f))]))
            }
        }
    }
    fn record(&mut self) -> (Wide, Tx) {
        let mut f: Vec<(String, Tx)> = Vec::new();
        macro_rules! int {
            ($n:expr, $t:ty, $bits:expr, $s:expr) => {{
                let (i, x) = self.wide($bits, $s);
                f.push(($n.to_string(), x));
                i as $t
            }};
        }
        let (i1, i2, i4, i8) = (int!("i1", i8, 8, true), int!("i2", i16, 16, true), int!("i4", i32, 32, true), int!("i8", i64, 64, true));
        let (u1, u2, u4, u8) = (int!("u1", u8, 8, false), int!("u2", u16, 16, false), int!("u4", u32, 32, false), int!("u8", u64, 64, false));
        let (fl, x) = self.float();
        f.push(("f".into(), x));
        let (g, x) = self.float();
        f.push(("f4".into(), x));
        let (yes, x) = self.yes();
        f.push(("yes".into(), x));
        let (c, cs) = *self.t.pick(&[('a', "a"), ('é', "é"), ('😀', "\"\\U0001F600\""), ('\'', "''''"), ('3', "'3'"), (' ', "\" \"")]);
        f.push(("c".into(), Tx::S(cs.into())));
        let n = self.int();
        f.push(("n".into(), Tx::S(n.to_string())));
        let (a, ax) = self.yes();
        let (b, bx) = self.float();
        let (s, sx) = self.solid();
        f.push(("t".into(), Tx::Seq(vec![ax, bx, sx])));
        let x = self.null();
        f.push(("z".into(), x));
        let o = if self.t.chance(500) {
            let (o, x) = self.opt();
            f.push(("o".into(), x));
            // a null is the outer nothing
            o.map(Some)
        } else {
            None
        };
        let (e, x) = self.list(3, Wr::en);
        f.push(("e".into(), x));
        let sub = if self.t.chance(500) {
            let i = self.int();
            let (v, x) = self.ints(3);
            f.push(("sub".into(), Tx::Map(vec![("a".into(), Tx::S(i.to_string())), ("c".into(), x)])));
            Some(Box::new(S { a: i, b: None, c: v }))
        } else {
            None
        };
        for _ in 0..self.t.small(2, 300) {
            // fields nobody asked for
            let (_, x) = self.any(2);
            let x = if self.t.chance(300) { Tx::S((*self.t.pick(&["!!binary aGk=", "!!timestamp 2001-12-14", "!!int x", "!!set {a}"])).into()) } else { x };
            let k = f.iter().filter(|x| x.0.starts_with("more")).count();
            f.push((format!("more{k}"), x));
        }
        let k = self.t.us(f.len());
        f.rotate_left(k);
        (Wide { i1, i2, i4, i8, u1, u2, u4, u8, f: fl, f4: g as f32, yes, c, n: NewS(n), t: TupS(a, b, Some(s)), z: (), o, e, sub }, Tx::Map(f))
    }
    /// A word that is not taken for null.
    fn solid(&mut self) -> (String, Tx) {
        for _ in 0..20 {
            let (s, x) = self.word();
            if s != "null" && !s.is_empty() {
                return (s, x);
            }
        }
        ("alpha".into(), Tx::S("alpha".into()))
    }
    fn list<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> (T, Tx)) -> (Vec<T>, Tx) {
        let n = self.t.us(max + 1);
        let mut a = Vec::new();
        let mut b = Vec::new();
        for _ in 0..n {
            let (x, y) = f(self);
            a.push(x);
            b.push(y);
        }
        (a, Tx::Seq(b))
    }
    fn map<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> (T, Tx)) -> (BTreeMap<String, T>, Tx) {
        let n = self.t.us(max + 1);
        let mut a = BTreeMap::new();
        let mut b = Vec::new();
        for i in 0..n {
            let (x, y) = f(self);
            let k = format!("k{i}{}", self.t.pick(&["", "-x", "é", "_long_key_name_that_goes_on_for_a_while"]));
            a.insert(k.clone(), x);
            b.push((k, y));
        }
        (a, Tx::Map(b))
    }
}

type Out = Result<bool, String>;

/// Deserializes `T` and judges the result.
fn run<T: DeserializeOwned + Denotes + PartialEq + Debug>(text: &Rc<Vec<u8>>, sp: &Spec, m: &Rc<Meter>, entry: bool, doc: Option<&R>, exact: Option<&T>) -> Out {
    let r: Result<Result<T, String>, Stop> = guard(|| {
        if entry {
            let s = std::str::from_utf8(text).unwrap();
            yam_serde::from_str::<T>(s).map_err(|e| format!("{e:?}"))
        } else {
            yam_serde::sim_from_source::<T, _>(open(text, sp, m)).map_err(|e| format!("{e:?}"))
        }
    });
    let cut = |s: String| s.chars().take(500).collect::<String>();
    match r {
        Err(e) => Err(format!("panic: {}", end_of(e).show())),
        Ok(Err(e)) => match exact {
            Some(x) => Err(format!("the intact document was written as {}, deserializing fails with {e}", cut(format!("{x:?}")))),
            None => Ok(false),
        },
        Ok(Ok(x)) => {
            if let Some(w) = exact {
                if *w != x {
                    return Err(format!("written {}, read {}", cut(format!("{w:?}")), cut(format!("{x:?}"))));
                }
            }
            match doc {
                None => Err(format!("a value was returned although the events of the document were not all delivered: {}", cut(format!("{x:?}")))),
                Some(d) if x.ok(d) => Ok(true),
                Some(d) => Err(format!("the events denote {}, read {}", cut(format!("{d:?}")), cut(format!("{x:?}")))),
            }
        }
    }
}

pub fn c15(t: &mut Tape, c: &mut Ctx) -> Res {
    let kind = t.us(17);
    if kind < 3 {
        let (text, model) = text_of(t, c);
        return generic(t, c, text, model.is_some());
    }
    let mut w = Wr { flow: *t.pick(&[300, 0, 1000]), comments: *t.pick(&[0, 200]), t };
    macro_rules! typed {
        ($name:expr, $mk:expr) => {{
            let (val, tx) = $mk;
            let mut s = String::new();
            let explicit = w.t.chance(300);
            if explicit {
                s.push_str("---");
                w.block(&tx, 0, false, true, &mut s);
            } else {
                w.block(&tx, 0, true, false, &mut s);
            }
            let t = w.t;
            let tail = t.chance(300);
            if tail {
                s.push_str(t.pick(&["...\n", "---\nother: [1\n", "...\n# end\n", "--- x\n"]));
            }
            c.count(&format!("target: {}", $name));
            let mut b = s.into_bytes();
            let damaged = t.chance(650);
            if damaged {
                soup::faults(t, &mut b, 0, c, 3);
            }
            typed(t, c, Rc::new(b), if damaged { None } else { Some(val) })
        }};
    }
    match kind {
        3 => typed!("Vec<Option<i64>>", w.list(8, Wr::opt)),
        4 => typed!("Vec<(i64, Option<i64>)>", w.list(6, |w| {
            let i = w.int();
            let (o, x) = w.opt();
            ((i, o), Tx::Seq(vec![Tx::S(i.to_string()), x]))
        })),
        5 => typed!("Vec<Vec<i64>>", w.list(5, |w| w.ints(4))),
        6 => typed!("BTreeMap<String, Vec<i64>>", w.map(5, |w| w.ints(4))),
        7 => typed!("struct", {
            let a = w.int();
            let (v, x) = w.ints(5);
            let mut f = vec![("a".to_string(), Tx::S(a.to_string())), ("c".to_string(), x)];
            let b = match w.t.below(4) {
                0 => None,
                1 => {
                    f.push(("b".into(), Tx::S("null".into())));
                    None
                }
                _ => {
                    let (s, x) = w.solid();
                    f.push(("b".into(), x));
                    Some(s)
                }
            };
            if w.t.chance(300) {
                f.push(("other".into(), Tx::Map(vec![("p".into(), Tx::Seq(vec![Tx::S("q".into())]))])));
            }
            let k = w.t.us(f.len());
            f.rotate_left(k);
            (S { a, b, c: v }, Tx::Map(f))
        }),
        8 => typed!("Vec<enum>", w.list(5, Wr::en)),
        9 => typed!("BTreeMap<String, String>", w.map(5, Wr::word)),
        10 | 11 => typed!("any tree", {
            let d = *w.t.pick(&[2u32, 1, 3, 4]);
            w.any(d)
        }),
        12 | 13 => typed!("wide struct", w.record()),
        14 => typed!("BTreeMap<i32, Vec<u8>>", {
            let n = w.t.us(4);
            let mut a = BTreeMap::new();
            let mut b = Vec::new();
            for _ in 0..n {
                let (k, kx) = w.wide(32, true);
                let (v, x) = w.list(3, |w| {
                    let (i, x) = w.wide(8, false);
                    (i as u8, x)
                });
                if let Tx::S(s) = kx {
                    if a.insert(k as i32, v).is_some() {
                        b.retain(|(s, _): &(String, Tx)| int_of(s) != Some(k));
                    }
                    b.push((s, x));
                }
            }
            (a, Tx::Map(b))
        }),
        15 => typed!("(i128, u128)", {
            let a = *w.t.pick(&[i128::MAX, i128::MIN, 0, -1, i128::from(i64::MAX) + 1, i128::from(u64::MAX) + 1, i128::from(i64::MIN) - 1]);
            let b = *w.t.pick(&[u128::MAX, 0, u128::from(u64::MAX) + 1, u128::MAX / 2 + 1, 7]);
            let bs = if w.t.chance(300) { format!("0x{b:x}") } else { b.to_string() };
            ((a, b), Tx::Seq(vec![Tx::S(a.to_string()), Tx::S(bs)]))
        }),
        _ => typed!("tuples", {
            let a = w.yes();
            let b = w.float();
            let f = w.float();
            let o = w.opt();
            let n = w.int();
            let z = w.null();
            (
                (TupS(a.0, b.0, None), (NewS(n), f.0), (UnitS, o.0)),
                Tx::Seq(vec![Tx::Seq(vec![a.1, b.1, w.null()]), Tx::Seq(vec![Tx::S(n.to_string()), f.1]), Tx::Seq(vec![z, o.1])]),
            )
        }),
    }
}

fn typed<T: DeserializeOwned + Denotes + PartialEq + Debug>(t: &mut Tape, c: &mut Ctx, text: Rc<Vec<u8>>, exact: Option<T>) -> Res {
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    c.count(if exact.is_some() { "intact typed documents" } else { "damaged typed documents" });
    judge(t, c, &text, std::any::type_name::<T>(), exact.as_ref())
}

fn judge<T: DeserializeOwned + Denotes + PartialEq + Debug>(t: &mut Tape, c: &mut Ctx, text: &Rc<Vec<u8>>, name: &str, exact: Option<&T>) -> Res {
    let sp = spec(t, c);
    let (o, _) = pull(text, &sp, c);
    c.see(&o);
    note_obs(c, "pulled", &o);
    if o.end.crashed() {
        return Ok(());
    }
    c.nontrivial = text.len() >= 2;
    c.case(text, 0);
    c.case(name.as_bytes(), 1);
    let evs = o.events();
    if crate::oracle::expanded(&evs) > 100_000 {
        return Ok(());
    }
    let doc = first_doc(&evs);
    let m = Meter::new(text.len());
    let entry = sp.kind == Kind::Str;
    let r = run::<T>(text, &sp, &m, entry, doc.as_ref(), exact);
    done(c, &m);
    match r {
        Ok(true) => {
            c.count("values returned");
            Ok(())
        }
        Ok(false) => {
            c.count("errors returned");
            Ok(())
        }
        Err(e) => fail(if e.starts_with("panic") { "panic" } else { "value" }, format!("{name}: {e}")),
    }
}

fn generic(t: &mut Tape, c: &mut Ctx, text: Rc<Vec<u8>>, intact: bool) -> Res {
    match t.below(8) {
        0 => judge::<BTreeMap<String, V>>(t, c, &text, "BTreeMap<String, any>", None),
        1 => judge::<Vec<V>>(t, c, &text, "Vec<any>", None),
        2 => judge::<Vec<Option<String>>>(t, c, &text, "Vec<Option<String>>", None),
        3 => judge::<BTreeMap<String, Option<f64>>>(t, c, &text, "BTreeMap<String, Option<f64>>", None),
        _ => {
            let sp = spec(t, c);
            let (o, _) = pull(&text, &sp, c);
            c.see(&o);
            note_obs(c, "pulled", &o);
            if o.end.crashed() {
                return Ok(());
            }
            c.nontrivial = text.len() >= 2;
            c.case(&text, 2);
            c.count("target: any");
            let evs = o.events();
            if crate::oracle::expanded(&evs) > 100_000 {
                return Ok(());
            }
            let doc = first_doc(&evs);
            let m = Meter::new(text.len());
            let r = run::<V>(&text, &sp, &m, sp.kind == Kind::Str, doc.as_ref(), None);
            done(c, &m);
            match r {
                Ok(true) => c.count("values returned"),
                Ok(false) => {
                    c.count("errors returned");
                    // a document that is all there and needs no expansion deserializes
                    let first: Vec<&E> = evs.iter().take_while(|e| **e != E::DocEnd).collect();
                    if let Some(d) = &doc {
                        if d.all_resolved() && !first.iter().any(|e| matches!(e, E::Alias(_))) {
                            return fail("refused", format!("the document is complete (intact stream: {intact}), but deserializing it fails"));
                        }
                    }
                }
                Err(e) => return fail(if e.starts_with("panic") { "panic" } else { "value" }, e),
            }
            Ok(())
        }
    }
}
