//! Reference models the recorded histories are checked against.

use crate::ev::*;
use std::collections::{BTreeMap, HashSet};
use crate::typed::V;
use yam_core::node::YamlScalar;
use yam_core::prelude::{Yaml, YamlData};

// ---------------------------------------------------------------- well-formedness

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum F {
    Seq,
    /// mapping; true: a key came, its value is due
    Map(bool),
}

/// Accepts exactly the prefixes of well-formed event sequences.
pub struct Grammar {
    started: bool,
    ended: bool,
    in_doc: bool,
    node_done: bool,
    stack: Vec<F>,
    seen: HashSet<usize>,
    last: usize,
}

impl Grammar {
    pub fn new() -> Grammar {
        Grammar { started: false, ended: false, in_doc: false, node_done: false, stack: Vec::new(), seen: HashSet::new(), last: 0 }
    }
    pub fn complete(&self) -> bool {
        self.ended
    }
    fn anchor(&mut self, a: usize) -> Result<(), String> {
        if a == 0 {
            return Ok(());
        }
        if a <= self.last {
            return Err(format!("anchor number {a} after {}", self.last));
        }
        self.last = a;
        self.seen.insert(a);
        Ok(())
    }
    /// a node may begin here
    fn begin(&mut self) -> Result<(), String> {
        if !self.in_doc {
            return Err("a node outside a document".into());
        }
        if self.stack.is_empty() && self.node_done {
            return Err("a second root node in one document".into());
        }
        Ok(())
    }
    fn finish(&mut self) {
        match self.stack.last_mut() {
            None => self.node_done = true,
            Some(F::Seq) => {}
            Some(F::Map(k)) => *k = !*k,
        }
    }
    pub fn feed(&mut self, e: &E) -> Result<(), String> {
        if self.ended {
            return Err(format!("{} after the end of the stream", e.show()));
        }
        if !self.started {
            if *e != E::StreamStart {
                return Err(format!("the first event is {}", e.show()));
            }
            self.started = true;
            return Ok(());
        }
        match e {
            E::Comment(_) => Ok(()),
            E::Nothing => Err("an empty event was delivered".into()),
            E::BadUtf8(_) => Ok(()), // C13
            E::StreamStart => Err("a second stream start".into()),
            E::StreamEnd => {
                if self.in_doc {
                    return Err("stream end inside a document".into());
                }
                self.ended = true;
                Ok(())
            }
            E::DocStart(_) => {
                if self.in_doc {
                    return Err("document start inside a document".into());
                }
                self.in_doc = true;
                self.node_done = false;
                self.seen.clear();
                Ok(())
            }
            E::DocEnd => {
                if !self.in_doc {
                    return Err("document end outside a document".into());
                }
                if !self.stack.is_empty() || !self.node_done {
                    return Err("document end before its node is complete".into());
                }
                self.in_doc = false;
                Ok(())
            }
            E::Alias(n) => {
                self.begin()?;
                if !self.seen.contains(n) {
                    return Err(format!("alias to {n}, which no earlier node of the document carries"));
                }
                self.finish();
                Ok(())
            }
            E::Scalar { a, .. } => {
                self.begin()?;
                self.anchor(*a)?;
                self.finish();
                Ok(())
            }
            E::SeqStart(a, _) => {
                self.begin()?;
                self.anchor(*a)?;
                self.stack.push(F::Seq);
                Ok(())
            }
            E::MapStart(a, _) => {
                self.begin()?;
                self.anchor(*a)?;
                self.stack.push(F::Map(false));
                Ok(())
            }
            E::SeqEnd => match self.stack.pop() {
                Some(F::Seq) => {
                    self.finish();
                    Ok(())
                }
                x => Err(format!("sequence end while {x:?} is open")),
            },
            E::MapEnd => match self.stack.pop() {
                Some(F::Map(false)) => {
                    self.finish();
                    Ok(())
                }
                Some(F::Map(true)) => Err("mapping ends after a key without value".into()),
                x => Err(format!("mapping end while {x:?} is open")),
            },
        }
    }
}

// ---------------------------------------------------------------- marks

/// True line and column of every offset.
pub struct Lines {
    starts: Vec<usize>,
    len: usize,
    /// size of the byte order marks at the start of each line; they have no column
    boms: Vec<usize>,
}

impl Lines {
    pub fn new(b: &[u8]) -> Lines {
        let mut starts = vec![0];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\r' {
                if b.get(i + 1) == Some(&b'\n') {
                    i += 1;
                }
                starts.push(i + 1);
            } else if b[i] == b'\n' {
                starts.push(i + 1);
            }
            i += 1;
        }
        // only where a document may begin: after the stream's start or `...` and comment lines
        let mut boms = Vec::with_capacity(starts.len());
        let mut prefix = true;
        for (i, from) in starts.iter().enumerate() {
            let line = &b[*from..starts.get(i + 1).copied().unwrap_or(b.len())];
            let mut n = 0;
            while prefix && line[n..].starts_with(b"\xef\xbb\xbf") {
                n += 3;
            }
            boms.push(n);
            let text = &line[n..];
            let end = text.starts_with(b"...") && text.get(3).is_none_or(|c| b" \t\r\n\0".contains(c));
            let nothing = matches!(text.iter().find(|c| !b" \t\r\n".contains(c)), None | Some(b'#'));
            prefix = end || prefix && nothing;
        }
        Lines { starts, len: b.len(), boms }
    }
    pub fn at(&self, pos: usize) -> (u32, u32) {
        let l = self.starts.partition_point(|s| *s <= pos) - 1;
        let from = (self.starts[l] + self.boms[l]).min(pos);
        ((l + 1) as u32, (pos - from + 1) as u32)
    }
    pub fn check(&self, m: &M) -> Result<(), String> {
        if m.pos > self.len {
            return Err(format!("offset {} in a stream of {} bytes", m.pos, self.len));
        }
        let (l, c) = self.at(m.pos);
        // the stream may have broken off inside the mark
        let line = self.starts.partition_point(|s| *s <= m.pos) - 1;
        let at = m.pos - self.starts[line];
        if at < self.boms[line] && (m.line as usize, m.col as usize) == (line + 1, at + 1) {
            return Ok(());
        }
        if (m.line, m.col) == (l, c) {
            return Ok(());
        }
        // the end of an unterminated last line counts as a line of its own
        if m.pos == self.len && (m.line, m.col) == (l + 1, 1) && c > 1 {
            return Ok(());
        }
        Err(format!("offset {} is line {l} column {c}, reported as line {} column {}", m.pos, m.line, m.col))
    }
}

// ---------------------------------------------------------------- trees

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Null,
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(String),
    Bad,
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    Tagged(String, String, Box<T>),
    Alias(usize),
}

impl T {
    pub fn show(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
    }
}

fn scalar(s: Option<YamlScalar<'_>>) -> T {
    match s {
        None => T::Bad,
        Some(YamlScalar::Null(_)) => T::Null,
        Some(YamlScalar::Bool(b)) => T::Bool(b),
        Some(YamlScalar::Integer(i)) => T::Int(i),
        Some(YamlScalar::FloatingPoint(f)) => T::Float(f.to_bits()),
        Some(YamlScalar::String(s)) => T::Str(s.into_owned()),
    }
}

fn value_tree(v: Option<V>) -> T {
    match v {
        None => T::Bad,
        Some(V::Null) => T::Null,
        Some(V::Bool(b)) => T::Bool(b),
        Some(V::Int(i)) => T::Int(i),
        Some(V::Float(f)) => T::Float(f),
        Some(V::Str(s)) => T::Str(s),
        Some(V::Seq(_) | V::Map(_)) => unreachable!(),
    }
}

/// What the core schema says about plain text, with two documented habits of the library: the
/// empty scalar is the empty string, and integers beyond 64 bits are not integers.
pub fn plain(s: &str) -> V {
    if matches!(s, "~" | "null" | "Null" | "NULL") {
        return V::Null;
    }
    if matches!(s, "true" | "True" | "TRUE") {
        return V::Bool(true);
    }
    if matches!(s, "false" | "False" | "FALSE") {
        return V::Bool(false);
    }
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let value = |digits: &str, radix: u32| -> Option<i128> {
        let mut n = 0i128;
        for c in digits.chars() {
            n = n.saturating_mul(i128::from(radix)).saturating_add(i128::from(c.to_digit(radix)?));
        }
        if digits.is_empty() { None } else { Some(n) }
    };
    for (p, r) in [("0x", 16), ("0o", 8)] {
        if let Some(n) = s.strip_prefix(p).and_then(|d| value(d, r)) {
            if let Ok(i) = i64::try_from(n) {
                return V::Int(i);
            }
        }
    }
    if let Some(n) = value(body, 10) {
        if let Ok(i) = i64::try_from(if neg { -n } else { n }) {
            return V::Int(i);
        }
    }
    match body {
        ".inf" | ".Inf" | ".INF" => return V::Float(if neg { f64::NEG_INFINITY } else { f64::INFINITY }.to_bits()),
        ".nan" | ".NaN" | ".NAN" if body.len() == s.len() => return V::Float(f64::NAN.to_bits()),
        _ => {}
    }
    // [-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?
    let digits = |x: &str| x.bytes().take_while(u8::is_ascii_digit).count();
    let a = digits(body);
    let mut rest = &body[a..];
    let mut b = 0;
    if let Some(r) = rest.strip_prefix('.') {
        b = digits(r);
        rest = &r[b..];
    }
    if a + b == 0 {
        return V::Str(s.into());
    }
    if let Some(r) = rest.strip_prefix(['e', 'E']) {
        let r = r.strip_prefix(['-', '+']).unwrap_or(r);
        let n = digits(r);
        rest = if n == 0 { "e" } else { &r[n..] };
    }
    match s.parse::<f64>() {
        Ok(f) if rest.is_empty() => V::Float(f.to_bits()),
        _ => V::Str(s.into()),
    }
}

/// The value a scalar node denotes, if any.
pub fn resolve(v: &str, st: char, tag: &TagO) -> Option<V> {
    if st != ':' {
        // the library takes every quoted or block scalar for a string, whatever its tag says
        return Some(V::Str(v.into()));
    }
    match tag {
        Some((h, suffix)) if h == CORE => match (suffix.as_str(), plain(v)) {
            ("str", _) => Some(V::Str(v.into())),
            ("bool", b @ V::Bool(_)) => Some(b),
            ("int", i @ V::Int(_)) => Some(i),
            ("float", f @ V::Float(_)) => Some(f),
            ("float", V::Int(_)) => v.parse().ok().map(|f: f64| V::Float(f.to_bits())),
            ("null", V::Null) => Some(V::Null),
            ("null", _) if v.is_empty() => Some(V::Null),
            _ => None,
        },
        _ => Some(plain(v)),
    }
}

const CORE: &str = "tag:yaml.org,2002:";

/// Node count of every document once aliases are expanded (saturating).
pub fn expanded(evs: &[E]) -> u64 {
    let mut sizes: BTreeMap<usize, u64> = BTreeMap::new();
    let mut stack: Vec<(usize, u64)> = Vec::new();
    let mut total = 0u64;
    for e in evs {
        let n = match e {
            E::Scalar { a, .. } => {
                sizes.insert(*a, 1);
                1
            }
            E::Alias(a) => sizes.get(a).copied().unwrap_or(1),
            E::SeqStart(a, _) | E::MapStart(a, _) => {
                stack.push((*a, 1));
                continue;
            }
            E::SeqEnd | E::MapEnd => {
                let Some((a, n)) = stack.pop() else { continue };
                sizes.insert(a, n);
                n
            }
            _ => continue,
        };
        total = total.saturating_add(n);
        if let Some(t) = stack.last_mut() {
            t.1 = t.1.saturating_add(n);
        }
    }
    total
}

pub fn depth(evs: &[E]) -> usize {
    let (mut d, mut m) = (0usize, 0usize);
    for e in evs {
        match e {
            E::SeqStart(..) | E::MapStart(..) => {
                d += 1;
                m = m.max(d);
            }
            E::SeqEnd | E::MapEnd => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

/// The trees of all complete documents the events describe.
pub fn trees(evs: &[E]) -> Vec<T> {
    let mut docs = Vec::new();
    let mut stack: Vec<(T, Option<T>, usize, TagO)> = Vec::new();
    let mut root: Option<T> = None;
    let mut anchors: BTreeMap<usize, T> = BTreeMap::new();
    for e in evs {
        let node = match e {
            E::DocStart(_) => {
                root = None;
                continue;
            }
            E::DocEnd => {
                docs.push(root.take().unwrap_or(T::Bad));
                continue;
            }
            E::Scalar { v, st, a, tag } => {
                let n = match tag {
                    Some((h, s)) if h != CORE => T::Tagged(
                        h.clone(),
                        s.clone(),
                        Box::new(value_tree(resolve(v, *st, &None))),
                    ),
                    _ => value_tree(resolve(v, *st, tag)),
                };
                if *a > 0 {
                    anchors.insert(*a, n.clone());
                }
                n
            }
            E::Alias(a) => anchors.get(a).cloned().unwrap_or(T::Bad),
            E::SeqStart(a, t) => {
                stack.push((T::Seq(Vec::new()), None, *a, t.clone()));
                continue;
            }
            E::MapStart(a, t) => {
                stack.push((T::Map(Vec::new()), None, *a, t.clone()));
                continue;
            }
            E::SeqEnd | E::MapEnd => {
                let Some((n, _, a, t)) = stack.pop() else { continue };
                let n = match t {
                    Some((h, s)) if h != CORE => T::Tagged(h, s, Box::new(n)),
                    _ => n,
                };
                if a > 0 {
                    anchors.insert(a, n.clone());
                }
                n
            }
            _ => continue,
        };
        match stack.last_mut() {
            None => root = Some(node),
            Some((T::Seq(v), ..)) => v.push(node),
            Some((T::Map(v), k, ..)) => match k.take() {
                None => *k = Some(node),
                Some(key) => v.push((key, node)),
            },
            _ => {}
        }
    }
    docs
}

pub fn tree_of(y: &Yaml<'_>) -> T {
    match &y.0 {
        YamlData::BadValue => T::Bad,
        YamlData::Scalar(s) => scalar(Some(s.clone())),
        YamlData::Sequence(v) => T::Seq(v.iter().map(tree_of).collect()),
        YamlData::Mapping(m) => T::Map(m.iter().map(|e| (tree_of(&e.key), tree_of(&e.value))).collect()),
        YamlData::Tagged(t, n) => T::Tagged(t.handle.clone(), t.suffix.clone(), Box::new(tree_of(n))),
        YamlData::Alias(n) => T::Alias(*n),
    }
}

pub fn diff_trees(want: &[T], got: &[T]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(a), Some(b)) => return Some(format!("document {i}: expected {}, loaded {}", a.show(), b.show())),
            (Some(a), None) => return Some(format!("document {i} ({}) was not loaded", a.show())),
            (None, Some(b)) => return Some(format!("an extra document {i} was loaded: {}", b.show())),
            (None, None) => {}
        }
    }
    None
}
