//! Owned, comparable form of what a consumer receives.

use std::fmt::Write;
use yam_core::parsing::{Event, Tag};
use yam_core::prelude::{Marker, ScalarType, Span, YamlError};

pub type TagO = Option<(String, String)>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    Nothing,
    StreamStart,
    StreamEnd,
    DocStart(bool),
    DocEnd,
    Alias(usize),
    Comment(String),
    Scalar { v: String, st: char, a: usize, tag: TagO },
    SeqStart(usize, TagO),
    SeqEnd,
    MapStart(usize, TagO),
    MapEnd,
    /// The library handed out a string that is not UTF-8.
    BadUtf8(Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct M {
    pub pos: usize,
    pub col: u32,
    pub line: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Sp {
    pub s: M,
    pub e: M,
}

impl From<Marker> for M {
    fn from(m: Marker) -> M {
        M { pos: m.pos, col: m.col, line: m.line }
    }
}
impl From<Span> for Sp {
    fn from(m: Span) -> Sp {
        Sp { s: m.start.into(), e: m.end.into() }
    }
}

pub fn style(s: ScalarType) -> char {
    match s {
        ScalarType::Plain => ':',
        ScalarType::Folded => '>',
        ScalarType::Literal => '|',
        ScalarType::SingleQuote => '\'',
        ScalarType::DoubleQuote => '"',
    }
}

pub fn style_back(c: char) -> ScalarType {
    match c {
        '>' => ScalarType::Folded,
        '|' => ScalarType::Literal,
        '\'' => ScalarType::SingleQuote,
        '"' => ScalarType::DoubleQuote,
        _ => ScalarType::Plain,
    }
}

fn ok(s: &str) -> bool {
    std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok()
}

impl E {
    pub fn of(ev: &Event<'_>) -> E {
        let tag = |t: &Option<std::borrow::Cow<'_, Tag>>| -> Result<TagO, Vec<u8>> {
            match t {
                None => Ok(None),
                Some(t) => {
                    for s in [&t.handle, &t.suffix] {
                        if !ok(s) {
                            return Err(s.as_bytes().to_vec());
                        }
                    }
                    Ok(Some((t.handle.clone(), t.suffix.clone())))
                }
            }
        };
        match ev {
            Event::Nothing => E::Nothing,
            Event::StreamStart => E::StreamStart,
            Event::StreamEnd => E::StreamEnd,
            Event::DocumentStart(b) => E::DocStart(*b),
            Event::DocumentEnd => E::DocEnd,
            Event::Alias(n) => E::Alias(*n),
            Event::Comment(c) => {
                if ok(c) {
                    E::Comment(c.to_string())
                } else {
                    E::BadUtf8(c.as_bytes().to_vec())
                }
            }
            Event::Scalar(s) => {
                if !ok(&s.value) {
                    return E::BadUtf8(s.value.as_bytes().to_vec());
                }
                match tag(&s.tag) {
                    Ok(tag) => E::Scalar { v: s.value.to_string(), st: style(s.scalar_type), a: s.anchor_id, tag },
                    Err(b) => E::BadUtf8(b),
                }
            }
            Event::SequenceStart(a, t) => tag(t).map_or_else(E::BadUtf8, |t| E::SeqStart(*a, t)),
            Event::SequenceEnd => E::SeqEnd,
            Event::MappingStart(a, t) => tag(t).map_or_else(E::BadUtf8, |t| E::MapStart(*a, t)),
            Event::MappingEnd => E::MapEnd,
        }
    }

    pub fn anchor(&self) -> usize {
        match self {
            E::Scalar { a, .. } | E::SeqStart(a, _) | E::MapStart(a, _) => *a,
            _ => 0,
        }
    }

    pub fn with_anchor(&self, n: usize) -> E {
        let mut e = self.clone();
        match &mut e {
            E::Scalar { a, .. } | E::SeqStart(a, _) | E::MapStart(a, _) => *a = n,
            E::Alias(a) => *a = n,
            _ => {}
        }
        e
    }

    pub fn show(&self) -> String {
        let p = |a: &usize, t: &TagO| {
            let mut s = String::new();
            if *a > 0 {
                let _ = write!(s, " &{a}");
            }
            if let Some((h, x)) = t {
                let _ = write!(s, " <{h}|{x}>");
            }
            s
        };
        match self {
            E::Nothing => "NOTHING".into(),
            E::StreamStart => "+STR".into(),
            E::StreamEnd => "-STR".into(),
            E::DocStart(b) => format!("+DOC{}", if *b { " ---" } else { "" }),
            E::DocEnd => "-DOC".into(),
            E::Alias(n) => format!("=ALI *{n}"),
            E::Comment(c) => format!("#COM {c:?}"),
            E::Scalar { v, st, a, tag } => format!("=VAL{} {st}{v:?}", p(a, tag)),
            E::SeqStart(a, t) => format!("+SEQ{}", p(a, t)),
            E::SeqEnd => "-SEQ".into(),
            E::MapStart(a, t) => format!("+MAP{}", p(a, t)),
            E::MapEnd => "-MAP".into(),
            E::BadUtf8(b) => format!("BAD-UTF8 {b:02x?}"),
        }
    }
}

/// Renumbers anchors by first appearance, starting afresh at every document, and leaves comments out.
pub fn canon<'a>(evs: impl Iterator<Item = &'a E>) -> Vec<E> {
    let mut map: Vec<usize> = Vec::new();
    evs.filter(|e| !matches!(e, E::Comment(_))).map(|e| {
        if let E::DocStart(_) = e {
            map.clear();
        }
        if let E::Alias(n) = e {
            // the latest definition of that number
            return match map.iter().rposition(|x| x == n) {
                Some(i) => E::Alias(i + 1),
                None => E::Alias(usize::MAX),
            };
        }
        let a = e.anchor();
        if a > 0 {
            map.push(a);
            e.with_anchor(map.len())
        } else {
            e.clone()
        }
    })
    .collect()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End {
    /// End of stream was signalled.
    Eos,
    /// The parser reported this error.
    Err(String),
    /// The call unwound with this message.
    Panic(String),
    /// The simulator stopped the call: it exceeded its step budget.
    Budget(String),
    /// The consumer stopped asking.
    Open,
}

impl End {
    pub fn show(&self) -> String {
        match self {
            End::Eos => "end of stream".into(),
            End::Err(e) => format!("error {e}"),
            End::Panic(e) => format!("PANIC {e}"),
            End::Budget(e) => format!("BUDGET {e}"),
            End::Open => "open".into(),
        }
    }
    pub fn crashed(&self) -> bool {
        matches!(self, End::Panic(_) | End::Budget(_))
    }
}

pub fn err_str(e: &YamlError) -> String {
    format!("{e:?}")
}

pub fn err_mark(e: &YamlError) -> Option<M> {
    match e {
        YamlError::ScannerErr { mark, .. } => Some((*mark).into()),
        _ => None,
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub evs: Vec<(E, Sp)>,
    pub end: End,
    pub err_at: Option<M>,
}

impl Obs {
    pub fn new() -> Obs {
        Obs { evs: Vec::new(), end: End::Open, err_at: None }
    }
    pub fn events(&self) -> Vec<E> {
        self.evs.iter().map(|x| x.0.clone()).collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for (e, s) in &self.evs {
            hash_str(&mut h, &e.show());
            hash_u(&mut h, s.s.pos as u64);
            hash_u(&mut h, s.e.pos as u64);
        }
        hash_str(&mut h, &self.end.show());
        h
    }
}

pub fn hash_str(h: &mut u64, s: &str) {
    for b in s.as_bytes() {
        *h = (*h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    *h = (*h ^ 0xff).wrapping_mul(0x100_0000_01b3);
}
pub fn hash_u(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(17);
}

/// First difference between two observations, or `None`.
pub fn diff(a: &Obs, an: &str, b: &Obs, bn: &str) -> Option<String> {
    let n = a.evs.len().min(b.evs.len());
    for i in 0..n {
        if a.evs[i] != b.evs[i] {
            return Some(format!(
                "event {i}: {an} gives {} at {}, {bn} gives {} at {}",
                a.evs[i].0.show(),
                show_sp(&a.evs[i].1),
                b.evs[i].0.show(),
                show_sp(&b.evs[i].1)
            ));
        }
    }
    if a.evs.len() != b.evs.len() || a.end != b.end {
        let at = |o: &Obs| match o.evs.get(n) {
            Some(e) => format!("{} at {}", e.0.show(), show_sp(&e.1)),
            None => o.end.show(),
        };
        return Some(format!("event {n}: {an} gives {}, {bn} gives {}", at(a), at(b)));
    }
    None
}

pub fn show_sp(s: &Sp) -> String {
    format!("{}({}:{})..{}({}:{})", s.s.pos, s.s.line, s.s.col, s.e.pos, s.e.line, s.e.col)
}
