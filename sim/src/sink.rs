//! C14: text sinks that fail.

use crate::ev::hash_str;
use crate::run::*;
use crate::tape::Tape;
use serde::Serialize;
use std::borrow::Cow;
use std::fmt;
use yam_core::node::YamlScalar;
use yam_core::parsing::Tag;
use yam_core::prelude::{Yaml, YamlData, YamlEntry};
use yam_core::sim_hooks::YamlEmitter;
use yam_serde::ser::{PrettyFormatter, YamSerializer};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// every write from the n-th on fails
    From(usize),
    /// only the n-th write fails
    Once(usize),
    /// the sink holds n bytes; the write that overflows it is cut short
    Full(usize),
    /// as `Full`, but whatever does not fit is refused whole
    FullWhole(usize),
}

struct Sink {
    out: String,
    writes: usize,
    fault: Fault,
    failed: Option<usize>,
    /// writes attempted after the failed one
    late: usize,
    clock: u64,
    /// the operator has freed space: everything works from here on
    healed: std::rc::Rc<std::cell::Cell<bool>>,
    healed_at: Option<usize>,
}
impl Sink {
    fn new(fault: Fault) -> Sink {
        Sink { out: String::new(), writes: 0, fault, failed: None, late: 0, clock: 0, healed: Default::default(), healed_at: None }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.writes;
        self.writes += 1;
        self.clock += 1;
        if self.healed.get() {
            self.healed_at.get_or_insert(self.out.len());
            self.out.push_str(s);
            return Ok(());
        }
        if self.failed.is_some() {
            self.late += 1;
        }
        let mut bad = match self.fault {
            Fault::None => false,
            Fault::From(n) => k >= n,
            Fault::Once(n) => k == n,
            Fault::Full(n) | Fault::FullWhole(n) => self.out.len() + s.len() > n,
        };
        if bad {
            if let Fault::Full(n) = self.fault {
                let mut cut = n.saturating_sub(self.out.len()).min(s.len());
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                self.out.push_str(&s[..cut]);
            }
            self.failed.get_or_insert(k);
            return Err(fmt::Error);
        }
        bad = false;
        let _ = bad;
        self.out.push_str(s);
        Ok(())
    }
}

fn string(t: &mut Tape) -> String {
    let mut s = String::new();
    let mut n = t.small(8, 700);
    if t.below(3000) == 2999 {
        n = 100 + t.us(3000);
    }
    for _ in 0..n {
        if t.chance(60) {
            s.push(char::from(t.below(32) as u8));
        }
        s.push_str(t.pick(&[
            "a", "word", " ", "\n", "é日", "😀", "\"", "'", "\\n", "\\t", "\t", "\r\n", "\r", ": ", "#", "- ", "12", "true", "null", "~", "\u{1}", "\u{7f}", "  ", "long words follow each other here", "[", "{x", "\u{85}",
            "\u{301}", ".", "0x1", "verylongwordwithoutanyspaceatallthatexceedstheline",
        ]));
    }
    s
}

fn value(t: &mut Tape, depth: u32) -> Yaml<'static> {
    let k = if depth == 0 { t.us(6) } else { t.weighted(&[3, 1, 1, 1, 1, 1, 5, 5, 2]) };
    Yaml(match k {
        0 => YamlData::Scalar(YamlScalar::String(Cow::Owned(string(t)))),
        1 => YamlData::Scalar(YamlScalar::Null(std::marker::PhantomData)),
        2 => YamlData::Scalar(YamlScalar::Bool(t.chance(500))),
        3 => YamlData::Scalar(YamlScalar::Integer(if t.chance(100) { *t.pick(&[i64::MAX, i64::MIN, 0, -1]) } else { i64::from(t.below(100_000)) - 50_000 })),
        4 => YamlData::Scalar(YamlScalar::FloatingPoint(*t.pick(&[0.0, -1.5, 1e300, f64::NAN, f64::INFINITY, 0.1]))),
        5 => if t.chance(300) { YamlData::Alias(t.us(9)) } else { YamlData::BadValue },
        6 => {
            let n = if t.below(1000) == 999 { t.us(300) } else { t.us(5) };
            YamlData::Sequence((0..n).map(|_| value(t, depth - 1)).collect())
        }
        7 => {
            let n = t.us(5);
            YamlData::Mapping((0..n).map(|_| YamlEntry::new(value(t, depth - 1), value(t, depth - 1))).collect())
        }
        _ => {
            let tag = Tag { handle: (*t.pick(&["!", "", "tag:x,1:"])).to_string(), suffix: "t".into() };
            YamlData::Tagged(Cow::Owned(tag), Box::new(value(t, depth - 1)))
        }
    })
}

/// What is written, and how.
enum Job {
    Emit { y: Yaml<'static>, compact: bool, multi: bool },
    Ser { v: Val, f: (bool, usize, usize, &'static str, u8) },
}

#[derive(Debug, Clone)]
enum Val {
    Str(String),
    Bool(bool),
    I(i64, u8),
    U(u64, u8),
    F(f64),
    F32(f32),
    Ch(char),
    Some(Box<Val>),
    None,
    Unit,
}
impl Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Str(x) => s.serialize_str(x),
            Val::Bool(x) => s.serialize_bool(*x),
            Val::I(x, 0) => s.serialize_i8(*x as i8),
            Val::I(x, 1) => s.serialize_i16(*x as i16),
            Val::I(x, 2) => s.serialize_i32(*x as i32),
            Val::I(x, _) => s.serialize_i64(*x),
            Val::U(x, 0) => s.serialize_u8(*x as u8),
            Val::U(x, 1) => s.serialize_u16(*x as u16),
            Val::U(x, 2) => s.serialize_u32(*x as u32),
            Val::U(x, _) => s.serialize_u64(*x),
            Val::F(x) => s.serialize_f64(*x),
            Val::F32(x) => s.serialize_f32(*x),
            Val::Ch(x) => s.serialize_char(*x),
            Val::Some(x) => s.serialize_some(&**x),
            Val::None => s.serialize_none(),
            Val::Unit => s.serialize_unit(),
        }
    }
}

impl Job {
    fn draw(t: &mut Tape) -> Job {
        if t.chance(500) {
            let depth = *t.pick(&[3u32, 1, 5]);
            Job::Emit { y: value(t, depth), compact: t.chance(500), multi: t.chance(500) }
        } else {
            let mut v = match t.weighted(&[8, 1, 1, 1, 1, 1, 1, 1, 1]) {
                0 => {
                    let n = t.us(3);
                    Val::Str((0..=n).map(|_| string(t)).collect())
                }
                1 => Val::Bool(t.chance(500)),
                2 => Val::I((i64::from(t.below(1 << 30)) - (1 << 29)) << t.below(30), t.below(4) as u8),
                3 => Val::U(u64::from(t.below(1 << 30)) << t.below(34), t.below(4) as u8),
                4 => Val::F(*t.pick(&[0.0, -0.0, 1.5, f64::NAN, -f64::NAN, f64::NEG_INFINITY])),
                5 => Val::F32(*t.pick(&[0.5, -f32::NAN, 1e30])),
                6 => Val::Ch(*t.pick(&['a', '\'', '"', '😀', '\n'])),
                7 => Val::None,
                _ => Val::Unit,
            };
            for _ in 0..t.small(2, 300) {
                v = Val::Some(Box::new(v));
            }
            // `depth_limit` cannot be made to choose the single-line form: the depth is always 0
            Job::Ser { v, f: (t.chance(500), t.us(3), *t.pick(&[80, 0, 1, 10, 20]), *t.pick(&["", "  ", "é"]), t.below(2) as u8) }
        }
    }
    fn show(&self) -> String {
        match self {
            Job::Emit { y, compact, multi } => format!("emit (compact {compact}, multiline {multi}) {:?}", y.0),
            Job::Ser { v, f } => format!("serialize {f:?} {v:?}"),
        }
    }
    /// One attempt; whether the failure was reported. With `again`, the same emitter or serializer
    /// writes the value once more to the sink, which has recovered.
    fn write(&self, sink: &mut Sink, again: bool) -> Result<Result<(), ()>, Stop> {
        let healed = sink.healed.clone();
        guard(|| match self {
            Job::Emit { y, compact, multi } => {
                let mut e: YamlEmitter<'_, f64, i64> = YamlEmitter::new(sink);
                e.compact(*compact);
                e.multiline_strings(*multi);
                let r = e.dump(y).map_err(|_| ());
                if again {
                    healed.set(true);
                    e.dump(y).map_err(|_| abort("the second attempt fails".into())).unwrap();
                }
                r
            }
            Job::Ser { v, f } => {
                let mut s = YamSerializer::new_pretty(sink, formatter(f));
                let r = v.serialize(&mut s).map_err(|_| ());
                if again {
                    healed.set(true);
                    v.serialize(&mut s).map_err(|_| abort("the second attempt fails".into())).unwrap();
                }
                r
            }
        })
    }
    /// The entry point that writes to a string of its own.
    fn to_string(&self) -> Option<Result<String, Stop>> {
        let Job::Ser { v, f } = self else { return None };
        Some(guard(|| yam_serde::to_pretty_string(v, formatter(f)).unwrap_or_else(|_| "an error".into())))
    }
}

fn formatter(f: &(bool, usize, usize, &'static str, u8)) -> PrettyFormatter {
    let mut p = if f.0 { PrettyFormatter::pretty() } else { PrettyFormatter::default() };
    p.depth_limit = f.1;
    p.pref_string_length = f.2;
    p.indentor = Cow::Borrowed(f.3);
    p
}

pub fn c14(t: &mut Tape, c: &mut Ctx) -> Res {
    let job = Job::draw(t);
    c.note("value", || job.show());
    c.count(match job {
        Job::Emit { .. } => "writer: emitter",
        Job::Ser { .. } => "writer: serializer",
    });
    let mut whole = Sink::new(Fault::None);
    match job.write(&mut whole, false) {
        Err(_) => {
            c.count("skipped: the value cannot be written at all");
            return Ok(());
        }
        Ok(Err(())) => return fail("spurious", "writing to a healthy sink reports a failure"),
        Ok(Ok(())) => {}
    }
    c.note("healthy output", || format!("{:?}", whole.out));
    let n = whole.writes;
    c.add("writes", n as u64);
    c.nontrivial = n >= 2;
    c.case(whole.out.as_bytes(), 0);
    c.case(job.show().as_bytes(), 1);
    if n == 0 {
        return Ok(());
    }
    let attempts = 1 + t.us(4);
    for _ in 0..attempts {
        let f = match t.below(4) {
            0 => Fault::From(t.us(n)),
            1 => Fault::Once(t.us(n)),
            2 => Fault::Full(t.us(whole.out.len().max(1))),
            _ => Fault::FullWhole(t.us(whole.out.len().max(1))),
        };
        let mut s = Sink::new(f);
        let again = t.chance(400);
        let r = job.write(&mut s, again);
        c.sim_ms += s.clock;
        c.note("fault", || format!("{f:?}"));
        c.note("written", || format!("{:?}", s.out));
        c.case(format!("{f:?}").as_bytes(), 2);
        let mut h = s.failed.unwrap_or(usize::MAX) as u64;
        hash_str(&mut h, &s.out);
        c.see_u(h);
        let r = match r {
            Err(e) => return fail("panic", format!("{f:?}: {}", end_of(e).show())),
            Ok(r) => r,
        };
        if again {
            c.count("second attempts with the same writer");
            let cut = s.healed_at.unwrap_or(s.out.len());
            let second = s.out.split_off(cut);
            if second != whole.out {
                return fail("after", format!("{f:?}, then written again by the same writer: {second:?} instead of {:?}", whole.out));
            }
        }
        if s.failed.is_none() {
            // only an empty output fits into a sink of no bytes
            if r.is_err() || s.out != whole.out {
                return fail("spurious", format!("{f:?} never struck, but the result differs: {:?}", s.out));
            }
            continue;
        }
        c.count(match f {
            Fault::From(_) => "fault: sink fails for good",
            Fault::Once(_) => "fault: one write fails",
            Fault::Full(_) => "fault: sink full, short write",
            _ => "fault: sink full",
        });
        if s.late > 0 {
            return fail("late write", format!("{f:?}: {} writes were attempted after write {} failed; the sink holds {:?}, healthy output {:?}", s.late, s.failed.unwrap(), s.out, whole.out));
        }
        if r.is_ok() {
            return fail("swallowed", format!("{f:?}: the failed write was not reported; the sink holds {:?}, healthy output {:?}", s.out, whole.out));
        }
        if !whole.out.starts_with(&s.out) {
            return fail("prefix", format!("{f:?}: the sink holds {:?}, which is no prefix of {:?}", s.out, whole.out));
        }
    }
    // and again, to a healthy sink
    let mut s = Sink::new(Fault::None);
    match job.write(&mut s, false) {
        Ok(Ok(())) if s.out == whole.out => match job.to_string() {
            None => Ok(()),
            Some(Ok(x)) if x == whole.out => Ok(()),
            Some(x) => fail("after", format!("to_pretty_string gives {:?}, a sink got {:?}", x.map_err(|e| end_of(e).show()), whole.out)),
        },
        Ok(r) => fail("after", format!("written again after the failure: {r:?} {:?} instead of {:?}", s.out, whole.out)),
        Err(e) => fail("panic", end_of(e).show()),
    }
}
