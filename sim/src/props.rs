//! One simulated scenario per property. Every run draws its whole history from
//! the tape, executes the real library and judges the recorded history.

use crate::ev::*;
use crate::model::{self, Stream, Style};
use crate::oracle::*;
use crate::run::*;
use crate::soup;
use crate::source::*;
use crate::tape::Tape;
use crate::props2::{c06, c07, c08, c09, c10, c11, c12, c13, c16};
use crate::sink::c14;
use crate::typed::c15;
use std::cell::Cell;
use std::rc::Rc;
use yam_core::parsing::parser_iter::YamEvent;
use yam_core::parsing::{Event, EventReceiver, Parser, ParserIter, SpannedEventReceiver};
use yam_core::prelude::{Source, Span, Yaml, YamlError, YamlLoader};
use yam_core::sim_hooks::SkipTabs;

pub type RunFn = fn(&mut Tape, &mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub f: RunFn,
    /// runs of the quick check
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub fn all() -> Vec<Prop> {
    let p = |id, f: RunFn, quick, rule, real, stub| Prop { id, f, quick, rule, real, stub };
    vec![
        p("C01", c01 as RunFn, 2_000_000, "distinct (stream, delivery schedules) of at least 8 bytes whose reference run delivered at least one node", "scanner, parser, StrSource, BufferedBytesSource", "network, clock, the two simulated windows"),
        p("C02", c02, 4_000_000, "distinct (bytes, operation sequence, refill schedule) with at least 4 operations on at least 8 bytes", "StrSource, BufferedBytesSource", "network, clock, the caller (operation sequence instead of the scanner)"),
        p("C03", c03, 1_600_000, "distinct (stream, fault position, damaged tail) with at least one document complete before the fault", "scanner, parser, receiver API, YamlLoader, byte sources", "network, clock, storage medium (fault injector), writer"),
        p("C04", c04, 3_200_000, "distinct (stream, consumer call schedule) with at least 2 kinds of calls and at least 5 events", "scanner, parser, peek/next/iterator/load", "network, clock, consumer (seeded call schedule)"),
        p("C05", c05, 2_000_000, "distinct streams with at least one node delivered", "scanner, parser, ParserIter, receiver API, YamlLoader (all its entry points)", "network, clock"),
        p("C06", c06, 750_000, "distinct (jobs, schedule) with at least 2 jobs and at least 3 switches between them", "scanner, parser, YamlLoader, yam-serde deserializer", "network, clock, task scheduler"),
        p("C07", c07, 4_000_000, "distinct streams of at least 2 bytes", "scanner, parser, ParserIter, YamlLoader, yam-serde deserializer, byte sources", "network, clock, storage medium (fault injector), allocator meter"),
        p("C08", c08, 4_000_000, "distinct streams that delivered at least one node", "scanner, parser, byte sources", "network, clock, storage medium (fault injector)"),
        p("C09", c09, 4_000_000, "distinct (stream that ends in an error, call schedule after the error)", "scanner, parser, peek/next/iterator/load, ParserIter", "network, clock, consumer (seeded call schedule)"),
        p("C10", c10, 2_400_000, "distinct (stream, delivery schedule) with at least 2 documents exchanged under acknowledgement", "scanner, parser, receiver API", "network, clock, remote writer, simulated windows (the shipped byte source reads ahead by design)"),
        p("C11", c11, 2_000_000, "distinct (stream, restart position or order of documents) with at least 2 documents", "scanner, parser", "network, clock, writer, consumer crash and restart"),
        p("C12", c12, 5_000_000, "distinct streams with at least one node delivered", "scanner, parser, byte sources", "network, clock, writer, storage medium (fault injector)"),
        p("C13", c13, 5_000_000, "distinct (stream, source) of at least 2 bytes", "scanner, parser, StrSource, BufferedBytesSource", "network, clock, contract meter around every source"),
        p("C14", c14, 8_000_000, "distinct (value, configuration, failure) with at least two writes", "YamlEmitter, YamSerializer", "text sink"),
        p("C15", c15, 5_000_000, "distinct (stream, target type) of at least 2 bytes", "scanner, parser, ParserIter, yam-serde deserializer, serde derive", "network, clock, storage medium (fault injector)"),
        p("C17", crate::comments::c17, 2_000_000, "distinct (stream, delivery, consumer) with at least one comment delivered", "scanner, parser, ParserIter, receiver API, YamlLoader, yam-serde deserializer, byte sources, built with the `comment` feature and, for comparison, without", "network, clock, writer, storage medium (fault injector), consumer"),
        p("C18", crate::props3::c18, 4_000_000, "distinct damaged streams", "scanner, parser, receiver API, YamlLoader, byte sources", "network, clock, writer, storage medium (fault injector)"),
        p("C16", c16, 3_600_000, "distinct (stream, crash schedule) with at least one crash and at least 5 events", "scanner, parser, receiver API", "network, clock, receiver (crashes by unwinding)"),
    ]
}

// ------------------------------------------------------------------ helpers

pub fn text_of(t: &mut Tape, c: &mut Ctx) -> (Rc<Vec<u8>>, Option<Stream>) {
    let w = soup::any(t, c);
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&w.text)));
    (Rc::new(w.text), w.model)
}

pub fn spec(t: &mut Tape, c: &mut Ctx) -> Spec {
    let k = *t.pick(&KINDS);
    let s = Spec::random(t, k);
    deliver(c, &s);
    s
}

pub fn sim_spec(t: &mut Tape, c: &mut Ctx) -> Spec {
    let k = *t.pick(&[Kind::SimMin, Kind::SimBulk]);
    let s = Spec::random(t, k);
    deliver(c, &s);
    s
}

pub fn deliver(c: &mut Ctx, s: &Spec) {
    c.count(&format!("source: {:?}", s.kind));
    if s.kind != Kind::Str && s.kind != Kind::Bytes {
        if s.chunks.iter().any(|x| x.0 < 4) {
            c.count("fault: short reads (1-3 bytes)");
        }
        if s.chunks.iter().any(|x| x.1 > 1000) {
            c.count("fault: stalled peer (over 1 s)");
        }
    }
    c.note("delivery", || s.show());
}

pub fn done(c: &mut Ctx, m: &Rc<Meter>) {
    c.sim_ms += m.clock.get();
    c.add("source accesses", m.ops.get());
}

pub fn note_obs(c: &mut Ctx, who: &str, o: &Obs) {
    if c.trace.is_some() {
        let mut s = String::new();
        for (e, sp) in o.evs.iter().take(400) {
            s.push_str(&format!("{} @{}; ", e.show(), show_sp(sp)));
        }
        s.push_str(&o.end.show());
        c.note(who, || s);
    }
}

pub fn pull(text: &Rc<Vec<u8>>, s: &Spec, c: &mut Ctx) -> (Obs, Rc<Meter>) {
    let (o, m) = pull_all(text, s);
    done(c, &m);
    c.add("events delivered", o.evs.len() as u64);
    match &o.end {
        End::Err(_) => c.count("runs ending in a parse error"),
        End::Eos => c.count("runs ending at end of stream"),
        _ => c.count("runs that crashed (judged by C07)"),
    }
    (o, m)
}

pub fn has_node(o: &Obs) -> bool {
    o.evs.iter().any(|(e, _)| matches!(e, E::Scalar { .. } | E::SeqStart(..) | E::MapStart(..)))
}

/// First difference of two canonical event lists, over the first `n` events of `want`.
pub fn diff_evs(want: &[E], got: &[E], n: usize) -> Option<String> {
    for i in 0..n {
        let w = &want[i];
        match got.get(i) {
            Some(g) if g == w => {}
            Some(g) => return Some(format!("event {i}: written {}, received {}", w.show(), g.show())),
            None => return Some(format!("event {i}: written {}, received nothing", w.show())),
        }
    }
    None
}

/// Records pushed events; can crash at chosen events.
pub struct Recv {
    pub o: Obs,
    pub crash_at: Option<usize>,
    pub cap: usize,
    pub ack: Option<Rc<Cell<(usize, usize)>>>,
}
impl Recv {
    pub fn new(len: usize) -> Recv {
        Recv { o: Obs::new(), crash_at: None, cap: event_budget(len), ack: None }
    }
}
impl SpannedEventReceiver<'static> for Recv {
    fn on_event(&mut self, ev: Event<'static>, span: Span) {
        let e = E::of(&ev);
        if let Some(a) = &self.ack {
            ack(a, &e);
        }
        self.o.evs.push((e, span.into()));
        if self.o.evs.len() > self.cap {
            abort(format!("more than {} events pushed", self.cap));
        }
        if self.crash_at == Some(self.o.evs.len() - 1) {
            std::panic::resume_unwind(Box::new(Crash));
        }
    }
}

pub fn ack(a: &Cell<(usize, usize)>, e: &E) {
    let (s, n) = a.get();
    match e {
        E::DocStart(_) => a.set((s + 1, n)),
        E::DocEnd => a.set((s, n + 1)),
        _ => {}
    }
}

pub fn set_end<T>(o: &mut Obs, r: Result<Result<T, yam_core::prelude::YamlError>, Stop>) -> Option<T> {
    match r {
        Err(s) => {
            o.end = end_of(s);
            None
        }
        Ok(Err(e)) => {
            o.end = End::Err(err_str(&e));
            o.err_at = err_mark(&e);
            None
        }
        Ok(Ok(v)) => Some(v),
    }
}

// ------------------------------------------------------------------ C01

pub fn c01(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let (o0, _) = pull(&text, &Spec::plain(Kind::SimMin), c);
    note_obs(c, "reference", &o0);
    c.see(&o0);
    if o0.end.crashed() {
        return Ok(());
    }
    c.nontrivial = text.len() >= 8 && has_node(&o0);
    c.case(&text, 0);
    let n = 2 + t.us(2);
    let mut kinds = vec![Kind::Str, *t.pick(&[Kind::Bytes, Kind::Iter])];
    for _ in 2..n {
        kinds.push(*t.pick(&[Kind::SimMin, Kind::SimBulk, Kind::Iter]));
    }
    for k in kinds {
        let s = Spec::random(t, k);
        deliver(c, &s);
        let (o, _) = pull(&text, &s, c);
        c.case(s.show().as_bytes(), 1);
        if let Some(d) = diff(&o0, "the byte-by-byte reference delivery", &o, &s.show()) {
            return fail("delivery", d);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn brk(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn flow(c: u8) -> bool {
    matches!(c, b',' | b'[' | b']' | b'{' | b'}')
}

fn c02_text(t: &mut Tape, c: &mut Ctx) -> Vec<u8> {
    if t.chance(300) {
        return soup::any(t, c).text;
    }
    // long runs of few byte classes, around the sizes of the windows
    let mut out = Vec::new();
    let n = t.us(12);
    for _ in 0..n {
        let w = *t.pick(&[" ", "a", "\t", "\n", "#", "é", "\r\n", "日", "-", ".", ":", "x_-9", "😀", "  \t", " #c ", ",", "---", "...", "\r", "]", "\0"]);
        let k = match t.below(4) {
            0 => 1,
            1 => t.us(4) + 1,
            2 => t.us(40) + 1,
            _ => *t.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 128, 129]),
        };
        for _ in 0..k {
            out.extend_from_slice(w.as_bytes());
        }
    }
    out
}

pub fn c02(t: &mut Tape, c: &mut Ctx) -> Res {
    let text = Rc::new(c02_text(t, c));
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    let kind = *t.pick(&[Kind::Iter, Kind::Bytes, Kind::Str]);
    let s = Spec::random(t, kind);
    deliver(c, &s);
    let m = Meter::new(text.len());
    let mut src = match guard(|| open(&text, &s, &m)) {
        Ok(s) => s,
        Err(_) => return fail("panic", "opening the source panicked"),
    };
    let max = src.buf_max_len();
    let b: &[u8] = &text;
    let mut at = 0usize;
    let ops = 4 + t.us(60);
    c.case(&text, s.kind as u64);
    let get = |at: usize, n: usize| b.get(at + n).copied();
    let mut trace: Vec<String> = Vec::new();
    let mut steps = 0;
    macro_rules! call {
        ($what:expr, $e:expr) => {{
            trace.push($what);
            match guard(|| $e) {
                Ok(v) => v,
                Err(e) => {
                    c.note("operations", || trace.join("; "));
                    return fail("panic", format!("{} at byte {at}: {}", trace.last().unwrap(), end_of(e).show()));
                }
            }
        }};
    }
    macro_rules! same {
        ($got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                c.note("operations", || trace.join("; "));
                return fail("window", format!("{} at byte {at} of {}: got {:?}, the stream has {:?}", trace.last().unwrap(), b.len(), g, w));
            }
        }};
    }
    for _ in 0..ops {
        steps += 1;
        let op = t.us(15);
        c.see_u(((op as u64) << 32) | (at.min(600) as u64) << 8 | u64::from(get(at, 0).unwrap_or(0)));
        c.case(&[op as u8], at as u64);
        match op {
            0 => {
                let most = *t.pick(&[3usize, 40, 200]);
                let n = 1 + t.us(most);
                let n = n.min(b.len() - at);
                call!(format!("skip({n})"), src.skip(n));
                at += n;
            }
            1 => {
                let n = t.us(max.min(130));
                let g = call!(format!("peekz({n})"), src.peekz(n));
                same!(g, get(at, n).unwrap_or(0));
            }
            2 => {
                let n = t.us(max.min(130));
                let g = call!(format!("peek_checked({n})"), src.peek_checked(n));
                same!(g, get(at, n));
            }
            3 => {
                let room = (b.len() - at).min(max).min(130);
                if room > 0 {
                    let n = t.us(room);
                    let g = call!(format!("peek_unsafe({n})"), unsafe { src.peek_unsafe(n) });
                    same!(g, b[at + n]);
                }
            }
            4 => {
                let g = call!("buf_is_empty".into(), src.buf_is_empty());
                same!(g, at >= b.len());
            }
            5 => {
                // only meaningful at a character boundary
                if at < b.len() && std::str::from_utf8(&b[at..]).is_ok() {
                    let g = call!("peek_char".into(), src.peek_char());
                    same!(Some(g), std::str::from_utf8(&b[at..]).unwrap().chars().next());
                }
            }
            6 => {
                let mut out = b"pre".to_vec();
                let g = call!("fetch_while_is_alpha".into(), src.fetch_while_is_alpha(&mut out));
                let n = b[at..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_' || **c == b'-').count();
                same!((g, out), (n, [b"pre", &b[at..at + n]].concat()));
                at += n;
            }
            7 | 8 => {
                let n = b[at..].iter().take_while(|c| !brk(**c)).count();
                // what a NUL means to these two is the scanner's business
                if b[at..at + n].contains(&0) {
                    continue;
                }
                let mut out = b"pre".to_vec();
                if op == 7 {
                    call!("push_non_breakz_chr".into(), src.push_non_breakz_chr(&mut out));
                } else {
                    call!("skip_and_accumulate_to_eol".into(), src.skip_and_accumulate_to_eol(&mut out));
                }
                same!(out, [b"pre", &b[at..at + n]].concat());
                at += n;
            }
            9 => {
                let g = call!("skip_while_blank".into(), src.skip_while_blank());
                let n = b[at..].iter().take_while(|c| blank(**c)).count();
                same!(g, n);
                at += n;
            }
            10 => {
                let g = call!("skip_while_non_breakz".into(), src.skip_while_non_breakz());
                let n = b[at..].iter().take_while(|c| !brk(**c) && **c != 0).count();
                same!(g, n);
                at += n;
            }
            11 => {
                let (tabs, ws) = (t.chance(500), t.chance(500));
                let (n, r) = call!(format!("skip_ws_to_eol(tabs {tabs}, ws {ws})"), src.skip_ws_to_eol(tabs, ws));
                let (wn, wr) = ref_ws(&b[at..], tabs, ws);
                same!(n as usize, wn);
                let g = r.map(|r| match r {
                    SkipTabs::Result { any_tabs, has_yaml_ws } => (any_tabs, has_yaml_ws),
                    #[allow(unreachable_patterns)]
                    _ => (false, false),
                });
                same!(g.is_ok(), wr.is_some());
                if let (Ok(g), Some(w)) = (g, wr) {
                    same!(g, w);
                }
                at += wn;
            }
            12 => {
                let ch = *t.pick(&[b'-', b'.', b' ', b'"']);
                let g = call!(format!("next_is_three({:?})", ch as char), src.next_is_three(ch));
                same!(g, (0..3).all(|i| get(at, i) == Some(ch)));
                let g = call!(format!("next_next_byte_is({:?})", ch as char), src.next_next_byte_is(ch));
                same!(g, get(at, 1) == Some(ch));
            }
            13 => {
                let g = call!("next_is_document_indicator".into(), src.next_is_document_indicator());
                let three = [b'-', b'.'].iter().any(|ch| (0..3).all(|i| get(at, i) == Some(*ch)));
                let n = get(at, 3).unwrap_or(0);
                same!(g, three && (n == 0 || blank(n) || brk(n)));
            }
            _ => {
                let inf = t.chance(500);
                let g = call!(format!("next_can_be_plain_scalar({inf})"), src.next_can_be_plain_scalar(inf));
                let (x, y) = (get(at, 0).unwrap_or(0), get(at, 1).unwrap_or(0));
                let w = if x == b':' && (y == 0 || blank(y) || brk(y) || (inf && flow(y))) { false } else { !(inf && flow(x)) };
                same!(g, w);
            }
        }
    }
    // drain: whatever was not touched must still be there
    let mut left = Vec::new();
    while left.len() <= b.len() {
        match call!("peek_checked(0)".into(), src.peek_checked(0)) {
            Some(x) => {
                left.push(x);
                call!("skip(1)".into(), src.skip(1));
            }
            None => break,
        }
    }
    same!(left, b[at..].to_vec());
    done(c, &m);
    c.nontrivial = steps >= 4 && b.len() >= 8;
    Ok(())
}

/// Meaning of `skip_ws_to_eol`: (bytes, Some((tabs seen, blanks seen)) or refused comment).
fn ref_ws(b: &[u8], tabs: bool, mut ws: bool) -> (usize, Option<(bool, bool)>) {
    let mut n = 0;
    let mut any = false;
    loop {
        match b.get(n) {
            Some(b' ') => {
                ws = true;
                n += 1;
            }
            Some(b'\t') if tabs => {
                any = true;
                n += 1;
            }
            Some(b'#') if !ws && !any => return (n, None),
            Some(b'#') if !cfg!(feature = "comment") => {
                while n < b.len() && !brk(b[n]) && b[n] != 0 {
                    n += 1;
                }
            }
            _ => return (n, Some((any, ws))),
        }
    }
}

// ------------------------------------------------------------------ C03

pub fn c03(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut st = Style::draw(t);
    st.min_docs = if t.chance(900) { 2 } else { 1 };
    st.p_no_nl = 200;
    if t.chance(400) {
        st.terminate_last = true;
    }
    if t.below(60) == 59 {
        // nothing but comments and blank lines
        st.max_docs = 0;
        st.p_comment = 500;
    }
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    // where the fault hits: anywhere, or right after a document became complete
    let mut f = match t.below(3) {
        0 => s.text.len(),
        1 => t.us(s.text.len() + 1),
        _ if s.docs.is_empty() => s.text.len(),
        _ => {
            let k = t.us(s.docs.len());
            s.docs[k].complete_at.min(s.text.len()) + t.small(3, 400)
        }
    }
    .min(s.text.len());
    while f < s.text.len() && (s.text[f] & 0xC0) == 0x80 {
        f += 1;
    }
    let mut tail = s.text[f..].to_vec();
    match t.below(3) {
        0 => {
            c.count("fault: truncate");
            tail.clear();
        }
        1 => {
            soup::faults(t, &mut tail, 0, c, 4);
        }
        _ => {
            c.count("fault: tail replaced by garbage");
            tail = soup::tokens(t);
            soup::repair(&mut tail);
        }
    }
    let mut text = s.text[..f].to_vec();
    text.extend_from_slice(&tail);
    let text = Rc::new(text);
    // the end of an intact stream completes its last document
    let intact = *text == s.text;
    let n = if intact { s.docs.len() } else { s.docs.iter().take_while(|d| d.complete_at <= f).count() };
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    c.note("fault at byte", || f.to_string());
    c.note("documents complete before it", || n.to_string());
    c.nontrivial = n > 0;
    c.case(&text, f as u64);
    c.add("documents complete before the fault", n as u64);
    let want = canon(s.evs.iter().map(|x| &x.e));
    let upto = if intact { want.len() } else if n == 0 { 0 } else { s.docs[n - 1].ev.1 };
    if intact {
        c.count("intact streams");
    }

    let sp = spec(t, c);
    let (o, _) = pull(&text, &sp, c);
    c.see(&o);
    note_obs(c, "received", &o);
    let got = canon(o.evs.iter().map(|x| &x.0));
    if let Some(d) = diff_evs(&want, &got, upto) {
        return fail("events", format!("{d} (then {}); {n} documents were complete before byte {f}", o.end.show()));
    }
    if intact && o.end != End::Eos {
        return fail("refused", format!("an intact stream ends in {}", o.end.show()));
    }
    match t.below(2) {
        0 => {
            let sp = spec(t, c);
            let m = Meter::new(text.len());
            let mut r = Recv::new(text.len());
            if let Ok(mut p) = parser(&text, &sp, &m) {
                let _ = guard(|| p.load(&mut r, true).is_ok());
            }
            done(c, &m);
            let got = canon(r.o.evs.iter().map(|x| &x.0));
            if let Some(d) = diff_evs(&want, &got, upto) {
                return fail("receiver", format!("pushed: {d}; {n} documents were complete before byte {f}"));
            }
        }
        _ => {
            if expanded(&o.events()) > 200_000 {
                return Ok(());
            }
            let sp = spec(t, c);
            let m = Meter::new(text.len());
            let mut l: YamlLoader<'static, Yaml<'static>> = YamlLoader::default();
            if let Ok(mut p) = parser(&text, &sp, &m) {
                let _ = guard(|| p.load(&mut l, true).is_ok());
            }
            done(c, &m);
            let got: Vec<T> = l.into_documents().iter().map(tree_of).collect();
            let w = trees(&want[..upto]);
            if got.len() < n {
                return fail("trees", format!("the loader holds {} of the {n} documents complete before byte {f}", got.len()));
            }
            if let Some(d) = diff_trees(&w, &got[..n]) {
                return fail("trees", d);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

/// What the consumer has been given so far allows a `load` call.
pub fn at_boundary(evs: &[(E, Sp)]) -> bool {
    match evs.iter().rev().find(|x| !matches!(x.0, E::Comment(_))) {
        None => true,
        Some((e, _)) => matches!(e, E::StreamStart | E::DocEnd | E::StreamEnd),
    }
}

pub fn c04(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let keep = t.chance(200);
    let m0 = Meter::new(text.len());
    let mut o0 = Obs::new();
    match parser(&text, &Spec::plain(Kind::SimMin), &m0) {
        Ok(p) => {
            let mut p = p.keep_tags(keep);
            drain(&mut p, &mut o0, text.len());
        }
        Err(e) => o0.end = end_of(e),
    }
    note_obs(c, "pull only", &o0);
    if o0.end.crashed() {
        return Ok(());
    }
    let sp = spec(t, c);
    let m = Meter::new(text.len());
    let Ok(p) = parser(&text, &sp, &m) else { return fail("panic", "opening the parser panicked") };
    let mut p = p.keep_tags(keep);
    let mut o = Obs::new();
    let mut kinds = 0u32;
    let mut calls: Vec<&'static str> = Vec::new();
    // weights of peek / next / iterator / load one / load all
    let w = [*t.pick(&[3u32, 0, 1, 10]), *t.pick(&[3u32, 10, 1]), *t.pick(&[3u32, 0, 10]), *t.pick(&[3u32, 0, 1, 10]), *t.pick(&[1u32, 0, 2])];
    let mut peeked: Option<(E, Sp)> = None;
    let mut extra = 2 + t.us(6);
    let cap = 4 * event_budget(text.len());
    let mut n = 0;
    let mut over = false;
    loop {
        n += 1;
        if n > cap {
            o.end = End::Budget("calls".into());
            break;
        }
        if over {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
        let mut op = t.weighted(&[w[1].max(1), w[0], w[2], w[3], w[4]]);
        if op >= 3 && !at_boundary(&o.evs) {
            op = 0;
        }
        kinds |= 1 << op;
        let before = o.evs.len();
        let mut ended = false;
        let mut failed = false;
        match op {
            1 => {
                calls.push("peek");
                let r = guard(|| p.peek().map(|r| r.map(|(e, s)| (E::of(e), Sp::from(*s)))));
                match r {
                    Err(e) => {
                        o.end = end_of(e);
                        break;
                    }
                    Ok(None) => {
                        if !over {
                            o.end = End::Eos;
                        }
                        ended = true;
                    }
                    Ok(Some(Err(e))) => {
                        o.end = End::Err(err_str(&e));
                        failed = true;
                    }
                    Ok(Some(Ok(x))) => {
                        if over {
                            return fail("peek", format!("peek shows {} after the end of the stream was delivered", x.0.show()));
                        }
                        if let Some(q) = &peeked {
                            if *q != x {
                                return fail("peek", format!("peeking again shows {} instead of {}", x.0.show(), q.0.show()));
                            }
                        }
                        peeked = Some(x);
                        continue;
                    }
                }
            }
            0 | 2 => {
                calls.push(if op == 0 { "next_event" } else { "next" });
                let r = guard(|| {
                    let r = if op == 0 { p.next_event() } else { p.next() };
                    r.map(|r| r.map(|(e, s)| (E::of(&e), Sp::from(s))))
                });
                match r {
                    Err(e) => {
                        o.end = end_of(e);
                        break;
                    }
                    Ok(None) => ended = true,
                    Ok(Some(Err(e))) => {
                        o.end = End::Err(err_str(&e));
                        failed = true;
                    }
                    Ok(Some(Ok(x))) => o.evs.push(x),
                }
            }
            _ => {
                calls.push(if op == 3 { "load one" } else { "load all" });
                let mut r = Recv::new(text.len());
                let res = guard(|| p.load(&mut r, op == 4));
                o.evs.append(&mut r.o.evs);
                match res {
                    Err(e) => {
                        o.end = end_of(e);
                        break;
                    }
                    Ok(Err(e)) => {
                        o.end = End::Err(err_str(&e));
                        failed = true;
                    }
                    Ok(Ok(())) => {
                        if op == 4 && !over && !matches!(o.evs.last(), Some((E::StreamEnd, _))) {
                            c.note("calls", || calls.join(", "));
                            return fail("load", "loading everything returned before the end of the stream".to_string());
                        }
                    }
                }
            }
        }
        // whatever was peeked must be the next thing delivered
        if o.evs.len() > before {
            if over {
                c.note("calls", || calls.join(", "));
                return fail("after end", format!("{} delivered after the end of the stream", o.evs[before].0.show()));
            }
            if let Some(q) = peeked.take() {
                if q != o.evs[before] {
                    c.note("calls", || calls.join(", "));
                    return fail("peek", format!("peek showed {}, but {} was delivered next", q.0.show(), o.evs[before].0.show()));
                }
            }
        } else if failed && peeked.is_some() {
            c.note("calls", || calls.join(", "));
            return fail("peek", format!("peek showed {}, but it was never delivered", peeked.unwrap().0.show()));
        }
        if failed {
            break;
        }
        if ended || matches!(o.evs.last(), Some((E::StreamEnd, _))) {
            if ended && !matches!(o.evs.last(), Some((E::StreamEnd, _))) {
                c.note("calls", || calls.join(", "));
                return fail("end", "a call signalled the end of the stream, but no stream end event was delivered".to_string());
            }
            o.end = End::Eos;
            over = true;
        }
    }
    done(c, &m);
    c.see(&o);
    c.add("consumer calls", calls.len() as u64);
    c.note("calls", || calls.join(", "));
    note_obs(c, "received", &o);
    c.case(&text, 0);
    c.case(calls.join(",").as_bytes(), 1);
    c.nontrivial = kinds.count_ones() >= 2 && o.evs.len() >= 5;
    if let Some(d) = diff(&o0, "pulling alone", &o, "this call schedule") {
        return fail("sequence", format!("{d} (calls: {})", calls.iter().rev().take(12).rev().copied().collect::<Vec<_>>().join(", ")));
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

pub fn of_iter(e: &YamEvent<'_>) -> E {
    let tag = |t: &Option<std::borrow::Cow<'_, yam_core::parsing::Tag>>| t.as_ref().map(|t| (t.handle.clone(), t.suffix.clone()));
    match e {
        YamEvent::DocStart => E::DocStart(false),
        YamEvent::DocEnd => E::DocEnd,
        YamEvent::StreamEnd => E::StreamEnd,
        YamEvent::Alias(n) => E::Alias(*n),
        YamEvent::Scalar(s) => E::Scalar { v: s.value.to_string(), st: style(s.scalar_type), a: s.anchor_id, tag: tag(&s.tag) },
        YamEvent::SeqStart(a, t) => E::SeqStart(*a, tag(t)),
        YamEvent::SeqEnd => E::SeqEnd,
        YamEvent::MapStart(a, t) => E::MapStart(*a, tag(t)),
        YamEvent::MapEnd => E::MapEnd,
    }
}

/// A receiver that is not interested in spans.
struct Plain {
    evs: Vec<E>,
    cap: usize,
}
impl EventReceiver<'static> for Plain {
    fn on_event(&mut self, ev: Event<'static>) {
        self.evs.push(E::of(&ev));
        if self.evs.len() > self.cap {
            abort(format!("more than {} events pushed", self.cap));
        }
    }
}

/// Judges an entry point that loads the first document only.
fn first_tree(name: &str, r: Result<T, String>, want: &[T], o: &Obs) -> Res {
    match (r, want.first(), &o.end) {
        (Ok(g), Some(w), _) if g == *w => Ok(()),
        (Ok(g), w, _) => fail(name, format!("expected {:?}, loaded {}", w.map(T::show), g.show())),
        (Err(e), Some(_), _) => fail(name, format!("the first document is intact, loading it gives {e}")),
        (Err(e), None, End::Err(w)) if e != *w => fail(name, format!("pulling ends with {w}, loading with {e}")),
        (Err(_), None, _) => Ok(()),
    }
}

pub fn c05(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let sp = spec(t, c);
    let (o, _) = pull(&text, &sp, c);
    c.see(&o);
    note_obs(c, "pulled", &o);
    if o.end.crashed() {
        return Ok(());
    }
    c.nontrivial = has_node(&o);
    c.case(&text, sp.kind as u64);
    let evs = o.events();

    // pushed
    let m = Meter::new(text.len());
    let mut r = Recv::new(text.len());
    if let Ok(mut p) = parser(&text, &sp, &m) {
        let res = guard(|| p.load(&mut r, true));
        if set_end(&mut r.o, res).is_some() {
            r.o.end = End::Eos;
        }
    }
    done(c, &m);
    if let Some(d) = diff(&o, "pulling", &r.o, "loading into a receiver") {
        return fail("push", d);
    }

    // pushed without spans, to a receiver that asks for one document at a time
    if t.chance(300) {
        let m = Meter::new(text.len());
        let mut r = Plain { evs: Vec::new(), cap: event_budget(text.len()) };
        let mut end = Obs::new();
        if let Ok(mut p) = parser(&text, &sp, &m) {
            let multi = t.chance(500);
            for _ in 0..event_budget(text.len()) {
                let n = r.evs.len();
                let res = guard(|| p.load(&mut r, multi));
                if set_end(&mut end, res).is_none() || multi || r.evs.len() == n || r.evs.last() == Some(&E::StreamEnd) {
                    break;
                }
            }
        }
        if end.end == End::Open {
            end.end = End::Eos;
        }
        done(c, &m);
        if end.end != o.end || r.evs != evs {
            let i = (0..r.evs.len().max(evs.len())).find(|i| r.evs.get(*i) != evs.get(*i)).unwrap_or(0);
            let s = |x: Option<&E>| x.map_or("nothing".into(), E::show);
            return fail("push", format!("receiver without spans, event {i}: pulled {} (then {}), pushed {} (then {})", s(evs.get(i)), o.end.show(), s(r.evs.get(i)), end.end.show()));
        }
    }

    // flat iterator: the first document
    let m = Meter::new(text.len());
    let mut want: Vec<E> = Vec::new();
    for e in evs.iter().skip(1) {
        match e {
            E::Comment(_) => continue,
            E::StreamEnd => break,
            E::DocStart(_) => want.push(E::DocStart(false)),
            e => want.push(e.clone()),
        }
        if *e == E::DocEnd {
            break;
        }
    }
    let mut got: Vec<E> = Vec::new();
    let res = guard(|| {
        let mut it = ParserIter::new(open(&text, &sp, &m));
        let mut extra = 4;
        let mut n = 0;
        loop {
            n += 1;
            if n > event_budget(text.len()) {
                abort("the flat iterator never ends".into());
            }
            match it.next() {
                Some(e) => {
                    if extra < 4 {
                        return Some(format!("the flat iterator yields {} after it ended", of_iter(&e).show()));
                    }
                    got.push(of_iter(&e));
                }
                None => {
                    extra -= 1;
                    if extra == 0 {
                        return None;
                    }
                }
            }
        }
    });
    done(c, &m);
    match res {
        Err(e) => return fail("iterator", format!("flat iterator: {}", end_of(e).show())),
        Ok(Some(d)) => return fail("iterator", d),
        Ok(None) => {}
    }
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
        let s = |x: Option<&E>| x.map_or("nothing".into(), E::show);
        return fail("iterator", format!("flat iterator, event {i}: pulled {}, iterated {}", s(want.get(i)), s(got.get(i))));
    }

    // trees
    if expanded(&evs) > 100_000 {
        c.count("skipped: alias expansion over 100000 nodes");
        return Ok(());
    }
    let want = trees(&evs);
    let way = t.below(6);
    if way == 4 {
        // the first document straight from a source
        let m = Meter::new(text.len());
        let res = guard(|| YamlLoader::<'static, Yaml<'static>>::load_single_source(open(&text, &sp, &m)).map(|y| tree_of(&y)).map_err(|e| err_str(&e)));
        done(c, &m);
        let res = res.map_err(|e| Violation { sig: "tree".into(), details: format!("load_single_source: {}", end_of(e).show()) })?;
        return first_tree("load_single_source", res, &want, &o);
    }
    let m = Meter::new(text.len());
    let mut e = Obs::new();
    let res: Result<Vec<T>, Stop> = guard(|| {
        let mut p = Parser::new(open(&text, &sp, &m));
        if way == 5 {
            return match YamlLoader::<'static, Yaml<'static>>::load_from_parser(&mut p) {
                Ok(v) => {
                    e.end = End::Eos;
                    v.iter().map(tree_of).collect()
                }
                Err(x) => {
                    set_end(&mut e, Ok(Err::<(), _>(x)));
                    Vec::new()
                }
            };
        }
        if way == 3 {
            // one tree per call
            let mut v: Vec<T> = Vec::new();
            while e.end == End::Open {
                match YamlLoader::<'static, Yaml<'static>>::load_single_from_parser(&mut p) {
                    Ok(y) => v.push(tree_of(&y)),
                    Err(YamlError::NoDocument) => e.end = End::Eos,
                    Err(x) => {
                        set_end(&mut e, Ok(Err::<(), _>(x)));
                    }
                }
                if v.len() > event_budget(text.len()) {
                    abort("endless documents".into());
                }
            }
            return v;
        }
        let mut l: YamlLoader<'static, Yaml<'static>> = YamlLoader::default();
        if way == 2 {
            // document by document into one loader
            let mut n = 0;
            while e.end == End::Open {
                let at_end = matches!(p.peek(), None | Some(Ok((Event::StreamEnd, _))));
                if set_end(&mut e, Ok(p.load(&mut l, false))).is_some() && at_end {
                    e.end = End::Eos;
                }
                n += 1;
                if n > event_budget(text.len()) {
                    abort("endless documents".into());
                }
            }
        } else if set_end(&mut e, Ok(p.load(&mut l, true))).is_some() {
            e.end = End::Eos;
        }
        l.into_documents().iter().map(tree_of).collect::<Vec<T>>()
    });
    done(c, &m);
    let got = match res {
        Ok(g) => g,
        Err(e) => return fail("tree", format!("loading trees: {}", end_of(e).show())),
    };
    if e.end != o.end {
        return fail("tree", format!("pulling ends with {}, loading trees with {}", o.end.show(), e.end.show()));
    }
    if way == 5 && e.end != End::Eos {
        return Ok(());
    }
    if let Some(d) = diff_trees(&want, &got) {
        return fail("tree", d);
    }
    // the convenience entry points
    if sp.kind == Kind::Str {
        let s = unsafe { std::str::from_utf8_unchecked(&text) };
        let r = guard(|| Yaml::load_from(s).map(|v| v.iter().map(tree_of).collect::<Vec<T>>()).map_err(|e| err_str(&e)));
        match (r, &o.end) {
            (Ok(Ok(g)), End::Eos) => {
                if let Some(d) = diff_trees(&want, &g) {
                    return fail("load_from", d);
                }
            }
            (Ok(Err(e)), End::Err(w)) if e == *w => {}
            (Ok(x), _) => return fail("load_from", format!("pulling ends with {}, load_from gives {x:?}", o.end.show())),
            (Err(e), _) => return fail("load_from", end_of(e).show()),
        }
        let r = guard(|| Yaml::load_single(s).map(|v| tree_of(&v)).map_err(|e| err_str(&e)));
        let r = r.map_err(|e| Violation { sig: "load_single".into(), details: end_of(e).show() })?;
        first_tree("load_single", r, &want, &o)?;
    }
    Ok(())
}
