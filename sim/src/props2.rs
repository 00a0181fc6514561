//! Scenarios C06 to C16.

use crate::ev::*;
use crate::model::{self, Style};
use crate::oracle::*;
use crate::props::*;
use crate::run::*;
use crate::soup;
use crate::source::*;
use crate::tape::Tape;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use yam_core::parsing::{Parser, ParserIter};
use yam_core::prelude::{Yaml, YamlLoader};

// ------------------------------------------------------------------ C06

type P = Parser<'static, Metered>;

/// One client of the library; everything it observes goes into `log`.
struct Job {
    what: Kind6,
    log: Vec<String>,
    over: bool,
    cap: usize,
}
enum Kind6 {
    Pull(Box<P>),
    LoadOne(Box<P>),
    LoadAll(Box<P>),
    Tree(Box<P>),
    Flat(Box<ParserIter<'static, Metered>>),
    De(Option<Metered>),
}
const KINDS6: [&str; 6] = ["pull", "load one document per step", "load all", "load trees", "flat iterator", "deserialize"];

impl Job {
    fn new(k: usize, src: Metered, keep: bool, len: usize) -> Job {
        let p = |s| Box::new(Parser::new(s).keep_tags(keep));
        let what = match k {
            0 => Kind6::Pull(p(src)),
            1 => Kind6::LoadOne(p(src)),
            2 => Kind6::LoadAll(p(src)),
            3 => Kind6::Tree(p(src)),
            4 => Kind6::Flat(Box::new(ParserIter::new(src))),
            _ => Kind6::De(Some(src)),
        };
        Job { what, log: Vec::new(), over: false, cap: event_budget(len) }
    }
    fn say(&mut self, e: &E, s: &Sp) {
        self.log.push(format!("{} @{}", e.show(), show_sp(s)));
    }
    fn step(&mut self) {
        if self.over {
            return;
        }
        let cap = self.cap;
        let r = match &mut self.what {
            Kind6::Pull(p) => {
                let mut o = Obs::new();
                if step(p, &mut o) {
                    let (e, s) = o.evs.pop().unwrap();
                    self.say(&e, &s);
                } else {
                    self.log.push(o.end.show());
                    self.over = true;
                }
                if self.log.len() > cap {
                    self.over = true;
                }
                return;
            }
            Kind6::LoadOne(_) | Kind6::LoadAll(_) => {
                let mut r = Recv::new(cap / 8);
                let all = matches!(self.what, Kind6::LoadAll(_));
                let p = match &mut self.what {
                    Kind6::LoadOne(p) | Kind6::LoadAll(p) => p,
                    _ => return,
                };
                let res = guard(|| p.load(&mut r, all));
                let mut end = matches!(r.o.evs.last(), Some((E::StreamEnd, _))) || all || r.o.evs.is_empty();
                let evs = std::mem::take(&mut r.o.evs);
                for (e, s) in &evs {
                    self.say(e, s);
                }
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => {
                        self.log.push(err_str(&e));
                        end = true;
                    }
                    Err(e) => {
                        self.log.push(end_of(e).show());
                        end = true;
                    }
                }
                self.over = end;
                return;
            }
            Kind6::Tree(p) => {
                let mut l: YamlLoader<'static, Yaml<'static>> = YamlLoader::default();
                let r = guard(|| p.load(&mut l, true).map_err(|e| err_str(&e)));
                let mut v: Vec<String> = guard(|| l.into_documents().iter().map(|d| tree_of(d).show()).collect()).unwrap_or_default();
                v.push(match r {
                    Ok(r) => format!("{r:?}"),
                    Err(e) => end_of(e).show(),
                });
                v
            }
            Kind6::Flat(it) => match guard(|| it.next().map(|e| of_iter(&e).show())) {
                Ok(Some(e)) => {
                    self.log.push(e);
                    if self.log.len() > cap {
                        self.over = true;
                    }
                    return;
                }
                Ok(None) => vec!["end".into()],
                Err(e) => vec![end_of(e).show()],
            },
            Kind6::De(s) => {
                let s = s.take().unwrap();
                let r = guard(|| yam_serde::sim_from_source::<crate::typed::V, _>(s).map_err(|e| format!("{e:?}")));
                vec![match r {
                    Ok(r) => format!("{r:?}"),
                    Err(e) => end_of(e).show(),
                }]
            }
        };
        self.log.extend(r);
        self.over = true;
    }
}

struct Sched {
    jobs: RefCell<Vec<Option<Job>>>,
    plan: RefCell<VecDeque<u8>>,
    trace: RefCell<Vec<String>>,
    switches: Cell<u32>,
    nested: Cell<u32>,
    depth: Cell<u32>,
}

impl Sched {
    fn run(&self, i: usize) {
        // a job that waits for its peer cannot be scheduled again
        let Some(mut j) = self.jobs.borrow_mut().get_mut(i).and_then(Option::take) else { return };
        self.trace.borrow_mut().push(format!("{}{i}", "<".repeat(self.depth.get() as usize)));
        self.switches.set(self.switches.get() + 1);
        j.step();
        self.jobs.borrow_mut()[i] = Some(j);
    }
    /// Runs other jobs while one waits for the network.
    fn others(&self) {
        if self.depth.get() > 3 {
            return;
        }
        self.depth.set(self.depth.get() + 1);
        let n = self.plan.borrow_mut().pop_front().unwrap_or(0) % 4;
        for _ in 0..n {
            let k = self.plan.borrow_mut().pop_front().unwrap_or(0) as usize;
            // (nothing to run yet while the first source is being opened)
            let len = self.jobs.borrow().len().max(1);
            self.nested.set(self.nested.get() + 1);
            self.run(k % len);
        }
        self.depth.set(self.depth.get() - 1);
    }
}

struct YieldPeer {
    sched: Rc<Sched>,
    len: usize,
    step: usize,
}
impl Peer for YieldPeer {
    fn want(&mut self, have: usize) -> Option<usize> {
        if have >= self.len {
            return None;
        }
        let s = self.sched.clone();
        s.others();
        Some((have + self.step).min(self.len))
    }
}

pub fn c06(t: &mut Tape, c: &mut Ctx) -> Res {
    let n = 2 + t.us(4);
    let mut specs = Vec::new();
    let mut texts: Vec<Rc<Vec<u8>>> = Vec::new();
    for i in 0..n {
        // often the very same stream, or a close relative
        let text = if i > 0 && t.chance(400) {
            texts[t.us(i)].clone()
        } else {
            let mut w = soup::any(t, c);
            if w.text.len() > 3000 {
                w.text.truncate(3000);
                soup::repair(&mut w.text);
            }
            Rc::new(w.text)
        };
        c.note(&format!("stream {i}"), || format!("{:?}", String::from_utf8_lossy(&text)));
        c.case(&text, 0);
        texts.push(text.clone());
        let kind = *t.pick(&[Kind::Iter, Kind::SimMin, Kind::SimBulk, Kind::Str, Kind::Bytes]);
        let sp = Spec::random(t, kind);
        deliver(c, &sp);
        let k = t.us(6);
        let keep = t.chance(200);
        let step = *t.pick(&[1usize, 7, 33, 64, 500]);
        c.count(&format!("job: {}", KINDS6[k]));
        specs.push((text, sp, k, keep, step));
    }
    let sched = Rc::new(Sched {
        jobs: RefCell::new(Vec::new()),
        plan: RefCell::new((0..t.us(200)).map(|_| t.below(256) as u8).collect()),
        trace: RefCell::new(Vec::new()),
        switches: Cell::new(0),
        nested: Cell::new(0),
        depth: Cell::new(0),
    });
    let make = |i: usize, sched: Option<&Rc<Sched>>, c: &mut Ctx| -> Result<Job, Violation> {
        let (text, sp, k, keep, step) = &specs[i];
        let m = Meter::new(text.len());
        let peer = sched.map(|s| -> Rc<RefCell<dyn Peer>> { Rc::new(RefCell::new(YieldPeer { sched: s.clone(), len: text.len(), step: *step })) });
        c.count("instances created");
        guard(|| Job::new(*k, open_net(text, sp, &m, peer), *keep, text.len())).map_err(|e| Violation { sig: "panic".into(), details: end_of(e).show() })
    };
    // what each job observes when it runs alone
    let mut alone: Vec<Vec<String>> = Vec::new();
    for i in 0..n {
        if c.only.is_some_and(|k| k % n != i) {
            c.alone.push(0);
            continue;
        }
        let mut j = make(i, None, c)?;
        let mut guard_n = 0;
        while !j.over && guard_n < 200_000 {
            j.step();
            guard_n += 1;
        }
        let mut h = 0;
        for l in &j.log {
            hash_str(&mut h, l);
        }
        c.alone.push(h);
        alone.push(std::mem::take(&mut j.log));
    }
    if let Some(k) = c.only {
        let i = k % n;
        c.note(&format!("client {i} in a process of its own"), || alone.iter().flatten().cloned().collect::<Vec<_>>().join(" "));
        return Ok(());
    }
    // all of them, interleaved, dropped and recreated
    let mut owner: Vec<usize> = Vec::new();
    for i in 0..n {
        let j = make(i, Some(&sched), c)?;
        sched.jobs.borrow_mut().push(Some(j));
        owner.push(i);
    }
    let burst = *t.pick(&[1usize, 3, 20]);
    let p_drop = *t.pick(&[0u32, 20, 100]);
    let steps = 20 + t.us(400);
    let bad = |log: &[String], i: usize, whole: bool| -> Option<String> {
        let w = &alone[i];
        let k = log.len().max(if whole { w.len() } else { 0 });
        for x in 0..k {
            if log.get(x) != w.get(x) {
                let s = |y: Option<&String>| y.map_or("nothing".to_string(), |y| y.chars().take(400).collect());
                return Some(format!("client {i} ({}), observation {x}: alone {}, among others {}", KINDS6[specs[i].2], s(w.get(x)), s(log.get(x))));
            }
        }
        None
    };
    for _ in 0..steps {
        let live: Vec<usize> = (0..sched.jobs.borrow().len()).filter(|x| sched.jobs.borrow()[*x].as_ref().is_some_and(|j| !j.over)).collect();
        if live.is_empty() {
            break;
        }
        let k = *t.pick(&live);
        if t.chance(p_drop) {
            // crash of a client: it is dropped wherever it is, and comes back
            c.count("fault: client dropped half-way and restarted");
            sched.trace.borrow_mut().push(format!("drop {k}"));
            let j = sched.jobs.borrow_mut()[k].take();
            if let Some(j) = j {
                if let Some(d) = bad(&j.log, owner[k], false) {
                    c.note("schedule", || sched.trace.borrow().join(" "));
                    return fail("isolation", d);
                }
                if let Err(e) = guard(move || drop(j)) {
                    return fail("panic", end_of(e).show());
                }
            }
            let j = make(owner[k], Some(&sched), c)?;
            sched.jobs.borrow_mut()[k] = Some(j);
            continue;
        }
        for _ in 0..1 + t.us(burst) {
            sched.run(k);
        }
    }
    // the survivors finish, in order
    for k in 0..owner.len() {
        let mut g = 0;
        while sched.jobs.borrow()[k].as_ref().is_some_and(|j| !j.over) && g < 200_000 {
            sched.run(k);
            g += 1;
        }
    }
    c.add("switches between clients", u64::from(sched.switches.get()));
    c.add("switches while a client waits for the network", u64::from(sched.nested.get()));
    c.note("schedule", || sched.trace.borrow().join(" "));
    c.nontrivial = sched.switches.get() >= 3;
    c.case(sched.trace.borrow().join(" ").as_bytes(), 1);
    let mut res = Ok(());
    for (k, i) in owner.iter().enumerate() {
        let jobs = sched.jobs.borrow();
        let Some(j) = &jobs[k] else { continue };
        let mut h = 0;
        for l in &j.log {
            hash_str(&mut h, l);
        }
        c.see_u(h);
        if let Some(d) = bad(&j.log, *i, true) {
            res = fail("isolation", d);
            break;
        }
    }
    // the jobs' peers hold the scheduler: break the cycle
    sched.jobs.borrow_mut().clear();
    res
}

// ------------------------------------------------------------------ C07

pub fn c07(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let len = text.len();
    c.nontrivial = len >= 2;
    c.case(&text, 0);
    let limit = || crate::alloc::live() + (4 << 20) + 4000 * len;
    let judge = |c: &mut Ctx, what: &str, e: &End, m: &Rc<Meter>| -> Res {
        c.add("source accesses", m.ops.get());
        c.sim_ms += m.clock.get();
        match e {
            End::Panic(p) => fail("panic", format!("{what}: {p}")),
            End::Budget(p) => fail("budget", format!("{what}: {p}")),
            _ => Ok(()),
        }
    };
    // pulling
    let sp = spec(t, c);
    let m = Meter::new(len);
    m.mem_limit.set(limit());
    let mut o = Obs::new();
    match parser(&text, &sp, &m) {
        Ok(p) => {
            let mut p = p.keep_tags(t.chance(100));
            drain(&mut p, &mut o, len);
            if let Err(s) = guard(move || drop(p)) {
                o.end = end_of(s);
            }
        }
        Err(s) => o.end = end_of(s),
    }
    c.see(&o);
    note_obs(c, "pulled", &o);
    judge(c, &format!("pulling over {:?}", sp.kind), &o.end, &m)?;
    match &o.end {
        End::Err(_) => c.count("runs ending in a parse error"),
        _ => c.count("runs ending at end of stream"),
    }
    let evs = o.events();
    let d = depth(&evs);
    match t.below(4) {
        0 => {
            let m = Meter::new(len);
            m.mem_limit.set(limit());
            let mut r = Recv::new(len);
            let sp = spec(t, c);
            let e = match guard(|| {
                let mut p = Parser::new(open(&text, &sp, &m));
                p.load(&mut r, true).is_ok()
            }) {
                Ok(_) => End::Open,
                Err(e) => end_of(e),
            };
            judge(c, "loading into a receiver", &e, &m)?;
        }
        1 => {
            if expanded(&evs) > 200_000 {
                c.count("skipped: alias expansion over 200000 nodes");
                return Ok(());
            }
            let _ = d;
            let m = Meter::new(len);
            let sp = spec(t, c);
            let e = match guard(|| {
                let mut p = Parser::new(open(&text, &sp, &m));
                let mut l: YamlLoader<'static, Yaml<'static>> = YamlLoader::default();
                let r = p.load(&mut l, true).is_ok();
                drop(l.into_documents());
                r
            }) {
                Ok(_) => End::Open,
                Err(e) => end_of(e),
            };
            judge(c, "loading trees", &e, &m)?;
        }
        2 => {
            let m = Meter::new(len);
            m.mem_limit.set(limit());
            let sp = spec(t, c);
            let cap = event_budget(len);
            let e = match guard(|| {
                let it = ParserIter::new(open(&text, &sp, &m));
                it.take(cap + 1).count() > cap
            }) {
                Ok(false) => End::Open,
                Ok(true) => End::Budget(format!("more than {cap} events")),
                Err(e) => end_of(e),
            };
            judge(c, "flat iterator", &e, &m)?;
        }
        _ => {
            let m = Meter::new(len);
            let sp = spec(t, c);
            let e = match guard(|| yam_serde::sim_from_source::<crate::typed::V, _>(open(&text, &sp, &m)).is_ok()) {
                Ok(_) => End::Open,
                Err(e) => end_of(e),
            };
            judge(c, "deserializing", &e, &m)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

/// Which node each anchor name of a document means at the moment.
#[derive(Default)]
struct Names {
    last: std::collections::BTreeMap<String, usize>,
    aliases: u64,
}

impl Names {
    fn feed(&mut self, p: &Parser<'static, Metered>, text: &[u8], e: &E, s: &Sp) -> Result<(), String> {
        let a = match e {
            E::DocStart(_) => {
                self.last.clear();
                return Ok(());
            }
            E::Alias(n) => *n,
            E::Scalar { a, .. } | E::SeqStart(a, _) | E::MapStart(a, _) if *a > 0 => *a,
            _ => return Ok(()),
        };
        let Some(name) = p.get_anchor(a).map(|n| n.to_string()) else {
            return Err(format!("anchor {a} was delivered, yet the parser knows no name for it"));
        };
        if matches!(e, E::Alias(_)) {
            self.aliases += 1;
            let at = text.get(s.s.pos..).unwrap_or(&[]);
            let end = at.iter().position(|c| b" \t\r\n,[]{}\0".contains(c)).unwrap_or(at.len());
            if at[..end] != *format!("*{name}").as_bytes() {
                return Err(format!("an alias to {a}, named {name:?}, where the stream says {:?}", String::from_utf8_lossy(&at[..end])));
            }
            return match self.last.get(&name) {
                Some(b) if *b == a => Ok(()),
                b => Err(format!("alias to {a}, but the last node named {name:?} is {b:?}")),
            };
        }
        let want = format!("&{name}");
        if name.is_empty() || !text.windows(want.len()).any(|w| w == want.as_bytes()) {
            return Err(format!("anchor {a} is named {name:?}, which the stream does not say"));
        }
        self.last.insert(name, a);
        Ok(())
    }
}

pub fn c08(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let sp = spec(t, c);
    let keep = t.chance(150);
    let m = Meter::new(text.len());
    let mut o = Obs::new();
    match parser(&text, &sp, &m) {
        Ok(p) => {
            let mut p = p.keep_tags(keep);
            // judged while it runs: the first offending event stops the run
            let mut g = Grammar::new();
            let mut names = Names::default();
            let cap = event_budget(text.len());
            while o.evs.len() <= cap && step(&mut p, &mut o) {
                let i = o.evs.len() - 1;
                if let Err(d) = g.feed(&o.evs[i].0) {
                    note_obs(c, "received", &o);
                    return fail("malformed", format!("event {i}: {d}"));
                }
                let (e, s) = &o.evs[i];
                if let Err(d) = names.feed(&p, &text, e, s) {
                    note_obs(c, "received", &o);
                    return fail("anchor-name", format!("event {i}: {d}"));
                }
            }
            c.add("aliases compared with the text by name", names.aliases);
            if o.end == End::Eos && !g.complete() {
                note_obs(c, "received", &o);
                return fail("incomplete", "the sequence ended without an error and without a stream end");
            }
        }
        Err(e) => o.end = end_of(e),
    }
    done(c, &m);
    c.see(&o);
    note_obs(c, "received", &o);
    c.add("events delivered", o.evs.len() as u64);
    c.count(match &o.end {
        End::Err(_) => "runs ending in a parse error",
        End::Eos => "runs ending at end of stream",
        _ => "runs that crashed (judged by C07)",
    });
    c.nontrivial = has_node(&o);
    c.case(&text, sp.kind as u64);
    // the receiver API is a second exit for the same events
    if t.chance(300) {
        let m = Meter::new(text.len());
        let mut r = Recv::new(text.len());
        let sp = spec(t, c);
        let ok = guard(|| {
            let mut p = Parser::new(open(&text, &sp, &m)).keep_tags(keep);
            p.load(&mut r, true).is_ok()
        });
        let mut g = Grammar::new();
        for (i, (e, _)) in r.o.evs.iter().enumerate() {
            if let Err(d) = g.feed(e) {
                return fail("malformed", format!("pushed event {i}: {d}"));
            }
        }
        if matches!(ok, Ok(true)) && !g.complete() {
            return fail("incomplete", "loading returned without an error and without a stream end");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn c09(t: &mut Tape, c: &mut Ctx) -> Res {
    let w = match t.below(4) {
        0 => soup::any(t, c),
        // streams that fail after a good beginning
        _ => {
            let mut x = soup::good(t, c).text;
            let n = x.len();
            soup::faults(t, &mut x, n / 3, c, 3);
            if t.chance(500) {
                x.extend_from_slice(t.pick(&["\n]", "\n  - a\n b: c\n", "\n\"", "\n*nope\n", "\n!zz!a b\n", "\n---\n@\n", "\n%YAML 1.2\n", "\n{a: b", "\n'", "\n- \t- a\n", "\n? a\n ? b\n:c d: e: f\n", "\n\u{0}"]).as_bytes());
            }
            soup::repair(&mut x);
            soup::Work { text: x, model: None, label: "damaged" }
        }
    };
    let text = Rc::new(w.text);
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    let sp = spec(t, c);
    let m = Meter::new(text.len());
    let Ok(mut p) = parser(&text, &sp, &m) else { return Ok(()) };
    // one of several ways to reach the error
    let first = t.below(5);
    // a careless consumer mixes its calls, so that it may ask to load in the middle of a document
    let mut inside = false;
    let mut misplaced = false;
    let mut err = None;
    let cap = event_budget(text.len());
    let mut n = 0usize;
    let mut crashed = false;
    while err.is_none() && n <= cap {
        n += 1;
        let how = if first == 4 { *t.pick(&[0, 0, 0, 1, 1, 2]) } else { first };
        match how {
            0 | 1 => {
                if how == 1 {
                    match guard(|| p.peek().map(|r| r.map(|_| ()))) {
                        Ok(Some(Err(e))) => {
                            err = Some(err_str(&e));
                            break;
                        }
                        Ok(_) => {}
                        Err(_) => {
                            crashed = true;
                            break;
                        }
                    }
                }
                match guard(|| p.next_event()) {
                    Ok(Some(Ok((e, _)))) => match e {
                        yam_core::parsing::Event::DocumentStart(_) => inside = true,
                        yam_core::parsing::Event::DocumentEnd => inside = false,
                        _ => {}
                    },
                    Ok(Some(Err(e))) => err = Some(err_str(&e)),
                    Ok(None) => break,
                    Err(_) => {
                        crashed = true;
                        break;
                    }
                }
            }
            _ => {
                let mut r = Recv::new(text.len());
                misplaced = inside;
                match guard(|| p.load(&mut r, how == 3)) {
                    Ok(Err(e)) => err = Some(err_str(&e)),
                    Ok(Ok(())) => {
                        if matches!(r.o.evs.last(), Some((E::StreamEnd, _)) | None) {
                            break;
                        }
                    }
                    Err(_) => {
                        crashed = true;
                        break;
                    }
                }
            }
        }
    }
    done(c, &m);
    if crashed {
        return Ok(());
    }
    let Some(err) = err else {
        c.count("runs without an error");
        return Ok(());
    };
    c.count("runs with an error");
    c.count(&format!("error reached by: {}", ["next_event", "peek", "load one", "load all", "mixed calls"][first as usize]));
    if misplaced {
        c.count("error reached by: loading inside a document");
    }
    c.note("error", || err.clone());
    c.nontrivial = true;
    c.case(&text, u64::from(first));
    hash_str(&mut c.hash, &err);
    c.see_u({
        let mut h = n as u64;
        hash_str(&mut h, &err);
        h
    });
    let calls = 3 + t.us(10);
    let mut trace: Vec<&str> = Vec::new();
    for _ in 0..calls {
        let op = t.us(5);
        trace.push(["peek", "next_event", "next", "load one", "load all"][op]);
        c.case(&[op as u8], 0);
        let mut r = Recv::new(text.len());
        let got = guard(|| match op {
            0 => p.peek().map(|r| r.map(|(e, _)| E::of(e).show()).map_err(|e| err_str(&e))),
            1 => p.next_event().map(|r| r.map(|(e, _)| E::of(&e).show()).map_err(|e| err_str(&e))),
            2 => p.next().map(|r| r.map(|(e, _)| E::of(&e).show()).map_err(|e| err_str(&e))),
            _ => Some(p.load(&mut r, op == 4).map(|()| "success".to_string()).map_err(|e| err_str(&e))),
        });
        c.note("calls after the error", || trace.join(", "));
        if !r.o.evs.is_empty() {
            return fail("event after error", format!("{} pushed {} after the error {err}", trace.last().unwrap(), r.o.evs[0].0.show()));
        }
        match got {
            Ok(Some(Err(e))) if e == err => {}
            Ok(Some(Err(e))) => return fail("other error", format!("{} reports {e} after the error {err}", trace.last().unwrap())),
            Ok(Some(Ok(x))) => return fail("event after error", format!("{} gives {x} after the error {err}", trace.last().unwrap())),
            Ok(None) => return fail("end after error", format!("{} signals the end of the stream after the error {err}", trace.last().unwrap())),
            Err(e) => return fail("panic", format!("{} after the error {err}: {}", trace.last().unwrap(), end_of(e).show())),
        }
    }
    // the flat iterator stays ended
    let m = Meter::new(text.len());
    let r = guard(|| {
        let mut it = ParserIter::new(open(&text, &sp, &m));
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
            if n > cap {
                return None;
            }
        }
        for _ in 0..calls {
            if let Some(e) = it.next() {
                return Some(of_iter(&e).show());
            }
        }
        None
    });
    if let Ok(Some(e)) = r {
        return fail("event after end", format!("the flat iterator yields {e} after it ended"));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

struct Writer {
    ends: Vec<usize>,
    /// documents whose end / starts the reader must have acknowledged before segment i is sent
    need: Vec<(usize, usize)>,
    sent: usize,
    len: usize,
    acked: Rc<Cell<(usize, usize)>>,
    eof_need: (usize, usize),
    log: Rc<RefCell<Vec<String>>>,
}
impl Peer for Writer {
    fn want(&mut self, have: usize) -> Option<usize> {
        let (s, e) = self.acked.get();
        if self.sent >= self.ends.len() {
            if s < self.eof_need.0 || e < self.eof_need.1 {
                abort(format!("deadlock: the reader waits for the end of the stream before it delivers the end of document {}", self.eof_need.1));
            }
            return None;
        }
        let (ns, ne) = self.need[self.sent];
        if s < ns || e < ne {
            abort(format!("deadlock: the reader wants byte {} before it has delivered {}", have, if e < ne { format!("the end of document {ne}") } else { format!("the start of document {ns}") }));
        }
        let to = self.ends[self.sent];
        self.log.borrow_mut().push(format!("segment {} (to byte {to}) sent after {s} starts, {e} ends", self.sent));
        self.sent += 1;
        Some(to.min(self.len))
    }
}

pub fn c10(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut st = Style::draw(t);
    st.min_docs = 2;
    if st.nl == 2 {
        st.nl = 0; // after a lone CR the reader must see whether LF follows
    }
    st.terminate_last = t.chance(600);
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    let text = Rc::new(s.text.clone());
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    let acked = Rc::new(Cell::new((0usize, 0usize)));
    let mut ends = Vec::new();
    let mut need = Vec::new();
    let n = s.docs.len();
    let mut last_need = (0, 0);
    for (k, d) in s.docs.iter().enumerate() {
        if d.head_end != usize::MAX && (k == 0 || s.docs[k - 1].dots) {
            // the `---` terminates nothing, but starts a document
            ends.push(d.head_end);
            need.push(last_need);
            last_need = (k + 1, k);
        }
        if d.line_end == usize::MAX {
            ends.push(text.len());
            need.push(last_need);
            last_need = (0, 0);
            continue;
        }
        ends.push(d.line_end);
        need.push(last_need);
        last_need = (if d.dots { 0 } else { k + 2 }, k + 1);
    }
    // whatever follows the last terminated document
    if *ends.last().unwrap() < text.len() {
        ends.push(text.len());
        need.push(last_need);
    }
    let log = Rc::new(RefCell::new(Vec::new()));
    let w = Writer { ends, need, sent: 0, len: text.len(), acked: acked.clone(), eof_need: last_need, log: log.clone() };
    let sp = sim_spec(t, c);
    let m = Meter::new(text.len());
    let style = t.below(4);
    c.count(&format!("consumer: {}", ["pull", "peek then pull", "load one document at a time", "load all"][style as usize]));
    let Ok(mut p) = guard(|| Parser::new(open_net(&text, &sp, &m, Some(Rc::new(RefCell::new(w)))))) else { return fail("panic", "opening") };
    let mut o = Obs::new();
    let cap = event_budget(text.len());
    let mut n_calls = 0;
    while o.end == End::Open && n_calls <= cap {
        n_calls += 1;
        match style {
            0 | 1 => {
                if style == 1 {
                    match guard(|| p.peek().map(|r| r.map(|(e, _)| E::of(e)))) {
                        Ok(Some(Ok(e))) => ack(&acked, &e),
                        Ok(_) => {}
                        Err(e) => {
                            o.end = end_of(e);
                            break;
                        }
                    }
                }
                if step(&mut p, &mut o) && style == 0 {
                    ack(&acked, &o.evs.last().unwrap().0);
                }
            }
            _ => {
                let mut r = Recv::new(text.len());
                r.ack = Some(acked.clone());
                let res = guard(|| p.load(&mut r, style == 3));
                let fin = r.o.evs.is_empty() || matches!(r.o.evs.last(), Some((E::StreamEnd, _)));
                o.evs.append(&mut r.o.evs);
                if set_end(&mut o, res).is_some() && fin {
                    o.end = End::Eos;
                }
            }
        }
    }
    done(c, &m);
    c.see(&o);
    note_obs(c, "received", &o);
    c.note("writer", || log.borrow().join("; "));
    c.nontrivial = n >= 2;
    c.case(&text, u64::from(style));
    c.case(sp.show().as_bytes(), 0);
    c.add("documents acknowledged", acked.get().1 as u64);
    if let End::Budget(d) = &o.end {
        if d.starts_with("deadlock") {
            return fail("deadlock", d.clone());
        }
    }
    let want = canon(s.evs.iter().map(|x| &x.e));
    let got = canon(o.evs.iter().map(|x| &x.0));
    if o.end != End::Eos || want != got {
        let d = diff_evs(&want, &got, want.len()).unwrap_or_else(|| o.end.show());
        return fail("exchange", format!("{d} (then {})", o.end.show()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

fn slice(s: &model::Stream, k: usize) -> Vec<u8> {
    let d = &s.docs[k];
    let end = s.docs.get(k + 1).map_or(s.text.len(), |n| n.from);
    let mut x = s.text[d.from..end].to_vec();
    if !d.dots {
        x.extend_from_slice(b"...\n");
    }
    x
}

pub fn c11(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut st = Style::draw(t);
    st.min_docs = 2;
    let s = model::stream(t, &st);
    let n = s.docs.len();
    c.add("documents written", n as u64);
    c.nontrivial = n >= 2;
    c.case(&s.text, 0);
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&s.text)));
    let docs: Vec<Vec<E>> = s.docs.iter().map(|d| canon(s.evs[d.ev.0..d.ev.1].iter().map(|x| &x.e))).collect();
    let whole = Rc::new(s.text.clone());
    let mode = t.weighted(&[5, 5, 5, 5, 2]);
    c.case(&[mode as u8], 0);
    match mode {
        4 => {
            // the consumer asked for kept handles: later documents may use, and redefine, earlier ones
            let s = soup::kept(t, c);
            c.case(&s.text, 0);
            c.note("kept handles", || format!("{:?}", String::from_utf8_lossy(&s.text)));
            c.count("streams with kept tag handles");
            let want = canon(s.evs.iter().map(|x| &x.e));
            let text = Rc::new(s.text);
            let sp = spec(t, c);
            let m = Meter::new(text.len());
            let mut o = Obs::new();
            let Ok(p) = parser(&text, &sp, &m) else { return fail("panic", "opening") };
            let mut p = p.keep_tags(true);
            drain(&mut p, &mut o, text.len());
            done(c, &m);
            c.see(&o);
            note_obs(c, "received", &o);
            let got = canon(o.evs.iter().map(|x| &x.0));
            if o.end != End::Eos || want != got {
                let d = diff_evs(&want, &got, want.len()).unwrap_or_else(|| o.end.show());
                return fail("kept tag", format!("{d} (then {})", o.end.show()));
            }
        }
        0 | 1 => {
            // a consumer that crashes and restarts at the first unprocessed document
            let sp = spec(t, c);
            let (mut full, _) = pull(&whole, &sp, c);
            if full.end.crashed() {
                return Ok(());
            }
            full.evs.retain(|x| !matches!(x.0, E::Comment(_)));
            let lines = Lines::new(&s.text);
            let mut at = 0usize;
            let crashes = 1 + t.us(3);
            let mut seen: Vec<Vec<E>> = Vec::new();
            for r in 0..=crashes {
                let from = s.docs[at].from;
                let text = Rc::new(s.text[from..].to_vec());
                let sp = spec(t, c);
                // how many documents it processes before it crashes
                let quota = if r == crashes { usize::MAX } else { t.us(n - at + 1) };
                let partial = t.us(12);
                c.note("session", || format!("starts at byte {from} (document {at}), processes {quota} documents"));
                c.case(&[at as u8, quota.min(255) as u8], 0);
                let m = Meter::new(text.len());
                let Ok(mut p) = parser(&text, &sp, &m) else { return fail("panic", "opening") };
                let mut o = Obs::new();
                let mut cur: Vec<E> = Vec::new();
                let mut got = 0usize;
                let (l0, _) = lines.at(from);
                while got < quota && step(&mut p, &mut o) {
                    let (e, sp) = o.evs.last().unwrap().clone();
                    match e {
                        E::StreamStart | E::StreamEnd | E::Comment(_) => continue,
                        _ => {}
                    }
                    // the very same event the uninterrupted reader got, at the same place
                    let k = at + got;
                    let base: usize = full.evs.iter().enumerate().filter(|(_, x)| matches!(x.0, E::DocStart(_))).map(|x| x.0).nth(k).unwrap_or(usize::MAX);
                    let Some((_, fs)) = full.evs.get(base.saturating_add(cur.len())) else {
                        return fail("restart", format!("{} delivered after the last document", e.show()));
                    };
                    let sh = |m: M| M { pos: m.pos + from, col: m.col, line: m.line + l0 - 1 };
                    if sh(sp.s) != fs.s || sh(sp.e) != fs.e {
                        return fail("restart marks", format!("document {k}, {}: restarted at byte {from} it is at {}, in the whole stream at {}", e.show(), show_sp(&sp), show_sp(fs)));
                    }
                    let end = e == E::DocEnd;
                    cur.push(e);
                    if end {
                        got += 1;
                        seen.push(canon(cur.drain(..).collect::<Vec<_>>().iter()));
                    }
                }
                if quota != usize::MAX && t.chance(700) {
                    // the crash hits in the middle of the next document
                    for _ in 0..partial {
                        if !step(&mut p, &mut o) {
                            break;
                        }
                    }
                    c.count("fault: consumer crash inside a document");
                } else if quota != usize::MAX {
                    c.count("fault: consumer crash between documents");
                }
                done(c, &m);
                c.see(&o);
                at += got;
                if quota == usize::MAX && o.end != End::Eos {
                    return fail("restart", format!("restarted at byte {from} (document {}) the reader ends with {}", at - got, o.end.show()));
                }
                if at >= n {
                    break;
                }
            }
            if seen != docs {
                let i = (0..seen.len().max(docs.len())).find(|i| seen.get(*i) != docs.get(*i)).unwrap_or(0);
                let show = |x: Option<&Vec<E>>| x.map_or("nothing".to_string(), |v| v.iter().map(E::show).collect::<Vec<_>>().join(" "));
                return fail("restart", format!("document {i}: written {}, processed {}", show(docs.get(i)), show(seen.get(i))));
            }
        }
        2 => {
            // the documents, reordered, repeated, each behind any others
            let k = 1 + t.us(2 * n);
            let mut text = Vec::new();
            let mut want: Vec<E> = Vec::new();
            let mut order = Vec::new();
            for _ in 0..k {
                let i = t.us(n);
                let x = slice(&s, i);
                if !s.docs[i].dots && i + 1 == n {
                    let last = s.text.last().copied().unwrap_or(b'\n');
                    if last != b'\n' && last != b'\r' {
                        continue;
                    }
                }
                order.push(i);
                text.extend_from_slice(&x);
                want.extend(docs[i].iter().cloned());
            }
            c.note("order", || format!("{order:?}"));
            c.case(format!("{order:?}").as_bytes(), 0);
            let text = Rc::new(text);
            c.note("reordered", || format!("{:?}", String::from_utf8_lossy(&text)));
            let sp = spec(t, c);
            let (o, _) = pull(&text, &sp, c);
            c.see(&o);
            note_obs(c, "received", &o);
            let got: Vec<E> = canon(o.evs.iter().map(|x| &x.0)).into_iter().filter(|e| !matches!(e, E::StreamStart | E::StreamEnd | E::Comment(_))).collect();
            if let Some(d) = diff_evs(&want, &got, want.len()) {
                return fail("reordered", format!("{d} (then {}), order {order:?}", o.end.show()));
            }
            if got.len() != want.len() || o.end != End::Eos {
                return fail("reordered", format!("after all documents: {} more events, then {}", got.len() - want.len(), o.end.show()));
            }
        }
        _ => {
            // something defined in one document is used in a later one
            let anchor = t.chance(500);
            let i = t.us(n);
            let def: &str = if anchor {
                *t.pick(&["--- &zz9 x\n...\n", "&zz9 a: b\n...\n", "--- [&zz9 a, *zz9]\n...\n", "- &zz9\n  k: v\n- *zz9\n...\n"])
            } else {
                *t.pick(&["%TAG !zz9! tag:zz,9:\n--- !zz9!a x\n...\n", "%TAG !zz9! tag:zz,9:\n---\n- x\n...\n"])
            };
            let body = if anchor { *t.pick(&["*zz9", "[*zz9]", "a: *zz9", "? *zz9\n: b", "{*zz9 : b}"]) } else { *t.pick(&["!zz9!a x", "[!zz9!a x]", "a: !zz9!b\n  c: d", "? !zz9!a k\n: v"]) };
            let mut text = Vec::new();
            let mut want: Vec<E> = Vec::new();
            let pre = if anchor && def.starts_with("--- &") { vec![E::DocStart(true), E::Scalar { v: "x".into(), st: ':', a: 1, tag: None }, E::DocEnd] } else { Vec::new() };
            text.extend_from_slice(def.as_bytes());
            let last = s.text.last().copied().unwrap_or(b'\n');
            let mid = s.docs[i].dots || i + 1 < n || last == b'\n' || last == b'\r';
            if t.chance(600) && mid {
                text.extend_from_slice(&slice(&s, i));
                want.extend(docs[i].iter().cloned());
            }
            let nd = text.len();
            text.extend_from_slice(format!("--- \n{body}\n").as_bytes());
            let keep = !anchor && t.chance(400);
            let text = Rc::new(text);
            c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
            c.count(if anchor { "fault: alias to an earlier document" } else { "fault: tag handle of an earlier document" });
            let sp = spec(t, c);
            let m = Meter::new(text.len());
            let mut o = Obs::new();
            let Ok(p) = parser(&text, &sp, &m) else { return fail("panic", "opening") };
            let mut p = p.keep_tags(keep);
            drain(&mut p, &mut o, text.len());
            done(c, &m);
            c.see(&o);
            note_obs(c, "received", &o);
            let _ = pre;
            match (&o.end, keep) {
                (End::Err(_), false) => {
                    // refused, but only in the document that used it
                    let ds = o.evs.iter().filter(|x| matches!(x.0, E::DocEnd)).count();
                    let wd = 1 + usize::from(!want.is_empty());
                    if ds != wd {
                        return fail("leak", format!("{ds} documents delivered before the refusal instead of {wd}: {}", o.end.show()));
                    }
                }
                (End::Eos, true) => {
                    let ok = o.evs.iter().any(|(e, s)| s.s.pos >= nd && matches!(e, E::Scalar { tag: Some((h, _)), .. } | E::SeqStart(_, Some((h, _))) | E::MapStart(_, Some((h, _))) if h == "tag:zz,9:"));
                    if !ok {
                        return fail("kept tag", "the kept tag handle does not resolve to its prefix");
                    }
                }
                (End::Eos, false) => {
                    return fail("leak", if anchor { "an alias to an anchor of an earlier document was accepted" } else { "a tag handle of an earlier document was accepted" });
                }
                (e, _) => {
                    // an intermediate document may itself declare directives; keep_tags then must still parse
                    return fail("leak", format!("keep_tags {keep}: {}", e.show()));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

pub fn c12(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, model) = text_of(t, c);
    let sp = spec(t, c);
    let (o, _) = pull(&text, &sp, c);
    c.see(&o);
    note_obs(c, "received", &o);
    c.nontrivial = has_node(&o);
    c.case(&text, sp.kind as u64);
    if o.end.crashed() {
        return Ok(());
    }
    let lines = Lines::new(&text);
    let mut last = 0;
    for (i, (e, s)) in o.evs.iter().enumerate() {
        if *e == E::StreamStart && s.s == M::default() && s.e == M::default() {
            continue;
        }
        for (w, m) in [("start", &s.s), ("end", &s.e)] {
            if let Err(d) = lines.check(m) {
                return fail("mark", format!("event {i}, {}, {w}: {d}", e.show()));
            }
        }
        if s.e.pos < s.s.pos {
            return fail("order", format!("event {i}, {} ends before it starts: {}", e.show(), show_sp(s)));
        }
        if s.s.pos < last {
            return fail("order", format!("event {i}, {} starts at {} after an event that starts at {last}", e.show(), s.s.pos));
        }
        last = s.s.pos;
        if *e == E::StreamEnd && s.s.pos != text.len() {
            return fail("total", format!("the stream ends at byte {} of {}", s.s.pos, text.len()));
        }
    }
    if let Some(m) = &o.err_at {
        if let Err(d) = lines.check(m) {
            return fail("mark", format!("error {}: {d}", o.end.show()));
        }
    }
    if let Some(s) = model {
        c.count("streams with known positions");
        let want = canon(s.evs.iter().map(|x| &x.e));
        let got: Vec<(E, Sp)> = {
            let es = canon(o.evs.iter().map(|x| &x.0));
            es.into_iter().zip(o.evs.iter().filter(|x| !matches!(x.0, E::Comment(_))).map(|x| x.1)).collect()
        };
        for (i, x) in s.evs.iter().enumerate() {
            // a wrong event is C03's business
            match got.get(i) {
                Some(g) if g.0 == want[i] => {
                    if let Some(p) = x.start {
                        if g.1.s.pos != p {
                            return fail("start", format!("event {i}, {}: its text starts at byte {p}, reported at {}", g.0.show(), show_sp(&g.1)));
                        }
                    }
                }
                _ => break,
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

pub fn c13(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let sp = spec(t, c);
    let (o, m) = pull(&text, &sp, c);
    c.see(&o);
    note_obs(c, "received", &o);
    c.nontrivial = text.len() >= 2;
    c.case(&text, sp.kind as u64);
    if m.far.get() > 0 {
        c.count(&format!("deepest look-ahead {}", match m.far.get() {
            0..=4 => "up to 4",
            5..=8 => "5 to 8",
            9..=16 => "9 to 16",
            17..=64 => "17 to 64",
            _ => "over 64",
        }));
    }
    if let Some(d) = m.broken.borrow().as_ref() {
        return fail("contract", d.clone());
    }
    let txt = String::from_utf8_lossy(&text);
    let free = text.contains(&b'\\') || text.contains(&b'%');
    let check = |s: &str, what: &str| -> Res {
        for ch in s.chars() {
            if !ch.is_ascii() && !free && !txt.contains(ch) {
                return fail("character", format!("{what} {s:?} holds {ch:?}, which is not in the stream"));
            }
        }
        Ok(())
    };
    for (e, _) in &o.evs {
        match e {
            E::BadUtf8(b) => return fail("utf8", format!("a delivered string is not UTF-8: {b:02x?}")),
            E::Scalar { v, tag, .. } => {
                check(v, "scalar")?;
                if let Some((h, s)) = tag {
                    check(h, "tag handle")?;
                    check(s, "tag suffix")?;
                }
            }
            E::SeqStart(_, Some((h, s))) | E::MapStart(_, Some((h, s))) => {
                check(h, "tag handle")?;
                check(s, "tag suffix")?;
            }
            E::Comment(s) => check(s, "comment")?,
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

pub fn c16(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let (o0, _) = pull(&text, &Spec::plain(Kind::SimMin), c);
    if o0.end.crashed() {
        return Ok(());
    }
    note_obs(c, "pull only", &o0);
    let sp = spec(t, c);
    let m = Meter::new(text.len());
    let Ok(mut p) = parser(&text, &sp, &m) else { return fail("panic", "opening") };
    let mut o = Obs::new();
    let mut crashes = 0;
    let mut trace: Vec<String> = Vec::new();
    let peeky = t.chance(400);
    let cap = 2 * event_budget(text.len());
    let mut n = 0;
    let rate = *t.pick(&[4usize, 1, 12, 40]);
    loop {
        n += 1;
        if n > cap {
            o.end = End::Budget("calls".into());
            break;
        }
        if at_boundary(&o.evs) && !matches!(o.evs.last(), Some((E::StreamEnd, _))) && t.chance(600) {
            let multi = t.chance(500);
            let mut r = Recv::new(text.len());
            r.crash_at = if t.chance(850) { Some(t.us(rate * 4) / 2) } else { None };
            if peeky && t.chance(300) {
                let _ = guard(|| p.peek().is_some());
            }
            let res = guard(|| p.load(&mut r, multi));
            trace.push(format!("load(multi {multi}) crash at {:?} got {}", r.crash_at, r.o.evs.len()));
            o.evs.append(&mut r.o.evs);
            match res {
                Err(Stop::Crash) => {
                    crashes += 1;
                    c.count("fault: receiver unwound");
                }
                Err(e) => {
                    o.end = end_of(e);
                    break;
                }
                Ok(Err(e)) => {
                    o.end = End::Err(err_str(&e));
                    break;
                }
                Ok(Ok(())) => {}
            }
            continue;
        }
        if peeky && t.chance(500) {
            match guard(|| p.peek().map(|r| r.map(|(e, s)| (E::of(e), Sp::from(*s))).map_err(|e| err_str(&e)))) {
                Ok(Some(Ok(x))) => {
                    trace.push("peek".into());
                    let had = o.evs.len();
                    if !step(&mut p, &mut o) || o.evs[had] != x {
                        c.note("calls", || trace.join("; "));
                        return fail("peek", format!("peek showed {}, next: {}", x.0.show(), o.evs.get(had).map_or(o.end.show(), |e| e.0.show())));
                    }
                    continue;
                }
                Ok(_) => {}
                Err(e) => {
                    o.end = end_of(e);
                    break;
                }
            }
        }
        trace.push("next".into());
        if !step(&mut p, &mut o) {
            break;
        }
    }
    done(c, &m);
    c.see(&o);
    c.note("calls", || trace.join("; "));
    note_obs(c, "received", &o);
    c.nontrivial = crashes > 0 && o.evs.len() >= 5;
    c.case(&text, 0);
    c.case(trace.join(";").as_bytes(), 1);
    if let Some(d) = diff(&o0, "without crashes", &o, "with crashes") {
        return fail("crash", format!("{d} after {crashes} crashes"));
    }
    Ok(())
}
