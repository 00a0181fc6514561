//! Running the code under test: unwinding, step budgets, and the per-run context.

use crate::ev::*;
use crate::source::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::rc::Rc;
use yam_core::parsing::Parser;

/// Raised by the simulator itself, inside a call of the code under test.
pub struct SimAbort(pub String);
/// Raised by the simulator to model a consumer that unwinds.
pub struct Crash;

pub fn abort(s: String) -> ! {
    resume_unwind(Box::new(SimAbort(s)))
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| {
            let f = l.file();
            let f = f.rsplit("/repo/").next().unwrap_or(f);
            format!(" at {f}:{}", l.line())
        });
        let _ = LAST.try_with(|c| *c.borrow_mut() = format!("{msg}{}", loc.unwrap_or_default()));
    }));
}

pub enum Stop {
    Panic(String),
    Budget(String),
    Crash,
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Stop> {
    catch_unwind(AssertUnwindSafe(f)).map_err(classify)
}

fn classify(p: Box<dyn Any + Send>) -> Stop {
    if let Some(a) = p.downcast_ref::<SimAbort>() {
        return Stop::Budget(a.0.clone());
    }
    if p.is::<Crash>() {
        return Stop::Crash;
    }
    Stop::Panic(LAST.with(|c| c.borrow().clone()))
}

pub fn end_of(s: Stop) -> End {
    match s {
        Stop::Panic(m) => End::Panic(m),
        Stop::Budget(m) => End::Budget(m),
        Stop::Crash => End::Panic("consumer crash escaped".into()),
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class of the failure; minimising keeps it.
    pub sig: String,
    pub details: String,
}
pub type Res = Result<(), Violation>;

pub fn fail<T>(sig: &str, details: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.to_string(), details: details.into() })
}

/// Everything a run reports, apart from its verdict.
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub trace: Option<Vec<(String, String)>>,
    pub sim_ms: u64,
    pub hash: u64,
    pub nontrivial: bool,
    pub case_hash: u64,
    /// C06: run nothing but this client, and report what it sees
    pub only: Option<usize>,
    /// C06: what each client observes when it runs alone
    pub alone: Vec<u64>,
}

impl Ctx {
    pub fn new(trace: bool) -> Ctx {
        Ctx {
            counters: BTreeMap::new(),
            states: HashSet::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            sim_ms: 0,
            hash: 0,
            nontrivial: false,
            case_hash: 0,
            only: None,
            alone: Vec::new(),
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn note(&mut self, k: &str, v: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push((k.to_string(), v()));
        }
    }
    /// Mixes an observation into the run's trace hash (determinism check) and state set.
    pub fn see(&mut self, o: &Obs) {
        let h = o.hash();
        hash_u(&mut self.hash, h);
        if self.states.len() < 400_000 {
            self.states.insert(h);
        }
    }
    pub fn see_u(&mut self, h: u64) {
        hash_u(&mut self.hash, h);
        if self.states.len() < 400_000 {
            self.states.insert(h);
        }
    }
    /// Identity of the case (for counting distinct ones).
    pub fn case(&mut self, bytes: &[u8], extra: u64) {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ extra;
        for b in bytes {
            h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
        hash_u(&mut self.case_hash, h);
    }
}

pub fn event_budget(len: usize) -> usize {
    8 * len + 64
}

/// Pulls one event and records it. `Some(true)`: an event came, `Some(false)`: the run is over.
pub fn step(p: &mut Parser<'static, Metered>, o: &mut Obs) -> bool {
    match guard(|| p.next_event().map(|r| r.map(|(e, s)| (E::of(&e), Sp::from(s))))) {
        Err(s) => {
            o.end = end_of(s);
            false
        }
        Ok(None) => {
            o.end = End::Eos;
            false
        }
        Ok(Some(Err(e))) => {
            o.end = End::Err(err_str(&e));
            o.err_at = err_mark(&e);
            false
        }
        Ok(Some(Ok(x))) => {
            o.evs.push(x);
            true
        }
    }
}

pub fn drain(p: &mut Parser<'static, Metered>, o: &mut Obs, len: usize) {
    let cap = event_budget(len);
    loop {
        if o.evs.len() > cap {
            o.end = End::Budget(format!("more than {cap} events from {len} bytes"));
            return;
        }
        if !step(p, o) {
            return;
        }
    }
}

pub fn parser(text: &Rc<Vec<u8>>, spec: &Spec, m: &Rc<Meter>) -> Result<Parser<'static, Metered>, Stop> {
    guard(|| Parser::new(open(text, spec, m)))
}

/// Pulls a whole stream through `next_event`.
pub fn pull_all(text: &Rc<Vec<u8>>, spec: &Spec) -> (Obs, Rc<Meter>) {
    let m = Meter::new(text.len());
    let mut o = Obs::new();
    match parser(text, spec, &m) {
        Ok(mut p) => {
            drain(&mut p, &mut o, text.len());
            // a parser that unwound may be in any state; dropping it must still be quiet
            if let Err(s) = guard(move || drop(p)) {
                o.end = end_of(s);
            }
        }
        Err(s) => o.end = end_of(s),
    }
    (o, m)
}
