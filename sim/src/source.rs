//! The simulated byte delivery: network, windows, and the meter around every source.

use crate::run::abort;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use yam_core::prelude::{Source, StrSource};
use yam_core::sim_hooks::{BufferedBytesSource, SkipTabs};

use crate::tape::Tape;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// `StrSource` of the library: the whole string at once.
    Str,
    /// `BufferedBytesSource` of the library over a slice.
    Bytes,
    /// `BufferedBytesSource` of the library over the simulated network.
    Iter,
    /// Simulated window with the trait's default (byte by byte) methods.
    SimMin,
    /// Simulated window with its own one-step bulk methods.
    SimBulk,
}
pub const KINDS: [Kind; 5] = [Kind::Str, Kind::Bytes, Kind::Iter, Kind::SimMin, Kind::SimBulk];

/// How one stream is delivered.
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    /// advertised `buf_max_len` of the simulated windows
    pub max: usize,
    /// chunk sizes and delays (ms), used cyclically
    pub chunks: Vec<(u32, u32)>,
}

impl Spec {
    pub fn plain(kind: Kind) -> Spec {
        Spec { kind, max: 128, chunks: vec![(u32::MAX, 0)] }
    }
    pub fn random(t: &mut Tape, kind: Kind) -> Spec {
        let max = *t.pick(&[128usize, 16, 17, 24, 32, 33, 64, 100, 256, 1024]);
        let n = 1 + t.us(4);
        let mut chunks = Vec::new();
        for _ in 0..n {
            let size = match t.below(4) {
                0 => 1_000_000,
                1 => 1 + t.below(3),
                2 => 1 + t.below(64),
                _ => 1 + t.below(1500),
            };
            let delay = match t.below(3) {
                0 => 0,
                1 => t.below(50),
                _ => t.below(30_000),
            };
            chunks.push((size, delay));
        }
        Spec { kind, max, chunks }
    }
    pub fn show(&self) -> String {
        match self.kind {
            Kind::Str | Kind::Bytes => format!("{:?}", self.kind),
            Kind::Iter => format!("Iter chunks(bytes,ms)={:?}", self.chunks),
            _ => format!("{:?} window={} chunks(bytes,ms)={:?}", self.kind, self.max, self.chunks),
        }
    }
}

/// The peer that produces the stream; decides what it has sent so far.
pub trait Peer {
    /// The reader has consumed everything that was sent and wants more.
    /// Returns how many bytes have been sent in total now; `None`: end of stream.
    fn want(&mut self, have: usize) -> Option<usize>;
}

/// One simulated connection.
pub struct Net {
    data: Rc<Vec<u8>>,
    at: usize,
    chunks: Vec<(u32, u32)>,
    ci: usize,
    left: u32,
    pub clock: Rc<Cell<u64>>,
    peer: Option<Rc<RefCell<dyn Peer>>>,
    sent: usize,
}

impl Net {
    pub fn new(data: Rc<Vec<u8>>, spec: &Spec, clock: Rc<Cell<u64>>) -> Net {
        let sent = data.len();
        Net { data, at: 0, chunks: spec.chunks.clone(), ci: 0, left: 0, clock, peer: None, sent }
    }
    pub fn with_peer(mut self, peer: Rc<RefCell<dyn Peer>>) -> Net {
        self.peer = Some(peer);
        self.sent = 0;
        self
    }
    /// Next byte off the wire; waits (in simulated time) when a chunk is used up.
    fn next_byte(&mut self) -> Option<u8> {
        if self.at >= self.sent {
            if let Some(p) = &self.peer {
                match p.borrow_mut().want(self.at) {
                    Some(n) => self.sent = n.min(self.data.len()),
                    None => return None,
                }
            }
            if self.at >= self.sent {
                return None;
            }
        }
        if self.left == 0 {
            let (size, delay) = self.chunks[self.ci % self.chunks.len()];
            self.ci += 1;
            self.left = size.max(1);
            self.clock.set(self.clock.get() + u64::from(delay));
        }
        self.left -= 1;
        let b = self.data[self.at];
        self.at += 1;
        Some(b)
    }
    /// Bytes that can be had without waiting.
    fn ready(&self) -> bool {
        self.left > 0 && self.at < self.sent
    }
}

pub struct NetIter(Net);
impl Iterator for NetIter {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0.next_byte()
    }
}

/// Reference window over the network, refilled on demand only.
struct Win {
    net: RefCell<Net>,
    buf: RefCell<VecDeque<u8>>,
    max: usize,
}

impl Win {
    fn get(&self, n: usize) -> Option<u8> {
        if n >= self.max {
            return None;
        }
        let mut b = self.buf.borrow_mut();
        if b.len() <= n {
            let mut net = self.net.borrow_mut();
            while b.len() <= n {
                match net.next_byte() {
                    Some(x) => b.push_back(x),
                    None => return None,
                }
            }
            // take what arrived in the same chunk, as a real read would
            while b.len() < self.max && net.ready() {
                match net.next_byte() {
                    Some(x) => b.push_back(x),
                    None => break,
                }
            }
        }
        b.get(n).copied()
    }
    fn skip(&self, n: usize) {
        for _ in 0..n {
            if self.get(0).is_none() {
                break;
            }
            self.buf.borrow_mut().pop_front();
        }
    }
    fn chr(&self) -> char {
        let mut v = Vec::new();
        for i in 0..4 {
            match self.get(i) {
                Some(b) => v.push(b),
                None => break,
            }
            if let Ok(s) = std::str::from_utf8(&v) {
                return s.chars().next().unwrap_or('\u{FFFD}');
            }
        }
        '\u{FFFD}'
    }
}

fn brk(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}

/// Reference meaning of `skip_ws_to_eol`.
fn ref_skip_ws(w: &Win, tabs: bool, mut ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
    let mut n = 0u32;
    let mut any_tabs = false;
    loop {
        match w.get(0) {
            Some(b' ') => ws = true,
            Some(b'\t') if tabs => any_tabs = true,
            Some(b'#') if !ws && !any_tabs => {
                return (n, Err("comments must be separated from other tokens by whitespace"));
            }
            Some(b'#') if !cfg!(feature = "comment") => {
                while let Some(c) = w.get(0) {
                    if brk(c) || c == 0 {
                        break;
                    }
                    w.skip(1);
                    n += 1;
                }
                continue;
            }
            _ => break,
        }
        w.skip(1);
        n += 1;
    }
    (n, Ok(SkipTabs::Result { any_tabs, has_yaml_ws: ws }))
}

pub struct SimMin(Win);
unsafe impl Source for SimMin {
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.0.get(n).unwrap_or(0)
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.0.get(n)
    }
    fn peek_char(&self) -> char {
        self.0.chr()
    }
    fn buf_max_len(&self) -> usize {
        self.0.max
    }
    fn buf_is_empty(&self) -> bool {
        self.0.get(0).is_none()
    }
    fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
        while let Some(c) = self.0.get(0) {
            if brk(c) {
                break;
            }
            vec.push(c);
            self.0.skip(1);
        }
    }
    fn skip(&mut self, n: usize) {
        self.0.skip(n);
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
        ref_skip_ws(&self.0, tabs, ws)
    }
}

pub struct SimBulk(Win);
impl SimBulk {
    fn take_while(&mut self, out: &mut Vec<u8>, f: impl Fn(u8) -> bool) -> usize {
        let mut n = 0;
        while let Some(c) = self.0.get(0) {
            if !f(c) {
                break;
            }
            // everything in the window that matches goes in one step
            let mut b = self.0.buf.borrow_mut();
            let k = b.iter().take_while(|c| f(**c)).count();
            out.extend(b.drain(..k));
            n += k;
        }
        n
    }
}
unsafe impl Source for SimBulk {
    fn peekz(&self, n: usize) -> u8 {
        self.0.get(n).unwrap_or(0)
    }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.0.get(n).unwrap_or(0)
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.0.get(n)
    }
    fn peek_char(&self) -> char {
        self.0.chr()
    }
    fn buf_max_len(&self) -> usize {
        self.0.max
    }
    fn buf_is_empty(&self) -> bool {
        self.0.get(0).is_none()
    }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        self.take_while(out, |c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-')
    }
    fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
        self.take_while(vec, |c| !brk(c));
    }
    fn skip(&mut self, n: usize) {
        self.0.skip(n);
    }
    fn skip_while_blank(&mut self) -> usize {
        self.take_while(&mut Vec::new(), blank)
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
        ref_skip_ws(&self.0, tabs, ws)
    }
    fn skip_while_non_breakz(&mut self) -> usize {
        self.take_while(&mut Vec::new(), |c| !brk(c) && c != 0)
    }
    fn skip_and_accumulate_to_eol(&mut self, acc: &mut Vec<u8>) {
        self.take_while(acc, |c| !brk(c));
    }
    fn next_next_byte_is(&self, chr: u8) -> bool {
        self.0.get(1).unwrap_or(0) == chr
    }
    fn next_is_three(&self, chr: u8) -> bool {
        (0..3).all(|i| self.0.get(i) == Some(chr))
    }
    fn next_can_be_plain_scalar(&self, in_flow: bool) -> bool {
        let flow = |c: u8| matches!(c, b',' | b'[' | b']' | b'{' | b'}');
        let c = self.0.get(0).unwrap_or(0);
        if c == b':' {
            let d = self.0.get(1).unwrap_or(0);
            return !(d == 0 || blank(d) || brk(d) || (in_flow && flow(d)));
        }
        !(in_flow && flow(c))
    }
    fn next_is_document_indicator(&self) -> bool {
        let c = self.0.get(0);
        if c != Some(b'-') && c != Some(b'.') {
            return false;
        }
        if self.0.get(1) != c || self.0.get(2) != c {
            return false;
        }
        self.0.get(3).is_none_or(|d| d == 0 || blank(d) || brk(d))
    }
}

/// What the meter saw.
pub struct Meter {
    pub ops: Cell<u64>,
    pub budget: Cell<u64>,
    pub len: Cell<usize>,
    pub pos: Cell<usize>,
    pub far: Cell<usize>,
    /// live-heap limit; 0: none
    pub mem_limit: Cell<usize>,
    pub mem_peak: Cell<usize>,
    pub broken: RefCell<Option<String>>,
    pub clock: Rc<Cell<u64>>,
}

impl Meter {
    pub fn new(len: usize) -> Rc<Meter> {
        Rc::new(Meter {
            ops: Cell::new(0),
            budget: Cell::new(400 * len as u64 + 40_000),
            len: Cell::new(len),
            pos: Cell::new(0),
            far: Cell::new(0),
            mem_limit: Cell::new(0),
            mem_peak: Cell::new(0),
            broken: RefCell::new(None),
            clock: Rc::new(Cell::new(0)),
        })
    }
    fn tick(&self) {
        let o = self.ops.get() + 1;
        self.ops.set(o);
        if o > self.budget.get() {
            abort(format!("{} source accesses on a stream of {} bytes", self.budget.get(), self.len.get()));
        }
        let lim = self.mem_limit.get();
        if lim > 0 {
            let l = crate::alloc::live();
            if l > self.mem_peak.get() {
                self.mem_peak.set(l);
            }
            if l > lim {
                abort(format!("live memory beyond its bound on a stream of {} bytes", self.len.get()));
            }
        }
    }
    fn bad(&self, s: String) {
        let mut b = self.broken.borrow_mut();
        if b.is_none() {
            *b = Some(format!("at byte {} of {}: {s}", self.pos.get(), self.len.get()));
        }
    }
    fn adv(&self, n: usize) {
        self.pos.set(self.pos.get() + n);
        if self.pos.get() > self.len.get() {
            self.bad(format!("moved {} bytes past the end of the stream", self.pos.get() - self.len.get()));
        }
    }
}

/// Forwards every operation to the real source and checks the contract.
pub struct Metered {
    inner: Box<dyn Source>,
    pub m: Rc<Meter>,
    max: usize,
}

impl Metered {
    pub fn wrap(inner: Box<dyn Source>, m: &Rc<Meter>) -> Metered {
        let max = inner.buf_max_len();
        Metered { inner, m: m.clone(), max }
    }
    fn look(&self, n: usize) {
        self.m.tick();
        if n + 1 > self.m.far.get() {
            self.m.far.set(n + 1);
        }
        if n >= self.max {
            self.m.bad(format!("look-ahead of {} with an advertised buffer of {}", n + 1, self.max));
        }
    }
}

unsafe impl Source for Metered {
    fn peekz(&self, n: usize) -> u8 {
        self.look(n);
        self.inner.peekz(n)
    }
    unsafe fn peek_unsafe(&self, n: usize) -> u8 {
        self.look(n);
        if self.m.pos.get() + n >= self.m.len.get() {
            self.m.bad(format!("unchecked look-ahead of {} beyond the end of the stream", n + 1));
            return 0;
        }
        unsafe { self.inner.peek_unsafe(n) }
    }
    fn peek_checked(&self, n: usize) -> Option<u8> {
        self.look(n);
        self.inner.peek_checked(n)
    }
    fn peek_char(&self) -> char {
        self.m.tick();
        if self.m.pos.get() >= self.m.len.get() {
            self.m.bad("peek_char at the end of the stream".into());
            return '\u{FFFD}';
        }
        self.inner.peek_char()
    }
    fn buf_max_len(&self) -> usize {
        self.inner.buf_max_len()
    }
    fn buf_is_empty(&self) -> bool {
        self.m.tick();
        self.inner.buf_is_empty()
    }
    fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
        self.m.tick();
        let n = self.inner.fetch_while_is_alpha(out);
        self.m.adv(n);
        n
    }
    fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
        self.m.tick();
        let l = vec.len();
        self.inner.push_non_breakz_chr(vec);
        self.m.adv(vec.len() - l);
    }
    fn skip(&mut self, n: usize) {
        self.m.tick();
        self.m.adv(n);
        self.inner.skip(n);
    }
    fn skip_while_blank(&mut self) -> usize {
        self.m.tick();
        let n = self.inner.skip_while_blank();
        self.m.adv(n);
        n
    }
    fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
        self.m.tick();
        let r = self.inner.skip_ws_to_eol(tabs, ws);
        self.m.adv(r.0 as usize);
        r
    }
    fn skip_while_non_breakz(&mut self) -> usize {
        self.m.tick();
        let n = self.inner.skip_while_non_breakz();
        self.m.adv(n);
        n
    }
    fn skip_and_accumulate_to_eol(&mut self, acc: &mut Vec<u8>) {
        self.m.tick();
        let l = acc.len();
        self.inner.skip_and_accumulate_to_eol(acc);
        self.m.adv(acc.len() - l);
    }
    fn next_next_byte_is(&self, chr: u8) -> bool {
        self.look(1);
        self.inner.next_next_byte_is(chr)
    }
    fn next_is_three(&self, chr: u8) -> bool {
        self.look(2);
        self.inner.next_is_three(chr)
    }
    fn next_can_be_plain_scalar(&self, in_flow: bool) -> bool {
        self.look(1);
        self.inner.next_can_be_plain_scalar(in_flow)
    }
    fn next_is_document_indicator(&self) -> bool {
        self.look(3);
        self.inner.next_is_document_indicator()
    }
}

/// Builds the source `spec` describes over `text`. The bytes are leaked into the
/// `'static` lifetime by `Rc`/copy, so that one concrete source type serves all runs.
pub fn open(text: &Rc<Vec<u8>>, spec: &Spec, m: &Rc<Meter>) -> Metered {
    open_net(text, spec, m, None)
}

pub fn open_net(text: &Rc<Vec<u8>>, spec: &Spec, m: &Rc<Meter>, peer: Option<Rc<RefCell<dyn Peer>>>) -> Metered {
    let net = |m: &Rc<Meter>| {
        let n = Net::new(text.clone(), spec, m.clock.clone());
        match &peer {
            Some(p) => n.with_peer(p.clone()),
            None => n,
        }
    };
    let inner: Box<dyn Source> = match spec.kind {
        Kind::Str => Box::new(OwnedStr::new(text.clone())),
        Kind::Bytes => Box::new(OwnedBytes::new(text.clone())),
        Kind::Iter => Box::new(BufferedBytesSource::new(NetIter(net(m)))),
        Kind::SimMin => Box::new(SimMin(Win { net: RefCell::new(net(m)), buf: RefCell::new(VecDeque::new()), max: spec.max })),
        Kind::SimBulk => Box::new(SimBulk(Win { net: RefCell::new(net(m)), buf: RefCell::new(VecDeque::new()), max: spec.max })),
    };
    Metered::wrap(inner, m)
}

macro_rules! owned {
    ($name:ident, $ty:ty, $mk:expr) => {
        /// Keeps the text alive next to the library source that borrows it.
        pub struct $name {
            src: $ty,
            _keep: Rc<Vec<u8>>,
        }
        impl $name {
            pub fn new(text: Rc<Vec<u8>>) -> $name {
                // SAFETY: `_keep` owns the bytes and outlives `src` (dropped after it).
                let s: &'static [u8] = unsafe { std::slice::from_raw_parts(text.as_ptr(), text.len()) };
                $name { src: $mk(s), _keep: text }
            }
        }
        unsafe impl Source for $name {
            fn peekz(&self, n: usize) -> u8 {
                self.src.peekz(n)
            }
            unsafe fn peek_unsafe(&self, n: usize) -> u8 {
                unsafe { self.src.peek_unsafe(n) }
            }
            fn peek_checked(&self, n: usize) -> Option<u8> {
                self.src.peek_checked(n)
            }
            fn peek_char(&self) -> char {
                self.src.peek_char()
            }
            fn buf_max_len(&self) -> usize {
                self.src.buf_max_len()
            }
            fn buf_is_empty(&self) -> bool {
                self.src.buf_is_empty()
            }
            fn fetch_while_is_alpha(&mut self, out: &mut Vec<u8>) -> usize {
                self.src.fetch_while_is_alpha(out)
            }
            fn push_non_breakz_chr(&mut self, vec: &mut Vec<u8>) {
                self.src.push_non_breakz_chr(vec)
            }
            fn skip(&mut self, n: usize) {
                self.src.skip(n)
            }
            fn skip_while_blank(&mut self) -> usize {
                self.src.skip_while_blank()
            }
            fn skip_ws_to_eol(&mut self, tabs: bool, ws: bool) -> (u32, Result<SkipTabs, &'static str>) {
                self.src.skip_ws_to_eol(tabs, ws)
            }
            fn skip_while_non_breakz(&mut self) -> usize {
                self.src.skip_while_non_breakz()
            }
            fn skip_and_accumulate_to_eol(&mut self, acc: &mut Vec<u8>) {
                self.src.skip_and_accumulate_to_eol(acc)
            }
            fn next_next_byte_is(&self, chr: u8) -> bool {
                self.src.next_next_byte_is(chr)
            }
            fn next_is_three(&self, chr: u8) -> bool {
                self.src.next_is_three(chr)
            }
            fn next_can_be_plain_scalar(&self, in_flow: bool) -> bool {
                self.src.next_can_be_plain_scalar(in_flow)
            }
            fn next_is_document_indicator(&self) -> bool {
                self.src.next_is_document_indicator()
            }
        }
    };
}
// SAFETY of from_utf8_unchecked: every stream the harness builds is valid UTF-8 (`soup::repair`).
owned!(OwnedStr, StrSource<'static>, |s: &'static [u8]| StrSource::new(unsafe { std::str::from_utf8_unchecked(s) }));
owned!(OwnedBytes, BufferedBytesSource<std::iter::Copied<std::slice::Iter<'static, u8>>>, BufferedBytesSource::from_bytes);

pub fn stream_clock(m: &Rc<Meter>) -> u64 {
    m.clock.get()
}
