//! The writer: produces a YAML stream together with what a reader must receive.
//!
//! The text and the expected events are produced side by side from the same
//! decisions, so the model never parses anything.

use crate::ev::{E, TagO};
use crate::tape::Tape;

const MANY_HANDLES: [(&str, &str); 16] = [
    ("!h1!", "h1:"), ("!h2!", "h2:"), ("!h3!", "h3:"), ("!h4!", "h4:"), ("!h5!", "h5:"), ("!h6!", "h6:"), ("!h7!", "h7:"), ("!h8!", "h8:"),
    ("!H!", "h9:"), ("!0!", "h10:"), ("!h-h!", "h11:"), ("!e3!", "h12:"), ("!1!", "h13:"), ("!-!", "h14:"), ("!hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh!", "h15:"), ("!ee!", "h16:"),
];

#[derive(Clone, Debug)]
pub struct Exp {
    pub e: E,
    /// Byte where the event's text starts, when the text determines it.
    pub start: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    /// Where a reader that only wants this document (and the following) may start.
    pub from: usize,
    /// End of the document's own text (before its terminator).
    pub body_end: usize,
    /// The stream up to here determines the document: its terminator was read.
    pub complete_at: usize,
    /// Its events are `evs[ev.0..ev.1]`, DocStart to DocEnd.
    pub ev: (usize, usize),
    /// The line with the terminator ends here.
    pub line_end: usize,
    /// The line with the `---` it starts with ends here.
    pub head_end: usize,
    pub explicit: bool,
    pub dots: bool,
    pub directives: bool,
}

/// A place of the text where the writer can say which damage breaks the grammar.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sk {
    /// `a..b` with its quotes
    Single,
    Double,
    /// `a..b` with its brackets; `outer`: not inside another one
    Flow { outer: bool, seq: bool },
    /// `a..b` is the name
    Alias,
    /// `a..b` with its `&`
    Anchor,
    /// `a..b` is the whole tag
    Tag,
    /// `a` begins a plain scalar
    Plain { flow: bool },
    /// `a` begins a line that continues a plain scalar, `b` its text
    PlainLine,
    /// `a` begins a line that continues a quoted scalar, `b` its text
    QuotedLine,
    /// the same, and the scalar is the value of an implicit key of a block mapping
    QuotedValueLine,
    /// the comma between (or after) entries at `a`
    Comma,
    /// right after the `|` or `>`
    Header,
    /// the text of a value begins at `a` on the line of its implicit key
    Value,
    /// an entry of a block collection begins at `a`, on a line of its own that begins at `b`
    /// (`first`: the first of its collection)
    Entry { seq: bool, first: bool },
    /// the same place of a sequence at the column of its parent mapping
    Indentless,
    /// a block collection (of entries in column `b`) ends at the line start `a`
    End,
    /// a line of a block scalar begins at `a`, its text at `b`; `first`: of the scalar, and
    /// its indentation is to be found out
    BlockLine { first: bool },
    /// the colon of an implicit key of a block mapping at `a`, which is not the first entry
    Colon,
    /// an implicit key of a block mapping (or of a single pair in a flow sequence) `a..b`, colon excluded
    Key,
    /// the line of a directive `a..b`, line break excluded
    Directive { tag: bool },
    /// the `---` after directives
    Marker,
    /// right after a `...`
    Dots,
}

#[derive(Clone, Copy, Debug)]
pub struct Site {
    pub k: Sk,
    pub a: usize,
    pub b: usize,
    /// column the node's content must be right of
    pub ind: i32,
}

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub text: Vec<u8>,
    pub evs: Vec<Exp>,
    pub docs: Vec<Doc>,
    /// every comment with its offset, from `#` to the end of its line
    pub comments: Vec<(usize, String)>,
    pub sites: Vec<Site>,
}

impl Stream {
    pub fn events(&self) -> Vec<E> {
        self.evs.iter().map(|x| x.e.clone()).collect()
    }
}

/// What a run's writer likes to do (drawn once per run).
#[derive(Clone, Debug)]
pub struct Style {
    pub nl: u8, // 0 LF 1 CRLF 2 CR 3 LF/CRLF mixed
    pub max_docs: usize,
    pub size: i32,
    pub depth: u32,
    pub p_coll: u32,
    pub p_flow: u32,
    pub p_props: u32,
    pub p_alias: u32,
    pub p_comment: u32,
    pub p_multiline: u32,
    pub p_quoted: u32,
    pub p_block_scalar: u32,
    pub p_explicit_key: u32,
    pub p_empty: u32,
    pub p_unicode: u32,
    pub p_long: u32,
    pub p_directive: u32,
    pub p_dots: u32,
    pub p_odd: u32,
    /// blanks that are tabs
    pub p_tab: u32,
    pub keep_tags: bool,
    /// values restricted to what every consumer of typed data understands
    pub simple_values: bool,
    pub min_docs: usize,
    /// every document ends with a `...` or `---` line
    pub terminate_last: bool,
    /// rarely, something is far larger than usual
    pub scale: Scale,
    /// the stream may end without a line break
    pub p_no_nl: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale {
    Usual,
    Documents,
    Entries,
    Nesting,
    Scalar,
    Lines,
    Comment,
    /// line breaks inside a scalar
    Breaks,
    /// blanks between two tokens
    Blanks,
    /// an anchor, tag or directive
    Name,
    /// an implicit key, within its limit
    Key,
}

impl Style {
    pub fn draw(t: &mut Tape) -> Style {
        let lvl = |t: &mut Tape, xs: &[u32]| *t.pick(xs);
        let mut s = Style {
            nl: *t.pick(&[0, 0, 0, 0, 0, 1, 1, 2, 3, 3]),
            max_docs: 1 + t.us(5),
            size: *t.pick(&[6, 3, 12, 25, 60]),
            depth: *t.pick(&[3, 2, 4, 6]),
            p_coll: lvl(t, &[350, 150, 600]),
            p_flow: lvl(t, &[250, 0, 600]),
            p_props: lvl(t, &[0, 150, 400]),
            p_alias: lvl(t, &[0, 200, 400]),
            p_comment: lvl(t, &[0, 100, 300]),
            p_multiline: lvl(t, &[0, 150, 400]),
            p_quoted: lvl(t, &[200, 0, 600]),
            p_block_scalar: lvl(t, &[100, 0, 400]),
            p_explicit_key: lvl(t, &[0, 100, 400]),
            p_empty: lvl(t, &[0, 80, 250]),
            p_unicode: lvl(t, &[0, 100, 500]),
            p_long: lvl(t, &[0, 30, 200]),
            p_directive: lvl(t, &[0, 150, 500]),
            p_dots: lvl(t, &[300, 0, 800, 1000]),
            p_odd: lvl(t, &[0, 100, 400]),
            p_tab: lvl(t, &[0, 0, 0, 60, 300]),
            keep_tags: false,
            simple_values: false,
            min_docs: 1,
            terminate_last: false,
            scale: Scale::Usual,
            p_no_nl: 0,
        };
        if t.below(400) == 399 {
            s.scale = *t.pick(&[Scale::Documents, Scale::Entries, Scale::Nesting, Scale::Scalar, Scale::Lines, Scale::Comment, Scale::Breaks, Scale::Blanks, Scale::Name, Scale::Key]);
            match s.scale {
                Scale::Documents => {
                    s.min_docs = 250;
                    s.max_docs = 50;
                    s.size = 3;
                }
                Scale::Entries => {
                    s.max_docs = 2;
                    s.size = 900;
                    s.depth = 3;
                    s.p_coll = 300;
                }
                Scale::Nesting => {
                    s.max_docs = 2;
                    s.size = 350;
                    s.depth = 300;
                    s.p_coll = 1000;
                    s.p_alias = s.p_alias.min(5);
                    s.p_empty = s.p_empty.min(10);
                }
                Scale::Lines | Scale::Comment => s.p_comment = 300,
                Scale::Breaks => s.p_multiline = 400,
                Scale::Name => {
                    s.p_props = 400;
                    s.p_odd = 400;
                }
                _ => {}
            }
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pos {
    /// at the start of a line
    Line,
    /// right after a `-`
    Dash,
    /// right after the `?` or `:` of an explicit entry
    Ask,
    /// right after the `:` of an implicit entry
    Colon,
    /// right after `---`
    Doc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum After {
    /// anything may follow
    Plain,
    /// a block scalar was written: blank lines would belong to it
    Block(usize),
    /// a block scalar without indentation was written: comments would belong to it too
    BlockCol0,
}

struct W<'t> {
    t: &'t mut Tape,
    s: Style,
    out: Vec<u8>,
    evs: Vec<Exp>,
    comments: Vec<(usize, String)>,
    sites: Vec<Site>,
    flow_depth: usize,
    /// names defined in this document with the anchor they are bound to now
    anchors: Vec<(String, usize)>,
    open: Vec<usize>,
    next_anchor: usize,
    /// handles declared for this document
    tags: Vec<(String, String)>,
    budget: i32,
    after: After,
    /// where the content of the last block scalar begins
    text_at: Option<usize>,
    last_nl: usize,
    /// offset of the first byte of the current line
    line_at: usize,
    /// start of the implicit key being written, which must stay within 1024 bytes
    key_at: Option<usize>,
    /// the two properties of a node may stand on different lines, indented below this
    props_break: Option<i32>,
    /// the large thing is still to be written
    large: Scale,
}

pub fn stream(t: &mut Tape, s: &Style) -> Stream {
    let mut w = W {
        t,
        s: s.clone(),
        out: Vec::new(),
        evs: Vec::new(),
        comments: Vec::new(),
        sites: Vec::new(),
        flow_depth: 0,
        anchors: Vec::new(),
        open: Vec::new(),
        next_anchor: 1,
        tags: Vec::new(),
        budget: 0,
        after: After::Plain,
        text_at: None,
        last_nl: 1,
        line_at: 0,
        key_at: None,
        props_break: None,
        large: s.scale,
    };
    let docs = w.stream();
    Stream { text: w.out, evs: w.evs, docs, comments: w.comments, sites: w.sites }
}

const ASCII_WORDS: &[&str] = &[
    "a", "b", "key", "value", "x1", "true", "null", "~", "12", "-7", "0x1F", "1.5", "+3", "a#b", "a:b", "it's", "say\"hi", "back\\slash",
    "http://e.x/p?q=1&r=%41", "x=y", "semi;colon", "under_score", "k-v", "(paren)", "<tag>", "at@home", "a*b", "a&b", "a!b", "star*",
    "50%", "q?", "..", "--x", "...x", "---x", "=", "+", "$",
];
const BLOCK_WORDS: &[&str] = &["a,b", "x[1]", "{y", "z}", "w]", ",a", "?q", ":r", "-s", "-,", "a-"];
const UNI_WORDS: &[&str] = &["é", "日本語", "😀", "naïve", "Ω≈ç", "\u{a0}nbsp", "z\u{301}", "ÿ", "\u{10ffff}x", "e\u{85}f", "l\u{2028}s"];
const SIMPLE_WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "omega", "k1", "k2", "v1", "v2", "long-word", "under_score"];

/// Would this text stand for a document marker at the start of a line?
fn is_marker(w: &str) -> bool {
    (w.starts_with("---") || w.starts_with("...")) && matches!(w.as_bytes().get(3), None | Some(b' ' | b'\t'))
}

impl W<'_> {
    fn site(&mut self, k: Sk, a: usize, b: usize, ind: i32) {
        self.sites.push(Site { k, a, b, ind });
    }
    fn raw(&mut self, s: &str) {
        self.out.extend_from_slice(s.as_bytes());
    }
    /// Writes a comment and the blanks before it.
    fn comment(&mut self, s: &str) {
        let at = self.out.len() + s.find('#').unwrap();
        self.raw(s);
        if self.large == Scale::Comment && self.t.chance(200) {
            self.large = Scale::Usual;
            let n = *self.t.pick(&[70_000, 300, 4100]);
            let x = "x".repeat(n);
            self.raw(&x);
        }
        if self.t.chance(self.s.p_odd / 3) {
            let n = self.t.small(4, 500);
            for _ in 0..=n {
                let x = *self.t.pick(&[" é", "日本", "😀", "\t", " ", "#", " ---", " ...", "\u{85}", "\\", " - x: [", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]);
                self.raw(x);
            }
        }
        let s = String::from_utf8(self.out[at..].to_vec()).unwrap();
        self.comments.push((at, s));
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(b' ');
        }
    }
    /// Blanks between two tokens of a line: `n` spaces, at times with tabs among them.
    fn gap(&mut self, n: usize) {
        if n > 0 && self.large == Scale::Blanks && self.key_at.is_none() && self.t.chance(100) {
            self.large = Scale::Usual;
            let n = *self.t.pick(&[300, 5000]);
            self.sp(n);
        } else if n > 0 && self.s.p_tab > 0 && self.t.chance(self.s.p_tab) {
            let x = *self.t.pick(&["\t", " \t", "\t ", "\t\t"]);
            self.raw(x);
        } else {
            self.sp(n);
        }
    }
    /// Beyond the indentation of a line that is no block collection's, any blanks will do.
    fn tabs(&mut self) {
        if self.s.p_tab > 0 && self.t.chance(self.s.p_tab) {
            self.gap(1);
        }
    }
    fn nl(&mut self) {
        let k = match self.s.nl {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => self.t.below(2),
        };
        let s = ["\n", "\r\n", "\r"][k as usize];
        self.raw(s);
        self.last_nl = s.len();
        self.line_at = self.out.len();
    }
    fn col(&self) -> usize {
        self.out.len() - self.line_at
    }
    fn ev(&mut self, e: E, start: Option<usize>) {
        self.evs.push(Exp { e, start });
    }
    fn empty(&mut self, a: usize, tag: TagO) {
        self.ev(E::Scalar { v: String::new(), st: ':', a, tag }, None);
    }

    // ---- stream and documents ----

    fn stream(&mut self) -> Vec<Doc> {
        self.ev(E::StreamStart, Some(0));
        let mut docs: Vec<Doc> = Vec::new();
        let n = if self.s.max_docs == 0 { 0 } else { self.s.min_docs.max(1) + self.t.us(self.s.max_docs) };
        // whether the next document may start without `---` and with directives
        let mut fresh = true;
        self.filler(0);
        for k in 0..n {
            let from = self.out.len();
            while fresh && self.t.chance(self.s.p_odd / 10) {
                self.raw("\u{feff}");
                self.line_at = self.out.len();
                self.filler(0);
            }
            self.anchors.clear();
            self.open.clear();
            if !self.s.keep_tags {
                self.tags.clear();
            }
            self.budget = self.s.size;
            let mut directives = false;
            if fresh && self.t.chance(self.s.p_directive) {
                directives = true;
                self.directives();
            }
            let explicit = directives || !fresh || self.t.chance(500);
            let ev0 = self.evs.len();
            let at = self.out.len();
            let mut head_end = usize::MAX;
            if explicit {
                if directives {
                    self.site(Sk::Marker, at, at + 3, -1);
                }
                self.raw("---");
                if !fresh {
                    let d: &mut Doc = docs.last_mut().unwrap();
                    d.complete_at = self.out.len() + 1;
                }
                self.ev(E::DocStart(true), Some(at));
                self.after = After::Plain;
                head_end = self.doc_body_explicit(if fresh { None } else { docs.last_mut() });
            } else {
                self.ev(E::DocStart(false), None);
                self.after = After::Plain;
                // a document of its own, starting at column 0
                self.block_node(-1, Pos::Line, self.s.depth);
            }
            // every node ends at a line start
            debug_assert_eq!(self.col(), 0);
            let body_end = self.out.len();
            let last = k + 1 == n;
            let dots = if last { self.s.terminate_last || self.t.chance(self.s.p_dots) } else { self.t.chance(self.s.p_dots) };
            self.filler(0);
            let end_at = self.out.len();
            if dots {
                self.raw("...");
                let l = self.out.len();
                self.site(Sk::Dots, l, l, -1);
                if self.t.chance(self.s.p_comment) {
                    self.comment(" # end");
                }
                self.nl();
            }
            let ev1 = self.evs.len();
            self.ev(E::DocEnd, if dots { Some(end_at) } else { None });
            let complete = if dots { self.out.len() } else { usize::MAX };
            docs.push(Doc {
                from,
                body_end,
                complete_at: complete,
                ev: (ev0, ev1 + 1),
                line_end: complete,
                head_end,
                explicit,
                dots,
                directives,
            });
            fresh = dots;
            if dots {
                self.after = After::Plain;
                // `...` may repeat, and anything but content may follow
                if self.t.chance(30) {
                    self.raw("...");
                    self.nl();
                }
                self.filler(0);
            }
        }
        if self.s.p_no_nl > 0 && self.after == After::Plain && self.t.chance(self.s.p_no_nl) {
            // the last line has no break
            let old = self.out.len();
            let n = self.last_nl.min(old);
            if self.out.ends_with(b"\r\n") && n == 2 || n == 1 && matches!(self.out.last(), Some(b'\n' | b'\r')) {
                self.out.truncate(old - n);
                let len = self.out.len();
                self.sites.retain(|x| x.a <= len && x.b <= len && x.k != Sk::End);
                if let Some(d) = docs.last_mut() {
                    if d.body_end > len {
                        d.body_end = 0;
                    }
                    d.complete_at = usize::MAX;
                    d.line_end = usize::MAX;
                    if d.head_end > len {
                        d.head_end = usize::MAX;
                    }
                }
            }
        }
        let len = self.out.len();
        self.ev(E::StreamEnd, Some(len));
        // a document still open at the end of the stream is complete only with it
        docs
    }

    fn directives(&mut self) {
        let mut n = 1 + self.t.small(2, 300);
        let many = self.t.chance(self.s.p_odd / 8);
        if many {
            n += 5 + self.t.us(12);
        }
        let mut version = false;
        let mut declared: Vec<&str> = Vec::new();
        for _ in 0..n {
            let line = self.out.len();
            match self.t.below(4) {
                0 if !version => {
                    version = true;
                    self.raw("%YAML");
                    self.gap(1);
                    self.raw("1.");
                    let minor = *self.t.pick(&["2", "1", "2", "0"]);
                    self.raw(minor);
                }
                3 if self.t.chance(300) => {
                    self.raw("%FOO bar baz");
                    if self.t.chance(self.s.p_odd) {
                        let s = self.odd_name(b"#", 1);
                        self.raw(&s);
                    }
                }
                _ => {
                    let (h, p) = if many && self.t.chance(800) { *self.t.pick(&MANY_HANDLES) } else { *self.t.pick(&[
                        ("!e!", "tag:example.com,2000:app/"),
                        ("!x-1!", "!loc-"),
                        ("!", "tag:ex.org,2020:"),
                        ("!!", "tag:my.org,2002:"),
                        ("!e2!", "x:"),
                    ]) };
                    if declared.contains(&h) || (!self.s.keep_tags && self.tags.iter().any(|(x, _)| x == h)) {
                        self.raw("%RES x");
                    } else {
                        // a kept handle may be declared anew by a later document
                        let other = self.s.keep_tags && self.t.chance(400);
                        let p = if other { "tag:new,1:" } else { p };
                        self.tags.retain(|(x, _)| x != h);
                        declared.push(h);
                        self.raw("%TAG");
                        self.gap(1);
                        self.raw(h);
                        let n = 1 + self.t.small(2, 200);
                        self.gap(n);
                        let (text, p) = if self.t.chance(self.s.p_odd / 2) {
                            let (text, dec) = self.uri_name(b"!,[]{}%\"<>\\^`|", 1);
                            if self.t.chance(300) { (format!("!{text}"), format!("!{dec}")) } else { (text, dec) }
                        } else {
                            (p.to_string(), p.to_string())
                        };
                        self.raw(&text);
                        self.tags.push((h.into(), p));
                    }
                }
            }
            let end = self.out.len();
            if self.out[line..].starts_with(b"%TAG") || self.out[line..].starts_with(b"%YAML") {
                self.site(Sk::Directive { tag: self.out[line + 1] == b'T' }, line, end, -1);
            }
            if self.t.chance(self.s.p_odd / 8) {
                self.gap(2);
            }
            if self.t.chance(self.s.p_comment) {
                self.comment(" # dir");
                let line = self.line_at;
                if !self.out[line..].starts_with(b"%TAG") && !self.out[line..].starts_with(b"%YAML") {
                    // the library skips lines of unknown directives whole
                    self.comments.pop();
                }
            }
            self.nl();
            if self.t.chance(self.s.p_comment) {
                self.comment("# between");
                self.nl();
            }
        }
    }

    /// Everything after `---`. The line of the `---` terminates the document before.
    fn doc_body_explicit(&mut self, prev: Option<&mut Doc>) -> usize {
        let start = self.out.len();
        // 0: content on the next lines, 1: on this line
        let same_line = self.t.chance(400);
        if !same_line {
            if self.t.chance(self.s.p_comment) {
                self.comment(" # doc");
            }
            self.nl();
            let le = self.out.len();
            if self.t.chance(self.s.p_empty) {
                self.empty(0, None);
            } else {
                self.filler(0);
                self.block_node(-1, Pos::Line, self.s.depth);
            }
            if let Some(p) = prev {
                p.line_end = le;
                p.complete_at = p.complete_at.max(start + 1);
            }
            le
        } else {
            self.block_node(-1, Pos::Doc, self.s.depth);
            // the first line break after `---`
            let rel = self.out[start..].iter().position(|c| *c == b'\n' || *c == b'\r').map(|i| {
                let i = start + i;
                if self.out[i] == b'\r' && self.out.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 }
            });
            let le = rel.unwrap_or(self.out.len());
            if let Some(p) = prev {
                p.line_end = le;
                p.complete_at = p.complete_at.max(start + 1);
            }
            le
        }
    }

    /// Comments and blank lines between lines, at the start of a line.
    fn filler(&mut self, max_col: usize) {
        if self.s.p_comment == 0 {
            return;
        }
        while self.t.chance(self.s.p_comment / 3) {
            match self.after {
                After::BlockCol0 => return,
                After::Block(col) => {
                    // only a comment, and only left of the scalar's content
                    if self.t.chance(400) {
                        let n = self.t.us(col);
                        self.sp(n);
                    }
                    self.comment("# after");
                    self.nl();
                    self.after = After::Plain;
                }
                After::Plain => match self.t.below(3) {
                    0 if self.large == Scale::Lines => {
                        self.large = Scale::Usual;
                        for _ in 0..*self.t.pick(&[70_000, 300]) {
                            self.nl();
                        }
                    }
                    0 => self.nl(),
                    1 => {
                        let n = self.t.us(max_col + 3);
                        self.gap(n);
                        self.comment("# c: [x] 'y'");
                        self.nl();
                    }
                    _ => {
                        let n = self.t.us(5);
                        self.gap(n);
                        self.nl();
                    }
                },
            }
        }
    }

    /// Rest of a line after a finished token: optional comment and the break.
    fn eol(&mut self) {
        if self.s.p_comment > 0 && self.t.chance(self.s.p_comment / 2) {
            let n = 1 + self.t.us(3);
            self.gap(n);
            self.comment("# - c: \"x\"");
        } else if self.t.chance(self.s.p_odd / 8) {
            let n = 1 + self.t.us(3);
            self.gap(n);
        }
        self.nl();
        self.after = After::Plain;
    }

    // ---- properties ----

    fn tag(&mut self) -> (String, (String, String)) {
        // (text, resolved (handle, suffix))
        let declared = self.tags.clone();
        let get = |h: &str| declared.iter().rev().find(|(x, _)| x == h).map(|(_, p)| p.clone());
        let k = self.t.below(6);
        match k {
            0 => {
                let s = *self.t.pick(&["str", "seq", "map", "int"]);
                let h = get("!!").unwrap_or_else(|| "tag:yaml.org,2002:".into());
                (format!("!!{s}"), (h, s.into()))
            }
            1 => {
                if self.t.chance(self.s.p_odd / 3) {
                    let (s, dec) = self.uri_name(b"!,[]{}%\"<>\\^`|", 1);
                    let h = get("!").unwrap_or_else(|| "!".into());
                    return (format!("!{s}"), (h, dec));
                }
                let s = *self.t.pick(&["local", "a.b", "x%21", "caf%C3%A9", "p/q", "t_1"]);
                let dec = match s {
                    "x%21" => "x!",
                    "caf%C3%A9" => "café",
                    s => s,
                };
                let h = get("!").unwrap_or_else(|| "!".into());
                (format!("!{s}"), (h, dec.into()))
            }
            2 => ("!".into(), (String::new(), "!".into())),
            3 => {
                if self.t.chance(self.s.p_odd / 3) {
                    let (s, dec) = self.uri_name(b"{}%\"<>\\^`|", 2);
                    return (format!("!<{s}>"), (String::new(), dec));
                }
                let s = *self.t.pick(&["tag:yaml.org,2002:str", "!bar", "tag:e.x,2000:%41", "x[1]"]);
                let dec = if s.ends_with("%41") { "tag:e.x,2000:A" } else { s };
                (format!("!<{s}>"), (String::new(), dec.into()))
            }
            _ => {
                let named: Vec<(String, String)> = declared.iter().filter(|(h, _)| h.len() > 2).cloned().collect();
                if named.is_empty() {
                    let h = get("!").unwrap_or_else(|| "!".into());
                    return ("!t".into(), (h, "t".into()));
                }
                let (h, _) = self.t.pick(&named).clone();
                let p = get(&h).unwrap();
                if self.t.chance(self.s.p_odd / 3) {
                    let (s, dec) = self.uri_name(b"!,[]{}%\"<>\\^`|", 1);
                    return (format!("{h}{s}"), (p, dec));
                }
                let s = *self.t.pick(&["v", "node", "a%2Cb"]);
                let dec = if s == "a%2Cb" { "a,b" } else { s };
                (format!("{h}{s}"), (p, dec.into()))
            }
        }
    }

    /// Printable ASCII characters other than those of `not`.
    fn odd_name(&mut self, not: &[u8], min: usize) -> String {
        if self.large == Scale::Name && self.key_at.is_none() && self.t.chance(300) {
            self.large = Scale::Usual;
            let n = *self.t.pick(&[300, 1100, 5000]);
            return "n".repeat(n);
        }
        let n = min + self.t.us(5);
        (0..n)
            .map(|_| {
                let c = (33 + self.t.us(94)) as u8;
                if not.contains(&c) { 'n' } else { c as char }
            })
            .collect()
    }

    /// The same with some characters written as escapes, or any other character in that form:
    /// the text and what it stands for.
    fn uri_name(&mut self, not: &[u8], min: usize) -> (String, String) {
        let mut dec: Vec<char> = self.odd_name(not, min).chars().collect();
        if dec.is_empty() || !self.t.chance(400) {
            let s: String = dec.into_iter().collect();
            return (s.clone(), s);
        }
        let mut text = String::new();
        for c in dec.iter_mut() {
            if !self.t.chance(500) {
                text.push(*c);
                continue;
            }
            match self.t.below(6) {
                0 => *c = *self.t.pick(&['!', ',', '[', '}', '%', '<', ' ', '\n', '\0', '\u{7f}']),
                1 => *c = *self.t.pick(&['é', '\u{80}', '\u{7ff}', '\u{a0}']),
                2 => *c = *self.t.pick(&['€', '\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}']),
                3 => *c = *self.t.pick(&['😀', '\u{10000}', '\u{10ffff}', '\u{3ffff}']),
                _ => {}
            }
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                text += &if self.t.chance(500) { format!("%{x:02x}") } else { format!("%{x:02X}") };
            }
        }
        (text, dec.into_iter().collect())
    }

    /// Writes properties if the writer feels like it; a trailing blank is NOT written.
    /// Returns (anchor, tag, wrote anything).
    fn props(&mut self, sep: bool) -> (usize, TagO, bool) {
        if !self.t.chance(self.s.p_props) {
            return (0, None, false);
        }
        let kind = self.t.below(4); // anchor, tag, anchor tag, tag anchor
        let mut a = 0;
        let mut tag = None;
        let mut first = true;
        let order: &[u8] = match kind {
            0 => b"a",
            1 => b"t",
            2 => b"at",
            _ => b"ta",
        };
        for o in order {
            if !first && self.props_break.is_some() && self.t.chance(self.s.p_odd / 4) {
                let ind = self.props_break.unwrap();
                self.eol();
                let n = (ind + 1).max(0) as usize + self.t.small(3, 300);
                self.sp(n);
            } else if !first || sep {
                let n = 1 + self.t.small(2, 150);
                self.gap(n);
            }
            first = false;
            if *o == b'a' {
                let name = if self.t.chance(self.s.p_odd / 3) {
                    self.odd_name(b",[]{}", 1)
                } else {
                    (*self.t.pick(&["a", "b", "anchor1", "x-y", "é", "日", "a.b:c", "*s", "l0ng-name-over-the-thirty-two-byte-window-of-a-source"])).to_string()
                };
                let at = self.out.len();
                self.raw("&");
                self.raw(&name.clone());
                let end = self.out.len();
                self.site(Sk::Anchor, at, end, -1);
                a = self.next_anchor;
                self.next_anchor += 1;
                // the name is visible from here on, also inside the node itself;
                // the writer refers to it only after the node is finished
                self.anchors.retain(|(n, _)| *n != name);
                self.anchors.push((name, a));
                self.open.push(a);
            } else {
                let (text, r) = self.tag();
                let at = self.out.len();
                self.raw(&text);
                let end = self.out.len();
                self.site(Sk::Tag, at, end, -1);
                tag = Some(r);
            }
        }
        (a, tag, true)
    }

    fn close(&mut self, a: usize) {
        self.open.retain(|x| *x != a);
    }

    /// An alias to a finished anchored node, if there is one.
    fn alias(&mut self) -> Option<(String, usize)> {
        if self.s.p_alias == 0 {
            return None;
        }
        let usable: Vec<(String, usize)> = self.anchors.iter().filter(|(n, a)| !self.open.contains(a) && (self.key_at.is_none() || n.len() < 100)).cloned().collect();
        if usable.is_empty() || !self.t.chance(self.s.p_alias) {
            return None;
        }
        Some(self.t.pick(&usable).clone())
    }

    // ---- scalars ----

    fn word(&mut self, flow: bool) -> String {
        if self.s.simple_values {
            return (*self.t.pick(SIMPLE_WORDS)).to_string();
        }
        if self.large == Scale::Scalar && self.key_at.is_none() && self.t.chance(200) {
            self.large = Scale::Usual;
            let n = *self.t.pick(&[70_000, 1030, 2100, 4100, 8200]);
            let x = if self.t.chance(self.s.p_unicode) { "wé" } else { "w" };
            return x.repeat(n);
        }
        if self.large == Scale::Key && self.key_at.is_some_and(|k| self.out.len() < k + 10) && self.t.chance(300) {
            self.large = Scale::Usual;
            let n = *self.t.pick(&[300, 550, 650]);
            return "k".repeat(n);
        }
        let room = self.key_at.is_none_or(|k| self.out.len() - k < 300);
        if self.t.chance(if room { self.s.p_long } else { 0 }) {
            let n = *self.t.pick(&[33usize, 15, 16, 17, 31, 32, 34, 63, 64, 65, 127, 128, 129, 130, 257, 600]);
            let n = if self.key_at.is_some() { n.min(130) } else { n };
            let base = if self.t.chance(self.s.p_unicode) { "wé" } else { "w" };
            let mut s = String::new();
            while s.len() < n {
                s.push_str(base);
            }
            return s;
        }
        if self.t.chance(self.s.p_unicode) {
            return (*self.t.pick(UNI_WORDS)).to_string();
        }
        if !flow && self.t.chance(self.s.p_odd) {
            return (*self.t.pick(BLOCK_WORDS)).to_string();
        }
        if self.t.chance(self.s.p_odd / 4) {
            // any printable ASCII, except what would end a plain scalar
            let n = 1 + self.t.us(6);
            let mut s = String::new();
            for _ in 0..n {
                let c = (33 + self.t.us(94)) as u8 as char;
                if flow && matches!(c, ',' | '[' | ']' | '{' | '}') {
                    s.push('_');
                } else {
                    s.push(c);
                }
            }
            if s.ends_with(':') {
                s.push('.');
            }
            return s;
        }
        (*self.t.pick(ASCII_WORDS)).to_string()
    }

    /// A word that may begin a plain scalar.
    fn first_word(&mut self, flow: bool) -> String {
        let w = self.dash_word().unwrap_or_else(|| self.word(flow));
        let b = w.as_bytes();
        let bad = matches!(b[0], b',' | b'[' | b']' | b'{' | b'}' | b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'\'' | b'"' | b'%' | b'@' | b'`');
        let odd = matches!(b[0], b'-' | b'?' | b':') && (b.len() == 1 || flow && matches!(b[1], b',' | b'[' | b']' | b'{' | b'}'));
        if bad || odd || w == "---" || w == "..." { format!("w{w}") } else { w }
    }

    /// A word of indicators that mean nothing inside a plain scalar.
    fn dash_word(&mut self) -> Option<String> {
        if self.s.simple_values || !self.t.chance(self.s.p_odd / 4) {
            return None;
        }
        Some((*self.t.pick(&["-", "?", "-x", "?x", ":x", "--", "?-", "-?", "-:x", "---", "...", "::x", "-1", "&", "!", "*", "|", ">", "%", "@", "a-", "a?"])).to_string())
    }

    fn fold(&mut self, ind: i32, min_extra: usize) -> String {
        let r = self.fold_text(ind, min_extra);
        let (a, b) = (self.line_at, self.out.len());
        self.site(Sk::QuotedLine, a, b, ind);
        r
    }

    /// A number of blank lines.
    fn breaks(&mut self, may: bool, p: u32) -> usize {
        if may && self.large == Scale::Breaks && self.t.chance(300) {
            self.large = Scale::Usual;
            return *self.t.pick(&[300, 5000, 70_000]);
        }
        self.t.small(2, p)
    }

    fn fold_text(&mut self, ind: i32, min_extra: usize) -> String {
        // one folded line break: trailing blanks, breaks, indentation
        let tr = self.t.small(2, 150);
        self.gap(tr);
        let k = self.breaks(self.key_at.is_none(), 200);
        for _ in 0..=k {
            self.nl();
            if k > 0 && k < 300 && self.t.chance(200) {
                if self.s.p_tab > 0 && self.t.chance(self.s.p_tab) {
                    self.sp((ind + 1).max(0) as usize);
                    self.gap(1);
                } else {
                    let n = self.t.us(3);
                    self.sp(n);
                }
            }
        }
        // the last break is followed by indentation; blank lines may have left blanks
        // on the current line, so count from here
        let need = (ind + 1).max(0) as usize + min_extra + self.t.small(3, 300);
        let have = self.col();
        if have < need {
            self.sp(need - have);
        }
        // beyond the indentation, any blanks will do
        if self.s.p_tab > 0 && self.t.chance(self.s.p_tab) {
            self.gap(1);
        }
        if k == 0 { " ".into() } else { "\n".repeat(k) }
    }

    /// Plain scalar text, written; returns its value. `ind` is the parent's indentation.
    fn plain(&mut self, ind: i32, multi: bool, flow: bool) -> String {
        let mut v = self.first_word(flow);
        let at = self.out.len();
        self.site(Sk::Plain { flow }, at, at, ind);
        self.raw(&v.clone());
        let mut n = self.t.small(4, 350);
        if self.s.simple_values {
            n = 0;
        }
        for _ in 0..n {
            let sep = if multi && self.t.chance(self.s.p_multiline) {
                let s = self.fold(ind, 0);
                self.sites.last_mut().unwrap().k = Sk::PlainLine;
                s
            } else {
                let s = *self.t.pick(&[" ", " ", "  ", "\t", " \t "]);
                self.raw(s);
                s.to_string()
            };
            let mut w = self.dash_word().unwrap_or_else(|| self.word(flow));
            if w.starts_with('#') || w == ":" || self.col() == 0 && is_marker(&w) {
                w = format!("w{w}");
            }
            self.raw(&w);
            v.push_str(&sep);
            v.push_str(&w);
        }
        v
    }

    fn single(&mut self, ind: i32, multi: bool) -> String {
        let a = self.out.len();
        let v = self.single_text(ind, multi);
        let b = self.out.len();
        self.site(Sk::Single, a, b, ind);
        v
    }

    fn single_text(&mut self, ind: i32, multi: bool) -> String {
        let mut v = String::new();
        self.raw("'");
        let n = self.t.small(5, 600);
        for i in 0..n {
            if i > 0 {
                let sep = if multi && self.t.chance(self.s.p_multiline) {
                    self.fold(ind, 0)
                } else {
                    let s = *self.t.pick(&[" ", " ", "  ", "\t"]);
                    self.raw(s);
                    s.to_string()
                };
                v.push_str(&sep);
            } else if self.t.chance(100) {
                self.raw(" ");
                v.push(' ');
            } else if multi && self.t.chance(self.s.p_multiline / 3) {
                let s = self.fold(ind, 0);
                v.push_str(&s);
            }
            let w = if self.t.chance(200) {
                (*self.t.pick(&["it's", "''", "# no", ": x", "- y", "[z]", "{", "*a", "%", "a: b", "\\n", "\"q\""])).to_string()
            } else {
                self.word(false)
            };
            let w = if self.col() == 0 && is_marker(&w) { format!("w{w}") } else { w };
            self.raw(&w.replace('\'', "''"));
            v.push_str(&w);
        }
        if n > 0 && self.t.chance(100) {
            self.raw(" ");
            v.push(' ');
        } else if multi && self.t.chance(self.s.p_multiline / 4) {
            let s = self.fold(ind, 0);
            v.push_str(&s);
        }
        self.raw("'");
        v
    }

    fn double(&mut self, ind: i32, multi: bool) -> String {
        let a = self.out.len();
        let v = self.double_text(ind, multi);
        let b = self.out.len();
        self.site(Sk::Double, a, b, ind);
        v
    }

    fn double_text(&mut self, ind: i32, multi: bool) -> String {
        let mut v = String::new();
        self.raw("\"");
        let n = self.t.small(6, 650);
        for i in 0..n {
            if i > 0 {
                match self.t.below(4) {
                    0 => {
                        self.raw(" ");
                        v.push(' ');
                    }
                    1 if multi && self.t.chance(self.s.p_multiline) => {
                        let s = self.fold(ind, 0);
                        v.push_str(&s);
                    }
                    2 if multi && self.t.chance(self.s.p_multiline) => {
                        // escaped break: joins without a blank, keeps the blanks before it
                        if self.t.chance(300) {
                            let x = *self.t.pick(&[" ", "  ", "\t"]);
                            self.raw(x);
                            v.push_str(x);
                        }
                        self.raw("\\");
                        self.nl();
                        let blank = self.breaks(true, 150);
                        for _ in 0..blank {
                            self.nl();
                            v.push('\n');
                        }
                        let need = (ind + 1).max(0) as usize + self.t.small(4, 300);
                        self.sp(need);
                    }
                    3 if self.s.p_tab > 0 && self.t.chance(self.s.p_tab) => {
                        self.raw("\t");
                        v.push('\t');
                    }
                    _ => {}
                }
            } else if multi && self.t.chance(self.s.p_multiline / 3) {
                let s = self.fold(ind, 0);
                v.push_str(&s);
            }
            if self.t.chance(350) {
                let (s, x) = *self.t.pick(&[
                    ("\\n", "\n"),
                    ("\\t", "\t"),
                    ("\\\"", "\""),
                    ("\\\\", "\\"),
                    ("\\/", "/"),
                    ("\\0", "\0"),
                    ("\\a", "\x07"),
                    ("\\b", "\x08"),
                    ("\\e", "\x1b"),
                    ("\\f", "\x0c"),
                    ("\\v", "\x0b"),
                    ("\\r", "\r"),
                    ("\\ ", " "),
                    ("\\N", "\u{85}"),
                    ("\\_", "\u{a0}"),
                    ("\\L", "\u{2028}"),
                    ("\\P", "\u{2029}"),
                    ("\\x41", "A"),
                    ("\\xe9", "é"),
                    ("\\u263A", "☺"),
                    ("\\u00e9", "é"),
                    ("\\U0001F600", "😀"),
                    ("\\U0010ffff", "\u{10ffff}"),
                    ("\\x7F", "\x7f"),
                ]);
                self.raw(s);
                v.push_str(x);
            } else {
                let w = if self.t.chance(150) {
                    (*self.t.pick(&["# no", ": x", "- y", "[z]", "{", "*a", "a: b", "'q'", "%"])).to_string()
                } else {
                    self.word(false)
                };
                // no bare quote or backslash inside
                let mut w: String = w.chars().filter(|c| *c != '"' && *c != '\\').collect();
                if w.is_empty() || self.col() == 0 && is_marker(&w) {
                    w = format!("w{w}");
                }
                self.raw(&w);
                v.push_str(&w);
            }
        }
        if n > 0 && multi && self.t.chance(self.s.p_multiline / 4) {
            let s = self.fold(ind, 0);
            v.push_str(&s);
        }
        self.raw("\"");
        v
    }

    /// `|` or `>` scalar; ends at the start of a line. `ind` parent indentation.
    fn block_scalar(&mut self, ind: i32) -> (String, char) {
        let lit = self.t.below(2) == 0;
        self.raw(if lit { "|" } else { ">" });
        let l = self.out.len();
        self.site(Sk::Header, l, l, ind);
        let chomp = self.t.below(3); // clip strip keep
        // indentation indicator only below a collection, where its meaning is settled
        let explicit = ind >= 0 && self.t.chance(200);
        let extra = if self.t.chance(self.s.p_odd / 8) { 9 } else { 1 + self.t.us(4) };
        let cind = if explicit {
            (ind as usize) + extra
        } else if ind < 0 {
            if self.t.chance(150) { 0 } else { extra }
        } else {
            ind as usize + extra
        };
        let c = ["", "-", "+"][chomp as usize];
        let i = if explicit { extra.to_string() } else { String::new() };
        if self.t.chance(500) {
            self.raw(c);
            self.raw(&i);
        } else {
            self.raw(&i);
            self.raw(c);
        }
        if self.t.chance(self.s.p_comment) {
            self.comment(" # hdr");
        }
        self.nl();
        let mut v = String::new();
        // leading blank lines
        let lead = self.breaks(true, 120);
        for _ in 0..lead {
            if self.t.chance(300) {
                let n = self.t.us(cind + 1);
                self.sp(n);
            }
            self.nl();
            v.push('\n');
        }
        if self.t.chance(self.s.p_empty / 4) {
            // no content: all of its lines are trailing ones
            if chomp != 2 {
                v.clear();
            }
            self.after = if ind < 0 { After::BlockCol0 } else { After::Block(1) };
            return (v, if lit { '|' } else { '>' });
        }
        let lines = 1 + self.t.small(5, 500);
        let mut prev_spaced = false;
        let mut pending: Option<usize> = None; // blank lines since the previous content line
        for li in 0..lines {
            let at = self.out.len();
            if li > 0 || !explicit {
                self.site(Sk::BlockLine { first: li == 0 }, at, at + cind, ind);
            }
            self.sp(cind);
            if li == 0 {
                self.text_at = Some(self.out.len());
            }
            let mut line = String::new();
            let spaced = (li > 0 || explicit || self.s.p_tab > 0) && self.t.chance(150);
            let mut words = 1 + self.t.small(4, 400);
            if spaced {
                let lead = if li > 0 {
                    *self.t.pick(&[" ", "   ", "\t"])
                } else if explicit {
                    " "
                } else {
                    "\t"
                };
                line.push_str(lead);
                // nothing but blanks, yet beyond the indentation: that is content
                if li > 0 && self.t.chance(self.s.p_odd / 2) {
                    words = 0;
                }
            }
            for k in 0..words {
                if k > 0 {
                    line.push(' ');
                }
                let mut w = self.word(false);
                if self.t.chance(80) {
                    w = (*self.t.pick(&["# no", "- x", "k: v", "\"q\"", "'s'", "[", "}", "%d", "\ttab", "@", "`", "---", "...", "--- x", "...x"])).to_string();
                }
                if k == 0 && !spaced && w.starts_with([' ', '\t']) {
                    w = "w".into();
                }
                if cind == 0 && k == 0 && !spaced && is_marker(&w) {
                    w = "w".into();
                }
                line.push_str(&w);
            }
            if self.t.chance(60) {
                line.push_str(["  ", " ", "\t"][self.t.us(3)]);
            }
            // a line of blanks only would be a blank line
            self.raw(&line);
            // join with the previous line
            if let Some(b) = pending {
                if lit || spaced || prev_spaced {
                    v.push_str(&"\n".repeat(b + 1));
                } else if b == 0 {
                    v.push(' ');
                } else {
                    v.push_str(&"\n".repeat(b));
                }
            }
            v.push_str(&line);
            prev_spaced = spaced;
            self.nl();
            let mut b = 0;
            if li + 1 < lines {
                while b < 3 && self.t.chance(150) {
                    if self.t.chance(300) {
                        let n = self.t.us(cind + 1);
                        self.sp(n);
                    }
                    self.nl();
                    b += 1;
                }
            }
            pending = Some(b);
        }
        let trail = self.breaks(true, 150);
        for _ in 0..trail {
            if self.t.chance(200) {
                let n = self.t.us(cind + 1);
                self.sp(n);
            }
            self.nl();
        }
        match chomp {
            0 => v.push('\n'),
            1 => {}
            _ => v.push_str(&"\n".repeat(trail + 1)),
        }
        self.after = if cind == 0 { After::BlockCol0 } else { After::Block(cind) };
        (v, if lit { '|' } else { '>' })
    }

    // ---- nodes ----

    /// Starts the node on this line (`Pos` other than `Line` need a blank first),
    /// or on a new line with some indentation.
    fn lead_in(&mut self, ind: i32, pos: Pos, may_break: bool) {
        match pos {
            Pos::Line => {
                let n = if ind < 0 { if self.t.chance(self.s.p_odd / 4) { 1 + self.t.us(3) } else { 0 } } else { ind as usize + 1 + self.t.small(3, 300) };
                self.sp(n);
                self.tabs();
            }
            _ => {
                if may_break && self.t.chance(self.s.p_odd / 3) {
                    self.eol();
                    self.filler((ind + 1).max(0) as usize);
                    let n = (ind + 1).max(0) as usize + self.t.small(3, 300);
                    self.sp(n);
                    self.tabs();
                } else {
                    let n = 1 + self.t.small(2, 100);
                    self.gap(n);
                }
            }
        }
    }

    /// The properties of a scalar or flow collection in block context, with the blanks after them.
    fn block_props(&mut self, ind: i32) -> (usize, TagO, bool) {
        self.props_break = Some(ind);
        let r = self.props(false);
        self.props_break = None;
        if r.2 {
            self.after_props(ind);
        }
        r
    }

    /// Between the properties and the content of a node in block context.
    fn after_props(&mut self, ind: i32) {
        if self.t.chance(self.s.p_odd / 4) {
            self.eol();
            self.filler((ind + 1).max(0) as usize);
            let n = (ind + 1).max(0) as usize + self.t.small(3, 300);
            self.sp(n);
            self.tabs();
        } else {
            self.gap(1);
        }
    }

    /// A node in block context; afterwards the output is at the start of a line.
    fn block_node(&mut self, ind: i32, pos: Pos, depth: u32) {
        let (line, n, at) = (self.line_at, self.sites.len(), self.out.len());
        self.block_node_text(ind, pos, depth);
        if pos == Pos::Colon && !self.sites[n..].iter().any(|x| matches!(x.k, Sk::Flow { .. } | Sk::Entry { .. } | Sk::End)) {
            for x in &mut self.sites[n..] {
                if x.k == Sk::QuotedLine {
                    x.k = Sk::QuotedValueLine;
                }
            }
        }
        if pos == Pos::Colon {
            // does its text begin on this line?
            let gap = self.out[at..].iter().take_while(|c| matches!(c, b' ' | b'\t')).count();
            if !matches!(self.out[at + gap], b'\n' | b'\r' | b'#') {
                self.sites.insert(n, Site { k: Sk::Value, a: at + gap, b: line, ind });
            }
        }
    }

    fn block_node_text(&mut self, ind: i32, pos: Pos, depth: u32) {
        self.budget -= 1;
        if depth > 0 && self.budget > 0 && self.t.chance(self.s.p_coll + if depth == self.s.depth { 350 } else { 0 }) {
            if self.t.chance(self.s.p_flow) {
                self.lead_in(ind, pos, true);
                let (a, tag, _) = self.block_props(ind);
                self.flow_coll(ind, depth, a, tag, self.s.p_multiline > 0);
                self.close(a);
                self.eol();
            } else {
                self.block_coll(ind, pos, depth);
            }
            return;
        }
        if let Some((name, id)) = self.alias() {
            self.lead_in(ind, pos, true);
            let at = self.out.len();
            self.raw("*");
            self.raw(&name);
            self.site(Sk::Alias, at + 1, at + 1 + name.len(), -1);
            self.ev(E::Alias(id), Some(at));
            self.eol();
            return;
        }
        if pos != Pos::Line && self.t.chance(self.s.p_empty) {
            let (a, tag, _) = self.props(true);
            self.empty(a, tag);
            self.close(a);
            self.eol();
            return;
        }
        // a scalar
        let kind = if self.t.chance(self.s.p_block_scalar) {
            3
        } else if self.t.chance(self.s.p_quoted) {
            1 + self.t.below(2)
        } else {
            0
        };
        self.lead_in(ind, pos, true);
        let (a, tag, _) = self.block_props(ind);
        let at = self.out.len();
        let slot = self.evs.len();
        self.evs.push(Exp { e: E::Nothing, start: Some(at) });
        let (v, st) = match kind {
            0 => (self.plain(ind, self.s.p_multiline > 0, false), ':'),
            1 => (self.single(ind, self.s.p_multiline > 0), '\''),
            2 => (self.double(ind, self.s.p_multiline > 0), '"'),
            _ => {
                // its first content character, behind the indentation
                self.text_at = None;
                let r = self.block_scalar(ind);
                self.evs[slot].start = self.text_at;
                r
            }
        };
        self.evs[slot].e = E::Scalar { v, st, a, tag };
        self.close(a);
        if kind != 3 {
            self.eol();
        }
    }

    /// Block sequence or mapping.
    fn block_coll(&mut self, ind: i32, pos: Pos, depth: u32) {
        let seq = self.t.below(2) == 0;
        let mut a = 0;
        let mut tag = None;
        let mut compact = false;
        let mut indent;
        match pos {
            Pos::Dash | Pos::Ask => {
                // compact form unless there are properties
                let mut wrote = false;
                if self.t.chance(self.s.p_props) {
                    let saved = self.s.p_props;
                    self.s.p_props = 1000;
                    let r = self.coll_props(ind, true);
                    self.s.p_props = saved;
                    a = r.0;
                    tag = r.1;
                    wrote = true;
                }
                if !wrote && self.t.chance(700) {
                    compact = true;
                    let n = 1 + self.t.small(3, 200);
                    self.sp(n);
                } else {
                    self.eol();
                }
                indent = (ind + 1) as usize + self.t.small(3, 400);
                if pos == Pos::Ask && seq && self.t.chance(self.s.p_odd / 2) {
                    indent = ind as usize;
                }
            }
            Pos::Colon | Pos::Doc => {
                let r = self.coll_props(ind, true);
                a = r.0;
                tag = r.1;
                self.eol();
                indent = (ind + 1).max(0) as usize + self.t.small(3, if ind < 0 { self.s.p_odd / 4 } else { 600 });
                if pos == Pos::Colon && seq && self.t.chance(250) {
                    // "indentless" sequence below a mapping key
                    indent = ind as usize;
                }
            }
            Pos::Line => {
                let pr = self.t.chance(self.s.p_props / 2);
                if pr {
                    let saved = self.s.p_props;
                    self.s.p_props = 1000;
                    let r = self.coll_props(ind, false);
                    self.s.p_props = saved;
                    a = r.0;
                    tag = r.1;
                    self.eol();
                }
                indent = (ind + 1).max(0) as usize + if ind < 0 { self.t.small(3, self.s.p_odd / 4) } else { self.t.small(3, 400) };
            }
        }
        if compact {
            indent = self.col();
        }
        let start = if compact { self.out.len() } else { usize::MAX };
        let slot = self.evs.len();
        self.ev(if seq { E::SeqStart(a, tag) } else { E::MapStart(a, tag) }, Some(start));
        let n = match self.s.scale {
            Scale::Entries if depth + 1 >= self.s.depth => 300 + self.t.us(100),
            Scale::Nesting => 1 + self.t.us(2),
            _ => 1 + self.t.small(5, 550),
        };
        let mut open_key = false;
        for i in 0..n {
            if !(compact && i == 0) {
                self.filler(indent);
                self.sp(indent);
            }
            let at = self.out.len();
            if i == 0 {
                self.evs[slot].start = Some(at);
            }
            if !(compact && i == 0) {
                let line = self.line_at;
                self.site(Sk::Entry { seq, first: i == 0 }, at, line, indent as i32);
                if i == 0 && seq && indent as i32 == ind {
                    self.site(Sk::Indentless, at, line, ind);
                }
            }
            if seq {
                self.raw("-");
                self.block_node(indent as i32, Pos::Dash, depth - 1);
            } else {
                open_key = self.entry(indent, depth, open_key, i == 0);
            }
            if self.budget <= 0 {
                break;
            }
        }
        self.ev(if seq { E::SeqEnd } else { E::MapEnd }, None);
        let l = self.out.len();
        self.site(Sk::End, l, indent, ind);
        self.close(a);
    }

    fn coll_props(&mut self, ind: i32, sep: bool) -> (usize, TagO, bool) {
        self.props_break = Some(ind);
        let r = self.props(sep);
        self.props_break = None;
        r
    }

    /// `open_key`: the entry before was an explicit key without a value. Returns the same about this one.
    fn entry(&mut self, indent: usize, depth: u32, open_key: bool, first: bool) -> bool {
        self.budget -= 1;
        if self.t.chance(self.s.p_explicit_key) {
            self.raw("?");
            self.block_node(indent as i32, Pos::Ask, depth - 1);
            if self.t.chance(850) {
                self.filler(indent);
                self.sp(indent);
                self.raw(":");
                self.block_node(indent as i32, Pos::Ask, depth - 1);
                return false;
            }
            self.empty(0, None);
            return true;
        }
        if !open_key && self.t.chance(self.s.p_empty / 4) {
            // `: value`
            self.empty(0, None);
            self.raw(":");
            let n = self.sites.len();
            self.block_node(indent as i32, Pos::Colon, depth - 1);
            if self.sites.get(n).is_some_and(|x| x.k == Sk::Value) {
                self.sites.remove(n);
            }
            return false;
        } else {
            let at = self.out.len();
            let named = self.implicit_key(indent as i32, depth, false, false);
            let end = self.out.len() - 1;
            if named {
                self.site(Sk::Key, at, end, indent as i32);
                if !first {
                    self.site(Sk::Colon, end, end + 1, indent as i32);
                }
            }
        }
        self.block_node(indent as i32, Pos::Colon, depth - 1);
        false
    }

    /// `key:` on one line, colon included.
    /// Inside a flow mapping (`multi`) it may take several lines.
    /// Returns whether the key has any content besides its properties.
    fn implicit_key(&mut self, ind: i32, depth: u32, flow: bool, multi: bool) -> bool {
        let outer = self.key_at;
        self.key_at = outer.or(Some(self.out.len()));
        let named = self.implicit_key_text(ind, depth, flow, multi);
        self.key_at = outer;
        named
    }

    fn implicit_key_text(&mut self, ind: i32, depth: u32, flow: bool, multi: bool) -> bool {
        if let Some((name, id)) = self.alias() {
            let at = self.out.len();
            self.raw("*");
            self.raw(&name);
            self.site(Sk::Alias, at + 1, at + 1 + name.len(), -1);
            self.ev(E::Alias(id), Some(at));
            self.gap(1);
            self.raw(":");
            return true;
        }
        let (a, tag, wrote) = self.props(false);
        if wrote {
            self.gap(1);
            if !self.s.simple_values && self.t.chance(self.s.p_empty / 2) {
                self.empty(a, tag);
                self.close(a);
                self.raw(":");
                return false;
            }
        }
        let at = self.out.len();
        if !self.s.simple_values && depth > 1 && self.t.chance(self.s.p_flow / 6) {
            let b = self.budget;
            self.budget = self.budget.min(3);
            self.flow_coll(ind, 1, a, tag, multi);
            self.budget = b - 2;
            self.close(a);
        } else {
            let kind = if self.t.chance(self.s.p_quoted / 2) { 1 + self.t.below(2) } else { 0 };
            let slot = self.evs.len();
            self.evs.push(Exp { e: E::Nothing, start: Some(at) });
            let (v, st) = match kind {
                0 => (self.plain(ind, multi, flow), ':'),
                1 => (self.single(ind, multi), '\''),
                _ => (self.double(ind, multi), '"'),
            };
            self.evs[slot].e = E::Scalar { v, st, a, tag };
            self.close(a);
        }
        if self.t.chance(self.s.p_odd / 2) {
            if multi {
                self.flow_sep(ind, true, false);
            } else {
                self.gap(1);
            }
        }
        self.raw(":");
        true
    }

    /// Separation inside a flow collection.
    fn flow_sep(&mut self, ind: i32, multi: bool, must: bool) {
        if multi && self.t.chance(self.s.p_multiline / 2) {
            self.eol();
            while self.s.p_comment > 0 && self.t.chance(self.s.p_comment / 4) {
                let n = self.t.us(6);
                self.sp(n);
                self.comment("# in flow");
                self.nl();
            }
            let n = (ind + 1).max(0) as usize + self.t.small(4, 600);
            self.sp(n);
            if self.s.p_tab > 0 && self.t.chance(self.s.p_tab) {
                self.gap(1);
            }
        } else if must || self.t.chance(300) {
            let n = 1 + self.t.small(2, 100);
            self.gap(n);
        }
    }

    fn flow_coll(&mut self, ind: i32, depth: u32, a: usize, tag: TagO, multi: bool) {
        let seq = self.t.below(2) == 0;
        let at = self.out.len();
        self.flow_depth += 1;
        self.raw(if seq { "[" } else { "{" });
        self.ev(if seq { E::SeqStart(a, tag) } else { E::MapStart(a, tag) }, Some(at));
        let n = match self.s.scale {
            Scale::Entries if depth + 1 >= self.s.depth => 300 + self.t.us(100),
            Scale::Nesting => 1 + self.t.us(2),
            _ => self.t.small(5, 650),
        };
        let n = if self.key_at.is_some() { n.min(2) } else { n };
        for i in 0..n {
            self.flow_sep(ind, multi, false);
            let mut json_key = false;
            let pair = !seq || self.t.chance(150);
            if pair {
                let slot = self.evs.len();
                let at = self.out.len();
                if seq {
                    self.ev(E::MapStart(0, None), Some(at));
                }
                if self.t.chance(self.s.p_explicit_key / 3) {
                    self.raw("?");
                    self.flow_sep(ind, multi, true);
                    let no_key = self.t.chance(self.s.p_empty);
                    if no_key {
                        self.empty(0, None);
                    } else {
                        self.flow_node(ind, depth, multi);
                        self.flow_sep(ind, multi, true);
                    }
                    if self.t.chance(self.s.p_empty) {
                        // no colon either
                        self.empty(0, None);
                    } else {
                        self.raw(":");
                        self.flow_sep(ind, multi, true);
                        if self.t.chance(self.s.p_empty) {
                            self.empty(0, None);
                        } else {
                            self.flow_node(ind, depth, multi);
                        }
                    }
                } else if !seq && self.t.chance(self.s.p_empty / 3) {
                    // `{a, b: c}`: a key alone
                    self.flow_node(ind, if self.s.p_flow > 300 { depth } else { 1 }, multi);
                    self.empty(0, None);
                } else if self.t.chance(self.s.p_empty / 3) {
                    self.empty(0, None);
                    self.raw(":");
                    self.flow_sep(ind, multi, true);
                    self.flow_node(ind, depth, multi);
                } else {
                    let k0 = self.evs.len();
                    let odd = self.t.chance(self.s.p_odd);
                    let lines = !seq && multi && odd;
                    let at = self.out.len();
                    let named = self.implicit_key(ind, if self.s.p_flow > 300 { depth } else { 1 }, true, lines);
                    if seq && named {
                        let end = self.out.len() - 1;
                        self.site(Sk::Key, at, end, ind);
                    }
                    // a quoted scalar or a flow collection
                    json_key = match &self.evs[k0].e {
                        E::Scalar { st, .. } => *st != ':',
                        E::Alias(_) => false,
                        _ => true,
                    };
                    if !odd {
                        json_key &= !matches!(self.out[self.out.len() - 2], b' ' | b'\t' | b'\n' | b'\r');
                    }
                    let _ = slot;
                    if !seq && self.t.chance(self.s.p_empty / 2) {
                        // `{a: , b}`, `{a:}`: no value after the colon
                        self.empty(0, None);
                        if !self.t.chance(self.s.p_odd) {
                            self.raw(" ");
                        }
                    } else {
                        if json_key && self.t.chance(300) {
                            // adjacent value
                        } else {
                            self.flow_sep(ind, multi, true);
                        }
                        self.flow_node(ind, depth, multi);
                    }
                }
                if seq {
                    self.ev(E::MapEnd, None);
                }
            } else {
                self.flow_node(ind, depth, multi);
            }
            self.flow_sep(ind, multi, false);
            if i + 1 < n && (self.s.scale != Scale::Entries || self.budget > 0) {
                let l = self.out.len();
                self.site(Sk::Comma, l, l + 1, ind);
                self.raw(",");
            } else if self.t.chance(100) {
                let l = self.out.len();
                self.site(Sk::Comma, l, l + 1, ind);
                self.raw(",");
                self.flow_sep(ind, multi, false);
            }
            if self.s.scale == Scale::Entries && self.budget <= 0 {
                break;
            }
        }
        self.raw(if seq { "]" } else { "}" });
        self.flow_depth -= 1;
        let end = self.out.len();
        self.site(Sk::Flow { outer: self.flow_depth == 0, seq }, at, end, ind);
        self.ev(if seq { E::SeqEnd } else { E::MapEnd }, None);
    }

    fn flow_node(&mut self, ind: i32, depth: u32, multi: bool) {
        self.budget -= 1;
        if let Some((name, id)) = self.alias() {
            let at = self.out.len();
            self.raw("*");
            self.raw(&name);
            self.site(Sk::Alias, at + 1, at + 1 + name.len(), -1);
            self.ev(E::Alias(id), Some(at));
            return;
        }
        self.props_break = if multi && self.s.p_multiline > 0 { Some(ind) } else { None };
        let (a, tag, wrote) = self.props(false);
        self.props_break = None;
        if wrote {
            self.flow_sep(ind, multi, true);
        }
        if depth > 1 && self.budget > 0 && self.flow_depth < 300 && self.t.chance(self.s.p_coll) {
            self.flow_coll(ind, depth - 1, a, tag, multi);
            self.close(a);
            return;
        }
        if wrote && self.t.chance(self.s.p_empty) {
            self.empty(a, tag);
            self.close(a);
            return;
        }
        let kind = if self.t.chance(self.s.p_quoted) { 1 + self.t.below(2) } else { 0 };
        let at = self.out.len();
        let slot = self.evs.len();
        self.evs.push(Exp { e: E::Nothing, start: Some(at) });
        let (v, st) = match kind {
            0 => (self.plain(ind, multi, true), ':'),
            1 => (self.single(ind, multi), '\''),
            _ => (self.double(ind, multi), '"'),
        };
        self.evs[slot].e = E::Scalar { v, st, a, tag };
        self.close(a);
    }
}
