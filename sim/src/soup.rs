//! Streams nobody vouches for: token soup, a corpus, and everything a bad
//! transport or a crashed writer does to good streams.

use crate::model::{self, Stream, Style};
use crate::run::Ctx;
use crate::tape::Tape;

const CORPUS: &str = include_str!("corpus.txt");

pub fn corpus() -> Vec<&'static str> {
    CORPUS.split('\u{1e}').collect()
}

const TOKENS: &[&str] = &[
    "a", "\n", " ", "- ", "? ", ": ", ":", "{", "}", "[", "]", ",", "  ", "\n  ", "\n- ", "\n? ", "\n: ", "a: ", "\na: ", "b", "k: v\n", "#", " # c\n", "'", "''", "\"", "\\\"",
    "|\n", ">\n", "|", ">", "|+\n", ">-\n", "|2\n", ">1-\n", "|+1 # c\n", "&a ", "*a ", "*a", "&b", "!", "!t ", "!!str ", "!!int ", "!<x:y> ", "!e!z ", "!e!", "%TAG !e! t:\n", "%TAG ! x\n",
    "%YAML 1.2\n", "%YAML 1.1 ", "%YAML 255.256\n", "%YAML 259.0\n--- ", "%YAML 1.2570\n", "%FOO bar\n", "%", "---", "--- ", "---\n", "\n---\n", "...", "...\n", "\n...\n", "-", "--", "\t", "\t- ", "\r", "\r\n", "\u{feff}", "\0", "\\", "\\x41", "\\u00e9",
    "\\U0001F600", "\\xZZ", "\\n", "\\\n", "é", "日本", "😀", "\u{85}", "\u{2028}", "\u{a0}", "12", "-0x1", "1.5e3", "~", "null", "true", ".inf", ".nan", "@", "`", "<<: ", "    ", "      ",
    "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "?", "-\n", "?\n", ":\n",
    "\"\\uD800\"", "\"\\uDBFF\\uDFFF\"", "\\U00110000", "\\xC3\\xA9", "\\L", "\\N", "!%ED%A0%80 ", "!%C0%80 ", "!%E9 ", "!a%F0%9F%98%80 ",
    "[]", "{}", "{a: b}", "[a, b]", "[? a : b]", "!<", ">", "%41", "%C3%A9", "%zz", "#c", "\n#c\n", "- - ", "a:\n- ", "\"a\": ", "'b': ", ": : ", "? ? ",
];

pub fn tokens(t: &mut Tape) -> Vec<u8> {
    let n = { let m = *t.pick(&[8usize, 24, 80, 250]); t.us(m) };
    let mut out = Vec::new();
    // a restricted vocabulary digs deeper than a uniform one
    let k = *t.pick(&[TOKENS.len(), 4, 8, 16]);
    let mut voc: Vec<&str> = Vec::new();
    if k < TOKENS.len() {
        for _ in 0..k {
            voc.push(*t.pick(TOKENS));
        }
    } else {
        voc.extend_from_slice(TOKENS);
    }
    for _ in 0..n {
        let w = *t.pick(&voc);
        out.extend_from_slice(w.as_bytes());
        if t.chance(20) {
            // runs of one token: deep nesting, long whitespace, long comments
            let most = if t.below(60) == 59 { 1500 } else { 200 };
            for _ in 0..t.us(most) {
                out.extend_from_slice(w.as_bytes());
            }
        }
    }
    out
}

pub const FAULTS: &[&str] = &[
    "truncate", "bit flip", "byte lost", "byte duplicated", "foreign byte inserted", "chunk duplicated", "chunk lost", "chunks reordered", "chunk of another stream spliced in",
    "zero-filled page", "stale page overwrites", "escape or tag code damaged", "line break conversion",
];

/// What a damaged or foreign writer may put after a `"` or a `\\` ...
const ESCAPES: &[&str] = &[
    "\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\uD83D\\uDE00", "\\U0000D800", "\\U00110000", "\\UFFFFFFFF", "\\U0010FFFF", "\\uFFFF", "\\uE000", "\\uD7FF", "\\xFF", "\\xC3\\xA9", "\\x80",
    "\\x0", "\\u12", "\\U123", "\\x", "\\u", "\\U", "\\q", "\\", "\\\\", "\\N", "\\_", "\\L", "\\P", "\\0", "\\\t", "\\/", "\\\n",
];

/// ... and after a `!`.
const CODES: &[&str] = &[
    "%ED%A0%80", "%ED%BF%BF", "%C0%80", "%C1%BF", "%E0%80%80", "%F0%80%80%80", "%F4%90%80%80", "%F5%80%80%80", "%FF", "%80", "%C3", "%C3A", "%C3%", "%C3%28", "%E9", "%e2%82%ac", "%F0%9F%98%80", "%F0%9F%98",
    "%", "%4", "%g0", "%00", "%0A", "%20", "%2c%5B", "%25%34%31",
];

const FOREIGN: &[&str] = &["\0", "\r", "\t", "\u{feff}", "\n", " ", ":", "-", "\"", "'", "#", "é", "\u{85}", "&", "*", "!", "%", "\\", "|", "[", "}", ",", "\r\n", "\u{1}", "\u{7f}", "😀"];

/// Applies one fault to bytes at or after `from`.
pub fn fault(t: &mut Tape, b: &mut Vec<u8>, from: usize, c: &mut Ctx) {
    if b.len() <= from {
        return;
    }
    let span = b.len() - from;
    let at = from + t.us(span);
    let k = t.us(FAULTS.len());
    c.count(&format!("fault: {}", FAULTS[k]));
    let len = |t: &mut Tape, max: usize| {
        let m = *t.pick(&[4usize, 16, 64, 600]);
        1 + t.us(max.clamp(1, m))
    };
    match k {
        0 => b.truncate(at),
        1 => b[at] ^= 1 << t.below(8),
        2 => {
            b.remove(at);
        }
        3 => {
            let x = b[at];
            b.insert(at, x);
        }
        4 => {
            let s = t.pick(FOREIGN).as_bytes().to_vec();
            b.splice(at..at, s);
        }
        5 => {
            let n = len(t, b.len() - at);
            let s = b[at..(at + n).min(b.len())].to_vec();
            let to = from + t.us(b.len() - from + 1);
            b.splice(to..to, s);
        }
        6 => {
            let n = len(t, b.len() - at);
            let e = (at + n).min(b.len());
            b.drain(at..e);
        }
        7 => {
            let n = len(t, b.len() - at);
            let e = (at + n).min(b.len());
            let s: Vec<u8> = b.drain(at..e).collect();
            let to = from + t.us(b.len() - from + 1);
            b.splice(to..to, s);
        }
        8 => {
            let o = match t.below(2) {
                0 => tokens(t),
                _ => t.pick(&corpus()).as_bytes().to_vec(),
            };
            if !o.is_empty() {
                let s = t.us(o.len());
                let n = len(t, o.len() - s);
                let e = (s + n).min(o.len());
                b.splice(at..at, o[s..e].to_vec());
            }
        }
        9 => {
            let n = len(t, b.len() - at);
            let e = (at + n).min(b.len());
            b[at..e].fill(0);
        }
        10 => {
            let src = t.us(b.len());
            let n = len(t, b.len() - at.max(src));
            for i in 0..n {
                if at + i < b.len() && src + i < b.len() {
                    b[at + i] = b[src + i];
                }
            }
        }
        11 => {
            // the place after the next quote, backslash or tag mark gets a code
            let hit = (at..b.len()).chain(from..at).find(|&i| matches!(b[i], b'"' | b'\\' | b'!'));
            let Some(i) = hit else { return };
            let s = if b[i] == b'!' { *t.pick(CODES) } else { *t.pick(ESCAPES) };
            let to = if b[i] == b'\\' { i } else { i + 1 };
            b.splice(to..to, s.bytes());
        }
        _ => {
            // a gateway that rewrites line breaks from `at` on
            let to: &[u8] = [&b"\r\n"[..], b"\r", b"\n\n"][t.us(3)];
            let tail: Vec<u8> = b.drain(at..).collect();
            for x in tail {
                if x == b'\n' { b.extend_from_slice(to) } else { b.push(x) }
            }
        }
    }
}

/// What is left of a byte stream after a transcoder dropped what is not UTF-8.
pub fn repair(b: &mut Vec<u8>) {
    if std::str::from_utf8(b).is_ok() {
        return;
    }
    let mut out = Vec::with_capacity(b.len());
    for ch in b.utf8_chunks() {
        out.extend_from_slice(ch.valid().as_bytes());
    }
    *b = out;
}

pub fn faults(t: &mut Tape, b: &mut Vec<u8>, from: usize, c: &mut Ctx, max: u32) -> usize {
    let n = 1 + t.small(max - 1, 500);
    for _ in 0..n {
        fault(t, b, from, c);
    }
    repair(b);
    n
}

pub struct Work {
    pub text: Vec<u8>,
    /// what a reader must receive, if the stream is one the writer made and nothing happened to it
    pub model: Option<Stream>,
    pub label: &'static str,
}

pub fn good(t: &mut Tape, c: &mut Ctx) -> Stream {
    let mut st = Style::draw(t);
    st.p_no_nl = 100;
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    s
}

/// A stream whose documents use the tag handles of earlier ones.
pub fn kept(t: &mut Tape, c: &mut Ctx) -> Stream {
    let mut st = Style::draw(t);
    st.keep_tags = true;
    st.p_directive = 500;
    st.p_props = 400;
    st.p_dots = st.p_dots.max(300);
    st.min_docs = 2;
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    s
}

/// Any stream: intact, damaged, foreign, or soup.
pub fn any(t: &mut Tape, c: &mut Ctx) -> Work {
    let (mut text, model, label) = match t.weighted(&[30, 30, 10, 15, 15, 4]) {
        0 => {
            let s = good(t, c);
            (s.text.clone(), Some(s), "written")
        }
        1 => {
            let mut x = good(t, c).text;
            faults(t, &mut x, 0, c, 4);
            (x, None, "damaged")
        }
        2 => {
            let mut x = Vec::new();
            for _ in 0..1 + t.small(3, 300) {
                x.extend_from_slice(t.pick(&corpus()).as_bytes());
                if t.chance(400) {
                    x.extend_from_slice(b"\n---\n");
                }
            }
            (x, None, "corpus")
        }
        3 => {
            let mut x = t.pick(&corpus()).as_bytes().to_vec();
            faults(t, &mut x, 0, c, 5);
            (x, None, "damaged corpus")
        }
        4 => {
            let mut x = tokens(t);
            repair(&mut x);
            (x, None, "soup")
        }
        _ => {
            // only a reader that keeps tag handles across documents can take all of it
            let x = kept(t, c).text;
            (x, None, "written with kept tag handles")
        }
    };
    if text.len() > 150_000 {
        text.truncate(150_000);
        repair(&mut text);
        return Work { text, model: None, label: "damaged" };
    }
    c.count(&format!("stream: {label}"));
    Work { text, model, label }
}
