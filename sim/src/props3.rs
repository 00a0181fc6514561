//! C18: damage that breaks the grammar is never accepted.
//!
//! The writer marks the places of its text (`Site`); each kind of damage below turns a
//! well-formed stream into one that no derivation of YAML 1.2 yields, whatever else
//! stands in the stream. The argument is next to each.

use crate::ev::*;
use crate::model::{self, Site, Sk, Stream, Style};
use crate::oracle::expanded;
use crate::props::*;
use crate::run::*;
use crate::source::*;
use crate::tape::Tape;
use std::rc::Rc;
use yam_core::prelude::{Yaml, YamlLoader};

pub struct Edit {
    pub what: String,
    pub a: usize,
    pub b: usize,
    pub text: String,
    /// nothing arrives after the edit
    pub cut: bool,
}

fn ed(what: &str, a: usize, b: usize, text: impl Into<String>) -> Option<Edit> {
    Some(Edit { what: what.into(), a, b, text: text.into(), cut: false })
}

fn brk(c: u8) -> bool {
    matches!(c, b'\n' | b'\r')
}
fn blank(c: u8) -> bool {
    matches!(c, b' ' | b'\t')
}
fn boundary(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && (b[i] & 0xC0) == 0x80 {
        i += 1;
    }
    i
}

/// A position strictly inside the quotes of `b[s.a..s.b]` that is not inside an escape.
fn inside(t: &mut Tape, b: &[u8], s: &Site) -> usize {
    let mut ok = Vec::new();
    let mut i = s.a + 1;
    let end = s.b - 1;
    let dq = s.k == Sk::Double;
    while i <= end {
        if b[i] & 0xC0 != 0x80 {
            ok.push(i);
        }
        if i == end {
            break;
        }
        if dq && b[i] == b'\\' {
            i += match b[i + 1] {
                b'x' => 4,
                b'u' => 6,
                b'U' => 10,
                b'\r' if b[i + 2] == b'\n' => 3,
                _ => 2,
            };
        } else if !dq && b[i] == b'\'' {
            i += 2;
        } else {
            i += 1;
        }
    }
    *t.pick(&ok)
}

/// Two nodes where one has its place: after a quote or bracket or an alias, nothing but an
/// indicator or a comment follows, on this line or deeper on the next.
fn beside(t: &mut Tape, b: &[u8], x: &Site) -> Option<Edit> {
    let col = b[..x.a].iter().rev().take_while(|c| !brk(**c)).count();
    let mut e = t.pick(&[" x", " 'x'", " [x]", "\tx", "\nx", "\n\"x\"", " &x", " - x"]).to_string();
    if e.starts_with('\n') {
        e.insert_str(1, &" ".repeat(col + 1 + t.us(4)));
    }
    ed("two nodes side by side", x.b, x.b, e)
}

/// Whether the last thing before the line is an indicator, so that what stands on the line
/// is a child of the collection in whose entry the indicator is.
fn below_indicator(b: &[u8], line: usize) -> bool {
    b[..line].iter().rposition(|c| !blank(*c) && !brk(*c)).is_some_and(|i| {
        // not the end of an anchor or tag, whose names may hold any of these
        let word = b[..i].iter().rposition(|c| blank(*c) || brk(*c)).map_or(0, |w| w + 1);
        let alone = match b[i] {
            b'-' | b'?' => word == i,
            b':' => !matches!(b[word], b'&' | b'!' | b'*'),
            _ => false,
        };
        alone && !b[..i].iter().rev().take_while(|c| !brk(**c)).any(|c| *c == b'#')
    })
}

/// Draws one damage for the site, if this site offers the kind drawn.
pub fn damage(t: &mut Tape, s: &Stream, x: &Site) -> Option<Edit> {
    let b = &s.text[..];
    if matches!(x.k, Sk::Single | Sk::Double | Sk::Plain { flow: false } | Sk::Flow { outer: true, .. }) && t.chance(60) {
        // on a line of its own, below its parent's indicator
        let line = b[..x.a].iter().rposition(|c| !blank(*c)).filter(|l| brk(b[*l])).map(|l| l + 1);
        if let Some(line) = line
            && below_indicator(b, line)
            && !s.sites.iter().any(|y| matches!(y.k, Sk::Flow { .. }) && y.a < x.a && x.a < y.b)
        {
            return ed("tab for indentation", line, line + t.us(2) * (x.a - line), "\t");
        }
    }
    match x.k {
        Sk::Single | Sk::Double => {
            let dq = x.k == Sk::Double;
            match t.below(7) {
                0 => {
                    // the closing quote never comes
                    let at = inside(t, b, x);
                    Some(Edit { what: "cut inside a quoted scalar".into(), a: at, b: b.len(), text: String::new(), cut: true })
                }
                1 if dq => {
                    // no such escape
                    let at = inside(t, b, x);
                    let e = *t.pick(&["\\q", "\\-", "\\x4", "\\u00e", "\\xg0", "\\ud800", "\\U00110000", "\\uZZZZ", "\\1", "\\é"]);
                    if matches!(e, "\\x4" | "\\u00e") {
                        // one digit short: what follows must not be one
                        return ed("bad escape in a double-quoted scalar", at, at, format!("{e}~"));
                    }
                    ed("bad escape in a double-quoted scalar", at, at, e)
                }
                2 => {
                // a document marker cannot stand inside (c-forbidden)
                let at = inside(t, b, x);
                let mut e = t.pick(&["\n---\n", "\n...\n", "\n--- x\n", "\n---\t", "\n... ", "\r---\r", "\r\n...\r\n", "\n\n---\n", " \n... ", "\n  \n---\t"]).to_string();
                if dq && t.chance(250) {
                    // the line break before it is escaped
                    e.insert(0, '\\');
                }
                ed("document marker line inside a quoted scalar", at, at, e)
                }
                3 => {
                    // after the closing quote: separation, a comment after a blank, `:` or a flow indicator
                    let e = if dq { *t.pick(&["x", "'y'", "[z]", "-", "é"]) } else { *t.pick(&["x", "\"y\"", "{z: z}", "-", "é"]) };
                    ed("text glued to a closing quote", x.b, x.b, e)
                }
                4 => ed("comment glued to a closing quote", x.b, x.b, "#c"),
                _ => beside(t, b, x),
            }
        }
        Sk::Flow { outer, seq } => match t.below(10) {
            8 => beside(t, b, x),
            // a dash that is neither an entry nor the beginning of a scalar
            9 => ed("dash alone in a flow collection", x.a + 1, x.a + 1, *t.pick(&["-,", " -,", "- ,"])),
            0 => {
                // the closing bracket never comes
                let at = boundary(b, x.a + 1 + t.us(x.b - x.a - 1));
                Some(Edit { what: "cut inside a flow collection".into(), a: at, b: b.len(), text: String::new(), cut: true })
            }
            1 => ed("wrong closing bracket", x.b - 1, x.b, if seq { "}" } else { "]" }),
            2 if outer => ed("one closing bracket too many", x.b, x.b, *t.pick(&["]", "}"])),
            3 => ed("text glued to a closing bracket", x.b, x.b, *t.pick(&["x", "'y'", "\"z\"", "é"])),
            4 => {
                // an entry that is nothing at all
                let e = *t.pick(&[",", " , ", ",,"]);
                ed("comma without an entry", x.a + 1, x.a + 1, e)
            }
            5 => {
                let e = *t.pick(&["\n---\n", "\n...\n", "\n--- x\n"]);
                ed("document marker line inside a flow collection", x.a + 1, x.a + 1, e)
            }
            6 => {
                // `-` and a blank begin nothing inside brackets
                ed("block entry inside a flow collection", x.a + 1, x.a + 1, if x.b - x.a == 2 { "- x" } else { "- x," })
            }
            _ => ed("comment glued to a closing bracket", x.b, x.b, "#c"),
        },
        Sk::Alias => match t.below(6) {
            5 => beside(t, b, x),
            4 => ed("text glued to an alias", x.b, x.b, *t.pick(&["[x]", "{x: y}", "[", "{"])),
            3 => ed("alias without a name", x.a, x.b, ""),
            0 => ed("alias to a name nobody defined", x.a, x.b, "undefined"),
            1 => ed("anchor on an alias", x.a - 1, x.a - 1, "&n "),
            _ => ed("tag on an alias", x.a - 1, x.a - 1, *t.pick(&["!t ", "!!str ", "! "])),
        },
        Sk::Anchor | Sk::Tag if t.chance(250) => {
            // once more among both properties of one node
            let y = s.sites.iter().find(|y| {
                matches!((x.k, y.k), (Sk::Anchor, Sk::Tag) | (Sk::Tag, Sk::Anchor))
                    && (y.b < x.a && b[y.b..x.a].iter().all(|c| blank(*c)) || x.b < y.a && b[x.b..y.a].iter().all(|c| blank(*c)))
            })?;
            let at = *t.pick(&[x.a.min(y.a), x.a.max(y.a)]);
            match t.below(4) {
                0 => ed("two anchors on one node", at, at, "&n "),
                1 => ed("two tags on one node", at, at, *t.pick(&["!t ", "!!str ", "! ", "!<x> "])),
                2 => ed("two anchors on one node", x.b.max(y.b), x.b.max(y.b), " &n"),
                _ => ed("two tags on one node", x.b.max(y.b), x.b.max(y.b), *t.pick(&[" !t", " !!str", " !", " !<x>"])),
            }
        }
        Sk::Anchor => match t.below(3) {
            2 => ed("text glued to an anchor", x.b, x.b, *t.pick(&["[x]", "{x: y}", "[", "{"])),
            0 => ed("two anchors on one node", x.a, x.a, "&n "),
            _ => ed("anchor without a name", x.a + 1, x.b, ""),
        },
        Sk::Tag => match t.below(4) {
            3 => ed("text glued to a tag", x.b, x.b, *t.pick(&["[x]", "{x: y}", "\"x\"", "|", "é"])),
            2 => ed("broken tag", x.a, x.b, *t.pick(&["!%zz", "!x%4", "!<abc", "!<>", "!!", "!<x%g>", "!%", "!x%C3z", "!a^", "!x%C3%28", "!%80", "!x%ff", "!<x%ED%A0%80>", "!%F0%9F%98", "!<%F8%88%80%80%80>", "!x%C0%80", "!!%F4%90%80%80"])),
            0 => ed("two tags on one node", x.a, x.a, *t.pick(&["!t ", "!!str "])),
            _ => ed("tag handle nobody declared", x.a, x.b, *t.pick(&["!undeclared!x", "!u!x", "!E!y"])),
        },
        Sk::Plain { flow: true } if t.chance(300) => {
            // a pair within a pair, without brackets
            ed("two colons in one entry of a flow collection", x.a, x.a, "zz: zz: ")
        }
        Sk::Plain { flow } => {
            // these begin no plain scalar
            let e = if flow { *t.pick(&["@", "`", "|", ">", "%", "|-", ">2"]) } else { *t.pick(&["@", "`", "]", "}", ",", "%"]) };
            if e == "%" && (x.a == 0 || brk(b[x.a - 1]) || b[..x.a].ends_with("\u{feff}".as_bytes())) {
                // that would be a directive
                return None;
            }
            ed("plain scalar begins with a reserved character", x.a, x.a, e)
        }
        Sk::PlainLine if x.ind >= 0 && t.chance(400) => {
            // a tab is no indentation (in a flow collection the library is lenient)
            if s.sites.iter().any(|y| matches!(y.k, Sk::Flow { .. }) && (y.a..y.b).contains(&x.a)) {
                return None;
            }
            ed("tab for the indentation of a plain scalar", x.a, x.b, " ".repeat(t.us(x.ind as usize + 1)) + "\t")
        }
        Sk::PlainLine => {
            // a comment ends the scalar, and its node; the rest of the text is nothing
            ed("comment inside a plain scalar", x.a, x.a, *t.pick(&["# c\n", " # c\n", "#\n", "\t# c\n", " \t#\n", "\t \t# c\n"]))
        }
        Sk::QuotedLine => None,
        // its lines are indented deeper than the mapping (in a sequence the library's tests
        // want it lenient)
        Sk::QuotedValueLine if t.chance(300) => ed("tab for the indentation of a quoted scalar", x.a, x.b, " ".repeat(t.us(x.ind as usize + 1)) + "\t"),
        Sk::QuotedValueLine => ed("quoted scalar continues left of its parent", x.a, x.b, " ".repeat(t.us(x.ind as usize + 1))),
        Sk::BlockLine { first: true } => {
            // a blank line before it with more blanks than it is indented
            let m = x.b - x.a + 1 + t.us(3);
            ed("leading blank line deeper than a block scalar", x.a, x.a, format!("{}\n", " ".repeat(m)))
        }
        Sk::BlockLine { .. } => {
            let (from, to) = ((x.ind + 1) as usize, x.b - x.a);
            if to > 0 && t.chance(300) {
                return ed("tab for the indentation of a block scalar", x.a, x.a, "\tzz\n");
            }
            if from >= to {
                return None;
            }
            // left of the text, yet right of the parent
            let m = from + t.us(to - from);
            ed("line of a block scalar left of its text", x.a, x.a, format!("{}zz\n", " ".repeat(m)))
        }
        Sk::Colon => {
            // another colon could take its place
            let rest = b[x.b..].iter().take_while(|c| !brk(**c));
            if rest.clone().any(|c| *c == b':') || b[..x.a].iter().rev().take_while(|c| !brk(**c)).any(|c| *c == b':') {
                return None;
            }
            ed("colon lost", x.a, x.b, *t.pick(&["", " ", ";"]))
        }
        Sk::Comma => match t.below(3) {
            2 => ed("comment glued to a comma", x.b, x.b, "#c"),
            0 => ed("comma without an entry", x.a, x.a, *t.pick(&[",", ", "])),
            _ => {
                // two nodes side by side
                let before = b[..x.a].iter().rev().find(|c| !blank(**c))?;
                let after = b[x.b..].iter().find(|c| !blank(**c))?;
                if matches!(before, b'"' | b'\'' | b']' | b'}') && matches!(after, b'"' | b'\'' | b'[' | b'{' | b'a'..=b'z') {
                    // a quote that ends a plain scalar is not one
                    let q = b[..x.a].iter().rposition(|c| !blank(*c)).unwrap() + 1;
                    if s.sites.iter().any(|y| y.b == q && matches!(y.k, Sk::Single | Sk::Double | Sk::Flow { .. })) {
                        return ed("comma lost between two entries", x.a, x.b, " ");
                    }
                }
                None
            }
        },
        Sk::Header => ed("garbage in a block scalar header", x.a, x.a, *t.pick(&["x", "0", "--", "++", "-+", " x", "#", "12", "+0", "-0", "0+", "10", "-12", "1+2", "1-+"])),
        Sk::Value => ed("block collection on the line of its key", x.a, x.a, *t.pick(&["- ", "zz: ", "? ", "'z': ", "[z]: ", ": "])),
        Sk::Entry { seq: true, .. } if t.chance(60) => {
            let text = *t.pick(&["\t-", " \t-", "\t -"]);
            Some(Edit { what: "tab before a compact collection".into(), a: x.a + 1, b: b.len(), text: text.into(), cut: true })
        }
        Sk::Entry { seq, first } => match t.below(5) {
            4 if seq && first => {
                // of a sequence, on the line of its parent's indicator
                let gap = b[..x.a].iter().rev().take_while(|c| blank(**c)).count();
                if gap > 0 && x.a > x.b + gap && matches!(b[x.a - gap - 1], b'-' | b'?' | b':') {
                    return ed("tab before a compact collection", x.a - gap, x.a, *t.pick(&["\t", " \t", "\t "]));
                }
                None
            }
            4 => None,
            2 if !seq || !first => {
                // its column is an entry's, yet it is none; before a first `-` it would be text,
                // and plain text before a first key might run on into it
                let e = if first { *t.pick(&["'zz'", "\"z: z\"", "[z]", "{z: z}"]) } else { *t.pick(&["zz", "'zz'", "\"z: z\"", "[z]", "z z", "&zz", "!t", "&zz !t", "!t # c"]) };
                ed("entry without an indicator", x.b, x.b, format!("{}{e}\n", " ".repeat(x.a - x.b)))
            }
            3 if seq && !first => ed("mapping entry among sequence entries", x.b, x.b, format!("{}zz: 1\n", " ".repeat(x.a - x.b))),
            1 if first && x.ind > 0 && b[x.b..x.a].iter().all(|c| *c == b' ') => {
                // the collection stands on a line of its own, below its parent's indicator
                let parent = s.sites.iter().filter(|y| y.k == Sk::End && y.b as i32 == x.ind && y.a >= x.a).min_by_key(|y| y.a)?;
                if parent.ind < 0 || !below_indicator(b, x.b) {
                    return None;
                }
                ed("tab for indentation", x.b, x.b + t.us(2), "\t")
            }
            0 if seq => ed("properties before a block sequence entry", x.a, x.a, *t.pick(&["&n ", "!t ", "!!seq "])),
            1 if x.ind > 0 && !first => match t.below(2) {
                0 => ed("tab for indentation", x.b, x.b, "\t"),
                _ => ed("tab for indentation", x.b, x.b + 1, "\t"),
            },
            _ => None,
        },
        // the sequence may stand at its key's column, its properties may not
        Sk::Indentless => ed("properties left of where they may stand", x.b, x.b, format!("{}{}\n", " ".repeat(x.a - x.b), *t.pick(&["&zz", "!t", "&zz !t", "!!seq # c"]))),
        Sk::End => {
            let (col, parent) = (x.b as i32, x.ind);
            if col - parent < 2 {
                return None;
            }
            let m = parent + 1 + t.us((col - parent - 1) as usize) as i32;
            let e = *t.pick(&["zz: 1", "zz", "- zz", "'zz'", "? zz"]);
            ed("line between two indentations", x.a, x.a, format!("{}{e}\n", " ".repeat(m as usize)))
        }
        Sk::Key => {
            let gap = b[..x.a].iter().rev().take_while(|c| blank(**c)).count();
            if gap > 0 && x.a > gap && matches!(b[x.a - gap - 1], b'?' | b':') && t.chance(600) {
                // a collection that begins on the line of its parent's indicator counts its
                // indentation from there, in spaces
                return ed("tab before a compact collection", x.a - gap, x.a, *t.pick(&["\t", " \t", "\t "]));
            }
            if x.ind >= 0 && s.sites.iter().any(|y| y.k == Sk::Colon && y.a == x.b) && t.chance(200) {
                return ed("implicit key longer than 1024", x.b, x.b, "x".repeat(1100));
            }
            // an implicit key is on one line
            let at = {
                // not among its properties: those may stand on the line before a mapping
                let from = s.sites.iter().filter(|y| y.a >= x.a && y.a < x.b && matches!(y.k, Sk::Single | Sk::Double | Sk::Plain { .. } | Sk::Flow { .. })).map(|y| y.a).min();
                let i = (from.unwrap_or(x.b)..x.b).filter(|i| b[*i] == b' ').collect::<Vec<_>>();
                if i.is_empty() || t.chance(500) { x.b } else { *t.pick(&i) }
            };
            ed("implicit key on two lines", at, at, format!("\n{}", " ".repeat((x.ind + 2) as usize)))
        }
        Sk::Directive { tag } => match t.below(4) {
            0 => {
                let mut l = String::from_utf8_lossy(&b[x.a..x.b]).into_owned();
                if tag && t.chance(400) {
                    // with another prefix
                    l = format!("%TAG {} other:", l.split_ascii_whitespace().nth(1)?);
                } else if !tag && t.chance(400) {
                    l = t.pick(&["%YAML 1.1", "%YAML 1.2", "%YAML 1.3"]).to_string();
                }
                // before any directive of the document, or right before its start
                let end = s.sites.iter().filter(|y| y.k == Sk::Marker && y.a >= x.b).map(|y| y.a).min()?;
                let from = s.sites.iter().filter(|y| y.k == Sk::Marker && y.a < x.a).map(|y| y.a).max().unwrap_or(0);
                let mut places: Vec<usize> = s.sites.iter().filter(|y| matches!(y.k, Sk::Directive { .. }) && (from..end).contains(&y.a)).map(|y| y.a).collect();
                places.push(end);
                let at = *t.pick(&places);
                ed(if tag { "handle declared twice" } else { "version declared twice" }, at, at, l + "\n")
            }
            1 => ed("garbage after a directive", x.b, x.b, *t.pick(&[" foo", " 1.2", " !e! x"])),
            2 => ed("directive cut short", x.a + if tag { 4 } else { 5 }, x.b, *t.pick(&["", " "])),
            _ if tag => ed("broken directive", x.a, x.b, *t.pick(&["%TAG !n!", "%TAG !n! ", "%TAG n! x:", "%TAG !n x:", "%TAG !n!x:", "%TAG !n! ,x", "%TAG !n! x:%zz", "%TAG \"!n!\" x:"])),
            _ => ed("broken directive", x.a, x.b, *t.pick(&["%YAML 1", "%YAML 1.", "%YAML .2", "%YAML x", "%YAML 1.x", "%YAML 1.2.3", "%YAML 1 .2", "%YAML 1.2foo", "%YAML -1.2"])),
        },
        Sk::Marker => ed("no document after directives", x.a, x.b, *t.pick(&["-+-", "--", "x:", "..."])),
        Sk::Dots => ed("text after the end of a document", x.a, x.b, *t.pick(&[" foo", " - a", " \"x\"", " ---", " &a"])),
    }
}

/// Damage around the root node of a document.
fn around_root(t: &mut Tape, s: &Stream) -> Option<Edit> {
    let k = t.us(s.docs.len());
    let d = &s.docs[k];
    if let (1, Some(at)) = (t.below(3), s.evs[d.ev.0].start) {
        // no block collection begins on the line of the `---`
        let text = at + 3 + s.text[at + 3..].iter().take_while(|c| blank(**c)).count();
        if !d.explicit || s.text.get(text).is_none_or(|c| brk(*c) || *c == b'#') {
            return None;
        }
        return ed("block collection on the line of a document start", text, text, *t.pick(&["zz: ", "- ", "? ", "'z': "]));
    }
    let closed = match &s.evs[d.ev.0 + 1].e {
        // the lines after these cannot belong to them
        E::Scalar { st, .. } => matches!(st, '"' | '\''),
        _ => true,
    };
    if !closed || d.body_end == 0 {
        return None;
    }
    if t.below(3) == 2 && k + 1 < s.docs.len() && !d.dots {
        // directives come after a `...`
        return ed("directive in a document", d.body_end, d.body_end, *t.pick(&["%YAML 1.2\n", "%TAG !n! x:\n"]));
    }
    ed("a second root node", d.body_end, d.body_end, *t.pick(&["foo\n", "'foo'\n", "]\n", "}\n", "[foo]\n", "&a foo\n"]))
}

pub fn c18(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut st = Style::draw(t);
    if t.chance(300) {
        st.terminate_last = true;
    }
    st.p_no_nl = 100;
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    let mut e = None;
    for _ in 0..6 {
        e = if s.sites.is_empty() || t.below(12) == 11 {
            around_root(t, &s)
        } else {
            let x = if t.chance(500) {
                *t.pick(&s.sites)
            } else {
                // rare kinds of places as often as frequent ones
                let mut kinds: Vec<std::mem::Discriminant<Sk>> = Vec::new();
                for x in &s.sites {
                    let k = std::mem::discriminant(&x.k);
                    if !kinds.contains(&k) {
                        kinds.push(k);
                    }
                }
                let k = *t.pick(&kinds);
                let of: Vec<&Site> = s.sites.iter().filter(|x| std::mem::discriminant(&x.k) == k).collect();
                **t.pick(&of)
            };
            damage(t, &s, &x)
        };
        if e.is_some() {
            break;
        }
    }
    let Some(e) = e else {
        c.count("runs without a place for damage");
        return Ok(());
    };
    c.count(&format!("fault: {}", e.what));
    let mut text = s.text[..e.a].to_vec();
    text.extend_from_slice(e.text.as_bytes());
    if !e.cut {
        text.extend_from_slice(&s.text[e.b..]);
    }
    let k = s.docs.iter().take_while(|d| d.complete_at <= e.a).count();
    let text = Rc::new(text);
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    c.note("damage", || format!("{} at byte {} (document {})", e.what, e.a, k + 1));
    c.nontrivial = true;
    c.case(&text, 0);
    let sp = spec(t, c);
    let (o, _) = pull(&text, &sp, c);
    c.see(&o);
    note_obs(c, "received", &o);
    match &o.end {
        End::Err(_) => {}
        End::Eos => return fail(&e.what.replace(' ', "-"), format!("{} at byte {}: accepted as a stream without errors", e.what, e.a)),
        // a crash is C07's matter
        _ => return Ok(()),
    }
    let started = o.evs.iter().filter(|x| matches!(x.0, E::DocStart(_))).count();
    if started > k + 1 {
        return fail("skipped", format!("{} at byte {}, in document {}: document {started} was started before the error", e.what, e.a, k + 1));
    }
    if t.chance(200) && expanded(&o.events()) <= 50_000 {
        c.count("consumer: tree loader");
        let sp = spec(t, c);
        let m = Meter::new(text.len());
        let mut l: YamlLoader<'static, Yaml<'static>> = YamlLoader::default();
        let r = match parser(&text, &sp, &m) {
            Ok(mut p) => guard(|| p.load(&mut l, true).is_ok()),
            Err(_) => return Ok(()),
        };
        done(c, &m);
        if let Ok(true) = r {
            return fail("loaded", format!("{} at byte {}: loading reports no error", e.what, e.a));
        }
        let n = l.into_documents().len();
        if n > k + 1 {
            return fail("skipped", format!("{} at byte {}, in document {}: {n} trees were loaded", e.what, e.a, k + 1));
        }
    }
    Ok(())
}
