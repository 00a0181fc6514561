//! C17: reporting comments disturbs nothing. Runs in a build with the library's `comment`
//! feature; a server process built without it tells what the same stream gives there.

use crate::ev::*;
use crate::model::{self, Style};
use crate::props::*;
use crate::props2::*;
use crate::run::*;
use crate::soup;
use crate::source::*;
use crate::tape::Tape;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use yam_core::parsing::Parser;

// ---------------------------------------------------------------- the build without comments

/// Answers requests (length, keep_tags, stream) with everything pulling delivers.
pub fn serve() {
    crate::driver::big(|| {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        loop {
            let mut h = [0u8; 5];
            if i.read_exact(&mut h).is_err() {
                return;
            }
            let mut text = vec![0; u32::from_le_bytes(h[..4].try_into().unwrap()) as usize];
            if i.read_exact(&mut text).is_err() {
                return;
            }
            let s = pulled(&Rc::new(text), h[4] != 0).join("\n");
            o.write_all(&(s.len() as u32).to_le_bytes()).unwrap();
            o.write_all(s.as_bytes()).unwrap();
            o.flush().unwrap();
        }
    });
}

fn line(e: &E, s: &Sp) -> String {
    format!("{} @{}", e.show(), show_sp(s))
}

fn pulled(text: &Rc<Vec<u8>>, keep: bool) -> Vec<String> {
    let m = Meter::new(text.len());
    let mut o = Obs::new();
    match parser(text, &Spec::plain(Kind::SimMin), &m) {
        Ok(p) => {
            let mut p = p.keep_tags(keep);
            drain(&mut p, &mut o, text.len());
        }
        Err(e) => o.end = end_of(e),
    }
    log(&o)
}

fn log(o: &Obs) -> Vec<String> {
    let mut v: Vec<String> = o.evs.iter().filter(|x| !matches!(x.0, E::Comment(_))).map(|x| line(&x.0, &x.1)).collect();
    v.push(o.end.show());
    v.iter().map(|x| x.replace('\n', "\\n")).collect()
}

thread_local! {
    static SERVER: RefCell<Option<Child>> = const { RefCell::new(None) };
}

fn start() -> Child {
    let me = std::env::current_exe().unwrap();
    // target/comment/debug/ysim -> target/debug/ysim
    let plain = std::env::var_os("YSIM_PLAIN").map_or_else(|| me.parent().unwrap().join("../../debug/ysim"), Into::into);
    Command::new(plain).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
        eprintln!("the build without comments does not start: {e}");
        std::process::exit(2)
    })
}

/// What the build without comments delivers; `None` if it died on that stream.
fn plain(text: &[u8], keep: bool) -> Option<Vec<String>> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let c = s.get_or_insert_with(start);
        let mut ask = || -> std::io::Result<String> {
            let w = c.stdin.as_mut().unwrap();
            w.write_all(&(text.len() as u32).to_le_bytes())?;
            w.write_all(&[u8::from(keep)])?;
            w.write_all(text)?;
            w.flush()?;
            let r = c.stdout.as_mut().unwrap();
            let mut h = [0u8; 4];
            r.read_exact(&mut h)?;
            let mut b = vec![0; u32::from_le_bytes(h) as usize];
            r.read_exact(&mut b)?;
            Ok(String::from_utf8(b).unwrap())
        };
        match ask() {
            Ok(x) => Some(x.split('\n').map(str::to_string).collect()),
            Err(_) => {
                let _ = c.wait();
                *s = None;
                None
            }
        }
    })
}

// ---------------------------------------------------------------- scenarios

pub fn c17(t: &mut Tape, c: &mut Ctx) -> Res {
    if !cfg!(feature = "comment") {
        eprintln!("C17 needs the build with comments: ./check.sh C17");
        std::process::exit(2);
    }
    let k = t.weighted(&[40, 40, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3]);
    let (id, f): (&str, RunFn) = match k {
        0 => ("without", against_plain as RunFn),
        1 => ("writer", as_written),
        2 => ("C01", c01),
        3 => ("C03", c03),
        4 => ("C04", c04),
        5 => ("C05", c05),
        6 => ("C06", c06),
        7 => ("C07", c07),
        8 => ("C08", c08),
        9 => ("C09", c09),
        10 => ("C10", c10),
        11 => ("C11", c11),
        12 => ("C12", c12),
        13 => ("C13", c13),
        14 => ("C16", c16),
        15 => ("C02", c02),
        16 => ("C18", crate::props3::c18),
        _ => ("C15", crate::typed::c15),
    };
    c.count(&format!("scenario: {id}"));
    c.note("scenario", || if k < 2 { id.to_string() } else { format!("{id}, with comments reported") });
    let r = f(t, c);
    r.map_err(|v| if k < 2 { v } else { Violation { sig: format!("{id} {}", v.sig), details: v.details } })
}

fn brk(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}

/// The comments among the events: text of the stream, to the end of a line, in order.
fn comments(text: &[u8], o: &Obs, c: &mut Ctx) -> Result<Vec<(usize, String)>, Violation> {
    let mut v: Vec<(usize, String)> = Vec::new();
    let mut last: Option<(usize, bool)> = None;
    let mut end = 0;
    for (e, s) in &o.evs {
        let com = matches!(e, E::Comment(_));
        if let Some((p, was)) = last {
            if s.s.pos < p || (s.s.pos == p && com && was) {
                return fail("order", format!("{} delivered after an event at byte {p}", line(e, s)));
            }
        }
        last = Some((s.s.pos, com));
        let E::Comment(x) = e else { continue };
        let (a, b) = (s.s.pos, s.e.pos);
        if a < end {
            return fail("order", format!("{} starts inside the comment before it", line(e, s)));
        }
        end = b;
        if a >= b || b > text.len() || &text[a..b] != x.as_bytes() || text[a] != b'#' {
            return fail("text", format!("{} is not the text of a comment", line(e, s)));
        }
        if b < text.len() && !brk(text[b]) && text[b] != 0 {
            return fail("text", format!("{} ends before its line", line(e, s)));
        }
        if text[a..b].iter().any(|c| brk(*c)) {
            return fail("text", format!("{} goes beyond its line", line(e, s)));
        }
        v.push((a, x.clone()));
    }
    c.add("comments delivered", v.len() as u64);
    Ok(v)
}

fn against_plain(t: &mut Tape, c: &mut Ctx) -> Res {
    let (text, _) = text_of(t, c);
    let keep = t.chance(150);
    let sp = spec(t, c);
    let o = consume(t, c, &text, &sp, keep);
    c.see(&o);
    note_obs(c, "with comments", &o);
    c.case(&text, sp.kind as u64);
    if matches!(o.end, End::Budget(_)) {
        return Ok(());
    }
    let got = log(&o);
    let Some(want) = plain(&text, keep) else {
        c.count("the build without comments died");
        return Ok(());
    };
    c.note("without comments", || want.join("; "));
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        let show = |x: Option<&String>| x.cloned().unwrap_or_else(|| "nothing".into());
        return fail("disturbed", format!("event {i}: {} without comments, {} with them", show(want.get(i)), show(got.get(i))));
    }
    let n = comments(&text, &o, c)?;
    c.nontrivial = !n.is_empty();
    Ok(())
}

/// One of the ways to consume a stream.
fn consume(t: &mut Tape, c: &mut Ctx, text: &Rc<Vec<u8>>, sp: &Spec, keep: bool) -> Obs {
    let style = t.weighted(&[4, 1, 1, 1]);
    c.count(&format!("consumer: {}", ["pull", "peek then pull", "load one document at a time", "load all"][style]));
    c.case(&[style as u8], 0);
    let m = Meter::new(text.len());
    let mut o = Obs::new();
    match parser(text, sp, &m) {
        Err(e) => o.end = end_of(e),
        Ok(p) => {
            let mut p: Parser<'static, Metered> = p.keep_tags(keep);
            let cap = event_budget(text.len());
            let mut n = 0;
            while o.end == End::Open && n <= cap {
                n += 1;
                if style < 2 {
                    if style == 1 {
                        if let Err(e) = guard(|| p.peek().is_some()) {
                            o.end = end_of(e);
                            break;
                        }
                    }
                    step(&mut p, &mut o);
                    continue;
                }
                let mut r = Recv::new(text.len());
                let res = guard(|| p.load(&mut r, style == 3));
                let fin = r.o.evs.is_empty() || matches!(r.o.evs.last(), Some((E::StreamEnd, _)));
                o.evs.append(&mut r.o.evs);
                if set_end(&mut o, res).is_some() && fin {
                    o.end = End::Eos;
                }
            }
        }
    }
    done(c, &m);
    o
}

/// The comments of complete documents arrive exactly as the writer wrote them.
fn as_written(t: &mut Tape, c: &mut Ctx) -> Res {
    let mut st = Style::draw(t);
    st.p_comment = *t.pick(&[100, 300, 700]);
    let s = model::stream(t, &st);
    c.add("documents written", s.docs.len() as u64);
    let mut f = if t.chance(500) { s.text.len() } else { t.us(s.text.len() + 1) };
    while f < s.text.len() && (s.text[f] & 0xC0) == 0x80 {
        f += 1;
    }
    let mut tail = s.text[f..].to_vec();
    if f < s.text.len() {
        if t.chance(400) {
            c.count("fault: truncate");
            tail.clear();
        } else {
            soup::faults(t, &mut tail, 0, c, 4);
        }
    }
    let mut text = s.text[..f].to_vec();
    text.extend_from_slice(&tail);
    let text = Rc::new(text);
    c.note("stream", || format!("{:?}", String::from_utf8_lossy(&text)));
    c.note("fault at byte", || f.to_string());
    let sp = spec(t, c);
    let o = consume(t, c, &text, &sp, false);
    c.see(&o);
    note_obs(c, "received", &o);
    c.case(&text, f as u64);
    if matches!(o.end, End::Budget(_)) {
        return Ok(());
    }
    // the nodes are C03's business; here only that nothing was lost where comments stand
    let n = s.docs.iter().take_while(|d| d.complete_at <= f).count();
    let w = canon(s.evs.iter().map(|x| &x.e));
    let g = canon(o.evs.iter().map(|x| &x.0));
    let whole = f == s.text.len();
    let k = if whole {
        w.len()
    } else if n == 0 {
        0
    } else {
        s.docs[n - 1].ev.1
    };
    if let Some(d) = diff_evs(&w, &g, k) {
        return fail("events", format!("{d} (then {})", o.end.show()));
    }
    // everything before the end of the last complete document
    let upto = if whole {
        f
    } else if n == 0 {
        0
    } else {
        o.evs.iter().filter(|x| x.0 == E::DocEnd).nth(n - 1).map_or(0, |x| x.1.s.pos)
    };
    let got = comments(&text, &o, c)?;
    let want: Vec<&(usize, String)> = s.comments.iter().filter(|x| x.0 < upto).collect();
    let reserved = |at: usize| {
        let from = s.text[..at].iter().rposition(|c| brk(*c)).map_or(0, |i| i + 1);
        s.text[from] == b'%' && !want.iter().any(|x| x.0 == at)
    };
    let have: Vec<&(usize, String)> = got.iter().filter(|x| x.0 < upto && !reserved(x.0)).collect();
    c.nontrivial = !want.is_empty();
    if have != want {
        let i = (0..have.len().max(want.len())).find(|i| have.get(*i) != want.get(*i)).unwrap();
        return fail("comments", format!("comment {i} before byte {upto}: written {:?}, received {:?} (then {})", want.get(i), have.get(i), o.end.show()));
    }
    Ok(())
}
