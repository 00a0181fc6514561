#![allow(dead_code)]
mod alloc;
mod comments;
mod driver;
mod ev;
mod json;
mod model;
mod oracle;
mod props;
mod props2;
mod props3;
mod run;
mod sink;
mod soup;
mod source;
mod typed;
mod tape;

use std::rc::Rc;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    run::install_hook();
    match args[1].as_str() {
        "gen" => r#gen(args[2].parse().unwrap(), args[3].parse().unwrap(), args.get(4).is_some()),
        "events" => {
            for x in &args[2..] {
                let text = Rc::new(x.replace("\\n", "\n").replace("\\r", "\r").into_bytes());
                let (o, m) = run::pull_all(&text, &source::Spec::plain(source::Kind::SimMin));
                println!("{x:?}");
                for (e, s) in &o.evs {
                    println!("   {} {}", e.show(), ev::show_sp(s));
                }
                println!("   {} {:?}", o.end.show(), m.broken.borrow());
            }
        }
        "survey" => survey(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        "check" => std::process::exit(driver::check(&args[2..])),
        "replay" => std::process::exit(driver::replay(&args[2..])),
        "worker" => driver::worker(&args[2..]),
        "try" => driver::attempt(&args[2..]),
        "serve" => comments::serve(),
        "pristine" => driver::pristine(&args[2..]),
        "minimise" => driver::minimise(&args[2..]),
        "record" => driver::record(&args[2..]),
        "trace" => driver::trace(&args[2..]),
        _ => {
            eprintln!("usage: ysim check ID [quick|thorough] | replay FILE");
            std::process::exit(2);
        }
    }
}

fn r#gen(from: u64, to: u64, show: bool) {
    let mut bad = 0;
    for seed in from..to {
        let mut t = tape::Tape::fresh(seed);
        let st = model::Style::draw(&mut t);
        let s = model::stream(&mut t, &st);
        if show {
            println!("--- {seed}\n{}", String::from_utf8_lossy(&s.text));
            for e in &s.evs {
                println!("  {} {:?}", e.e.show(), e.start);
            }
        }
        let text = Rc::new(s.text.clone());
        let (o, m) = run::pull_all(&text, &source::Spec::plain(source::Kind::SimMin));
        let got: Vec<ev::E> = ev::canon(o.events().iter());
        let want: Vec<ev::E> = ev::canon(s.events().iter());
        let mut why = None;
        for i in 0..got.len().max(want.len()) {
            let g = got.get(i);
            let w = want.get(i);
            if g != w {
                why = Some(format!("ev {i}: got {:?} want {:?} end {} at {:?}", g.map(|e| e.show()), w.map(|e| e.show()), o.end.show(), o.err_at));
                break;
            }
            if let Some(x) = s.evs[i].start {
                if x != o.evs[i].1.s.pos {
                    why = Some(format!("ev {i} {}: start got {} want {x}", got[i].show(), ev::show_sp(&o.evs[i].1)));
                    break;
                }
            }
        }
        if why.is_none() && o.end != ev::End::Eos {
            why = Some(o.end.show());
        }
        if let Some(b) = m.broken.borrow().as_ref() {
            why = Some(format!("contract {b}"));
        }
        if let Some(w) = why {
            bad += 1;
            println!("seed {seed} len {}: {w}", text.len());
            if text.len() < 200 {
                println!("   {:?}", String::from_utf8_lossy(&text));
            }
        }
    }
    println!("bad {bad} of {}", to - from);
}

/// All classes of violations in a range of seeds, each with its shortest stream.
fn survey(id: &str, from: u64, to: u64) {
    let p = driver::find(id);
    let mut all: std::collections::BTreeMap<String, (u64, String, String)> = Default::default();
    for seed in from..to {
        let mut t = tape::Tape::fresh(seed);
        let mut c = run::Ctx::new(true);
        if let Err(v) = (p.f)(&mut t, &mut c) {
            let text = c.trace.unwrap().iter().find(|x| x.0 == "stream").map(|x| x.1.clone()).unwrap_or_default();
            let e = all.entry(v.sig).or_insert((0, text.clone(), v.details.clone()));
            e.0 += 1;
            if text.len() < e.1.len() {
                e.1 = text;
                e.2 = v.details;
            }
        }
    }
    for (k, (n, text, d)) in all {
        println!("{k}: {n}\n    {text}\n    {d}");
    }
}
