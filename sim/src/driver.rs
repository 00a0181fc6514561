//! Seeds in, verdicts out: worker processes, localisation of aborts and hangs,
//! minimising, replay files and evidence.

use crate::json::J;
use crate::props::{self, Prop};
use crate::run::*;
use crate::tape::{Tape, mix};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A run takes milliseconds; the access budgets stop runaway ones long before this.
const HANG_S: u64 = 60;
const HANG_CODE: i32 = 86;

pub fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

/// Runs `f` on a thread with a large stack (deeply nested documents recurse).
pub fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}

pub struct Out {
    pub res: Res,
    pub ctx: Ctx,
    pub tape: Vec<u32>,
}

fn exec(p: &Prop, t: Tape, trace: bool) -> Out {
    exec_only(p, t, trace, None)
}

fn exec_only(p: &Prop, mut t: Tape, trace: bool, only: Option<usize>) -> Out {
    let mut ctx = Ctx::new(trace);
    ctx.only = only;
    let res = match guard(|| (p.f)(&mut t, &mut ctx)) {
        Ok(r) => r,
        Err(Stop::Panic(m)) => fail("panic", format!("unexpected panic: {m}")),
        Err(Stop::Budget(m)) => fail("budget", m),
        Err(Stop::Crash) => fail("panic", "a simulated receiver crash was not delivered to the caller of load"),
    };
    Out { res, ctx, tape: t.rec }
}

pub fn base_seed(seed: u64, id: &str) -> u64 {
    let mut h = 0u64;
    crate::ev::hash_str(&mut h, id);
    mix(seed, h)
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static BEAT: AtomicU64 = AtomicU64::new(0);

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, u64::MAX);
        let mut same = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = (CUR.load(Relaxed), BEAT.load(Relaxed));
            if c != last {
                last = c;
                same = Instant::now();
            } else if c.0 != u64::MAX && same.elapsed() > Duration::from_secs(HANG_S) {
                // SAFETY: plain exit without running destructors of the stuck thread
                std::process::exit(HANG_CODE);
            }
        }
    });
}

// ---------------------------------------------------------------- worker

/// `worker ID BASE FROM TO STEP DIR NAME DEADLINE_S`
pub fn worker(a: &[String]) {
    let p = find(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, from, to, step) = (n(1), n(2), n(3), n(4));
    let dir = PathBuf::from(&a[5]);
    let name = a[6].clone();
    let deadline = Instant::now() + Duration::from_secs(n(7));
    watchdog();
    big(move || {
        let cur = fs::File::create(dir.join(format!("{name}.cur"))).unwrap();
        let mut counters: BTreeMap<String, u64> = BTreeMap::new();
        let mut states: HashSet<u64> = HashSet::new();
        let mut cases: HashSet<u64> = HashSet::new();
        let (mut runs, mut nontrivial, mut sim_ms, mut rechecked, mut rediffer) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut hashes: Vec<(u64, u64)> = Vec::new();
        let mut viol: Option<(u64, Violation, Vec<u32>)> = None;
        let mut pristine_runs = 0u64;
        let mut i = from;
        while i < to {
            if runs % 64 == 0 && Instant::now() > deadline {
                break;
            }
            CUR.store(i, Relaxed);
            BEAT.fetch_add(1, Relaxed);
            let _ = cur.write_at(&i.to_le_bytes(), 0);
            let seed = mix(base, i);
            let o = exec(&p, Tape::fresh(seed), false);
            runs += 1;
            for (k, v) in &o.ctx.counters {
                *counters.entry(k.clone()).or_insert(0) += v;
            }
            sim_ms += o.ctx.sim_ms;
            if states.len() < 1_000_000 {
                states.extend(&o.ctx.states);
            }
            if o.ctx.nontrivial {
                nontrivial += 1;
                if cases.len() < 2_000_000 {
                    cases.insert(o.ctx.case_hash);
                }
            }
            if let Err(v) = o.res {
                viol = Some((i, v, o.tape));
                break;
            }
            if i % 1024 == 0 {
                hashes.push((i, o.ctx.hash));
            }
            if i % 64 == 0 {
                // the same seed, once more: must be the same execution
                rechecked += 1;
                let r = exec(&p, Tape::replay(&o.tape), false);
                if r.ctx.hash != o.ctx.hash || r.tape != o.tape {
                    rediffer += 1;
                    if p.id == "C06" {
                        viol = Some((
                            i,
                            Violation { sig: "rerun".into(), details: "running the same seed twice in one process gives different observations: something outlives the instances".into() },
                            o.tape,
                        ));
                        break;
                    }
                }
            }
            if p.id == "C06" && (i / step) % 32 == 5 {
                // one client again, in a process that has seen nothing else
                pristine_runs += 1;
                if let Some(v) = fresh(&p, &dir.join(format!("{name}.fresh")), &o, (i / step / 32) as usize) {
                    viol = Some((i, v, o.tape));
                    break;
                }
            }
            i += step;
        }
        if pristine_runs > 0 {
            counters.insert("clients compared with a process of their own".into(), pristine_runs);
        }
        CUR.store(u64::MAX, Relaxed);
        let bin = |s: &HashSet<u64>| s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
        fs::write(dir.join(format!("{name}.states")), bin(&states)).unwrap();
        fs::write(dir.join(format!("{name}.cases")), bin(&cases)).unwrap();
        let mut kv = vec![
            ("runs", J::u(runs)),
            ("nontrivial", J::u(nontrivial)),
            ("sim_ms", J::u(sim_ms)),
            ("rechecked", J::u(rechecked)),
            ("rediffer", J::u(rediffer)),
            ("counters", J::Obj(counters.into_iter().map(|(k, v)| (k, J::u(v))).collect())),
            ("hashes", J::Arr(hashes.iter().map(|(a, b)| J::Arr(vec![J::u(*a), J::s(b.to_string())])).collect())),
        ];
        if let Some((i, v, tape)) = viol {
            kv.push(("violation", J::obj(vec![("index", J::u(i)), ("sig", J::s(v.sig)), ("details", J::s(v.details)), ("tape", tape_j(&tape))])));
        }
        let tmp = dir.join(format!("{name}.tmp"));
        fs::write(&tmp, J::obj(kv).text()).unwrap();
        fs::rename(&tmp, dir.join(format!("{name}.json"))).unwrap();
    });
}

fn tape_j(t: &[u32]) -> J {
    J::Arr(t.iter().map(|x| J::u(u64::from(*x))).collect())
}
fn tape_of(j: &J) -> Vec<u32> {
    j.arr().iter().map(|x| x.num().unwrap_or(0.0) as u32).collect()
}

// ---------------------------------------------------------------- single tries

/// `try FILE`: runs the tapes of a replay file in order; the last one is judged.
/// Prints nothing but a JSON verdict to FILE.out.
pub fn attempt(a: &[String]) {
    let j = J::parse(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let p = find(j.get("property").and_then(J::str).unwrap());
    let file = a[0].clone();
    watchdog();
    big(move || {
        CUR.store(0, Relaxed);
        let (o, _) = play(&p, &j, false);
        let v = match o.res {
            Ok(()) => J::Null,
            Err(v) => J::obj(vec![("sig", J::s(v.sig)), ("details", J::s(v.details)), ("tape", tape_j(&o.tape))]),
        };
        fs::write(format!("{file}.out"), v.text()).unwrap();
    });
}

/// `pristine FILE K`: only client K of a C06 run, in a process that did nothing else.
pub fn pristine(a: &[String]) {
    let j = J::parse(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let p = find(j.get("property").and_then(J::str).unwrap());
    let k: usize = a[1].parse().unwrap();
    watchdog();
    big(move || {
        CUR.store(0, Relaxed);
        let o = exec_only(&p, Tape::replay(&tape_of(j.get("tape").unwrap())), true, Some(k));
        let h = o.ctx.alone.iter().copied().find(|h| *h != 0).unwrap_or(0);
        let seen = o.ctx.trace.iter().flatten().last().map(|x| x.1.clone()).unwrap_or_default();
        println!("{h} {}", seen.replace('\n', " "));
    });
}

const FRESH: &str = "a client that runs alone observes something else in this process than in a process that did nothing before: something outlives the instances";

/// Does client `k` of this run observe the same in a process of its own?
fn fresh(p: &Prop, file: &Path, o: &Out, k: usize) -> Option<Violation> {
    let n = o.ctx.alone.len();
    if n == 0 {
        return None;
    }
    fs::write(file, job(p.id, "", &[], &o.tape).text()).ok()?;
    let x = me().arg("pristine").arg(file).arg(k.to_string()).stderr(Stdio::null()).output().ok()?;
    if !x.status.success() {
        // (a client that kills its process is another property's business)
        return None;
    }
    let x = String::from_utf8_lossy(&x.stdout).into_owned();
    let (h, seen) = x.trim_end().split_once(' ').unwrap_or((x.trim_end(), ""));
    if h.parse::<u64>().ok()? == o.ctx.alone[k % n] {
        return None;
    }
    Some(Violation { sig: "fresh".into(), details: format!("{FRESH}; client {}, in a process of its own: {}", k % n, seen.chars().take(900).collect::<String>()) })
}

/// Executes what a replay file describes.
fn play(p: &Prop, j: &J, trace: bool) -> (Out, u64) {
    let mut n = 0;
    for t in j.get("before").map(J::arr).unwrap_or(&[]) {
        BEAT.fetch_add(1, Relaxed);
        exec(p, Tape::replay(&tape_of(t)), false);
        n += 1;
    }
    let tape = tape_of(j.get("tape").unwrap_or(&J::Null));
    let rerun = j.get("sig").and_then(J::str) == Some("rerun");
    let mut o = exec(p, Tape::replay(&tape), trace);
    if rerun && o.res.is_ok() {
        let r = exec(p, Tape::replay(&tape), false);
        if r.ctx.hash != o.ctx.hash {
            o.res = fail("rerun", "running the same seed twice in one process gives different observations: something outlives the instances");
        }
    }
    if j.get("sig").and_then(J::str) == Some("fresh") && o.res.is_ok() {
        let f = std::env::temp_dir().join(format!("ysim-fresh-{}", std::process::id()));
        for k in 0..o.ctx.alone.len() {
            if let Some(v) = fresh(p, &f, &o, k) {
                o.res = Err(v);
                break;
            }
        }
        let _ = fs::remove_file(&f);
    }
    (o, n)
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// A try in a fresh process: the violation it shows, if any.
fn fresh_try(dir: &Path, j: &J) -> Option<(String, String, Vec<u32>)> {
    let f = dir.join("try.json");
    let out = dir.join("try.json.out");
    let _ = fs::remove_file(&out);
    fs::write(&f, j.text()).ok()?;
    let mut c = me().arg("try").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let st = wait(&mut c, Duration::from_secs(HANG_S + 30));
    match st {
        None => Some(("hang".into(), format!("the run did not end within {HANG_S} s"), Vec::new())),
        Some(s) if s.success() => {
            let j = J::parse(&fs::read_to_string(&out).ok()?).ok()?;
            let sig = j.get("sig")?.str()?.to_string();
            Some((sig, j.get("details")?.str()?.to_string(), tape_of(j.get("tape")?)))
        }
        Some(s) => Some(death(s)),
    }
}

fn death(s: std::process::ExitStatus) -> (String, String, Vec<u32>) {
    if s.code() == Some(HANG_CODE) {
        ("hang".into(), format!("the run did not end within {HANG_S} s"), Vec::new())
    } else if let Some(n) = s.signal() {
        ("abort".into(), format!("the process was ended by signal {n} (stack overflow, or memory beyond its hard limit)"), Vec::new())
    } else {
        ("abort".into(), format!("the process ended with {s}"), Vec::new())
    }
}

fn job(id: &str, sig: &str, before: &[Vec<u32>], tape: &[u32]) -> J {
    J::obj(vec![
        ("property", J::s(id)),
        ("sig", J::s(sig)),
        ("before", J::Arr(before.iter().map(|t| tape_j(t)).collect())),
        ("tape", tape_j(tape)),
    ])
}

// ---------------------------------------------------------------- minimising

/// Shorter and simpler tapes that still fail the same way. `same` judges a tape
/// and returns the tape it really consumed.
fn shrink(mut best: Vec<u32>, until: Instant, mut same: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let better = |a: &[u32], b: &[u32]| (a.len(), a.iter().map(|x| u64::from(*x)).sum::<u64>()) < (b.len(), b.iter().map(|x| u64::from(*x)).sum::<u64>());
    loop {
        let mut gain = false;
        // cut blocks out
        let mut w = best.len() / 2;
        while w >= 1 {
            let mut i = 0;
            while i + w <= best.len() {
                if Instant::now() > until {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + w);
                match same(&c) {
                    Some(r) if better(&r, &best) => {
                        best = r;
                        gain = true;
                    }
                    _ => i += w.max(1),
                }
            }
            w /= 2;
        }
        // zero blocks, then lower single decisions
        for w in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > until {
                    return best;
                }
                let e = (i + w).min(best.len());
                if best[i..e].iter().any(|x| *x > 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    if let Some(r) = same(&c) {
                        if better(&r, &best) {
                            best = r;
                            gain = true;
                        }
                    }
                }
                i += w;
            }
        }
        let mut i = 0;
        while i < best.len() {
            for f in [0u32, 1, 2] {
                if Instant::now() > until {
                    return best;
                }
                let v = best[i];
                let n = match f {
                    0 => v / 2,
                    1 => v.saturating_sub(1),
                    _ => 1,
                };
                if n < v {
                    let mut c = best.clone();
                    c[i] = n;
                    if let Some(r) = same(&c) {
                        if better(&r, &best) {
                            best = r;
                            gain = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !gain {
            return best;
        }
    }
}

/// `minimise FILE SECONDS`: in-process shrinking; writes FILE.min after every gain.
pub fn minimise(a: &[String]) {
    let j = J::parse(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let secs: u64 = a[1].parse().unwrap();
    let p = find(j.get("property").and_then(J::str).unwrap());
    let sig = j.get("sig").and_then(J::str).unwrap().to_string();
    let file = a[0].clone();
    watchdog();
    big(move || {
        CUR.store(0, Relaxed);
        let until = Instant::now() + Duration::from_secs(secs);
        let mut top: Option<Vec<u32>> = None;
        let tape = tape_of(j.get("tape").unwrap());
        let best = shrink(tape, until, |c| {
            BEAT.fetch_add(1, Relaxed);
            let o = exec(&p, Tape::replay(c), false);
            match o.res {
                Err(v) if v.sig == sig => {
                    if top.as_ref().is_none_or(|t| o.tape.len() < t.len()) {
                        top = Some(o.tape.clone());
                        let _ = fs::write(format!("{file}.min"), tape_j(&o.tape).text());
                    }
                    Some(o.tape)
                }
                _ => None,
            }
        });
        let _ = fs::write(format!("{file}.min"), tape_j(&best).text());
    });
}

// ---------------------------------------------------------------- check

pub fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn check(a: &[String]) -> i32 {
    let p = find(&a[0]);
    let tier = a.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let scale: u64 = std::env::var("YSIM_SCALE_PERMILLE").ok().and_then(|s| s.parse().ok()).unwrap_or(1000);
    let runs = (p.quick * if thorough { 40_000 } else { 1_600 } * scale / 1_000_000).max(64);
    let cap = if thorough { 3000 } else { 400 };
    let base = base_seed(seed, p.id);
    let t0 = Instant::now();
    println!("check {} tier {tier} VERIF_SEED {seed} base {base:#x} runs {runs}", p.id);
    let dir = verif().join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let spawn = |w: u64, from: u64, to: u64, step: u64, cap: u64| -> Child {
        me().arg("worker")
            .args([p.id.to_string(), base.to_string(), from.to_string(), to.to_string(), step.to_string()])
            .arg(&dir)
            .arg(format!("w{w}"))
            .arg(cap.to_string())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<Option<Child>> = (0..WORKERS).map(|w| Some(spawn(w, w, runs, WORKERS, cap))).collect();
    let mut found: Option<(u64, u64, String, String, Vec<u32>)> = None;
    while kids.iter().any(Option::is_some) && found.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..WORKERS {
            let Some(k) = &mut kids[w as usize] else { continue };
            let Ok(Some(st)) = k.try_wait() else { continue };
            kids[w as usize] = None;
            let rep = fs::read_to_string(dir.join(format!("w{w}.json"))).ok().and_then(|s| J::parse(&s).ok());
            if st.success() && rep.is_some() {
                if let Some(v) = rep.unwrap().get("violation") {
                    found = Some((
                        w,
                        v.get("index").and_then(J::num).unwrap_or(0.0) as u64,
                        v.get("sig").and_then(J::str).unwrap_or("").into(),
                        v.get("details").and_then(J::str).unwrap_or("").into(),
                        tape_of(v.get("tape").unwrap_or(&J::Null)),
                    ));
                }
            } else {
                let mut b = [0u8; 8];
                let idx = fs::File::open(dir.join(format!("w{w}.cur"))).and_then(|f| f.read_exact_at(&mut b, 0)).map(|()| u64::from_le_bytes(b)).unwrap_or(w);
                let (s, d, _) = death(st);
                // the recorded decisions died with the process
                found = Some((w, idx, s, d, Vec::new()));
            }
            if found.is_some() {
                break;
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let code = if let Some((w, idx, sig, details, tape)) = found {
        report(&p, seed, base, w, idx, sig, details, tape, &dir, &tier, t0);
        1
    } else {
        finish(&p, seed, base, runs, &dir, &tier, t0)
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn report(p: &Prop, seed: u64, base: u64, w: u64, idx: u64, mut sig: String, details: String, tape: Vec<u32>, dir: &Path, tier: &str, t0: Instant) {
    println!("run {idx} (seed {:#x}) of worker {w}: {sig}: {details}", mix(base, idx));
    let _ = std::io::stdout().flush();
    let run_seed = mix(base, idx);
    let lethal = sig == "hang" || sig == "abort";
    let mut before: Vec<Vec<u32>> = Vec::new();
    let mut best = tape.clone();
    let mut details = details;
    let mut how = "a fresh process".to_string();
    if lethal {
        // the run is identified by its seed; a tape is recorded up to the fatal call
        best = lethal_tape(p, run_seed, dir);
    }
    let j = job(p.id, &sig, &before, &best);
    let alone = fresh_try(dir, &j);
    if let (true, Some((s, d, t))) = (p.id == "C06", &alone) {
        // the same interference may show more directly in a process of its own
        if !t.is_empty() && *s != sig {
            sig = s.clone();
            details = d.clone();
        }
    }
    let reproduced = alone.as_ref().is_some_and(|v| v.0 == sig);
    if std::env::var_os("YSIM_QUICK_REPORT").is_some() {
        // mutation campaigns only want the verdict
    } else if reproduced {
        let until = Instant::now() + Duration::from_secs(if lethal { 90 } else { 60 });
        if lethal {
            let mut n = 0;
            best = shrink(best, until, |c| {
                n += 1;
                if sig == "hang" || n > 400 {
                    return None;
                }
                match fresh_try(dir, &job(p.id, &sig, &[], c)) {
                    Some((s, _, _)) if s == sig => Some(c.to_vec()),
                    _ => None,
                }
            });
        } else {
            let f = dir.join("min.json");
            fs::write(&f, j.text()).unwrap();
            let _ = fs::remove_file(dir.join("min.json.min"));
            if let Ok(mut c) = me().arg("minimise").arg(&f).arg("50").stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
                wait(&mut c, Duration::from_secs(75));
            }
            if let Some(m) = fs::read_to_string(dir.join("min.json.min")).ok().and_then(|s| J::parse(&s).ok()) {
                let m = tape_of(&m);
                // the minimised tape must fail the same way in a process of its own
                if let Some((s, d, _)) = fresh_try(dir, &job(p.id, &sig, &[], &m)) {
                    if s == sig {
                        best = m;
                        details = d;
                    }
                }
            }
        }
    } else if !lethal {
        // it needs what earlier runs of the process left behind
        how = "a fresh process after earlier runs".into();
        let mut k = 1u64;
        while k <= 4096 {
            let mut b = Vec::new();
            for x in (1..=k).rev() {
                if let Some(i) = idx.checked_sub(x * WORKERS) {
                    let mut t = Tape::fresh(mix(base, i));
                    let mut c = Ctx::new(false);
                    let _ = guard(|| (p.f)(&mut t, &mut c));
                    b.push(t.rec);
                }
            }
            let all = (b.len() as u64) < k;
            if let Some((s, d, t)) = fresh_try(dir, &job(p.id, &sig, &b, &tape)) {
                if s == sig || (p.id == "C06" && !t.is_empty()) {
                    sig = s;
                    details = d;
                    before = b;
                    break;
                }
            }
            if all {
                break;
            }
            k *= 4;
        }
        // fewer earlier runs
        let until = Instant::now() + Duration::from_secs(45);
        let mut w = before.len().div_ceil(2);
        while w >= 1 && before.len() > 1 {
            let mut i = 0;
            while i < before.len() && Instant::now() < until {
                let mut b = before.clone();
                b.drain(i..(i + w).min(before.len()));
                match fresh_try(dir, &job(p.id, &sig, &b, &tape)) {
                    Some((s, d, _)) if s == sig && !b.is_empty() => {
                        before = b;
                        details = d;
                    }
                    _ => i += w,
                }
            }
            w /= 2;
        }
        if before.is_empty() {
            how = format!("the whole worker sequence only: ysim worker {} {base} {w} {} {WORKERS}", p.id, idx + 1);
        }
    }
    // readable trace of the final form
    let mut trace = Vec::new();
    if !lethal {
        let tf = dir.join("trace.json");
        fs::write(&tf, job(p.id, &sig, &before, &best).text()).unwrap();
        if let Ok(mut c) = me().arg("trace").arg(&tf).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            wait(&mut c, Duration::from_secs(60));
        }
        if let Some(t) = fs::read_to_string(dir.join("trace.json.out")).ok().and_then(|s| J::parse(&s).ok()) {
            trace = t.arr().to_vec();
        }
    } else {
        trace.push(J::s(format!("seed {run_seed:#x}: the process does not survive this run; see the first bytes of its stream by `ysim replay`")));
    }
    let rdir = verif().join("work").join("replay");
    fs::create_dir_all(&rdir).unwrap();
    let path = rdir.join(format!("{}-{seed}-{idx}.json", p.id));
    let rep = J::obj(vec![
        ("property", J::s(p.id)),
        ("verif_seed", J::u(seed)),
        ("run_index", J::u(idx)),
        ("run_seed", J::s(format!("{run_seed:#x}"))),
        ("sig", J::s(sig.clone())),
        ("violation", J::s(details.clone())),
        ("reproduces_in", J::s(how)),
        ("before", J::Arr(before.iter().map(|t| tape_j(t)).collect())),
        ("tape", tape_j(&best)),
        ("decisions_before_minimising", J::u(tape.len() as u64)),
        ("history", J::Arr(trace.clone())),
        ("replay_cmd", J::s(format!("cd /verif && ./check.sh replay {}", path.display()))),
    ]);
    fs::write(&path, rep.text()).unwrap();
    for x in &trace {
        if let Some(s) = x.str() {
            println!("  {}", s.chars().take(1500).collect::<String>());
        }
    }
    println!("violation: {sig}: {details}");
    evidence(p, seed, tier, t0, dir, 1, vec![J::s(format!("VIOLATION {sig}: {details}"))], J::Null);
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// The decisions of a run that its process does not survive, recorded to a file as they are made.
fn lethal_tape(p: &Prop, seed: u64, dir: &Path) -> Vec<u32> {
    let f = dir.join("lethal.tape");
    let _ = fs::remove_file(&f);
    if let Ok(mut c) = me().arg("record").arg(p.id).arg(seed.to_string()).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        wait(&mut c, Duration::from_secs(HANG_S + 30));
    }
    let b = fs::read(&f).unwrap_or_default();
    b.chunks_exact(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect()
}

/// `record ID SEED FILE`
pub fn record(a: &[String]) {
    let p = find(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let f = a[2].clone();
    watchdog();
    big(move || {
        CUR.store(0, Relaxed);
        let mut t = Tape::fresh(seed);
        t.log_to(&f);
        let _ = exec(&p, t, false);
    });
}

/// `trace FILE`
pub fn trace(a: &[String]) {
    let j = J::parse(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let p = find(j.get("property").and_then(J::str).unwrap());
    let file = a[0].clone();
    watchdog();
    big(move || {
        CUR.store(0, Relaxed);
        let (o, _) = play(&p, &j, true);
        fs::write(format!("{file}.out"), J::Arr(show_trace(&o.ctx)).text()).unwrap();
    });
}

fn show_trace(c: &Ctx) -> Vec<J> {
    c.trace.iter().flatten().map(|(k, v)| J::s(format!("{k}: {}", v.chars().take(3000).collect::<String>()))).collect()
}

/// `replay FILE`
pub fn replay(a: &[String]) -> i32 {
    let j = J::parse(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let p = find(j.get("property").and_then(J::str).unwrap());
    let id = p.id;
    let sig = j.get("sig").and_then(J::str).unwrap_or("").to_string();
    let file = a[0].clone();
    if sig == "hang" || sig == "abort" {
        let dir = verif().join("work").join(format!("replay-{}", std::process::id()));
        fs::create_dir_all(&dir).unwrap();
        let r = fresh_try(&dir, &j);
        let _ = fs::remove_dir_all(&dir);
        return match r {
            Some((s, d, _)) => {
                println!("{s}: {d}");
                println!("VIOLATION property={id} replay={file}");
                1
            }
            None => {
                println!("the run ends normally");
                0
            }
        };
    }
    let code = big(move || {
        let (o, _) = play(&p, &j, true);
        for x in show_trace(&o.ctx) {
            println!("  {}", x.str().unwrap_or(""));
        }
        match o.res {
            Ok(()) => {
                println!("the run satisfies {}", p.id);
                0
            }
            Err(v) => {
                println!("{}: {}", v.sig, v.details);
                println!("VIOLATION property={} replay={file}", p.id);
                1
            }
        }
    });
    code
}

// ---------------------------------------------------------------- evidence

fn finish(p: &Prop, seed: u64, base: u64, runs: u64, dir: &Path, tier: &str, t0: Instant) -> i32 {
    // a second process, other order, other neighbours: the sampled runs must be the same
    let mut known: BTreeMap<u64, u64> = BTreeMap::new();
    for w in 0..WORKERS {
        let Some(r) = fs::read_to_string(dir.join(format!("w{w}.json"))).ok().and_then(|s| J::parse(&s).ok()) else { continue };
        for x in r.get("hashes").map(J::arr).unwrap_or(&[]) {
            let (Some(i), Some(h)) = (x.arr()[0].num(), x.arr()[1].str()) else { continue };
            known.insert(i as u64, h.parse().unwrap_or(0));
        }
    }
    let mut c = me()
        .arg("worker")
        .args([p.id.to_string(), base.to_string(), "0".into(), runs.to_string(), "1024".into()])
        .arg(dir)
        .arg("second")
        .arg("60")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait(&mut c, Duration::from_secs(150));
    let (mut again, mut differ) = (0u64, 0u64);
    if let Some(r) = fs::read_to_string(dir.join("second.json")).ok().and_then(|s| J::parse(&s).ok()) {
        for x in r.get("hashes").map(J::arr).unwrap_or(&[]) {
            let (Some(i), Some(h)) = (x.arr()[0].num(), x.arr()[1].str()) else { continue };
            if let Some(k) = known.get(&(i as u64)) {
                again += 1;
                if k.to_string() != h {
                    differ += 1;
                }
            }
        }
    }
    // a few runs written out
    let mut samples = Vec::new();
    let id = p.id;
    for i in [0u64, runs / 3, runs - 1] {
        let s = big(move || {
            let p = find(id);
            let o = exec(&p, Tape::fresh(mix(base, i)), true);
            let mut v = vec![J::s(format!("run {i}, seed {:#x}, {} decisions", mix(base, i), o.tape.len()))];
            v.extend(o.ctx.trace.iter().flatten().map(|(k, v)| J::s(format!("{k}: {}", v.chars().take(700).collect::<String>()))));
            v
        });
        samples.push(J::Arr(s));
    }
    let det = J::obj(vec![
        ("runs_repeated_in_another_process", J::u(again)),
        ("that_differed_in_another_process", J::u(differ)),
    ]);
    let ev = evidence(p, seed, tier, t0, dir, 0, samples, det);
    println!("{ev}");
    println!("{}: held on everything explored", p.id);
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, seed: u64, tier: &str, t0: Instant, dir: &Path, violations: u64, samples: Vec<J>, det: J) -> String {
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut cases: HashSet<u64> = HashSet::new();
    let (mut runs, mut sim_ms, mut re, mut red) = (0u64, 0u64, 0u64, 0u64);
    for w in 0..WORKERS {
        let Some(r) = fs::read_to_string(dir.join(format!("w{w}.json"))).ok().and_then(|s| J::parse(&s).ok()) else { continue };
        let g = |k: &str| r.get(k).and_then(J::num).unwrap_or(0.0) as u64;
        runs += g("runs");
        sim_ms += g("sim_ms");
        re += g("rechecked");
        red += g("rediffer");
        if let Some(J::Obj(m)) = r.get("counters") {
            for (k, v) in m {
                *counters.entry(k.clone()).or_insert(0) += v.num().unwrap_or(0.0) as u64;
            }
        }
        for (n, s) in [("states", &mut states), ("cases", &mut cases)] {
            let b = fs::read(dir.join(format!("w{w}.{n}"))).unwrap_or_default();
            s.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_h = runs as f64 / wall.max(0.001) * 3600.0;
    let pick = |f: &dyn Fn(&str) -> bool| J::Obj(counters.iter().filter(|(k, _)| f(k)).map(|(k, v)| (k.trim_start_matches("fault: ").to_string(), J::u(*v))).collect());
    let cov = J::obj(vec![
        ("evaluations", J::u(runs)),
        ("distinct_nontrivial", J::u(cases.len() as u64)),
        ("rule", J::s(format!("one evaluation = one simulated run, all decisions drawn from one seed; non-trivial: {}", p.rule))),
        ("samples", J::Arr(samples)),
        ("seeds_per_hour", J::u(per_h as u64)),
        ("simulated_time_s", J::u(sim_ms / 1000)),
        ("faults_injected", pick(&|k| k.starts_with("fault: "))),
        ("reached", pick(&|k| !k.starts_with("fault: "))),
        ("distinct_states", J::u(states.len() as u64)),
        ("state_measure", J::s("hash of everything the consumer observed in a run (events, positions, end), or of the step of the component under test where the run is finer-grained")),
        ("real_components", J::s(p.real)),
        ("stub_components", J::s(p.stub)),
        ("runs_repeated_in_process", J::u(re)),
        ("runs_that_differed_in_process", J::u(red)),
        ("determinism", det),
    ]);
    let e = J::obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(tier)),
        ("seed", J::u(seed)),
        ("level", J::s("exploration")),
        ("coverage", cov),
        ("wall_s", J::n(wall)),
        ("violations", J::u(violations)),
        (
            "assumptions",
            J::Arr(vec![
                J::s("seeded search: schedules and faults are sampled, not enumerated"),
                J::s("streams are valid UTF-8 (what a transcoder passes on), at most 20000 bytes"),
                J::s(if p.id == "C17" { "yam-core is built with its `comment` feature, and without it in the process that gives the reference" } else { "yam-core is built without its `comment` feature (C17 is about that build)" }),
            ]),
        ),
    ]);
    let d = verif().join("evidence");
    let _ = fs::create_dir_all(&d);
    fs::write(d.join(format!("{}.json", p.id)), e.text()).unwrap();
    format!("{runs} runs in {wall:.1} s, {} distinct non-trivial, {} distinct states, {:.0} s simulated", cases.len(), states.len(), sim_ms as f64 / 1000.0)
}
