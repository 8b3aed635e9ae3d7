mod io;
mod scen;
mod sched;
use sched::*;
use std::collections::BTreeSet;
use std::io::Write as _;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const ID: &str = "C25";

fn config() -> shuttle::Config {
    let mut c = shuttle::Config::new();
    c.stack_size = 0x40000;
    c.failure_persistence = shuttle::FailurePersistence::None;
    c.max_steps = shuttle::MaxSteps::FailAfter(60_000);
    c.silence_warnings = true;
    c
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

thread_local! { static FIRST: std::cell::RefCell<Option<String>> = Default::default(); }

struct Found {
    what: String,
    choices: Vec<u8>,
}

/// runs one scenario under one scheduler on this thread
fn run(f: fn(), pb: Pb) -> Result<(), Found> {
    let cur = pb.cur.clone();
    FIRST.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        shuttle::Runner::new(pb, config()).run(f);
    }));
    match r {
        Ok(()) => Ok(()),
        Err(e) => {
            let m = FIRST.with(|p| p.borrow_mut().take()).unwrap_or_else(|| msg(e));
            let what: String = m.replace('\n', " ").chars().take(300).collect();
            Err(Found { what, choices: cur.lock().unwrap().0.clone() })
        }
    }
}

/// runs a scenario to its bound with `k` workers
fn explore(f: fn(), bound: usize, k: usize, deadline: Instant) -> (Stats, BTreeSet<String>, Option<Found>) {
    let hs: Vec<_> = (0..k)
        .map(|w| {
            std::thread::spawn(move || {
                let cur = Arc::new(Mutex::new((vec![], Stats::default())));
                let r = run(f, Pb::new(bound, w, k, deadline, cur.clone()));
                let st = cur.lock().unwrap_or_else(|e| e.into_inner()).1.clone();
                let o = scen::OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
                (st, o, r.err())
            })
        })
        .collect();
    let mut st = Stats { complete: true, ..Default::default() };
    let mut out = BTreeSet::new();
    let mut found: Option<Found> = None;
    for h in hs {
        let (s, o, f) = h.join().unwrap();
        st.execs += s.execs;
        st.steps += s.steps;
        st.max_steps = st.max_steps.max(s.max_steps);
        st.max_threads = st.max_threads.max(s.max_threads);
        st.complete &= s.complete || f.is_some();
        st.nondet += s.nondet;
        out.extend(o);
        if let Some(f) = f {
            let d = |f: &Found| f.choices.iter().filter(|c| **c > 0).count();
            if found.as_ref().map_or(true, |g| d(&f) < d(g)) {
                found = Some(f);
            }
        }
    }
    (st, out, found)
}

fn known(dir: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("KNOWN property={ID} sig=\"")))
        .filter_map(|l| l.split_once('"').map(|(a, b)| (a.to_string(), b.trim().to_string())))
        .collect()
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        FIRST.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                *p = Some(format!("{m} ({})", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()));
            }
        })
    }));
    let a: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&dir, a.get(3).map_or("quick", |s| s)),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let mut it = t.split_whitespace();
            let name = it.next().unwrap().to_string();
            let ch: Vec<usize> = it.map(|x| x.parse().unwrap()).collect();
            let s = scen::all().into_iter().find(|s| s.name == name).expect("scenario");
            let cur = Arc::new(Mutex::new((vec![], Stats::default())));
            match run(s.run, Pb::replay(ch, cur)) {
                Ok(()) => println!("replay of {name}: no violation"),
                Err(f) => {
                    println!("VIOLATION property={ID} replay={} {name}: {}", a[2], f.what);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: hmc-conc check C25 quick|thorough | replay FILE");
            std::process::exit(3);
        }
    }
}

fn check(dir: &str, tier: &str) {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let cap: u64 = std::env::var("HMC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 800 } else { 240 });
    let filter = std::env::var("HMC_FILTER").unwrap_or_default();
    let extra: usize = std::env::var("HMC_BT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let k = std::env::var("HMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let deadline = t0 + Duration::from_secs(cap);
    let (mut execs, mut steps, mut nondet, mut complete, mut maxs, mut maxt) = (0, 0, 0, true, 0, 0);
    let mut lines = vec![];
    let mut outs = 0;
    let mut viol = 0;
    let kn = known(dir);
    let _ = std::fs::create_dir_all(format!("{dir}/out"));
    let all: Vec<_> = scen::all().into_iter().filter(|s| s.name.contains(&filter)).collect();
    let top = 6;
    let mut done = vec![0usize; all.len()];
    // every scenario to bound 1 first, then deeper
    for b in 1..=top + extra {
        for (i, s) in all.iter().enumerate() {
            let want = if thorough { s.b.1 } else { s.b.0 } + extra;
            if b > want || (done[i] as isize) < b as isize - 1 || done[i] == usize::MAX {
                continue;
            }
            if Instant::now() > deadline {
                complete = false;
                continue;
            }
            let t1 = Instant::now();
            let (st, o, f) = explore(s.run, b, k, deadline);
            execs += st.execs;
            steps += st.steps;
            nondet += st.nondet;
            maxs = maxs.max(st.max_steps);
            maxt = maxt.max(st.max_threads);
            if std::env::var("HMC_V").is_ok() {
                eprintln!("{} b{b}: {} execs {} steps max {} {:.1}s complete={} nondet={} {:?} {}", s.name, st.execs, st.steps, st.max_steps, t1.elapsed().as_secs_f32(), st.complete, st.nondet, o, f.as_ref().map_or("", |f| &f.what));
            }
            if let Some(f) = f {
                done[i] = usize::MAX;
                let what = format!("{}: {}", s.name, f.what);
                if let Some((_, d)) = kn.iter().find(|(sig, _)| what.contains(sig.as_str())) {
                    println!("KNOWN-FINDING: property={ID} {d}");
                    continue;
                }
                let path = format!("{dir}/out/{ID}-{viol}.replay");
                let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
                let _ = std::fs::write(&path, format!("{} {}", s.name, ch.join(" ")));
                println!("VIOLATION property={ID} replay={path} {what}");
                viol += 1;
                continue;
            }
            if st.complete {
                done[i] = b;
                outs += o.len().max(1);
                if b == want {
                    lines.push(format!("\"{} (bound {b}): {} schedules\"", s.name, st.execs));
                }
            } else {
                complete = false;
            }
        }
    }
    let minb = all.iter().zip(&done).map(|(_, d)| *d).filter(|d| *d != usize::MAX).min().unwrap_or(0);
    let maxb = done.iter().copied().filter(|d| *d != usize::MAX).max().unwrap_or(0);
    let ev = format!(
        "{{\n \"property\": \"{ID}\",\n \"tier\": \"{tier}\",\n \"seed\": 0,\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {steps},\n  \"transitions\": {steps},\n  \"traces_validated_against_impl\": {execs},\n  \"schedules\": {execs},\n  \"scenarios\": {},\n  \"distinct_outcomes\": {outs},\n  \"deviation_bound_completed\": {minb},\n  \"deviation_bound_max\": {maxb},\n  \"max_choice_points\": {maxs},\n  \"max_runnable_threads\": {maxt},\n  \"nondeterministic_replays\": {nondet},\n  \"exhaustive\": {complete},\n  \"rule\": \"Each trace is one complete multi-threaded execution of the real hyper source (working tree; only the paths of the synchronization primitives are redirected) under a controlled scheduler with a scheduling point before every lock, atomic and channel operation; states counts scheduling decisions over all executions (no state is merged). All schedules with up to the stated number of deviations from run-until-blocked scheduling are executed, each once\",\n  \"samples\": [{}]\n }},\n \"violations\": {viol},\n \"assumptions\": [\"sequentially consistent memory\", \"operations of the channel and waker crates are atomic steps\"],\n \"wall_s\": {:.3}\n}}\n",
        all.len(),
        lines.join(", "),
        t0.elapsed().as_secs_f32()
    );
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{ID}.json"), ev);
    println!("{ID} {tier}: {} scenarios, {execs} schedules, {steps} steps, bound {minb}..{maxb}, complete={complete}, violations={viol}, {:.1}s", all.len(), t0.elapsed().as_secs_f32());
    let _ = std::io::stdout().flush();
    std::process::exit(if viol > 0 { 1 } else { 0 });
}
