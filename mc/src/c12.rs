//! C12: the header read timeout fires exactly for heads that are late.

use crate::core::*;
use crate::h1ref;
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;
use std::time::Duration;

#[derive(Clone, Debug)]
enum A {
    Send(&'static str),
    Gate(u32),
    Room(usize),
    Eof,
}
#[derive(Clone, Debug)]
struct S {
    acts: Vec<A>,
    behs: Vec<Beh>,
    /// None: switched off; Some(0): the default of 30 s; otherwise this many ms
    timeout: Option<u64>,
    wcap: Option<usize>,
    opts: u8,
    drive: u8,
    pol: IoPolicy,
    /// the gaps between the actions come from this list (in units of the timeout: num/den + offset)
    gaps: &'static [(u64, u64, i64)],
}
const GAPS: &[(u64, u64, i64)] = &[(0, 1, 0), (1, 1, -1), (1, 1, 0), (1, 2, 0), (3, 1, 1)];
const GAPS3: &[(u64, u64, i64)] = &[(0, 1, 0), (1, 1, -1), (1, 1, 0)];

fn run(ch: &Ch, x: &S) -> ExecResult {
    let tmo = match x.timeout {
        None => u64::MAX,
        Some(0) => 30_000,
        Some(n) => n,
    };
    let unit = if tmo == u64::MAX { 30_000 } else { tmo };
    let (set, opts) = (x.timeout, x.opts);
    let mut cfg = SrvCfg::new(x.behs.clone()).pol(x.pol).tweak(move |b, e| {
        b.timer(VTimer::new(e));
        match set {
            None => {
                b.header_read_timeout(None);
            }
            Some(0) => {}
            Some(n) => {
                b.header_read_timeout(Duration::from_millis(n));
            }
        }
        if opts & 1 != 0 {
            b.pipeline_flush(true);
        }
        if opts & 2 != 0 {
            b.half_close(true);
        }
    });
    cfg.upgrades = x.drive == 1;
    cfg.manual = x.drive == 2;
    let mut s = h1srv::start(ch, cfg);
    s.io.s.borrow_mut().wcap = x.wcap;
    // when hyper started to wait for a head (None: it does not)
    let mut wait: Option<u64> = Some(0);
    let mut script: Vec<(u64, String)> = vec![];
    let mut livelock = s.w.run() == RunEnd::StepLimit;
    let mut expect_timeout: Option<u64> = None;
    let mut calls_then = usize::MAX;
    let mut sent_eof = false;
    let total = x.acts.len();
    for k in 0..=total {
        let gap = if k < total {
            let (n, d, o) = x.gaps[ch.free(x.gaps.len(), "gap")];
            (unit * n / d).saturating_add_signed(o)
        } else {
            unit * 20
        };
        let until = s.env.now.get() + gap;
        // what the clock does meanwhile
        loop {
            if expect_timeout.is_none() && !sent_eof {
                if let Some(t) = wait {
                    if t.saturating_add(tmo) <= until {
                        expect_timeout = Some(t + tmo);
                        calls_then = s.recs.borrow().len();
                    }
                }
            }
            if !s.w.advance(until) {
                break;
            }
            livelock |= s.w.run() == RunEnd::StepLimit;
        }
        s.w.set_now(until);
        if expect_timeout.is_some() {
            break;
        }
        if k == total || s.result.borrow().is_some() {
            break;
        }
        script.push((until, format!("{:?}", x.acts[k])));
        match &x.acts[k] {
            A::Send(b) => s.io.push(b.as_bytes()),
            A::Gate(n) => s.env.open(*n),
            A::Room(n) => s.io.add_wcap(Some(*n)),
            A::Eof => {
                sent_eof = true;
                s.io.push_eof()
            }
        }
        livelock |= s.w.run() == RunEnd::StepLimit;
        let busy = {
            let st = s.io.s.borrow();
            let r = h1ref::responses(&st.out[..st.flushed], &s.methods(), false);
            r.msgs.len() < s.recs.borrow().len() || s.recs.borrow().iter().any(|r| r.got.borrow().end == End::Unfinished)
        };
        wait = match (busy, wait) {
            _ if s.result.borrow().is_some() => None,
            (true, _) => None,
            // the head came within the same instant in which the one before was done with
            (false, Some(t)) if s.recs.borrow().len() == calls_at(&script, &s) => Some(t),
            (false, _) => Some(until),
        };
        note_calls(&mut script, &s);
    }
    let now_calls = s.recs.borrow().len();
    let desc = || {
        format!(
            "{x:?}\nscript {script:?}\ntimeout expected at {expect_timeout:?}; finished at {} with {:?}; waiting since {wait:?}, now {}\nservice saw {}wire {:?}",
            s.done_at.get(),
            s.result.borrow(),
            s.env.now.get(),
            s.seen(),
            esc(&s.io.out())
        )
    };
    if livelock {
        return viol("livelock", desc());
    }
    let timed_out = matches!(s.result.borrow().as_ref(), Some(Err(e)) if e.timeout);
    match expect_timeout {
        Some(t) => {
            if !timed_out {
                return viol("late head is not ended by the timeout", desc());
            }
            if s.done_at.get() != t {
                return viol("timeout at the wrong time", desc());
            }
            if now_calls != calls_then {
                return viol("service called for a late head", desc());
            }
            if !s.io.s.borrow().dropped && !s.io.s.borrow().shut && x.drive != 2 {
                return viol("transport still open after the timeout", desc());
            }
        }
        None => {
            if timed_out {
                return viol("timeout although no head is late", desc());
            }
            if !sent_eof && x.opts & 4 == 0 && s.result.borrow().is_some() && tmo != u64::MAX {
                return viol("connection ended", desc());
            }
        }
    }
    Ok(mix(expect_timeout.unwrap_or(0), now_calls as u64))
}
/// The number of calls at the previous step is kept in the script's last marker entry.
fn calls_at(script: &[(u64, String)], _s: &h1srv::Srv) -> usize {
    script.iter().rev().find_map(|(_, l)| l.strip_prefix("calls ").and_then(|n| n.parse().ok())).unwrap_or(0)
}
fn note_calls(script: &mut Vec<(u64, String)>, s: &h1srv::Srv) {
    let t = s.env.now.get();
    script.push((t, format!("calls {}", s.recs.borrow().len())));
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let b = |r: RespSpec| Beh::simple("").resp(r);
    let gate = |n: u32| BStep::Gate(n);
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let body = |steps: Vec<BStep>| RespSpec { body: BodySpec { steps, hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") };
    let plain = IO_PLAIN;
    let io = IoPolicy { read: Cuts::Few, ..IO_ALL };
    let mut defs: Vec<(&str, Vec<A>, Vec<Beh>, Option<usize>)> = vec![
        ("drip", vec![A::Send("GET /"), A::Send("1 HTTP/1.1\r\n"), A::Send("Host: h\r\n"), A::Send("\r\n"), A::Send("GET /2")], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("first-crlf", vec![A::Send("\r\n"), A::Send("\r\nGET /1 HTTP/1.1\r\n\r"), A::Send("\n"), A::Send("\r\n"), A::Send("GET /2 HTTP/1.1\r\n\r\n")], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("two", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Send("GET /2 HT"), A::Send("TP/1.1\r\n\r\n"), A::Send("GET /3 HTTP/1.1\r\n"), A::Send("\r\n")], vec![Beh::simple("one"), Beh::simple("two"), Beh::simple("three")], None),
        ("slow-body", vec![A::Send("POST /1 HTTP/1.1\r\nContent-Length: 4\r\n\r\n"), A::Send("ab"), A::Send("cd"), A::Send("GET /2 HTTP/1.1\r\n"), A::Send("\r\n")], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("slow-chunked", vec![A::Send("POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"), A::Send("2\r\nab\r\n"), A::Send("0\r\n"), A::Send("\r\nGET /2 HTTP/1.1\r\n"), A::Send("\r\n")], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("slow-body-responded", vec![A::Send("POST /1 HTTP/1.1\r\nContent-Length: 4\r\n\r\n"), A::Send("ab"), A::Send("cd"), A::Send("GET /2 HTTP/1.1\r\n"), A::Send("\r\n")], vec![Beh::simple("one").consume(Consume::Spawned), Beh::simple("two")], None),
        ("expect", vec![A::Send("POST /1 HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 4\r\n\r\n"), A::Send("ab"), A::Send("cd"), A::Send("GET /2 HTTP/1.1\r\n\r\n")], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("slow-service", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Gate(1), A::Gate(2), A::Send("GET /2 HTTP/1.1\r\n"), A::Send("\r\n")], vec![b(body(vec![gate(1), d("ab"), gate(2), d("cd")])), Beh::simple("two")], None),
        ("pipelined-partial", vec![A::Send("GET /1 HTTP/1.1\r\n\r\nGET /2 HT"), A::Gate(1), A::Gate(2), A::Send("TP/1.1\r\n"), A::Send("\r\n")], vec![b(body(vec![gate(1), d("ab"), gate(2), d("cd")])), Beh::simple("two")], None),
        ("partial-later", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Gate(1), A::Send("GET /2 HT"), A::Gate(2), A::Send("TP/1.1\r\n\r\n")], vec![b(body(vec![gate(1), d("ab"), gate(2), d("cd")])), Beh::simple("two")], None),
        ("slow-write", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Room(30), A::Room(1000), A::Send("GET /2 HTTP/1.1\r\n"), A::Send("\r\n")], vec![Beh::simple("one"), Beh::simple("two")], Some(7)),
        ("eof", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Send("GET /2"), A::Eof], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("idle-eof", vec![A::Send("GET /1 HTTP/1.1\r\n\r\n"), A::Eof], vec![Beh::simple("one"), Beh::simple("two")], None),
        ("close", vec![A::Send("GET /1 HTTP/1.1\r\nConnection: close\r\n\r\n"), A::Gate(1)], vec![b(body(vec![gate(1), d("ab")]))], None),
    ];
    // a service that answers only after its gate: the response body is late, and so is the head
    let late = |n: u32| Beh::simple("").resp(body(vec![gate(n), d("x")]));
    defs.push(("two-slow", vec![A::Send("GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\nGET"), A::Gate(1), A::Gate(2), A::Send(" /3 HTTP/1.1\r\n"), A::Send("\r\n")], vec![late(1), late(2), Beh::simple("three")], None));
    for (n, acts, behs, wcap) in defs {
        let closing = n == "close";
        for (tn, t) in [("1s", Some(1000u64)), ("default", Some(0)), ("off", None)] {
            for opts in 0..4u8 {
                for drive in 0..3u8 {
                    if (opts, drive) != (0, 0) && tn != "1s" || opts != 0 && drive != 0 {
                        continue;
                    }
                    // half-close changes what an end of stream means; only its timing is of interest here
                    let x = S { acts: acts.clone(), behs: behs.clone(), timeout: t, wcap, opts: opts | (closing as u8) << 2, drive, pol: plain, gaps: GAPS };
                    sc.push(scenario(format!("{n}/{tn}/{opts}/{drive}"), tier.pick(1, 2), move |ch| run(ch, &x)));
                }
            }
        }
        let x = S { acts, behs, timeout: Some(1000), wcap, opts: (closing as u8) << 2, drive: 0, pol: io, gaps: GAPS3 };
        sc.push(scenario(format!("{n}/io"), tier.pick(2, 3), move |ch| run(ch, &x)));
    }
    Check {
        id: "C12",
        scenarios: sc,
        rule: "Every assignment of gaps {0, T/2, T-1, T, 3T+1} (T: the timeout) between the scripted steps of peer, service and transport on a virtual clock, times every schedule and transport answer within the bound; a model of when hyper waits for a head predicts for each execution whether and at which instant the connection has to end.".into(),
        assumptions: vec!["timers are as good as hyper::rt::Timer's documentation says; work that is ready is done before the clock moves on".into()],
    }
}
