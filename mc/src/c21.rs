//! C21: HTTP/2 keep-alive kills exactly the connections that stopped answering.
//!
//! A virtual clock, and a raw peer whose liveness (answers to pings, data, silence) is enumerated.

use crate::c18::{b, d, req, resp, Win};
use crate::core::*;
use crate::h1cli::{Call, Outcome, Take};
use crate::h1srv::{Beh, Consume, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use hyper::rt::Timer;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
struct Ka {
    interval: Option<u64>,
    timeout: u64,
    idle: bool,
    adaptive: bool,
}
fn ctw(k: Ka) -> CTweak {
    ct(move |b, e| {
        b.timer(VTimer::new(e));
        b.keep_alive_interval(k.interval.map(Duration::from_millis));
        b.keep_alive_timeout(Duration::from_millis(k.timeout));
        b.keep_alive_while_idle(k.idle);
        b.adaptive_window(k.adaptive);
    })
}
fn stw(k: Ka) -> STweak {
    st(move |b, e| {
        b.timer(VTimer::new(e));
        b.keep_alive_interval(k.interval.map(Duration::from_millis));
        b.keep_alive_timeout(Duration::from_millis(k.timeout));
        b.adaptive_window(k.adaptive);
    })
}
async fn until(env: &E, t: u64) {
    if t > env.now.get() {
        VTimer::new(env).sleep(Duration::from_millis(t - env.now.get())).await;
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans {
    Now,
    /// just in time
    Late,
    /// silent from this ping on
    Never,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sit {
    Idle,
    /// a request whose answer does not come
    Waiting,
    /// an answer being read
    Reading,
    /// the answer is there, the request body still goes on
    Uploading,
    /// as Reading, the last sender is gone
    SenderGone,
    /// as Waiting, the last sender is gone
    SenderGoneWaiting,
    /// an open tunnel
    Tunnel,
    /// two answers being read
    Two,
    /// all over: one exchange complete, nothing since
    Over,
    /// given up by the caller while the request body was being sent
    Cancelled,
}
impl Sit {
    fn idle(self) -> bool {
        matches!(self, Sit::Idle | Sit::Over | Sit::Cancelled)
    }
}
const GATE: u32 = 55;
#[derive(Default)]
struct Track {
    /// times of pings received
    pings: Vec<u64>,
    /// times of signs of life sent
    life: Vec<u64>,
    answered: usize,
}
struct Script {
    ka: Ka,
    sit: Sit,
    answers: Vec<Ans>,
    /// times at which a data frame is sent
    data: Vec<u64>,
    horizon: u64,
    /// the transport takes nothing more from this time on
    blocked: Option<u64>,
}
/// The peer's side of the pings.
fn liveness(h: &mut H2, p: &Peer, s: &Rc<Script>, tr: &Rc<RefCell<Track>>) {
    let (p2, s2, t2) = (p.clone(), s.clone(), tr.clone());
    h.w.add("peer-pings", async move {
        for k in 0.. {
            let x = p2.wait(move |r| r.pings.get(k).copied()).await;
            let now = p2.env.now.get();
            t2.borrow_mut().pings.push(now);
            match s2.answers.get(k).copied().unwrap_or(*s2.answers.last().unwrap_or(&Ans::Now)) {
                Ans::Now => {}
                Ans::Late => until(&p2.env, now + s2.ka.timeout - 1).await,
                Ans::Never => return,
            }
            t2.borrow_mut().life.push(p2.env.now.get());
            t2.borrow_mut().answered += 1;
            p2.send(&r2::ping(true, x));
        }
    });
    if let Some(t) = s.blocked {
        let (io, e) = (p.io.clone(), p.env.clone());
        h.w.add("transport", async move {
            until(&e, t).await;
            io.s.borrow_mut().wcap = Some(0);
        });
    }
}
fn clock(h: &mut H2, horizon: u64) {
    loop {
        h.w.run();
        if !h.w.advance(horizon) {
            break;
        }
    }
    h.w.set_now(horizon);
    h.w.run();
}
/// `res`: how and when the connection ended.
fn judge(h: &H2, s: &Script, tr: &Track, active: bool, start: u64, ended: Option<u64>, timed_out: bool, what: &str) -> Result<bool, Viol> {
    let show = || format!("{:?} {:?} answers {:?} data {:?} pings at {:?} life at {:?} ended {ended:?}\n{}", s.ka, s.sit, s.answers, s.data, tr.pings, tr.life, h.summary());
    let Some(i) = s.ka.interval else {
        if !s.ka.adaptive && !tr.pings.is_empty() {
            return viol(format!("the {what} sent a ping although none is configured"), show());
        }
        if ended.is_some() {
            return viol(format!("the {what} ended a connection without keep-alive"), show());
        }
        return Ok(false);
    };
    if !active && !s.ka.idle && what == "client" {
        // the adaptive window's pings go with data, which is at the start
        if tr.pings.iter().any(|t| !s.ka.adaptive || *t > 0) {
            return viol("the client pinged an idle connection".to_string(), show());
        }
        if ended.is_some() {
            return viol("the client ended an idle connection".to_string(), show());
        }
        return Ok(false);
    }
    // the first ping that was not answered in time
    let dead = tr.pings.get(tr.answered).copied();
    let last = tr.life.iter().copied().max().unwrap_or(start).max(start);
    match ended {
        Some(t) => {
            let ok = match dead {
                Some(p) => t >= p + s.ka.timeout,
                // a ping that could not even be sent
                None => s.blocked.is_some(),
            };
            if !ok {
                return viol(format!("the {what}'s keep-alive ended a connection whose peer answers"), show());
            }
            if t > last.max(dead.unwrap_or(0).min(last + i)) + i + s.ka.timeout {
                return viol(format!("the {what}'s keep-alive ended a silent connection too late"), show());
            }
            if !timed_out {
                return viol(format!("the {what}'s keep-alive ended a connection without a timeout error"), show());
            }
            Ok(true)
        }
        None => {
            if s.horizon > last + i + s.ka.timeout {
                return viol(format!("the {what}'s keep-alive does not end a silent connection"), show());
            }
            Ok(false)
        }
    }
}
fn client(ch: &Ch, s: Script) -> ExecResult {
    let s = Rc::new(s);
    let mut h = H2::new(ch, IO_FEW);
    h.w.max_steps = 20_000;
    h.client(ctw(s.ka));
    let p = h.raw_server();
    h.auto(&p, 0);
    p.send(&r2::settings(&[]));
    h.w.run();
    let tr: Rc<RefCell<Track>> = Default::default();
    let calls: Vec<Call> = match s.sit {
        Sit::Idle => vec![],
        Sit::Waiting | Sit::SenderGoneWaiting => vec![req(0, BodySpec::empty())],
        Sit::Reading | Sit::SenderGone => vec![req(0, BodySpec::empty())],
        Sit::Uploading => vec![req(0, b(vec![d("ab"), BStep::Gate(GATE), d("cd")], Hint::Unknown, false))],
        Sit::Tunnel => {
            let mut c = Call { method: "CONNECT", ..req(0, BodySpec::empty()) };
            c.uri = "h:80".into();
            c.take = Take::Drop;
            vec![c.upgrade()]
        }
        Sit::Over => vec![req(0, b(vec![d("ab"), d("cd")], Hint::Unknown, false))],
        Sit::Cancelled => vec![req(0, b(vec![d("ab"), BStep::Gate(GATE), d("cd")], Hint::Unknown, false)).cancel()],
        Sit::Two => vec![req(0, BodySpec::empty()), req(1, BodySpec::empty())],
    };
    let n = calls.len();
    if s.sit == Sit::Tunnel {
        h.on_up_c = Some(Rc::new(|on| {
            Box::pin(async move {
                if let Ok(u) = on.await {
                    let _u = u;
                    std::future::pending::<()>().await;
                }
            })
        }));
    }
    for c in calls {
        h.caller(c);
    }
    let alive = Rc::new(Cell::new(true));
    for k in 0..n {
        let (p2, s2, t2) = (p.clone(), s.clone(), tr.clone());
        let alive = alive.clone();
        h.w.add(format!("peer-{k}"), async move {
            let id = 2 * k as u32 + 1;
            p2.until(move |r| !r.get(id).heads.is_empty()).await;
            if matches!(s2.sit, Sit::Waiting | Sit::SenderGoneWaiting | Sit::Cancelled) {
                return;
            }
            p2.send(&r2::ok(id, &[], s2.sit == Sit::Uploading));
            t2.borrow_mut().life.push(p2.env.now.get());
            if s2.sit == Sit::Uploading || k > 0 {
                return;
            }
            if s2.sit == Sit::Over {
                p2.send(&r2::data(id, b"x", true));
                return;
            }
            for t in &s2.data {
                until(&p2.env, *t).await;
                if !alive.get() {
                    return;
                }
                t2.borrow_mut().life.push(p2.env.now.get());
                p2.send(&r2::data(id, b"x", false));
            }
        });
    }
    liveness(&mut h, &p, &s, &tr);
    h.w.run();
    if matches!(s.sit, Sit::SenderGone | Sit::SenderGoneWaiting) {
        h.drop_sender();
    }
    clock(&mut h, s.horizon);
    alive.set(false);
    h.sync_client();
    h.contract()?;
    let gone = matches!(s.sit, Sit::SenderGone | Sit::SenderGoneWaiting);
    let res = h.cres.borrow().clone();
    // with the sender gone the dispatch is over already; the transport tells
    let dropped = h.cio.s.borrow().dropped;
    let at = h.cio.s.borrow().dropped_at;
    let (ended, tout) = if gone {
        (dropped.then_some(at), true)
    } else {
        match &res {
            None => (None, false),
            Some(r) => (Some(h.cdone_at.get()), r.as_ref().err().is_some_and(|e| e.timeout)),
        }
    };
    let active = !s.sit.idle();
    let dead = judge(&h, &s, &tr.borrow(), active, 0, ended, tout, "client")?;
    for (i, q) in h.calls.borrow().iter().enumerate() {
        let g = q.got.borrow();
        let pending = q.outcome == Outcome::Pending || matches!(s.sit, Sit::Reading | Sit::SenderGone | Sit::Two) && g.end == End::Unfinished;
        if dead && pending {
            return viol("a request hangs on a connection that keep-alive ended", format!("call {i}\n{}", h.summary()));
        }
        if dead && g.end == End::Clean && !matches!(s.sit, Sit::Uploading | Sit::Tunnel | Sit::Over) {
            return viol("a response cut off by keep-alive looks complete", h.summary());
        }
        if !dead && (matches!(q.outcome, Outcome::Failed(..)) || matches!(g.end, End::Error(_))) {
            return viol("a request failed on a connection that is alive", format!("call {i}\n{}", h.summary()));
        }
        if dead && matches!(s.sit, Sit::Waiting | Sit::SenderGoneWaiting) {
            if let Outcome::Failed(e, _) = &q.outcome {
                if !e.timeout {
                    return viol("a request ended by keep-alive does not fail with a timeout error", format!("{e:?}\n{}", h.summary()));
                }
            }
        }
    }
    if dead {
        if !h.calls.borrow().iter().all(|q| q.body_stat.borrow().dropped) {
            return viol("a request body is held after keep-alive ended its connection", h.summary());
        }
        let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-")).collect();
        if !left.is_empty() {
            return viol(format!("left running after keep-alive ended the connection: {}", left.join(",")), h.summary());
        }
    }
    let n = tr.borrow().pings.len() as u64;
    Ok(mix(h.fp(), n))
}
fn server(ch: &Ch, s: Script) -> ExecResult {
    let s = Rc::new(s);
    let mut h = H2::new(ch, IO_FEW);
    h.w.max_steps = 20_000;
    let be = match s.sit {
        Sit::Waiting => resp(0, BodySpec::empty()).consume(Consume::Ignore).stuck(),
        Sit::Reading => resp(0, BodySpec::empty()),
        _ => resp(0, b(vec![d("ab"), BStep::Gate(GATE), d("cd")], Hint::Unknown, false)).consume(Consume::Spawned),
    };
    h.server(stw(s.ka), SrvCfg::new(vec![be]));
    let p = h.raw_client();
    h.auto(&p, 0);
    let tr: Rc<RefCell<Track>> = Default::default();
    let mut x = r2::PREFACE.to_vec();
    x.extend(r2::settings(&[]));
    if s.sit != Sit::Idle {
        x.extend(r2::headers(1, &[(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", "/p/0")], false));
    }
    p.send(&x);
    let (p2, s2, t2) = (p.clone(), s.clone(), tr.clone());
    let alive = Rc::new(Cell::new(true));
    let a2 = alive.clone();
    // data nobody reads is no sign of life to the connection, and must not be one to the bound
    let read = matches!(s.sit, Sit::Reading | Sit::Uploading);
    h.w.add("peer-data", async move {
        for t in &s2.data {
            until(&p2.env, *t).await;
            if !a2.get() {
                return;
            }
            if read {
                t2.borrow_mut().life.push(p2.env.now.get());
            }
            p2.send(&r2::data(1, b"x", false));
        }
    });
    liveness(&mut h, &p, &s, &tr);
    clock(&mut h, s.horizon);
    alive.set(false);
    h.sync_server();
    h.contract()?;
    let res = h.sres.borrow().clone();
    let (ended, tout) = match &res {
        None => (None, false),
        Some(r) => (Some(h.sdone_at.get()), r.as_ref().err().is_some_and(|e| e.timeout)),
    };
    let dead = judge(&h, &s, &tr.borrow(), true, 0, ended, tout, "server")?;
    if dead {
        for r in h.reqs.borrow().iter() {
            if !r.gone.get() {
                return viol("a service call keeps running after keep-alive ended its connection", h.summary());
            }
            if r.responded && !r.resp_stat.borrow().dropped {
                return viol("a response body is held after keep-alive ended its connection", h.summary());
            }
            if r.got.borrow().end == End::Unfinished && read {
                return viol("the reader of a request body hangs after keep-alive ended its connection", h.summary());
            }
            if r.got.borrow().end == End::Clean {
                return viol("a request cut off by keep-alive looks complete", h.summary());
            }
        }
        let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("s-")).collect();
        if !left.is_empty() {
            return viol(format!("left running after keep-alive ended the connection: {}", left.join(",")), h.summary());
        }
    } else if h.reqs.borrow().iter().any(|r| r.gone.get() && matches!(s.sit, Sit::Waiting | Sit::Reading) || matches!(r.got.borrow().end, End::Error(_))) {
        return viol("a request failed on a connection that is alive", h.summary());
    }
    let n = tr.borrow().pings.len() as u64;
    Ok(mix(h.fp(), n))
}
/// Both ends are hyper and ping each other: nothing is ever ended.
fn pair(ch: &Ch, c: Ka, sv: Ka, behs: Vec<Beh>, calls: Vec<Call>) -> ExecResult {
    let mut h = H2::pair(ch, IO_FEW, ctw(c), stw(sv), behs.clone());
    h.w.max_steps = 20_000;
    let n = calls.len();
    for (k, c) in calls.into_iter().enumerate() {
        // spread over the clock
        let e = h.env.clone();
        h.w.add("starter", async move {
            until(&e, 7000 * k as u64).await;
            e.open(100 + k as u32);
        });
        h.caller(c);
    }
    let e = h.env.clone();
    h.w.add("opener", async move {
        until(&e, 33_000).await;
        e.open(GATE);
    });
    clock(&mut h, 60_000);
    h.sync();
    h.contract()?;
    for i in 0..n {
        let q = h.calls.borrow();
        let g = q[i].got.borrow();
        if q[i].outcome != Outcome::Resp || g.end != End::Clean || g.data != behs[i].resp.body.data() {
            return viol("keep-alive between answering ends disturbed an exchange", format!("call {i}\n{}", h.summary()));
        }
    }
    if h.cres.borrow().is_some() || h.sres.borrow().is_some() {
        return viol("keep-alive ended a connection whose peer answers", h.summary());
    }
    if c.idle && c.interval.is_some() && h.cw.borrow().pings.len() < 3 || sv.interval.is_some() && h.sw.borrow().pings.len() < 2 && !c.idle {
        return viol("no pings were sent", h.summary());
    }
    h.drop_sender();
    h.w.run();
    h.sync();
    if *h.cres.borrow() != Some(Ok(())) || *h.sres.borrow() != Some(Ok(())) {
        return viol("the connection does not end well", h.summary());
    }
    Ok(h.fp())
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let bound = t.pick(1, 2);
    let horizon = 60_000;
    let mut cfgs = vec![];
    for (interval, timeout) in [(Some(10_000), 4000), (Some(10_000), 10_000), (Some(10_000), 17_000), (Some(1), 1), (None, 4000)] {
        for idle in [false, true] {
            for adaptive in [false, true] {
                cfgs.push(Ka { interval, timeout, idle, adaptive });
            }
        }
    }
    let times: [&[u64]; 7] = [&[], &[3001], &[9001], &[9999, 11_003], &[11_001], &[5001, 12_003, 19_007, 26_009, 33_011], &[10_001, 10_002, 40_003]];
    let answers: [&[Ans]; 8] = [
        &[Ans::Now],
        &[Ans::Late],
        &[Ans::Never],
        &[Ans::Now, Ans::Never],
        &[Ans::Late, Ans::Never],
        &[Ans::Now, Ans::Late, Ans::Now],
        &[Ans::Late, Ans::Late, Ans::Never],
        &[Ans::Now, Ans::Now, Ans::Never],
    ];
    for k in &cfgs {
        let k = *k;
        let short = k.interval == Some(1);
        for role in ["client", "server"] {
            if role == "server" && k.idle {
                continue;
            }
            let sits: &[Sit] = if role == "client" {
                &[Sit::Idle, Sit::Waiting, Sit::Reading, Sit::Uploading, Sit::SenderGone, Sit::SenderGoneWaiting, Sit::Tunnel, Sit::Two, Sit::Over, Sit::Cancelled]
            } else {
                &[Sit::Idle, Sit::Waiting, Sit::Reading, Sit::Uploading]
            };
            for sit in sits {
                let sit = *sit;
                let nd = if matches!(sit, Sit::Reading | Sit::SenderGone | Sit::Two) || role == "server" && sit != Sit::Idle { times.len() } else { 1 };
                let nd = if short { 1 } else { nd };
                // bursts of pings are many steps: no horizon needed there
                let hz = if short { 60 } else { horizon };
                let n = format!("{role}/{sit:?}/{:?}-{}{}{}", k.interval, k.timeout, if k.idle { "/idle" } else { "" }, if k.adaptive { "/adaptive" } else { "" });
                let bd = if short { 0 } else { bound };
                sc.push(scenario(n.clone(), bd, move |ch| {
                    let s = Script { ka: k, sit, answers: answers[if k.interval.is_some() { ch.free(answers.len(), "answers") } else { 0 }].to_vec(), data: times[ch.free(nd, "data")].to_vec(), horizon: hz, blocked: None };
                    if role == "client" {
                        client(ch, s)
                    } else {
                        server(ch, s)
                    }
                }));
                if k.interval.is_some() && !short {
                    // the peer's side of the transport is stuck
                    for at in [1001, 10_500] {
                        sc.push(scenario(format!("{n}/blocked-{at}"), bd, move |ch| {
                            let s = Script { ka: k, sit, answers: vec![Ans::Now], data: vec![], horizon, blocked: Some(at) };
                            if role == "client" {
                                client(ch, s)
                            } else {
                                server(ch, s)
                            }
                        }));
                    }
                }
            }
        }
    }
    let on = Ka { interval: Some(10_000), timeout: 4000, idle: true, adaptive: false };
    for (n, c, s) in [
        ("both", on, on),
        ("client", on, Ka { interval: None, ..on }),
        ("server", Ka { interval: None, ..on }, on),
        ("adaptive", Ka { adaptive: true, ..on }, Ka { adaptive: true, ..on }),
        ("not-idle", Ka { idle: false, ..on }, on),
    ] {
        let behs = vec![resp(0, b(vec![d("a"), BStep::Gate(GATE), d("b")], Hint::Unknown, false)), resp(1, BodySpec::full(b"xyz"))];
        let calls = vec![req(0, BodySpec::empty()), req(1, b(vec![d("q"), BStep::Gate(101), d("r")], Hint::Unknown, false))];
        sc.push(scenario(format!("pair/{n}"), bound, move |ch| pair(ch, c, s, behs.clone(), calls.clone())));
    }
    let _ = Win::default();
    Check {
        id: "C21",
        scenarios: sc,
        rule: "a virtual clock up to a horizon of several intervals; a raw peer with every pattern of timely, late and missing ping answers, data at several sets of times, or a transport that takes nothing more; every interval/timeout/while-idle/adaptive configuration, both roles, idle and busy in seven ways; every schedule within the deviation bound; both ends hyper as well".into(),
        assumptions: vec!["time passes only while nothing can run".into(), "h2 0.4 as vendored".into(), "keep-alive begins once the HTTP/2 preface was exchanged".into()],
    }
}
