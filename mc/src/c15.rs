//! C15: dropping any piece at any time leaves everyone else with a definite answer.

use crate::core::*;
use crate::h1cli::{self, call, Act, Call, CliCfg, Do, Outcome, Take, Trig};
use crate::h1ref::{self, Tail};
use crate::h1srv::{self, Beh, Consume, OnUp, RespSpec, SrvCfg};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

type UpLog = Rc<RefCell<Vec<Option<bool>>>>;
/// Awaits the upgrade future unless an event drops it (None); then uses the stream a little and drops it.
fn on_up(env: &E) -> (OnUp, UpLog) {
    let log: UpLog = Default::default();
    let (l2, env) = (log.clone(), env.clone());
    let f: OnUp = Rc::new(move |on| {
        let (log, env) = (l2.clone(), env.clone());
        Box::pin(async move {
            let r = or_dropped(&env, "upgrade future dropped", Box::pin(on)).await;
            log.borrow_mut().push(r.as_ref().map(|r| r.is_ok()));
            if let Some(Ok(up)) = r {
                let hold = Box::pin(async move {
                    let _u = up;
                    std::future::pending::<()>().await
                });
                let e2 = env.clone();
                env.spawn("holder", async move {
                    or_dropped(&e2, "upgraded stream dropped", hold).await;
                });
            }
        })
    });
    (f, log)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Get,
    /// body complete in the same packet
    Small,
    /// body in three packets
    Large,
    Chunked,
    Upgrade,
}
fn body_of(i: usize, k: K) -> Vec<u8> {
    match k {
        K::Get | K::Upgrade => vec![],
        K::Small => format!("s{i}").into_bytes(),
        K::Large | K::Chunked => (0..30).map(|j| b'a' + ((i * 7 + j) % 26) as u8).collect(),
    }
}
/// packets of a request
fn packets(i: usize, k: K) -> Vec<Vec<u8>> {
    let b = body_of(i, k);
    let h = |x: String| format!("{} /{i} HTTP/1.1\r\n{x}\r\n", if b.is_empty() { "GET" } else { "POST" }).into_bytes();
    match k {
        K::Get => vec![h(String::new())],
        K::Upgrade => vec![h("Connection: upgrade\r\nUpgrade: foo\r\n".into())],
        K::Small => vec![[h(format!("Content-Length: {}\r\n", b.len())), b].concat()],
        K::Large => vec![[h(format!("Content-Length: {}\r\n", b.len())), b[..5].to_vec()].concat(), b[5..20].to_vec(), b[20..].to_vec()],
        K::Chunked => {
            let c = |p: &[u8]| [format!("{:x}\r\n", p.len()).into_bytes(), p.to_vec(), b"\r\n".to_vec()].concat();
            vec![[h("Transfer-Encoding: chunked\r\nTrailer: t\r\n".into()), c(&b[..5])].concat(), [c(&b[5..20]), c(&b[20..])].concat(), b"0\r\nt: v\r\n\r\n".to_vec()]
        }
    }
}
#[derive(Clone, Debug)]
struct Sv {
    qs: Vec<(K, Beh)>,
    /// one packet each, or everything at once
    glued: bool,
    kill: bool,
    eof: bool,
    pol: IoPolicy,
    half_close: bool,
}
fn resp_text(i: usize) -> String {
    format!("answer{i}")
}
fn server(ch: &Ch, x: &Sv) -> ExecResult {
    let hc = x.half_close;
    let behs: Vec<Beh> = x.qs.iter().map(|q| q.1.clone()).collect();
    let mut cfg = SrvCfg::new(behs).pol(x.pol).tweak(move |b, _| {
        b.half_close(hc);
    });
    cfg.upgrades = true;
    // the environment only exists once the server is started
    let slot: Rc<RefCell<Option<OnUp>>> = Default::default();
    let s2 = slot.clone();
    cfg.on_up = Some(Rc::new(move |on| (s2.borrow().as_ref().unwrap())(on)));
    let mut s = h1srv::start(ch, cfg);
    let (f, uplog) = on_up(&s.env);
    *slot.borrow_mut() = Some(f);
    let mut all: Vec<Vec<u8>> = x.qs.iter().enumerate().flat_map(|(i, q)| packets(i, q.0)).collect();
    if x.glued {
        all = vec![all.concat()];
    }
    let mut acts: Vec<Act> = all.into_iter().map(|p| Act(Trig::Now, Do::Send(p))).collect();
    if x.eof {
        acts.push(Act(Trig::Now, Do::Eof));
    }
    h1cli::peer(&s.env, &s.io, acts);
    if x.kill {
        s.ctl.arm_kill(&s.env);
    }
    let mut livelock = s.w.run() == RunEnd::StepLimit;
    s.io.push_eof();
    livelock |= s.w.run() == RunEnd::StepLimit;
    let killed_early = s.ctl.0.killed.get();
    let ended = s.result.borrow().clone();
    let open_before = s.w.unfinished();
    s.ctl.kill();
    livelock |= s.w.run() == RunEnd::StepLimit;
    let st = s.responses();
    let recs = s.recs.borrow();
    let desc = || format!("{x:?}\nkilled early {killed_early}, ended {ended:?}, open at that point {open_before:?}, at the end {:?}, upgrade futures {:?}\nservice saw\n{}wire {:?}", s.w.unfinished(), uplog.borrow(), s.seen(), esc(&s.io.out()));
    if livelock {
        return viol("livelock", desc());
    }
    if let Some(b) = s.contract_violation() {
        return viol("body contract", format!("{b}\n{}", desc()));
    }
    // once the connection is gone nobody waits any more
    if s.w.unfinished().iter().any(|t| t != "holder") {
        return viol("something still waits for a connection that is gone", desc());
    }
    let mut h = 0u64;
    for (i, r) in recs.iter().enumerate() {
        let (k, _) = x.qs[i];
        let b = body_of(i, k);
        if r.uri != format!("/{i}") || r.method != if b.is_empty() { "GET" } else { "POST" } {
            return viol("a request got mixed up", desc());
        }
        let g = r.got.borrow();
        if !b.starts_with(&g.data) {
            return viol("request body corrupted", desc());
        }
        if g.end == End::Clean && g.data != b {
            return viol("incomplete request body presented as complete", desc());
        }
        if r.responded && !r.resp_stat.borrow().dropped {
            return viol("response body kept although the connection is gone", desc());
        }
        h = h * 4 + match g.end {
            End::Clean => 0,
            End::Error(_) => 1,
            End::Stopped => 2,
            End::Unfinished => 3,
        };
    }
    if let Tail::Bad(e) = &st.tail {
        return viol("output is not a sequence of responses", format!("{e}\n{}", desc()));
    }
    if st.msgs.len() > recs.len() {
        return viol("more responses than requests", desc());
    }
    let mut upgraded = false;
    for (i, (_, m)) in st.msgs.iter().enumerate() {
        if m.a == "101" {
            upgraded = true;
            break;
        }
        if m.body != resp_text(i).as_bytes() {
            return viol("response of another request", desc());
        }
    }
    if !killed_early && !upgraded {
        // whoever was called was answered completely; then the connection went on or closed
        // (without half_close the end of the stream means that the peer is gone)
        if st.tail != Tail::Clean && !(x.eof && !x.half_close) {
            return viol("response cut off", format!("{:?}\n{}", st.tail, desc()));
        }
        if ended.is_none() {
            return viol("connection neither continues nor closes", desc());
        }
        // only a consumer that was dropped may cost a later request
        let gave_up = recs.iter().zip(&x.qs).any(|(r, q)| r.got.borrow().end == End::Stopped && !body_of(0, q.0).is_empty());
        // ... or a body nobody asks for
        if !gave_up && recs.len() != x.qs.len() && !x.eof {
            return viol("a later request is lost", desc());
        }
        let answered = st.msgs.len();
        let called_ok = recs.iter().filter(|r| r.responded).count();
        if answered != called_ok && !x.eof {
            return viol("a response is lost", desc());
        }
    }
    // every upgrade future was resolved (or dropped): its task is gone, checked above
    Ok(mix(h, st.msgs.len() as u64 * 8 + killed_early as u64 * 4 + ended.is_some() as u64))
}

#[derive(Clone, Debug)]
struct Cl {
    calls: Vec<Call>,
    /// answers: 0 content-length, 1 chunked in three packets, 2 close-delimited, 3 101, 4 content-length in two packets, 5 early (at the head)
    answers: Vec<u8>,
    kill: bool,
    drop_tx: bool,
    pol: IoPolicy,
}
fn ans(i: usize, kind: u8) -> Vec<Vec<u8>> {
    let b: Vec<u8> = (0..30).map(|j| b'A' + ((i * 7 + j) % 26) as u8).collect();
    let cl = format!("HTTP/1.1 200 OK\r\nx-for: {i}\r\nContent-Length: 30\r\n\r\n").into_bytes();
    match kind {
        0 | 5 => vec![[cl, b].concat()],
        1 => {
            let c = |p: &[u8]| [format!("{:x}\r\n", p.len()).into_bytes(), p.to_vec(), b"\r\n".to_vec()].concat();
            vec![[format!("HTTP/1.1 200 OK\r\nx-for: {i}\r\nTransfer-Encoding: chunked\r\n\r\n").into_bytes(), c(&b[..5])].concat(), [c(&b[5..20]), c(&b[20..])].concat(), b"0\r\n\r\n".to_vec()]
        }
        2 => vec![[format!("HTTP/1.1 200 OK\r\nx-for: {i}\r\n\r\n").into_bytes(), b[..10].to_vec()].concat(), b[10..].to_vec()],
        3 => vec![format!("HTTP/1.1 101 Switching Protocols\r\nx-for: {i}\r\nConnection: upgrade\r\nUpgrade: foo\r\n\r\nraw").into_bytes(), b"more".to_vec()],
        _ => vec![[cl, b[..10].to_vec()].concat(), b[10..].to_vec()],
    }
}
fn client(ch: &Ch, x: &Cl) -> ExecResult {
    let mut cfg = CliCfg::new(x.pol).upgrades();
    let slot: Rc<RefCell<Option<OnUp>>> = Default::default();
    let s2 = slot.clone();
    cfg.on_up = Some(Rc::new(move |on| (s2.borrow().as_ref().unwrap())(on)));
    let mut c = h1cli::start(ch, cfg);
    let (f, uplog) = on_up(&c.env);
    *slot.borrow_mut() = Some(f);
    for q in &x.calls {
        c.caller(q.clone());
    }
    // the i-th answer goes to the i-th request on the wire, whichever call that is
    let answered = Rc::new(std::cell::Cell::new(0usize));
    for (i, kind) in x.answers.iter().enumerate() {
        let n = ans(0, *kind).len();
        for p in 0..n {
            let (io, io2, a, a2, kind) = (c.io.clone(), c.io.clone(), answered.clone(), answered.clone(), *kind);
            let at: usize = x.answers[..i].iter().map(|k| ans(0, *k).len()).sum::<usize>() + p;
            c.env.event_when(
                "peer answers",
                false,
                move || {
                    a.get() == at && {
                        let (ms, tail) = h1ref::requests(&io.s.borrow().out);
                        ms.len() + (kind == 5 && matches!(tail, Tail::Partial(Some(_)))) as usize > i
                    }
                },
                move || {
                    a2.set(at + 1);
                    let (ms, tail) = h1ref::requests(&io2.s.borrow().out);
                    let who = ms.get(i).map(|m| m.b.clone()).unwrap_or(match tail {
                        Tail::Partial(Some(m)) => m.b,
                        _ => "/0".into(),
                    });
                    let who: usize = who[1..].parse().unwrap_or(99);
                    io2.push(&ans(who, kind)[p]);
                    if kind == 2 && p + 1 == n {
                        io2.push_eof();
                    }
                },
            );
        }
    }
    if x.kill {
        c.ctl.arm_kill(&c.env);
    }
    if x.drop_tx {
        let (a, b) = (c.tx.clone(), c.tx.clone());
        c.env.event_dev("sender dropped", move || a.borrow().is_some(), move || drop(b.borrow_mut().take()));
    }
    let mut livelock = c.w.run() == RunEnd::StepLimit;
    let quiet = c.summary();
    let killed_early = c.ctl.0.killed.get();
    let pending_early: Vec<usize> = c.recs.borrow().iter().enumerate().filter(|(_, r)| r.outcomes == 0).map(|(i, _)| i).collect();
    c.drop_sender();
    livelock |= c.w.run() == RunEnd::StepLimit;
    c.io.push_eof();
    livelock |= c.w.run() == RunEnd::StepLimit;
    let conn_done = c.w.is_done(c.conn);
    c.ctl.kill();
    livelock |= c.w.run() == RunEnd::StepLimit;
    let desc = || format!("{x:?}\nkilled early {killed_early}, open at the end {:?}, upgrade futures {:?}\nwhen quiet first: {quiet}\nat the end: {}", c.w.unfinished(), uplog.borrow(), c.summary());
    if livelock {
        return viol("livelock", desc());
    }
    if let Some(b) = c.contract_violation() {
        return viol("body contract", format!("{b}\n{}", desc()));
    }
    if c.w.unfinished().iter().any(|t| t != "holder") {
        return viol("something still waits for a connection that is gone", desc());
    }
    let held = c.recs.borrow().iter().zip(&x.calls).any(|(r, q)| r.outcome == Outcome::Resp && matches!(q.take, Take::Hold));
    if !conn_done && !held {
        return viol("connection stays although its transport and senders are gone", desc());
    }
    let (ms, tail) = c.requests();
    if let Tail::Bad(e) = &tail {
        return viol("output is not a sequence of requests", format!("{e}\n{}", desc()));
    }
    for m in &ms {
        let i: usize = m.b[1..].parse().unwrap_or(99);
        match x.calls.get(i) {
            Some(q) if q.body.data() == m.body && !q.body.fails() => {}
            _ => return viol("a request got mixed up", desc()),
        }
    }
    let mut h = 0u64;
    let recs = c.recs.borrow();
    for (i, (r, q)) in recs.iter().zip(&x.calls).enumerate() {
        if r.outcomes != 1 {
            return viol("not exactly one outcome", desc());
        }
        if r.sent && !r.body_stat.borrow().dropped {
            return viol("request body kept although the connection is gone", desc());
        }
        if r.outcome == Outcome::Resp {
            let who = r.headers.iter().find(|(n, _)| n == "x-for").map(|(_, v)| String::from_utf8_lossy(v).to_string()).unwrap_or_default();
            if who != i.to_string() {
                return viol("response of another request", desc());
            }
            let g = r.got.borrow();
            let b: Vec<u8> = (0..30).map(|j| b'A' + ((i * 7 + j) % 26) as u8).collect();
            if r.status != 101 {
                if !b.starts_with(&g.data) {
                    return viol("response body corrupted", desc());
                }
                if g.end == End::Clean && g.data != b {
                    return viol("incomplete response body presented as complete", desc());
                }
            }
            if g.end == End::Unfinished && !matches!(q.take, Take::Hold) {
                return viol("response body never resolves", desc());
            }
            h = h * 4 + match g.end {
                End::Clean => 0,
                End::Error(_) => 1,
                End::Stopped => 2,
                End::Unfinished => 3,
            };
        }
        h = h * 8 + match &r.outcome {
            Outcome::Pending => 0,
            Outcome::NotReady(_) => 1,
            Outcome::Resp => 2,
            Outcome::Failed(_, b) => 3 + *b as u64,
            Outcome::Cancelled => 5,
        };
    }
    let _ = &pending_early;
    Ok(mix(h, ms.len() as u64 * 2 + killed_early as u64))
}

/// The peer ends its sending side while its request is being served.
fn peer_gone(ch: &Ch, k: K, at: usize, hc: bool, first: bool) -> ExecResult {
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let beh = |at: usize| match at {
        // nothing answered yet
        0 => Beh::simple("").stuck(),
        1 => Beh::simple("").consume(Consume::DropFirst).stuck(),
        // in the middle of the answer
        2 => Beh::simple("").resp(RespSpec { body: BodySpec { steps: vec![BStep::Gate(1), d("abcd")], hint: Hint::Exact, eos: true }, ..RespSpec::ok("") }),
        _ => Beh::simple("").resp(RespSpec { body: BodySpec { steps: vec![d("ab"), BStep::Gate(1), d("cd")], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") }),
    };
    let behs = if first { vec![Beh::simple("one"), beh(at)] } else { vec![beh(at)] };
    let n = behs.len();
    let mut s = h1srv::start(
        ch,
        SrvCfg::new(behs).pol(IO_ALL).tweak(move |b, _| {
            b.half_close(hc);
        }),
    );
    if first {
        s.io.push(b"GET /0 HTTP/1.1\r\n\r\n");
        s.w.run();
    }
    for p in packets(1, k) {
        s.io.push(&p);
    }
    s.w.run();
    s.io.push_eof();
    s.w.run();
    let d = |s: &h1srv::Srv| format!("{k:?} at {at} half-close {hc} second {first}\nresult {:?}\n{}wire {:?}", s.result.borrow(), s.seen(), esc(&s.io.out()));
    if s.recs.borrow().len() != n {
        return viol("service not called", d(&s));
    }
    let over = match &*s.result.borrow() {
        None => false,
        Some(Ok(())) => return viol("exchange cut by the peer's end of stream reported as orderly", d(&s)),
        Some(Err(_)) => true,
    };
    let gone = |s: &h1srv::Srv| {
        let r = &s.recs.borrow()[n - 1];
        let x = r.gone.get() && (at < 2 || r.resp_stat.borrow().dropped);
        x
    };
    if hc {
        if over || (gone(&s) && at < 2) {
            return viol("half-close not honoured", d(&s));
        }
        if at < 2 {
            return Ok(1);
        }
        s.env.open(1);
        s.w.run();
        let rs = s.responses();
        if rs.tail != Tail::Clean || rs.msgs.len() != n || rs.msgs[n - 1].1.body != b"abcd" {
            return viol("answer to a half-closed peer not completed", d(&s));
        }
        if !matches!(&*s.result.borrow(), Some(Ok(()))) {
            return viol("half-closed exchange does not end well", d(&s));
        }
        return Ok(2);
    }
    if !over {
        return viol("connection stays although the peer is gone", d(&s));
    }
    if !gone(&s) {
        return viol("work for a peer that is gone is kept", d(&s));
    }
    Ok(3)
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let few = IoPolicy { read: Cuts::Never, write: Cuts::Never, ..IO_ALL };
    let b = tier.pick(2, 3);
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let beh = |c: Consume, i: usize, stream: bool| {
        let t = resp_text(i);
        let r = if stream { RespSpec { body: BodySpec { steps: vec![d(&t[..3]), BStep::Pending, d(&t[3..])], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") } } else { RespSpec::ok(&t) };
        Beh::simple("").consume(c).resp(r)
    };
    let consumes = [Consume::Full, Consume::DropFirst, Consume::Ignore, Consume::Frames(0), Consume::Frames(1), Consume::FullOrDrop, Consume::SpawnedOrDrop, Consume::SpawnedLate];
    for k in [K::Small, K::Large, K::Chunked] {
        for c in &consumes {
            for stream in [false, true] {
                for k2 in [K::Get, K::Large] {
                    for glued in [true, false] {
                        for (pn, pol) in [("plain", IO_PLAIN), ("io", few)] {
                            let qs = vec![(k, beh(c.clone(), 0, stream)), (k2, beh(Consume::SpawnedOrDrop, 1, false)), (K::Get, beh(Consume::Full, 2, false))];
                            let x = Sv { qs, glued, kill: true, eof: false, pol, half_close: false };
                            let bb = if pn == "plain" { b } else { b - 1 };
                            sc.push(scenario(format!("server/{k:?}/{c:?}/{stream}/{k2:?}/{glued}/{pn}"), bb, move |ch| server(ch, &x)));
                        }
                    }
                }
            }
        }
    }
    for k in [K::Get, K::Small, K::Large, K::Chunked] {
        for at in 0..4 {
            for hc in [false, true] {
                for first in [false, true] {
                    if at == 1 && k != K::Get {
                        continue;
                    }
                    sc.push(scenario(format!("peer-gone/{k:?}/{at}/{hc}/{first}"), b, move |ch| peer_gone(ch, k, at, hc, first)));
                }
            }
        }
    }
    // half-closed peers
    for k in [K::Small, K::Large] {
        for c in &consumes {
            for hc in [false, true] {
                let qs = vec![(k, beh(c.clone(), 0, true)), (K::Get, beh(Consume::Full, 1, true))];
                let x = Sv { qs, glued: false, kill: true, eof: true, pol: few, half_close: hc };
                sc.push(scenario(format!("server-eof/{k:?}/{c:?}/{hc}"), b, move |ch| server(ch, &x)));
            }
        }
    }
    // upgrades, accepted and declined
    for accept in [true, false] {
        for delay in [true, false] {
            for (pn, pol) in [("plain", IO_PLAIN), ("io", few)] {
                let mut u = beh(Consume::Full, 1, false);
                u.upgrade = true;
                u.delay = delay;
                if accept {
                    u.resp = RespSpec { status: 101, headers: vec![("connection", b"upgrade"), ("upgrade", b"foo")], ..RespSpec::ok("") };
                }
                let qs = vec![(K::Small, beh(Consume::SpawnedOrDrop, 0, false)), (K::Upgrade, u), (K::Get, beh(Consume::Full, 2, false))];
                let x = Sv { qs, glued: true, kill: true, eof: false, pol, half_close: false };
                sc.push(scenario(format!("server-upgrade/{accept}/{delay}/{pn}"), b, move |ch| server(ch, &x)));
            }
        }
    }
    // clients
    let up = BodySpec { steps: vec![d("ab"), BStep::Pending, d("cd")], hint: Hint::Unknown, eos: false };
    let takes = [Take::Full, Take::Drop, Take::Frames(1), Take::FullOrDrop, Take::Late];
    for post in [false, true] {
        for t in &takes {
            for a in [0u8, 1, 2, 4, 5] {
                for t2 in [Take::Full, Take::FullOrDrop] {
                    for cancel in [false, true] {
                        for (pn, pol) in [("plain", IO_PLAIN), ("io", few)] {
                            let mut q = if post { call("POST", "/0").body(up.clone()) } else { call("GET", "/0") };
                            q.take = t.clone();
                            q.cancel = cancel;
                            let calls = vec![q, call("GET", "/1").take(t2.clone()).recover().after(1), call("GET", "/2").after(2)];
                            let x = Cl { calls, answers: vec![a, 1, 0], kill: true, drop_tx: true, pol };
                            let bb = if pn == "plain" { b } else { b - 1 };
                            sc.push(scenario(format!("client/{post}/{t:?}/{a}/{t2:?}/{cancel}/{pn}"), bb, move |ch| client(ch, &x)));
                        }
                    }
                }
            }
        }
    }
    for post in [false, true] {
        for a in [3u8, 0] {
            for queued in [false, true] {
                let mut q = if post { call("POST", "/0").body(up.clone()) } else { call("GET", "/0") };
                q = q.header("connection", "upgrade").header("upgrade", "foo").upgrade().cancel();
                let q2 = if queued { call("GET", "/1").not_ready().cancel() } else { call("GET", "/1").after(1) };
                let x = Cl { calls: vec![q, q2], answers: vec![a, 1], kill: true, drop_tx: true, pol: few };
                sc.push(scenario(format!("client-upgrade/{post}/{a}/{queued}"), b, move |ch| client(ch, &x)));
            }
        }
    }
    Check {
        id: "C15",
        scenarios: sc,
        rule: "At every point of every schedule within the bound the connection, the sender, a response future, an incoming body, an upgrade future or an upgraded stream is dropped, over request, body, consumer and answer kinds; afterwards the transport and the connection go away and everything left must have resolved; every message names the exchange it belongs to.".into(),
        assumptions: vec![],
    }
}
