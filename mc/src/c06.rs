//! C06: a truncated or aborted body is never presented as complete, in either direction.

use crate::core::*;
use crate::h1cli::{self, call, Act, CliCfg, Do, Outcome, Take, Trig};
use crate::h1ref::{Framing, Tail};
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;
use http::Version;

struct In {
    name: &'static str,
    head: &'static str,
    body: &'static str,
    data: &'static str,
    trailers: bool,
}
const REQS: &[In] = &[
    In { name: "len", head: "POST /1 HTTP/1.1\r\nContent-Length: 5\r\n\r\n", body: "hello", data: "hello", trailers: false },
    In { name: "len10", head: "POST /1 HTTP/1.0\r\nContent-Length: 2\r\nConnection: keep-alive\r\n\r\n", body: "hi", data: "hi", trailers: false },
    In { name: "chunked", head: "POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", body: "3\r\nhel\r\n2;a=b\r\nlo\r\n0\r\n\r\n", data: "hello", trailers: false },
    In { name: "trailers", head: "POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", body: "2\r\nhi\r\n0\r\nA: b\r\nC: d\r\n\r\n", data: "hi", trailers: true },
    In { name: "expect", head: "POST /1 HTTP/1.1\r\nContent-Length: 5\r\nExpect: 100-continue\r\n\r\n", body: "hello", data: "hello", trailers: false },
];
const RESPS: &[In] = &[
    In { name: "len", head: "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n", body: "hello", data: "hello", trailers: false },
    In { name: "len10", head: "HTTP/1.0 200 OK\r\nContent-Length: 2\r\n\r\n", body: "hi", data: "hi", trailers: false },
    In { name: "chunked", head: "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", body: "3\r\nhel\r\n2;a=b\r\nlo\r\n0\r\n\r\n", data: "hello", trailers: false },
    In { name: "trailers", head: "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", body: "2\r\nhi\r\n0\r\nA: b\r\nC: d\r\n\r\n", data: "hi", trailers: true },
    In { name: "close", head: "HTTP/1.1 200 OK\r\n\r\n", body: "hello", data: "hello", trailers: false },
    In { name: "interim", head: "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n", body: "hello", data: "hello", trailers: false },
];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stop {
    Eof,
    Reset,
    /// the peer stalls; the connection is dropped at the end
    Drop,
    /// writes fail from here on
    WriteErr,
}
const STOPS: [Stop; 4] = [Stop::Eof, Stop::Reset, Stop::Drop, Stop::WriteErr];

/// What may the reader have seen?
fn judge(m: &In, g: &Got, sent: usize, read: usize, stop: Stop, dropped_early: bool, ended: bool, desc: &dyn Fn() -> String) -> Result<(), Viol> {
    let all = m.head.len() + m.body.len();
    let closed = m.name == "close";
    let end_known = if closed { stop == Stop::Eof } else { sent >= all };
    if let Some(b) = &g.bad {
        return viol("body contract", format!("{b}\n{}", desc()));
    }
    if !m.data.as_bytes().starts_with(&g.data) {
        return viol("wrong data", desc());
    }
    match &g.end {
        End::Clean => {
            // for a message delimited by the close, what was sent before it is the message
            let whole = if closed { m.body.as_bytes()[..sent.saturating_sub(m.head.len())] == g.data[..] } else { g.data == m.data.as_bytes() && g.trailers.is_some() == m.trailers };
            if !end_known || !whole || (!closed && read < all) {
                return viol("truncated body presented as complete", desc());
            }
        }
        End::Error(_) => {
            if end_known && !dropped_early && stop != Stop::WriteErr {
                return viol("complete body presented as broken", desc());
            }
        }
        End::Unfinished => {
            if ended {
                return viol("body never resolves", desc());
            }
        }
        End::Stopped => {}
    }
    Ok(())
}

fn incoming_srv(ch: &Ch, m: &'static In, pol: IoPolicy, kill: bool, consume: Consume, delay: bool) -> ExecResult {
    let stop = STOPS[ch.free(4, "how it stops")];
    let bytes: Vec<u8> = format!("{}{}", m.head, m.body).into_bytes();
    let cut = 1 + ch.free(bytes.len(), "cut");
    let mut beh = Beh::simple("done").consume(consume);
    beh.delay = delay;
    let mut s = h1srv::start(ch, SrvCfg::new(vec![beh]).pol(pol));
    if kill {
        s.ctl.arm_kill(&s.env);
    }
    s.io.push(&bytes[..cut]);
    s.w.run();
    match stop {
        Stop::Eof => s.io.push_eof(),
        Stop::Reset => s.io.push_rerr(std::io::ErrorKind::ConnectionReset),
        Stop::Drop => {}
        Stop::WriteErr => s.io.set_werr(std::io::ErrorKind::BrokenPipe),
    }
    s.w.run();
    let killed_early = s.ctl.0.kill.get();
    if matches!(stop, Stop::Drop | Stop::WriteErr) {
        s.ctl.kill();
        if s.w.run() == RunEnd::StepLimit {
            return viol("livelock", "step limit");
        }
    }
    let desc = || format!("{stop:?} after {cut} of {} bytes; service saw {}wire {:?}\nresult {:?}", bytes.len(), s.seen(), esc(&s.io.out()), s.result.borrow());
    let recs = s.recs.borrow();
    if recs.len() > 1 {
        return viol("request out of nothing", desc());
    }
    if cut < m.head.len() && !recs.is_empty() {
        return viol("truncated head reached the service", desc());
    }
    if s.w.unfinished_count("conn") > 0 {
        return viol("connection never finishes", desc());
    }
    let r = match recs.first() {
        Some(r) => r,
        None => return Ok(1),
    };
    // a service that the connection dropped may never have come to reading
    let svc_dropped = !r.responded && r.got.borrow().end == End::Unfinished;
    let g = r.got.borrow();
    judge(m, &g, cut, s.io.s.borrow().nread, stop, killed_early || matches!(stop, Stop::Drop), !svc_dropped, &desc)?;
    Ok(hash_bytes(format!("{:?}{:?}", g.end, stop).as_bytes()))
}

fn incoming_cli(ch: &Ch, m: &'static In, pol: IoPolicy, kill: bool, late: bool) -> ExecResult {
    let stop = STOPS[ch.free(4, "how it stops")];
    let bytes: Vec<u8> = format!("{}{}", m.head, m.body).into_bytes();
    let cut = 1 + ch.free(bytes.len(), "cut");
    let mut c = h1cli::start(ch, CliCfg::new(pol));
    if kill {
        c.ctl.arm_kill(&c.env);
    }
    c.caller(call("GET", "/").take(if late { Take::Late } else { Take::Full }));
    c.w.run();
    c.io.push(&bytes[..cut]);
    c.w.run();
    match stop {
        Stop::Eof => c.io.push_eof(),
        Stop::Reset => c.io.push_rerr(std::io::ErrorKind::ConnectionReset),
        Stop::Drop => {}
        Stop::WriteErr => c.io.set_werr(std::io::ErrorKind::BrokenPipe),
    }
    c.w.run();
    let killed_early = c.ctl.0.kill.get();
    if matches!(stop, Stop::Drop | Stop::WriteErr) {
        c.ctl.kill();
    }
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let desc = || format!("{stop:?} after {cut} of {} bytes\n{}", bytes.len(), c.summary());
    let recs = c.recs.borrow();
    let r = &recs[0];
    if r.outcomes != 1 {
        return viol("call never resolves", desc());
    }
    match &r.outcome {
        Outcome::Resp => {
            if cut < m.head.len() {
                return viol("truncated head became a response", desc());
            }
            let g = r.got.borrow();
            judge(m, &g, cut, c.io.s.borrow().nread, stop, killed_early || stop == Stop::Drop, true, &desc)?;
            Ok(hash_bytes(format!("{:?}{:?}", g.end, stop).as_bytes()))
        }
        _ => {
            if cut >= m.head.len() && !killed_early && stop != Stop::WriteErr && stop != Stop::Drop {
                return viol("complete head became an error", desc());
            }
            Ok(2)
        }
    }
}

/// Outgoing bodies that fail, or end before the length promised.
fn broken_bodies() -> Vec<(&'static str, BodySpec, bool)> {
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let b = |steps: Vec<BStep>, hint: Hint, eos: bool| BodySpec { steps, hint, eos };
    // (name, body, promises a length by itself)
    vec![
        ("err-first", b(vec![BStep::Err], Hint::Unknown, false), false),
        ("err-mid", b(vec![d("hel"), BStep::Err], Hint::Unknown, false), false),
        ("err-late", b(vec![d("he"), d("llo"), BStep::Pending, BStep::Err], Hint::Unknown, false), false),
        ("err-claim", b(vec![d("hel"), BStep::Err], Hint::Claim(5), false), true),
        ("err-claim-full", b(vec![d("hel"), BStep::Pending, BStep::Err], Hint::Claim(7), true), true),
        ("err-hole", b(vec![d(""), BStep::Pending, BStep::Err], Hint::Range, true), false),
        ("short", b(vec![d("hel")], Hint::Claim(5), false), true),
        ("short-eos", b(vec![d("hel")], Hint::Claim(5), true), true),
        ("short-eos2", b(vec![d("h"), BStep::Pending, d("el")], Hint::Claim(5), true), true),
        ("short-empty", b(vec![d("")], Hint::Claim(5), true), true),
        ("short-none", b(vec![], Hint::Claim(5), false), true),
        ("short-trailers", b(vec![d("hel"), BStep::Trailers(vec![("x-t", "1")])], Hint::Claim(5), true), true),
        ("short-trailers2", b(vec![d("hel"), BStep::Trailers(vec![("x-t", "1")])], Hint::Claim(5), false), true),
        ("cl-short", b(vec![d("hel")], Hint::Unknown, false), false),
        ("cl-short-eos", b(vec![d("he"), d("l")], Hint::Unknown, true), false),
        ("cl-short-holes", b(vec![d("he"), d(""), BStep::Pending, d("")], Hint::Unknown, true), false),
        ("cl-short-trailers", b(vec![d("he"), BStep::Trailers(vec![("x-t", "1")])], Hint::Unknown, true), false),
        ("cl-empty", BodySpec::empty(), false),
    ]
}

fn outgoing_srv(ch: &Ch, body: &BodySpec, framing: usize, pol: IoPolicy) -> ExecResult {
    // framing: 0 hyper's choice, 1 Content-Length 5, 2 chunked with trailers, 3 HTTP/1.0
    let ver10 = framing == 3;
    let mut spec = RespSpec { status: 200, version: None, headers: vec![], body: body.clone(), reason: None };
    match framing {
        1 => spec.headers.push(("content-length", b"5")),
        2 => {
            spec.headers.push(("transfer-encoding", b"chunked"));
            spec.headers.push(("trailer", b"x-t"));
        }
        _ => {}
    }
    let early = ch.free(2, "pipelined request") == 1;
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("").resp(spec), Beh::simple("second")]).pol(pol));
    s.io.push(if ver10 { b"GET /1 HTTP/1.0\r\nConnection: keep-alive\r\n\r\n" } else { b"GET /1 HTTP/1.1\r\nTE: trailers\r\n\r\n" });
    let two = b"GET /2 HTTP/1.1\r\n\r\n";
    if early {
        s.io.push(two);
    }
    s.w.run();
    if !early {
        s.io.push(two);
        s.w.run();
    }
    s.io.push_eof();
    if s.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let rs = s.responses();
    let desc = || format!("body {body:?} framing {framing}\nwire {:?} shutdown {}\nresult {:?}", esc(&s.io.out()), s.io.s.borrow().shut, s.result.borrow());
    if s.result.borrow().is_none() {
        return viol("connection never finishes", desc());
    }
    if let Tail::Bad(b) = &rs.tail {
        return viol("unparsable output", format!("{b}\n{}", desc()));
    }
    if s.recs.borrow().len() != 1 {
        return viol("connection used after a broken body", desc());
    }
    let d = body.data();
    let part = match (rs.msgs.first(), &rs.tail) {
        (Some((_, m)), _) => {
            // only a response delimited by the close can look whole; then the close must not look orderly
            if m.framing != Framing::Close || s.io.s.borrow().shut {
                return viol("broken body presented as complete", desc());
            }
            Some(m.body.clone())
        }
        (None, Tail::Partial(Some(m))) => Some(m.body.clone()),
        _ => None,
    };
    if let Some(p) = part {
        if !d.starts_with(&p) {
            return viol("padding", desc());
        }
    }
    if matches!(&*s.result.borrow(), Some(Ok(()))) && body.fails() {
        return viol("failing body reported as success", desc());
    }
    Ok(hash_bytes(&s.io.out().iter().copied().rev().take(9).collect::<Vec<_>>()))
}
fn outgoing_cli(ch: &Ch, body: &BodySpec, framing: usize, pol: IoPolicy) -> ExecResult {
    let mut c = h1cli::start(ch, CliCfg::new(pol));
    let mut q = call("POST", "/1").body(body.clone());
    match framing {
        1 => q = q.header("content-length", "5"),
        2 => q = q.header("transfer-encoding", "chunked").header("trailer", "x-t"),
        3 => q.version = Some(Version::HTTP_10),
        _ => {}
    }
    c.caller(q);
    let queued = ch.free(2, "second call queued") == 1;
    if queued {
        c.caller(call("GET", "/2").not_ready());
    } else {
        c.caller(call("GET", "/2").after(1));
    }
    // the peer may answer as soon as it has the head
    let early = ch.free(2, "early answer") == 1;
    c.peer(vec![Act(if early { Trig::Heads(1) } else { Trig::Reqs(1) }, Do::Send(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec()))]);
    c.w.run();
    c.io.push_eof();
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let (ms, tail) = c.requests();
    let desc = || format!("body {body:?} framing {framing} tail {tail:?}\n{}", c.summary());
    if let Tail::Bad(b) = &tail {
        return viol("unparsable output", format!("{b}\n{}", desc()));
    }
    let first = ms.first().map_or(false, |m| m.b == "/2");
    if ms.len() > first as usize {
        return viol("broken body presented as complete", desc());
    }
    if let Tail::Partial(Some(m)) = &tail {
        if !body.data().starts_with(&m.body) {
            return viol("padding", desc());
        }
    }
    if c.result.borrow().is_none() {
        return viol("connection never finishes", desc());
    }
    for r in c.recs.borrow().iter() {
        if r.outcomes != 1 {
            return viol("call never resolves", desc());
        }
    }
    let recs = c.recs.borrow();
    if recs[0].outcome == Outcome::Resp && !early {
        return viol("broken request got a response out of nothing", desc());
    }
    if recs[1].outcome == Outcome::Resp && !first {
        return viol("connection used after a broken body", desc());
    }
    Ok(hash_bytes(format!("{:?}", recs[0].outcome == Outcome::Resp).as_bytes()))
}

/// The outgoing message breaks (or the transport refuses it) while an incoming body is still on its way.
fn both_srv(ch: &Ch, m: &'static In, body: &BodySpec, framing: usize, werr: bool, consume: Consume) -> ExecResult {
    let bytes: Vec<u8> = format!("{}{}", m.head, m.body).into_bytes();
    let cut = m.head.len() + ch.free(m.body.len(), "cut");
    let mut spec = RespSpec { status: 200, version: None, headers: vec![], body: body.clone(), reason: None };
    spec.body.steps.insert(0, BStep::Gate(1));
    if framing == 1 {
        spec.headers.push(("content-length", b"5"));
    }
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("").resp(spec).consume(consume)]).pol(IO_PLAIN));
    s.io.push(&bytes[..cut]);
    let first = ch.free(2, "breaks at once") == 1;
    if !first {
        s.w.run();
    }
    if werr {
        s.io.set_werr(std::io::ErrorKind::BrokenPipe);
    }
    s.env.open(1);
    s.w.run();
    // a body that ended short without failing leaves the other direction alone
    if !body.fails() && !werr {
        s.io.push_eof();
    }
    if s.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let desc = || format!("body {body:?} framing {framing} write error {werr} after {cut} of {} bytes; service saw {}wire {:?}\nresult {:?}", bytes.len(), s.seen(), esc(&s.io.out()), s.result.borrow());
    if s.w.unfinished_count("conn") > 0 {
        return viol("connection goes on after a broken response", desc());
    }
    let recs = s.recs.borrow();
    let Some(r) = recs.first() else { return Ok(0) };
    let g = r.got.borrow();
    judge(m, &g, cut, s.io.s.borrow().nread, if body.fails() || werr { Stop::WriteErr } else { Stop::Eof }, true, r.responded, &desc)?;
    Ok(hash_bytes(format!("{:?}", g.end).as_bytes()))
}
fn both_cli(ch: &Ch, m: &'static In, body: &BodySpec, framing: usize, werr: bool, take: Take) -> ExecResult {
    let bytes: Vec<u8> = format!("{}{}", m.head, m.body).into_bytes();
    let cut = m.head.len() + ch.free(m.body.len(), "cut");
    let mut b = body.clone();
    b.steps.insert(0, BStep::Gate(1));
    let mut q = call("POST", "/1").body(b).take(take);
    if framing == 1 {
        q = q.header("content-length", "5");
    }
    let mut c = h1cli::start(ch, CliCfg::new(IO_PLAIN));
    c.caller(q);
    c.peer(vec![Act(Trig::Heads(1), Do::Send(bytes[..cut].to_vec()))]);
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    if werr {
        c.io.set_werr(std::io::ErrorKind::BrokenPipe);
    }
    c.env.open(1);
    c.w.run();
    if !body.fails() && !werr {
        c.io.push_eof();
    }
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let desc = || format!("body {body:?} framing {framing} write error {werr} after {cut} of {} bytes\n{}", bytes.len(), c.summary());
    if c.result.borrow().is_none() {
        return viol("connection goes on after a broken request", desc());
    }
    let recs = c.recs.borrow();
    let r = &recs[0];
    if r.outcomes != 1 {
        return viol("call never resolves", desc());
    }
    if r.outcome == Outcome::Resp {
        let g = r.got.borrow();
        judge(m, &g, cut, c.io.s.borrow().nread, if body.fails() || werr { Stop::WriteErr } else { Stop::Eof }, true, true, &desc)?;
        return Ok(hash_bytes(format!("{:?}", g.end).as_bytes()));
    }
    Ok(2)
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let b = tier.pick(1, 2);
    for m in REQS {
        for (cn, consume, delay) in [
            ("full", Consume::Full, false),
            ("delayed", Consume::Full, true),
            ("spawned", Consume::Spawned, false),
            ("late", Consume::SpawnedLate, false),
        ] {
            let cs = consume.clone();
            sc.push(scenario(format!("in/server/{}/{cn}", m.name), b, move |ch| incoming_srv(ch, m, IO_ALL, false, cs.clone(), delay)));
            sc.push(scenario(format!("in/server-drop/{}/{cn}", m.name), b + 1, move |ch| {
                incoming_srv(ch, m, IoPolicy { read: Cuts::Few, ..IO_PLAIN }, true, consume.clone(), delay)
            }));
        }
    }
    for m in RESPS {
        for late in [false, true] {
            sc.push(scenario(format!("in/client/{}/{late}", m.name), b, move |ch| incoming_cli(ch, m, IO_ALL, false, late)));
            sc.push(scenario(format!("in/client-drop/{}/{late}", m.name), b + 1, move |ch| {
                incoming_cli(ch, m, IoPolicy { read: Cuts::Few, ..IO_PLAIN }, true, late)
            }));
        }
    }
    for (n, body, promises) in broken_bodies() {
        for framing in 0..4 {
            let cl = framing == 1;
            if n.starts_with("cl-") && !cl {
                continue; // only broken next to a length
            }
            if n == "cl-empty" {
                // a response without a body next to a length is corrected; a request is not
                let body = body.clone();
                sc.push(scenario(format!("out/client/{n}/{framing}"), b, move |ch| outgoing_cli(ch, &body, framing, IO_ALL)));
                continue;
            }
            if cl && body.data().len() >= 5 {
                continue; // fails only after everything promised was sent
            }
            if framing == 1 && body.hint != Hint::Claim(5) && promises {
                continue; // contradicting lengths: trusted by documentation
            }
            if framing == 2 && promises && !body.fails() {
                continue; // chunked: no length is promised
            }
            if framing == 3 && !promises && !cl && !body.fails() {
                continue;
            }
            let b1 = body.clone();
            sc.push(scenario(format!("out/server/{n}/{framing}"), b, move |ch| outgoing_srv(ch, &b1, framing, IO_ALL)));
            if framing == 3 && !promises {
                continue; // dropped by documentation
            }
            let b1 = body.clone();
            sc.push(scenario(format!("out/client/{n}/{framing}"), b, move |ch| outgoing_cli(ch, &b1, framing, IO_ALL)));
        }
    }
    let whole = BodySpec { steps: vec![BStep::Data(b"he".to_vec()), BStep::Pending, BStep::Data(b"llo".to_vec())], hint: Hint::Unknown, eos: false };
    let mut outs: Vec<(&str, BodySpec, usize, bool)> = vec![("fine", whole.clone(), 0, true), ("fine", whole, 1, true)];
    for (n, body, promises) in broken_bodies() {
        if n == "cl-empty" {
            continue;
        }
        for framing in 0..2 {
            if framing == 1 && promises && body.hint != Hint::Claim(5) || framing == 0 && !promises && !body.fails() || framing == 1 && body.data().len() >= 5 {
                continue;
            }
            outs.push((n, body.clone(), framing, false));
        }
    }
    for (n, body, framing, werr) in outs {
        for m in REQS {
            if m.name == "len10" {
                continue;
            }
            for consume in [Consume::Spawned, Consume::SpawnedLate] {
                let (b1, cs) = (body.clone(), consume.clone());
                sc.push(scenario(format!("both/server/{n}/{framing}/{}/{consume:?}", m.name), b, move |ch| both_srv(ch, m, &b1, framing, werr, cs.clone())));
            }
        }
        for m in RESPS {
            for take in [Take::Full, Take::Late] {
                let (b1, t) = (body.clone(), take.clone());
                sc.push(scenario(format!("both/client/{n}/{framing}/{}/{take:?}", m.name), b, move |ch| both_cli(ch, m, &b1, framing, werr, t.clone())));
            }
        }
    }
    Check {
        id: "C06",
        scenarios: sc,
        rule: "Every incoming message of the corpus is stopped after every byte by end of stream, reset, a failing write side or the connection future being dropped (also at every scheduling point), read by four kinds of consumers under every schedule within the bound; every broken outgoing body shape is sent with every framing in both roles.".into(),
        assumptions: vec!["a response delimited by the close can only be marked broken by the absence of an orderly shutdown".into()],
    }
}
