//! C09: every client request has exactly one outcome, and it is its own.

use crate::core::*;
use crate::h1cli::{self, call, Cli, CliCfg, Outcome, Take};
use crate::h1ref::{self, Tail};
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

/// What the peer does, in order; each step waits for its trigger.
#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    /// answer the next complete request
    Reply,
    /// answer the next request as soon as its head arrived
    Early,
    /// answer with two interim responses first
    Interim,
    /// answer in two pieces
    Split,
    /// answer and say close
    ReplyClose,
    /// answer, delimited by the close that follows
    ReplyEof,
    /// answer, and another response in the same breath
    Double,
    /// half an answer, then end of stream
    Half,
    /// a response nobody asked for
    Unasked,
    /// bytes that are no response
    Garbage,
    Eof,
    Reset,
    WriteErr,
}
fn reply(target: &str, kind: P) -> Vec<u8> {
    let head = |extra: &str| format!("HTTP/1.1 200 OK\r\nx-for: {target}\r\n{extra}\r\n");
    match kind {
        P::ReplyClose => format!("{}{target}", head(&format!("Connection: close\r\nContent-Length: {}\r\n", target.len()))),
        P::ReplyEof => format!("{}{target}", head("")),
        P::Interim => format!("HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 103 Early\r\nx-for: no\r\n\r\n{}{target}", head(&format!("Content-Length: {}\r\n", target.len()))),
        P::Half => {
            let s = format!("{}{target}", head(&format!("Content-Length: {}\r\n", target.len())));
            s[..s.len() - 1].to_string()
        }
        _ => format!("{}{target}", head(&format!("Content-Length: {}\r\n", target.len()))),
    }
    .into_bytes()
}
struct Peer {
    step: Rc<Cell<usize>>,
    /// a response was given out that answers no request
    stray: Rc<Cell<bool>>,
    /// ... while no request was on the wire (nothing could confuse it with an answer)
    stray_idle: Rc<Cell<bool>>,
}
fn start_peer(c: &Cli, script: &'static [P]) -> Peer {
    let p = Peer { step: Default::default(), stray: Default::default(), stray_idle: Default::default() };
    let answered: Rc<Cell<usize>> = Default::default();
    // pieces: some steps are two events
    let mut k = 0;
    for &s in script {
        let wait = matches!(s, P::Reply | P::Early | P::Interim | P::Split | P::ReplyClose | P::ReplyEof | P::Double | P::Half);
        let pieces: usize = match s {
            P::Split | P::ReplyEof | P::Half => 2,
            _ => 1,
        };
        for piece in 0..pieces {
            let (io, io2, st, st2, an, an2) = (c.io.clone(), c.io.clone(), p.step.clone(), p.step.clone(), answered.clone(), answered.clone());
            let (stray, stray_idle) = (p.stray.clone(), p.stray_idle.clone());
            let at = k;
            k += 1;
            c.env.event_when(
                "peer acts",
                false,
                move || {
                    if st.get() != at {
                        return false;
                    }
                    if !wait || piece > 0 {
                        return true;
                    }
                    let (ms, tail) = h1ref::requests(&io.s.borrow().out);
                    let n = ms.len() + (s == P::Early && matches!(tail, Tail::Partial(Some(_)))) as usize;
                    n > an.get()
                },
                move || {
                    st2.set(at + 1);
                    let (ms, tail) = h1ref::requests(&io2.s.borrow().out);
                    let target = ms.get(an2.get()).map(|m| m.b.clone()).or(match tail {
                        Tail::Partial(Some(m)) => Some(m.b),
                        _ => None,
                    });
                    match s {
                        P::Eof => io2.push_eof(),
                        P::Reset => io2.push_rerr(std::io::ErrorKind::ConnectionReset),
                        P::WriteErr => io2.set_werr(std::io::ErrorKind::BrokenPipe),
                        P::Unasked | P::Garbage => {
                            stray.set(true);
                            let outstanding = target.is_some() || !io2.s.borrow().out.is_empty() && ms.len() > an2.get();
                            if !outstanding {
                                stray_idle.set(true);
                            }
                            io2.push(if s == P::Garbage { b"\x16\x03\x01oops" } else { b"HTTP/1.1 200 OK\r\nx-for: nobody\r\nContent-Length: 6\r\n\r\nnobody" });
                        }
                        P::Half | P::ReplyEof if piece == 1 => io2.push_eof(),
                        P::Split => {
                            let b = reply(&target.clone().unwrap_or_default(), s);
                            if piece == 0 {
                                io2.push(&b[..30]);
                            } else {
                                an2.set(an2.get() + 1);
                                io2.push(&b[30..]);
                            }
                        }
                        _ => {
                            let mut b = reply(&target.unwrap_or_default(), s);
                            an2.set(an2.get() + 1);
                            if s == P::Double {
                                stray.set(true);
                                b.extend(b"HTTP/1.1 200 OK\r\nx-for: nobody\r\nContent-Length: 6\r\n\r\nnobody");
                            }
                            io2.push(&b);
                        }
                    }
                },
            );
        }
    }
    p
}

#[derive(Clone, Debug)]
struct Sc {
    calls: Vec<h1cli::Call>,
    script: &'static [P],
    kill: bool,
    drop_tx: bool,
    pol: IoPolicy,
    /// nothing is ever withheld by the transport: what hyper took from a caller is on the wire at once
    prompt: bool,
}
fn run(ch: &Ch, x: &Sc) -> ExecResult {
    let mut c = h1cli::start(ch, CliCfg::new(x.pol));
    for q in &x.calls {
        c.caller(q.clone());
    }
    let p = start_peer(&c, x.script);
    if x.kill {
        c.ctl.arm_kill(&c.env);
    }
    if x.drop_tx {
        let tx = c.tx.clone();
        let t2 = c.tx.clone();
        c.env.event_dev("sender dropped", move || tx.borrow().is_some(), move || drop(t2.borrow_mut().take()));
    }
    // what was on the wire at the moment a call was cancelled
    let seen: Rc<std::cell::RefCell<Vec<Option<usize>>>> = Rc::new(std::cell::RefCell::new(vec![None; x.calls.len()]));
    {
        let (seen, recs, io) = (seen.clone(), c.recs.clone(), c.io.clone());
        c.w.before_step = Some(Box::new(move |_| {
            for (i, r) in recs.borrow().iter().enumerate() {
                if r.outcome == Outcome::Cancelled && r.sent && seen.borrow()[i].is_none() {
                    seen.borrow_mut()[i] = Some(io.s.borrow().out.len());
                }
            }
            false
        }));
    }
    let mut livelock = c.w.run() == RunEnd::StepLimit;
    let result1 = c.result.borrow().clone();
    c.io.push_eof();
    livelock |= c.w.run() == RunEnd::StepLimit;
    c.drop_sender();
    livelock |= c.w.run() == RunEnd::StepLimit;
    let desc = || format!("calls {:?}\nscript {:?}, {} peer steps done, shut {}\n{}", x.calls.iter().map(|c| (c.method, &c.uri, c.recover, c.cancel)).collect::<Vec<_>>(), x.script, p.step.get(), c.io.s.borrow().shut, c.summary());
    if livelock {
        return viol("livelock", desc());
    }
    if c.io.s.borrow().out_after_shut > 0 {
        return viol("bytes written after the close", desc());
    }
    if !c.w.is_done(c.conn) {
        return viol("connection never finishes", desc());
    }
    let (ms, tail) = c.requests();
    if let Tail::Bad(e) = &tail {
        return viol("unparsable output", format!("{e}\n{}", desc()));
    }
    let mut wire: Vec<String> = ms.iter().map(|m| m.b.clone()).collect();
    let complete = wire.len();
    if let Tail::Partial(Some(m)) = &tail {
        wire.push(m.b.clone());
    }
    let out = c.io.out();
    let mut h = 0;
    for (i, (r, q)) in c.recs.borrow().iter().zip(&x.calls).enumerate() {
        if r.outcomes == 0 {
            return viol("call never resolves", desc());
        }
        if r.outcomes > 1 {
            return viol("more than one outcome", desc());
        }
        let times = wire.iter().filter(|u| **u == q.uri).count();
        if times > 1 {
            return viol("request written twice", desc());
        }
        let bytes_on_wire = out.windows(q.uri.len() + 2).any(|w| w == format!(" {} ", q.uri).as_bytes());
        match &r.outcome {
            Outcome::Pending => unreachable!(),
            Outcome::NotReady(_) => {
                if bytes_on_wire {
                    return viol("request written although it was never given to the connection", desc());
                }
                h = h * 7 + 1;
            }
            Outcome::Cancelled => {
                // cancelled while still queued: never written
                if let (true, Some(n)) = (x.prompt, seen.borrow()[i]) {
                    let then = out[..n].windows(q.uri.len() + 2).any(|w| w == format!(" {} ", q.uri).as_bytes());
                    if !then && bytes_on_wire {
                        return viol("request written after it was cancelled", desc());
                    }
                }
                h = h * 7 + 2;
            }
            Outcome::Failed(e, back) => {
                if *back && bytes_on_wire {
                    return viol("request handed back although it was written", desc());
                }
                if e.canceled && bytes_on_wire && complete > 0 && ms.iter().any(|m| m.b == q.uri) {
                    return viol("written request reported as cancelled before being sent", desc());
                }
                if q.recover && !*back && !bytes_on_wire && x.prompt && !x.script.contains(&P::WriteErr) {
                    return viol("request never written but not handed back", desc());
                }
                h = h * 7 + 3 + *back as u64;
            }
            Outcome::Resp => {
                let who = r.headers.iter().find(|(n, _)| n == "x-for").map(|(_, v)| String::from_utf8_lossy(v).to_string()).unwrap_or_default();
                let g = r.got.borrow();
                if who != q.uri {
                    // A stray response can only be told from an answer while nothing is outstanding.
                    // (and only if the transport did not sit on it meanwhile).
                    if p.stray.get() && (!x.prompt || !p.stray_idle.get() && !x.script.contains(&P::Double)) {
                        h = h * 7 + 6;
                        continue;
                    }
                    return viol("response of another request", desc());
                }
                if g.end == End::Clean && g.data != q.uri.as_bytes() {
                    return viol("wrong body", desc());
                }
                if g.end == End::Unfinished && q.take == Take::Full {
                    return viol("response body never resolves", desc());
                }
                h = h * 7 + 5;
            }
        }
    }
    // bytes while idle are an error of the connection, not something to be kept for later
    if p.stray_idle.get() && x.prompt && !c.ctl.0.killed.get() {
        match &result1 {
            Some(Err(_)) => {}
            other => {
                let dropped_first = c.tx.borrow().is_none() && x.drop_tx;
                let closed_before = x.script.iter().any(|s| matches!(s, P::ReplyClose | P::ReplyEof | P::Eof | P::Half | P::Reset | P::WriteErr)) || x.drop_tx || dropped_first || c.recs.borrow().iter().any(|r| matches!(r.outcome, Outcome::Failed(..))) || x.calls.iter().any(|q| q.cancel);
                if !closed_before {
                    return viol("unsolicited bytes on an idle connection are not an error", format!("{other:?}\n{}", desc()));
                }
            }
        }
    }
    Ok(h)
}

const SCRIPTS: &[(&str, &[P])] = &[
    ("ok", &[P::Reply, P::Reply, P::Reply]),
    ("split", &[P::Split, P::Interim, P::Reply]),
    ("early", &[P::Early, P::Early, P::Reply]),
    ("close1", &[P::ReplyClose, P::Reply]),
    ("eof1", &[P::ReplyEof]),
    ("close-eof", &[P::ReplyClose, P::Eof]),
    ("double", &[P::Double, P::Reply]),
    ("ok-double", &[P::Reply, P::Double]),
    ("half", &[P::Half]),
    ("ok-half", &[P::Reply, P::Half]),
    ("unasked", &[P::Unasked, P::Reply, P::Reply]),
    ("ok-unasked", &[P::Reply, P::Unasked, P::Reply]),
    ("garbage", &[P::Garbage]),
    ("ok-garbage", &[P::Reply, P::Garbage]),
    ("eof", &[P::Eof]),
    ("ok-eof", &[P::Reply, P::Eof]),
    ("reset", &[P::Reset]),
    ("ok-reset", &[P::Reply, P::Reset]),
    ("werr", &[P::WriteErr]),
    ("ok-werr", &[P::Reply, P::WriteErr]),
    ("silent", &[]),
];
pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let up = BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Pending, BStep::Data(b"cd".to_vec())], hint: Hint::Unknown, eos: false };
    let bad = BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Pending, BStep::Err], hint: Hint::Unknown, eos: false };
    let callsets: Vec<(&str, Vec<h1cli::Call>)> = vec![
        ("seq", vec![call("GET", "/a").recover(), call("GET", "/b").recover().after(1), call("GET", "/c").after(2)]),
        ("queue", vec![call("GET", "/a").not_ready().recover(), call("GET", "/b").recover().not_ready()]),
        ("queue-ready", vec![call("GET", "/a"), call("POST", "/b").recover().not_ready().body(up.clone())]),
        ("cancel1", vec![call("GET", "/a").cancel(), call("GET", "/b").recover().after(1)]),
        ("cancel2", vec![call("GET", "/a"), call("GET", "/b").not_ready().cancel()]),
        ("cancel12", vec![call("POST", "/a").body(up.clone()).cancel(), call("GET", "/b").not_ready().recover().cancel()]),
        ("upload", vec![call("POST", "/a").body(up.clone()).recover(), call("GET", "/b").after(1)]),
        ("upload-fails", vec![call("POST", "/a").body(bad).recover(), call("GET", "/b").recover().after(1)]),
        ("dropped-body", vec![call("GET", "/a").take(Take::Drop), call("GET", "/b").after(1).take(Take::Frames(1))]),
    ];
    let plain = IoPolicy { read: Cuts::Never, ..IO_PLAIN };
    for (cn, calls) in &callsets {
        for (sn, script) in SCRIPTS {
            for (pn, pol, prompt, d) in [("prompt", plain, true, tier.pick(3, 4)), ("io", IoPolicy { read: Cuts::Few, ..IO_ALL }, false, tier.pick(2, 3))] {
                for (mn, kill, drop_tx) in [("plain", false, false), ("fault", true, true)] {
                    let x = Sc { calls: calls.clone(), script, kill, drop_tx, pol, prompt };
                    sc.push(scenario(format!("{cn}/{sn}/{pn}/{mn}"), d, move |ch| run(ch, &x)));
                }
            }
        }
    }
    Check {
        id: "C09",
        scenarios: sc,
        rule: "Every interleaving within the bound of callers (sequential, queued, cancelled, recovering, uploading), connection task, peer script step, sender drop, connection drop; every response names the request it answers, so a crossed or stray response is seen at once.".into(),
        assumptions: vec!["bytes that arrive while a request is on the wire are its answer".into()],
    }
}
