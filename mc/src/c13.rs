//! C13: exactly one 100 Continue, sent only when the body is wanted in time.

use crate::core::*;
use crate::h1cli::{peer, when, Act, Do, Trig};
use crate::h1ref::{self, Tail};
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;

/// One request and what becomes of it.
#[derive(Clone, Debug)]
struct Q {
    minor: u8,
    expect: Option<&'static str>,
    /// None: no body; otherwise Content-Length or chunked
    body: Option<(&'static str, bool)>,
    beh: Beh,
    want: &'static str,
}
impl Q {
    fn head(&self, i: usize) -> String {
        let mut s = format!("{} /{i} HTTP/1.{}\r\nHost: h\r\n", if self.body.is_some() { "POST" } else { "GET" }, self.minor);
        if self.minor == 0 {
            s += "Connection: keep-alive\r\n";
        }
        if let Some(e) = self.expect {
            s += &format!("Expect: {e}\r\n");
        }
        match self.body {
            Some((b, false)) => s += &format!("Content-Length: {}\r\n", b.len()),
            Some((_, true)) => s += "Transfer-Encoding: chunked\r\n",
            None => {}
        }
        s + "\r\n"
    }
    fn body(&self) -> String {
        match self.body {
            None => String::new(),
            Some((b, false)) => b.to_string(),
            Some(("", true)) => "0\r\n\r\n".into(),
            Some((b, true)) => format!("{:x}\r\n{b}\r\n0\r\n\r\n", b.len()),
        }
    }
    /// the peer waits with the body
    fn expects(&self) -> bool {
        self.minor == 1 && self.expect.is_some_and(|e| e.eq_ignore_ascii_case("100-continue")) && self.body.is_some_and(|(b, ch)| ch || !b.is_empty())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    /// everything at once
    Eager,
    /// head; body once a 100 or the final response is there; next after the response
    Polite,
    /// head and half the body, the rest at once after
    Half,
}
#[derive(Clone, Debug)]
struct S {
    qs: Vec<Q>,
    peer: P,
    pol: IoPolicy,
    opts: u8,
    wcap: Option<usize>,
}
/// (number of interim heads, number of complete final responses) flushed so far, beginnings of a final one count with `begun`
fn progress(b: &[u8]) -> (usize, usize, bool) {
    let r = h1ref::responses(b, &[], false);
    let n100 = r.msgs.iter().map(|(i, _)| i.len()).sum::<usize>() + r.pending_1xx.len();
    (n100, r.msgs.len(), matches!(r.tail, Tail::Partial(Some(_))))
}
fn run(ch: &Ch, x: &S) -> ExecResult {
    let opts = x.opts;
    let cfg = SrvCfg::new(x.qs.iter().map(|q| q.beh.clone()).collect()).pol(x.pol).tweak(move |b, _| {
        if opts & 1 != 0 {
            b.pipeline_flush(true);
        }
        if opts & 2 != 0 {
            b.half_close(true);
        }
        if opts & 4 != 0 {
            b.writev(false);
        }
    });
    let mut s = h1srv::start(ch, cfg);
    s.io.s.borrow_mut().wcap = x.wcap;
    match x.peer {
        P::Eager => {
            let all: String = x.qs.iter().enumerate().map(|(i, q)| q.head(i) + &q.body()).collect();
            s.io.push(all.as_bytes());
        }
        _ => {
            let mut acts = vec![];
            let mut hundreds = 0;
            for (i, q) in x.qs.iter().enumerate() {
                let t = if i == 0 { Trig::Now } else { when(move |b| progress(b).1 >= i) };
                let (h, b) = (q.head(i), q.body());
                if x.peer == P::Half && !b.is_empty() {
                    let m = b.len() / 2;
                    acts.push(Act(t, Do::Send((h + &b[..m]).into_bytes())));
                    acts.push(Act(Trig::Now, Do::Send(b.as_bytes()[m..].to_vec())));
                } else {
                    acts.push(Act(t, Do::Send(h.into_bytes())));
                    if !b.is_empty() {
                        let need = hundreds + 1;
                        let t = if q.expects() {
                            when(move |w| {
                                let (n, f, begun) = progress(w);
                                n >= need || f > i || f == i && begun
                            })
                        } else {
                            Trig::Now
                        };
                        acts.push(Act(t, Do::Send(b.into_bytes())));
                    }
                }
                // at most one per request that expects; those never sent do not matter for the peer
                if q.expects() && matches!(q.beh.consume, Consume::Full) {
                    hundreds += 1;
                }
            }
            peer(&s.env, &s.io, acts);
        }
    }
    if x.wcap.is_some() {
        let io = s.io.clone();
        s.env.event("the transport drains", move || io.add_wcap(None));
    }
    let mut livelock = s.w.run() == RunEnd::StepLimit;
    let mid = s.result.borrow().is_some();
    s.io.push_eof();
    livelock |= s.w.run() == RunEnd::StepLimit;
    let st = s.responses();
    let recs = s.recs.borrow();
    let desc = || format!("{x:?}\nfinished before the end of stream {mid}, result {:?}\nservice saw\n{}wire {:?}", s.result.borrow(), s.seen(), esc(&s.io.out()));
    if livelock {
        return viol("livelock", desc());
    }
    if let Some(b) = s.contract_violation() {
        return viol("body contract", format!("{b}\n{}", desc()));
    }
    if st.tail != Tail::Clean || !st.pending_1xx.is_empty() {
        return viol("output is not a sequence of responses", format!("{:?} {:?}\n{}", st.tail, st.pending_1xx, desc()));
    }
    if st.msgs.len() != recs.len() || recs.is_empty() {
        return viol("requests and responses do not correspond", desc());
    }
    let mut h = 0;
    for (i, ((interim, m), r)) in st.msgs.iter().zip(recs.iter()).enumerate() {
        let q = &x.qs[i];
        if r.uri != format!("/{i}") || r.method != if q.body.is_some() { "POST" } else { "GET" } {
            return viol("request misread", desc());
        }
        if m.body != q.want.as_bytes() {
            return viol("final response damaged", desc());
        }
        if interim.iter().any(|c| *c != 100) || interim.len() > 1 {
            return viol("more than one 100 Continue", desc());
        }
        let n = interim.len();
        h = h * 3 + n as u64;
        match (q.expects(), &q.beh.consume) {
            (false, _) if n > 0 => return viol("100 Continue for a request that does not expect it", desc()),
            (true, Consume::Full) if n != 1 => return viol("no 100 Continue although the body was asked for first", desc()),
            (true, Consume::DropFirst | Consume::Ignore | Consume::HoldForever) if n != 0 => return viol("100 Continue although nobody asked for the body", desc()),
            _ => {}
        }
        let g = r.got.borrow();
        let b = q.body.map(|b| b.0).unwrap_or("");
        if g.end == End::Clean && g.data != b.as_bytes() {
            return viol("request body misread", desc());
        }
        if !b.as_bytes().starts_with(&g.data) {
            return viol("request body damaged", desc());
        }
        if matches!(q.beh.consume, Consume::Full | Consume::Spawned | Consume::SpawnedLate) && (g.end != End::Clean || g.data != b.as_bytes()) {
            return viol("request body not delivered", desc());
        }
    }
    let all_read = x.qs.iter().all(|q| matches!(q.beh.consume, Consume::Full | Consume::Spawned | Consume::SpawnedLate) || q.body.is_none_or(|(b, ch)| b.is_empty() && !ch));
    if all_read && recs.len() != x.qs.len() {
        return viol("a later request is lost", desc());
    }
    // where the body was not wanted the connection may also end; what was served is what was sent
    Ok(mix(h, recs.len() as u64 * 2 + mid as u64))
}

pub fn check(tier: Tier) -> Check {
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let big: &'static str = Box::leak("R".repeat(3000).into_boxed_str());
    let resps: Vec<(&str, RespSpec, &'static str)> = vec![
        ("full", RespSpec::ok("done"), "done"),
        ("stream", RespSpec { body: BodySpec { steps: vec![d("do"), BStep::Pending, d("ne")], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") }, "done"),
        ("big", RespSpec { body: BodySpec { steps: vec![d(big), d("x")], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") }, Box::leak(format!("{big}x").into_boxed_str())),
        ("empty", RespSpec::ok(""), ""),
    ];
    let consumes = [Consume::Full, Consume::DropFirst, Consume::Ignore, Consume::Frames(0), Consume::Frames(1), Consume::Spawned, Consume::SpawnedLate];
    let mk = |minor: u8, expect, body, c: &Consume, r: &(&str, RespSpec, &'static str), delay: u8| {
        let mut beh = Beh::simple("").consume(c.clone()).resp(r.1.clone());
        beh.delay = delay == 1;
        beh.late = delay == 2;
        Q { minor, expect, body, beh, want: r.2 }
    };
    let last = mk(1, None, None, &Consume::Full, &resps[0], 0);
    let io = IoPolicy { read: Cuts::Never, ..IO_ALL };
    let mut sc = vec![];
    let expects: [(&str, u8, Option<&'static str>); 5] = [("100", 1, Some("100-continue")), ("case", 1, Some("100-Continue")), ("other", 1, Some("200-ok")), ("none", 1, None), ("http10", 0, Some("100-continue"))];
    for (en, minor, e) in expects {
        for (bn, body) in [("len", Some(("hello", false))), ("chunked", Some(("hello", true))), ("zero", Some(("", false))), ("empty-chunked", Some(("", true))), ("nobody", None)] {
            if minor == 0 && bn.contains("chunked") {
                continue;
            }
            for c in &consumes {
                for r in &resps {
                    for delay in [0u8, 1, 2] {
                        for p in [P::Eager, P::Polite, P::Half] {
                            if en != "100" && (delay == 1 || p == P::Half || r.0 == "big") {
                                continue;
                            }
                            if delay != 0 && (r.0 == "big" || r.0 == "empty") {
                                continue;
                            }
                            // to an HTTP/1.0 peer a body of unknown length ends the connection
                            if minor == 0 && matches!(r.0, "stream" | "big") {
                                continue;
                            }
                            let q = mk(minor, e, body, c, r, delay);
                            let x = S { qs: vec![q, last.clone()], peer: p, pol: io, opts: 0, wcap: None };
                            let b = if en == "100" { tier.pick(2, 4) } else { tier.pick(1, 2) };
                            sc.push(scenario(format!("{en}/{bn}/{c:?}/{}/{delay}/{p:?}", r.0), b, move |ch| run(ch, &x)));
                        }
                    }
                }
            }
        }
    }
    // an expecting request behind another, whose response is still on its way out
    let body = Some(("hello", false));
    for c1 in [Consume::Full, Consume::Spawned, Consume::SpawnedLate, Consume::Ignore] {
        for e1 in [None, Some("100-continue")] {
            for r in &resps {
                for c2 in &consumes {
                    for p in [P::Eager, P::Polite, P::Half] {
                        for opts in [0u8, 1, 2, 4] {
                            for wcap in [None, Some(60), Some(500)] {
                                if opts != 0 && (p != P::Eager || wcap == Some(60)) || wcap.is_some() && p == P::Polite {
                                    continue;
                                }
                                let q1 = mk(1, e1, body, &c1, r, 0);
                                let q2 = mk(1, Some("100-continue"), body, c2, &resps[0], 0);
                                let x = S { qs: vec![q1, q2, last.clone()], peer: p, pol: io, opts, wcap };
                                sc.push(scenario(format!("pair/{c1:?}/{}/{}/{c2:?}/{p:?}/{opts}/{}", e1.is_some(), r.0, wcap.unwrap_or(0)), tier.pick(1, 2), move |ch| run(ch, &x)));
                            }
                        }
                    }
                }
            }
        }
    }
    // cut reads
    for c in &consumes {
        let q = mk(1, Some("100-continue"), Some(("hello", true)), c, &resps[1], 0);
        let x = S { qs: vec![q, last.clone()], peer: P::Eager, pol: IoPolicy { read: Cuts::All, ..IO_ALL }, opts: 0, wcap: None };
        sc.push(scenario(format!("cuts/{c:?}"), tier.pick(2, 2), move |ch| run(ch, &x)));
    }
    Check {
        id: "C13",
        scenarios: sc,
        rule: "Every combination of expectation, version, body framing, consumer, response and peer behaviour, alone and behind another exchange, under every schedule and transport answer within the bound; interim heads are counted per final response on the wire.".into(),
        assumptions: vec!["a peer that got a final response instead of 100 Continue still sends the body it announced".into()],
    }
}
