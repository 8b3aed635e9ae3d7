//! C11: HTTP/1 graceful shutdown finishes the exchange in flight and takes no more.

use crate::core::*;
use crate::h1ref::Tail;
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
struct S {
    reqs: Vec<&'static str>,
    behs: Vec<Beh>,
    opts: u8,
    drive: u8,
    /// the bytes arrive in this many pieces at most
    pieces: usize,
    pol: IoPolicy,
    /// response bodies in order
    want: Vec<&'static str>,
    /// request bodies in order
    sent: Vec<&'static str>,
    /// the service fails for this request
    timer: bool,
}
struct Snap {
    calls: usize,
    responded: Vec<bool>,
    out: usize,
    finished: bool,
    /// bytes the connection had read
    read: usize,
}
fn conn_has(m: &crate::h1ref::Msg, t: &str) -> bool {
    m.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("connection")).any(|(_, v)| String::from_utf8_lossy(v).split(',').any(|x| x.trim().eq_ignore_ascii_case(t)))
}
fn run(ch: &Ch, x: &S) -> ExecResult {
    let opts = x.opts;
    let timer = x.timer;
    let mut cfg = SrvCfg::new(x.behs.clone()).pol(x.pol).tweak(move |b, e| {
        if opts & 1 != 0 {
            b.pipeline_flush(true);
        }
        if opts & 2 != 0 {
            b.half_close(true);
        }
        if timer {
            b.timer(VTimer::new(e));
            b.header_read_timeout(std::time::Duration::from_secs(5));
        }
    });
    cfg.upgrades = x.drive == 1;
    cfg.manual = x.drive == 2;
    let mut s = h1srv::start(ch, cfg);
    let wire: Vec<u8> = x.reqs.concat().into_bytes();
    // request boundaries and the middle of everything in between
    let mut marks = vec![];
    let mut at = 0;
    for r in &x.reqs {
        let head = r.find("\r\n\r\n").unwrap() + 4;
        for p in [0, 5, head - 2, head, head + 1, head + 4, r.len() - 1] {
            if p <= r.len() && at + p > 0 && at + p < wire.len() {
                marks.push(at + p);
            }
        }
        at += r.len();
    }
    marks.sort();
    marks.dedup();
    let mut cuts = vec![];
    let mut lo = 0;
    for _ in 1..x.pieces {
        let rest: Vec<usize> = marks.iter().copied().filter(|m| *m > lo).collect();
        let k = ch.free(rest.len() + 1, "cut");
        if k == 0 {
            break;
        }
        lo = rest[k - 1];
        cuts.push(lo);
    }
    cuts.push(wire.len());
    let step: Rc<std::cell::Cell<usize>> = Default::default();
    let mut from = 0;
    for (k, c) in cuts.iter().enumerate() {
        let (b, io, st, st2) = (wire[from..*c].to_vec(), s.io.clone(), step.clone(), step.clone());
        from = *c;
        s.env.event_when("bytes arrive", false, move || st.get() == k, move || {
            st2.set(k + 1);
            io.push(&b)
        });
    }
    let snap: Rc<RefCell<Option<Snap>>> = Default::default();
    let take = {
        let (snap, recs, io, res, ctl) = (snap.clone(), s.recs.clone(), s.io.clone(), s.result.clone(), s.ctl.clone());
        move || {
            let r = recs.borrow();
            let st = io.s.borrow();
            *snap.borrow_mut() = Some(Snap { calls: r.len(), responded: r.iter().map(|r| r.responded).collect(), out: st.out.len(), finished: res.borrow().is_some(), read: st.nread });
            drop((r, st));
            ctl.graceful();
        }
    };
    {
        let (snap, take) = (snap.clone(), take.clone());
        s.env.event_dev("graceful shutdown requested", move || snap.borrow().is_none(), take);
    }
    let mut livelock = s.w.run() == RunEnd::StepLimit;
    let late = snap.borrow().is_none();
    let calls_before = s.recs.borrow().len();
    if late {
        // at the latest when everything has come to rest: the connection is idle or done
        take();
        livelock |= s.w.run() == RunEnd::StepLimit;
    }
    let snap = snap.borrow_mut().take().unwrap();
    let st = crate::h1ref::responses(&s.io.out(), &s.methods(), x.drive == 2 || s.io.s.borrow().shut);
    let recs = s.recs.borrow();
    let desc = || {
        format!(
            "{x:?}\ncuts {cuts:?}; at the request: {} calls, responded {:?}, {} bytes out, {} read, finished {}\nshut {} result {:?}\nservice saw\n{}wire {:?}",
            snap.calls,
            snap.responded,
            snap.out,
            snap.read,
            snap.finished,
            s.io.s.borrow().shut,
            s.result.borrow(),
            s.seen(),
            esc(&s.io.out())
        )
    };
    if livelock {
        return viol("livelock", desc());
    }
    if !s.w.is_done(s.conn) {
        return viol("connection does not finish after graceful shutdown", desc());
    }
    match s.result.borrow().as_ref() {
        Some(Ok(())) => {}
        _ => return viol("graceful shutdown ends in an error", desc()),
    }
    if x.drive != 2 && !s.io.s.borrow().shut {
        return viol("transport not shut down", desc());
    }
    if s.io.s.borrow().out_after_shut > 0 {
        return viol("bytes written after the close", desc());
    }
    if recs.len() > snap.calls.max(1) {
        return viol("a later request reaches the service", desc());
    }
    if late && recs.len() != calls_before {
        return viol("a request reaches the service after graceful shutdown of an idle connection", desc());
    }
    if st.tail != Tail::Clean || st.msgs.len() != recs.len() {
        return viol("an exchange in flight does not complete", format!("{:?}\n{}", st.tail, desc()));
    }
    for (i, r) in recs.iter().enumerate() {
        let m = &st.msgs[i].1;
        if m.body != x.want[i].as_bytes() {
            return viol("response body of an exchange in flight is cut", desc());
        }
        let g = r.got.borrow();
        let beh = x.behs.get(i).unwrap_or(x.behs.last().unwrap());
        match beh.consume {
            Consume::Full | Consume::Spawned | Consume::SpawnedLate | Consume::Echo => {
                if beh.consume != Consume::Echo && (g.end != End::Clean || g.data != x.sent[i].as_bytes()) {
                    return viol("request body of an exchange in flight is cut", desc());
                }
            }
            _ => {}
        }
        let responded = snap.responded.get(i).copied().unwrap_or(false);
        let last = i + 1 == recs.len();
        if last && !responded && m.minor == 1 && !conn_has(m, "close") {
            return viol("the response written after graceful shutdown does not announce the close", desc());
        }
        if last && !responded && conn_has(m, "keep-alive") {
            return viol("the response written after graceful shutdown promises keep-alive", desc());
        }
    }
    Ok(mix(recs.len() as u64, st.msgs.len() as u64 * 2 + late as u64))
}

pub fn check(tier: Tier) -> Check {
    let get1 = "GET /1 HTTP/1.1\r\nHost: h\r\n\r\n";
    let get10 = "GET /1 HTTP/1.0\r\nConnection: keep-alive\r\n\r\n";
    let post = "POST /2 HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhello";
    let chunked = "POST /3 HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n";
    let expect = "POST /4 HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\nhello";
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let stream = |eos: bool, hint: Hint| RespSpec { body: BodySpec { steps: vec![d("ab"), BStep::Pending, d("cd")], hint, eos }, ..RespSpec::ok("") };
    let ka = |mut r: RespSpec| {
        r.headers.push(("connection", b"keep-alive"));
        r
    };
    let close = |mut r: RespSpec| {
        r.headers.push(("connection", b"close"));
        r
    };
    let resps: Vec<(&str, RespSpec, &'static str)> = vec![
        ("empty", RespSpec::ok(""), ""),
        ("full", RespSpec::ok("full"), "full"),
        ("stream", stream(false, Hint::Unknown), "abcd"),
        ("sized", stream(true, Hint::Exact), "abcd"),
        ("ka", ka(RespSpec::ok("full")), "full"),
        ("close", close(stream(false, Hint::Unknown)), "abcd"),
    ];
    let reqs: Vec<(&str, &'static str, &'static str)> = vec![("get", get1, ""), ("get10", get10, ""), ("post", post, "hello"), ("chunked", chunked, "hello"), ("expect", expect, "hello")];
    let mut sc = vec![];
    let pol = IoPolicy { read: Cuts::Never, read_pending: false, ..IO_ALL };
    for (rn, r, sent) in &reqs {
        for (pn, p, want) in &resps {
            for consume in [Consume::Full, Consume::Ignore, Consume::DropFirst, Consume::Frames(1), Consume::Spawned, Consume::SpawnedLate] {
                if sent.is_empty() && consume != Consume::Full {
                    continue;
                }
                // an unread body is not what is under test where the peer waits for 100 Continue
                for (second, nreq) in [(false, 1), (true, 2)] {
                    for (opts, drive) in [(0u8, 0u8), (1, 0), (2, 0), (0, 1), (0, 2)] {
                        if (opts, drive) != (0, 0) && (!second || !matches!(*pn, "full" | "stream")) {
                            continue;
                        }
                        for delay in [0u8, 1, 2] {
                            if delay != 0 && (opts, drive) != (0, 0) {
                                continue;
                            }
                            let mut b = Beh::simple("").resp(p.clone()).consume(consume.clone());
                            if delay == 1 {
                                b = b.delay();
                            } else if delay == 2 {
                                if consume == Consume::Full {
                                    continue;
                                }
                                b = b.late();
                            }
                            let x = S {
                                reqs: if second { vec![r, get1] } else { vec![r] },
                                behs: vec![b, Beh::simple("next")],
                                opts,
                                drive,
                                pieces: tier.pick(2, 3),
                                pol,
                                want: vec![want, "next"],
                                sent: vec![sent, ""],
                                timer: false,
                            };
                            let dd = if nreq == 1 { tier.pick(2, 4) } else { tier.pick(2, 3) };
                            sc.push(scenario(format!("{rn}/{pn}/{consume:?}/{nreq}/{opts}/{drive}/{delay}"), dd, move |ch| run(ch, &x)));
                        }
                    }
                }
            }
        }
    }
    // a second exchange in flight, and reads cut by the transport
    for (rn, r, sent) in &reqs {
        let x = S {
            reqs: vec![get1, r, get1],
            behs: vec![Beh::simple("one"), Beh::simple("").resp(stream(false, Hint::Unknown)).delay(), Beh::simple("next")],
            opts: 0,
            drive: 0,
            pieces: 2,
            pol: IoPolicy { read: Cuts::Few, ..IO_ALL },
            want: vec!["one", "abcd", "next"],
            sent: vec!["", sent, ""],
            timer: true,
        };
        sc.push(scenario(format!("third/{rn}"), tier.pick(2, 3), move |ch| run(ch, &x)));
    }
    Check {
        id: "C11",
        scenarios: sc,
        rule: "Graceful shutdown requested at every point of the schedule (before the first byte, within heads and bodies, while the service works, between the frames of the response, before, during and after its flush, when idle), for every cut of the request bytes at message boundaries and within, with transport blocking and partial writes within the bound.".into(),
        assumptions: vec!["the peer sends what it announced; a partial head that is never completed is bounded by the header read timeout (C12), not by graceful shutdown".into()],
    }
}
