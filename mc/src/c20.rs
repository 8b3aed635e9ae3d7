//! C20: HTTP/2 graceful shutdown drains accepted streams and then ends.

use crate::c18::{b, cwin, d, path, req, resp, swin, Win};
use crate::c19::sid;
use crate::core::*;
use crate::h1cli::{Call, Outcome};
use crate::h1srv::{Beh, Consume, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stop {
    Graceful,
    /// graceful shutdown asked for again and again
    Twice,
    LastSender,
}
#[derive(Clone)]
struct Y {
    calls: Vec<Call>,
    behs: Vec<Beh>,
    c: Win,
    s: Win,
    pol: IoPolicy,
    stop: Stop,
    /// the shutdown happens before anything else
    first: bool,
}
/// Call `i` ran as if there were no shutdown.
fn complete(h: &H2, i: usize, c: &Call, be: &Beh, what: &str) -> Result<(), Viol> {
    let q = h.calls.borrow();
    let q = &q[i];
    if q.outcome != Outcome::Resp {
        return viol(digits(&format!("{what} was not completed: {:?}", q.outcome)).chars().take(150).collect::<String>(), format!("call {i}\n{}", h.summary()));
    }
    let g = q.got.borrow();
    if g.end != End::Clean || g.data != be.resp.body.data() {
        return viol(format!("the response of {what} was cut off"), format!("call {i}\n{}", h.summary()));
    }
    let reqs = h.reqs.borrow();
    if let Some(r) = reqs.iter().find(|r| r.uri == c.uri) {
        let g = r.got.borrow();
        if !matches!(g.end, End::Stopped) && (g.end != End::Clean || g.data != c.body.data()) {
            return viol(format!("the request body of {what} was cut off"), format!("call {i}\n{}", h.summary()));
        }
    }
    Ok(())
}
fn ended(h: &H2, client: bool, server: bool) -> Result<(), Viol> {
    let (c, s) = (h.cres.borrow().clone(), h.sres.borrow().clone());
    if client && c != Some(Ok(())) {
        return viol(digits(&format!("the client's connection does not end well: {c:?}")).chars().take(150).collect::<String>(), h.summary());
    }
    if server && s != Some(Ok(())) {
        return viol(digits(&format!("the server's connection does not end well: {s:?}")).chars().take(150).collect::<String>(), h.summary());
    }
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-") || n.starts_with("s-") || n.starts_with("call")).collect();
    if !left.is_empty() {
        return viol(format!("left running: {}", left.join(",")), h.summary());
    }
    Ok(())
}
fn pair(ch: &Ch, y: &Y) -> ExecResult {
    let mut h = H2::pair(ch, y.pol, cwin(y.c), swin(y.s), y.behs.clone());
    let stopped = Rc::new(Cell::new(false));
    match y.stop {
        Stop::Graceful | Stop::Twice => {
            if y.first {
                h.sctl.graceful();
            } else {
                h.sctl.arm_graceful(&h.env);
            }
        }
        Stop::LastSender => {
            let (tx, s1, s2, t2) = (h.tx.clone(), stopped.clone(), stopped.clone(), h.tx.clone());
            h.env.event_dev(
                "last sender dropped",
                move || !s1.get() && t2.borrow().is_some(),
                move || {
                    s2.set(true);
                    let t = tx.borrow_mut().take();
                    drop(t);
                },
            );
        }
    }
    if y.c.stream.is_some() || y.s.stream.is_some() || y.s.max_streams.is_some() {
        h.w.run();
    }
    for c in &y.calls {
        h.caller(c.clone());
    }
    h.w.run();
    h.sync();
    h.contract()?;
    let graceful = h.sctl.0.graceful.get();
    if !graceful && !stopped.get() {
        for (i, c) in y.calls.iter().enumerate() {
            complete(&h, i, c, &y.behs[i], "an undisturbed exchange")?;
        }
        h.drop_sender();
        h.w.run();
        h.sync();
    }
    h.contract()?;
    for (i, c) in y.calls.iter().enumerate() {
        let o = h.outcome(i);
        if o == Outcome::Pending {
            return viol("an exchange hangs after the shutdown", h.summary());
        }
        let served = h.reqs.borrow().iter().filter(|r| r.uri == c.uri).count();
        if served > 1 {
            return viol("a request was served twice", h.summary());
        }
        if served == 1 {
            complete(&h, i, c, &y.behs[i], "an accepted stream")?;
        } else if graceful {
            if o == Outcome::Resp {
                return viol("a response to a request that was never served", h.summary());
            }
        } else if o != Outcome::Cancelled {
            // handed over before the last sender went away
            return viol(digits(&format!("a request handed over before the last sender was dropped was not sent: {o:?}")).chars().take(150).collect::<String>(), h.summary());
        }
        // ids the peer was told will not be processed were not processed, the others were
        if let (Some(id), Some(last)) = (sid(&h.cw.borrow(), &c.uri), h.sw.borrow().goaways.last()) {
            if graceful && id > last.0 && served > 0 {
                return viol("a stream beyond the announced last one was served", h.summary());
            }
            if graceful && id <= last.0 && served == 0 {
                return viol("an announced stream was not served", h.summary());
            }
        }
    }
    if graceful {
        let sw = h.sw.borrow();
        let Some(g) = sw.goaways.last() else { return viol("the peer was not told to stop", h.summary()) };
        if g.1 != r2::NO_ERROR {
            return viol("a graceful shutdown told the peer of an error", h.summary());
        }
    }
    ended(&h, true, true)?;
    Ok(h.fp())
}

/// A raw client: stream 1 before, stream 3 around, stream 5 after the final GOAWAY.
fn raw_client(ch: &Ch, be: &Beh, body: bool, stop: Stop, late_preface: bool, win: Win) -> ExecResult {
    let mut h = H2::new(ch, IO_FEW);
    let mut cfg = SrvCfg::new(vec![be.clone()]);
    cfg.default = be.clone();
    h.server(swin(win), cfg);
    let p = h.raw_client();
    h.auto(&p, 99);
    let e = h.env.clone();
    // the shutdown is certain, at every position
    let ctl = h.sctl.clone();
    let (c1, c2) = (ctl.clone(), ctl.clone());
    e.event_when("graceful shutdown", true, move || !c1.0.graceful.get(), move || c2.graceful());
    if stop == Stop::Twice {
        let (c1, c2) = (ctl.clone(), ctl.clone());
        e.event_when("graceful shutdown again", true, move || c1.0.graceful.get(), move || c2.graceful());
    }
    let hd = |id: u32| r2::headers(id, &[(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", "/p/0")], !body);
    let (h1, h3, h5) = (hd(1), hd(3), hd(5));
    let p2 = p.clone();
    h.w.add("peer", async move {
        if late_preface {
            wait_event(&p2.env, "peer starts").await;
        }
        let mut x = r2::PREFACE.to_vec();
        x.extend(r2::settings(&[]));
        p2.send(&x);
        p2.send(&h1);
        wait_event(&p2.env, "peer goes on").await;
        p2.send(&h3);
        if body {
            p2.send(&r2::data(1, b"one", true));
        }
        wait_event(&p2.env, "peer goes on").await;
        if body {
            p2.send(&r2::data(3, b"three", true));
        }
        // both announcements were seen
        p2.until(|r| r.goaways.len() >= 2).await;
        p2.send(&h5);
        if body {
            p2.send(&r2::data(5, b"five", true));
        }
    });
    h.w.run();
    h.sync_server();
    h.contract()?;
    let sw = h.sw.borrow();
    let Some(&(last, code)) = sw.goaways.last() else { return viol("the peer was not told to stop", h.summary()) };
    if code != r2::NO_ERROR {
        return viol("a graceful shutdown told the peer of an error", h.summary());
    }
    if sw.goaways.windows(2).any(|w| w[1].0 > w[0].0) {
        return viol("the announced last stream went up", h.summary());
    }
    if last >= 5 {
        return viol("a stream opened after the announcement was taken in", h.summary());
    }
    let served = [1u32, 3].iter().filter(|i| **i <= last).count();
    let reqs = h.reqs.borrow();
    if reqs.len() != served {
        return viol("announced and served streams differ", format!("last {last}, {} served\n{}", reqs.len(), h.summary()));
    }
    for id in [1u32, 3] {
        let s = sw.get(id);
        if id <= last && (s.data != be.resp.body.data() || !s.end || s.rst.is_some_and(|c| c != r2::NO_ERROR)) {
            return viol("an accepted stream was not completed", format!("stream {id}\n{}", h.summary()));
        }
    }
    if sw.get(5).heads.len() > 0 {
        return viol("a stream opened after the announcement was answered", h.summary());
    }
    drop((reqs, sw));
    ended(&h, false, true)?;
    Ok(h.fp())
}

#[derive(Clone)]
struct Away {
    calls: Vec<Call>,
    /// GOAWAY frames, in order: (last stream, code)
    away: Vec<(u32, u32)>,
    /// sent once that many requests have arrived
    after: usize,
    max_streams: Option<u32>,
    /// closes the transport right after
    eof: bool,
    /// answers the streams that it announces
    answers_first: bool,
    late_call: bool,
}
/// A raw server that announces that it stops.
fn raw_server(ch: &Ch, y: &Away) -> ExecResult {
    let mut h = H2::new(ch, IO_FEW);
    h.client(cwin(Win::default()));
    let p = h.raw_server();
    h.auto(&p, 99);
    p.send(&r2::settings(&y.max_streams.map(|n| vec![(3u16, n)]).unwrap_or_default()));
    h.w.run();
    for c in &y.calls {
        h.caller(c.clone());
    }
    let last = y.away.last().unwrap().0;
    let lastcode = y.away.last().unwrap().1;
    let (p2, y2) = (p.clone(), y.clone());
    h.w.add("peer", async move {
        let n = y2.after;
        p2.until(move |r| r.streams.values().filter(|s| !s.heads.is_empty()).count() >= n).await;
        let answer = |p2: Peer| async move {
            for k in 0.. {
                let id = 2 * k + 1;
                if id > last || id > 5 {
                    break;
                }
                // a stream that is announced as accepted but never opened need not be waited for
                p2.env.ch.log(|| format!("  peer waits for stream {id}"));
                p2.until(move |r| r.get(id).end).await;
                p2.send(&r2::ok(id, &[], false));
                wait_event(&p2.env, "peer goes on").await;
                p2.send(&r2::data(id, b"done", true));
            }
        };
        if y2.answers_first {
            answer(p2.clone()).await;
        }
        for (k, (l, c)) in y2.away.iter().enumerate() {
            if k > 0 {
                wait_event(&p2.env, "peer goes on").await;
            }
            p2.send(&r2::goaway(*l, *c));
        }
        if !y2.answers_first && !y2.eof {
            answer(p2.clone()).await;
        }
        if y2.eof {
            p2.eof();
        }
    });
    h.w.run();
    if y.late_call {
        h.caller(req(5, BodySpec::empty()));
        h.w.run();
    }
    h.sync_client();
    h.contract()?;
    let n = h.calls.borrow().len();
    for i in 0..n {
        let o = h.outcome(i);
        if o == Outcome::Pending {
            return viol("a request the peer does not process hangs", format!("call {i}\n{}", h.summary()));
        }
        let uri = if i < y.calls.len() { y.calls[i].uri.clone() } else { path(5) };
        let id = sid(&h.cw.borrow(), &uri);
        let accepted = id.is_some_and(|id| id <= last) && i < y.calls.len();
        let calls = h.calls.borrow();
        let g = calls[i].got.borrow();
        if accepted && (!y.eof || y.answers_first) && (lastcode == r2::NO_ERROR || y.answers_first) {
            if o != Outcome::Resp || g.end != End::Clean || g.data != b"done" {
                return viol("a stream the peer announced and answered failed", format!("call {i}\n{}", h.summary()));
            }
        } else if o == Outcome::Resp && g.end == End::Clean && g.data != b"done" {
            return viol("an unanswered request completed", format!("call {i}\n{}", h.summary()));
        }
        if !accepted && o == Outcome::Resp {
            return viol("a request the peer does not process completed", format!("call {i}\n{}", h.summary()));
        }
    }
    // the transport is gone: nothing is left to wait for
    if y.eof && h.cres.borrow().is_none() {
        return viol("the connection does not end although its peer is gone", h.summary());
    }
    // the end: with the peer's announcement and nothing left to do, or with the last sender
    h.drop_sender();
    h.w.run();
    h.sync_client();
    if lastcode == r2::NO_ERROR {
        ended(&h, true, false)?;
    } else if h.cres.borrow().is_none() {
        return viol("the connection does not end", h.summary());
    } else if *h.cres.borrow() == Some(Ok(())) {
        return viol("the peer's error is not reported", h.summary());
    }
    Ok(h.fp())
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let bound = t.pick(2, 3);
    let tiny = Win { stream: Some(4), ..Default::default() };
    let adapt = Win { adaptive: true, ..Default::default() };
    let one = Win { max_streams: Some(1), ..Default::default() };
    let slow = |s: [&str; 2]| b(vec![d(s[0]), BStep::Pending, d(s[1])], Hint::Unknown, false);
    let short = || (vec![req(0, BodySpec::empty())], vec![resp(0, BodySpec::full(b"hello"))]);
    let long = || (vec![req(0, slow(["re", "quest"]))], vec![resp(0, slow(["re", "sponse"]))]);
    let two = |after: usize| {
        (
            vec![req(0, slow(["a", "b"])), req(1, BodySpec::full(b"xyz")).after(after)],
            vec![resp(0, slow(["c", "d"])).consume(Consume::Spawned), resp(1, slow(["e", "f"]))],
        )
    };
    let three = || {
        (
            vec![req(0, BodySpec::empty()), req(1, BodySpec::full(b"xyz")), req(2, BodySpec::empty()).after(1)],
            vec![resp(0, BodySpec::full(b"0")).late(), resp(1, BodySpec::full(b"1")), resp(2, BodySpec::empty()).delay()],
        )
    };
    for stop in [Stop::Graceful, Stop::LastSender] {
        for (n, (calls, behs)) in [("short", short()), ("long", long()), ("two", two(0)), ("two-after", two(1)), ("three", three())] {
            for (wn, c, s) in [("", Win::default(), Win::default()), ("/tiny", tiny, tiny), ("/one-stream", Win::default(), one), ("/adaptive", adapt, adapt)] {
                let b2 = if n == "three" || n == "two" { t.pick(1, 2) } else { bound };
                for first in [false, true] {
                    if first && stop == Stop::LastSender {
                        continue;
                    }
                    let y = Y { calls: calls.clone(), behs: behs.clone(), c, s, pol: IO_FEW, stop, first };
                    sc.push(scenario(format!("pair/{stop:?}/{n}{wn}{}", if first { "/first" } else { "" }), b2, move |ch| pair(ch, &y)));
                }
            }
        }
    }
    for stop in [Stop::Graceful, Stop::Twice] {
        for (n, be) in [
            ("full", resp(0, BodySpec::full(b"hello"))),
            ("slow", resp(0, slow(["he", "llo"]))),
            ("late", resp(0, BodySpec::full(b"hello")).late()),
            ("spawned", resp(0, slow(["he", "llo"])).consume(Consume::Spawned)),
            ("empty", resp(0, BodySpec::empty())),
        ] {
            for body in [false, true] {
                for late in [false, true] {
                    for adaptive in [false, true] {
                        let be = be.clone();
                        let win = Win { adaptive, ..Win::default() };
                        sc.push(scenario(
                            format!("raw-client/{stop:?}/{n}{}{}{}", if body { "/body" } else { "" }, if late { "/late-preface" } else { "" }, if adaptive { "/adaptive" } else { "" }),
                            t.pick(1, 2),
                            move |ch| raw_client(ch, &be, body, stop, late, win),
                        ));
                    }
                }
            }
        }
    }
    let big = (1u32 << 31) - 1;
    for (an, away) in [
        ("none", vec![(0u32, 0u32)]),
        ("one", vec![(1, 0)]),
        ("two", vec![(3, 0)]),
        ("twostep-0", vec![(big, 0), (0, 0)]),
        ("twostep-1", vec![(big, 0), (1, 0)]),
        ("twostep-3", vec![(big, 0), (3, 0)]),
        ("error-0", vec![(0, r2::INTERNAL_ERROR)]),
        ("error-1", vec![(1, r2::INTERNAL_ERROR)]),
        ("calm-1", vec![(1, 11)]),
    ] {
        for after in 1..3 {
            for max_streams in [None, Some(1)] {
                if max_streams == Some(1) && (after > 1 || an == "two" || an == "twostep-3") {
                    continue;
                }
                for eof in [false, true] {
                    for answers_first in [false, true] {
                        if answers_first && !(an == "one" || an == "error-1" || an == "calm-1" || an == "twostep-1") {
                            continue;
                        }
                        for late_call in [false, true] {
                            for body in [false, true] {
                                let mk = |i: usize| req(i, if body { BodySpec::stream(&["a", "b"]) } else { BodySpec::empty() });
                                let y = Away { calls: vec![mk(0), mk(1).recover()], away: away.clone(), after, max_streams, eof, answers_first, late_call };
                                let n = format!(
                                    "goaway/{an}/{after}{}{}{}{}{}",
                                    if max_streams.is_some() { "/one-stream" } else { "" },
                                    if eof { "/eof" } else { "" },
                                    if answers_first { "/answered" } else { "" },
                                    if late_call { "/late-call" } else { "" },
                                    if body { "/body" } else { "" }
                                );
                                sc.push(scenario(n, t.pick(1, 2), move |ch| raw_server(ch, &y)));
                            }
                        }
                    }
                }
            }
        }
    }
    Check {
        id: "C20",
        scenarios: sc,
        rule: "graceful shutdown of the server, or the drop of the client's last sender, at every step of exchanges between hyper's client and server; graceful shutdown towards a raw client that opens streams before, between and after the announcements; a raw server's GOAWAY (one and two step, with every split of processed streams, with errors, with the transport closing); every schedule within the deviation bound".into(),
        assumptions: vec!["h2 0.4 as vendored".into(), "the peer acknowledges pings".into(), "single-threaded interleaving at poll granularity".into()],
    }
}
