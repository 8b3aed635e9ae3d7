//! C19: HTTP/2 stream failures and cancellations stay on their stream and are visible.
//!
//! Exchange 0 is disturbed (cancelled, dropped, failed, reset) at every step; exchange 1 on the same connection is not and
//! must not notice.  Pairs of hyper ends, and each end against a raw peer that sends the resets.

use crate::c18::{b, big, cwin, d, path, req, resp, swin, Win};
use crate::core::*;
use crate::h1cli::{Call, Outcome, Take};
use crate::h1srv::{Beh, Consume, SrvCfg};
use crate::h2ref::{self as r2, Reader};
use crate::h2w::*;
use crate::world::*;

#[derive(Clone)]
struct Y {
    call: Call,
    beh: Beh,
    /// the undisturbed exchange is asked for first
    control_first: bool,
    c: Win,
    s: Win,
    pol: IoPolicy,
}
/// The stream a request went out on.
pub fn sid(r: &Reader, uri: &str) -> Option<u32> {
    let p = uri.trim_start_matches("http://h").as_bytes();
    r.streams.iter().find(|(_, s)| s.field(0, ":path").as_deref() == Some(p)).map(|x| *x.0)
}
const G_OPEN: u32 = 77;

fn control() -> (Call, Beh) {
    (req(1, b(vec![d("con"), BStep::Pending, d("trol")], Hint::Unknown, false)), resp(1, b(vec![d("un"), BStep::Pending, d("dis"), d("turbed")], Hint::Unknown, false)))
}
/// The undisturbed exchange ran as if alone.
fn control_ok(h: &H2, i: usize, c: &Call, be: &Beh) -> Result<(), Viol> {
    let q = h.calls.borrow();
    let q = &q[i];
    if q.outcome != Outcome::Resp {
        return viol(format!("another stream was disturbed: its outcome is {:?}", q.outcome).chars().take(100).collect::<String>(), h.summary());
    }
    let g = q.got.borrow();
    if g.end != End::Clean || g.data != be.resp.body.data() {
        return viol(format!("another stream's response was disturbed ({:?})", digits(&format!("{:?}", g.end))), h.summary());
    }
    let reqs = h.reqs.borrow();
    let Some(r) = reqs.iter().find(|r| r.uri == c.uri) else { return viol("another stream's request was lost", h.summary()) };
    let g = r.got.borrow();
    if g.end != End::Clean || g.data != c.body.data() {
        return viol(format!("another stream's request was disturbed ({:?})", digits(&format!("{:?}", g.end))), h.summary());
    }
    Ok(())
}
fn prefix(got: &[u8], full: &[u8], what: &str, h: &H2) -> Result<(), Viol> {
    if !full.starts_with(got) {
        return viol(format!("the {what} body is not a prefix of what was sent"), h.summary());
    }
    Ok(())
}
/// Both connections come to their end once the last sender is gone, and nothing keeps running.
fn close(h: &mut H2) -> Result<(), Viol> {
    h.drop_sender();
    h.w.run();
    h.sync();
    h.contract()?;
    let (c, s) = (h.cres.borrow().clone(), h.sres.borrow().clone());
    if c != Some(Ok(())) || s != Some(Ok(())) {
        return viol(digits(&format!("the connection does not end: client {c:?} server {s:?}")).chars().take(150).collect::<String>(), h.summary());
    }
    left(h)
}
fn left(h: &H2) -> Result<(), Viol> {
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-") || n.starts_with("s-")).collect();
    if !left.is_empty() {
        return viol(format!("left running: {}", left.join(",")), h.summary());
    }
    for r in h.reqs.borrow().iter() {
        if !r.gone.get() {
            return viol("a service call is left over", h.summary());
        }
    }
    Ok(())
}

fn pair(ch: &Ch, y: &Y) -> ExecResult {
    let (c1, b1) = control();
    let mut h = H2::pair(ch, y.pol, cwin(y.c), swin(y.s), vec![y.beh.clone(), b1.clone()]);
    if y.c.stream.is_some() || y.s.stream.is_some() {
        h.w.run();
    }
    let (i0, i1) = if y.control_first {
        let a = h.caller(c1.clone());
        (h.caller(y.call.clone()), a)
    } else {
        let a = h.caller(y.call.clone());
        (a, h.caller(c1.clone()))
    };
    h.w.run();
    h.sync();
    h.contract()?;
    control_ok(&h, i1, &c1, &b1)?;
    let (creq, cresp) = (y.call.body.clone(), y.beh.resp.body.clone());
    {
        let (cw, sw) = (h.cw.borrow(), h.sw.borrow());
        let id = sid(&cw, &y.call.uri);
        let calls = h.calls.borrow();
        let q = &calls[i0];
        let reqs = h.reqs.borrow();
        let r = reqs.iter().find(|r| r.uri == y.call.uri);
        let (cs, ss) = id.map(|i| (cw.get(i), sw.get(i))).unwrap_or_default();
        let st = q.body_stat.borrow();
        // never a clean end of what did not end cleanly
        let sent_whole = !creq.fails() && (st.ended || st.polled_data == creq.data().len() && creq.eos);
        if let Some(r) = r {
            let g = r.got.borrow();
            prefix(&g.data, &creq.data(), "request", &h)?;
            if g.end == End::Clean && (creq.fails() || !sent_whole || g.data != creq.data()) {
                return viol("the service saw a cut-off request body end cleanly", h.summary());
            }
            if g.end == End::Unfinished && (matches!(y.beh.consume, Consume::Spawned) || matches!(y.beh.consume, Consume::Full) && !r.gone.get()) {
                return viol("the reader of a request body is left hanging", h.summary());
            }
            let rs = r.resp_stat.borrow();
            let g = q.got.borrow();
            prefix(&g.data, &cresp.data(), "response", &h)?;
            if g.end == End::Clean && (cresp.fails() || g.data != cresp.data()) {
                return viol("the caller saw a cut-off response body end cleanly", h.summary());
            }
            if r.responded && !rs.dropped {
                return viol("a response body is held although its stream is over", h.summary());
            }
            if !r.gone.get() {
                return viol("a service call keeps running although its stream is over", h.summary());
            }
        }
        if cs.end && (creq.fails() || !sent_whole) {
            return viol("the client ended a request body that was cut off", h.summary());
        }
        if ss.end && cresp.fails() {
            return viol("the server ended a response body that failed", h.summary());
        }
        match &q.outcome {
            Outcome::Pending => return viol("a disturbed exchange never came to an end", h.summary()),
            Outcome::Resp if q.got.borrow().end == End::Unfinished => return viol("the reader of a response body is left hanging", h.summary()),
            _ => {}
        }
        if !st.dropped {
            return viol("a request body is held although its stream is over", h.summary());
        }
        // and the other side is told
        if id.is_some() {
            let told = cs.rst.is_some();
            if q.outcome == Outcome::Cancelled && !(ss.end || ss.rst.is_some()) && (!told || cs.rst == Some(r2::NO_ERROR)) {
                return viol("the server was not told of the cancelled request", h.summary());
            }
            if !cs.end && !told && ss.rst.is_none() {
                return viol("a request body was given up silently", h.summary());
            }
            if !cs.end && told && cs.rst == Some(r2::NO_ERROR) && !ss.end {
                return viol("a request body was given up with NO_ERROR", h.summary());
            }
            if !ss.end && ss.rst.is_none() && !told {
                return viol("a response was given up silently", h.summary());
            }
            if !ss.end && !told && ss.rst == Some(r2::NO_ERROR) {
                return viol("a response was given up with NO_ERROR", h.summary());
            }
        }
        // what was not disturbed at all must have worked
        let cancelled = q.outcome == Outcome::Cancelled;
        let dropped = !matches!(y.call.take, Take::Full) || q.got.borrow().end == End::Stopped;
        let ok = !creq.fails() && !cresp.fails() && !cancelled && !y.beh.fail && !y.beh.stuck;
        if ok && q.outcome != Outcome::Resp {
            return viol(digits(&format!("an exchange that could complete failed: {:?}", q.outcome)).chars().take(150).collect::<String>(), h.summary());
        }
        if ok && !dropped && q.got.borrow().end != End::Clean {
            return viol(digits(&format!("a response that completed turned into a failure: {:?}", q.got.borrow().end)).chars().take(150).collect::<String>(), h.summary());
        }
        if (y.beh.fail || cresp.fails()) && matches!(q.outcome, Outcome::Resp) && q.got.borrow().end == End::Clean {
            return viol("a failed response looks complete", h.summary());
        }
    }
    close(&mut h)?;
    Ok(h.fp())
}

/// A raw server that resets the stream of request 0 with `code` after `step` of its answer; request 1 gets a normal answer.
#[derive(Clone)]
struct RawS {
    call: Call,
    code: u32,
    /// 0 at once after the head arrived, 1 after the response head, 2 after some data, 3 after the end of the response,
    /// 4 before anything else but after the request ended
    at: usize,
    /// the request body's continuation is let go after the reset
    pol: IoPolicy,
    /// the peer's initial window for the stream
    window: Option<u32>,
    /// the reset and what precedes it arrive together
    together: bool,
}
fn raw_server(ch: &Ch, y: &RawS) -> ExecResult {
    let (c1, b1) = control();
    let mut h = H2::new(ch, y.pol);
    h.client(cwin(Win::default()));
    let p = h.raw_server();
    h.auto(&p, 99);
    p.send(&r2::settings(&y.window.map(|w| vec![(4u16, w)]).unwrap_or_default()));
    h.w.run();
    let i0 = h.caller(y.call.clone());
    let i1 = h.caller(c1.clone());
    let (p2, y2) = (p.clone(), y.clone());
    h.w.add("peer-0", async move {
        let id = p2.wait(|r| sid(r, &path(0))).await;
        if y2.at >= 3 {
            let full = y2.call.body.data().len();
            let _ = full;
        }
        let mut parts: Vec<Vec<u8>> = vec![];
        match y2.at {
            0 => {}
            1 => parts.push(r2::ok(id, &[], false)),
            2 => {
                parts.push(r2::ok(id, &[], false));
                parts.push(r2::data(id, b"part", false))
            }
            3 => {
                parts.push(r2::ok(id, &[], false));
                parts.push(r2::data(id, b"part", true))
            }
            4 => p2.until(move |r| r.get(id).end).await,
            _ => parts.push(r2::ok(id, &[], true)),
        }
        parts.push(r2::rst(id, y2.code));
        if y2.together {
            p2.send(&parts.concat());
        } else {
            for x in parts {
                p2.send(&x);
                wait_event(&p2.env, "peer goes on").await;
            }
        }
        p2.env.open(G_OPEN);
    });
    let p3 = p.clone();
    let ctl = b1.resp.body.data();
    let small = y.window.is_some();
    h.w.add("peer-1", async move {
        let id = p3.wait(|r| sid(r, &path(1))).await;
        if small {
            p3.send(&r2::window(id, 1000));
        }
        p3.until(move |r| r.get(id).end).await;
        let mut x = r2::ok(id, &[], false);
        x.extend(r2::data_all(id, &ctl, true));
        p3.send(&x);
    });
    h.w.run();
    h.sync_client();
    h.contract()?;
    {
        let calls = h.calls.borrow();
        // the control exchange
        let q = &calls[i1];
        if q.outcome != Outcome::Resp || q.got.borrow().end != End::Clean || q.got.borrow().data != b1.resp.body.data() {
            return viol("a reset disturbed another stream", h.summary());
        }
        let cw = h.cw.borrow();
        let id1 = sid(&cw, &path(1)).unwrap();
        if cw.get(id1).data != c1.body.data() || !cw.get(id1).end {
            return viol("a reset disturbed another stream's request", h.summary());
        }
        let q = &calls[i0];
        let g = q.got.borrow();
        let complete = y.at == 3 || y.at == 5;
        match &q.outcome {
            Outcome::Pending => return viol("a request whose stream was reset never ends", h.summary()),
            Outcome::Resp => match &g.end {
                End::Unfinished => return viol("a response body whose stream was reset never ends", h.summary()),
                End::Clean if !complete && y.code != r2::NO_ERROR => return viol("a response that was reset looks complete", h.summary()),
                End::Clean if complete && g.data != if y.at == 3 { &b"part"[..] } else { b"" } => return viol("the response body is wrong", h.summary()),
                End::Error(_) if complete && y.code == r2::NO_ERROR => return viol("a response that completed turned into a failure", h.summary()),
                _ => {}
            },
            Outcome::Failed(..) => {
                // the reset may overtake the head it follows, but not an answer that was complete
                if complete && y.code == r2::NO_ERROR {
                    return viol("a response that completed turned into a failure", h.summary());
                }
            }
            _ => {}
        }
        if !q.body_stat.borrow().dropped {
            return viol("a request body is held although its stream was reset", h.summary());
        }
    }
    h.drop_sender();
    h.w.run();
    h.sync_client();
    if *h.cres.borrow() != Some(Ok(())) {
        return viol(digits(&format!("the connection does not end: client {:?}", h.cres.borrow())), h.summary());
    }
    left(&h)?;
    Ok(h.fp())
}
/// A raw client that resets stream 1 at some point; stream 3 gets its answer.
#[derive(Clone)]
struct RawC {
    beh: Beh,
    code: u32,
    /// the request body is complete
    full: bool,
    /// 0 with the request, 1 when the response head arrived, 2 when some of the body arrived
    at: usize,
    pol: IoPolicy,
    window: Option<u32>,
    /// the peer closes the transport instead
    eof: bool,
    /// the request that is reset asks for a tunnel
    connect: bool,
}
fn raw_client(ch: &Ch, y: &RawC) -> ExecResult {
    let (_, b1) = control();
    let mut h = H2::new(ch, y.pol);
    let mut cfg = SrvCfg::new(vec![y.beh.clone(), b1.clone()]);
    cfg.by_path = true;
    if y.connect {
        // the target of a CONNECT has no path
        cfg.default = y.beh.clone();
    }
    h.server(swin(Win::default()), cfg);
    let p = h.raw_client();
    h.auto(&p, 99);
    let mut x = r2::PREFACE.to_vec();
    x.extend(r2::settings(&y.window.map(|w| vec![(4u16, w)]).unwrap_or_default()));
    p.send(&x);
    h.w.run();
    let (p2, y2) = (p.clone(), y.clone());
    let hd = |i: u32| r2::headers(2 * i + 1, &[(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", if i == 0 { "/p/0" } else { "/p/1" })], false);
    let (mut h0, h1) = (hd(0), hd(1));
    if y.connect {
        h0 = r2::headers(1, &[(":method", "CONNECT"), (":authority", "h:80")], false);
    }
    h.w.add("peer-0", async move {
        let mut x = h0;
        if !y2.connect {
            x.extend(r2::data(1, b"req", y2.full));
        }
        p2.send(&x);
        p2.env.open(G_OPEN + 1);
        match y2.at {
            0 => wait_event(&p2.env, "peer resets").await,
            1 => p2.until(|r| !r.get(1).heads.is_empty() || r.get(1).rst.is_some()).await,
            _ => p2.until(|r| !r.get(1).data.is_empty() || r.get(1).rst.is_some()).await,
        }
        if y2.eof {
            p2.eof();
        } else {
            p2.send(&r2::rst(1, y2.code));
        }
    });
    let (p3, eof) = (p.clone(), y.eof);
    let small = y.window.is_some();
    h.w.add("peer-1", async move {
        // stream numbers only go up
        p3.env.gate(G_OPEN + 1).await;
        let mut x = h1;
        x.extend(r2::data(3, b"con", false));
        p3.send(&x);
        wait_event(&p3.env, "peer goes on").await;
        if eof {
            return;
        }
        let mut x = if small { r2::window(3, 1000) } else { vec![] };
        x.extend(r2::data(3, b"trol", true));
        p3.send(&x);
    });
    h.w.run();
    h.sync_server();
    h.contract()?;
    let over = |h: &H2| -> Result<(), Viol> {
        for r in h.reqs.borrow().iter() {
            if !r.gone.get() {
                return viol("a service call keeps running although its stream is over", h.summary());
            }
            if r.responded && !r.resp_stat.borrow().dropped {
                return viol("a response body is held although its stream is over", h.summary());
            }
            if r.got.borrow().end == End::Unfinished && y.beh.consume == Consume::Spawned {
                return viol("the reader of a request body is left hanging", h.summary());
            }
        }
        Ok(())
    };
    if !y.eof {
        let reqs = h.reqs.borrow();
        let sw = h.sw.borrow();
        let Some(r) = reqs.iter().find(|r| r.uri == path(1)) else { return viol("another stream was not served", h.summary()) };
        if r.got.borrow().end != End::Clean || r.got.borrow().data != b"control" {
            return viol("a reset disturbed another stream's request", h.summary());
        }
        let s = sw.get(3);
        if s.data != b1.resp.body.data() || !s.end || s.rst.is_some() {
            return viol("a reset disturbed another stream's response", h.summary());
        }
        drop((reqs, sw));
        over(&h)?;
        if let Some(r) = h.reqs.borrow().iter().find(|r| r.uri == path(0)) {
            let g = r.got.borrow();
            // hyper reads a NO_ERROR reset as "stop here", which is what it says when no length was announced
            if g.end == End::Clean && !(y.full && g.data == b"req") && y.code != r2::NO_ERROR {
                return viol("the service saw a cut-off request body end cleanly", h.summary());
            }
        }
        if h.sw.borrow().get(1).late.iter().any(|l| !l.contains("RST") && !l.contains("Rst")) {
            return viol("the server went on sending on a stream it had ended", h.summary());
        }
        p.eof();
        h.w.run();
        h.sync_server();
    }
    if h.sres.borrow().is_none() {
        return viol("the connection never ends although its peer is gone", h.summary());
    }
    over(&h)?;
    left(&h)?;
    Ok(h.fp())
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let bound = t.pick(1, 2);
    let gated = |k: usize| {
        let mut v = vec![];
        for _ in 0..k {
            v.push(d("abc"));
        }
        v.push(BStep::Gate(G_OPEN));
        v.push(d("never"));
        b(v, Hint::Unknown, false)
    };
    let reqs: Vec<(&str, BodySpec)> = vec![
        ("empty", BodySpec::empty()),
        ("full", BodySpec::full(b"hello")),
        ("waits", b(vec![d("ab"), BStep::Pending, d("cd")], Hint::Unknown, false)),
        ("gated0", gated(0)),
        ("gated2", gated(2)),
        ("blocked", b(vec![big(20, 3), BStep::Gate(G_OPEN)], Hint::Unknown, false)),
    ];
    let wins = [("", Win::default()), ("/tiny", Win { stream: Some(4), ..Default::default() })];
    let mut add = |name: String, y: Y| {
        for first in [true, false] {
            let mut y = y.clone();
            y.control_first = first;
            sc.push(scenario(format!("{name}{}", if first { "/second" } else { "" }), bound, move |ch| pair(ch, &y)));
        }
    };
    for (ws, w) in wins {
        let base = Y { call: req(0, BodySpec::empty()), beh: resp(0, BodySpec::empty()), control_first: false, c: w, s: w, pol: IO_FEW };
        // the caller cancels while the service is stuck
        for (rn, r) in &reqs {
            for (sn, c) in [("held", Consume::Ignore), ("dropped", Consume::DropFirst), ("full", Consume::Full), ("one", Consume::FramesStuck(1)), ("spawned", Consume::Spawned)] {
                let mut y = base.clone();
                y.call = req(0, r.clone()).cancel();
                y.beh = resp(0, BodySpec::empty()).consume(c).stuck();
                add(format!("cancel/{rn}/{sn}{ws}"), y);
            }
        }
        // the request's body fails
        for k in 0..3 {
            let mut steps: Vec<BStep> = (0..k).map(|_| d("abc")).collect();
            for wait in [false, true] {
                if wait {
                    steps.push(BStep::Pending);
                }
                let mut s2 = steps.clone();
                s2.push(BStep::Err);
                for hint in [Hint::Unknown, Hint::Claim(9)] {
                    for (sn, be) in [("full", resp(0, BodySpec::full(b"yes"))), ("spawned", resp(0, b(vec![d("y"), BStep::Pending, d("es")], Hint::Unknown, false)).consume(Consume::Spawned)), ("stuck", resp(0, BodySpec::empty()).consume(Consume::FramesStuck(9)))] {
                        let mut y = base.clone();
                        y.call = req(0, b(s2.clone(), hint, false));
                        y.beh = be;
                        add(format!("request-fails/{k}{}/{hint:?}/{sn}{ws}", if wait { "w" } else { "" }), y);
                    }
                }
            }
        }
        // the service fails
        for (rn, r) in &reqs {
            if rn.starts_with("gated") || *rn == "blocked" {
                continue;
            }
            for c in [Consume::Full, Consume::Ignore, Consume::DropFirst, Consume::Spawned] {
                let mut y = base.clone();
                y.call = req(0, r.clone());
                y.beh = resp(0, BodySpec::empty()).consume(c.clone());
                y.beh.fail = true;
                add(format!("service-fails/{rn}/{c:?}{ws}"), y);
            }
        }
        for (rn, r) in [("gated0", gated(0)), ("gated2", gated(2))] {
            for c in [Consume::Ignore, Consume::DropFirst] {
                let mut y = base.clone();
                y.call = req(0, r.clone());
                y.beh = resp(0, BodySpec::empty()).consume(c.clone());
                y.beh.fail = true;
                add(format!("service-fails/{rn}/{c:?}{ws}"), y);
            }
        }
        // the response's body fails
        for k in 0..3 {
            for wait in [false, true] {
                let mut s: Vec<BStep> = (0..k).map(|_| d("abc")).collect();
                if wait {
                    s.push(BStep::Pending);
                }
                s.push(BStep::Err);
                for hint in [Hint::Unknown, Hint::Claim(9)] {
                    for (rn, r) in &reqs[..3] {
                        let mut y = base.clone();
                        y.call = req(0, r.clone());
                        y.beh = resp(0, b(s.clone(), hint, false));
                        add(format!("response-fails/{k}{}/{hint:?}/{rn}{ws}", if wait { "w" } else { "" }), y);
                    }
                }
            }
        }
        // the service does not want the rest of the request and answers in full
        for (rn, r) in &reqs {
            for c in [Consume::Ignore, Consume::DropFirst, Consume::Frames(1)] {
                if c == Consume::Frames(1) && *rn == "gated0" {
                    continue;
                }
                let mut y = base.clone();
                y.call = req(0, r.clone());
                y.beh = resp(0, b(vec![d("al"), BStep::Pending, d("l")], Hint::Unknown, true)).consume(c.clone());
                add(format!("request-unwanted/{rn}/{c:?}{ws}"), y);
            }
        }
        // the caller does not want the rest of the response
        for (bn, body) in [("ends", b(vec![d("abc"), BStep::Pending, d("def")], Hint::Unknown, false)), ("gated1", gated(1)), ("gated2", gated(2)), ("big", b(vec![big(20, 1), d("x"), BStep::Gate(G_OPEN)], Hint::Unknown, false))] {
            for tk in [Take::Drop, Take::Frames(1), Take::FullOrDrop] {
                if tk == Take::FullOrDrop && bn != "ends" {
                    continue;
                }
                for (rn, r) in [("empty", BodySpec::empty()), ("waits", b(vec![d("ab"), BStep::Pending, d("cd")], Hint::Unknown, false))] {
                    let mut y = base.clone();
                    y.call = req(0, r).take(tk.clone());
                    y.beh = resp(0, body.clone()).consume(Consume::Spawned);
                    add(format!("response-unwanted/{bn}/{tk:?}/{rn}{ws}"), y);
                }
            }
        }
    }
    // resets by a raw server
    for (rn, r) in &reqs {
        for at in 0..6 {
            if at == 4 && (rn.starts_with("gated") || *rn == "blocked") {
                continue;
            }
            for code in [r2::NO_ERROR, r2::INTERNAL_ERROR, r2::REFUSED_STREAM, r2::CANCEL] {
                for window in [None, Some(4)] {
                    if at == 4 && window.is_some() {
                        continue;
                    }
                    for together in [true, false] {
                        let y = RawS { call: req(0, r.clone()), code, at, pol: IO_FEW, window, together };
                        let n = format!("reset-by-server/{rn}/{at}/{code}{}{}", if window.is_some() { "/tiny" } else { "" }, if together { "/at-once" } else { "" });
                        sc.push(scenario(n, bound, move |ch| raw_server(ch, &y)));
                    }
                }
            }
        }
    }
    for code in [r2::NO_ERROR, r2::CANCEL, r2::INTERNAL_ERROR] {
        for eof in [false, true] {
            if eof && code != r2::CANCEL {
                continue;
            }
            let y = RawC { beh: resp(0, BodySpec::empty()).consume(Consume::Ignore).stuck(), code, full: false, at: 0, pol: IO_FEW, window: None, eof, connect: true };
            sc.push(scenario(format!("reset-by-client/connect/{}", if eof { "eof".into() } else { code.to_string() }), bound, move |ch| raw_client(ch, &y)));
        }
    }
    // resets by a raw client
    let behs: Vec<(&str, Beh)> = vec![
        ("stuck", resp(0, BodySpec::empty()).consume(Consume::Ignore).stuck()),
        ("reading", resp(0, BodySpec::empty())),
        ("reading-stuck", resp(0, BodySpec::empty()).stuck()),
        ("spawned", resp(0, BodySpec::full(b"hello")).consume(Consume::Spawned)),
        ("late", resp(0, BodySpec::full(b"hello")).consume(Consume::Ignore).late()),
        ("streaming", resp(0, gated(2)).consume(Consume::Ignore)),
        ("streaming-spawned", resp(0, gated(1)).consume(Consume::Spawned)),
        ("blocked", resp(0, b(vec![big(20, 1), d("x"), BStep::Gate(G_OPEN)], Hint::Unknown, false)).consume(Consume::DropFirst)),
        ("body-waits", resp(0, gated(0)).consume(Consume::Ignore)),
    ];
    for (bn, be) in &behs {
        for at in 0..3 {
            let reach = match at {
                0 => true,
                1 => !be.stuck,
                _ => !be.stuck && !be.resp.body.data().is_empty() && *bn != "body-waits",
            };
            if !reach {
                continue;
            }
            for code in [r2::NO_ERROR, r2::CANCEL, r2::INTERNAL_ERROR] {
                for full in [true, false] {
                    // a service that reads everything answers only to whole requests
                    if *bn == "reading" && !full && at > 0 {
                        continue;
                    }
                    for window in [None, Some(4)] {
                        for eof in [false, true] {
                            if eof && code != r2::CANCEL {
                                continue;
                            }
                            let y = RawC { beh: be.clone(), code, full, at, pol: IO_FEW, window, eof, connect: false };
                            let n = format!("reset-by-client/{bn}/{at}/{}{}{}", if eof { "eof".into() } else { code.to_string() }, if full { "/whole" } else { "" }, if window.is_some() { "/tiny" } else { "" });
                            sc.push(scenario(n, bound, move |ch| raw_client(ch, &y)));
                        }
                    }
                }
            }
        }
    }
    Check {
        id: "C19",
        scenarios: sc,
        rule: "two exchanges on one HTTP/2 connection, one cancelled, dropped, failing (request body, service, response body) or reset by a raw peer (every position, several codes) while the other must run as if alone; every schedule of tasks, transport answers and event positions within the deviation bound; wire read by an independent reader".into(),
        assumptions: vec!["h2 0.4 as vendored".into(), "single-threaded interleaving at poll granularity".into()],
    }
}
