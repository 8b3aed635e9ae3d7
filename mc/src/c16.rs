//! C16: incoming bodies report truthful size hints and end-of-stream, and stay ended.
//!
//! The reader of every incoming body (`read_body`) asks for the hints before each poll - also before polls that find
//! nothing - and compares them afterwards with what really came; end-of-stream is latched; the body is polled again
//! after its end.  Here that reader faces every framing and every way of breaking off, on both protocols and both roles.

use crate::core::*;
use crate::h1cli::{self, call, CliCfg, Do, Take, Act, Trig};
use crate::h1srv::{self, Beh, Consume, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use std::rc::Rc;

fn verdict(g: &Got, sent: &[u8], complete: bool, no_error: bool, show: impl Fn() -> String) -> ExecResult {
    if let Some(b) = &g.bad {
        return viol(digits(b), format!("{b}\n{}", show()));
    }
    if !sent.starts_with(&g.data) {
        return viol("delivered bytes are not the bytes sent", show());
    }
    match &g.end {
        End::Clean if !no_error && (!complete || g.data != sent) => viol("an incomplete body ended cleanly", show()),
        End::Error(_) if complete => viol("a complete body ended in an error", show()),
        End::Unfinished => viol("the reader is stuck", show()),
        _ => Ok(mix(hash_bytes(&g.data), hash_bytes(format!("{:?}{:?}", g.end, g.trailers).as_bytes()))),
    }
}

// ---------------------------------------------------------------- HTTP/1

struct H1 {
    head: &'static str,
    wire: &'static str,
    data: &'static str,
    /// complete only when the connection closes
    by_eof: bool,
    method: &'static str,
}
const fn h1(head: &'static str, wire: &'static str, data: &'static str) -> H1 {
    H1 { head, wire, data, by_eof: false, method: "GET" }
}
const FR: &[H1] = &[
    h1("Content-Length: 5\r\n", "hello", "hello"),
    h1("Content-Length: 0\r\n", "", ""),
    h1("Transfer-Encoding: chunked\r\n", "2\r\nhe\r\n3\r\nllo\r\n0\r\n\r\n", "hello"),
    h1("Transfer-Encoding: chunked\r\n", "5;x=y\r\nhello\r\n0\r\nx-t: 1\r\nx-t: 2\r\n\r\n", "hello"),
    h1("Transfer-Encoding: chunked\r\n", "0\r\n\r\n", ""),
    h1("Transfer-Encoding: chunked\r\n", "0\r\nx-t: 1\r\n\r\n", ""),
];
const CLI_ONLY: &[H1] = &[
    H1 { head: "", wire: "hello", data: "hello", by_eof: true, method: "GET" },
    H1 { head: "", wire: "", data: "", by_eof: true, method: "GET" },
    H1 { head: "Content-Length: 5\r\n", wire: "", data: "", by_eof: false, method: "HEAD" },
    H1 { head: "Transfer-Encoding: chunked\r\n", wire: "", data: "", by_eof: false, method: "HEAD" },
];
fn h1_srv(ch: &Ch, f: &'static H1, pol: IoPolicy, consume: Consume, broken: bool) -> ExecResult {
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("ok").consume(consume)]).pol(pol));
    let cut = if broken { ch.free(f.wire.len().max(1), "breaks after") } else { f.wire.len() };
    let head = format!("POST / HTTP/1.1\r\nHost: h\r\n{}\r\n", f.head);
    s.io.push(head.as_bytes());
    h1cli::peer(&s.env, &s.io, vec![Act(Trig::Now, Do::Send(f.wire[..cut].as_bytes().to_vec()))]);
    if broken {
        let io = s.io.clone();
        s.env.event_when("peer closes", true, || true, move || io.push_eof());
    }
    s.w.run();
    let recs = s.recs.borrow();
    if recs.is_empty() {
        return viol("the request was not delivered", s.seen());
    }
    let g = recs[0].got.borrow().clone();
    verdict(&g, f.data.as_bytes(), cut == f.wire.len(), false, || format!("{:?} + {:?}, cut at {cut}: {g:?}", f.head, f.wire))
}
fn h1_cli(ch: &Ch, f: &'static H1, pol: IoPolicy, take: Take, broken: bool) -> ExecResult {
    let mut c = h1cli::start(ch, CliCfg::new(pol));
    c.caller(call(f.method, "/").take(take));
    let cut = if broken { ch.free(f.wire.len().max(1), "breaks after") } else { f.wire.len() };
    let head = format!("HTTP/1.1 200 OK\r\n{}\r\n", f.head);
    let mut acts = vec![Act(Trig::Reqs(1), Do::Send(head.into_bytes())), Act(Trig::Now, Do::Send(f.wire[..cut].as_bytes().to_vec()))];
    if broken || f.by_eof {
        acts.push(Act(Trig::Now, Do::Eof));
    }
    c.peer(acts);
    c.w.run();
    let recs = c.recs.borrow();
    let g = recs[0].got.borrow().clone();
    let sent = if f.by_eof { &f.wire[..cut] } else { f.data };
    verdict(&g, sent.as_bytes(), f.by_eof || cut == f.wire.len(), false, || format!("{:?} + {:?}, cut at {cut}: {}", f.head, f.wire, c.summary()))
}

// ---------------------------------------------------------------- HTTP/2

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Data(&'static str),
    /// data with padding
    Padded(&'static str),
    Last(&'static str),
    Trailers,
    Rst(u32),
    Eof,
    Interim,
}
use St::*;
const STEPS: &[St] = &[Data("ab"), Data(""), Padded("p"), Last("cde"), Last(""), Trailers, Rst(r2::CANCEL), Rst(r2::NO_ERROR), Eof];
struct Script {
    steps: Vec<St>,
    sent: Vec<u8>,
    complete: bool,
    no_error: bool,
    /// the transport is gone (later bytes cannot be written)
    cl: Option<u64>,
    end_in_head: bool,
}
fn script(ch: &Ch, depth: usize) -> Script {
    let mut s = Script { steps: vec![], sent: vec![], complete: false, no_error: false, cl: None, end_in_head: false };
    if ch.free(2, "the head ends the stream") == 1 {
        s.end_in_head = true;
        s.complete = true;
    } else {
        for k in 0..depth {
            // the last step always ends it
            let opts: Vec<St> = STEPS.iter().copied().filter(|x| k + 1 < depth || !matches!(x, Data(_) | Padded(_))).collect();
            let st = opts[ch.free(opts.len(), "frame")];
            s.steps.push(st);
            match st {
                Data(d) | Padded(d) => s.sent.extend_from_slice(d.as_bytes()),
                Last(d) => {
                    s.sent.extend_from_slice(d.as_bytes());
                    s.complete = true;
                }
                Trailers => s.complete = true,
                Rst(c) => s.no_error = c == r2::NO_ERROR,
                _ => {}
            }
            if matches!(st, Last(_) | Trailers | Rst(_) | Eof) {
                break;
            }
        }
    }
    match ch.free(3, "content-length") {
        0 => {}
        1 => s.cl = Some(s.sent.len() as u64),
        _ => s.cl = Some(s.sent.len() as u64 + 2),
    }
    s
}
fn bytes(sid: u32, st: St) -> Vec<u8> {
    match st {
        Data(d) => r2::data(sid, d.as_bytes(), false),
        Padded(d) => {
            let mut p = vec![3u8];
            p.extend_from_slice(d.as_bytes());
            p.extend_from_slice(&[0, 0, 0]);
            r2::frame(0, 8, sid, &p)
        }
        Last(d) => r2::data(sid, d.as_bytes(), true),
        Trailers => r2::headers(sid, &[("x-t", "1"), ("x-t", "2")], true),
        Rst(c) => r2::rst(sid, c),
        Eof | Interim => vec![],
    }
}
fn play(p: &Peer, sid: u32, s: &Script, together: bool) -> Scr {
    let (p, steps) = (p.clone(), s.steps.clone());
    Box::pin(async move {
        for st in steps {
            if !together {
                wait_event(&p.env, "peer goes on").await;
            }
            if st == Eof {
                p.eof();
            } else {
                p.send(&bytes(sid, st));
            }
        }
    })
}
fn h2_srv(ch: &Ch, depth: usize, consume: Consume, pol: IoPolicy, together: bool) -> ExecResult {
    let mut h = H2::new(ch, pol);
    let s = script(ch, depth);
    h.server(st(|_, _| {}), SrvCfg::new(vec![Beh::simple("ok").consume(consume)]));
    let p = h.raw_client();
    h.auto(&p, 99);
    let cl = s.cl.map(|n| n.to_string());
    let mut f = vec![(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", "/")];
    if let Some(n) = &cl {
        f.push(("content-length", n));
    }
    let mut b = r2::PREFACE.to_vec();
    b.extend(r2::settings(&[]));
    b.extend(r2::headers(1, &f, s.end_in_head));
    p.send(&b);
    let pl = play(&p, 1, &s, together);
    h.w.add("peer", pl);
    h.w.run();
    h.sync_server();
    let wrong_cl = s.cl.map_or(false, |n| n != s.sent.len() as u64);
    let recs = h.reqs.borrow();
    if recs.is_empty() {
        // refused before it reached the service: only for a content-length that cannot be true, or a break-off
        if wrong_cl || !s.complete {
            return Ok(1);
        }
        return viol("the request was not delivered", h.summary());
    }
    let g = recs[0].got.borrow().clone();
    drop(recs);
    verdict(&g, &s.sent, s.complete && !wrong_cl, s.no_error, || format!("steps {:?} content-length {:?}\n{}", s.steps, s.cl, h.summary()))
}
fn h2_cli(ch: &Ch, depth: usize, take: Take, pol: IoPolicy, together: bool) -> ExecResult {
    let mut h = H2::new(ch, pol);
    let (method, status) = [("GET", "200"), ("HEAD", "200"), ("GET", "204"), ("GET", "304")][ch.free(4, "kind")];
    let bodyless = method == "HEAD" || status != "200";
    let mut s = if bodyless {
        Script { steps: vec![[Last(""), Rst(r2::CANCEL), Eof][ch.free(3, "frame")]], sent: vec![], complete: false, no_error: false, cl: [None, Some(0), Some(7)][ch.free(3, "content-length")], end_in_head: ch.free(2, "the head ends the stream") == 1 }
    } else {
        script(ch, depth)
    };
    if bodyless {
        if s.end_in_head {
            s.steps.clear();
        }
        s.complete = s.end_in_head || s.steps == [Last("")];
    }
    h.client(ct(|_, _| {}));
    let p = h.raw_server();
    h.auto(&p, 99);
    let mut c = call(method, "http://h/").take(take);
    c.headers.clear();
    h.caller(c);
    let cl = s.cl.map(|n| n.to_string());
    let mut f = vec![(":status".to_string(), status.to_string())];
    if let Some(n) = &cl {
        f.push(("content-length".into(), n.clone()));
    }
    let s = Rc::new(s);
    let s2 = s.clone();
    let p2 = p.clone();
    p.send(&r2::settings(&[]));
    let interim = ch.free(2, "interim") == 1;
    h.w.add("peer", async move {
        p2.until(|r| r.get(1).end).await;
        let mut b = vec![];
        if interim {
            b.extend(r2::headers(1, &[(":status", "103"), ("link", "x")], false));
        }
        let ff: Vec<(&str, &str)> = f.iter().map(|(a, b)| (&a[..], &b[..])).collect();
        b.extend(r2::headers(1, &ff, s2.end_in_head));
        p2.send(&b);
        play(&p2, 1, &s2, together).await;
    });
    h.w.run();
    h.sync_client();
    // a content-length on an answer that has no body by definition is about another body; a 204 must not have one, and
    // the h2 crate takes a 304 that has one for malformed unless its head ends the stream
    let contradictory = s.cl.map_or(false, |n| n != 0) && (status == "204" || status == "304" && !s.end_in_head);
    let wrong_cl = !bodyless && s.cl.map_or(false, |n| n != s.sent.len() as u64) || contradictory;
    let out = h.outcome(0);
    if out != crate::h1cli::Outcome::Resp {
        if wrong_cl || !s.complete {
            return Ok(1);
        }
        return viol("the response was not delivered", h.summary());
    }
    let g = h.calls.borrow()[0].got.borrow().clone();
    if contradictory {
        // contradictory: either answer will do, but the hints must be true
        return verdict(&g, &s.sent, g.end == End::Clean, true, || format!("{method} {status} steps {:?} content-length {:?}\n{}", s.steps, s.cl, h.summary()));
    }
    verdict(&g, &s.sent, s.complete && !wrong_cl, s.no_error, || format!("{method} {status} steps {:?} content-length {:?}\n{}", s.steps, s.cl, h.summary()))
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    for (k, f) in FR.iter().chain(CLI_ONLY).enumerate() {
        for broken in [false, true] {
            if broken && f.wire.is_empty() {
                continue;
            }
            let n = if broken { "broken" } else { "whole" };
            let bnd = t.pick(2, 3);
            if k < FR.len() {
                for c in [Consume::Full, Consume::Spawned, Consume::SpawnedLate] {
                    sc.push(scenario(format!("h1/server/{k}/{n}/{c:?}"), bnd, move |ch| h1_srv(ch, f, IoPolicy { write_pending: false, write: Cuts::Never, flush_pending: false, shutdown_pending: false, ..IO_ALL }, c.clone(), broken)));
                }
            }
            for tk in [Take::Full, Take::Late] {
                sc.push(scenario(format!("h1/client/{k}/{n}/{tk:?}"), bnd, move |ch| h1_cli(ch, f, IoPolicy { write_pending: false, write: Cuts::Never, flush_pending: false, shutdown_pending: false, ..IO_ALL }, tk.clone(), broken)));
            }
        }
    }
    let rd = IoPolicy { read: Cuts::Few, read_pending: true, ..IO_PLAIN };
    for together in [false, true] {
        let n = if together { "together" } else { "apart" };
        for c in [Consume::Full, Consume::Spawned, Consume::SpawnedLate] {
            let depth = t.pick(3, 4);
            sc.push(scenario(format!("h2/server/{n}/{c:?}"), t.pick(1, 2), move |ch| h2_srv(ch, depth, c.clone(), rd, together)));
        }
        for tk in [Take::Full, Take::Late] {
            let depth = t.pick(3, 4);
            sc.push(scenario(format!("h2/client/{n}/{tk:?}"), t.pick(1, 2), move |ch| h2_cli(ch, depth, tk.clone(), rd, together)));
        }
    }
    Check {
        id: "C16",
        scenarios: sc,
        rule: "every framing of an HTTP/1 body in both roles, whole and broken off after every byte, and every sequence of up to three (thorough: four) HTTP/2 frames in both roles (data, empty, padded, trailers, resets, end of the connection) x true, false and no content-length, read eagerly and late, under every schedule and partial read within the deviation bound; hints are asked before every poll and compared with what followed".into(),
        assumptions: vec!["h2 0.4 as vendored".into()],
    }
}
