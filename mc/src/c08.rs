//! C08: connections always make progress and never spin.
//!
//! Closed systems: the peer acts on what was flushed to it, bodies and services become ready by events. At
//! quiescence everything must be through; a wake-up nobody sent shows as an exchange that stands still.

use crate::core::*;
use crate::h1cli::{self, call, saw, when, Act, CliCfg, Do, Outcome, Take, Trig};
use crate::h1ref::{self, Tail};
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;
use std::rc::Rc;
use std::sync::Arc;

fn d(s: &str) -> BStep {
    BStep::Data(s.as_bytes().to_vec())
}
fn send(s: &str) -> Do {
    Do::Send(s.as_bytes().to_vec())
}
fn body(steps: Vec<BStep>, hint: Hint, eos: bool) -> BodySpec {
    BodySpec { steps, hint, eos }
}
/// The peer has received this text as part of response (request) bodies.
fn body_has(t: &'static str, server: bool) -> Trig {
    when(move |b| {
        let mut all: Vec<u8> = vec![];
        let (ms, tail) = if server {
            let r = h1ref::responses(b, &[], false);
            (r.msgs.into_iter().map(|m| m.1).collect(), r.tail)
        } else {
            h1ref::requests(b)
        };
        for m in ms {
            all.extend(m.body);
        }
        if let Tail::Partial(Some(m)) = tail {
            all.extend(m.body);
        }
        all.windows(t.len()).any(|w| w == t.as_bytes())
    })
}
fn resps(n: usize) -> Trig {
    when(move |b| h1ref::responses(b, &[], false).msgs.len() >= n)
}
#[derive(Clone)]
struct Sv {
    name: &'static str,
    behs: Vec<Beh>,
    acts: Vec<Act>,
    /// (response bodies in order)
    want: Vec<Vec<u8>>,
    /// request body data the services must have seen (None: not checked)
    saw: Vec<Option<&'static str>>,
    tweak: Arc<dyn Fn(&mut hyper::server::conn::http1::Builder, &E) + Send + Sync>,
    wcap: Option<usize>,
    /// the connection ends by itself (no end of stream from the peer)
    closes: bool,
    heavy: bool,
}
fn sv(name: &'static str, behs: Vec<Beh>, acts: Vec<Act>, want: &[&str]) -> Sv {
    Sv { name, behs, acts, want: want.iter().map(|s| s.as_bytes().to_vec()).collect(), saw: vec![], tweak: Arc::new(|_, _| {}), wcap: None, closes: false, heavy: false }
}
fn big(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i % 26) as u8).collect()
}

fn servers() -> Vec<Sv> {
    let resp = |b: BodySpec| RespSpec { body: b, ..RespSpec::ok("") };
    let get = "GET /n HTTP/1.1\r\n\r\n";
    let mut v = vec![];
    // interactive echo: the peer sends the next piece only after the previous one came back
    v.push(sv(
        "echo-chunked",
        vec![Beh::simple("").consume(Consume::Echo), Beh::simple("last")],
        vec![
            Act(Trig::Now, send("POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n")),
            Act(body_has("ab", true), send("3\r\ncde\r\n")),
            Act(body_has("cde", true), send("0\r\n\r\n")),
            Act(resps(1), send(get)),
        ],
        &["abcde", "last"],
    ));
    v.push(sv(
        "echo-length",
        vec![Beh::simple("").consume(Consume::Echo), Beh::simple("last")],
        vec![
            Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 6\r\n\r\nab")),
            Act(body_has("ab", true), send("cd")),
            Act(body_has("cd", true), send("ef")),
            Act(body_has("ef", true), send(get)),
        ],
        &["abcdef", "last"],
    ));
    v.push(sv(
        "echo-expect",
        vec![Beh::simple("").consume(Consume::Full), Beh::simple("last")],
        vec![
            Act(Trig::Now, send("POST /1 HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 4\r\n\r\n")),
            Act(saw("HTTP/1.1 100 Continue\r\n\r\n", 1), send("ab")),
            Act(Trig::Now, send("cd")),
            Act(saw("HTTP/1.1 200", 1), send(get)),
        ],
        &["", "last"],
    ));
    // the whole pipeline at once
    for (n, k) in [("pipeline", 3), ("pipeline5", 5)] {
        let mut s = String::new();
        let mut want = vec![];
        for i in 0..k {
            s += if i % 2 == 0 { "GET /n HTTP/1.1\r\n\r\n" } else { "POST /n HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi" };
            want.push("x");
        }
        for pf in [false, true] {
            let mut x = sv(n, vec![Beh::simple("x")], vec![Act(Trig::Now, Do::Send(s.clone().into_bytes()))], &want);
            x.name = match (n, pf) {
                ("pipeline", false) => "pipeline",
                ("pipeline", true) => "pipeline-flush",
                (_, false) => "pipeline5",
                _ => "pipeline5-flush",
            };
            x.heavy = k > 3;
            x.tweak = Arc::new(move |b, _| {
                b.pipeline_flush(pf);
            });
            v.push(x);
        }
    }
    // more of everything than one poll of the connection works off
    for pf in [false, true] {
        let s = "GET /n HTTP/1.1\r\n\r\n".repeat(40);
        let want = vec!["x"; 40];
        let mut x = sv(if pf { "pipeline40-flush" } else { "pipeline40" }, vec![Beh::simple("x")], vec![Act(Trig::Now, Do::Send(s.into_bytes()))], &want);
        x.heavy = true;
        x.tweak = Arc::new(move |b, _| {
            b.pipeline_flush(pf);
        });
        v.push(x);
    }
    {
        let text: &'static str = Box::leak("z".repeat(600).into_boxed_str());
        let frames = (0..600).map(|_| d("z")).collect();
        let mut x = sv("frames600", vec![Beh { resp: resp(body(frames, Hint::Unknown, false)), ..Beh::simple("") }], vec![Act(Trig::Now, send(get))], &[text]);
        x.heavy = true;
        v.push(x);
    }
    // the last request arrives in two parts, with pipeline_flush on: the first answer must not be withheld
    let mut x = sv(
        "pipeline-flush-partial",
        vec![Beh::simple("x")],
        vec![Act(Trig::Now, send("GET /n HTTP/1.1\r\n\r\nGET /n HT")), Act(saw("\r\n\r\nx", 1), send("TP/1.1\r\n\r\n"))],
        &["x", "x"],
    );
    x.tweak = Arc::new(|b, _| {
        b.pipeline_flush(true);
    });
    v.push(x);
    // ... nor an answer that ends the connection in front of surplus bytes
    let mut x = sv("pipeline-flush-close", vec![Beh::simple("x")], vec![Act(Trig::Now, send("GET /n HTTP/1.1\r\nConnection: close\r\n\r\nGET /n HTTP/1.1\r\n\r\n"))], &["x"]);
    x.closes = true;
    x.tweak = Arc::new(|b, _| {
        b.pipeline_flush(true);
    });
    v.push(x);
    // ... nor one whose request body is held back
    let mut x = sv(
        "pipeline-flush-held",
        vec![Beh::simple("one").consume(Consume::SpawnedLate), Beh::simple("x")],
        vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 6\r\n\r\nabcd")), Act(body_has("one", true), send("ef")), Act(Trig::Now, send(get))],
        &["one", "x"],
    );
    x.tweak = Arc::new(|b, _| {
        b.pipeline_flush(true);
    });
    v.push(x);
    v.push(sv(
        "slow-service",
        vec![Beh::simple("one").delay(), Beh::simple("two").delay()],
        vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcGET /2 HTTP/1.1\r\n\r\n"))],
        &["one", "two"],
    ));
    for (n, hint, eos) in [("slow-body", Hint::Unknown, false), ("slow-body-len", Hint::Exact, true), ("slow-body-len-late-eos", Hint::Exact, false), ("slow-body-range", Hint::Range, true)] {
        v.push(sv(
            n,
            vec![Beh::simple("").resp(resp(body(vec![BStep::Pending, d("ab"), d(""), BStep::Pending, d("cd"), BStep::Pending], hint, eos))), Beh::simple("last")],
            vec![Act(Trig::Now, send(get)), Act(body_has("cd", true), send(get))],
            &["abcd", "last"],
        ));
    }
    v.push(sv(
        "body-gated-by-peer",
        vec![Beh::simple("").resp(resp(body(vec![d("ab"), BStep::Gate(1), d("cd"), BStep::Gate(2)], Hint::Unknown, false))), Beh::simple("last")],
        vec![Act(Trig::Now, send(get)), Act(body_has("ab", true), Do::Open(1)), Act(body_has("cd", true), Do::Open(2)), Act(resps(1), send(get))],
        &["abcd", "last"],
    ));
    v.push(sv(
        "head-before-body",
        vec![Beh::simple("").resp(resp(body(vec![BStep::Gate(1), d("ab")], Hint::Exact, true))), Beh::simple("last")],
        vec![Act(Trig::Now, send(get)), Act(saw("\r\n\r\n", 1), Do::Open(1)), Act(body_has("ab", true), send(get))],
        &["ab", "last"],
    ));
    v.push(sv(
        "trailers-late",
        vec![
            Beh::simple("").resp(RespSpec {
                headers: vec![("trailer", b"x-t")],
                body: body(vec![d("ab"), BStep::Pending, BStep::Trailers(vec![("x-t", "1")])], Hint::Unknown, true),
                ..RespSpec::ok("")
            }),
            Beh::simple("last"),
        ],
        vec![Act(Trig::Now, send("GET /1 HTTP/1.1\r\nTE: trailers\r\n\r\n")), Act(saw("x-t: 1", 1), send(get))],
        &["ab", "last"],
    ));
    // response first, request body afterwards; the next request waits behind it
    for (n, c) in [("spawned-reader", Consume::Spawned), ("late-reader", Consume::SpawnedLate)] {
        let mut x = sv(
            n,
            vec![Beh::simple("one").consume(c), Beh::simple("last")],
            vec![
                Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 6\r\n\r\nab")),
                Act(body_has("one", true), send("cd")),
                Act(Trig::Now, send("efGET /2 HTTP/1.1\r\n\r\n")),
            ],
            &["one", "last"],
        );
        x.saw = vec![Some("abcdef")];
        v.push(x);
    }
    // ... all of it there while the transport takes nothing more for the moment
    for (n, c, w) in [("early-narrow", Consume::Spawned, 60), ("early-late-narrow", Consume::SpawnedLate, 60), ("early-narrow-head", Consume::Spawned, 10), ("early-narrow-body", Consume::Spawned, 76)] {
        for (m, second) in [("", Beh::simple("two")), ("-delayed", Beh::simple("two").delay())] {
            let mut x = sv(
                Box::leak(format!("{n}{m}").into_boxed_str()),
                vec![Beh::simple("one").consume(c.clone()), second, Beh::simple("last")],
                vec![
                    Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcPOST /2 HTTP/1.1\r\nContent-Length: 3\r\n\r\ndefGET /3 HTTP/1.1\r\n\r\n")),
                    Act(Trig::Bytes(w), Do::Room(10_000)),
                ],
                &["one", "two", "last"],
            );
            x.wcap = Some(w);
            x.saw = vec![Some("abc"), Some("def")];
            v.push(x);
        }
    }
    // unread body that has completely arrived: drained, and the connection goes on or closes
    v.push(Sv {
        closes: true,
        ..sv("unread", vec![Beh::simple("one").consume(Consume::DropFirst)], vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 60\r\n\r\nab"))], &["one"])
    });
    // half-closed peer still gets its answer
    let mut x = sv("half-close", vec![Beh::simple("").delay().resp(resp(body(vec![BStep::Pending, d("ab"), BStep::Pending, d("cd")], Hint::Unknown, false)))], vec![Act(Trig::Now, send(get)), Act(Trig::Now, Do::Eof)], &["abcd"]);
    x.closes = true;
    x.tweak = Arc::new(|b, _| {
        b.half_close(true);
    });
    v.push(x);
    let mut x = sv("close", vec![Beh::simple("").resp(resp(body(vec![BStep::Pending, d("ab")], Hint::Unknown, false)))], vec![Act(Trig::Now, send("GET /1 HTTP/1.0\r\n\r\n"))], &["ab"]);
    x.closes = true;
    v.push(x);
    // a transport that takes little at a time
    let one = big(40);
    for (n, hint, eos) in [("narrow", Hint::Exact, true), ("narrow-chunked", Hint::Unknown, false)] {
        let mut x = sv(n, vec![], vec![Act(Trig::Now, send(get))], &[]);
        x.behs = vec![Beh::simple("").resp(resp(body(vec![BStep::Data(one.clone()), BStep::Pending, BStep::Data(one.clone())], hint, eos))), Beh::simple("last")];
        x.want = vec![[one.clone(), one.clone()].concat(), b"last".to_vec()];
        x.wcap = Some(10);
        for i in 1..4usize {
            x.acts.push(Act(Trig::Bytes(10 + 50 * (i - 1)), Do::Room(50)));
        }
        x.acts.push(Act(Trig::Bytes(150), Do::Room(1000)));
        x.acts.push(Act(when(move |b| h1ref::responses(b, &["GET".into()], false).msgs.len() == 1), send(get)));
        v.push(x);
    }
    // more than the write buffer holds, and more chunks than the vectored queue takes
    let chunk = big(30);
    let mut x = sv("many-chunks", vec![], vec![Act(Trig::Now, send(get))], &[]);
    x.behs = vec![Beh::simple("").resp(resp(body((0..24).map(|_| BStep::Data(chunk.clone())).collect(), Hint::Exact, true)))];
    x.want = vec![(0..24).flat_map(|_| chunk.clone()).collect()];
    x.wcap = Some(100);
    for i in 1..8usize {
        x.acts.push(Act(Trig::Bytes(100 * i), Do::Room(100)));
    }
    x.heavy = true;
    v.push(x);
    let mut x = sv("huge", vec![], vec![Act(Trig::Now, send(get))], &[]);
    let chunk = big(9000);
    x.behs = vec![Beh::simple("").resp(resp(body((0..5).map(|_| BStep::Data(chunk.clone())).collect(), Hint::Unknown, false)))];
    x.want = vec![(0..5).flat_map(|_| chunk.clone()).collect()];
    x.tweak = Arc::new(|b, _| {
        b.max_buf_size(8192);
    });
    x.heavy = true;
    v.push(x);
    // a body much larger than the read buffer, read late
    let mut x = sv("big-upload", vec![Beh::simple("one"), Beh::simple("last")], vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nContent-Length: 20000\r\n\r\n"))], &["one", "last"]);
    x.acts.push(Act(Trig::Now, Do::Send(big(15000))));
    x.acts.push(Act(Trig::Now, Do::Send([big(5000), get.as_bytes().to_vec()].concat())));
    x.tweak = Arc::new(|b, _| {
        b.max_buf_size(8192);
    });
    x.heavy = true;
    v.push(x);
    let mut x = sv("timer", vec![Beh::simple("one").delay(), Beh::simple("last")], vec![Act(Trig::Now, send("GET /1 HT")), Act(Trig::Now, send("TP/1.1\r\n\r\n")), Act(body_has("one", true), send(get))], &["one", "last"]);
    x.tweak = Arc::new(|b, env| {
        b.timer(VTimer::new(env));
        b.header_read_timeout(std::time::Duration::from_secs(5));
    });
    v.push(x);
    v
}

fn server(ch: &Ch, x: &Sv, pol: IoPolicy) -> ExecResult {
    let t = x.tweak.clone();
    let mut s = h1srv::start(ch, SrvCfg::new(x.behs.clone()).pol(pol).tweak(move |b, e| t(b, e)));
    s.io.s.borrow_mut().wcap = x.wcap;
    let done = h1cli::peer(&s.env, &s.io, x.acts.clone());
    let end = s.w.run();
    let rs = s.responses();
    let desc = format!(
        "{} of {} peer actions done, spin {:?}, unfinished {:?}\nresult {:?} flushed {} of {}\nservice saw {}wire {:?}",
        done.get(),
        x.acts.len(),
        s.env.spin.borrow(),
        s.w.unfinished(),
        s.result.borrow(),
        s.io.s.borrow().flushed,
        s.io.out().len(),
        s.seen(),
        esc(&s.io.out()[..s.io.out().len().min(1500)])
    );
    if end == RunEnd::StepLimit {
        return viol("livelock", desc);
    }
    if let Some(t) = &*s.env.spin.borrow() {
        return viol("a task keeps waking itself", format!("{t}\n{desc}"));
    }
    if rs.tail != Tail::Clean {
        return viol("response incomplete although everything was ready", format!("{:?}\n{desc}", rs.tail));
    }
    if s.io.s.borrow().flushed != s.io.out().len() {
        return viol("written bytes never flushed", desc);
    }
    if done.get() != x.acts.len() {
        return viol("exchange stands still", desc);
    }
    if rs.msgs.len() != x.want.len() {
        return viol("request never answered", desc);
    }
    for (m, w) in rs.msgs.iter().zip(&x.want) {
        if m.1.body != *w {
            return viol("wrong response body", desc);
        }
    }
    for (i, w) in x.saw.iter().enumerate() {
        let r = s.recs.borrow();
        let g = r[i].got.borrow();
        if let Some(w) = w {
            if g.data != w.as_bytes() || g.end != End::Clean {
                return viol("request body incomplete", desc);
            }
        }
    }
    if let Some(b) = s.contract_violation() {
        return viol("body contract", format!("{b}\n{desc}"));
    }
    let fin = s.result.borrow().is_some();
    if fin != x.closes {
        return viol(if fin { "connection ended early" } else { "connection never finishes" }, desc);
    }
    if !fin {
        s.io.push_eof();
        if s.w.run() == RunEnd::StepLimit {
            return viol("livelock", desc);
        }
    }
    let res = s.result.borrow().clone();
    if res != Some(Ok(())) {
        return viol("connection never finishes", format!("{res:?}\n{desc}"));
    }
    Ok(rs.msgs.len() as u64)
}

#[derive(Clone)]
struct Cl {
    name: &'static str,
    calls: Vec<h1cli::Call>,
    acts: Vec<Act>,
    /// (call, response body)
    want: Vec<&'static str>,
    sent: Vec<Vec<u8>>,
    wcap: Option<usize>,
}
fn clients() -> Vec<Cl> {
    let ok = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok";
    let mut v = vec![];
    let cl = |name, calls: Vec<h1cli::Call>, acts, want: &[&'static str], sent: &[&str]| Cl {
        name,
        calls,
        acts,
        want: want.to_vec(),
        sent: sent.iter().map(|s| s.as_bytes().to_vec()).collect(),
        wcap: None,
    };
    v.push(cl("three", vec![call("GET", "/1"), call("GET", "/2").after(1), call("GET", "/3").after(2)], (1..4).map(|i| Act(Trig::Reqs(i), send(ok))).collect(), &["ok", "ok", "ok"], &["", "", ""]));
    v.push(cl("unready", vec![call("GET", "/1").not_ready(), call("GET", "/2").not_ready().after(1)], (1..3).map(|i| Act(Trig::Reqs(i), send(ok))).collect(), &["ok", "ok"], &["", ""]));
    for (n, hint, eos) in [("upload", Hint::Unknown, false), ("upload-len", Hint::Exact, true), ("upload-len-late", Hint::Exact, false), ("upload-range", Hint::Range, true)] {
        v.push(cl(
            n,
            vec![call("POST", "/1").body(body(vec![BStep::Pending, d("ab"), d(""), BStep::Pending, d("cd"), BStep::Pending], hint, eos)), call("GET", "/2").after(1)],
            vec![Act(Trig::Reqs(1), send(ok)), Act(Trig::Reqs(2), send(ok))],
            &["ok", "ok"],
            &["abcd", ""],
        ));
    }
    v.push(cl(
        "upload-gated",
        vec![call("POST", "/1").body(body(vec![d("ab"), BStep::Gate(1), d("cd"), BStep::Gate(2)], Hint::Unknown, false)), call("GET", "/2").after(1)],
        vec![Act(body_has("ab", false), Do::Open(1)), Act(body_has("cd", false), Do::Open(2)), Act(Trig::Reqs(1), send(ok)), Act(Trig::Reqs(2), send(ok))],
        &["ok", "ok"],
        &["abcd", ""],
    ));
    // the response streams back while the request streams out
    v.push(cl(
        "duplex",
        vec![call("POST", "/1").body(body(vec![d("ab"), BStep::Gate(1), d("cd"), BStep::Gate(2)], Hint::Unknown, false)), call("GET", "/2").after(1)],
        vec![
            Act(body_has("ab", false), send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n")),
            Act(Trig::Now, Do::Open(1)),
            Act(body_has("cd", false), send("1\r\nz\r\n")),
            Act(Trig::Now, Do::Open(2)),
            Act(Trig::Reqs(1), send("0\r\n\r\n")),
            Act(Trig::Reqs(2), send(ok)),
        ],
        &["xyz", "ok"],
        &["abcd", ""],
    ));
    // the response is complete before the request is
    v.push(cl(
        "early-response",
        vec![call("POST", "/1").body(body(vec![d("ab"), BStep::Gate(1), d("cd")], Hint::Exact, true)), call("GET", "/2").after(1)],
        vec![Act(body_has("ab", false), send(ok)), Act(Trig::Now, Do::Open(1)), Act(Trig::Reqs(2), send(ok))],
        &["ok", "ok"],
        &["abcd", ""],
    ));
    v.push(cl(
        "informational",
        vec![call("POST", "/1").body(body(vec![d("ab"), BStep::Gate(1), d("cd")], Hint::Exact, true)), call("GET", "/2").after(1)],
        vec![
            Act(body_has("ab", false), send("HTTP/1.1 103 Early Hints\r\nA: b\r\n\r\nHTTP/1.1 10")),
            Act(Trig::Now, Do::Open(1)),
            Act(Trig::Reqs(1), send("0 Continue\r\n\r\n")),
            Act(Trig::Now, send(ok)),
            Act(Trig::Reqs(2), send(ok)),
        ],
        &["ok", "ok"],
        &["abcd", ""],
    ));
    v.push(cl(
        "late-take",
        vec![call("GET", "/1").take(Take::Late), call("GET", "/2").after(1)],
        vec![
            Act(Trig::Reqs(1), send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n")),
            Act(Trig::Now, send("2\r\nzw\r\n")),
            Act(Trig::Now, send("0\r\n\r\n")),
            Act(Trig::Reqs(2), send(ok)),
        ],
        &["xyzw", "ok"],
        &["", ""],
    ));
    v.push(cl(
        "until-close",
        vec![call("GET", "/1")],
        vec![Act(Trig::Reqs(1), send("HTTP/1.1 200 OK\r\n\r\nxy")), Act(Trig::Now, send("zw")), Act(Trig::Now, Do::Eof)],
        &["xyzw"],
        &[""],
    ));
    let b = big(60);
    let mut x = cl("narrow", vec![call("POST", "/1").body(body(vec![BStep::Data(b.clone()), BStep::Pending, BStep::Data(b.clone())], Hint::Unknown, false)), call("GET", "/2").after(1)], vec![], &["ok", "ok"], &["", ""]);
    x.sent[0] = [b.clone(), b].concat();
    x.wcap = Some(20);
    for i in 0..5usize {
        x.acts.push(Act(Trig::Bytes(20 + 40 * i), Do::Room(40)));
    }
    x.acts.push(Act(Trig::Now, Do::Room(1000)));
    x.acts.push(Act(Trig::Reqs(1), send(ok)));
    x.acts.push(Act(Trig::Reqs(2), send(ok)));
    v.push(x);
    // the whole answer comes while the request is still stuck in front of a full transport
    for (n, w) in [("early-narrow", 70), ("early-narrow-head", 20), ("early-narrow-end", 86)] {
        for (m, hint) in [("", Hint::Unknown), ("-len", Hint::Exact)] {
            let mut x = cl(
                Box::leak(format!("{n}{m}").into_boxed_str()),
                vec![call("POST", "/1").body(body(vec![d("abcdefghij"), d("klmnop")], hint, false)), call("GET", "/2").after(1), call("GET", "/3").after(2)],
                vec![Act(Trig::Bytes(w.min(if hint == Hint::Exact { 64 } else { 999 })), send(ok)), Act(Trig::Now, Do::Room(10_000)), Act(Trig::Reqs(2), send(ok)), Act(Trig::Reqs(3), send(ok))],
                &["ok", "ok", "ok"],
                &["abcdefghijklmnop", "", ""],
            );
            x.wcap = Some(w.min(if hint == Hint::Exact { 64 } else { 999 }));
            v.push(x);
        }
    }
    v
}
fn client(ch: &Ch, x: &Cl, pol: IoPolicy) -> ExecResult {
    let mut c = h1cli::start(ch, CliCfg::new(pol));
    c.io.s.borrow_mut().wcap = x.wcap;
    for q in &x.calls {
        c.caller(q.clone());
    }
    let done = c.peer(x.acts.clone());
    let end = c.w.run();
    let desc = format!(
        "{} of {} peer actions done, spin {:?}, unfinished {:?} flushed {} of {}\n{}",
        done.get(),
        x.acts.len(),
        c.env.spin.borrow(),
        c.w.unfinished(),
        c.io.s.borrow().flushed,
        c.io.out().len(),
        c.summary()
    );
    if end == RunEnd::StepLimit {
        return viol("livelock", desc);
    }
    if let Some(t) = &*c.env.spin.borrow() {
        return viol("a task keeps waking itself", format!("{t}\n{desc}"));
    }
    let (ms, tail) = c.requests();
    if tail != Tail::Clean {
        return viol("request incomplete although everything was ready", format!("{tail:?}\n{desc}"));
    }
    if c.io.s.borrow().flushed != c.io.out().len() {
        return viol("written bytes never flushed", desc);
    }
    // which request went first is up to the scheduler when calls are queued: match by target
    for (i, q) in x.calls.iter().enumerate() {
        match ms.iter().filter(|m| m.b == q.uri).collect::<Vec<_>>()[..] {
            [m] if m.body == x.sent[i] => {}
            _ => return viol("request missing or wrong on the wire", desc),
        }
    }
    if done.get() != x.acts.len() {
        return viol("exchange stands still", desc);
    }
    for (r, w) in c.recs.borrow().iter().zip(&x.want) {
        if r.outcome != Outcome::Resp || r.got.borrow().end != End::Clean || r.got.borrow().data != w.as_bytes() {
            return viol("call not completed although everything was ready", desc);
        }
    }
    if let Some(b) = c.contract_violation() {
        return viol("body contract", format!("{b}\n{desc}"));
    }
    c.drop_sender();
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", desc);
    }
    let res = c.result.borrow().clone();
    if res != Some(Ok(())) || !c.io.s.borrow().shut {
        return viol("connection not closed after the sender was dropped", format!("{res:?}\n{desc}"));
    }
    Ok(ms.len() as u64)
}

/// peer -> hyper server -> service -> hyper client -> origin, everything passed through as it comes.
fn proxy(ch: &Ch, which: usize, pol: IoPolicy, pol2: IoPolicy) -> ExecResult {
    let px: Rc<std::cell::RefCell<Option<h1cli::Tx>>> = Default::default();
    let mut cfg = SrvCfg::new(vec![Beh::simple("").consume(Consume::Proxy)]).pol(pol);
    cfg.proxy = Some(px.clone());
    let mut s = h1srv::start(ch, cfg);
    let up = Io::new(&s.env, pol2);
    let (tx, conn) = h1cli::connect(&CliCfg::new(pol2), &up);
    *px.borrow_mut() = Some(tx);
    let cres: Rc<std::cell::RefCell<Option<bool>>> = Default::default();
    let c2 = cres.clone();
    s.w.add("upstream", async move {
        let r = conn.await;
        *c2.borrow_mut() = Some(r.is_ok());
    });
    let ok = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok";
    let (front, back, want): (Vec<Act>, Vec<Act>, Vec<&str>) = match which {
        0 => (
            vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nab")), Act(Trig::Now, send("cd")), Act(resps(1), send("GET /2 HTTP/1.1\r\n\r\n"))],
            vec![Act(Trig::Reqs(1), send(ok)), Act(Trig::Reqs(2), send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nxyz\r\n")), Act(Trig::Now, send("0\r\n\r\n"))],
            vec!["ok", "xyz"],
        ),
        1 => {
            // each side answers piece by piece
            (
                vec![Act(Trig::Now, send("POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n")), Act(body_has("xy", true), send("2\r\ncd\r\n")), Act(body_has("zw", true), send("0\r\n\r\n"))],
                vec![
                    Act(body_has("ab", false), send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n")),
                    Act(body_has("cd", false), send("2\r\nzw\r\n")),
                    Act(Trig::Reqs(1), send("0\r\n\r\n")),
                ],
                vec!["xyzw"],
            )
        }
        _ => (
            vec![Act(Trig::Now, send("GET /1 HTTP/1.1\r\n\r\nGET /2 HTTP/1.1\r\n\r\nPOST /3 HTTP/1.1\r\nContent-Length: 1\r\n\r\nz"))],
            vec![Act(Trig::Reqs(1), send("HTTP/1.1 204 No Content\r\n\r\n")), Act(Trig::Reqs(2), send(ok)), Act(Trig::Reqs(3), send(ok))],
            vec!["", "ok", "ok"],
        ),
    };
    let (nf, nb) = (front.len(), back.len());
    let fd = h1cli::peer(&s.env, &s.io, front);
    let bd = h1cli::peer(&s.env, &up, back);
    let end = s.w.run();
    let rs = s.responses();
    let desc = format!(
        "front {} of {nf}, back {} of {nb}, spin {:?}\nfront wire {:?}\nback wire {:?}",
        fd.get(),
        bd.get(),
        s.env.spin.borrow(),
        esc(&s.io.out()),
        esc(&up.out())
    );
    if end == RunEnd::StepLimit {
        return viol("livelock", desc);
    }
    if let Some(t) = &*s.env.spin.borrow() {
        return viol("a task keeps waking itself", format!("{t}\n{desc}"));
    }
    if fd.get() != nf || bd.get() != nb || rs.tail != Tail::Clean || rs.msgs.len() != want.len() {
        return viol("proxied exchange stands still", desc);
    }
    for (m, w) in rs.msgs.iter().zip(&want) {
        if m.1.body != w.as_bytes() {
            return viol("wrong response body", desc);
        }
    }
    s.io.push_eof();
    s.w.run();
    if *s.result.borrow() != Some(Ok(())) || cres.borrow().is_some() {
        return viol("connection never finishes", desc);
    }
    px.borrow_mut().take();
    Ok(1)
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let b = tier.pick(2, 3);
    for x in servers() {
        let pols: Vec<(&str, IoPolicy, u32)> = vec![
            ("few", IoPolicy { read: Cuts::Few, ..IO_ALL }, b),
            ("flat", IoPolicy { read: Cuts::Few, vectored: false, ..IO_ALL }, b - 1),
            ("drip", IoPolicy { drip: 1, drip_block: true, ..IO_PLAIN }, 0),
        ];
        for (pn, pol, bound) in pols {
            if x.heavy && pn == "drip" && x.name.starts_with("big") {
                continue;
            }
            let bound = if x.heavy { bound.saturating_sub(1) } else { bound };
            let x2 = x.clone();
            let bound = if pn == "drip" { b - 1 } else { bound };
            sc.push(scenario(format!("server/{}/{pn}", x.name), bound, move |ch| server(ch, &x2, pol)));
        }
    }
    for x in clients() {
        for (pn, pol, bound) in [
            ("few", IoPolicy { read: Cuts::Few, ..IO_ALL }, b),
            ("flat", IoPolicy { read: Cuts::Few, vectored: false, ..IO_ALL }, b - 1),
            ("drip", IoPolicy { drip: 1, drip_block: true, ..IO_PLAIN }, b - 1),
        ] {
            let x2 = x.clone();
            sc.push(scenario(format!("client/{}/{pn}", x.name), bound, move |ch| client(ch, &x2, pol)));
        }
    }
    for which in 0..3 {
        let f = IoPolicy { read: Cuts::Few, ..IO_ALL };
        sc.push(scenario(format!("proxy/{which}"), b, move |ch| proxy(ch, which, f, f)));
    }
    Check {
        id: "C08",
        scenarios: sc,
        rule: "Closed systems (peer acting on flushed bytes only, bodies and services made ready by events), every combination within the bound of blocked/short reads, writes, flushes, shutdowns, wake-up order and task order; at quiescence every exchange must be complete and flushed, no task may keep waking itself.".into(),
        assumptions: vec!["a task that wakes itself 8 times in a row without any transport, body or service operation succeeding counts as spinning".into()],
    }
}
