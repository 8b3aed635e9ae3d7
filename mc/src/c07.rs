//! C07: connections persist exactly when both sides agreed, responses in order.

use crate::core::*;
use crate::h1cli::{self, call, Act, CliCfg, Do, Outcome, Trig};
use crate::h1ref::{Framing, Tail};
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;
use http::Version;

/// Connection lines; index 0 means: no line.
const LINES: [&str; 12] = [
    "",
    "close",
    "keep-alive",
    "x-foo",
    "Close",
    "KEEP-ALIVE",
    "keep-alive, close",
    "x-foo , \tclose",
    "x-foo,keep-alive",
    ",,close",
    "closed, not-close",
    "keep-aliv",
];
fn has(ls: &[&str], t: &str) -> bool {
    ls.iter().any(|l| l.split(',').any(|x| x.trim_matches(|c| c == ' ' || c == '\t').eq_ignore_ascii_case(t)))
}
fn persist(minor: u8, ls: &[&str]) -> bool {
    !has(ls, "close") && (minor == 1 || has(ls, "keep-alive"))
}
/// Up to two lines of the first `n` values; the second only if there is a first.
fn pick(ch: &Ch, n: usize) -> Vec<&'static str> {
    let a = ch.free(n, "first Connection line");
    let b = if a > 0 { ch.free(n, "second Connection line") } else { 0 };
    [a, b].iter().filter(|i| **i > 0).map(|i| LINES[*i]).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum RB {
    None,
    Len,
    Chunked,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum RF {
    Empty,
    Full,
    Stream,
    NoContent,
    Late,
}
#[derive(Clone, Debug)]
struct S {
    minor: u8,
    head: bool,
    rb: RB,
    consume: Consume,
    late: bool,
    ka: bool,
    user10: bool,
    rf: RF,
    nreq: usize,
    nresp: usize,
    half: bool,
    pol: IoPolicy,
}
fn server(ch: &Ch, s0: &S) -> ExecResult {
    let rl = pick(ch, s0.nreq);
    let ul = pick(ch, s0.nresp);
    let mode = ch.free(2, "next request pipelined");
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    let mut spec = match s0.rf {
        RF::Empty => RespSpec::ok(""),
        RF::Full => RespSpec::ok("first"),
        RF::NoContent => RespSpec { status: 204, ..RespSpec::ok("") },
        RF::Stream => RespSpec { body: BodySpec { steps: vec![d("fir"), d("st")], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") },
        RF::Late => RespSpec { body: BodySpec { steps: vec![BStep::Pending, d("fir"), BStep::Pending, d("st")], hint: Hint::Exact, eos: true }, ..RespSpec::ok("") },
    };
    for l in &ul {
        spec.headers.push(("connection", l.as_bytes()));
    }
    if s0.user10 {
        spec.version = Some(Version::HTTP_10);
    }
    let ka = s0.ka;
    let half = s0.half;
    let mut s = h1srv::start(
        ch,
        SrvCfg::new(vec![Beh { late: s0.late, ..Beh::simple("").resp(spec).consume(s0.consume.clone()) }, Beh::simple("second")]).pol(s0.pol).tweak(move |b, _| {
            if !ka {
                b.keep_alive(false);
            }
            if half {
                b.half_close(true);
            }
        }),
    );
    let mut m = format!("{} /1 HTTP/1.{}\r\n", if s0.head { "HEAD" } else { "POST" }, s0.minor);
    for l in &rl {
        m += &format!("Connection: {l}\r\n");
    }
    m += match s0.rb {
        RB::None => "\r\n",
        RB::Len => "Content-Length: 5\r\n\r\nhello",
        RB::Chunked => "Transfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n",
    };
    let two = b"GET /2 HTTP/1.1\r\n\r\n";
    s.io.push(m.as_bytes());
    if mode == 1 {
        s.io.push(two);
    }
    s.w.run();
    if mode == 0 {
        s.io.push(two);
        s.w.run();
    }
    let rs = s.responses();
    let finished = s.result.borrow().is_some();
    let desc = || {
        format!(
            "{s0:?}\nrequest lines {rl:?}, response lines {ul:?}, pipelined {mode}\nfinished {finished} shut {} result {:?}\nservice saw {}wire {:?}",
            s.io.s.borrow().shut,
            s.result.borrow(),
            s.seen(),
            esc(&s.io.out())
        )
    };
    if rs.tail != Tail::Clean || rs.msgs.is_empty() || !rs.pending_1xx.is_empty() {
        return viol("broken output", format!("{:?}\n{}", rs.tail, desc()));
    }
    let r0 = &rs.msgs[0].1;
    let user_minor = if s0.user10 { 0 } else { 1 };
    // to an HTTP/1.0 peer hyper answers in kind, and says keep-alive on the user's behalf
    let user_ok = !has(&ul, "close") && (user_minor == 1 || has(&ul, "keep-alive"));
    let must_close = !s0.ka || !persist(s0.minor, &rl) || !user_ok || r0.framing == Framing::Close;
    let may_close = s0.rb != RB::None && s0.consume != Consume::Full;
    let n = s.recs.borrow().len();
    if n != rs.msgs.len() {
        return viol("requests and responses do not correspond", desc());
    }
    for (i, (_, m)) in rs.msgs.iter().enumerate() {
        let want: &[u8] = if i == 1 {
            b"second"
        } else if s0.head || matches!(s0.rf, RF::Empty | RF::NoContent) {
            b""
        } else {
            b"first"
        };
        if m.body != want {
            return viol("responses out of order or wrong", desc());
        }
    }
    let says = r0.says_persist() && r0.framing != Framing::Close;
    if must_close {
        if n != 1 {
            return viol("another request served although one side asked to close", desc());
        }
        if says {
            return viol("response promises persistence but the connection closes", desc());
        }
        if !finished || !s.io.s.borrow().shut {
            return viol("connection not closed after the last response", desc());
        }
    } else {
        if n != 2 {
            if !may_close {
                return viol("next request not served although both sides agreed to persist", desc());
            }
            if !finished {
                return viol("connection neither closed nor reused", desc());
            }
        } else if finished {
            // the second exchange is an ordinary persistent one
            return viol("connection closed after a persistent exchange", desc());
        }
        if !says && (n == 2 || !(may_close && s0.late)) {
            return viol("response announces a close that nobody asked for", desc());
        }
    }
    if !finished {
        s.io.push_eof();
        if s.w.run() == RunEnd::StepLimit {
            return viol("livelock", "step limit");
        }
        if s.result.borrow().is_none() {
            return viol("connection never finishes", s.seen());
        }
    }
    if !matches!(&*s.result.borrow(), Some(Ok(()))) {
        return viol("orderly exchange reported as an error", format!("{s0:?} {:?}\n{}", s.result.borrow(), s.seen()));
    }
    Ok(n as u64 * 2 + says as u64)
}

#[derive(Clone, Debug)]
struct C {
    minor: u8,
    method: &'static str,
    resp_minor: u8,
    frame: &'static str,
    body: bool,
    nreq: usize,
    nresp: usize,
    pol: IoPolicy,
}
fn client(ch: &Ch, c0: &C) -> ExecResult {
    let rl = pick(ch, c0.nreq);
    let ul = pick(ch, c0.nresp);
    let queued = ch.free(2, "second call waits for the first") == 0;
    let mut c = h1cli::start(ch, CliCfg::new(c0.pol));
    let mut q = call(c0.method, "/1");
    if c0.minor == 0 {
        q.version = Some(Version::HTTP_10);
    }
    for l in &rl {
        q.headers.push(("connection", l.as_bytes()));
    }
    if c0.body {
        q = q.body(BodySpec { steps: vec![BStep::Data(b"hel".to_vec()), BStep::Pending, BStep::Data(b"lo".to_vec())], hint: Hint::Exact, eos: true });
    }
    c.caller(q);
    c.caller(if queued { call("GET", "/2").not_ready().after(1) } else { call("GET", "/2").after(1) });
    let mut r = format!("HTTP/1.{} {} X\r\n", c0.resp_minor, if c0.frame == "204" { "204" } else { "200" });
    for l in &ul {
        r += &format!("Connection: {l}\r\n");
    }
    let close_delim = c0.frame == "close" && c0.method != "HEAD";
    let has_body = c0.method != "HEAD";
    r += match c0.frame {
        "len0" => "Content-Length: 0\r\n\r\n",
        "len" => "Content-Length: 2\r\n\r\n",
        "chunked" => "Transfer-Encoding: chunked\r\n\r\n",
        _ => "\r\n",
    };
    if has_body {
        r += match c0.frame {
            "len" | "close" => "ok",
            "chunked" => "2\r\nok\r\n0\r\n\r\n",
            _ => "",
        };
    }
    let mut acts = vec![Act(Trig::Reqs(1), Do::Send(r.into_bytes()))];
    if close_delim {
        acts.push(Act(Trig::Reqs(1), Do::Eof));
    } else {
        acts.push(Act(Trig::Reqs(2), Do::Send(b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\ntwo".to_vec())));
    }
    c.peer(acts);
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    let desc = || format!("{c0:?}\nrequest lines {rl:?}, response lines {ul:?}, queued {queued}\nshut {} {}", c.io.s.borrow().shut, c.summary());
    let (ms, tail) = c.requests();
    if tail != Tail::Clean {
        return viol("broken output", format!("{tail:?}\n{}", desc()));
    }
    let agreed = persist(c0.minor, &rl) && persist(c0.resp_minor, &ul) && !close_delim;
    let recs = c.recs.borrow();
    if recs[0].outcome != Outcome::Resp || recs[0].got.borrow().end != End::Clean {
        return viol("first exchange failed", desc());
    }
    if recs[1].outcomes != 1 {
        return viol("second call never resolves", desc());
    }
    if agreed {
        if recs[1].outcome != Outcome::Resp || recs[1].got.borrow().data != b"two" || ms.len() != 2 {
            return viol("connection not reused although both sides agreed", desc());
        }
        if c.result.borrow().is_some() {
            return viol("connection closed after a persistent exchange", desc());
        }
    } else {
        if ms.len() != 1 {
            return viol("connection reused although one side asked to close", desc());
        }
        if recs[1].outcome == Outcome::Resp {
            return viol("response out of nothing", desc());
        }
        if c.result.borrow().is_none() {
            return viol("connection not closed after the last exchange", desc());
        }
    }
    drop(recs);
    c.drop_sender();
    c.w.run();
    let res = c.result.borrow().clone();
    match res {
        Some(Ok(())) => Ok(agreed as u64),
        None => viol("connection never finishes", c.summary()),
        Some(Err(_)) => viol("orderly exchange reported as an error", c.summary()),
    }
}

/// Exchange kinds for the histories: request text, whether the next request may follow.
const HREQ: [&str; 9] = [
    "GET /q HTTP/1.1\r\n\r\n",
    "HEAD /q HTTP/1.1\r\nConnection: keep-alive\r\n\r\n",
    "GET /q HTTP/1.0\r\nConnection: keep-alive\r\n\r\n",
    "GET /q HTTP/1.1\r\nTE: trailers\r\nX-A: 1\r\nX-A: 2\r\n\r\n",
    "POST /q HTTP/1.1\r\nTransfer-Encoding: chunked\r\nExpect: 100-continue\r\n\r\n3;e=x\r\nabc\r\n0\r\nX-T: 1\r\n\r\n",
    "\r\n\r\nPUT /q HTTP/1.0\r\nConnection: Keep-Alive\r\nContent-Length: 4\r\n\r\nfour",
    "POST /q HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 3\r\n\r\nxyz",
    "\r\nCONNECT h:1 HTTP/1.1\r\n\r\n",
    "OPTIONS * HTTP/1.1\r\nUpgrade: foo\r\nConnection: upgrade\r\n\r\n",
];
fn hresp(k: usize) -> RespSpec {
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    match k {
        0 => RespSpec::ok("full"),
        1 => RespSpec { headers: vec![("trailer", b"x-t")], body: BodySpec { steps: vec![d("st"), BStep::Pending, d("ream"), BStep::Trailers(vec![("x-t", "9")])], hint: Hint::Unknown, eos: false }, ..RespSpec::ok("") },
        2 => RespSpec { status: 204, ..RespSpec::ok("") },
        3 => RespSpec { status: 404, headers: vec![("x-b", b"1"), ("date", b"now")], reason: Some(b"Nope"), ..RespSpec::ok("") },
        4 => RespSpec { version: Some(Version::HTTP_10), headers: vec![("connection", b"keep-alive")], ..RespSpec::ok("old") },
        _ => RespSpec { status: 304, headers: vec![("content-length", b"7")], ..RespSpec::ok("") },
    }
}
type HSeen = Vec<(String, String, Version, Vec<(String, Vec<u8>)>, Vec<u8>, End, Option<Vec<(String, Vec<u8>)>>)>;
/// Runs the exchanges on one server connection; what came out, what the service saw, whether it ended in time and how.
fn hrun(ch: &Ch, xs: &[(usize, usize)], pipelined: bool, end: usize) -> (Vec<u8>, HSeen, bool, Option<bool>) {
    let mut s = h1srv::start(
        ch,
        SrvCfg::new(xs.iter().map(|x| Beh::simple("").resp(hresp(x.1))).collect()).tweak(|b, _| {
            b.auto_date_header(false);
        }),
    );
    for (i, x) in xs.iter().enumerate() {
        s.io.push(HREQ[x.0].as_bytes());
        if !pipelined || i + 1 == xs.len() {
            s.w.run();
        }
    }
    let early = s.result.borrow().is_some();
    if !early {
        s.io.push([&b""[..], b"\r\n", b"\r\n\r\nGE"][end]);
        s.io.push_eof();
        s.w.run();
    }
    let seen = s.recs.borrow().iter().map(|r| (r.method.clone(), r.uri.clone(), r.version, r.headers.clone(), r.got.borrow().data.clone(), r.got.borrow().end.clone(), r.got.borrow().trailers.clone())).collect();
    let out = s.io.s.borrow().out.clone();
    let res = s.result.borrow().as_ref().map(|r| r.is_ok());
    (out, seen, early, res)
}
/// Every exchange on a persistent connection comes out as it would on a fresh one.
fn hist_server(ch: &Ch, n: usize, first: usize, nresp: usize) -> ExecResult {
    let pipelined = ch.free(2, "pipelined") == 1;
    let end = ch.free(3, "end of the connection");
    let mut xs: Vec<(usize, usize)> = vec![];
    let (mut out, mut seen, mut early) = (vec![], vec![], false);
    for i in 0..n {
        let x = (if i == 0 { first } else { ch.free(HREQ.len(), "request") }, ch.free(nresp, "response"));
        xs.push(x);
        if !early {
            let (o, s, e, _) = hrun(ch, &[x], false, 0);
            out.extend(o);
            seen.extend(s);
            early = e;
        }
    }
    let (o, s, e, res) = hrun(ch, &xs, pipelined, end);
    let d = || format!("exchanges {xs:?} pipelined {pipelined} end {end}\nfresh: {:?}\n {seen:?}\nhistory: {:?}\n {s:?}\nclosed early {e}, result ok {res:?}", esc(&out), esc(&o));
    if o != out {
        return viol("an exchange on a persistent connection differs from one on a fresh connection", d());
    }
    if s != seen {
        return viol("a request on a persistent connection differs from one on a fresh connection", d());
    }
    if e != early {
        return viol("connection persistence depends on the history", d());
    }
    let want = early || end < 2;
    if res != Some(want) {
        return viol("end of an orderly history misreported", d());
    }
    Ok(s.len() as u64 + 10 * end as u64)
}

fn hcall(k: usize) -> h1cli::Call {
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    match k {
        0 => call("GET", "/q"),
        1 => call("HEAD", "/q").header("x-a", "1"),
        2 => call("POST", "/q").body(BodySpec { steps: vec![d("hel"), d("lo")], hint: Hint::Exact, eos: true }),
        3 => call("POST", "/q").body(BodySpec { steps: vec![d("st"), BStep::Trailers(vec![("x-t", "9")])], hint: Hint::Unknown, eos: false }).header("trailer", "x-t").header("te", "trailers"),
        4 => {
            let mut c = call("GET", "/q").header("connection", "keep-alive");
            c.version = Some(Version::HTTP_10);
            c
        }
        5 => call("CONNECT", "h:1"),
        _ => call("PUT", "/q").header("expect", "100-continue").header("upgrade", "x").header("connection", "upgrade"),
    }
}
const HRSP: [(&str, &str); 8] = [
    ("HTTP/1.1 403 OK\r\nContent-Length: 3\r\n\r\n", "two"),
    ("HTTP/1.1 404 X\r\nTransfer-Encoding: chunked\r\nx-b: 1\r\nx-b: 2\r\n\r\n", "2;e\r\nok\r\n0\r\nX-T: 7\r\n\r\n"),
    ("HTTP/1.1 204 Nothing\r\nConnection: keep-alive\r\n\r\n", ""),
    ("HTTP/1.1 103 Early\r\nLink: x\r\n\r\nHTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 500 \r\nContent-Length: 0\r\n\r\n", ""),
    ("HTTP/1.1 304 Same\r\nContent-Length: 9\r\n\r\n", ""),
    ("HTTP/1.1 400 Bad\r\nContent-Length: 1\r\nConnection: close\r\n\r\n", "z"),
    ("HTTP/1.1 402 P\r\n\r\n", "rest"),
    ("nonsense", ""),
];
type HGot = Vec<(Outcome, u16, Option<Vec<u8>>, Vec<(String, Vec<u8>)>, Vec<u16>, Vec<u8>, End, Option<Vec<(String, Vec<u8>)>>)>;
fn hcli(ch: &Ch, xs: &[(usize, usize)], queued: bool, h09: bool) -> (Vec<u8>, HGot, bool) {
    let mut c = h1cli::start(
        ch,
        CliCfg::new(IO_ALL).tweak(move |b| {
            if h09 {
                b.http09_responses(true);
            }
        }),
    );
    let mut acts = vec![];
    for (i, x) in xs.iter().enumerate() {
        c.caller(if queued { hcall(x.0).not_ready().after(i) } else { hcall(x.0).after(i) });
        let (head, body) = HRSP[x.1];
        let mut r = head.to_string();
        if hcall(x.0).method != "HEAD" {
            r += body;
        }
        acts.push(Act(Trig::Reqs(i + 1), Do::Send(r.into_bytes())));
        if x.1 >= 6 {
            acts.push(Act(Trig::Reqs(i + 1), Do::Eof));
        }
    }
    c.peer(acts);
    c.w.run();
    let got = c
        .recs
        .borrow()
        .iter()
        .map(|r| {
            let g = r.got.borrow();
            let o = match &r.outcome {
                // the kind of failure of a call after the end depends on when it is noticed
                Outcome::NotReady(e) | Outcome::Failed(e, _) => Outcome::Failed(h1srv::ErrInfo { text: String::new(), canceled: false, closed: false, ..e.clone() }, false),
                o => o.clone(),
            };
            (o, r.status, r.reason.clone(), r.headers.clone(), r.info.borrow().clone(), g.data.clone(), g.end.clone(), g.trailers.clone())
        })
        .collect();
    let out = c.io.s.borrow().out.clone();
    let fin = c.result.borrow().is_some();
    (out, got, fin)
}
fn hist_client(ch: &Ch, n: usize, first: usize) -> ExecResult {
    let queued = ch.free(2, "calls wait for readiness") == 0;
    let mut xs: Vec<(usize, usize)> = vec![];
    let (mut out, mut got, mut over) = (vec![], vec![], false);
    let h09 = ch.free(2, "HTTP/0.9 allowed") == 1;
    for i in 0..n {
        let x = (if i == 0 { first } else { ch.free(7, "request") }, ch.free(HRSP.len(), "response"));
        xs.push(x);
        if !over {
            // the HTTP/0.9 option is about the first response only
            let (o, g, e) = hcli(ch, &[x], queued, h09 && i == 0);
            out.extend(o);
            got.extend(g);
            over = e;
        }
    }
    let (o, mut g, e) = hcli(ch, &xs, queued, h09);
    let d = || format!("exchanges {xs:?} queued {queued} 0.9 {h09}\nfresh: {:?}\n {got:?}\nhistory: {:?}\n {g:?}\nended {e}", esc(&out), esc(&o));
    if o != out {
        return viol("a request on a persistent connection differs from one on a fresh connection", d());
    }
    if g[..got.len()] != got[..] || g[got.len()..].iter().any(|x| !matches!(x.0, Outcome::Failed(..))) {
        return viol("a response on a persistent connection differs from one on a fresh connection", d());
    }
    if e != over {
        return viol("connection persistence depends on the history", d());
    }
    g.truncate(got.len());
    Ok(g.len() as u64)
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    for first in 0..HREQ.len() {
        let n = tier.pick(3, 4);
        sc.push(scenario(format!("history/server/{first}"), 0, move |ch| hist_server(ch, 2, first, 6)));
        let k = tier.pick(2, 3);
        sc.push(scenario(format!("history/server{n}/{first}"), 0, move |ch| hist_server(ch, n, first, k)));
    }
    for first in 0..7 {
        let n = tier.pick(2, 3);
        sc.push(scenario(format!("history/client/{first}"), 0, move |ch| hist_client(ch, n, first)));
    }
    let all = LINES.len();
    let b = tier.pick(1, 2);
    for minor in [1u8, 0] {
        for user10 in [false, true] {
            for rf in [RF::Empty, RF::Full, RF::Stream, RF::NoContent, RF::Late] {
                for head in [false, true] {
                    let base = S { minor, head, rb: RB::None, consume: Consume::Full, late: false, ka: true, user10, rf, nreq: all, nresp: all, half: false, pol: IO_ALL };
                    let nm = format!("{minor}{}/{rf:?}/{}", if user10 { "-resp10" } else { "" }, if head { "head" } else { "post" });
                    // every pair of lines on both sides
                    let full = S { nresp: if head { 4 } else { all }, ..base.clone() };
                    sc.push(scenario(format!("server/lines/{nm}"), 0, move |ch| server(ch, &full)));
                    // fewer lines, more schedules
                    for (ka, half) in [(true, false), (false, false), (true, true)] {
                        let s = S { nreq: 3, nresp: 3, ka, half, ..base.clone() };
                        sc.push(scenario(format!("server/sched/{nm}/{ka}/{half}"), b, move |ch| server(ch, &s)));
                    }
                    if head {
                        continue;
                    }
                    for rb in [RB::Len, RB::Chunked] {
                        if rb == RB::Chunked && minor == 0 {
                            continue;
                        }
                        for consume in [Consume::Full, Consume::DropFirst, Consume::Ignore, Consume::Spawned, Consume::SpawnedLate, Consume::Frames(1)] {
                            let s = S { nreq: 3, nresp: tier.pick(2, 3), rb, consume: consume.clone(), late: true, ..base.clone() };
                            sc.push(scenario(format!("server/body-late/{nm}/{rb:?}/{consume:?}"), b, move |ch| server(ch, &s)));
                            let s = S { nreq: 3, nresp: tier.pick(2, 3), rb, consume: consume.clone(), ..base.clone() };
                            sc.push(scenario(format!("server/body/{nm}/{rb:?}/{consume:?}"), b, move |ch| server(ch, &s)));
                        }
                    }
                }
            }
        }
    }
    for minor in [1u8, 0] {
        for method in ["GET", "HEAD", "POST"] {
            for resp_minor in [1u8, 0] {
                for frame in ["len0", "len", "chunked", "close", "204"] {
                    if resp_minor == 0 && frame == "chunked" {
                        continue;
                    }
                    let base = C { minor, method, resp_minor, frame, body: method == "POST", nreq: all, nresp: all, pol: IO_ALL };
                    let full = base.clone();
                    sc.push(scenario(format!("client/lines/{minor}{resp_minor}/{method}/{frame}"), 0, move |ch| client(ch, &full)));
                    let few = C { nreq: 3, nresp: 3, ..base };
                    sc.push(scenario(format!("client/sched/{minor}{resp_minor}/{method}/{frame}"), b, move |ch| client(ch, &few)));
                }
            }
        }
    }
    Check {
        id: "C07",
        scenarios: sc,
        rule: "Every pair of up to two Connection lines per side (12 values) for every version pair and response framing; schedules within the deviation bound for the three-value lists, every request body kind and consumption. Oracle: RFC 9112 section 9.3 evaluated on what each side said.".into(),
        assumptions: vec!["a request body left unread allows (never requires) hyper to close although its response promised persistence".into()],
    }
}
