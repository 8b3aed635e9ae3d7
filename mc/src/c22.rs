//! C22: HTTP/2 messages carry no connection-specific fields, and true lengths.
//!
//! The real client and server write messages built from every sequence of header lines of an alphabet; an independent
//! frame reader and HPACK decoder reads what they wrote.

use crate::core::*;
use crate::h1cli::call;
use crate::h1srv::{Beh, Consume, RespSpec, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;

type L = (&'static str, &'static [u8]);
const ALPHA: &[L] = &[
    ("connection", b"x-a"),
    ("connection", b"close,\tX-B ,x-c,y"),
    ("connection", b"te,keep-alive,"),
    ("connection", b""),
    ("connection", b"x-c, \xff"),
    ("connection", b"content-length"),
    ("keep-alive", b"timeout=5"),
    ("proxy-connection", b"x-a"),
    ("transfer-encoding", b"gzip"),
    ("upgrade", b"h2c"),
    ("te", b"trailers"),
    ("te", b"gzip"),
    ("te", b"trailers, deflate"),
    ("x-a", b"1"),
    ("x-a", b""),
    ("x-b", b"v\xe9"),
    ("x-c", b"close"),
    ("y", b"1"),
    ("trailer", b"x-t"),
];
fn lower(b: &[u8]) -> String {
    String::from_utf8_lossy(b).trim_matches(|c| c == ' ' || c == '\t').to_ascii_lowercase()
}
fn named(lines: &[L]) -> Vec<String> {
    lines.iter().filter(|l| l.0 == "connection").flat_map(|l| l.1.split(|b| *b == b',').map(lower).collect::<Vec<_>>()).filter(|n| !n.is_empty()).collect()
}
/// The fields of `lines` that belong on the wire, by name.
fn expected(lines: &[L], request: bool) -> Vec<(String, Vec<u8>)> {
    let nm = named(lines);
    lines
        .iter()
        .filter(|(n, v)| {
            !matches!(*n, "connection" | "keep-alive" | "proxy-connection" | "transfer-encoding" | "upgrade") && !nm.iter().any(|x| x == n) && (*n != "te" || request && *v == b"trailers")
        })
        .map(|(n, v)| (n.to_string(), v.to_vec()))
        .collect()
}
/// Compares the fields written with those the user set; `len` is the body's true length, None where no length may be added.
fn compare(lines: &[L], request: bool, wire: &r2::Fields, len: Option<u64>, show: &dyn Fn() -> String) -> Result<(), Viol> {
    let what = if request { "request" } else { "response" };
    for (n, v) in wire {
        let n = lower(n);
        let bad = matches!(&n[..], "connection" | "keep-alive" | "proxy-connection" | "transfer-encoding" | "upgrade") || n == "te" && v != b"trailers";
        if bad {
            return viol(format!("a {what} was sent with the connection-specific field {n}"), show());
        }
        if n != "content-length" && named(lines).iter().any(|x| *x == n) {
            return viol(format!("a {what} was sent with the field {n} that Connection names"), show());
        }
    }
    let exp = expected(lines, request);
    let mut names: Vec<String> = exp.iter().map(|x| x.0.clone()).collect();
    names.extend(wire.iter().map(|x| lower(&x.0)).filter(|n| !n.starts_with(':') && n != "host"));
    names.sort();
    names.dedup();
    for n in names {
        let e: Vec<&Vec<u8>> = exp.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
        let w: Vec<&Vec<u8>> = wire.iter().filter(|x| lower(&x.0) == n).map(|x| &x.1).collect();
        if n == "te" {
            // with a forbidden line next to it the whole field may go, and an answer need not have any
            let mixed = !request || lines.iter().any(|l| l.0 == "te" && l.1 != b"trailers");
            if mixed && w.is_empty() {
                continue;
            }
        }
        if n == "content-length" && e.is_empty() {
            // added by hyper
            let w: Vec<String> = w.iter().map(|v| String::from_utf8_lossy(v).to_string()).collect();
            match len {
                Some(l) if w == [l.to_string()] => {}
                _ => return viol(format!("a {what} got a wrong content-length"), format!("{w:?} for {len:?}\n{}", show())),
            }
            continue;
        }
        if e != w {
            return viol(format!("a {what} field was changed: {n}"), format!("set {e:?}, sent {w:?}\n{}", show()));
        }
    }
    Ok(())
}
fn lines(ch: &Ch, max: usize, alpha: &[L]) -> Vec<L> {
    let mut v = vec![];
    let n = ch.free(max + 1, "lines");
    for _ in 0..n {
        v.push(alpha[ch.free(alpha.len(), "line")]);
    }
    v
}
fn bodies(trailers: Vec<(&'static str, &'static str)>) -> Vec<BodySpec> {
    let b = |steps, hint, eos| BodySpec { steps, hint, eos };
    let d = |s: &str| BStep::Data(s.as_bytes().to_vec());
    vec![
        BodySpec::empty(),
        BodySpec::full(b"hello"),
        b(vec![], Hint::Exact, false),
        b(vec![], Hint::Unknown, false),
        b(vec![d("ab"), d("c")], Hint::Unknown, false),
        b(vec![d("ab"), d("c")], Hint::Exact, false),
        b(vec![d("ab"), d("c")], Hint::Range, true),
        b(vec![d("ab"), BStep::Trailers(trailers.clone())], Hint::Unknown, false),
        b(vec![d("ab"), BStep::Trailers(trailers)], Hint::Exact, false),
    ]
}
/// One request of the client, read by a raw server.
fn request(ch: &Ch, method: &'static str, ls: &[L], body: BodySpec) -> ExecResult {
    let mut h = H2::new(ch, IO_PLAIN);
    h.client(ct(|_, _| {}));
    let p = h.raw_server();
    h.auto(&p, 99);
    p.send(&r2::settings(&[]));
    let mut c = call(method, "http://h/p").body(body.clone());
    c.headers = ls.to_vec();
    h.caller(c);
    let p2 = p.clone();
    h.w.add("peer", async move {
        p2.until(|r| r.get(1).end || r.get(1).rst.is_some()).await;
        p2.send(&r2::ok(1, &[], true));
    });
    h.w.run();
    h.sync_client();
    h.contract()?;
    let r = h.cw.borrow();
    let s = r.get(1);
    let show = || format!("{method} lines {:?} body {body:?}\n{}", ls.iter().map(|l| format!("{}: {}", l.0, esc(l.1))).collect::<Vec<_>>(), h.summary());
    if s.heads.is_empty() {
        return viol("the request was not sent", show());
    }
    let len = body.data().len() as u64;
    // a request without a body needs no length; one that is declared to be empty may have it
    compare(ls, true, &s.heads[0].0, Some(len), &show)?;
    finish(&body, &s, true, &show)?;
    Ok(h.fp())
}
fn finish(body: &BodySpec, s: &r2::Str, has_body: bool, show: &dyn Fn() -> String) -> Result<(), Viol> {
    let want = if has_body { body.data() } else { vec![] };
    // a message whose trailers are not allowed may be given up
    let refused = body.trailers().map_or(false, |t| t.iter().any(|(n, _)| !n.starts_with("x-")));
    if refused && s.heads.len() < 2 && want.starts_with(&s.data) && has_body {
        return if s.end { viol("trailers were lost in a message that ended cleanly", show()) } else { Ok(()) };
    }
    if s.data != want || !s.end || s.rst.is_some() {
        return viol("the message was not sent whole", format!("{} of {} bytes\n{}", s.data.len(), want.len(), show()));
    }
    if let Some(t) = body.trailers().filter(|_| has_body) {
        let t: Vec<L> = t.iter().map(|(n, v)| (*n, v.as_bytes())).collect();
        let none = vec![];
        let sent = s.heads.get(1).map(|x| &x.0).unwrap_or(&none);
        compare(&t, false, sent, None, show)?;
    }
    Ok(())
}
/// One response of the server, read by a raw client.
fn response(ch: &Ch, method: &'static str, status: u16, ls: &[L], body: BodySpec, consume: Consume) -> ExecResult {
    let mut h = H2::new(ch, IO_PLAIN);
    let mut r = RespSpec::ok("");
    r.status = status;
    r.headers = ls.to_vec();
    r.body = body.clone();
    h.server(st(|_, _| {}), SrvCfg::new(vec![Beh::simple("").resp(r).consume(consume)]));
    let p = h.raw_client();
    h.auto(&p, 99);
    let mut b = r2::PREFACE.to_vec();
    b.extend(r2::settings(&[]));
    b.extend(r2::headers(1, &[(":method", method), (":scheme", "http"), (":authority", "h"), (":path", "/")], true));
    p.send(&b);
    h.w.run();
    h.sync_server();
    h.contract()?;
    let r = h.sw.borrow();
    let s = r.get(1);
    let show = || format!("{method} -> {status} lines {:?} body {body:?}\n{}", ls.iter().map(|l| format!("{}: {}", l.0, esc(l.1))).collect::<Vec<_>>(), h.summary());
    if s.heads.is_empty() {
        return viol("the response was not sent", show());
    }
    let len = body.data().len() as u64;
    let has_body = method != "HEAD" && !matches!(status, 204 | 304);
    compare(ls, false, &s.heads[0].0, if status == 204 { None } else { Some(len) }, &show)?;
    finish(&body, &s, has_body, &show)?;
    Ok(h.fp())
}
const TRL: &[(&str, &str)] = &[("x-t", "1"), ("x-t", "2"), ("connection", "x-t"), ("te", "gzip"), ("keep-alive", "5"), ("upgrade", "h2c"), ("transfer-encoding", "gzip"), ("proxy-connection", "x-u"), ("x-u", "3"), ("connection", "close, x-u")];
fn trl(ch: &Ch, max: usize) -> Vec<(&'static str, &'static str)> {
    // never empty: trailers without any field are no business of this property
    let n = 1 + ch.free(max, "lines");
    (0..n).map(|_| TRL[ch.free(TRL.len(), "line")]).collect()
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let max = t.pick(4, 5);
    // header lines: every sequence
    for (k, first) in ALPHA.iter().enumerate() {
        // one scenario per first line, so that they spread over the workers
        for (n, body) in [("empty", BodySpec::empty()), ("full", BodySpec::full(b"hello"))] {
            let b2 = body.clone();
            sc.push(scenario(format!("request/{k}/{n}"), 0, move |ch| {
                let mut ls = vec![*first];
                ls.extend(lines(ch, max - 1, ALPHA));
                request(ch, "POST", &ls, body.clone())
            }));
            sc.push(scenario(format!("response/{k}/{n}"), 0, move |ch| {
                let mut ls = vec![*first];
                ls.extend(lines(ch, max - 1, ALPHA));
                response(ch, "GET", 200, &ls, b2.clone(), Consume::Full)
            }));
        }
    }
    // lengths: every method or status and body shape, with and without a length of the user's own
    let nb = bodies(vec![]).len();
    let own = |ch: &Ch, len: usize| -> Vec<L> {
        let v: &'static [u8] = match len {
            0 => b"0",
            2 => b"2",
            3 => b"3",
            5 => b"5",
            _ => unreachable!(),
        };
        match ch.free(3, "own length") {
            0 => vec![],
            1 => vec![("content-length", v)],
            _ => vec![("x-a", b"1"), ("content-length", v), ("connection", b"x-a")],
        }
    };
    for m in ["GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "X-OWN"] {
        sc.push(scenario(format!("length/request/{m}"), 0, move |ch| {
            let body = bodies(vec![("x-t", "1")])[ch.free(nb, "body")].clone();
            let ls = own(ch, body.data().len());
            request(ch, m, &ls, body)
        }));
    }
    for status in [200u16, 201, 202, 204, 206, 301, 304, 400, 404, 500, 503, 599, 999] {
        sc.push(scenario(format!("length/response/{status}"), 0, move |ch| {
            let m = ["GET", "HEAD", "POST", "OPTIONS"][ch.free(4, "method")];
            let body = bodies(vec![("x-t", "1")])[ch.free(nb, "body")].clone();
            let ls = if status == 204 { vec![] } else { own(ch, body.data().len()) };
            let c = [Consume::Full, Consume::Ignore, Consume::DropFirst][ch.free(3, "consume")].clone();
            response(ch, m, status, &ls, body, c)
        }));
    }
    // trailers
    let tmax = t.pick(4, 5);
    for hint in [Hint::Unknown, Hint::Exact] {
        sc.push(scenario(format!("trailers/request/{hint:?}"), 0, move |ch| {
            let tr = trl(ch, tmax);
            request(ch, "POST", &[], BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Trailers(tr)], hint, eos: false })
        }));
        sc.push(scenario(format!("trailers/response/{hint:?}"), 0, move |ch| {
            let tr = trl(ch, tmax);
            response(ch, "GET", 200, &[], BodySpec { steps: vec![BStep::Data(b"ab".to_vec()), BStep::Trailers(tr)], hint, eos: false }, Consume::Full)
        }));
    }
    Check {
        id: "C22",
        scenarios: sc,
        rule: "every sequence of up to four (thorough: five) header lines from an alphabet of connection-specific fields, multiple and multi-token Connection lines, TE values and ordinary fields, as a request and as a response; every method or status x body shape x own content-length; every sequence of trailer lines; read back by an independent HTTP/2 reader".into(),
        assumptions: vec!["h2 0.4 as vendored".into()],
    }
}
