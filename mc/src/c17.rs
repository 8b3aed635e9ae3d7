//! C17: header fields cross hyper unchanged.
//!
//! Every sequence of header lines of an alphabet (repeated names in different spellings, empty, padded and binary values)
//! goes through the real connections: from the peer to the user, from the user to the wire, and through a proxy.

use crate::core::*;
use crate::h1cli::{self, call, Act, CliCfg, Do, Trig};
use crate::h1ref as r1;
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

type L = (&'static str, &'static [u8]);
static LONG: [u8; 300] = [b'l'; 300];
/// Names the user may set and the peer may send, none of which hyper manages.
const PLAIN: &[L] = &[
    ("X-Aa", b"1"),
    ("x-aA", b"2"),
    ("X-AA", b""),
    ("x-aa", b" \t pad\tded \t"),
    ("Set-Cookie", b"a=b; c"),
    ("set-COOKIE", b"d, \"e\" f"),
    ("X_b--C-", b"\xff\x80:"),
    ("accept", b"*/*"),
    ("Accept", b",,"),
    ("x", b"v"),
    ("X-Long", &LONG),
    ("3d-9", b"=:="),
];
/// Fields hyper itself looks at; they are delivered like any other.
const READ_REQ: &[L] = &[("Connection", b"keep-alive, x"), ("connection", b""), ("TE", b"trailers"), ("Host", b"h"), ("Expect", b"nothing"), ("Upgrade", b"proto"), ("Date", b"today"), ("Keep-Alive", b"1"), ("Trailer", b"x-t")];
const READ_RES: &[L] = &[("Connection", b"keep-alive, x"), ("connection", b""), ("Date", b"today"), ("Trailer", b"x-t"), ("Keep-Alive", b"1"), ("Server", b"s"), ("Upgrade", b"h2c"), ("Via", b"1.1 x")];
/// Fields hyper would set, or looks at, when the user does not: the user's stay.
const OWN_REQ: &[L] = &[("Host", b"other"), ("User-Agent", b"u/1"), ("Date", b"today"), ("Via", b"1.1 x"), ("Cookie", b"a=b"), ("cookie", b"c=d; e"), ("TE", b"trailers"), ("Expect", b"nothing"), ("Range", b"bytes=0-")];
const OWN_RES: &[L] = &[("Date", b"today"), ("date", b"later"), ("Server", b"s"), ("Via", b"1.1 x"), ("Age", b"0"), ("Allow", b""), ("Vary", b"*"), ("Content-Type", b"a/b")];

fn trim(v: &[u8]) -> &[u8] {
    let mut v = v;
    while let [b' ' | b'\t', r @ ..] = v {
        v = r
    }
    while let [r @ .., b' ' | b'\t'] = v {
        v = r
    }
    v
}
fn seq(ch: &Ch, first: L, max: usize, alpha: &[L]) -> Vec<L> {
    let mut v = vec![first];
    let n = ch.free(max, "more lines");
    for _ in 0..n {
        v.push(alpha[ch.free(alpha.len(), "line")]);
    }
    v
}
fn show_lines(ls: &[L]) -> String {
    ls.iter().map(|(n, v)| format!("{n}: {}", esc(v))).collect::<Vec<_>>().join(" | ")
}
/// Per name (case-insensitively) the same values in the same order; names hyper adds may be excused.
fn same(want: &[L], got: &[(String, Vec<u8>)], excuse: &[&str], what: &str, show: &dyn Fn() -> String) -> Result<(), Viol> {
    let mut names: Vec<String> = want.iter().map(|l| l.0.to_ascii_lowercase()).collect();
    names.extend(got.iter().map(|l| l.0.to_ascii_lowercase()));
    names.sort();
    names.dedup();
    for n in names {
        let w: Vec<&[u8]> = want.iter().filter(|l| l.0.eq_ignore_ascii_case(&n)).map(|l| trim(l.1)).collect();
        let g: Vec<&[u8]> = got.iter().filter(|l| l.0.eq_ignore_ascii_case(&n)).map(|l| trim(&l.1)).collect();
        if w.is_empty() && excuse.contains(&&n[..]) {
            continue;
        }
        if w != g {
            return viol(format!("{what}: a field was changed"), format!("{n}: {:?} became {:?}\n{}", w.iter().map(|v| esc(v)).collect::<Vec<_>>(), g.iter().map(|v| esc(v)).collect::<Vec<_>>(), show()));
        }
    }
    Ok(())
}
/// The same, and every line has its own spelling back.
fn spelled(want: &[L], got: &[(String, Vec<u8>)], what: &str, show: &dyn Fn() -> String) -> Result<(), Viol> {
    for (n, _) in want {
        let w: Vec<&str> = want.iter().filter(|l| l.0.eq_ignore_ascii_case(n)).map(|l| l.0).collect();
        let g: Vec<&str> = got.iter().filter(|l| l.0.eq_ignore_ascii_case(n)).map(|l| &l.0[..]).collect();
        if w != g {
            return viol(format!("{what}: the spelling of a name was lost"), format!("{w:?} became {g:?}\n{}", show()));
        }
    }
    Ok(())
}
fn title(n: &str) -> String {
    let mut up = true;
    n.chars()
        .map(|c| {
            let c = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            up = c == '-';
            c
        })
        .collect()
}
fn styled(got: &[(String, Vec<u8>)], tc: bool, what: &str, show: &dyn Fn() -> String) -> Result<(), Viol> {
    for (n, _) in got {
        let w = if tc { title(n) } else { n.to_ascii_lowercase() };
        if *n != w {
            return viol(format!("{what}: a name is not written in the configured style"), format!("{n} instead of {w}\n{}", show()));
        }
    }
    Ok(())
}
fn wire(ls: &[L]) -> Vec<u8> {
    let mut b = vec![];
    for (n, v) in ls {
        b.extend_from_slice(n.as_bytes());
        b.extend_from_slice(b":");
        // any amount of white space may follow
        b.extend_from_slice([&b" "[..], b"", b" \t "][v.len() % 3]);
        b.extend_from_slice(v);
        b.extend_from_slice(b"\r\n");
    }
    b
}

// ---------------------------------------------------------------- HTTP/1: from the peer

fn h1_in_srv(ch: &Ch, ls: &[L], preserve: bool) -> ExecResult {
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("ok").consume(Consume::DropFirst)]).pol(IO_PLAIN).tweak(move |b, _| {
        b.preserve_header_case(preserve);
    }));
    let mut b = b"GET / HTTP/1.1\r\n".to_vec();
    b.extend(wire(ls));
    b.extend_from_slice(b"\r\n");
    s.io.push(&b);
    s.w.run();
    let r = s.recs.borrow();
    let show = || format!("{}\n{}", show_lines(ls), s.seen());
    if r.len() != 1 {
        return viol("the request was not delivered", show());
    }
    same(ls, &r[0].headers, &[], "received request", &show)?;
    Ok(r[0].headers.len() as u64)
}
fn h1_in_cli(ch: &Ch, ls: &[L], preserve: bool, status: &'static str, fold: bool) -> ExecResult {
    let mut c = h1cli::start(
        ch,
        CliCfg::new(IO_PLAIN).tweak(move |b| {
            b.preserve_header_case(preserve);
            if fold {
                b.allow_obsolete_multiline_headers_in_responses(true);
            }
        }),
    );
    c.caller(call("GET", "/"));
    let mut b = format!("HTTP/1.1 {status}\r\n").into_bytes();
    b.extend(wire(ls));
    b.extend_from_slice(b"Content-Length: 0\r\n\r\n");
    c.peer(vec![Act(Trig::Reqs(1), Do::Send(b))]);
    c.w.run();
    let r = c.recs.borrow();
    let show = || format!("{}\n{}", show_lines(ls), c.summary());
    if r[0].outcome != h1cli::Outcome::Resp {
        return viol("the response was not delivered", show());
    }
    let folded: Vec<(String, Vec<u8>)> = ls
        .iter()
        .map(|(n, v)| {
            // every fold becomes white space: compare word by word
            let w: Vec<&[u8]> = v.split(|c| b" \t\r\n".contains(c)).filter(|w| !w.is_empty()).collect();
            (n.to_string(), w.join(&b' '))
        })
        .collect();
    let got: Vec<(String, Vec<u8>)> = if fold {
        r[0].headers
            .iter()
            .map(|(n, v)| {
                let w: Vec<&[u8]> = v.split(|c| b" \t".contains(c)).filter(|w| !w.is_empty()).collect();
                (n.clone(), w.join(&b' '))
            })
            .collect()
    } else {
        r[0].headers.clone()
    };
    let want: Vec<L> = if fold { folded.iter().map(|(n, v)| (&*Box::leak(n.clone().into_boxed_str()), &*Box::leak(v.clone().into_boxed_slice()))).collect() } else { ls.to_vec() };
    same(&want, &got, &["content-length"], "received response", &show)?;
    // a reason phrase other than the usual one is kept byte by byte
    let (code, reason) = status.split_once(' ').unwrap_or((status, ""));
    if r[0].status.to_string() != code {
        return viol("status changed", show());
    }
    let usual = http::StatusCode::from_u16(r[0].status).ok().and_then(|s| s.canonical_reason()).unwrap_or("");
    if reason != usual && r[0].reason.as_deref() != Some(reason.as_bytes()) && !(reason.is_empty() && r[0].reason.is_none()) {
        return viol("the reason phrase was not kept", format!("{reason:?} became {:?}", r[0].reason));
    }
    Ok(r[0].headers.len() as u64)
}

// ---------------------------------------------------------------- HTTP/1: to the wire

fn h1_out_srv(ch: &Ch, ls: &[L], tc: bool, reason: Option<&'static [u8]>, status: u16) -> ExecResult {
    let mut r = RespSpec::ok("hello");
    r.headers = ls.to_vec();
    r.reason = reason;
    r.status = status;
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("").resp(r)]).pol(IO_PLAIN).tweak(move |b, _| {
        b.title_case_headers(tc);
    }));
    s.io.push(b"GET / HTTP/1.1\r\n\r\n");
    s.w.run();
    let out = s.io.out();
    let show = || format!("{}\n{}", show_lines(ls), esc(&out));
    let m = match r1::response(&out, 0, "GET", false, &mut None) {
        Ok(m) => m,
        Err(e) => return viol("the response is unreadable", format!("{e:?}\n{}", show())),
    };
    same(ls, &m.headers, &["content-length", "date"], "written response", &show)?;
    styled(&m.headers, tc, "written response", &show)?;
    if m.status() != status {
        return viol("status changed", show());
    }
    if let Some(x) = reason {
        let l = format!("HTTP/1.1 {status} ").into_bytes();
        let mut l = l;
        l.extend_from_slice(x);
        l.extend_from_slice(b"\r\n");
        if !out.starts_with(&l) {
            return viol("the reason phrase was not written", show());
        }
    }
    Ok(m.headers.len() as u64)
}
fn h1_out_cli(ch: &Ch, ls: &[L], tc: bool, body: bool) -> ExecResult {
    let mut c = h1cli::start(
        ch,
        CliCfg::new(IO_PLAIN).tweak(move |b| {
            b.title_case_headers(tc);
        }),
    );
    let mut q = call(if body { "POST" } else { "GET" }, "/p?q");
    q.headers = ls.to_vec();
    if body {
        q = q.body(BodySpec::full(b"hello"));
    }
    c.caller(q);
    c.w.run();
    let out = c.io.out();
    let show = || format!("{}\n{}", show_lines(ls), esc(&out));
    let m = match r1::request(&out, 0, &mut None) {
        Ok(m) => m,
        Err(e) => return viol("the request is unreadable", format!("{e:?}\n{}", show())),
    };
    same(ls, &m.headers, if body { &["content-length"] } else { &[] }, "written request", &show)?;
    styled(&m.headers, tc, "written request", &show)?;
    Ok(m.headers.len() as u64)
}

// ---------------------------------------------------------------- HTTP/1: through a proxy that preserves case

fn h1_proxy(ch: &Ch, req: &[L], res: &[L], tc: bool, reason: &'static str) -> ExecResult {
    let px: Rc<RefCell<Option<h1cli::Tx>>> = Default::default();
    let mut cfg = SrvCfg::new(vec![Beh::simple("").consume(Consume::Proxy)]).pol(IO_PLAIN).tweak(move |b, _| {
        b.preserve_header_case(true).title_case_headers(tc);
    });
    cfg.proxy = Some(px.clone());
    let mut s = h1srv::start(ch, cfg);
    let up = Io::new(&s.env, IO_PLAIN);
    let (tx, conn) = h1cli::connect(
        &CliCfg::new(IO_PLAIN).tweak(move |b| {
            b.preserve_header_case(true).title_case_headers(tc);
        }),
        &up,
    );
    *px.borrow_mut() = Some(tx);
    s.w.add("upstream", async move {
        let _ = conn.await;
    });
    let mut b = b"GET /x HTTP/1.1\r\n".to_vec();
    b.extend(wire(req));
    b.extend_from_slice(b"\r\n");
    let mut a = format!("HTTP/1.1 200 {reason}\r\n").into_bytes();
    a.extend(wire(res));
    a.extend_from_slice(b"Content-Length: 0\r\n\r\n");
    h1cli::peer(&s.env, &up, vec![Act(Trig::Reqs(1), Do::Send(a))]);
    s.io.push(&b);
    s.w.run();
    let (front, back) = (s.io.out(), up.out());
    let show = || format!("request {}\nresponse {}\nto the origin {}\nto the peer {}", show_lines(req), show_lines(res), esc(&back), esc(&front));
    let (q, r) = match (r1::request(&back, 0, &mut None), r1::response(&front, 0, "GET", false, &mut None)) {
        (Ok(q), Ok(r)) => (q, r),
        e => return viol("a proxied message is unreadable", format!("{e:?}\n{}", show())),
    };
    same(req, &q.headers, &[], "proxied request", &show)?;
    spelled(req, &q.headers, "proxied request", &show)?;
    same(res, &r.headers, &["content-length", "date"], "proxied response", &show)?;
    spelled(res, &r.headers, "proxied response", &show)?;
    if r.b != reason {
        return viol("proxied response: the reason phrase changed", show());
    }
    Ok((q.headers.len() * 100 + r.headers.len()) as u64)
}

// ---------------------------------------------------------------- HTTP/2

fn h2_fields(pseudo: &[(&str, &str)], ls: &[L]) -> r2::Fields {
    let mut f: r2::Fields = pseudo.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect();
    f.extend(ls.iter().map(|(n, v)| (n.to_ascii_lowercase().into_bytes(), trim(v).to_vec())));
    f
}
fn h2_in_srv(ch: &Ch, ls: &[L], tr: &[L]) -> ExecResult {
    let mut h = H2::new(ch, IO_PLAIN);
    h.server(st(|_, _| {}), SrvCfg::new(vec![Beh::simple("ok")]));
    let p = h.raw_client();
    h.auto(&p, 9);
    let mut b = r2::PREFACE.to_vec();
    b.extend(r2::settings(&[]));
    b.extend(r2::frame(1, 4, 1, &r2::block_raw(&h2_fields(&[(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", "/")], ls))));
    b.extend(r2::data(1, b"x", tr.is_empty()));
    if !tr.is_empty() {
        b.extend(r2::frame(1, 5, 1, &r2::block_raw(&h2_fields(&[], tr))));
    }
    p.send(&b);
    h.w.run();
    h.sync_server();
    h.contract()?;
    let r = h.reqs.borrow();
    let show = || format!("{}\n{}", show_lines(ls), h.summary());
    if r.len() != 1 {
        return viol("the request was not delivered", show());
    }
    same(ls, &r[0].headers, &[], "received HTTP/2 request", &show)?;
    same(tr, r[0].got.borrow().trailers.as_deref().unwrap_or(&[]), &[], "received HTTP/2 request trailers", &show)?;
    Ok(r[0].headers.len() as u64)
}
fn h2_in_cli(ch: &Ch, ls: &[L], tr: &[L]) -> ExecResult {
    let mut h = H2::new(ch, IO_PLAIN);
    h.client(ct(|_, _| {}));
    let p = h.raw_server();
    h.auto(&p, 9);
    let mut c = call("GET", "http://h/");
    c.headers.clear();
    h.caller(c);
    p.send(&r2::settings(&[]));
    let mut b = r2::frame(1, 4, 1, &r2::block_raw(&h2_fields(&[(":status", "200")], ls)));
    b.extend(r2::data(1, b"x", tr.is_empty()));
    if !tr.is_empty() {
        b.extend(r2::frame(1, 5, 1, &r2::block_raw(&h2_fields(&[], tr))));
    }
    let p2 = p.clone();
    h.w.add("peer", async move {
        p2.until(|r| r.get(1).end).await;
        p2.send(&b);
    });
    h.w.run();
    h.sync_client();
    h.contract()?;
    let r = h.calls.borrow();
    let show = || format!("{}\n{}", show_lines(ls), h.summary());
    if r[0].outcome != h1cli::Outcome::Resp {
        return viol("the response was not delivered", show());
    }
    same(ls, &r[0].headers, &[], "received HTTP/2 response", &show)?;
    same(tr, r[0].got.borrow().trailers.as_deref().unwrap_or(&[]), &[], "received HTTP/2 response trailers", &show)?;
    Ok(r[0].headers.len() as u64)
}
/// Both ends are hyper: what one user sets the other one gets.
fn h2_pair(ch: &Ch, ls: &[L], rs: &[L]) -> ExecResult {
    let mut r = RespSpec::ok("");
    r.headers = rs.to_vec();
    let mut h = H2::pair(ch, IO_PLAIN, ct(|_, _| {}), st(|b, _| {
        b.auto_date_header(true);
    }), vec![Beh::simple("").resp(r)]);
    let mut c = call("GET", "http://h/0");
    c.headers = ls.to_vec();
    h.caller(c);
    h.w.run();
    h.sync();
    h.contract()?;
    let show = || format!("{}\n{}", show_lines(ls), h.summary());
    let (q, a) = (h.reqs.borrow(), h.calls.borrow());
    if q.len() != 1 || a[0].outcome != h1cli::Outcome::Resp {
        return viol("the exchange failed", show());
    }
    same(ls, &q[0].headers, &[], "HTTP/2 request", &show)?;
    same(rs, &a[0].headers, &["content-length", "date"], "HTTP/2 response", &show)?;
    Ok(1)
}

const FOLDS: &[L] = &[("X-A", b"one\r\n two"), ("x-a", b"a\r\n\t b\r\n  c"), ("X-B", b"\r\n v"), ("X-B", b"plain"), ("X-C", b"e \r\n \r\n f"), ("X-D", b"")];
const REASONS: &[&str] = &["200 OK", "200 Fine", "200 ", "200 with\ttab and  spaces", "404 Not Found", "404 nope", "299 Own", "599 ", "500 internal server error"];
const OWN_REASONS: &[Option<&'static [u8]>] = &[None, Some(b"OK"), Some(b"Fine"), Some(b""), Some(b"a\tb  c"), Some(b"\xff\x80")];

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let max = t.pick(5, 6);
    let small = t.pick(4, 5);
    let both = |a: &[L], b: &[L]| -> Vec<L> { a.iter().chain(b).copied().collect() };
    for onoff in [false, true] {
        for (k, first) in both(PLAIN, READ_REQ).into_iter().enumerate() {
            let al = both(PLAIN, READ_REQ);
            sc.push(scenario(format!("h1/in/server/preserve-{onoff}/{k}"), 0, move |ch| h1_in_srv(ch, &seq(ch, first, small, &al), onoff)));
        }
        for (k, first) in both(PLAIN, READ_RES).into_iter().enumerate() {
            let al = both(PLAIN, READ_RES);
            sc.push(scenario(format!("h1/in/client/preserve-{onoff}/{k}"), 0, move |ch| h1_in_cli(ch, &seq(ch, first, small, &al), onoff, "200 OK", false)));
        }
        for (k, first) in PLAIN.iter().copied().enumerate() {
            sc.push(scenario(format!("h1/out/server/title-{onoff}/{k}"), 0, move |ch| h1_out_srv(ch, &seq(ch, first, max, PLAIN), onoff, None, 200)));
            sc.push(scenario(format!("h1/out/client/title-{onoff}/{k}"), 0, move |ch| {
                let body = ch.free(2, "body") == 1;
                h1_out_cli(ch, &seq(ch, first, max, PLAIN), onoff, body)
            }));
            sc.push(scenario(format!("h1/proxy/title-{onoff}/{k}"), 0, move |ch| {
                let ls = seq(ch, first, max, PLAIN);
                // the other message gets the same lines the other way round
                let mut rs = ls.clone();
                rs.reverse();
                let reason = ["OK", "Fine"][ch.free(2, "reason")];
                h1_proxy(ch, &ls, &rs, onoff, reason)
            }));
        }
        sc.push(scenario(format!("h1/out/reason/title-{onoff}"), 0, move |ch| {
            let r = OWN_REASONS[ch.free(OWN_REASONS.len(), "reason")];
            let s = [200u16, 201, 404, 599][ch.free(4, "status")];
            let n = ch.free(3, "lines");
            h1_out_srv(ch, &PLAIN[..n], onoff, r, s)
        }));
    }
    sc.push(scenario("h1/in/reason", 0, move |ch| {
        let s = REASONS[ch.free(REASONS.len(), "status line")];
        let n = ch.free(3, "lines");
        h1_in_cli(ch, &PLAIN[..n], ch.free(2, "preserve") == 1, s, false)
    }));
    for (k, first) in FOLDS.iter().copied().enumerate() {
        sc.push(scenario(format!("h1/in/folded/{k}"), 0, move |ch| {
            let p = ch.free(2, "preserve") == 1;
            h1_in_cli(ch, &seq(ch, first, max, FOLDS), p, "200 OK", true)
        }));
    }
    for (k, first) in PLAIN.iter().copied().enumerate() {
        sc.push(scenario(format!("h2/in/server/{k}"), 0, move |ch| {
            let tr = [vec![], vec![PLAIN[0]], vec![PLAIN[1], PLAIN[3], PLAIN[0]]][ch.free(3, "trailers")].clone();
            h2_in_srv(ch, &seq(ch, first, small, PLAIN), &tr)
        }));
        sc.push(scenario(format!("h2/in/client/{k}"), 0, move |ch| {
            let tr = [vec![], vec![PLAIN[0]], vec![PLAIN[1], PLAIN[3], PLAIN[0]]][ch.free(3, "trailers")].clone();
            h2_in_cli(ch, &seq(ch, first, small, PLAIN), &tr)
        }));
        sc.push(scenario(format!("h2/pair/{k}"), 0, move |ch| {
            let ls = seq(ch, first, small, PLAIN);
            h2_pair(ch, &ls, &ls)
        }));
    }
    for (k, first) in OWN_RES.iter().copied().enumerate() {
        for onoff in [false, true] {
            sc.push(scenario(format!("h1/own/server/title-{onoff}/{k}"), 0, move |ch| h1_out_srv(ch, &seq(ch, first, small, OWN_RES), onoff, None, [200, 404][ch.free(2, "status")])));
        }
        sc.push(scenario(format!("h2/own/server/{k}"), 0, move |ch| h2_pair(ch, &[], &seq(ch, first, small, OWN_RES))));
    }
    for (k, first) in OWN_REQ.iter().copied().enumerate() {
        for onoff in [false, true] {
            sc.push(scenario(format!("h1/own/client/title-{onoff}/{k}"), 0, move |ch| h1_out_cli(ch, &seq(ch, first, small, OWN_REQ), onoff, ch.free(2, "body") == 1)));
        }
        sc.push(scenario(format!("h2/own/client/{k}"), 0, move |ch| h2_pair(ch, &seq(ch, first, small, OWN_REQ), &[])));
    }
    Check {
        id: "C17",
        scenarios: sc,
        rule: "every sequence of up to five (thorough: six) header lines from an alphabet of repeated names in different spellings and empty, padded, binary, long and punctuated values: received and sent in both roles over HTTP/1 with every header-case configuration, through a case-preserving HTTP/1 proxy both ways, folded lines, own reason phrases, and over HTTP/2 in both roles with trailers".into(),
        assumptions: vec!["httparse, http and h2 as vendored".into()],
    }
}
