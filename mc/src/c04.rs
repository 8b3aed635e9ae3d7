//! C04: the client decides the response body length by the RFC rules.

use crate::core::*;
use crate::h1cli::*;
use crate::h1ref::{is_tchar, Tail};
use crate::world::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Frm {
    NoBody,
    Tunnel,
    Len(u64),
    Chunked,
    Close,
}
#[derive(Clone, Debug)]
pub struct Acc {
    pub status: u16,
    pub minor: u8,
    pub frm: Frm,
    pub headers: Vec<(String, Vec<u8>)>,
    pub interim: bool,
    pub persist: bool,
    pub dup_cl: bool,
    pub vague: bool,
}
pub enum Head {
    Bad,
    Incomplete,
    /// (bytes, may be refused, meaning; None: must be refused)
    Done(usize, bool, Option<Acc>),
}
fn trim(v: &[u8]) -> &[u8] {
    let mut v = v;
    while let [b' ' | b'\t', r @ ..] = v {
        v = r
    }
    while let [r @ .., b' ' | b'\t'] = v {
        v = r
    }
    v
}
fn toks(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    v.iter().flat_map(|x| x.split(|c| *c == b',').map(|t| trim(t).to_ascii_lowercase()).collect::<Vec<_>>()).filter(|t| !t.is_empty()).collect()
}

pub fn meaning(method: &str, status: u16, minor: u8, fields: Vec<(String, Vec<u8>)>, mut may: bool) -> (bool, Option<Acc>) {
    let vals = |n: &str| -> Vec<Vec<u8>> { fields.iter().filter(|(a, _)| a == n).map(|(_, v)| v.clone()).collect() };
    let te = vals("transfer-encoding");
    let cl = vals("content-length");
    let conn = toks(&vals("connection"));
    let vague = conn.iter().any(|t| !t.iter().all(|c| is_tchar(*c)));
    let persist = if conn.iter().any(|t| t == b"close") {
        false
    } else {
        minor == 1 || conn.iter().any(|t| t == b"keep-alive")
    };
    let acc = |frm: Frm, interim: bool, persist: bool| Some(Acc { status, minor, frm, headers: fields.clone(), interim, persist, dup_cl: cl.len() > 1, vague });
    if status == 101 {
        return (may, acc(Frm::Tunnel, false, false));
    }
    if (100..200).contains(&status) {
        return (may, acc(Frm::NoBody, true, true));
    }
    if status == 204 || status == 304 || method == "HEAD" {
        return (may, acc(Frm::NoBody, false, persist));
    }
    if method == "CONNECT" && (200..300).contains(&status) {
        return (may, acc(Frm::Tunnel, false, false));
    }
    if !te.is_empty() {
        if minor == 0 {
            return (true, None);
        }
        let t = toks(&te);
        if !cl.is_empty() {
            may = true; // "ought to be handled as an error"
        }
        if t.len() != 1 {
            may = true;
        }
        if t.is_empty() {
            // only empty list elements: no coding at all; refuse or read to the end
            return (true, acc(Frm::Close, false, false));
        }
        return if t.last().map_or(false, |x| x == b"chunked") {
            (may, acc(Frm::Chunked, false, persist && cl.is_empty()))
        } else {
            (may, acc(Frm::Close, false, false))
        };
    }
    if !cl.is_empty() {
        let mut val: Option<u128> = None;
        let mut n = 0;
        for v in &cl {
            for t in v.split(|c| *c == b',') {
                let t = trim(t);
                if t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) {
                    return (true, None);
                }
                let mut x: u128 = 0;
                for c in t {
                    x = (x * 10 + (*c - b'0') as u128).min(1 << 100);
                }
                if val.map_or(false, |p| p != x) {
                    return (true, None);
                }
                val = Some(x);
                n += 1;
                may |= t.len() > 1 && t[0] == b'0';
            }
        }
        let x = val.unwrap();
        if x > u64::MAX as u128 {
            return (true, None);
        }
        may |= n > 1 || x > 1 << 62;
        return (may, acc(Frm::Len(x as u64), false, persist));
    }
    (may, acc(Frm::Close, false, false))
}

pub fn head(b: &[u8], method: &str) -> Head {
    let mut may = false;
    let mut i = 0;
    loop {
        if b[i..].starts_with(b"\r\n") {
            i += 2
        } else if b[i..].starts_with(b"\n") {
            i += 1
        } else {
            break;
        }
        may = true;
    }
    let line = |at: usize| -> Result<(&[u8], usize, bool), Head> {
        let mut j = at;
        while j < b.len() {
            if b[j] == b'\n' {
                return Ok((&b[at..j], j + 1, true));
            }
            if b[j] == b'\r' {
                if j + 1 == b.len() {
                    return Err(Head::Incomplete);
                }
                if b[j + 1] != b'\n' {
                    return Err(Head::Bad);
                }
                return Ok((&b[at..j], j + 2, false));
            }
            j += 1;
        }
        Err(Head::Incomplete)
    };
    let (l, mut at, bare) = match line(i) {
        Ok(x) => x,
        Err(h) => return h,
    };
    may |= bare;
    let mut bad = false;
    let (mut status, mut minor) = (0u16, 1);
    if l.len() >= 12 && l.starts_with(b"HTTP/1.") && l[7].is_ascii_digit() && l[8] == b' ' && l[9..12].iter().all(|c| c.is_ascii_digit()) {
        minor = l[7] - b'0';
        if minor > 1 {
            may = true;
            minor = 1;
        }
        status = std::str::from_utf8(&l[9..12]).unwrap().parse().unwrap();
        if status < 100 {
            bad = true
        }
        if status >= 600 {
            may = true
        }
        match l.get(12) {
            None => may = true,
            Some(b' ') => {
                for c in &l[13..] {
                    if (*c < 0x20 && *c != b'\t') || *c == 0x7f {
                        bad = true
                    }
                    may |= *c >= 0x80;
                }
            }
            _ => bad = true,
        }
    } else {
        bad = true
    }
    let mut fields: Vec<(String, Vec<u8>)> = vec![];
    loop {
        let (l, n, bare) = match line(at) {
            Ok(x) => x,
            Err(h) => return if bad { Head::Bad } else { h },
        };
        at = n;
        may |= bare;
        if l.is_empty() {
            break;
        }
        let c = match l.iter().position(|c| *c == b':') {
            Some(c) => c,
            None => {
                bad = true;
                continue;
            }
        };
        if c == 0 || !l[..c].iter().all(|x| is_tchar(*x)) {
            bad = true;
            continue;
        }
        let v = trim(&l[c + 1..]);
        if v.iter().any(|x| (*x < 0x20 && *x != b'\t') || *x == 0x7f) {
            bad = true;
            continue;
        }
        may |= v.iter().any(|x| *x >= 0x80);
        fields.push((String::from_utf8(l[..c].to_ascii_lowercase()).unwrap(), v.to_vec()));
    }
    if bad {
        return Head::Bad;
    }
    let (m, a) = meaning(method, status, minor, fields, may);
    Head::Done(at, m, a)
}
fn canon(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut g = h.to_vec();
    g.sort_by(|a, b| a.0.cmp(&b.0));
    g
}

/// One call; the peer sends `bytes` (cut at `cut`) once the request is out, then closes.
fn judge(ch: &Ch, method: &'static str, bytes: &[u8], cut: usize, pol: IoPolicy) -> ExecResult {
    let mut c = start(ch, CliCfg::new(pol));
    c.caller(call(method, if method == "CONNECT" { "h:1" } else { "/" }));
    c.w.run();
    if cut > 0 && cut < bytes.len() {
        c.io.push(&bytes[..cut]);
        c.w.run();
        c.io.push(&bytes[cut..]);
    } else {
        c.io.push(bytes);
    }
    c.w.run();
    c.io.push_eof();
    if c.w.run() == RunEnd::StepLimit {
        return viol("livelock", "step limit");
    }
    verdict(ch, &c, method, bytes)
}

fn verdict(ch: &Ch, c: &Cli, method: &str, bytes: &[u8]) -> ExecResult {
    let d = || format!("{method} answered by {:?}\n{}", esc(bytes), c.summary());
    if let Some(b) = c.contract_violation() {
        return viol("body contract", format!("{b}\n{}", d()));
    }
    let recs = c.recs.borrow();
    let r = &recs[0];
    let failed = matches!(r.outcome, Outcome::Failed(..));
    if r.outcomes != 1 {
        return viol("no outcome", d());
    }
    let mut at = 0;
    let mut interim = vec![];
    let (_may, a) = loop {
        if at >= bytes.len() {
            // only interim responses (or nothing) arrived
            if !failed {
                return viol("response out of nothing", d());
            }
            return Ok(1);
        }
        match head(&bytes[at..], method) {
            Head::Bad | Head::Incomplete => {
                if !failed {
                    return viol("broken head became a response", d());
                }
                return Ok(2);
            }
            Head::Done(n, may, acc) => {
                let a = match acc {
                    None => {
                        if !failed {
                            return viol("ambiguous response accepted", d());
                        }
                        return Ok(3);
                    }
                    Some(a) => a,
                };
                if failed {
                    if may {
                        return Ok(4);
                    }
                    if !a.interim {
                        return viol("valid response refused", d());
                    }
                }
                at += n;
                if a.interim {
                    interim.push(a.status);
                    continue;
                }
                break (may, a);
            }
        }
    };
    if r.outcome != Outcome::Resp {
        return viol("valid response refused", d());
    }
    if *r.info.borrow() != interim {
        return viol("interim responses misreported", format!("expected {interim:?}, callback saw {:?}\n{}", r.info.borrow(), d()));
    }
    if r.status != a.status || r.version != Some(if a.minor == 1 { http::Version::HTTP_11 } else { http::Version::HTTP_10 }) {
        return viol("status line misread", d());
    }
    let (want, have) = (canon(&a.headers), canon(&r.headers));
    if want != have && !a.dup_cl {
        return viol("header fields misread", format!("expected {want:?}\n{}", d()));
    }
    let rest = &bytes[at..];
    let g = r.got.borrow();
    let ok = |data: &[u8]| g.end == End::Clean && g.data == data;
    let good = match a.frm {
        Frm::NoBody | Frm::Tunnel => ok(b""),
        Frm::Close => ok(rest),
        Frm::Len(n) if n <= rest.len() as u64 => ok(&rest[..n as usize]),
        Frm::Len(_) => matches!(g.end, End::Error(_)) && g.data == rest,
        Frm::Chunked => {
            let x = crate::c03::Ref::read(rest);
            if x.done() {
                ok(&x.data) || (x.may_reject && matches!(g.end, End::Error(_)))
            } else {
                matches!(g.end, End::Error(_)) && x.data.starts_with(&g.data)
            }
        }
    };
    if !good {
        return viol("body misread", format!("framing {:?}\n{}", a.frm, d()));
    }
    ch.step(hash_bytes(&g.data));
    Ok(mix(hash_bytes(format!("{:?}", a.frm).as_bytes()), a.status as u64))
}

const LINES: &[&str] = &[
    "Content-Length: 5",
    "Transfer-Encoding: chunked",
    "Transfer-Encoding: gzip",
    "Content-Length: 4",
    "Content-Length: 0",
    "Content-Length: 40",
    "X: y",
    "Content-Length: +5",
    "Content-Length: 5, 5",
    "Content-Length: 5,4",
    "Content-Length: 5 5",
    "Content-Length: 0x5",
    "Content-Length:",
    "Content-Length: 18446744073709551615",
    "Content-Length: 18446744073709551616",
    "Content-Length: 18446744073709551621",
    "Content-Length: 50000000000000000000",
    "Content-Length: 4294967296",
    "Content-Length: 9223372032559808512",
    "Content-Length : 5",
    "Transfer-Encoding: Chunked",
    "Transfer-Encoding: gzip, chunked",
    "Transfer-Encoding: chunked, gzip",
    "Transfer-Encoding: chunkedx",
    "Transfer-Encoding: identity",
    "Transfer-Encoding:",
    "Transfer-Encoding: ,chunked",
    "Transfer-Encoding : chunked",
    "Connection: close",
    "Connection: keep-alive",
    "Upgrade: x",
];
const INTERIM: &[&str] = &[
    "",
    "HTTP/1.1 100 Continue\r\n\r\n",
    "HTTP/1.1 103 Early Hints\r\nLink: x\r\nContent-Length: 9\r\n\r\n",
    "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 102 P\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\nHTTP/1.0 199 x\r\n\r\n",
];
const METHODS: &[&str] = &["GET", "HEAD", "CONNECT", "POST"];
const STATUS: &[&str] = &["200 OK", "204 No Content", "304 Not Modified", "404 Nope", "101 Switching Protocols", "299 x", "205 Reset Content", "999 what"];
const TAILS: &[&[u8]] = &[b"0\r\n\r\n", b"0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", b"3\r\nabc\r\n0\r\nT: 1\r\n\r\n", b""];

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    for ver in ["1.1", "1.0"] {
        for len in 0..=tier.pick(2, 3) {
            sc.push(scenario(format!("framing/{ver}/{len}"), 0, move |ch| {
                let method = METHODS[ch.free(METHODS.len(), "method")];
                let (ns, ni, nt) = if len == 3 { (4, 1, 2) } else { (STATUS.len(), INTERIM.len(), TAILS.len()) };
                let st = STATUS[ch.free(ns, "status")];
                let mut b = INTERIM[ch.free(ni, "interim")].as_bytes().to_vec();
                b.extend(format!("HTTP/{ver} {st}\r\n").bytes());
                for _ in 0..len {
                    b.extend(LINES[ch.free(LINES.len(), "line")].bytes());
                    b.extend(b"\r\n");
                }
                b.extend(b"\r\n");
                b.extend(TAILS[ch.free(nt, "payload")]);
                judge(ch, method, &b, 0, IO_PLAIN)
            }));
        }
        // every split of short responses
        sc.push(scenario(format!("framing-cut/{ver}"), 0, move |ch| {
            let method = METHODS[ch.free(3, "method")];
            let st = STATUS[ch.free(3, "status")];
            let mut b = INTERIM[ch.free(3, "interim")].as_bytes().to_vec();
            b.extend(format!("HTTP/{ver} {st}\r\n").bytes());
            for _ in 0..1 {
                b.extend(LINES[ch.free(LINES.len(), "line")].bytes());
                b.extend(b"\r\n");
            }
            b.extend(b"\r\n");
            b.extend(TAILS[ch.free(2, "payload")]);
            let cut = 1 + ch.free(b.len() - 1, "cut");
            judge(ch, method, &b, cut, IO_PLAIN)
        }));
    }
    // interim responses and a short answer in any three pieces
    for (k, inter) in ["HTTP/1.1 103 Early Hints\r\nLink: some-style-sheet.css\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 102 Processing\r\nX: 1\r\n\r\n"].into_iter().enumerate() {
        for (j, last) in ["HTTP/1.1 204 N\r\n\r\n", "HTTP/1.0 200 OK\r\nA: b\r\n\r\nxyz"].into_iter().enumerate() {
            sc.push(scenario(format!("interim-pieces/{k}-{j}"), 0, move |ch| {
                let b = [inter.as_bytes(), last.as_bytes()].concat();
                let i = 1 + ch.free(b.len() - 1, "first cut");
                let j = i + ch.free(b.len() - i, "second cut");
                let mut c = start(ch, CliCfg::new(IO_PLAIN));
                c.caller(call("GET", "/"));
                c.w.run();
                for p in [&b[..i], &b[i..j], &b[j..]] {
                    if !p.is_empty() {
                        c.io.push(p);
                        c.w.run();
                    }
                }
                if c.recs.borrow()[0].outcome != Outcome::Resp {
                    return viol("a complete answer is not delivered", format!("cuts {i} {j}\n{}", c.summary()));
                }
                c.io.push_eof();
                c.w.run();
                verdict(ch, &c, "GET", &b)
            }));
        }
    }
    let bases: Vec<(&'static str, &'static str, &'static [u8])> = vec![
        ("len", "GET", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nA: b\r\n\r\n0\r\n\r\n"),
        ("chunked", "GET", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"),
        ("interim", "POST", b"HTTP/1.1 100 Continue\r\nB: c\r\n\r\nHTTP/1.1 201 Cre ated\r\nContent-Length: 2\r\n\r\nab"),
        ("close", "GET", b"HTTP/1.0 200 OK\r\nA:\r\n\r\nabc"),
        ("head", "HEAD", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n"),
    ];
    const CHARS: &[u8] = b"\x00\x01\t\n\x0b\r !\"(),/:;=@A\\chz{}0159\x7f\x80\xe9\xff";
    for (name, method, base) in bases {
        for op in ["replace", "insert", "delete", "truncate"] {
            sc.push(scenario(format!("mutate/{name}/{op}"), 0, move |ch| {
                let mut b = base.to_vec();
                let i = ch.free(b.len(), "position");
                match op {
                    "replace" => b[i] = CHARS[ch.free(CHARS.len(), "byte")],
                    "insert" => b.insert(i, CHARS[ch.free(CHARS.len(), "byte")]),
                    "delete" => {
                        b.remove(i);
                    }
                    _ => b.truncate(i),
                }
                let k = ch.free(tier.pick(3, 9), "cut");
                let cut = if k == 0 { 0 } else { (i + k).saturating_sub(1).max(1) };
                judge(ch, method, &b, cut, IO_PLAIN)
            }));
        }
        // delivery schedules: all reads, pending, request body and response interleaved
        sc.push(scenario(format!("schedules/{name}"), tier.pick(2, 3), move |ch| {
            let mut c = start(ch, CliCfg::new(IO_ALL));
            c.caller(call(method, "/"));
            c.peer(vec![Act(Trig::Reqs(1), Do::Send(base.to_vec())), Act(Trig::Now, Do::Eof)]);
            if c.w.run() == RunEnd::StepLimit {
                return viol("livelock", "step limit");
            }
            verdict(ch, &c, method, base)
        }));
    }
    // parser options
    sc.push(scenario("options/obs-fold", 0, |ch| {
        let lines = ["A: b\r\n c", "A:\r\n b", "Content-Length:\r\n 5", "Content-Length: 5\r\n  \t", "Transfer-Encoding:\r\n\tchunked", "A: b \r\n  c\r\n\td"];
        let mut b = b"HTTP/1.1 200 OK\r\n".to_vec();
        let n = ch.free(3, "lines");
        let mut fields = vec![];
        for _ in 0..n {
            let l = lines[ch.free(lines.len(), "line")];
            b.extend(l.bytes());
            b.extend(b"\r\n");
            let (n, v) = l.split_once(':').unwrap();
            fields.push((n.to_ascii_lowercase(), v.split_whitespace().collect::<Vec<_>>().join(" ").into_bytes()));
        }
        b.extend(b"\r\n0\r\n\r\n");
        let cut = ch.free(b.len(), "cut");
        let mut c = start(ch, CliCfg::new(IO_PLAIN).tweak(|b| {
            b.allow_obsolete_multiline_headers_in_responses(true);
        }));
        c.caller(call("GET", "/"));
        c.w.run();
        c.io.push(&b[..cut]);
        c.w.run();
        c.io.push(&b[cut..]);
        c.w.run();
        c.io.push_eof();
        c.w.run();
        let (may, acc) = meaning("GET", 200, 1, fields, false);
        let recs = c.recs.borrow();
        let r = &recs[0];
        let d = || format!("{:?}\n{}", esc(&b), c.summary());
        match (&r.outcome, acc) {
            (Outcome::Failed(..), None) => Ok(1),
            (Outcome::Failed(..), _) if may => Ok(2),
            (Outcome::Resp, Some(a)) => {
                let have: Vec<(String, Vec<u8>)> = r
                    .headers
                    .iter()
                    .map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).split_whitespace().collect::<Vec<_>>().join(" ").into_bytes()))
                    .collect();
                if !a.dup_cl && canon(&have) != canon(&a.headers) {
                    return viol("folded field misread", d());
                }
                let want: &[u8] = match a.frm {
                    Frm::Len(5) | Frm::Close => b"0\r\n\r\n",
                    _ => b"",
                };
                let g = r.got.borrow();
                if g.end != End::Clean || g.data != want {
                    return viol("body misread after folded field", d());
                }
                Ok(3)
            }
            _ => viol("folded response", d()),
        }
    }));
    sc.push(scenario("options/http09", 0, |ch| {
        let bodies: [&[u8]; 4] = [b"hello", b"<html>HTTP/1.1 200 OK\r\n\r\n", b"\x00\xff\r\n", b"HTTX"];
        let b = bodies[ch.free(4, "body")];
        let cut = ch.free(b.len(), "cut");
        let mut c = start(ch, CliCfg::new(IO_PLAIN).tweak(|b| {
            b.http09_responses(true);
        }));
        c.caller(call("GET", "/"));
        c.w.run();
        c.io.push(&b[..cut]);
        c.w.run();
        c.io.push(&b[cut..]);
        c.w.run();
        c.io.push_eof();
        c.w.run();
        let recs = c.recs.borrow();
        let r = &recs[0];
        let d = || format!("{:?} cut {cut}\n{}", esc(b), c.summary());
        // something that is no status line is either an HTTP/0.9 body, complete, or an error
        match &r.outcome {
            Outcome::Resp if r.status == 200 && r.version == Some(http::Version::HTTP_09) && r.got.borrow().data == b && r.got.borrow().end == End::Clean => Ok(1),
            Outcome::Failed(..) => Ok(2),
            _ => viol("HTTP/0.9 response", d()),
        }
    }));
    Check {
        id: "C04",
        scenarios: sc,
        rule: "Every combination of method, status, version, interim responses, up to two (thorough: three) framing lines and payload; every split of the short ones; every single-byte mutation of valid responses; all read answers and schedules within the bound for a corpus. An independent RFC 9112 reading yields the permitted outcomes.".into(),
        assumptions: vec!["what the RFC leaves to the recipient (bare LF, missing reason, obs-text, both length fields, repeated equal lengths) may be refused or given its single meaning".into()],
    }
}
#[allow(unused)]
fn _t(_: Tail) {}
