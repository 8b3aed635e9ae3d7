//! C02: ambiguous or malformed HTTP/1 request framing is refused, never guessed.
//!
//! The oracle is written from RFC 9112: for a request head it answers with the set of permitted outcomes
//! (refuse / accept with one specific body framing and one specific list of visible fields).

use crate::core::*;
use crate::h1ref::{is_tchar, Tail};
use crate::h1srv::*;
use crate::world::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Frm {
    Len(u64),
    Chunked,
}
#[derive(Clone, Debug)]
pub struct Verdict {
    pub may_reject: bool,
    /// Some: may be accepted, with this meaning
    pub accept: Option<Acc>,
}
#[derive(Clone, Debug)]
pub struct Acc {
    pub method: String,
    pub target: Vec<u8>,
    pub minor: u8,
    pub frm: Frm,
    /// lower-case name, value
    pub headers: Vec<(String, Vec<u8>)>,
    pub persist: bool,
    /// the Connection field is not a token list: persistence is not pinned down
    pub vague: bool,
    pub te_and_cl: bool,
    pub dup_cl: bool,
}
const REJECT: Verdict = Verdict { may_reject: true, accept: None };

fn trim(v: &[u8]) -> &[u8] {
    let mut v = v;
    while let [b' ' | b'\t', r @ ..] = v {
        v = r
    }
    while let [r @ .., b' ' | b'\t'] = v {
        v = r
    }
    v
}
fn list(v: &[&[u8]]) -> (Vec<Vec<u8>>, bool) {
    let mut out = vec![];
    let mut empty = false;
    for x in v {
        for t in x.split(|c| *c == b',') {
            let t = trim(t).to_ascii_lowercase();
            if t.is_empty() {
                empty = true
            } else {
                out.push(t)
            }
        }
    }
    (out, empty)
}

/// Semantics of a syntactically sound head.
pub fn meaning(method: &str, target: &[u8], minor: u8, fields: Vec<(String, Vec<u8>)>, mut may_reject: bool) -> Verdict {
    let vals = |n: &str| -> Vec<Vec<u8>> { fields.iter().filter(|(a, _)| a == n).map(|(_, v)| v.clone()).collect() };
    let te = vals("transfer-encoding");
    let cl = vals("content-length");
    let mut headers = fields.clone();
    let mut te_and_cl = false;
    let frm;
    if !te.is_empty() {
        if minor == 0 {
            return REJECT;
        }
        let (toks, empty) = list(&te.iter().map(|v| &v[..]).collect::<Vec<_>>());
        if toks.last().map_or(true, |t| t != b"chunked") {
            return REJECT;
        }
        if toks.len() > 1 || empty {
            may_reject = true; // other codings: a server may refuse what it does not implement
        }
        // the last line's own last element has to be chunked; an empty last element is only an empty element
        frm = Frm::Chunked;
        if !cl.is_empty() {
            te_and_cl = true;
            if !cl.iter().all(|v| !v.is_empty() && v.len() < 18 && v.iter().all(|c| c.is_ascii_digit())) || cl.iter().any(|v| *v != cl[0]) {
                may_reject = true;
            }
            headers.retain(|(n, _)| n != "content-length");
        }
    } else if !cl.is_empty() {
        let mut val: Option<u128> = None;
        let mut n = 0;
        for v in &cl {
            for t in v.split(|c| *c == b',') {
                let t = trim(t);
                if t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) {
                    return REJECT;
                }
                let mut x: u128 = 0;
                for c in t {
                    x = (x * 10 + (*c - b'0') as u128).min(1 << 100);
                }
                if val.map_or(false, |p| p != x) {
                    return REJECT;
                }
                val = Some(x);
                n += 1;
                if t.len() > 1 && t[0] == b'0' {
                    may_reject = true;
                }
            }
        }
        let x = val.unwrap();
        if x > u64::MAX as u128 {
            return REJECT;
        }
        if n > 1 {
            may_reject = true;
        }
        if x > (1 << 62) {
            may_reject = true;
        }
        frm = Frm::Len(x as u64);
    } else {
        frm = Frm::Len(0);
    }
    let (conn, _) = list(&vals("connection").iter().map(|v| &v[..]).collect::<Vec<_>>());
    let persist = if conn.iter().any(|t| t == b"close") {
        false
    } else if minor == 1 {
        true
    } else {
        conn.iter().any(|t| t == b"keep-alive")
    };
    let vague = conn.iter().any(|t| !t.iter().all(|c| is_tchar(*c)));
    let dup_cl = cl.len() > 1;
    Verdict {
        may_reject,
        accept: Some(Acc { method: method.into(), target: target.to_vec(), minor, frm, headers, persist: persist && !te_and_cl, vague: vague && !te_and_cl, te_and_cl, dup_cl }),
    }
}

pub enum Head {
    Bad,
    Incomplete,
    /// number of bytes, verdict
    Done(usize, Verdict),
}
/// Reads one head.  Anything the RFC leaves to the recipient (bare LF, obs-text, odd target bytes) sets may_reject.
pub fn head(b: &[u8]) -> Head {
    let mut i = 0;
    let mut may = false;
    // empty lines before the request line
    loop {
        if b[i..].starts_with(b"\r\n") {
            i += 2
        } else if b[i..].starts_with(b"\n") {
            i += 1;
        } else {
            break;
        }
        if i == b.len() {
            return Head::Incomplete;
        }
    }
    if i == b.len() {
        return Head::Incomplete;
    }
    // line reader: returns (content, next, bare)
    let line = |at: usize| -> Result<(&[u8], usize, bool), Head> {
        let mut j = at;
        while j < b.len() {
            if b[j] == b'\n' {
                return Ok((&b[at..j], j + 1, true));
            }
            if b[j] == b'\r' {
                if j + 1 == b.len() {
                    return Err(Head::Incomplete);
                }
                if b[j + 1] != b'\n' {
                    return Err(Head::Bad);
                }
                return Ok((&b[at..j], j + 2, false));
            }
            j += 1;
        }
        Err(Head::Incomplete)
    };
    let mut bad = false;
    let (l, mut at, bare) = match line(i) {
        Ok(x) => x,
        Err(h) => return h,
    };
    may |= bare;
    let p: Vec<&[u8]> = l.split(|c| *c == b' ').collect();
    let (mut method, mut target, mut minor) = (String::new(), vec![], 1);
    if p.len() == 3 && !p[0].is_empty() && p[0].iter().all(|c| is_tchar(*c)) && !p[1].is_empty() {
        method = String::from_utf8(p[0].to_vec()).unwrap();
        target = p[1].to_vec();
        if target.iter().any(|c| *c < 0x20 || *c == 0x7f) {
            bad = true;
        }
        // only plain origin/absolute/asterisk forms must be accepted; everything else may be refused
        let plain = target.iter().all(|c| c.is_ascii_alphanumeric() || b"/?=&.-_~%".contains(c)) && target[0] == b'/';
        if !plain {
            may = true;
        }
        match p[2] {
            b"HTTP/1.1" => minor = 1,
            b"HTTP/1.0" => minor = 0,
            v => {
                // a higher minor version may be processed as 1.1
                if v.len() == 8 && v.starts_with(b"HTTP/1.") && v[7].is_ascii_digit() {
                    may = true;
                } else {
                    bad = true
                }
            }
        }
    } else {
        bad = true;
    }
    let mut fields: Vec<(String, Vec<u8>)> = vec![];
    loop {
        let (l, n, bare) = match line(at) {
            Ok(x) => x,
            Err(h) => return if bad { Head::Bad } else { h },
        };
        at = n;
        may |= bare;
        if l.is_empty() {
            break;
        }
        let c = match l.iter().position(|c| *c == b':') {
            Some(c) => c,
            None => {
                bad = true;
                continue;
            }
        };
        if c == 0 || !l[..c].iter().all(|x| is_tchar(*x)) {
            bad = true;
            continue;
        }
        let v = trim(&l[c + 1..]);
        if v.iter().any(|x| (*x < 0x20 && *x != b'\t') || *x == 0x7f) {
            bad = true;
            continue;
        }
        if v.iter().any(|x| *x >= 0x80) {
            may = true;
        }
        fields.push((String::from_utf8(l[..c].to_ascii_lowercase()).unwrap(), v.to_vec()));
    }
    if bad {
        return Head::Bad;
    }
    Head::Done(at, meaning(&method, &target, minor, fields, may))
}

/// Reads the one chunked body our payloads use; None: malformed/incomplete (no clean end permitted)
fn simple_chunked(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut part = None;
    let mut m = b"POST / HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
    let pre = m.len();
    m.extend_from_slice(b);
    match crate::h1ref::request(&m, 0, &mut part) {
        Ok(r) => Some((r.body.clone(), r.end - pre)),
        Err(_) => None,
    }
}

/// Grouped by name in order of first appearance (how a header map iterates).
fn grouped(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut names: Vec<&String> = vec![];
    for (n, _) in h {
        if !names.contains(&n) {
            names.push(n)
        }
    }
    let mut out = vec![];
    for n in names {
        out.extend(h.iter().filter(|(a, _)| a == n).cloned());
    }
    out
}
fn canon(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut g = grouped(h);
    g.sort_by(|a, b| a.0.cmp(&b.0)); // stable: keeps per-name order
    g
}

/// Runs `bytes` (delivered at `cut`, then EOF) and judges everything hyper did against the oracle.
pub fn judge(ch: &Ch, bytes: &[u8], cut: usize, pol: IoPolicy) -> ExecResult {
    let mut s = start(ch, SrvCfg::new(vec![Beh::simple("ok")]).pol(pol));
    if cut > 0 && cut < bytes.len() {
        s.io.push(&bytes[..cut]);
        s.w.run();
    }
    s.io.push(&bytes[if cut < bytes.len() { cut } else { 0 }..]);
    s.w.run();
    let closed_before_eof = s.io.s.borrow().shut || s.w.is_done(s.conn);
    s.io.push_eof();
    if s.w.run() == RunEnd::StepLimit {
        return viol("livelock", "scheduler step limit reached");
    }
    let desc = || format!("input: {:?}\nservice saw:\n{}wire: {:?}\nresult: {:?}", esc(bytes), s.seen(), esc(&s.io.out()), s.result.borrow());
    let rs = s.responses();
    let recs = s.recs.borrow();
    let mut at = 0;
    let mut k = 0; // requests consumed by the oracle
    let mut h = 17u64;
    if let Some(b) = s.contract_violation() {
        return viol("body contract", format!("{b}\n{}", desc()));
    }
    loop {
        if at >= bytes.len() {
            // clean end: nothing more may have happened
            if recs.len() != k || rs.msgs.len() != k || rs.tail != Tail::Clean {
                return viol("extra exchange", format!("{k} request(s) expected\n{}", desc()));
            }
            return Ok(mix(h, 1));
        }
        let rest = &bytes[at..];
        let hd = head(rest);
        let refused = recs.len() == k;
        let refusal = || -> Result<(), Viol> {
            // exactly one 4xx after the k answers, then close; a refusal may also be silent only for an HTTP/2 preface
            if rest.starts_with(b"PRI * HTTP/2.0") {
                return Ok(());
            }
            if rs.msgs.len() != k + 1 || rs.tail != Tail::Clean {
                return viol("no 4xx for a refused request", desc());
            }
            let m = &rs.msgs[k].1;
            if !(400..=431).contains(&m.status()) || m.says_persist() || !m.body.is_empty() {
                return viol("wrong answer to a refused request", desc());
            }
            if !closed_before_eof {
                return viol("connection left open after a refused request", desc());
            }
            match &*s.result.borrow() {
                Some(Err(e)) if e.parse => Ok(()),
                _ => viol("refused request not reported", desc()),
            }
        };
        match hd {
            Head::Bad => {
                if !refused {
                    return viol("malformed request reached the service", desc());
                }
                refusal()?;
                return Ok(mix(h, 2));
            }
            Head::Incomplete => {
                if !refused {
                    return viol("incomplete head reached the service", desc());
                }
                // only whitespace lines: idle close; otherwise an error without a request
                if rs.msgs.len() == k && rs.tail == Tail::Clean {
                    let blank = rest.iter().all(|c| *c == b'\r' || *c == b'\n');
                    match &*s.result.borrow() {
                        Some(Err(e)) if e.incomplete => {}
                        Some(Ok(())) if blank => {}
                        _ => return viol("incomplete head not reported", desc()),
                    }
                } else {
                    refusal()?;
                }
                return Ok(mix(h, 3));
            }
            Head::Done(n, v) => {
                if refused {
                    if !v.may_reject {
                        return viol("valid request refused", desc());
                    }
                    refusal()?;
                    return Ok(mix(h, 4));
                }
                let a = match v.accept {
                    None => return viol("ambiguous request reached the service", desc()),
                    Some(a) => a,
                };
                at += n;
                let r = &recs[k];
                let ver = if a.minor == 1 { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
                if r.method != a.method || r.version != ver {
                    return viol("request line misread", desc());
                }
                if r.uri.as_bytes() != &a.target[..] && a.target.iter().all(|c| c.is_ascii_alphanumeric() || b"/?=&.-_~%".contains(c)) {
                    return viol("target misread", desc());
                }
                let (mut want, mut seen) = (canon(&a.headers), canon(&r.headers));
                if a.dup_cl {
                    // repeated equal lengths may be shown once or repeatedly
                    let nums = |v: &mut Vec<(String, Vec<u8>)>| {
                        let p = v.iter().position(|(n, _)| n == "content-length");
                        let mut first = true;
                        v.retain(|(n, _)| {
                            if n == "content-length" {
                                let k = first;
                                first = false;
                                k
                            } else {
                                true
                            }
                        });
                        p
                    };
                    nums(&mut want);
                    nums(&mut seen);
                }
                if want != seen {
                    return viol("header fields misread", format!("expected {:?}\n{}", want, desc()));
                }
                let body = &bytes[at..];
                let got = r.got.borrow();
                match a.frm {
                    Frm::Len(n) => {
                        if (body.len() as u64) < n {
                            if matches!(got.end, End::Clean) {
                                return viol("short body presented as complete", desc());
                            }
                            if !got.data.is_empty() && got.data != body || got.data.is_empty() && !body.is_empty() && got.end != End::Unfinished {
                                return viol("bytes of a body that is under way were lost", desc());
                            }
                            if recs.len() != k + 1 {
                                return viol("request found inside a body", desc());
                            }
                            return Ok(mix(h, 5));
                        }
                        if got.end != End::Clean || got.data != body[..n as usize] {
                            return viol("body misread", format!("expected {n} bytes\n{}", desc()));
                        }
                        at += n as usize;
                    }
                    Frm::Chunked => match simple_chunked(body) {
                        None => {
                            if got.end == End::Clean {
                                return viol("malformed chunked body accepted", desc());
                            }
                            if recs.len() != k + 1 {
                                return viol("request found inside a body", desc());
                            }
                            return Ok(mix(h, 6));
                        }
                        Some((d, n)) => {
                            if got.end != End::Clean || got.data != d {
                                return viol("body misread", format!("expected chunked {:?}\n{}", esc(&d), desc()));
                            }
                            at += n;
                        }
                    },
                }
                k += 1;
                h = mix(h, 100 + at as u64);
                if rs.msgs.len() < k || rs.msgs[k - 1].1.a != "200" {
                    return viol("accepted request not answered", desc());
                }
                if a.vague {
                    return Ok(mix(h, 8));
                }
                if rs.msgs[k - 1].1.says_persist() && !a.persist && a.minor == 1 {
                    return viol("answer promises a connection that must close", desc());
                }
                if !a.persist {
                    if recs.len() != k || rs.msgs.len() != k || rs.tail != Tail::Clean {
                        return viol("connection reused where it must not be", desc());
                    }
                    if !closed_before_eof {
                        return viol("connection not closed", desc());
                    }
                    return Ok(mix(h, 7));
                }
            }
        }
    }
}

const LINES: &[&str] = &[
    "Content-Length: 5",
    "Content-Length: 4",
    "Transfer-Encoding: chunked",
    "Transfer-Encoding: gzip",
    "X: y",
    "Content-Length: +5",
    "Content-Length:",
    "Content-Length: 5, 5",
    "Content-Length: 5,4",
    "Content-Length: 0x5",
    "Content-Length: -0",
    "Content-Length: 05",
    "Content-Length: 5 5",
    "Content-Length: 18446744073709551621",
    "Content-Length: 18446744073709551615",
    "Content-Length: 18446744073709551614",
    "Content-Length: 99999999999999999999999999",
    "Content-Length: 18446744073709551620",
    "Content-Length: 50000000000000000000",
    "Content-Length: 4294967296",
    "Content-Length: 9223372032559808512",
    "Content-Length: 184467440737095516160000",
    "Content-Length: 0",
    "Content-Length : 5",
    "content-length:\t5 ",
    "Content_Length: 4",
    "Transfer-Encoding: CHUNKED",
    "Transfer-Encoding: gzip, chunked",
    "Transfer-Encoding: chunked, gzip",
    "Transfer-Encoding: chunked,chunked",
    "Transfer-Encoding: xchunked",
    "Transfer-Encoding: chunkedx",
    "Transfer-Encoding: chunked;q=1",
    "Transfer-Encoding:",
    "Transfer-Encoding: chunked,",
    "Transfer-Encoding: ,\tchunked ",
    "Transfer-Encoding: identity",
    "Transfer-Encoding : chunked",
    "Transfer-Encoding: \"chunked\"",
    "transfer_encoding: chunked",
    " chunked",
    "Connection: close",
    "Connection: keep-alive",
    "Transfer-Encoding: chunked\u{e9}",
    "Transfer-Encoding: chun ked",
];
const TAIL: &[u8] = b"0\r\n\r\nGET /c HTTP/1.1\r\nHost: h\r\n\r\n";

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let max = tier.pick(3, 4);
    for ver in ["1.1", "1.0"] {
        for len in 0..=max {
            // the alphabet shrinks to the core for 4-line heads
            let alpha: usize = if len == 4 { 20 } else { LINES.len() };
            sc.push(scenario(format!("framing-lines/{ver}/{len}"), 0, move |ch| {
                let method = if len < 3 { ["POST", "GET", "CONNECT"][ch.free(2, "method")] } else { "POST" };
                let mut b = vec![];
                if len < 3 {
                    match ch.free(3, "before") {
                        1 => b.extend(b"GET /p HTTP/1.1\r\n\r\n"),
                        2 => b.extend(b"POST /p HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"),
                        _ => {}
                    }
                }
                b.extend(format!("{method} /p HTTP/{ver}\r\n").bytes());
                for _ in 0..len {
                    b.extend(LINES[ch.free(alpha, "line")].bytes());
                    b.extend(b"\r\n");
                }
                b.extend(b"\r\n");
                b.extend(TAIL);
                judge(ch, &b, 0, IO_PLAIN)
            }));
        }
        // every split of every head of up to 2 lines
        let most = tier.pick(LINES.len(), LINES.len());
        sc.push(scenario(format!("framing-lines-cut/{ver}"), 0, move |ch| {
            let mut b = format!("POST /p HTTP/{ver}\r\n").into_bytes();
            for _ in 0..ch.free(3, "lines") {
                b.extend(LINES[ch.free(most, "line")].bytes());
                b.extend(b"\r\n");
            }
            b.extend(b"\r\n");
            b.extend(TAIL);
            let cut = 1 + ch.free(b.len() - 1, "cut");
            judge(ch, &b, cut, IO_PLAIN)
        }));
    }
    // all single-byte mutations of valid requests
    let bases: Vec<(&str, &[u8])> = vec![
        ("get", b"GET /a?b=c HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\n"),
        ("len", b"POST /p HTTP/1.1\r\nContent-Length: 5\r\nA: b\r\n\r\n"),
        ("len10", b"POST /p HTTP/1.0\r\nConnection: keep-alive\r\nContent-Length: 5\r\n\r\n"),
        ("chunked", b"POST /p HTTP/1.1\r\nTransfer-Encoding: chunked\r\nA: b\r\n\r\n"),
        ("te-cl", b"POST /p HTTP/1.1\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n"),
        ("conn", b"POST /p HTTP/1.1\r\nConnection: close, x\r\nContent-Length: 5\r\n\r\n"),
    ];
    const CHARS: &[u8] = b"\x00\x01\t\n\x0b\r !\"(),/:;=@A\\chz{}0159\x7f\x80\xe9\xff";
    for (name, base) in bases {
        for op in ["replace", "insert", "delete", "truncate", "dup"] {
            let cuts = tier.pick(1, 6);
            sc.push(scenario(format!("mutate/{name}/{op}"), 0, move |ch| {
                let mut b = base.to_vec();
                let i = ch.free(b.len(), "position");
                match op {
                    "replace" => b[i] = CHARS[ch.free(CHARS.len(), "byte")],
                    "insert" => b.insert(i, CHARS[ch.free(CHARS.len(), "byte")]),
                    "delete" => {
                        b.remove(i);
                    }
                    "dup" => {
                        let l = 1 + ch.free(4.min(b.len() - i), "length");
                        let seg = b[i..i + l].to_vec();
                        for (k, c) in seg.into_iter().enumerate() {
                            b.insert(i + k, c)
                        }
                    }
                    _ => b.truncate(i.max(1)),
                }
                if op != "truncate" {
                    b.extend(TAIL);
                }
                let pre = ch.free(2, "before") == 1;
                if pre {
                    let mut x = b"GET /p HTTP/1.1\r\n\r\n".to_vec();
                    x.extend(&b);
                    b = x;
                }
                // also cut around the mutated position
                let c = ch.free(1 + cuts, "cut");
                let at = if c == 0 { 0 } else { (i + c).saturating_sub(2).max(1) };
                judge(ch, &b, at, IO_PLAIN)
            }));
        }
        if tier.thorough() {
            // two mutations
            sc.push(scenario(format!("mutate2/{name}"), 0, move |ch| {
                let mut b = base.to_vec();
                const FEW: &[u8] = b"\x00\t\n\r :,0c\x80";
                for _ in 0..2 {
                    let i = ch.free(b.len(), "position");
                    match ch.free(FEW.len() + 1, "op") {
                        0 => {
                            b.remove(i);
                        }
                        k => b[i] = FEW[k - 1],
                    }
                }
                b.extend(TAIL);
                judge(ch, &b, 0, IO_PLAIN)
            }));
        }
    }
    // delivery schedules of a few refusals, incl. answers blocked half way
    for (name, b) in [
        ("dup-cl", &b"GET /p HTTP/1.1\r\n\r\nPOST /p HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 4\r\n\r\n0\r\n\r\nGET /c HTTP/1.1\r\n\r\n"[..]),
        ("te-gzip", b"POST /p HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTransfer-Encoding: gzip\r\n\r\n0\r\n\r\nGET /c HTTP/1.1\r\n\r\n"),
        ("te10", b"POST /p HTTP/1.0\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\nGET /c HTTP/1.1\r\n\r\n"),
        ("te-cl", b"POST /p HTTP/1.1\r\nTransfer-Encoding: chunked\r\nContent-Length: 3\r\n\r\n0\r\n\r\nGET /c HTTP/1.1\r\n\r\n"),
        ("garbage", b"GET /p HTTP/1.1\r\n\r\n\x16\x03\x01\x02\r\n\r\n"),
    ] {
        sc.push(scenario(format!("schedules/{name}"), tier.pick(1, 2), move |ch| judge(ch, b, 0, IO_ALL)));
    }
    Check {
        id: "C02",
        scenarios: sc,
        rule: "Every sequence of up to three (thorough: four) header lines over the framing alphabet, both versions, plus every single-byte mutation (thorough: pairs) of valid heads and every split of short heads; the oracle says for each which outcomes RFC 9112 permits, and everything seen by the service, written and closed is compared with it.".into(),
        assumptions: vec!["inputs the RFC leaves to the recipient (bare LF, obs-text, unusual target bytes, other codings before chunked, repeated equal lengths) may be refused or accepted with their single meaning".into()],
    }
}
