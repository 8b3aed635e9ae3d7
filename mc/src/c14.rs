//! C14: buffering is bounded and back-pressured.

use crate::core::*;
use crate::h1cli::{self, call, CliCfg, Outcome, Take};
use crate::h1ref::Tail;
use crate::h1srv::{self, Beh, Consume, RespSpec, SrvCfg};
use crate::world::*;

/// hyper's default for the read and write buffers
const DEFAULT_MAX: usize = 8192 + 4096 * 100;
/// a source that never runs dry (for what may reasonably be buffered)
const PLENTY: usize = 4 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Flood {
    /// a request target (reason phrase) without end
    Line,
    /// one header value without end
    Value,
    /// one header name without end
    Name,
    /// header lines without end, too few bytes each to matter one by one
    Lines,
    /// empty lines in front of the message
    Empty,
    /// chunk extension without end
    Ext,
    /// chunk extensions, one per chunk
    Exts,
    /// a trailer value without end
    Trailer,
    /// trailer lines without end
    Trailers,
}
/// the start of the stream, and what is repeated
fn flood(f: Flood, server: bool) -> (String, Vec<u8>) {
    let start = |s: &str| if server { format!("POST / HTTP/1.1\r\n{s}") } else { format!("HTTP/1.1 200 OK\r\n{s}") };
    let ch = "Transfer-Encoding: chunked\r\n\r\n";
    match f {
        Flood::Line => (if server { "GET /".into() } else { "HTTP/1.1 200 O".into() }, b"a".to_vec()),
        Flood::Value => (start("A: "), b"v".to_vec()),
        Flood::Name => (start(""), b"n".to_vec()),
        Flood::Lines => (start(""), format!("A: {}\r\n", "v".repeat(300)).into_bytes()),
        Flood::Empty => (String::new(), b"\r\n".to_vec()),
        Flood::Ext => (start(ch) + "5;a=", b"e".to_vec()),
        Flood::Exts => (start(ch), format!("1;{}\r\nx\r\n", "e".repeat(50)).into_bytes()),
        Flood::Trailer => (start(ch) + "1\r\nx\r\n0\r\nA: ", b"v".to_vec()),
        Flood::Trailers => (start(ch) + "1\r\nx\r\n0\r\n", b"A: v\r\n".to_vec()),
    }
}
fn supply(io: &Io, first: String, rep: Vec<u8>, piece: usize, cap: usize) {
    let mut sent = 0usize;
    let first = first.into_bytes();
    let f = move || {
        if sent >= cap {
            return vec![];
        }
        let at = |i: usize| if i < first.len() { first[i] } else { rep[(i - first.len()) % rep.len()] };
        let v = (sent..sent + piece).map(at).collect();
        sent += piece;
        v
    };
    io.s.borrow_mut().supply = Some(Supply(Box::new(f)));
}

fn srv_flood(ch: &Ch, f: Flood, max: Option<usize>, piece: usize, pol: IoPolicy) -> ExecResult {
    let beh = Beh::simple("ok");
    let cfg = SrvCfg::new(vec![beh]).pol(pol).tweak(move |b, _| {
        if let Some(m) = max {
            b.max_buf_size(m);
        }
    });
    let mut s = h1srv::start(ch, cfg);
    let (first, rep) = flood(f, true);
    supply(&s.io, first, rep, piece, PLENTY);
    s.w.max_steps = 50_000;
    s.env.op_limit.set(1_000_000);
    let end = s.w.run();
    let in_body = matches!(f, Flood::Ext | Flood::Exts | Flood::Trailer | Flood::Trailers);
    let st = s.responses();
    let n = s.io.s.borrow().nread;
    let m = max.unwrap_or(DEFAULT_MAX);
    let desc = || format!("{f:?} max {max:?} pieces of {piece}: {n} bytes read, result {:?}\nservice saw {}\nwire {:?}", s.result.borrow(), s.seen(), esc(&s.io.out()[..s.io.out().len().min(300)]));
    if end == RunEnd::StepLimit {
        return viol("livelock", desc());
    }
    if n > 2 * m + piece + if in_body { 2 * m + 65536 } else { 0 } {
        return viol("reads without bound", desc());
    }
    if s.result.borrow().is_none() {
        return viol("endless input does not end the connection", desc());
    }
    if in_body {
        let r = s.recs.borrow();
        if r.len() != 1 || !matches!(r[0].got.borrow().end, End::Error(_)) {
            return viol("oversized chunk metadata is not an error of the body", desc());
        }
        return Ok(n as u64 / 4096);
    }
    let want: &[u16] = match f {
        Flood::Line => &[414, 431],
        Flood::Empty => &[431, 400],
        Flood::Name => &[431, 400],
        _ => &[431],
    };
    if !s.recs.borrow().is_empty() {
        return viol("a head that never ends reached the service", desc());
    }
    if st.msgs.len() != 1 || st.tail != Tail::Clean || !want.contains(&st.msgs[0].1.a.parse::<u16>().unwrap_or(0)) || s.io.s.borrow().flushed != s.io.out().len() {
        return viol("oversized head not answered as it should be", format!("{:?}\n{}", st.msgs.first().map(|m| &m.1.a), desc()));
    }
    Ok(n as u64 / 4096)
}
fn cli_flood(ch: &Ch, f: Flood, max: Option<usize>, piece: usize, pol: IoPolicy) -> ExecResult {
    let mut c = h1cli::start(
        ch,
        CliCfg::new(pol).tweak(move |b| {
            if let Some(m) = max {
                b.max_buf_size(m);
            }
        }),
    );
    c.caller(call("GET", "/1"));
    let (first, rep) = flood(f, false);
    let io = c.io.clone();
    c.env.event_when("the peer answers without end", false, move || h1cli::trig_holds(&h1cli::Trig::Reqs(1), &io), {
        let io = c.io.clone();
        move || {
            supply(&io, first, rep, piece, PLENTY);
            io.push(b"");
        }
    });
    c.w.max_steps = 50_000;
    c.env.op_limit.set(1_000_000);
    let end = c.w.run();
    let n = c.io.s.borrow().nread;
    let m = max.unwrap_or(DEFAULT_MAX);
    let in_body = matches!(f, Flood::Ext | Flood::Exts | Flood::Trailer | Flood::Trailers);
    let desc = || format!("{f:?} max {max:?} pieces of {piece}: {n} bytes read\n{}", c.summary());
    if end == RunEnd::StepLimit {
        return viol("livelock", desc());
    }
    if n > 2 * m + piece + if in_body { 2 * m + 65536 } else { 0 } {
        return viol("reads without bound", desc());
    }
    if c.result.borrow().is_none() {
        return viol("endless input does not end the connection", desc());
    }
    let r = c.recs.borrow();
    if in_body {
        if r[0].outcome != Outcome::Resp || !matches!(r[0].got.borrow().end, End::Error(_)) {
            return viol("oversized chunk metadata is not an error of the body", desc());
        }
    } else if !matches!(&r[0].outcome, Outcome::Failed(e, _) if e.parse) {
        return viol("oversized head is not an error of the call", desc());
    }
    Ok(n as u64 / 4096)
}

/// A complete head of exactly `len` bytes, with a small limit.
fn exact_head(ch: &Ch, server: bool, max: usize, len: usize, piece: usize, pol: IoPolicy) -> ExecResult {
    let (a, z) = if server { ("GET / HTTP/1.1\r\nA: ", "\r\n\r\n") } else { ("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nA: ", "\r\n\r\n") };
    let v = "v".repeat(len - a.len() - z.len());
    let head = format!("{a}{v}{z}").into_bytes();
    let mut off = 0;
    let next = move || {
        let e = (off + piece).min(head.len());
        let r = head[off..e].to_vec();
        off = e;
        r
    };
    let (ok, refused, nread, desc);
    if server {
        let mut s = h1srv::start(
            ch,
            SrvCfg::new(vec![Beh::simple("ok")]).pol(pol).tweak(move |b, _| {
                b.max_buf_size(max);
            }),
        );
        s.io.s.borrow_mut().supply = Some(Supply(Box::new(next)));
        s.w.max_steps = 50_000;
        s.env.op_limit.set(1_000_000);
        s.w.run();
        let st = s.responses();
        let codes: Vec<_> = st.msgs.iter().map(|m| m.1.a.clone()).collect();
        ok = s.recs.borrow().len() == 1 && s.recs.borrow()[0].headers.iter().any(|(n, x)| n == "a" && *x == v.as_bytes()) && codes == ["200"];
        refused = s.recs.borrow().is_empty() && codes == ["431"] && s.result.borrow().is_some();
        nread = s.io.s.borrow().nread;
        desc = format!("{codes:?} {} calls, result {:?}", s.recs.borrow().len(), s.result.borrow());
    } else {
        let mut c = h1cli::start(
            ch,
            CliCfg::new(pol).tweak(move |b| {
                b.max_buf_size(max);
            }),
        );
        c.caller(call("GET", "/1"));
        let io = c.io.clone();
        let io2 = c.io.clone();
        c.env.event_when(
            "the peer answers",
            false,
            move || h1cli::trig_holds(&h1cli::Trig::Reqs(1), &io),
            move || {
                io2.s.borrow_mut().supply = Some(Supply(Box::new(next)));
                io2.push(b"");
            },
        );
        c.w.max_steps = 50_000;
        c.env.op_limit.set(1_000_000);
        c.w.run();
        let r = c.recs.borrow();
        ok = r[0].outcome == Outcome::Resp && r[0].headers.iter().any(|(n, x)| n == "a" && *x == v.as_bytes());
        refused = matches!(&r[0].outcome, Outcome::Failed(e, _) if e.parse && e.too_large);
        nread = c.io.s.borrow().nread;
        desc = format!("{:?}", r[0].outcome);
    }
    let d = || format!("server {server} head of {len} bytes, limit {max}, pieces of {piece}, {nread} bytes read: {desc}");
    if !ok && !refused {
        return viol("head neither accepted nor refused as too large", d());
    }
    if len <= max && !ok {
        return viol("head within the limit refused", d());
    }
    if len > 2 * max + piece && !refused {
        return viol("head far beyond the limit accepted", d());
    }
    Ok(ok as u64)
}

/// Exactly `n` header lines with the limit set to `max` (None: hyper's default of 100).
fn header_count(ch: &Ch, kind: u8, max: Option<usize>, n: usize, pol: IoPolicy) -> ExecResult {
    let lim = max.unwrap_or(100);
    // kind 0: request head, 1: response head, 2: request trailers, 3: response trailers
    let lines: String = (0..n).map(|i| format!("A{i}: v{i}\r\n")).collect();
    let want: Vec<(String, Vec<u8>)> = (0..n).map(|i| (format!("a{i}"), format!("v{i}").into_bytes())).collect();
    let over = n > lim;
    match kind {
        0 | 2 => {
            let msg = if kind == 0 { format!("GET / HTTP/1.1\r\n{lines}\r\n") } else { format!("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\n{lines}\r\n") };
            let mut s = h1srv::start(
                ch,
                SrvCfg::new(vec![Beh::simple("ok")]).pol(pol).tweak(move |b, _| {
                    if let Some(m) = max {
                        b.max_headers(m);
                    }
                }),
            );
            s.io.push(msg.as_bytes());
            s.io.push(b"GET /next HTTP/1.1\r\n\r\n");
            s.w.run();
            s.io.push_eof();
            s.w.run();
            let codes: Vec<_> = s.responses().msgs.iter().map(|m| m.1.a.clone()).collect();
            let r = s.recs.borrow();
            let desc = format!("{n} lines, limit {lim}: {codes:?}, result {:?}\nsaw {}", s.result.borrow(), s.seen());
            if kind == 0 {
                if over && (codes != ["431"] || !r.is_empty()) {
                    return viol("too many headers not refused with 431", desc);
                }
                if !over && (codes != ["200", "200"] || r[0].headers != want) {
                    return viol("headers within the limit not delivered", desc);
                }
            } else {
                let g = r[0].got.borrow();
                if over && (!matches!(g.end, End::Error(_)) || r.len() != 1) {
                    return viol("too many trailers accepted", desc);
                }
                if !over && (g.end != End::Clean || g.trailers.clone().unwrap_or_default() != want || r.len() != 2) {
                    return viol("trailers within the limit not delivered", desc);
                }
            }
        }
        _ => {
            let msg = if kind == 1 { format!("HTTP/1.1 204 No Content\r\n{lines}\r\n") } else { format!("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\n{lines}\r\n") };
            let mut c = h1cli::start(
                ch,
                CliCfg::new(pol).tweak(move |b| {
                    if let Some(m) = max {
                        b.max_headers(m);
                    }
                }),
            );
            c.caller(call("GET", "/1"));
            c.peer(vec![h1cli::Act(h1cli::Trig::Reqs(1), h1cli::Do::Send(msg.into_bytes()))]);
            c.w.run();
            let r = c.recs.borrow();
            let desc = format!("{n} lines, limit {lim}:\n{}", c.summary());
            if kind == 1 {
                if over && !matches!(&r[0].outcome, Outcome::Failed(e, _) if e.parse) {
                    return viol("too many headers accepted", desc);
                }
                if !over && (r[0].outcome != Outcome::Resp || r[0].headers != want) {
                    return viol("headers within the limit not delivered", desc);
                }
            } else {
                let g = r[0].got.borrow();
                if over && !matches!(g.end, End::Error(_)) {
                    return viol("too many trailers accepted", desc);
                }
                if !over && (g.end != End::Clean || g.trailers.clone().unwrap_or_default() != want) {
                    return viol("trailers within the limit not delivered", desc);
                }
            }
        }
    }
    Ok(over as u64)
}
/// A request target of exactly `n` bytes.
fn long_target(ch: &Ch, n: usize, pol: IoPolicy) -> ExecResult {
    let t = format!("/{}", "a".repeat(n - 1));
    let mut s = h1srv::start(ch, SrvCfg::new(vec![Beh::simple("ok")]).pol(pol));
    s.io.push(format!("GET {t} HTTP/1.1\r\n\r\nGET /next HTTP/1.1\r\n\r\n").as_bytes());
    s.w.run();
    s.io.push_eof();
    s.w.run();
    let codes: Vec<_> = s.responses().msgs.iter().map(|m| m.1.a.clone()).collect();
    let r = s.recs.borrow();
    let desc = format!("target of {n} bytes: {codes:?}, {} calls", r.len());
    // http::Uri holds at most 65534 bytes
    if n > 65534 && (codes != ["414"] || !r.is_empty()) {
        return viol("over-long target not refused with 414", desc);
    }
    if n <= 65534 && (codes != ["200", "200"] || r[0].uri != t) {
        return viol("target within the limit not delivered", desc);
    }
    Ok((n > 65534) as u64)
}

/// A body (or a pipeline) without end, and a consumer that stops.
#[derive(Clone, Debug)]
struct Hold {
    server: bool,
    /// None: Content-Length (endless); 0: until close; n: chunks of n bytes
    chunk: Option<usize>,
    k: usize,
    mode: u8,
    max: Option<usize>,
    piece: usize,
}
fn hold(ch: &Ch, x: &Hold, pol: IoPolicy) -> ExecResult {
    let framing = match x.chunk {
        None => "Content-Length: 1000000000000\r\n",
        Some(0) => "",
        Some(_) => "Transfer-Encoding: chunked\r\n",
    };
    let rep = match x.chunk {
        None | Some(0) => b"x".to_vec(),
        Some(n) => format!("{n:x}\r\n{}\r\n", "x".repeat(n)).into_bytes(),
    };
    let m = x.max.unwrap_or(DEFAULT_MAX);
    let (nread, data, frames, bad, livelock, desc);
    if x.server {
        let (consume, rep, framing) = match x.mode {
            0 => (Consume::FramesHold(x.k), rep, framing),
            1 => (Consume::FramesStuck(x.k), rep, framing),
            2 => (Consume::HoldForever, rep, framing),
            // requests without end, and a service that does not answer
            _ => (Consume::FramesStuck(0), b"GET /n HTTP/1.1\r\n\r\n".to_vec(), ""),
        };
        let max = x.max;
        let mut s = h1srv::start(
            ch,
            SrvCfg::new(vec![Beh::simple("ok").consume(consume)]).pol(pol).tweak(move |b, _| {
                if let Some(m) = max {
                    b.max_buf_size(m);
                }
            }),
        );
        let start = if x.mode == 3 { "GET /n HTTP/1.1\r\n\r\n".into() } else { format!("POST / HTTP/1.1\r\n{framing}\r\n") };
        supply(&s.io, start, rep, x.piece, PLENTY);
        s.w.max_steps = 100_000;
        s.env.op_limit.set(1_000_000);
        livelock = s.w.run() == RunEnd::StepLimit;
        let r = s.recs.borrow();
        desc = format!("{} calls, result {:?}", r.len(), s.result.borrow());
        if r.len() != 1 || s.result.borrow().is_some() {
            return viol("connection does not wait for its consumer", format!("{x:?} {desc}"));
        }
        let g = r[0].got.borrow();
        data = g.data.len();
        frames = g.frames.len();
        bad = g.bad.clone();
        nread = s.io.s.borrow().nread;
    } else {
        let max = x.max;
        let mut c = h1cli::start(
            ch,
            CliCfg::new(pol).tweak(move |b| {
                if let Some(m) = max {
                    b.max_buf_size(m);
                }
            }),
        );
        c.caller(call("GET", "/1").take(if x.mode == 0 { Take::FramesHold(x.k) } else { Take::Hold }));
        let start = format!("HTTP/1.1 200 OK\r\n{framing}\r\n");
        let (io, io2, piece) = (c.io.clone(), c.io.clone(), x.piece);
        c.env.event_when(
            "the peer answers without end",
            false,
            move || h1cli::trig_holds(&h1cli::Trig::Reqs(1), &io),
            move || {
                supply(&io2, start, rep, piece, PLENTY);
                io2.push(b"");
            },
        );
        c.w.max_steps = 100_000;
        c.env.op_limit.set(1_000_000);
        livelock = c.w.run() == RunEnd::StepLimit;
        desc = c.summary()[..200.min(c.summary().len())].to_string();
        let r = c.recs.borrow();
        let g = r[0].got.borrow();
        data = g.data.len();
        frames = g.frames.len();
        bad = g.bad.clone();
        nread = c.io.s.borrow().nread;
    }
    let d = || format!("{x:?}: {nread} bytes read, {data} delivered in {frames} frames\n{desc}");
    if livelock {
        return viol("livelock", d());
    }
    if let Some(b) = bad {
        return viol("body contract", format!("{b} {}", d()));
    }
    let want = if matches!(x.mode, 0 | 1) && !(x.mode == 1 && !x.server) { x.k } else { 0 };
    if frames < want {
        return viol("consumer starved although bytes are there", d());
    }
    let raw = match x.chunk {
        Some(n) if n > 0 => data / n * (n + 12) + n + 12,
        _ => data,
    };
    if nread > raw + 100 + 2 * m + x.piece {
        return viol("reads ahead of a consumer that stopped", d());
    }
    Ok((nread - data.min(nread)) as u64 / 4096 * 64 + frames as u64)
}

/// An outgoing body without end, and a transport that takes only `takes`.
#[derive(Clone, Debug)]
struct Stuck {
    server: bool,
    chunk: usize,
    exact: bool,
    max: Option<usize>,
    takes: Vec<usize>,
    vectored: bool,
    pipeline: bool,
}
fn stuck(ch: &Ch, x: &Stuck, pol: IoPolicy) -> ExecResult {
    let total = PLENTY.min(x.chunk * 20_000);
    let steps: Vec<BStep> = (0..total / x.chunk.max(1)).map(|_| BStep::Data(vec![b'x'; x.chunk])).collect();
    let body = BodySpec { hint: if x.exact { Hint::Exact } else { Hint::Unknown }, eos: x.exact, steps };
    let m = x.max.unwrap_or(DEFAULT_MAX);
    let pol = IoPolicy { vectored: x.vectored, ..pol };
    let (io, stat, livelock, desc);
    let room = |env: &E, io: &Io| {
        let mut acc = 0;
        io.s.borrow_mut().wcap = Some(x.takes[0]);
        acc += x.takes[0];
        let mut acts = vec![];
        for t in &x.takes[1..] {
            acts.push(h1cli::Act(h1cli::Trig::Bytes(acc), h1cli::Do::Room(*t)));
            acc += t;
        }
        h1cli::peer(env, io, acts);
        acc
    };
    let taken;
    let mut nreq = 0;
    if x.server {
        let (max, pf) = (x.max, x.pipeline);
        let beh = if x.pipeline { Beh::simple(&"r".repeat(x.chunk)) } else { Beh::simple("").resp(RespSpec { body, ..RespSpec::ok("") }) };
        let mut s = h1srv::start(
            ch,
            SrvCfg::new(vec![beh]).pol(pol).tweak(move |b, _| {
                if let Some(m) = max {
                    b.max_buf_size(m);
                }
                b.pipeline_flush(pf);
            }),
        );
        taken = room(&s.env, &s.io);
        if x.pipeline {
            supply(&s.io, String::new(), b"GET /n HTTP/1.1\r\n\r\n".to_vec(), 1000, PLENTY);
        } else {
            s.io.push(b"GET / HTTP/1.1\r\n\r\n");
        }
        s.w.max_steps = 100_000;
        s.env.op_limit.set(1_000_000);
        livelock = s.w.run() == RunEnd::StepLimit;
        nreq = s.recs.borrow().len();
        stat = s.recs.borrow()[0].resp_stat.clone();
        io = s.io.clone();
        desc = format!("{nreq} calls result {:?}", s.result.borrow());
    } else {
        let max = x.max;
        let mut c = h1cli::start(
            ch,
            CliCfg::new(pol).tweak(move |b| {
                if let Some(m) = max {
                    b.max_buf_size(m);
                }
            }),
        );
        taken = room(&c.env, &c.io);
        c.caller(call("POST", "/1").body(body));
        c.w.max_steps = 100_000;
        c.env.op_limit.set(1_000_000);
        livelock = c.w.run() == RunEnd::StepLimit;
        stat = c.recs.borrow()[0].body_stat.clone();
        io = c.io.clone();
        desc = format!("result {:?}", c.result.borrow());
    }
    let out = io.s.borrow().out.len();
    let pulled = stat.borrow().polled_data;
    let d = || format!("{x:?}: transport took {out} of {taken}, {pulled} bytes pulled from the body, {} bytes read\n{desc}", io.s.borrow().nread);
    if livelock {
        return viol("livelock", d());
    }
    if out != taken {
        return viol("does not write what the transport would take", d());
    }
    if x.pipeline {
        // what is answered but not yet taken fits the write buffer, but for one response
        let per = x.chunk + 70;
        if nreq * per > taken + m + 4 * per {
            return viol("answers pile up although the transport takes nothing", d());
        }
        if io.s.borrow().nread > nreq * 18 + 2 * m + 2000 {
            return viol("reads ahead although the transport takes nothing", d());
        }
    } else if pulled > taken + m + 2 * x.chunk {
        return viol("pulls the body without bound although the transport takes nothing", d());
    }
    Ok(pulled as u64 / 1024 * 16 + nreq as u64 % 16)
}

/// Echo: what is read ahead plus what waits to be written is bounded.
fn echo(ch: &Ch, max: Option<usize>, take: usize, chunked: bool, pol: IoPolicy) -> ExecResult {
    let mut s = h1srv::start(
        ch,
        SrvCfg::new(vec![Beh::simple("").consume(Consume::Echo)]).pol(pol).tweak(move |b, _| {
            if let Some(m) = max {
                b.max_buf_size(m);
            }
        }),
    );
    s.io.s.borrow_mut().wcap = Some(take);
    let (f, rep) = if chunked { ("Transfer-Encoding: chunked", format!("64\r\n{}\r\n", "y".repeat(100)).into_bytes()) } else { ("Content-Length: 1000000000000", b"y".to_vec()) };
    supply(&s.io, format!("POST / HTTP/1.1\r\n{f}\r\n\r\n"), rep, 4096, PLENTY);
    s.w.max_steps = 100_000;
    s.env.op_limit.set(1_000_000);
    let livelock = s.w.run() == RunEnd::StepLimit;
    let m = max.unwrap_or(DEFAULT_MAX);
    let n = s.io.s.borrow().nread;
    let d = format!("max {max:?} transport takes {take}: {n} bytes read, result {:?}", s.result.borrow());
    if livelock {
        return viol("livelock", d);
    }
    // read buffer + one frame in the body + write buffer + one frame
    if n > (take + 6 * m + 8192) * 107 / 100 {
        return viol("echo buffers without bound", d);
    }
    if s.io.out().len() != take {
        return viol("does not write what the transport would take", d);
    }
    Ok(n as u64 / 4096)
}

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    let few = IoPolicy { read: Cuts::Few, ..IO_ALL };
    let b = tier.pick(1, 2);
    let maxes = [Some(8192), Some(8193), Some(20_000), None];
    for f in [Flood::Line, Flood::Value, Flood::Name, Flood::Lines, Flood::Empty, Flood::Ext, Flood::Exts, Flood::Trailer, Flood::Trailers] {
        for max in maxes {
            for piece in [1usize, 100, 1000, 4096, 8192, 65536] {
                if piece < 100 && max.is_none() {
                    continue;
                }
                let bb = if piece <= 100 { 0 } else if max.is_none() { b - 1 } else { b };
                sc.push(scenario(format!("flood/server/{f:?}/{}/{piece}", max.unwrap_or(0)), bb, move |ch| srv_flood(ch, f, max, piece, few)));
                sc.push(scenario(format!("flood/client/{f:?}/{}/{piece}", max.unwrap_or(0)), bb, move |ch| cli_flood(ch, f, max, piece, few)));
            }
        }
    }
    for server in [true, false] {
        for max in [8192usize, 10_000] {
            for len in [max - 2, max - 1, max, max + 1, max + 2, max + 1000, 2 * max, 2 * max + 1, 4 * max, 9 * max] {
                for piece in [1usize, 100, max - 1, max, 4 * max, 10 * max] {
                    sc.push(scenario(format!("exact/{server}/{max}/{len}/{piece}"), if piece <= 100 { 0 } else { b }, move |ch| exact_head(ch, server, max, len, piece, few)));
                }
            }
        }
    }
    for kind in 0..4u8 {
        for max in [None, Some(1), Some(2), Some(3), Some(99), Some(101), Some(150)] {
            let lim = max.unwrap_or(100);
            let mut ns = vec![0, 1, lim - 1, lim, lim + 1, lim + 2, 2 * lim + 50];
            ns.sort();
            ns.dedup();
            for n in ns {
                sc.push(scenario(format!("count/{kind}/{}/{n}", max.unwrap_or(0)), b, move |ch| header_count(ch, kind, max, n, few)));
            }
        }
    }
    for n in [1usize, 100, 65533, 65534, 65535, 65536, 100_000] {
        sc.push(scenario(format!("target/{n}"), b, move |ch| long_target(ch, n, few)));
    }
    for server in [true, false] {
        for chunk in [None, Some(0), Some(1), Some(100), Some(100_000)] {
            if server && chunk == Some(0) {
                continue;
            }
            for mode in 0..if server { 4u8 } else { 2 } {
                if mode == 3 && chunk.is_some() {
                    continue;
                }
                for k in [0usize, 1, 2, 5] {
                    if mode >= 2 && k > 0 || mode == 1 && !server && k > 0 {
                        continue;
                    }
                    for max in maxes {
                        for piece in [100usize, 4096, 65536] {
                            let x = Hold { server, chunk, k, mode, max, piece };
                            let bb = if max.is_none() { b.saturating_sub(1) } else { b };
                            sc.push(scenario(format!("hold/{x:?}"), bb, move |ch| hold(ch, &x, few)));
                        }
                    }
                }
            }
        }
    }
    let pf = IoPolicy { read: Cuts::Never, ..IO_ALL };
    for server in [true, false] {
        for chunk in [1usize, 100, 10_000, 300_000] {
            for exact in [false, true] {
                for max in maxes {
                    for takes in [vec![0usize], vec![10], vec![200], vec![50, 50, 1], vec![9000, 1, 9000], vec![100_000, 1]] {
                        for vectored in [true, false] {
                            if takes.iter().sum::<usize>() > chunk * 10_000 {
                                continue;
                            }
                            let x = Stuck { server, chunk, exact, max, takes: takes.clone(), vectored, pipeline: false };
                            let bb = if chunk == 1 || max.is_none() { b - 1 } else { b };
                            sc.push(scenario(format!("stuck/{x:?}"), bb, move |ch| stuck(ch, &x, pf)));
                        }
                    }
                }
            }
        }
    }
    for chunk in [0usize, 1, 100, 5000] {
        for max in [Some(8192), Some(20_000)] {
            for takes in [vec![0usize], vec![10], vec![500], vec![50, 50, 1], vec![9000, 1, 9000]] {
                for vectored in [true, false] {
                    let x = Stuck { server: true, chunk, exact: false, max, takes: takes.clone(), vectored, pipeline: true };
                    sc.push(scenario(format!("stuck/{x:?}"), b, move |ch| stuck(ch, &x, pf)));
                }
            }
        }
    }
    for max in maxes {
        for take in [0usize, 1, 100, 20_000] {
            for chunked in [false, true] {
                sc.push(scenario(format!("echo/{}/{take}/{chunked}", max.unwrap_or(0)), if max.is_none() { b - 1 } else { b }, move |ch| echo(ch, max, take, chunked, pf)));
            }
        }
    }
    Check {
        id: "C14",
        scenarios: sc,
        rule: "Sources that never run dry (heads, lines, chunk metadata, bodies, pipelines), consumers that stop after every small number of frames and transports that stop taking after several amounts; heads, header counts and targets at every length around their limits; all under every schedule and transport answer within the bound. What was read, pulled and answered at quiescence is compared with the configured limits.".into(),
        assumptions: vec!["'bounded' is taken as twice the configured buffer size plus one delivery: buffers may be grown in powers of two".into()],
    }
}
