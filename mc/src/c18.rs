//! C18: HTTP/2 exchanges are delivered faithfully under every schedule.
//!
//! hyper's client and hyper's server over one pipe; every byte that crosses is also read by an independent reader.

use crate::core::*;
use crate::h1cli::{call, Call, Outcome, Take};
use crate::h1srv::{Beh, Consume, RespSpec};
use crate::h2ref::Reader;
use crate::h2w::*;
use crate::world::*;

#[derive(Clone)]
pub struct X {
    pub calls: Vec<Call>,
    pub behs: Vec<Beh>,
    pub c: Win,
    pub s: Win,
    pub pol: IoPolicy,
    /// the callers start when both sides know each other's settings
    pub warm: bool,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Win {
    pub stream: Option<u32>,
    pub conn: Option<u32>,
    pub max_streams: Option<u32>,
    pub send_buf: Option<usize>,
    pub frame: Option<u32>,
    pub adaptive: bool,
    pub init_send: Option<usize>,
    pub table: Option<u32>,
    pub list: Option<u32>,
}
pub fn cwin(w: Win) -> CTweak {
    ct(move |b, e| {
        b.timer(VTimer::new(e));
        if let Some(n) = w.stream {
            b.initial_stream_window_size(n);
        }
        if let Some(n) = w.conn {
            b.initial_connection_window_size(n);
        }
        if let Some(n) = w.send_buf {
            b.max_send_buf_size(n);
        }
        if let Some(n) = w.frame {
            b.max_frame_size(n);
        }
        if let Some(n) = w.init_send {
            b.initial_max_send_streams(n);
        }
        if let Some(n) = w.table {
            b.header_table_size(n);
        }
        if let Some(n) = w.list {
            b.max_header_list_size(n);
        }
        if w.adaptive {
            b.adaptive_window(true);
        }
    })
}
pub fn swin(w: Win) -> STweak {
    st(move |b, e| {
        b.timer(VTimer::new(e));
        if let Some(n) = w.stream {
            b.initial_stream_window_size(n);
        }
        if let Some(n) = w.conn {
            b.initial_connection_window_size(n);
        }
        if let Some(n) = w.send_buf {
            b.max_send_buf_size(n);
        }
        if let Some(n) = w.frame {
            b.max_frame_size(n);
        }
        if let Some(n) = w.max_streams {
            b.max_concurrent_streams(n);
        }
        if let Some(n) = w.list {
            b.max_header_list_size(n);
        }
        if w.adaptive {
            b.adaptive_window(true);
        }
    })
}
fn hdr<'a>(h: &'a [(String, Vec<u8>)], n: &str) -> Vec<&'a [u8]> {
    h.iter().filter(|x| x.0 == n).map(|x| &x.1[..]).collect()
}
fn trailers_are(got: &Option<Vec<(String, Vec<u8>)>>, want: &Option<Vec<(&'static str, &'static str)>>) -> bool {
    let w: Vec<(String, Vec<u8>)> = want.clone().unwrap_or_default().iter().map(|(a, b)| (a.to_string(), b.as_bytes().to_vec())).collect();
    let g = got.clone().unwrap_or_default();
    w == g
}
/// Frames that must not appear in an undisturbed exchange.
pub fn disturbed(r: &Reader, who: &str) -> Result<(), Viol> {
    for (id, s) in &r.streams {
        if !s.late.is_empty() {
            return viol(format!("{who} wrote {} on a stream it had finished", s.late[0].split(' ').next().unwrap()), format!("stream {id}: {:?}", s.late));
        }
    }
    Ok(())
}
/// `x.calls[i]` goes to path `/../i`; returns the whole check of one undisturbed execution.
pub fn run(ch: &Ch, x: &X) -> ExecResult {
    let mut h = H2::pair(ch, x.pol, cwin(x.c), swin(x.s), x.behs.clone());
    if x.warm {
        h.w.run();
    }
    for c in &x.calls {
        h.caller(c.clone());
    }
    h.w.run();
    h.sync();
    h.contract()?;
    for (i, c) in x.calls.iter().enumerate() {
        if h.outcome(i) == Outcome::Pending || !h.calls.borrow()[i].done {
            return viol("an exchange never completed", format!("call {i} is stuck\n{}", h.summary()));
        }
        if h.outcome(i) != Outcome::Resp {
            return viol(format!("an undisturbed exchange failed: {:?}", h.outcome(i)).chars().take(80).collect::<String>(), h.summary());
        }
        let reqs = h.reqs.borrow();
        let mine: Vec<_> = reqs.iter().filter(|r| r.uri == c.uri).collect();
        if mine.len() != 1 {
            return viol("a request did not arrive exactly once", format!("{} arrived {} times\n{}", c.uri, mine.len(), h.summary()));
        }
        let r = mine[0];
        if r.method != c.method {
            return viol("request method changed", h.summary());
        }
        let k = c.uri.bytes().last().unwrap() as usize - b'0' as usize;
        let beh = &x.behs[k];
        let reads = matches!(beh.consume, Consume::Full | Consume::Spawned | Consume::SpawnedLate);
        for (n, v) in &c.headers {
            if *n != "host" && !hdr(&r.headers, n).contains(v) {
                return viol("a request header was lost", format!("{n}\n{}", h.summary()));
            }
        }
        if reads {
            let g = r.got.borrow();
            if g.end != End::Clean || g.data != c.body.data() || !trailers_are(&g.trailers, &c.body.trailers()) {
                return viol("request body not delivered faithfully", format!("{} sent {} bytes, trailers {:?}\n{}", c.uri, c.body.data().len(), c.body.trailers(), h.summary()));
            }
        }
        let q = h.calls.borrow();
        let q = &q[i];
        if q.status != beh.resp.status {
            return viol("response status changed", h.summary());
        }
        for (n, v) in &beh.resp.headers {
            if !hdr(&q.headers, n).contains(v) {
                return viol("a response header was lost or crossed over", format!("{n} at {}\n{}", c.uri, h.summary()));
            }
        }
        let echo = beh.consume == Consume::Echo;
        let bodyless = c.method == "HEAD" || matches!(beh.resp.status, 204 | 304);
        let (want, wt) = if bodyless {
            (vec![], None)
        } else if echo {
            (c.body.data(), c.body.trailers())
        } else {
            (beh.resp.body.data(), beh.resp.body.trailers())
        };
        if matches!(c.take, Take::Full | Take::Late) {
            let g = q.got.borrow();
            if g.end != End::Clean || g.data != want || !trailers_are(&g.trailers, &wt) {
                return viol("response body not delivered faithfully", format!("{}: want {} bytes, trailers {wt:?}\n{}", c.uri, want.len(), h.summary()));
            }
        }
    }
    if h.reqs.borrow().len() != x.calls.len() {
        return viol("a request did not arrive exactly once", h.summary());
    }
    // nothing is reset in undisturbed exchanges whose bodies are read
    let all_read = x.calls.iter().all(|c| matches!(c.take, Take::Full | Take::Late)) && x.behs.iter().all(|b| matches!(b.consume, Consume::Full | Consume::Spawned | Consume::SpawnedLate | Consume::Echo));
    if all_read {
        for (who, r) in [("client", &h.cw), ("server", &h.sw)] {
            disturbed(&r.borrow(), who)?;
            if r.borrow().streams.values().any(|s| s.rst.is_some()) {
                return viol(format!("{who} reset an undisturbed stream"), h.summary());
            }
        }
    }
    // and then both connections come to an end
    h.drop_sender();
    h.w.run();
    h.sync();
    h.contract()?;
    let (c, s) = (h.cres.borrow().clone(), h.sres.borrow().clone());
    if c != Some(Ok(())) || s != Some(Ok(())) {
        return viol(format!("after the last sender is gone: client {c:?} server {s:?}").chars().take(150).collect::<String>(), h.summary());
    }
    let left: Vec<String> = h.w.unfinished().into_iter().filter(|n| n.starts_with("c-") || n.starts_with("s-")).collect();
    if !left.is_empty() {
        return viol(format!("left running after the end: {}", left.join(",")), h.summary());
    }
    Ok(h.fp())
}
pub fn b(steps: Vec<BStep>, hint: Hint, eos: bool) -> BodySpec {
    BodySpec { steps, hint, eos }
}
pub fn d(s: &str) -> BStep {
    BStep::Data(s.as_bytes().to_vec())
}
pub fn big(n: usize, seed: u8) -> BStep {
    BStep::Data((0..n).map(|i| (i % 251) as u8 ^ seed).collect())
}
pub fn path(i: usize) -> String {
    format!("http://h/p/{i}")
}
pub fn req(i: usize, body: BodySpec) -> Call {
    let mut c = call(if body.steps.is_empty() { "GET" } else { "POST" }, &path(i)).body(body);
    c.headers = vec![];
    c.header("x-req", ["a", "b", "c", "d"][i % 4])
}
pub fn resp(i: usize, body: BodySpec) -> Beh {
    let mut r = RespSpec::ok("");
    r.body = body;
    r.headers = vec![("x-resp", [&b"a"[..], b"b", b"c", b"d"][i % 4])];
    Beh::simple("").resp(r)
}
/// Bodies of many shapes.
pub fn shapes() -> Vec<BodySpec> {
    vec![
        BodySpec::empty(),
        BodySpec::full(b"hello"),
        BodySpec::stream(&["one", "", "three"]),
        b(vec![d("ab"), BStep::Pending, d("cd"), BStep::Trailers(vec![("x-t", "1"), ("x-t", "2")])], Hint::Unknown, false),
        b(vec![BStep::Trailers(vec![("x-t", "only")])], Hint::Unknown, false),
        b(vec![BStep::Pending, d("late")], Hint::Exact, true),
        b(vec![], Hint::Unknown, false),
        b(vec![d("")], Hint::Unknown, true),
        b(vec![BStep::Pending], Hint::Unknown, false),
        b(vec![d("abcdefgh"), d("ijklmnop"), BStep::Pending], Hint::Range, true),
        b(vec![d("")], Hint::Exact, false),
        b(vec![d("12"), d("")], Hint::Exact, true),
    ]
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let tiny = Win { stream: Some(4), ..Default::default() };
    // every pair of body shapes, with and without tiny windows
    for (ws, w) in [("plain", Win::default()), ("tiny-window", tiny), ("adaptive", Win { adaptive: true, ..Default::default() })] {
        for c in [Consume::Full, Consume::Spawned, Consume::Echo] {
            let sh = shapes();
            let n = sh.len();
            let c2 = c.clone();
            sc.push(scenario(format!("shapes/{ws}/{c:?}"), t.pick(1, 2), move |ch| {
                let i = ch.free(n, "request body");
                let j = if c2 == Consume::Echo { 0 } else { ch.free(n, "response body") };
                let x = X { calls: vec![req(0, sh[i].clone())], behs: vec![resp(0, sh[j].clone()).consume(c2.clone())], c: w, s: w, pol: IO_FEW, warm: w.stream.is_some() };
                run(ch, &x)
            }));
        }
    }
    // bodiless answers whatever the body says
    sc.push(scenario("bodiless", t.pick(1, 2), move |ch| {
        let mut c = req(0, BodySpec::empty());
        let mut be = resp(0, BodySpec::full(b"ignored"));
        match ch.free(4, "kind") {
            0 => {
                c.method = "HEAD";
                be.resp.headers.push(("content-length", b"7"));
                be.resp.body = BodySpec::empty();
            }
            1 => {
                c.method = "HEAD";
                be.resp.body = BodySpec::empty();
            }
            2 => {
                be.resp.status = 204;
                be.resp.body = BodySpec::empty();
            }
            _ => {
                be.resp.status = 304;
                be.resp.body = BodySpec::empty();
                be.resp.headers.push(("content-length", b"7"));
            }
        }
        run(ch, &X { calls: vec![c], behs: vec![be], c: Win::default(), s: Win::default(), pol: IO_FEW, warm: false })
    }));
    // concurrent streams
    let two = |w: Win, pol: IoPolicy| X {
        calls: vec![
            req(0, b(vec![d("abcdefgh"), BStep::Pending, d("ij"), BStep::Trailers(vec![("x-t", "0")])], Hint::Unknown, false)),
            req(1, BodySpec::full(b"0123456789")),
        ],
        behs: vec![resp(0, BodySpec::full(b"zero-zero")), resp(1, b(vec![d("one"), BStep::Pending, d("-one")], Hint::Unknown, false)).consume(Consume::Spawned)],
        c: w,
        s: w,
        pol,
        warm: w.stream.is_some(),
    };
    for (ws, w) in [
        ("plain", Win::default()),
        ("tiny", tiny),
        ("serial", Win { max_streams: Some(1), init_send: Some(1), ..Default::default() }),
        ("send-buf", Win { send_buf: Some(3), ..Default::default() }),
        ("tiny-serial", Win { stream: Some(3), max_streams: Some(1), init_send: Some(1), send_buf: Some(2), ..Default::default() }),
        ("adaptive", Win { adaptive: true, ..Default::default() }),
        ("no-table", Win { table: Some(0), ..Default::default() }),
    ] {
        let deep = matches!(ws, "plain" | "tiny" | "serial");
        let x = two(w, IO_FEW);
        sc.push(scenario(format!("two/{ws}"), if deep { t.pick(2, 3) } else { t.pick(1, 2) }, move |ch| run(ch, &x)));
    }
    // three requests at a limit of one and two
    for lim in [1u32, 2] {
        let w = Win { max_streams: Some(lim), init_send: Some(lim as usize), stream: Some(6), ..Default::default() };
        let x = X {
            calls: (0..3).map(|i| req(i, if i == 1 { BodySpec::empty() } else { BodySpec::full(b"some-body") })).collect(),
            behs: (0..3).map(|i| resp(i, BodySpec::full(["r0", "r1-r1-r1-r1", "r2"][i].as_bytes())).consume([Consume::Full, Consume::Full, Consume::Echo][i].clone())).collect(),
            c: w,
            s: w,
            pol: IO_FEW,
            warm: w.stream.is_some(),
        };
        sc.push(scenario(format!("three/limit{lim}"), t.pick(1, 2), move |ch| run(ch, &x)));
    }
    // more than a connection window in both directions, with slow readers
    for late in [false, true] {
        let w = Win { stream: Some(50_000), conn: Some(65_535), ..Default::default() };
        let big2 = |s: u8| b(vec![big(40_000, s), big(30_000, s + 1)], Hint::Unknown, false);
        let mut x = X {
            calls: vec![req(0, big2(1)), req(1, big2(3))],
            behs: vec![resp(0, big2(5)), resp(1, big2(7))],
            c: w,
            s: w,
            pol: IO_PLAIN,
            warm: true,
        };
        if late {
            x.behs[0].consume = Consume::SpawnedLate;
            x.calls[1].take = Take::Late;
        }
        sc.push(scenario(format!("windows/{}", if late { "late" } else { "eager" }), t.pick(1, 2), move |ch| run(ch, &x)));
    }
    // header blocks bigger than a frame
    {
        let w = Win { list: Some(100_000), ..Default::default() };
        static LONG: [u8; 20_000] = [b'v'; 20_000];
        let mut c = req(0, BodySpec::full(b"x"));
        c.headers.push(("x-long", &LONG));
        let mut be = resp(0, BodySpec::full(b"y"));
        be.resp.headers.push(("x-longer", &LONG));
        let x = X { calls: vec![c], behs: vec![be], c: w, s: w, pol: IO_FEW, warm: w.stream.is_some() };
        sc.push(scenario("big-heads", t.pick(1, 2), move |ch| run(ch, &x)));
    }
    // requests issued one after the other on the same connection
    {
        let x = X {
            calls: vec![req(0, BodySpec::full(b"abc")), req(1, BodySpec::empty()).after(1), req(2, BodySpec::stream(&["x", "y"])).after(2)],
            behs: vec![resp(0, BodySpec::full(b"0")), resp(1, BodySpec::stream(&["1", "1"])), resp(2, BodySpec::empty())],
            c: tiny,
            s: Win::default(),
            pol: IO_FEW,
            warm: false,
        };
        sc.push(scenario("sequence", t.pick(1, 2), move |ch| run(ch, &x)));
    }
    Check {
        id: "C18",
        scenarios: sc,
        rule: "hyper's client connected to hyper's server over a scripted pipe; every schedule of tasks, blocked and short transport operations and body wake-ups within the deviation bound, over every pair of twelve body shapes, window sizes, stream limits, send buffer sizes and concurrent exchanges".into(),
        assumptions: vec!["h2 0.4 as vendored".into(), "single-threaded interleaving at poll granularity".into()],
    }
}
