//! C01: the request stream is decoded independently of fragmentation.

use crate::core::*;
use crate::h1srv::*;
use crate::world::*;

pub enum BodyIn {
    None,
    Len(&'static str),
    /// chunks with (data, extension), raw trailer lines
    Chunked(&'static [(&'static str, &'static str)], &'static [(&'static str, &'static str)]),
}
pub struct ReqIn {
    pub bytes: Vec<u8>,
    pub expect: String,
}
/// Renders what the service must see, in the same format as `Srv::seen`.
pub fn expect_line(method: &str, target: &str, ver: &str, headers: &[(String, Vec<u8>)], body: &[u8], end: &str, tr: Option<Vec<String>>) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let _ = write!(s, "{method} {target} {ver} [");
    for (n, v) in headers {
        let _ = write!(s, "{}: {}|", n, esc(v));
    }
    let _ = write!(s, "] body={} end={}", esc(body), end);
    if let Some(t) = tr {
        let _ = write!(s, " trailers={:?}", t);
    }
    s.push('\n');
    s
}
pub fn req(method: &str, target: &str, http11: bool, headers: &[(&str, &str)], body: BodyIn) -> ReqIn {
    let ver = if http11 { "HTTP/1.1" } else { "HTTP/1.0" };
    let mut b = format!("{method} {target} {ver}\r\n").into_bytes();
    let mut hs: Vec<(String, Vec<u8>)> = vec![];
    for (n, v) in headers {
        b.extend(format!("{n}: {v}\r\n").bytes());
        hs.push((n.to_ascii_lowercase(), v.trim().as_bytes().to_vec()));
    }
    let mut data = vec![];
    let mut tr = None;
    match body {
        BodyIn::None => b.extend(b"\r\n"),
        BodyIn::Len(d) => {
            b.extend(format!("Content-Length: {}\r\n\r\n{}", d.len(), d).bytes());
            hs.push(("content-length".into(), d.len().to_string().into_bytes()));
            data = d.as_bytes().to_vec();
        }
        BodyIn::Chunked(chunks, trailers) => {
            b.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            hs.push(("transfer-encoding".into(), b"chunked".to_vec()));
            for (c, e) in chunks {
                b.extend(format!("{:x}{}\r\n{}\r\n", c.len(), e, c).bytes());
                data.extend(c.bytes());
            }
            b.extend(b"0\r\n");
            for (n, v) in trailers {
                b.extend(format!("{n}: {v}\r\n").bytes());
            }
            b.extend(b"\r\n");
            if !trailers.is_empty() {
                tr = Some(trailers.iter().map(|(n, v)| format!("{}: {}", n.to_ascii_lowercase(), v)).collect());
            }
        }
    }
    ReqIn { expect: expect_line(method, target, ver, &hs, &data, "Clean", tr), bytes: b }
}

struct Stream {
    name: String,
    bytes: Vec<u8>,
    expect: Vec<String>,
}
fn stream(name: &str, rs: Vec<ReqIn>) -> Stream {
    let mut s = Stream { name: name.into(), bytes: vec![], expect: vec![] };
    for r in rs {
        s.bytes.extend(r.bytes);
        s.expect.push(r.expect);
    }
    s
}
fn prefixed(pre: &[u8], mut s: Stream) -> Stream {
    let mut b = pre.to_vec();
    b.extend(&s.bytes);
    s.bytes = b;
    s
}

fn exec(ch: &Ch, bytes: &[u8], expect: &[String], pol: IoPolicy, mk: &dyn Fn() -> SrvCfg, late: bool) -> ExecResult {
    let mut s = start(ch, mk().pol(pol));
    if late {
        let (io, b) = (s.io.clone(), bytes.to_vec());
        s.env.event("input-arrives", move || io.push(&b));
    } else {
        s.io.push(bytes);
    }
    let e1 = s.w.run();
    s.io.push_eof();
    let e2 = s.w.run();
    if e1 == RunEnd::StepLimit || e2 == RunEnd::StepLimit {
        return viol("livelock", "scheduler step limit reached");
    }
    let seen = s.seen();
    let want = expect.concat();
    if seen != want {
        return viol("request stream", format!("service saw:\n{seen}expected:\n{want}"));
    }
    let rs = s.responses();
    if rs.msgs.len() != expect.len() || rs.tail != crate::h1ref::Tail::Clean {
        return viol("responses", format!("{} responses expected, wire: {:?}", expect.len(), esc(&s.io.out())));
    }
    for (i, (_, m)) in rs.msgs.iter().enumerate() {
        if m.a != "200" || m.body != format!("r{i}").as_bytes() {
            return viol("responses", format!("response {i} is {:?}", m));
        }
    }
    match &*s.result.borrow() {
        Some(Ok(())) => {}
        r => return viol("connection result", format!("connection ended with {r:?}")),
    }
    Ok(mix(hash_bytes(seen.as_bytes()), hash_bytes(&s.io.out().iter().copied().filter(|c| *c != b' ').take(30).collect::<Vec<_>>())))
}

pub fn check(tier: Tier) -> Check {
    use BodyIn::*;
    let mut streams = vec![
        stream("get", vec![req("GET", "/a?b=c", true, &[("Host", "h")], None)]),
        stream("get10", vec![req("GET", "/", false, &[], None)]),
        stream("post-len", vec![req("POST", "/p", true, &[("Host", "h")], Len("hello"))]),
        stream("post-len10", vec![req("POST", "/p", false, &[], Len("hi"))]),
        stream("post-len0", vec![req("POST", "/p", true, &[], Len("")), req("GET", "/x", true, &[], None)]),
        stream("chunked", vec![req("POST", "/c", true, &[], Chunked(&[("abc", ""), ("defg", "")], &[]))]),
        stream("chunked-ext", vec![req("PUT", "/c", true, &[], Chunked(&[("abcdefghijkl", ";x=y"), ("d", " ;q=\"1\"")], &[]))]),
        stream("chunked-tr", vec![req("POST", "/c", true, &[], Chunked(&[("ab", "")], &[("X-T", "1"), ("Y", "22")])), req("GET", "/n", true, &[], None)]),
        stream("chunked-empty", vec![req("POST", "/c", true, &[], Chunked(&[], &[])), req("GET", "/n", true, &[], None)]),
        stream("pipe-get3", vec![req("GET", "/1", true, &[], None), req("GET", "/2", true, &[("A", "b")], None), req("GET", "/3", true, &[], None)]),
        stream("pipe-len-len", vec![req("POST", "/1", true, &[], Len("GET / HTTP/1.1\r\n\r\n")), req("POST", "/2", true, &[], Len("xy")), req("GET", "/3", true, &[], None)]),
        stream("pipe-chunk-len", vec![req("POST", "/1", true, &[], Chunked(&[("0\r\n\r\n", ""), ("GET /", "")], &[])), req("POST", "/2", true, &[], Len("tail"))]),
        stream("pipe-10ka", vec![req("GET", "/1", false, &[("Connection", "keep-alive")], None), req("GET", "/2", false, &[("Connection", "keep-alive")], None)]),
        stream("methods", vec![req("DELETE", "*", true, &[], None), req("M-SEARCH", "/x", true, &[], None), req("OPTIONS", "*", true, &[], None)]),
        stream("absolute", vec![req("GET", "http://ex.com:80/p?q", true, &[("Host", "ex.com")], None), req("GET", "/%20;a", true, &[], None)]),
        stream("hdrs", vec![req("GET", "/", true, &[("A", ""), ("B", "  x  "), ("a", "2"), ("Long-Name-Here", "v:w, z")], Len("q"))]),
        prefixed(b"\r\n\r\n", stream("leading-crlf", vec![req("GET", "/l", true, &[], None), req("GET", "/m", true, &[], None)])),
        prefixed(b"\n", stream("leading-lf", vec![req("POST", "/l", true, &[], Len("abc"))])),
    ];
    // headers grouped per name: the map yields repeated names together
    for s in streams.iter_mut() {
        if s.name == "hdrs" {
            s.expect = vec!["GET / HTTP/1.1 [a: |a: 2|b: x|long-name-here: v:w, z|content-length: 1|] body=q end=Clean\n".into()];
        }
    }
    // LF-only line ends are accepted by the parser: same meaning
    streams.push(Stream {
        name: "lf-only".into(),
        bytes: b"GET /lf HTTP/1.1\nA: b\n\nPOST /2 HTTP/1.1\ncontent-length: 2\n\nxyGET /3 HTTP/1.1\r\nB: c\n\r\n".to_vec(),
        expect: vec![
            "GET /lf HTTP/1.1 [a: b|] body= end=Clean\n".into(),
            "POST /2 HTTP/1.1 [content-length: 2|] body=xy end=Clean\n".into(),
            "GET /3 HTTP/1.1 [b: c|] body= end=Clean\n".into(),
        ],
    });
    // body larger than one read, crossing buffer boundaries
    let big: &'static str = Box::leak("0123456789abcdef".repeat(700).into_boxed_str());
    let bigs = vec![
        stream("big-len", vec![req("POST", "/b", true, &[], Len(big)), req("GET", "/after", true, &[], None)]),
        stream("big-chunk", vec![req("POST", "/b", true, &[], Chunked(Box::leak(Box::new([(big, ""), ("x", "")])), &[])), req("GET", "/after", true, &[], None)]),
        stream("big-head", vec![req("GET", "/b", true, &[("A", &big[..9000])], None), req("GET", "/after", true, &[], None)]),
    ];

    let mut sc = vec![];
    let nresp = |n: usize| -> Vec<Beh> { (0..n).map(|i| Beh::simple(&format!("r{i}"))).collect() };
    for s in &streams {
        let n = s.expect.len();
        for (variant, late, flush, delay) in
            [("plain", false, false, false), ("late", true, false, false), ("pflush", false, true, false), ("delayed", false, false, true)]
        {
            // bound 2 everywhere: every pair of cuts/stalls
            let bound = match (tier, variant) {
                (Tier::Quick, "plain") => 2,
                (Tier::Quick, _) => 1,
                (Tier::Thorough, _) => 2,
            };
            let (bytes, expect) = (s.bytes.clone(), s.expect.clone());
            sc.push(scenario(format!("{}/{variant}", s.name), bound, move |ch| {
                let mk = || {
                    let mut v = nresp(n);
                    if delay {
                        v.iter_mut().for_each(|b| b.delay = true);
                    }
                    SrvCfg::new(v).tweak(move |b, _| {
                        b.pipeline_flush(flush);
                    })
                };
                exec(ch, &bytes, &expect, IO_ALL, &mk, late)
            }));
        }
        if tier.thorough() {
            let (bytes, expect) = (s.bytes.clone(), s.expect.clone());
            sc.push(scenario(format!("{}/cuts3", s.name), 3, move |ch| {
                let pol = IoPolicy { read: Cuts::All, read_pending: true, ..IO_PLAIN };
                let mk = || SrvCfg::new(nresp(n));
                exec(ch, &bytes, &expect, pol, &mk, false)
            }));
        }
        // constant drip sizes, blocked or not, combined with one more deviation
        let (bytes, expect) = (s.bytes.clone(), s.expect.clone());
        sc.push(scenario(format!("{}/drip", s.name), 1, move |ch| {
            let k = [1, 2, 3, 5, 7, 16][ch.free(6, "drip size")];
            let block = ch.free(2, "drip blocks") == 1;
            let pol = IoPolicy { drip: k, drip_block: block, read: Cuts::Never, ..IO_ALL };
            let mk = || SrvCfg::new(nresp(n));
            exec(ch, &bytes, &expect, pol, &mk, false)
        }));
    }
    for s in &bigs {
        let n = s.expect.len();
        let (bytes, expect) = (s.bytes.clone(), s.expect.clone());
        sc.push(scenario(format!("{}/few", s.name), tier.pick(1, 2), move |ch| {
            let k = [0, 1000, 4096, 8191, 8192, 8193][ch.free(6, "drip size")];
            let block = ch.free(2, "drip blocks") == 1;
            let pol = IoPolicy { drip: k, drip_block: block && k > 0, ..IO_FEW };
            let mk = || SrvCfg::new(nresp(n));
            exec(ch, &bytes, &expect, pol, &mk, false)
        }));
    }
    Check {
        id: "C01",
        scenarios: sc,
        rule: "Every read may be answered with every shorter length (then immediately or after an event), or block first; writes, flushes and shutdown may block or be short. The service must see exactly the requests the generator encoded, and answers must come back in order.".into(),
        assumptions: vec!["request corpus is finite; header grammar beyond it is httparse's".into()],
    }
}
