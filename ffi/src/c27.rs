//! C27: the C API.
//!
//! The harness is a C client: it owns an executor, polls it until it returns NULL, then acts on one event (bytes
//! arrive, a stored waker is woken).  The read, write and request-body callbacks answer what the explorer says.
//! Everything returned is compared with what the peer's script says, and at the end of every execution the number
//! of live bytes is what it was at the start.
use crate::core::*;
use hyper::ffi::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{c_int, c_void};
use std::ptr;

/// The explorer, with its own allocations kept out of the balance.
struct Cx {
    ch: Ch,
    own: Cell<i64>,
}
impl Cx {
    fn out<T>(&self, f: impl FnOnce(&Ch) -> T) -> T {
        let b = live_bytes();
        let r = f(&self.ch);
        self.own.set(self.own.get() + live_bytes() - b);
        r
    }
    fn dev(&self, n: usize, l: &str) -> usize {
        self.out(|c| c.dev(n, l))
    }
    fn free(&self, n: usize, l: &str) -> usize {
        self.out(|c| c.free(n, l))
    }
    fn step(&self, v: u64) {
        self.out(|c| c.step(v))
    }
    fn log(&self, f: impl FnOnce() -> String) {
        self.out(|c| c.log(f))
    }
}

type Hdr = (Vec<u8>, Vec<u8>);

// ---------------------------------------------------------------- the header map, as documented

#[derive(Clone, Default)]
struct RefHeaders {
    /// in insertion order; `set` keeps the place of the first entry of the name
    e: Vec<Hdr>,
}
impl RefHeaders {
    fn same(a: &[u8], b: &[u8]) -> bool {
        a.eq_ignore_ascii_case(b)
    }
    fn add(&mut self, n: &[u8], v: &[u8]) {
        self.e.push((n.to_vec(), v.to_vec()));
    }
    fn set(&mut self, n: &[u8], v: &[u8]) {
        if let Some(i) = self.e.iter().position(|x| Self::same(&x.0, n)) {
            self.e[i] = (n.to_vec(), v.to_vec());
            let mut k = 0;
            self.e.retain(|x| {
                k += 1;
                k - 1 <= i || !Self::same(&x.0, n)
            });
        } else {
            self.add(n, v);
        }
    }
    /// names in order of first appearance, the values of a name together and in order
    fn grouped(&self) -> Vec<Hdr> {
        let mut out: Vec<Hdr> = vec![];
        let mut seen: Vec<&[u8]> = vec![];
        for (n, _) in &self.e {
            if seen.iter().any(|s| Self::same(s, n)) {
                continue;
            }
            seen.push(n);
            out.extend(self.e.iter().filter(|x| Self::same(&x.0, n)).cloned());
        }
        out
    }
}

fn show(h: &[Hdr]) -> String {
    h.iter().map(|(n, v)| format!("{}: {}", esc(n), esc(v))).collect::<Vec<_>>().join(" | ")
}

struct Collect {
    got: Vec<Hdr>,
    stop: usize,
    extra: bool,
}
extern "C" fn collect(ud: *mut c_void, n: *const u8, nl: usize, v: *const u8, vl: usize) -> c_int {
    let c = unsafe { &mut *(ud as *mut Collect) };
    if c.got.len() >= c.stop {
        c.extra = true;
        return HYPER_ITER_BREAK;
    }
    let s = |p: *const u8, l: usize| if l == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, l) }.to_vec() };
    c.got.push((s(n, nl), s(v, vl)));
    if c.got.len() >= c.stop {
        HYPER_ITER_BREAK
    } else {
        HYPER_ITER_CONTINUE
    }
}
fn foreach(h: *const hyper_headers, stop: usize) -> (Vec<Hdr>, bool) {
    let mut c = Collect { got: vec![], stop, extra: false };
    hyper_headers_foreach(h, collect, &mut c as *mut _ as *mut c_void);
    (c.got, c.extra)
}
fn code(c: hyper_code) -> u32 {
    c as u32
}
const OK: u32 = 0;
const INVALID: u32 = 2;
const EOF_ERR: u32 = 3;
const ABORTED: u32 = 4;
const PEER: u32 = 6;

// ---------------------------------------------------------------- the client program

#[derive(Clone, Copy, PartialEq, Debug)]
enum Consume {
    Foreach,
    ForeachBreak,
    Data,
    DataOnceFree,
    FreeBody,
    FreeResp,
}
#[derive(Clone)]
enum BodyKind {
    None,
    /// chunks, then the end
    Chunks(Vec<&'static [u8]>),
    /// chunks, then HYPER_POLL_ERROR
    Fails(Vec<&'static [u8]>),
    /// chunks, then a code that does not exist
    Unknown(Vec<&'static [u8]>),
}
#[derive(Clone)]
struct Req {
    method: &'static str,
    uri: &'static str,
    headers: Vec<(&'static str, &'static str)>,
    body: BodyKind,
    info: bool,
}
#[derive(Clone)]
struct Resp {
    wire: Vec<&'static [u8]>,
    eof: bool,
    infos: Vec<(u16, &'static str, Vec<(&'static str, &'static str)>)>,
    /// Ok: status, version, reason, headers as received, body; Err: the code the send task fails with
    head: Result<(u16, c_int, &'static str, Vec<(&'static str, &'static str)>), Option<u32>>,
    body: Result<&'static [u8], ()>,
    /// sent as soon as the request head is complete
    early: bool,
}
#[derive(Clone)]
struct Cfg {
    case: bool,
    order: bool,
    multiline: bool,
    free_conn_early: bool,
    consume: Consume,
    ex: Vec<(Req, Resp)>,
    /// free everything in this many rounds
    stop: bool,
    write_err: bool,
    read_err: bool,
}

struct W {
    cx: Cx,
    inbox: VecDeque<u8>,
    eof: bool,
    segs: VecDeque<Vec<u8>>,
    eof_after: bool,
    out: Vec<u8>,
    rw: *mut hyper_waker,
    ww: *mut hyper_waker,
    bw: *mut hyper_waker,
    io_closed: bool,
    bad: Option<(String, String)>,
    chunks: VecDeque<Vec<u8>>,
    end: c_int,
    body_done: bool,
    seen: Vec<u8>,
    brk: bool,
    after_break: bool,
    infos: Vec<(u16, Vec<u8>, Vec<Hdr>)>,
    werr_at: usize,
    writes: usize,
    rerr: bool,
    self_wakes: u32,
}
impl W {
    fn fail(&mut self, sig: &str, m: String) {
        if self.bad.is_none() {
            self.bad = Some((sig.to_string(), m));
        }
    }
}
fn w<'a>(p: *mut c_void) -> &'a mut W {
    unsafe { &mut *(p as *mut W) }
}
fn keep(slot: &mut *mut hyper_waker, cx: *mut hyper_context<'_>) {
    if !slot.is_null() {
        hyper_waker_free(*slot);
    }
    *slot = hyper_context_waker(cx);
}
extern "C" fn read_cb(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *mut u8, len: usize) -> usize {
    let s = w(ud);
    if s.io_closed {
        s.fail("io used after free", "the read callback was called after the connection was freed".into());
    }
    if len == 0 {
        s.fail("empty read", "the read callback was given no room".into());
    }
    if s.inbox.is_empty() {
        if s.rerr {
            return HYPER_IO_ERROR;
        }
        if s.eof {
            return 0;
        }
        keep(&mut s.rw, cx);
        return HYPER_IO_PENDING;
    }
    let n = match s.cx.dev(4, "read") {
        0 => s.inbox.len().min(len),
        1 => 1,
        2 => {
            s.self_wakes += 1;
            hyper_waker_wake(hyper_context_waker(cx));
            return HYPER_IO_PENDING;
        }
        _ => {
            keep(&mut s.rw, cx);
            return HYPER_IO_PENDING;
        }
    };
    for i in 0..n {
        unsafe { *buf.add(i) = s.inbox.pop_front().unwrap() };
    }
    n
}
extern "C" fn write_cb(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *const u8, len: usize) -> usize {
    let s = w(ud);
    if s.io_closed {
        s.fail("io used after free", "the write callback was called after the connection was freed".into());
    }
    s.writes += 1;
    if s.werr_at == s.writes {
        return HYPER_IO_ERROR;
    }
    let n = match s.cx.dev(4, "write") {
        0 => len,
        1 => len.min(1),
        2 => {
            s.self_wakes += 1;
            hyper_waker_wake(hyper_context_waker(cx));
            return HYPER_IO_PENDING;
        }
        _ => {
            keep(&mut s.ww, cx);
            return HYPER_IO_PENDING;
        }
    };
    let b = unsafe { std::slice::from_raw_parts(buf, n) };
    s.out.extend_from_slice(b);
    n
}
extern "C" fn body_cb(ud: *mut c_void, cx: *mut hyper_context<'_>, out: *mut *mut hyper_buf) -> c_int {
    let s = w(ud);
    if s.body_done {
        s.fail("body polled after its end", "the data callback was called after it had said it was done".into());
    }
    match s.cx.dev(3, "body") {
        0 => {}
        1 => {
            keep(&mut s.bw, cx);
            return HYPER_POLL_PENDING;
        }
        _ => {
            s.self_wakes += 1;
            hyper_waker_wake(hyper_context_waker(cx));
            return HYPER_POLL_PENDING;
        }
    }
    match s.chunks.pop_front() {
        Some(c) => {
            unsafe { *out = hyper_buf_copy(c.as_ptr(), c.len()) };
            HYPER_POLL_READY
        }
        None => {
            s.body_done = true;
            s.end
        }
    }
}
fn buf_bytes(b: *const hyper_buf) -> Vec<u8> {
    let n = hyper_buf_len(b);
    if n == 0 {
        vec![]
    } else {
        unsafe { std::slice::from_raw_parts(hyper_buf_bytes(b), n) }.to_vec()
    }
}
extern "C" fn chunk_cb(ud: *mut c_void, b: *const hyper_buf) -> c_int {
    let s = w(ud);
    if s.after_break {
        s.fail("foreach after break", "the callback was called again after it had said stop".into());
    }
    let d = buf_bytes(b);
    s.seen.extend_from_slice(&d);
    if s.brk {
        s.after_break = true;
        return HYPER_ITER_BREAK;
    }
    HYPER_ITER_CONTINUE
}
extern "C" fn info_cb(ud: *mut c_void, r: *mut hyper_response) {
    let s = w(ud);
    let st = hyper_response_status(r);
    let rp = reason(r);
    let (h, _) = foreach(hyper_response_headers(r), usize::MAX);
    s.infos.push((st, rp, h));
}
fn reason(r: *const hyper_response) -> Vec<u8> {
    let n = hyper_response_reason_phrase_len(r);
    if n == 0 {
        vec![]
    } else {
        unsafe { std::slice::from_raw_parts(hyper_response_reason_phrase(r), n) }.to_vec()
    }
}

fn ty(t: *mut hyper_task) -> u32 {
    hyper_task_type(t) as u32
}
const T_EMPTY: u32 = 0;
const T_ERROR: u32 = 1;
const T_CONN: u32 = 2;
const T_RESP: u32 = 3;
const T_BUF: u32 = 4;

/// What a request looks like on the wire once it is complete; `None` while it is not.
fn parse_req(b: &[u8]) -> Result<Option<(String, Vec<Hdr>, Vec<u8>, usize, bool)>, String> {
    let Some(e) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok(None) };
    let mut lines = b[..e].split(|c| *c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap_or(b"")).to_string();
    let mut hs = vec![];
    for l in lines {
        let i = l.iter().position(|c| *c == b':').ok_or("header line without a colon")?;
        hs.push((l[..i].to_vec(), l[i + 1..].strip_prefix(b" ").unwrap_or(&l[i + 1..]).to_vec()));
    }
    let get = |n: &str| hs.iter().find(|h| h.0.eq_ignore_ascii_case(n.as_bytes())).map(|h| String::from_utf8_lossy(&h.1).to_string());
    let rest = &b[e + 4..];
    if let Some(t) = get("transfer-encoding") {
        if t != "chunked" {
            return Err(format!("transfer-encoding {t}"));
        }
        let mut body = vec![];
        let mut p = 0;
        loop {
            let Some(i) = rest[p..].windows(2).position(|w| w == b"\r\n") else { return Ok(Some((first, hs, body, 0, false))) };
            let n = usize::from_str_radix(std::str::from_utf8(&rest[p..p + i]).unwrap_or("?"), 16).map_err(|_| "bad chunk size")?;
            p += i + 2;
            if rest.len() < p + n + 2 {
                return Ok(Some((first, hs, body, 0, false)));
            }
            body.extend_from_slice(&rest[p..p + n]);
            if &rest[p + n..p + n + 2] != b"\r\n" {
                return Err("chunk not followed by a line end".into());
            }
            p += n + 2;
            if n == 0 {
                return Ok(Some((first, hs, body, e + 4 + p, true)));
            }
        }
    }
    let n: usize = get("content-length").map(|s| s.parse().unwrap_or(0)).unwrap_or(0);
    if rest.len() < n {
        return Ok(Some((first, hs, rest.to_vec(), 0, false)));
    }
    Ok(Some((first, hs, rest[..n].to_vec(), e + 4 + n, true)))
}

fn own(h: &[(&str, &str)]) -> Vec<Hdr> {
    h.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect()
}
fn expect_headers(h: &[(&str, &str)], case: bool, order: bool) -> Vec<Hdr> {
    let mut r = RefHeaders { e: own(h) };
    if !case {
        for x in &mut r.e {
            x.0.make_ascii_lowercase();
        }
    }
    if order {
        r.e
    } else {
        r.grouped()
    }
}

fn set_body(req: *mut hyper_request, s: &mut W, kind: &BodyKind) {
    let (chunks, end) = match kind {
        BodyKind::None => return,
        BodyKind::Chunks(c) => (c, HYPER_POLL_READY),
        BodyKind::Fails(c) => (c, HYPER_POLL_ERROR),
        BodyKind::Unknown(c) => (c, 77),
    };
    s.chunks = chunks.iter().map(|c| c.to_vec()).collect();
    s.end = end;
    s.body_done = false;
    let b = hyper_body_new();
    hyper_body_set_data_func(b, body_cb);
    hyper_body_set_userdata(b, s as *mut W as *mut c_void);
    if code(hyper_request_set_body(req, b)) != OK {
        s.fail("set_body", "refused".into());
    }
}

fn build(r: &Req, s: &mut W) -> *mut hyper_request {
    let q = hyper_request_new();
    if code(hyper_request_set_method(q, r.method.as_ptr(), r.method.len())) != OK
        || code(hyper_request_set_uri(q, r.uri.as_ptr(), r.uri.len())) != OK
        || code(hyper_request_set_version(q, HYPER_HTTP_VERSION_1_1)) != OK
    {
        s.fail("request building", "a valid method, uri or version was refused".into());
    }
    let h = hyper_request_headers(q);
    let ops = SETS.with(|s| s.borrow().clone()).unwrap_or_else(|| r.headers.iter().map(|(n, v)| (false, *n, *v)).collect());
    for (set, n, v) in &ops {
        if *set {
            if code(hyper_headers_set(h, n.as_ptr(), n.len(), v.as_ptr(), v.len())) != OK {
                s.fail("request building", "a valid header was refused".into());
            }
            continue;
        }
        if code(hyper_headers_add(h, n.as_ptr(), n.len(), v.as_ptr(), v.len())) != OK {
            s.fail("request building", "a valid header was refused".into());
        }
    }
    set_body(q, s, &r.body);
    if r.info {
        let p = s as *mut W as *mut c_void;
        if code(hyper_request_on_informational(q, info_cb, p)) != OK {
            s.fail("request building", "informational callback refused".into());
        }
    }
    q
}

/// Frees an error and checks that printing it stays inside the buffer.
fn error_code(e: *mut hyper_error, s: &mut W) -> u32 {
    let c = code(hyper_error_code(e));
    let mut full = [0xAAu8; 256];
    let n = hyper_error_print(e, full.as_mut_ptr(), 250);
    if n == 0 || n > 250 || full[n..].iter().any(|b| *b != 0xAA) {
        s.fail("error print", format!("printed {n} bytes"));
    }
    let mut small = [0xAAu8; 8];
    let m = hyper_error_print(e, small.as_mut_ptr(), 5);
    if m != n.min(5) || small[..m] != full[..m] || small[5..] != [0xAA; 3] {
        s.fail("error print", format!("into 5 bytes: {m} bytes {small:?}"));
    }
    hyper_error_free(e);
    c
}

struct Held {
    exec: *const hyper_executor,
    conn: *mut hyper_clientconn,
    resp: *mut hyper_response,
    body: *mut hyper_body,
}

fn run(ch: &Ch, cfg: &Cfg) -> ExecResult {
    let cx = Cx { ch: ch.clone(), own: Cell::new(0) };
    let before = live_bytes();
    let s0 = Box::into_raw(Box::new(W {
        cx,
        inbox: VecDeque::new(),
        eof: false,
        segs: VecDeque::new(),
        eof_after: false,
        out: vec![],
        rw: ptr::null_mut(),
        ww: ptr::null_mut(),
        bw: ptr::null_mut(),
        io_closed: false,
        bad: None,
        chunks: VecDeque::new(),
        end: 0,
        body_done: true,
        seen: vec![],
        brk: cfg.consume == Consume::ForeachBreak,
        after_break: false,
        infos: vec![],
        werr_at: 0,
        writes: 0,
        rerr: false,
        self_wakes: 0,
    }));
    let mut h = Held { exec: hyper_executor_new(), conn: ptr::null_mut(), resp: ptr::null_mut(), body: ptr::null_mut() };
    let r = drive(cfg, s0, &mut h);
    // the end of the program: free whatever it still owns, in the order a C program would
    let s = unsafe { &mut *s0 };
    if !h.body.is_null() {
        hyper_body_free(h.body);
    }
    if !h.resp.is_null() {
        hyper_response_free(h.resp);
    }
    if !h.conn.is_null() {
        hyper_clientconn_free(h.conn);
    }
    hyper_executor_free(h.exec);
    s.io_closed = true;
    for p in [s.rw, s.ww, s.bw] {
        if !p.is_null() {
            // one kind of program wakes what it still holds, another just frees it
            if s.cx.dev(2, "wake after the executor is gone") == 1 {
                hyper_waker_wake(p);
            } else {
                hyper_waker_free(p);
            }
        }
    }
    let s = unsafe { Box::from_raw(s0) };
    let bad = match (r, s.bad.clone()) {
        (_, Some((a, b))) => Err((a, b)),
        (Err(e), None) => Err(e),
        (Ok(v), None) => Ok(v),
    };
    let own = s.cx.own.get();
    drop(s);
    match bad {
        Err((a, b)) => return viol(a, b),
        Ok(v) => {
            let after = live_bytes();
            if after - own != before {
                return viol("memory balance", format!("{} bytes {} at the end", (after - own - before).abs(), if after - own > before { "not freed" } else { "freed too much" }));
            }
            Ok(v)
        }
    }
}

type Stop<T> = Result<T, (String, String)>;
fn no<T>(sig: &str, m: impl Into<String>) -> Stop<T> {
    Err((sig.to_string(), m.into()))
}

fn drive(cfg: &Cfg, s0: *mut W, h: &mut Held) -> Stop<u64> {
    let s: &mut W = unsafe { &mut *s0 };
    let exec = h.exec;
    let stop_round = if cfg.stop { s.cx.free(14, "rounds before the program gives up") } else { usize::MAX };
    if cfg.write_err {
        s.werr_at = 1 + s.cx.free(3, "write that fails");
    }
    let io = hyper_io_new();
    hyper_io_set_userdata(io, s0 as *mut c_void);
    hyper_io_set_read(io, read_cb);
    hyper_io_set_write(io, write_cb);
    let o = hyper_clientconn_options_new();
    hyper_clientconn_options_exec(o, exec);
    hyper_clientconn_options_set_preserve_header_case(o, cfg.case as c_int);
    hyper_clientconn_options_set_preserve_header_order(o, cfg.order as c_int);
    if code(hyper_clientconn_options_http1_allow_multiline_headers(o, cfg.multiline as c_int)) != OK {
        return no("options", "multiline option refused");
    }
    let t = hyper_clientconn_handshake(io, o);
    hyper_task_set_userdata(t, 1 as *mut c_void);
    if code(hyper_executor_push(exec, t)) != OK {
        return no("push", "refused");
    }
    let mut returned: BTreeMap<usize, u32> = BTreeMap::new();
    let mut i = 0usize; // exchange in progress
    let mut reacted = 0usize; // exchanges the peer has answered
    let mut outstanding = 1usize;
    let mut bg = 0;
    let mut finished = false; // nothing more will be asked
    let mut h2 = 0u64;
    let mut round = 0;
    let mut dead = false; // the exchange failed as it should
    loop {
        if round >= stop_round {
            return Ok(mix(h2, 99));
        }
        round += 1;
        if round > 300 {
            return no("no end", "the program does not come to an end");
        }
        // poll every ready task
        let mut n = 0;
        loop {
            let t = hyper_executor_poll(exec);
            if t.is_null() {
                break;
            }
            n += 1;
            if n > 100 {
                return no("executor spins", "100 tasks returned in one round");
            }
            let id = hyper_task_userdata(t) as usize;
            let kind = ty(t);
            s.cx.log(|| format!("task {id} returned, type {kind}"));
            s.cx.step((id as u64) << 8 | kind as u64);
            h2 = mix(h2, (id as u64) << 8 | kind as u64);
            let v = hyper_task_value(t);
            if ty(t) != T_EMPTY || !hyper_task_value(t).is_null() {
                return no("value taken twice", "the value is still there after it was taken");
            }
            hyper_task_free(t);
            *returned.entry(id).or_default() += 1;
            if id == 0 {
                bg += 1;
                if kind != T_EMPTY || !v.is_null() {
                    return no("background task", format!("type {kind}, value {v:?}"));
                }
                if bg > 1 {
                    return no("background task", "more than one background task for one HTTP/1 connection");
                }
                continue;
            }
            if returned[&id] != 1 {
                return no("task returned twice", format!("task {id}"));
            }
            outstanding -= 1;
            let (exn, what) = ((id / 10).wrapping_sub(1), id % 10);
            if id == 1 {
                if kind != T_CONN || v.is_null() {
                    return no("handshake", format!("type {kind}"));
                }
                h.conn = v as *mut hyper_clientconn;
                send(cfg, s, h, 0, &mut outstanding);
            } else if what == 2 {
                // response
                let rs = &cfg.ex[exn].1;
                let expect_err = cfg.write_err || cfg.read_err || matches!(cfg.ex[exn].0.body, BodyKind::Fails(_) | BodyKind::Unknown(_));
                if kind == T_ERROR {
                    let c = error_code(v as *mut hyper_error, s);
                    match &rs.head {
                        Err(Some(want)) if *want != c => return no("error code", format!("code {c}, not {want}")),
                        Err(_) => {}
                        Ok(_) if expect_err => {}
                        Ok(_) => return no("response", format!("an error with code {c}")),
                    }
                    if c == OK || c == ABORTED || c == INVALID {
                        return no("error code", format!("code {c}"));
                    }
                    dead = true;
                } else if kind == T_RESP {
                    h.resp = v as *mut hyper_response;
                    let Ok((st, ver, rp, hs)) = &rs.head else { return no("response", "a response where an error is due") };
                    let got = (hyper_response_status(h.resp), hyper_response_version(h.resp), reason(h.resp));
                    if got != (*st, *ver, rp.as_bytes().to_vec()) {
                        return no("response head", format!("{} {} {}", got.0, got.1, esc(&got.2)));
                    }
                    let want = expect_headers(hs, cfg.case, cfg.order);
                    let (g, _) = foreach(hyper_response_headers(h.resp), usize::MAX);
                    if g != want {
                        return no("response headers", format!("got {} want {}", show(&g), show(&want)));
                    }
                    let (g, extra) = foreach(hyper_response_headers(h.resp), 1);
                    if extra || g != want[..want.len().min(1)] {
                        return no("header iteration", "not stopped by HYPER_ITER_BREAK");
                    }
                    let wi: Vec<_> = rs
                        .infos
                        .iter()
                        .map(|(a, b, c)| (*a, b.as_bytes().to_vec(), expect_headers(c, cfg.case, cfg.order)))
                        .collect();
                    let wi = if cfg.ex[exn].0.info { wi } else { vec![] };
                    if s.infos != wi {
                        return no("informational responses", format!("{:?} instead of {wi:?}", s.infos));
                    }
                    if s.brk {
                        s.after_break = false;
                    }
                    s.seen.clear();
                    match cfg.consume {
                        Consume::Foreach | Consume::ForeachBreak => {
                            let b = hyper_response_body(h.resp);
                            let t = hyper_body_foreach(b, chunk_cb, s0 as *mut c_void);
                            push(exec, t, id + 1, &mut outstanding);
                            hyper_response_free(h.resp);
                            h.resp = ptr::null_mut();
                        }
                        Consume::Data | Consume::DataOnceFree => {
                            h.body = hyper_response_body(h.resp);
                            hyper_response_free(h.resp);
                            h.resp = ptr::null_mut();
                            let t = hyper_body_data(h.body);
                            push(exec, t, id + 1, &mut outstanding);
                        }
                        Consume::FreeBody => {
                            let b = hyper_response_body(h.resp);
                            hyper_body_free(b);
                            hyper_response_free(h.resp);
                            h.resp = ptr::null_mut();
                            dead = true;
                        }
                        Consume::FreeResp => {
                            hyper_response_free(h.resp);
                            h.resp = ptr::null_mut();
                            dead = true;
                        }
                    }
                } else {
                    return no("response", format!("task type {kind}"));
                }
            } else {
                // body
                let rs = &cfg.ex[exn].1;
                let mut over = true;
                match kind {
                    T_BUF => {
                        let b = v as *mut hyper_buf;
                        let d = buf_bytes(b);
                        hyper_buf_free(b);
                        s.seen.extend_from_slice(&d);
                        if cfg.consume == Consume::DataOnceFree {
                            hyper_body_free(h.body);
                            h.body = ptr::null_mut();
                            dead = true;
                        } else if cfg.consume == Consume::Data {
                            over = false;
                            let t = hyper_body_data(h.body);
                            returned.remove(&id);
                            push(exec, t, id, &mut outstanding);
                        } else {
                            return no("body", "a buffer from foreach");
                        }
                    }
                    T_EMPTY => {
                        if !v.is_null() {
                            return no("empty value", "not null");
                        }
                        if cfg.consume == Consume::ForeachBreak && rs.body != Ok(b"") {
                            return no("foreach", "ended well although the callback said stop");
                        }
                        match rs.body {
                            Err(()) => return no("body", "a body that was cut short ended well"),
                            Ok(b) if b != &s.seen[..] => return no("body bytes", format!("got {} want {}", esc(&s.seen), esc(b))),
                            _ => {}
                        }
                    }
                    T_ERROR => {
                        let c = error_code(v as *mut hyper_error, s);
                        let broke = cfg.consume == Consume::ForeachBreak && s.after_break;
                        if broke != (c == ABORTED) {
                            return no("error code", format!("code {c} after the callback {}", if broke { "said stop" } else { "went on" }));
                        }
                        if !broke && rs.body.is_ok() && !cfg.write_err && !cfg.read_err {
                            return no("body", format!("an error with code {c}"));
                        }
                        dead = true;
                    }
                    k => return no("body", format!("task type {k}")),
                }
                if over {
                    if !h.body.is_null() {
                        hyper_body_free(h.body);
                        h.body = ptr::null_mut();
                    }
                    i += 1;
                }
            }
            if s.cx.dev(2, "poll again now") == 1 {
                break;
            }
        }
        if let Some(b) = s.bad.clone() {
            return Err(b);
        }
        // the peer
        if reacted < cfg.ex.len() {
            let (rq, rs) = &cfg.ex[reacted];
            let (line, hs, body, used, whole) = match parse_req(&s.out) {
                Err(m) => return no("request bytes", m),
                Ok(None) => Default::default(),
                Ok(Some(x)) => x,
            };
            if !line.is_empty() {
                if line != format!("{} {} HTTP/1.1", rq.method, rq.uri) {
                    return no("request line", line);
                }
                let want = RefHeaders { e: own(&rq.headers) }.grouped();
                let framing = |n: &[u8]| n.eq_ignore_ascii_case(b"transfer-encoding") || n.eq_ignore_ascii_case(b"content-length");
                let had = want.iter().any(|x| framing(&x.0));
                let got: Vec<Hdr> = hs.into_iter().filter(|x| had || !framing(&x.0)).collect();
                if got != want {
                    return no("request headers", format!("got {} want {}", show(&got), show(&want)));
                }
                let all: Vec<u8> = match &rq.body {
                    BodyKind::None => vec![],
                    BodyKind::Chunks(c) | BodyKind::Fails(c) | BodyKind::Unknown(c) => c.concat(),
                };
                let good = matches!(rq.body, BodyKind::None | BodyKind::Chunks(_));
                if if whole && good { body != all } else { !all.starts_with(&body) } {
                    return no("request body", esc(&body));
                }
                if whole && !good {
                    return no("request body", "a body that failed ended well on the wire");
                }
                if whole || rs.early {
                    s.out.drain(..used);
                    reacted += 1;
                    s.segs.extend(rs.wire.iter().map(|x| x.to_vec()));
                    s.eof_after = rs.eof;
                    s.rerr = false;
                }
            }
        } else if !s.out.is_empty() && !cfg.ex.last().unwrap().1.early {
            return no("request bytes", format!("more than the requests: {}", esc(&s.out)));
        }
        // next request
        if !dead && i > 0 && i < cfg.ex.len() && i * 10 + 12 > returned.keys().max().copied().unwrap_or(0) && !h.conn.is_null() && outstanding == 0 {
            send(cfg, s, h, i, &mut outstanding);
            continue;
        }
        if !finished && outstanding == 0 && (dead || i == cfg.ex.len()) {
            finished = true;
            if !h.conn.is_null() {
                hyper_clientconn_free(h.conn);
                h.conn = ptr::null_mut();
            }
        }
        if finished && bg == 1 {
            // all done: nothing may be left
            let t = hyper_executor_poll(exec);
            if !t.is_null() {
                hyper_task_free(t);
                return no("task returned twice", "a task after all were returned");
            }
            return Ok(mix(h2, s.self_wakes as u64));
        }
        // one event
        let mut evs: Vec<u8> = vec![];
        if !s.segs.is_empty() {
            evs.push(0);
        }
        if !s.rw.is_null() && (!s.inbox.is_empty() || s.eof || s.rerr) {
            evs.push(1);
        }
        if !s.ww.is_null() {
            evs.push(2);
        }
        if !s.bw.is_null() {
            evs.push(3);
        }
        if s.segs.is_empty() && !s.eof && ((s.eof_after && reacted > 0) || finished) {
            evs.push(4);
        }
        if cfg.read_err && !s.rerr && s.segs.is_empty() && reacted > 0 {
            evs.push(5);
        }
        if evs.is_empty() {
            if n == 0 {
                return no(
                    "stuck",
                    format!("nothing can happen any more: {outstanding} tasks outstanding, connection task {}", if bg == 1 { "returned" } else { "not returned" }),
                );
            }
            continue;
        }
        // reads before arrivals before the rest
        evs.sort_by_key(|e| match e {
            1 => 0,
            2 => 1,
            3 => 2,
            0 => 3,
            _ => 4,
        });
        let e = evs[s.cx.dev(evs.len(), "event")];
        s.cx.log(|| format!("event {e}"));
        match e {
            0 => {
                let g = s.segs.pop_front().unwrap();
                s.inbox.extend(g);
            }
            1 => wake(&mut s.rw),
            2 => wake(&mut s.ww),
            3 => wake(&mut s.bw),
            4 => s.eof = true,
            _ => s.rerr = true,
        }
    }
}
fn wake(p: &mut *mut hyper_waker) {
    let k = std::mem::replace(p, ptr::null_mut());
    hyper_waker_wake(k);
}
fn push(exec: *const hyper_executor, t: *mut hyper_task, id: usize, out: &mut usize) {
    hyper_task_set_userdata(t, id as *mut c_void);
    hyper_executor_push(exec, t);
    *out += 1;
}
fn send(cfg: &Cfg, s: &mut W, h: &mut Held, i: usize, out: &mut usize) {
    s.infos.clear();
    let q = build(&cfg.ex[i].0, s);
    let t = hyper_clientconn_send(h.conn, q);
    push(h.exec, t, i * 10 + 12, out);
    if cfg.free_conn_early && i + 1 == cfg.ex.len() {
        hyper_clientconn_free(h.conn);
        h.conn = ptr::null_mut();
    }
}

// ---------------------------------------------------------------- header maps

fn header_ops(ch: &Ch, len: usize) -> ExecResult {
    const NAMES: [&[u8]; 4] = [b"Foo", b"FOO", b"X-Bar", b"x-bar"];
    let cx = Cx { ch: ch.clone(), own: Cell::new(0) };
    let before = live_bytes();
    let r = (|| {
        let q = hyper_request_new();
        let hd = hyper_request_headers(q);
        let mut m = RefHeaders::default();
        let mut res = Ok(());
        let mut fp = 0;
        for k in 0..len {
            let op = cx.free(9, "operation");
            fp = mix(fp, op as u64);
            if op == 8 {
                // refused without any effect
                let c = code(hyper_headers_add(hd, b"a b".as_ptr(), 3, b"v".as_ptr(), 1));
                let d = code(hyper_headers_set(hd, b"Foo".as_ptr(), 3, b"v\n".as_ptr(), 2));
                if c != INVALID || d != INVALID {
                    res = no("bad header accepted", format!("codes {c} {d}"));
                }
            } else {
                let n = NAMES[op % 4];
                let v = [b'0' + k as u8];
                let c = if op < 4 {
                    m.add(n, &v);
                    hyper_headers_add(hd, n.as_ptr(), n.len(), v.as_ptr(), 1)
                } else {
                    m.set(n, &v);
                    hyper_headers_set(hd, n.as_ptr(), n.len(), v.as_ptr(), 1)
                };
                if code(c) != OK {
                    res = no("header refused", format!("code on {}", esc(n)));
                }
            }
            let (g, _) = foreach(hd, usize::MAX);
            if g != m.e && res.is_ok() {
                res = no("header iteration", format!("got {} want {}", show(&g), show(&m.e)));
            }
            if hyper_request_headers(q) != hd {
                res = no("header map", "a second call gives another map");
            }
        }
        hyper_request_free(q);
        res.map(|_| fp)
    })();
    let v = match r {
        Err((a, b)) => return viol(a, b),
        Ok(v) => v,
    };
    if live_bytes() - cx.own.get() != before {
        return viol("memory balance", "header map");
    }
    Ok(v)
}

/// What the operations leave behind goes out on the wire.
fn header_wire(ch: &Ch, len: usize) -> ExecResult {
    const NAMES: [&str; 3] = ["Foo", "FOO", "X-Bar"];
    const VALS: [&str; 4] = ["0", "1", "2", "3"];
    let mut m = RefHeaders::default();
    let mut ops: Vec<(bool, &'static str, &'static str)> = vec![];
    for k in 0..len {
        let op = ch.free(6, "operation");
        let n = NAMES[op % 3];
        ops.push((op >= 3, n, VALS[k]));
        if op >= 3 {
            m.set(n.as_bytes(), VALS[k].as_bytes());
        } else {
            m.add(n.as_bytes(), VALS[k].as_bytes());
        }
    }
    SETS.with(|s| *s.borrow_mut() = Some(ops));
    let hs: Vec<(&'static str, &'static str)> = m
        .e
        .iter()
        .map(|(n, v)| {
            let n = NAMES.iter().find(|x| x.as_bytes() == &n[..]).unwrap();
            let v = VALS.iter().find(|x| x.as_bytes() == &v[..]).unwrap();
            (*n, *v)
        })
        .collect();
    let mut c = base();
    c.ex[0].0.headers = hs;
    // `build` would add them; here they are made by the operations instead
    let r = run(ch, &c);
    SETS.with(|s| *s.borrow_mut() = None);
    r
}
thread_local! { static SETS: RefCell<Option<Vec<(bool, &'static str, &'static str)>>> = const { RefCell::new(None) }; }

fn uri_parts(ch: &Ch) -> ExecResult {
    let cx = Cx { ch: ch.clone(), own: Cell::new(0) };
    let before = live_bytes();
    let opt = |k: usize, v: &[&'static str]| -> Option<&'static str> { if k == 0 { None } else { Some(v[k - 1]) } };
    let s = opt(cx.free(4, "scheme"), &["http", "https", "h t"]);
    let a = opt(cx.free(4, "authority"), &["a.example", "a.example:81", "a b"]);
    let p = opt(cx.free(5, "path"), &["/", "/p?q", "*", "/a b"]);
    let f = |x: Option<&'static str>| x.map(|x| (x.as_ptr(), x.len())).unwrap_or((ptr::null(), 0));
    let q = hyper_request_new();
    let ((sp, sl), (ap, al), (pp, pl)) = (f(s), f(a), f(p));
    let c = code(hyper_request_set_uri_parts(q, sp, sl, ap, al, pp, pl));
    let bad_text = s == Some("h t") || a == Some("a b") || p == Some("/a b");
    // a full URI has all three parts; otherwise there is no scheme and there are not both others
    let shape = match (s, a, p) {
        (Some(_), Some(_), Some(_)) => true,
        (Some(_), _, _) => false,
        (None, Some(_), Some(_)) => false,
        _ => true,
    };
    let mut r = Ok(());
    if (c == OK) != (!bad_text && shape) && !(s.is_some() && a.is_some() && p == Some("*")) {
        r = viol("uri parts", format!("{s:?} {a:?} {p:?}: code {c}"));
    }
    if c != OK && c != INVALID {
        r = viol("uri parts", format!("code {c}"));
    }
    let vers = [(0, OK), (10, OK), (11, OK), (20, OK), (30, INVALID), (-1, INVALID)];
    for (v, want) in vers {
        if code(hyper_request_set_version(q, v)) != want {
            r = viol("version", format!("{v}"));
        }
    }
    for (m, want) in [("GET", OK), ("FOO-bar", OK), ("", INVALID), ("a b", INVALID)] {
        if code(hyper_request_set_method(q, m.as_ptr(), m.len())) != want {
            r = viol("method", m);
        }
    }
    for (m, want) in [("/x", OK), ("http://a/b", OK), ("", INVALID), ("/a b", INVALID)] {
        if code(hyper_request_set_uri(q, m.as_ptr(), m.len())) != want {
            r = viol("uri", m);
        }
    }
    hyper_request_free(q);
    r?;
    if live_bytes() - cx.own.get() != before {
        return viol("memory balance", "uri parts");
    }
    Ok(c as u64)
}

// ---------------------------------------------------------------- HTTP/2

fn frame(ty: u8, flags: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let n = p.len();
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, ty, flags];
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(p);
    v
}
/// One exchange over HTTP/2: the peer is a script of frames.
fn run_h2(ch: &Ch, post: bool, stop: bool, foreach_: bool, late: bool) -> ExecResult {
    let cx = Cx { ch: ch.clone(), own: Cell::new(0) };
    let before = live_bytes();
    let s0 = Box::into_raw(Box::new(W {
        cx,
        inbox: VecDeque::new(),
        eof: false,
        segs: VecDeque::new(),
        eof_after: false,
        out: vec![],
        rw: ptr::null_mut(),
        ww: ptr::null_mut(),
        bw: ptr::null_mut(),
        io_closed: false,
        bad: None,
        chunks: VecDeque::new(),
        end: 0,
        body_done: true,
        seen: vec![],
        brk: false,
        after_break: false,
        infos: vec![],
        werr_at: 0,
        writes: 0,
        rerr: false,
        self_wakes: 0,
    }));
    let mut h = Held { exec: hyper_executor_new(), conn: ptr::null_mut(), resp: ptr::null_mut(), body: ptr::null_mut() };
    let r = drive_h2(s0, &mut h, post, stop, foreach_, late);
    let s = unsafe { &mut *s0 };
    if !h.body.is_null() {
        hyper_body_free(h.body);
    }
    if !h.conn.is_null() {
        hyper_clientconn_free(h.conn);
    }
    hyper_executor_free(h.exec);
    s.io_closed = true;
    for p in [s.rw, s.ww, s.bw] {
        if !p.is_null() {
            hyper_waker_free(p);
        }
    }
    let s = unsafe { Box::from_raw(s0) };
    let (bad, own) = (s.bad.clone(), s.cx.own.get());
    drop(s);
    if let Some((a, b)) = bad {
        return viol(a, b);
    }
    let v = match r {
        Err((a, b)) => return viol(a, b),
        Ok(v) => v,
    };
    if live_bytes() - own != before {
        return viol("memory balance", format!("{} bytes at the end (HTTP/2)", live_bytes() - own - before));
    }
    Ok(v)
}
fn send_h2(h: &mut Held, s: &mut W, post: bool, out: &mut usize) {
    let mut rq = Req { method: if post { "POST" } else { "GET" }, uri: "http://a.example/p", headers: vec![("X-One", "1"), ("X-Two", "2")], body: BodyKind::None, info: false };
    if post {
        rq.body = BodyKind::Chunks(vec![b"hello ", b"world"]);
    }
    let q = build(&rq, s);
    push(h.exec, hyper_clientconn_send(h.conn, q), 12, out);
}
fn drive_h2(s0: *mut W, h: &mut Held, post: bool, stop: bool, foreach_: bool, late: bool) -> Stop<u64> {
    let s: &mut W = unsafe { &mut *s0 };
    let exec = h.exec;
    let stop_round = if stop { s.cx.free(16, "rounds before the program gives up") } else { usize::MAX };
    let io = hyper_io_new();
    hyper_io_set_userdata(io, s0 as *mut c_void);
    hyper_io_set_read(io, read_cb);
    hyper_io_set_write(io, write_cb);
    let o = hyper_clientconn_options_new();
    hyper_clientconn_options_exec(o, exec);
    if code(hyper_clientconn_options_http2(o, 1)) != OK {
        return no("options", "http2 refused");
    }
    let mut out = 0;
    push(exec, hyper_clientconn_handshake(io, o), 1, &mut out);
    s.segs.push_back(frame(4, 0, 0, &[]));
    let (mut acked, mut answered, mut done, mut finished) = (false, false, false, false);
    let mut fp = 0u64;
    let mut reqbody: Vec<u8> = vec![];
    let mut sent = false;
    let mut conn_task_done = false;
    for round in 0..400 {
        if round >= stop_round {
            return Ok(mix(fp, 99));
        }
        let mut n = 0;
        loop {
            let t = hyper_executor_poll(exec);
            if t.is_null() {
                break;
            }
            n += 1;
            if n > 100 {
                return no("executor spins", "100 tasks returned in one round");
            }
            let (id, kind) = (hyper_task_userdata(t) as usize, ty(t));
            let v = hyper_task_value(t);
            hyper_task_free(t);
            s.cx.log(|| format!("task {id} returned, type {kind}"));
            s.cx.step((id as u64) << 8 | kind as u64);
            fp = mix(fp, (id as u64) << 8 | kind as u64);
            match id {
                0 => {
                    if kind != T_EMPTY || !v.is_null() {
                        return no("background task", format!("type {kind}"));
                    }
                    conn_task_done |= finished;
                }
                1 => {
                    if kind != T_CONN {
                        return no("handshake", format!("type {kind}"));
                    }
                    h.conn = v as *mut hyper_clientconn;
                    if !late {
                        send_h2(h, s, post, &mut out);
                        sent = true;
                    }
                }
                12 => {
                    if kind != T_RESP {
                        let c = if kind == T_ERROR { error_code(v as *mut hyper_error, s) } else { 99 };
                        return no("response", format!("task type {kind}, code {c}"));
                    }
                    let r = v as *mut hyper_response;
                    let got = (hyper_response_status(r), hyper_response_version(r), reason(r));
                    let (hs, _) = foreach(hyper_response_headers(r), usize::MAX);
                    let b = hyper_response_body(r);
                    hyper_response_free(r);
                    if foreach_ {
                        push(exec, hyper_body_foreach(b, chunk_cb, s0 as *mut c_void), 13, &mut out);
                    } else {
                        h.body = b;
                        push(exec, hyper_body_data(b), 13, &mut out);
                    }
                    if got != (200, HYPER_HTTP_VERSION_2, b"OK".to_vec()) {
                        return no("response head", format!("{} {} {}", got.0, got.1, esc(&got.2)));
                    }
                    if hs != own(&[("x-a", "1"), ("x-b", "2"), ("x-b", "3")]) {
                        return no("response headers", show(&hs));
                    }
                }
                13 => match kind {
                    T_BUF if !foreach_ => {
                        let b = v as *mut hyper_buf;
                        s.seen.extend(buf_bytes(b));
                        hyper_buf_free(b);
                        push(exec, hyper_body_data(h.body), 13, &mut out);
                    }
                    T_EMPTY => {
                        if s.seen != b"body+more" {
                            return no("body bytes", esc(&s.seen));
                        }
                        done = true;
                    }
                    k => {
                        if k == T_ERROR {
                            error_code(v as *mut hyper_error, s);
                        }
                        return no("body", format!("task type {k}"));
                    }
                },
                _ => return no("task returned twice", format!("{id}")),
            }
            if s.cx.dev(2, "poll again now") == 1 {
                break;
            }
        }
        if let Some(b) = s.bad.clone() {
            return Err(b);
        }
        // frames from the client
        const PRE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
        let mut end = false;
        if s.out.len() >= PRE.len() {
            if &s.out[..PRE.len()] != PRE {
                return no("preface", esc(&s.out[..PRE.len()]));
            }
            let mut p = PRE.len();
            reqbody.clear();
            while s.out.len() >= p + 9 {
                let l = (s.out[p] as usize) << 16 | (s.out[p + 1] as usize) << 8 | s.out[p + 2] as usize;
                if s.out.len() < p + 9 + l {
                    break;
                }
                let (t, f) = (s.out[p + 3], s.out[p + 4]);
                if t == 4 && f & 1 == 0 && !acked {
                    acked = true;
                    s.segs.push_back(frame(4, 1, 0, &[]));
                }
                if t == 0 {
                    reqbody.extend_from_slice(&s.out[p + 9..p + 9 + l]);
                }
                if (t == 0 || t == 1) && f & 1 != 0 {
                    end = true;
                }
                if t == 3 || (t == 7 && !finished) {
                    return no("unexpected frame", format!("type {t}"));
                }
                p += 9 + l;
            }
        }
        if end && !answered {
            answered = true;
            if post && reqbody != b"hello world" {
                return no("request body", esc(&reqbody));
            }
            let mut hp = vec![0x88];
            for (n, v) in [("x-a", "1"), ("x-b", "2"), ("x-b", "3")] {
                hp.extend_from_slice(&[0, n.len() as u8]);
                hp.extend_from_slice(n.as_bytes());
                hp.push(1);
                hp.extend_from_slice(v.as_bytes());
            }
            s.segs.push_back(frame(1, 4, 1, &hp));
            s.segs.push_back(frame(0, 0, 1, b"body+"));
            s.segs.push_back(frame(0, 1, 1, b"more"));
        }
        if done && !finished {
            finished = true;
            hyper_clientconn_free(h.conn);
            h.conn = ptr::null_mut();
            if !h.body.is_null() {
                hyper_body_free(h.body);
                h.body = ptr::null_mut();
            }
            continue;
        }
        let mut evs: Vec<u8> = vec![];
        if !s.rw.is_null() && (!s.inbox.is_empty() || s.eof) {
            evs.push(1);
        }
        if !s.ww.is_null() {
            evs.push(2);
        }
        if !s.bw.is_null() {
            evs.push(3);
        }
        if !s.segs.is_empty() {
            evs.push(0);
        }
        if finished && s.segs.is_empty() && !s.eof {
            evs.push(4);
        }
        if evs.is_empty() {
            if n > 0 {
                continue;
            }
            if finished && conn_task_done {
                return Ok(mix(fp, s.self_wakes as u64));
            }
            if !sent && !h.conn.is_null() {
                // everything else is over and done with: one poll has to get the request going
                send_h2(h, s, post, &mut out);
                sent = true;
                continue;
            }
            return no("stuck", format!("nothing can happen any more (HTTP/2, answered {answered}, done {done})"));
        }
        match evs[s.cx.dev(evs.len(), "event")] {
            0 => {
                let g = s.segs.pop_front().unwrap();
                s.inbox.extend(g);
            }
            1 => wake(&mut s.rw),
            2 => wake(&mut s.ww),
            3 => wake(&mut s.bw),
            _ => s.eof = true,
        }
    }
    no("no end", "the program does not come to an end (HTTP/2)")
}

// ---------------------------------------------------------------- scenarios

fn get(uri: &'static str) -> Req {
    Req { method: "GET", uri, headers: vec![("Host", "a.example"), ("X-One", "1"), ("x-ONE", "2"), ("ACCEPT", "*/*"), ("X-one", "3")], body: BodyKind::None, info: false }
}
fn ok_resp() -> Resp {
    Resp {
        wire: vec![b"HTTP/1.1 200 Fine\r\nServer: x\r\nset-Cookie: a\r\nContent-Length: 5\r\nSET-cookie: b\r\n\r\nhe", b"llo"],
        eof: false,
        infos: vec![],
        head: Ok((200, HYPER_HTTP_VERSION_1_1, "Fine", vec![("Server", "x"), ("set-Cookie", "a"), ("Content-Length", "5"), ("SET-cookie", "b")])),
        body: Ok(b"hello"),
        early: false,
    }
}
fn base() -> Cfg {
    Cfg { case: true, order: true, multiline: false, free_conn_early: false, consume: Consume::Foreach, ex: vec![(get("/p?q"), ok_resp())], stop: false, write_err: false, read_err: false }
}

pub fn check(tier: Tier) -> Check {
    let mut v = vec![];
    let b = tier.pick(4, 5);
    let mut add = |name: &str, bound: u32, c: Cfg| v.push(scenario(name, bound, move |ch| run(ch, &c)));
    for (case, order) in [(false, false), (true, false), (false, true), (true, true)] {
        let mut c = base();
        c.case = case;
        c.order = order;
        add(&format!("get case={case} order={order}"), b, c);
    }
    for k in [Consume::ForeachBreak, Consume::Data, Consume::DataOnceFree, Consume::FreeBody, Consume::FreeResp] {
        let mut c = base();
        c.consume = k;
        add(&format!("consume {k:?}"), b, c);
    }
    let chunked = Resp {
        wire: vec![b"HTTP/1.1 404 \r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n", b"4\r\ndefg\r\n", b"0\r\nX-T: 1\r\n\r\n"],
        eof: false,
        infos: vec![],
        head: Ok((404, HYPER_HTTP_VERSION_1_1, "", vec![("Transfer-Encoding", "chunked")])),
        body: Ok(b"abcdefg"),
        early: false,
    };
    let eofbody = Resp {
        wire: vec![b"HTTP/1.0 200 OK\r\nA: 1\r\n\r\nabc", b"defg"],
        eof: true,
        infos: vec![],
        head: Ok((200, HYPER_HTTP_VERSION_1_0, "OK", vec![("A", "1")])),
        body: Ok(b"abcdefg"),
        early: false,
    };
    let cut = Resp { wire: vec![b"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nabc"], eof: true, infos: vec![], head: Ok((200, HYPER_HTTP_VERSION_1_1, "OK", vec![("Content-Length", "9")])), body: Err(()), early: false };
    let empty = Resp { wire: vec![b"HTTP/1.1 204 No Content\r\nA: 1\r\n\r\n"], eof: false, infos: vec![], head: Ok((204, HYPER_HTTP_VERSION_1_1, "No Content", vec![("A", "1")])), body: Ok(b""), early: false };
    let info = Resp {
        wire: vec![b"HTTP/1.1 103 Early\r\nLink: a\r\nlink: b\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi"],
        eof: false,
        infos: vec![(103, "Early", vec![("Link", "a"), ("link", "b")]), (100, "Continue", vec![])],
        head: Ok((200, HYPER_HTTP_VERSION_1_1, "OK", vec![("Content-Length", "2")])),
        body: Ok(b"hi"),
        early: false,
    };
    let none = Resp { wire: vec![], eof: true, infos: vec![], head: Err(Some(EOF_ERR)), body: Err(()), early: false };
    let part = Resp { wire: vec![b"HTTP/1.1 200 OK\r\nA"], eof: true, infos: vec![], head: Err(Some(EOF_ERR)), body: Err(()), early: false };
    let junk = Resp { wire: vec![b"HTTP/1.1 2x0 OK\r\n\r\n"], eof: false, infos: vec![], head: Err(Some(PEER)), body: Err(()), early: false };
    let fold = Resp {
        wire: vec![b"HTTP/1.1 200 OK\r\nA: 1\r\n 2\r\nContent-Length: 2\r\n\r\nhi"],
        eof: false,
        infos: vec![],
        head: Ok((200, HYPER_HTTP_VERSION_1_1, "OK", vec![("A", "1 2"), ("Content-Length", "2")])),
        body: Ok(b"hi"),
        early: false,
    };
    for (n, r) in [("chunked", &chunked), ("to eof", &eofbody), ("cut short", &cut), ("empty", &empty), ("informational", &info), ("no answer", &none), ("half a head", &part), ("junk", &junk)] {
        for consume in [Consume::Foreach, Consume::Data] {
            if consume == Consume::Data && r.head.is_err() {
                continue;
            }
            let mut c = base();
            c.consume = consume;
            c.ex[0].1 = r.clone();
            c.ex[0].0.info = n == "informational";
            add(&format!("{n} {consume:?}"), b, c);
        }
    }
    {
        let mut c = base();
        c.ex[0].1 = info.clone();
        add("informational without a callback", b, c);
        let mut c = base();
        c.ex[0].1 = info.clone();
        c.ex[0].0.info = true;
        c.case = false;
        c.order = false;
        add("informational, lower case", b, c);
        let mut c = base();
        c.multiline = true;
        c.ex[0].1 = fold.clone();
        add("folded header allowed", b, c);
        let mut c = base();
        let mut f = fold.clone();
        f.head = Err(Some(PEER));
        c.ex[0].1 = f;
        add("folded header refused", b, c);
        let mut c = base();
        c.free_conn_early = true;
        add("connection handle freed early", b, c);
        let mut c = base();
        c.consume = Consume::Data;
        c.ex.push((get("/second"), chunked.clone()));
        add("two exchanges", b, c.clone());
        c.consume = Consume::Foreach;
        c.free_conn_early = true;
        add("two exchanges, handle freed early", b, c);
        let mut c = base();
        c.ex[0].0.body = BodyKind::None;
        c.read_err = true;
        c.ex[0].1 = Resp { wire: vec![], eof: false, infos: vec![], head: Err(Some(1)), body: Err(()), early: false };
        add("read error", b, c);
        let mut c = base();
        c.write_err = true;
        c.ex[0].0.body = BodyKind::Chunks(vec![b"one", b"two"]);
        c.ex[0].0.method = "POST";
        c.ex[0].1.eof = true;
        c.ex[0].1.wire = vec![];
        c.ex[0].1.head = Err(None);
        c.ex[0].1.early = true;
        add("write error", b, c);
    }
    for (n, body, cl) in [
        ("two chunks", BodyKind::Chunks(vec![b"hello ", b"world"]), None),
        ("no chunk", BodyKind::Chunks(vec![]), None),
        ("known length", BodyKind::Chunks(vec![b"hello ", b"world"]), Some("11")),
        ("failing", BodyKind::Fails(vec![b"hello "]), None),
        ("failing at once", BodyKind::Fails(vec![]), None),
        ("unknown code", BodyKind::Unknown(vec![b"hello "]), None),
    ] {
        let mut c = base();
        c.ex[0].0.method = "POST";
        let fails = !matches!(body, BodyKind::Chunks(_));
        c.ex[0].0.body = body;
        if let Some(l) = cl {
            c.ex[0].0.headers.push(("Content-Length", l));
        }
        if fails {
            c.ex[0].1.head = Err(None);
        }
        add(&format!("upload {n}"), b, c);
    }
    for (n, post, consume) in [("get", false, Consume::Foreach), ("post", true, Consume::Data), ("chunked", false, Consume::Data)] {
        let mut c = base();
        c.stop = true;
        c.consume = consume;
        if post {
            c.ex[0].0.method = "POST";
            c.ex[0].0.body = BodyKind::Chunks(vec![b"hello ", b"world"]);
        }
        if n == "chunked" {
            c.ex[0].1 = chunked.clone();
            c.ex.push((get("/second"), ok_resp()));
        }
        add(&format!("giving up {n}"), b, c);
    }
    let n = tier.pick(5, 6);
    v.push(scenario("header operations", 0, move |ch| header_ops(ch, n)));
    v.push(scenario("uri parts", 0, uri_parts));
    let n = tier.pick(4, 4);
    v.push(scenario("header operations on the wire", 0, move |ch| header_wire(ch, n)));
    for (n, post, stop, fe, late) in [
        ("get", false, false, true, false),
        ("post", true, false, false, false),
        ("giving up", true, true, true, false),
        ("get, late", false, false, false, true),
        ("post, late", true, false, true, true),
    ] {
        v.push(scenario(format!("http2 {n}"), b, move |ch| run_h2(ch, post, stop, fe, late)));
    }
    Check {
        id: "C27",
        scenarios: v,
        rule: "Client programs over the extern \"C\" functions: every order of executor polls, wakes (also from inside a callback), arrivals, partial and pending reads, writes and body callbacks within the deviation bound; every point of giving up; every sequence of header map operations of the stated length.".into(),
        assumptions: vec![
            "The C program keeps to the documented ownership rules; null pointers are not passed.".into(),
            "Leaks and double frees are judged by the balance of bytes over the execution.".into(),
        ],
    }
}
