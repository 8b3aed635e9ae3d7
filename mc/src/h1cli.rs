//! HTTP/1 client under test: hyper's client connection over the scripted transport, with scripted callers and a scripted peer.

use crate::core::*;
use crate::h1ref;
use crate::h1srv::{errinfo, ErrInfo};
use crate::world::*;
use http::{HeaderName, HeaderValue, Method, Request, Version};
use hyper::body::Incoming;
use hyper::client::conn::http1;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Take {
    /// read the response body to its end
    Full,
    /// start reading only after an event
    Late,
    /// read n frames then drop it
    Frames(usize),
    /// read it to the end; an event may drop it at any moment
    FullOrDrop,
    /// read n frames, then keep it for good
    FramesHold(usize),
    /// drop the response unread
    Drop,
    /// keep it unread until the end of the run
    Hold,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub method: &'static str,
    pub uri: String,
    pub version: Option<Version>,
    pub headers: Vec<(&'static str, &'static [u8])>,
    pub body: BodySpec,
    /// wait for ready() first
    pub ready: bool,
    /// use try_send_request
    pub recover: bool,
    pub take: Take,
    pub upgrade: bool,
    /// wait for this many earlier calls to have finished
    pub after: usize,
    /// an event may drop the response future / the whole call
    pub cancel: bool,
    /// extended CONNECT
    pub protocol: Option<&'static str>,
}
pub fn call(method: &'static str, uri: &str) -> Call {
    Call {
        method,
        uri: uri.into(),
        version: None,
        headers: vec![("host", b"h")],
        body: BodySpec::empty(),
        ready: true,
        recover: false,
        take: Take::Full,
        upgrade: false,
        after: 0,
        cancel: false,
        protocol: None,
    }
}
impl Call {
    pub fn body(mut self, b: BodySpec) -> Call {
        self.body = b;
        self
    }
    pub fn take(mut self, t: Take) -> Call {
        self.take = t;
        self
    }
    pub fn after(mut self, n: usize) -> Call {
        self.after = n;
        self
    }
    pub fn recover(mut self) -> Call {
        self.recover = true;
        self
    }
    pub fn cancel(mut self) -> Call {
        self.cancel = true;
        self
    }
    pub fn not_ready(mut self) -> Call {
        self.ready = false;
        self
    }
    pub fn upgrade(mut self) -> Call {
        self.upgrade = true;
        self
    }
    pub fn header(mut self, n: &'static str, v: &'static str) -> Call {
        self.headers.push((n, v.as_bytes()));
        self
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub enum Outcome {
    #[default]
    Pending,
    /// ready() failed
    NotReady(ErrInfo),
    Resp,
    /// (error, request handed back)
    Failed(ErrInfo, bool),
    Cancelled,
}
#[derive(Default)]
pub struct CallRec {
    pub outcome: Outcome,
    /// how many times an outcome was delivered
    pub outcomes: u32,
    pub status: u16,
    pub version: Option<Version>,
    pub reason: Option<Vec<u8>>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub ext_case: bool,
    pub info: Rc<RefCell<Vec<u16>>>,
    pub got: Rc<RefCell<Got>>,
    pub body_stat: Rc<RefCell<BodyStat>>,
    pub sent: bool,
    pub done: bool,
    /// the hints right after the response arrived
    pub hint: Option<(u64, Option<u64>, bool)>,
}
pub type Recs = Rc<RefCell<Vec<CallRec>>>;

pub struct CliCfg {
    pub tweak: Rc<dyn Fn(&mut http1::Builder)>,
    pub pol: IoPolicy,
    pub upgrades: bool,
    /// drive the connection with poll_without_shutdown and take it apart at its end
    pub manual: bool,
    pub on_up: Option<crate::h1srv::OnUp>,
}
impl CliCfg {
    pub fn new(pol: IoPolicy) -> CliCfg {
        CliCfg { tweak: Rc::new(|_| {}), pol, upgrades: false, manual: false, on_up: None }
    }
    pub fn tweak(mut self, f: impl Fn(&mut http1::Builder) + 'static) -> CliCfg {
        self.tweak = Rc::new(f);
        self
    }
    pub fn upgrades(mut self) -> CliCfg {
        self.upgrades = true;
        self
    }
}
/// A request sender of either protocol.
pub enum Tx {
    H1(http1::SendRequest<SBody>),
    H2(hyper::client::conn::http2::SendRequest<SBody>),
}
pub type RespFut = std::pin::Pin<Box<dyn std::future::Future<Output = hyper::Result<http::Response<Incoming>>>>>;
pub type TryFut = std::pin::Pin<Box<dyn std::future::Future<Output = Result<http::Response<Incoming>, hyper::client::conn::TrySendError<Request<SBody>>>>>>;
impl Tx {
    pub fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<hyper::Result<()>> {
        match self {
            Tx::H1(t) => t.poll_ready(cx),
            Tx::H2(t) => t.poll_ready(cx),
        }
    }
    pub fn send_request(&mut self, r: Request<SBody>) -> RespFut {
        match self {
            Tx::H1(t) => Box::pin(t.send_request(r)),
            Tx::H2(t) => Box::pin(t.send_request(r)),
        }
    }
    pub fn try_send_request(&mut self, r: Request<SBody>) -> TryFut {
        match self {
            Tx::H1(t) => Box::pin(t.try_send_request(r)),
            Tx::H2(t) => Box::pin(t.try_send_request(r)),
        }
    }
    pub fn is_ready(&self) -> bool {
        match self {
            Tx::H1(t) => t.is_ready(),
            Tx::H2(t) => t.is_ready(),
        }
    }
    pub fn is_closed(&self) -> bool {
        match self {
            Tx::H1(t) => t.is_closed(),
            Tx::H2(t) => t.is_closed(),
        }
    }
}
pub struct Cli {
    pub w: World,
    pub env: E,
    pub io: Io,
    pub tx: Rc<RefCell<Option<Tx>>>,
    pub recs: Recs,
    pub conn: usize,
    pub result: Rc<RefCell<Option<Result<(), ErrInfo>>>>,
    pub upgraded: Rc<RefCell<Vec<Result<hyper::upgrade::Upgraded, ErrInfo>>>>,
    pub finished: Rc<Cell<usize>>,
    pub on_up: Option<crate::h1srv::OnUp>,
    pub ctl: Ctl,
    pub parts: Rc<RefCell<Option<(HIo, bytes::Bytes)>>>,
}

/// `handshake` finishes on its first poll: no I/O is involved.
pub fn connect(cfg: &CliCfg, io: &Io) -> (Tx, http1::Connection<HIo, SBody>) {
    let mut b = http1::Builder::new();
    (cfg.tweak)(&mut b);
    let mut f = Box::pin(b.handshake::<HIo, SBody>(HIo::new(io)));
    match crate::h1srv::poll_once(&mut f) {
        std::task::Poll::Ready(Ok((t, c))) => (Tx::H1(t), c),
        std::task::Poll::Ready(Err(e)) => panic!("harness: handshake failed {e}"),
        std::task::Poll::Pending => panic!("harness: handshake pending"),
    }
}

pub fn start(ch: &Ch, cfg: CliCfg) -> Cli {
    let mut w = World::new(ch);
    let env = w.env.clone();
    let io = Io::new(&env, cfg.pol);
    let (tx, conn) = connect(&cfg, &io);
    let result: Rc<RefCell<Option<Result<(), ErrInfo>>>> = Default::default();
    let (r2, e2) = (result.clone(), env.clone());
    let ctl = Ctl::default();
    let c2 = ctl.clone();
    let parts: Rc<RefCell<Option<(HIo, bytes::Bytes)>>> = Default::default();
    let p2 = parts.clone();
    type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = hyper::Result<()>>>>;
    let mut fut: Option<Fut> = Some(if cfg.upgrades {
        Box::pin(conn.with_upgrades())
    } else if cfg.manual {
        let mut conn = Some(conn);
        Box::pin(std::future::poll_fn(move |cx| {
            let r = std::task::ready!(conn.as_mut().unwrap().poll_without_shutdown(cx));
            let p = conn.take().unwrap().into_parts();
            *p2.borrow_mut() = Some((p.io, p.read_buf));
            std::task::Poll::Ready(r)
        }))
    } else {
        Box::pin(conn)
    });
    let id = w.add("conn", async move {
        let r = std::future::poll_fn(|cx| {
            c2.listen(cx);
            if c2.0.kill.get() {
                return std::task::Poll::Ready(None);
            }
            fut.as_mut().unwrap().as_mut().poll(cx).map(Some)
        })
        .await;
        if let Some(r) = r {
            e2.ch.log(|| format!("  connection result: {r:?}"));
            *r2.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
        } else {
            fut = None;
            c2.0.killed.set(true);
        }
        drop(fut);
    });
    Cli { w, env, io, tx: Rc::new(RefCell::new(Some(tx))), recs: Default::default(), conn: id, result, upgraded: Default::default(), finished: Default::default(), ctl, parts, on_up: cfg.on_up.clone() }
}

pub fn build_req(env: &E, c: &Call, info: &Rc<RefCell<Vec<u16>>>) -> (Request<SBody>, Rc<RefCell<BodyStat>>) {
    let b = SBody::new(env, &c.body);
    let st = b.stat.0.clone();
    let mut r = Request::new(b);
    *r.method_mut() = Method::from_bytes(c.method.as_bytes()).unwrap();
    *r.uri_mut() = c.uri.parse().unwrap();
    if let Some(v) = c.version {
        *r.version_mut() = v;
    }
    for (n, v) in &c.headers {
        r.headers_mut().append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    if let Some(p) = c.protocol {
        r.extensions_mut().insert(hyper::ext::Protocol::from_static(p));
    }
    let i2 = SendCell(info.clone());
    hyper::ext::on_informational(&mut r, move |res| {
        let i2 = &i2;
        i2.borrow_mut().push(res.status().as_u16())
    });
    (r, st)
}

impl Cli {
    /// Adds a caller task; returns (task id, record index).
    pub fn caller(&mut self, c: Call) -> (usize, usize) {
        let i = self.recs.borrow().len();
        self.recs.borrow_mut().push(CallRec::default());
        let (env, tx, recs, fin, ups) = (self.env.clone(), self.tx.clone(), self.recs.clone(), self.finished.clone(), self.upgraded.clone());
        let gate_env = self.env.clone();
        let on_up = self.on_up.clone();
        let id = self.w.add(format!("call{i}"), async move {
            if c.after > 0 {
                // sequencing: wait until enough earlier calls are through
                wait_until(&gate_env, "turn", {
                    let fin = fin.clone();
                    let n = c.after;
                    move || fin.get() >= n
                })
                .await;
            }
            run_call(env, tx, recs.clone(), i, c, ups, on_up).await;
            recs.borrow_mut()[i].done = true;
            fin.set(fin.get() + 1);
        });
        (id, i)
    }
    pub fn drop_sender(&self) {
        let t = self.tx.borrow_mut().take();
        drop(t);
    }
    pub fn requests(&self) -> (Vec<h1ref::Msg>, h1ref::Tail) {
        h1ref::requests(&self.io.s.borrow().out)
    }
    pub fn summary(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        for (i, r) in self.recs.borrow().iter().enumerate() {
            let g = r.got.borrow();
            let _ = write!(s, "call{i}: {:?} {} info={:?} [", r.outcome, r.status, r.info.borrow());
            for (n, v) in &r.headers {
                let _ = write!(s, "{n}: {}|", esc(v));
            }
            let _ = writeln!(s, "] body={} end={:?} trailers={:?}", esc(&g.data), g.end, g.trailers);
        }
        let _ = write!(s, "wire: {:?}\nresult: {:?}", esc(&self.io.out()), self.result.borrow());
        s
    }
    pub fn contract_violation(&self) -> Option<String> {
        for r in self.recs.borrow().iter() {
            if let Some(b) = &r.got.borrow().bad {
                return Some(b.clone());
            }
            if r.outcomes > 1 {
                return Some("more than one outcome for a call".into());
            }
        }
        None
    }
    /// Runs a list of peer actions, each enabled once its trigger holds and the previous ones are done.
    pub fn peer(&self, acts: Vec<Act>) -> Rc<Cell<usize>> {
        peer(&self.env, &self.io, acts)
    }
}

#[derive(Clone, Debug)]
pub enum Trig {
    Now,
    /// that many complete requests are on the wire
    Reqs(usize),
    /// that many request heads are on the wire
    Heads(usize),
    /// that many bytes are on the wire
    Bytes(usize),
    /// the response bytes flushed so far satisfy this
    When(When),
}
#[derive(Clone)]
pub struct When(pub std::sync::Arc<dyn Fn(&[u8]) -> bool + Send + Sync>);
impl std::fmt::Debug for When {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("when")
    }
}
pub fn when(f: impl Fn(&[u8]) -> bool + Send + Sync + 'static) -> Trig {
    Trig::When(When(std::sync::Arc::new(f)))
}
/// The peer has seen this text that often.
pub fn saw(t: &'static str, n: usize) -> Trig {
    when(move |b| b.windows(t.len()).filter(|w| *w == t.as_bytes()).count() >= n)
}
#[derive(Clone, Debug)]
pub enum Do {
    Send(Vec<u8>),
    Eof,
    ReadErr,
    WriteErr,
    /// opens a gate
    Open(u32),
    /// the transport accepts that many more bytes
    Room(usize),
}
#[derive(Clone, Debug)]
pub struct Act(pub Trig, pub Do);

pub fn trig_holds(t: &Trig, io: &Io) -> bool {
    let s = io.s.borrow();
    match t {
        Trig::Now => true,
        Trig::When(f) => (f.0)(&s.out[..s.flushed]),
        Trig::Bytes(n) => s.out.len() >= *n,
        Trig::Reqs(n) => h1ref::requests(&s.out).0.len() >= *n,
        Trig::Heads(n) => {
            let (m, t) = h1ref::requests(&s.out);
            m.len() + matches!(t, h1ref::Tail::Partial(Some(_))) as usize >= *n
        }
    }
}
pub fn peer(env: &E, io: &Io, acts: Vec<Act>) -> Rc<Cell<usize>> {
    let done = Rc::new(Cell::new(0usize));
    for (k, Act(t, d)) in acts.into_iter().enumerate() {
        let (d1, io1, io2, d2) = (done.clone(), io.clone(), io.clone(), done.clone());
        let label = match d {
            Do::Send(_) => "peer sends",
            Do::Eof => "peer closes",
            Do::ReadErr => "peer resets",
            Do::WriteErr => "transport stops accepting",
            Do::Open(_) => "peer opens a gate",
            Do::Room(_) => "room in the transport",
        };
        let e2 = env.clone();
        env.event_when(
            label,
            false,
            move || d1.get() == k && trig_holds(&t, &io1),
            move || {
                d2.set(k + 1);
                match d {
                    Do::Send(b) => io2.push(&b),
                    Do::Eof => io2.push_eof(),
                    Do::ReadErr => io2.push_rerr(std::io::ErrorKind::ConnectionReset),
                    Do::WriteErr => io2.set_werr(std::io::ErrorKind::BrokenPipe),
                    Do::Open(n) => e2.open(n),
                    Do::Room(n) => io2.add_wcap(Some(n)),
                }
            },
        );
    }
    done
}

/// A future that an event completes once `cond` holds.
pub async fn wait_until(env: &E, label: &'static str, cond: impl Fn() -> bool + 'static) {
    if cond() {
        return;
    }
    let hit = Rc::new(Cell::new(false));
    let wk: Rc<RefCell<Option<std::task::Waker>>> = Default::default();
    let (h2, w2) = (hit.clone(), wk.clone());
    env.event_when(label, false, cond, move || {
        h2.set(true);
        if let Some(w) = w2.borrow_mut().take() {
            w.wake()
        }
    });
    std::future::poll_fn(move |cx| {
        if hit.get() {
            std::task::Poll::Ready(())
        } else {
            *wk.borrow_mut() = Some(cx.waker().clone());
            std::task::Poll::Pending
        }
    })
    .await
}

pub async fn run_call(env: E, tx: Rc<RefCell<Option<Tx>>>, recs: Recs, i: usize, c: Call, ups: Rc<RefCell<Vec<Result<hyper::upgrade::Upgraded, ErrInfo>>>>, on_up: Option<crate::h1srv::OnUp>) {
    let set = |o: Outcome| {
        env.ch.log(|| format!("  call{i} outcome {o:?}"));
        let mut r = recs.borrow_mut();
        r[i].outcome = o;
        r[i].outcomes += 1;
    };
    if c.ready {
        let r = std::future::poll_fn(|cx| match tx.borrow_mut().as_mut() {
            Some(t) => t.poll_ready(cx).map_err(|e| Some(errinfo(&e))),
            None => std::task::Poll::Ready(Err(None)),
        })
        .await;
        match r {
            Ok(()) => {}
            Err(Some(e)) => return set(Outcome::NotReady(e)),
            Err(None) => return set(Outcome::Cancelled),
        }
    }
    let info = recs.borrow()[i].info.clone();
    let (req, st) = build_req(&env, &c, &info);
    recs.borrow_mut()[i].body_stat = st;
    enum F {
        A(RespFut),
        B(TryFut),
    }
    let f = {
        let mut t = tx.borrow_mut();
        let t = match t.as_mut() {
            Some(t) => t,
            None => {
                drop(t);
                return set(Outcome::Cancelled);
            }
        };
        if c.recover {
            F::B(t.try_send_request(req))
        } else {
            F::A(t.send_request(req))
        }
    };
    recs.borrow_mut()[i].sent = true;
    env.ch.log(|| format!("  call{i}: {} {} handed to the connection", c.method, c.uri));
    let cancelled = Rc::new(Cell::new(false));
    let wk: Rc<RefCell<Option<std::task::Waker>>> = Default::default();
    if c.cancel {
        let (cn, w2, r2) = (cancelled.clone(), wk.clone(), recs.clone());
        env.event_when(
            "caller cancels",
            true,
            move || r2.borrow()[i].outcomes == 0,
            move || {
                cn.set(true);
                if let Some(w) = w2.borrow_mut().take() {
                    w.wake()
                }
            },
        );
    }
    let mut f = Some(f);
    let r = std::future::poll_fn(|cx| {
        if cancelled.get() {
            f = None;
            return std::task::Poll::Ready(None);
        }
        *wk.borrow_mut() = Some(cx.waker().clone());
        match f.as_mut().unwrap() {
            F::A(f) => f.as_mut().poll(cx).map(|r| Some(r.map_err(|e| (errinfo(&e), false)))),
            F::B(f) => f.as_mut().poll(cx).map(|r| {
                Some(r.map_err(|mut e| {
                    let m = e.take_message().is_some();
                    (errinfo(&e.into_error()), m)
                }))
            }),
        }
    })
    .await;
    drop(f);
    let mut resp = match r {
        None => return set(Outcome::Cancelled),
        Some(Err((e, back))) => return set(Outcome::Failed(e, back)),
        Some(Ok(r)) => r,
    };
    set(Outcome::Resp);
    let got = {
        let mut r = recs.borrow_mut();
        let rec = &mut r[i];
        rec.status = resp.status().as_u16();
        rec.version = Some(resp.version());
        rec.headers = flat(resp.headers());
        rec.reason = resp.extensions().get::<hyper::ext::ReasonPhrase>().map(|p| p.as_bytes().to_vec());
        let b = resp.body();
        use http_body::Body;
        let h = b.size_hint();
        rec.hint = Some((h.lower(), h.upper(), b.is_end_stream()));
        rec.got.clone()
    };
    env.ch.step(mix(i as u64, 21));
    if c.upgrade {
        let on = hyper::upgrade::on(&mut resp);
        match on_up {
            Some(f) => env.spawn("upgrade", f(on)),
            None => env.spawn("upgrade", async move {
                let r = on.await;
                ups.borrow_mut().push(r.map_err(|e| errinfo(&e)));
            }),
        }
    }
    match c.take {
        Take::Full => {
            let mut b = resp.into_body();
            read_body(&mut b, &got, usize::MAX).await;
        }
        Take::Late => {
            let mut b = resp.into_body();
            wait_event(&env, "reader-starts").await;
            read_body(&mut b, &got, usize::MAX).await;
        }
        Take::Frames(n) => {
            let mut b = resp.into_body();
            read_body(&mut b, &got, n).await;
        }
        Take::FullOrDrop => {
            read_or_drop(&env, resp.into_body(), &got).await;
        }
        Take::FramesHold(n) => {
            let mut b = resp.into_body();
            env.spawn("holder", async move {
                read_body(&mut b, &got, n).await;
                std::future::pending::<()>().await;
            });
        }
        Take::Drop => {
            got.borrow_mut().end = End::Stopped;
            drop(resp);
        }
        Take::Hold => {
            env.spawn("holder", async move {
                let _r = resp;
                std::future::pending::<()>().await;
            });
        }
    }
}
