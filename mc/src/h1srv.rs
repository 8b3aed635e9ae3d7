//! HTTP/1 server under test: hyper's server connection over the scripted transport, with a scripted service.

use crate::core::*;
use crate::h1ref;
use crate::world::*;
use http::{HeaderName, HeaderValue, Request, Response, StatusCode, Version};
use hyper::body::Incoming;
use hyper::server::conn::http1;
use hyper::service::service_fn;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Debug, PartialEq)]
pub enum Consume {
    /// read the request body to its end before responding
    Full,
    /// never touch the body; drop it with the request before responding
    DropFirst,
    /// respond while holding the body, drop it when the response future is done
    Ignore,
    /// read n frames, then drop it, then respond
    Frames(usize),
    /// respond at once; a separate task reads the body to the end
    Spawned,
    /// like Spawned, but the task starts reading only after an event
    SpawnedLate,
    /// respond at once; a separate task holds the body unread until the end of the run
    HoldForever,
    /// read the body to its end before responding; an event may drop it at any moment
    FullOrDrop,
    /// respond at once; a separate task reads the body; an event may drop it at any moment
    SpawnedOrDrop,
    /// respond at once; a separate task reads n frames and then holds the body for good
    FramesHold(usize),
    /// read n frames, then hold the body for good and never respond
    FramesStuck(usize),
    /// the response body is the request body, passed on
    Echo,
    /// forward the request over a client connection, and its response back
    Proxy,
}
#[derive(Clone, Debug)]
pub struct RespSpec {
    pub status: u16,
    pub version: Option<Version>,
    pub headers: Vec<(&'static str, &'static [u8])>,
    pub body: BodySpec,
    pub reason: Option<&'static [u8]>,
}
impl RespSpec {
    pub fn ok(b: &str) -> RespSpec {
        RespSpec { status: 200, version: None, headers: vec![], body: if b.is_empty() { BodySpec::empty() } else { BodySpec::full(b.as_bytes()) }, reason: None }
    }
    pub fn build(&self, env: &E) -> (Response<SBody>, Rc<RefCell<BodyStat>>) {
        let b = SBody::new(env, &self.body);
        let st = b.stat.0.clone();
        let mut r = Response::new(b);
        *r.status_mut() = StatusCode::from_u16(self.status).unwrap();
        if let Some(v) = self.version {
            *r.version_mut() = v;
        }
        for (n, v) in &self.headers {
            r.headers_mut().append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
        }
        if let Some(x) = self.reason {
            r.extensions_mut().insert(hyper::ext::ReasonPhrase::try_from(x.to_vec()).unwrap());
        }
        (r, st)
    }
}
#[derive(Clone, Debug)]
pub struct Beh {
    pub consume: Consume,
    /// wait for an event before reading the body / before responding
    pub delay: bool,
    /// wait for an event after dealing with the body, before responding
    pub late: bool,
    /// never respond
    pub stuck: bool,
    pub fail: bool,
    pub resp: RespSpec,
    /// echo the received body instead of resp.body (Full only)
    pub upgrade: bool,
}
impl Beh {
    pub fn simple(b: &str) -> Beh {
        Beh { consume: Consume::Full, delay: false, late: false, stuck: false, fail: false, resp: RespSpec::ok(b), upgrade: false }
    }
    pub fn consume(mut self, c: Consume) -> Beh {
        self.consume = c;
        self
    }
    pub fn delay(mut self) -> Beh {
        self.delay = true;
        self
    }
    pub fn late(mut self) -> Beh {
        self.late = true;
        self
    }
    pub fn stuck(mut self) -> Beh {
        self.stuck = true;
        self
    }
    pub fn resp(mut self, r: RespSpec) -> Beh {
        self.resp = r;
        self
    }
}

pub struct ReqRec {
    pub method: String,
    pub uri: String,
    pub version: Version,
    pub headers: Vec<(String, Vec<u8>)>,
    pub got: Rc<RefCell<Got>>,
    pub resp_stat: Rc<RefCell<BodyStat>>,
    pub responded: bool,
    /// the service's future is over (finished or dropped)
    pub gone: Rc<Cell<bool>>,
    pub out_at_call: usize,
    pub time: u64,
    pub protocol: Option<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct ErrInfo {
    pub text: String,
    pub parse: bool,
    pub too_large: bool,
    pub incomplete: bool,
    pub timeout: bool,
    pub user: bool,
    pub canceled: bool,
    pub closed: bool,
    pub aborted: bool,
}
pub fn errinfo(e: &hyper::Error) -> ErrInfo {
    ErrInfo {
        text: format!("{e}"),
        parse: e.is_parse(),
        too_large: e.is_parse_too_large(),
        incomplete: e.is_incomplete_message(),
        timeout: e.is_timeout(),
        user: e.is_user(),
        canceled: e.is_canceled(),
        closed: e.is_closed(),
        aborted: e.is_body_write_aborted(),
    }
}

/// What is done with an upgrade future, as a task of its own.
pub type OnUp = Rc<dyn Fn(hyper::upgrade::OnUpgrade) -> LocalFut>;
pub struct SrvCfg {
    pub on_up: Option<OnUp>,
    pub tweak: Rc<dyn Fn(&mut http1::Builder, &E)>,
    pub pol: IoPolicy,
    pub upgrades: bool,
    /// drive the connection with poll_without_shutdown and take it apart at its end
    pub manual: bool,
    pub proxy: Option<Rc<RefCell<Option<crate::h1cli::Tx>>>>,
    pub behs: Vec<Beh>,
    /// the last digit of the path selects the behaviour (instead of the order of arrival)
    pub by_path: bool,
    /// behaviour of requests beyond `behs`
    pub default: Beh,
}
impl SrvCfg {
    pub fn new(behs: Vec<Beh>) -> SrvCfg {
        SrvCfg { on_up: None, tweak: Rc::new(|_, _| {}), pol: IO_ALL, upgrades: false, manual: false, proxy: None, by_path: false, default: behs.last().cloned().unwrap_or_else(|| Beh::simple("ok")), behs }
    }
    pub fn pol(mut self, p: IoPolicy) -> SrvCfg {
        self.pol = p;
        self
    }
    pub fn tweak(mut self, f: impl Fn(&mut http1::Builder, &E) + 'static) -> SrvCfg {
        self.tweak = Rc::new(f);
        self
    }
}

#[derive(Debug)]
pub struct SvcErr;
impl std::fmt::Display for SvcErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scripted service error")
    }
}
impl std::error::Error for SvcErr {}

pub struct Srv {
    pub w: World,
    pub env: E,
    pub io: Io,
    pub recs: Rc<RefCell<Vec<ReqRec>>>,
    pub result: Rc<RefCell<Option<Result<(), ErrInfo>>>>,
    pub conn: usize,
    pub ctl: Ctl,
    pub upgraded: Rc<RefCell<Vec<Result<hyper::upgrade::Upgraded, ErrInfo>>>>,
    pub done_at: Rc<Cell<u64>>,
    pub parts: Rc<RefCell<Option<(HIo, bytes::Bytes)>>>,
}

struct Gone(Rc<Cell<bool>>);
impl Drop for Gone {
    fn drop(&mut self) {
        self.0.set(true)
    }
}
pub type SvcFut = Pin<Box<dyn Future<Output = Result<Response<SBody>, SvcErr>>>>;
pub type Ups = Rc<RefCell<Vec<Result<hyper::upgrade::Upgraded, ErrInfo>>>>;
/// The scripted service.
pub fn service(env: &E, io: &Io, recs: &Rc<RefCell<Vec<ReqRec>>>, upgraded: &Ups, cfg: &SrvCfg) -> impl Fn(Request<Incoming>) -> SvcFut {
    let (recs2, env2, io2, up2) = (recs.clone(), env.clone(), io.clone(), upgraded.clone());
    let (behs, default, by_path) = (cfg.behs.clone(), cfg.default.clone(), cfg.by_path);
    let proxy = cfg.proxy.clone();
    let on_up = cfg.on_up.clone();
    let n = Rc::new(Cell::new(0usize));
    move |req: Request<Incoming>| {
        let i = n.get();
        n.set(i + 1);
        let k = if by_path { req.uri().path().bytes().last().map_or(usize::MAX, |c| c.wrapping_sub(b'0') as usize) } else { i };
        let beh = behs.get(k).cloned().unwrap_or_else(|| default.clone());
        let (env, recs) = (env2.clone(), recs2.clone());
        env.op();
        let proxy = proxy.clone();
        let got: Rc<RefCell<Got>> = Default::default();
        let gone: Rc<Cell<bool>> = Default::default();
        let up2 = up2.clone();
        let on_up = on_up.clone();
        recs.borrow_mut().push(ReqRec {
            method: req.method().to_string(),
            uri: req.uri().to_string(),
            version: req.version(),
            headers: flat(req.headers()),
            got: got.clone(),
            resp_stat: Default::default(),
            responded: false,
            gone: gone.clone(),
            out_at_call: io2.s.borrow().out.len(),
            time: env.now.get(),
            protocol: req.extensions().get::<hyper::ext::Protocol>().map(|p| p.as_str().to_string()),
        });
        env.ch.log(|| format!("  service called: {} {}", req.method(), req.uri()));
        env.ch.step(mix(i as u64, 13));
        let f: Pin<Box<dyn Future<Output = Result<Response<SBody>, SvcErr>>>> = Box::pin(async move {
            let _gone = Gone(gone);
            let mut req = req;
            if beh.upgrade {
                let on = hyper::upgrade::on(&mut req);
                match on_up {
                    Some(f) => env.spawn("upgrade", f(on)),
                    None => env.spawn("upgrade", async move {
                        let r = on.await;
                        up2.borrow_mut().push(r.map_err(|e| errinfo(&e)));
                    }),
                }
            }
            if beh.delay {
                wait_event(&env, "service-ready").await;
            }
            let mut keep = None;
            let mut echo = None;
            match beh.consume {
                Consume::Echo => {
                    got.borrow_mut().end = End::Stopped;
                    echo = Some(SBody::from_incoming(&env, req.into_body()));
                }
                Consume::Proxy => {
                    got.borrow_mut().end = End::Stopped;
                    let tx = proxy.expect("proxy");
                    let ready = std::future::poll_fn(|cx| match tx.borrow_mut().as_mut() {
                        Some(t) => t.poll_ready(cx),
                        None => Poll::Pending,
                    })
                    .await;
                    if ready.is_err() {
                        return Err(SvcErr);
                    }
                    let (parts, body) = req.into_parts();
                    let q = Request::from_parts(parts, SBody::from_incoming(&env, body));
                    let f = tx.borrow_mut().as_mut().unwrap().send_request(q);
                    let r = match f.await {
                        Ok(r) => r,
                        Err(_) => return Err(SvcErr),
                    };
                    recs.borrow_mut()[i].responded = true;
                    let (parts, body) = r.into_parts();
                    return Ok(Response::from_parts(parts, SBody::from_incoming(&env, body)));
                }
                Consume::Full => {
                    let mut body = req.into_body();
                    read_body(&mut body, &got, usize::MAX).await;
                }
                Consume::DropFirst => {
                    got.borrow_mut().end = End::Stopped;
                    drop(req)
                }
                Consume::Ignore => {
                    got.borrow_mut().end = End::Stopped;
                    keep = Some(req.into_body())
                }
                Consume::Frames(k) => {
                    let mut body = req.into_body();
                    read_body(&mut body, &got, k).await;
                }
                Consume::Spawned => {
                    let mut body = req.into_body();
                    let got = got.clone();
                    env.spawn("body-reader", async move {
                        read_body(&mut body, &got, usize::MAX).await;
                    });
                }
                Consume::SpawnedLate => {
                    let mut body = req.into_body();
                    let got = got.clone();
                    let e2 = env.clone();
                    env.spawn("body-reader", async move {
                        wait_event(&e2, "reader-starts").await;
                        read_body(&mut body, &got, usize::MAX).await;
                    });
                }
                Consume::FullOrDrop => {
                    read_or_drop(&env, req.into_body(), &got).await;
                }
                Consume::SpawnedOrDrop => {
                    let got = got.clone();
                    let body = req.into_body();
                    let e2 = env.clone();
                    env.spawn("body-reader", async move {
                        read_or_drop(&e2, body, &got).await;
                    });
                }
                Consume::FramesHold(k) => {
                    let mut body = req.into_body();
                    let got = got.clone();
                    env.spawn("holder", async move {
                        read_body(&mut body, &got, k).await;
                        std::future::pending::<()>().await;
                    });
                }
                Consume::FramesStuck(k) => {
                    let mut body = req.into_body();
                    read_body(&mut body, &got, k).await;
                    std::future::pending::<()>().await;
                }
                Consume::HoldForever => {
                    let body = req.into_body();
                    env.spawn("holder", async move {
                        let _b = body;
                        std::future::pending::<()>().await;
                    });
                }
            }
            if beh.stuck {
                std::future::pending::<()>().await;
            }
            if beh.late {
                wait_event(&env, "response-ready").await;
            }
            let _ = &keep;
            if beh.fail {
                return Err(SvcErr);
            }
            let (mut resp, mut st) = beh.resp.build(&env);
            if let Some(b) = echo {
                st = b.stat.0.clone();
                *resp.body_mut() = b;
            }
            {
                let mut r = recs.borrow_mut();
                r[i].resp_stat = st;
                r[i].responded = true;
            }
            Ok::<_, SvcErr>(resp)
        });
        f
    }
}

pub fn start(ch: &Ch, cfg: SrvCfg) -> Srv {
    let mut w = World::new(ch);
    let env = w.env.clone();
    let io = Io::new(&env, cfg.pol);
    let recs: Rc<RefCell<Vec<ReqRec>>> = Default::default();
    let upgraded: Rc<RefCell<Vec<Result<hyper::upgrade::Upgraded, ErrInfo>>>> = Default::default();
    let mut b = http1::Builder::new();
    (cfg.tweak)(&mut b, &env);
    let svc = service_fn(service(&env, &io, &recs, &upgraded, &cfg));
    let ctl = Ctl::default();
    let result: Rc<RefCell<Option<Result<(), ErrInfo>>>> = Default::default();
    let done_at = Rc::new(Cell::new(u64::MAX));
    let conn = b.serve_connection(HIo::new(&io), svc);
    let parts: Rc<RefCell<Option<(HIo, bytes::Bytes)>>> = Default::default();
    let (g2, r2, d2, e2) = (ctl.clone(), result.clone(), done_at.clone(), env.clone());
    let id = if cfg.upgrades {
        let mut conn = Box::pin(conn.with_upgrades());
        w.add("conn", async move {
            let mut applied = false;
            let r = std::future::poll_fn(|cx| {
                g2.listen(cx);
                if g2.0.kill.get() {
                    return Poll::Ready(None);
                }
                if g2.0.graceful.get() && !applied {
                    applied = true;
                    conn.as_mut().graceful_shutdown();
                }
                conn.as_mut().poll(cx).map(Some)
            })
            .await;
            if let Some(r) = r {
                e2.ch.log(|| format!("  connection result: {r:?}"));
                d2.set(e2.now.get());
                *r2.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
            } else {
                drop(conn);
                g2.0.killed.set(true);
            }
        })
    } else if cfg.manual {
        let mut conn = Some(conn);
        let p2 = parts.clone();
        w.add("conn", async move {
            let mut applied = false;
            let r = std::future::poll_fn(|cx| {
                g2.listen(cx);
                if g2.0.kill.get() {
                    return Poll::Ready(None);
                }
                if g2.0.graceful.get() && !applied {
                    applied = true;
                    Pin::new(conn.as_mut().unwrap()).graceful_shutdown();
                }
                conn.as_mut().unwrap().poll_without_shutdown(cx).map(Some)
            })
            .await;
            if let Some(r) = r {
                e2.ch.log(|| format!("  connection result: {r:?}"));
                d2.set(e2.now.get());
                *r2.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
                let p = conn.take().unwrap().into_parts();
                *p2.borrow_mut() = Some((p.io, p.read_buf));
            } else {
                drop(conn);
                g2.0.killed.set(true);
            }
        })
    } else {
        let mut conn = Box::pin(conn);
        w.add("conn", async move {
            let mut applied = false;
            let r = std::future::poll_fn(|cx| {
                g2.listen(cx);
                if g2.0.kill.get() {
                    return Poll::Ready(None);
                }
                if g2.0.graceful.get() && !applied {
                    applied = true;
                    conn.as_mut().graceful_shutdown();
                }
                conn.as_mut().poll(cx).map(Some)
            })
            .await;
            if let Some(r) = r {
                e2.ch.log(|| format!("  connection result: {r:?}"));
                d2.set(e2.now.get());
                *r2.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
            } else {
                drop(conn);
                g2.0.killed.set(true);
            }
        })
    };
    Srv { w, env, io, recs, result, conn: id, ctl, upgraded, done_at, parts }
}

impl Srv {
    pub fn methods(&self) -> Vec<String> {
        self.recs.borrow().iter().map(|r| r.method.clone()).collect()
    }
    pub fn responses(&self) -> h1ref::Stream {
        let eof = self.io.s.borrow().shut || self.io.s.borrow().dropped;
        h1ref::responses(&self.io.s.borrow().out, &self.methods(), eof)
    }
    /// A canonical rendering of everything the service saw.
    pub fn seen(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        for r in self.recs.borrow().iter() {
            let g = r.got.borrow();
            let _ = write!(s, "{} {} {:?} [", r.method, r.uri, r.version);
            for (n, v) in &r.headers {
                let _ = write!(s, "{}: {}|", n, esc(v));
            }
            let _ = write!(s, "] body={} end={:?}", esc(&g.data), g.end);
            if let Some(t) = &g.trailers {
                let _ = write!(s, " trailers={:?}", t.iter().map(|(n, v)| format!("{n}: {}", esc(v))).collect::<Vec<_>>());
            }
            s.push('\n');
        }
        s
    }
    pub fn contract_violation(&self) -> Option<String> {
        for r in self.recs.borrow().iter() {
            if let Some(b) = &r.got.borrow().bad {
                return Some(b.clone());
            }
        }
        None
    }
}

pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    Pin::new(f).poll(&mut cx)
}
