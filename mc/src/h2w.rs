//! HTTP/2 worlds: hyper client to hyper server over one pipe, or either of them against a scripted raw peer.

use crate::core::*;
use crate::h1cli::{run_call, Call, Outcome, Recs, Tx};
use crate::h1srv::{errinfo, service, Beh, ErrInfo, ReqRec, SrvCfg, Ups};
use crate::h2ref::{self as r2, Reader};
use crate::world::*;
use hyper::client::conn::http2 as ch2;
use hyper::server::conn::http2 as sh2;
use hyper::service::service_fn;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub const G_TX: u32 = 9000;
/// the peer has begun
pub const G_PEER: u32 = 9001;

pub type CTweak = Rc<dyn Fn(&mut ch2::Builder<Exec>, &E)>;
pub type STweak = Rc<dyn Fn(&mut sh2::Builder<Exec>, &E)>;

pub struct H2 {
    pub w: World,
    pub env: E,
    pub pol: IoPolicy,
    pub cio: Io,
    pub sio: Io,
    /// what the client side / server side wrote
    pub cw: Rc<RefCell<Reader>>,
    pub sw: Rc<RefCell<Reader>>,
    // client side
    pub tx: Rc<RefCell<Option<Tx>>>,
    pub calls: Recs,
    pub finished: Rc<Cell<usize>>,
    pub cups: Ups,
    pub cres: Rc<RefCell<Option<Result<(), ErrInfo>>>>,
    pub cctl: Ctl,
    pub on_up_c: Option<crate::h1srv::OnUp>,
    pub call_ids: Vec<usize>,
    pub cdone_at: Rc<Cell<u64>>,
    // server side
    pub reqs: Rc<RefCell<Vec<ReqRec>>>,
    pub sups: Ups,
    pub sres: Rc<RefCell<Option<Result<(), ErrInfo>>>>,
    pub sctl: Ctl,
    pub sdone_at: Rc<Cell<u64>>,
}

#[derive(Clone)]
pub struct Peer {
    pub env: E,
    pub io: Io,
    pub rd: Rc<RefCell<Reader>>,
    pub sent: Rc<RefCell<Reader>>,
    log: Rc<RefCell<Vec<u8>>>,
    pub acked: Rc<Cell<usize>>,
    pub ponged: Rc<Cell<usize>>,
}
impl Peer {
    pub fn send(&self, b: &[u8]) {
        self.log.borrow_mut().extend_from_slice(b);
        self.sent.borrow_mut().feed(&self.log.borrow());
        self.env.ch.step(mix(b.len() as u64, 23));
        self.env.ch.log(|| format!("  peer sends {} bytes", b.len()));
        self.io.push(b);
        self.env.open(G_PEER);
    }
    pub fn eof(&self) {
        self.env.ch.log(|| "  peer closes".to_string());
        self.io.push_eof();
    }
    /// Waits until what the other side wrote satisfies `cond`.
    pub async fn wait<T>(&self, mut cond: impl FnMut(&Reader) -> Option<T>) -> T {
        let rd = self.rd.clone();
        self.io
            .watch(move |s| {
                let mut r = rd.borrow_mut();
                r.feed(&s.out[..s.flushed]);
                cond(&r)
            })
            .await
    }
    pub async fn until(&self, mut cond: impl FnMut(&Reader) -> bool) {
        self.wait(move |r| cond(r).then_some(())).await
    }
}

impl H2 {
    pub fn new(ch: &Ch, pol: IoPolicy) -> H2 {
        let w = World::new(ch);
        let env = w.env.clone();
        let (cio, sio) = (Io::new(&env, pol), Io::new(&env, pol));
        H2 {
            w,
            env,
            pol,
            cio,
            sio,
            cw: Rc::new(RefCell::new(Reader::new(true))),
            sw: Rc::new(RefCell::new(Reader::new(false))),
            tx: Default::default(),
            calls: Default::default(),
            finished: Default::default(),
            cups: Default::default(),
            cres: Default::default(),
            cctl: Default::default(),
            on_up_c: None,
            call_ids: vec![],
            cdone_at: Rc::new(Cell::new(u64::MAX)),
            reqs: Default::default(),
            sups: Default::default(),
            sres: Default::default(),
            sctl: Default::default(),
            sdone_at: Rc::new(Cell::new(u64::MAX)),
        }
    }
    /// Both ends are hyper.
    pub fn pair(ch: &Ch, pol: IoPolicy, c: CTweak, s: STweak, behs: Vec<Beh>) -> H2 {
        let mut h = H2::new(ch, pol);
        h.cio.join(&h.sio);
        h.client(c);
        let mut cfg = SrvCfg::new(behs);
        cfg.by_path = true;
        h.server(s, cfg);
        h
    }
    pub fn client(&mut self, tweak: CTweak) -> usize {
        let (env, io, tx, res, ctl, done) = (self.env.clone(), self.cio.clone(), self.tx.clone(), self.cres.clone(), self.cctl.clone(), self.cdone_at.clone());
        self.w.add("c-conn", async move {
            let mut b = ch2::Builder::new(Exec::named(&env, "c-task"));
            tweak(&mut b, &env);
            let hs = b.handshake::<HIo, SBody>(HIo::new(&io)).await;
            let conn = match hs {
                Ok((t, c)) => {
                    *tx.borrow_mut() = Some(Tx::H2(t));
                    c
                }
                Err(e) => {
                    env.ch.log(|| format!("  client handshake failed: {e}"));
                    *res.borrow_mut() = Some(Err(errinfo(&e)));
                    env.open(G_TX);
                    return;
                }
            };
            env.open(G_TX);
            let mut conn = Box::pin(conn);
            let r = std::future::poll_fn(|cx| {
                ctl.listen(cx);
                if ctl.0.kill.get() {
                    return Poll::Ready(None);
                }
                conn.as_mut().poll(cx).map(Some)
            })
            .await;
            match r {
                Some(r) => {
                    env.ch.log(|| format!("  client connection result: {r:?}"));
                    done.set(env.now.get());
                    *res.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
                }
                None => {
                    env.ch.log(|| "  client connection dropped".to_string());
                    drop(conn);
                    ctl.0.killed.set(true);
                }
            }
        })
    }
    pub fn server(&mut self, tweak: STweak, cfg: SrvCfg) -> usize {
        let svc = service_fn(service(&self.env, &self.sio, &self.reqs, &self.sups, &cfg));
        let mut b = sh2::Builder::new(Exec::named(&self.env, "s-task"));
        b.auto_date_header(false);
        tweak(&mut b, &self.env);
        let mut conn = Box::pin(b.serve_connection(HIo::new(&self.sio), svc));
        let (env, res, ctl, done) = (self.env.clone(), self.sres.clone(), self.sctl.clone(), self.sdone_at.clone());
        self.w.add("s-conn", async move {
            let mut applied = false;
            let r = std::future::poll_fn(|cx| {
                ctl.listen(cx);
                if ctl.0.kill.get() {
                    return Poll::Ready(None);
                }
                if ctl.0.graceful.get() && !applied {
                    applied = true;
                    conn.as_mut().graceful_shutdown();
                }
                conn.as_mut().poll(cx).map(Some)
            })
            .await;
            match r {
                Some(r) => {
                    env.ch.log(|| format!("  server connection result: {r:?}"));
                    done.set(env.now.get());
                    *res.borrow_mut() = Some(r.map_err(|e| errinfo(&e)));
                }
                None => {
                    env.ch.log(|| "  server connection dropped".to_string());
                    drop(conn);
                    ctl.0.killed.set(true);
                }
            }
        })
    }
    /// A raw peer in place of the server.
    pub fn raw_server(&mut self) -> Peer {
        Peer { env: self.env.clone(), io: self.cio.clone(), rd: self.cw.clone(), sent: self.sw.clone(), log: Default::default(), acked: Default::default(), ponged: Default::default() }
    }
    /// A raw peer in place of the client.
    pub fn raw_client(&mut self) -> Peer {
        Peer { env: self.env.clone(), io: self.sio.clone(), rd: self.sw.clone(), sent: self.cw.clone(), log: Default::default(), acked: Default::default(), ponged: Default::default() }
    }
    /// Acknowledges settings, and the first `pongs` pings.
    pub fn auto(&mut self, p: &Peer, pongs: usize) {
        let p = p.clone();
        self.w.add("peer-auto", async move {
            p.env.gate(G_PEER).await;
            loop {
                let (a, g) = (p.acked.clone(), p.ponged.clone());
                let (s, g) = p
                    .wait(move |r| {
                        let s = r.settings.len() - a.get();
                        let g: Vec<[u8; 8]> = r.pings.iter().take(pongs).skip(g.get()).copied().collect();
                        (s > 0 || !g.is_empty()).then_some((s, g))
                    })
                    .await;
                let mut b = vec![];
                for _ in 0..s {
                    b.extend(r2::settings_ack());
                }
                for x in &g {
                    b.extend(r2::ping(true, *x));
                }
                p.acked.set(p.acked.get() + s);
                p.ponged.set(p.ponged.get() + g.len());
                p.send(&b);
            }
        });
    }
    /// A caller on the client; returns its record's index.
    pub fn caller(&mut self, c: Call) -> usize {
        let i = self.calls.borrow().len();
        self.calls.borrow_mut().push(Default::default());
        let (env, tx, recs, fin, ups) = (self.env.clone(), self.tx.clone(), self.calls.clone(), self.finished.clone(), self.cups.clone());
        let on_up = self.on_up_c.clone();
        let id = self.w.add(format!("call{i}"), async move {
            env.gate(G_TX).await;
            if c.after > 0 {
                crate::h1cli::wait_until(&env, "turn", {
                    let fin = fin.clone();
                    let n = c.after;
                    move || fin.get() >= n
                })
                .await;
            }
            run_call(env, tx, recs.clone(), i, c, ups, on_up).await;
            recs.borrow_mut()[i].done = true;
            fin.set(fin.get() + 1);
        });
        self.call_ids.push(id);
        i
    }
    pub fn drop_sender(&self) {
        let t = self.tx.borrow_mut().take();
        drop(t);
    }
    /// Reads what was written up to now.
    pub fn sync(&self) {
        self.cw.borrow_mut().feed(&self.cio.s.borrow().out);
        self.sw.borrow_mut().feed(&self.sio.s.borrow().out);
    }
    /// With raw peers only one side is read from a transport.
    pub fn sync_client(&self) {
        self.cw.borrow_mut().feed(&self.cio.s.borrow().out);
    }
    pub fn sync_server(&self) {
        self.sw.borrow_mut().feed(&self.sio.s.borrow().out);
    }
    pub fn summary(&self) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        for (i, r) in self.calls.borrow().iter().enumerate() {
            let g = r.got.borrow();
            let _ = writeln!(s, "call{i}: {:?} {} {:?} body={}({} bytes) end={:?} trailers={:?}", r.outcome, r.status, r.headers.iter().map(|(n, v)| format!("{n}: {}", esc(v))).collect::<Vec<_>>(), esc(&g.data[..g.data.len().min(40)]), g.data.len(), g.end, g.trailers);
        }
        for (i, r) in self.reqs.borrow().iter().enumerate() {
            let g = r.got.borrow();
            let _ = writeln!(s, "request{i}: {} {} body={}({} bytes) end={:?} trailers={:?} responded={}", r.method, r.uri, esc(&g.data[..g.data.len().min(40)]), g.data.len(), g.end, g.trailers, r.responded);
        }
        let _ = writeln!(s, "client: {:?} server: {:?} unfinished: {:?}", self.cres.borrow(), self.sres.borrow(), self.w.unfinished());
        let _ = writeln!(s, "client wrote:\n{}server wrote:\n{}", self.cw.borrow().show(), self.sw.borrow().show());
        s
    }
    /// What must hold in every world: readable frames, the body contract, nothing spinning.
    pub fn contract(&self) -> Result<(), Viol> {
        for (who, r) in [("client", &self.cw), ("server", &self.sw)] {
            if let Some(e) = &r.borrow().err {
                return viol(format!("{who} wrote unreadable frames"), format!("{e}\n{}", self.summary()));
            }
        }
        for r in self.calls.borrow().iter() {
            if let Some(b) = &r.got.borrow().bad {
                return viol(format!("response body contract: {}", digits(b)), format!("{b}\n{}", self.summary()));
            }
            if r.outcomes > 1 {
                return viol("more than one outcome for a call", self.summary());
            }
        }
        for r in self.reqs.borrow().iter() {
            if let Some(b) = &r.got.borrow().bad {
                return viol(format!("request body contract: {}", digits(b)), format!("{b}\n{}", self.summary()));
            }
        }
        if let Some(t) = &*self.env.spin.borrow() {
            return viol(format!("{t} keeps waking itself"), self.summary());
        }
        Ok(())
    }
    pub fn fp(&self) -> u64 {
        let mut h = 0;
        for r in self.calls.borrow().iter() {
            let g = r.got.borrow();
            h = mix(h, hash_bytes(format!("{:?}{}{:?}", r.outcome, g.data.len(), g.end).as_bytes()));
        }
        for r in self.reqs.borrow().iter() {
            let g = r.got.borrow();
            h = mix(h, hash_bytes(format!("{}{}{:?}", r.uri, g.data.len(), g.end).as_bytes()));
        }
        h = mix(h, self.cw.borrow().frames.len() as u64);
        mix(h, self.sw.borrow().frames.len() as u64)
    }
    pub fn outcome(&self, i: usize) -> Outcome {
        self.calls.borrow()[i].outcome.clone()
    }
}
/// Numbers out of a signature.
pub fn digits(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn ct(f: impl Fn(&mut ch2::Builder<Exec>, &E) + 'static) -> CTweak {
    Rc::new(f)
}
pub fn st(f: impl Fn(&mut sh2::Builder<Exec>, &E) + 'static) -> STweak {
    Rc::new(f)
}
pub type Scr = Pin<Box<dyn Future<Output = ()>>>;
