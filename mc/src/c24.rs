//! C24: HTTP/2 flow control is honoured and bounded by consumption.
//!
//! A raw peer that keeps its own books sends as much as hyper's windows admit, or grants hyper's sender windows bit by bit.

use crate::c18::{cwin, req, resp, swin, Win};
use crate::core::*;
use crate::h1cli::{Call, Outcome, Take};
use crate::h1srv::{Consume, SrvCfg};
use crate::h2ref as r2;
use crate::h2w::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Server,
    Client,
}
/// What the user does with an incoming body.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use {
    Read,
    Late,
    Drop,
    /// this many frames, then dropped
    Frames(usize),
    Hold,
    /// this many frames, then kept
    FramesHold(usize),
    OrDrop,
}
impl Use {
    fn consume(self) -> Consume {
        match self {
            Use::Read => Consume::Full,
            Use::Late => Consume::SpawnedLate,
            Use::Drop => Consume::DropFirst,
            Use::Frames(n) => Consume::Frames(n),
            Use::Hold => Consume::HoldForever,
            Use::FramesHold(n) => Consume::FramesHold(n),
            Use::OrDrop => Consume::FullOrDrop,
        }
    }
    fn take(self) -> Take {
        match self {
            Use::Read => Take::Full,
            Use::Late => Take::Late,
            Use::Drop => Take::Drop,
            Use::Frames(n) => Take::Frames(n),
            Use::Hold => Take::Hold,
            Use::FramesHold(n) => Take::FramesHold(n),
            Use::OrDrop => Take::FullOrDrop,
        }
    }
    fn holds(self) -> bool {
        matches!(self, Use::Hold | Use::FramesHold(_))
    }
}
#[derive(Clone, Debug)]
struct Rx {
    role: Role,
    stream: Option<u32>,
    conn: Option<u32>,
    adaptive: bool,
    /// per stream: how it is used, and how much is sent
    uses: Vec<(Use, usize)>,
    frame: usize,
    pad: usize,
    /// one after the other
    seq: bool,
    /// keeps sending although the stream was reset
    deaf: bool,
    /// in the end, this many bytes more than the window
    excess: usize,
    pol: IoPolicy,
}
/// The sender's books.
#[derive(Default)]
struct Book {
    sent: RefCell<Vec<usize>>,
    flow: RefCell<Vec<usize>>,
    conn: Cell<usize>,
    done: RefCell<Vec<bool>>,
    /// bytes beyond any window were sent
    cheated: Cell<bool>,
}
fn fill(k: usize, at: usize, n: usize) -> Vec<u8> {
    (at..at + n).map(|i| (i % 253) as u8 ^ (k as u8)).collect()
}
fn window_of(r: &r2::Reader) -> usize {
    r.settings.first().and_then(|s| s.iter().find(|x| x.0 == 4)).map_or(65535, |x| x.1 as usize)
}
/// Sends body `k` on stream `id` as fast as the windows admit.
async fn greedy(p: Peer, x: Rc<Rx>, book: Rc<Book>, k: usize, id: u32) {
    let total = x.uses[k].1;
    if total == 0 {
        p.send(&r2::data(id, b"", true));
    }
    loop {
        let sent = book.sent.borrow()[k];
        if sent == total {
            break;
        }
        let (b, deaf) = (book.clone(), x.deaf);
        let pad = x.pad;
        let flow = book.flow.borrow()[k];
        let room = p
            .wait(move |r| {
                if r.settings.is_empty() {
                    return None;
                }
                let s = r.get(id);
                if s.rst.is_some() && !deaf {
                    return Some(0);
                }
                let a = (window_of(r) as u64 + s.windows).saturating_sub(flow as u64) as usize;
                let c = (65535 + r.conn_windows).saturating_sub(b.conn.get() as u64) as usize;
                let over = if pad > 0 { pad + 1 } else { 0 };
                let m = a.min(c);
                (m > over).then(|| m - over)
            })
            .await;
        if room == 0 {
            return;
        }
        let n = room.min(x.frame).min(total - sent);
        let last = sent + n == total;
        let d = fill(k, sent, n);
        let cost = if x.pad > 0 {
            let mut v = vec![x.pad as u8];
            v.extend(&d);
            v.resize(v.len() + x.pad, 0);
            p.send(&r2::frame(0, 8 | last as u8, id, &v));
            v.len()
        } else {
            p.send(&r2::data(id, &d, last));
            n
        };
        book.sent.borrow_mut()[k] += n;
        book.flow.borrow_mut()[k] += cost;
        book.conn.set(book.conn.get() + cost);
    }
    book.done.borrow_mut()[k] = true;
}
fn rx(ch: &Ch, x: Rx) -> ExecResult {
    let x = Rc::new(x);
    let win = Win { stream: x.stream, conn: x.conn, adaptive: x.adaptive, ..Win::default() };
    let mut h = H2::new(ch, x.pol);
    h.w.max_steps = 40_000;
    let n = x.uses.len();
    let book = Rc::new(Book { sent: RefCell::new(vec![0; n]), flow: RefCell::new(vec![0; n]), done: RefCell::new(vec![false; n]), ..Book::default() });
    let p = match x.role {
        Role::Server => {
            let behs = x.uses.iter().enumerate().map(|(k, u)| resp(k, BodySpec::empty()).consume(u.0.consume())).collect();
            let mut cfg = SrvCfg::new(behs);
            cfg.by_path = true;
            h.server(swin(win), cfg);
            let p = h.raw_client();
            h.auto(&p, 9);
            let mut y = r2::PREFACE.to_vec();
            y.extend(r2::settings(&[]));
            p.send(&y);
            p
        }
        Role::Client => {
            h.client(cwin(win));
            let p = h.raw_server();
            h.auto(&p, 9);
            p.send(&r2::settings(&[]));
            p
        }
    };
    h.w.run();
    for k in 0..n {
        let id = 2 * k as u32 + 1;
        let (p2, x2, b2) = (p.clone(), x.clone(), book.clone());
        match x.role {
            Role::Server => {
                p.send(&r2::headers(id, &[(":method", "POST"), (":scheme", "http"), (":authority", "h"), (":path", &format!("/p/{k}"))], false));
                h.w.add(format!("peer-{k}"), greedy(p2, x2, b2, k, id));
            }
            Role::Client => {
                let mut c = req(k, BodySpec::empty());
                c.take = x.uses[k].0.take();
                h.caller(c);
                h.w.add(format!("peer-{k}"), async move {
                    let path = format!("http://h/p/{k}");
                    let q = path.clone();
                    p2.until(move |r| crate::c19::sid(r, &q).is_some()).await;
                    let id = crate::c19::sid(&p2.rd.borrow(), &path).unwrap();
                    p2.send(&r2::ok(id, &[], false));
                    greedy(p2, x2, b2, k, id).await
                });
            }
        }
        if x.seq {
            h.w.run();
        }
    }
    h.w.run();
    if x.adaptive {
        while h.w.advance(60_000) {
            h.w.run();
        }
    }
    if x.excess > 0 {
        // the last stream, which is held: one byte more than was granted
        let k = n - 1;
        let id = match x.role {
            Role::Server => 2 * k as u32 + 1,
            Role::Client => crate::c19::sid(&h.cw.borrow(), &format!("http://h/p/{k}")).unwrap_or(1),
        };
        book.cheated.set(true);
        let room = {
            let r = p.rd.borrow();
            (window_of(&r) as u64 + r.get(id).windows) as usize - book.flow.borrow()[k]
        };
        if book.sent.borrow()[k] < x.uses[k].1 {
            p.send(&r2::data(id, &fill(k, book.sent.borrow()[k], room + x.excess), false));
            h.w.run();
        }
    }
    h.sync();
    h.contract()?;
    let r = if x.role == Role::Server { h.sw.borrow() } else { h.cw.borrow() };
    let sh = || format!("{x:?}\nsent {:?} flow {:?} conn {} granted {}\n{}", book.sent.borrow(), book.flow.borrow(), book.conn.get(), r.conn_windows, h.summary());
    let w = window_of(&r) as u64;
    if let Some(s) = x.stream {
        if w != s as u64 {
            return viol("the configured window is not advertised", sh());
        }
    }
    let mut released = 0u64;
    let mut held = 0u64;
    for k in 0..n {
        let uri = format!("http://h/p/{k}");
        let (id, got, over) = match x.role {
            Role::Server => (2 * k as u32 + 1, h.reqs.borrow().iter().find(|q| q.uri.ends_with(&format!("/p/{k}"))).map(|q| q.got.clone()), h.reqs.borrow().iter().any(|q| q.uri.ends_with(&format!("/p/{k}")))),
            Role::Client => {
                let q = h.calls.borrow();
                (crate::c19::sid(&r, &uri).unwrap_or(0), Some(q[k].got.clone()), q[k].outcome == Outcome::Resp)
            }
        };
        let Some(got) = got else { return viol("an exchange next to a slow one does not start", sh()) };
        if !over {
            return viol("an exchange next to a slow one does not start", sh());
        }
        let g = got.borrow();
        let (u, total) = x.uses[k];
        let s = r.get(id);
        let (sent, flow) = (book.sent.borrow()[k], book.flow.borrow()[k] as u64);
        let pads = flow - sent as u64;
        if !fill(k, 0, sent + x.excess + w as usize).starts_with(&g.data) || !x.uses[k].0.holds() && g.data.len() > sent {
            return viol("the bytes read are not those sent", sh());
        }
        let free = if u.holds() { g.data.len() as u64 + pads } else { flow };
        held += if u.holds() { (flow - free).min(w) } else { 0 };
        released += free;
        if s.windows > free && !x.adaptive && s.rst.is_none() {
            return viol("more of a stream's window was given back than was read", sh());
        }
        match u {
            Use::Read | Use::Late => {
                if !x.deaf && (sent != total || g.end != End::Clean || g.data.len() != total) {
                    return viol("a body that is being read does not arrive", sh());
                }
            }
            Use::OrDrop => {
                if !matches!(g.end, End::Clean | End::Stopped) {
                    return viol("a body that is being read does not arrive", sh());
                }
            }
            Use::Hold | Use::FramesHold(_) => {
                if !x.adaptive && sent as u64 > w + g.data.len() as u64 {
                    return viol("more than the window was sent although it is not read", sh());
                }
                if g.frames.len() < if let Use::FramesHold(f) = u { f.min(if total > 0 { 1 } else { 0 }) } else { 0 } {
                    return viol("a body that is being read does not arrive", sh());
                }
            }
            Use::Drop | Use::Frames(_) => {}
        }
    }
    // the connection's window
    let target = x.conn.unwrap_or(if x.role == Role::Server { 1 << 20 } else { 5 << 20 }) as u64;
    if r.conn_windows > target.saturating_sub(65535) + released && !x.adaptive {
        return viol("more of the connection's window was given back than was consumed", sh());
    }
    if x.deaf && !x.adaptive {
        // all that was sent on dead streams is returned in the end
        let room = 65535 + r.conn_windows - book.conn.get() as u64;
        if room == 0 && held < target.min(65535) {
            return viol("the connection's window is lost to streams that are gone", sh());
        }
    }
    if book.cheated.get() {
        let k = n - 1;
        let id = r.streams.keys().copied().max().unwrap_or(0);
        let s = r.get(if x.role == Role::Server { 2 * k as u32 + 1 } else { id });
        if s.rst != Some(3) && r.goaways.iter().all(|g| g.1 != 3) {
            return viol("a peer that exceeds the window is not stopped", sh());
        }
        let got = match x.role {
            Role::Server => h.reqs.borrow()[k].got.borrow().data.len(),
            Role::Client => h.calls.borrow()[k].got.borrow().data.len(),
        };
        if got > book.sent.borrow()[k] {
            return viol("bytes beyond the window reach the user", sh());
        }
    } else {
        let res = if x.role == Role::Server { h.sres.borrow().clone() } else { h.cres.borrow().clone() };
        if res.is_some() || r.goaways.iter().any(|g| g.1 != 0) {
            return viol("a connection within its windows was ended", sh());
        }
    }
    // adaptive windows follow what was measured
    if x.adaptive {
        let most = book.conn.get() as u64;
        for s in r.settings.iter().flatten() {
            if s.0 == 4 && s.1 as u64 > (2 * most).max(65535) {
                return viol("an adaptive window exceeds twice what was ever received", sh());
            }
        }
    }
    drop(r);
    Ok(mix(h.fp(), book.conn.get() as u64))
}

// ---------------------------------------------------------------- hyper sends

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// a stream's window
    Grant(usize, u32),
    Conn(u32),
    /// SETTINGS_INITIAL_WINDOW_SIZE
    Set(u32),
    /// the peer is done with this stream
    Rst(usize),
    /// the gate of a body that waits
    Open(u32),
}
#[derive(Clone, Debug)]
struct Tx {
    role: Role,
    w: Option<u32>,
    bodies: Vec<BodySpec>,
    ops: Vec<Op>,
    /// all at once rather than each after the other settled
    burst: bool,
    buf: Option<usize>,
    pol: IoPolicy,
}
fn tx(ch: &Ch, y: Tx) -> ExecResult {
    let mut h = H2::new(ch, y.pol);
    h.w.max_steps = 40_000;
    let n = y.bodies.len();
    let win = Win { send_buf: y.buf, ..Win::default() };
    let set = y.w.map(|w| vec![(4u16, w)]).unwrap_or_default();
    let p = match y.role {
        Role::Server => {
            let mut cfg = SrvCfg::new(y.bodies.iter().enumerate().map(|(k, b)| resp(k, b.clone())).collect());
            cfg.by_path = true;
            h.server(swin(win), cfg);
            let p = h.raw_client();
            h.auto(&p, 9);
            let mut x = r2::PREFACE.to_vec();
            x.extend(r2::settings(&set));
            p.send(&x);
            h.w.run();
            for k in 0..n {
                p.send(&r2::get(2 * k as u32 + 1, &format!("/p/{k}"), true));
            }
            p
        }
        Role::Client => {
            h.client(cwin(win));
            let p = h.raw_server();
            h.auto(&p, 9);
            p.send(&r2::settings(&set));
            h.w.run();
            for (k, b) in y.bodies.iter().enumerate() {
                let c: Call = req(k, b.clone());
                h.caller(c);
            }
            p
        }
    };
    h.w.run();
    let lens: Vec<usize> = y.bodies.iter().map(|b| b.data().len()).collect();
    // the books: cumulative allowance now, and the most there ever was
    let mut init = y.w.unwrap_or(65535) as i64;
    let mut grants = vec![0i64; n];
    let mut conn = 65535i64;
    let mut most: Vec<i64> = vec![init; n];
    let mut dead = vec![false; n];
    let mut gates: Vec<u32> = vec![];
    let mut before = vec![0usize; n];
    let ops: Vec<Vec<Op>> = if y.burst { vec![vec![], y.ops.clone()] } else { std::iter::once(vec![]).chain(y.ops.iter().map(|o| vec![o.clone()])).collect() };
    for phase in ops {
        for o in &phase {
            let sid = |k: usize| match y.role {
                Role::Server => 2 * k as u32 + 1,
                Role::Client => crate::c19::sid(&h.cw.borrow(), &format!("http://h/p/{k}")).unwrap_or(0),
            };
            match *o {
                Op::Grant(k, n) => {
                    p.send(&r2::window(sid(k), n));
                    grants[k] += n as i64;
                }
                Op::Conn(n) => {
                    p.send(&r2::window(0, n));
                    conn += n as i64;
                }
                Op::Set(w) => {
                    p.send(&r2::settings(&[(4, w)]));
                    init = w as i64;
                }
                Op::Rst(k) => {
                    p.send(&r2::rst(sid(k), r2::CANCEL));
                    dead[k] = true;
                }
                Op::Open(g) => {
                    h.env.open(g);
                    gates.push(g);
                }
            }
            for k in 0..n {
                most[k] = most[k].max(init + grants[k]);
            }
        }
        h.w.run();
        h.sync();
        h.contract()?;
        let r = if y.role == Role::Server { h.sw.borrow() } else { h.cw.borrow() };
        let sh = || format!("{y:?}\nafter {phase:?}: window {init} grants {grants:?} conn {conn}\n{}", h.summary());
        let mut total = 0i64;
        let mut short = false;
        let mut demand = false;
        for k in 0..n {
            let id = match y.role {
                Role::Server => 2 * k as u32 + 1,
                Role::Client => crate::c19::sid(&r, &format!("http://h/p/{k}")).unwrap_or(0),
            };
            let s = r.get(id);
            total += s.flow as i64;
            if s.flow as i64 > most[k] {
                return viol("more was sent than the stream's window admits", sh());
            }
            if !y.bodies[k].data().starts_with(&s.data) {
                return viol("the bytes sent are not those of the body", sh());
            }
            let cap = init + grants[k];
            if s.flow > before[k] && s.flow as i64 > cap && !y.burst {
                return viol("more was sent than the stream's window admits", sh());
            }
            before[k] = s.flow;
            // what the body yields as long as its gates are shut
            let mut avail = 0;
            let mut whole = true;
            for st in &y.bodies[k].steps {
                match st {
                    BStep::Data(d) => avail += d.len(),
                    BStep::Gate(g) if !gates.contains(g) => {
                        whole = false;
                        break;
                    }
                    _ => {}
                }
            }
            let stat = match y.role {
                Role::Server => h.reqs.borrow().iter().find(|q| q.uri.ends_with(&format!("/p/{k}"))).map(|q| q.resp_stat.clone()),
                Role::Client => h.calls.borrow().get(k).map(|q| q.body_stat.clone()),
            };
            let pulled = stat.as_ref().map_or(0, |s| s.borrow().polled_data);
            // up to one frame beyond what fits
            let mut pre = 0usize;
            let mut extra = false;
            for st in &y.bodies[k].steps {
                if let BStep::Data(d) = st {
                    if d.is_empty() {
                        continue;
                    }
                    if extra {
                        break;
                    }
                    extra = pre as i64 >= most[k].min(conn);
                    pre += d.len();
                }
            }
            if pulled > pre {
                return viol("more was pulled from the body than one frame beyond the window", format!("pulled {pulled} bytes, at most {pre}\n{}", sh()));
            }
            if dead[k] {
                if stat.map_or(false, |s| !s.borrow().dropped) {
                    return viol("a body is held although its stream was reset", sh());
                }
                continue;
            }
            if s.rst.is_some() {
                return viol("a stream within its window was reset", sh());
            }
            let want = (avail as i64).min(cap.max(before[k] as i64));
            if (s.flow as i64) < want {
                short = true;
            }
            if avail > s.flow {
                demand = true;
            }
            if whole && s.flow == lens[k] && !s.end {
                return viol("a body that was sent is not ended", sh());
            }
            if s.end && s.flow < lens[k] {
                return viol("a body is ended before its last byte", sh());
            }
        }
        if total > conn {
            return viol("more was sent than the connection's window admits", sh());
        }
        if short && total < conn {
            return viol("a window is left unused although data is waiting", sh());
        }
        let _ = demand;
        let res = if y.role == Role::Server { h.sres.borrow().clone() } else { h.cres.borrow().clone() };
        if res.is_some() || r.goaways.iter().any(|g| g.1 != 0) {
            return viol("a connection within its windows was ended", sh());
        }
    }
    Ok(mix(h.fp(), before.iter().fold(7, |a, b| mix(a, *b as u64))))
}

fn chunks(v: &[usize], eos: bool, hint: Hint) -> BodySpec {
    let mut at = 0;
    let steps = v
        .iter()
        .map(|n| {
            at += n;
            BStep::Data((at - n..at).map(|i| (i % 251) as u8).collect())
        })
        .collect();
    BodySpec { steps, hint, eos }
}
fn with(mut b: BodySpec, at: usize, s: BStep) -> BodySpec {
    b.steps.insert(at, s);
    b
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    let bound = t.pick(1, 2);
    let less = 1;
    let mut add = |n: String, b: u32, x: Rx| sc.push(scenario(n, b, move |ch| rx(ch, x.clone())));
    for role in [Role::Server, Role::Client] {
        // one stream, tiny windows
        for w in [1u32, 5, 16, 100] {
            for (total, frame) in [(0, 5), (1, 5), (12, 3), (40, 7), (40, 100)] {
                for pad in [0usize, 2, 20] {
                    if w as usize <= pad + 1 && pad > 0 {
                        continue;
                    }
                    for u in [Use::Read, Use::Late, Use::Drop, Use::Frames(1), Use::Frames(2), Use::Hold, Use::FramesHold(1), Use::FramesHold(3), Use::OrDrop] {
                        for deaf in [false, true] {
                            if deaf && matches!(u, Use::Read | Use::Late | Use::Hold | Use::FramesHold(_)) {
                                continue;
                            }
                            let x = Rx { role, stream: Some(w), conn: None, adaptive: false, uses: vec![(u, total), (Use::Read, 9)], frame, pad, seq: false, deaf, excess: 0, pol: IO_FEW };
                            let bd = if pad == 0 && matches!(w, 5 | 16) && frame < 100 { bound } else { less };
                            add(format!("rx/{role:?}/w{w}/{total}-{frame}/pad{pad}/{u:?}{}", if deaf { "/deaf" } else { "" }), bd, x);
                        }
                    }
                }
            }
            for u in [Use::Hold, Use::FramesHold(1)] {
                for excess in [1, 2, 50] {
                    let x = Rx { role, stream: Some(w), conn: None, adaptive: false, uses: vec![(u, 400)], frame: 9, pad: 0, seq: false, deaf: false, excess, pol: IO_FEW };
                    add(format!("rx-excess/{role:?}/w{w}/{u:?}/{excess}"), bound, x);
                }
            }
        }
        // the connection's window: bodies that are abandoned in turn, then one that is read
        for (cn, conn) in [("", None), ("/c65535", Some(65_535u32)), ("/c20000", Some(20_000)), ("/c100000", Some(100_000))] {
            for (sn, stream) in [("", None), ("/w30000", Some(30_000u32)), ("/w7", Some(7))] {
                for (un, u) in [("drop", Use::Drop), ("frames1", Use::Frames(1)), ("frames2", Use::Frames(2)), ("ordrop", Use::OrDrop), ("read", Use::Read), ("late", Use::Late), ("readhold", Use::FramesHold(999))] {
                    for deaf in [false, true] {
                        for seq in [false, true] {
                            if deaf && matches!(u, Use::Read | Use::Late | Use::FramesHold(_)) || stream == Some(7) && (conn.is_some() || deaf) {
                                continue;
                            }
                            // without windows of their own, what is abandoned can fill the connection's
                            let (m, each) = if stream == Some(7) { (4, 30) } else { (5, 30_000) };
                            let mut uses = vec![(u, each); m];
                            uses.push((Use::Read, if stream == Some(7) { 30 } else { 90_000 }));
                            let x = Rx { role, stream, conn, adaptive: false, uses, frame: 16_384, pad: 0, seq, deaf, excess: 0, pol: IO_FEW };
                            let bd = if t == Tier::Thorough && seq && conn == Some(65_535) { 1 } else { 0 };
                            add(format!("rx-conn/{role:?}{cn}{sn}/{un}{}{}", if deaf { "/deaf" } else { "" }, if seq { "/seq" } else { "" }), bd, x);
                        }
                    }
                }
                // held bodies take their share and no more
                for u in [Use::Hold, Use::FramesHold(1)] {
                    if stream.is_none() || conn == Some(20_000) || conn.is_none() && stream == Some(30_000) && role == Role::Server {
                        continue;
                    }
                    let x = Rx { role, stream, conn, adaptive: false, uses: vec![(u, 40_000), (Use::Read, 150_000), (Use::Drop, 20_000), (Use::Read, 70_000)], frame: 16_384, pad: 0, seq: false, deaf: false, excess: 0, pol: IO_FEW };
                    let x = if stream == Some(7) { Rx { uses: vec![(u, 40), (Use::Read, 90), (Use::Drop, 20), (Use::Read, 70)], ..x } } else { x };
                    add(format!("rx-held/{role:?}{cn}{sn}/{u:?}"), less, x);
                }
            }
        }
        for (un, u) in [("read", Use::Read), ("drop", Use::Drop), ("late", Use::Late), ("ordrop", Use::OrDrop), ("hold", Use::Hold)] {
            for m in [1usize, 3] {
                for each in [20_000usize, 140_000] {
                    let mut uses = vec![(u, each); m];
                    uses.push((Use::Read, 30_000));
                    if u == Use::Hold && (m > 1 || each > 20_000) {
                        continue;
                    }
                    let x = Rx { role, stream: None, conn: None, adaptive: true, uses, frame: 16_384, pad: 0, seq: true, deaf: false, excess: 0, pol: IO_FEW };
                    add(format!("rx-adaptive/{role:?}/{un}-{m}-{each}"), less, x);
                }
            }
        }
    }
    // sending
    let bodies: Vec<(&str, BodySpec)> = vec![
        ("whole", chunks(&[20], true, Hint::Exact)),
        ("ones", chunks(&[1; 12], true, Hint::Unknown)),
        ("mixed", chunks(&[3, 0, 8, 1, 6], false, Hint::Unknown)),
        ("big-small", chunks(&[30, 2, 2, 2], true, Hint::Exact)),
        ("trailers", with(chunks(&[4, 9], false, Hint::Unknown), 2, BStep::Trailers(vec![("x-t", "1")]))),
        ("pauses", with(with(chunks(&[4, 9, 5], false, Hint::Unknown), 1, BStep::Pending), 3, BStep::Pending)),
        ("gate", with(chunks(&[4, 9], true, Hint::Unknown), 1, BStep::Gate(61))),
        ("empty", chunks(&[], false, Hint::Unknown)),
        ("tail-empty", chunks(&[4, 5, 0], false, Hint::Unknown)),
        ("tail-empty-eos", chunks(&[4, 5, 0, 0], true, Hint::Exact)),
        ("only-empty", chunks(&[0, 0], false, Hint::Unknown)),
    ];
    use Op::*;
    let scripts: Vec<(&str, Vec<Op>)> = vec![
        ("none", vec![]),
        ("small", vec![Grant(0, 1), Grant(0, 2), Grant(0, 4), Grant(0, 30)]),
        ("exact", vec![Grant(0, 3), Grant(0, 8), Grant(0, 1), Grant(0, 5), Grant(0, 20)]),
        ("set-up", vec![Set(4), Set(9), Set(60)]),
        ("set-down", vec![Grant(0, 9), Set(0), Grant(0, 1), Grant(0, 40)]),
        ("set-negative", vec![Set(10), Set(2), Grant(0, 3), Set(1), Grant(0, 9), Set(65535)]),
        ("rst", vec![Grant(0, 3), Rst(0)]),
        ("open", vec![Grant(0, 5), Open(61), Grant(0, 30)]),
        ("late-open", vec![Grant(0, 40), Open(61)]),
        ("four", vec![Grant(0, 4)]),
        ("nine", vec![Grant(0, 9)]),
        ("thirteen", vec![Grant(0, 6), Open(61), Grant(0, 2)]),
    ];
    let mut add = |n: String, b: u32, y: Tx| sc.push(scenario(n, b, move |ch| tx(ch, y.clone())));
    for role in [Role::Server, Role::Client] {
        for w in [Some(0u32), Some(1), Some(5), None] {
            for (bn, body) in &bodies {
                for (sn, ops) in &scripts {
                    for burst in [false, true] {
                        for buf in [None, Some(3usize)] {
                            if buf.is_some() && !matches!(*bn, "whole" | "mixed" | "ones") || w.is_none() && burst || w == Some(1) && buf.is_some() {
                                continue;
                            }
                            let y = Tx { role, w, bodies: vec![body.clone()], ops: ops.clone(), burst, buf, pol: IO_FEW };
                            let bd = if w == Some(5) || buf.is_some() { less } else { bound };
                            add(format!("tx/{role:?}/w{w:?}/{bn}/{sn}{}{}", if burst { "/burst" } else { "" }, if buf.is_some() { "/buf" } else { "" }), bd, y);
                        }
                    }
                }
            }
        }
        // several streams and the connection's window
        let big = |n: usize| chunks(&vec![7_000; n], true, Hint::Unknown);
        let lazy = || with(chunks(&[5, 5], true, Hint::Unknown), 1, BStep::Gate(62));
        let stuck = || with(chunks(&[5], true, Hint::Unknown), 0, BStep::Gate(62));
        let sets: Vec<(&str, Vec<BodySpec>)> = vec![
            ("two", vec![big(8), big(8)]),
            ("three", vec![big(5), big(9), big(2)]),
            ("one-chunk", vec![chunks(&[80_000], true, Hint::Exact), big(3)]),
            ("lazy", vec![lazy(), big(12)]),
            ("lazy-last", vec![big(12), lazy()]),
            ("stuck", vec![stuck(), stuck(), big(12)]),
            ("small", vec![big(12), chunks(&[10], true, Hint::Exact)]),
        ];
        let scripts: Vec<(&str, Vec<Op>)> = vec![
            ("none", vec![]),
            ("bits", vec![Conn(1), Conn(10), Conn(9_000), Conn(100_000)]),
            ("bits-open", vec![Conn(10), Open(62), Conn(1), Conn(5), Conn(100_000)]),
            ("rst", vec![Rst(0), Conn(100), Conn(200_000)]),
            ("rst-last", vec![Rst(1), Conn(100), Conn(200_000)]),
            ("streams", vec![Conn(100_000), Grant(0, 10), Grant(1, 100_000), Grant(0, 100_000), Open(62)]),
            ("streams-first", vec![Grant(0, 50_000), Grant(1, 50_000), Conn(3), Open(62), Conn(200_000)]),
        ];
        for (bn, bs) in &sets {
            for (sn, ops) in &scripts {
                for w in [None, Some(30_000u32)] {
                    for burst in [false, true] {
                        let y = Tx { role, w, bodies: bs.clone(), ops: ops.clone(), burst, buf: None, pol: IO_FEW };
                        add(format!("tx-conn/{role:?}/{bn}/{sn}{}{}", if w.is_some() { "/w30000" } else { "" }, if burst { "/burst" } else { "" }), less, y);
                    }
                }
            }
        }
    }
    Check {
        id: "C24",
        scenarios: sc,
        rule: "receiving: stream windows 1 to default, connection windows 20000 to default, bodies read, read late, dropped, read in part, held, dropped at any moment, in turn or at once, padded or not, by a peer that fills every window (and one that exceeds it, and one that goes on after a reset); sending: every body shape x script of window updates, settings and resets, one or several streams; both roles; every schedule within the deviation bound".into(),
        assumptions: vec!["h2 0.4 as vendored".into(), "single-threaded interleaving at poll granularity".into()],
    }
}
