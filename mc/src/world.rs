//! A closed world: tasks with individually tracked wakers, environment events, a controlled scheduler,
//! an in-memory transport, a virtual clock and scripted bodies.  Every answer the environment gives comes
//! from the chooser.

use crate::core::*;
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue};
use http_body::{Body, Frame, SizeHint};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

/// Everything here runs on one thread; hyper merely asks for `Send` in some bounds.
pub struct SendCell<T>(pub T);
unsafe impl<T> Send for SendCell<T> {}
unsafe impl<T> Sync for SendCell<T> {}
impl<T> std::ops::Deref for SendCell<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: Clone> Clone for SendCell<T> {
    fn clone(&self) -> Self {
        SendCell(self.0.clone())
    }
}

pub struct Flag {
    pub woken: AtomicBool,
    pub wakes: AtomicU64,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        self.wakes.fetch_add(1, SeqCst);
    }
}

pub type LocalFut = Pin<Box<dyn Future<Output = ()>>>;

struct Slot {
    name: String,
    fut: Option<LocalFut>,
    flag: Arc<Flag>,
    polls: u64,
    /// consecutive polls that woke the task itself although nothing happened
    idle: u32,
}

pub struct Ev {
    pub label: &'static str,
    act: Box<dyn FnOnce()>,
    /// the event is only possible when this holds
    when: Option<Box<dyn Fn() -> bool>>,
    /// low-priority events are only fired by default when nothing else can happen
    low: bool,
    /// never fired by default: only as a deviation
    dev_only: bool,
}

pub struct Env {
    pub ch: Ch,
    pub events: RefCell<Vec<Ev>>,
    spawn: RefCell<Vec<(String, LocalFut)>>,
    pub now: Cell<u64>, // virtual ms
    timers: RefCell<Vec<(u64, Rc<TimerCell>)>>,
    pub io_ops: Cell<u64>,
    pub op_limit: Cell<u64>,
    base: Instant,
    pub events_early: Cell<bool>,
    pub task_order: Cell<bool>,
    pub spurious: Cell<bool>,
    gates: RefCell<Vec<(u32, bool, Vec<Waker>)>>,
    /// set when a task kept waking itself without anything happening
    pub spin: RefCell<Option<String>>,
}
pub type E = Rc<Env>;

impl Env {
    pub fn new(ch: &Ch) -> E {
        Rc::new(Env {
            ch: ch.clone(),
            events: RefCell::new(vec![]),
            spawn: RefCell::new(vec![]),
            now: Cell::new(0),
            timers: RefCell::new(vec![]),
            io_ops: Cell::new(0),
            op_limit: Cell::new(20_000),
            base: base_instant(),
            events_early: Cell::new(true),
            task_order: Cell::new(true),
            spurious: Cell::new(false),
            gates: Default::default(),
            spin: Default::default(),
        })
    }
    /// Opens a numbered gate: everything waiting for it is woken.
    pub fn open(&self, n: u32) {
        let ws = {
            let mut g = self.gates.borrow_mut();
            if !g.iter().any(|x| x.0 == n) {
                g.push((n, false, vec![]));
            }
            let x = g.iter_mut().find(|x| x.0 == n).unwrap();
            x.1 = true;
            std::mem::take(&mut x.2)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn is_open(&self, n: u32) -> bool {
        self.gates.borrow().iter().any(|x| x.0 == n && x.1)
    }
    pub fn poll_gate(&self, n: u32, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_open(n) {
            return Poll::Ready(());
        }
        let mut g = self.gates.borrow_mut();
        if !g.iter().any(|x| x.0 == n) {
            g.push((n, false, vec![]));
        }
        let x = g.iter_mut().find(|x| x.0 == n).unwrap();
        if !x.2.iter().any(|w| w.will_wake(cx.waker())) {
            x.2.push(cx.waker().clone());
        }
        Poll::Pending
    }
    pub async fn gate(&self, n: u32) {
        std::future::poll_fn(|cx| self.poll_gate(n, cx)).await
    }
    pub fn event(&self, label: &'static str, act: impl FnOnce() + 'static) {
        self.events.borrow_mut().push(Ev { label, act: Box::new(act), when: None, low: false, dev_only: false });
    }
    pub fn event_when(
        &self,
        label: &'static str,
        low: bool,
        when: impl Fn() -> bool + 'static,
        act: impl FnOnce() + 'static,
    ) {
        self.events.borrow_mut().push(Ev { label, act: Box::new(act), when: Some(Box::new(when)), low, dev_only: false });
    }
    /// An event that is never taken by default.
    pub fn event_dev(&self, label: &'static str, when: impl Fn() -> bool + 'static, act: impl FnOnce() + 'static) {
        self.events.borrow_mut().push(Ev { label, act: Box::new(act), when: Some(Box::new(when)), low: true, dev_only: true });
    }
    pub fn wake_later(&self, label: &'static str, w: &Waker) {
        let w = w.clone();
        self.event(label, move || w.wake());
    }
    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) {
        self.spawn.borrow_mut().push((name.into(), Box::pin(f)));
    }
    pub fn op(&self) {
        let n = self.io_ops.get() + 1;
        self.io_ops.set(n);
        if n > self.op_limit.get() {
            panic!("livelock: a single poll performed too many transport/body/service operations");
        }
    }
}

fn base_instant() -> Instant {
    use std::sync::OnceLock;
    static B: OnceLock<Instant> = OnceLock::new();
    *B.get_or_init(|| Instant::now() + Duration::from_secs(1000))
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum RunEnd {
    Quiescent,
    StepLimit,
    Stopped,
}

pub struct World {
    pub env: E,
    tasks: Vec<Slot>,
    pub steps: u64,
    pub max_steps: u64,
    /// called before every scheduling step; returning true stops the run
    pub before_step: Option<Box<dyn FnMut(&mut Vec<&str>) -> bool>>,
}

impl World {
    pub fn new(ch: &Ch) -> World {
        World { env: Env::new(ch), tasks: vec![], steps: 0, max_steps: 4000, before_step: None }
    }
    pub fn add(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
        self.tasks.push(Slot {
            name: name.into(),
            fut: Some(Box::pin(f)),
            flag: Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) }),
            polls: 0,
            idle: 0,
        });
        self.tasks.len() - 1
    }
    fn absorb(&mut self) {
        loop {
            let v: Vec<_> = std::mem::take(&mut *self.env.spawn.borrow_mut());
            if v.is_empty() {
                break;
            }
            for (n, f) in v {
                self.tasks.push(Slot {
                    name: n,
                    fut: Some(f),
                    flag: Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) }),
                    polls: 0,
                    idle: 0,
                });
            }
        }
    }
    pub fn is_done(&self, id: usize) -> bool {
        self.tasks[id].fut.is_none()
    }
    pub fn unfinished(&self) -> Vec<String> {
        self.tasks.iter().filter(|t| t.fut.is_some()).map(|t| t.name.clone()).collect()
    }
    pub fn unfinished_count(&self, prefix: &str) -> usize {
        self.tasks.iter().filter(|t| t.fut.is_some() && t.name.starts_with(prefix)).count()
    }
    /// Drops a task's future (a caller abandoning it).
    pub fn kill(&mut self, id: usize) {
        let f = self.tasks[id].fut.take();
        drop(f);
        self.absorb();
    }
    pub fn wake(&self, id: usize) {
        self.tasks[id].flag.woken.store(true, SeqCst);
    }
    pub fn task_names(&self) -> Vec<(usize, String)> {
        self.tasks.iter().enumerate().filter(|(_, t)| t.fut.is_some()).map(|(i, t)| (i, t.name.clone())).collect()
    }
    pub fn polls(&self, id: usize) -> u64 {
        self.tasks[id].polls
    }
    fn poll_task(&mut self, i: usize) {
        let t = &mut self.tasks[i];
        t.flag.woken.store(false, SeqCst);
        t.polls += 1;
        let w = Waker::from(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        self.env.io_ops.set(0);
        let name = &t.name;
        self.env.ch.log(|| format!("poll {name}"));
        let mut fut = t.fut.take().unwrap();
        let before = self.env.ch.steps();
        let r = fut.as_mut().poll(&mut cx);
        let t = &mut self.tasks[i];
        if t.flag.woken.load(SeqCst) && before == self.env.ch.steps() {
            t.idle += 1;
            if t.idle == 8 {
                *self.env.spin.borrow_mut() = Some(t.name.clone());
            }
        } else {
            t.idle = 0;
        }
        match r {
            Poll::Ready(()) => {
                self.env.ch.log(|| format!("  {} finished", self.tasks[i].name));
                drop(fut)
            }
            Poll::Pending => self.tasks[i].fut = Some(fut),
        }
        self.env.ch.step(mix(i as u64, 7));
        self.absorb();
    }
    /// One scheduling step; false when nothing can happen any more.
    pub fn step(&mut self) -> bool {
        self.absorb();
        enum O {
            Task(usize),
            Ev(usize),
            /// nothing happens any more
            Stop,
        }
        let mut opts: Vec<O> = vec![];
        for (i, t) in self.tasks.iter().enumerate() {
            if t.fut.is_some() && t.flag.woken.load(SeqCst) {
                opts.push(O::Task(i));
            }
        }
        let have_task = !opts.is_empty();
        if have_task && !self.env.task_order.get() {
            opts.truncate(1);
        }
        if !have_task || (self.env.events_early.get() && self.env.ch.may_deviate()) {
            let evs = self.env.events.borrow();
            let en: Vec<usize> =
                (0..evs.len()).filter(|i| evs[*i].when.as_ref().map_or(true, |w| w())).collect();
            for &i in en.iter().filter(|i| !evs[**i].low) {
                opts.push(O::Ev(i));
            }
            for &i in en.iter().filter(|i| evs[**i].low && !evs[**i].dev_only) {
                opts.push(O::Ev(i));
            }
            if self.env.ch.may_deviate() {
                if opts.is_empty() && en.iter().any(|i| evs[*i].dev_only) {
                    opts.push(O::Stop);
                }
                for &i in en.iter().filter(|i| evs[**i].dev_only) {
                    opts.push(O::Ev(i));
                }
            }
        }
        if opts.is_empty() {
            return false;
        }
        let k = self.env.ch.dev(opts.len(), "sched");
        if let O::Stop = opts[k] {
            return false;
        }
        match opts[k] {
            O::Task(i) => self.poll_task(i),
            O::Ev(i) => {
                let ev = self.env.events.borrow_mut().remove(i);
                self.env.ch.log(|| format!("event {}", ev.label));
                self.env.ch.step(mix(hash_bytes(ev.label.as_bytes()), 9));
                (ev.act)();
            }
            O::Stop => unreachable!(),
        }
        true
    }
    pub fn run(&mut self) -> RunEnd {
        loop {
            if self.steps >= self.max_steps {
                return RunEnd::StepLimit;
            }
            if let Some(mut b) = self.before_step.take() {
                let stop = b(&mut vec![]);
                self.before_step = Some(b);
                if stop {
                    return RunEnd::Stopped;
                }
            }
            self.steps += 1;
            if !self.step() {
                return RunEnd::Quiescent;
            }
        }
    }
    /// Runs at most n steps.
    pub fn run_steps(&mut self, n: u64) -> RunEnd {
        for _ in 0..n {
            self.steps += 1;
            if !self.step() {
                return RunEnd::Quiescent;
            }
        }
        RunEnd::Stopped
    }
    /// Advances the virtual clock to the next timer deadline (<= limit) and fires what is due.
    pub fn advance(&mut self, limit: u64) -> bool {
        let next = {
            let mut ts = self.env.timers.borrow_mut();
            ts.retain(|(_, c)| Rc::strong_count(c) > 1 && !c.fired.get());
            ts.iter().map(|(_, c)| c.at.get()).min()
        };
        match next {
            Some(t) if t <= limit => {
                if t > self.env.now.get() {
                    self.env.now.set(t);
                }
                self.fire_due();
                true
            }
            _ => false,
        }
    }
    pub fn set_now(&mut self, t: u64) {
        self.env.now.set(t);
        self.fire_due();
    }
    fn fire_due(&mut self) {
        let now = self.env.now.get();
        let due: Vec<Rc<TimerCell>> = self
            .env
            .timers
            .borrow()
            .iter()
            .filter(|(_, c)| c.at.get() <= now && !c.fired.get())
            .map(|(_, c)| c.clone())
            .collect();
        for c in due {
            c.fired.set(true);
            let now = self.env.now.get();
            self.env.ch.log(|| format!("timer fires at {now} ms"));
            self.env.ch.step(mix(now, 11));
            if let Some(w) = c.waker.borrow_mut().take() {
                w.wake();
            }
        }
    }
    pub fn next_deadline(&self) -> Option<u64> {
        let mut ts = self.env.timers.borrow_mut();
        ts.retain(|(_, c)| Rc::strong_count(c) > 1 && !c.fired.get());
        ts.iter().map(|(_, c)| c.at.get()).min()
    }
}

impl Drop for World {
    fn drop(&mut self) {
        // break reference cycles: tasks, spawned futures and events may hold the Env
        for t in &mut self.tasks {
            t.fut = None;
        }
        loop {
            let v: Vec<_> = std::mem::take(&mut *self.env.spawn.borrow_mut());
            let e: Vec<_> = std::mem::take(&mut *self.env.events.borrow_mut());
            let t: Vec<_> = std::mem::take(&mut *self.env.timers.borrow_mut());
            if v.is_empty() && e.is_empty() && t.is_empty() {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- timers (virtual clock)

pub struct TimerCell {
    at: Cell<u64>,
    fired: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

#[derive(Clone)]
pub struct VTimer(pub SendCell<E>);
pub struct VSleep {
    cell: SendCell<Rc<TimerCell>>,
    env: SendCell<E>,
}
impl Unpin for VSleep {}
impl Future for VSleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.cell.at.get() <= self.env.now.get() {
            self.cell.fired.set(true);
            return Poll::Ready(());
        }
        self.cell.fired.set(false);
        *self.cell.waker.borrow_mut() = Some(cx.waker().clone());
        let mut ts = self.env.timers.borrow_mut();
        if !ts.iter().any(|(_, c)| Rc::ptr_eq(c, &self.cell.0)) {
            ts.push((0, self.cell.0.clone()));
        }
        Poll::Pending
    }
}
impl hyper::rt::Sleep for VSleep {}
impl VTimer {
    pub fn new(env: &E) -> VTimer {
        VTimer(SendCell(env.clone()))
    }
    fn mk(&self, at: u64) -> Pin<Box<dyn hyper::rt::Sleep>> {
        Box::pin(VSleep {
            cell: SendCell(Rc::new(TimerCell { at: Cell::new(at), fired: Cell::new(false), waker: RefCell::new(None) })),
            env: self.0.clone(),
        })
    }
}
/// Whole milliseconds, rounding up: a deadline is never early.
fn ms(d: Duration) -> u64 {
    let m = d.as_millis() as u64;
    if d.subsec_nanos() % 1_000_000 != 0 {
        m + 1
    } else {
        m
    }
}
impl hyper::rt::Timer for VTimer {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn hyper::rt::Sleep>> {
        self.mk(self.0.now.get() + ms(d))
    }
    fn sleep_until(&self, t: Instant) -> Pin<Box<dyn hyper::rt::Sleep>> {
        self.mk(ms(t.saturating_duration_since(self.0.base)))
    }
    fn now(&self) -> Instant {
        self.0.base + Duration::from_millis(self.0.now.get())
    }
    fn reset(&self, sleep: &mut Pin<Box<dyn hyper::rt::Sleep>>, t: Instant) {
        if let Some(s) = sleep.as_mut().downcast_mut_pin::<VSleep>() {
            s.cell.at.set(ms(t.saturating_duration_since(self.0.base)));
            s.cell.fired.set(false);
        } else {
            *sleep = self.sleep_until(t);
        }
    }
}

// ---------------------------------------------------------------- transport

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cuts {
    /// every call is answered in full at once
    Never,
    /// a short list of interesting partial answers
    Few,
    /// every partial length
    All,
}

#[derive(Clone, Copy, Debug)]
pub struct IoPolicy {
    pub read: Cuts,
    /// a read may first block although bytes are available
    pub read_pending: bool,
    pub write: Cuts,
    pub write_pending: bool,
    pub flush_pending: bool,
    pub shutdown_pending: bool,
    pub vectored: bool,
    /// a write may fail
    pub write_err: bool,
    /// never deliver more than this many bytes per read (0: unlimited)
    pub drip: usize,
    /// block before every read that has bytes
    pub drip_block: bool,
}
pub const IO_PLAIN: IoPolicy = IoPolicy {
    read: Cuts::Never,
    read_pending: false,
    write: Cuts::Never,
    write_pending: false,
    flush_pending: false,
    shutdown_pending: false,
    vectored: true,
    write_err: false,
    drip: 0,
    drip_block: false,
};
pub const IO_ALL: IoPolicy = IoPolicy {
    read: Cuts::All,
    read_pending: true,
    write: Cuts::Few,
    write_pending: true,
    flush_pending: true,
    shutdown_pending: true,
    vectored: true,
    write_err: false,
    drip: 0,
    drip_block: false,
};
pub const IO_FEW: IoPolicy = IoPolicy { read: Cuts::Few, ..IO_ALL };

#[derive(Default)]
pub struct IoInner {
    pub inbuf: VecDeque<u8>,
    pub eof: bool,
    pub rerr: Option<io::ErrorKind>,
    pub werr: Option<io::ErrorKind>,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
    pub out: Vec<u8>,
    pub flushed: usize,
    /// how many more bytes the transport accepts (None: unlimited)
    pub wcap: Option<usize>,
    pub shut: bool,
    pub shut_calls: u32,
    pub dropped: bool,
    pub dropped_at: u64,
    pub nread: usize,
    /// bytes after a "short then blocked" answer become available by event
    held: VecDeque<u8>,
    held_eof: bool,
    pub eof_seen: bool,
    pub out_after_shut: usize,
    drip_ok: bool,
    /// where further bytes come from when a read finds none
    pub supply: Option<Supply>,
    /// the other end of the pipe: flushed bytes arrive there
    pub link: Option<std::rc::Weak<RefCell<IoInner>>>,
    pub linked: usize,
    /// whoever watches what is written
    pub owakers: Vec<Waker>,
}
/// Flushed bytes travel to the other end; watchers are woken.
fn deliver(me: &Rc<RefCell<IoInner>>, eof: bool) {
    let (link, bytes, ws) = {
        let mut s = me.borrow_mut();
        let f = s.flushed;
        let b = if s.link.is_some() { s.out[s.linked..f].to_vec() } else { vec![] };
        s.linked = f;
        (s.link.clone(), b, std::mem::take(&mut s.owakers))
    };
    for w in ws {
        w.wake()
    }
    if let Some(l) = link.and_then(|l| l.upgrade()) {
        let w = {
            let mut s = l.borrow_mut();
            if s.held.is_empty() {
                s.inbuf.extend(&bytes);
            } else {
                s.held.extend(&bytes);
            }
            if eof {
                if s.held.is_empty() {
                    s.eof = true;
                } else {
                    s.held_eof = true;
                }
            }
            if eof || !bytes.is_empty() {
                s.rwaker.take()
            } else {
                None
            }
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
pub struct Supply(pub Box<dyn FnMut() -> Vec<u8>>);

#[derive(Clone)]
pub struct Io {
    pub s: Rc<RefCell<IoInner>>,
    pub env: E,
    pub pol: IoPolicy,
}

impl Io {
    pub fn new(env: &E, pol: IoPolicy) -> Io {
        Io { s: Default::default(), env: env.clone(), pol }
    }
    /// Two ends of one pipe.
    pub fn join(&self, other: &Io) {
        self.s.borrow_mut().link = Some(Rc::downgrade(&other.s));
        other.s.borrow_mut().link = Some(Rc::downgrade(&self.s));
    }
    /// Ready once `cond` holds of the bytes flushed so far; asked again whenever more are.
    pub async fn watch<T>(&self, mut cond: impl FnMut(&IoInner) -> Option<T>) -> T {
        std::future::poll_fn(|cx| {
            let mut s = self.s.borrow_mut();
            match cond(&s) {
                Some(v) => Poll::Ready(v),
                None => {
                    s.owakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
    /// Bytes arrive from the peer.
    pub fn push(&self, b: &[u8]) {
        let w = {
            let mut s = self.s.borrow_mut();
            if !s.held.is_empty() {
                s.held.extend(b);
            } else {
                s.inbuf.extend(b);
            }
            s.rwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn push_eof(&self) {
        let w = {
            let mut s = self.s.borrow_mut();
            if !s.held.is_empty() {
                s.held_eof = true;
            } else {
                s.eof = true;
            }
            s.rwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn push_rerr(&self, k: io::ErrorKind) {
        let w = {
            let mut s = self.s.borrow_mut();
            s.rerr = Some(k);
            s.rwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn set_werr(&self, k: io::ErrorKind) {
        let w = {
            let mut s = self.s.borrow_mut();
            s.werr = Some(k);
            s.wwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn add_wcap(&self, n: Option<usize>) {
        let w = {
            let mut s = self.s.borrow_mut();
            s.wcap = match (s.wcap, n) {
                (Some(a), Some(b)) => Some(a + b),
                _ => None,
            };
            s.wwaker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn out(&self) -> Vec<u8> {
        self.s.borrow().out.clone()
    }
    pub fn unread(&self) -> usize {
        let s = self.s.borrow();
        s.inbuf.len() + s.held.len()
    }
    fn few(n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = vec![1, n / 2, n - 1];
        v.retain(|x| *x >= 1 && *x < n);
        v.dedup();
        v
    }
    fn do_read(&self, cx: &mut Context<'_>, max: usize, put: &mut dyn FnMut(&[u8])) -> Poll<io::Result<()>> {
        self.env.op();
        let mut s = self.s.borrow_mut();
        if s.inbuf.is_empty() && s.held.is_empty() && max > 0 {
            if let Some(f) = s.supply.as_mut() {
                let v = (f.0)();
                s.inbuf.extend(v);
            }
        }
        let avail = s.inbuf.len();
        if avail == 0 || max == 0 {
            if max == 0 {
                return Poll::Ready(Ok(()));
            }
            if let Some(k) = s.rerr {
                self.env.ch.log(|| format!("  read -> error {k:?}"));
                return Poll::Ready(Err(io::Error::new(k, "scripted read error")));
            }
            if s.eof {
                s.eof_seen = true;
                self.env.ch.log(|| "  read -> EOF".to_string());
                return Poll::Ready(Ok(()));
            }
            self.env.ch.log(|| "  read -> Pending (nothing arrived)".to_string());
            s.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = avail.min(max);
        if self.pol.drip > 0 {
            n = n.min(self.pol.drip);
            if self.pol.drip_block {
                if !s.drip_ok {
                    s.drip_ok = true;
                    let w = cx.waker().clone();
                    drop(s);
                    self.env.wake_later("drip", &w);
                    return Poll::Pending;
                }
                s.drip_ok = false;
            }
        }
        // option list: full; then pending; then for each partial length: short, short+blocked
        let lens: Vec<usize> = match self.pol.read {
            Cuts::Never => vec![],
            Cuts::Few => Self::few(n),
            Cuts::All => (1..n).collect(),
        };
        let np = self.pol.read_pending as usize;
        let opts = 1 + np + lens.len() * (1 + np);
        let k = self.env.ch.dev(opts, "read");
        let mut take = n;
        let mut hold = false;
        if k > 0 {
            if np == 1 && k == 1 {
                self.env.ch.log(|| "  read -> Pending (blocked first)".to_string());
                let w = cx.waker().clone();
                drop(s);
                self.env.wake_later("r-ready", &w);
                return Poll::Pending;
            }
            let j = k - 1 - np;
            take = lens[j / (1 + np)];
            hold = np == 1 && j % 2 == 1;
        }
        let (a, b) = s.inbuf.as_slices();
        if a.len() >= take {
            put(&a[..take]);
        } else {
            put(a);
            put(&b[..take - a.len()]);
        }
        if self.env.ch.tracing() {
            let v: Vec<u8> = s.inbuf.iter().take(take).copied().collect();
            self.env.ch.log(|| format!("  read -> {} bytes{} {:?}", take, if hold { " then blocked" } else { "" }, esc(&v[..v.len().min(80)])));
        }
        s.inbuf.drain(..take);
        s.nread += take;
        self.env.ch.step(mix(take as u64, 3));
        if hold {
            let rest: VecDeque<u8> = std::mem::take(&mut s.inbuf);
            s.held = rest;
            s.held_eof = s.eof;
            s.eof = false;
            let me = self.s.clone();
            drop(s);
            self.env.event("held-arrives", move || {
                let w = {
                    let mut s = me.borrow_mut();
                    let h = std::mem::take(&mut s.held);
                    s.inbuf.extend(h);
                    if s.held_eof {
                        s.eof = true;
                    }
                    s.rwaker.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
            });
        }
        Poll::Ready(Ok(()))
    }
    fn do_write(&self, cx: &mut Context<'_>, bufs: &[&[u8]]) -> Poll<io::Result<usize>> {
        self.env.op();
        let mut s = self.s.borrow_mut();
        let mut total: usize = bufs.iter().map(|b| b.len()).sum();
        if let Some(k) = s.werr {
            self.env.ch.log(|| format!("  write -> error {k:?}"));
            return Poll::Ready(Err(io::Error::new(k, "scripted write error")));
        }
        if total == 0 {
            return Poll::Ready(Ok(0));
        }
        if let Some(c) = s.wcap {
            if c == 0 {
                self.env.ch.log(|| "  write -> Pending (transport full)".to_string());
                s.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            total = total.min(c);
        }
        let mut lens: Vec<usize> = match self.pol.write {
            Cuts::Never => vec![],
            Cuts::Few => {
                let mut v = Self::few(total);
                let mut acc = 0;
                for b in bufs.iter().take(3) {
                    acc += b.len();
                    if acc < total && !v.contains(&acc) {
                        v.push(acc);
                    }
                    if acc + 1 < total && !v.contains(&(acc + 1)) {
                        v.push(acc + 1);
                    }
                }
                v
            }
            Cuts::All => (1..total).collect(),
        };
        lens.retain(|l| *l > 0 && *l < total);
        let np = self.pol.write_pending as usize;
        let ne = self.pol.write_err as usize;
        let k = self.env.ch.dev(1 + np + lens.len() + ne, "write");
        let mut take = total;
        if k > 0 {
            if np == 1 && k == 1 {
                self.env.ch.log(|| "  write -> Pending".to_string());
                let w = cx.waker().clone();
                drop(s);
                self.env.wake_later("w-ready", &w);
                return Poll::Pending;
            }
            if k - 1 - np < lens.len() {
                take = lens[k - 1 - np];
            } else {
                s.werr = Some(io::ErrorKind::BrokenPipe);
                self.env.ch.log(|| "  write -> error".to_string());
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted write error")));
            }
        }
        let mut left = take;
        let start = s.out.len();
        for b in bufs {
            let m = left.min(b.len());
            s.out.extend_from_slice(&b[..m]);
            left -= m;
            if left == 0 {
                break;
            }
        }
        if s.shut {
            s.out_after_shut += take;
        }
        if let Some(c) = s.wcap.as_mut() {
            *c -= take;
        }
        if self.env.ch.tracing() {
            let v = s.out[start..].to_vec();
            self.env.ch.log(|| format!("  write({}) -> {} {:?}", total, take, esc(&v[..v.len().min(400)])));
        }
        self.env.ch.step(mix(take as u64, 5));
        Poll::Ready(Ok(take))
    }
    fn do_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.env.op();
        if let Some(k) = self.s.borrow().werr {
            return Poll::Ready(Err(io::Error::new(k, "scripted flush error")));
        }
        if self.pol.flush_pending && self.s.borrow().flushed < self.s.borrow().out.len() {
            if self.env.ch.dev(2, "flush") == 1 {
                self.env.ch.log(|| "  flush -> Pending".to_string());
                self.env.wake_later("f-ready", cx.waker());
                return Poll::Pending;
            }
        }
        {
            let mut s = self.s.borrow_mut();
            s.flushed = s.out.len();
        }
        deliver(&self.s, false);
        Poll::Ready(Ok(()))
    }
    fn do_shutdown(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.env.op();
        self.s.borrow_mut().shut_calls += 1;
        if self.pol.shutdown_pending && !self.s.borrow().shut {
            if self.env.ch.dev(2, "shutdown") == 1 {
                self.env.ch.log(|| "  shutdown -> Pending".to_string());
                self.env.wake_later("s-ready", cx.waker());
                return Poll::Pending;
            }
        }
        self.env.ch.log(|| "  shutdown".to_string());
        {
            let mut s = self.s.borrow_mut();
            s.shut = true;
            s.flushed = s.out.len();
        }
        deliver(&self.s, true);
        Poll::Ready(Ok(()))
    }
}

/// What is handed to hyper: owning handle, so that dropping is observable.
pub struct HIo(SendCell<Io>);
impl HIo {
    pub fn new(io: &Io) -> HIo {
        HIo(SendCell(io.clone()))
    }
}
impl Drop for HIo {
    fn drop(&mut self) {
        {
            let mut s = self.0.s.borrow_mut();
            s.dropped = true;
            s.dropped_at = self.0.env.now.get();
        }
        self.0.env.ch.log(|| "  transport dropped".to_string());
        deliver(&self.0.s, true);
    }
}
impl hyper::rt::Read for HIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let max = buf.remaining();
        self.0.do_read(cx, max, &mut |b| buf.put_slice(b))
    }
}
impl hyper::rt::Write for HIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.do_write(cx, &[buf])
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.do_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.do_shutdown(cx)
    }
    fn is_write_vectored(&self) -> bool {
        self.0.pol.vectored
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        self.0.do_write(cx, &v)
    }
}

// ---------------------------------------------------------------- outgoing bodies

#[derive(Clone, Debug, PartialEq)]
pub enum BStep {
    Data(Vec<u8>),
    Trailers(Vec<(&'static str, &'static str)>),
    /// blocks once; an environment event wakes it
    Pending,
    Err,
    /// blocks until the gate is opened
    Gate(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Unknown,
    /// at least/at most, never exact
    Range,
    /// claims this exact length whatever follows
    Claim(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct BodySpec {
    pub steps: Vec<BStep>,
    pub hint: Hint,
    /// reports is_end_stream as soon as nothing is left
    pub eos: bool,
}
impl BodySpec {
    pub fn empty() -> BodySpec {
        BodySpec { steps: vec![], hint: Hint::Exact, eos: true }
    }
    pub fn full(b: &[u8]) -> BodySpec {
        BodySpec { steps: vec![BStep::Data(b.to_vec())], hint: Hint::Exact, eos: true }
    }
    pub fn stream(chunks: &[&str]) -> BodySpec {
        BodySpec { steps: chunks.iter().map(|c| BStep::Data(c.as_bytes().to_vec())).collect(), hint: Hint::Unknown, eos: false }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = vec![];
        for s in &self.steps {
            match s {
                BStep::Data(d) => v.extend_from_slice(d),
                BStep::Err => break,
                _ => {}
            }
        }
        v
    }
    pub fn fails(&self) -> bool {
        self.steps.iter().any(|s| *s == BStep::Err)
    }
    pub fn trailers(&self) -> Option<Vec<(&'static str, &'static str)>> {
        self.steps.iter().find_map(|s| if let BStep::Trailers(t) = s { Some(t.clone()) } else { None })
    }
}

#[derive(Default, Debug)]
pub struct BodyStat {
    pub polled_data: usize,
    pub polls: u64,
    pub dropped: bool,
    pub ended: bool,
    pub polled_after_end: bool,
}

pub struct SBody {
    steps: VecDeque<BStep>,
    spec: Hint,
    eos: bool,
    env: SendCell<E>,
    pub stat: SendCell<Rc<RefCell<BodyStat>>>,
    blocked: Option<SendCell<Rc<Cell<bool>>>>,
    /// passes an incoming body on
    inner: Option<hyper::body::Incoming>,
}
impl SBody {
    pub fn from_incoming(env: &E, b: hyper::body::Incoming) -> SBody {
        let mut s = SBody::new(env, &BodySpec::empty());
        s.inner = Some(b);
        s
    }
    pub fn new(env: &E, spec: &BodySpec) -> SBody {
        SBody {
            steps: spec.steps.iter().cloned().collect(),
            spec: spec.hint,
            eos: spec.eos,
            env: SendCell(env.clone()),
            stat: SendCell(Default::default()),
            blocked: None,
            inner: None,
        }
    }
    fn left(&self) -> u64 {
        self.steps.iter().map(|s| if let BStep::Data(d) = s { d.len() as u64 } else { 0 }).sum()
    }
}
impl Drop for SBody {
    fn drop(&mut self) {
        self.stat.borrow_mut().dropped = true;
    }
}
#[derive(Debug)]
pub struct BodyErr;
impl std::fmt::Display for BodyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scripted body error")
    }
}
impl std::error::Error for BodyErr {}

pub fn hmap(v: &[(&str, &str)]) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (a, b) in v {
        m.append(HeaderName::from_bytes(a.as_bytes()).unwrap(), HeaderValue::from_bytes(b.as_bytes()).unwrap());
    }
    m
}

impl Body for SBody {
    type Data = Bytes;
    type Error = BodyErr;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, BodyErr>>> {
        self.env.op();
        self.stat.borrow_mut().polls += 1;
        if let Some(b) = self.inner.as_mut() {
            let r = Pin::new(b).poll_frame(cx);
            if let Poll::Ready(f) = &r {
                self.env.ch.step(41);
                let mut st = self.stat.borrow_mut();
                match f {
                    Some(Ok(f)) => st.polled_data += f.data_ref().map_or(0, |d| d.len()),
                    _ => st.ended = true,
                }
            }
            return r.map(|o| o.map(|f| f.map_err(|_| BodyErr)));
        }
        if let Some(b) = &self.blocked {
            if b.get() {
                // polled again before the event: stay pending, but remember the latest waker
                let env = self.env.clone();
                env.wake_later("body-ready", cx.waker());
                return Poll::Pending;
            }
            self.blocked = None;
        }
        match self.steps.pop_front() {
            None => {
                {
                    let mut st = self.stat.borrow_mut();
                    if st.ended {
                        st.polled_after_end = true;
                    }
                    st.ended = true;
                }
                self.env.ch.log(|| "  body -> end".to_string());
                Poll::Ready(None)
            }
            Some(BStep::Data(d)) => {
                self.stat.borrow_mut().polled_data += d.len();
                self.env.ch.log(|| format!("  body -> {} bytes", d.len()));
                self.env.ch.step(mix(d.len() as u64, 17));
                Poll::Ready(Some(Ok(Frame::data(Bytes::from(d)))))
            }
            Some(BStep::Trailers(t)) => {
                self.env.ch.log(|| "  body -> trailers".to_string());
                Poll::Ready(Some(Ok(Frame::trailers(hmap(&t)))))
            }
            Some(BStep::Err) => {
                self.env.ch.log(|| "  body -> error".to_string());
                self.steps.clear();
                Poll::Ready(Some(Err(BodyErr)))
            }
            Some(BStep::Gate(n)) => {
                if self.env.poll_gate(n, cx).is_ready() {
                    return self.poll_frame(cx);
                }
                self.steps.push_front(BStep::Gate(n));
                Poll::Pending
            }
            Some(BStep::Pending) => {
                self.env.ch.log(|| "  body -> Pending".to_string());
                let b = Rc::new(Cell::new(true));
                self.blocked = Some(SendCell(b.clone()));
                let w = cx.waker().clone();
                self.env.event("body-ready", move || {
                    b.set(false);
                    w.wake()
                });
                Poll::Pending
            }
        }
    }
    fn is_end_stream(&self) -> bool {
        if let Some(b) = &self.inner {
            return b.is_end_stream();
        }
        self.eos && self.steps.is_empty()
    }
    fn size_hint(&self) -> SizeHint {
        if let Some(b) = &self.inner {
            return b.size_hint();
        }
        match self.spec {
            Hint::Exact => SizeHint::with_exact(self.left()),
            Hint::Unknown => SizeHint::new(),
            Hint::Range => {
                let mut h = SizeHint::new();
                let l = self.left();
                h.set_lower(l.min(1));
                h.set_upper(l + 5);
                h
            }
            Hint::Claim(n) => SizeHint::with_exact(n),
        }
    }
}

// ---------------------------------------------------------------- small futures

/// Pending until the flag is set by an event (one `label` event is registered at the first poll).
pub struct EventFut {
    env: E,
    label: &'static str,
    state: Option<Rc<Cell<bool>>>,
    wk: Rc<RefCell<Option<Waker>>>,
}
pub fn wait_event(env: &E, label: &'static str) -> EventFut {
    EventFut { env: env.clone(), label, state: None, wk: Default::default() }
}
impl Future for EventFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        *self.wk.borrow_mut() = Some(cx.waker().clone());
        match &self.state {
            Some(c) if c.get() => Poll::Ready(()),
            Some(_) => Poll::Pending,
            None => {
                let c = Rc::new(Cell::new(false));
                self.state = Some(c.clone());
                let wk = self.wk.clone();
                self.env.event(self.label, move || {
                    c.set(true);
                    if let Some(w) = wk.borrow_mut().take() {
                        w.wake()
                    }
                });
                Poll::Pending
            }
        }
    }
}

/// A one-shot gate the scenario opens by hand.
#[derive(Clone, Default)]
pub struct Gate(pub Rc<(Cell<bool>, RefCell<Vec<Waker>>)>);
impl Gate {
    pub fn open(&self) {
        self.0 .0.set(true);
        for w in self.0 .1.borrow_mut().drain(..) {
            w.wake()
        }
    }
    pub fn wait(&self) -> impl Future<Output = ()> {
        let me = self.clone();
        std::future::poll_fn(move |cx| {
            if me.0 .0.get() {
                Poll::Ready(())
            } else {
                me.0 .1.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

#[derive(Clone)]
pub struct Exec(pub SendCell<E>, &'static str);
impl Exec {
    pub fn new(env: &E) -> Exec {
        Exec(SendCell(env.clone()), "spawned")
    }
    pub fn named(env: &E, name: &'static str) -> Exec {
        Exec(SendCell(env.clone()), name)
    }
}
impl<F> hyper::rt::Executor<F> for Exec
where
    F: Future + 'static,
{
    fn execute(&self, fut: F) {
        self.0.spawn(self.1, async move {
            let _ = fut.await;
        });
    }
}

// ---------------------------------------------------------------- incoming body observation

#[derive(Clone, Debug, PartialEq, Default)]
pub enum End {
    #[default]
    Unfinished,
    Clean,
    Error(String),
    /// the consumer stopped on purpose
    Stopped,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Got {
    pub data: Vec<u8>,
    pub frames: Vec<usize>,
    pub trailers: Option<Vec<(String, Vec<u8>)>>,
    pub end: End,
    /// violations of the body contract noticed while reading
    pub bad: Option<String>,
}
pub fn flat(h: &HeaderMap) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect()
}

/// Reads frames into `g` (at most `limit` frames), checking the per-step body contract.
pub async fn read_body<B>(body: &mut B, g: &Rc<RefCell<Got>>, limit: usize)
where
    B: Body<Data = Bytes> + Unpin,
    B::Error: std::fmt::Display,
{
    let mut hints: Vec<(usize, u64, Option<u64>)> = vec![];
    // latched: once true, nothing may come out any more
    let mut eos = false;
    let mut n = 0;
    loop {
        if n >= limit {
            g.borrow_mut().end = End::Stopped;
            return;
        }
        let at = g.borrow().data.len();
        let f = std::future::poll_fn(|cx| {
            // asked before every poll, also when that poll then finds nothing
            eos |= body.is_end_stream();
            let h = body.size_hint();
            hints.push((at, h.lower(), h.upper()));
            Pin::new(&mut *body).poll_frame(cx)
        })
        .await;
        n += 1;
        let mut g = g.borrow_mut();
        match f {
            None => {
                g.end = End::Clean;
                break;
            }
            Some(Err(e)) => {
                g.end = End::Error(e.to_string());
                if eos && g.bad.is_none() {
                    g.bad = Some("is_end_stream() was true, then an error came out".into());
                }
                break;
            }
            Some(Ok(f)) => {
                if eos && g.bad.is_none() {
                    g.bad = Some("is_end_stream() was true, then another frame came out".into());
                }
                match f.into_data() {
                    Ok(d) => {
                        g.frames.push(d.len());
                        g.data.extend_from_slice(&d);
                    }
                    Err(f) => {
                        if let Ok(t) = f.into_trailers() {
                            if g.trailers.is_some() {
                                g.bad = Some("trailers twice".into());
                            }
                            g.trailers = Some(flat(&t));
                        }
                    }
                }
            }
        }
    }
    let total = g.borrow().data.len() as u64;
    let clean = g.borrow().end == End::Clean;
    let ended = g.borrow().end == End::Clean;
    if ended && eos && !body.is_end_stream() && g.borrow().bad.is_none() {
        g.borrow_mut().bad = Some("is_end_stream() was true and is false after the end".into());
    }
    for (at, lo, up) in hints {
        let rest = total - at as u64;
        let mut bad = None;
        if clean && lo > rest {
            bad = Some(format!("size_hint lower bound {lo} but only {rest} bytes followed"));
        }
        if let Some(u) = up {
            if u < rest {
                bad = Some(format!("size_hint upper bound {u} but {rest} bytes followed"));
            }
        }
        if bad.is_some() {
            g.borrow_mut().bad = bad;
        }
    }
    // fused: after the end it keeps returning the end; after an error no frame comes and it does not hang
    for _ in 0..2 {
        let again = std::future::poll_fn(|cx| Poll::Ready(Pin::new(&mut *body).poll_frame(cx))).await;
        let fine = match &again {
            Poll::Ready(None) => true,
            Poll::Ready(Some(Err(_))) => !ended,
            _ => false,
        };
        if !fine {
            let mut g = g.borrow_mut();
            let what = match again {
                Poll::Pending => "Pending".to_string(),
                Poll::Ready(Some(Ok(_))) => "a frame".into(),
                Poll::Ready(Some(Err(e))) => format!("an error ({e})"),
                Poll::Ready(None) => unreachable!(),
            };
            if g.bad.is_none() {
                g.bad = Some(format!("after {:?} the body returned {what} instead of end", g.end));
            }
        }
    }
}

/// Runs `f`; an event that only fires as a deviation may drop it at any moment (None).
pub async fn or_dropped<F: Future + Unpin>(env: &E, label: &'static str, f: F) -> Option<F::Output> {
    struct St {
        gone: Cell<bool>,
        over: Cell<bool>,
        wk: RefCell<Option<Waker>>,
    }
    let st = Rc::new(St { gone: Cell::new(false), over: Cell::new(false), wk: Default::default() });
    let (a, b) = (st.clone(), st.clone());
    env.event_dev(
        label,
        move || !a.over.get() && !a.gone.get(),
        move || {
            b.gone.set(true);
            if let Some(w) = b.wk.borrow_mut().take() {
                w.wake()
            }
        },
    );
    let mut f = Some(f);
    let s2 = st.clone();
    struct Over(Rc<St>);
    impl Drop for Over {
        fn drop(&mut self) {
            self.0.over.set(true)
        }
    }
    let _over = Over(st);
    std::future::poll_fn(move |cx| {
        if s2.gone.get() {
            f = None;
            return Poll::Ready(None);
        }
        *s2.wk.borrow_mut() = Some(cx.waker().clone());
        match Pin::new(f.as_mut().unwrap()).poll(cx) {
            Poll::Ready(v) => {
                s2.over.set(true);
                f = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}
/// Reads a body to its end unless an event drops it first.
pub async fn read_or_drop<B>(env: &E, body: B, g: &Rc<RefCell<Got>>)
where
    B: Body<Data = Bytes> + Unpin,
    B::Error: std::fmt::Display,
{
    let f = Box::pin(async move {
        let mut body = body;
        read_body(&mut body, g, usize::MAX).await;
    });
    if or_dropped(env, "body dropped", f).await.is_none() {
        g.borrow_mut().end = End::Stopped;
    }
}

// ---------------------------------------------------------------- control of a connection task from events

/// Lets an event (or the scenario) drop a connection future or ask it to shut down gracefully.
#[derive(Clone, Default)]
pub struct Ctl(pub Rc<CtlInner>);
#[derive(Default)]
pub struct CtlInner {
    pub kill: Cell<bool>,
    pub graceful: Cell<bool>,
    pub killed: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
impl Ctl {
    pub fn wake(&self) {
        if let Some(w) = self.0.waker.borrow_mut().take() {
            w.wake()
        }
    }
    pub fn listen(&self, cx: &mut Context<'_>) {
        *self.0.waker.borrow_mut() = Some(cx.waker().clone());
    }
    pub fn kill(&self) {
        self.0.kill.set(true);
        self.wake();
    }
    pub fn graceful(&self) {
        self.0.graceful.set(true);
        self.wake();
    }
    /// An event that drops the connection future; only fires as a deviation unless `certain`.
    pub fn arm_kill(&self, env: &E) {
        let (a, b) = (self.clone(), self.clone());
        env.event_dev("connection future dropped", move || !a.0.kill.get(), move || b.kill());
    }
    pub fn arm_graceful(&self, env: &E) {
        let (a, b) = (self.clone(), self.clone());
        env.event_dev("graceful shutdown requested", move || !a.0.graceful.get(), move || b.graceful());
    }
}
