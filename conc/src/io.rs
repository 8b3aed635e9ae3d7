//! Transports: a scripted peer, and a pair of byte queues between two real connections.
use hyper::rt::{Read, ReadBufCursor, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub enum St {
    /// until this text has been written `n` times
    Wait(&'static str, usize),
    /// until the connection is shut down or dropped
    WaitEof,
    Send(Vec<u8>),
    /// one read that is not ready yet although it will be
    Pend,
    Eof,
    Err,
}
pub fn send(s: &str) -> St {
    St::Send(s.as_bytes().to_vec())
}

pub struct Peer {
    pub steps: Vec<St>,
    pub out: Vec<u8>,
    pub shut: bool,
    rd: Option<Waker>,
    wr_err: bool,
}
#[derive(Clone)]
pub struct P(pub Arc<Mutex<Peer>>);
pub struct Scripted(P);

pub fn scripted(steps: Vec<St>) -> (Scripted, P) {
    let p = P(Arc::new(Mutex::new(Peer { steps, out: vec![], shut: false, rd: None, wr_err: false })));
    (Scripted(p.clone()), p)
}
impl P {
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.0.lock().unwrap().out).into_owned()
    }
    pub fn left(&self) -> usize {
        self.0.lock().unwrap().steps.len()
    }
    pub fn shut(&self) -> bool {
        self.0.lock().unwrap().shut
    }
}
fn count(h: &[u8], n: &[u8]) -> usize {
    h.windows(n.len()).filter(|w| *w == n).count()
}
impl Read for Scripted {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        hsync::pt();
        let mut p = self.0 .0.lock().unwrap();
        loop {
            match p.steps.first().cloned() {
                None => {
                    p.rd = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(St::Wait(t, n)) => {
                    if count(&p.out, t.as_bytes()) >= n {
                        p.steps.remove(0);
                        continue;
                    }
                    p.rd = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(St::WaitEof) => {
                    if p.shut {
                        p.steps.remove(0);
                        continue;
                    }
                    p.rd = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(St::Send(b)) => {
                    let n = b.len().min(buf.remaining());
                    buf.put_slice(&b[..n]);
                    if n == b.len() {
                        p.steps.remove(0);
                    } else {
                        p.steps[0] = St::Send(b[n..].to_vec());
                    }
                    return Poll::Ready(Ok(()));
                }
                Some(St::Pend) => {
                    p.steps.remove(0);
                    drop(p);
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Some(St::Eof) => return Poll::Ready(Ok(())),
                Some(St::Err) => {
                    p.wr_err = true;
                    return Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into()));
                }
            }
        }
    }
}
impl Write for Scripted {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        hsync::pt();
        let mut p = self.0 .0.lock().unwrap();
        if p.wr_err {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        p.out.extend_from_slice(buf);
        let w = p.rd.take();
        drop(p);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let w = {
            let mut p = self.0 .0.lock().unwrap();
            p.shut = true;
            p.rd.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
impl Drop for Scripted {
    fn drop(&mut self) {
        self.0 .0.lock().unwrap().shut = true;
    }
}

#[derive(Default)]
struct Q {
    b: std::collections::VecDeque<u8>,
    closed: bool,
    rd: Option<Waker>,
}
pub struct Half {
    rx: Arc<Mutex<Q>>,
    tx: Arc<Mutex<Q>>,
}
pub fn duplex() -> (Half, Half) {
    let a = Arc::new(Mutex::new(Q::default()));
    let b = Arc::new(Mutex::new(Q::default()));
    (Half { rx: a.clone(), tx: b.clone() }, Half { rx: b, tx: a })
}
impl Read for Half {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        hsync::pt();
        let mut q = self.rx.lock().unwrap();
        if q.b.is_empty() {
            if q.closed {
                return Poll::Ready(Ok(()));
            }
            q.rd = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = q.b.len().min(buf.remaining());
        let v: Vec<u8> = q.b.drain(..n).collect();
        buf.put_slice(&v);
        Poll::Ready(Ok(()))
    }
}
impl Half {
    fn close(&self) {
        for q in [&self.tx, &self.rx] {
            let w = {
                let mut q = q.lock().unwrap();
                q.closed = true;
                q.rd.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }
    }
}
impl Write for Half {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        hsync::pt();
        let w = {
            let mut q = self.tx.lock().unwrap();
            // like a socket whose peer has gone: what is written is lost
            if !q.closed {
                q.b.extend(buf);
            }
            q.rd.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let w = {
            let mut q = self.tx.lock().unwrap();
            q.closed = true;
            q.rd.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
impl Drop for Half {
    fn drop(&mut self) {
        self.close();
    }
}
