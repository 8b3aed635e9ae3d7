//! C26: the read-buffer cursor API never exposes or loses bytes.
//!
//! Every sequence of operations up to the depth bound runs on hyper's own `ReadBuf`/`ReadBufCursor`, over a window
//! inside a larger region whose other bytes must never change.  The model is a plain array.

use crate::core::*;
use hyper::rt::{ReadBuf, ReadBufCursor};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

const GARBAGE: u8 = 0xEE;
const GUARD: usize = 4;

struct Model {
    cap: usize,
    filled: Vec<u8>,
    /// what is known about the bytes at and after the fill position: written (value) or zeroed or garbage
    rest: Vec<u8>,
    init: usize,
    next: u8,
}
impl Model {
    fn rem(&self) -> usize {
        self.cap - self.filled.len()
    }
    fn fresh(&mut self) -> u8 {
        self.next += 1;
        self.next
    }
    /// k bytes at the fill position become part of the filled region
    fn advance(&mut self, k: usize) {
        let v: Vec<u8> = self.rest.drain(..k).collect();
        self.filled.extend(v);
        self.init = self.init.max(self.filled.len());
    }
}
fn raw(s: &[MaybeUninit<u8>]) -> Vec<u8> {
    // every byte of the region was initialised by the harness (with garbage)
    s.iter().map(|b| unsafe { b.assume_init() }).collect()
}
/// One operation on the cursor and on the model; Err: what went wrong.
fn op(ch: &Ch, c: &mut ReadBufCursor<'_>, m: &mut Model) -> Result<(), Viol> {
    let rem = m.rem();
    // put 0..=rem+1, initialise to 0..=rem+1, initialise all, advance 0..=init-filled, write through as_mut 1..=rem
    let adv = m.init - m.filled.len();
    let counts = [rem + 2, (rem + 2) * 2, 1, adv + 1, rem];
    let total: usize = counts.iter().sum();
    let mut k = ch.free(total, "op");
    let mut kind = 0;
    while k >= counts[kind] {
        k -= counts[kind];
        kind += 1;
    }
    ch.step(mix(kind as u64, k as u64));
    match kind {
        0 => {
            let src: Vec<u8> = (0..k).map(|_| m.fresh()).collect();
            ch.log(|| format!("put_slice({src:?})"));
            let r = catch_unwind(AssertUnwindSafe(|| c.put_slice(&src)));
            if r.is_err() != (k > rem) {
                return viol(format!("put_slice of {k} with {rem} remaining: panicked={}", r.is_err()), format!("put_slice of {k} bytes with {rem} remaining: panicked={}", r.is_err()));
            }
            if k <= rem {
                m.rest.splice(..k, src);
                m.advance(k);
            }
        }
        1 | 2 => {
            let (n, fill) = if kind == 2 { (rem, false) } else { (k / 2, k % 2 == 1) };
            ch.log(|| format!("initialize_unfilled{}({n}){}", if kind == 2 { "" } else { "_to" }, if fill { ", then written" } else { "" }));
            let vals: Vec<u8> = (0..n).map(|_| m.fresh()).collect();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let s = if kind == 2 { c.initialize_unfilled() } else { c.initialize_unfilled_to(n) };
                let got = s.to_vec();
                if fill {
                    s.copy_from_slice(&vals[..s.len()]);
                }
                got
            }));
            if r.is_err() != (n > rem) {
                return viol(format!("initialize_unfilled_to({n}) with {rem} remaining: panicked={}", r.is_err()), "initialising more than there is must panic, anything else must not");
            }
            if let Ok(got) = r {
                if got.len() != n {
                    return viol("initialize_unfilled length", format!("asked for {n} initialised bytes, got {}", got.len()));
                }
                let known = adv.min(n);
                if got[..known] != m.rest[..known] {
                    return viol("initialised bytes were reset", format!("bytes already initialised {:?} became {:?}", &m.rest[..known], &got[..known]));
                }
                if got[known..].iter().any(|b| *b == GARBAGE) {
                    return viol("uninitialised bytes exposed", format!("initialize_unfilled_to({n}) returned {got:?} (0xEE: never initialised)"));
                }
                m.rest.splice(..n, got);
                m.init = m.init.max(m.filled.len() + n);
                if fill {
                    m.rest.splice(..n, vals);
                }
            }
        }
        3 => {
            ch.log(|| format!("advance({k})"));
            unsafe { c.advance(k) };
            m.advance(k);
        }
        _ => {
            let n = k + 1;
            let vals: Vec<u8> = (0..n).map(|_| m.fresh()).collect();
            ch.log(|| format!("as_mut written {vals:?}, advance({n})"));
            let len = unsafe {
                let s = c.as_mut();
                let len = s.len();
                for (d, v) in s.iter_mut().zip(&vals) {
                    d.write(*v);
                }
                len
            };
            if len != rem {
                return viol("as_mut length", format!("as_mut() has {len} bytes, {rem} remain"));
            }
            unsafe { c.advance(n) };
            m.rest.splice(..n, vals);
            m.advance(n);
        }
    }
    if c.remaining() != m.rem() {
        return viol("remaining is inconsistent", format!("remaining() is {}, should be {}", c.remaining(), m.rem()));
    }
    let seen = raw(unsafe { c.as_mut() });
    if seen != m.rest {
        return viol("unfilled bytes changed", format!("the unfilled part is {seen:?}, should be {:?}", m.rest));
    }
    Ok(())
}
fn filled_is(b: &ReadBuf<'_>, m: &Model) -> Result<(), Viol> {
    if b.filled() != &m.filled[..] {
        return viol("filled() is not the bytes put", format!("filled() is {:?}, should be {:?}", b.filled(), m.filled));
    }
    Ok(())
}
fn run(ch: &Ch, cap: usize, init: bool, depth: usize, one_cursor: bool) -> ExecResult {
    let mut region = vec![GARBAGE; cap + 2 * GUARD];
    for (i, b) in region.iter_mut().enumerate() {
        if i < GUARD || i >= GUARD + cap {
            *b = 0xA5;
        } else if init {
            *b = 0x70 + i as u8;
        }
    }
    let start = region[GUARD..GUARD + cap].to_vec();
    let mut m = Model { cap, filled: vec![], rest: start, init: if init { cap } else { 0 }, next: 0 };
    {
        let win = &mut region[GUARD..GUARD + cap];
        let win_u: &mut [MaybeUninit<u8>] = unsafe { &mut *(win as *mut [u8] as *mut [MaybeUninit<u8>]) };
        let mut buf = if init { ReadBuf::new(win) } else { ReadBuf::uninit(win_u) };
        filled_is(&buf, &m)?;
        if one_cursor {
            let mut c = buf.unfilled();
            for _ in 0..depth {
                op(ch, &mut c, &mut m)?;
            }
        } else {
            for _ in 0..depth {
                {
                    let mut c = buf.unfilled();
                    if c.remaining() != m.rem() {
                        return viol("remaining is inconsistent", "a new cursor has a different remaining()");
                    }
                    op(ch, &mut c, &mut m)?;
                }
                filled_is(&buf, &m)?;
            }
        }
    }
    if region[..GUARD].iter().chain(&region[GUARD + cap..]).any(|b| *b != 0xA5) {
        return viol("bytes outside the buffer were written", format!("region {region:?}"));
    }
    if region[GUARD..GUARD + m.filled.len()] != m.filled[..] {
        return viol("filled() is not the bytes put", format!("at the end the buffer holds {:?}, should start with {:?}", &region[GUARD..GUARD + cap], m.filled));
    }
    Ok(mix(hash_bytes(&m.filled), m.init as u64))
}

pub fn check(t: Tier) -> Check {
    let mut sc = vec![];
    for cap in 0..=t.pick(4usize, 6) {
        for init in [false, true] {
            for one in [false, true] {
                // the whole tree of operation sequences is explored; deeper for smaller buffers
                let depth = match cap {
                    0 | 1 => t.pick(5, 6),
                    2 => t.pick(4, 5),
                    3 => t.pick(4, 5),
                    4 => t.pick(4, 5),
                    _ => 4,
                };
                sc.push(scenario(format!("cap{cap}/{}/{}/depth{depth}", if init { "init" } else { "uninit" }, if one { "one-cursor" } else { "cursor-per-op" }), 0, move |ch| run(ch, cap, init, depth, one)));
            }
        }
    }
    Check {
        id: "C26",
        scenarios: sc,
        rule: "every sequence of put_slice / initialize_unfilled(_to) (bytes then written or not) / advance over initialised bytes / as_mut written then advanced, up to the depth in the scenario name, on hyper's own ReadBuf over initialised and uninitialised buffers of up to four (thorough: six) bytes, with one cursor or a new cursor per operation".into(),
        assumptions: vec!["unsafe methods are called within their documented contract".into(), "uninitialised memory is stood in for by bytes of a fixed garbage value".into()],
    }
}
