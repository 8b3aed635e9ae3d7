//! C03: chunked bodies.
//!
//! Bytes are generated one at a time, and only while hyper still wants input: every byte string over the
//! alphabet up to the depth that is not refused earlier is explored.  The oracle is a table-driven reader of
//! the RFC 9112 chunked grammar.

use crate::core::*;
use crate::h1cli;
use crate::h1srv::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    Size0,
    Size,
    Bws,
    Ext,
    SizeLf,
    Data,
    DataCr,
    DataLf,
    Line0,
    Name,
    Value,
    ValueLf,
    EndLf,
    Done,
    Bad,
}
#[derive(Clone, Debug)]
pub struct Ref {
    s: S,
    size: u128,
    left: u128,
    pub data: Vec<u8>,
    pub trailers: Vec<(String, Vec<u8>)>,
    name: Vec<u8>,
    val: Vec<u8>,
    /// input the grammar allows only generously (extensions, BWS, obs-text): may be refused
    pub may_reject: bool,
    /// number of bytes consumed
    pub n: usize,
    pub ntrailers: usize,
    pub in_trailers: bool,
}
impl Ref {
    pub fn new() -> Ref {
        Ref { s: S::Size0, size: 0, left: 0, data: vec![], trailers: vec![], name: vec![], val: vec![], may_reject: false, n: 0, ntrailers: 0, in_trailers: false }
    }
    pub fn done(&self) -> bool {
        self.s == S::Done
    }
    pub fn bad(&self) -> bool {
        self.s == S::Bad
    }
    /// false once the byte belongs to what follows
    pub fn feed(&mut self, c: u8) -> bool {
        if self.s == S::Done {
            return false;
        }
        self.n += 1;
        self.s = match self.s {
            S::Size0 | S::Size if c.is_ascii_hexdigit() => {
                self.size = self.size * 16 + (c as char).to_digit(16).unwrap() as u128;
                if self.size > u64::MAX as u128 {
                    S::Bad
                } else {
                    S::Size
                }
            }
            S::Size | S::Bws => match c {
                b' ' | b'\t' => {
                    self.may_reject = true;
                    S::Bws
                }
                b';' => {
                    self.may_reject = true;
                    S::Ext
                }
                b'\r' => S::SizeLf,
                _ => S::Bad,
            },
            S::Ext => match c {
                b'\r' => S::SizeLf,
                b'\n' => S::Bad,
                _ => S::Ext,
            },
            S::SizeLf => {
                if c != b'\n' {
                    S::Bad
                } else if self.size == 0 {
                    self.in_trailers = true;
                    S::Line0
                } else {
                    self.left = self.size;
                    S::Data
                }
            }
            S::Data => {
                self.data.push(c);
                self.left -= 1;
                if self.left == 0 {
                    S::DataCr
                } else {
                    S::Data
                }
            }
            S::DataCr => {
                if c == b'\r' {
                    S::DataLf
                } else {
                    S::Bad
                }
            }
            S::DataLf => {
                self.size = 0;
                if c == b'\n' {
                    S::Size0
                } else {
                    S::Bad
                }
            }
            S::Line0 => {
                self.name.clear();
                self.val.clear();
                if c == b'\r' {
                    S::EndLf
                } else if crate::h1ref::is_tchar(c) {
                    self.name.push(c);
                    S::Name
                } else {
                    S::Bad
                }
            }
            S::Name => {
                if c == b':' {
                    S::Value
                } else if crate::h1ref::is_tchar(c) {
                    self.name.push(c);
                    S::Name
                } else {
                    S::Bad
                }
            }
            S::Value => match c {
                b'\r' => S::ValueLf,
                b'\t' | 0x20..=0x7e => {
                    self.val.push(c);
                    S::Value
                }
                0x80..=0xff => {
                    self.may_reject = true;
                    self.val.push(c);
                    S::Value
                }
                _ => S::Bad,
            },
            S::ValueLf => {
                if c == b'\n' {
                    let t: Vec<u8> = {
                        let s = &self.val;
                        let a = s.iter().position(|c| *c != b' ' && *c != b'\t').unwrap_or(s.len());
                        let b = s.iter().rposition(|c| *c != b' ' && *c != b'\t').map_or(a, |x| x + 1);
                        s[a..b].to_vec()
                    };
                    self.trailers.push((String::from_utf8(self.name.to_ascii_lowercase()).unwrap(), t));
                    self.ntrailers += 1;
                    S::Line0
                } else {
                    S::Bad
                }
            }
            S::EndLf => {
                if c == b'\n' {
                    S::Done
                } else {
                    S::Bad
                }
            }
            S::Size0 => S::Bad,
            S::Done | S::Bad => S::Bad,
        };
        true
    }
    pub fn read(b: &[u8]) -> Ref {
        let mut r = Ref::new();
        for c in b {
            if !r.feed(*c) || r.bad() {
                break;
            }
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Server,
    Client,
}
enum Side {
    S(Srv),
    C(h1cli::Cli),
}
impl Side {
    fn new(ch: &Ch, role: Role, pol: IoPolicy) -> Side {
        match role {
            Role::Server => Side::S(start(ch, SrvCfg::new(vec![Beh::simple("ok"), Beh::simple("ok2")]).pol(pol))),
            Role::Client => {
                let mut c = h1cli::start(ch, h1cli::CliCfg::new(pol));
                c.caller(h1cli::call("GET", "/1"));
                c.caller(h1cli::call("GET", "/2").after(1));
                Side::C(c)
            }
        }
    }
    fn io(&self) -> Io {
        match self {
            Side::S(s) => s.io.clone(),
            Side::C(c) => c.io.clone(),
        }
    }
    fn run(&mut self) -> RunEnd {
        match self {
            Side::S(s) => s.w.run(),
            Side::C(c) => c.w.run(),
        }
    }
    fn got(&self) -> Got {
        match self {
            Side::S(s) => s.recs.borrow().first().map(|r| r.got.borrow().clone()).unwrap_or_default(),
            Side::C(c) => c.recs.borrow()[0].got.borrow().clone(),
        }
    }
    /// messages seen after the first
    fn second(&self) -> Option<(String, Got)> {
        match self {
            Side::S(s) => s.recs.borrow().get(1).map(|r| (format!("{} {}", r.method, r.uri), r.got.borrow().clone())),
            Side::C(c) => {
                let r = c.recs.borrow();
                if r[1].outcome == h1cli::Outcome::Resp {
                    Some((format!("{}", r[1].status), r[1].got.borrow().clone()))
                } else {
                    None
                }
            }
        }
    }
    fn wants_more(&self) -> bool {
        self.got().end == End::Unfinished
    }
    fn desc(&self) -> String {
        match self {
            Side::S(s) => format!("service saw:\n{}wire: {:?}\nresult: {:?}", s.seen(), esc(&s.io.out()), s.result.borrow()),
            Side::C(c) => c.summary(),
        }
    }
}
fn pre(role: Role) -> &'static [u8] {
    match role {
        Role::Server => b"POST /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n",
        Role::Client => b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n",
    }
}
fn next(role: Role) -> (&'static [u8], &'static str, &'static [u8]) {
    match role {
        Role::Server => (b"POST /n HTTP/1.1\r\nContent-Length: 3\r\n\r\nxyz", "POST /n", b"xyz"),
        Role::Client => (b"HTTP/1.1 203 No\r\nContent-Length: 3\r\n\r\nxyz", "203", b"xyz"),
    }
}

/// `more`: further bytes may still come.
fn judge(side: &Side, b: &[u8], more: bool, role: Role) -> Result<(), Viol> {
    let g = side.got();
    let r = Ref::read(b);
    let d = || format!("{role:?} body bytes {:?}\n{}", esc(b), side.desc());
    if let Some(x) = &g.bad {
        return viol("body contract", format!("{x}\n{}", d()));
    }
    if !r.data.starts_with(&g.data) {
        return viol("wrong data", d());
    }
    match &g.end {
        End::Clean => {
            if !r.done() {
                return viol("body ended cleanly without the grammar's end", d());
            }
            if g.data != r.data {
                return viol("wrong data", d());
            }
            let want = if r.trailers.is_empty() { None } else { Some(grouped(&r.trailers)) };
            let have = g.trailers.clone().map(|t| grouped(&t));
            if want != have {
                return viol("wrong trailers", d());
            }
        }
        End::Error(_) => {
            if r.done() && !r.may_reject {
                return viol("valid body refused", d());
            }
            if more && !r.bad() && !r.done() && !r.may_reject {
                return viol("valid prefix refused", d());
            }
        }
        _ => {
            // a malformed trailer line may be noticed only when the section is complete
            if (r.bad() && !r.in_trailers) || r.done() || !more {
                return viol("no verdict on a finished body", d());
            }
        }
    }
    Ok(())
}
fn grouped(h: &[(String, Vec<u8>)]) -> Vec<(String, Vec<u8>)> {
    let mut v = h.to_vec();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn finish(side: &mut Side, b: &[u8], role: Role) -> Result<(), Viol> {
    // what follows the body
    let (nx, a, body) = next(role);
    let r = Ref::read(b);
    side.io().push(nx);
    side.run();
    side.io().push_eof();
    if side.run() == RunEnd::StepLimit {
        return viol("livelock", format!("{role:?} {:?}", esc(b)));
    }
    let d = || format!("{role:?} body bytes {:?} then a second message\n{}", esc(b), side.desc());
    match (side.got().end, side.second()) {
        (End::Clean, Some((s, g))) if s == a && g.data == body && g.end == End::Clean && r.n == b.len() => Ok(()),
        (End::Clean, _) if r.n < b.len() => Ok(()), // the string ran past the body: judged elsewhere
        (End::Clean, _) => viol("next message lost or misread", d()),
        (End::Unfinished, _) => viol("no verdict after the connection ended", d()),
        (_, None) => Ok(()),
        (_, Some(_)) => viol("message found after a broken body", d()),
    }
}

fn whole(ch: &Ch, b: &[u8], cut: usize, eof: bool, role: Role) -> Result<(), Viol> {
    let mut s = Side::new(ch, role, IO_PLAIN);
    let mut all = pre(role).to_vec();
    let p = all.len();
    all.extend(b);
    if role == Role::Client {
        s.run(); // the request goes out first
    }
    if cut > 0 {
        s.io().push(&all[..p + cut]);
        s.run();
        s.io().push(&all[p + cut..]);
    } else {
        s.io().push(&all);
    }
    s.run();
    if eof {
        s.io().push_eof();
        s.run();
    }
    judge(&s, b, !eof, role)?;
    if !eof {
        finish(&mut s, b, role)?;
    }
    Ok(())
}

fn generate(ch: &Ch, prefix: &[u8], alpha: &[u8], depth: usize, role: Role, cuts: bool) -> ExecResult {
    let mut s = Side::new(ch, role, IO_PLAIN);
    s.run();
    s.io().push(pre(role));
    let mut b = prefix.to_vec();
    s.io().push(prefix);
    s.run();
    let mut eof = false;
    let mut n = 0;
    loop {
        judge(&s, &b, true, role)?;
        if !s.wants_more() {
            break;
        }
        let k = if n == depth { 0 } else { ch.free(alpha.len() + 1, "next byte") };
        if k == 0 {
            s.io().push_eof();
            s.run();
            eof = true;
            judge(&s, &b, false, role)?;
            break;
        }
        b.push(alpha[k - 1]);
        s.io().push(&alpha[k - 1..k]);
        s.run();
        n += 1;
    }
    if !eof {
        finish(&mut s, &b, role)?;
    }
    let out = mix(hash_bytes(format!("{:?}", s.got()).as_bytes()), eof as u64);
    drop(s);
    whole(ch, &b, 0, eof, role)?;
    if cuts {
        for c in 1..b.len() {
            whole(ch, &b, c, eof, role)?;
        }
    }
    ch.step(out);
    Ok(out)
}

const BODIES: &[&[u8]] = &[
    b"5\r\nhello\r\n0\r\n\r\n",
    b"1\r\na\r\n2\r\nbc\r\n0\r\n\r\n",
    b"A\r\n0123456789\r\n0\r\n\r\n",
    b"3;ext=\"v\"\r\nabc\r\n0;x\r\n\r\n",
    b"0\r\nX-A: b\r\nY: c d\r\n\r\n",
    b"2\r\n\r\n\r\n000\r\nt: \r\n\r\n",
];

pub fn check(tier: Tier) -> Check {
    let mut sc = vec![];
    const ALPHA: &[u8] = b"01a\r\n; x:f";
    for role in [Role::Server, Role::Client] {
        let base = tier.pick(6, 7);
        let starts: Vec<(&str, &'static [u8], usize)> = vec![
            ("start", b"", base),
            ("data1", b"1\r\n", base),
            ("data2", b"2\r\na", base - 1),
            ("second", b"1\r\nx\r\n", base - 1),
            ("ext", b"1;", base - 2),
            ("last", b"0\r\n", base - 1),
            ("trailer", b"0\r\nx:", base - 1),
            ("trailer2", b"0\r\nx:1\r\n", base - 1),
            ("trailer-blank", b"0\r\nx:1\r\n\r", base - 2),
            ("big", b"fffffffffffffff", 4),
            ("overflow", b"ffffffffffffffff", 4),
            ("wrap32", b"100000000", 4),
            ("wrap32-data", b"ffffffff00000000\r\n", 3),
            ("overflow1", b"10000000000000000", 3),
            ("leadzeros", b"0000000000000000000000000", 4),
        ];
        for (name, p, depth) in starts {
            let cuts = tier.thorough();
            sc.push(scenario(format!("{role:?}/gen/{name}/{depth}"), 0, move |ch| generate(ch, p, ALPHA, depth, role, cuts)));
        }
        // all single-byte mutations of valid bodies, whole and cut
        const CHARS: &[u8] = b"\x00\t\n\r !+-0159;:AGag\"\x7f\x80\xff";
        for (bi, body) in BODIES.iter().enumerate() {
            sc.push(scenario(format!("{role:?}/mutate/{bi}"), 0, move |ch| {
                let mut b = body.to_vec();
                let i = ch.free(b.len(), "position");
                match ch.free(CHARS.len() * 2 + 2, "op") {
                    0 => {
                        b.remove(i);
                    }
                    1 => b.truncate(i),
                    k if k < CHARS.len() + 2 => b[i] = CHARS[k - 2],
                    k => b.insert(i, CHARS[k - 2 - CHARS.len()]),
                }
                let eof = ch.free(2, "eof after") == 1;
                let r = Ref::read(&b);
                // strings that run past the body are cut where the body ends
                if r.n < b.len() {
                    b.truncate(r.n);
                }
                // without the end of stream only finished strings have a verdict
                let eof = eof || !(r.done() || r.bad());
                let cut = ch.free(b.len().max(1), "cut");
                whole(ch, &b, cut, eof, role)?;
                ch.step(hash_bytes(&b));
                Ok(mix(r.done() as u64, r.bad() as u64))
            }));
            // delivery schedules of the valid body
            sc.push(scenario(format!("{role:?}/schedules/{bi}"), tier.pick(2, 3), move |ch| {
                let mut s = Side::new(ch, role, IoPolicy { read: Cuts::All, read_pending: true, ..IO_PLAIN });
                if role == Role::Client {
                    s.run();
                }
                let mut all = pre(role).to_vec();
                all.extend(*body);
                s.io().push(&all);
                s.run();
                judge(&s, body, true, role)?;
                finish(&mut s, body, role)?;
                Ok(1)
            }));
        }
        // limits: extensions and trailers are bounded, in bytes and number
        sc.push(scenario(format!("{role:?}/limits"), 0, move |ch| {
            let (b, must): (Vec<u8>, bool) = match ch.free(6, "case") {
                0 => ([b"1;".to_vec(), vec![b'e'; 20_000], b"\r\na\r\n0\r\n\r\n".to_vec()].concat(), true),
                1 => ([b"1;".to_vec(), vec![b'e'; 1000], b"\r\na\r\n0\r\n\r\n".to_vec()].concat(), false),
                2 => ([b"1;eeee\r\na\r\n".repeat(5000), b"0\r\n\r\n".to_vec()].concat(), true),
                3 => ([b"0\r\nx: ".to_vec(), vec![b'e'; 40_000], b"\r\n\r\n".to_vec()].concat(), true),
                4 => ([b"0\r\n".to_vec(), b"x: y\r\n".repeat(101), b"\r\n".to_vec()].concat(), true),
                _ => ([b"0\r\n".to_vec(), b"x: y\r\n".repeat(99), b"\r\n".to_vec()].concat(), false),
            };
            let mut s = Side::new(ch, role, IO_PLAIN);
            match &mut s {
                Side::S(s) => s.w.max_steps = 100_000,
                Side::C(c) => c.w.max_steps = 100_000,
            }
            s.run();
            s.io().push(pre(role));
            s.io().push(&b);
            s.run();
            let g = s.got();
            let refused = matches!(g.end, End::Error(_));
            if refused != must {
                return viol("limits", format!("{role:?} end {:?} for {} bytes", g.end, b.len()));
            }
            if !refused {
                judge(&s, &b, true, role)?;
            }
            Ok(refused as u64)
        }));
    }
    Check {
        id: "C03",
        scenarios: sc,
        rule: "Every byte string over a ten-symbol alphabet, generated lazily from fifteen starting points while the receiver still wants input, delivered byte by byte, whole, and (thorough) at every cut; every single-byte mutation of valid bodies at every cut; both roles. A table-driven reader of the chunked grammar says what the data, trailers and end must be, and a second message checks where the body ended.".into(),
        assumptions: vec!["chunk extensions, white space after the size and obs-text in trailers may be refused or ignored".into()],
    }
}
