//! An independent, deliberately boring HTTP/1.x reader (RFC 9112), used as the oracle for bytes hyper writes.
//! It is strict: CRLF only, single SP, no obs-fold, no whitespace around names.

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    None,
    Len(u64),
    Chunked,
    Close,
    /// 101 / 2xx CONNECT: the rest is not HTTP
    Tunnel,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    /// request: (method, target); response: (status, reason)
    pub a: String,
    pub b: String,
    pub minor: u8,
    pub headers: Vec<(String, Vec<u8>)>,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub chunks: usize,
    pub trailers: Option<Vec<(String, Vec<u8>)>>,
    pub end: usize,
    pub head_end: usize,
}
impl Msg {
    pub fn get(&self, n: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|(a, _)| a.eq_ignore_ascii_case(n)).map(|(_, v)| &v[..]).collect()
    }
    pub fn tokens(&self, n: &str) -> Vec<String> {
        let mut out = vec![];
        for v in self.get(n) {
            for t in String::from_utf8_lossy(v).split(',') {
                let t = t.trim().to_ascii_lowercase();
                if !t.is_empty() {
                    out.push(t)
                }
            }
        }
        out
    }
    pub fn status(&self) -> u16 {
        self.a.parse().unwrap_or(0)
    }
    /// what this message says about persistence
    pub fn says_persist(&self) -> bool {
        let t = self.tokens("connection");
        if t.iter().any(|x| x == "close") {
            return false;
        }
        if self.minor >= 1 {
            true
        } else {
            t.iter().any(|x| x == "keep-alive")
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    Incomplete,
    Bad(String),
}
fn bad<T>(s: impl Into<String>) -> Result<T, PErr> {
    Err(PErr::Bad(s.into()))
}

pub fn is_tchar(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}

fn line(b: &[u8], at: usize) -> Result<(&[u8], usize), PErr> {
    let mut i = at;
    while i < b.len() {
        if b[i] == b'\n' {
            return bad("bare LF");
        }
        if b[i] == b'\r' {
            if i + 1 >= b.len() {
                return Err(PErr::Incomplete);
            }
            if b[i + 1] != b'\n' {
                return bad("bare CR");
            }
            return Ok((&b[at..i], i + 2));
        }
        i += 1;
    }
    Err(PErr::Incomplete)
}

pub fn fields(b: &[u8], mut at: usize) -> Result<(Vec<(String, Vec<u8>)>, usize), PErr> {
    let mut v = vec![];
    loop {
        let (l, n) = line(b, at)?;
        at = n;
        if l.is_empty() {
            return Ok((v, at));
        }
        let c = match l.iter().position(|c| *c == b':') {
            Some(c) => c,
            None => return bad(format!("header line without colon: {:?}", String::from_utf8_lossy(l))),
        };
        let name = &l[..c];
        if name.is_empty() || !name.iter().all(|c| is_tchar(*c)) {
            return bad(format!("bad header name {:?}", String::from_utf8_lossy(name)));
        }
        let mut val = &l[c + 1..];
        while let [b' ' | b'\t', rest @ ..] = val {
            val = rest
        }
        while let [rest @ .., b' ' | b'\t'] = val {
            val = rest
        }
        if val.iter().any(|c| (*c < 0x20 && *c != b'\t') || *c == 0x7f) {
            return bad("control character in header value");
        }
        v.push((String::from_utf8(name.to_vec()).unwrap(), val.to_vec()));
    }
}

fn parse_len(m: &Msg) -> Result<Option<u64>, PErr> {
    let v = m.get("content-length");
    if v.is_empty() {
        return Ok(None);
    }
    if v.len() > 1 {
        return bad("more than one Content-Length line");
    }
    let s = v[0];
    if s.is_empty() || s.len() > 19 || !s.iter().all(|c| c.is_ascii_digit()) {
        return bad(format!("Content-Length {:?}", String::from_utf8_lossy(s)));
    }
    Ok(Some(std::str::from_utf8(s).unwrap().parse().unwrap()))
}

fn chunked(b: &[u8], mut at: usize, m: &mut Msg) -> Result<usize, PErr> {
    loop {
        let (l, n) = line(b, at)?;
        let hex = l.split(|c| *c == b';').next().unwrap();
        if hex.is_empty() || hex.len() > 16 || !hex.iter().all(|c| c.is_ascii_hexdigit()) {
            return bad(format!("chunk size {:?}", String::from_utf8_lossy(l)));
        }
        let sz = u64::from_str_radix(std::str::from_utf8(hex).unwrap(), 16).unwrap() as usize;
        at = n;
        if sz == 0 {
            let (t, n) = fields(b, at)?;
            if !t.is_empty() {
                m.trailers = Some(t);
            }
            return Ok(n);
        }
        m.chunks += 1;
        if b.len() < at + sz {
            m.body.extend_from_slice(&b[at..]);
            return Err(PErr::Incomplete);
        }
        m.body.extend_from_slice(&b[at..at + sz]);
        at += sz;
        if b.len() < at + 2 {
            if b.len() == at + 1 && b[at] != b'\r' {
                return bad("chunk data not followed by CRLF");
            }
            return Err(PErr::Incomplete);
        }
        if &b[at..at + 2] != b"\r\n" {
            return bad("chunk data not followed by CRLF");
        }
        at += 2;
    }
}

/// `partial` receives the message as far as it was read when it is incomplete.
fn body(b: &[u8], mut m: Msg, eof: bool, partial: &mut Option<Msg>) -> Result<Msg, PErr> {
    let at = m.head_end;
    match m.framing.clone() {
        Framing::None | Framing::Tunnel => {
            m.end = at;
            Ok(m)
        }
        Framing::Len(n) => {
            let have = (b.len() - at) as u64;
            if have < n {
                m.body = b[at..].to_vec();
                *partial = Some(m);
                return Err(PErr::Incomplete);
            }
            m.body = b[at..at + n as usize].to_vec();
            m.end = at + n as usize;
            Ok(m)
        }
        Framing::Chunked => match chunked(b, at, &mut m) {
            Ok(e) => {
                m.end = e;
                Ok(m)
            }
            Err(e) => {
                *partial = Some(m);
                Err(e)
            }
        },
        Framing::Close => {
            m.body = b[at..].to_vec();
            m.end = b.len();
            if eof {
                Ok(m)
            } else {
                *partial = Some(m);
                Err(PErr::Incomplete)
            }
        }
    }
}

fn te_last_chunked(m: &Msg) -> Result<Option<bool>, PErr> {
    let t = m.tokens("transfer-encoding");
    if m.get("transfer-encoding").is_empty() {
        return Ok(None);
    }
    let n = t.iter().filter(|x| *x == "chunked").count();
    if n > 1 {
        return bad("chunked applied more than once");
    }
    Ok(Some(t.last().map_or(false, |x| x == "chunked")))
}

pub fn response(b: &[u8], start: usize, method: &str, eof: bool, partial: &mut Option<Msg>) -> Result<Msg, PErr> {
    let (l, n) = line(b, start)?;
    let s = match std::str::from_utf8(l) {
        Ok(s) => s.to_string(),
        Err(_) => l.iter().map(|c| *c as char).collect(),
    };
    if s.len() < 12 || !(s.starts_with("HTTP/1.1 ") || s.starts_with("HTTP/1.0 ")) {
        return bad(format!("status line {s:?}"));
    }
    let minor = s.as_bytes()[7] - b'0';
    let code = &s[9..12];
    if !code.bytes().all(|c| c.is_ascii_digit()) || (s.len() > 12 && &s[12..13] != " ") {
        return bad(format!("status line {s:?}"));
    }
    if s.len() == 12 {
        return bad(format!("status line without SP before reason {s:?}"));
    }
    let (h, n) = fields(b, n)?;
    let mut m = Msg {
        a: code.to_string(),
        b: s[13..].to_string(),
        minor,
        headers: h,
        framing: Framing::None,
        body: vec![],
        chunks: 0,
        trailers: None,
        end: n,
        head_end: n,
    };
    let st = m.status();
    let te = te_last_chunked(&m)?;
    let cl = parse_len(&m)?;
    if te.is_some() && cl.is_some() {
        return bad("both Transfer-Encoding and Content-Length on the wire");
    }
    if te.is_some() && minor == 0 {
        return bad("Transfer-Encoding in an HTTP/1.0 message");
    }
    let tunnel = st == 101 || (method == "CONNECT" && (200..300).contains(&st));
    if (tunnel || (100..200).contains(&st) || st == 204) && te.is_some() {
        return bad(format!("Transfer-Encoding in a {st} response"));
    }
    m.framing = if tunnel {
        Framing::Tunnel
    } else if (100..200).contains(&st) || st == 204 || st == 304 || method == "HEAD" {
        Framing::None
    } else if let Some(c) = te {
        if c {
            Framing::Chunked
        } else {
            Framing::Close
        }
    } else if let Some(n) = cl {
        Framing::Len(n)
    } else {
        Framing::Close
    };
    body(b, m, eof, partial)
}

pub fn request(b: &[u8], start: usize, partial: &mut Option<Msg>) -> Result<Msg, PErr> {
    let (l, n) = line(b, start)?;
    let s = String::from_utf8_lossy(l).to_string();
    let p: Vec<&str> = s.split(' ').collect();
    if p.len() != 3 || p[0].is_empty() || p[1].is_empty() || !p[0].bytes().all(is_tchar) {
        return bad(format!("request line {s:?}"));
    }
    let minor = match p[2] {
        "HTTP/1.1" => 1,
        "HTTP/1.0" => 0,
        _ => return bad(format!("request line {s:?}")),
    };
    let (h, n) = fields(b, n)?;
    let mut m = Msg {
        a: p[0].to_string(),
        b: p[1].to_string(),
        minor,
        headers: h,
        framing: Framing::None,
        body: vec![],
        chunks: 0,
        trailers: None,
        end: n,
        head_end: n,
    };
    let te = te_last_chunked(&m)?;
    let cl = parse_len(&m)?;
    if te.is_some() && cl.is_some() {
        return bad("both Transfer-Encoding and Content-Length on the wire");
    }
    if te.is_some() && minor == 0 {
        return bad("Transfer-Encoding in an HTTP/1.0 message");
    }
    if te == Some(false) {
        return bad("request Transfer-Encoding does not end in chunked");
    }
    m.framing = if te == Some(true) {
        Framing::Chunked
    } else if let Some(n) = cl {
        Framing::Len(n)
    } else {
        Framing::None
    };
    body(b, m, true, partial)
}

/// Splits a server's output into responses; `methods[i]` is the method of the i-th request.
/// Interim 1xx responses are attached in order with their final response.
#[derive(Debug, Clone)]
pub struct Stream {
    pub msgs: Vec<(Vec<u16>, Msg)>,
    pub tail: Tail,
    pub pending_1xx: Vec<u16>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Tail {
    Clean,
    /// bytes of a message that is not complete
    Partial(Option<Msg>),
    Bad(String),
    /// bytes after the last expected response / after an upgrade head
    Extra(Vec<u8>),
}
pub fn responses(b: &[u8], methods: &[String], eof: bool) -> Stream {
    let mut at = 0;
    let mut out = Stream { msgs: vec![], tail: Tail::Clean, pending_1xx: vec![] };
    let mut i = 0;
    let mut interim = vec![];
    while at < b.len() {
        // a response without a (parsed) request can still be an error response: treat method as GET
        let m = methods.get(i).map(|s| s.as_str()).unwrap_or("GET");
        let mut part = None;
        match response(b, at, m, eof, &mut part) {
            Ok(r) => {
                at = r.end;
                let st = r.status();
                if (100..200).contains(&st) && st != 101 {
                    interim.push(st);
                    continue;
                }
                let tunnel = r.framing == Framing::Tunnel;
                out.msgs.push((std::mem::take(&mut interim), r));
                i += 1;
                if tunnel {
                    if at < b.len() {
                        out.tail = Tail::Extra(b[at..].to_vec());
                    }
                    return out;
                }
            }
            Err(PErr::Incomplete) => {
                out.tail = Tail::Partial(part);
                out.pending_1xx = interim;
                return out;
            }
            Err(PErr::Bad(s)) => {
                out.tail = Tail::Bad(s);
                return out;
            }
        }
    }
    out.pending_1xx = interim;
    out
}
pub fn requests(b: &[u8]) -> (Vec<Msg>, Tail) {
    let mut at = 0;
    let mut v = vec![];
    while at < b.len() {
        let mut part = None;
        match request(b, at, &mut part) {
            Ok(m) => {
                at = m.end;
                v.push(m)
            }
            Err(PErr::Incomplete) => return (v, Tail::Partial(part)),
            Err(PErr::Bad(s)) => return (v, Tail::Bad(s)),
        }
    }
    (v, Tail::Clean)
}
