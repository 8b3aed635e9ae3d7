//! An independent reading of HTTP/2 (RFC 9113) and HPACK (RFC 7541): frames, header blocks, and what each stream carried.

use crate::h2huff::HUFF;
use std::collections::{BTreeMap, VecDeque};

pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
pub const NO_ERROR: u32 = 0;
pub const PROTOCOL_ERROR: u32 = 1;
pub const INTERNAL_ERROR: u32 = 2;
pub const REFUSED_STREAM: u32 = 7;
pub const CANCEL: u32 = 8;

pub type Fields = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    /// stream, flow-controlled length, bytes, end
    Data(u32, usize, Vec<u8>, bool),
    Headers(u32, Fields, bool),
    Priority(u32),
    Rst(u32, u32),
    Settings(Vec<(u16, u32)>),
    SettingsAck,
    Push(u32),
    Ping(bool, [u8; 8]),
    /// last stream, code
    Goaway(u32, u32),
    Window(u32, u32),
    Other(u8),
}

// ---------------------------------------------------------------- HPACK

const STATIC: [(&str, &str); 61] = [
    (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"), (":scheme", "http"),
    (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"), (":status", "304"), (":status", "400"),
    (":status", "404"), (":status", "500"), ("accept-charset", ""), ("accept-encoding", "gzip, deflate"), ("accept-language", ""),
    ("accept-ranges", ""), ("accept", ""), ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""),
    ("cache-control", ""), ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""),
    ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""), ("etag", ""), ("expect", ""),
    ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""), ("if-modified-since", ""), ("if-none-match", ""), ("if-range", ""),
    ("if-unmodified-since", ""), ("last-modified", ""), ("link", ""), ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""),
    ("proxy-authorization", ""), ("range", ""), ("referer", ""), ("refresh", ""), ("retry-after", ""), ("server", ""), ("set-cookie", ""),
    ("strict-transport-security", ""), ("transfer-encoding", ""), ("user-agent", ""), ("vary", ""), ("via", ""), ("www-authenticate", ""),
];

#[derive(Default)]
pub struct Hpack {
    dynamic: VecDeque<(Vec<u8>, Vec<u8>)>,
    size: usize,
    max: usize,
}
fn int(b: &[u8], at: &mut usize, bits: u8) -> Result<usize, String> {
    let mask = (1usize << bits) - 1;
    let first = *b.get(*at).ok_or("hpack: truncated integer")? as usize & mask;
    *at += 1;
    if first < mask {
        return Ok(first);
    }
    let (mut v, mut sh) = (mask, 0);
    loop {
        let x = *b.get(*at).ok_or("hpack: truncated integer")? as usize;
        *at += 1;
        v += (x & 127) << sh;
        sh += 7;
        if x & 128 == 0 {
            return Ok(v);
        }
        if sh > 35 {
            return Err("hpack: integer too long".into());
        }
    }
}
fn unhuff(b: &[u8]) -> Result<Vec<u8>, String> {
    use std::sync::OnceLock;
    static T: OnceLock<BTreeMap<(u8, u32), u8>> = OnceLock::new();
    let t = T.get_or_init(|| HUFF.iter().enumerate().map(|(i, (c, l))| ((*l, *c), i as u8)).collect());
    let (mut code, mut len) = (0u32, 0u8);
    let mut out = vec![];
    for byte in b {
        for k in (0..8).rev() {
            code = code << 1 | (*byte >> k & 1) as u32;
            len += 1;
            if let Some(c) = t.get(&(len, code)) {
                out.push(*c);
                code = 0;
                len = 0;
            } else if len > 30 {
                return Err("hpack: bad huffman code".into());
            }
        }
    }
    if len > 7 || code != (1u32 << len) - 1 {
        return Err("hpack: bad huffman padding".into());
    }
    Ok(out)
}
fn string(b: &[u8], at: &mut usize) -> Result<Vec<u8>, String> {
    let huff = b.get(*at).ok_or("hpack: truncated string")? & 128 != 0;
    let n = int(b, at, 7)?;
    let s = b.get(*at..*at + n).ok_or("hpack: truncated string")?;
    *at += n;
    if huff {
        unhuff(s)
    } else {
        Ok(s.to_vec())
    }
}
impl Hpack {
    pub fn new() -> Hpack {
        Hpack { max: 4096, ..Default::default() }
    }
    fn get(&self, i: usize) -> Result<(Vec<u8>, Vec<u8>), String> {
        if i == 0 {
            return Err("hpack: index 0".into());
        }
        if i <= 61 {
            let (a, b) = STATIC[i - 1];
            return Ok((a.into(), b.into()));
        }
        self.dynamic.get(i - 62).cloned().ok_or_else(|| format!("hpack: index {i} out of range"))
    }
    fn evict(&mut self) {
        while self.size > self.max {
            let (a, b) = self.dynamic.pop_back().unwrap();
            self.size -= a.len() + b.len() + 32;
        }
    }
    pub fn decode(&mut self, b: &[u8]) -> Result<Fields, String> {
        let mut at = 0;
        let mut out = vec![];
        while at < b.len() {
            let x = b[at];
            if x & 0x80 != 0 {
                let i = int(b, &mut at, 7)?;
                out.push(self.get(i)?);
            } else if x & 0xe0 == 0x20 {
                self.max = int(b, &mut at, 5)?;
                self.evict();
            } else {
                let add = x & 0x40 != 0;
                let i = int(b, &mut at, if add { 6 } else { 4 })?;
                let n = if i == 0 { string(b, &mut at)? } else { self.get(i)?.0 };
                let v = string(b, &mut at)?;
                if add {
                    self.size += n.len() + v.len() + 32;
                    self.dynamic.push_front((n.clone(), v.clone()));
                    while self.size > self.max {
                        let (a, b) = self.dynamic.pop_back().unwrap();
                        self.size -= a.len() + b.len() + 32;
                    }
                }
                out.push((n, v));
            }
        }
        Ok(out)
    }
}

// ---------------------------------------------------------------- reading frames

#[derive(Default, Clone, Debug)]
pub struct Str {
    /// header blocks in order, and whether each ended the stream
    pub heads: Vec<(Fields, bool)>,
    pub data: Vec<u8>,
    /// flow-controlled bytes
    pub flow: usize,
    pub end: bool,
    pub rst: Option<u32>,
    /// frames after the end of the stream or after a reset (other than window updates)
    pub late: Vec<String>,
    /// biggest data frame
    pub max_frame: usize,
    pub windows: u64,
}
impl Str {
    pub fn field(&self, k: usize, n: &str) -> Option<Vec<u8>> {
        self.heads.get(k).and_then(|h| h.0.iter().find(|f| f.0 == n.as_bytes()).map(|f| f.1.clone()))
    }
    pub fn fields(&self, k: usize, n: &str) -> Vec<Vec<u8>> {
        self.heads.get(k).map(|h| h.0.iter().filter(|f| f.0 == n.as_bytes()).map(|f| f.1.clone()).collect()).unwrap_or_default()
    }
    pub fn status(&self) -> u16 {
        self.field(0, ":status").and_then(|v| String::from_utf8(v).ok()).and_then(|s| s.parse().ok()).unwrap_or(0)
    }
    /// the final response head (skipping interim ones)
    pub fn final_head(&self) -> Option<&Fields> {
        self.heads.iter().map(|h| &h.0).find(|f| !f.iter().any(|x| x.0 == b":status" && x.1.first() == Some(&b'1')))
    }
}
/// What one endpoint wrote.
pub struct Reader {
    pub at: usize,
    preface: bool,
    hpack: Hpack,
    block: Option<(u32, bool, Vec<u8>)>,
    pub frames: Vec<(usize, F)>,
    pub streams: BTreeMap<u32, Str>,
    pub settings: Vec<Vec<(u16, u32)>>,
    pub settings_acks: usize,
    pub pings: Vec<[u8; 8]>,
    pub pongs: Vec<[u8; 8]>,
    pub goaways: Vec<(u32, u32)>,
    pub conn_windows: u64,
    pub conn_flow: usize,
    pub err: Option<String>,
}
impl Reader {
    /// `client`: the bytes start with the client preface.
    pub fn new(client: bool) -> Reader {
        Reader {
            at: 0,
            preface: client,
            hpack: Hpack::new(),
            block: None,
            frames: vec![],
            streams: BTreeMap::new(),
            settings: vec![],
            settings_acks: 0,
            pings: vec![],
            pongs: vec![],
            goaways: vec![],
            conn_windows: 0,
            conn_flow: 0,
            err: None,
        }
    }
    /// `b`: everything written so far.
    pub fn feed(&mut self, b: &[u8]) {
        if self.err.is_some() {
            return;
        }
        if self.preface {
            if b.len() < PREFACE.len() {
                return;
            }
            if !b.starts_with(PREFACE) {
                self.err = Some("bad client preface".into());
                return;
            }
            self.at = PREFACE.len();
            self.preface = false;
        }
        while b.len() >= self.at + 9 {
            let h = &b[self.at..self.at + 9];
            let len = (h[0] as usize) << 16 | (h[1] as usize) << 8 | h[2] as usize;
            if b.len() < self.at + 9 + len {
                return;
            }
            let (kind, flags) = (h[3], h[4]);
            let sid = u32::from_be_bytes([h[5] & 127, h[6], h[7], h[8]]);
            let p = &b[self.at + 9..self.at + 9 + len];
            self.at += 9 + len;
            if let Err(e) = self.frame(kind, flags, sid, p) {
                self.err = Some(e);
                return;
            }
        }
    }
    fn push(&mut self, f: F) {
        self.frames.push((self.at, f));
    }
    fn str(&mut self, sid: u32) -> &mut Str {
        self.streams.entry(sid).or_default()
    }
    fn frame(&mut self, kind: u8, flags: u8, sid: u32, p: &[u8]) -> Result<(), String> {
        if self.block.is_some() && kind != 9 {
            return Err("a header block was interrupted".into());
        }
        let u32at = |i: usize| u32::from_be_bytes([p[i], p[i + 1], p[i + 2], p[i + 3]]);
        let unpad = |p: &[u8]| -> Result<Vec<u8>, String> {
            if flags & 8 != 0 {
                let n = *p.first().ok_or("padding")? as usize;
                if n + 1 > p.len() {
                    return Err("padding too long".into());
                }
                Ok(p[1..p.len() - n].to_vec())
            } else {
                Ok(p.to_vec())
            }
        };
        match kind {
            0 => {
                let d = unpad(p)?;
                let end = flags & 1 != 0;
                self.conn_flow += p.len();
                let n = p.len();
                let s = self.str(sid);
                if s.end || s.rst.is_some() {
                    s.late.push(format!("DATA of {} bytes", d.len()));
                } else {
                    s.data.extend_from_slice(&d);
                    s.end = end;
                }
                s.flow += n;
                s.max_frame = s.max_frame.max(n);
                self.push(F::Data(sid, n, d, end));
            }
            1 => {
                let mut d = unpad(p)?;
                if flags & 0x20 != 0 {
                    d.drain(..5.min(d.len()));
                }
                let end = flags & 1 != 0;
                self.block = Some((sid, end, d));
                if flags & 4 != 0 {
                    self.headers_done()?;
                }
            }
            9 => {
                let b = self.block.as_mut().ok_or("CONTINUATION out of place")?;
                if b.0 != sid {
                    return Err("CONTINUATION of another stream".into());
                }
                b.2.extend_from_slice(p);
                if flags & 4 != 0 {
                    self.headers_done()?;
                }
            }
            2 => self.push(F::Priority(sid)),
            3 if p.len() == 4 => {
                let c = u32at(0);
                let s = self.str(sid);
                if s.rst.is_some() {
                    s.late.push(format!("second RST_STREAM {c}"));
                } else {
                    s.rst = Some(c);
                }
                self.push(F::Rst(sid, c));
            }
            4 => {
                if flags & 1 != 0 {
                    self.settings_acks += 1;
                    self.push(F::SettingsAck);
                } else {
                    let v: Vec<(u16, u32)> = p.chunks(6).filter(|c| c.len() == 6).map(|c| (u16::from_be_bytes([c[0], c[1]]), u32::from_be_bytes([c[2], c[3], c[4], c[5]]))).collect();
                    self.settings.push(v.clone());
                    self.push(F::Settings(v));
                }
            }
            5 => self.push(F::Push(sid)),
            6 if p.len() == 8 => {
                let mut a = [0; 8];
                a.copy_from_slice(p);
                if flags & 1 != 0 {
                    self.pongs.push(a);
                } else {
                    self.pings.push(a);
                }
                self.push(F::Ping(flags & 1 != 0, a));
            }
            7 if p.len() >= 8 => {
                let (l, c) = (u32at(0) & 0x7fff_ffff, u32at(4));
                self.goaways.push((l, c));
                self.push(F::Goaway(l, c));
            }
            8 if p.len() == 4 => {
                let n = u32at(0) & 0x7fff_ffff;
                if sid == 0 {
                    self.conn_windows += n as u64;
                } else {
                    self.str(sid).windows += n as u64;
                }
                self.push(F::Window(sid, n));
            }
            3 | 6 | 7 | 8 => return Err(format!("frame of type {kind} with {} bytes", p.len())),
            k => self.push(F::Other(k)),
        }
        Ok(())
    }
    fn headers_done(&mut self) -> Result<(), String> {
        let (sid, end, b) = self.block.take().unwrap();
        let f = self.hpack.decode(&b)?;
        let s = self.str(sid);
        if s.end || s.rst.is_some() {
            s.late.push("HEADERS".into());
        } else {
            s.heads.push((f.clone(), end));
            s.end = end;
        }
        self.push(F::Headers(sid, f, end));
        Ok(())
    }
    pub fn has(&self, sid: u32) -> Option<&Str> {
        self.streams.get(&sid)
    }
    pub fn get(&self, sid: u32) -> Str {
        self.streams.get(&sid).cloned().unwrap_or_default()
    }
    /// Streams opened by HEADERS, in order of first appearance.
    pub fn opened(&self) -> Vec<u32> {
        let mut v = vec![];
        for (_, f) in &self.frames {
            if let F::Headers(s, _, _) = f {
                if !v.contains(s) {
                    v.push(*s);
                }
            }
        }
        v
    }
    /// The last value of a setting.
    pub fn setting(&self, id: u16) -> Option<u32> {
        self.settings.iter().flatten().filter(|s| s.0 == id).last().map(|s| s.1)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (_, f) in &self.frames {
            let t = match f {
                F::Data(i, n, d, e) => format!("DATA[{i}] {n} bytes {:?}{}", crate::core::esc(&d[..d.len().min(24)]), if *e { " END" } else { "" }),
                F::Headers(i, h, e) => format!("HEADERS[{i}] {}{}", h.iter().map(|(a, b)| format!("{}: {}", crate::core::esc(a), crate::core::esc(b))).collect::<Vec<_>>().join(" | "), if *e { " END" } else { "" }),
                f => format!("{f:?}"),
            };
            s.push_str(&t);
            s.push('\n');
        }
        if let Some(e) = &self.err {
            s.push_str(&format!("UNREADABLE: {e}\n"));
        }
        s
    }
}

// ---------------------------------------------------------------- writing frames

pub fn frame(kind: u8, flags: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8, kind, flags];
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(p);
    v
}
fn lit(out: &mut Vec<u8>, s: &[u8]) {
    if s.len() < 127 {
        out.push(s.len() as u8);
    } else {
        out.push(127);
        let mut n = s.len() - 127;
        while n >= 128 {
            out.push((n & 127) as u8 | 128);
            n >>= 7;
        }
        out.push(n as u8);
    }
    out.extend_from_slice(s);
}
/// Every field a literal, never indexed, no Huffman coding.
pub fn block(fields: &[(&str, &str)]) -> Vec<u8> {
    let mut b = vec![];
    for (n, v) in fields {
        b.push(0x10);
        lit(&mut b, n.as_bytes());
        lit(&mut b, v.as_bytes());
    }
    b
}
pub fn block_raw(fields: &Fields) -> Vec<u8> {
    let mut b = vec![];
    for (n, v) in fields {
        b.push(0x10);
        lit(&mut b, n);
        lit(&mut b, v);
    }
    b
}
pub fn headers(sid: u32, fields: &[(&str, &str)], end: bool) -> Vec<u8> {
    frame(1, 4 | end as u8, sid, &block(fields))
}
pub fn data(sid: u32, d: &[u8], end: bool) -> Vec<u8> {
    frame(0, end as u8, sid, d)
}
/// DATA in frames of at most 16384 bytes.
pub fn data_all(sid: u32, d: &[u8], end: bool) -> Vec<u8> {
    let mut v = vec![];
    let n = d.chunks(16384).count();
    for (i, c) in d.chunks(16384).enumerate() {
        v.extend(data(sid, c, end && i + 1 == n));
    }
    if n == 0 {
        v.extend(data(sid, b"", end));
    }
    v
}
pub fn rst(sid: u32, code: u32) -> Vec<u8> {
    frame(3, 0, sid, &code.to_be_bytes())
}
pub fn settings(s: &[(u16, u32)]) -> Vec<u8> {
    let mut p = vec![];
    for (k, v) in s {
        p.extend_from_slice(&k.to_be_bytes());
        p.extend_from_slice(&v.to_be_bytes());
    }
    frame(4, 0, 0, &p)
}
pub fn settings_ack() -> Vec<u8> {
    frame(4, 1, 0, &[])
}
pub fn ping(ack: bool, p: [u8; 8]) -> Vec<u8> {
    frame(6, ack as u8, 0, &p)
}
pub fn goaway(last: u32, code: u32) -> Vec<u8> {
    let mut p = last.to_be_bytes().to_vec();
    p.extend_from_slice(&code.to_be_bytes());
    frame(7, 0, 0, &p)
}
pub fn window(sid: u32, n: u32) -> Vec<u8> {
    frame(8, 0, sid, &n.to_be_bytes())
}
pub fn get(sid: u32, path: &str, end: bool) -> Vec<u8> {
    headers(sid, &[(":method", if end { "GET" } else { "POST" }), (":scheme", "http"), (":authority", "h"), (":path", path)], end)
}
pub fn ok(sid: u32, extra: &[(&str, &str)], end: bool) -> Vec<u8> {
    let mut f = vec![(":status", "200")];
    f.extend_from_slice(extra);
    headers(sid, &f, end)
}
