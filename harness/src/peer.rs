//! A scripted HTTP/2 peer: raw frames in both directions. It keeps to the protocol (flow
//! control, stream states) so that scripts only say what it wants to do; everything it sends is
//! logged as ["pf", {...}, bytes] when it is put on the transport.
use crate::body::pattern;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};

pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";

enum Item {
    Data { n: usize, es: bool, pad: usize },
    Trailers(Value),
    Reset(u32),
}
#[derive(Default)]
struct St {
    win: i64,
    q: VecDeque<Item>,
    off: usize,
    opened: bool,  // their side may send on it
    head: bool,    // final head sent by the peer
    fin: bool,     // peer ended its half, or it was reset
    gone: bool,    // reset by either side
    last: bool,    // the end is in the queue
}
pub struct Peer {
    io: IoH,
    log: Log,
    client: bool, // the peer is the client
    preface: usize,
    inbuf: Vec<u8>,
    streams: BTreeMap<u32, St>,
    cwin: i64,
    iws: i64,
    mfs: usize,
    ack: bool,
    pong: bool,
    spong: bool,
    autowin: bool,
    owed: Vec<Vec<u8>>,
    owed_acks: Vec<(Option<i64>, Option<i64>)>,
    goaway: Option<u32>,
    started: bool,
    set: Value,
}

fn num(out: &mut Vec<u8>, mut n: usize, bits: u8) {
    let max = (1usize << bits) - 1;
    if n < max {
        out.push(n as u8);
        return;
    }
    out.push(max as u8);
    n -= max;
    while n >= 128 {
        out.push((n % 128 + 128) as u8);
        n /= 128;
    }
    out.push(n as u8);
}
/// Literals without indexing, no Huffman coding.
pub fn block(h: &Value) -> Vec<u8> {
    let mut o = vec![];
    for f in h.as_array().unwrap() {
        o.push(0);
        for p in [0, 1] {
            let b = unlat(f[p].as_str().unwrap());
            num(&mut o, b.len(), 7);
            o.extend_from_slice(&b);
        }
    }
    o
}
pub fn frame(ty: u8, flags: u8, sid: u32, pay: &[u8]) -> Vec<u8> {
    let mut o = vec![(pay.len() >> 16) as u8, (pay.len() >> 8) as u8, pay.len() as u8, ty, flags];
    o.extend_from_slice(&sid.to_be_bytes());
    o.extend_from_slice(pay);
    o
}
fn settings(v: &Value) -> Vec<u8> {
    let mut o = vec![];
    for (n, id) in [("hts", 1u16), ("push", 2), ("mcs", 3), ("iws", 4), ("mfs", 5), ("mhl", 6), ("conn", 8)] {
        if let Some(x) = v[n].as_u64() {
            o.extend_from_slice(&id.to_be_bytes());
            o.extend_from_slice(&(x as u32).to_be_bytes());
        }
    }
    o
}

impl Peer {
    pub fn new(io: IoH, log: Log, client: bool, c: &Value) -> Peer {
        let b = |n: &str, d: bool| c[n].as_bool().unwrap_or(d);
        Peer {
            io,
            log,
            client,
            preface: if client { 0 } else { PREFACE.len() },
            inbuf: vec![],
            streams: BTreeMap::new(),
            cwin: 65535,
            iws: 65535,
            mfs: 16384,
            ack: b("ack", true),
            pong: b("pong", true),
            spong: b("spong", true),
            autowin: b("autowin", false),
            owed: vec![],
            owed_acks: vec![],
            goaway: None,
            started: false,
            set: c["set"].clone(),
        }
    }
    fn put(&self, info: Value, b: Vec<u8>) {
        self.log.push(json!(["pf", info, b.len()]));
        self.io.push(In::Data(b.into()));
    }
    pub fn start(&mut self) {
        if self.started {
            return;
        }
        self.started = true;
        if self.client {
            self.put(json!({"t": "preface"}), PREFACE.to_vec());
        }
        let s = self.set.clone();
        self.put(json!({"t": "set", "v": s}), frame(4, 0, 0, &settings(&s)));
        self.pump();
    }
    fn head(&mut self, sid: u32, h: &Value, es: bool, split: bool, info: Value) {
        let b = block(h);
        let f = if es { 1 } else { 0 };
        let bytes = if split && b.len() > 1 {
            let m = b.len() / 2;
            let mut o = frame(1, f, sid, &b[..m]);
            o.extend(frame(9, 4, sid, &b[m..]));
            o
        } else {
            frame(1, f | 4, sid, &b)
        };
        self.put(info, bytes);
    }
    /// Puts on the transport what windows and switches allow. True if anything was sent.
    fn pump(&mut self) -> bool {
        if !self.started {
            return false;
        }
        let mut any = false;
        if self.ack {
            // what the connection announced counts from the acknowledgement on
            for (iws, mfs) in std::mem::take(&mut self.owed_acks) {
                if let Some(v) = iws {
                    for s in self.streams.values_mut() {
                        s.win += v - self.iws;
                    }
                    self.iws = v;
                }
                if let Some(v) = mfs {
                    self.mfs = v as usize;
                }
                self.put(json!({"t": "setack"}), frame(4, 1, 0, &[]));
                any = true;
            }
        }
        let owed = std::mem::take(&mut self.owed);
        for p in owed {
            if if p[0] == 0x0b { self.spong } else { self.pong } {
                let c = ping_kind(&p);
                self.put(json!({"t": "pong", "c": c}), frame(6, 1, 0, &p));
                any = true;
            } else {
                self.owed.push(p);
            }
        }
        let sids: Vec<u32> = self.streams.keys().copied().collect();
        for sid in sids {
            loop {
                let (cw, mfs) = (self.cwin, self.mfs);
                let st = self.streams.get_mut(&sid).unwrap();
                if st.gone {
                    st.q.clear();
                    break;
                }
                match st.q.front_mut() {
                    None => break,
                    Some(Item::Data { n, es, pad }) => {
                        let room = cw.min(st.win).max(0) as usize;
                        let over = if *pad > 0 { *pad + 1 } else { 0 };
                        let k = (*n).min(room.saturating_sub(over)).min(mfs - over);
                        if k == 0 && *n > 0 || room < over {
                            break;
                        }
                        let last = k == *n;
                        let e = last && *es;
                        let off = st.off;
                        st.off += k;
                        st.win -= (k + over) as i64;
                        let mut pay = vec![];
                        if *pad > 0 {
                            pay.push(*pad as u8);
                        }
                        pay.extend(pattern(sid as usize, off, k));
                        pay.extend(vec![0; *pad]);
                        let fl = if e { 1 } else { 0 } | if *pad > 0 { 8 } else { 0 };
                        if last {
                            st.q.pop_front();
                        } else {
                            *n -= k;
                        }
                        if e {
                            st.fin = true;
                        }
                        self.cwin -= (k + over) as i64;
                        self.put(json!({"t": "data", "s": sid, "n": k, "es": e, "over": over}), frame(0, fl, sid, &pay));
                        any = true;
                    }
                    Some(Item::Trailers(h)) => {
                        let h = h.clone();
                        st.q.pop_front();
                        st.fin = true;
                        self.head(sid, &h, true, false, json!({"t": "trl", "s": sid, "h": h}));
                        any = true;
                    }
                    Some(Item::Reset(c)) => {
                        let c = *c;
                        self.reset(sid, c);
                        any = true;
                    }
                }
            }
        }
        any
    }
    fn reset(&mut self, sid: u32, c: u32) {
        let st = self.streams.get_mut(&sid).unwrap();
        st.gone = true;
        st.fin = true;
        st.q.clear();
        self.put(json!({"t": "rst", "s": sid, "c": c}), frame(3, 0, sid, &c.to_be_bytes()));
    }
    /// Takes what the connection wrote. True if the peer answered.
    pub fn feed(&mut self, b: Vec<u8>) -> bool {
        self.inbuf.extend(b);
        let mut any = false;
        if self.preface > 0 {
            if self.inbuf.len() < self.preface {
                return false;
            }
            self.inbuf.drain(..self.preface);
            self.preface = 0;
        }
        loop {
            if self.inbuf.len() < 9 {
                break;
            }
            let n = (self.inbuf[0] as usize) << 16 | (self.inbuf[1] as usize) << 8 | self.inbuf[2] as usize;
            if self.inbuf.len() < 9 + n {
                break;
            }
            let f: Vec<u8> = self.inbuf.drain(..9 + n).collect();
            let (ty, fl) = (f[3], f[4]);
            let sid = u32::from_be_bytes([f[5] & 0x7f, f[6], f[7], f[8]]);
            let p = &f[9..];
            match ty {
                0 => {
                    if self.autowin && n > 0 {
                        let n = n.max(1000);
                        self.put(json!({"t": "win", "s": 0, "n": n}), frame(8, 0, 0, &(n as u32).to_be_bytes()));
                        if fl & 1 == 0 && !self.streams.get(&sid).map_or(true, |s| s.gone) {
                            self.put(json!({"t": "win", "s": sid, "n": n}), frame(8, 0, sid, &(n as u32).to_be_bytes()));
                        }
                        any = true;
                    }
                }
                1 => {
                    let iws = self.iws;
                    let s = self.streams.entry(sid).or_insert_with(|| St { win: iws, ..Default::default() });
                    s.opened = true;
                }
                3 => {
                    if let Some(s) = self.streams.get_mut(&sid) {
                        s.gone = true;
                        s.fin = true;
                        s.q.clear();
                    }
                }
                4 if fl & 1 == 0 => {
                    let mut o = (None, None);
                    for c in p.chunks(6) {
                        let id = u16::from_be_bytes([c[0], c[1]]);
                        let v = u32::from_be_bytes([c[2], c[3], c[4], c[5]]) as i64;
                        match id {
                            4 => o.0 = Some(v),
                            5 => o.1 = Some(v),
                            _ => (),
                        }
                    }
                    self.owed_acks.push(o);
                }
                6 if fl & 1 == 0 => self.owed.push(p.to_vec()),
                7 => self.goaway = Some(u32::from_be_bytes([p[0] & 0x7f, p[1], p[2], p[3]])),
                8 => {
                    let n = u32::from_be_bytes([p[0], p[1], p[2], p[3]]) as i64;
                    if sid == 0 {
                        self.cwin += n;
                    } else if let Some(s) = self.streams.get_mut(&sid) {
                        s.win += n;
                    }
                }
                _ => (),
            }
        }
        self.pump() || any
    }
    pub fn step(&mut self, s: &Value) {
        let sid = s[1].as_u64().unwrap_or(0) as u32;
        let skip = |l: &Log| l.push(json!(["skip", s[0], sid]));
        match s[0].as_str().unwrap() {
            "pstart" => self.start(),
            _ if !self.started => skip(&self.log),
            "ph" => {
                let es = s[3].as_bool().unwrap_or(false);
                let (iws, client, goaway) = (self.iws, self.client, self.goaway);
                if !client && !self.streams.contains_key(&sid) {
                    return skip(&self.log);
                }
                if client && !self.streams.contains_key(&sid) && goaway.is_some_and(|l| sid > l) {
                    return skip(&self.log);
                }
                let st = self.streams.entry(sid).or_insert_with(|| St { win: iws, opened: true, ..Default::default() });
                if st.gone || st.fin || st.head || !st.opened {
                    return skip(&self.log);
                }
                let inf = s[2].as_array().unwrap().iter().any(|f| f[0] == ":status" && f[1].as_str().unwrap().starts_with('1'));
                if !inf {
                    st.head = true;
                    st.fin = es;
                }
                self.head(sid, &s[2], es, s[4].as_bool().unwrap_or(false), json!({"t": "head", "s": sid, "h": s[2], "es": es, "inf": inf}));
            }
            "pd" | "pt" | "pr" | "prq" => {
                let c = s[2].as_u64().unwrap_or(0) as u32;
                match self.streams.get_mut(&sid) {
                    Some(st) if !st.gone && s[0] == "pr" => self.reset(sid, c),
                    Some(st) if !st.gone && s[0] == "prq" => st.q.push_back(Item::Reset(c)),
                    Some(st) if st.head && !st.gone && !st.fin && !st.last => {
                        st.last = s[0] == "pt" || s[3].as_bool().unwrap_or(false);
                        if s[0] == "pt" {
                            st.q.push_back(Item::Trailers(s[2].clone()))
                        } else {
                            st.q.push_back(Item::Data {
                                n: s[2].as_u64().unwrap() as usize,
                                es: s[3].as_bool().unwrap_or(false),
                                pad: s[4].as_u64().unwrap_or(0) as usize,
                            })
                        }
                    }
                    _ => return skip(&self.log),
                }
                self.pump();
            }
            "pw" => {
                let n = s[2].as_u64().unwrap() as u32;
                if sid != 0 && self.streams.get(&sid).map_or(true, |s| s.gone) {
                    return skip(&self.log);
                }
                self.put(json!({"t": "win", "s": sid, "n": n}), frame(8, 0, sid, &n.to_be_bytes()));
            }
            "pg" => {
                let c = s[2].as_u64().unwrap_or(0) as u32;
                let mut p = sid.to_be_bytes().to_vec();
                p.extend(c.to_be_bytes());
                self.put(json!({"t": "goaway", "last": sid, "c": c}), frame(7, 0, 0, &p));
            }
            "pp" => {
                let p = [sid as u8, 1, 2, 3, 4, 5, 6, 7];
                self.put(json!({"t": "ping", "p": sid}), frame(6, 0, 0, &p));
            }
            "pset" => self.put(json!({"t": "set", "v": s[1]}), frame(4, 0, 0, &settings(&s[1]))),
            "praw" => self.put(json!({"t": "raw"}), unlat(s[1].as_str().unwrap())),
            "pauto" => {
                let v = &s[1];
                for (n, x) in [("ack", &mut self.ack), ("pong", &mut self.pong), ("spong", &mut self.spong), ("autowin", &mut self.autowin)] {
                    if let Some(b) = v[n].as_bool() {
                        *x = b;
                    }
                }
                self.pump();
            }
            x => panic!("unknown peer step {x}"),
        }
    }
    /// bytes the peer still wants to send per stream, with the windows it has left
    pub fn queued(&self) -> (i64, Vec<Value>) {
        let v = self
            .streams
            .iter()
            .filter(|(_, s)| !s.q.is_empty())
            .map(|(k, s)| json!([k, s.q.iter().map(|i| if let Item::Data { n, .. } = i { *n } else { 0 }).sum::<usize>(), s.win]))
            .collect();
        (self.cwin, v)
    }
}
pub fn ping_kind(p: &[u8]) -> &'static str {
    match p[0] {
        0x3b => "user",
        0x0b => "shut",
        _ => "other",
    }
}
