//! Scripted outgoing bodies and instrumented readers of incoming ones.
use crate::sim::*;
use bytes::Bytes;
use http::{HeaderMap, HeaderName, HeaderValue};
use http_body::{Body, Frame, SizeHint};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub type BoxErr = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug)]
pub struct Wrapped(pub h2::Error);
impl std::fmt::Display for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "wrapped")
    }
}
impl std::error::Error for Wrapped {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
pub fn mk_err(v: &Value) -> BoxErr {
    match v.as_u64() {
        Some(c) => Box::new(Wrapped(h2::Error::from(h2::Reason::from(c as u32)))),
        None => "scripted error".into(),
    }
}

pub fn pat(k: usize, i: usize) -> u8 {
    b'a' + ((k * 7 + i + i / 26) % 26) as u8
}
pub fn pattern(k: usize, from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| pat(k, i)).collect()
}
pub fn hmap(v: &Value) -> HeaderMap {
    let mut m = HeaderMap::new();
    if let Some(a) = v.as_array() {
        for h in a {
            m.append(
                HeaderName::from_bytes(h[0].as_str().unwrap().as_bytes()).unwrap(),
                HeaderValue::from_bytes(&unlat(h[1].as_str().unwrap())).unwrap(),
            );
        }
    }
    m
}
pub fn jheaders(m: &HeaderMap) -> Value {
    Value::Array(m.iter().map(|(n, v)| json!([n.as_str(), lat(v.as_bytes())])).collect())
}

pub enum Fr {
    Data(Bytes),
    Tr(HeaderMap),
    Err(BoxErr),
}
pub struct BodySt {
    pub q: VecDeque<Fr>,
    pub ended: bool,
    pub hint: Option<(u64, Option<u64>)>,
    pub eos: bool,
    pub waker: Option<Waker>,
    pub off: usize,
    pub dropped: bool,
}
#[derive(Clone)]
pub struct BodyH {
    pub st: Arc<Mutex<BodySt>>,
    pub k: usize,
    pub tag: &'static str,
}
pub struct SBody {
    pub h: BodyH,
    pub log: Log,
}
impl BodyH {
    /// spec: {"q":[["d",len]|["s","text"]|["t",[[n,v]..]]|["e",code?]...],"end":bool,"hint":[lo,hi|null],"eos":bool}
    pub fn new(k: usize, tag: &'static str, spec: &Value) -> BodyH {
        let h = BodyH {
            k,
            tag,
            st: Arc::new(Mutex::new(BodySt {
                q: VecDeque::new(),
                ended: false,
                hint: None,
                eos: true,
                waker: None,
                off: 0,
                dropped: false,
            })),
        };
        for f in spec["q"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
            h.push(f);
        }
        let mut g = h.st.lock().unwrap();
        g.ended = spec["end"].as_bool().unwrap_or(true);
        g.eos = spec["eos"].as_bool().unwrap_or(true);
        if let Some(a) = spec["hint"].as_array() {
            g.hint = Some((a[0].as_u64().unwrap(), a[1].as_u64()));
        } else if spec["hint"].as_str() == Some("auto") {
            let n: u64 = g.q.iter().map(|f| if let Fr::Data(d) = f { d.len() as u64 } else { 0 }).sum();
            g.hint = Some((n, Some(n)));
        }
        drop(g);
        h
    }
    pub fn push(&self, f: &Value) {
        let mut g = self.st.lock().unwrap();
        let fr = match f[0].as_str().unwrap() {
            "d" => {
                let n = f[1].as_u64().unwrap() as usize;
                let off = g.off;
                g.off += n;
                Fr::Data(pattern(self.k, off, n).into())
            }
            "s" => Fr::Data(unlat(f[1].as_str().unwrap()).into()),
            "t" => Fr::Tr(hmap(&f[1])),
            "e" => Fr::Err(mk_err(&f[1])),
            x => panic!("bad body frame {x}"),
        };
        g.q.push_back(fr);
        if let Some(w) = g.waker.take() {
            drop(g);
            w.wake();
        }
    }
    pub fn end(&self) {
        let mut g = self.st.lock().unwrap();
        g.ended = true;
        if let Some(w) = g.waker.take() {
            drop(g);
            w.wake();
        }
    }
}
impl Body for SBody {
    type Data = Bytes;
    type Error = BoxErr;
    fn poll_frame(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, BoxErr>>> {
        let (k, t) = (self.h.k, self.h.tag);
        let mut g = self.h.st.lock().unwrap();
        match g.q.pop_front() {
            Some(Fr::Data(d)) => {
                if let Some((lo, hi)) = g.hint.as_mut() {
                    *lo = lo.saturating_sub(d.len() as u64);
                    if let Some(h) = hi {
                        *h = h.saturating_sub(d.len() as u64);
                    }
                }
                self.log.push(json!(["bp", t, k, "d", d.len()]));
                Poll::Ready(Some(Ok(Frame::data(d))))
            }
            Some(Fr::Tr(m)) => {
                self.log.push(json!(["bp", t, k, "t"]));
                Poll::Ready(Some(Ok(Frame::trailers(m))))
            }
            Some(Fr::Err(e)) => {
                self.log.push(json!(["bp", t, k, "e"]));
                Poll::Ready(Some(Err(e)))
            }
            None if g.ended => {
                self.log.push(json!(["bp", t, k, "end"]));
                Poll::Ready(None)
            }
            None => {
                g.waker = Some(cx.waker().clone());
                self.log.note(json!(["bp", t, k, "p"]));
                Poll::Pending
            }
        }
    }
    fn is_end_stream(&self) -> bool {
        let g = self.h.st.lock().unwrap();
        g.eos && g.ended && g.q.is_empty()
    }
    fn size_hint(&self) -> SizeHint {
        let g = self.h.st.lock().unwrap();
        let mut s = SizeHint::new();
        if let Some((lo, hi)) = g.hint {
            s.set_lower(lo);
            if let Some(h) = hi {
                s.set_upper(h);
            }
        }
        s
    }
}
impl Drop for SBody {
    fn drop(&mut self) {
        let mut g = self.h.st.lock().unwrap();
        g.dropped = true;
        let rest = g.q.iter().filter(|f| !matches!(f, Fr::Data(d) if d.is_empty())).count();
        self.log.push(json!(["bd", self.h.tag, self.h.k, g.ended && rest == 0]));
    }
}

// ---- reader of an incoming body --------------------------------------------

#[derive(Default)]
pub struct RdSt {
    pub credits: usize,
    pub drop_now: bool,
    pub waker: Option<Waker>,
    pub done: bool,
    pub done_waker: Option<Waker>,
    /// polls to make after the end was seen
    pub extra: usize,
}
#[derive(Clone)]
pub struct RdH {
    pub st: Arc<Mutex<RdSt>>,
}
impl RdH {
    pub fn new(credits: usize, extra: usize) -> RdH {
        RdH {
            st: Arc::new(Mutex::new(RdSt { credits, extra, ..Default::default() })),
        }
    }
    pub fn credit(&self, n: usize) {
        let mut g = self.st.lock().unwrap();
        g.credits = g.credits.saturating_add(n);
        if let Some(w) = g.waker.take() {
            drop(g);
            w.wake();
        }
    }
    pub fn drop_body(&self) {
        let mut g = self.st.lock().unwrap();
        g.drop_now = true;
        if let Some(w) = g.waker.take() {
            drop(g);
            w.wake();
        }
    }
    pub fn waiting(&self) -> bool {
        let g = self.st.lock().unwrap();
        g.credits > 0 && !g.done && !g.drop_now
    }
    pub fn poll_done(&self, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.st.lock().unwrap();
        if g.done {
            Poll::Ready(())
        } else {
            g.done_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
pub fn hint(b: &impl Body) -> Value {
    let s = b.size_hint();
    json!([s.lower(), s.upper(), b.is_end_stream()])
}
pub fn err_kind(e: &hyper::Error) -> Value {
    let mut k = vec![];
    if e.is_parse() {
        k.push("parse");
    }
    if e.is_parse_too_large() {
        k.push("toolarge");
    }
    if e.is_parse_status() {
        k.push("status");
    }
    if e.is_parse_version_h2() {
        k.push("h2prefix");
    }
    if e.is_user() {
        k.push("user");
    }
    if e.is_canceled() {
        k.push("canceled");
    }
    if e.is_closed() {
        k.push("closed");
    }
    if e.is_incomplete_message() {
        k.push("incomplete");
    }
    if e.is_body_write_aborted() {
        k.push("bwa");
    }
    if e.is_shutdown() {
        k.push("shutdown");
    }
    if e.is_timeout() {
        k.push("timeout");
    }
    let mut reason = Value::Null;
    let mut io = Value::Null;
    let mut src = std::error::Error::source(e);
    while let Some(s) = src {
        if let Some(h) = s.downcast_ref::<h2::Error>() {
            if let Some(r) = h.reason() {
                reason = json!(u32::from(r));
            }
        }
        if let Some(h) = s.downcast_ref::<std::io::Error>() {
            io = json!(format!("{:?}", h.kind()));
        }
        src = s.source();
    }
    json!({"k": k.join(","), "d": format!("{}", e), "h2": reason, "io": io})
}

/// Reads a body under scripted credit; logs every frame and every change of hints.
pub struct Reader<B: Body> {
    pub body: Option<Pin<Box<B>>>,
    pub h: RdH,
    pub k: usize,
    pub log: Log,
    pub fin: bool,
}
impl<B> Future for Reader<B>
where
    B: Body<Data = Bytes, Error = hyper::Error>,
{
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let k = me.k;
        loop {
            {
                let mut g = me.h.st.lock().unwrap();
                if g.drop_now {
                    drop(g);
                    if me.body.take().is_some() {
                        me.log.push(json!(["rb", k, "drop"]));
                    }
                    me.finish();
                    return Poll::Ready(());
                }
                if me.fin {
                    if g.extra == 0 {
                        // keep the body alive until told to drop it
                        g.waker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    g.extra -= 1;
                } else if g.credits == 0 {
                    g.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            }
            let b = me.body.as_mut().unwrap();
            let before = b.is_end_stream();
            match b.as_mut().poll_frame(cx) {
                Poll::Pending => {
                    me.log.note(json!(["rb", k, "p"]));
                    let mut g = me.h.st.lock().unwrap();
                    g.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Poll::Ready(x) => {
                    {
                        let mut g = me.h.st.lock().unwrap();
                        if g.credits != usize::MAX {
                            g.credits = g.credits.saturating_sub(1);
                        }
                    }
                    let h = hint(&**me.body.as_ref().unwrap());
                    match x {
                        Some(Ok(f)) => {
                            if f.is_data() {
                                let d = f.into_data().unwrap();
                                me.log.push(json!(["rb", k, "d", lat(&d), h, before]));
                            } else if f.is_trailers() {
                                let t = f.into_trailers().unwrap();
                                me.log.push(json!(["rb", k, "t", jheaders(&t), h, before]));
                            } else {
                                me.log.push(json!(["rb", k, "x", "", h, before]));
                            }
                        }
                        Some(Err(e)) => {
                            me.log.push(json!(["rb", k, "err", err_kind(&e), h, before]));
                            me.finish();
                        }
                        None => {
                            me.log.push(json!(["rb", k, "end", "", h, before]));
                            me.finish();
                        }
                    }
                }
            }
        }
    }
}
impl<B: Body> Reader<B> {
    fn finish(&mut self) {
        self.fin = true;
        let mut g = self.h.st.lock().unwrap();
        if !g.done {
            g.done = true;
            if let Some(w) = g.done_waker.take() {
                drop(g);
                w.wake();
            }
        }
    }
}
