//! Interprets one scenario against a real hyper connection.
use crate::body::*;
use crate::sim::*;
use crate::up::*;
use bytes::Bytes;
use http::{Request, Response, StatusCode, Version};
use hyper::body::Incoming;
use hyper::service::Service;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub fn ver(v: Version) -> &'static str {
    match v {
        Version::HTTP_09 => "0.9",
        Version::HTTP_10 => "1.0",
        Version::HTTP_11 => "1.1",
        Version::HTTP_2 => "2",
        _ => "?",
    }
}
fn unver(s: &str) -> Version {
    match s {
        "1.0" => Version::HTTP_10,
        "2" => Version::HTTP_2,
        "0.9" => Version::HTTP_09,
        "3" => Version::HTTP_3,
        _ => Version::HTTP_11,
    }
}

type Slot = Option<Result<Response<SBody>, BoxErr>>;
#[derive(Default)]
struct SvcSt {
    slot: Slot,
    waker: Option<Waker>,
    after_body: Option<(RdH, Value)>,
    given: bool,
}

pub struct WorldInner {
    pub log: Log,
    pub ex: Ex,
    pub clock: Clock,
    pub ioh: IoH,
    sc: Value,
    calls: RefCell<usize>,
    svcs: RefCell<HashMap<usize, Rc<RefCell<SvcSt>>>>,
    rds: RefCell<HashMap<usize, RdH>>,
    outs: RefCell<HashMap<usize, BodyH>>,
    ups: RefCell<HashMap<usize, UpH>>,
    graceful: RefCell<bool>,
    heads: RefCell<HashMap<usize, (http::HeaderMap, http::Extensions)>>,
    tx1: RefCell<Option<hyper::client::conn::http1::SendRequest<SBody>>>,
    tx2: RefCell<Vec<hyper::client::conn::http2::SendRequest<SBody>>>,
    peer: RefCell<Option<crate::peer::Peer>>,
}
#[derive(Clone)]
pub struct World(pub Rc<WorldInner>);

fn credits(v: &Value) -> usize {
    match v {
        Value::String(s) if s == "read" => usize::MAX,
        Value::Number(n) => n.as_u64().unwrap() as usize,
        Value::Null => usize::MAX,
        _ => 0,
    }
}

impl World {
    fn mk_response(&self, k: usize, spec: &Value) -> Response<SBody> {
        let bh = BodyH::new(k, "s", &spec["body"]);
        self.0.outs.borrow_mut().insert(k, bh.clone());
        let mut r = Response::new(SBody { h: bh, log: self.0.log.clone() });
        *r.status_mut() = StatusCode::from_u16(spec["status"].as_u64().unwrap_or(200) as u16).unwrap();
        if let Some(v) = spec["version"].as_str() {
            *r.version_mut() = unver(v);
        }
        *r.headers_mut() = hmap(&spec["headers"]);
        if ob(&spec["echo"]) == Some(true) {
            if let Some((h, e)) = self.0.heads.borrow().get(&k) {
                *r.headers_mut() = h.clone();
                *r.extensions_mut() = e.clone();
            }
        }
        if let Some(s) = spec["reason"].as_str() {
            if let Ok(p) = hyper::ext::ReasonPhrase::try_from(unlat(s)) {
                r.extensions_mut().insert(p);
            }
        }
        r
    }
    fn spawn_reader(&self, k: usize, body: Incoming, c: &Value) -> RdH {
        let rd = RdH::new(credits(c), self.0.sc["cfg"]["extra"].as_u64().unwrap_or(0) as usize);
        if c.as_str() == Some("drop") {
            rd.drop_body();
        }
        self.0.rds.borrow_mut().insert(k, rd.clone());
        self.0.ex.spawn(
            format!("rd{k}"),
            Reader { body: Some(Box::pin(body)), h: rd.clone(), k, log: self.0.log.clone(), fin: false },
        );
        rd
    }
    fn spawn_up(&self, k: usize, on: hyper::upgrade::OnUpgrade, spec: &Value) {
        let h = UpH::default();
        h.with(|u| u.credits = if spec.is_u64() { spec.as_u64().unwrap() as usize } else { usize::MAX });
        self.0.ups.borrow_mut().insert(k, h.clone());
        self.0.ex.spawn(
            format!("up{k}"),
            UpTask { k, on: Some(on), up: None, h, log: self.0.log.clone(), rdone: false },
        );
    }
}

#[derive(Clone)]
struct Svc(World);
struct SvcFut {
    k: usize,
    w: World,
    st: Rc<RefCell<SvcSt>>,
    done: bool,
}
impl Future for SvcFut {
    type Output = Result<Response<SBody>, BoxErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let st = self.st.clone();
        let mut g = st.borrow_mut();
        let mut ready = None;
        if let Some((rd, spec)) = &g.after_body {
            if rd.poll_done(cx).is_ready() {
                ready = Some(spec.clone());
            }
        }
        if let Some(spec) = ready {
            g.after_body = None;
            g.slot = Some(Ok(self.w.mk_response(self.k, &spec)));
        }
        match g.slot.take() {
            Some(r) => {
                self.done = true;
                self.w.0.log.push(json!(["svc", self.k, if r.is_ok() { "ok" } else { "err" }]));
                Poll::Ready(r)
            }
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for SvcFut {
    fn drop(&mut self) {
        if !self.done {
            self.w.0.log.push(json!(["svcdrop", self.k]));
        }
    }
}
impl Service<Request<Incoming>> for Svc {
    type Response = Response<SBody>;
    type Error = BoxErr;
    type Future = SvcFut;
    fn call(&self, mut req: Request<Incoming>) -> SvcFut {
        let w = &self.0;
        let k = {
            let mut c = w.0.calls.borrow_mut();
            *c += 1;
            *c - 1
        };
        let spec = match w.0.sc["reqs"].as_array() {
            Some(a) if !a.is_empty() => a[k.min(a.len() - 1)].clone(),
            _ => json!({}),
        };
        let mut info = json!({"m": req.method().as_str(), "u": req.uri().to_string(), "v": ver(req.version()),
            "h": jheaders(req.headers()), "hint": hint(req.body())});
        if let Some(p) = req.extensions().get::<hyper::ext::Protocol>() {
            info["proto"] = json!(p.as_str());
        }
        w.0.log.push(json!(["call", k, info]));
        if !spec["up"].is_null() {
            let on = hyper::upgrade::on(&mut req);
            if spec["up"].as_str() == Some("drop") {
                drop(on);
            } else {
                w.spawn_up(k, on, &spec["up"]);
            }
        }
        let (parts, body) = req.into_parts();
        if ob(&w.0.sc["echo"]) == Some(true) {
            w.0.heads.borrow_mut().insert(k, (parts.headers, parts.extensions));
        }
        let st = Rc::new(RefCell::new(SvcSt::default()));
        w.0.svcs.borrow_mut().insert(k, st.clone());
        let rd = if spec["body"].as_str() == Some("dropnow") {
            drop(body);
            w.0.log.push(json!(["rb", k, "drop"]));
            RdH::new(0, 0)
        } else {
            w.spawn_reader(k, body, &spec["body"])
        };
        match spec["resp"].as_str().unwrap_or("now") {
            "now" => st.borrow_mut().slot = Some(Ok(w.mk_response(k, &spec["r"]))),
            "err" => st.borrow_mut().slot = Some(Err(mk_err(&spec["code"]))),
            "bodyend" => st.borrow_mut().after_body = Some((rd, spec["r"].clone())),
            _ => (),
        }
        if matches!(spec["resp"].as_str().unwrap_or("now"), "now" | "err" | "bodyend") {
            st.borrow_mut().given = true;
        }
        SvcFut { k, w: w.clone(), st, done: false }
    }
}

enum SConn {
    Plain(Pin<Box<hyper::server::conn::http1::Connection<Io, Svc>>>),
    Upg(Pin<Box<hyper::server::conn::http1::UpgradeableConnection<Io, Svc>>>),
    NoSd(Option<hyper::server::conn::http1::Connection<Io, Svc>>),
    H2(Pin<Box<hyper::server::conn::http2::Connection<Io, Svc, Ex>>>),
    C1(Pin<Box<hyper::client::conn::http1::Connection<Io, SBody>>>),
    C1NoSd(Option<hyper::client::conn::http1::Connection<Io, SBody>>),
    Any(Pin<Box<dyn Future<Output = hyper::Result<()>>>>),
}
struct ConnTask {
    w: World,
    c: SConn,
}
impl Future for ConnTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = self.w.clone();
        if std::mem::take(&mut *w.0.graceful.borrow_mut()) {
            w.0.log.push(json!(["graceful"]));
            match &mut self.c {
                SConn::Plain(c) => c.as_mut().graceful_shutdown(),
                SConn::Upg(c) => c.as_mut().graceful_shutdown(),
                SConn::H2(c) => c.as_mut().graceful_shutdown(),
                SConn::NoSd(Some(c)) => Pin::new(c).graceful_shutdown(),
                _ => (),
            }
        }
        let r = match &mut self.c {
            SConn::Plain(c) => c.as_mut().poll(cx),
            SConn::Upg(c) => c.as_mut().poll(cx),
            SConn::H2(c) => c.as_mut().poll(cx),
            SConn::NoSd(c) => c.as_mut().unwrap().poll_without_shutdown(cx),
            SConn::C1(c) => c.as_mut().poll(cx),
            SConn::C1NoSd(c) => c.as_mut().unwrap().poll_without_shutdown(cx),
            SConn::Any(c) => c.as_mut().poll(cx),
        };
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(r) => {
                match &r {
                    Ok(()) => w.0.log.push(json!(["conn", "ok"])),
                    Err(e) => w.0.log.push(json!(["conn", "err", err_kind(e)])),
                }
                match &mut self.c {
                    SConn::NoSd(c) if r.is_ok() => {
                        let p = c.take().unwrap().into_parts();
                        w.0.log.push(json!(["parts", lat(&p.read_buf)]));
                    }
                    SConn::C1NoSd(c) if r.is_ok() => {
                        let p = c.take().unwrap().into_parts();
                        w.0.log.push(json!(["parts", lat(&p.read_buf)]));
                    }
                    _ => (),
                }
                Poll::Ready(())
            }
        }
    }
}

struct ResTask<F> {
    i: usize,
    w: World,
    spec: Value,
    f: Pin<Box<F>>,
    done: bool,
}
impl<F> Future for ResTask<F>
where
    F: Future<Output = Result<Response<Incoming>, (hyper::Error, Option<Request<SBody>>)>>,
{
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let i = self.i;
        let r = match self.f.as_mut().poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r,
        };
        self.done = true;
        let w = self.w.clone();
        match r {
            Ok(mut res) => {
                let mut info = json!({"s": res.status().as_u16(), "v": ver(res.version()), "h": jheaders(res.headers()), "hint": hint(res.body())});
                if let Some(p) = res.extensions().get::<hyper::ext::ReasonPhrase>() {
                    info["reason"] = json!(lat(p.as_bytes()));
                }
                w.0.log.push(json!(["res", i, "ok", info]));
                if !self.spec["up"].is_null() {
                    let on = hyper::upgrade::on(&mut res);
                    if self.spec["up"].as_str() == Some("drop") {
                        drop(on);
                    } else {
                        w.spawn_up(i, on, &self.spec["up"]);
                    }
                }
                let (parts, body) = res.into_parts();
                if ob(&w.0.sc["echo"]) == Some(true) {
            w.0.heads.borrow_mut().insert(i, (parts.headers, parts.extensions));
        }
                if self.spec["rbody"].as_str() == Some("dropnow") {
                    drop(body);
                    w.0.log.push(json!(["rb", i, "drop"]));
                } else {
                    w.spawn_reader(i, body, &self.spec["rbody"]);
                }
            }
            Err((e, msg)) => {
                let back = msg.is_some();
                w.0.log.push(json!(["res", i, "err", err_kind(&e), back]));
                drop(msg);
            }
        }
        Poll::Ready(())
    }
}
impl<F> Drop for ResTask<F> {
    fn drop(&mut self) {
        if !self.done {
            self.w.0.log.push(json!(["resdrop", self.i]));
        }
    }
}

fn ob(v: &Value) -> Option<bool> {
    v.as_bool()
}
fn ou(v: &Value) -> Option<u64> {
    v.as_u64()
}
fn ms(v: &Value) -> Option<Duration> {
    v.as_u64().map(Duration::from_millis)
}

impl World {
    fn setup_io(&self) -> Io {
        let c = &self.0.sc["cfg"];
        self.0.ioh.with(|s| {
            if let Some(n) = ou(&c["rcap"]) {
                s.rcap = n as usize;
            }
            if let Some(n) = ou(&c["wb"]) {
                s.wb = Some(n as usize);
            }
            if let Some(n) = ou(&c["wcap"]) {
                s.wcap = n as usize;
            }
            s.vectored = ob(&c["vectored"]).unwrap_or(false);
            s.rblip = ob(&c["rblip"]).unwrap_or(false);
            s.wblip = ob(&c["wblip"]).unwrap_or(false);
            s.flush_ok = ob(&c["fl"]).unwrap_or(true);
            s.sd_ok = ob(&c["sd"]).unwrap_or(true);
        });
        Io { h: self.0.ioh.clone() }
    }
    fn start_server(&self) {
        let c = &self.0.sc["cfg"];
        let io = self.setup_io();
        let conn = if ou(&c["proto"]) == Some(2) {
            let mut b = hyper::server::conn::http2::Builder::new(self.0.ex.clone());
            b.timer(self.0.clock.clone());
            b.auto_date_header(ob(&c["date"]).unwrap_or(false));
            if let Some(x) = ms(&c["ka_int"]) {
                b.keep_alive_interval(x);
            }
            if let Some(x) = ms(&c["ka_to"]) {
                b.keep_alive_timeout(x);
            }
            if let Some(x) = ob(&c["adaptive"]) {
                b.adaptive_window(x);
            }
            if let Some(x) = ou(&c["swin"]) {
                b.initial_stream_window_size(x as u32);
            }
            if let Some(x) = ou(&c["cwin"]) {
                b.initial_connection_window_size(x as u32);
            }
            if let Some(x) = ou(&c["maxframe"]) {
                b.max_frame_size(x as u32);
            }
            if let Some(x) = ou(&c["maxstreams"]) {
                b.max_concurrent_streams(x as u32);
            }
            if let Some(x) = ou(&c["sendbuf"]) {
                b.max_send_buf_size(x as usize);
            }
            if ob(&c["connect_proto"]) == Some(true) {
                b.enable_connect_protocol();
            }
            SConn::H2(Box::pin(b.serve_connection(io, Svc(self.clone()))))
        } else {
            let mut b = hyper::server::conn::http1::Builder::new();
            b.timer(self.0.clock.clone());
            b.auto_date_header(ob(&c["date"]).unwrap_or(false));
            b.header_read_timeout(ms(&c["hrt"]));
            if let Some(x) = ob(&c["half_close"]) {
                b.half_close(x);
            }
            if let Some(x) = ob(&c["keep_alive"]) {
                b.keep_alive(x);
            }
            if let Some(x) = ob(&c["title_case"]) {
                b.title_case_headers(x);
            }
            if let Some(x) = ob(&c["preserve_case"]) {
                b.preserve_header_case(x);
            }
            if let Some(x) = ob(&c["ignore_invalid"]) {
                b.ignore_invalid_headers(x);
            }
            if let Some(x) = ou(&c["max_headers"]) {
                b.max_headers(x as usize);
            }
            if let Some(x) = ob(&c["writev"]) {
                b.writev(x);
            }
            if let Some(x) = ou(&c["max_buf"]) {
                b.max_buf_size(x as usize);
            }
            if let Some(x) = ob(&c["pipeline_flush"]) {
                b.pipeline_flush(x);
            }
            let conn = b.serve_connection(io, Svc(self.clone()));
            match c["mode"].as_str().unwrap_or("plain") {
                "upg" => SConn::Upg(Box::pin(conn.with_upgrades())),
                "nosd" => SConn::NoSd(Some(conn)),
                _ => SConn::Plain(Box::pin(conn)),
            }
        };
        self.0.ex.spawn("conn", ConnTask { w: self.clone(), c: conn });
    }
    fn start_client(&self) {
        let c = &self.0.sc["cfg"];
        let io = self.setup_io();
        let w = self.clone();
        if ou(&c["proto"]) == Some(2) {
            let mut b = hyper::client::conn::http2::Builder::new(self.0.ex.clone());
            b.timer(self.0.clock.clone());
            if let Some(x) = ms(&c["ka_int"]) {
                b.keep_alive_interval(x);
            }
            if let Some(x) = ms(&c["ka_to"]) {
                b.keep_alive_timeout(x);
            }
            if let Some(x) = ob(&c["ka_idle"]) {
                b.keep_alive_while_idle(x);
            }
            if let Some(x) = ob(&c["adaptive"]) {
                b.adaptive_window(x);
            }
            if let Some(x) = ou(&c["swin"]) {
                b.initial_stream_window_size(x as u32);
            }
            if let Some(x) = ou(&c["cwin"]) {
                b.initial_connection_window_size(x as u32);
            }
            if let Some(x) = ou(&c["maxframe"]) {
                b.max_frame_size(x as u32);
            }
            if let Some(x) = ou(&c["initsend"]) {
                b.initial_max_send_streams(x as usize);
            }
            if let Some(x) = ou(&c["sendbuf"]) {
                b.max_send_buf_size(x as usize);
            }
            let hs = b.handshake(io);
            self.0.ex.spawn("hs", async move {
                match hs.await {
                    Ok((tx, conn)) => {
                        w.0.log.push(json!(["hs", "ok"]));
                        w.0.tx2.borrow_mut().push(tx);
                        let w2 = w.clone();
                        w.0.ex.spawn("conn", ConnTask { w: w2, c: SConn::Any(Box::pin(conn)) });
                    }
                    Err(e) => w.0.log.push(json!(["hs", "err", err_kind(&e)])),
                }
            });
        } else {
            let mut b = hyper::client::conn::http1::Builder::new();
            if let Some(x) = ob(&c["h09"]) {
                b.http09_responses(x);
            }
            if let Some(x) = ob(&c["title_case"]) {
                b.title_case_headers(x);
            }
            if let Some(x) = ob(&c["preserve_case"]) {
                b.preserve_header_case(x);
            }
            if let Some(x) = ou(&c["max_headers"]) {
                b.max_headers(x as usize);
            }
            if let Some(x) = ob(&c["writev"]) {
                b.writev(x);
            }
            if let Some(x) = ou(&c["max_buf"]) {
                b.max_buf_size(x as usize);
            }
            if let Some(x) = ou(&c["exact_buf"]) {
                b.read_buf_exact_size(Some(x as usize));
            }
            if let Some(x) = ob(&c["ignore_invalid"]) {
                b.ignore_invalid_headers_in_responses(x);
            }
            if let Some(x) = ob(&c["obs_fold"]) {
                b.allow_obsolete_multiline_headers_in_responses(x);
            }
            if let Some(x) = ob(&c["sp_after_name"]) {
                b.allow_spaces_after_header_name_in_responses(x);
            }
            let hs = b.handshake(io);
            let mode = c["mode"].as_str().unwrap_or("plain").to_string();
            self.0.ex.spawn("hs", async move {
                match hs.await {
                    Ok((tx, conn)) => {
                        *w.0.tx1.borrow_mut() = Some(tx);
                        let w2 = w.clone();
                        let c = match mode.as_str() {
                            "upg" => SConn::Any(Box::pin(conn.with_upgrades())),
                            "nosd" => SConn::C1NoSd(Some(conn)),
                            _ => SConn::C1(Box::pin(conn)),
                        };
                        w.0.ex.spawn("conn", ConnTask { w: w2, c });
                    }
                    Err(e) => w.0.log.push(json!(["hs", "err", err_kind(&e)])),
                }
            });
        }
    }
    fn send(&self, i: usize, spec: &Value) {
        let bh = BodyH::new(i, "c", &spec["body"]);
        self.0.outs.borrow_mut().insert(i, bh.clone());
        let mut req = Request::new(SBody { h: bh, log: self.0.log.clone() });
        *req.method_mut() = http::Method::from_bytes(spec["m"].as_str().unwrap_or("GET").as_bytes()).unwrap();
        *req.uri_mut() = spec["u"].as_str().unwrap_or("/").parse().unwrap();
        if let Some(v) = spec["v"].as_str() {
            *req.version_mut() = unver(v);
        }
        *req.headers_mut() = hmap(&spec["h"]);
        if let Some(j) = ou(&spec["echo"]) {
            if let Some((h, e)) = self.0.heads.borrow().get(&(j as usize)) {
                *req.headers_mut() = h.clone();
                *req.extensions_mut() = e.clone();
            }
        }
        if ob(&spec["inf"]) == Some(true) {
            let log = self.0.log.clone();
            hyper::ext::on_informational(&mut req, move |r| {
                log.push(json!(["inf", i, r.status().as_u16(), jheaders(r.headers())]));
            });
        }
        if let Some(p) = spec["protocol"].as_str() {
            req.extensions_mut().insert(hyper::ext::Protocol::from_static(Box::leak(p.to_string().into_boxed_str())));
        }
        let try_ = ob(&spec["try"]).unwrap_or(true);
        let w = self.clone();
        let sp = spec.clone();
        macro_rules! go {
            ($tx:expr) => {{
                self.0.log.push(json!(["send", i]));
                if try_ {
                    let f = $tx.try_send_request(req);
                    let f = async move {
                        f.await.map_err(|mut e| {
                            let m = e.take_message();
                            (e.into_error(), m)
                        })
                    };
                    self.0.ex.spawn(format!("res{i}"), ResTask { i, w, spec: sp, f: Box::pin(f), done: false });
                } else {
                    let f = $tx.send_request(req);
                    let f = async move { f.await.map_err(|e| (e, None)) };
                    self.0.ex.spawn(format!("res{i}"), ResTask { i, w, spec: sp, f: Box::pin(f), done: false });
                }
            }};
        }
        if ou(&self.0.sc["cfg"]["proto"]) == Some(2) {
            let n = ou(&spec["tx"]).unwrap_or(0) as usize;
            let mut g = self.0.tx2.borrow_mut();
            match g.get_mut(n) {
                Some(tx) => go!(tx),
                None => self.0.log.push(json!(["notx", i])),
            }
        } else {
            let mut g = self.0.tx1.borrow_mut();
            match g.as_mut() {
                Some(tx) => go!(tx),
                None => self.0.log.push(json!(["notx", i])),
            }
        }
    }
    fn run(&self) {
        let mut rounds = 0;
        loop {
            if !self.0.ex.run(&self.0.log) {
                self.0.log.push(json!(["spin"]));
                // stop everything: a spinning scenario is over
                self.0.ex.clear();
            }
            let b = self.0.ioh.st.lock().unwrap().tap.as_mut().map(std::mem::take).unwrap_or_default();
            rounds += 1;
            let more = self.0.peer.borrow_mut().as_mut().is_some_and(|p| p.feed(b));
            if !more {
                break;
            }
            if rounds >= 20000 {
                self.0.log.push(json!(["spin"]));
                break;
            }
        }
        let mut q = json!({"t": self.0.clock.now_ms(), "conn": self.0.ex.alive("conn")});
        {
            let g = self.0.ioh.st.lock().unwrap();
            let left: usize = g.inq.iter().map(|i| if let In::Data(d) = i { d.len() } else { 0 }).sum();
            let term = g.inq.iter().any(|i| !matches!(i, In::Data(_)));
            q["in"] = json!(left);
            q["term"] = json!(term && !g.eof_seen);
            q["wb"] = match g.wb {
                None => json!(-1),
                Some(n) => json!(n),
            };
            q["rblk"] = json!(g.read_blocked);
            q["ok"] = json!(g.wb != Some(0) && g.wcap > 0 && g.flush_ok && g.sd_ok);
        }
        let mut oq: Vec<usize> = self
            .0
            .outs
            .borrow()
            .iter()
            .filter(|(_, h)| {
                let b = h.st.lock().unwrap();
                !b.dropped && (!b.q.is_empty() || b.ended)
            })
            .map(|(k, _)| *k)
            .collect();
        oq.sort();
        q["oq"] = json!(oq);
        q["sq"] = json!(self.0.svcs.borrow().values().filter(|s| s.borrow().slot.is_some()).count());
        if let Ok(mut g) = self.0.tx1.try_borrow_mut() {
            if let Some(tx) = g.as_mut() {
                q["ready"] = json!(tx.is_ready());
                q["closed"] = json!(tx.is_closed());
            }
        }
        if let Some(tx) = self.0.tx2.borrow().first() {
            q["ready"] = json!(tx.is_ready());
            q["closed"] = json!(tx.is_closed());
        }
        let ups: Vec<Value> = self.0.ups.borrow().iter().map(|(k, h)| {
            let g = h.0.lock().unwrap();
            json!([k, g.credits > 0, g.wq.iter().map(|x| x.len()).sum::<usize>(), g.shutdown, g.flush])
        }).collect();
        if !ups.is_empty() {
            q["ups"] = json!(ups);
        }
        if let Some(p) = self.0.peer.borrow().as_ref() {
            let (c, v) = p.queued();
            q["pq"] = json!(v);
            q["pcw"] = json!(c);
            q["tasks"] = json!(self.0.ex.alive("spawned"));
            let mut rq: Vec<usize> = self.0.rds.borrow().iter().filter(|(_, h)| h.waiting()).map(|(k, _)| *k).collect();
            rq.sort();
            q["rq"] = json!(rq);
        }
        self.0.log.push(json!(["q", q]));
    }
    fn step(&self, s: &Value) -> bool {
        let n = |i: usize| s[i].as_u64().unwrap_or(0) as usize;
        let w = &self.0;
        match s[0].as_str().unwrap() {
            "in" => w.ioh.push(In::Data(unlat(s[1].as_str().unwrap()).into())),
            "inp" => {
                // n bytes of the pattern of message k from offset
                w.ioh.push(In::Data(pattern(n(1), n(2), n(3)).into()))
            }
            "inseg" => {
                // the string, cut into reads of the given sizes (last size repeats)
                let b = unlat(s[1].as_str().unwrap());
                let sizes = s[2].as_array().unwrap();
                let mut p = 0;
                let mut j = 0;
                while p < b.len() {
                    let z = sizes[j.min(sizes.len() - 1)].as_u64().unwrap().max(1) as usize;
                    let e = (p + z).min(b.len());
                    w.ioh.push(In::Data(b[p..e].to_vec().into()));
                    p = e;
                    j += 1;
                }
            }
            "eof" => w.ioh.push(In::Eof),
            "rerr" => w.ioh.push(In::Err),
            "wb" => w.ioh.with(|g| {
                if s[1].as_i64() == Some(-1) {
                    g.wb = None
                } else {
                    g.wb = Some(g.wb.unwrap_or(0) + n(1))
                }
            }),
            "wbset" => w.ioh.with(|g| g.wb = Some(n(1))),
            "wcap" => w.ioh.with(|g| g.wcap = n(1)),
            "werr" => w.ioh.with(|g| g.werr = true),
            "wzero" => w.ioh.with(|g| g.wzero = true),
            "flerr" => w.ioh.with(|g| g.flerr = true),
            "fl" => w.ioh.with(|g| g.flush_ok = s[1].as_bool().unwrap()),
            "sd" => w.ioh.with(|g| g.sd_ok = s[1].as_bool().unwrap()),
            "respond" | "svcerr" => {
                let st = w.svcs.borrow().get(&n(1)).cloned();
                match st {
                    Some(st) if st.borrow().given => w.log.push(json!(["skip2"])),
                    Some(st) => {
                        st.borrow_mut().given = true;
                        let r = if s[0] == "respond" { Ok(self.mk_response(n(1), &s[2])) } else { Err(mk_err(&s[2])) };
                        let mut g = st.borrow_mut();
                        g.slot = Some(r);
                        let wk = g.waker.take();
                        drop(g);
                        if let Some(wk) = wk {
                            wk.wake()
                        }
                    }
                    None => w.log.push(json!(["skip", s[0], n(1)])),
                }
            }
            "rb" => match w.rds.borrow().get(&n(1)) {
                Some(r) => r.credit(if s[2].is_u64() { n(2) } else { usize::MAX }),
                None => w.log.push(json!(["skip", s[0], n(1)])),
            },
            "rbdrop" => match w.rds.borrow().get(&n(1)) {
                Some(r) => r.drop_body(),
                None => w.log.push(json!(["skip", s[0], n(1)])),
            },
            "b" => {
                let h = w.outs.borrow().get(&n(1)).cloned();
                match h {
                    Some(h) => h.push(&s[2]),
                    None => w.log.push(json!(["skip", s[0], n(1)])),
                }
            }
            "bend" => {
                let h = w.outs.borrow().get(&n(1)).cloned();
                match h {
                    Some(h) => {
                        w.log.push(json!(["be", n(1)]));
                        h.end()
                    }
                    None => w.log.push(json!(["skip", s[0], n(1)])),
                }
            }
            "graceful" => {
                *w.graceful.borrow_mut() = true;
                w.ex.wake_named("conn");
            }
            "poke" => w.ex.wake_named("conn"),
            "dropconn" => {
                w.log.push(json!(["conndrop"]));
                w.ex.drop_named("conn");
            }
            "t" => {
                let to = w.clock.now_ms() + n(1) as u64;
                while let Some(d) = w.clock.next_deadline(to) {
                    w.clock.set(d);
                    w.log.push(json!(["t", d]));
                    self.run();
                }
                w.clock.set(to);
                w.log.push(json!(["t", to]));
            }
            "send" => self.send(n(1), &s[2]),
            "dropres" => w.ex.drop_named(&format!("res{}", n(1))),
            "droptx" => {
                w.log.push(json!(["txdrop"]));
                let a = w.tx1.borrow_mut().take();
                drop(a);
                let b: Vec<_> = w.tx2.borrow_mut().drain(..).collect();
                drop(b);
            }
            "clonetx" => {
                let t = w.tx2.borrow().first().cloned();
                if let Some(t) = t {
                    w.tx2.borrow_mut().push(t);
                }
            }
            "ready" => {
                if let Some(tx) = w.tx1.borrow_mut().as_mut() {
                    let mut cx = Context::from_waker(Waker::noop());
                    let r = match tx.poll_ready(&mut cx) {
                        Poll::Pending => "p",
                        Poll::Ready(Ok(())) => "ok",
                        Poll::Ready(Err(_)) => "err",
                    };
                    w.log.push(json!(["ready", r]));
                }
                if let Some(tx) = w.tx2.borrow_mut().first_mut() {
                    let mut cx = Context::from_waker(Waker::noop());
                    let r = match tx.poll_ready(&mut cx) {
                        Poll::Pending => "p",
                        Poll::Ready(Ok(())) => "ok",
                        Poll::Ready(Err(_)) => "err",
                    };
                    w.log.push(json!(["ready", r]));
                }
            }
            u @ ("ur" | "uw" | "uwp" | "us" | "ud" | "udc") => {
                let h = w.ups.borrow().get(&n(1)).cloned();
                match h {
                    None => w.log.push(json!(["skip", s[0], n(1)])),
                    Some(h) => h.with(|g| match u {
                        "ur" => {
                            g.credits = g.credits.saturating_add(if s[2].is_u64() { n(2) } else { usize::MAX });
                            if s[3].is_u64() {
                                g.rsz = n(3);
                            }
                        }
                        "uw" => g.wq.push_back(unlat(s[2].as_str().unwrap())),
                        "uwp" => {
                            let off = if s[3].is_u64() { n(3) } else { g.woff };
                            g.woff = off + n(4);
                            g.wq.push_back(pattern(n(2), off, n(4)))
                        }
                        "us" => g.shutdown = true,
                        "ud" => g.drop_now = true,
                        _ => g.downcast = true,
                    }),
                }
            }
            "steps1" => {
                // poll up to n woken tasks, then go on without reaching quiescence
                for _ in 0..n(1) {
                    w.ex.step();
                }
                return false;
            }
            "norun" => {
                // several stimuli at once
                for x in s[1].as_array().unwrap() {
                    self.step(x);
                }
            }
            "pstart" | "ph" | "pd" | "pt" | "pr" | "prq" | "pw" | "pg" | "pp" | "pset" | "praw" | "pauto" => {
                if let Some(p) = w.peer.borrow_mut().as_mut() {
                    p.step(s)
                }
            }
            x => panic!("unknown step {x}"),
        }
        true
    }
}

pub fn run_scenario(sc: &Value) -> Value {
    let log = Log::default();
    let w = World(Rc::new(WorldInner {
        log: log.clone(),
        ex: Ex::new(sc["seed"].as_u64().unwrap_or(0)),
        clock: Clock::new(),
        ioh: IoH::new(log.clone()),
        sc: sc.clone(),
        calls: RefCell::new(0),
        svcs: Default::default(),
        rds: Default::default(),
        outs: Default::default(),
        heads: Default::default(),
        ups: Default::default(),
        graceful: RefCell::new(false),
        tx1: RefCell::new(None),
        tx2: RefCell::new(vec![]),
        peer: RefCell::new(None),
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if sc["role"].as_str() == Some("client") {
            w.start_client();
        } else {
            w.start_server();
        }
        let pc = &sc["cfg"]["peer"];
        if pc.is_object() {
            w.0.ioh.st.lock().unwrap().tap = Some(vec![]);
            let mut p = crate::peer::Peer::new(w.0.ioh.clone(), log.clone(), sc["role"].as_str() != Some("client"), pc);
            if pc["start"].as_bool() != Some(false) {
                p.start();
            }
            *w.0.peer.borrow_mut() = Some(p);
        }
        if sc["cfg"]["lazy"].as_bool() != Some(true) {
            w.run();
        }
        for (i, s) in sc["steps"].as_array().unwrap().iter().enumerate() {
            log.push(json!(["step", i]));
            if w.step(s) {
                w.run();
            }
        }
        log.push(json!(["end"]));
        // tear down: anything still alive is dropped
        w.0.ex.clear();
        w.0.tx1.borrow_mut().take();
        w.0.tx2.borrow_mut().clear();
        w.0.svcs.borrow_mut().clear();
    }));
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        log.push(json!(["panic", m]));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            w.0.ex.clear();
            w.0.tx1.borrow_mut().take();
            w.0.tx2.borrow_mut().clear();
        }));
    }
    let _: Option<Bytes> = None;
    json!({"id": sc["id"], "ev": log.take()})
}
