//! Scripted user of an upgraded stream.
use crate::body::*;
use crate::sim::*;
use hyper::rt::{Read, ReadBuf, Write};
use hyper::upgrade::{OnUpgrade, Upgraded};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub struct UpSt {
    pub credits: usize,
    pub rsz: usize,
    pub wq: VecDeque<Vec<u8>>,
    pub flush: bool,
    pub shutdown: bool,
    pub sd_seen: bool,
    pub woff: usize,
    pub drop_now: bool,
    pub downcast: bool,
    pub waker: Option<Waker>,
}
#[derive(Clone, Default)]
pub struct UpH(pub Arc<Mutex<UpSt>>);
impl UpH {
    pub fn with(&self, f: impl FnOnce(&mut UpSt)) {
        let w = {
            let mut g = self.0.lock().unwrap();
            f(&mut g);
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
pub struct UpTask {
    pub k: usize,
    pub on: Option<OnUpgrade>,
    pub up: Option<Upgraded>,
    pub h: UpH,
    pub log: Log,
    pub rdone: bool,
}
impl Future for UpTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let k = me.k;
        {
            let mut g = me.h.0.lock().unwrap();
            g.waker = Some(cx.waker().clone());
            if g.drop_now {
                drop(g);
                if me.on.take().is_some() {
                    me.log.push(json!(["updrop", k]));
                }
                if me.up.take().is_some() {
                    me.log.push(json!(["ud", k]));
                }
                return Poll::Ready(());
            }
        }
        if let Some(on) = me.on.as_mut() {
            match Pin::new(on).poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Ok(u)) => {
                    me.log.push(json!(["up", k, "ok"]));
                    me.on = None;
                    me.up = Some(u);
                }
                Poll::Ready(Err(e)) => {
                    me.log.push(json!(["up", k, "err", err_kind(&e)]));
                    me.on = None;
                    return Poll::Ready(());
                }
            }
        }
        if me.h.0.lock().unwrap().downcast {
            if let Some(u) = me.up.take() {
                match u.downcast::<Io>() {
                    Ok(p) => {
                        me.log.push(json!(["updc", k, lat(&p.read_buf)]));
                        drop(p);
                    }
                    Err(u) => {
                        me.log.push(json!(["updc", k, Value::Null]));
                        drop(u);
                    }
                }
                return Poll::Ready(());
            }
        }
        let up = match me.up.as_mut() {
            Some(u) => u,
            None => return Poll::Ready(()),
        };
        // writes
        loop {
            let item = me.h.0.lock().unwrap().wq.front().cloned();
            let Some(d) = item else { break };
            match Pin::new(&mut *up).poll_write(cx, &d) {
                Poll::Ready(Ok(n)) => {
                    me.log.push(json!(["uw", k, n]));
                    let mut g = me.h.0.lock().unwrap();
                    let f = g.wq.front_mut().unwrap();
                    f.drain(..n);
                    if f.is_empty() || n == 0 {
                        g.wq.pop_front();
                    }
                    g.flush = true;
                }
                Poll::Ready(Err(e)) => {
                    me.log.push(json!(["uwerr", k, format!("{:?}", e.kind())]));
                    me.h.0.lock().unwrap().wq.clear();
                }
                Poll::Pending => {
                    me.log.note(json!(["uwp", k]));
                    break;
                }
            }
        }
        let (wempty, fl, sd) = {
            let g = me.h.0.lock().unwrap();
            (g.wq.is_empty(), g.flush, g.shutdown)
        };
        if wempty && fl {
            match Pin::new(&mut *up).poll_flush(cx) {
                Poll::Ready(r) => {
                    me.log.push(json!(["ufl", k, r.is_ok()]));
                    me.h.0.lock().unwrap().flush = false;
                }
                Poll::Pending => (),
            }
        }
        if wempty && sd {
            if !std::mem::replace(&mut me.h.0.lock().unwrap().sd_seen, true) {
                me.log.push(json!(["usc", k]));
            }
            match Pin::new(&mut *up).poll_shutdown(cx) {
                Poll::Ready(r) => {
                    me.log.push(json!(["us", k, r.is_ok()]));
                    me.h.0.lock().unwrap().shutdown = false;
                }
                Poll::Pending => me.log.note(json!(["usp", k])),
            }
        }
        loop {
            let (c, sz) = {
                let g = me.h.0.lock().unwrap();
                (g.credits, if g.rsz == 0 { 64 } else { g.rsz })
            };
            if c == 0 || me.rdone {
                break;
            }
            let mut b = vec![0u8; sz];
            let mut rb = ReadBuf::new(&mut b);
            match Pin::new(&mut *up).poll_read(cx, rb.unfilled()) {
                Poll::Ready(Ok(())) => {
                    let d = rb.filled().to_vec();
                    me.log.push(json!(["ur", k, lat(&d)]));
                    if d.is_empty() {
                        me.rdone = true;
                    }
                    let mut g = me.h.0.lock().unwrap();
                    if g.credits != usize::MAX {
                        g.credits -= 1;
                    }
                }
                Poll::Ready(Err(e)) => {
                    me.log.push(json!(["urerr", k, format!("{:?}", e.kind())]));
                    me.rdone = true;
                }
                Poll::Pending => {
                    me.log.note(json!(["urp", k]));
                    break;
                }
            }
        }
        Poll::Pending
    }
}
