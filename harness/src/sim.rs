//! Deterministic simulation: event log, single-threaded executor that polls only
//! what was woken, scripted transport, virtual clock.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use hyper::rt::{Read, ReadBufCursor, Sleep, Timer, Write};
use serde_json::{json, Value};

#[derive(Clone, Default)]
pub struct Log(Arc<Mutex<LogInner>>);
#[derive(Default)]
struct LogInner {
    ev: Vec<Value>,
    progress: usize,
}
impl Log {
    pub fn push(&self, v: Value) {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.progress += 1;
        g.ev.push(v);
    }
    /// Blocked/pending notes: recorded once in a row, do not count as progress.
    pub fn note(&self, v: Value) {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        if g.ev.last() != Some(&v) {
            g.ev.push(v);
        }
    }
    pub fn progress(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).progress
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()).ev)
    }
}

pub struct Flag {
    woken: AtomicBool,
    pub wakes: AtomicUsize,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, Ordering::Relaxed);
        self.woken.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, Ordering::Relaxed);
        self.woken.store(true, Ordering::SeqCst);
    }
}

struct Task {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
}

#[derive(Clone)]
pub struct Ex(Rc<ExInner>);
struct ExInner {
    tasks: RefCell<Vec<Task>>,
    incoming: RefCell<Vec<Task>>,
    rng: RefCell<u64>,
    policy: RefCell<u8>,
}

impl Ex {
    pub fn new(seed: u64) -> Ex {
        Ex(Rc::new(ExInner {
            tasks: RefCell::new(vec![]),
            incoming: RefCell::new(vec![]),
            rng: RefCell::new(seed),
            policy: RefCell::new(if seed == 0 { 0 } else { 1 }),
        }))
    }
    pub fn spawn(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> Arc<Flag> {
        let flag = Arc::new(Flag {
            woken: AtomicBool::new(true),
            wakes: AtomicUsize::new(0),
        });
        self.0.incoming.borrow_mut().push(Task {
            name: name.into(),
            fut: Some(Box::pin(f)),
            flag: flag.clone(),
        });
        flag
    }
    fn next_rand(&self) -> u64 {
        let mut s = self.0.rng.borrow_mut();
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        *s
    }
    fn absorb(&self) {
        let mut inc = self.0.incoming.borrow_mut();
        self.0.tasks.borrow_mut().append(&mut inc);
    }
    /// Poll one woken task. Returns false if none is woken.
    pub fn step(&self) -> bool {
        self.absorb();
        let woken: Vec<usize> = self
            .0
            .tasks
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, t)| t.fut.is_some() && t.flag.woken.load(Ordering::SeqCst))
            .map(|(i, _)| i)
            .collect();
        if woken.is_empty() {
            return false;
        }
        let i = match *self.0.policy.borrow() {
            0 => woken[0],
            _ => woken[(self.next_rand() as usize) % woken.len()],
        };
        let (mut fut, flag) = {
            let mut ts = self.0.tasks.borrow_mut();
            (ts[i].fut.take().unwrap(), ts[i].flag.clone())
        };
        flag.woken.store(false, Ordering::SeqCst);
        let w: Waker = flag.into();
        let mut cx = Context::from_waker(&w);
        if fut.as_mut().poll(&mut cx).is_pending() {
            self.0.tasks.borrow_mut()[i].fut = Some(fut);
        } else {
            drop(fut);
        }
        true
    }
    /// Run until nothing is woken. Returns false when it spins without progress.
    pub fn run(&self, log: &Log) -> bool {
        let mut idle_polls = 0;
        let mut last = log.progress();
        let mut total = 0usize;
        while self.step() {
            total += 1;
            let p = log.progress();
            if p == last {
                idle_polls += 1;
                if idle_polls > 400 {
                    return false;
                }
            } else {
                idle_polls = 0;
                last = p;
            }
            if total > 2_000_000 {
                return false;
            }
        }
        true
    }
    pub fn drop_named(&self, name: &str) {
        self.absorb();
        let futs: Vec<_> = self
            .0
            .tasks
            .borrow_mut()
            .iter_mut()
            .filter(|t| t.name == name)
            .map(|t| t.fut.take())
            .collect();
        drop(futs);
    }
    pub fn wake_named(&self, name: &str) {
        self.absorb();
        for t in self.0.tasks.borrow().iter() {
            if t.name == name {
                t.flag.woken.store(true, Ordering::SeqCst);
            }
        }
    }
    pub fn alive(&self, name: &str) -> usize {
        self.absorb();
        self.0.tasks.borrow().iter().filter(|t| t.name == name && t.fut.is_some()).count()
    }
    pub fn clear(&self) {
        loop {
            self.absorb();
            let ts: Vec<Task> = self.0.tasks.borrow_mut().drain(..).collect();
            if ts.is_empty() {
                return;
            }
            drop(ts);
        }
    }
}
impl<F: Future<Output = ()> + 'static> hyper::rt::Executor<F> for Ex {
    fn execute(&self, fut: F) {
        self.spawn("spawned", fut);
    }
}

// ---- virtual clock -------------------------------------------------------

#[derive(Clone)]
pub struct Clock(Arc<ClockInner>);
struct ClockInner {
    base: Instant,
    st: Mutex<ClockSt>,
}
struct ClockSt {
    now: u64,
    next: u64,
    sleeps: Vec<(u64, u64, Option<Waker>)>,
}
impl Clock {
    pub fn new() -> Clock {
        Clock(Arc::new(ClockInner {
            base: Instant::now() + Duration::from_secs(10),
            st: Mutex::new(ClockSt { now: 0, next: 0, sleeps: vec![] }),
        }))
    }
    pub fn now_ms(&self) -> u64 {
        self.0.st.lock().unwrap().now
    }
    /// Next live deadline not after `to`.
    pub fn next_deadline(&self, to: u64) -> Option<u64> {
        let g = self.0.st.lock().unwrap();
        g.sleeps.iter().map(|s| s.1).filter(|d| *d > g.now && *d <= to).min()
    }
    pub fn set(&self, t: u64) {
        let mut ws = vec![];
        {
            let mut g = self.0.st.lock().unwrap();
            g.now = t;
            for s in g.sleeps.iter_mut() {
                if s.1 <= t {
                    if let Some(w) = s.2.take() {
                        ws.push(w);
                    }
                }
            }
        }
        for w in ws {
            w.wake();
        }
    }
}
pub struct VSleep {
    id: u64,
    dl: u64,
    c: Clock,
}
impl Future for VSleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.c.0.st.lock().unwrap();
        if g.now >= self.dl {
            return Poll::Ready(());
        }
        for s in g.sleeps.iter_mut() {
            if s.0 == self.id {
                s.2 = Some(cx.waker().clone());
            }
        }
        Poll::Pending
    }
}
impl Drop for VSleep {
    fn drop(&mut self) {
        let mut g = self.c.0.st.lock().unwrap();
        let id = self.id;
        g.sleeps.retain(|s| s.0 != id);
    }
}
impl Sleep for VSleep {}
impl Clock {
    fn mk(&self, dl: u64) -> Pin<Box<dyn Sleep>> {
        let mut g = self.0.st.lock().unwrap();
        g.next += 1;
        let id = g.next;
        g.sleeps.push((id, dl, None));
        drop(g);
        Box::pin(VSleep { id, dl, c: self.clone() })
    }
}
impl Timer for Clock {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn Sleep>> {
        let n = self.now_ms();
        self.mk(n + d.as_millis() as u64)
    }
    fn sleep_until(&self, deadline: Instant) -> Pin<Box<dyn Sleep>> {
        let ms = deadline.saturating_duration_since(self.0.base).as_millis() as u64;
        self.mk(ms)
    }
    fn now(&self) -> Instant {
        self.0.base + Duration::from_millis(self.now_ms())
    }
}

// ---- scripted transport ---------------------------------------------------

pub enum In {
    Data(VecDeque<u8>),
    Eof,
    Err,
}
pub struct IoSt {
    pub inq: VecDeque<In>,
    pub rw: Option<Waker>,
    pub rcap: usize,
    /// bytes accepted before blocking; None = unlimited
    pub wb: Option<usize>,
    /// cap per write call
    pub wcap: usize,
    pub werr: bool,
    pub wzero: bool,
    pub vectored: bool,
    pub flush_ok: bool,
    pub sd_ok: bool,
    pub flerr: bool,
    pub ww: Option<Waker>,
    /// the next this-many reads/writes spuriously block and wake at once
    pub rblip: bool,
    pub wblip: bool,
    pub rblip_now: bool,
    pub wblip_now: bool,
    pub written: usize,
    pub eof_seen: bool,
    pub dropped: bool,
    pub read_blocked: bool,
    /// copy of what was written, for a scripted peer
    pub tap: Option<Vec<u8>>,
}
#[derive(Clone)]
pub struct IoH {
    pub st: Arc<Mutex<IoSt>>,
    pub log: Log,
}
pub struct Io {
    pub h: IoH,
}
impl IoH {
    pub fn new(log: Log) -> IoH {
        IoH {
            st: Arc::new(Mutex::new(IoSt {
                inq: VecDeque::new(),
                rw: None,
                rcap: usize::MAX,
                wb: None,
                wcap: usize::MAX,
                werr: false,
                wzero: false,
                vectored: false,
                flush_ok: true,
                sd_ok: true,
                flerr: false,
                ww: None,
                rblip: false,
                wblip: false,
                rblip_now: false,
                wblip_now: false,
                written: 0,
                eof_seen: false,
                dropped: false,
                read_blocked: false,
                tap: None,
            })),
            log,
        }
    }
    pub fn push(&self, i: In) {
        let w = {
            let mut g = self.st.lock().unwrap();
            if let In::Data(d) = &i {
                if d.is_empty() {
                    return;
                }
            }
            g.inq.push_back(i);
            g.rw.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn with(&self, f: impl FnOnce(&mut IoSt)) {
        let w = {
            let mut g = self.st.lock().unwrap();
            f(&mut g);
            g.ww.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
pub fn lat(b: &[u8]) -> String {
    b.iter().map(|&c| c as char).collect()
}
pub fn unlat(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
impl Drop for Io {
    fn drop(&mut self) {
        self.h.st.lock().unwrap().dropped = true;
        self.h.log.push(json!(["iodrop"]));
    }
}
impl Read for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let mut g = self.h.st.lock().unwrap();
        // pending once, with an immediate wake-up, before each success
        if g.rblip && !g.rblip_now {
            g.rblip_now = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let rcap = g.rcap;
        match g.inq.front_mut() {
            None => {
                g.rw = Some(cx.waker().clone());
                g.read_blocked = true;
                self.h.log.note(json!(["rdp"]));
                Poll::Pending
            }
            Some(In::Data(d)) => {
                let rem = buf.remaining();
                let n = d.len().min(rem).min(rcap);
                let v: Vec<u8> = d.drain(..n).collect();
                if d.is_empty() {
                    g.inq.pop_front();
                }
                buf.put_slice(&v);
                g.rblip_now = false;
                g.read_blocked = false;
                self.h.log.push(json!(["rd", n, rem]));
                Poll::Ready(Ok(()))
            }
            Some(In::Eof) => {
                g.eof_seen = true;
                g.read_blocked = false;
                self.h.log.push(json!(["rd", 0, buf.remaining()]));
                Poll::Ready(Ok(()))
            }
            Some(In::Err) => {
                self.h.log.push(json!(["rderr"]));
                g.read_blocked = false;
                Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "scripted read error")))
            }
        }
    }
}
impl Io {
    fn do_write(&self, cx: &mut Context<'_>, bufs: &[&[u8]], total: usize) -> Poll<io::Result<usize>> {
        let mut g = self.h.st.lock().unwrap();
        if g.werr {
            self.h.log.push(json!(["wrerr"]));
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted write error")));
        }
        if g.wzero {
            self.h.log.push(json!(["wr0"]));
            return Poll::Ready(Ok(0));
        }
        // pending once, with an immediate wake-up, before each success
        if g.wblip && !g.wblip_now {
            g.wblip_now = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let cap = g.wb.unwrap_or(usize::MAX).min(g.wcap);
        if cap == 0 && total > 0 {
            g.ww = Some(cx.waker().clone());
            self.h.log.note(json!(["wrp"]));
            return Poll::Pending;
        }
        let n = total.min(cap);
        let mut out = Vec::with_capacity(n);
        for b in bufs {
            let k = (n - out.len()).min(b.len());
            out.extend_from_slice(&b[..k]);
        }
        if let Some(w) = g.wb.as_mut() {
            *w -= n;
        }
        g.written += n;
        if let Some(t) = g.tap.as_mut() {
            t.extend_from_slice(&out);
        }
        g.wblip_now = false;
        self.h.log.push(json!(["wr", lat(&out)]));
        Poll::Ready(Ok(n))
    }
}
impl Write for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.do_write(cx, &[buf], buf.len())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.h.st.lock().unwrap();
        if g.flerr {
            self.h.log.push(json!(["flerr"]));
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "scripted flush error")));
        }
        if !g.flush_ok {
            g.ww = Some(cx.waker().clone());
            self.h.log.note(json!(["flp"]));
            return Poll::Pending;
        }
        self.h.log.note(json!(["fl"]));
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.h.st.lock().unwrap();
        if !g.sd_ok {
            g.ww = Some(cx.waker().clone());
            self.h.log.note(json!(["sdp"]));
            return Poll::Pending;
        }
        self.h.log.push(json!(["sd"]));
        Poll::Ready(Ok(()))
    }
    fn is_write_vectored(&self) -> bool {
        self.h.st.lock().unwrap().vectored
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        let t = v.iter().map(|b| b.len()).sum();
        self.do_write(cx, &v, t)
    }
}
