//! hvffi IN.ndjson OUT.ndjson : runs scenarios on the C API's executor (hyper::ffi) and
//! writes what was observed.
use hyper::ffi::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::{c_int, c_void};
use std::io::{BufRead, Write};
use std::ptr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[derive(Default)]
struct World {
    ev: RefCell<Vec<Value>>,
    script: RefCell<Vec<VecDeque<Value>>>,
    wakers: RefCell<Vec<Vec<*mut hyper_waker>>>,
    tasks: RefCell<Vec<*mut hyper_task>>,
    cont: RefCell<Vec<bool>>, // the next call of the data function continues the same poll
    exec: RefCell<*const hyper_executor>,
    // transport of the http role
    inb: RefCell<VecDeque<u8>>,
    eof: RefCell<bool>,
    outb: RefCell<Vec<u8>>,
    wcap: RefCell<i64>,
    rw: RefCell<Option<*mut hyper_waker>>,
    ww: RefCell<Option<*mut hyper_waker>>,
}

struct Item {
    w: *const World,
    i: usize,
}

impl World {
    fn emit(&self, v: Value) {
        self.ev.borrow_mut().push(v);
    }
    fn push(&self, i: usize) {
        let t = std::mem::replace(&mut self.tasks.borrow_mut()[i], ptr::null_mut());
        if t.is_null() {
            return;
        }
        self.emit(json!(["push", i]));
        let rc = hyper_executor_push(*self.exec.borrow(), t);
        if rc as usize != 0 {
            self.emit(json!(["pusherr", i]));
        }
    }
    fn wake(&self, i: usize) {
        let w = self.wakers.borrow_mut()[i].pop();
        if let Some(w) = w {
            self.emit(json!(["wake", i]));
            hyper_waker_wake(w);
        }
    }
}

fn copy(s: &str) -> *mut hyper_buf {
    hyper_buf_copy(s.as_ptr(), s.len())
}

extern "C" fn data(ud: *mut c_void, cx: *mut hyper_context<'_>, out: *mut *mut hyper_buf) -> c_int {
    let it = unsafe { &*(ud as *const Item) };
    let w = unsafe { &*it.w };
    let i = it.i;
    let cont = std::mem::replace(&mut w.cont.borrow_mut()[i], false);
    if !cont {
        w.emit(json!(["cb", i]));
    }
    let s = w.script.borrow_mut()[i].pop_front().unwrap_or(json!({"ops": [], "out": "end"}));
    for op in s["ops"].as_array().unwrap() {
        let j = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap() {
            "keep" => {
                let k = hyper_context_waker(cx);
                w.wakers.borrow_mut()[i].push(k);
            }
            "self" => {
                let k = hyper_context_waker(cx);
                w.emit(json!(["wake", i]));
                hyper_waker_wake(k);
            }
            "drop" => {
                let k = w.wakers.borrow_mut()[i].pop();
                if let Some(k) = k {
                    hyper_waker_free(k);
                }
            }
            "wake" => w.wake(j),
            "spawn" => w.push(j),
            x => panic!("op {x}"),
        }
    }
    match s["out"].as_str().unwrap() {
        "p" => 1,
        "buf" => {
            unsafe { *out = copy(&format!("v{i}")) };
            w.emit(json!(["out", i, "buf"]));
            0
        }
        "err" => {
            w.emit(json!(["out", i, "err"]));
            3
        }
        _ => {
            w.emit(json!(["out", i, "end"]));
            0
        }
    }
}

extern "C" fn each(ud: *mut c_void, buf: *const hyper_buf) -> c_int {
    let it = unsafe { &*(ud as *const Item) };
    let w = unsafe { &*it.w };
    w.cont.borrow_mut()[it.i] = true;
    w.emit(json!(["data", it.i, text(buf)]));
    0
}

fn text(b: *const hyper_buf) -> String {
    let n = hyper_buf_len(b);
    let p = hyper_buf_bytes(b);
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}

/// kind and value of a returned task; the value is released
fn value(t: *mut hyper_task) -> (&'static str, Option<String>, *mut c_void) {
    let k = hyper_task_type(t);
    let v = hyper_task_value(t);
    match k {
        hyper_task_return_type::HYPER_TASK_EMPTY => ("end", None, ptr::null_mut()),
        hyper_task_return_type::HYPER_TASK_ERROR => {
            hyper_error_free(v as *mut hyper_error);
            ("err", None, ptr::null_mut())
        }
        hyper_task_return_type::HYPER_TASK_BUF => {
            let b = v as *mut hyper_buf;
            let s = text(b);
            hyper_buf_free(b);
            ("buf", Some(s), ptr::null_mut())
        }
        hyper_task_return_type::HYPER_TASK_CLIENTCONN => ("conn", None, v),
        hyper_task_return_type::HYPER_TASK_RESPONSE => ("resp", None, v),
    }
}

struct Sendw(*mut hyper_waker);
unsafe impl Send for Sendw {}

fn run_exec(sc: &Value) -> Value {
    let w = Box::new(World::default());
    let w: &World = &w;
    let exec = hyper_executor_new();
    *w.exec.borrow_mut() = exec;
    let specs = sc["tasks"].as_array().unwrap();
    let n = specs.len();
    let items: Vec<Box<Item>> = (0..n).map(|i| Box::new(Item { w, i })).collect();
    let mut bodies = vec![];
    for (i, s) in specs.iter().enumerate() {
        w.script.borrow_mut().push(s["script"].as_array().unwrap().iter().cloned().collect());
        w.wakers.borrow_mut().push(vec![]);
        w.cont.borrow_mut().push(false);
        let b = hyper_body_new();
        let ud = &*items[i] as *const Item as *mut c_void;
        hyper_body_set_userdata(b, ud);
        hyper_body_set_data_func(b, data);
        let t = if s["each"].as_bool() == Some(true) {
            hyper_body_foreach(b, each, ud)
        } else {
            bodies.push(b);
            hyper_body_data(b)
        };
        hyper_task_set_userdata(t, ud);
        w.tasks.borrow_mut().push(t);
    }
    let mut threads: Vec<(usize, std::thread::JoinHandle<()>)> = vec![];
    let mut freed = false;
    for st in sc["steps"].as_array().unwrap() {
        let i = st[1].as_u64().unwrap_or(0) as usize;
        match st[0].as_str().unwrap() {
            "push" => w.push(i),
            "wake" => w.wake(i),
            "tw" => {
                let k = w.wakers.borrow_mut()[i].pop();
                if let Some(k) = k {
                    w.emit(json!(["tw", i]));
                    let k = Sendw(k);
                    let spin = st[2].as_u64().unwrap_or(0);
                    threads.push((
                        i,
                        std::thread::spawn(move || {
                            let k = k;
                            for _ in 0..spin {
                                std::hint::spin_loop();
                            }
                            hyper_waker_wake(k.0);
                        }),
                    ));
                }
            }
            "tj" => {
                for (i, h) in threads.drain(..) {
                    h.join().unwrap();
                    w.emit(json!(["tj", i]));
                }
            }
            "poll" => {
                w.emit(json!(["poll"]));
                let t = hyper_executor_poll(exec);
                if t.is_null() {
                    w.emit(json!(["null"]));
                } else {
                    let ud = hyper_task_userdata(t);
                    let i = if ud.is_null() { -1 } else { unsafe { (*(ud as *const Item)).i as i64 } };
                    let (k, s, _) = value(t);
                    // a value can be taken once
                    let again = hyper_task_value(t);
                    w.emit(json!(["ret", i, k, s, again.is_null()]));
                    hyper_task_free(t);
                }
            }
            "free" => {
                if !freed {
                    for (i, h) in threads.drain(..) {
                        h.join().unwrap();
                        w.emit(json!(["tj", i]));
                    }
                    freed = true;
                    w.emit(json!(["free"]));
                    hyper_executor_free(exec);
                }
            }
            x => panic!("step {x}"),
        }
        if freed {
            break;
        }
    }
    for (i, h) in threads.drain(..) {
        h.join().unwrap();
        w.emit(json!(["tj", i]));
    }
    if !freed {
        hyper_executor_free(exec);
    }
    for t in w.tasks.borrow_mut().drain(..) {
        if !t.is_null() {
            hyper_task_free(t);
        }
    }
    // wakers that outlive the executor are harmless
    for ks in w.wakers.borrow_mut().drain(..) {
        for (j, k) in ks.into_iter().enumerate() {
            if j % 2 == 0 {
                hyper_waker_wake(k)
            } else {
                hyper_waker_free(k)
            }
        }
    }
    for b in bodies {
        hyper_body_free(b);
    }
    let ev = w.ev.borrow().clone();
    json!({"id": sc["id"], "ev": ev})
}

extern "C" fn io_read(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *mut u8, len: usize) -> usize {
    let w = unsafe { &*(ud as *const World) };
    let mut inb = w.inb.borrow_mut();
    if inb.is_empty() {
        if *w.eof.borrow() {
            return 0;
        }
        let k = hyper_context_waker(cx);
        if let Some(o) = w.rw.borrow_mut().replace(k) {
            hyper_waker_free(o);
        }
        return HYPER_IO_PENDING;
    }
    let n = len.min(inb.len());
    for j in 0..n {
        unsafe { *buf.add(j) = inb.pop_front().unwrap() };
    }
    n
}

extern "C" fn io_write(ud: *mut c_void, cx: *mut hyper_context<'_>, buf: *const u8, len: usize) -> usize {
    let w = unsafe { &*(ud as *const World) };
    let mut cap = w.wcap.borrow_mut();
    if *cap == 0 {
        let k = hyper_context_waker(cx);
        if let Some(o) = w.ww.borrow_mut().replace(k) {
            hyper_waker_free(o);
        }
        return HYPER_IO_PENDING;
    }
    let n = if *cap < 0 { len } else { len.min(*cap as usize) };
    if *cap > 0 {
        *cap -= n as i64;
    }
    w.outb.borrow_mut().extend_from_slice(unsafe { std::slice::from_raw_parts(buf, n) });
    n
}

fn run_http(sc: &Value) -> Value {
    let w = Box::new(World::default());
    let w: &World = &w;
    *w.wcap.borrow_mut() = sc["wcap"].as_i64().unwrap_or(-1);
    let exec = hyper_executor_new();
    let io = hyper_io_new();
    hyper_io_set_userdata(io, w as *const World as *mut c_void);
    hyper_io_set_read(io, io_read);
    hyper_io_set_write(io, io_write);
    let opts = hyper_clientconn_options_new();
    hyper_clientconn_options_exec(opts, exec);
    // task ids: 0 handshake, 100+k request k, 200+k body of response k, 99 a task of the library
    let tag = |t: *mut hyper_task, i: usize| {
        hyper_task_set_userdata(t, (i + 1) as *mut c_void);
        w.emit(json!(["push", i]));
        hyper_executor_push(exec, t);
    };
    let mut conn: *mut hyper_clientconn = ptr::null_mut();
    let t = hyper_clientconn_handshake(io, opts);
    tag(t, 0);
    let mut resps: Vec<(usize, *mut hyper_response)> = vec![];
    let mut bodies: Vec<(usize, *mut hyper_body)> = vec![];
    for st in sc["steps"].as_array().unwrap() {
        match st[0].as_str().unwrap() {
            "send" => {
                let k = st[1].as_u64().unwrap() as usize;
                if conn.is_null() {
                    continue;
                }
                let rq = hyper_request_new();
                let m = "GET";
                let u = format!("/{k}");
                hyper_request_set_method(rq, m.as_ptr(), m.len());
                hyper_request_set_uri(rq, u.as_ptr(), u.len());
                let t = hyper_clientconn_send(conn, rq);
                tag(t, 100 + k);
            }
            "in" => {
                let b = st[1].as_str().unwrap();
                w.inb.borrow_mut().extend(b.bytes());
                if let Some(k) = w.rw.borrow_mut().take() {
                    hyper_waker_wake(k);
                }
            }
            "eof" => {
                *w.eof.borrow_mut() = true;
                if let Some(k) = w.rw.borrow_mut().take() {
                    hyper_waker_wake(k);
                }
            }
            "wcap" => {
                *w.wcap.borrow_mut() = st[1].as_i64().unwrap();
                if let Some(k) = w.ww.borrow_mut().take() {
                    hyper_waker_wake(k);
                }
            }
            "drop" => {
                if !conn.is_null() {
                    hyper_clientconn_free(conn);
                    conn = ptr::null_mut();
                }
            }
            "body" => {
                // ask for the next chunk of response k
                let k = st[1].as_u64().unwrap() as usize;
                if let Some(p) = resps.iter().position(|x| x.0 == k) {
                    let (_, r) = resps.remove(p);
                    bodies.push((k, hyper_response_body(r)));
                    hyper_response_free(r);
                }
                if let Some(p) = bodies.iter().find(|x| x.0 == k) {
                    let t = hyper_body_data(p.1);
                    tag(t, 200 + k);
                }
            }
            "poll" => loop {
                w.emit(json!(["poll"]));
                let t = hyper_executor_poll(exec);
                if t.is_null() {
                    w.emit(json!(["null"]));
                    break;
                }
                let ud = hyper_task_userdata(t) as usize;
                let i = if ud == 0 { 99 } else { ud - 1 };
                let (k, s, p) = value(t);
                if k == "conn" {
                    conn = p as *mut hyper_clientconn;
                }
                if k == "resp" {
                    resps.push((i - 100, p as *mut hyper_response));
                }
                w.emit(json!(["ret", i, k, s, true]));
                hyper_task_free(t);
            },
            "must" => w.emit(st.clone()),
            x => panic!("step {x}"),
        }
    }
    if !conn.is_null() {
        hyper_clientconn_free(conn);
    }
    for (_, r) in resps {
        hyper_response_free(r);
    }
    hyper_executor_free(exec);
    for (_, b) in bodies {
        hyper_body_free(b);
    }
    for k in [w.rw.borrow_mut().take(), w.ww.borrow_mut().take()].into_iter().flatten() {
        hyper_waker_free(k);
    }
    w.emit(json!(["wire", String::from_utf8_lossy(&w.outb.borrow()).into_owned()]));
    let ev = w.ev.borrow().clone();
    json!({"id": sc["id"], "ev": ev})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("open input"));
    let mut o = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("open output"));
    let at = Arc::new(std::sync::Mutex::new((0usize, std::time::Instant::now())));
    let done = Arc::new(AtomicBool::new(false));
    {
        let (at, done) = (at.clone(), done.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (i, t) = *at.lock().unwrap();
            if !done.load(Ordering::Relaxed) && t.elapsed().as_secs() >= 20 {
                println!("HANG {i}");
                std::process::exit(77);
            }
        });
    }
    for (i, l) in f.lines().enumerate() {
        let l = l.expect("read");
        if l.is_empty() {
            continue;
        }
        *at.lock().unwrap() = (i, std::time::Instant::now());
        let v: Value = serde_json::from_str(&l).expect("scenario json");
        let r = if v["role"] == "http" { run_http(&v) } else { run_exec(&v) };
        o.write_all(r.to_string().as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
    }
    done.store(true, Ordering::Relaxed);
}
