//! Replays operation sequences on hyper::rt::ReadBuf.
use crate::sim::lat;
use hyper::rt::ReadBuf;
use serde_json::{json, Value};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn fields(s: &str) -> Value {
    let g = |k: &str| -> Value {
        s.split(k)
            .nth(1)
            .and_then(|r| {
                let d: String = r.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
                d.parse::<u64>().ok()
            })
            .map(|n| json!(n))
            .unwrap_or(Value::Null)
    };
    json!([g("filled:"), g("init:"), g("capacity:")])
}

pub fn run(sc: &Value) -> Value {
    let cap = sc["cap"].as_u64().unwrap() as usize;
    let mut ev = vec![];
    let mut ui = vec![MaybeUninit::new(0xEEu8); cap];
    let mut ii = vec![0xEEu8; cap];
    let mut rb = if sc["uninit"].as_bool() == Some(true) { ReadBuf::uninit(&mut ui) } else { ReadBuf::new(&mut ii) };
    let mut next = b'a';
    for op in sc["ops"].as_array().unwrap() {
        let n = op[1].as_u64().unwrap_or(0) as usize;
        let mut extra = Value::Null;
        let r = {
            let mut c = rb.unfilled();
            catch_unwind(AssertUnwindSafe(|| match op[0].as_str().unwrap() {
                "put" => {
                    let v: Vec<u8> = (0..n).map(|i| next + i as u8).collect();
                    c.put_slice(&v);
                }
                "raw" => {
                    // write n bytes through the raw slice, then advance
                    let m = unsafe { c.as_mut() };
                    extra = json!(m.len());
                    for i in 0..n.min(m.len()) {
                        m[i].write(next + i as u8);
                    }
                    if n <= extra.as_u64().unwrap() as usize {
                        unsafe { c.advance(n) }
                    }
                }
                "initall" => {
                    let s = c.initialize_unfilled();
                    extra = json!(lat(s));
                }
                "initto" => {
                    let s = c.initialize_unfilled_to(n);
                    extra = json!(lat(s));
                }
                "dirty" => {
                    // initialize n bytes, scribble on them, do not advance
                    let s = c.initialize_unfilled_to(n);
                    for (i, b) in s.iter_mut().enumerate() {
                        *b = b'0' + i as u8;
                    }
                }
                "rem" => (),
                x => panic!("op {x}"),
            }))
        };
        if matches!(op[0].as_str(), Some("put") | Some("raw")) {
            next += n as u8;
            if next > b'p' {
                next = b'a';
            }
        }
        let ok = r.is_ok();
        let dbg = fields(&format!("{:?}", rb));
        let rem = rb.unfilled().remaining();
        let fl = lat(rb.filled());
        ev.push(json!([op[0], n, ok, fl, dbg, rem, extra]));
    }
    json!({"id": sc["id"], "ev": ev})
}
