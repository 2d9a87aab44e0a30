use serde_json::Value;

pub trait Comp {
    fn reset(&mut self, cfg: &Value) -> Value;
    fn step(&mut self, i: &Value) -> Value;
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect())
        .unwrap_or_default()
}

/// Input error of the harness itself (never a verdict about the code under test).
pub fn bad(msg: &str) -> ! {
    eprintln!("harness: {msg}");
    std::process::exit(2)
}

/// Runs `threads` scripts of calls truly concurrently, `reps` times from a fresh instance, and
/// returns the distinct histories seen: every call with its observation and with start/end stamps
/// drawn from one atomic counter (so `a.e < b.s` implies a really ended before b began).
pub fn concurrent<H: Send + 'static>(
    reps: usize,
    prefix: &[Value],
    threads: &[Vec<Value>],
    fresh: &mut dyn FnMut(usize) -> Vec<H>,
    call: fn(&mut H, &Value) -> Value,
) -> Value {
    use std::collections::BTreeSet;
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Barrier, Mutex};

    let n = threads.len();
    let mut seen = BTreeSet::new();
    let slots: Vec<Arc<Mutex<Option<H>>>> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    let clock = Arc::new(AtomicU64::new(1));
    let start = Arc::new(Barrier::new(n + 1));
    let end = Arc::new(Barrier::new(n + 1));
    let out: Arc<Mutex<Vec<(Value, Value, u64, u64)>>> = Arc::new(Mutex::new(vec![]));

    let workers: Vec<_> = (0..n)
        .map(|t| {
            let (slot, clock, start, end, out) =
                (slots[t].clone(), clock.clone(), start.clone(), end.clone(), out.clone());
            let script = threads[t].clone();
            std::thread::spawn(move || {
                for _ in 0..reps {
                    start.wait();
                    let mut h = slot.lock().unwrap().take().unwrap();
                    let mut res = Vec::with_capacity(script.len());
                    for i in &script {
                        let s = clock.fetch_add(1, SeqCst);
                        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&mut h, i)))
                            .unwrap_or_else(|_| serde_json::json!({"op": "panic"}));
                        let e = clock.fetch_add(1, SeqCst);
                        res.push((i.clone(), o, s, e));
                    }
                    drop(h);
                    out.lock().unwrap().extend(res);
                    end.wait();
                }
            })
        })
        .collect();

    for _ in 0..reps {
        let mut handles = fresh(n + 1);
        let mut main = handles.pop().unwrap();
        clock.store(1, SeqCst);
        let mut hist = vec![];
        for i in prefix {
            let s = clock.fetch_add(1, SeqCst);
            let o = call(&mut main, i);
            hist.push((i.clone(), o, s, clock.fetch_add(1, SeqCst)));
        }
        for (slot, h) in slots.iter().zip(handles) {
            *slot.lock().unwrap() = Some(h);
        }
        start.wait();
        end.wait();
        hist.append(&mut out.lock().unwrap());
        hist.sort_by_key(|x| x.2);
        let h: Vec<Value> = hist
            .into_iter()
            .map(|(i, o, s, e)| serde_json::json!({"i": i, "o": o, "s": s, "e": e}))
            .collect();
        seen.insert(serde_json::to_string(&h).unwrap());
    }
    for w in workers {
        let _ = w.join();
    }
    let v: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    serde_json::json!({ "hists": v })
}

pub fn scripts(i: &Value) -> (usize, Vec<Value>, Vec<Vec<Value>>) {
    (
        i["reps"].as_u64().unwrap() as usize,
        i["prefix"].as_array().unwrap().clone(),
        i["threads"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| t.as_array().unwrap().clone())
            .collect(),
    )
}
