//! Conformance harness: drives one component of the client at a time.
//!
//! Protocol (one JSON document per line): `{"c":"reset","cfg":{..}}` -> `{"o":{..}}`,
//! `{"c":"step","i":{..}}` -> `{"o":{..}}`. A panic in any task or call of the code under test
//! turns the observation into `{"panic": "<message>"}`.
mod comp;
mod dht;
mod fetch;
mod ledger;
mod metainfo;
mod netns;
mod rtable;
mod sessions;
mod small;
mod store;
mod swarm;
mod tasks;
mod tracker;
mod wire;

use comp::Comp;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub static PANICS: AtomicUsize = AtomicUsize::new(0);
pub static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn make(name: &str) -> Box<dyn Comp> {
    match name {
        "rtable" => Box::new(rtable::RTableComp::new()),
        "metainfo" => Box::new(metainfo::MetainfoComp),
        "store" => Box::new(store::StoreComp::new()),
        "ledger" => Box::new(ledger::LedgerComp::new()),
        "timer" => Box::new(small::TimerComp::new()),
        "bitmap" => Box::new(small::BitmapComp::new()),
        "shutdown" => Box::new(small::ShutdownComp::new()),
        "wire" => Box::new(wire::WireComp::new()),
        "sessions" => Box::new(sessions::SessionsComp::new()),
        "fetch" => Box::new(fetch::FetchComp::new()),
        "swarm" => Box::new(swarm::SwarmComp::new()),
        "tracker" => Box::new(tracker::TrackerComp::new()),
        "dht" => Box::new(dht::DhtComp::new()),
        "peers" => Box::new(small::PeersComp::new()),
        _ => {
            eprintln!("unknown component {name}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let name = std::env::args().nth(1).expect("component name");

    if name == "rt-crash-child" {
        rtable::crash_child();
    }

    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut m) = PANIC_MSG.lock() {
            *m = info.to_string();
        }
        if std::env::var("CONF_DEBUG").is_ok() {
            eprintln!("panic: {info}");
        }
    }));

    if matches!(name.as_str(), "dht") {
        netns::enter();
        // tasks of the real client run on threads with stacks of this size
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || serve(&name));
        t.unwrap().join().unwrap();
    } else {
        serve(&name);
    }
}

fn serve(name: &str) {
    let mut comp = make(name);
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();

    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("bad request: {e}");
                std::process::exit(2);
            }
        };
        PANICS.store(0, Ordering::SeqCst);

        let res = catch_unwind(AssertUnwindSafe(|| match v["c"].as_str().unwrap_or("") {
            "reset" => comp.reset(&v["cfg"]),
            "step" => comp.step(&v["i"]),
            c => {
                eprintln!("bad command {c}");
                std::process::exit(2)
            }
        }));

        let out = match (res, PANICS.load(Ordering::SeqCst)) {
            (Ok(o), 0) => o,
            _ => json!({"panic": PANIC_MSG.lock().map(|m| m.clone()).unwrap_or_default()}),
        };

        let mut lock = stdout.lock();
        if writeln!(lock, "{}", json!({ "o": out })).is_err() {
            break;
        }
        let _ = lock.flush();
    }
}
