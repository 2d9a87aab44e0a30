//! Counts the asynchronous tasks that are alive, through the spans tokio opens around them.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

static NEXT: AtomicU64 = AtomicU64::new(1);
static ALIVE: Mutex<Option<HashMap<u64, usize>>> = Mutex::new(None);

struct Counter;

fn with<T>(f: impl FnOnce(&mut HashMap<u64, usize>) -> T) -> T {
    let mut g = ALIVE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HashMap::new))
}

impl Subscriber for Counter {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.is_span() && m.name() == "runtime.spawn"
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        let id = NEXT.fetch_add(1, SeqCst);
        with(|m| m.insert(id, 1));
        Id::from_u64(id)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
    fn clone_span(&self, id: &Id) -> Id {
        with(|m| *m.entry(id.into_u64()).or_insert(0) += 1);
        id.clone()
    }
    fn try_close(&self, id: Id) -> bool {
        with(|m| {
            let Some(n) = m.get_mut(&id.into_u64()) else { return false };
            *n -= 1;
            if *n == 0 {
                m.remove(&id.into_u64());
                return true;
            }
            false
        })
    }
}

/// Must come before the first task is spawned.
pub fn count_tasks() {
    let _ = tracing::subscriber::set_global_default(Counter);
}

pub fn alive() -> usize {
    with(|m| m.len())
}
