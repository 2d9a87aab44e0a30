//! Components driven by plain calls: peer pool.
use crate::comp::{bad, concurrent, ints, scripts, Comp};
use nargun::verif::active_peers::{Peers, Status};
use nargun::verif::peer::Peer;
use nargun::verif::{shutdown, Bitmap, CappedGrowingInterval, ID};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;

// ---------------------------------------------------------------- peer pool (C12)

/// Peer n: neighbours differ only in the port or only in the address.
pub fn peer_of(n: i64) -> Peer {
    let n = n as u32;
    Peer::new(SocketAddrV4::new(
        Ipv4Addr::new(10, 0, (n / 2 >> 8) as u8, (n / 2 & 0xff) as u8),
        1000 + (n % 2) as u16,
    ))
}

pub struct PeersComp {
    handles: Vec<Peers>,
}

fn peer_no(p: &Peer) -> i64 {
    static BACK: std::sync::OnceLock<HashMap<Peer, i64>> = std::sync::OnceLock::new();
    BACK.get_or_init(|| (0..512).map(|n| (peer_of(n), n)).collect())
        .get(p)
        .copied()
        .unwrap_or(-1)
}

impl PeersComp {
    pub fn new() -> Self {
        Self { handles: vec![] }
    }

    fn status(s: &str) -> Status {
        match s {
            "active" => Status::Active,
            "unknown" => Status::Unknown,
            "unable" => Status::UnableToConnect,
            "choked" => Status::ChokedForTooLong,
            "nouseful" => Status::NoUsefulPieces,
            _ => bad("status"),
        }
    }

    fn list(peers: Vec<Peer>) -> Value {
        let mut v: Vec<i64> = peers.iter().map(peer_no).collect();
        v.sort();
        json!(v)
    }

    fn call(peers: &mut Peers, i: &Value) -> Value {
        match i["op"].as_str().unwrap() {
            "insert" => {
                peers.insert(peer_of(i["p"].as_i64().unwrap()));
                json!({"op": "insert"})
            }
            "extend" => {
                let v: Vec<Peer> = ints(&i["ps"]).into_iter().map(peer_of).collect();
                peers.extend(v.into_iter());
                json!({"op": "extend"})
            }
            "list" => {
                let v = peers.get_good_peers(i["n"].as_u64().unwrap() as usize);
                json!({"op": "list", "ps": Self::list(v.unwrap_or_default())})
            }
            "enough" => json!({"op": "enough", "yes": peers.enough_peers()}),
            "all" => json!({"op": "all", "ps": Self::list(peers.peer_addresses())}),
            "take" => {
                let bad: Vec<(Peer, Status)> = i["bad"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|b| {
                        (
                            peer_of(b["p"].as_i64().unwrap()),
                            Self::status(b["s"].as_str().unwrap()),
                        )
                    })
                    .collect();
                let v = peers.return_batch_of_bad_peers_and_get_new_batch(
                    &bad,
                    i["n"].as_u64().unwrap() as usize,
                );
                json!({"op": "take", "ps": Self::list(v)})
            }
            _ => crate::comp::bad("op"),
        }
    }
}

impl Comp for PeersComp {
    fn reset(&mut self, _cfg: &Value) -> Value {
        let p = Peers::new(&ID::new([7; 20]));
        self.handles = vec![p.clone(), p.clone(), p];
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        if i["op"] == "conc" {
            let (reps, prefix, threads) = scripts(i);
            return concurrent(
                reps,
                &prefix,
                &threads,
                &mut |n| {
                    let p = Peers::new(&ID::new([7; 20]));
                    (0..n).map(|_| p.clone()).collect()
                },
                Self::call,
            );
        }
        // every clone of the pool is the same pool
        Self::call(&mut self.handles[i["h"].as_u64().unwrap_or(0) as usize % 3], i)
    }
}

// ---------------------------------------------------------------- growing interval (C15)

const QUANTUM: f64 = 10.0;

pub struct TimerComp {
    rt: tokio::runtime::Runtime,
    timer: CappedGrowingInterval,
}

fn new_timer() -> CappedGrowingInterval {
    CappedGrowingInterval::new(6.0 * QUANTUM, |x| QUANTUM * (2.0 + (x * x + x) / 2.0))
}

impl TimerComp {
    pub fn new() -> Self {
        Self {
            rt: tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .start_paused(true)
                .build()
                .unwrap(),
            timer: new_timer(),
        }
    }
}

impl Comp for TimerComp {
    fn reset(&mut self, _cfg: &Value) -> Value {
        self.timer = new_timer();
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let d = Duration::from_secs_f64(i["d"].as_f64().unwrap() * QUANTUM);
        let timer = &mut self.timer;
        self.rt.block_on(async {
            match i["op"].as_str().unwrap() {
                "wait" => {
                    let t0 = tokio::time::Instant::now();
                    // half a quantum of slack at the end: exact ties are in favour of the tick
                    let fired = tokio::time::timeout(d + Duration::from_millis(5), timer.tick()).await.is_ok();
                    let el = t0.elapsed().as_secs_f64() / QUANTUM;
                    let after = (el + 0.01).floor();
                    let after = if (el - after).abs() < 0.01 { after as i64 } else { -1 };
                    // a wait that ran out took a bit longer: give it back by not counting it
                    json!({"op": "wait", "fired": fired, "after": after})
                }
                "idle" => {
                    tokio::time::advance(d).await;
                    json!({"op": "idle"})
                }
                _ => bad("op"),
            }
        })
    }
}

// ---------------------------------------------------------------- bitmap (C25)

pub struct BitmapComp(Bitmap);

impl BitmapComp {
    pub fn new() -> Self {
        Self(Bitmap::new(0))
    }

    fn obs(&self, op: &str, ret: bool) -> Value {
        let b = &self.0;
        let ones = |it: &mut dyn Iterator<Item = bool>| -> Vec<usize> {
            it.enumerate().filter(|(_, v)| *v).map(|(k, _)| k).collect()
        };
        let mut iter = ones(&mut b.iter());
        if b.iter().count() != b.len() {
            iter.push(99999);
        }
        let get = ones(&mut (0..b.len()).map(|k| b.get(k)));
        json!({"op": op, "ret": ret, "len": b.len(), "iter": iter, "get": get, "weight": b.weight()})
    }
}

impl Comp for BitmapComp {
    fn reset(&mut self, _cfg: &Value) -> Value {
        self.0 = Bitmap::new(0);
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let ret = match op {
            "new" => {
                self.0 = Bitmap::new(i["len"].as_u64().unwrap() as usize);
                true
            }
            "change" => self.0.change(i["p"].as_u64().unwrap() as usize, i["v"].as_bool().unwrap()),
            "replace" => {
                let data: Vec<u8> = ints(&i["data"]).into_iter().map(|x| x as u8).collect();
                self.0.replace_data(&data).is_ok()
            }
            _ => bad("op"),
        };
        self.obs(op, ret)
    }
}

// ---------------------------------------------------------------- shutdown channel (C24)

struct Holder {
    cmd: mpsc::UnboundedSender<HolderCmd>,
    told: Arc<AtomicBool>,
    task: tokio::task::JoinHandle<()>,
}

enum HolderCmd {
    Listen,
    Unlisten,
    Clone(tokio::sync::oneshot::Sender<shutdown::Receiver>),
}

/// A task that owns a shutdown handle and does with it what it is told.
async fn holder(mut rx: shutdown::Receiver, mut cmd: mpsc::UnboundedReceiver<HolderCmd>, told: Arc<AtomicBool>) {
    let mut listening = false;
    loop {
        tokio::select! {
            c = cmd.recv() => match c {
                None => return,
                Some(HolderCmd::Listen) => listening = true,
                Some(HolderCmd::Unlisten) => listening = false,
                Some(HolderCmd::Clone(tx)) => { let _ = tx.send(rx.clone()); }
            },
            _ = rx.recv(), if listening => {
                told.store(true, SeqCst);
                listening = false;
            }
        }
    }
}

pub struct ShutdownComp {
    rt: tokio::runtime::Runtime,
    slots: Vec<Option<Holder>>,
    tx: Option<shutdown::Sender>,
    over: Arc<AtomicBool>,
}

impl ShutdownComp {
    pub fn new() -> Self {
        Self {
            rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
            slots: vec![],
            tx: None,
            over: Arc::new(AtomicBool::new(false)),
        }
    }

    fn settle(rt: &tokio::runtime::Runtime) {
        rt.block_on(async {
            for _ in 0..60 {
                tokio::task::yield_now().await;
            }
        })
    }

    fn place(&mut self, k: usize, rx: shutdown::Receiver) {
        let (cmd, cmd_rx) = mpsc::unbounded_channel();
        let told = Arc::new(AtomicBool::new(false));
        let task = self.rt.spawn(holder(rx, cmd_rx, told.clone()));
        self.slots[k] = Some(Holder { cmd, told, task });
    }
}

/// The same channel under truly concurrent callers; a slot is a handle any thread may use.
struct SharedSlots {
    slots: Vec<std::sync::Mutex<Option<shutdown::Receiver>>>,
    tx: std::sync::Mutex<Option<shutdown::Sender>>,
    waiter: std::sync::Mutex<Option<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>>>,
    over: AtomicBool,
}

struct NoWake;
impl std::task::Wake for NoWake {
    fn wake(self: Arc<Self>) {}
}

fn poll_once<F: std::future::Future + ?Sized>(f: std::pin::Pin<&mut F>) -> bool {
    let w = Arc::new(NoWake).into();
    f.poll(&mut std::task::Context::from_waker(&w)).is_ready()
}

fn shared_call(s: &mut Arc<SharedSlots>, i: &Value) -> Value {
    let h = i["h"].as_u64().unwrap_or(0) as usize;
    match i["op"].as_str().unwrap() {
        "clone_" => {
            let c = s.slots[h].lock().unwrap().as_ref().unwrap().clone();
            *s.slots[i["k"].as_u64().unwrap() as usize].lock().unwrap() = Some(c);
            json!({"op": "clone_"})
        }
        "drop_" => {
            let r = s.slots[h].lock().unwrap().take();
            drop(r.unwrap());
            json!({"op": "drop_"})
        }
        "poll_" => {
            let mut slot = s.slots[h].lock().unwrap();
            let fut = slot.as_mut().unwrap().recv();
            let told = poll_once(std::pin::pin!(fut));
            json!({"op": "poll_", "told": told})
        }
        "send_" => {
            let tx = s.tx.lock().unwrap().take().unwrap();
            *s.waiter.lock().unwrap() = Some(Box::pin(tx.send().wait()));
            json!({"op": "send_"})
        }
        "over_" => {
            let mut w = s.waiter.lock().unwrap();
            if let Some(f) = w.as_mut() {
                if poll_once(f.as_mut()) {
                    *w = None;
                    s.over.store(true, SeqCst);
                }
            }
            json!({"op": "over_", "over": s.over.load(SeqCst)})
        }
        _ => bad("op"),
    }
}

impl Comp for ShutdownComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        self.slots.clear();
        self.rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        self.over = Arc::new(AtomicBool::new(false));
        let (tx, rx) = shutdown::channel();
        self.tx = Some(tx);
        self.slots = (0..cfg["n"].as_u64().unwrap()).map(|_| None).collect();
        self.place(0, rx);
        Self::settle(&self.rt);
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        if op == "conc" {
            let (reps, prefix, threads) = scripts(i);
            return concurrent(
                reps,
                &prefix,
                &threads,
                &mut |n| {
                    let (tx, rx) = shutdown::channel();
                    let mut slots: Vec<_> = (0..4).map(|_| std::sync::Mutex::new(None)).collect();
                    slots[0] = std::sync::Mutex::new(Some(rx));
                    let s = Arc::new(SharedSlots {
                        slots,
                        tx: std::sync::Mutex::new(Some(tx)),
                        waiter: std::sync::Mutex::new(None),
                        over: AtomicBool::new(false),
                    });
                    (0..n).map(|_| s.clone()).collect()
                },
                shared_call,
            );
        }
        let h = i["h"].as_u64().unwrap_or(0) as usize;
        match op {
            "clone" => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let _ = self.slots[h].as_ref().unwrap().cmd.send(HolderCmd::Clone(tx));
                let rx = self.rt.block_on(rx).unwrap();
                self.place(i["k"].as_u64().unwrap() as usize, rx);
            }
            "drop" => {
                let s = self.slots[h].take().unwrap();
                if h % 2 == 0 {
                    drop(s); // ends on its own
                } else {
                    s.task.abort(); // is torn down while it waits
                }
            }
            "listen" => {
                let _ = self.slots[h].as_ref().unwrap().cmd.send(HolderCmd::Listen);
            }
            "unlisten" => {
                let _ = self.slots[h].as_ref().unwrap().cmd.send(HolderCmd::Unlisten);
            }
            "send" => {
                let waiter = self.tx.take().unwrap().send();
                let over = self.over.clone();
                self.rt.spawn(async move {
                    waiter.wait().await;
                    over.store(true, SeqCst);
                });
            }
            "lose" => drop(self.tx.take()),
            _ => bad("op"),
        }
        Self::settle(&self.rt);
        let told: Vec<usize> = (0..self.slots.len())
            .filter(|k| self.slots[*k].as_ref().map(|s| s.told.load(SeqCst)).unwrap_or(false))
            .collect();
        json!({"op": op, "told": told, "over": self.over.load(SeqCst)})
    }
}
