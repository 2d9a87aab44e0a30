//! The torrent manager with many remote peers over real loopback TCP, under a paused clock (C11).
use crate::comp::{bad, Comp};
use crate::sessions::Host;
use crate::tasks;
use crate::wire::{runtime, slow};
use nargun::verif::active_peers::Peers;
use nargun::verif::metainfo::Torrent;
use nargun::verif::peer::Peer;
use nargun::verif::{TorrentManager, ID};
use serde_json::{json, Value};
use std::net::SocketAddrV4;
use std::path::PathBuf;
use std::time::Duration;
use tokio::sync::mpsc;

const BLOCK: usize = 16384;
const LAST: usize = 1000;

pub struct SwarmComp {
    rt: tokio::runtime::Runtime,
    hosts: Vec<Host>,
    peers: Option<Peers>,
    dht: Option<mpsc::Receiver<SocketAddrV4>>,
    dir: PathBuf,
    n: usize,
    np: usize,
    hash: ID,
    /// bytes of every remote's present connection that are no whole message yet
    rest: Vec<Vec<u8>>,
    shaken: Vec<bool>,
}

fn len(k: usize, np: usize) -> usize {
    if k + 1 == np {
        LAST
    } else {
        BLOCK
    }
}

fn content(k: usize, np: usize) -> Vec<u8> {
    vec![(k + 1) as u8; len(k, np)]
}

fn torrent(np: usize) -> Vec<u8> {
    let total = (np - 1) * BLOCK + LAST;
    let mut t = format!("d8:announce20:http://127.0.0.1:1/a4:infod6:lengthi{total}e4:name4:file12:piece lengthi{BLOCK}e6:pieces{}:", 20 * np).into_bytes();
    for k in 0..np {
        t.extend(openssl::sha::sha1(&content(k, np)));
    }
    t.extend(b"ee");
    t
}

impl SwarmComp {
    pub fn new() -> Self {
        tasks::count_tasks();
        Self {
            rt: runtime(true),
            hosts: vec![],
            peers: None,
            dht: None,
            dir: PathBuf::from(std::env::var("CONF_SCRATCH").unwrap_or_else(|_| bad("scratch"))),
            n: 0,
            np: 0,
            hash: ID::new([0; 20]),
            rest: vec![],
            shaken: vec![],
        }
    }

    fn settle(&mut self, rounds: usize) {
        let Self { rt, hosts, dht, hash, shaken, .. } = self;
        rt.block_on(async {
            let mut quiet = 0;
            while quiet < if slow() { rounds * 4 } else { rounds } {
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                let mut any = false;
                for (p, h) in hosts.iter_mut().enumerate() {
                    let before = h.conns.len();
                    any |= h.poll();
                    if h.conns.len() > before {
                        shaken[p] = false;
                    }
                    // a remote answers every whole handshake
                    if let Some(r) = h.current() {
                        if !shaken[p] && r.got.len() >= 68 {
                            r.got.drain(..68);
                            shaken[p] = true;
                            any = true;
                            let mut d = b"\x13BitTorrent protocol".to_vec();
                            d.extend([0u8; 8]);
                            d.extend(hash.as_byte_ref());
                            d.extend([82u8; 20]);
                            r.write(&d);
                        }
                    }
                }
                if let Some(d) = dht {
                    any |= d.try_recv().is_ok();
                }
                quiet = if any { 0 } else { quiet + 1 };
                std::thread::sleep(Duration::from_micros(if slow() { 1000 } else { 20 }));
            }
        });
    }

    fn say(&mut self, p: usize, d: &[u8]) {
        let mut at = 0;
        for _ in 0..10_000 {
            match self.hosts[p].current() {
                Some(r) => at += r.write(&d[at..]),
                None => return,
            }
            if at == d.len() {
                return;
            }
            self.settle(1);
        }
        bad("a remote could not say what it wanted");
    }

    /// Says d again and again, until it is not taken anymore.
    fn stuff(&mut self, p: usize, d: &[u8]) -> bool {
        let (mut at, mut sent, mut stuck) = (0, 0, 0);
        while sent < 24 << 20 {
            let n = match self.hosts[p].current() {
                Some(r) => r.write(&d[at..]),
                None => return false,
            };
            sent += n;
            at = (at + n) % d.len();
            stuck = if n > 0 { 0 } else { stuck + 1 };
            if stuck > if slow() { 600 } else { 3000 } {
                return true;
            }
            self.settle(1);
        }
        false
    }

    /// The pieces that were asked of a remote since the last time.
    fn requests(&mut self, p: usize, once: bool) -> Value {
        let got: Vec<u8> = match self.hosts[p].current() {
            Some(r) if self.shaken[p] => std::mem::take(&mut r.got),
            _ => return json!([]),
        };
        let buf = &mut self.rest[p];
        buf.extend(got);
        let mut v = vec![];
        let num = |b: &[u8]| u32::from_be_bytes(b.try_into().unwrap()) as usize;
        while buf.len() >= 4 && buf.len() >= 4 + num(&buf[..4]) {
            let m: Vec<u8> = buf.drain(..4 + num(&buf[..4])).skip(4).collect();
            if m.first() == Some(&6) && m.len() == 13 {
                let (k, g, n) = (num(&m[1..5]), num(&m[5..9]), num(&m[9..13]));
                v.push(if k < self.np && g == 0 && n == len(k, self.np) { k as i64 } else { -1 });
            } else if !(matches!(m.first(), None | Some(2) | Some(3)) && m.len() < 2) && m.first() != Some(&4) {
                // only keepalive, (not)interested and have might be said as well
                v.push(-2);
            }
        }
        v.sort();
        if once {
            v.dedup();
        }
        json!(v)
    }

    fn disk(&self) -> Vec<i64> {
        let d = std::fs::read(self.dir.join("file")).unwrap_or_default();
        (0..self.np)
            .filter_map(|k| {
                let region = d.get(k * BLOCK..(k * BLOCK + len(k, self.np)).min(d.len())).unwrap_or(&[]);
                if region == content(k, self.np) {
                    Some(k as i64)
                } else if region.iter().any(|b| *b != 0) {
                    Some(-1 - k as i64)
                } else {
                    None
                }
            })
            .collect()
    }
}

fn u32be(n: usize) -> [u8; 4] {
    (n as u32).to_be_bytes()
}

fn message(id: u8, nums: &[usize], b: &[u8]) -> Vec<u8> {
    let mut m = u32be(1 + 4 * nums.len() + b.len()).to_vec();
    m.push(id);
    for n in nums {
        m.extend(u32be(*n));
    }
    m.extend(b);
    m
}

impl Comp for SwarmComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        let old = std::mem::replace(&mut self.rt, runtime(true));
        for h in &mut self.hosts {
            h.conns.clear();
            h.deaf = false;
        }
        old.shutdown_timeout(Duration::from_secs(2));
        self.n = cfg["peers"].as_u64().unwrap() as usize;
        self.np = cfg["np"].as_u64().unwrap() as usize;
        self.hosts.truncate(self.n);
        while self.hosts.len() < self.n {
            self.hosts.push(Host::new(self.hosts.len() as u8));
        }
        for h in &mut self.hosts {
            h.listen(true);
            while h.l.as_ref().and_then(|l| l.accept()).is_some() {}
        }
        self.rest = vec![vec![]; self.n];
        self.shaken = vec![false; self.n];

        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.dir).unwrap();
        let file = self.dir.join("x.torrent");
        std::fs::write(&file, torrent(self.np)).unwrap();
        let t = Torrent::from_file(&file).unwrap_or_else(|e| bad(&format!("torrent {e}")));
        self.hash = t.info_hash;
        std::env::set_var("NARGUN_BASE_DIR", &self.dir);
        let (tx, rx) = mpsc::channel(32);
        self.dht = Some(rx);
        let peers = Peers::new(&t.info_hash);
        for p in cfg["pool"].as_array().unwrap() {
            peers.insert(Peer::new(self.hosts[p.as_u64().unwrap() as usize - 1].addr));
        }
        self.peers = Some(peers.clone());
        let _g = self.rt.enter();
        TorrentManager::spawn(t, ID::new([7; 20]), peers, tx);
        drop(_g);
        self.settle(10);
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let p = i["p"].as_u64().unwrap_or(1) as usize - 1;
        let k = i["k"].as_u64().unwrap_or(0) as usize;
        for h in &mut self.hosts {
            h.accepted = 0;
        }
        let mut rounds = 14;
        let mut full = false;
        match op {
            "have" => {
                let n = i["big"].as_u64().unwrap() as usize * 65536 + k;
                // the same, over and over
                for _ in 0..i["hundreds"].as_u64().unwrap_or(0) {
                    self.say(p, &message(4, &[n], &[]).repeat(100));
                    self.settle(1);
                }
                self.say(p, &message(4, &[n], &[]))
            }
            "bitfield" => {
                let b: Vec<u8> = i["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                self.say(p, &message(5, &[], &b))
            }
            "idle" => {
                let m = match i["what"].as_str().unwrap() {
                    "keepalive" => vec![0; 4],
                    "interested" => message(2, &[], &[]),
                    "notinterested" => message(3, &[], &[]),
                    "request" => message(6, &[0, 0, BLOCK], &[]),
                    "wildrequest" => message(6, &[u32::MAX as usize, u32::MAX as usize, u32::MAX as usize], &[]),
                    "cancel" => message(8, &[0, 0, BLOCK], &[]),
                    "wildcancel" => message(8, &[u32::MAX as usize, 1, 0], &[]),
                    "port" => message(9, &[], &[26, 225]),
                    "unknown" => message(20, &[1, 2], &[3]),
                    _ => bad("what"),
                };
                self.say(p, &m)
            }
            "choke" => {
                let id = if i["yes"].as_bool().unwrap() { 0 } else { 1 };
                self.say(p, &message(id, &[], &[]))
            }
            "block" => {
                let mut d = if k < self.np { content(k, self.np) } else { vec![9; BLOCK] };
                match i["kind"].as_str().unwrap() {
                    "good" => (),
                    "twist" => *d.last_mut().unwrap() ^= 255,
                    "short" => drop(d.pop()),
                    _ => bad("kind"),
                }
                self.say(p, &message(7, &[k, 0], &d));
                // files are written in the background
                rounds = 40;
            }
            "stuff" => {
                self.hosts[p].deaf = true;
                full = self.stuff(p, &message(7, &[k, 0], &[]).repeat(1000));
            }
            "lose" => {
                if i["down"].as_bool().unwrap() {
                    self.hosts[p].listen(false);
                }
                if let Some(r) = self.hosts[p].current() {
                    r.fin()
                }
            }
            "up" => self.hosts[p].listen(true),
            "found" => self.peers.as_ref().unwrap().insert(Peer::new(self.hosts[p].addr)),
            "tick" | "wait" => {
                for _ in 0..if op == "wait" { 36 } else { 4 } {
                    self.rt.block_on(async { tokio::time::advance(Duration::from_millis(250)).await });
                    self.settle(4);
                }
            }
            _ => bad("op"),
        }
        self.settle(rounds);
        for p in 0..self.n {
            if self.hosts[p].accepted > 0 {
                self.rest[p].clear();
            }
        }
        let reqs: Vec<Value> = (0..self.n).map(|p| self.requests(p, op == "wait")).collect();
        let mut o = json!({
            "op": op,
            "acc": self.hosts.iter().map(|h| h.accepted).collect::<Vec<_>>(),
            "reqs": reqs,
            "live": self.hosts.iter().map(|h| h.live()).collect::<Vec<_>>(),
            "disk": self.disk(),
        });
        if op == "stuff" {
            o["full"] = json!(full);
        }
        o
    }
}
