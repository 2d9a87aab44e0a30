//! Downloading pieces from several remote peers over real loopback TCP, under a paused clock (C10).
use crate::comp::{bad, Comp};
use crate::sessions::Host;
use crate::tasks;
use crate::wire::{id_of, message_of, quiet_rounds, runs, runtime, slow, unruns};
use nargun::verif::connection::connection_handle::Connection;
use nargun::verif::connection::connection_manager::ConMessageType;
use nargun::verif::peer::Peer;
use nargun::verif::ID;
use serde_json::{json, Value};
use std::net::SocketAddrV4;
use std::time::Duration;
use tokio::sync::mpsc;

pub struct FetchComp {
    rt: tokio::runtime::Runtime,
    hosts: Vec<Host>,
    con: Option<Connection>,
    dht: Option<mpsc::Receiver<SocketAddrV4>>,
    /// lengths of the blocks of every piece
    bl: Vec<Vec<usize>>,
    own: Value,
    hash: Value,
    seen: Vec<Value>,
    fin: Vec<Value>,
}

fn good(k: usize, b: usize, len: usize) -> Vec<u8> {
    vec![((16 * k + b + 1) % 251) as u8; len]
}

impl FetchComp {
    pub fn new() -> Self {
        tasks::count_tasks();
        Self {
            rt: runtime(true),
            hosts: (0..3).map(Host::new).collect(),
            con: None,
            dht: None,
            bl: vec![],
            own: json!([]),
            hash: json!([]),
            seen: vec![],
            fin: vec![],
        }
    }

    fn piece_hash(&self, k: usize) -> ID {
        let all: Vec<u8> = self.bl[k].iter().enumerate().flat_map(|(b, n)| good(k, b, *n)).collect();
        ID::new(openssl::sha::sha1(&all))
    }

    /// Lets everything happen that can happen at this moment; the application reads what it is told.
    fn settle(&mut self, rounds: usize) {
        let Self { rt, hosts, con, seen, fin, .. } = self;
        let con = con.as_mut().unwrap();
        rt.block_on(async {
            let mut quiet = 0;
            while quiet < if slow() { rounds * 4 } else { rounds } {
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                let mut any = hosts.iter_mut().fold(false, |a, h| h.poll() | a);
                let m = tokio::select! { biased; m = con.recv() => Some(m), _ = std::future::ready(()) => None };
                if let Some(m) = m {
                    any = true;
                    let p = hosts.iter().position(|h| Peer::new(h.addr) == m.peer).map(|n| n + 1);
                    match m.message {
                        ConMessageType::FinishedPiece(f) => {
                            fin.push(json!({"p": p, "k": f.idx, "data": runs(&f.data.concat())}))
                        }
                        ConMessageType::Unreachable => seen.push(json!(["unreachable", p])),
                        ConMessageType::Disconnected => seen.push(json!(["disconnected", p])),
                        _ => (),
                    }
                }
                quiet = if any { 0 } else { quiet + 1 };
                std::thread::sleep(Duration::from_micros(if slow() { 1000 } else { 20 }));
            }
        });
    }

    fn connect(&mut self, p: usize) {
        self.hosts[p].listen(true);
        let addr = self.hosts[p].addr;
        {
            let _g = self.rt.enter();
            self.con.as_mut().unwrap().connect(Peer::new(addr));
        }
        self.settle(10);
        let mut h = b"\x13BitTorrent protocol".to_vec();
        h.extend([0u8; 8]);
        h.extend(unruns(&self.hash));
        h.extend([82u8; 20]);
        if let Some(r) = self.hosts[p].current() {
            r.write(&h);
        }
        self.settle(10);
        if let Some(r) = self.hosts[p].current() {
            // the handshake
            r.got.drain(..r.got.len().min(68));
        }
    }

    fn say(&mut self, p: usize, d: &[u8]) {
        let mut at = 0;
        for _ in 0..10_000 {
            match self.hosts[p].current() {
                Some(r) => at += r.write(&d[at..]),
                None => return,
            }
            if at == d.len() {
                return;
            }
            self.settle(1);
        }
        bad("a remote could not say what it wanted");
    }

    /// The requests that arrived at a remote, as [piece, block, length].
    fn requests(&mut self, p: usize, once: bool) -> Value {
        let got: Vec<u8> = self.hosts[p].conns.iter_mut().flat_map(|c| std::mem::take(&mut c.got)).collect();
        let mut v = vec![];
        let mut at = 0;
        while at < got.len() {
            if got.len() - at < 17 || got[at..at + 5] != [0, 0, 0, 13, 6] {
                // anything but a request
                v.push((-1, (got.len() - at) as i64, got[at] as i64));
                break;
            }
            let n = |k: usize| u32::from_be_bytes(got[at + k..at + k + 4].try_into().unwrap()) as i64;
            let begin = n(9);
            v.push((n(5), if begin % 16384 == 0 { begin / 16384 } else { -begin }, n(13)));
            at += 17;
        }
        v.sort();
        if once {
            v.dedup();
        }
        json!(v)
    }
}

impl Comp for FetchComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        self.con = None;
        for h in &mut self.hosts {
            h.conns.clear();
            h.listen(false);
        }
        let old = std::mem::replace(&mut self.rt, runtime(true));
        old.shutdown_timeout(Duration::from_secs(2));
        let (tx, rx) = mpsc::channel(8);
        self.dht = Some(rx);
        self.own = cfg["own"].clone();
        self.hash = cfg["hash"].clone();
        self.bl = cfg["bl"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| p.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect())
            .collect();
        let piece: usize = self.bl[0].iter().sum();
        let total: usize = self.bl.iter().flatten().sum();
        self.con = Some(Connection::new(id_of(&self.own), id_of(&self.hash), piece, total, tx));
        let n = cfg["peers"].as_u64().unwrap() as usize;
        while self.hosts.len() > n {
            self.hosts.pop();
        }
        while self.hosts.len() < n {
            self.hosts.push(Host::new(self.hosts.len() as u8));
        }
        for p in 0..n {
            self.connect(p);
        }
        self.seen.clear();
        self.fin.clear();
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let p = i["p"].as_u64().unwrap_or(1) as usize - 1;
        let peer = Peer::new(self.hosts[p].addr);
        let mut res = json!("ok");
        match op {
            "get" => {
                let k = i["k"].as_u64().unwrap() as usize;
                let hash = self.piece_hash(k);
                let Self { rt, con, .. } = self;
                let con = con.as_mut().unwrap();
                let r = rt.block_on(async {
                    let wait = async {
                        for _ in 0..quiet_rounds() {
                            tokio::task::yield_now().await;
                        }
                    };
                    tokio::select! { biased; r = con.download_piece(peer, k, hash) => Some(r), _ = wait => None }
                });
                res = match r {
                    Some(Ok(())) => json!("ok"),
                    Some(Err(_)) => json!("err"),
                    None => json!("stuck"),
                };
            }
            "choke" => self.say(p, &[0, 0, 0, 1, 0]),
            "unchoke" => self.say(p, &[0, 0, 0, 1, 1]),
            "block" => {
                let b = message_of(&i["m"]).into_bytes();
                self.say(p, b.as_ref())
            }
            "lose" => {
                if let Some(r) = self.hosts[p].current() {
                    r.fin()
                }
            }
            "open" => self.connect(p),
            "wait" => {
                for _ in 0..36 {
                    self.rt.block_on(async { tokio::time::advance(Duration::from_millis(250)).await });
                    self.settle(3);
                }
            }
            _ => bad("op"),
        }
        self.settle(10);
        let mut seen = std::mem::take(&mut self.seen);
        if op == "lose" && seen.first() == Some(&json!(["disconnected", p + 1])) {
            seen.remove(0);
        } else if op == "lose" {
            res = json!("the end of the session was not reported");
        }
        if !seen.is_empty() {
            res = json!(format!("reported: {}", json!(seen)));
        }
        let reqs: Vec<Value> = (0..self.hosts.len()).map(|p| self.requests(p, op == "wait")).collect();
        json!({"op": op, "res": res, "fin": std::mem::take(&mut self.fin), "reqs": reqs})
    }
}
