//! The handle on all sessions with several remote peers over real loopback TCP (C08).
use crate::comp::{bad, Comp};
use crate::tasks;
use crate::wire::{settle, con_rec, id_of, message_of, quiet_rounds, runs, runtime, small_window, Listener, Remote};
use nargun::verif::connection::connection_handle::Connection;
use nargun::verif::connection::connection_manager::ConMessageType;
use nargun::verif::connection::message::Message;
use nargun::verif::peer::Peer;
use serde_json::{json, Value};
use std::net::{SocketAddrV4, TcpListener};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

/// A remote peer: an address, whether it listens, and the connections made to it.
pub struct Host {
    pub addr: SocketAddrV4,
    pub l: Option<Listener>,
    pub conns: Vec<Remote>,
    pub accepted: usize,
    /// it does not read anymore
    pub deaf: bool,
}

impl Host {
    pub fn new(n: u8) -> Self {
        let l = Listener::new(n);
        small_window(&l.l);
        Self { addr: l.addr, l: Some(l), conns: vec![], accepted: 0, deaf: false }
    }

    pub fn listen(&mut self, up: bool) {
        if up && self.l.is_none() {
            let l = TcpListener::bind(self.addr).unwrap_or_else(|e| bad(&format!("bind again {e}")));
            l.set_nonblocking(true).unwrap();
            small_window(&l);
            self.l = Some(Listener { l, addr: self.addr });
        }
        if !up {
            self.l = None;
        }
    }

    pub fn poll(&mut self) -> bool {
        let mut any = false;
        while let Some(r) = self.l.as_ref().and_then(|l| l.accept()) {
            self.conns.push(r);
            self.accepted += 1;
            any = true;
        }
        for c in self.conns.iter_mut().filter(|_| !self.deaf) {
            any |= c.poll();
        }
        any
    }

    pub fn live(&self) -> usize {
        self.conns.iter().filter(|c| !c.eof).count()
    }

    pub fn current(&mut self) -> Option<&mut Remote> {
        self.conns.last_mut()
    }
}

async fn send_one(con: &Connection, peer: Peer, m: &Value) -> bool {
    match message_of(m) {
        Message::Choke => con.choke(true, peer).await.is_ok(),
        Message::Unchoke => con.choke(false, peer).await.is_ok(),
        Message::Interested => con.interested(true, peer).await.is_ok(),
        Message::NotInterested => con.interested(false, peer).await.is_ok(),
        Message::Have(n) => con.have(peer, n).await.is_ok(),
        Message::Bitfield(b) => con.bitfield(peer, b).await.is_ok(),
        Message::Piece(b) => con.piece(peer, b).await.is_ok(),
        Message::Cancel(r) => con.cancel(peer, r).await.is_ok(),
        Message::Port(n) => con.port(peer, n).await.is_ok(),
        _ => bad("send"),
    }
}

pub struct SessionsComp {
    rt: tokio::runtime::Runtime,
    hosts: Vec<Host>,
    con: Option<Connection>,
    dht: Option<mpsc::Receiver<SocketAddrV4>>,
    base: usize,
    n: usize,
}

impl SessionsComp {
    pub fn new() -> Self {
        tasks::count_tasks();
        Self {
            rt: runtime(false),
            hosts: (0..4).map(Host::new).collect(),
            con: None,
            dht: None,
            base: 0,
            n: 2,
        }
    }

    fn settle(&mut self) {
        let Self { rt, hosts, .. } = self;
        settle(rt, || hosts.iter_mut().fold(false, |a, h| h.poll() | a));
    }
}

impl Comp for SessionsComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        // a fresh runtime ends whatever was left running
        self.con = None;
        for h in &mut self.hosts {
            h.conns.clear();
            h.listen(false);
        }
        let old = std::mem::replace(&mut self.rt, runtime(false));
        old.shutdown_timeout(Duration::from_secs(2));
        let (tx, rx) = mpsc::channel(8);
        self.dht = Some(rx);
        self.base = tasks::alive();
        self.n = cfg["peers"].as_u64().unwrap_or(2) as usize;
        self.con = Some(Connection::new(id_of(&cfg["own"]), id_of(&cfg["hash"]), 32768, 100_000, tx));
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let p = i["p"].as_u64().unwrap_or(1) as usize;
        let peer = Peer::new(self.hosts[p - 1].addr);
        let mut res = json!("ok");
        let mut said = vec![];
        for h in &mut self.hosts {
            h.accepted = 0;
        }
        match op {
            "connect" => {
                self.hosts[p - 1].listen(i["up"].as_bool().unwrap());
                let _g = self.rt.enter();
                self.con.as_mut().unwrap().connect(peer);
                drop(_g);
                self.settle();
            }
            "shake" => {
                let mut h = b"\x13BitTorrent protocol".to_vec();
                h.extend([0u8; 8]);
                h.extend(if i["good"].as_bool().unwrap() {
                    let mut v = vec![171u8];
                    v.extend([0u8; 9]);
                    v.extend([205u8; 9]);
                    v.push(239);
                    v
                } else {
                    vec![1u8; 20]
                });
                h.extend([82u8; 20]);
                self.hosts[p - 1].current().map(|r| r.write(&h));
            }
            "say" => {
                let b = message_of(&i["m"]).into_bytes();
                self.hosts[p - 1].current().map(|r| r.write(b.as_ref()));
            }
            "close" => {
                if let Some(r) = self.hosts[p - 1].current() {
                    if i["how"] == "fin" {
                        r.fin()
                    } else {
                        r.rst()
                    }
                }
            }
            "disconnect" => self.con.as_mut().unwrap().disconnect(&peer),
            "send" => {
                let Self { rt, con, .. } = self;
                let con = con.as_ref().unwrap();
                let r = rt.block_on(async {
                    let send = async {
                        send_one(con, peer, &i["m"]).await
                    };
                    tokio::time::timeout(Duration::from_secs(5), send).await
                });
                res = match r {
                    Ok(true) => json!("ok"),
                    Ok(false) => json!("err"),
                    Err(_) => json!("stuck"),
                };
            }
            "flood" => {
                let n = i["n"].as_u64().unwrap();
                let Self { rt, con, hosts, .. } = self;
                let con = con.as_ref().unwrap();
                let r = rt.block_on(async {
                    let send = async {
                        for _ in 0..n {
                            for m in i["ms"].as_array().unwrap() {
                                if !send_one(con, peer, m).await {
                                    return false;
                                }
                            }
                        }
                        true
                    };
                    tokio::pin!(send);
                    let t = Instant::now();
                    let mut done = None;
                    let mut left = 20_000usize;
                    let mut quiet = 0;
                    // nothing is read until nothing more can be sent
                    loop {
                        if done.is_none() {
                            tokio::select! { biased; r = &mut send => done = Some(r), _ = tokio::task::yield_now() => {} }
                        } else {
                            tokio::task::yield_now().await;
                        }
                        if left > 0 && done.is_none() {
                            left -= 1;
                            if left % 16 == 0 && left < 19_000 {
                                hosts[p - 1].current().map(|r| r.poll_some(3000));
                            }
                            continue;
                        }
                        quiet = if hosts[p - 1].poll() || done.is_none() { 0 } else { quiet + 1 };
                        if quiet > 50 || t.elapsed() > Duration::from_secs(20) {
                            break;
                        }
                        if quiet > 0 {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                    }
                    done
                });
                res = match r {
                    Some(true) => json!("ok"),
                    Some(false) => json!("err"),
                    None => json!("stuck"),
                };
            }
            "recv" => {
                let Self { rt, con, hosts, .. } = self;
                let con = con.as_mut().unwrap();
                let m = rt.block_on(async {
                    let wait = async {
                        for _ in 0..quiet_rounds() {
                            tokio::task::yield_now().await;
                        }
                    };
                    tokio::select! { biased; m = con.recv() => Some(m), _ = wait => None }
                });
                if let Some(m) = m {
                    let who = hosts.iter().position(|h| Peer::new(h.addr) == m.peer).map(|n| n + 1);
                    said.push(match &m.message {
                        ConMessageType::FinishedPiece(_) => json!("finished"),
                        c => json!({"p": who, "m": con_rec(c)}),
                    });
                }
            }
            "idle" => {
                let t = Instant::now();
                while tasks::alive() > self.base && t.elapsed() < Duration::from_millis(200) {
                    self.settle();
                }
                res = match tasks::alive().saturating_sub(self.base) {
                    0 => json!("no tasks"),
                    n => json!(format!("{n} tasks")),
                };
            }
            _ => bad("op"),
        }
        self.settle();
        if self.dht.as_mut().map(|d| d.try_recv().is_ok()).unwrap_or(false) {
            res = json!("something for the DHT");
        }
        let hosts = &mut self.hosts[..self.n];
        let wire: Vec<Value> = hosts
            .iter_mut()
            .map(|h| {
                let got: Vec<u8> = h.conns.iter_mut().flat_map(|c| std::mem::take(&mut c.got)).collect();
                runs(&got)
            })
            .collect();
        json!({
            "op": op,
            "res": res,
            "said": said,
            "acc": hosts.iter().map(|h| h.accepted).collect::<Vec<_>>(),
            "wire": wire,
            "live": hosts.iter().map(|h| h.live()).collect::<Vec<_>>(),
        })
    }
}
