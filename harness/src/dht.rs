//! The whole DHT side of the client over loopback UDP, under a paused clock (C17-C21).
use crate::comp::{bad, ints, Comp};
use crate::wire::{runtime, slow};
use nargun::verif::active_peers::Peers;
use nargun::verif::peer::Peer;
use nargun::verif::{shutdown, start_dht, ID, LOCAL_PORT_UDP};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, SocketAddrV4, UdpSocket};
use std::path::PathBuf;
use std::time::Duration;
use tokio::sync::mpsc;

pub const TCP_PORT: u16 = 6881;
const OWN: [u8; 20] = [0x50; 20];
const KINDS: [&str; 4] = ["ping", "find", "get", "ann"];

// ---------------------------------------------------------------- bencode

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    I(i64),
    S(Vec<u8>),
    L(Vec<B>),
    D(BTreeMap<Vec<u8>, B>),
}

impl B {
    pub fn s(x: impl AsRef<[u8]>) -> B {
        B::S(x.as_ref().to_vec())
    }
    pub fn d<const N: usize>(x: [(&str, B); N]) -> B {
        B::D(x.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
    }
    pub fn put(&mut self, k: &str, v: B) {
        if let B::D(d) = self {
            d.insert(k.as_bytes().to_vec(), v);
        }
    }
    pub fn at(&self, k: &str) -> Option<&B> {
        match self {
            B::D(d) => d.get(k.as_bytes()),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&[u8]> {
        match self {
            B::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        let string = |s: &[u8], o: &mut Vec<u8>| {
            o.extend(format!("{}:", s.len()).bytes());
            o.extend(s);
        };
        match self {
            B::I(n) => o.extend(format!("i{n}e").bytes()),
            B::S(s) => string(s, o),
            B::L(l) => {
                o.push(b'l');
                l.iter().for_each(|x| x.enc(o));
                o.push(b'e');
            }
            B::D(d) => {
                o.push(b'd');
                for (k, v) in d {
                    string(k, o);
                    v.enc(o);
                }
                o.push(b'e');
            }
        }
    }
    fn one(b: &[u8], at: &mut usize) -> Option<B> {
        Some(match *b.get(*at)? {
            b'i' => {
                let e = *at + b[*at..].iter().position(|c| *c == b'e')?;
                let n = std::str::from_utf8(&b[*at + 1..e]).ok()?.parse().ok()?;
                *at = e + 1;
                B::I(n)
            }
            b'l' | b'd' => {
                let dict = b[*at] == b'd';
                *at += 1;
                let mut l = vec![];
                while *b.get(*at)? != b'e' {
                    l.push(B::one(b, at)?);
                }
                *at += 1;
                if !dict {
                    return Some(B::L(l));
                }
                let mut d = BTreeMap::new();
                for p in l.chunks(2) {
                    let [B::S(k), v] = p else { return None };
                    d.insert(k.clone(), v.clone());
                }
                B::D(d)
            }
            _ => {
                let e = *at + b[*at..].iter().position(|c| *c == b':')?;
                let n: usize = std::str::from_utf8(&b[*at..e]).ok()?.parse().ok()?;
                let s = b.get(e + 1..e + 1 + n)?.to_vec();
                *at = e + 1 + n;
                B::S(s)
            }
        })
    }
    /// Only the one canonical form of a whole value is accepted.
    pub fn dec(b: &[u8]) -> Option<B> {
        let mut at = 0;
        let v = B::one(b, &mut at)?;
        let mut again = vec![];
        v.enc(&mut again);
        (again == b).then_some(v)
    }
}

// ---------------------------------------------------------------- the component

struct Far {
    s: UdpSocket,
    addr: SocketAddrV4,
    /// the transaction ids of the queries it got, by kind
    tids: [Vec<Vec<u8>>; 4],
    /// transaction ids of its own queries that were not answered yet
    mine: Vec<Vec<u8>>,
    token: Option<Vec<u8>>,
    sent: Sent,
}

#[derive(Default)]
struct Sent {
    find: usize,
    get: usize,
    ping: usize,
    ann: Vec<i64>,
    resp: Vec<Value>,
    odd: usize,
}

pub struct DhtComp {
    rt: tokio::runtime::Runtime,
    far: Vec<Far>,
    probe: UdpSocket,
    peers: Option<Peers>,
    found: Option<mpsc::Sender<SocketAddrV4>>,
    stop: Option<shutdown::Sender>,
    n: usize,
    twins: bool,
    seq: u64,
    all_tids: Vec<Vec<u8>>,
    now: u64,
}

fn own_addr() -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::LOCALHOST, LOCAL_PORT_UDP)
}

fn id(i: i64) -> [u8; 20] {
    if i == 0 {
        return OWN;
    }
    let mut b = [i as u8; 20];
    b[0] = OWN[0] ^ i as u8;
    if i >= 16 {
        // farther from the own id and from the torrent, the larger the number
        b[0] = OWN[0] ^ (16 + (i / 256) as u8);
        b[1] = 7 ^ (i % 256) as u8;
    }
    b
}

fn hash(name: &str) -> [u8; 20] {
    let mut b = [if name == "T" { 7 } else { 9 }; 20];
    b[0] = OWN[0] ^ 0x80;
    b
}

fn home() -> PathBuf {
    PathBuf::from(std::env::var("HOME").unwrap())
}

impl DhtComp {
    pub fn new() -> Self {
        Self {
            rt: runtime(true),
            far: vec![],
            probe: UdpSocket::bind("127.0.0.9:4999").unwrap(),
            peers: None,
            found: None,
            stop: None,
            n: 0,
            twins: false,
            seq: 0,
            all_tids: vec![],
            now: 0,
        }
    }

    fn ip_no(&self, i: usize) -> usize {
        if self.twins && i == self.n {
            i - 1
        } else {
            i
        }
    }

    fn peer(&self, k: i64) -> SocketAddrV4 {
        if k < 1000 {
            SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, k as u8), 7000)
        } else {
            SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 10 + (k / 1000) as u8), 7000 + (k % 1000) as u16)
        }
    }

    fn peer_no(&self, a: &SocketAddrV4) -> i64 {
        let (o, p) = (a.ip().octets(), a.port() as i64 - 7000);
        match (o, p) {
            ([10, 0, 0, k], 0) => k as i64,
            ([127, 0, 0, k], p) if k > 10 && (0..1000).contains(&p) => 1000 * (k as i64 - 10) + p,
            _ => -1,
        }
    }

    fn compact(a: &SocketAddrV4) -> Vec<u8> {
        let mut v = a.ip().octets().to_vec();
        v.extend(a.port().to_be_bytes());
        v
    }

    fn addr_of(b: &[u8]) -> SocketAddrV4 {
        SocketAddrV4::new(Ipv4Addr::new(b[0], b[1], b[2], b[3]), u16::from_be_bytes([b[4], b[5]]))
    }

    fn node_no(&self, b: &[u8]) -> i64 {
        let i = (1..=self.n as i64).find(|i| id(*i) == b[..20]);
        let a = self.far.iter().position(|f| f.addr == Self::addr_of(&b[20..]));
        match (i, a) {
            (Some(i), Some(a)) => 1000 * i + a as i64 + 1,
            _ => -1,
        }
    }

    fn nodes(&self, v: Option<&B>) -> Vec<i64> {
        let Some(B::S(s)) = v else { return vec![] };
        if s.len() % 26 != 0 {
            return vec![-2];
        }
        let mut v: Vec<i64> = s.chunks(26).map(|c| self.node_no(c)).collect();
        v.sort();
        v
    }

    fn settle(&mut self, rounds: usize) {
        let mut quiet = 0;
        while quiet < if slow() { rounds * 4 } else { rounds } {
            self.rt.block_on(async {
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
            });
            quiet = if self.poll() { 0 } else { quiet + 1 };
            if slow() {
                std::thread::sleep(Duration::from_micros(500));
            }
        }
    }

    fn poll(&mut self) -> bool {
        let mut any = false;
        for k in 0..self.far.len() {
            let mut buf = [0; 4096];
            while let Ok((n, from)) = self.far[k].s.recv_from(&mut buf) {
                any = true;
                // what one run left behind is no business of the next
                let ok = from.port() == LOCAL_PORT_UDP && n <= 1300 && self.take(k, &buf[..n]).is_some();
                if !ok {
                    if std::env::var("CONF_DEBUG").is_ok() {
                        eprintln!("odd: {:?}", String::from_utf8_lossy(&buf[..n]));
                    }
                    self.far[k].sent.odd += 1;
                }
            }
        }
        any
    }

    /// One datagram for a far node; None if nothing like it should ever be sent.
    fn take(&mut self, k: usize, b: &[u8]) -> Option<()> {
        let m = B::dec(b)?;
        let t = m.at("t")?.str()?.to_vec();
        match m.at("y")?.str()? {
            b"q" => {
                let a = m.at("a")?;
                if a.at("id")?.str()? != OWN || t.is_empty() || self.all_tids.contains(&t) {
                    return None;
                }
                let hash_ok = |k: &str, v: [u8; 20]| a.at(k).and_then(|x| x.str()) == Some(&v[..]);
                let f = &mut self.far[k];
                let kind = match m.at("q")?.str()? {
                    b"ping" => {
                        f.sent.ping += 1;
                        0
                    }
                    b"find_node" if hash_ok("target", OWN) => {
                        f.sent.find += 1;
                        1
                    }
                    b"get_peers" if hash_ok("info_hash", hash("T")) => {
                        f.sent.get += 1;
                        2
                    }
                    b"announce_peer" if hash_ok("info_hash", hash("T")) && a.at("port") == Some(&B::I(TCP_PORT as i64)) => {
                        let tk = a.at("token")?.str()?;
                        f.sent.ann.push(match tk {
                            [b't', b'k', n] => *n as i64,
                            _ => -1,
                        });
                        3
                    }
                    _ => return None,
                };
                f.tids[kind].push(t.clone());
                self.all_tids.push(t);
            }
            b"r" | b"e" => {
                let at = self.far[k].mine.iter().position(|x| *x == t)?;
                self.far[k].mine.remove(at);
                let rec = if m.at("y")?.str()? == b"e" {
                    json!({"k": "err", "nodes": [], "n": 0, "values": [], "tok": 0})
                } else {
                    let r = m.at("r")?;
                    if r.at("id")?.str()? != OWN {
                        return None;
                    }
                    let tok = r.at("token").map(|t| t.str().unwrap_or(b"").to_vec());
                    if tok.as_deref() == Some(b"") {
                        return None;
                    }
                    let (kind, values) = match (r.at("nodes"), r.at("values")) {
                        (Some(_), None) => ("nodes", vec![]),
                        (None, Some(B::L(l))) => {
                            let mut v = vec![];
                            for p in l {
                                let p = p.str().filter(|p| p.len() == 6)?;
                                let no = self.peer_no(&Self::addr_of(p));
                                v.push(if v.contains(&no) { -1 } else { no });
                            }
                            v.sort();
                            ("values", v)
                        }
                        (None, None) => ("id", vec![]),
                        _ => return None,
                    };
                    let n = values.len();
                    let shown: Vec<i64> = if n > 20 { values.into_iter().filter(|x| *x < 0).collect() } else { values };
                    let has = tok.is_some();
                    if has {
                        self.far[k].token = tok;
                    }
                    json!({"k": kind, "nodes": self.nodes(r.at("nodes")), "n": n, "values": shown, "tok": has as u8})
                };
                self.far[k].sent.resp.push(rec);
            }
            _ => return None,
        }
        Some(())
    }

    fn say(&mut self, k: usize, d: &[u8]) {
        self.far[k].s.send_to(d, own_addr()).unwrap_or_else(|e| bad(&format!("send {e}")));
    }

    /// What the routing table holds, as a stranger learns it.
    fn table(&mut self) -> Vec<i64> {
        let t = format!("p{}", self.seq);
        self.seq += 1;
        let mut q = B::d([("t", B::s(&t)), ("y", B::s("q")), ("q", B::s("find_node"))]);
        q.put("a", B::d([("id", B::s([0xEE; 20])), ("target", B::s([0xEE; 20]))]));
        let mut d = vec![];
        q.enc(&mut d);
        self.probe.send_to(&d, own_addr()).unwrap();
        let mut buf = [0; 4096];
        for _ in 0..if slow() { 400 } else { 100 } {
            self.settle(1);
            if let Ok((n, _)) = self.probe.recv_from(&mut buf) {
                let v = B::dec(&buf[..n]);
                let r = v.as_ref().filter(|m| m.at("t") == Some(&B::s(&t))).and_then(|m| m.at("r"));
                return match r {
                    Some(r) if r.at("nodes").is_some() => self.nodes(r.at("nodes")),
                    _ => vec![-3],
                };
            }
        }
        vec![-4]
    }

    fn saved(&self, loaded: &[i64]) -> Vec<u8> {
        let mut v = vec![];
        let num = |n: usize, v: &mut Vec<u8>| v.extend((n as u64).to_le_bytes());
        num(20, &mut v);
        v.extend(OWN);
        num(1, &mut v);
        num(0, &mut v);
        for k in 0..8 {
            match loaded.get(k) {
                None => v.push(0),
                Some(i) => {
                    v.push(1);
                    num(20, &mut v);
                    v.extend(id(*i));
                    let a = self.far[*i as usize - 1].addr;
                    v.extend(a.ip().octets());
                    v.extend(a.port().to_le_bytes());
                }
            }
        }
        v
    }

    fn obs(&mut self, op: &str) -> Value {
        let tab = self.table();
        let mut pool: Vec<i64> = self.peers.as_ref().unwrap().peer_addresses().iter().map(|p| self.peer_no(p.addr())).collect();
        pool.sort();
        if pool.len() > 20 {
            pool = vec![-(pool.len() as i64)];
        }
        let sent: Vec<Value> = self
            .far
            .iter_mut()
            .take(self.n)
            .map(|f| {
                let s = std::mem::take(&mut f.sent);
                json!({"find": s.find, "get": s.get, "ping": s.ping, "ann": s.ann, "resp": s.resp, "odd": s.odd})
            })
            .collect();
        json!({"op": op, "sent": sent, "pool": pool, "tab": tab})
    }

    fn clear(&mut self) {
        for f in &mut self.far {
            let mut buf = [0; 64];
            while f.s.recv_from(&mut buf).is_ok() {}
            f.tids = Default::default();
            f.mine.clear();
            f.token = None;
            f.sent = Default::default();
        }
        let mut buf = [0; 64];
        while self.probe.recv_from(&mut buf).is_ok() {}
        self.all_tids.clear();
        self.now = 0;
    }

    fn node_list(&self, v: &Value) -> Vec<u8> {
        let mut b = vec![];
        for x in ints(v) {
            b.extend(id(x / 1000));
            b.extend(Self::compact(&self.far[(x % 1000) as usize - 1].addr));
        }
        b
    }

    /// Each of `who` answers the search with 45 nodes nobody can reach, while a stranger asks and asks.
    fn storm(&mut self, who: &[i64], n: u64) {
        let mut x = 0u32;
        for k in who {
            let k = *k as usize - 1;
            let t = self.far[k].tids[2].last().cloned().unwrap_or_default();
            let mut nodes = vec![];
            for _ in 0..45 {
                x += 1;
                nodes.extend([0x33; 16]);
                nodes.extend(x.to_be_bytes());
                nodes.extend([127, 1, (x >> 8) as u8, x as u8, 0, 9]);
            }
            let r = B::d([("id", B::s(id(k as i64 + 1))), ("token", B::s(b"tk\x01")), ("nodes", B::S(nodes))]);
            let mut d = vec![];
            B::d([("t", B::S(t)), ("y", B::s("r")), ("r", r)]).enc(&mut d);
            self.say(k, &d);
        }
        let s = UdpSocket::bind("127.0.0.9:0").unwrap();
        let flood = std::thread::spawn(move || {
            let a = B::d([("id", B::s([0xEE; 20])), ("target", B::s([0xEE; 20]))]);
            let mut d = vec![];
            B::d([("t", B::s("zz")), ("y", B::s("q")), ("q", B::s("find_node")), ("a", a)]).enc(&mut d);
            for _ in 0..n {
                s.send_to(&d, own_addr()).ok();
                for _ in 0..200 {
                    std::hint::spin_loop();
                }
            }
        });
        while !flood.is_finished() {
            self.settle(1);
        }
        flood.join().unwrap();
        self.settle(50);
    }

    fn tid_for(&self, i: &Value) -> Vec<u8> {
        let to = i["to"].as_u64().unwrap() as usize - 1;
        let kind = KINDS.iter().position(|k| i["kind"] == *k).unwrap_or_else(|| bad("kind"));
        let nth = i["nth"].as_u64().unwrap() as usize;
        let t = &self.far[to].tids[kind];
        if nth == 0 || t.len() < nth {
            return b"?????".to_vec();
        }
        t[t.len() - nth].clone()
    }
}

fn replace(d: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0;
    while k < d.len() {
        if d[k..].starts_with(from) {
            out.extend(to);
            k += from.len();
        } else {
            out.push(d[k]);
            k += 1;
        }
    }
    out
}

impl Comp for DhtComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        let old = std::mem::replace(&mut self.rt, runtime(true));
        self.stop = None;
        self.found = None;
        self.peers = None;
        old.shutdown_timeout(Duration::from_secs(5));
        self.n = cfg["n"].as_u64().unwrap() as usize;
        let twins = cfg["twins"].as_bool().unwrap();
        if twins != self.twins || self.far.len() != self.n {
            self.twins = twins;
            self.far.clear();
            for i in 1..=self.n {
                let addr = {
                    let ip = self.ip_no(i);
                    SocketAddrV4::new(Ipv4Addr::new(127, 0, (ip / 240) as u8, 10 + (ip % 240) as u8), 5000 + i as u16)
                };
                let s = UdpSocket::bind(addr).unwrap_or_else(|e| bad(&format!("bind {e}")));
                s.set_nonblocking(true).unwrap();
                self.far.push(Far { s, addr, tids: Default::default(), mine: vec![], token: None, sent: Default::default() });
            }
            self.probe.set_nonblocking(true).unwrap();
        }
        self.clear();

        let dir = home().join(".nargun");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("dht"), self.saved(&ints(&cfg["loaded"]))).unwrap();
        let peers = Peers::new(&ID::new(hash("T")));
        for k in 1..=cfg["pool"].as_i64().unwrap() {
            peers.insert(Peer::new(self.peer(k)));
        }
        self.peers = Some(peers.clone());
        let (tx, rx) = mpsc::channel(32);
        self.found = Some(tx);
        let (stop, stopped) = shutdown::channel();
        self.stop = Some(stop);
        self.rt.block_on(start_dht(TCP_PORT, peers, ID::new(hash("T")), rx, stopped));
        self.settle(12);
        let mut o = self.obs("reset");
        // the first pings are expected, anything else at the start is not
        let odd = o["sent"].as_array().unwrap().iter().enumerate().any(|(k, s)| {
            let want = ints(&cfg["loaded"]).contains(&(k as i64 + 1)) as u64;
            s["ping"] != want || s["find"] != 0 || s["get"] != 0 || s["odd"] != 0 || !s["ann"].as_array().unwrap().is_empty()
        });
        o = if odd { json!({"odd": o}) } else { json!({}) };
        o
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let rounds = 5;
        match op {
            "q" => {
                let k = i["from"].as_u64().unwrap() as usize - 1;
                let m = &i["m"];
                let mut t = format!("{}", self.seq % 90 + 10).into_bytes();
                self.seq += 1;
                t.resize(i["tl"].as_u64().unwrap().max(2) as usize, b't');
                let mut a = B::d([("id", B::s(id(k as i64 + 1)))]);
                if let Some(x) = m["target"].as_i64() {
                    a.put("target", B::s(if x == 99 { hash("X") } else { id(x) }));
                }
                if let Some(h) = m["hash"].as_str() {
                    a.put("info_hash", B::s(hash(h)));
                }
                if let Some(p) = m["port"].as_i64() {
                    a.put("port", B::I(7000 + p));
                }
                match m["token"].as_i64() {
                    None => (),
                    Some(-1) => a.put("token", B::s([1; 20])),
                    Some(0) => a.put("token", B::s("")),
                    Some(x) => {
                        let t = self.far[x as usize - 1].token.clone().unwrap_or_else(|| b"none".to_vec());
                        a.put("token", B::S(t))
                    }
                }
                if m["more"] == true {
                    a.put("noseed", B::I(1));
                    a.put("want", B::L(vec![B::s("n4")]));
                }
                let mut q = B::d([("a", a), ("q", B::s(m["q"].as_str().unwrap())), ("t", B::s(&t)), ("y", B::s("q"))]);
                if m["more"] == true {
                    q.put("v", B::s([0, 255, 7, 9]));
                    q.put("ro", B::I(1));
                }
                let mut d = vec![];
                q.enc(&mut d);
                self.far[k].mine.push(t);
                self.say(k, &d);
            }
            "r" => {
                let k = i["from"].as_u64().unwrap() as usize - 1;
                let t = self.tid_for(i);
                let c = i["c"].as_str().unwrap();
                let mut q = B::d([("t", B::S(t))]);
                if c == "error" {
                    q.put("y", B::s("e"));
                    q.put("e", B::L(vec![B::I(201), B::s("no")]));
                } else {
                    let mut r = B::d([("id", B::s(id(i["id"].as_i64().unwrap())))]);
                    if c.starts_with('g') {
                        r.put("token", B::s([b't', b'k', i["tk"].as_u64().unwrap() as u8]));
                    }
                    if matches!(c, "nodes" | "gnodes" | "gboth") {
                        r.put("nodes", B::S(self.node_list(&i["nodes"])));
                    }
                    if matches!(c, "gvalues" | "gboth") {
                        let v = ints(&i["values"]).iter().map(|p| B::S(Self::compact(&self.peer(*p)))).collect();
                        r.put("values", B::L(v));
                    }
                    q.put("r", r);
                    q.put("y", B::s("r"));
                }
                let mut d = vec![];
                q.enc(&mut d);
                self.say(k, &d);
            }
            "bytes" => {
                let k = i["from"].as_u64().unwrap() as usize - 1;
                let mut d: Vec<u8> = ints(&i["bytes"]).iter().map(|b| *b as u8).collect();
                if i["kind"] != "none" {
                    let t = self.tid_for(i);
                    let mut e = b"5:".to_vec();
                    e.extend(&t);
                    d = replace(&d, b"5:AAAAA", &e);
                }
                if let Some(t) = B::one(&d, &mut 0).as_ref().and_then(|v| v.at("t")).and_then(|t| t.str()) {
                    self.far[k].mine.push(t.to_vec());
                }
                self.say(k, &d);
            }
            "storm" => self.storm(&ints(&i["who"]), i["n"].as_u64().unwrap()),
            "found" => {
                let a = self.far[i["p"].as_u64().unwrap() as usize - 1].addr;
                let f = self.found.clone().unwrap();
                if f.try_send(a).is_err() {
                    bad("found")
                }
            }
            "adv" => {
                for _ in 0..i["n"].as_u64().unwrap() {
                    self.now += 1;
                    self.rt.block_on(async { tokio::time::advance(Duration::from_millis(500)).await });
                    self.settle(3);
                }
            }
            "stop" => {
                if let Some(s) = self.stop.take() {
                    let waiter = s.send();
                    let done = self.rt.spawn(async move { waiter.wait().await });
                    let since = std::time::Instant::now();
                    while !done.is_finished() && since.elapsed().as_secs() < 20 {
                        self.settle(2);
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    if !done.is_finished() {
                        return json!({"op": op, "saved": [-2]});
                    }
                }
                self.settle(5);
                let b = std::fs::read(home().join(".nargun").join("dht")).unwrap_or_default();
                let mut v = vec![];
                if b.len() > 44 && b[8..28] == OWN {
                    let mut at = 44;
                    while at < b.len() {
                        if b[at] == 1 && b.len() >= at + 35 {
                            let mut c = b[at + 9..at + 33].to_vec();
                            c.extend([b[at + 34], b[at + 33]]);
                            v.push(self.node_no(&c));
                            at += 34;
                        }
                        at += 1;
                    }
                } else {
                    v.push(-1);
                }
                v.sort();
                return json!({"op": op, "saved": v});
            }
            _ => bad("op"),
        }
        self.settle(rounds);
        self.obs(op)
    }
}
