//! The tracker sessions of the client over loopback HTTP, under a paused clock (C22, C23).
use crate::comp::{bad, ints, Comp};
use crate::wire::{runtime, slow};
use nargun::verif::active_peers::Peers;
use nargun::verif::metainfo::Torrent;
use nargun::verif::{shutdown, spawn_tracker_managers, ID};
use serde_json::{json, Value};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::broadcast;
use tokio::task::JoinHandle;

const PIECE: usize = 16384;
const LAST: usize = 1000;
const PORT: u16 = 7123;
const UA: &[&str] = &["/announce", "/announce?key=a%20b", "/x/y.php?a=1&b=2", "/announce?", "/a?b&", "/"];

struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
    /// the request was read
    asked: bool,
    open: bool,
}

struct Site {
    l: Option<TcpListener>,
    addr: SocketAddr,
    url: &'static str,
    conns: Vec<Conn>,
    got: Vec<Value>,
}

pub struct TrackerComp {
    rt: tokio::runtime::Runtime,
    sites: Vec<Site>,
    torrent: Option<Torrent>,
    peers: Option<Peers>,
    have: Arc<AtomicU64>,
    done: Option<broadcast::Sender<()>>,
    stop: Option<shutdown::Sender>,
    stopped: Option<shutdown::Receiver>,
    waited: Option<JoinHandle<()>>,
    h: usize,
    np: usize,
}

fn unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut k = 0;
    while k < b.len() {
        match b[k] {
            b'%' => {
                let h = std::str::from_utf8(b.get(k + 1..k + 3)?).ok()?;
                v.push(u8::from_str_radix(h, 16).ok()?);
                k += 3;
            }
            c if c.is_ascii_alphanumeric() || b"-_.~".contains(&c) => {
                v.push(c);
                k += 1;
            }
            _ => return None,
        }
    }
    Some(v)
}

fn pattern(h: usize, k: usize) -> u8 {
    (20 * h + k) as u8
}

/// What a request says; None if it is not one a tracker could make sense of.
fn request(head: &str, url: &str, h: usize) -> Option<Value> {
    let line = head.lines().next()?;
    let target = line.strip_prefix("GET ")?.strip_suffix(" HTTP/1.1")?;
    let (path, query) = url.split_once('?').unwrap_or((url, ""));
    let (got_path, mut got) = target.split_once('?')?;
    if got_path != path {
        return None;
    }
    if !query.is_empty() {
        got = got.strip_prefix(query.trim_end_matches('&'))?;
        got = got.strip_prefix('&')?;
    }
    let mut p = std::collections::BTreeMap::new();
    for kv in got.split('&').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=')?;
        if p.insert(k, v).is_some() {
            return None;
        }
    }
    let num = |k: &str| p.get(k).and_then(|v| v.parse::<u64>().ok());
    let hash = unescape(p.get("info_hash")?)?;
    let id = unescape(p.get("peer_id")?)?;
    let whole = hash.len() == 20 && (0..20).all(|k| hash[k] == pattern(h, k));
    let same = id.len() == 20 && (0..20).all(|k| id[k] == 255 - pattern(h, k));
    let tid = match p.get("trackerid") {
        None => vec![-1],
        Some(t) => unescape(t)?.into_iter().map(|b| b as i64).collect(),
    };
    let ev = match p.get("event").copied() {
        None | Some("") => "none",
        Some(e) => e,
    };
    num("downloaded")?;
    Some(json!({
        "hash": if whole { h as i64 } else { -1 }, "id": if same { h as i64 } else { -1 },
        "port": num("port")?, "up": num("uploaded")?, "left": num("left")?, "compact": num("compact")?,
        "ev": ev, "tid": tid,
    }))
}

impl Site {
    fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| bad(&format!("bind {e}")));
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        Site { l: Some(l), addr, url: "", conns: vec![], got: vec![] }
    }

    fn poll(&mut self, h: usize) -> bool {
        let mut any = false;
        while let Some(Ok((s, _))) = self.l.as_ref().map(|l| l.accept()) {
            s.set_nonblocking(true).unwrap();
            self.conns.push(Conn { s, buf: vec![], asked: false, open: true });
            any = true;
        }
        for c in &mut self.conns {
            let mut b = [0; 4096];
            while c.open {
                match c.s.read(&mut b) {
                    Ok(0) => c.open = false,
                    Ok(n) => c.buf.extend(&b[..n]),
                    Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(_) => c.open = false,
                }
                any = true;
            }
            if !c.asked && c.buf.ends_with(b"\r\n\r\n") {
                c.asked = true;
                let head = String::from_utf8_lossy(&c.buf).into_owned();
                self.got.push(request(&head, self.url, h).unwrap_or_else(|| json!({"odd": head})));
            }
        }
        self.conns.retain(|c| c.open);
        any
    }
}

impl TrackerComp {
    pub fn new() -> Self {
        // certificates are not needed here, and loading them for every request takes long
        std::env::set_var("SSL_CERT_FILE", "/dev/null");
        std::env::set_var("SSL_CERT_DIR", "/nonexistent");
        Self {
            rt: runtime(true),
            sites: vec![],
            torrent: None,
            peers: None,
            have: Default::default(),
            done: None,
            stop: None,
            stopped: None,
            waited: None,
            h: 0,
            np: 1,
        }
    }

    fn settle(&mut self, rounds: usize) {
        let Self { rt, sites, h, .. } = self;
        rt.block_on(async {
            let mut quiet = 0;
            while quiet < if slow() { rounds * 10 } else { rounds } {
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                let mut any = false;
                for s in sites.iter_mut() {
                    any |= s.poll(*h);
                }
                quiet = if any { 0 } else { quiet + 1 };
                std::thread::sleep(Duration::from_micros(if slow() { 1000 } else { 20 }));
            }
        });
    }

    fn obs(&mut self, op: &str) -> Value {
        let mut pool: Vec<Vec<u8>> = self
            .peers
            .as_ref()
            .map(|p| p.peer_addresses())
            .unwrap_or_default()
            .iter()
            .map(|p| {
                let mut v = p.addr().ip().octets().to_vec();
                v.extend(p.addr().port().to_be_bytes());
                v
            })
            .collect();
        pool.sort();
        json!({
            "op": op,
            "sent": self.sites.iter_mut().map(|s| std::mem::take(&mut s.got)).collect::<Vec<_>>(),
            "open": self.sites.iter().map(|s| s.conns.iter().filter(|c| c.asked).count()).collect::<Vec<_>>(),
            "pool": pool,
            "over": self.waited.as_ref().map(|w| w.is_finished()).unwrap_or(false),
        })
    }
}

impl TrackerComp {
    fn prepare(&mut self, url: usize) {
        let np = self.np;
        for (k, s) in self.sites.iter_mut().enumerate() {
            s.url = UA[(url + k) % UA.len()];
        }
        let total = (np - 1) * PIECE + LAST;
        let text = |s: &str| format!("{}:{s}", s.len());
        let mut urls = String::new();
        for s in &self.sites {
            urls += &format!("l{}e", text(&format!("http://{}{}", s.addr, s.url)));
        }
        urls += &format!("l{}e", text("udp://127.0.0.1:9/announce"));
        let mut t = format!("d8:announce{}13:announce-listl{urls}e4:infod6:lengthi{total}e4:name4:file12:piece lengthi{PIECE}e6:pieces{}:",
            text("udp://127.0.0.1:9/announce"), 20 * np).into_bytes();
        t.extend(vec![3u8; 20 * np]);
        t.extend(b"ee");
        let file = PathBuf::from(std::env::var("CONF_SCRATCH").unwrap_or_else(|_| bad("scratch"))).join("t.torrent");
        std::fs::write(&file, t).unwrap();
        let mut t = Torrent::from_file(&file).unwrap_or_else(|e| bad(&format!("torrent {e}")));
        let mut hash = [0; 20];
        (0..20).for_each(|k| hash[k] = pattern(self.h, k));
        t.info_hash = ID::new(hash);
        self.peers = Some(Peers::new(&t.info_hash));
        self.torrent = Some(t);
    }
}

impl Comp for TrackerComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        let old = std::mem::replace(&mut self.rt, runtime(true));
        self.waited = None;
        self.stop = None;
        self.stopped = None;
        self.done = None;
        old.shutdown_timeout(Duration::from_secs(5));
        let n = cfg["n"].as_u64().unwrap() as usize;
        while self.sites.len() < n {
            self.sites.push(Site::new());
        }
        let refused = ints(&cfg["refuse"]);
        for (k, s) in self.sites.iter_mut().enumerate() {
            s.conns.clear();
            s.got.clear();
            if refused.contains(&(k as i64 + 1)) {
                s.l = None;
            }
            while let Some(Ok(_)) = s.l.as_ref().map(|l| l.accept()) {}
        }
        self.np = cfg["pieces"].as_u64().unwrap() as usize;
        self.have = Default::default();
        self.done = Some(broadcast::channel(32).0);
        let (tx, rx) = shutdown::channel();
        self.stop = Some(tx);
        self.stopped = Some(rx);
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        match op {
            "go" => {
                self.h = i["h"].as_u64().unwrap() as usize;
                self.prepare(i["url"].as_u64().unwrap() as usize);
                let mut id = [0; 20];
                (0..20).for_each(|k| id[k] = 255 - pattern(self.h, k));
                let _g = self.rt.enter();
                spawn_tracker_managers(
                    self.torrent.as_ref().unwrap(),
                    &ID::new(id),
                    self.peers.as_ref().unwrap(),
                    self.have.clone(),
                    self.done.as_ref().unwrap(),
                    PORT,
                    self.stopped.take().unwrap_or_else(|| bad("started twice")),
                );
            }
            "piece" => drop(self.have.fetch_add(1, Ordering::SeqCst)),
            "complete" => drop(self.done.as_ref().unwrap().send(())),
            "stop" => {
                let w = self.stop.take().unwrap_or_else(|| bad("stopped twice")).send();
                self.waited = Some(self.rt.spawn(w.wait()));
            }
            "adv" => {
                for _ in 0..i["n"].as_u64().unwrap() {
                    self.rt.block_on(async { tokio::time::advance(Duration::from_secs(1)).await });
                    self.settle(4);
                }
            }
            "ans" => {
                let t = i["t"].as_u64().unwrap() as usize - 1;
                let body: Vec<u8> = ints(&i["bytes"]).iter().map(|b| *b as u8).collect();
                if let Some(c) = self.sites[t].conns.iter_mut().rev().find(|c| c.asked) {
                    let how = i["how"].as_str().unwrap();
                    let mut d = vec![];
                    let head = |d: &mut Vec<u8>, status: &str, n: usize| {
                        d.extend(format!("HTTP/1.1 {status}\r\nContent-Type: text/plain\r\nConnection: close\r\nContent-Length: {n}\r\n\r\n").bytes())
                    };
                    match how {
                        "full" => {
                            head(&mut d, "200 OK", body.len());
                            d.extend(&body);
                        }
                        "chunked" => {
                            d.extend(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
                            for part in body.chunks(body.len() / 2 + 1) {
                                d.extend(format!("{:x}\r\n", part.len()).bytes());
                                d.extend(part);
                                d.extend(b"\r\n");
                            }
                            d.extend(b"0\r\n\r\n");
                        }
                        "cut" => {
                            head(&mut d, "200 OK", body.len() + 1);
                            d.extend(&body);
                        }
                        "half" => {
                            head(&mut d, "200 OK", body.len());
                            d.extend(&body[..body.len() / 2]);
                        }
                        "none" => head(&mut d, "404 Not Found", 0),
                        "close" => (),
                        _ => bad("how"),
                    }
                    let _ = c.s.write_all(&d);
                    if how != "half" {
                        let _ = c.s.shutdown(Shutdown::Write);
                        c.asked = false;
                        c.open = false;
                        c.buf.clear();
                    }
                }
                let t = &mut self.sites[t];
                t.conns.retain(|c| c.open);
            }
            _ => bad("op"),
        }
        self.settle(12);
        self.obs(op)
    }
}
