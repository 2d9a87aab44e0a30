//! One session with a remote peer over real loopback TCP (C05-C07); shared helpers for C08-C11.
use crate::comp::{bad, Comp};
use nargun::verif::connection::connection_manager::{
    spawn_connection_manager, ConMessageType, ConnectionMessage,
};
use nargun::verif::connection::message::{Message, Piece, Request};
use nargun::verif::peer::Peer;
use nargun::verif::{shutdown, SerializableBuf, ID};
use serde_json::{json, Value};
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

pub fn slow() -> bool {
    std::env::var("CONF_SLOW").is_ok()
}

pub fn runtime(paused: bool) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .event_interval(1)
        .start_paused(paused)
        .build()
        .unwrap()
}

// ---------------------------------------------------------------- byte strings as runs

pub fn runs(bytes: &[u8]) -> Value {
    let mut v: Vec<(u8, usize)> = vec![];
    for b in bytes {
        match v.last_mut() {
            Some((c, n)) if c == b => *n += 1,
            _ => v.push((*b, 1)),
        }
    }
    json!(v.iter().map(|(b, n)| json!([b, n])).collect::<Vec<_>>())
}

pub fn unruns(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for r in v.as_array().unwrap_or_else(|| bad("runs")) {
        let n = r[1].as_u64().unwrap() as usize;
        out.resize(out.len() + n, r[0].as_u64().unwrap() as u8);
    }
    out
}

pub fn id_of(v: &Value) -> ID {
    let b: [u8; 20] = unruns(v).try_into().unwrap_or_else(|_| bad("id"));
    ID::new(b)
}

fn u32_at(v: &[Value], k: usize) -> u32 {
    (0..4).fold(0u32, |a, n| a << 8 | v[k + n].as_u64().unwrap() as u32)
}

fn request_of(v: &[Value]) -> Request {
    Request { index: u32_at(v, 0), begin: u32_at(v, 4), length: u32_at(v, 8) }
}

/// The message a specification record stands for.
pub fn message_of(m: &Value) -> Message {
    let v = m["v"].as_array().unwrap();
    match m["k"].as_str().unwrap() {
        "keepalive" => Message::KeepAlive,
        "choke" => Message::Choke,
        "unchoke" => Message::Unchoke,
        "interested" => Message::Interested,
        "notinterested" => Message::NotInterested,
        "have" => Message::Have(u32_at(v, 0)),
        "bitfield" => Message::Bitfield(SerializableBuf::from(unruns(&m["b"]))),
        "request" => Message::Request(request_of(v)),
        "piece" => Message::Piece(Piece::new(u32_at(v, 0), u32_at(v, 4), &unruns(&m["b"]))),
        "cancel" => Message::Cancel(request_of(v)),
        "port" => Message::Port((v[0].as_u64().unwrap() << 8 | v[1].as_u64().unwrap()) as u16),
        _ => bad("message"),
    }
}

fn rec(k: &str, v: &[u32], b: &[u8]) -> Value {
    let v: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes()).collect();
    json!({"k": k, "v": v, "b": runs(b)})
}

pub fn piece_rec(p: &Piece) -> Value {
    rec("piece", &[p.index, p.begin], p.block.as_ref())
}

pub fn con_rec(m: &ConMessageType) -> Value {
    match m {
        ConMessageType::Unreachable => rec("unreachable", &[], &[]),
        ConMessageType::Disconnected => rec("disconnected", &[], &[]),
        ConMessageType::KeepAlive => rec("keepalive", &[], &[]),
        ConMessageType::Choke => rec("choke", &[], &[]),
        ConMessageType::Unchoke => rec("unchoke", &[], &[]),
        ConMessageType::Interested => rec("interested", &[], &[]),
        ConMessageType::NotInterested => rec("notinterested", &[], &[]),
        ConMessageType::Have(n) => rec("have", &[*n], &[]),
        ConMessageType::Bitfield(b) => rec("bitfield", &[], b.as_ref()),
        ConMessageType::Request(r) => rec("request", &[r.index, r.begin, r.length], &[]),
        ConMessageType::Cancel(r) => rec("cancel", &[r.index, r.begin, r.length], &[]),
        ConMessageType::FinishedPiece(_) => rec("finished", &[], &[]),
    }
}

// ---------------------------------------------------------------- the remote end

/// A listening socket somewhere on the loopback network.
pub struct Listener {
    pub l: TcpListener,
    pub addr: SocketAddrV4,
}

impl Listener {
    pub fn new(n: u8) -> Self {
        // different processes use different loopback addresses
        let pid = std::process::id();
        let ip = Ipv4Addr::new(127, (1 + pid / 65536 % 200) as u8, (pid / 256 % 256) as u8, 1 + n);
        let ip = Ipv4Addr::new(127, ip.octets()[1], ip.octets()[2] ^ (pid % 256) as u8, 1 + n);
        let l = TcpListener::bind(SocketAddrV4::new(ip, 0)).unwrap_or_else(|e| bad(&format!("bind {e}")));
        l.set_nonblocking(true).unwrap();
        let SocketAddr::V4(addr) = l.local_addr().unwrap() else { bad("addr") };
        Self { l, addr }
    }

    /// An address on which nobody listens (the port stays reserved).
    pub fn refusing(n: u8) -> (std::net::UdpSocket, SocketAddrV4) {
        let l = Self::new(n);
        let addr = l.addr;
        drop(l);
        (std::net::UdpSocket::bind("127.0.0.1:0").unwrap(), addr)
    }

    pub fn accept(&self) -> Option<Remote> {
        match self.l.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(true).unwrap();
                s.set_nodelay(true).unwrap();
                quickack(&s);
                Some(Remote { s: Some(s), got: vec![], eof: false })
            }
            Err(_) => None,
        }
    }
}

/// Acknowledge at once: the client's small writes wait for the previous one's acknowledgement.
fn quickack(s: &TcpStream) {
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &on as *const _ as *const libc::c_void,
            std::mem::size_of_val(&on) as u32,
        );
    }
}

/// Connections accepted from now on take in little at a time.
pub fn small_window(l: &TcpListener) {
    let n: libc::c_int = 16384;
    unsafe {
        libc::setsockopt(
            l.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_RCVBUF,
            &n as *const _ as *const libc::c_void,
            std::mem::size_of_val(&n) as u32,
        );
    }
}

pub struct Remote {
    s: Option<TcpStream>,
    pub got: Vec<u8>,
    pub eof: bool,
}

impl Remote {
    /// Reads what is there; true if anything happened.
    pub fn poll(&mut self) -> bool {
        let Some(s) = &mut self.s else { return false };
        let mut buf = [0u8; 65536];
        let mut any = false;
        while !self.eof {
            quickack(s);
            match s.read(&mut buf) {
                Ok(0) => {
                    self.eof = true;
                    any = true
                }
                Ok(n) => {
                    self.got.extend_from_slice(&buf[..n]);
                    any = true
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(_) => {
                    self.eof = true;
                    any = true
                }
            }
        }
        any
    }

    /// Reads at most `n` bytes.
    pub fn poll_some(&mut self, n: usize) {
        if let Some(s) = &mut self.s {
            let mut buf = vec![0u8; n];
            if let Ok(n) = s.read(&mut buf) {
                self.got.extend_from_slice(&buf[..n]);
            }
        }
    }

    /// Writes some of `d`; how many bytes went (all of them once the other end is gone).
    pub fn write(&mut self, d: &[u8]) -> usize {
        match self.s.as_mut() {
            None => d.len(),
            Some(s) => match s.write(d) {
                Ok(n) => n,
                Err(e) if e.kind() == ErrorKind::WouldBlock => 0,
                Err(_) => d.len(),
            },
        }
    }

    pub fn fin(&mut self) {
        if let Some(s) = &self.s {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }

    pub fn rst(&mut self) {
        if let Some(s) = self.s.take() {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of_val(&l) as u32,
                );
            }
            drop(s);
            self.eof = true;
        }
    }
}

impl Drop for Remote {
    fn drop(&mut self) {
        self.rst()
    }
}

/// Lets everything happen that can happen without more input.
pub fn settle(rt: &tokio::runtime::Runtime, mut poll: impl FnMut() -> bool) {
    rt.block_on(async {
        let mut quiet = 0;
        while quiet < if slow() { 60 } else { 10 } {
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            quiet = if poll() { 0 } else { quiet + 1 };
            std::thread::sleep(Duration::from_micros(if slow() { 1000 } else { 20 }));
        }
    });
}

// ---------------------------------------------------------------- one session

struct Session {
    peer: Peer,
    pieces: mpsc::Receiver<Piece>,
    dht: mpsc::Receiver<SocketAddrV4>,
    con: mpsc::Receiver<ConnectionMessage>,
    send: mpsc::Sender<Message>,
    stop: Option<shutdown::Sender>,
    remote: Option<Remote>,
    refused: bool,
    ses: Vec<Value>,
    ports: Vec<Value>,
    blocks: Vec<Value>,
    gone: [bool; 3],
}

fn drain<T>(rx: &mut mpsc::Receiver<T>, gone: &mut bool, mut f: impl FnMut(T)) -> bool {
    let mut any = false;
    loop {
        match rx.try_recv() {
            Ok(x) => {
                f(x);
                any = true
            }
            Err(mpsc::error::TryRecvError::Empty) => return any,
            Err(mpsc::error::TryRecvError::Disconnected) => {
                any |= !*gone;
                *gone = true;
                return any;
            }
        }
    }
}

impl Session {
    fn poll(&mut self) -> bool {
        let peer = self.peer;
        let Self { ses, ports, blocks, gone, .. } = self;
        let mut any = drain(&mut self.con, &mut gone[0], |m| {
            ses.push(if m.peer == peer { con_rec(&m.message) } else { json!("message of another peer") })
        });
        any |= drain(&mut self.dht, &mut gone[1], |a| {
            ports.push(if a.ip() == peer.addr().ip() {
                json!(a.port().to_be_bytes())
            } else {
                json!(a.to_string())
            })
        });
        any |= drain(&mut self.pieces, &mut gone[2], |p| blocks.push(piece_rec(&p)));
        if let Some(r) = &mut self.remote {
            any |= r.poll();
        }
        any
    }
}

pub struct WireComp {
    rt: tokio::runtime::Runtime,
    listener: Listener,
    refusing: (std::net::UdpSocket, SocketAddrV4),
    cfg: Value,
    s: Option<Session>,
}

pub fn quiet_rounds() -> usize {
    if slow() {
        60
    } else {
        30
    }
}

impl WireComp {
    pub fn new() -> Self {
        Self {
            rt: runtime(false),
            listener: Listener::new(0),
            refusing: Listener::refusing(1),
            cfg: Value::Null,
            s: None,
        }
    }

    fn settle(&mut self) {
        let Self { rt, s, .. } = self;
        let Some(s) = s else { return };
        settle(rt, || s.poll());
    }

    fn start(&mut self, refuse: bool) {
        let cap = self.cfg["cap"].as_u64().unwrap_or(1) as usize;
        let addr = if refuse { self.refusing.1 } else { self.listener.addr };
        let peer = Peer::new(addr);
        let (piece_tx, pieces) = mpsc::channel(cap);
        let (dht_tx, dht) = mpsc::channel(cap);
        let (con_tx, con) = mpsc::channel(cap);
        let (send, send_rx) = mpsc::channel(32);
        let (stop, stop_rx) = shutdown::channel();
        let _g = self.rt.enter();
        spawn_connection_manager(
            id_of(&self.cfg["own"]),
            peer,
            id_of(&self.cfg["hash"]),
            piece_tx,
            dht_tx,
            con_tx,
            send_rx,
            stop_rx,
        );
        drop(_g);
        self.s = Some(Session {
            peer,
            pieces,
            dht,
            con,
            send,
            stop: Some(stop),
            remote: None,
            refused: refuse,
            ses: vec![],
            ports: vec![],
            blocks: vec![],
            gone: [false; 3],
        });
        if !refuse {
            let t = Instant::now();
            let Self { rt, s, listener, .. } = self;
            rt.block_on(async {
                while t.elapsed() < Duration::from_secs(5) {
                    tokio::task::yield_now().await;
                    if let Some(r) = listener.accept() {
                        s.as_mut().unwrap().remote = Some(r);
                        break;
                    }
                }
            });
        }
    }

    fn feed(&mut self, d: &[u8], fin: bool) {
        let mut n = 0;
        let t = Instant::now();
        while n < d.len() && t.elapsed() < Duration::from_secs(10) {
            let k = self.s.as_mut().unwrap().remote.as_mut().map(|r| r.write(&d[n..])).unwrap_or(d.len());
            n += k;
            if n < d.len() {
                self.settle();
            }
        }
        if fin {
            if let Some(r) = self.s.as_mut().unwrap().remote.as_mut() {
                r.fin()
            }
        }
    }
}

impl Comp for WireComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        self.cfg = cfg.clone();
        if let Some(mut s) = self.s.take() {
            if let Some(stop) = s.stop.take() {
                stop.send();
            }
            drop(s);
            self.rt.block_on(async {
                for _ in 0..20 {
                    tokio::task::yield_now().await;
                }
            });
        }
        // nothing may be left over for the next session
        while self.listener.accept().is_some() {}
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        let mut res = "ok";
        match op {
            "start" => self.start(i["refuse"].as_bool().unwrap()),
            "feed" => self.feed(&unruns(&i["d"]), i["fin"].as_bool().unwrap()),
            "rst" => {
                if let Some(r) = self.s.as_mut().unwrap().remote.as_mut() {
                    r.rst()
                }
            }
            "send" | "rstsend" => {
                if op == "rstsend" {
                    if let Some(r) = self.s.as_mut().unwrap().remote.as_mut() {
                        r.rst()
                    }
                }
                if let Err(e) = self.s.as_mut().unwrap().send.try_send(message_of(&i["m"])) {
                    res = match e {
                        mpsc::error::TrySendError::Closed(_) => "err",
                        _ => "full",
                    };
                }
            }
            "stop" => {
                if let Some(stop) = self.s.as_mut().unwrap().stop.take() {
                    stop.send();
                }
            }
            _ => bad("op"),
        }
        self.settle();
        let s = self.s.as_mut().unwrap();
        let closed = s.refused || s.remote.as_ref().map(|r| r.eof).unwrap_or(false);
        let over = match (closed, s.gone) {
            (true, [true, true, true]) => json!(true),
            (false, [false, false, false]) => json!(false),
            (c, g) => json!(format!("socket closed: {c}, channels closed: {g:?}")),
        };
        let wire = s.remote.as_mut().map(|r| std::mem::take(&mut r.got)).unwrap_or_default();
        json!({
            "op": op,
            "ses": std::mem::take(&mut s.ses),
            "dht": std::mem::take(&mut s.ports),
            "blocks": std::mem::take(&mut s.blocks),
            "wire": runs(&wire),
            "res": res,
            "over": over,
        })
    }
}
