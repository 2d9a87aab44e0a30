//! Routing table (C13, C14, C15, C16). Model ids are XOR distances to the own id in the top `w`
//! bits; a model id stands for `g` real nodes which differ in the last byte only.
use crate::comp::{bad, Comp};
use nargun::verif::dht::{Nodes, RoutingTable};
use nargun::verif::ID;
use serde_json::{json, Value};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::path::PathBuf;
use std::time::Duration;
use tokio::runtime::Runtime;

pub struct RTableComp {
    rt: Runtime,
    table: Option<RoutingTable>,
    w: usize,
    g: usize,
    tick: u64,
    /// every model bit stands for this many equal bits of the real distance
    stretch: usize,
    saved_id: Option<ID>,
    n: u64,
}

/// where the node lives, or (`from`) the other place somebody uses its id
fn addr_from(id: &ID, from: bool) -> SocketAddrV4 {
    let a = addr_of(id);
    if from {
        SocketAddrV4::new(Ipv4Addr::from(u32::from(*a.ip()) ^ 0x0100_0000), a.port())
    } else {
        a
    }
}

fn addr_of(id: &ID) -> SocketAddrV4 {
    let b = id.as_byte_ref();
    SocketAddrV4::new(
        Ipv4Addr::new(10, b[0], b[1], b[2]),
        1 + (((b[18] as u16) << 8) | b[19] as u16) % 65000,
    )
}

impl RTableComp {
    pub fn new() -> Self {
        Self {
            rt: tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .start_paused(true)
                .build()
                .unwrap(),
            table: None,
            w: 3,
            g: 1,
            tick: 900,
            stretch: 1,
            saved_id: None,
            n: 0,
        }
    }

    fn home() -> PathBuf {
        PathBuf::from(std::env::var("HOME").unwrap())
    }

    fn file() -> PathBuf {
        Self::home().join(".nargun").join("dht")
    }

    fn t(&self) -> &RoutingTable {
        self.table.as_ref().unwrap()
    }

    /// member 0..g of the group, or (member 255) an id of the range nobody has
    fn real(&self, m: u64, member: u8) -> ID {
        let mut b: [u8; 20] = self.t().own_id().as_byte_ref().try_into().unwrap();
        for bit in (0..self.w).filter(|bit| m >> (self.w - 1 - bit) & 1 == 1) {
            for k in bit * self.stretch..(bit + 1) * self.stretch {
                b[k / 8] ^= 0x80 >> (k % 8);
            }
        }
        b[19] ^= member.wrapping_add(1);
        ID::new(b)
    }

    /// (model id, member) of a real id, None if it is none of ours
    fn model(&self, id: &ID) -> Option<(u64, u8)> {
        let own = self.t().own_id().as_byte_ref();
        let d: Vec<u8> = id.as_byte_ref().iter().zip(own).map(|(a, b)| a ^ b).collect();
        let m = (0..self.w).fold(0, |m, bit| {
            let k = bit * self.stretch;
            m << 1 | (d[k / 8] >> (7 - k % 8) & 1) as u64
        });
        let member = d[19].wrapping_sub(1);
        (self.real(m, member) == *id && (member as usize) < self.g).then_some((m, member))
    }

    /// Whole groups only: anything else becomes a negative marker no specification allows.
    fn groups(&self, ids: &[ID], ordered: bool) -> Vec<i64> {
        let mut res: Vec<i64> = vec![];
        let mut count = std::collections::BTreeMap::new();
        for id in ids {
            match self.model(id) {
                None => res.push(-1),
                Some((m, member)) => {
                    let e = count.entry(m).or_insert_with(|| {
                        res.push(m as i64);
                        vec![]
                    });
                    e.push(member);
                }
            }
        }
        for (m, mut members) in count {
            if ordered && self.g > 1 {
                // nearest first inside a group as well is checked by the caller through distances
            }
            members.sort();
            members.dedup();
            if members.len() != self.g {
                res.push(-2 - m as i64);
            }
        }
        if !ordered {
            res.sort();
        }
        let total: usize = ids.len();
        if total != res.iter().filter(|x| **x >= 0).count() * self.g {
            res.push(-1000);
        }
        res
    }

    fn obs(&self, op: &str) -> Value {
        let t = self.t();
        let ids: Vec<ID> = t.iter_nodes().map(|n| n.id).collect();
        let mut v = self.groups(&ids, false);
        // every other view of the contents has to agree
        let n = 1u64 << self.w;
        if n <= 256 {
            for m in 0..n {
                for k in 0..self.g {
                    let id = self.real(m, k as u8);
                    if t.contains_node(&id) != ids.contains(&id) {
                        v.push(-3000 - m as i64);
                    }
                }
            }
        }
        if t.count_nodes() != ids.len() || t.is_empty() != ids.is_empty() {
            v.push(-4000);
        }
        let mut moved = vec![];
        for node in t.iter_nodes() {
            if node.addr == addr_from(&node.id, true) {
                moved.push(node.id);
            } else if node.addr != addr_of(&node.id) {
                v.push(-5000);
            }
        }
        let moved = self.groups(&moved, false);
        let good = t.count_good_nodes();
        let good = if good % self.g == 0 { (good / self.g) as i64 } else { -1 };
        json!({"op": op, "ids": v, "good": good, "moved": moved})
    }

    fn closest(&self, nodes: &[nargun::verif::dht::Node], target: &ID) -> Vec<i64> {
        let ids: Vec<ID> = nodes.iter().map(|n| n.id).collect();
        let mut v = self.groups(&ids, true);
        let dist = |id: &ID| -> Vec<u8> {
            id.as_byte_ref().iter().zip(target.as_byte_ref()).map(|(a, b)| a ^ b).collect()
        };
        if ids.windows(2).any(|w| dist(&w[0]) >= dist(&w[1])) {
            v.push(-2000);
        }
        if nodes.iter().any(|n| !self.t().iter_nodes().any(|m| m.id == n.id && m.addr == n.addr)) {
            v.push(-5000);
        }
        v
    }

    fn store(&self) {
        let t = self.t();
        self.rt.block_on(t.store());
    }

    fn damage(&mut self, how: u64) {
        let file = Self::file();
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        let _ = std::fs::remove_file(&file);
        self.store();
        let good = std::fs::read(&file).unwrap_or_else(|_| vec![1; 500]);
        let bytes: Option<Vec<u8>> = match how {
            0 => None,
            1 => Some(vec![]),
            2 => Some(good[..good.len() / 2].to_vec()),
            3 => Some(b"this is not a routing table at all, and never was".to_vec()),
            4 => {
                let mut x = 0x9e3779b97f4a7c15u64.wrapping_add(self.n);
                Some((0..good.len()).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect())
            }
            5 => Some(good[..good.len() - 1].to_vec()),
            6 => {
                // the first fields of a table followed by zeros: no buckets at all
                let mut b = good[..28.min(good.len())].to_vec();
                b.extend([0u8; 8]);
                Some(b)
            }
            7 => {
                // an id that is too short
                let mut b = 3u64.to_le_bytes().to_vec();
                b.extend([9u8; 3]);
                b.extend(&good[28.min(good.len())..]);
                Some(b)
            }
            _ => bad("damage"),
        };
        match bytes {
            None => std::fs::remove_file(&file).unwrap(),
            Some(b) => std::fs::write(&file, b).unwrap(),
        }
    }

    /// Saves in a child process that dies at its `at`-th file-system call.
    fn crash(&mut self, at: u64, how: &str) {
        let scratch = Self::home().join(format!("crash-{}", self.n));
        std::fs::create_dir_all(scratch.join(".nargun")).unwrap();
        let real_home = Self::home();
        std::env::set_var("HOME", &scratch);
        self.store();
        std::env::set_var("HOME", &real_home);
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("rt-crash-child")
            .env("HOME", &scratch)
            .env("REAL_HOME", &real_home)
            .env("CRASH_AT", at.to_string())
            .env("CRASH_MODE", how)
            .env("LD_PRELOAD", std::env::var("CRASH_SHIM").unwrap_or_else(|_| bad("no CRASH_SHIM")))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .unwrap();
        if !(st.success() || st.code() == Some(86)) {
            panic!("saving the routing table failed: {st}");
        }
        std::fs::remove_dir_all(&scratch).unwrap();
    }
}

/// Body of the crashing child: load the table saved under $HOME, then save it under $REAL_HOME.
pub fn crash_child() -> ! {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let table = RoutingTable::new().await;
        std::env::set_var("HOME", std::env::var("REAL_HOME").unwrap());
        // the shim starts counting when it sees this access
        let _ = std::fs::remove_file("/nargun-crash-shim-arm");
        table.store().await;
        let _ = std::fs::remove_file("/nargun-crash-shim-disarm");
    });
    std::process::exit(0)
}

impl Comp for RTableComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        self.w = cfg["w"].as_u64().unwrap() as usize;
        self.g = cfg["g"].as_u64().unwrap() as usize;
        self.tick = cfg["tick"].as_u64().unwrap();
        self.stretch = cfg["stretch"].as_u64().unwrap_or(1) as usize;
        let _ = std::fs::remove_dir_all(Self::home().join(".nargun"));
        self.saved_id = None;
        self.table = Some(self.rt.block_on(RoutingTable::new()));
        self.n += 1;
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        self.n += 1;
        match i["op"].as_str().unwrap() {
            "touch" => {
                let m = i["id"].as_u64().unwrap();
                for k in 0..self.g {
                    let id = self.real(m, k as u8);
                    let _g = self.rt.enter();
                    self.table.as_mut().unwrap().touch_node(id, addr_from(&id, !i["from"].is_null()));
                }
                self.rt.block_on(async { self.obs("touch") })
            }
            "advance" => {
                let tick = self.tick;
                self.rt.block_on(async move { tokio::time::advance(Duration::from_secs(tick)).await });
                self.rt.block_on(async { self.obs("advance") })
            }
            "find" => self.rt.block_on(async {
                let near = i["near"].as_bool().unwrap();
                let m = i["id"].as_u64().unwrap();
                let target = self.real(m, if near { 254 } else { (self.g - 1) as u8 });
                let t = self.t();
                let nearest = t.get_closest_node(&target);
                match t.find_node(&target) {
                    None => json!({"op": "find", "kind": if nearest.is_some() {"none?"} else {"none"}, "ids": []}),
                    Some(Nodes::Exact(n)) => {
                        let ok = n.id == target && self.t().iter_nodes().any(|m| m.id == n.id && m.addr == n.addr);
                        json!({"op": "find", "kind": if ok {"exact"} else {"wrong"}, "ids": [m]})
                    }
                    Some(Nodes::Closest(v)) => {
                        let first = v.first().map(|n| n.id) == nearest.map(|n| n.id);
                        json!({"op": "find", "kind": if first {"closest"} else {"nearest differs"}, "ids": self.closest(&v, &target)})
                    }
                }
            }),
            "refresh" => self.rt.block_on(async {
                let t = self.t();
                let own = t.own_id().as_byte_ref();
                let (mut ranges, mut owns) = (vec![], 0);
                let mut distinct = std::collections::BTreeSet::new();
                for _ in 0..6 {
                    ranges.clear();
                    owns = 0;
                    for id in t.iter_over_ids_within_fillable_buckets() {
                        let d: Vec<u8> = id.as_byte_ref().iter().zip(own).map(|(a, b)| a ^ b).collect();
                        match (0..160).find(|b| d[b / 8] & (0x80 >> (b % 8)) != 0) {
                            None => owns += 1,
                            Some(b) => ranges.push(b as i64),
                        }
                        distinct.insert(id.as_byte_ref().to_vec());
                    }
                }
                ranges.sort();
                if distinct.len() < ranges.len() * 5 {
                    ranges.push(-1); // the ids asked for are supposed to be random
                }
                json!({"op": "refresh", "ranges": ranges, "own": owns})
            }),
            "save" => {
                self.store();
                self.saved_id = Some(*self.t().own_id());
                json!({"op": "save"})
            }
            "load" => {
                self.table = Some(self.rt.block_on(RoutingTable::new()));
                let same = self.saved_id == Some(*self.t().own_id());
                self.saved_id = if same { self.saved_id } else { None };
                let o = self.rt.block_on(async { self.obs("load") });
                json!({"op": "load", "same": same, "ids": o["ids"], "good": o["good"], "moved": o["moved"]})
            }
            "damage" => {
                self.damage(i["how"].as_u64().unwrap());
                self.saved_id = None;
                json!({"op": "damage"})
            }
            "crash" => {
                self.crash(i["at"].as_u64().unwrap(), i["how"].as_str().unwrap_or("kill"));
                // old or new content: the load that follows tells by the nodes, the id must be one of ours
                let own = *self.t().own_id();
                self.saved_id = Some(own);
                json!({"op": "crash"})
            }
            _ => bad("op"),
        }
    }
}
