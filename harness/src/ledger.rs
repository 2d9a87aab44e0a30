//! Ledger of pieces being downloaded (C09).
use crate::comp::{bad, concurrent, ints, scripts, Comp};
use crate::small::peer_of;
use nargun::verif::connection::downloader::BlockAddress;
use nargun::verif::connection::pending_pieces::{AddBlockRes, PendingPieces};
use serde_json::{json, Value};
use std::time::Duration;

const BLOCK: usize = 16384;

/// The bytes of version `c` of block (p, b).
pub fn content(p: u64, b: u64, c: u64, len: usize) -> Vec<u8> {
    let base = p.wrapping_mul(7) ^ b.wrapping_mul(13) ^ c.wrapping_mul(101);
    (0..len as u64).map(|k| (base.wrapping_add(k).wrapping_add(k >> 8)) as u8).collect()
}

pub fn version(p: u64, b: u64, data: &[u8], versions: u64) -> i64 {
    (0..versions)
        .find(|c| content(p, b, *c, data.len()) == data)
        .map(|c| c as i64)
        .unwrap_or(-1)
}

pub struct LedgerComp {
    rt: tokio::runtime::Runtime,
    base: PendingPieces,
    copies: Vec<PendingPieces>,
    tick: u64,
}

fn copies(base: &PendingPieces, n: usize) -> Vec<PendingPieces> {
    (0..n)
        .map(|q| {
            let mut c = base.clone();
            c.set_owner_peer(peer_of(q as i64));
            c
        })
        .collect()
}

fn call(all: &mut Vec<PendingPieces>, i: &Value) -> Value {
    let n = |k: &str| i[k].as_u64().unwrap_or(0);
    let q = n("q") as usize % all.len();
    match i["op"].as_str().unwrap() {
        "add" => json!({"op": "add", "ok": all[q].add_piece(n("p") as usize).is_ok()}),
        "take" => {
            // the caller's buffer holds what it is waiting for already; what is left is its budget
            let room = n("room") as usize;
            let used = if n("used") > 0 { n("used") as usize } else { 16usize.saturating_sub(room) };
            let mut buf = Vec::with_capacity(room + used);
            if buf.capacity() != room + used {
                bad("capacity");
            }
            for k in 0..used {
                buf.push(BlockAddress::new(1000 + k, k, 1));
            }
            let ps = ints(&i["ps"]).into_iter().map(|x| x as usize).collect();
            all[q].take_not_good_blocks(ps, &mut buf);
            let mut got: Vec<(i64, i64, i64)> = buf
                .iter()
                .skip(used)
                .map(|a| (a.piece_idx as i64, a.block_idx as i64, a.length as i64))
                .collect();
            if buf.iter().take(used).enumerate().any(|(k, a)| a.piece_idx != 1000 + k) {
                got.push((-1, -1, -1));
            }
            got.sort();
            json!({"op": "take", "got": got})
        }
        "data" => {
            let (p, b) = (n("p"), n("b"));
            match all[q].add_block_data(p as usize, b as usize, content(p, b, n("c"), n("len") as usize)) {
                AddBlockRes::Failed => json!({"op": "data", "res": "failed", "blocks": []}),
                AddBlockRes::Added => json!({"op": "data", "res": "added", "blocks": []}),
                AddBlockRes::AddedLast(f) => {
                    let mut blocks: Vec<(i64, i64)> = f
                        .data
                        .iter()
                        .enumerate()
                        .map(|(k, d)| (d.len() as i64, version(p, k as u64, d, 2)))
                        .collect();
                    if f.idx as u64 != p {
                        blocks.push((-1, f.idx as i64));
                    }
                    json!({"op": "data", "res": "last", "blocks": blocks})
                }
            }
        }
        "cancel" => {
            let other = all.len() - 1;
            all[other].cancel_pending(&peer_of(q as i64));
            json!({"op": "cancel"})
        }
        _ => bad("op"),
    }
}

impl LedgerComp {
    pub fn new() -> Self {
        let base = PendingPieces::new(BLOCK, BLOCK);
        Self {
            rt: tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .start_paused(true)
                .build()
                .unwrap(),
            copies: copies(&base, 3),
            base,
            tick: 8000,
        }
    }
}

impl Comp for LedgerComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        let n = |k: &str| cfg[k].as_u64().unwrap();
        self.base = PendingPieces::new(n("pl") as usize, n("total") as usize);
        self.copies = copies(&self.base, n("peers") as usize);
        self.tick = if cfg["ms"].is_null() { n("tick") * 1000 } else { n("ms") };
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        match i["op"].as_str().unwrap() {
            "conc" => {
                let (reps, prefix, threads) = scripts(i);
                let (pl, total, n) = (
                    i["cfg"]["pl"].as_u64().unwrap_or(BLOCK as u64) as usize,
                    i["cfg"]["total"].as_u64().unwrap_or(BLOCK as u64) as usize,
                    self.copies.len(),
                );
                concurrent(
                    reps,
                    &prefix,
                    &threads,
                    &mut |k| {
                        let base = PendingPieces::new(pl, total);
                        (0..k).map(|_| copies(&base, n)).collect()
                    },
                    call,
                )
            }
            "tick" => {
                let d = Duration::from_millis(self.tick);
                self.rt.block_on(async { tokio::time::advance(d).await });
                json!({"op": "tick"})
            }
            _ => {
                let all = &mut self.copies;
                self.rt.block_on(async { call(all, i) })
            }
        }
    }
}
