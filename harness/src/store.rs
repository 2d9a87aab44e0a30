//! Piece storage (C01, C02). Model unit u is byte offset `map(u)` of the torrent; the byte at a
//! torrent offset in version v is `byte(offset, v)`, so misplaced data is recognised everywhere.
use crate::comp::{bad, ints, Comp};
use nargun::verif::connection::pending_pieces::FinishedPiece;
use nargun::verif::metainfo::{File, Info, Mode};
use nargun::verif::{Fs, FS, ID};
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom};
use std::path::PathBuf;
use tokio::runtime::Runtime;

const BLOCK: usize = 1 << 14;

pub struct StoreComp {
    rt: Runtime,
    fs: Option<FS>,
    map: String,
    /// bytes of the first file before unit 0 (whole pieces that nobody touches)
    far: usize,
    lens: Vec<usize>,
    pl: usize,
    single: bool,
    versions: Vec<u8>,
    fd_limit: libc::rlimit,
    nofds: bool,
}

fn byte(o: usize, v: u8) -> u8 {
    if v == 0 {
        return 0;
    }
    let h = (o as u64).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (1 + ((h >> 40) + v as u64 * 37) % 255) as u8
}

fn limit(what: u32, soft: libc::rlim_t) -> libc::rlimit {
    unsafe {
        let mut r = std::mem::zeroed();
        libc::getrlimit(what as _, &mut r);
        let old = r;
        r.rlim_cur = soft.min(r.rlim_max);
        if libc::setrlimit(what as _, &r) != 0 {
            bad("setrlimit");
        }
        old
    }
}

impl StoreComp {
    pub fn new() -> Self {
        unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
        let mut fd_limit = unsafe { std::mem::zeroed() };
        unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut fd_limit) };
        Self {
            rt: tokio::runtime::Builder::new_current_thread()
                .enable_all()
                .max_blocking_threads(1)
                .build()
                .unwrap(),
            fs: None,
            map: String::new(),
            far: 0,
            lens: vec![],
            pl: 1,
            single: false,
            versions: vec![],
            fd_limit,
            nofds: false,
        }
    }

    fn base() -> PathBuf {
        PathBuf::from(std::env::var("CONF_SCRATCH").unwrap()).join("base")
    }

    fn off(&self, u: usize) -> usize {
        match self.map.as_str() {
            "edgy" => u / 4 * BLOCK + [0, 1, 8191, 16383][u % 4],
            "quarter" => u * BLOCK / 4,
            "block" => u * BLOCK,
            _ => bad("map"),
        }
    }

    fn skip(&self) -> usize {
        self.far / self.off(self.pl)
    }

    fn total(&self) -> usize {
        self.lens.iter().sum()
    }

    fn path_of(k: usize) -> Vec<String> {
        // equal names in different directories, and paths that differ by where the separator is
        let j = k / 6;
        match k % 6 {
            0 => vec![format!("f{j}")],
            1 => vec!["d".to_string(), format!("f{j}")],
            2 => vec!["d".to_string(), format!("e{j}"), format!("f{j}")],
            3 => vec![format!("e{j}"), format!("f{j}")],
            4 => vec![format!("de{j}"), format!("f{j}")],
            _ => vec!["d".to_string(), format!("F{j}")],
        }
    }

    fn open(&mut self) {
        let piece_length = self.off(self.pl);
        self.far = self.far.div_ceil(piece_length) * piece_length;
        let n = (self.far + self.off(self.total())).div_ceil(piece_length);
        let mut start = 0;
        let files: Vec<File> = self
            .lens
            .iter()
            .enumerate()
            .map(|(k, n)| {
                let far = if k == 0 { self.far } else { 0 };
                let length = (far + self.off(start + n) - self.off(start)) as u64;
                start += n;
                File { path: Self::path_of(k), length }
            })
            .collect();
        let info = Info {
            name: "torrent".to_string(),
            piece_length: piece_length as u64,
            pieces: vec![ID::new([0; 20]); n],
            mode: if self.single { Mode::Single { length: files[0].length } } else { Mode::Multi { files } },
        };
        let base = Self::base().to_str().unwrap().to_string();
        self.fs = Some(self.rt.block_on(FS::new(&base, info)));
    }

    /// version of the model units `from..from+n` as found in `data` (which begins at unit `from`)
    fn classify(&self, data: &[u8], from: usize, n: usize) -> Vec<i64> {
        let begin = self.off(from);
        (from..from + n)
            .map(|u| {
                let (a, b) = (self.off(u), self.off(u + 1));
                std::iter::once(&0)
                    .chain(&self.versions)
                    .find(|v| (a..b).all(|o| data.get(o - begin).copied().unwrap_or(0) == byte(o, **v)))
                    .map(|v| *v as i64)
                    .unwrap_or(-1)
            })
            .collect()
    }

    fn files(&self) -> Value {
        if self.nofds {
            limit(libc::RLIMIT_NOFILE, self.fd_limit.rlim_cur);
        }
        let mut res = vec![];
        let mut start = 0;
        for (k, n) in self.lens.iter().enumerate() {
            let mut path = Self::base().join("torrent");
            if !self.single {
                path.extend(Self::path_of(k));
            }
            let mut data = vec![];
            if let Ok(mut f) = std::fs::File::open(path) {
                f.seek(SeekFrom::Start(if k == 0 { self.far as u64 } else { 0 })).unwrap();
                f.read_to_end(&mut data).unwrap();
            }
            let mut v = self.classify(&data, start, *n);
            if data.len() > self.off(start + n) - self.off(start) {
                v.push(-7);
            }
            res.push(v);
            start += n;
        }
        if self.nofds {
            self.take_fds();
        }
        json!(res)
    }

    fn take_fds(&self) {
        let lowest = unsafe { libc::dup(0) };
        unsafe { libc::close(lowest) };
        limit(libc::RLIMIT_NOFILE, lowest as _);
    }

    fn handles(&self) -> &'static str {
        if self.nofds {
            return "ok";
        }
        let base = Self::base();
        let n = std::fs::read_dir("/proc/self/fd")
            .unwrap()
            .filter_map(|e| std::fs::read_link(e.unwrap().path()).ok())
            .filter(|p| p.starts_with(&base))
            .count();
        if n <= 16 { "ok" } else { "leak" }
    }

    fn blocks(&self, p: usize, v: u8, shape: &str) -> Vec<Vec<u8>> {
        let pl = self.off(self.pl);
        let start = p * pl;
        let len = match self.off(self.total()).saturating_sub(start) {
            0 => pl,
            n => n.min(pl),
        };
        let data: Vec<u8> = (start..start + len).map(|o| byte(o, v)).collect();
        let mut blocks: Vec<Vec<u8>> = data.chunks(BLOCK).map(|c| c.to_vec()).collect();
        match shape {
            "exact" => (),
            "padded" => {
                blocks.last_mut().unwrap().resize(BLOCK, 0);
                blocks.push(vec![0; BLOCK]);
            }
            "short" => {
                blocks.last_mut().unwrap().pop();
            }
            "missing" => {
                blocks.pop();
            }
            "uneven" => {
                let cut = if len > 10000 { 10000 } else { len / 2 };
                blocks = vec![data[..cut].to_vec(), data[cut..].to_vec()];
            }
            _ => bad("shape"),
        }
        blocks
    }

    fn lift(&mut self) {
        limit(libc::RLIMIT_FSIZE as u32, libc::RLIM_INFINITY);
        limit(libc::RLIMIT_NOFILE, self.fd_limit.rlim_cur);
        self.nofds = false;
    }
}

impl Comp for StoreComp {
    fn reset(&mut self, cfg: &Value) -> Value {
        self.lift();
        self.fs = None;
        self.map = cfg["map"].as_str().unwrap().to_string();
        self.far = cfg["far"].as_u64().unwrap_or(0) as usize;
        self.lens.clear();
        self.versions.clear();
        let base = Self::base();
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(&base).unwrap();
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let op = i["op"].as_str().unwrap();
        match op {
            "open" => {
                self.lens = ints(&i["lay"]["lens"]).iter().map(|x| *x as usize).collect();
                self.pl = i["lay"]["pl"].as_u64().unwrap() as usize;
                self.single = i["lay"]["single"].as_bool().unwrap();
                self.open();
                json!({"op": op, "files": self.files()})
            }
            "reopen" => {
                self.fs = None;
                self.open();
                json!({"op": op, "files": self.files()})
            }
            "write" => {
                let v = i["v"].as_u64().unwrap() as u8;
                if !self.versions.contains(&v) {
                    self.versions.push(v);
                }
                let p = i["p"].as_u64().unwrap() as usize;
                let piece = FinishedPiece { idx: p + self.skip(), data: self.blocks(p, v, i["shape"].as_str().unwrap()) };
                let res = self.rt.block_on(self.fs.as_mut().unwrap().write_piece(piece));
                json!({"op": op, "res": if res.is_ok() { "ok" } else { "err" }, "files": self.files(), "handles": self.handles()})
            }
            "read" => {
                let (p, at, n) = (i["p"].as_u64().unwrap() as usize, i["at"].as_u64().unwrap() as usize, i["n"].as_u64().unwrap() as usize);
                let from = p * self.pl + at;
                let begin = self.off(from) - p * self.off(self.pl);
                let length = self.off(from + n) - self.off(from);
                let room = i["room"].as_bool().unwrap();
                let mut buf = vec![0xee; if room { length + 7 } else { length - 1 }];
                let idx = p + self.skip();
                let res = self.rt.block_on(self.fs.as_mut().unwrap().read_block(idx, begin, length, &mut buf));
                let mut verdict = if res.is_ok() { "ok" } else { "err" };
                if buf.len() > length && buf[length..].iter().any(|b| *b != 0xee) {
                    verdict = "spill";
                }
                let data = if res.is_ok() && room { self.classify(&buf[..length], from, n) } else { vec![] };
                json!({"op": op, "res": verdict, "data": data, "files": self.files(), "handles": self.handles()})
            }
            "huge" => {
                let mut buf = vec![0; 64];
                let fs = self.fs.as_mut().unwrap();
                let ok = match i["kind"].as_str().unwrap() {
                    "piece" => self.rt.block_on(fs.read_block(usize::MAX / 2, 0, 1, &mut buf)).is_ok(),
                    "begin" => self.rt.block_on(fs.read_block(0, usize::MAX, 1, &mut buf)).is_ok(),
                    "length" => self.rt.block_on(fs.read_block(0, 0, usize::MAX, &mut buf)).is_ok(),
                    "write" => {
                        let piece = FinishedPiece { idx: usize::MAX, data: vec![vec![1; BLOCK]] };
                        self.rt.block_on(fs.write_piece(piece)).is_ok()
                    }
                    _ => bad("kind"),
                };
                json!({"op": op, "res": if ok { "ok" } else { "err" }, "files": self.files()})
            }
            "limit" => {
                let at = i["at"].as_u64().unwrap() as usize;
                let soft = if at >= 1000 { libc::RLIM_INFINITY } else { self.off(at) as libc::rlim_t };
                limit(libc::RLIMIT_FSIZE as u32, soft);
                json!({"op": op})
            }
            "nofds" => {
                let on = i["on"].as_bool().unwrap();
                limit(libc::RLIMIT_NOFILE, self.fd_limit.rlim_cur);
                self.nofds = on;
                if on {
                    self.take_fds();
                }
                json!({"op": op})
            }
            _ => bad("op"),
        }
    }
}
