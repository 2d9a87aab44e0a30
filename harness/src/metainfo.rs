//! Loading torrent files (C03, C04): bytes in, fields as bytes and digits out.
use crate::comp::{bad, ints, Comp};
use nargun::verif::connection::pending_pieces::FinishedPiece;
use nargun::verif::metainfo::{Mode, Torrent, TrackerAddr};
use nargun::verif::{Fs, FS};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub struct MetainfoComp;

fn digits(n: u64) -> Vec<u8> {
    n.to_string().bytes().map(|c| c - b'0').collect()
}

fn load(buf: &[u8]) -> Value {
    // the way the client does it
    let path = PathBuf::from(std::env::var("CONF_SCRATCH").unwrap()).join("x.torrent");
    std::fs::write(&path, buf).unwrap();
    let Ok(t) = Torrent::from_file(&path) else {
        return json!({"op": "load", "res": "err"});
    };

    let hash = t.info_hash.as_byte_ref();
    let mut span = vec![];
    'found: for a in (0..buf.len()).filter(|k| buf[*k] == b'd') {
        for z in (a + 2..=buf.len()).filter(|k| buf[*k - 1] == b'e') {
            if openssl::sha::sha1(&buf[a..z]).as_slice() == hash {
                span = vec![a, z];
                break 'found;
            }
        }
    }
    let mut announce: Vec<Vec<u8>> = t
        .announce
        .iter()
        .map(|a| match a {
            TrackerAddr::Http(s) if s.starts_with("http") => s.clone().into_bytes(),
            TrackerAddr::Udp(s) if s.starts_with("udp") => s.clone().into_bytes(),
            TrackerAddr::Http(s) | TrackerAddr::Udp(s) => format!("?{s}").into_bytes(),
        })
        .collect();
    announce.sort();
    let pieces: Vec<u8> = t.info.pieces.iter().flat_map(|p| p.as_byte_ref().to_vec()).collect();
    let (mode, lengths, paths) = match &t.info.mode {
        Mode::Single { length } => ("single", vec![digits(*length)], vec![]),
        Mode::Multi { files } => (
            "multi",
            files.iter().map(|f| digits(f.length)).collect(),
            files.iter().map(|f| f.path.iter().map(|c| c.as_bytes().to_vec()).collect::<Vec<_>>()).collect(),
        ),
    };
    if t.count_pieces() != t.info.pieces.len() {
        return json!({"op": "load", "res": "count_pieces"});
    }
    json!({"op": "load", "res": "ok", "span": span, "announce": announce, "name": t.info.name.as_bytes(),
           "piece_length": digits(t.info.piece_length), "pieces": pieces, "mode": mode, "lengths": lengths, "paths": paths})
}

/// Nothing a hostile file makes the client do may reach the real system: be nobody.
fn be_nobody(scratch: &str) {
    let c = std::ffi::CString::new(scratch).unwrap();
    unsafe {
        if libc::getuid() == 0 {
            let ok = libc::chown(c.as_ptr(), 65534, 65534) == 0
                && libc::setgroups(0, std::ptr::null()) == 0
                && libc::setgid(65534) == 0
                && libc::setuid(65534) == 0;
            if !ok {
                bad("cannot become an unprivileged user");
            }
        }
    }
}

fn walk(dir: &Path, files: &mut Vec<(PathBuf, u64)>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let meta = e.metadata().unwrap();
        if meta.is_dir() {
            files.push((e.path(), 0));
            walk(&e.path(), files);
        } else {
            files.push((e.path(), meta.len()));
        }
    }
}

/// Loads the file, stores every piece, and tells where bytes went.
fn place(buf: &[u8]) -> Value {
    let Ok(t) = Torrent::from_buf(buf) else {
        return json!({"op": "place", "res": "err"});
    };
    let paths: Vec<Vec<String>> = match &t.info.mode {
        Mode::Single { .. } => vec![vec![]],
        Mode::Multi { files } => files.iter().map(|f| f.path.clone()).collect(),
    };
    let conflict = paths.iter().enumerate().any(|(a, p)| paths.iter().enumerate().any(|(b, q)| a != b && q.starts_with(p)));
    if conflict || t.info.length() > 1 << 20 {
        return json!({"op": "place", "res": "skip"});
    }
    let root = PathBuf::from(std::env::var("CONF_SCRATCH").unwrap()).join("root");
    let _ = std::fs::remove_dir_all(&root);
    let base = root.join("p/q/r/s/dl");
    std::fs::create_dir_all(&base).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(1).build().unwrap();
    let (total, pl) = (t.info.length() as usize, t.info.piece_length as usize);
    let res: Result<(), String> = rt.block_on(async {
        let mut fs = FS::new(base.to_str().unwrap(), t.info).await;
        for idx in 0..total.div_ceil(pl) {
            let n = pl.min(total - idx * pl);
            let data = vec![1u8; n].chunks(1 << 14).map(|c| c.to_vec()).collect();
            fs.write_piece(FinishedPiece { idx, data }).await.map_err(|e| e.to_string())?;
        }
        Ok(())
    });
    let mut seen = vec![];
    walk(&root, &mut seen);
    let inside: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = seen
            .iter()
            .filter(|(p, n)| p.starts_with(&base) && *n > 0)
            .map(|(p, _)| p.strip_prefix(&base).unwrap().as_os_str().as_encoded_bytes().to_vec())
            .collect();
        v.sort();
        v
    };
    let stray = seen.iter().filter(|(p, _)| !p.starts_with(&base) && !base.starts_with(p)).count();
    json!({"op": "place", "res": if res.is_ok() { "ok" } else { "failed" }, "files": inside, "stray": stray})
}

impl Comp for MetainfoComp {
    fn reset(&mut self, _: &Value) -> Value {
        be_nobody(&std::env::var("CONF_SCRATCH").unwrap());
        json!({})
    }

    fn step(&mut self, i: &Value) -> Value {
        let buf: Vec<u8> = ints(&i["b"]).iter().map(|x| *x as u8).collect();
        match i["op"].as_str().unwrap() {
            "load" => load(&buf),
            "place" => place(&buf),
            _ => bad("op"),
        }
    }
}
