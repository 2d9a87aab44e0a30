//! The DHT's UDP port is fixed: every harness process that opens it needs a network of its own.
use std::fs::File;
use std::os::fd::AsRawFd;

fn lo_up() -> bool {
    unsafe {
        let s = libc::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        if s < 0 {
            return false;
        }
        let mut r: libc::ifreq = std::mem::zeroed();
        r.ifr_name[0] = b'l' as libc::c_char;
        r.ifr_name[1] = b'o' as libc::c_char;
        r.ifr_ifru.ifru_flags = (libc::IFF_UP | libc::IFF_RUNNING) as libc::c_short;
        let ok = libc::ioctl(s, libc::SIOCSIFFLAGS as _, &r) == 0;
        libc::close(s);
        ok
    }
}

fn new_net() -> bool {
    let (uid, gid) = unsafe { (libc::getuid(), libc::getgid()) };
    if unsafe { libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWNET) } != 0 {
        return false;
    }
    let _ = std::fs::write("/proc/self/setgroups", "deny");
    let _ = std::fs::write("/proc/self/uid_map", format!("{uid} {uid} 1"));
    let _ = std::fs::write("/proc/self/gid_map", format!("{gid} {gid} 1"));
    lo_up()
}

/// A loopback network of this process alone, or else the machine's one, one process at a time.
pub fn enter() {
    // a child finds out whether it works, so that a failure half way leaves nothing behind
    let works = unsafe {
        match libc::fork() {
            0 => libc::_exit(if new_net() { 0 } else { 1 }),
            -1 => false,
            pid => {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0) == pid && st == 0
            }
        }
    };
    if works && new_net() {
        return;
    }
    let lock = File::create(std::env::temp_dir().join("nargun-conf-net.lock")).expect("lock file");
    unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX) };
    std::mem::forget(lock);
}
