//! Child processes: every run gets a pristine one.
use crate::exec::{self, RunResult};
use simlib::session::Session;
use simrt::hooks;
use std::sync::atomic::{AtomicU32, Ordering};

pub const BUF: usize = 24 << 20;

/// Memory shared between this process and its children.
pub struct Runner {
    buf: *mut u8,
    pub edges: *mut u8,
    pub runs: u64,
}

static mut OUT: *mut u8 = std::ptr::null_mut();

pub fn shared_map(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

fn send(r: &RunResult) {
    let bytes = serde_json::to_vec(r).unwrap_or_default();
    unsafe {
        let bytes = if bytes.len() + 16 > BUF { b"{}".to_vec() } else { bytes };
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), OUT.add(8), bytes.len());
        *(OUT as *mut u32) = bytes.len() as u32;
        (*(OUT.add(4) as *const AtomicU32)).store(1, Ordering::Release);
    }
}

impl Runner {
    pub fn new() -> Runner {
        Runner { buf: shared_map(BUF), edges: shared_map(hooks::MAX_EDGES), runs: 0 }
    }

    /// Err: what went wrong with the process itself.
    pub fn run(&mut self, s: &Session) -> Result<RunResult, String> {
        self.runs += 1;
        unsafe {
            *(self.buf as *mut u64) = 0;
            OUT = self.buf;
            hooks::EDGE_HITS = self.edges;
            let pid = libc::fork();
            if pid < 0 {
                return Err("harness: fork failed".into());
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(300);
                exec::child(s, send);
            }
            let stuck = watch(pid);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {
                if *libc::__errno_location() != libc::EINTR {
                    return Err("harness: waitpid failed".into());
                }
            }
            if (*(self.buf.add(4) as *const AtomicU32)).load(Ordering::Acquire) != 1 {
                if libc::WIFSIGNALED(st) {
                    let sig = libc::WTERMSIG(st);
                    if stuck {
                        return Err("hang: a thread waits in a way the simulator does not see, and nothing runs any more".into());
                    }
                    if sig == libc::SIGKILL {
                        return Err("harness: killed (out of memory?)".into());
                    }
                    if sig == libc::SIGALRM {
                        return Err("hang: no verdict in 300 s of real time".into());
                    }
                    return Err(format!("crash: the process died of signal {sig}"));
                }
                return Err(format!("crash: the process exited with {} in the middle of a parse", libc::WEXITSTATUS(st)));
            }
            let n = *(self.buf as *const u32) as usize;
            let b = std::slice::from_raw_parts(self.buf.add(8), n);
            serde_json::from_slice(b).map_err(|e| format!("harness: bad result: {e}"))
        }
    }
}

/// Wait until the process ends. One that has not used the processor for 30 s is killed.
fn watch(pid: libc::pid_t) -> bool {
    let used = || -> Option<u64> {
        let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        let f: Vec<&str> = t[t.rfind(')')? + 1..].split_whitespace().collect();
        (f[0] == "S").then(|| Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))?
    };
    unsafe {
        let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        if fd < 0 {
            return false;
        }
        let (mut idle, mut last, mut stuck) = (0, None, false);
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, 5000) != 0 {
                break;
            }
            let now = used();
            idle = if now.is_some() && now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= 6 {
                stuck = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        libc::close(fd);
        stuck
    }
}

/// A run's verdict including what happened to the process.
pub fn outcome(r: Result<RunResult, String>) -> RunResult {
    match r {
        Ok(x) => x,
        Err(e) => {
            let (class, detail) = e.split_once(": ").unwrap_or(("crash", &e));
            RunResult { bad: vec![(class.to_string(), detail.to_string())], ..Default::default() }
        }
    }
}
