//! Processes, terminals and shared memory for histories that must start from an untouched process.
//! (The registry crates usable offline do not include libc, hence the declarations.)
use crate::report::Report;
use std::ffi::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn posix_openpt(flags: c_int) -> c_int;
    fn grantpt(fd: c_int) -> c_int;
    fn unlockpt(fd: c_int) -> c_int;
    fn ptsname_r(fd: c_int, buf: *mut c_char, len: usize) -> c_int;
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn isatty(fd: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
    fn sched_getaffinity(pid: c_int, len: usize, mask: *mut u64) -> c_int;
    fn sched_setaffinity(pid: c_int, len: usize, mask: *const u64) -> c_int;
}

const O_RDWR: c_int = 2;
const O_NOCTTY: c_int = 0o400;

/// ENGINE: errors make run.py report that the check could not be run
pub fn engine(what: &str) -> ! {
    eprintln!("ENGINE: {what}: {}", std::io::Error::last_os_error());
    std::process::exit(77)
}

/// Runs `f` in a forked copy of this process and waits; Err describes an abnormal end.
/// `limit`: seconds after which the child is ended.
pub fn in_child(limit: u32, f: impl FnOnce()) -> Result<(), String> {
    // SAFETY: the callers are single-threaded
    unsafe {
        let pid = fork();
        if pid < 0 {
            engine("fork");
        }
        if pid == 0 {
            alarm(limit);
            let code = match crate::report::guarded(f) {
                Ok(()) => 0,
                Err(e) => {
                    if e.starts_with("ENGINE") {
                        77
                    } else {
                        log(|l| l.violation(&format!("panic: {e}"), || format!("a history panicked: {e}")));
                        0
                    }
                }
            };
            _exit(code);
        }
        wait(pid)
    }
}

fn wait(pid: c_int) -> Result<(), String> {
    let mut st = 0;
    // SAFETY: plain waitpid
    if unsafe { waitpid(pid, &mut st, 0) } != pid {
        engine("waitpid");
    }
    if st & 0x7f == 0 {
        match st >> 8 & 0xff {
            0 => Ok(()),
            77 => engine("child"),
            n => Err(format!("exits with {n}")),
        }
    } else if st & 0x7f == 14 {
        Err("does not terminate".into())
    } else {
        Err(format!("dies of signal {}", st & 0x7f))
    }
}

pub fn is_tty(fd: i32) -> bool {
    // SAFETY: plain isatty
    unsafe { isatty(fd) == 1 }
}

/// One terminal and one pipe, to be put on the standard streams.
pub struct Ttys {
    tty: c_int,
    pipe: c_int,
    _master: c_int,
}

impl Ttys {
    pub fn new() -> Ttys {
        // SAFETY: plain C calls on valid buffers
        unsafe {
            let m = posix_openpt(O_RDWR | O_NOCTTY);
            if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 {
                engine("posix_openpt");
            }
            let mut name = [0 as c_char; 128];
            if ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
                engine("ptsname_r");
            }
            let tty = open(name.as_ptr(), O_RDWR | O_NOCTTY);
            if tty < 0 || !is_tty(tty) {
                engine("open pts");
            }
            let mut p = [0; 2];
            if pipe(p.as_mut_ptr()) != 0 {
                engine("pipe");
            }
            Ttys { tty, pipe: p[1], _master: m }
        }
    }
    /// bits 0..3: stdin, stdout, stderr are terminals
    pub fn place(&self, mask: u8) {
        for fd in 0..3 {
            let src = if mask & 1 << fd != 0 { self.tty } else { self.pipe };
            // SAFETY: plain dup2
            if unsafe { dup2(src, fd) } != fd {
                engine("dup2");
            }
        }
    }
}
impl Default for Ttys {
    fn default() -> Self {
        Self::new()
    }
}

const TEXT: usize = 1 << 20;
const BITS: usize = 1 << 12;

/// What the processes of one worker found out; lives in shared memory.
pub struct Log {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    outcomes: [AtomicU64; BITS],
    len: AtomicUsize,
    dropped: AtomicU64,
    text: [std::cell::UnsafeCell<u8>; TEXT],
}
// SAFETY: the processes of one worker run one at a time
unsafe impl Sync for Log {}

static mut LOG: *const Log = std::ptr::null();

pub fn log(f: impl FnOnce(&Log)) {
    // SAFETY: set before the first fork, never changed in a process that uses it
    unsafe {
        if !LOG.is_null() {
            f(&*LOG)
        }
    }
}

/// zero-filled memory shared with the processes forked later
pub fn shared<T>() -> *mut T {
    // SAFETY: anonymous shared mapping, zero-filled
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        if p as isize == -1 {
            engine("mmap");
        }
        p.cast()
    }
}

impl Log {
    fn push(&self, s: &str) -> bool {
        let at = self.len.load(SeqCst);
        if at + s.len() > TEXT {
            return false;
        }
        for (i, b) in s.bytes().enumerate() {
            // SAFETY: in bounds, one writer at a time
            unsafe { *self.text[at + i].get() = b }
        }
        self.len.store(at + s.len(), SeqCst);
        true
    }
    fn text(&self) -> String {
        let n = self.len.load(SeqCst);
        // SAFETY: in bounds, no writer left
        let v: Vec<u8> = self.text[..n].iter().map(|b| unsafe { *b.get() }).collect();
        String::from_utf8_lossy(&v).into_owned()
    }
    pub fn violation(&self, key: &str, detail: impl FnOnce() -> String) {
        if self.dropped.load(Relaxed) > 0 || !self.push(&format!("{key}\x1f{}\x1e", detail())) {
            self.dropped.fetch_add(1, Relaxed);
        }
    }
    pub fn outcome<T: std::hash::Hash + ?Sized>(&self, t: &T) {
        let h = crate::report::hash(t) as usize;
        self.outcomes[h / 64 % BITS].fetch_or(1 << (h % 64), Relaxed);
    }
}

static WORKER: AtomicUsize = AtomicUsize::new(0);

/// Confines this process and its children to one processor, a different one for each worker (handing a baton
/// from thread to thread is much cheaper there).
pub fn pin() {
    let mut mask = [0u64; 16];
    // SAFETY: plain calls on a buffer of the stated size
    unsafe {
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
        if !cpus.is_empty() {
            let c = cpus[WORKER.load(Relaxed) % cpus.len()];
            mask = [0; 16];
            mask[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, mask.as_ptr());
        }
    }
}

/// Runs `n` jobs in worker processes, each job in a fresh child of a process that has done nothing else.
pub fn processes(n: usize, limit: u32, describe: impl Fn(usize) -> String, job: impl Fn(usize)) -> Report {
    let workers = std::thread::available_parallelism().map_or(4, |x| x.get()).min(n.max(1));
    let next: *mut AtomicUsize = shared();
    let logs: Vec<*mut Log> = (0..workers).map(|_| shared()).collect();
    let mut pids = vec![];
    let start = std::time::Instant::now();
    let stop = std::env::var_os("MC_STOP").is_some();
    // SAFETY: alive to the end
    let some = || logs.iter().any(|l| unsafe { (**l).len.load(SeqCst) } > 0);
    let left_out: *mut AtomicUsize = shared();
    for (w, l) in logs.iter().enumerate() {
        // SAFETY: single-threaded here
        let pid = unsafe { fork() };
        if pid < 0 {
            engine("fork");
        }
        if pid == 0 {
            // SAFETY: single-threaded, the mappings are alive
            unsafe {
                LOG = *l;
                WORKER.store(w, Relaxed);
                loop {
                    let i = (*next).fetch_add(1, SeqCst);
                    if i >= n {
                        _exit(0);
                    }
                    // (violations that were not known before, and a long time: enough)
                    if stop && start.elapsed().as_secs() > 60 && some() {
                        (*left_out).fetch_add(1, SeqCst);
                        _exit(0);
                    }
                    if let Err(e) = in_child(limit, || job(i)) {
                        log(|l| l.violation(&format!("process {e}"), || describe(i)));
                    }
                }
            }
        }
        pids.push(pid);
    }
    for p in pids {
        if let Err(e) = wait(p) {
            engine(&format!("worker {e}"));
        }
    }
    let mut r = Report::default();
    // SAFETY: the workers have ended
    r.capped = unsafe { (*left_out).load(SeqCst) } > 0;
    let mut seen = [0u64; BITS];
    for l in logs {
        // SAFETY: the workers have ended
        let l = unsafe { &*l };
        r.states += l.states.load(SeqCst);
        r.transitions += l.transitions.load(SeqCst);
        r.traces += l.traces.load(SeqCst);
        for (a, b) in seen.iter_mut().zip(&l.outcomes) {
            *a |= b.load(SeqCst);
        }
        for v in l.text().split('\x1e').filter(|v| !v.is_empty()) {
            let (k, d) = v.split_once('\x1f').unwrap_or((v, ""));
            r.violation(k.to_string(), || d.to_string());
        }
    }
    for (i, w) in seen.iter().enumerate() {
        for b in 0..64 {
            if w >> b & 1 == 1 {
                r.outcome(&(i, b));
            }
        }
    }
    r
}
