//! A stateless model checker for instrumented code.
//!
//! colorz and the thread bodies are compiled with ThreadSanitizer's instrumentation; this crate defines the
//! entry points.  One execution runs in one forked process on real threads that hold a baton: before each
//! atomic operation the thread publishes it and the scheduler picks which thread continues and, for a load,
//! which of the messages it may still read (release/acquire views, C++20 without load buffering; sequentially
//! consistent operations are modelled as strongly as fences allow).  Choices are a sequence of numbers; the
//! caller replays a prefix and enumerates the rest depth first.
//!
//! Uninstrumented code (std) runs between two such points without being interrupted; what it stores is noticed
//! and treated as synchronising, its futex calls are modelled.
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::*};

pub const MAX_STEPS: usize = 1500;
const LOCS: usize = 48;
const THREADS: usize = 6;
const SPIN: u32 = 6;
pub const VISITED: usize = 1 << 20;
pub const OUT: usize = 64;

// ---------------------------------------------------------------- shared with the exploring process

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Choice {
    pub n: u16,
    pub at: u16,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Step {
    pub tid: u8,
    pub kind: u8,
    pub order: u8,
    pub old: u8,
    pub addr: u64,
    pub val: u64,
}

pub const RUNNING: u32 = 0;
pub const COMPLETE: u32 = 1;
pub const PRUNED: u32 = 2;
pub const DEADLOCK: u32 = 3;
pub const ENDLESS: u32 = 4;
pub const RACE: u32 = 5;
pub const DIVERGED: u32 = 6;
/// a location turned out to be written: start over
pub const RESTART: u32 = 7;
const HOT: usize = 64;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub prefix: usize,
    pub len: usize,
    pub choices: [Choice; MAX_STEPS],
    pub steps: usize,
    pub trace: [Step; MAX_STEPS],
    pub out_len: usize,
    pub out: [u8; OUT],
    pub race: u64,
    /// number of distinct states in `visited`
    pub states: usize,
    pub full: bool,
    pub prune: bool,
    pub salt: u64,
    /// locations that some execution writes while threads run; loads of others return what was there from the start
    /// and need no scheduling point
    pub hot: [u64; HOT],
    pub hots: usize,
    pub visited: [u64; VISITED],
}

// ---------------------------------------------------------------- model of memory

#[derive(Clone, Copy)]
struct View {
    at: [u16; LOCS],
    clock: [u16; THREADS],
}
const BOTTOM: View = View { at: [0; LOCS], clock: [0; THREADS] };
impl View {
    fn join(&mut self, o: &View) {
        for (a, b) in self.at.iter_mut().zip(&o.at) {
            *a = (*a).max(*b);
        }
        for (a, b) in self.clock.iter_mut().zip(&o.clock) {
            *a = (*a).max(*b);
        }
    }
}

#[derive(Clone, Copy)]
struct Msg {
    val: u64,
    view: View,
}
struct Loc {
    addr: usize,
    size: u8,
    msgs: Vec<Msg>,
    /// counts the messages that changed the value
    changes: u32,
    /// what was known when uninstrumented code last stored here, and which threads use the location
    ext: Option<View>,
    users: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Start,
    Load,
    Store,
    Rmw,
    Fence,
    Wake,
    Wait,
    Done,
}
#[derive(Clone, Copy)]
struct Op {
    kind: Kind,
    addr: usize,
    size: u8,
    order: i32,
}

struct Thread {
    op: Op,
    view: View,
    /// view at the last release fence
    rel: View,
    /// what relaxed loads read, for the next acquire fence
    acq: View,
    hist: u64,
    /// consecutive reads of one message
    same: u32,
    same_addr: usize,
    same_val: u64,
    same_ts: usize,
    same_changes: u32,
    woken: bool,
}

struct Shadow {
    write: (u8, u16),
    reads: [u16; THREADS],
}

struct G {
    n: usize,
    /// the next thread to start
    starting: usize,
    active: bool,
    th: Vec<Thread>,
    locs: Vec<Loc>,
    sc: View,
    waiting: Vec<(usize, usize)>,
    shadow: HashMap<usize, Shadow>,
    steps: usize,
    lonely: u32,
    msg: usize,
    range: (usize, usize),
    sh: *mut Shared,
}

struct Cage(UnsafeCell<Option<G>>);
// SAFETY: only the holder of the baton looks inside
unsafe impl Sync for Cage {}
static STATE: Cage = Cage(UnsafeCell::new(None));
static BATON: [AtomicU32; THREADS] = [const { AtomicU32::new(0) }; THREADS];

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut G {
    // SAFETY: only the holder of the baton calls this; references do not outlive a call
    unsafe { (*STATE.0.get()).as_mut().unwrap() }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
    x ^= x >> 29;
    x.wrapping_mul(0xa076_1d64_78bd_642f) ^ x >> 31
}

// ---------------------------------------------------------------- system calls

extern "C" {
    fn _exit(code: i32) -> !;
    fn __errno_location() -> *mut i32;
    static __data_start: u8;
    static _end: u8;
}

unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn give(t: usize) {
    BATON[t].store(1, SeqCst);
    // SAFETY: futex wake on a live word
    unsafe { raw(202, BATON[t].as_ptr() as usize, 1 | 128, 1, 0, 0, 0) };
}
fn take(t: usize) {
    while BATON[t].swap(0, SeqCst) == 0 {
        // SAFETY: futex wait on a live word
        unsafe { raw(202, BATON[t].as_ptr() as usize, 128, 0, 0, 0, 0) };
    }
}

fn stop(status: u32) -> ! {
    // SAFETY: the mapping is alive
    unsafe {
        (*g().sh).status = status;
        _exit(0)
    }
}

/// std's futex calls go through libc's `syscall`
///
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let tid = TID.with(|t| t.get());
    if n == 202 && tid != usize::MAX && tid != 0 && g().active {
        match b & 127 {
            0 | 9 => {
                let again = (*(a as *const AtomicU32)).load(SeqCst) != c as u32;
                if !again {
                    g().waiting.push((a, tid));
                    g().th[tid].woken = false;
                    point(tid, Op { kind: Kind::Wait, addr: a, size: 4, order: 5 });
                }
                synchronise(tid);
                if again {
                    *__errno_location() = 11;
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                point(tid, Op { kind: Kind::Wake, addr: a, size: 4, order: 5 });
                let mut k = 0;
                let mut i = 0;
                while i < g().waiting.len() && k < (c as u32).min(i32::MAX as u32) {
                    if g().waiting[i].0 == a {
                        let (_, t) = g().waiting.remove(i);
                        g().th[t].woken = true;
                        k += 1;
                    } else {
                        i += 1;
                    }
                }
                return k as isize;
            }
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

fn everything() -> View {
    let mut v = g().sc;
    for t in &g().th {
        v.join(&t.view);
    }
    v
}

/// the thread knows everything any thread knows (after synchronisation inside std)
fn synchronise(tid: usize) {
    let v = everything();
    let t = &mut g().th[tid];
    t.view.join(&v);
    t.hist = mix(t.hist, 77);
    environment(tid);
}

// ---------------------------------------------------------------- scheduler

/// Identifies the state: what each thread did and read so far (hence where it is and what it holds), the messages
/// some thread can still read, and the views, relative to the oldest such message of each location.
fn fingerprint() -> u64 {
    let g = g();
    let mut base = [u16::MAX; LOCS];
    for t in &g.th[1..] {
        if t.op.kind != Kind::Done {
            for (b, a) in base.iter_mut().zip(&t.view.at) {
                *b = (*b).min(*a);
            }
        }
    }
    let races = g.shadow.values().any(|s| s.write.1 > 1);
    let locs = &g.locs;
    let view = |v: &View| {
        let mut x = 0u64;
        for (l, loc) in locs.iter().enumerate() {
            x = x.wrapping_add(mix(loc.addr as u64, v.at[l].saturating_sub(base[l]) as u64));
        }
        if races {
            for c in v.clock {
                x = mix(x, c as u64);
            }
        }
        x
    };
    // SAFETY: the mapping is alive
    let mut h = unsafe { (*g.sh).salt };
    for t in &g.th[1..] {
        h = mix(h, t.hist);
        h = mix(h, (t.op.kind as u64) << 56 ^ (t.op.order as u64) << 48 ^ t.op.addr as u64 ^ (t.woken as u64) << 60);
        if t.op.kind == Kind::Done {
            continue;
        }
        h = mix(h, view(&t.view));
        let mut acq = t.acq;
        acq.join(&t.view);
        h = mix(h, view(&acq));
        h = mix(h, view(&t.rel));
        if t.same > 1 {
            let l = locs.iter().position(|l| l.addr == t.same_addr);
            let (ts, now) = l.map_or((0, true), |l| (t.same_ts.saturating_sub(base[l] as usize), locs[l].changes == t.same_changes));
            h = mix(h, mix(t.same as u64 * 2 + now as u64, mix(t.same_addr as u64, ts as u64)));
        }
    }
    let mut x = 0u64;
    for (l, loc) in locs.iter().enumerate() {
        let mut y = mix(loc.addr as u64, loc.users as u64);
        for m in &loc.msgs[(base[l] as usize).min(loc.msgs.len() - 1)..] {
            y = mix(y, m.val);
            y = mix(y, view(&m.view));
        }
        if let Some(e) = &loc.ext {
            y = mix(y, view(e));
        }
        x = x.wrapping_add(y);
    }
    h = mix(h, x);
    for w in &g.waiting {
        h = mix(h, mix(w.0 as u64, w.1 as u64));
    }
    h = mix(h, view(&g.sc));
    if races {
        let mut x = 0u64;
        for (a, s) in &g.shadow {
            let mut y = mix(*a as u64, (s.write.0 as u64) << 32 | s.write.1 as u64);
            for r in s.reads {
                y = mix(y, r as u64);
            }
            x = x.wrapping_add(y);
        }
        h = mix(h, x);
    }
    mix(h, 1)
}

/// first visit?
fn visit(h: u64) -> bool {
    // SAFETY: the mapping is alive, one process at a time
    let sh = unsafe { &mut *g().sh };
    let h = h | 1;
    let mut i = (h >> 20) as usize % VISITED;
    loop {
        if sh.visited[i] == h {
            return false;
        }
        if sh.visited[i] == 0 {
            if sh.states * 10 > VISITED * 8 {
                sh.full = true;
                return true;
            }
            sh.visited[i] = h;
            sh.states += 1;
            return true;
        }
        i = (i + 1) % VISITED;
    }
}

fn choose(n: usize, fresh: impl FnOnce() -> bool) -> usize {
    // SAFETY: the mapping is alive, one process at a time
    let sh = unsafe { &mut *g().sh };
    let i = sh.len;
    if i >= MAX_STEPS {
        stop(ENDLESS);
    }
    sh.len += 1;
    if i < sh.prefix {
        if sh.choices[i].n as usize != n {
            stop(DIVERGED);
        }
        return sh.choices[i].at as usize;
    }
    if sh.prune && !fresh() {
        sh.len -= 1;
        stop(PRUNED);
    }
    sh.choices[i] = Choice { n: n as u16, at: 0 };
    0
}

/// Publishes `op` as the thread's next one and returns when it is its turn.
fn point(tid: usize, op: Op) {
    g().th[tid].op = op;
    pick(tid);
}

fn pick(tid: usize) {
    // threads start in order and wait at their first operation: what comes before it is not shared
    if g().starting <= g().n {
        let t = g().starting;
        g().starting += 1;
        let finished = g().th[tid].op.kind == Kind::Done;
        give(t);
        if !finished {
            take(tid);
        }
        return;
    }
    let mut options: Vec<(usize, usize)> = vec![];
    let mut done = 0;
    let mut spinning = vec![];
    let mut order: Vec<usize> = (1..=g().n).collect();
    order.sort_by_key(|t| (*t != tid, *t));
    for t in order {
        let op = g().th[t].op;
        let th = &g().th[t];
        let stuck = th.same >= SPIN && th.same_addr == op.addr;
        match op.kind {
            Kind::Done => done += 1,
            Kind::Wait => {
                if th.woken {
                    options.push((t, 0));
                }
            }
            Kind::Load => match locate(op.addr, op.size) {
                None => options.push((t, 0)),
                Some(l) => {
                    let last = g().locs[l].msgs.len() - 1;
                    let mut low = g().th[t].view.at[l] as usize;
                    if stuck {
                        low = low.max(g().th[t].same_ts + 1);
                        if low > last {
                            if g().th[t].same_changes == g().locs[l].changes {
                                spinning.push((t, last));
                                continue;
                            }
                            low = last;
                        }
                    }
                    for m in (low..=last).rev() {
                        options.push((t, m));
                    }
                }
            },
            Kind::Rmw if stuck => match locate(op.addr, op.size) {
                Some(l) if g().th[t].same_changes == g().locs[l].changes => spinning.push((t, 0)),
                _ => options.push((t, 0)),
            },
            _ => options.push((t, 0)),
        }
    }
    if done == g().n {
        g().active = false;
        give(0);
        return;
    }
    if options.is_empty() {
        if spinning.is_empty() {
            stop(DEADLOCK);
        }
        // only waiting loops are left: let them run a while
        g().lonely += 1;
        if g().lonely > 200 {
            stop(ENDLESS);
        }
        let k = g().lonely as usize % spinning.len();
        options.push(spinning[k]);
    } else {
        g().lonely = 0;
    }
    g().steps += 1;
    if g().steps >= MAX_STEPS {
        stop(ENDLESS);
    }
    let k = if options.len() == 1 { 0 } else { choose(options.len(), || visit(fingerprint())) };
    let (t, m) = options[k];
    g().msg = m;
    if t != tid {
        let finished = g().th[tid].op.kind == Kind::Done;
        give(t);
        if !finished {
            take(tid);
        }
    }
}

// ---------------------------------------------------------------- operations

fn read_real(addr: usize, size: u8) -> u64 {
    // SAFETY: the instrumented code is about to access this address with this size
    unsafe {
        match size {
            1 => (*(addr as *const AtomicU8)).load(SeqCst) as u64,
            2 => (*(addr as *const std::sync::atomic::AtomicU16)).load(SeqCst) as u64,
            4 => (*(addr as *const AtomicU32)).load(SeqCst) as u64,
            _ => (*(addr as *const AtomicU64)).load(SeqCst),
        }
    }
}
fn write_real(addr: usize, size: u8, v: u64) {
    // SAFETY: the instrumented code is about to write this address with this size
    unsafe {
        match size {
            1 => (*(addr as *const AtomicU8)).store(v as u8, SeqCst),
            2 => (*(addr as *const std::sync::atomic::AtomicU16)).store(v as u16, SeqCst),
            4 => (*(addr as *const AtomicU32)).store(v as u32, SeqCst),
            _ => (*(addr as *const AtomicU64)).store(v, SeqCst),
        }
    }
}

/// the location's history, brought up to date with what uninstrumented code stored
fn locate(addr: usize, size: u8) -> Option<usize> {
    let now = read_real(addr, size);
    let found = g().locs.iter().position(|l| l.addr == addr && l.size == size);
    let l = match found {
        Some(l) => l,
        None => {
            if g().locs.len() == LOCS {
                return None;
            }
            g().locs.push(Loc { addr, size, msgs: vec![Msg { val: now, view: BOTTOM }], changes: 0, ext: None, users: 0 });
            return Some(g().locs.len() - 1);
        }
    };
    if g().locs[l].msgs.last().unwrap().val != now {
        // SAFETY: the mapping is alive, one process at a time
        let sh = unsafe { &mut *g().sh };
        if g().active && sh.hots < HOT && !sh.hot[..sh.hots].contains(&(addr as u64)) {
            heat(addr);
        }
        let mut view = everything();
        view.at[l] = g().locs[l].msgs.len() as u16;
        let loc = &mut g().locs[l];
        loc.msgs.push(Msg { val: now, view });
        loc.ext = Some(view);
        loc.changes += 1;
    }
    Some(l)
}

fn acquires(o: i32) -> bool {
    matches!(o, 1 | 2 | 4 | 5)
}
fn releases(o: i32) -> bool {
    matches!(o, 3..=5)
}

fn sc_fence(tid: usize) {
    let g = g();
    let t = &mut g.th[tid];
    let a = t.acq;
    t.view.join(&a);
    t.view.join(&g.sc);
    g.sc = t.view;
    t.rel = t.view;
    t.view.clock[tid] += 1;
}

fn record(tid: usize, kind: u8, order: i32, addr: usize, val: u64, old: bool) {
    environment(tid);
    // SAFETY: the mapping is alive, one process at a time
    let sh = unsafe { &mut *g().sh };
    if sh.steps < MAX_STEPS {
        sh.trace[sh.steps] = Step { tid: tid as u8, kind, order: order as u8, old: old as u8, addr: addr as u64, val };
        sh.steps += 1;
    }
}

fn note_read(tid: usize, addr: usize, val: u64, ts: usize, changes: u32) {
    let t = &mut g().th[tid];
    if t.same_addr == addr && t.same_val == val {
        t.same += 1;
    } else {
        t.same = 1;
    }
    t.same_addr = addr;
    t.same_val = val;
    t.same_ts = ts;
    t.same_changes = changes;
}

fn read_msg(tid: usize, l: usize, m: usize, order: i32) -> u64 {
    let msg = g().locs[l].msgs[m];
    let t = &mut g().th[tid];
    t.view.at[l] = t.view.at[l].max(m as u16);
    t.acq.join(&msg.view);
    if acquires(order) {
        t.view.join(&msg.view);
    }
    msg.val
}

fn write_msg(tid: usize, l: usize, val: u64, order: i32, over: Option<View>) {
    let ts = g().locs[l].msgs.len();
    let t = &mut g().th[tid];
    t.view.at[l] = ts as u16;
    let mut view = if releases(order) { t.view } else { t.rel };
    view.at[l] = ts as u16;
    if let Some(v) = over {
        view.join(&v);
    }
    t.view.clock[tid] += 1;
    let loc = &mut g().locs[l];
    if loc.msgs.last().unwrap().val != val {
        loc.changes += 1;
    }
    loc.msgs.push(Msg { val, view });
    write_real(loc.addr, loc.size, val);
}

/// false: run the operation as it is
fn modelled() -> Option<usize> {
    let tid = TID.with(|t| t.get());
    if tid == usize::MAX {
        return None;
    }
    Some(tid)
}

fn turn(tid: usize, op: Op) -> bool {
    // (the main thread runs alone, before and after the others)
    // SAFETY: the mapping is alive, one process at a time
    let sh = unsafe { &mut *g().sh };
    let cold = op.kind != Kind::Fence && sh.hots < HOT && !sh.hot[..sh.hots].contains(&(op.addr as u64));
    let local = match op.kind {
        Kind::Load => cold && op.order != 5,
        Kind::Fence => op.order != 5,
        _ => false,
    };
    if tid != 0 {
        if cold && op.kind != Kind::Load {
            heat(op.addr);
        }
        if !local {
            point(tid, op);
        } else {
            g().msg = usize::MAX;
        }
    }
    foreign(tid);
    if op.kind != Kind::Fence {
        if let Some(l) = locate(op.addr, op.size) {
            g().locs[l].users |= 1 << tid;
        }
    }
    tid != 0
}

fn heat(addr: usize) -> ! {
    // SAFETY: the mapping is alive, one process at a time
    let sh = unsafe { &mut *g().sh };
    sh.hot[sh.hots] = addr as u64;
    sh.hots += 1;
    stop(RESTART);
}

/// std may have looked at a location the thread uses without telling: what uninstrumented code stored there is known
fn foreign(tid: usize) {
    let (low, high) = g().range;
    for l in 0..g().locs.len() {
        let (addr, size, users) = (g().locs[l].addr, g().locs[l].size, g().locs[l].users);
        if users >> tid & 1 == 0 || addr < low || addr >= high {
            continue;
        }
        locate(addr, size);
        let Some(e) = g().locs[l].ext else { continue };
        g().th[tid].view.join(&e);
    }
}

/// what uninstrumented code may read before the thread's next operation becomes part of its history
fn environment(tid: usize) {
    let g = g();
    for l in &g.locs {
        if l.ext.is_some() && l.users >> tid & 1 == 1 && l.addr >= g.range.0 && l.addr < g.range.1 {
            g.th[tid].hist = mix(g.th[tid].hist, mix(l.addr as u64, read_real(l.addr, l.size)));
        }
    }
}

fn load(addr: usize, size: u8, order: i32) -> u64 {
    let Some(tid) = modelled() else { return read_real(addr, size) };
    let scheduled = turn(tid, Op { kind: Kind::Load, addr, size, order });
    let Some(l) = locate(addr, size) else { return read_real(addr, size) };
    if order == 5 {
        sc_fence(tid);
    }
    let last = g().locs[l].msgs.len() - 1;
    let mut m = if scheduled { g().msg } else { last };
    m = m.max(g().th[tid].view.at[l] as usize).min(last);
    let v = read_msg(tid, l, m, order);
    note_read(tid, addr, v, m, g().locs[l].changes);
    let t = &mut g().th[tid];
    t.hist = mix(t.hist, mix(addr as u64, mix(v, order as u64)));
    record(tid, b'R', order, addr, v, m != last);
    v
}

fn store(addr: usize, size: u8, v: u64, order: i32) {
    let Some(tid) = modelled() else { return write_real(addr, size, v) };
    turn(tid, Op { kind: Kind::Store, addr, size, order });
    let Some(l) = locate(addr, size) else { return write_real(addr, size, v) };
    let t = &mut g().th[tid];
    t.hist = mix(t.hist, mix(addr as u64 ^ 1 << 60, mix(v, order as u64)));
    t.same = 0;
    write_msg(tid, l, v, order, None);
    if order == 5 {
        sc_fence(tid);
    }
    record(tid, b'W', order, addr, v, false);
}

/// `f`: the new value, or None to leave it; returns the old one
fn rmw(addr: usize, size: u8, order: i32, fail: i32, f: impl Fn(u64) -> Option<u64>) -> u64 {
    let Some(tid) = modelled() else {
        let old = read_real(addr, size);
        if let Some(v) = f(old) {
            // SAFETY: as in write_real; a real exchange, other threads may run
            unsafe {
                let mut cur = old;
                let mut new = v;
                loop {
                    macro_rules! cas {
                        ($a:ty, $t:ty) => {
                            (*(addr as *const $a)).compare_exchange(cur as $t, new as $t, SeqCst, SeqCst).map(|x| x as u64).map_err(|x| x as u64)
                        };
                    }
                    let r = match size {
                        1 => cas!(AtomicU8, u8),
                        2 => cas!(std::sync::atomic::AtomicU16, u16),
                        4 => cas!(AtomicU32, u32),
                        _ => cas!(AtomicU64, u64),
                    };
                    match r {
                        Ok(x) => return x,
                        Err(x) => {
                            cur = x;
                            match f(x) {
                                Some(n) => new = n,
                                None => return x,
                            }
                        }
                    }
                }
            }
        }
        return old;
    };
    turn(tid, Op { kind: Kind::Rmw, addr, size, order });
    let Some(l) = locate(addr, size) else {
        let old = read_real(addr, size);
        if let Some(v) = f(old) {
            write_real(addr, size, v);
        }
        return old;
    };
    let last = g().locs[l].msgs.len() - 1;
    let seen = g().locs[l].msgs[last];
    let new = f(seen.val);
    let o = if new.is_some() { order } else { fail };
    if o == 5 {
        sc_fence(tid);
    }
    let old = read_msg(tid, l, last, o);
    let t = &mut g().th[tid];
    t.hist = mix(t.hist, mix(addr as u64 ^ 2 << 60, mix(mix(old, new.unwrap_or(!0)), o as u64)));
    match new {
        Some(v) => {
            if v == old {
                note_read(tid, addr, old, last, g().locs[l].changes);
            } else {
                g().th[tid].same = 0;
            }
            write_msg(tid, l, v, o, Some(seen.view));
            if o == 5 {
                sc_fence(tid);
            }
            record(tid, b'X', o, addr, v, false);
        }
        None => {
            note_read(tid, addr, old, last, g().locs[l].changes);
            record(tid, b'F', o, addr, old, false);
        }
    }
    old
}

fn fence(order: i32) {
    let Some(tid) = modelled() else { return std::sync::atomic::fence(SeqCst) };
    turn(tid, Op { kind: Kind::Fence, addr: 0, size: 0, order });
    if order == 5 {
        sc_fence(tid);
    } else {
        let t = &mut g().th[tid];
        if acquires(order) {
            let a = t.acq;
            t.view.join(&a);
        }
        if releases(order) {
            t.rel = t.view;
        }
    }
    let t = &mut g().th[tid];
    t.hist = mix(t.hist, 3 << 60 | order as u64);
    t.view.clock[tid] += 1;
    record(tid, b'B', order, 0, 0, false);
}

fn plain(addr: usize, size: usize, write: bool) {
    let Some(tid) = modelled() else { return };
    if addr < g().range.0 || addr >= g().range.1 {
        return;
    }
    foreign(tid);
    let g = g();
    let clock = g.th[tid].view.clock;
    for a in addr..addr + size.min(4096) {
        let s = g.shadow.entry(a).or_insert(Shadow { write: (0, 0), reads: [0; THREADS] });
        let mut bad = s.write.1 > clock[s.write.0 as usize];
        if write {
            bad |= (0..THREADS).any(|t| t != tid && s.reads[t] > clock[t]);
            s.write = (tid as u8, clock[tid]);
            s.reads = [0; THREADS];
        } else {
            s.reads[tid] = clock[tid];
        }
        if bad {
            record(tid, if write { b'w' } else { b'r' }, 0, addr, 0, false);
            // SAFETY: the mapping is alive
            unsafe { (*g.sh).race = addr as u64 };
            stop(RACE);
        }
    }
}

// ---------------------------------------------------------------- one execution

fn new_thread(view: View) -> Thread {
    Thread {
        op: Op { kind: Kind::Start, addr: 0, size: 0, order: 0 },
        view,
        rel: BOTTOM,
        acq: view,
        hist: 0x1234_5678,
        same: 0,
        same_addr: 0,
        same_val: 0,
        same_ts: 0,
        same_changes: 0,
        woken: false,
    }
}

/// Runs `before` alone, then the threads under the scheduler, then `after` alone; ends the process.
/// Only called in a process of its own; `sh` holds the prefix of choices and receives what happened.
///
/// # Safety
/// `sh` points to a live shared mapping that no other running process uses
pub unsafe fn execute(sh: *mut Shared, before: &dyn Fn() -> Vec<u8>, threads: &[&(dyn Fn() -> Vec<u8> + Sync)], after: &dyn Fn() -> Vec<u8>) -> ! {
    (*sh).len = 0;
    (*sh).steps = 0;
    (*sh).out_len = 0;
    (*sh).status = RUNNING;
    let n = threads.len();
    assert!(n < THREADS);
    let mut view = BOTTOM;
    view.clock[0] = 1;
    *STATE.0.get() = Some(G {
        n,
        starting: 2,
        active: false,
        th: vec![new_thread(view)],
        locs: Vec::with_capacity(LOCS),
        sc: BOTTOM,
        waiting: vec![],
        shadow: HashMap::new(),
        steps: 0,
        lonely: 0,
        msg: 0,
        range: (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize),
        sh,
    });
    TID.with(|t| t.set(0));
    let mut out = before();
    let results: Vec<std::sync::Mutex<Vec<u8>>> = (0..n).map(|_| Default::default()).collect();
    std::thread::scope(|s| {
        let view = g().th[0].view;
        for t in 1..=n {
            let mut th = new_thread(view);
            th.view.clock[t] = 1;
            g().th.push(th);
        }
        g().th[0].view.clock[0] += 1;
        for (i, f) in threads.iter().enumerate() {
            let result = &results[i];
            let f: &(dyn Fn() -> Vec<u8> + Sync) = *f;
            TID.with(|t| t.set(usize::MAX));
            std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn_scoped(s, move || {
                    let t = i + 1;
                    take(t);
                    TID.with(|c| c.set(t));
                    let r = f();
                    TID.with(|c| c.set(usize::MAX));
                    *result.lock().unwrap() = r;
                    g().th[t].op.kind = Kind::Done;
                    pick(t);
                })
                .expect("spawn");
        }
        g().active = true;
        give(1);
        take(0);
        TID.with(|t| t.set(usize::MAX));
    });
    let v = everything();
    g().th[0].view.join(&v);
    TID.with(|t| t.set(0));
    for r in &results {
        out.extend(r.lock().unwrap().iter());
    }
    out.extend(after());
    TID.with(|t| t.set(usize::MAX));
    assert!(out.len() <= OUT, "ENGINE: outcome too long");
    (&mut (*sh).out)[..out.len()].copy_from_slice(&out);
    (*sh).out_len = out.len();
    (*sh).status = COMPLETE;
    _exit(0)
}

// ---------------------------------------------------------------- entry points of the instrumentation

macro_rules! atomics {
    ($($t:ty, $n:literal, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
        // (the instrumentation does not extend narrow arguments)
        #[no_mangle] pub extern "C" fn $load(p: usize, o: i32) -> $t { load(p, $n, o) as $t }
        #[no_mangle] pub extern "C" fn $store(p: usize, v: u64, o: i32) { store(p, $n, v as $t as u64, o) }
        #[no_mangle] pub extern "C" fn $xchg(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |_| Some(v as $t as u64)) as $t }
        #[no_mangle] pub extern "C" fn $add(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some((x as $t).wrapping_add(v as $t) as u64)) as $t }
        #[no_mangle] pub extern "C" fn $sub(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some((x as $t).wrapping_sub(v as $t) as u64)) as $t }
        #[no_mangle] pub extern "C" fn $and(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some((x as $t & v as $t) as u64)) as $t }
        #[no_mangle] pub extern "C" fn $or(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some((x as $t | v as $t) as u64)) as $t }
        #[no_mangle] pub extern "C" fn $xor(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some((x as $t ^ v as $t) as u64)) as $t }
        #[no_mangle] pub extern "C" fn $nand(p: usize, v: u64, o: i32) -> $t { rmw(p, $n, o, o, |x| Some(!(x as $t & v as $t) as $t as u64)) as $t }
        #[no_mangle] pub extern "C" fn $cas(p: usize, e: u64, v: u64, o: i32, fo: i32) -> $t { rmw(p, $n, o, fo, |x| (x as $t == e as $t).then_some(v as $t as u64)) as $t }
    )* };
}
atomics! {
    u8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    fence(o)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

macro_rules! plains {
    ($($n:literal $w:literal $($f:ident)*;)*) => { $($( #[no_mangle] pub extern "C" fn $f(p: usize) { plain(p, $n, $w) } )*)* };
}
plains! {
    1 false __tsan_read1 __tsan_unaligned_read1 __tsan_volatile_read1 __tsan_unaligned_volatile_read1;
    2 false __tsan_read2 __tsan_unaligned_read2 __tsan_volatile_read2 __tsan_unaligned_volatile_read2;
    4 false __tsan_read4 __tsan_unaligned_read4 __tsan_volatile_read4 __tsan_unaligned_volatile_read4;
    8 false __tsan_read8 __tsan_unaligned_read8 __tsan_volatile_read8 __tsan_unaligned_volatile_read8;
    16 false __tsan_read16 __tsan_unaligned_read16 __tsan_volatile_read16 __tsan_unaligned_volatile_read16;
    1 true __tsan_write1 __tsan_unaligned_write1 __tsan_volatile_write1 __tsan_unaligned_volatile_write1 __tsan_read_write1 __tsan_unaligned_read_write1;
    2 true __tsan_write2 __tsan_unaligned_write2 __tsan_volatile_write2 __tsan_unaligned_volatile_write2 __tsan_read_write2 __tsan_unaligned_read_write2;
    4 true __tsan_write4 __tsan_unaligned_write4 __tsan_volatile_write4 __tsan_unaligned_volatile_write4 __tsan_read_write4 __tsan_unaligned_read_write4;
    8 true __tsan_write8 __tsan_unaligned_write8 __tsan_volatile_write8 __tsan_unaligned_volatile_write8 __tsan_read_write8 __tsan_unaligned_read_write8;
    16 true __tsan_write16 __tsan_unaligned_write16 __tsan_volatile_write16 __tsan_unaligned_volatile_write16 __tsan_read_write16 __tsan_unaligned_read_write16;
    8 false __tsan_vptr_read;
}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_p: usize, _v: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_read_range(p: usize, n: usize) {
    plain(p, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(p: usize, n: usize) {
    plain(p, n, true)
}
/// # Safety
/// as memcpy
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    std::ptr::copy(s, d, n);
    d
}
/// # Safety
/// as memmove
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
/// # Safety
/// as memset
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    plain(d as usize, n, true);
    std::ptr::write_bytes(d, v as u8, n);
    d
}
