//! FFI to the simulator (sim/vsim.c). Layout mirrors sim/vsim.h.
use std::ffi::CString;
use std::os::raw::c_char;

pub const MAX_TRACE: usize = 400_000;
pub const NFAULT: usize = 32;
pub const LOGCAP: usize = 8 << 20;
pub const SCRIPTCAP: usize = 4 << 20;

pub const F_SPURIOUS_WAKE: usize = 0;
pub const F_STALL: usize = 1;
pub const F_CLOCK_JUMP: usize = 2;
pub const F_SHORT_READ: usize = 3;
pub const F_SHORT_WRITE: usize = 4;
pub const F_EINTR: usize = 5;
pub const F_READ_EIO: usize = 6;
pub const F_WRITE_EIO: usize = 7;
pub const F_WRITE_ENOSPC: usize = 8;
pub const F_OPEN_ERR: usize = 9;
pub const F_NET_SHORT_RECV: usize = 11;
pub const F_NET_SHORT_SEND: usize = 12;
pub const F_NET_ACCEPT_ABORT: usize = 13;
pub const F_MKDIR_ERR: usize = 15;
pub const F_CRASH: usize = 16;
pub const F_STAT_ERR: usize = 17;
pub const F_SCHED_STARVE: usize = 18;
pub const F_WALL_JUMP: usize = 20;
pub const F_READ_EOF: usize = 21;
pub const F_SYNC_ERR: usize = 22;
pub const F_STORE_DELAY: usize = 24;
pub const FAULT_NAMES: [&str; 25] = [
    "spurious_futex_wakeup", "thread_stall", "clock_jump_forward", "short_read", "short_write", "eintr", "read_eio", "write_eio", "disk_full",
    "open_error", "close_error", "net_short_recv", "net_short_send", "net_accept_abort", "net_delay", "mkdir_error", "crash", "stat_error",
    "starvation", "spawn_eagain", "wall_clock_jump", "file_shrunk", "fsync_error", "engine_freeze",
    "delayed_atomic_store",
];

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_STEPCAP: u32 = 4;
pub const ST_PANIC: u32 = 5;
pub const ST_TRACEFULL: u32 = 6;
pub const ST_DONE_CLIENTS: u32 = 7;
pub const ST_CRASHED: u32 = 8;
pub const ST_SKIP: u32 = 9;

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct TraceEntry {
    pub key: u64,
    pub kind: u32,
    pub fk: u32,
    pub val: i64,
}

#[repr(C)]
pub struct Shared {
    pub seed: u64,
    pub replay: u32,
    pub ncpu: u32,
    pub step_cap: u64,
    pub policy: u32,
    pub pct_d: u32,
    pub mean_slice: f64,
    pub mean_atomic: f64,
    pub pct_horizon: f64,
    pub fault_p: [f64; NFAULT],
    pub fault_max: u64,
    pub fault_skip: u64,
    pub io_prefix: [u8; 256],
    pub crash_at_write: u64,
    pub ns_per_step: u64,
    pub freeze_listen_ns: u64,
    pub status: u32,
    pub msg: [u8; 2048],
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub forced: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub threads: u64,
    pub timer_jumps: u64,
    pub clock_reads: u64,
    pub vtime_ns: u64,
    pub event_hash: u64,
    pub sched_hash: u64,
    pub fault_opp: [u64; NFAULT],
    pub fault_hit: [u64; NFAULT],
    pub user: [u64; 32],
    pub races: u64,
    pub race_msg: [u8; 1024],
    pub ntrace_in: u64,
    pub ntrace_out: u64,
    pub trace_in: [TraceEntry; MAX_TRACE],
    pub trace_out: [TraceEntry; MAX_TRACE],
    pub loglen: u64,
    pub log: [u8; LOGCAP],
    pub scriptlen: u64,
    pub script: [u8; SCRIPTCAP],
}

extern "C" {
    fn vsim_start(s: *mut Shared);
    fn vsim_nopreempt(on: i32);
    fn vsim_steps() -> u64;
    fn vsim_vtime() -> u64;
    fn vsim_event() -> u64;
    fn vsim_sleep_ns(ns: u64);
    fn vsim_finish(status: u32, msg: *const c_char) -> !;
    fn vsim_active() -> i32;
    fn vsim_rand() -> u64;
    fn vsim_point();
    fn vsim_drain();
    fn vsim_crash_soft(on: i32);
    fn vsim_restart();
    fn vsim_mut_ops() -> u64;
    fn vsim_dead() -> i32;
}

/// a crash point stops the effects of all further I/O (until `restart`) instead of ending the run
pub fn crash_soft(on: bool) {
    unsafe { vsim_crash_soft(on as i32) }
}
pub fn restart() {
    unsafe { vsim_restart() }
}
pub fn mut_ops() -> u64 {
    unsafe { vsim_mut_ops() }
}
pub fn dead() -> bool {
    unsafe { vsim_dead() != 0 }
}
pub fn start(s: &mut Shared) {
    unsafe { vsim_start(s) }
}
pub fn nopreempt(on: bool) {
    unsafe { vsim_nopreempt(on as i32) }
}
pub fn steps() -> u64 {
    unsafe { vsim_steps() }
}
pub fn vtime() -> u64 {
    unsafe { vsim_vtime() }
}
/// next global event number (history order)
pub fn event() -> u64 {
    unsafe { vsim_event() }
}
pub fn sleep_ns(ns: u64) {
    unsafe { vsim_sleep_ns(ns) }
}
pub fn active() -> bool {
    unsafe { vsim_active() != 0 }
}
pub fn rand64() -> u64 {
    unsafe { vsim_rand() }
}
pub fn point() {
    unsafe { vsim_point() }
}
pub fn finish(status: u32, msg: &str) -> ! {
    let c = CString::new(msg.replace('\0', " ")).unwrap();
    unsafe { vsim_finish(status, c.as_ptr()) }
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn set_cstr(b: &mut [u8], s: &str) {
    let n = s.len().min(b.len() - 1);
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    b[n] = 0;
}

/// Allocates the shared region on a memfd so that it can also be handed to an exec'ed simulated binary.
pub fn alloc_shared() -> (&'static mut Shared, i32) {
    unsafe {
        let fd = libc::syscall(libc::SYS_memfd_create, b"vsim\0".as_ptr(), 0) as i32;
        assert!(fd >= 0);
        assert_eq!(libc::ftruncate(fd, std::mem::size_of::<Shared>() as i64), 0);
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        (&mut *(p as *mut Shared), fd)
    }
}

impl Shared {
    pub fn reset(&mut self) {
        let header = unsafe { &self.trace_in as *const _ as usize - self as *const _ as usize };
        unsafe { std::ptr::write_bytes(self as *mut _ as *mut u8, 0, header) };
        self.loglen = 0;
        self.log[0] = 0;
        self.scriptlen = 0;
        self.fault_max = u64::MAX;
        self.ns_per_step = 10;
    }
}

/// small deterministic PRNG for workloads (independent of the simulator's stream)
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + self.f() * (hi.ln() - lo.ln())).exp()
    }
}

/// memory that is given back must not be written by delayed stores afterwards
pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        vsim_drain();
        std::alloc::System.dealloc(p, l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        vsim_drain();
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;
