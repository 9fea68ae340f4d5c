//! Seams between the library and the machine: wall clock, allocator, futex waits and randomness.
//! All of them are ordinary symbols / traits of the process that this binary replaces, so the
//! library runs unmodified. Outside a library call ("scope") everything passes through.

pub mod simbuf;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

// ------------------------------------------------------------------ allocator

#[derive(Clone, Copy, Default, Debug)]
pub struct MemStat {
    pub live: isize,
    pub peak: isize,
    pub allocs: u64,
    pub largest: usize,
    pub denied: u64,
    /// Control-flow edges of instrumented code
    pub edges: u64,
    /// Octets allocated altogether, freed or not
    pub octets: u64,
    /// Octets copied, moved or filled by block operations
    pub moved: u64,
}

thread_local! {
    static IN_SCOPE: Cell<bool> = const { Cell::new(false) };
    static MEM: Cell<MemStat> = const { Cell::new(MemStat { live: 0, peak: 0, allocs: 0, largest: 0, denied: 0, edges: 0, octets: 0, moved: 0 }) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static MOVED: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn(Point)>> = const { Cell::new(None) };
    static CLOCK: RefCell<Option<ClockState>> = const { RefCell::new(None) };
    static RANDOM: Cell<u64> = const { Cell::new(0) };
    static SHARED: Cell<u64> = const { Cell::new(0) };
}

/// Where a running library call may be suspended by the task engine
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Alloc,
    Read,
    Clock,
    Edge,
    /// Memory shared by all tasks is about to be read or written
    Shared,
    Futex(usize, u32),
    FutexWake(usize),
}

/// A single library call may hold this much; more is refused (the process then aborts, which the
/// runner reports as the violation it is).
pub const HARD_LIMIT: isize = 1 << 30;

pub struct SimAlloc;

thread_local! {
    static BRIEF: Cell<bool> = const { Cell::new(false) };
}
/// Octets held by threads that live briefly, from their beginning until after their end
static HELD: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// From here to its very end, what this thread allocates and frees is counted
pub fn live_briefly() {
    BRIEF.set(true);
}
pub fn held_by_brief_threads() -> i64 {
    HELD.load(std::sync::atomic::Ordering::SeqCst)
}

fn on_alloc(size: usize) -> bool {
    if BRIEF.get() {
        HELD.fetch_add(size as i64, std::sync::atomic::Ordering::SeqCst);
    }
    IN_SCOPE.with(|s| {
        if !s.get() {
            return true;
        }
        MEM.with(|m| {
            let mut v = m.get();
            v.live += size as isize;
            v.peak = v.peak.max(v.live);
            v.largest = v.largest.max(size);
            v.allocs += 1;
            v.octets += size as u64;
            let ok = v.live <= HARD_LIMIT;
            if !ok {
                v.live -= size as isize;
                v.denied += 1;
            }
            m.set(v);
            ok
        })
    })
}
fn on_free(size: usize) {
    if BRIEF.get() {
        HELD.fetch_sub(size as i64, std::sync::atomic::Ordering::SeqCst);
    }
    IN_SCOPE.with(|s| {
        if s.get() {
            MEM.with(|m| {
                let mut v = m.get();
                v.live -= size as isize;
                m.set(v);
            });
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        fire(Point::Alloc);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        fire(Point::Alloc);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as the old and the new block existing side by side for a moment
        if !on_alloc(n) {
            return std::ptr::null_mut();
        }
        fire(Point::Alloc);
        let q = unsafe { System.realloc(p, l, n) };
        on_free(l.size());
        q
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

/// Call the task hook, unless already inside it or outside a scope
pub fn fire(p: Point) {
    let _ = HOOK.try_with(|h| {
        if let Some(f) = h.get() {
            if IN_SCOPE.with(Cell::get) {
                h.set(None);
                IN_SCOPE.with(|s| s.set(false));
                f(p);
                IN_SCOPE.with(|s| s.set(true));
                h.set(Some(f));
            }
        }
    });
}
pub fn set_hook(f: Option<fn(Point)>) {
    HOOK.with(|h| h.set(f));
}

/// Run `f` as a library call: memory is measured, every edge, allocation and clock reading counts.
/// Calls may nest (a task run while another is suspended on the same thread).
pub fn scope<T>(f: impl FnOnce() -> T) -> (T, MemStat) {
    struct Outer(Option<(bool, MemStat, u64, u64)>);
    impl Drop for Outer {
        fn drop(&mut self) {
            if let Some(o) = self.0.take() {
                end(o);
            }
        }
    }
    let mut outer = Outer(Some(begin()));
    let r = f();
    let m = outer.0.take().map_or(MemStat::default(), end);
    (r, m)
}
// not generic, so that none of this is instrumented
#[inline(never)]
fn begin() -> (bool, MemStat, u64, u64) {
    (IN_SCOPE.replace(true), MEM.replace(MemStat::default()), STEPS.replace(0), MOVED.replace(0))
}
#[inline(never)]
fn end(outer: (bool, MemStat, u64, u64)) -> MemStat {
    IN_SCOPE.set(false);
    let edges = STEPS.replace(outer.2);
    let moved = MOVED.replace(outer.3);
    let m = MEM.replace(outer.1);
    IN_SCOPE.set(outer.0);
    MemStat { edges, moved, ..m }
}
#[inline(never)]
pub fn leave() -> bool {
    IN_SCOPE.try_with(|s| s.replace(false)).unwrap_or(false)
}
#[inline(never)]
pub fn enter(was: bool) {
    let _ = IN_SCOPE.try_with(|s| s.set(was));
}
pub fn hooked() -> Option<fn(Point)> {
    HOOK.with(Cell::get)
}
/// Leave the scope for harness work done inside a library call (buffer reads)
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = leave();
    let r = f();
    enter(was);
    r
}

// ------------------------------------------------------------------ block operations

unsafe extern "C" {
    fn __memcpy_chk(d: *mut u8, s: *const u8, n: usize, room: usize) -> *mut u8;
    fn __memmove_chk(d: *mut u8, s: *const u8, n: usize, room: usize) -> *mut u8;
    fn __memset_chk(d: *mut u8, c: i32, n: usize, room: usize) -> *mut u8;
}
/// No limit, in a way that keeps the compiler from turning the checked call into this very function
#[inline(always)]
fn unlimited() -> usize {
    let x: usize;
    unsafe { std::arch::asm!("mov {}, -1", out(reg) x, options(nostack, nomem, pure)) };
    x
}
#[inline(always)]
fn count_moved(n: usize) {
    if IN_SCOPE.try_with(Cell::get).unwrap_or(false) {
        let _ = MOVED.try_with(|m| m.set(m.get().wrapping_add(n as u64)));
    }
}
/// # Safety
/// libc contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    count_moved(n);
    unsafe { __memcpy_chk(d, s, n, unlimited()) }
}
/// # Safety
/// libc contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    count_moved(n);
    unsafe { __memmove_chk(d, s, n, unlimited()) }
}
/// # Safety
/// libc contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    count_moved(n);
    unsafe { __memset_chk(d, c, n, unlimited()) }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

// ------------------------------------------------------------------ control-flow edges
// The library and the simulator are compiled with a callback on every control-flow edge (see
// rustc-wrap.sh). Inside a library call each edge is a point where the task may be suspended, and
// is counted as reached.

const EDGES: usize = 1 << 18;
static COVERED: [std::sync::atomic::AtomicU8; EDGES] = [const { std::sync::atomic::AtomicU8::new(0) }; EDGES];
static NEXT_EDGE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

/// No library call on a datagram takes this many steps unless it is as good as endless
pub const STEP_LIMIT: u64 = 400_000_000;
/// Exit status of a process that reached it
pub const ENDLESS: i32 = 77;
unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

/// # Safety
/// called by the compiler's start-up code
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        unsafe {
            if *p == 0 {
                *p = NEXT_EDGE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            p = p.add(1);
        }
    }
}
/// # Safety
/// called by instrumented code
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if IN_SCOPE.try_with(Cell::get).unwrap_or(false) {
        let e = unsafe { *g } as usize % EDGES;
        let steps = STEPS.with(|m| {
            m.set(m.get() + 1);
            m.get()
        });
        if steps > STEP_LIMIT {
            // the code is not made for being unwound from here
            unsafe { _exit(ENDLESS) };
        }
        if COVERED[e].load(std::sync::atomic::Ordering::Relaxed) == 0 {
            COVERED[e].store(1, std::sync::atomic::Ordering::Relaxed);
        }
        if HOOK.try_with(|h| h.get().is_some()).unwrap_or(false) {
            fire(Point::Edge);
        }
    }
}
// Every load and store of instrumented code comes by here too. Static, writable memory is all that
// tasks working on objects of their own can share: a point for switching tasks.
// The same goes for thread-local memory and tasks that take turns on one thread.
unsafe extern "C" {
    static __data_start: u8;
    static _end: u8;
    fn dl_iterate_phdr(f: unsafe extern "C" fn(*const PhdrInfo, usize, *mut usize) -> i32, data: *mut usize) -> i32;
}
#[repr(C)]
struct PhdrInfo {
    addr: usize,
    name: *const u8,
    phdr: *const Phdr,
    phnum: u16,
}
#[repr(C)]
struct Phdr {
    kind: u32,
    flags: u32,
    offset: u64,
    vaddr: u64,
    paddr: u64,
    filesz: u64,
    memsz: u64,
    align: u64,
}
unsafe extern "C" fn tls_size(i: *const PhdrInfo, _: usize, out: *mut usize) -> i32 {
    // the first object is the executable
    unsafe {
        for k in 0..(*i).phnum as usize {
            let h = &*(*i).phdr.add(k);
            if h.kind == 7 {
                let a = (h.align as usize).max(1);
                *out = (h.memsz as usize).div_ceil(a) * a;
            }
        }
    }
    1
}
static TLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// To be called once before accesses are of interest
pub fn find_thread_locals() {
    let mut n = 0;
    unsafe { dl_iterate_phdr(tls_size, &raw mut n) };
    TLS.store(n, std::sync::atomic::Ordering::Relaxed);
}
#[inline(always)]
fn access(p: usize) {
    let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
    if p >= lo && p < hi {
        shared();
        return;
    }
    let fs: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, pure, readonly)) };
    if p < fs && p >= fs - TLS.load(std::sync::atomic::Ordering::Relaxed) {
        local();
    }
}
#[cold]
fn local() {
    if IN_SCOPE.try_with(Cell::get).unwrap_or(false) {
        outliving();
    }
}
#[cold]
#[inline(never)]
fn outliving() {
    SHARED.with(|s| s.set(s.get() + 1));
}
#[cold]
fn shared() {
    if IN_SCOPE.try_with(Cell::get).unwrap_or(false) {
        outliving();
        if HOOK.try_with(|h| h.get().is_some()).unwrap_or(false) {
            fire(Point::Shared);
        }
    }
}
/// Accesses to static or thread-local memory in library calls of this thread so far
pub fn shared_accesses() -> u64 {
    SHARED.with(Cell::get)
}
macro_rules! traced {
    ($($f:ident)*) => { $(
        /// # Safety
        /// called by instrumented code
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $f(p: *const u8) {
            access(p as usize);
        }
    )* }
}
traced! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

/// Edges reached since the last call of this function with `clear`
pub fn edges(clear: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, e) in COVERED.iter().enumerate() {
        if e.load(std::sync::atomic::Ordering::Relaxed) == 1 {
            v.push(i as u32);
            if clear {
                e.store(2, std::sync::atomic::Ordering::Relaxed);
            }
        }
    }
    v
}
pub fn edge_total() -> u32 {
    NEXT_EDGE.load(std::sync::atomic::Ordering::Relaxed) - 1
}

pub fn in_scope() -> bool {
    IN_SCOPE.with(Cell::get)
}

// ------------------------------------------------------------------ clock

#[derive(Clone, Debug)]
pub struct ClockState {
    /// Wall clock of the node, nanoseconds since the epoch
    pub now: i128,
    /// Monotonic clock of the node
    pub mono: i128,
    /// What happens after the k-th reading during a call: the clock moves by this much
    pub ticks: Vec<i64>,
    pub reads: usize,
    /// Continuous stretches the wall clock went through since the call began
    pub spans: Vec<(i128, i128)>,
}
impl ClockState {
    pub fn new(now: i128, mono: i128, ticks: Vec<i64>) -> Self {
        ClockState { now, mono, ticks, reads: 0, spans: vec![(now, now)] }
    }
    fn read(&mut self) -> i128 {
        let v = self.now;
        let tick = i128::from(self.ticks.get(self.reads).copied().unwrap_or(150));
        self.reads += 1;
        self.now += tick;
        if tick >= 0 && tick < 10_000_000_000 {
            self.mono += tick;
            self.spans.last_mut().expect("span").1 = self.now;
        } else {
            self.spans.push((self.now, self.now));
        }
        v
    }
}
pub fn with_clock<T>(c: ClockState, f: impl FnOnce() -> T) -> (T, ClockState) {
    let before = swap_clock(Some(c));
    let v = f();
    let c = swap_clock(before).expect("clock");
    (v, c)
}
#[inline(never)]
fn swap_clock(c: Option<ClockState>) -> Option<ClockState> {
    CLOCK.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}

/// # Safety
/// libc contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let sim = if in_scope() {
        fire(Point::Clock);
        CLOCK.with(|c| {
            c.try_borrow_mut().ok().and_then(|mut c| {
                c.as_mut().and_then(|c| match clk {
                    0 | 5 => Some(c.read()),
                    1 | 4 | 6 | 7 => {
                        c.mono += 150;
                        Some(c.mono)
                    }
                    _ => None,
                })
            })
        })
    } else {
        None
    };
    if let Some(v) = sim {
        unsafe {
            (*ts).sec = v.div_euclid(1_000_000_000) as i64;
            (*ts).nsec = v.rem_euclid(1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { ret_errno(raw_syscall(228, i64::from(clk), ts as i64, 0, 0, 0, 0)) as i32 }
}

/// # Safety
/// libc contract. Only futex waits of suspended library calls and randomness are simulated.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if in_scope() {
        if n == 202 {
            let op = b & 0x7f;
            let hooked = HOOK.with(|h| h.get().is_some());
            if hooked && (op == 0 || op == 9) {
                // wait: hand over to another task; a spurious return is allowed by the contract
                fire(Point::Futex(a as usize, c as u32));
                return 0;
            }
            if hooked && (op == 1 || op == 10) {
                fire(Point::FutexWake(a as usize));
                return 0;
            }
        }
        if n == 318 {
            return unsafe { getrandom(a as *mut u8, b as usize, c as u32) } as i64;
        }
    }
    unsafe { ret_errno(raw_syscall(n, a, b, c, d, e, f)) }
}

/// # Safety
/// libc contract
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    RANDOM.with(|r| {
        for i in 0..n {
            let v = mix(r.get());
            r.set(r.get() + 1);
            unsafe { *p.add(i) = v as u8 };
        }
    });
    n as isize
}

unsafe extern "C" {
    fn personality(p: u64) -> i32;
    fn execv(path: *const std::ffi::c_char, argv: *const *const std::ffi::c_char) -> i32;
}
/// Re-executes the process once with address randomisation off, where that is permitted
pub fn fix_addresses() {
    if std::env::var_os("DISSIM_NOASLR").is_some() {
        return;
    }
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur < 0 || cur & 0x0040_0000 != 0 || personality((cur | 0x0040_0000) as u64) < 0 {
            return;
        }
        std::env::set_var("DISSIM_NOASLR", "1");
        let args: Vec<_> = std::env::args_os().map(|a| std::ffi::CString::new(std::os::unix::ffi::OsStringExt::into_vec(a)).expect("arg")).collect();
        let mut p: Vec<*const std::ffi::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        p.push(std::ptr::null());
        let exe = std::ffi::CString::new("/proc/self/exe").expect("exe");
        execv(exe.as_ptr(), p.as_ptr());
    }
}
