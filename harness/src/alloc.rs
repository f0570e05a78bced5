//! The harness's global allocator. It makes memory errors of the code under test visible:
//! * fresh memory is filled with garbage, freed memory is poisoned and kept in a quarantine until
//!   the case ends, when it is checked for writes after free;
//! * every block carries a canary behind its end, checked when the block is freed;
//! * it counts allocations and frees made while the current thread says it is the audio thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

/// Built with a sanitizer, which then does the detecting.
pub const ASAN: bool = cfg!(any(kv_asan, kv_tsan));
const TAIL: usize = if ASAN { 0 } else { 64 };
const FRESH: u8 = 0xA5;
const CANARY: u8 = 0xCA;
const POISON: u8 = 0xDF;
const QN: usize = 1 << 16;
const QBYTES: usize = 512 << 20;

pub struct KvAlloc;

thread_local! {
    static RT: Cell<bool> = const { Cell::new(false) };
    static RT_ALLOC: Cell<u64> = const { Cell::new(0) };
    static RT_FREE: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
static OVERFLOWS: AtomicU64 = AtomicU64::new(0);
static WRITES_AFTER_FREE: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy)]
struct Q {
    ptr: *mut u8,
    layout: Layout,
}
struct Quarantine {
    items: [Q; QN],
}
static mut QUAR: Quarantine = Quarantine {
    items: [Q { ptr: std::ptr::null_mut(), layout: Layout::new::<u8>() }; QN],
};
static QLEN: AtomicUsize = AtomicUsize::new(0);
static QSIZE: AtomicUsize = AtomicUsize::new(0);

fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}
fn full(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + TAIL, l.align()) }
}

unsafe fn check_free(q: Q) {
    unsafe {
        let n = q.layout.size();
        let s = std::slice::from_raw_parts(q.ptr, n);
        if s.iter().any(|b| *b != POISON) {
            WRITES_AFTER_FREE.fetch_add(1, Ordering::Relaxed);
        }
        System.dealloc(q.ptr, full(q.layout));
    }
}

unsafe impl GlobalAlloc for KvAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if RT.get() {
            RT_ALLOC.set(RT_ALLOC.get() + 1);
        }
        LIVE.set(LIVE.get() + l.size() as i64);
        unsafe {
            let p = System.alloc(full(l));
            if !p.is_null() {
                std::ptr::write_bytes(p, FRESH, l.size());
                std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if RT.get() {
            RT_ALLOC.set(RT_ALLOC.get() + 1);
        }
        LIVE.set(LIVE.get() + l.size() as i64);
        unsafe {
            let p = System.alloc_zeroed(full(l));
            if !p.is_null() {
                std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if RT.get() {
            RT_FREE.set(RT_FREE.get() + 1);
        }
        LIVE.set(LIVE.get() - l.size() as i64);
        if ASAN {
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let tail = std::slice::from_raw_parts(p.add(l.size()), TAIL);
            if tail.iter().any(|b| *b != CANARY) {
                OVERFLOWS.fetch_add(1, Ordering::Relaxed);
            }
            std::ptr::write_bytes(p, POISON, l.size());
            lock();
            let n = QLEN.load(Ordering::Relaxed);
            let s = QSIZE.load(Ordering::Relaxed);
            if n < QN && s + l.size() < QBYTES {
                (*(&raw mut QUAR)).items[n] = Q { ptr: p, layout: l };
                QLEN.store(n + 1, Ordering::Relaxed);
                QSIZE.store(s + l.size(), Ordering::Relaxed);
                unlock();
            } else {
                unlock();
                System.dealloc(p, full(l));
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        unsafe {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        }
    }
}

/// Check and release everything in the quarantine. Only call while no other thread uses memory
/// that the code under test may have freed.
pub fn drain() {
    lock();
    let n = QLEN.load(Ordering::Relaxed);
    for i in 0..n {
        unsafe {
            let q = (*(&raw mut QUAR)).items[i];
            check_free(q);
        }
    }
    QLEN.store(0, Ordering::Relaxed);
    QSIZE.store(0, Ordering::Relaxed);
    unlock();
}

/// (buffer overflows, writes after free) since the last call
pub fn take_errors() -> (u64, u64) {
    (OVERFLOWS.swap(0, Ordering::Relaxed), WRITES_AFTER_FREE.swap(0, Ordering::Relaxed))
}

/// Runs `f` as the audio thread: returns (result, allocations, frees) made inside.
pub fn rt<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    RT_ALLOC.set(0);
    RT_FREE.set(0);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            RT.set(false);
        }
    }
    let off = Off;
    RT.set(true);
    let r = f();
    drop(off);
    (r, RT_ALLOC.get(), RT_FREE.get())
}
/// bytes allocated minus bytes freed by this thread
pub fn live() -> i64 {
    LIVE.get()
}
/// Suspend the audio thread mark (for the harness's own bookkeeping inside a callback).
pub fn not_rt<R>(f: impl FnOnce() -> R) -> R {
    let was = RT.replace(false);
    let r = f();
    RT.set(was);
    r
}
pub fn is_rt() -> bool {
    RT.get()
}

/// What the sanitizer reported first since the last call of `take_report`. The callbacks run
/// inside the sanitizer, with its locks held, so nothing they execute may be instrumented:
/// `take_report` makes the text.
#[cfg(kv_asan)]
mod report {
    const N: usize = 4000;
    static mut TEXT: [u8; N] = [0; N];
    static mut COUNT: usize = 0;
    unsafe extern "C" {
        fn __asan_set_error_report_callback(f: extern "C" fn(*const u8));
    }
    #[sanitize(address = "off")]
    extern "C" fn on_report(text: *const u8) {
        unsafe {
            if COUNT == 0 {
                let to = &raw mut TEXT as *mut u8;
                let mut n = 0;
                while n < N - 1 && *text.add(n) != 0 {
                    *to.add(n) = *text.add(n);
                    n += 1;
                }
                *to.add(n) = 0;
            }
            COUNT += 1;
        }
    }
    pub fn watch() {
        unsafe { __asan_set_error_report_callback(on_report) }
    }
    pub fn take() -> Option<String> {
        unsafe {
            if std::mem::take(&mut *(&raw mut COUNT)) == 0 {
                return None;
            }
            let text = &*(&raw const TEXT);
            let end = text.iter().position(|x| *x == 0).unwrap_or(N);
            Some(String::from_utf8_lossy(&text[..end]).into_owned())
        }
    }
}
#[cfg(kv_tsan)]
mod report {
    use std::ffi::{CStr, c_char, c_int, c_void};
    static mut COUNT: u64 = 0;
    /// What kind of report it is: a constant of the sanitizer.
    static mut KIND: *const c_char = std::ptr::null();
    static mut COUNTS: [c_int; 7] = [0; 7];
    /// The two accesses of a race: thread, size, write, atomic.
    static mut MOPS: [[c_int; 4]; 2] = [[0; 4]; 2];
    static mut ADDR: *mut c_void = std::ptr::null_mut();
    static mut TRACE: [*mut c_void; 8] = [std::ptr::null_mut(); 8];
    unsafe extern "C" {
        fn __tsan_get_report_data(r: *mut c_void, description: *mut *const c_char, count: *mut c_int, stacks: *mut c_int, mops: *mut c_int, locs: *mut c_int, mutexes: *mut c_int, threads: *mut c_int, tids: *mut c_int, sleep: *mut *mut c_void, n: usize) -> c_int;
        fn __tsan_get_report_mop(r: *mut c_void, i: usize, tid: *mut c_int, addr: *mut *mut c_void, size: *mut c_int, write: *mut c_int, atomic: *mut c_int, trace: *mut *mut c_void, n: usize) -> c_int;
    }
    /// Called by the thread sanitizer with each report, one at a time. Any function that calls
    /// another one is instrumented at least at its entry, except for naked ones.
    #[unsafe(no_mangle)]
    #[unsafe(naked)]
    extern "C" fn __tsan_on_report(_r: *mut c_void) {
        std::arch::naked_asm!(
            "inc qword ptr [rip + {count}]",
            "cmp qword ptr [rip + {count}], 1",
            "jne 3f",
            "push rbx",
            "mov rbx, rdi",
            "sub rsp, 48",
            // The kind, and how much there is of everything
            "lea rsi, [rip + {kind}]",
            "lea rdx, [rip + {counts}]",
            "lea rcx, [rip + {counts} + 4]",
            "lea r8, [rip + {counts} + 8]",
            "lea r9, [rip + {counts} + 12]",
            "lea rax, [rip + {counts} + 16]",
            "mov [rsp], rax",
            "lea rax, [rip + {counts} + 20]",
            "mov [rsp + 8], rax",
            "lea rax, [rip + {counts} + 24]",
            "mov [rsp + 16], rax",
            "lea rax, [rip + {trace}]",
            "mov [rsp + 24], rax",
            "mov qword ptr [rsp + 32], 1",
            "call {data}",
            // The first access
            "cmp dword ptr [rip + {counts} + 8], 1",
            "jl 2f",
            "mov rdi, rbx",
            "xor esi, esi",
            "lea rdx, [rip + {mops}]",
            "lea rcx, [rip + {addr}]",
            "lea r8, [rip + {mops} + 4]",
            "lea r9, [rip + {mops} + 8]",
            "lea rax, [rip + {mops} + 12]",
            "mov [rsp], rax",
            "lea rax, [rip + {trace}]",
            "mov [rsp + 8], rax",
            "mov qword ptr [rsp + 16], 1",
            "call {mop}",
            // and the second
            "cmp dword ptr [rip + {counts} + 8], 2",
            "jl 2f",
            "mov rdi, rbx",
            "mov esi, 1",
            "lea rdx, [rip + {mops} + 16]",
            "lea rcx, [rip + {addr}]",
            "lea r8, [rip + {mops} + 20]",
            "lea r9, [rip + {mops} + 24]",
            "lea rax, [rip + {mops} + 28]",
            "mov [rsp], rax",
            "lea rax, [rip + {trace}]",
            "mov [rsp + 8], rax",
            "mov qword ptr [rsp + 16], 1",
            "call {mop}",
            "2:",
            "add rsp, 48",
            "pop rbx",
            "3:",
            "ret",
            count = sym COUNT, kind = sym KIND, counts = sym COUNTS, mops = sym MOPS, addr = sym ADDR, trace = sym TRACE,
            data = sym __tsan_get_report_data, mop = sym __tsan_get_report_mop,
        )
    }
    pub fn watch() {}
    pub fn take() -> Option<String> {
        unsafe {
            let count = &raw mut COUNT;
            if std::ptr::read_volatile(count) == 0 {
                return None;
            }
            std::ptr::write_volatile(count, 0);
            let mut t = if KIND.is_null() { String::new() } else { CStr::from_ptr(KIND).to_string_lossy().into_owned() };
            let counts = &*(&raw const COUNTS);
            for m in (&*(&raw const MOPS)).iter().take(counts[2].max(0) as usize) {
                t += &format!("\n{}{} of {} bytes by thread {}", if m[3] != 0 { "atomic " } else { "" }, if m[2] != 0 { "WRITE" } else { "READ" }, m[1], m[0]);
            }
            Some(t)
        }
    }
}
/// Have the reports of the sanitizer collected.
pub fn watch_reports() {
    #[cfg(any(kv_asan, kv_tsan))]
    report::watch();
}
/// The first report since the last call.
pub fn take_report() -> Option<String> {
    #[cfg(any(kv_asan, kv_tsan))]
    return report::take();
    #[cfg(not(any(kv_asan, kv_tsan)))]
    None
}
