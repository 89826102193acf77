//! What a call costs: integer comparisons executed (instrumented build), CPU time of the thread, and
//! heap use, counted by the allocator of this process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default)]
struct Heap {
    armed: bool,
    live: isize,
    peak: isize,
    biggest: usize,
    calls: u64,
}

thread_local! {
    static HEAP: Cell<Heap> = const { Cell::new(Heap { armed: false, live: 0, peak: 0, biggest: 0, calls: 0 }) };
}

#[inline]
fn note(add: usize, sub: usize) {
    let _ = HEAP.try_with(|h| {
        let mut x = h.get();
        if x.armed {
            x.live += add as isize;
            x.peak = x.peak.max(x.live);
            x.live -= sub as isize;
            x.biggest = x.biggest.max(add);
            x.calls += (add != 0) as u64;
            h.set(x);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub cmps: u64,
    pub cpu_ns: u64,
    pub peak: usize,
    pub kept: isize,
    /// bytes of stack below the caller that were written, up to STACK, in steps of 4 KiB from 4 KiB
    pub stack: usize,
}

/// how much of the stack below a call is watched
pub const STACK: usize = 512 << 10;
#[cfg(all(target_arch = "x86_64", not(miri)))]
mod stack {
    use super::STACK;
    const MARK: u64 = 0x5afe_57ac_5afe_57ac;
    /// the own frames of these two functions stay within this distance
    const NEAR: usize = 4096;
    #[inline(always)]
    fn sp() -> usize {
        let r: usize;
        unsafe { std::arch::asm!("mov {}, rsp", out(reg) r, options(nomem, nostack, preserves_flags)) };
        r & !4095
    }
    /// marks the unused stack from here down
    #[inline(never)]
    pub fn mark() -> usize {
        let top = sp();
        let words = (STACK - NEAR) / 8;
        // from the top down, as the stack grows
        for i in 0..words {
            unsafe { ((top - NEAR - 8 - i * 8) as *mut u64).write_volatile(MARK) };
        }
        top
    }
    #[inline(never)]
    pub fn used(top: usize) -> usize {
        let low = top - STACK;
        for i in 0..(STACK - NEAR) / 4096 {
            let page = low + i * 4096;
            for w in 0..512 {
                if unsafe { ((page + w * 8) as *const u64).read_volatile() } != MARK {
                    return top - page;
                }
            }
        }
        NEAR
    }
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
mod stack {
    pub fn mark() -> usize {
        0
    }
    pub fn used(_: usize) -> usize {
        0
    }
}

/// like measure, but looks at the stack only
pub fn stack_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let top = stack::mark();
    let r = f();
    (r, stack::used(top))
}

#[cfg(not(miri))]
fn cpu() -> u64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}
#[cfg(miri)]
fn cpu() -> u64 {
    0
}

/// Runs f and reports what it cost. What f returns has to be dropped by f for `kept` to mean anything.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let c0 = crate::rt::cmps();
    HEAP.with(|h| h.set(Heap { armed: true, live: 0, peak: 0, biggest: 0, calls: 0 }));
    let t0 = cpu();
    let r = f();
    let t1 = cpu();
    let h = HEAP.with(|h| h.replace(Heap { armed: false, live: 0, peak: 0, biggest: 0, calls: 0 }));
    (r, Cost { cmps: crate::rt::cmps() - c0, cpu_ns: t1.saturating_sub(t0), peak: h.peak.max(0) as usize, kept: h.live, stack: 0 })
}

/// what the stack meter reads for a call that writes 100,000 bytes of stack: a meter that reads less is broken
pub fn meter() -> usize {
    #[inline(never)]
    fn large() -> u8 {
        let mut b = [1u8; 100_000];
        std::hint::black_box(&mut b);
        b[77]
    }
    stack_of(|| std::hint::black_box(large())).1
}
