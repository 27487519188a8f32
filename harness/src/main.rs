//! Native replay of a recorded counterexample (KSE_CEX) against the same harness entry.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering;
use vmodel::LIVE;

/// Every block carries the layout it was allocated with; freeing with another one is reported.
struct Checked;

/// Blocks of entries about shared memory come from a region that is made read-only while operations are watched.
/// A write to it is let through, one instruction at a time, and reported unless it is atomic.
mod watch {
    use std::alloc::Layout;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
    pub static ON: AtomicBool = AtomicBool::new(false);
    pub static HIT: AtomicBool = AtomicBool::new(false);
    const SIZE: usize = 8 << 30;
    static BASE: AtomicUsize = AtomicUsize::new(0);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static FROZEN: AtomicUsize = AtomicUsize::new(0);
    static mut OPEN: [usize; 8] = [0; 8];
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn mmap(a: usize, n: usize, p: i32, f: i32, fd: i32, o: i64) -> usize;
        fn mprotect(a: usize, n: usize, p: i32) -> i32;
        fn sigaction(s: i32, a: *const SigAction, o: usize) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn abort() -> !;
    }
    pub fn start() {
        unsafe {
            let b = mmap(0, SIZE, 3, 0x4022, -1, 0);
            assert!(b != usize::MAX, "no address space");
            BASE.store(b, Relaxed);
            NEXT.store(b, Relaxed);
            for (s, h) in [(11, on_fault as *const () as usize), (5, on_step as *const () as usize)] {
                let a = SigAction { handler: h, mask: [0; 16], flags: 4, restorer: 0 };
                sigaction(s, &a, 0);
            }
            vmodel::FREEZE = Some(freeze);
        }
        ON.store(true, Relaxed);
    }
    pub fn alloc(l: Layout) -> *mut u8 {
        let a = l.align().max(16);
        let p = (NEXT.load(Relaxed) + a - 1) & !(a - 1);
        let n = p + l.size();
        if n > BASE.load(Relaxed) + SIZE {
            return std::ptr::null_mut();
        }
        NEXT.store(n, Relaxed);
        p as *mut u8
    }
    pub fn owns(p: *mut u8) -> bool {
        let b = BASE.load(Relaxed);
        b != 0 && (p as usize) >= b && (p as usize) < b + SIZE
    }
    pub fn frozen(p: *mut u8) -> bool {
        owns(p) && (p as usize) < FROZEN.load(Relaxed)
    }
    pub fn hit() {
        if !HIT.swap(true, Relaxed) {
            let m = b"KSE-FAILED shared memory is written\n";
            unsafe { write(1, m.as_ptr(), m.len()) };
        }
    }
    fn freeze(on: bool) {
        let b = BASE.load(Relaxed);
        if on {
            let e = (NEXT.load(Relaxed) + 4095) & !4095;
            NEXT.store(e, Relaxed);
            FROZEN.store(e, Relaxed);
            unsafe { mprotect(b, e - b, 1) };
        } else {
            let e = FROZEN.swap(0, Relaxed);
            unsafe { mprotect(b, e.max(b) - b, 3) };
        }
    }
    unsafe extern "C" fn on_fault(_: i32, info: *const u8, ctx: *mut u8) {
        let a = *(info.add(16) as *const usize);
        if !frozen(a as *mut u8) {
            abort()
        }
        let g = ctx.add(40) as *mut u64;
        let mut ip = *g.add(16) as *const u8;
        let mut atomic = false;
        loop {
            match *ip {
                0xf0 => atomic = true,
                0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x40..=0x4f => {}
                0x86 | 0x87 => {
                    atomic = true;
                    break;
                }
                _ => break,
            }
            ip = ip.add(1);
        }
        if !atomic {
            hit()
        }
        let page = a & !4095;
        mprotect(page, 4096, 3);
        let o = &raw mut OPEN;
        for i in 0..8 {
            if (*o)[i] == 0 {
                (*o)[i] = page;
                *g.add(17) |= 0x100;
                return;
            }
        }
        abort()
    }
    unsafe extern "C" fn on_step(_: i32, _: *const u8, ctx: *mut u8) {
        let o = &raw mut OPEN;
        for i in 0..8 {
            let p = std::mem::replace(&mut (*o)[i], 0);
            if p != 0 {
                mprotect(p, 4096, 1);
            }
        }
        *(ctx.add(40) as *mut u64).add(17) &= !0x100;
    }
}
const HDR: usize = 64;
const MAGIC: u64 = 0x6b73652d616c6c6f;
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > HDR {
            return System.alloc(l);
        }
        let b = Layout::from_size_align_unchecked(l.size() + HDR, HDR);
        let p = if watch::ON.load(Ordering::Relaxed) && vmodel::QUIET.load(Ordering::Relaxed) == 0 { watch::alloc(b) } else { System.alloc(b) };
        if p.is_null() {
            return p;
        }
        *(p as *mut u64) = MAGIC;
        *(p as *mut u64).add(1) = l.size() as u64;
        *(p as *mut u64).add(2) = l.align() as u64;
        LIVE.fetch_add(1, Ordering::Relaxed);
        p.add(HDR)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > HDR {
            return System.dealloc(p, l);
        }
        let b = p.sub(HDR);
        let (m, s, a) = (*(b as *const u64), *(b as *const u64).add(1), *(b as *const u64).add(2));
        if m != MAGIC || s != l.size() as u64 || a != l.align() as u64 {
            let msg = b"KSE-FAILED memory-safety\n";
            extern "C" {
                fn write(fd: i32, p: *const u8, n: usize) -> isize;
                fn _exit(c: i32) -> !;
            }
            write(1, msg.as_ptr(), msg.len());
            _exit(1);
        }
        LIVE.fetch_sub(1, Ordering::Relaxed);
        if watch::owns(b) {
            // never used again
            if watch::frozen(b) && vmodel::QUIET.load(Ordering::Relaxed) == 0 {
                watch::hit();
            }
            return;
        }
        *(b as *mut u64) = 0xdead;
        System.dealloc(b, Layout::from_size_align_unchecked(s as usize + HDR, HDR));
    }
}
#[global_allocator]
static A: Checked = Checked;

fn main() {
    let e = std::env::args().nth(1).expect("entry");
    for (n, f) in h::all_entries() {
        if n == e {
            if n.starts_with("c29_") {
                watch::start();
            }
            let r = std::panic::catch_unwind(|| f());
            if r.is_err() {
                println!("KSE-FAILED panic");
                std::process::exit(1);
            }
            println!("KSE-DONE");
            std::process::exit(if vmodel::failures().is_empty() && !watch::HIT.load(Ordering::Relaxed) { 0 } else { 1 });
        }
    }
    eprintln!("no entry {}", e);
    std::process::exit(3);
}
