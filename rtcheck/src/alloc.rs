//! Checking allocator: red zones, poisoning, quarantine, layout check, live count.
//! Faults print one line on stderr and abort; the driver turns that into a violation of the case that ran.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Checked(UnsafeCell<State>);
struct State {
    live: usize,
    ring: [(usize, usize, usize); 256],
    pos: usize,
}
unsafe impl Sync for Checked {}
const HEAD: u64 = 0xA110_CA7E_D00D_F00D;
const DEAD: u64 = 0xDEAD_F00D_DEAD_BEEF;
const CANARY: u8 = 0xC7;
const TAIL: usize = 32;

fn die(msg: &str) -> ! {
    use std::io::Write;
    let _ = std::io::stderr().write_all(b"ALLOCATOR-FAULT: ");
    let _ = std::io::stderr().write_all(msg.as_bytes());
    let _ = std::io::stderr().write_all(b"\n");
    std::process::abort()
}
/// The allocation's base is a multiple of this.
fn base_align(align: usize) -> usize {
    2 * align.max(32)
}
/// Bytes before the allocation: it is a multiple of `align` and of nothing larger.
fn head(align: usize) -> usize {
    base_align(align) + align
}
impl Checked {
    pub const fn new() -> Self {
        Checked(UnsafeCell::new(State { live: 0, ring: [(0, 0, 0); 256], pos: 0 }))
    }
    pub fn live(&self) -> usize {
        unsafe { (*self.0.get()).live }
    }
    unsafe fn release(&self, base: usize, size: usize, align: usize) {
        let h = head(align);
        let p = (base + h) as *const u8;
        for i in 0..size {
            if *p.add(i) != 0xDD {
                die("write to released memory");
            }
        }
        System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(h + size + TAIL, base_align(align)));
    }
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(h + l.size() + TAIL, base_align(l.align())));
        if base.is_null() {
            return base;
        }
        let hd = base.add(h - 24) as *mut u64;
        hd.write_unaligned(HEAD);
        hd.add(1).write_unaligned(l.size() as u64);
        hd.add(2).write_unaligned(l.align() as u64);
        let p = base.add(h);
        std::ptr::write_bytes(p, 0xAB, l.size());
        std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
        (*self.0.get()).live += 1;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let hd = p.sub(24) as *mut u64;
        if hd.read_unaligned() == DEAD {
            die("memory released twice");
        }
        if hd.read_unaligned() != HEAD {
            die("release of memory that was not allocated, or write before its start");
        }
        if hd.add(1).read_unaligned() != l.size() as u64 || hd.add(2).read_unaligned() != l.align() as u64 {
            die("release with a layout other than that of the allocation");
        }
        for i in 0..TAIL {
            if *p.add(l.size() + i) != CANARY {
                die("write past the end of an allocation");
            }
        }
        hd.write_unaligned(DEAD);
        std::ptr::write_bytes(p, 0xDD, l.size());
        let s = &mut *self.0.get();
        s.live -= 1;
        let i = s.pos;
        s.pos = (i + 1) % 256;
        let old = s.ring[i];
        s.ring[i] = (p.sub(head(l.align())) as usize, l.size(), l.align());
        if old.0 != 0 {
            self.release(old.0, old.1, old.2);
        }
    }
}
