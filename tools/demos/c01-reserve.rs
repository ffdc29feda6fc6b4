use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Largest;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Largest {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Largest = Largest;

fn main() {
    let _ = nobject_rs::load_mtl("newmtl a\nmap_Kd -texres 500000000 a.png\n");
    let n = LARGEST.load(SeqCst);
    assert!(n < 10_000_000, "{n} bytes in one allocation");
}
