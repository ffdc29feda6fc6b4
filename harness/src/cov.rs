//! Coverage of the crate under test, as the instrumentation of the guided build
//! reports it: counters of edges and the operands of comparisons. It only chooses
//! which inputs to vary further; no verdict depends on it.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

struct Shared<T>(UnsafeCell<T>);
// one thread drives the search; a race elsewhere would only blur the counts
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    const fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

const MAX_AREAS: usize = 256;
static AREAS: Shared<[(usize, usize); MAX_AREAS]> = Shared::new([(0, 0); MAX_AREAS]);
static AREA_COUNT: Shared<usize> = Shared::new(0);
const PROFILE: usize = 1 << 14;
/// How close the operands of a comparison came to each other, ever.
static CLOSE: Shared<[u64; PROFILE]> = Shared::new([0; PROFILE]);
static FRESH: Shared<usize> = Shared::new(0);
const PAIRS: usize = 256;
/// The last operands that differed.
static RING: Shared<[(u64, u64, u8); PAIRS]> = Shared::new([(0, 0, 0); PAIRS]);
static AT: Shared<usize> = Shared::new(0);
const STR: usize = 24;
type Text = (u8, [u8; STR]);
static TEXTS: Shared<[(Text, Text); 64]> = Shared::new([((0, [0; STR]), (0, [0; STR])); 64]);
static TEXT_AT: Shared<usize> = Shared::new(0);
static ON: AtomicBool = AtomicBool::new(false);

// ---------------------------------------------------------------- called by the instrumented code

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: usize, end: usize) {
    let n = AREA_COUNT.get();
    if end > start && *n < MAX_AREAS && !AREAS.get()[..*n].iter().any(|a| a.0 == start) {
        AREAS.get()[*n] = (start, end - start);
        *n += 1;
    }
}

fn close(pc: usize, which: usize, bit: u32) {
    let h = (pc.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40).wrapping_mul(2).wrapping_add(which);
    let c = &mut CLOSE.get()[h % PROFILE];
    if *c & (1 << bit) == 0 {
        *c |= 1 << bit;
        *FRESH.get() += 1;
    }
}

extern "C" fn note(a: u64, b: u64, pc: usize, bytes: u64) {
    if a == b {
        return;
    }
    let dist = a.abs_diff(b);
    let dist = dist.min(dist.wrapping_neg());
    close(pc, 0, (a ^ b).count_ones() & 63);
    close(pc, 1, 63 - (dist | 1).leading_zeros());
    let at = AT.get();
    let k = *at;
    RING.get()[k % PAIRS] = (a, b, bytes as u8);
    *at = k.wrapping_add(1);
}

macro_rules! hook {
    ($name:ident, $mask:literal, $bytes:literal) => {
        #[no_mangle]
        #[unsafe(naked)]
        extern "C" fn $name() {
            // the return address names the comparison
            std::arch::naked_asm!(
                "cmp byte ptr [rip + {on}], 0",
                "je 2f",
                $mask,
                "mov rdx, [rsp]",
                concat!("mov ecx, ", $bytes),
                "jmp {note}",
                "2: ret",
                on = sym ON,
                note = sym note
            )
        }
    };
}
hook!(__sanitizer_cov_trace_cmp1, "movzx edi, dil\nmovzx esi, sil", 1);
hook!(__sanitizer_cov_trace_cmp2, "movzx edi, di\nmovzx esi, si", 2);
hook!(__sanitizer_cov_trace_cmp4, "mov edi, edi\nmov esi, esi", 4);
hook!(__sanitizer_cov_trace_cmp8, "nop", 8);
hook!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil\nmovzx esi, sil", 1);
hook!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di\nmovzx esi, si", 2);
hook!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi\nmov esi, esi", 4);
hook!(__sanitizer_cov_trace_const_cmp8, "nop", 8);

extern "C" fn switch(value: u64, cases: *const u64, pc: usize) {
    unsafe {
        let n = *cases as usize;
        let bytes = *cases.add(1) / 8;
        for i in 0..n.min(40) {
            note(*cases.add(2 + i), value, pc.wrapping_add(i * 64), bytes);
        }
    }
}
#[no_mangle]
#[unsafe(naked)]
extern "C" fn __sanitizer_cov_trace_switch() {
    std::arch::naked_asm!("cmp byte ptr [rip + {on}], 0", "je 2f", "mov rdx, [rsp]", "jmp {switch}", "2: ret", on = sym ON, switch = sym switch)
}

/// libc's, noting texts that differ while the crate runs.
unsafe extern "C" fn compare(a: *const u8, b: *const u8, n: usize, pc: usize) -> i32 {
    let mut i = 0;
    while i + 8 <= n && a.add(i).cast::<u64>().read_unaligned() == b.add(i).cast::<u64>().read_unaligned() {
        i += 8;
    }
    while i < n && a.add(i).read() == b.add(i).read() {
        i += 1;
    }
    if i == n {
        return 0;
    }
    if n >= 2 && ON.load(Relaxed) {
        close(pc, 0, i.min(63) as u32);
        let take = |p: *const u8| -> Text {
            let mut t = [0u8; STR];
            let mut k = 0;
            while k < n.min(STR) {
                t[k] = p.add(k).read();
                k += 1;
            }
            (n.min(STR) as u8, t)
        };
        let at = TEXT_AT.get();
        let k = *at;
        TEXTS.get()[k % 64] = (take(a), take(b));
        *at = k.wrapping_add(1);
    }
    a.add(i).read() as i32 - b.add(i).read() as i32
}
#[no_mangle]
#[unsafe(naked)]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    std::arch::naked_asm!("mov rcx, [rsp]", "jmp {}", sym compare)
}
#[no_mangle]
#[unsafe(naked)]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    std::arch::naked_asm!("mov rcx, [rsp]", "jmp {}", sym compare)
}

// ---------------------------------------------------------------- used by the search

/// Comparisons are looked at while the crate runs, and only when asked to:
/// they cost more than all the rest.
pub fn on(x: bool) {
    ON.store(x && WANTED.load(Relaxed), Relaxed);
}
static WANTED: AtomicBool = AtomicBool::new(false);
pub fn comparisons(x: bool) {
    WANTED.store(x, Relaxed);
}
fn areas() -> impl Iterator<Item = &'static mut [u8]> {
    let n = *AREA_COUNT.get();
    AREAS.get()[..n].iter().map(|(p, n)| unsafe { std::slice::from_raw_parts_mut(*p as *mut u8, *n) })
}
pub fn edges() -> usize {
    areas().map(|a| a.len()).sum()
}

/// What child processes report, in memory they share.
struct Relay(*mut u8, usize);
unsafe impl Sync for Relay {}
unsafe impl Send for Relay {}
fn relay() -> &'static Relay {
    static R: std::sync::OnceLock<Relay> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let n = edges().max(1);
        let m = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(m != libc::MAP_FAILED, "HARNESS: mmap");
        Relay(m.cast(), n)
    })
}
/// In a child, at its end.
pub fn export() {
    let r = relay();
    let mut i = 0;
    for a in areas() {
        for x in a.iter() {
            unsafe { *r.0.add(i) = (*r.0.add(i)).saturating_add(*x) };
            i += 1;
        }
    }
}

pub struct Seen {
    bits: Vec<u8>,
    pub edges: usize,
}
impl Seen {
    pub fn new() -> Seen {
        relay();
        Seen { bits: vec![0; edges()], edges: 0 }
    }
    pub fn reset(&self) {
        for a in areas() {
            a.fill(0);
        }
        let r = relay();
        unsafe { std::ptr::write_bytes(r.0, 0, r.1) };
        *FRESH.get() = 0;
        *AT.get() = 0;
        *TEXT_AT.get() = 0;
    }
    /// Whether the run since `reset` took a branch, or took one as often, or
    /// brought operands as close, as none before: (edges, counts, operands).
    pub fn gather(&mut self) -> (usize, usize, usize) {
        let (mut new, mut count) = (0, 0);
        let r = relay();
        let mut i = 0;
        for a in areas() {
            for x in a.iter() {
                let c = x.saturating_add(unsafe { *r.0.add(i) });
                if c > 0 {
                    let b = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.bits[i] == 0 {
                        new += 1;
                    }
                    if self.bits[i] & b == 0 {
                        self.bits[i] |= b;
                        count += 1;
                    }
                }
                i += 1;
            }
        }
        self.edges += new;
        (new, count, *FRESH.get())
    }
}
/// Operands of the last run that differed.
pub fn pairs() -> Vec<(u64, u64, u8)> {
    let mut v: Vec<_> = RING.get()[..(*AT.get()).min(PAIRS)].to_vec();
    v.sort_unstable();
    v.dedup();
    v
}
pub fn texts() -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<_> =
        TEXTS.get()[..(*TEXT_AT.get()).min(64)].iter().map(|(a, b)| (a.1[..a.0 as usize].to_vec(), b.1[..b.0 as usize].to_vec())).collect();
    v.sort_unstable();
    v.dedup();
    v
}
