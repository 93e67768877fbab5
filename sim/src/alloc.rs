//! The simulated heap: a bump arena at a fixed address, poisoned, with red zones or guard pages,
//! and with allocation failures on request. Outside a simulation it is the system allocator.
use crate::rng::mix;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

pub const ARENA: usize = 0x6000_0000_0000;
const SIZE: usize = 8 << 30;
const RED: usize = 64;
const MAGIC: u64 = 0x51ac_0ffe_e0dd_f00d;
const RZ: u8 = 0xa7;

static mut ON: bool = false;
static mut TOP: usize = ARENA;
static mut POISON: u64 = 0;
static mut GUARD: bool = false;
static mut REUSE: bool = false;
static mut FAIL_AT: u32 = 0;
static mut FAIL_EVERY: u32 = 0;
static mut FAIL_MIN: usize = usize::MAX;
static mut SEEN: u32 = 0;
static mut HEAD: usize = 0; // list of live and dead block headers, newest first
/// every protected range splits a mapping, of which a process may have 65530
static mut PROTECTED: u32 = 0;
const PROTECT_MAX: u32 = 20000;
static mut FREE: [usize; 64] = [0; 64];

#[repr(C)]
struct Hdr {
    magic: u64,
    prev: usize,
    size: usize,
    start: usize,
    end_red: usize,
    cap: usize,
    op: u32,
    live: u32,
}

pub struct Mode {
    pub poison: u64,
    /// put big blocks directly before an unmapped page
    pub guard: bool,
    /// hand freed blocks out again, with their stale contents
    pub reuse: bool,
    /// fail the n-th allocation (1-based, 0: none) of at least `fail_min` bytes made for a request
    pub fail_at: u32,
    pub fail_every: u32,
    pub fail_min: usize,
}
pub unsafe fn start(m: Mode) {
    let a = libc::mmap(
        ARENA as *mut _,
        SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    assert!(a as usize == ARENA);
    TOP = ARENA + 4096;
    POISON = m.poison;
    GUARD = m.guard;
    REUSE = m.reuse;
    FAIL_AT = m.fail_at;
    FAIL_MIN = m.fail_min;
    FAIL_EVERY = m.fail_every;
    SEEN = 0;
    HEAD = 0;
    PROTECTED = 0;
    ON = true;
}
pub unsafe fn stop() {
    ON = false;
}
fn inside(p: *mut u8) -> bool {
    (p as usize) >= ARENA && (p as usize) < ARENA + SIZE
}
unsafe fn poison(p: usize, n: usize, salt: u64) {
    // eight-byte pattern; the choice decides what uninitialised memory looks like
    let pat = match POISON % 4 {
        0 => [0u8; 8],
        1 => [0xff; 8],
        2 => mix(POISON, 1).to_le_bytes(),
        _ => mix(POISON, salt).to_le_bytes(),
    };
    let w = u64::from_le_bytes(pat);
    let q = p as *mut u64;
    for i in 0..n / 8 {
        q.add(i).write_unaligned(w);
    }
    for i in n / 8 * 8..n {
        *((p + i) as *mut u8) = pat[i % 8];
    }
}
unsafe fn class(n: usize) -> usize {
    (usize::BITS - n.max(1).next_power_of_two().leading_zeros()) as usize & 63
}
unsafe fn account(op: u32, size: i64) {
    if op >= 1 && op <= 64 {
        let (o, k) = (sched::out(), op as usize - 1);
        o.op_held[k] += size;
        o.op_peak[k] = o.op_peak[k].max(o.op_held[k]);
        o.op_asked[k] += size.max(0);
    }
}
unsafe fn grab(l: Layout, zero: bool) -> *mut u8 {
    let p = grab_inner(l, zero);
    if !p.is_null() {
        account(sched::cur_op(), l.size() as i64);
    }
    p
}
unsafe fn grab_inner(l: Layout, zero: bool) -> *mut u8 {
    let size = l.size().max(1);
    let align = l.align().max(16);
    let op = sched::cur_op();
    if op != 0 && size >= FAIL_MIN && !std::thread::panicking() && (l.align() <= 4 || sched::on_client()) {
        SEEN += 1;
        if SEEN == FAIL_AT || (FAIL_EVERY > 0 && SEEN > FAIL_AT && (SEEN - FAIL_AT) % FAIL_EVERY == 0) {
            let o = sched::out();
            o.alloc_failed += 1;
            o.alloc_failed_ops |= 1 << (op - 1).min(63);
            o.alloc_failed_size = size as u64;
            return std::ptr::null_mut();
        }
    }
    if REUSE && align == 16 {
        let c = class(size);
        let mut p = FREE[c];
        let mut prev = 0usize;
        let mut k = 0;
        while p != 0 && k < 8 {
            let h = p as *mut Hdr;
            let next = *((*h).start as *const usize);
            if (*h).cap >= size && (*h).start % align == 0 {
                if prev == 0 {
                    FREE[c] = next;
                } else {
                    *((*(prev as *mut Hdr)).start as *mut usize) = next;
                }
                (*h).live = 1;
                (*h).size = size;
                (*h).op = op;
                *((*h).start as *mut usize) = mix(POISON, 77) as usize;
                std::ptr::write_bytes(((*h).start + size) as *mut u8, RZ, (*h).end_red - (*h).start - size);
                if zero {
                    std::ptr::write_bytes((*h).start as *mut u8, 0, size);
                }
                return (*h).start as *mut u8;
            }
            prev = p;
            p = next;
            k += 1;
        }
    }
    let hdr = (TOP + 63) & !63;
    let start;
    let end_red;
    if GUARD && size >= 1024 && PROTECTED < PROTECT_MAX {
        PROTECTED += 1;
        // [header | red | ... block][unmapped page]
        let need = std::mem::size_of::<Hdr>() + RED + align + size;
        let pages = (need + 4095) / 4096;
        let page0 = (hdr + 4095) & !4095;
        let end = page0 + pages * 4096;
        start = (end - size) & !(align - 1);
        end_red = end;
        if libc::mprotect(end as *mut _, 4096, libc::PROT_NONE) != 0 {
            return std::ptr::null_mut();
        }
        TOP = end + 4096;
        return finish_block(page0, start, size, end_red, op, zero);
    }
    start = (hdr + std::mem::size_of::<Hdr>() + RED + align - 1) & !(align - 1);
    let cap = (size + 15) & !15;
    end_red = start + cap + RED;
    if end_red + 8192 > ARENA + SIZE {
        return std::ptr::null_mut();
    }
    TOP = end_red;
    finish_block(hdr, start, size, end_red, op, zero)
}
unsafe fn finish_block(hdr: usize, start: usize, size: usize, end_red: usize, op: u32, zero: bool) -> *mut u8 {
    let h = hdr as *mut Hdr;
    *h = Hdr { magic: MAGIC ^ hdr as u64, prev: HEAD, size, start, end_red, cap: if end_red - start >= size + RED { end_red - start - RED } else { size }, op, live: 1 };
    HEAD = hdr;
    // pointer to the header right below the block's red zone
    *((start - 8) as *mut usize) = hdr;
    std::ptr::write_bytes((start - 8 - 32) as *mut u8, RZ, 32);
    std::ptr::write_bytes((start + size) as *mut u8, RZ, end_red - start - size);
    if !zero {
        poison(start, size, start as u64);
    }
    start as *mut u8
}
unsafe fn check(h: *mut Hdr) -> bool {
    let z = &*h;
    if z.magic != MAGIC ^ h as u64 || *((z.start - 8) as *const usize) != h as usize {
        return false;
    }
    let a = std::slice::from_raw_parts((z.start - 40) as *const u8, 32);
    let b = std::slice::from_raw_parts((z.start + z.size) as *const u8, z.end_red - z.start - z.size);
    a.iter().all(|x| *x == RZ) && b.iter().all(|x| *x == RZ)
}
unsafe fn smashed(size: usize) {
    let o = sched::out();
    o.heap_smashed += 1;
    o.heap_smashed_size = size as u64;
}
unsafe fn release(p: *mut u8) {
    let hp = *((p as usize - 8) as *const usize);
    if hp < ARENA || hp >= p as usize || (*(hp as *const Hdr)).magic != MAGIC ^ hp as u64 {
        smashed(0);
        return;
    }
    let h = hp as *mut Hdr;
    if (*h).live != 1 || !check(h) {
        smashed((*h).size);
        return;
    }
    (*h).live = 0;
    account((*h).op, -((*h).size as i64));
    if REUSE && (*h).cap >= 16 && !GUARD {
        // contents stay (stale memory); only the link is written
        let c = class((*h).size);
        *((*h).start as *mut usize) = FREE[c];
        FREE[c] = hp;
    } else {
        std::ptr::write_bytes((*h).start as *mut u8, 0xdd, (*h).size);
        if (*h).size >= 4096 {
            // a late access faults
            let a = ((*h).start + 4095) & !4095;
            let b = ((*h).start + (*h).size) & !4095;
            if b > a && PROTECTED < PROTECT_MAX {
                PROTECTED += 1;
                libc::mprotect(a as *mut _, b - a, libc::PROT_NONE);
            }
        }
    }
}
/// Walk every block: red zones intact? how many bytes are still live per request?
pub unsafe fn audit(live: &mut [i64; 64]) {
    let mut p = HEAD;
    while p != 0 {
        let h = p as *mut Hdr;
        if (*h).magic != MAGIC ^ p as u64 {
            smashed(0);
            return;
        }
        if (*h).live == 1 {
            if !check(h) {
                smashed((*h).size);
            }
            let op = (*h).op as usize;
            if op >= 1 && op <= 64 {
                live[op - 1] += (*h).size as i64;
            }
        }
        p = (*h).prev;
    }
    sched::out().alloc_seen = SEEN;
    sched::out().arena_used = (TOP - ARENA) as u64;
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON {
            grab(l, false)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON {
            grab(l, true)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if inside(p) {
            release(p)
        } else if !ON {
            System.dealloc(p, l)
        }
        // blocks allocated before the simulation started are left alone
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON || inside(p) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
