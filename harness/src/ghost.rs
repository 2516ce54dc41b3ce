//! Ghost state of the allocator: every live allocation with the layout it was requested with.
//!
//! Under Kani the functions below stand in for `std::alloc` (same C allocator underneath as Kani's
//! own model). Natively a `#[global_allocator]` in the replay binary calls the same bookkeeping.
#[cfg(kani)]
mod imp {
    use std::alloc::Layout;
    use std::ptr::NonNull;
    extern "C" {
        fn malloc(n: usize) -> *mut u8;
        fn calloc(n: usize, m: usize) -> *mut u8;
        fn free(p: *mut u8);
        fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    }
    const K: usize = 8;
    // See `tok`: the initial value is unlike every constant of the program.
    struct Blocks { _unlike: u64, p: [*mut u8; K], a: [usize; K], s: [usize; K], live: usize }
    static mut G: Blocks = Blocks { _unlike: 0x626c_6f63_6b73_d1ce, p: [std::ptr::null_mut(); K], a: [0; K], s: [0; K], live: 0 };
    // No loops: contracts choose their own bounds for the loops of the code under verification.
    macro_rules! slots { ($i:ident $b:block) => { { let $i = 0; $b } { let $i = 1; $b } { let $i = 2; $b } { let $i = 3; $b }
        { let $i = 4; $b } { let $i = 5; $b } { let $i = 6; $b } { let $i = 7; $b } } }
    unsafe fn rec(p: *mut u8, size: usize, align: usize) {
        let mut done = false;
        slots!(i {
            if !done && G.p[i].is_null() {
                G.p[i] = p; G.a[i] = align; G.s[i] = size;
                done = true;
            }
        });
        // Not an obligation of the code: the table is too small for this contract.
        kani::assert(done, "GHOST table full");
        G.live += 1;
    }
    unsafe fn unrec(p: *mut u8, size: usize, align: usize) {
        let mut found = false;
        slots!(i {
            if G.p[i] == p {
                found = true;
                kani::assert(G.a[i] == align, "CHECK C06 memory is freed with the alignment it was allocated with");
                kani::assert(G.s[i] == size, "CHECK C06 memory is freed with the size it was allocated with");
                G.p[i] = std::ptr::null_mut();
            }
        });
        kani::assert(found, "CHECK C06 only live allocations are freed");
        G.live -= 1;
    }
    /// The data at `p`, the start of a live block, has room for `size` bytes and was requested with
    /// (a multiple of) the alignment.
    pub fn placed<T>(p: *const T, align: usize, size: usize) -> bool {
        let mut ok = false;
        unsafe { slots!(i { if G.p[i] as *const u8 == p as *const u8 && G.a[i] % align == 0 && G.s[i] >= size { ok = true; } }); }
        ok
    }
    pub unsafe fn g_alloc(l: Layout) -> *mut u8 { let p = malloc(l.size()); rec(p, l.size(), l.align()); p }
    pub unsafe fn g_alloc_zeroed(l: Layout) -> *mut u8 { let p = calloc(l.size(), 1); rec(p, l.size(), l.align()); p }
    pub unsafe fn g_dealloc(p: NonNull<u8>, l: Layout) { unrec(p.as_ptr(), l.size(), l.align()); free(p.as_ptr()); }
    pub unsafe fn g_realloc(p: NonNull<u8>, l: Layout, new: usize) -> *mut u8 {
        let q = malloc(new);
        memcpy(q, p.as_ptr(), if new < l.size() { new } else { l.size() });
        unrec(p.as_ptr(), l.size(), l.align());
        free(p.as_ptr());
        rec(q, new, l.align());
        q
    }
    /// Like `g_realloc`, with arbitrary contents in the new block.
    pub unsafe fn g_realloc_havoc(p: NonNull<u8>, l: Layout, new: usize) -> *mut u8 {
        let q = malloc(new);
        unrec(p.as_ptr(), l.size(), l.align());
        free(p.as_ptr());
        rec(q, new, l.align());
        q
    }
    pub fn live() -> usize { unsafe { G.live } }
    /// Equality of type ids word by word, as the standard library defines it on the whole: in this
    /// form the model checker decides most comparisons without branching.
    pub fn type_id_eq(a: std::any::TypeId, b: std::any::TypeId) -> bool {
        let x: [*const (); 2] = unsafe { std::mem::transmute(a) };
        let y: [*const (); 2] = unsafe { std::mem::transmute(b) };
        x[0] == y[0] && x[1] == y[1]
    }
    struct Watch { _unlike: u64, p: *mut u8, base: *mut u8, total: usize, rotations: usize }
    static mut W: Watch = Watch { _unlike: 0x726f_7461_7465_d1ce, p: std::ptr::null_mut(), base: std::ptr::null_mut(), total: 0, rotations: 0 };
    /// The byte at `p`, of the block of `total` bytes at `base`, is looked at after a rotation or an
    /// exchange.
    pub fn watch<T>(p: *const u8, base: *const T, total: usize) { unsafe { W.p = p as *mut u8; W.base = base as *mut u8; W.total = total; } }
    /// The contract of `core::slice::rotate::ptr_rotate`: the range `[mid - left, mid + right)` is
    /// rotated such that the element at `mid` becomes the first.
    pub unsafe fn ptr_rotate<T>(left: usize, mid: *mut T, right: usize) {
        let s = std::mem::size_of::<T>();
        W.rotations += 1;
        let (l, total) = (left * s, (left + right) * s);
        let base = (mid as *mut u8).wrapping_sub(l);
        let off = (W.p as usize).wrapping_sub(base as usize);
        // The abstraction is exact for one rotation of the block that is looked at.
        kani::assert(W.rotations == 1, "ABSTRACTION one rotation");
        if total == 0 { return; }
        kani::assert(off < total, "ABSTRACTION the rotation covers the watched byte");
        let from = if off + l >= total { off + l - total } else { off + l };
        let x = *base.add(from);
        memcpy(base, malloc(total), total);
        *base.add(off) = x;
    }
    /// The contract of `core::ptr::swap_nonoverlapping`: the two ranges exchange their bytes. Exact at
    /// the watched byte; the rest of the watched block becomes arbitrary.
    pub unsafe fn swap_ranges<T>(x: *mut T, y: *mut T, count: usize) {
        let n = std::mem::size_of::<T>() * count;
        let (x, y) = (x as *mut u8, y as *mut u8);
        W.rotations += 1;
        kani::assert(W.rotations == 1, "ABSTRACTION one exchange");
        if n == 0 { return; }
        let base = W.base;
        let (ox, oy) = ((x as usize).wrapping_sub(base as usize), (y as usize).wrapping_sub(base as usize));
        kani::assert(ox < W.total && oy < W.total, "ABSTRACTION the exchange is within the watched block");
        kani::assert(n <= W.total - ox && n <= W.total - oy, "CHECK C08 only memory of the slice is exchanged");
        kani::assert(if ox < oy { oy - ox >= n } else { ox - oy >= n }, "CHECK C08 two ranges that are exchanged do not overlap");
        let off = (W.p as usize).wrapping_sub(base as usize);
        let from = if off.wrapping_sub(ox) < n { oy + (off - ox) } else if off.wrapping_sub(oy) < n { ox + (off - oy) } else { off };
        let b = *base.add(from);
        memcpy(base, malloc(W.total), W.total);
        *base.add(off) = b;
    }
    /// A new block of the requested size with arbitrary contents: every behaviour of `realloc` on
    /// success is one of the behaviours of this function.
    pub unsafe fn havoc_realloc(p: NonNull<u8>, _: Layout, new: usize) -> *mut u8 {
        let q = malloc(new);
        free(p.as_ptr());
        q
    }
}
#[cfg(not(kani))]
mod imp {
    //! Bookkeeping without allocation, single threaded.
    use std::alloc::{GlobalAlloc, Layout, System};
    const K: usize = 4096;
    static mut ON: bool = false;
    static mut P: [(usize, usize, usize); K] = [(0, 0, 0); K];
    static mut LIVE: usize = 0;
    pub struct Ghost;
    fn bad(what: &str) -> ! {
        unsafe { ON = false; }
        println!("REPRODUCED CHECK C06 {}", what);
        std::process::exit(101)
    }
    unsafe fn rec(p: *mut u8, l: Layout) {
        if !ON { return; }
        for e in P.iter_mut() { if e.0 == 0 { *e = (p as usize, l.size(), l.align()); LIVE += 1; return; } }
    }
    unsafe fn unrec(p: *mut u8, l: Layout) {
        if !ON { return; }
        for e in P.iter_mut() {
            if e.0 == p as usize {
                if e.1 != l.size() { bad("memory is freed with the size it was allocated with"); }
                if e.2 != l.align() { bad("memory is freed with the alignment it was allocated with"); }
                *e = (0, 0, 0);
                LIVE -= 1;
                return;
            }
        }
    }
    unsafe impl GlobalAlloc for Ghost {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); rec(p, l); p }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); rec(p, l); p }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unrec(p, l); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            unrec(p, l);
            let q = System.realloc(p, l, n);
            rec(q, Layout::from_size_align_unchecked(n, l.align()));
            q
        }
    }
    pub fn start() { unsafe { ON = true; } }
    pub fn placed<T>(p: *const T, align: usize, size: usize) -> bool {
        let _ = size;
        p as usize % align == 0
    }
    pub fn watch<T>(_: *const u8, _: *const T, _: usize) {}
    pub fn stop() { unsafe { ON = false; } }
    pub fn live() -> usize { unsafe { LIVE } }
}
pub use imp::*;
