/// An allocator that notices blocks freed twice, keeps freed memory poisoned for a while and counts live blocks.
pub mod own_alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static BAD: AtomicU64 = AtomicU64::new(0);
    const ALIVE: u64 = 0xA11C_0DE5_0B1E_C700;
    const DEAD: u64 = 0xDEAD_0B1E_C700_0001;
    const N: usize = 1 << 16;
    static Q: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
    static QS: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
    static BUSY: AtomicBool = AtomicBool::new(false);
    static HEAD: AtomicUsize = AtomicUsize::new(0);
    pub struct A;
    fn pad(l: &Layout) -> usize { l.align().max(16) }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad(&l), pad(&l)));
            if p.is_null() { return p; }
            let r = p.add(pad(&l));
            (r.sub(16) as *mut u64).write(ALIVE);
            (r.sub(8) as *mut u64).write(l.size() as u64);
            LIVE.fetch_add(1, SeqCst);
            r
        }
        unsafe fn dealloc(&self, r: *mut u8, l: Layout) {
            let m = r.sub(16) as *mut u64;
            if m.read() != ALIVE || (r.sub(8) as *mut u64).read() != l.size() as u64 {
                BAD.fetch_add(1, SeqCst);
                return;
            }
            m.write(DEAD);
            LIVE.fetch_sub(1, SeqCst);
            std::ptr::write_bytes(r, 0xDD, l.size());
            if l.align() > 16 || l.size() > 4096 {
                System.dealloc(r.sub(pad(&l)), Layout::from_size_align_unchecked(l.size() + pad(&l), pad(&l)));
                return;
            }
            // keep it poisoned until N later blocks are gone
            while BUSY.compare_exchange(false, true, SeqCst, SeqCst).is_err() { std::hint::spin_loop(); }
            let i = HEAD.fetch_add(1, SeqCst) % N;
            let s = QS[i].swap(l.size(), SeqCst);
            let old = Q[i].swap(r as usize, SeqCst);
            BUSY.store(false, SeqCst);
            if old != 0 {
                let o = old as *mut u8;
                System.dealloc(o.sub(16), Layout::from_size_align_unchecked(s + 16, 16));
            }
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;
}
