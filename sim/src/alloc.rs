//! An allocator that knows on whose behalf memory was taken: what the broker holds is counted
//! apart from what the simulator, the clients and the checks hold.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn took(n: i64) {
    let now = BYTES.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe fn wrap(l: Layout) -> Option<(Layout, usize)> {
    let h = head(&l);
    let n = l.size().checked_add(h)?;
    Layout::from_size_align(n, h).ok().map(|x| (x, h))
}

/// When the harness itself finds no memory, that is not the broker's failure.
fn exhausted(harness: bool) {
    if harness {
        unsafe { libc::_exit(3) }
    }
}

unsafe fn mark(p: *mut u8, h: usize, size: usize) -> *mut u8 {
    let d = tokio::sim::domain();
    if p.is_null() {
        exhausted(d == 0);
        return p;
    }
    let q = p.add(h);
    *(q.sub(8) as *mut u64) = d as u64;
    if d != 0 {
        took(size as i64);
        BLOCKS.fetch_add(1, Relaxed);
    }
    q
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match wrap(l) {
            Some((x, h)) => mark(System.alloc(x), h, l.size()),
            None => std::ptr::null_mut(),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match wrap(l) {
            Some((x, h)) => mark(System.alloc_zeroed(x), h, l.size()),
            None => std::ptr::null_mut(),
        }
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let Some((x, h)) = wrap(l) else { return };
        if *(q.sub(8) as *const u64) != 0 {
            BYTES.fetch_sub(l.size() as i64, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
        }
        System.dealloc(q.sub(h), x)
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let Some((x, h)) = wrap(l) else { return std::ptr::null_mut() };
        let Some(m) = n.checked_add(h) else { return std::ptr::null_mut() };
        let ours = *(q.sub(8) as *const u64) != 0;
        let p = System.realloc(q.sub(h), x, m);
        if p.is_null() {
            exhausted(!ours);
            return p;
        }
        if ours {
            took(n as i64 - l.size() as i64);
        }
        p.add(h)
    }
}

/// Bytes and blocks that the broker holds.
pub fn held() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}

/// The most bytes it ever held.
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
