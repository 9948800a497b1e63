//! Looks into memory blocks when they are given back, for secrets that should have been wiped.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
pub struct Watch;
static LEN: AtomicUsize = AtomicUsize::new(0);
static FOUND: AtomicBool = AtomicBool::new(false);
static mut PAT: [u8; 1024] = [0; 1024];
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }
#[inline(never)]
unsafe fn scan(p: *mut u8, size: usize) {
    if !ON.try_with(|x| x.get()).unwrap_or(false) { return; }
    let n = LEN.load(SeqCst);
    if n == 0 || n > size { return; }
    let pat = &*std::ptr::addr_of!(PAT);
    let mut i = 0;
    'o: while i + n <= size {
        for j in 0..n { if std::ptr::read_volatile(p.add(i + j)) != pat[j] { i += 1; continue 'o; } }
        FOUND.store(true, SeqCst);
        return;
    }
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { scan(p, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
/// does a block given back during f still hold the pattern?
pub fn watch(pat: &[u8], f: impl FnOnce()) -> bool {
    let n = pat.len().min(1024);
    unsafe { let p = &mut *std::ptr::addr_of_mut!(PAT); p[..n].copy_from_slice(&pat[..n]); }
    LEN.store(n, SeqCst);
    FOUND.store(false, SeqCst);
    ON.with(|x| x.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|x| x.set(false));
    if let Err(e) = r { std::panic::resume_unwind(e); }
    FOUND.load(SeqCst)
}
/// the bytes a value leaves behind in the given part of its memory
pub fn after_drop<T>(v: T, part: impl Fn(&T) -> (*const u8, usize)) -> Vec<u8> {
    let mut b = Box::new(std::mem::MaybeUninit::new(v));
    unsafe {
        let (p, n) = part(&*b.as_ptr());
        std::ptr::drop_in_place(b.as_mut_ptr());
        (0..n).map(|i| std::ptr::read_volatile(p.add(i))).collect()
    }
}
/// drops a value in one of several situations: plainly, while a panic unwinds, on another thread, inside a collection
pub fn drop_in<T: Send + 'static>(way: usize, v: T) {
    match way {
        1 => { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _v = v; std::panic::resume_unwind(Box::new(1u8)); })); let _ = r; }
        3 => { let mut w = vec![v]; w.truncate(0); }
        4 => { let mut o = Some(std::rc::Rc::new(v)); let p = o.clone(); o.take(); drop(p); }
        5 => { let mut b = Box::new(Some(v)); *b = None; }
        _ => drop(v),
    }
}
/// watch, with the drop on a thread of its own when way is 2
pub fn watch_drop<T: Send + 'static>(pat: &[u8], way: usize, v: T) -> bool {
    if way == 2 {
        let p = pat.to_vec();
        std::thread::spawn(move || watch(&p, move || drop(v))).join().unwrap_or(false)
    } else {
        watch(pat, move || drop_in(way, v))
    }
}
/// after_drop while a panic unwinds
pub fn after_drop_unwinding<T>(v: T, part: impl Fn(&T) -> (*const u8, usize)) -> Vec<u8> {
    struct G<'a, T, F: Fn(&T) -> (*const u8, usize)>(Option<T>, F, &'a mut Vec<u8>);
    impl<'a, T, F: Fn(&T) -> (*const u8, usize)> Drop for G<'a, T, F> {
        fn drop(&mut self) { *self.2 = after_drop(self.0.take().unwrap(), &self.1); }
    }
    let mut out = vec![];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = G(Some(v), part, &mut out); std::panic::resume_unwind(Box::new(1u8)); }));
    out
}
