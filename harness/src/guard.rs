//! Memory whose neighbourhood cannot be touched: objects and inputs placed directly before or
//! directly after an inaccessible page, inputs also read-only.  Used when HARNESS_GUARD is
//! set; otherwise (and in the interpreter, which checks every access itself) plain boxes.
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

pub fn enabled() -> bool {
    static ON: OnceLock<bool> = OnceLock::new();
    *ON.get_or_init(|| !cfg!(miri) && cfg!(all(target_os = "linux", target_pointer_width = "64")) && std::env::var_os("HARNESS_GUARD").is_some())
}

#[cfg(all(target_os = "linux", target_pointer_width = "64"))]
mod sys {
    use std::os::raw::{c_int, c_void};
    extern "C" {
        fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
        fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int;
        fn munmap(addr: *mut c_void, len: usize) -> c_int;
    }
    /// An inaccessible area with `len` usable bytes from `base + PAGE`.
    pub unsafe fn map(len: usize) -> usize {
        let p = mmap(std::ptr::null_mut(), len + 2 * super::PAGE, 0, 0x22, -1, 0) as usize;
        assert!(p != !0, "no memory");
        protect(p + super::PAGE, len, 3);
        p
    }
    pub unsafe fn protect(p: usize, len: usize, prot: c_int) {
        assert!(mprotect(p as *mut c_void, len, prot) == 0, "no protection");
    }
    pub unsafe fn unmap(p: usize, len: usize) {
        munmap(p as *mut c_void, len + 2 * super::PAGE);
    }
}
#[cfg(not(all(target_os = "linux", target_pointer_width = "64")))]
mod sys {
    pub unsafe fn map(_: usize) -> usize {
        unreachable!()
    }
    pub unsafe fn protect(_: usize, _: usize, _: i32) {}
    pub unsafe fn unmap(_: usize, _: usize) {}
}

const PAGE: usize = 4096;
/// Scripts may ask for addresses modulo this.
pub const PLACES: usize = 64;
static TURN: AtomicUsize = AtomicUsize::new(0);

/// `size` bytes at the end (or, every third time, at the beginning) of a guarded area.
struct Area {
    base: usize,
    len: usize,
    at: usize,
}

impl Area {
    fn new(size: usize) -> Area {
        let len = (size.max(1) + PAGE - 1) / PAGE * PAGE;
        let base = unsafe { sys::map(len) };
        let at = if TURN.fetch_add(1, Ordering::Relaxed) % 3 == 2 { base + PAGE } else { base + PAGE + len - size };
        Area { base, len, at }
    }
    /// As far to the end as an address of `place` modulo PLACES allows.
    fn placed(size: usize, place: usize) -> Area {
        let len = (size + PLACES + PAGE - 1) / PAGE * PAGE;
        let base = unsafe { sys::map(len) };
        let end = base + PAGE + len - size;
        Area { base, len, at: end - (end + PLACES - place % PLACES) % PLACES }
    }
}

impl Drop for Area {
    fn drop(&mut self) {
        unsafe { sys::unmap(self.base, self.len) }
    }
}

enum Place<T> {
    Guarded(Area, std::marker::PhantomData<T>),
    Plain(Box<T>),
    /// Plain memory with an address asked for.
    At(Vec<u8>, usize, std::marker::PhantomData<T>),
}

/// An object in guarded memory.
pub struct G<T>(Place<T>);

impl<T> G<T> {
    pub fn new(v: T) -> G<T> {
        if !enabled() {
            return G(Place::Plain(Box::new(v)));
        }
        let a = Area::new(std::mem::size_of::<T>());
        assert!(a.at % std::mem::align_of::<T>() == 0);
        unsafe { std::ptr::write(a.at as *mut T, v) };
        G(Place::Guarded(a, std::marker::PhantomData))
    }
}

impl<T> G<T> {
    pub fn placed(v: T, place: usize) -> G<T> {
        let size = std::mem::size_of::<T>();
        assert!(place % std::mem::align_of::<T>() == 0);
        if enabled() {
            let a = Area::placed(size, place);
            unsafe { std::ptr::write(a.at as *mut T, v) };
            return G(Place::Guarded(a, std::marker::PhantomData));
        }
        let mut m = vec![0u8; size + PLACES];
        let off = offset(&m, place);
        unsafe { std::ptr::write(m.as_mut_ptr().add(off) as *mut T, v) };
        G(Place::At(m, off, std::marker::PhantomData))
    }
}

/// Where in `m` an address of `place` modulo PLACES is.
pub fn offset(m: &[u8], place: usize) -> usize {
    (place + PLACES - m.as_ptr() as usize % PLACES) % PLACES
}

impl<T> Deref for G<T> {
    type Target = T;
    fn deref(&self) -> &T {
        match &self.0 {
            Place::Guarded(a, _) => unsafe { &*(a.at as *const T) },
            Place::Plain(b) => b,
            Place::At(m, off, _) => unsafe { &*(m.as_ptr().add(*off) as *const T) },
        }
    }
}

impl<T> DerefMut for G<T> {
    fn deref_mut(&mut self) -> &mut T {
        match &mut self.0 {
            Place::Guarded(a, _) => unsafe { &mut *(a.at as *mut T) },
            Place::Plain(b) => b,
            Place::At(m, off, _) => unsafe { &mut *(m.as_mut_ptr().add(*off) as *mut T) },
        }
    }
}

impl<T: Clone> Clone for G<T> {
    fn clone(&self) -> G<T> {
        G::new((**self).clone())
    }
}

impl<T> Drop for G<T> {
    fn drop(&mut self) {
        match &mut self.0 {
            Place::Guarded(a, _) => unsafe { std::ptr::drop_in_place(a.at as *mut T) },
            Place::At(m, off, _) => unsafe { std::ptr::drop_in_place(m.as_mut_ptr().add(*off) as *mut T) },
            Place::Plain(_) => (),
        }
    }
}

/// Read-only bytes in guarded memory.
pub struct Bytes(Area, usize);

impl Bytes {
    pub fn new(v: &[u8]) -> Bytes {
        Bytes::within(v, Area::new(v.len()))
    }
    pub fn placed(v: &[u8], place: usize) -> Bytes {
        Bytes::within(v, Area::placed(v.len(), place))
    }
    fn within(v: &[u8], a: Area) -> Bytes {
        unsafe {
            std::ptr::copy_nonoverlapping(v.as_ptr(), a.at as *mut u8, v.len());
            sys::protect(a.base + PAGE, a.len, 1);
        }
        Bytes(a, v.len())
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.at as *const u8, self.1) }
    }
}
