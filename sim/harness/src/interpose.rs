//! Seams below the standard library: the process' own definitions of some libc functions take precedence
//! over libc's.
use std::sync::atomic::{AtomicU64, Ordering};

/// The seed of all hash maps of a run (iteration order).
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

/// Hash map keys come from here. Constant within a run, so that the order of iteration only depends on the
/// run's seed. Nothing in these processes needs real randomness.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.load(Ordering::Relaxed);
    for k in 0..len {
        if k % 8 == 0 {
            s = crate::rng::mix(s, k as u64 + 1);
        }
        *buf.add(k) = (s >> ((k % 8) * 8)) as u8;
    }
    len as isize
}

// ------------------------------------------------------------------------------------------------ directories

/// What directory listings do, for the calling thread. `None`: as usual.
#[derive(Clone, Debug, Default)]
pub struct DirPlan {
    /// Order of the entries.
    pub shuffle: u64,
    /// Opening the directory fails.
    pub open_error: Option<i32>,
    /// Reading the nth entry fails.
    pub read_error: Option<(usize, i32)>,
}

struct Listing {
    entries: Vec<libc::dirent64>,
    at: usize,
}

std::thread_local! {
    static DIRS: std::cell::RefCell<Option<DirPlan>> = const { std::cell::RefCell::new(None) };
    static OPEN: std::cell::RefCell<Vec<(usize, Listing)>> = const { std::cell::RefCell::new(vec![]) };
    static FIRED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs `f` with directory listings as planned. Returns how many listing faults fired, too.
pub fn with_dirs<R>(plan: DirPlan, f: impl FnOnce() -> R) -> (R, u32) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            DIRS.with(|d| *d.borrow_mut() = None);
            OPEN.with(|o| o.borrow_mut().clear());
        }
    }
    FIRED.with(|f| f.set(0));
    DIRS.with(|d| *d.borrow_mut() = Some(plan));
    let reset = Reset;
    let r = f();
    drop(reset);
    (r, FIRED.with(|f| f.get()))
}

fn plan() -> Option<DirPlan> {
    DIRS.try_with(|d| d.try_borrow().ok().and_then(|d| d.clone())).ok().flatten()
}

unsafe fn real(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    p
}

#[no_mangle]
pub unsafe extern "C" fn opendir(name: *const libc::c_char) -> *mut libc::DIR {
    if let Some(e) = plan().and_then(|p| p.open_error) {
        FIRED.with(|f| f.set(f.get() + 1));
        *libc::__errno_location() = e;
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR = std::mem::transmute(real(c"opendir"));
    f(name)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(real(c"readdir64"));
    let Some(p) = plan() else { return f(dir) };
    OPEN.with(|o| {
        let mut o = o.borrow_mut();
        let key = dir as usize;
        if !o.iter().any(|(k, _)| *k == key) {
            let mut entries = vec![];
            loop {
                let e = f(dir);
                if e.is_null() {
                    break;
                }
                // Entries may be shorter than the type.
                let mut c: libc::dirent64 = std::mem::zeroed();
                let n = ((*e).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>());
                std::ptr::copy_nonoverlapping(e as *const u8, &mut c as *mut _ as *mut u8, n);
                entries.push(c);
            }
            // First a fixed order, whatever the file system says, then the planned one.
            entries.sort_by_key(|e| std::ffi::CStr::from_ptr(e.d_name.as_ptr()).to_bytes().to_vec());
            crate::rng::Rng::new(p.shuffle, 5).shuffle(&mut entries);
            o.push((key, Listing { entries, at: 0 }));
        }
        let l = &mut o.iter_mut().find(|(k, _)| *k == key).unwrap().1;
        if let Some((n, e)) = p.read_error {
            if l.at == n {
                l.at += 1;
                FIRED.with(|f| f.set(f.get() + 1));
                *libc::__errno_location() = e;
                return std::ptr::null_mut();
            }
        }
        let skip = matches!(p.read_error, Some((n, _)) if l.at > n) as usize;
        let at = l.at - skip;
        if at >= l.entries.len() {
            *libc::__errno_location() = 0;
            return std::ptr::null_mut();
        }
        l.at += 1;
        &mut l.entries[at]
    })
}

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> libc::c_int {
    let _ = OPEN.try_with(|o| {
        if let Ok(mut o) = o.try_borrow_mut() {
            o.retain(|(k, _)| *k != dir as usize);
        }
    });
    let f: unsafe extern "C" fn(*mut libc::DIR) -> libc::c_int = std::mem::transmute(real(c"closedir"));
    f(dir)
}
