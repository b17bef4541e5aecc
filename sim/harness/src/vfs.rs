//! The storage under SQLite: files in memory, with locks, simulated waiting, injected faults and power loss.
//! It is the only file system SQLite knows in these processes.
use crate::rng::Rng;
use rusqlite::ffi;
use simstd::sim::{self, Kind};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::os::unix::ffi::OsStrExt;
use std::sync::{Mutex, Once};

/// What kind of storage call a fault applies to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// The file cannot be opened.
    CantOpen,
    /// A read fails.
    ReadError,
    /// A read ends early (as in a truncated file).
    ShortRead,
    /// The start of the file is garbage (as in a file being replaced).
    Garbage,
    /// Locking fails.
    LockError,
    /// Somebody else holds the file for that long.
    Busy(u64),
    /// The size of the file cannot be had.
    SizeError,
    /// The file is empty.
    SizeZero,
    /// A larger allocation inside SQLite fails.
    NoMemory,
}

impl FaultKind {
    pub fn name(&self) -> String {
        match self {
            FaultKind::CantOpen => "file cannot be opened".into(),
            FaultKind::ReadError => "read error".into(),
            FaultKind::ShortRead => "short read".into(),
            FaultKind::Garbage => "garbage header".into(),
            FaultKind::LockError => "lock error".into(),
            FaultKind::Busy(us) if *us > 5_000_000 => "file locked for long".into(),
            FaultKind::Busy(_) => "file locked for a while".into(),
            FaultKind::SizeError => "file size error".into(),
            FaultKind::SizeZero => "file truncated to nothing".into(),
            FaultKind::NoMemory => "allocation failure in SQLite".into(),
        }
    }
    fn class(&self) -> Class {
        match self {
            FaultKind::CantOpen => Class::Open,
            FaultKind::ReadError | FaultKind::ShortRead | FaultKind::Garbage => Class::Read,
            FaultKind::LockError | FaultKind::Busy(_) => Class::Lock,
            FaultKind::SizeError | FaultKind::SizeZero => Class::Size,
            FaultKind::NoMemory => Class::Malloc,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    Open,
    Read,
    Lock,
    Size,
    Malloc,
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// Operation in which it happens.
    pub op: usize,
    pub kind: FaultKind,
    /// At which matching call of that operation, counted from 0.
    pub nth: u32,
    /// For how many calls.
    pub times: u32,
}

impl Fault {
    pub fn show(&self) -> String {
        format!("{} in operation {}, from call {} on for {}", self.kind.name(), self.op, self.nth, self.times)
    }
}

#[derive(Clone)]
enum Write {
    Data(usize, Vec<u8>),
    Size(usize),
}

#[derive(Clone, Default)]
struct MemFile {
    data: Vec<u8>,
    /// As of the last sync; None: never synced.
    durable: Option<Vec<u8>>,
    log: Vec<Write>,
    shared: BTreeSet<u64>,
    reserved: Option<u64>,
    pending: Option<u64>,
    exclusive: Option<u64>,
}

impl MemFile {
    fn drop_locks(&mut self, h: u64, all: bool) {
        for l in [&mut self.reserved, &mut self.pending, &mut self.exclusive] {
            if *l == Some(h) {
                *l = None;
            }
        }
        if all {
            self.shared.remove(&h);
        }
    }
}

#[derive(Default)]
pub struct State {
    files: BTreeMap<String, MemFile>,
    next: u64,
    links: BTreeMap<Vec<u8>, Vec<u8>>,
    /// Handles by role.
    owners: BTreeMap<u64, u32>,
    dead: BTreeSet<u32>,
    pub faults: Vec<Fault>,
    seen: Vec<u32>,
    busy_until: Vec<u64>,
    /// (operation, fault)
    pub fired: Vec<(usize, usize)>,
    /// Operations in which reading a file header, as part of opening it, failed (how often).
    pub headers: BTreeMap<usize, usize>,
    pub calls: u64,
    /// The role dies at this mutating call of its (counted from 0), and whether the power goes with it.
    crash: Option<(u32, u64, bool)>,
    mutations: BTreeMap<u32, u64>,
    power_off: bool,
    pub crashed: bool,
    pub random: u64,
    /// Files which were unreadable in an operation: (operation, file).
    damaged: Vec<(usize, String)>,
    /// Requests of the code under test in progress.
    requests: u32,
    /// What the code under test did to files.
    wrote: BTreeSet<String>,
    /// Files it had locked with no request in progress.
    kept: BTreeSet<String>,
    /// Files it has open.
    held: BTreeMap<u64, String>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

std::thread_local! {
    static ROLE: Cell<u32> = const { Cell::new(0) };
    static OP: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static WATCHED: Cell<u32> = const { Cell::new(0) };
}

/// While it lives, the calling thread runs the code under test.
pub struct Watch;

pub fn watch() -> Watch {
    WATCHED.with(|w| w.set(w.get() + 1));
    with(|s| s.requests += 1);
    Watch
}

impl Drop for Watch {
    fn drop(&mut self) {
        WATCHED.with(|w| w.set(w.get() - 1));
        let quiet = std::thread::panicking() || sim::stopped();
        with(|s| {
            s.requests -= 1;
            if s.requests == 0 && !quiet && !s.power_off {
                let State { files, owners, kept, .. } = s;
                for (n, f) in files.iter() {
                    let mut holders = f.shared.iter().copied().chain(f.reserved).chain(f.pending).chain(f.exclusive);
                    if holders.any(|h| owners.get(&h) == Some(&0)) && kept.len() < 4 {
                        kept.insert(n.clone());
                    }
                }
            }
        });
    }
}

fn wrote(what: &str, name: &str) {
    if WATCHED.with(|w| w.get()) > 0 && ROLE.with(|r| r.get()) == 0 {
        with(|s| {
            if s.wrote.len() < 4 {
                s.wrote.insert(format!("{what} {}", name.rsplit('/').next().unwrap_or("")));
            }
        });
    }
}

/// (what the code under test did to files, files it kept locked between requests)
pub fn traces() -> (Vec<String>, Vec<String>) {
    with(|s| {
        let base = |n: &String| n.rsplit('/').next().unwrap_or("").to_string();
        (s.wrote.iter().cloned().collect(), s.kept.iter().map(base).collect())
    })
}

/// Files the code under test has open.
pub fn held() -> Vec<String> {
    with(|s| s.held.values().map(|n| n.rsplit('/').next().unwrap_or("").to_string()).collect())
}

/// Which party the calling thread acts for (0: the code under test).
pub fn set_role(role: u32) {
    ROLE.with(|r| r.set(role));
}

/// Which operation the calling thread performs: faults refer to it.
pub fn set_op(op: Option<usize>) {
    let old = OP.with(|o| o.replace(op.unwrap_or(usize::MAX)));
    if op.is_none() && old != usize::MAX {
        // A file that was truncated or garbage has been written again: its change counter says so.
        let list: Vec<String> = with(|s| {
            let l = s.damaged.iter().filter(|d| d.0 == old).map(|d| d.1.clone()).collect();
            s.damaged.retain(|d| d.0 != old);
            l
        });
        for f in list {
            bump(&f);
        }
    }
}

fn damage(path: &str) {
    let op = OP.with(|o| o.get());
    with(|s| {
        if !s.damaged.iter().any(|d| d.0 == op && d.1 == path) {
            s.damaged.push((op, path.to_string()));
        }
    });
}

pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let was = INSIDE.with(|i| i.replace(true));
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let r = f(g.get_or_insert_with(State::default));
    drop(g);
    INSIDE.with(|i| i.set(was));
    r
}

/// Empty storage, no faults. All connections must be closed.
pub fn reset(seed: u64) {
    install();
    with(|s| {
        *s = State::default();
        s.random = seed;
    });
    // SQLite's own generator starts again from this storage's randomness.
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
}

/// Names are bytes; those that are not UTF-8 are kept apart from those that look alike.
pub fn key(name: &[u8]) -> String {
    match std::str::from_utf8(name) {
        Ok(s) => s.to_string(),
        Err(_) => format!("\u{1}{}", name.escape_ascii()),
    }
}

/// What is at `link` is the file `target`, whose contents are kept under the name of the link.
pub fn linked(link: &str, target: &str) {
    with(|s| {
        s.links.insert(target.as_bytes().to_vec(), link.as_bytes().to_vec());
    });
}

pub fn put(path: &str, data: Vec<u8>) {
    with(|s| {
        s.files.insert(path.to_string(), MemFile { durable: Some(data.clone()), data, ..Default::default() });
    });
}

pub fn get(path: &str) -> Option<Vec<u8>> {
    with(|s| s.files.get(path).map(|f| f.data.clone()))
}

pub fn remove(path: &str) {
    with(|s| {
        s.files.remove(path);
    });
}

pub fn set_faults(f: Vec<Fault>) {
    with(|s| {
        s.seen = vec![0; f.len()];
        s.busy_until = vec![0; f.len()];
        s.faults = f;
    });
}

pub fn plan_crash(role: u32, at: u64, power: bool) {
    with(|s| s.crash = Some((role, at, power)));
}

/// Makes every page cache stale, as any committed change of the file does. Not while someone reads or writes.
pub fn touch(path: &str) -> bool {
    if with(|s| s.files.get(path).map(|f| !f.shared.is_empty()).unwrap_or(true)) {
        return false;
    }
    bump(path)
}

fn bump(path: &str) -> bool {
    with(|s| {
        let Some(f) = s.files.get_mut(path) else { return false };
        if f.data.len() < 100 {
            return false;
        }
        for at in [24, 92] {
            let mut b = [0u8; 4];
            b.copy_from_slice(&f.data[at..at + 4]);
            let n = u32::from_be_bytes(b).wrapping_add(1).to_be_bytes();
            f.data[at..at + 4].copy_from_slice(&n);
        }
        f.durable = Some(f.data.clone());
        true
    })
}

/// After a power failure: what was not synced may be lost, in any combination, and torn.
pub fn restart(r: &mut Rng) {
    with(|s| {
        for f in s.files.values_mut() {
            if s.power_off {
                let mut d = f.durable.clone().unwrap_or_default();
                let log = std::mem::take(&mut f.log);
                let keep = *r.pick(&[0, 30, 60, 90, 100]);
                for w in log {
                    if !r.chance(keep) {
                        continue;
                    }
                    match w {
                        Write::Data(at, mut b) => {
                            if r.chance(25) {
                                b.truncate(r.below(b.len() + 1));
                            }
                            if d.len() < at + b.len() {
                                d.resize(at + b.len(), 0);
                            }
                            d[at..at + b.len()].copy_from_slice(&b);
                        }
                        Write::Size(n) => d.resize(n, 0),
                    }
                }
                f.data = d;
            }
            f.log.clear();
            f.durable = Some(f.data.clone());
            f.shared.clear();
            f.reserved = None;
            f.pending = None;
            f.exclusive = None;
        }
        s.power_off = false;
        s.crash = None;
        s.dead.clear();
    });
}

/// Is a fault due at this call?
fn fault(class: Class, header: bool) -> Option<FaultKind> {
    let op = OP.with(|o| o.get());
    if op == usize::MAX || !sim::active() || ROLE.with(|r| r.get()) != 0 {
        return None;
    }
    let now = sim::now_us();
    with(|s| {
        let mut hit = None;
        for n in 0..s.faults.len() {
            let f = &s.faults[n];
            if f.op != op || f.kind.class() != class || (f.kind == FaultKind::Garbage && !header) {
                continue;
            }
            let seen = s.seen[n];
            s.seen[n] += 1;
            let due = match f.kind {
                FaultKind::Busy(us) => {
                    if seen == f.nth {
                        s.busy_until[n] = now + us;
                    }
                    s.busy_until[n] > now
                }
                _ => seen >= f.nth && seen < f.nth.saturating_add(f.times),
            };
            if due && hit.is_none() {
                hit = Some(f.kind);
                s.fired.push((op, n));
            }
        }
        hit
    })
}

/// True: the caller's party is dead (or the power is off), nothing works any more.
fn dead(role: u32, mutation: bool) -> bool {
    with(|s| {
        s.calls += 1;
        if mutation {
            let n = s.mutations.entry(role).or_default();
            let k = *n;
            *n += 1;
            if let Some((who, at, power)) = s.crash {
                if who == role && at == k && !s.crashed {
                    s.crashed = true;
                    if power {
                        s.power_off = true;
                    } else {
                        s.dead.insert(role);
                        let gone: Vec<u64> = s.owners.iter().filter(|(_, o)| **o == role).map(|(h, _)| *h).collect();
                        for f in s.files.values_mut() {
                            for h in &gone {
                                f.drop_locks(*h, true);
                            }
                        }
                    }
                }
            }
        }
        s.power_off || s.dead.contains(&role)
    })
}

pub fn is_dead(role: u32) -> bool {
    with(|s| s.power_off || s.dead.contains(&role))
}

pub fn power_is_off() -> bool {
    with(|s| s.power_off)
}

#[repr(C)]
struct Handle {
    base: ffi::sqlite3_file,
    id: u64,
    role: u32,
    level: c_int,
    temp: bool,
    delete: bool,
    name: *mut String,
}

unsafe fn handle<'a>(f: *mut ffi::sqlite3_file) -> &'a mut Handle {
    &mut *(f as *mut Handle)
}

/// A storage call: a scheduling point, never unwinding into C.
fn call<R>(kind: Kind, f: impl FnOnce() -> R) -> R {
    sim::no_unwind(|| {
        sim::point(kind);
        f()
    })
}

unsafe extern "C" fn x_open(
    _vfs: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    file: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let h = file as *mut Handle;
    (*h).base.pMethods = std::ptr::null();
    call(Kind::IoOpen, || {
        let role = ROLE.with(|r| r.get());
        let temp = name.is_null();
        let create = flags & ffi::SQLITE_OPEN_CREATE != 0;
        let main = flags & ffi::SQLITE_OPEN_MAIN_DB != 0;
        if dead(role, create && !temp) {
            return ffi::SQLITE_IOERR;
        }
        if main && fault(Class::Open, false).is_some() {
            return ffi::SQLITE_CANTOPEN;
        }
        if create && !temp {
            let path = key(CStr::from_ptr(name).to_bytes());
            if !with(|s| s.files.contains_key(&path)) {
                wrote("creates", &path);
            }
        }
        with(|s| {
            s.next += 1;
            let id = s.next;
            let path = if temp { format!("temp {id}") } else { key(CStr::from_ptr(name).to_bytes()) };
            if !s.files.contains_key(&path) {
                if !create && !temp {
                    return ffi::SQLITE_CANTOPEN;
                }
                s.files.insert(path.clone(), MemFile::default());
            }
            s.owners.insert(id, role);
            if role == 0 && !temp && WATCHED.with(|w| w.get()) > 0 {
                s.held.insert(id, path.clone());
            }
            std::ptr::write(
                h,
                Handle {
                    base: ffi::sqlite3_file { pMethods: &METHODS.0 },
                    id,
                    role,
                    level: 0,
                    temp,
                    delete: temp || flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0,
                    name: Box::into_raw(Box::new(path)),
                },
            );
            if !out.is_null() {
                *out = flags;
            }
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_close(file: *mut ffi::sqlite3_file) -> c_int {
    let h = handle(file);
    call(Kind::IoOther, || {
        with(|s| {
            s.owners.remove(&h.id);
            s.held.remove(&h.id);
            if let Some(f) = s.files.get_mut(&*h.name) {
                f.drop_locks(h.id, true);
            }
            if h.delete {
                s.files.remove(&*h.name);
            }
        });
        drop(Box::from_raw(h.name));
        h.name = std::ptr::null_mut();
        ffi::SQLITE_OK
    })
}

unsafe extern "C" fn x_read(file: *mut ffi::sqlite3_file, buf: *mut c_void, amount: c_int, at: i64) -> c_int {
    let h = handle(file);
    call(Kind::IoRead, || {
        if dead(h.role, false) {
            return ffi::SQLITE_IOERR_READ;
        }
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, amount as usize);
        if !h.temp {
            match fault(Class::Read, at < 100) {
                Some(FaultKind::ReadError) => {
                    if at == 0 && amount == 100 {
                        let op = OP.with(|o| o.get());
                        with(|s| *s.headers.entry(op).or_default() += 1);
                    }
                    return ffi::SQLITE_IOERR_READ;
                }
                Some(FaultKind::ShortRead) => {
                    damage(&*h.name);
                    b.fill(0);
                    return ffi::SQLITE_IOERR_SHORT_READ;
                }
                Some(FaultKind::Garbage) => {
                    damage(&*h.name);
                    b.fill(0xA5);
                    return ffi::SQLITE_OK;
                }
                _ => {}
            }
        }
        with(|s| {
            let Some(f) = s.files.get(&*h.name) else { return ffi::SQLITE_IOERR_READ };
            let at = at as usize;
            let have = f.data.len().saturating_sub(at).min(b.len());
            if have > 0 {
                b[..have].copy_from_slice(&f.data[at..at + have]);
            }
            if have < b.len() {
                b[have..].fill(0);
                return ffi::SQLITE_IOERR_SHORT_READ;
            }
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_write(file: *mut ffi::sqlite3_file, buf: *const c_void, amount: c_int, at: i64) -> c_int {
    let h = handle(file);
    call(Kind::IoWrite, || {
        if dead(h.role, !h.temp) {
            return ffi::SQLITE_IOERR_WRITE;
        }
        if !h.temp {
            wrote("writes to", &*h.name);
        }
        let b = std::slice::from_raw_parts(buf as *const u8, amount as usize);
        with(|s| {
            let Some(f) = s.files.get_mut(&*h.name) else { return ffi::SQLITE_IOERR_WRITE };
            let at = at as usize;
            if f.data.len() < at + b.len() {
                f.data.resize(at + b.len(), 0);
            }
            f.data[at..at + b.len()].copy_from_slice(b);
            f.log.push(Write::Data(at, b.to_vec()));
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_truncate(file: *mut ffi::sqlite3_file, size: i64) -> c_int {
    let h = handle(file);
    call(Kind::IoWrite, || {
        if dead(h.role, !h.temp) {
            return ffi::SQLITE_IOERR_TRUNCATE;
        }
        if !h.temp {
            wrote("truncates", &*h.name);
        }
        with(|s| {
            if let Some(f) = s.files.get_mut(&*h.name) {
                f.data.resize(size as usize, 0);
                f.log.push(Write::Size(size as usize));
            }
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_sync(file: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let h = handle(file);
    call(Kind::IoWrite, || {
        if dead(h.role, !h.temp) {
            return ffi::SQLITE_IOERR_FSYNC;
        }
        with(|s| {
            if let Some(f) = s.files.get_mut(&*h.name) {
                f.durable = Some(f.data.clone());
                f.log.clear();
            }
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_file_size(file: *mut ffi::sqlite3_file, size: *mut i64) -> c_int {
    let h = handle(file);
    call(Kind::IoOther, || {
        if dead(h.role, false) {
            return ffi::SQLITE_IOERR_FSTAT;
        }
        if !h.temp {
            match fault(Class::Size, false) {
                Some(FaultKind::SizeZero) => {
                    damage(&*h.name);
                    *size = 0;
                    return ffi::SQLITE_OK;
                }
                Some(_) => return ffi::SQLITE_IOERR_FSTAT,
                None => {}
            }
        }
        with(|s| {
            *size = s.files.get(&*h.name).map(|f| f.data.len()).unwrap_or(0) as i64;
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_lock(file: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let h = handle(file);
    call(Kind::IoLock, || {
        if dead(h.role, level > ffi::SQLITE_LOCK_SHARED) {
            return ffi::SQLITE_IOERR_LOCK;
        }
        if h.level >= level {
            return ffi::SQLITE_OK;
        }
        match fault(Class::Lock, false) {
            Some(FaultKind::LockError) => return ffi::SQLITE_IOERR_LOCK,
            Some(_) => return ffi::SQLITE_BUSY,
            None => {}
        }
        with(|s| {
            let Some(f) = s.files.get_mut(&*h.name) else { return ffi::SQLITE_IOERR_LOCK };
            let other = |l: Option<u64>| l.is_some() && l != Some(h.id);
            if level == ffi::SQLITE_LOCK_SHARED {
                if other(f.pending) || other(f.exclusive) {
                    return ffi::SQLITE_BUSY;
                }
                f.shared.insert(h.id);
                h.level = level;
                return ffi::SQLITE_OK;
            }
            if other(f.reserved) || other(f.pending) || other(f.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            if level == ffi::SQLITE_LOCK_RESERVED {
                f.reserved = Some(h.id);
                h.level = level;
                return ffi::SQLITE_OK;
            }
            f.pending = Some(h.id);
            h.level = ffi::SQLITE_LOCK_PENDING;
            if f.shared.iter().any(|x| *x != h.id) {
                return ffi::SQLITE_BUSY;
            }
            f.exclusive = Some(h.id);
            h.level = ffi::SQLITE_LOCK_EXCLUSIVE;
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_unlock(file: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let h = handle(file);
    call(Kind::IoLock, || {
        if h.level <= level {
            return ffi::SQLITE_OK;
        }
        if dead(h.role, h.level > ffi::SQLITE_LOCK_SHARED) {
            h.level = level;
            return ffi::SQLITE_OK;
        }
        with(|s| {
            if let Some(f) = s.files.get_mut(&*h.name) {
                f.drop_locks(h.id, level == ffi::SQLITE_LOCK_NONE);
            }
        });
        h.level = level;
        ffi::SQLITE_OK
    })
}

unsafe extern "C" fn x_check_reserved(file: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let h = handle(file);
    call(Kind::IoLock, || {
        if dead(h.role, false) {
            return ffi::SQLITE_IOERR_CHECKRESERVEDLOCK;
        }
        with(|s| {
            *out = s
                .files
                .get(&*h.name)
                .map(|f| f.reserved.is_some() || f.pending.is_some() || f.exclusive.is_some())
                .unwrap_or(false) as c_int;
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_file_control(_file: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector_size(_file: *mut ffi::sqlite3_file) -> c_int {
    512
}
unsafe extern "C" fn x_device(_file: *mut ffi::sqlite3_file) -> c_int {
    0
}

unsafe extern "C" fn x_delete(_vfs: *mut ffi::sqlite3_vfs, name: *const c_char, _sync: c_int) -> c_int {
    call(Kind::IoWrite, || {
        if dead(ROLE.with(|r| r.get()), true) {
            return ffi::SQLITE_IOERR_DELETE;
        }
        wrote("deletes", &key(CStr::from_ptr(name).to_bytes()));
        with(|s| {
            let path = key(CStr::from_ptr(name).to_bytes());
            match s.files.remove(&path) {
                Some(_) => ffi::SQLITE_OK,
                None => ffi::SQLITE_IOERR_DELETE_NOENT,
            }
        })
    })
}

unsafe extern "C" fn x_access(_vfs: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    call(Kind::IoOther, || {
        if dead(ROLE.with(|r| r.get()), false) {
            return ffi::SQLITE_IOERR_ACCESS;
        }
        with(|s| {
            let path = key(CStr::from_ptr(name).to_bytes());
            *out = match s.files.get(&path) {
                // An empty journal does not count as one.
                Some(f) => (flags != ffi::SQLITE_ACCESS_EXISTS || !f.data.is_empty()) as c_int,
                None => 0,
            };
            ffi::SQLITE_OK
        })
    })
}

unsafe extern "C" fn x_full(_vfs: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let given = CStr::from_ptr(name).to_bytes();
    // As the real one does: relative paths and links are resolved, except for the file itself.
    let path = std::path::Path::new(std::ffi::OsStr::from_bytes(given));
    let parent = match path.parent() {
        Some(p) if p.as_os_str().is_empty() => std::path::Path::new("."),
        Some(p) => p,
        None => path,
    };
    let mut b = match (std::fs::canonicalize(parent), path.file_name()) {
        (Ok(d), Some(f)) => d.join(f).into_os_string().into_encoded_bytes(),
        _ => given.to_vec(),
    };
    if let Some(link) = with(|s| s.links.get(&b).cloned()) {
        b = link;
    }
    b.push(0);
    if b.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_randomness(_vfs: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let mut r = Rng::new(with(|s| s.random), 77);
    for k in 0..n as usize {
        *out.add(k) = r.next() as c_char;
    }
    n
}

unsafe extern "C" fn x_sleep(_vfs: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    sim::no_unwind(|| sim::sleep_us(us.max(0) as u64));
    us
}

unsafe extern "C" fn x_time(_vfs: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = 2460000.5 + sim::now_us() as f64 / 86_400e6;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_error(_vfs: *mut ffi::sqlite3_vfs, _n: c_int, _out: *mut c_char) -> c_int {
    0
}

struct Methods(ffi::sqlite3_io_methods);
unsafe impl Sync for Methods {}
static METHODS: Methods = Methods(ffi::sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
});

// ------------------------------------------------------------------------------------------------ memory

static mut MEM: Option<ffi::sqlite3_mem_methods> = None;

/// Only larger requests fail: rusqlite asserts that conversions of short texts succeed.
const LARGE: c_int = 440;

#[allow(static_mut_refs)]
unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    if n >= LARGE && !INSIDE.with(|i| i.get()) && fault(Class::Malloc, false).is_some() {
        return std::ptr::null_mut();
    }
    (MEM.as_ref().unwrap().xMalloc.unwrap())(n)
}

#[allow(static_mut_refs)]
unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    if n >= LARGE && !INSIDE.with(|i| i.get()) && fault(Class::Malloc, false).is_some() {
        return std::ptr::null_mut();
    }
    (MEM.as_ref().unwrap().xRealloc.unwrap())(p, n)
}

/// Puts this storage (and its allocator) under SQLite, for the whole process.
pub fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut m: ffi::sqlite3_mem_methods = std::mem::zeroed();
        let rc = ffi::sqlite3_config(ffi::SQLITE_CONFIG_GETMALLOC, &mut m as *mut _);
        assert_eq!(rc, 0, "sqlite3_config");
        let mut mine = m;
        mine.xMalloc = Some(m_malloc);
        mine.xRealloc = Some(m_realloc);
        MEM = Some(m);
        let rc = ffi::sqlite3_config(ffi::SQLITE_CONFIG_MALLOC, &mut mine as *mut _);
        assert_eq!(rc, 0, "sqlite3_config");
        let vfs = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 1,
            szOsFile: std::mem::size_of::<Handle>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: c"simulated".as_ptr(),
            pAppData: std::ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_randomness),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_time),
            xGetLastError: Some(x_error),
            xCurrentTimeInt64: None,
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        let rc = ffi::sqlite3_vfs_register(vfs, 1);
        assert_eq!(rc, 0, "sqlite3_vfs_register");
    });
}
