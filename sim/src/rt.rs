//! Runtime seams. Everything the library can observe that is not a function of
//! its arguments is decided here from the case data:
//!
//! * hash keys      `getrandom` is defined by this binary, so the keys of every
//!                  `RandomState` created during a run come from the case;
//! * memory         runs allocate from a fixed-address arena that never reuses
//!                  memory, poisons what is freed, always moves on growth and
//!                  leaves seeded gaps between blocks;
//! * caller code    hashing, comparing, cloning, dropping, printing and
//!                  constructing values of the caller-supplied types all pass
//!                  through `tick`, where a panic can be injected;
//! * work           allocations and ticks are counted, and a run that exceeds
//!                  its budget ends the process with a distinct status;
//! * process state  every run is a forked child of a process that has never
//!                  called the library, so no static can carry anything over.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(secs: u32) -> u32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

pub const EXIT_BUDGET: i32 = 77;
pub const EXIT_HARNESS: i32 = 78;
pub const EXIT_UNDEFINED: i32 = 79;

const ARENA_BASE: usize = 0x5f00_0000_0000;
const CLASSES: usize = 8192;
const ARENA_SIZE: usize = 1 << 30;
pub const POISON: u8 = 0xdb;

// ---------------------------------------------------------------- state

thread_local! {
    static IN_RUN: Cell<bool> = const { Cell::new(false) };
    static BUMP: Cell<usize> = const { Cell::new(0) };
    static BUMP_END: Cell<usize> = const { Cell::new(0) };
    static REUSE: Cell<bool> = const { Cell::new(false) };
    static FREE: [Cell<usize>; CLASSES] = const { [const { Cell::new(0) }; CLASSES] };
    static GAPS: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static HELD: Cell<u64> = const { Cell::new(0) };
    static ALLOC_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static KEYS: Cell<u64> = const { Cell::new(0) };
    static KEY_DRAWS: Cell<u64> = const { Cell::new(0) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static TICK_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAULT_MASK: Cell<u32> = const { Cell::new(0) };
    static FAULT_IN: Cell<u64> = const { Cell::new(0) };
    static NEST_MASK: Cell<u32> = const { Cell::new(0) };
    static NEST: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
    static FAULT_FIRED: Cell<bool> = const { Cell::new(false) };
    static DIGEST: Cell<u64> = const { Cell::new(0) };
    static SITES: Cell<[u64; NSITES]> = const { Cell::new([0; NSITES]) };
    pub static VIOL: RefCell<Option<String>> = const { RefCell::new(None) };
    static LASTPANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Kinds of call into caller-supplied code.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum Site {
    VHash = 0,
    VEq = 1,
    THash = 2,
    TEq = 3,
    KHash = 4, // terminal_hash
    KEq = 5,   // terminal_eq
    Clone = 6,
    Drop = 7,
    Debug = 8,
    Ctor = 9,
    Supply = 10, // iterators and conversions handing over rules
}
pub const NSITES: usize = 11;
pub const SITE_NAMES: [&str; NSITES] = [
    "variable-hash",
    "variable-eq",
    "terminal-hash",
    "terminal-eq",
    "kind-hash",
    "kind-eq",
    "clone",
    "drop",
    "debug",
    "constructor",
    "supply",
];
pub const MASK_CMP: u32 = 0b11_1111;
pub const MASK_CTOR: u32 = 1 << 9;
pub const MASK_CLONE: u32 = 1 << 6;
pub const MASK_DROP: u32 = 1 << 7;
pub const MASK_DEBUG: u32 = 1 << 8;
pub const MASK_SUPPLY: u32 = 1 << 10;

/// Payload of an injected panic.
pub struct Injected;

fn fold(x: u64) {
    DIGEST.with(|d| d.set((d.get() ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17)));
}

pub fn note(x: u64) {
    fold(x);
}

/// A call into caller-supplied code.
pub fn tick(site: Site, val: u64) {
    crate::sched::point();
    let t = TICKS.get() + 1;
    TICKS.set(t);
    fold((site as u64) << 56 | (val & 0xffff_ffff));
    SITES.with(|s| {
        let mut a = s.get();
        a[site as usize] += 1;
        s.set(a);
    });
    if t > TICK_LIMIT.get() {
        budget_exit();
    }
    if NEST_MASK.get() >> (site as u32) & 1 == 1 && !std::thread::panicking() {
        nested();
    }
    if FAULT_MASK.get() >> (site as u32) & 1 == 1 && !std::thread::panicking() {
        let left = FAULT_IN.get();
        if left <= 1 {
            FAULT_MASK.set(0);
            FAULT_FIRED.set(true);
            std::panic::panic_any(Injected);
        }
        FAULT_IN.set(left - 1);
    }
}

#[cold]
fn nested() {
    let act = NEST.with(|n| {
        let mut n = n.borrow_mut();
        match n.as_mut() {
            Some((left, _)) if *left > 1 => {
                *left -= 1;
                None
            }
            _ => n.take(),
        }
    });
    if let Some((_, f)) = act {
        NEST_MASK.set(0);
        f();
    }
}

/// Runs `f` inside the `n`-th following call of a kind in `mask`.
pub fn nest(mask: u32, n: u64, f: Box<dyn FnOnce()>) {
    NEST_MASK.set(mask);
    NEST.with(|x| *x.borrow_mut() = Some((n.max(1), f)));
}

/// Cancels a pending nested action; returns whether it was still pending.
pub fn unnest() -> bool {
    NEST_MASK.set(0);
    NEST.with(|x| x.borrow_mut().take()).is_some()
}

/// Arms one panic at the `n`-th (from 1) following call of a kind in `mask`.
pub fn arm(mask: u32, n: u64) {
    FAULT_MASK.set(mask);
    FAULT_IN.set(n);
    FAULT_FIRED.set(false);
}

/// Disarms; returns whether the fault fired.
pub fn disarm() -> bool {
    FAULT_MASK.set(0);
    FAULT_FIRED.replace(false)
}

pub fn violation(msg: String) {
    VIOL.with(|v| {
        let mut v = v.borrow_mut();
        if v.is_none() {
            *v = Some(msg);
        }
    });
}

/// Bytes allocated and not yet released.
pub fn held() -> u64 {
    HELD.get()
}

pub fn work() -> u64 {
    ALLOCS.get() + TICKS.get()
}

/// Limits the work (allocations and ticks) from here on.
pub fn limit_work(n: u64) {
    ALLOC_LIMIT.set(ALLOCS.get().saturating_add(n));
    TICK_LIMIT.set(TICKS.get().saturating_add(n));
}

pub fn budget_exit() -> ! {
    unsafe { _exit(EXIT_BUDGET) }
}

// ---------------------------------------------------------------- hash keys

/// Replaces libc's `getrandom` for the whole process; std draws the keys of
/// `RandomState` from here once per thread.
///
/// # Safety
/// Called by std with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut k = KEYS.get();
    KEY_DRAWS.set(KEY_DRAWS.get() + 1);
    for i in 0..len {
        if i % 8 == 0 {
            k = crate::rng::mix(k);
        }
        *buf.add(i) = (k >> (8 * (i % 8))) as u8;
    }
    KEYS.set(k);
    len as isize
}

// ---------------------------------------------------------------- memory

pub struct Alloc;

fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(ARENA_BASE) < ARENA_SIZE
}

/// Free list of a block, if freed memory is handed out again in this run.
fn class(l: &Layout) -> Option<usize> {
    if !REUSE.get() || l.align() > 16 || l.size() == 0 || l.size() > CLASSES * 16 {
        return None;
    }
    Some((l.size() - 1) / 16)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !IN_RUN.get() {
            return System.alloc(l);
        }
        crate::sched::point();
        let n = ALLOCS.get() + 1;
        ALLOCS.set(n);
        BYTES.set(BYTES.get() + l.size() as u64);
        HELD.set(HELD.get().wrapping_add(l.size() as u64));
        fold(1 << 63 | l.size() as u64);
        if n > ALLOC_LIMIT.get() {
            budget_exit();
        }
        let g = GAPS.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        GAPS.set(g);
        let gap = 16 + ((g >> 59) as usize & 3) * 16;
        let align = l.align().max(16);
        let p = (BUMP.get() + gap + align - 1) & !(align - 1);
        let size = match class(&l) {
            Some(c) => {
                let q = FREE.with(|f| f[c].get());
                if q != 0 {
                    FREE.with(|f| f[c].set(*(q as *const usize)));
                    return q as *mut u8;
                }
                (c + 1) * 16
            }
            None => l.size(),
        };
        if p + size > BUMP_END.get() {
            budget_exit();
        }
        BUMP.set(p + size);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            if IN_RUN.get() {
                crate::sched::point();
            }
            HELD.set(HELD.get().wrapping_sub(l.size() as u64));
            p.write_bytes(POISON, l.size());
            if let Some(c) = class(&l) {
                FREE.with(|f| {
                    *(p as *mut usize) = f[c].get();
                    f[c].set(p as usize);
                });
            }
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_arena(p) || IN_RUN.get() {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, new)
        }
    }
}

// ---------------------------------------------------------------- isolation

#[derive(Clone, Debug)]
pub struct Env {
    pub keys: u64,
    pub gaps: u64,
    /// Work limit for the whole run.
    pub work: u64,
    /// Hand freed memory out again (last freed first) instead of never.
    pub reuse: bool,
    /// Bytes of stack.
    pub stack: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Ok(String),
    Budget,
    Hang,
    /// A promise made to the compiler was broken.
    Undefined,
    Signal(i32),
    /// Anything the harness itself got wrong.
    Harness(String),
}

/// What the run thread measured.
#[derive(Default, Clone, Debug)]
pub struct Meter {
    pub ticks: u64,
    pub allocs: u64,
    pub digest: u64,
    pub draws: u64,
    pub sites: [u64; NSITES],
}

pub fn meter() -> Meter {
    Meter {
        ticks: TICKS.get(),
        allocs: ALLOCS.get(),
        digest: DIGEST.get(),
        draws: KEY_DRAWS.get(),
        sites: SITES.get(),
    }
}

pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let was = IN_RUN.replace(false);
        let s = format!("{info}").replace('\n', " ");
        if ["unsafe precondition", "misaligned pointer", "null pointer dereference"].iter().any(|t| s.contains(t)) {
            unsafe { _exit(EXIT_UNDEFINED) };
        }
        LASTPANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = s;
            }
        });
        IN_RUN.set(was);
    }));
}

pub fn last_panic() -> String {
    LASTPANIC.with(|l| l.borrow().clone())
}

/// Puts this thread, the `k`-th of its run, into the simulated environment.
pub fn enter(env: &Env, k: usize) {
    KEYS.set(env.keys);
    KEY_DRAWS.set(0);
    BUMP.set(ARENA_BASE + k * (ARENA_SIZE / 8));
    BUMP_END.set(if k == 0 { ARENA_BASE + ARENA_SIZE } else { ARENA_BASE + (k + 1) * (ARENA_SIZE / 8) });
    GAPS.set(env.gaps);
    REUSE.set(env.reuse);
    limit_work(env.work);
    DIGEST.set(0x1234_5678);
    IN_RUN.set(true);
}

pub fn leave() {
    IN_RUN.set(false);
}

pub fn in_run() -> bool {
    IN_RUN.get()
}

/// Runs `f` outside the simulated environment.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = IN_RUN.replace(false);
    let r = f();
    IN_RUN.set(was);
    r
}

/// Counts what another thread of the run did.
pub fn absorb(m: &Meter) {
    TICKS.set(TICKS.get() + m.ticks);
    ALLOCS.set(ALLOCS.get() + m.allocs);
    KEY_DRAWS.set(KEY_DRAWS.get() + m.draws);
    fold(m.digest);
    SITES.with(|s| {
        let mut a = s.get();
        for i in 0..NSITES {
            a[i] += m.sites[i];
        }
        s.set(a);
    });
}

/// Runs `f` on a fresh thread of this process inside the simulated environment.
fn on_sim_thread<F: FnOnce() -> String + Send>(env: &Env, f: F) -> Result<String, String> {
    let env = env.clone();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(env.stack)
            .spawn_scoped(s, move || {
                enter(&env, 0);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                leave();
                match r {
                    Ok(s) => {
                        let out = s.as_str().to_owned();
                        std::mem::forget(s);
                        Ok(out)
                    }
                    Err(_) => Err(last_panic()),
                }
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| Err("sim thread died".into()))
    })
}

/// Forks a pristine child, runs `f` there inside the simulated environment and
/// returns the string it produced.
pub fn isolate<F: FnOnce() -> String + Send>(env: &Env, f: F) -> Exit {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return Exit::Harness("pipe".into());
        }
        let pid = fork();
        if pid < 0 {
            return Exit::Harness("fork".into());
        }
        if pid == 0 {
            close(fds[0]);
            alarm(300);
            setrlimit(0, &[15, 16]); // CPU seconds: backstop for loops that do no counted work
            setrlimit(4, &[0, 0]); // no core files
            let p = mmap(ARENA_BASE as *mut u8, ARENA_SIZE, 3, 0x22 | 0x4000 | 0x100000, -1, 0);
            if p as usize != ARENA_BASE {
                _exit(EXIT_HARNESS);
            }
            let (s, code) = match on_sim_thread(env, f) {
                Ok(s) => (s, 0),
                Err(e) => (e, EXIT_HARNESS),
            };
            let b = s.as_bytes();
            let mut off = 0;
            while off < b.len() {
                let n = write(fds[1], b.as_ptr().add(off), b.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            _exit(code);
        }
        close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let text = String::from_utf8_lossy(&out).into_owned();
        match (sig, code) {
            (0, 0) => Exit::Ok(text),
            (0, EXIT_BUDGET) => Exit::Budget,
            (0, EXIT_UNDEFINED) => Exit::Undefined,
            (14 | 24 | 9, _) => Exit::Hang,
            (0, c) => Exit::Harness(format!("exit {c}: {text}")),
            (s, _) => Exit::Signal(s),
        }
    }
}

/// Forks `n` workers running `f(i)`; returns once all are done. False if one of
/// them did not end normally.
pub fn workers<F: Fn(usize)>(n: usize, f: F) -> bool {
    let mut pids = vec![];
    for i in 0..n {
        let pid = unsafe { fork() };
        if pid == 0 {
            f(i);
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        ok &= st == 0;
    }
    ok
}
