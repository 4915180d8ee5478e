//! Threads of a run: real threads of which exactly one runs at a time. Every
//! allocation, release of memory and call into caller-supplied code is a place where the
//! running thread may have to hand over, as the schedule of the case says. A
//! hand-over can also be delayed by a number of machine instructions, which are
//! then executed one at a time. If the library has static data, the places can
//! also be the instructions that write there.

use crate::rt::{self, Env, Meter};
use crate::shared;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub const MOST: usize = 6;
const NOBODY: usize = usize::MAX;

thread_local! {
    /// Number of this thread, if it is one of those scheduled here.
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    /// Instructions left before a hand-over.
    static STEP: Cell<u64> = const { Cell::new(0) };
    /// Inside the scheduler itself.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    /// Executing an instruction that writes to static data.
    static WRITES: Cell<bool> = const { Cell::new(false) };
}

/// Keeps what is in it away from the static data of the library.
#[repr(align(4096))]
struct Apart<T>(T);

impl<T> std::ops::Deref for Apart<T> {
    type Target = T;

    fn deref(&self) -> &T {
        &self.0
    }
}

/// Places to pass, instructions to execute then, thread to go on with.
#[derive(Clone, Copy)]
pub struct Switch {
    pub places: u64,
    pub steps: u64,
    pub to: usize,
}

struct Plan {
    /// What is still to happen, last first.
    switches: Vec<Switch>,
    alive: [bool; MOST],
    tid: [i32; MOST],
    /// Number of switches, and a digest of where they happened.
    done: u64,
    digest: u64,
    /// Times a thread handed over because it waited for another.
    waits: u64,
    /// All threads are done.
    over: bool,
}

static PLAN: Apart<Mutex<Plan>> = Apart(Mutex::new(Plan {
    switches: Vec::new(),
    alive: [false; MOST],
    tid: [0; MOST],
    done: 0,
    digest: 0,
    waits: 0,
    over: false,
}));
/// One per thread, and one for whoever waits for all of them.
static TURN: Apart<[Condvar; MOST + 1]> = Apart([const { Condvar::new() }; MOST + 1]);
/// For those that are done; what happens when a thread ends is not to happen
/// next to the others.
static END: Apart<Condvar> = Apart(Condvar::new());
/// Threads that wait for their turn, or have not noticed yet that it has come.
static AWAITS: Apart<[AtomicBool; MOST]> = Apart([const { AtomicBool::new(false) }; MOST]);
/// Whose turn it is.
static CUR: Apart<AtomicUsize> = Apart(AtomicUsize::new(NOBODY));
/// Places left before the next switch.
static LEFT: Apart<AtomicU64> = Apart(AtomicU64::new(0));
/// Places passed altogether.
static PASSED: Apart<AtomicU64> = Apart(AtomicU64::new(0));

/// Places passed when a thread last had to wait for another, and how often since.
static WAITS: Apart<AtomicU64> = Apart(AtomicU64::new(0));
static WAITED_AT: Apart<AtomicU64> = Apart(AtomicU64::new(0));

/// Whether the places are the writes to static data, and how many there were.
static BY_WRITES: Apart<AtomicBool> = Apart(AtomicBool::new(false));
static WRITTEN: Apart<AtomicU64> = Apart(AtomicU64::new(0));

extern "C" {
    fn gettid() -> i32;
    fn __errno_location() -> *mut i32;
}

#[cfg(target_arch = "x86_64")]
const FUTEX: i64 = 202;
#[cfg(target_arch = "aarch64")]
const FUTEX: i64 = 98;

#[cfg(target_arch = "x86_64")]
unsafe fn kernel(n: i64, a: [i64; 6]) -> i64 {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

#[cfg(target_arch = "aarch64")]
unsafe fn kernel(n: i64, a: [i64; 6]) -> i64 {
    let r;
    std::arch::asm!("svc 0", in("x8") n, inlateout("x0") a[0] => r, in("x1") a[1], in("x2") a[2],
        in("x3") a[3], in("x4") a[4], in("x5") a[5], options(nostack));
    r
}

/// Replaces libc's `syscall` for the whole process, through which the locks of
/// std wait. A scheduled thread that would wait for another hands over instead
/// and later sees a spurious wake-up, which every such wait must expect; one
/// that wakes another hands over as the schedule says next.
///
/// # Safety
/// Called with the arguments of a system call.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let me = ME.get();
    if n == FUTEX && matches!(b & 0x7f, 0 | 9) && me != NOBODY && !INSIDE.get() {
        yield_of(me);
        return 0;
    }
    let r = kernel(n, [a, b, c, d, e, f]);
    if n == FUTEX && matches!(b & 0x7f, 1 | 10) && me != NOBODY && !INSIDE.get() && rt::in_run() {
        halt();
        hand_over(me);
    }
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[cfg(target_arch = "x86_64")]
const YIELD: i64 = 24;
#[cfg(target_arch = "aarch64")]
const YIELD: i64 = 124;

/// Replaces libc's function for the whole process; a scheduled thread that lets
/// others go on hands over.
///
/// # Safety
/// Always safe.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = ME.get();
    if me != NOBODY && !INSIDE.get() {
        yield_of(me);
    } else {
        kernel(YIELD, [0; 6]);
    }
    0
}

#[cfg(target_arch = "x86_64")]
fn stepping(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn stepping(_on: bool) {}

/// Stops executing single instructions; whether that was going on.
fn halt() -> bool {
    let was = STEP.replace(0) > 0;
    if was {
        stepping(false);
    }
    was
}

/// Where the state of the interrupted thread has its place in the program and
/// its flags.
#[cfg(target_arch = "x86_64")]
const AT: usize = 40 + 16 * 8;
#[cfg(target_arch = "x86_64")]
const FLAGS: usize = 40 + 17 * 8;

/// The C library, unwinding and memory outside the run have locks that are not
/// seen here.
#[cfg(target_arch = "x86_64")]
fn interruptible(ctx: *mut u8) -> bool {
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    let own = unsafe { (&raw const __executable_start as u64)..(&raw const etext as u64) };
    let at = unsafe { *(ctx.add(AT) as *const u64) };
    !INSIDE.get() && own.contains(&at) && rt::in_run() && !std::thread::panicking()
}

/// Called before an instruction that writes near static data of the library.
#[cfg(target_arch = "x86_64")]
extern "C" fn written(_sig: i32, info: *mut u8, ctx: *mut u8) {
    let at = unsafe { *(info.add(16) as *const u64) };
    if !BY_WRITES.load(SeqCst) || !shared::is_caught(at) {
        on_signal(11, 0, 0);
        return;
    }
    let errno = unsafe { *__errno_location() };
    let me = ME.get();
    if me != NOBODY && shared::is_place(at) && interruptible(ctx) {
        WRITTEN.fetch_add(1, SeqCst);
        PASSED.fetch_add(1, SeqCst);
        if LEFT.fetch_sub(1, SeqCst) <= 1 {
            INSIDE.set(true);
            let steps = plan().switches.last().map_or(0, |s| s.steps);
            INSIDE.set(false);
            if steps > 0 {
                LEFT.store(u64::MAX, SeqCst);
                STEP.set(steps);
            } else {
                hand_over(me);
            }
        }
    }
    shared::catch(false);
    WRITES.set(true);
    unsafe {
        *(ctx.add(FLAGS) as *mut u64) |= 0x100;
        *__errno_location() = errno;
    }
}

/// Called after every instruction while they are executed one at a time.
#[cfg(target_arch = "x86_64")]
extern "C" fn stepped(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    if WRITES.replace(false) && WRITTEN.load(SeqCst) < shared::MOST {
        shared::catch(true);
    }
    let left = STEP.get();
    if left > 1 {
        STEP.set(left - 1);
        return;
    }
    if left == 1 && !interruptible(ctx) {
        return;
    }
    unsafe { *(ctx.add(FLAGS) as *mut u64) &= !0x100 };
    if left == 1 {
        STEP.set(0);
        let errno = unsafe { *__errno_location() };
        hand_over(ME.get());
        unsafe { *__errno_location() = errno };
    }
}

#[cfg(target_arch = "x86_64")]
fn on_signal(sig: i32, handler: usize, flags: i32) {
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
    }
    let a = Action { handler, mask: [0; 16], flags, restorer: 0 };
    unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
}

#[cfg(target_arch = "x86_64")]
fn catch_steps(writes: bool) {
    // with details, not blocked while they are handled
    let flags = 4 | 0x4000_0000;
    on_signal(5, stepped as *const () as usize, flags);
    if writes {
        on_signal(11, written as *const () as usize, flags);
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn catch_steps(_writes: bool) {}

fn yield_of(me: usize) {
    let now = PASSED.load(SeqCst);
    if WAITED_AT.swap(now, SeqCst) != now {
        WAITS.store(0, SeqCst);
    } else if WAITS.fetch_add(1, SeqCst) > 1000 {
        // all wait for each other
        rt::budget_exit();
    }
    INSIDE.set(true);
    let mut p = plan();
    if halt() {
        p.switches.pop();
    }
    p.waits += 1;
    pass(&mut p, me + 1);
    await_turn(me, p);
    INSIDE.set(false);
}

fn plan() -> MutexGuard<'static, Plan> {
    PLAN.lock().unwrap_or_else(|e| e.into_inner())
}

fn await_turn(me: usize, mut p: MutexGuard<'static, Plan>) {
    AWAITS[me].store(true, SeqCst);
    while CUR.load(SeqCst) != me {
        p = TURN[me].wait(p).unwrap_or_else(|e| e.into_inner());
    }
    AWAITS[me].store(false, SeqCst);
}

/// Gives the turn to the thread the schedule names next, or any other.
fn pass(p: &mut Plan, want: usize) {
    let n = (0..MOST).map(|k| (want + k) % MOST).find(|k| p.alive[*k]).unwrap_or(NOBODY);
    let next = p.switches.last().map_or(u64::MAX, |s| s.places.max(1));
    LEFT.store(next, SeqCst);
    p.done += 1;
    p.digest = crate::rng::mix(p.digest ^ PASSED.load(SeqCst) << 8 ^ n as u64);
    CUR.store(n, SeqCst);
    TURN[n.min(MOST)].notify_one();
}

/// A place where the running thread may have to hand over.
#[inline]
pub fn point() {
    let me = ME.get();
    if me != NOBODY {
        point_of(me);
    }
}

fn point_of(me: usize) {
    if CUR.load(SeqCst) != me {
        // was let go while it was blocked
        INSIDE.set(true);
        await_turn(me, plan());
        INSIDE.set(false);
    }
    PASSED.fetch_add(1, SeqCst);
    if BY_WRITES.load(SeqCst) || LEFT.fetch_sub(1, SeqCst) > 1 {
        return;
    }
    INSIDE.set(true);
    let steps = plan().switches.last().map_or(0, |s| s.steps);
    INSIDE.set(false);
    if steps > 0 {
        LEFT.store(u64::MAX, SeqCst);
        STEP.set(steps);
        stepping(true);
        return;
    }
    hand_over(me);
}

fn hand_over(me: usize) {
    INSIDE.set(true);
    let mut p = plan();
    let want = p.switches.pop().map_or(me, |s| s.to);
    pass(&mut p, want);
    await_turn(me, p);
    INSIDE.set(false);
}

fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')))
        .unwrap_or(false)
}

pub struct Ran {
    pub switches: u64,
    /// Writes to static data caught.
    pub writes: u64,
    pub waits: u64,
    /// Times a thread had to be overtaken because it did not go on.
    pub blocked: u64,
}

/// Runs the bodies as threads under the schedule. Called from the thread of the
/// run; the bodies get environments of their own.
pub fn run<T: Send>(
    env: &Env,
    switches: &[Switch],
    by_writes: bool,
    bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>,
) -> (Vec<T>, Ran) {
    rt::outside(|| {
        let n = bodies.len();
        let by_writes = by_writes && shared::any();
        BY_WRITES.store(by_writes, SeqCst);
        catch_steps(by_writes);
        {
            let mut p = plan();
            p.switches = switches.iter().rev().map(|s| Switch { to: s.to % n, ..*s }).collect();
            p.alive = std::array::from_fn(|i| i < n);
        }
        let mut blocked = 0;
        let rs: Vec<(T, Meter, Option<String>)> = std::thread::scope(|s| {
            let hs: Vec<_> = bodies
                .into_iter()
                .enumerate()
                .map(|(i, f)| {
                    let env = Env { keys: env.keys ^ (i as u64 * 0x9e37_79b9), ..env.clone() };
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            plan().tid[i] = unsafe { gettid() };
                            await_turn(i, plan());
                            rt::enter(&env, i + 1);
                            ME.set(i);
                            let r = f();
                            let cut = halt();
                            ME.set(NOBODY);
                            rt::leave();
                            let m = rt::meter();
                            let v = rt::VIOL.with(|v| v.borrow_mut().take()).map(|v| v.as_str().to_owned());
                            let mut p = plan();
                            p.alive[i] = false;
                            if CUR.load(SeqCst) == i || cut {
                                let want = p.switches.pop().map_or(i, |s| s.to);
                                pass(&mut p, want);
                            }
                            TURN[MOST].notify_one();
                            while !p.over {
                                p = END.wait(p).unwrap_or_else(|e| e.into_inner());
                            }
                            drop(p);
                            (r, m, v)
                        })
                        .expect("spawn")
                })
                .collect();
            // everybody is waiting before anybody starts
            while plan().tid[..n].contains(&0) {
                std::thread::yield_now();
            }
            if by_writes {
                shared::catch(true);
            }
            pass(&mut plan(), 0);
            let mut seen = u64::MAX;
            let mut idle = 0;
            let mut p = plan();
            while p.alive.contains(&true) {
                p = TURN[MOST].wait_timeout(p, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner()).0;
                let now = PASSED.load(SeqCst);
                let cur = CUR.load(SeqCst);
                if now != seen || cur == NOBODY || AWAITS[cur].load(SeqCst) {
                    seen = now;
                    idle = 0;
                } else {
                    // it waits, in a way of its own, for something another thread holds
                    let was = idle;
                    idle += if asleep(p.tid[cur]) { 100 } else { 1 };
                    if idle > 5000 {
                        rt::budget_exit();
                    }
                    if idle / 500 > was / 500 {
                        blocked += 1;
                        pass(&mut p, cur + 1);
                    }
                }
            }
            if by_writes {
                shared::catch(false);
            }
            p.over = true;
            END.notify_all();
            drop(p);
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let mut out = vec![];
        for (r, m, v) in rs {
            rt::absorb(&m);
            if let Some(v) = v {
                rt::violation(v);
            }
            out.push(r);
        }
        let p = plan();
        rt::note(p.digest);
        (out, Ran { switches: p.done, writes: WRITTEN.load(SeqCst), waits: p.waits, blocked })
    })
}
