//! The controlled scheduler: of the threads of one execution exactly one runs,
//! and it can lose the processor only at a scheduling point.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX: usize = 4;
const NONE: u32 = u32::MAX;
/// A thread that gets this far without finishing is spinning on something.
const SPIN: usize = 200_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Point {
    /// The thread that ran into it.
    pub who: u8,
    /// `r`ead, `w`rite, atomic `l`oad, other `a`tomic, `f`inished, `b`locked, `s`tarted, `y`ield of a spinning thread
    pub what: u8,
    /// Threads that could run from here on (one bit each).
    pub ready: u8,
    /// Who did.
    pub went: u8,
    /// The address.
    pub site: usize,
}

impl Point {
    /// Going elsewhere from here costs a preemption.
    pub fn preempts(&self) -> bool {
        !matches!(self.what, b'f' | b'b' | b's' | b'y')
    }

    pub fn writes(&self) -> bool {
        matches!(self.what, b'w' | b'a')
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(u32)]
enum St {
    Ready = 0,
    Blocked = 2,
    Done = 3,
}

/// (index of the point, thread to go on with), increasing.
pub type Plan = Vec<(usize, u8)>;

static ON: AtomicBool = AtomicBool::new(false);
static OWNER: AtomicU32 = AtomicU32::new(NONE);
static STATE: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
/// In our own wait rather than anywhere else.
static PARKED: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static TIDS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
/// Held while the baton changes hands.
static LOCK: Mutex<()> = Mutex::new(());
static STEPS: AtomicUsize = AtomicUsize::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
// touched by the owner only
static mut PLAN: Plan = vec![];
static mut TRACE: Vec<Point> = vec![];
static mut SINCE: usize = 0;

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NONE) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            a.as_ptr(),
            libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG,
            v,
            std::ptr::null::<libc::timespec>(),
        );
    }
}

fn wake() {
    unsafe {
        libc::syscall(
            libc::SYS_futex,
            OWNER.as_ptr(),
            libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG,
            i32::MAX,
        );
    }
}

fn wait_turn(me: u32) {
    PARKED[me as usize].store(true, SeqCst);
    loop {
        let o = OWNER.load(SeqCst);
        if o == me {
            break;
        }
        futex_wait(&OWNER, o);
    }
    PARKED[me as usize].store(false, SeqCst);
}

fn ready(except: u32) -> u8 {
    (0..N.load(Relaxed))
        .filter(|&i| i as u32 != except && STATE[i].load(SeqCst) == St::Ready as u32)
        .fold(0, |m, i| m | 1 << i)
}

/// The owner records a point and learns who is next.
#[allow(static_mut_refs)]
unsafe fn choose(me: u32, site: usize, what: u8) -> u32 {
    let mut mask = ready(me);
    let mine = !matches!(what, b'f' | b'b');
    if mine {
        mask |= 1 << me;
    }
    if mask == 0 {
        return NONE;
    }
    let i = TRACE.len();
    let mut next = if mine && what != b's' && what != b'y' {
        me
    } else {
        mask.trailing_zeros()
    };
    if what == b'y' && mask != 1 << me {
        next = (mask & !(1 << me)).trailing_zeros();
    }
    if let Some(p) = PLAN.iter().find(|p| p.0 == i) {
        if mask >> p.1 & 1 == 1 {
            next = p.1 as u32;
        }
    }
    TRACE.push(Point {
        who: me as u8,
        what,
        ready: mask,
        went: next as u8,
        site,
    });
    next
}

pub fn point(site: usize, what: u8) {
    if !ON.load(Relaxed) {
        return;
    }
    // threads on their way out have no more thread locals
    let Ok(me) = ME.try_with(|m| m.get()) else {
        return;
    };
    if me == NONE || BUSY.get() {
        return;
    }
    BUSY.set(true);
    STEPS.fetch_add(1, Relaxed);
    loop {
        if OWNER.load(SeqCst) != me {
            // was blocked, and somebody woke us: wait for our turn like everybody
            STATE[me as usize].store(St::Ready as u32, SeqCst);
            wait_turn(me);
        }
        let g = LOCK.lock().unwrap();
        if OWNER.load(SeqCst) != me {
            continue;
        }
        let next = unsafe {
            SINCE += 1;
            let what = if SINCE > SPIN { b'y' } else { what };
            let next = choose(me, site, what);
            if next != me || what == b'y' {
                SINCE = 0;
            }
            next
        };
        if next != me {
            OWNER.store(next, SeqCst);
        }
        drop(g);
        if next != me {
            wake();
            wait_turn(me);
        }
        break;
    }
    BUSY.set(false);
}

fn finished(me: u32) {
    ME.set(NONE);
    let g = LOCK.lock().unwrap();
    STATE[me as usize].store(St::Done as u32, SeqCst);
    if OWNER.load(SeqCst) == me {
        unsafe {
            SINCE = 0;
            let next = choose(me, usize::MAX, b'f');
            OWNER.store(next, SeqCst);
        }
    }
    drop(g);
    wake();
}

/// Whether a thread is asleep (as far as the kernel can tell).
fn asleep(tid: u32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return false;
    };
    s.rsplit_once(") ").is_some_and(|(_, r)| r.starts_with('S'))
}

pub enum End {
    Done(Vec<String>),
    Deadlock(Vec<String>),
}

/// Run the given bodies as threads under a plan.
#[allow(static_mut_refs)]
pub fn run(bodies: Vec<Box<dyn FnOnce() -> String + Send>>, plan: &Plan) -> (End, Vec<Point>) {
    let n = bodies.len();
    unsafe {
        PLAN = plan.clone();
        TRACE = Vec::with_capacity(1 << 12);
        SINCE = 0;
    }
    N.store(n, SeqCst);
    OWNER.store(NONE, SeqCst);
    for i in 0..MAX {
        STATE[i].store(St::Ready as u32, SeqCst);
        PARKED[i].store(false, SeqCst);
        TIDS[i].store(0, SeqCst);
    }
    ON.store(true, SeqCst);
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    TIDS[i].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                    wait_turn(i as u32);
                    ME.set(i as u32);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    finished(i as u32);
                    r.unwrap_or_else(|e| {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                        format!("panic: {}", m.unwrap_or_default())
                    })
                })
                .unwrap()
        })
        .collect();
    while (0..n).any(|i| TIDS[i].load(SeqCst) == 0 || !PARKED[i].load(SeqCst)) {
        std::thread::yield_now();
    }
    // who goes first is a choice as well
    unsafe {
        let first = choose(NONE, usize::MAX - 1, b's');
        OWNER.store(first, SeqCst);
    }
    wake();
    // From here on this thread only looks for threads that sleep in something else
    // than our own wait, and lets others run meanwhile.
    let mut quiet = 0;
    let mut steps = 0;
    let mut dead: Option<Instant> = None;
    loop {
        let undone: Vec<usize> = (0..n)
            .filter(|&i| STATE[i].load(SeqCst) != St::Done as u32)
            .collect();
        if undone.is_empty() {
            break;
        }
        let o = OWNER.load(SeqCst);
        let s = STEPS.load(SeqCst);
        let stuck = |i: usize| !PARKED[i].load(SeqCst) && asleep(TIDS[i].load(SeqCst));
        if o != NONE
            && STATE[o as usize].load(SeqCst) != St::Done as u32
            && stuck(o as usize)
            && s == steps
        {
            quiet += 1;
        } else {
            quiet = 0;
            steps = s;
        }
        if quiet >= 5 && ready(o) != 0 {
            let g = LOCK.lock().unwrap();
            if OWNER.load(SeqCst) == o
                && STEPS.load(SeqCst) == s
                && STATE[o as usize].load(SeqCst) == St::Ready as u32
            {
                STATE[o as usize].store(St::Blocked as u32, SeqCst);
                unsafe {
                    SINCE = 0;
                    let next = choose(o, usize::MAX - 2, b'b');
                    OWNER.store(next, SeqCst);
                }
            }
            drop(g);
            wake();
            quiet = 0;
        } else if o == NONE || STATE[o as usize].load(SeqCst) != St::Ready as u32 {
            // the last owner is gone: hand over to whoever woke up
            let g = LOCK.lock().unwrap();
            let r = ready(NONE);
            if r != 0
                && OWNER.load(SeqCst) == o
                && (o == NONE
                    || STATE[o as usize].load(SeqCst) == St::Done as u32
                    || undone.iter().all(|&i| PARKED[i].load(SeqCst) || stuck(i)))
            {
                OWNER.store(r.trailing_zeros(), SeqCst);
            }
            drop(g);
            wake();
        }
        // nobody can run any more
        if s == STEPS.load(SeqCst) && undone.iter().all(|&i| stuck(i)) {
            if dead.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(5) {
                return (
                    End::Deadlock(undone.iter().map(|i| format!("thread {i}")).collect()),
                    unsafe { std::mem::take(&mut TRACE) },
                );
            }
        } else {
            dead = None;
        }
        std::thread::sleep(Duration::from_micros(30));
    }
    ON.store(false, SeqCst);
    let out = hs
        .into_iter()
        .map(|h| h.join().unwrap_or_else(|_| "panic in thread".into()))
        .collect();
    (End::Done(out), unsafe { std::mem::take(&mut TRACE) })
}
