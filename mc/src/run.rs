//! Running an exploration: parallel workers, supervision (panic, abort, hang),
//! known findings, replays and evidence.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const SLOT: usize = 1024;
const HANG: Duration = Duration::from_secs(40);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    /// Only this case is of interest (replay).
    only: Option<String>,
    known: BTreeMap<String, String>,
    found: Mutex<BTreeMap<String, String>>,
    known_hit: Mutex<BTreeSet<String>>,
    samples: Mutex<Vec<String>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    extra: Mutex<BTreeMap<String, u64>>,
    bounds: Mutex<Vec<String>>,
    stop: AtomicBool,
    start: Instant,
}

thread_local! {
    static LANE: Cell<usize> = const { Cell::new(0) };
    static LANE_BUSY: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// The first panic outside of `guard`.
static ESCAPED: Mutex<String> = Mutex::new(String::new());
static SLOTS: AtomicUsize = AtomicUsize::new(0);

fn map_slots(path: &str) -> *mut u8 {
    unsafe {
        let c = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
        assert!(fd >= 0);
        let len = SLOT * (THREADS + 1);
        assert_eq!(libc::ftruncate(fd, len as i64), 0);
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        libc::close(fd);
        p as *mut u8
    }
}

/// Note what the code under test is about to be run on, for the supervisor.
fn enter(case: &str) {
    let base = SLOTS.load(Relaxed) as *mut u8;
    if base.is_null() {
        return;
    }
    let b = case.as_bytes();
    let n = b.len().min(SLOT - 16);
    unsafe {
        let p = base.add(SLOT * LANE.get());
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(16), n);
        *(p.add(8) as *mut u32) = n as u32;
        let seq = p as *mut u64;
        *seq += 2;
        *seq |= 1;
    }
}

fn leave() {
    let base = SLOTS.load(Relaxed) as *mut u8;
    if !base.is_null() {
        unsafe {
            let seq = base.add(SLOT * LANE.get()) as *mut u64;
            *seq &= !1;
        }
    }
}

/// Run code under test; a panic becomes an error with its message.
pub fn guard<T>(case: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    enter(case);
    LANE_BUSY.set(LANE_BUSY.get() + 1);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    LANE_BUSY.set(LANE_BUSY.get() - 1);
    leave();
    r.map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let m: String = i.to_string().replace('\n', " ").chars().take(1000).collect();
        let mut g = ESCAPED.lock().unwrap_or_else(|e| e.into_inner());
        if LANE_BUSY.get() == 0 && g.is_empty() {
            *g = m.clone();
        }
        drop(g);
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, only: Option<String>) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
            for l in s.lines() {
                // known: property=<id> case=<json string> <what fails>
                let Some(l) = l.strip_prefix("known: property=") else { continue };
                let Some((pid, rest)) = l.split_once(" case=") else { continue };
                let mut de = serde_json::Deserializer::from_str(rest).into_iter::<String>();
                if let Some(Ok(key)) = de.next() {
                    let off = de.byte_offset();
                    if pid == id {
                        known.insert(key, rest[off..].trim().to_string());
                    }
                }
            }
        }
        Ctx {
            id: id.into(),
            tier,
            seed,
            only,
            known,
            found: Default::default(),
            known_hit: Default::default(),
            samples: Default::default(),
            states: Default::default(),
            transitions: Default::default(),
            traces: Default::default(),
            extra: Default::default(),
            bounds: Default::default(),
            stop: AtomicBool::new(false),
            start: Instant::now(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// The property does not hold on this case.
    pub fn violation(&self, case: impl Into<String>, detail: impl Into<String>) {
        let case = case.into();
        let mut detail: String = detail.into();
        if let Some((i, _)) = detail.char_indices().nth(2000) {
            detail.truncate(i);
        }
        if self.only.as_ref().is_some_and(|o| *o != case) {
            return;
        }
        if self.known.contains_key(&case) {
            self.known_hit.lock().unwrap().insert(case);
            return;
        }
        let mut f = self.found.lock().unwrap();
        f.entry(case).or_insert(detail);
        if f.len() >= 50 && self.only.is_none() {
            self.stop.store(true, Relaxed);
        }
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 && !self.stopped() {
            v.push(s());
        }
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.extra.lock().unwrap().entry(name.into()).or_default() += n;
    }

    pub fn add(&self, states: u64, transitions: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
    }

    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }

    /// Run `f` over all items on all cores.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (items.len() / (THREADS * 16)).clamp(1, 4096);
        std::thread::scope(|s| {
            for lane in 0..THREADS {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        LANE.set(lane);
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= items.len() || self.stopped() {
                                break;
                            }
                            for it in &items[a..(a + chunk).min(items.len())] {
                                f(it);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Run `f(lo, hi)` over subranges of `0..n` on all cores.
    pub fn par_range(&self, n: u64, chunk: u64, f: impl Fn(u64, u64) + Sync) {
        let parts: Vec<u64> = (0..n.div_ceil(chunk)).collect();
        self.par(&parts, |&i| f(i * chunk, ((i + 1) * chunk).min(n)));
    }

    pub fn any(&self) -> bool {
        !self.found.lock().unwrap().is_empty()
    }

    pub fn finish(self) -> i32 {
        let found = self.found.into_inner().unwrap();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let replays = root().join("replays");
        let mut lines = vec![];
        for (i, (case, detail)) in found.iter().enumerate() {
            if i >= 10 {
                break;
            }
            let _ = std::fs::create_dir_all(&replays);
            let path = replays.join(format!("{}-{:016x}.json", self.id, fnv(case)));
            let v = serde_json::json!({"property": self.id, "tier": tier, "case": case, "detail": detail,
                "replay": format!("bash check.sh {} replay {}", self.id, path.display())});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            lines.push(format!("VIOLATION property={} replay={}\n  case: {}\n  {}", self.id, path.display(), case, detail));
        }
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, self.known[k], k);
        }
        let mut cov = serde_json::json!({
            "states": self.states.load(Relaxed),
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": self.traces.load(Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "exhaustive": !self.stop.load(Relaxed),
            "bounds": *self.bounds.lock().unwrap(),
        });
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov[k] = (*v).into();
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": ["the reference metadata reader, pattern engine and rules in mc/src are right (cross-checked against the example numbers of the metadata)"],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": found.len(),
        });
        if self.only.is_none() {
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        println!(
            "{} {}: {} states, {} transitions, {} executions, {} violations, {:.1} s",
            self.id,
            tier,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            found.len(),
            self.start.elapsed().as_secs_f64()
        );
        for l in &lines {
            println!("{l}");
        }
        if found.is_empty() {
            0
        } else {
            1
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// /verif
pub fn root() -> std::path::PathBuf {
    match std::env::var_os("MC_ROOT") {
        Some(r) => r.into(),
        None => std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

fn crash(id: &str, what: &str, cases: Vec<String>) -> i32 {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{what}.json"));
    let v = serde_json::json!({"property": id, "what": what, "cases": cases});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    println!("VIOLATION property={id} replay={}\n  the code under test caused a {what} on one of {:?}", path.display(), cases);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let ev = serde_json::json!({"property": id, "tier": "quick", "seed": 1, "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": cases},
        "wall_s": 0.0, "violations": 1});
    let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string());
    1
}

/// Run the exploration in a child process and turn a crash or a hang of the
/// code under test into a violation on the case it was working on.
pub fn supervise(id: &str, child: impl FnOnce() -> i32) -> i32 {
    let path = format!("{}/mc-slots-{}", std::env::temp_dir().display(), std::process::id());
    let base = map_slots(&path);
    SLOTS.store(base as usize, Relaxed);
    let _ = std::fs::remove_file(&path);
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let rc = panic::catch_unwind(AssertUnwindSafe(child)).unwrap_or_else(|_| {
            let m = ESCAPED.lock().unwrap_or_else(|e| e.into_inner()).clone();
            // on the explorer's side only what it takes for granted of the library
            // can fail: that a number it needs can be read, a document loaded, ...
            crash(id, "panic", vec![m])
        });
        std::io::stdout().flush().unwrap();
        unsafe { libc::_exit(rc) }
    }
    let mut last = [(0u64, Instant::now()); THREADS];
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        let slots = || -> Vec<String> {
            (0..THREADS)
                .filter_map(|i| unsafe {
                    let p = base.add(SLOT * i);
                    if *(p as *const u64) & 1 == 0 {
                        return None;
                    }
                    let n = (*(p.add(8) as *const u32) as usize).min(SLOT - 16);
                    Some(String::from_utf8_lossy(std::slice::from_raw_parts(p.add(16), n)).into_owned())
                })
                .collect()
        };
        if r == pid {
            if libc::WIFEXITED(st) {
                return libc::WEXITSTATUS(st);
            }
            let cases = slots();
            if cases.is_empty() {
                eprintln!("{id}: the explorer died of signal {}", libc::WTERMSIG(st));
                return 3;
            }
            return crash(id, "crash", cases);
        }
        for (i, l) in last.iter_mut().enumerate() {
            let seq = unsafe { std::ptr::read_volatile(base.add(SLOT * i) as *const u64) };
            if seq & 1 == 0 || seq != l.0 {
                *l = (seq, Instant::now());
            } else if l.1.elapsed() > HANG {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                return crash(id, "hang", slots());
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
