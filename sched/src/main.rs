//! C24: schedules and histories.  See ../DESIGN.md.

mod hooks;
mod ops;
mod sched;

use ops::{Op, OPS};
use sched::{End, Plan, Point};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// Seconds after which an execution is considered to hang.
const LIMIT: u32 = 100;

/// Counters all processes share.
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    schedules: AtomicU64,
    points: AtomicU64,
    histories: AtomicU64,
    steps: AtomicU64,
    capped: AtomicU64,
    blocked: AtomicU64,
    differ: AtomicU64,
    deepest: AtomicU64,
    locations: AtomicU64,
    start: Instant,
    budget: Duration,
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let s = &mut *(p as *mut Shared);
        s.start = Instant::now();
        // long before anybody else gives up on us
        s.budget = Duration::from_secs(if std::env::args().nth(2).as_deref() == Some("thorough") {
            3_000
        } else {
            600
        });
        s
    }
}

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .unwrap()
        .to_path_buf()
}

/// Run in a forked process; its death or lateness is an error.
fn forked(f: impl FnOnce() -> Value) -> Result<Value, String> {
    forked_for(LIMIT, f)
}

fn forked_for(limit: u32, f: impl FnOnce() -> Value) -> Result<Value, String> {
    let mut fd = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(limit);
            let v = f().to_string();
            use std::os::fd::FromRawFd;
            let mut w = std::fs::File::from_raw_fd(fd[1]);
            let _ = w.write_all(v.as_bytes());
            libc::_exit(0);
        }
        libc::close(fd[1]);
        use std::os::fd::FromRawFd;
        let mut r = std::fs::File::from_raw_fd(fd[0]);
        let mut s = String::new();
        let _ = r.read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(match libc::WTERMSIG(st) {
                libc::SIGALRM => format!("no end after {limit} s"),
                n => format!("crash (signal {n})"),
            });
        }
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            return Err(format!("the process exited with {}", libc::WEXITSTATUS(st)));
        }
        serde_json::from_str(&s).map_err(|e| format!("harness: {e}: {s}"))
    }
}

fn guarded(op: &Op) -> String {
    std::panic::catch_unwind(|| op.run()).unwrap_or_else(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", m.unwrap_or_default())
    })
}

/// Share jobs among forked workers; each returns what it found.
fn pool(sh: &Shared, n: usize, f: impl Fn(usize) -> Vec<Value>) -> Vec<Value> {
    sh.next.store(0, SeqCst);
    let mut kids = vec![];
    for _ in 0..WORKERS {
        let mut fd = [0; 2];
        unsafe {
            assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(fd[0]);
                let mut out: Vec<Value> = vec![];
                loop {
                    let i = sh.next.fetch_add(1, SeqCst) as usize;
                    if i >= n || sh.stop.load(SeqCst) >= 10 {
                        break;
                    }
                    out.extend(f(i));
                }
                use std::os::fd::FromRawFd;
                let mut w = std::fs::File::from_raw_fd(fd[1]);
                let _ = w.write_all(Value::from(out).to_string().as_bytes());
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, fd[0]));
        }
    }
    let mut all = vec![];
    for (pid, fd) in kids {
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let v: Vec<Value> = serde_json::from_str(&s).unwrap_or_else(|_| {
            eprintln!("C24: a worker died (status {st})");
            std::process::exit(3)
        });
        all.extend(v);
    }
    all
}

type Base = Vec<String>;

/// Where an execution leaves its trace: memory it shares with whoever started it.
struct Buffer(*mut u8);

const POINTS: usize = 1 << 17;

impl Buffer {
    fn new() -> Self {
        let n = 16 + POINTS * std::mem::size_of::<Point>();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Buffer(p as *mut u8)
    }

    fn clear(&self) {
        unsafe { *(self.0 as *mut usize) = 0 }
    }

    fn put(&self, t: &[Point]) {
        let n = t.len().min(POINTS);
        unsafe {
            std::ptr::copy_nonoverlapping(t.as_ptr(), self.0.add(16) as *mut Point, n);
            *(self.0 as *mut usize) = n;
        }
    }

    fn get(&self) -> Vec<Point> {
        unsafe {
            std::slice::from_raw_parts(self.0.add(16) as *const Point, *(self.0 as *const usize))
                .to_vec()
        }
    }
}

impl Drop for Buffer {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(
                self.0 as *mut libc::c_void,
                16 + POINTS * std::mem::size_of::<Point>(),
            )
        };
    }
}

/// One execution under a plan, in a process of its own.
fn execute(
    ops: &[usize],
    plan: &Plan,
    base: &Base,
    after: bool,
) -> Result<Vec<Point>, (String, Vec<Point>)> {
    thread_local!(static BUFFERS: std::cell::RefCell<HashMap<u32, Buffer>> = Default::default());
    BUFFERS.with_borrow_mut(|all| {
        let buf = all.entry(std::process::id()).or_insert_with(Buffer::new);
        buf.clear();
        let r = forked(|| {
            let bodies = ops
                .iter()
                .map(|&o| Box::new(move || OPS[o].run()) as Box<dyn FnOnce() -> String + Send>)
                .collect();
            let (end, trace) = sched::run(bodies, plan);
            buf.put(&trace);
            match end {
                End::Deadlock(who) => return json!(format!("deadlock of {who:?}")),
                End::Done(out) => {
                    for (i, o) in out.iter().enumerate() {
                        if *o != base[ops[i]] {
                            return json!(format!(
                                "thread {i} ({}) got\n    {o}\n  and alone\n    {}",
                                OPS[ops[i]].label(),
                                base[ops[i]]
                            ));
                        }
                    }
                }
            }
            // what is left behind must not matter either
            if after {
                for (i, op) in OPS.iter().enumerate() {
                    let o = guarded(op);
                    if o != base[i] {
                        return json!(format!(
                            "afterwards {} gives\n    {o}\n  and alone\n    {}",
                            op.label(),
                            base[i]
                        ));
                    }
                }
            }
            Value::Null
        });
        let trace = buf.get();
        match r {
            Err(e) => Err((e, trace)),
            Ok(Value::Null) => Ok(trace),
            Ok(b) => Err((b.as_str().unwrap().into(), trace)),
        }
    })
}

#[derive(Clone, Copy)]
struct Limits {
    /// Preemptions.
    bound: usize,
    /// A thread is preempted only at its first so many uses of a location.
    visits: u32,
    /// Only at uses of globals (rather than of anything shared).
    globals: bool,
    /// Executions.
    max: u64,
    /// Compare all operations afterwards too.
    after: bool,
    /// Take only the first alternatives number `part.0` modulo `part.1`.
    part: (usize, usize),
}

/// What each location was used for by which threads (bits: 4 readers, 4 writers).
type Uses = HashMap<usize, u8>;

/// Used by two threads, one of them writing.
fn contended(u: u8) -> bool {
    let (r, w) = (u & 15, u >> 4);
    w != 0 && (r | w).count_ones() > 1
}

/// All schedules of these operations within the limits.  A thread is only ever
/// preempted right before it uses a location that, in this or any execution of
/// the same operations so far, two threads use and one of them writes: moving a
/// preemption anywhere else to the next such point changes nothing.  When a later
/// execution brings new such locations to light, the exploration starts over.
fn explore(sh: &Shared, ops: &[usize], base: &Base, l: &Limits, built: u8) -> Vec<Value> {
    let mut uses: Uses = HashMap::new();
    let mut n = 0;
    let mut differ = false;
    for _round in 0..4 {
        let known: HashSet<usize> = uses
            .iter()
            .filter(|u| contended(*u.1))
            .map(|u| *u.0)
            .collect();
        let mut stack: Vec<(Plan, usize)> = vec![(vec![], 0)];
        while let Some((plan, used)) = stack.pop() {
            if sh.stop.load(Relaxed) >= 10 {
                return vec![];
            }
            if n >= l.max || sh.start.elapsed() > sh.budget {
                sh.capped.fetch_add(stack.len() as u64 + 1, Relaxed);
                return vec![];
            }
            n += 1;
            sh.schedules.fetch_add(1, Relaxed);
            let trace = match execute(ops, &plan, base, l.after) {
                Ok(t) => t,
                Err((bad, _)) => {
                    let lost = bad.starts_with("no end") || bad.starts_with("deadlock");
                    sh.stop.fetch_add(if lost { 10 } else { 1 }, Relaxed);
                    return vec![
                        json!({"kind": "schedule", "built": built, "ops": ops, "plan": plan, "what": ops.iter().map(|&o| OPS[o].label()).collect::<Vec<_>>(), "bad": bad}),
                    ];
                }
            };
            sh.points.fetch_add(trace.len() as u64, Relaxed);
            sh.deepest.fetch_max(trace.len() as u64, Relaxed);
            sh.blocked.fetch_add(
                trace.iter().filter(|p| p.what == b'b').count() as u64,
                Relaxed,
            );
            // the same schedule again must be the same execution
            if plan.is_empty() && !differ && built > 0 {
                if let Ok(t) = execute(ops, &plan, base, false) {
                    let key = |t: &[Point]| {
                        t.iter()
                            .map(|p| (p.who, p.what, p.went))
                            .collect::<Vec<_>>()
                    };
                    if key(&t) != key(&trace) {
                        differ = true;
                        sh.differ.fetch_add(1, Relaxed);
                    }
                }
            }
            let mut here: Uses = HashMap::new();
            for p in trace.iter().filter(|p| p.preempts()) {
                *here.entry(p.site).or_insert(0) |= 1 << p.who << if p.writes() { 4 } else { 0 };
            }
            for (a, u) in &here {
                *uses.entry(*a).or_insert(0) |= u;
            }
            let from = plan.last().map_or(0, |p| p.0 + 1);
            let mut k = 0;
            let mut seen: HashMap<(u8, usize), u32> = HashMap::new();
            for p in trace.iter().take(from) {
                *seen.entry((p.who, p.site)).or_insert(0) += 1;
            }
            for (i, p) in trace.iter().enumerate().skip(from) {
                let cost = p.preempts() as usize;
                let visit = seen.entry((p.who, p.site)).or_insert(0);
                *visit += 1;
                if cost > 0 && (*visit > l.visits || l.globals && !hooks::global(p.site)) {
                    continue;
                }
                if used + cost > l.bound
                    || cost > 0 && !contended(here[&p.site]) && !known.contains(&p.site)
                {
                    continue;
                }
                for alt in 0..ops.len() as u8 {
                    if alt != p.went && p.ready >> alt & 1 == 1 {
                        k += 1;
                        if plan.is_empty() && k % l.part.1 != l.part.0 {
                            continue;
                        }
                        let mut q = plan.clone();
                        q.push((i, alt));
                        stack.push((q, used + cost));
                    }
                }
            }
        }
        let now = uses.values().filter(|u| contended(**u)).count();
        sh.locations.fetch_max(now as u64, Relaxed);
        if now == known.len() || known.is_empty() && n == 1 {
            break;
        }
    }
    vec![]
}

/// Operations one after another in one process.
fn history(sh: &Shared, seq: &[usize], base: &Base) -> Option<Value> {
    sh.histories.fetch_add(1, Relaxed);
    sh.steps.fetch_add(seq.len() as u64, Relaxed);
    let r = forked(|| {
        for (k, &o) in seq.iter().enumerate() {
            let got = guarded(&OPS[o]);
            if got != base[o] {
                return json!({"at": k, "bad": format!("call {k} ({}) got\n    {got}\n  and alone\n    {}", OPS[o].label(), base[o])});
            }
        }
        json!({})
    });
    let bad = match &r {
        Ok(v) if v["bad"].is_null() => return None,
        Ok(v) => v["bad"].as_str().unwrap().to_string(),
        Err(e) => e.clone(),
    };
    sh.stop
        .fetch_add(if bad.starts_with("no end") { 10 } else { 1 }, Relaxed);
    let upto = r
        .ok()
        .and_then(|v| v["at"].as_u64())
        .map_or(seq.len(), |k| k as usize + 1);
    Some(json!({"kind": "history", "ops": seq[..upto], "bad": bad}))
}

/// What each operation gives on its own, in a process that has done nothing else
/// (or nothing else than building the built-in database).
fn baselines(sh: &Shared, cold: bool) -> Base {
    let v = forked_for(6 * LIMIT, || {
        if !cold {
            ops::warm();
        }
        let mut v = pool(sh, OPS.len(), |i| {
            vec![json!([
                i,
                forked_for(LIMIT / 2, || json!(guarded(&OPS[i])))
                    .unwrap_or_else(|e| json!(format!("lost: {e}")))
            ])]
        });
        v.sort_by_key(|v| v[0].as_u64());
        json!(v)
    });
    v.expect("baselines")
        .as_array()
        .unwrap()
        .iter()
        .map(|v| v[1].as_str().unwrap().to_string())
        .collect()
}

/// The calls of the crowd: each alone, and then each followed by each other that
/// differs from it in one thing only, all in one process, and the operations afterwards.
fn crowd(sh: &Shared, quick: bool, base: &Base) -> (Vec<Value>, String) {
    let c = ops::Crowd::new(quick);
    let hash = |s: &str| {
        s.bytes().fold(0xcbf29ce484222325u64, |h, b| {
            (h ^ b as u64).wrapping_mul(0x100000001b3)
        })
    };
    const CHUNK: usize = 64;
    let alone = pool(sh, c.len().div_ceil(CHUNK), |j| {
        (j * CHUNK..((j + 1) * CHUNK).min(c.len()))
            .map(|i| {
                json!([
                    i,
                    forked(|| json!(hash(&guarded(c.item(i))))).unwrap_or(Value::Null)
                ])
            })
            .collect()
    });
    let mut want = vec![0; c.len()];
    for v in alone {
        let i = v[0].as_u64().unwrap() as usize;
        match v[1].as_u64() {
            Some(h) => want[i] = h,
            None => {
                return (
                    vec![
                        json!({"kind": "crowd", "ops": [], "plan": [[0, 0]], "bad": format!("{} alone has no end or crashes", c.item(i).label())}),
                    ],
                    String::new(),
                )
            }
        }
    }
    let jobs: Vec<(usize, usize)> = (0..4)
        .flat_map(|a| (1..c.axes[a].max(2)).map(move |s| (a, s)))
        .collect();
    let found = pool(sh, jobs.len(), |j| {
        let (axis, stride) = jobs[j];
        let order = c.order(axis, stride);
        sh.histories.fetch_add(1, Relaxed);
        sh.steps
            .fetch_add((order.len() + OPS.len()) as u64, Relaxed);
        let r = forked_for(4 * LIMIT, || {
            for (k, &i) in order.iter().enumerate() {
                let got = guarded(c.item(i));
                if hash(&got) != want[i] {
                    // how little does it take?
                    let few = |n: usize| {
                        forked(|| {
                            for &i in &order[k - n.min(k)..k] {
                                guarded(c.item(i));
                            }
                            json!(guarded(c.item(order[k])))
                        })
                    };
                    return json!(format!("call {k} of the crowd along {axis} by {stride} ({}) got\n    {got}\n  and alone\n    {}\n  right after {}", c.item(i).label(), few(0).unwrap_or_default(), c.item(order[k.max(1) - 1]).label()));
                }
            }
            for (i, op) in OPS.iter().enumerate() {
                let o = guarded(op);
                if o != base[i] {
                    return json!(format!("after the crowd along {axis} by {stride} {} gives\n    {o}\n  and alone\n    {}", op.label(), base[i]));
                }
            }
            Value::Null
        });
        let bad = match r {
            Ok(Value::Null) => return vec![],
            Ok(v) => v.as_str().unwrap().to_string(),
            Err(e) => e,
        };
        sh.stop
            .fetch_add(if bad.starts_with("no end") { 10 } else { 1 }, Relaxed);
        vec![json!({"kind": "crowd", "ops": [], "plan": [[axis, stride]], "bad": bad})]
    });
    (found, format!("{} calls, each alone and right before and after each that differs in one thing (whom it is read for, digits, extension, database), {} histories of all of them", c.len(), jobs.len()))
}

fn pick(f: impl Fn(&Op) -> bool) -> Vec<usize> {
    (0..OPS.len()).filter(|&i| f(&OPS[i])).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    // a process with the built-in database is forked thousands of times: large pages make that cheap
    const TUNE: &str = "glibc.malloc.hugetlb=1";
    if std::env::var("GLIBC_TUNABLES").as_deref() != Ok(TUNE) {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .env("GLIBC_TUNABLES", TUNE)
            .exec();
        eprintln!("exec: {e}");
    }
    let t0 = Instant::now();
    let sh = shared();
    let mut quick = std::env::var("VERIF_TIER").as_deref() != Ok("thorough");
    match args.get(2).map(|s| s.as_str()) {
        Some("quick") => quick = true,
        Some("thorough") => quick = false,
        Some("replay") => {
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("replay file"))
                    .expect("replay file");
            let base = baselines(sh, !quick);
            ops::prepare();
            let c = &v["case"];
            let ops: Vec<usize> = serde_json::from_value(c["ops"].clone()).unwrap();
            let bad = if c["kind"] == "schedule" {
                match c["built"].as_u64() {
                    Some(1) => ops::warm(),
                    Some(2) => OPS.iter().for_each(|o| drop(guarded(o))),
                    _ => (),
                }
                let plan: Plan = serde_json::from_value(c["plan"].clone()).unwrap();
                match execute(&ops, &plan, &base, true) {
                    Ok(_) => None,
                    Err((b, t)) => {
                        for (i, p) in t.iter().enumerate() {
                            if p.went != p.who {
                                println!(
                                    "  point {i}: thread {} ({}) -> thread {}",
                                    p.who, p.what as char, p.went
                                );
                            }
                        }
                        Some(b)
                    }
                }
            } else {
                ops::warm();
                if c["kind"] == "crowd" {
                    let all = crowd(sh, quick, &base).0;
                    all.first().map(|v| v["bad"].as_str().unwrap().to_string())
                } else {
                    history(sh, &ops, &base).map(|v| v["bad"].as_str().unwrap().to_string())
                }
            };
            match bad {
                Some(b) => {
                    println!("VIOLATION property=C24 replay={}\n  {b}", args[3]);
                    std::process::exit(1)
                }
                None => println!("the case passes"),
            }
            return;
        }
        _ => (),
    }
    if args.get(2).map(|s| s.as_str()) == Some("probe") {
        let base = baselines(sh, !quick);
        eprintln!("base {:?}", t0.elapsed());
        ops::prepare();
        let o: Vec<usize> = args[3].split(',').map(|s| s.parse().unwrap()).collect();
        if args[4] == "warm" {
            ops::warm();
        }
        if args[4] == "all" {
            for o in OPS {
                guarded(o);
            }
        }
        let t = Instant::now();
        let _ = execute(&o, &vec![], &base, false);
        eprintln!("first {:?}", t.elapsed());
        let t = Instant::now();
        forked(|| json!({})).unwrap();
        eprintln!("fork {:?}", t.elapsed());
        let t = Instant::now();
        let r = execute(&o, &vec![], &base, false);
        let t1 = t.elapsed();
        match r {
            Ok(tr) => {
                let mut m = std::collections::BTreeMap::new();
                let mut u: Uses = HashMap::new();
                for p in tr.iter().filter(|p| p.preempts()) {
                    *u.entry(p.site).or_insert(0) |= 1 << p.who << if p.writes() { 4 } else { 0 };
                }
                for p in &tr {
                    *m.entry((p.who, p.what as char, p.preempts() && contended(u[&p.site])))
                        .or_insert(0) += 1;
                }
                let mut c: HashMap<usize, (usize, usize)> = HashMap::new();
                for p in tr.iter().filter(|p| p.preempts() && contended(u[&p.site])) {
                    let e = c.entry(p.site).or_default();
                    if p.who == 0 {
                        e.0 += 1
                    } else {
                        e.1 += 1
                    }
                }
                let mut c: Vec<_> = c.into_iter().collect();
                c.sort_by_key(|c| std::cmp::Reverse(c.1 .0));
                for (a, k) in c {
                    eprintln!("{a:x} {k:?}");
                }
                eprintln!(
                    "{} contended",
                    u.values().filter(|u| contended(**u)).count()
                );
                eprintln!("{} points in {t1:?}: {m:?}", tr.len());
            }
            Err(e) => eprintln!("{}", e.0),
        }
        return;
    }
    let note = |what: &str, sh: &Shared| {
        if std::env::var("C24_NOTES").is_ok() {
            eprintln!(
                "{what} {:.1} s, {} schedules, {} points, {} blocked, {} capped",
                t0.elapsed().as_secs_f64(),
                sh.schedules.load(SeqCst),
                sh.points.load(SeqCst),
                sh.blocked.load(SeqCst),
                sh.capped.load(SeqCst)
            );
        }
    };
    let mut bounds: Vec<String> = vec![];
    let mut found: Vec<Value> = vec![];
    let base = baselines(sh, !quick);
    let outcomes: BTreeSet<&String> = base.iter().collect();
    for (i, b) in base.iter().enumerate() {
        if b.starts_with("panic") || b.starts_with("lost: ") {
            found.push(json!({"kind": "history", "ops": [i], "bad": format!("{} alone in a fresh process: {b}", OPS[i].label())}));
        }
    }
    let lim = |bound, max, after| Limits {
        bound,
        visits: if quick { 1 } else { 4 },
        globals: false,
        max,
        after,
        part: (0, 1),
    };
    type Jobs = Vec<(Vec<usize>, Limits)>;

    // first use: nothing of the library has run yet (but for building two small databases)
    let mut jobs: Jobs = vec![];
    let loads = pick(|o| matches!(o, Op::Load(_) | Op::Viable(_)));
    for (i, &a) in loads.iter().enumerate() {
        for &b in &loads[i..] {
            jobs.push((vec![a, b], lim(if quick { 1 } else { 2 }, 20_000, false)));
        }
    }
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 0)
        }));
    }
    bounds.push(format!(
        "first use by loading and looking: {} pairs, up to {} preemptions",
        jobs.len(),
        if quick { 1 } else { 2 }
    ));
    note("ta", sh);
    ops::prepare();
    let mut jobs: Jobs = vec![];
    let light = pick(|o| o.light());
    for (i, &a) in light.iter().enumerate() {
        for &b in &light[i..] {
            jobs.push((vec![a, b], lim(if quick { 1 } else { 2 }, 50_000, false)));
        }
    }
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 0)
        }));
    }
    bounds.push(format!(
        "first use without the built-in database: {} pairs, up to {} preemptions",
        jobs.len(),
        if quick { 1 } else { 2 }
    ));
    note("tb", sh);
    // ... and with it
    let mut jobs: Jobs = vec![];
    let find = |t: &str| OPS.iter().position(|o| o.label() == t).unwrap();
    let lookup = find("Lookup(1, \"US\")");
    let firsts: Vec<usize> = if quick {
        vec![0]
    } else {
        vec![
            0,
            1,
            2,
            10,
            21,
            24,
            40,
            find("Print(Default, \"\", \"+1 650 253 0000\", National)"),
            lookup,
            OPS.len() - 1,
        ]
    };
    let others = [lookup];
    let parts = if quick { 16 } else { 64 };
    for (k, &a) in firsts.iter().enumerate() {
        for &b in if quick { &others[..] } else { &firsts[k..] } {
            jobs.extend((0..parts).map(|p| {
                (
                    vec![a, b],
                    Limits {
                        globals: quick,
                        part: (p, parts),
                        ..lim(1, 2_000, true)
                    },
                )
            }));
        }
    }
    bounds.push(format!(
        "first use with the built-in database: {} pairs, up to 1 preemption",
        jobs.len() / parts
    ));
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 0)
        }));
    }
    note("t1", sh);
    // each operation as the very first one, and then all others
    if found.is_empty() && !quick {
        found.extend(pool(sh, OPS.len(), |i| {
            let mut s = vec![i];
            s.extend((0..OPS.len()).map(|k| (i + k) % OPS.len()));
            history(sh, &s, &base).into_iter().collect()
        }));
        bounds.push("each operation first in a fresh process, followed by all others".into());
    }
    note("t2", sh);

    // a process that has the built-in database
    ops::warm();
    if found.is_empty() {
        let depth = if quick { 2 } else { 3 };
        let n = OPS.len();
        found.extend(pool(sh, n * n, |j| {
            let (a, b) = (j / n, j % n);
            let mut out: Vec<Value> = vec![];
            if depth == 2 {
                out.extend(history(sh, &[a, b], &base));
            } else {
                for c in 0..n {
                    out.extend(history(sh, &[a, b, c], &base));
                    if !out.is_empty() {
                        break;
                    }
                }
            }
            out
        }));
        bounds.push(format!("all sequences of {depth} of {n} operations"));
        // long ones
        found.extend(pool(sh, n, |i| {
            let mut s: Vec<usize> = vec![i; if quick { 1_000 } else { 70_000 }];
            s.extend(0..n);
            let mut out: Vec<Value> = history(sh, &s, &base).into_iter().collect();
            // all cyclic orders with any stride, three times over
            let s: Vec<usize> = (0..3 * n).map(|k| (k * (i + 1)) % n).chain(0..n).collect();
            out.extend(history(sh, &s, &base));
            out
        }));
        bounds.push(format!(
            "each operation {} times and then all; all strides through the operations",
            if quick { 1_000 } else { 70_000 }
        ));
    }
    note("t3", sh);
    if found.is_empty() {
        let (f, b) = crowd(sh, quick, &base);
        found.extend(f);
        bounds.push(b);
    }
    note("t3b", sh);
    // nothing but the built-in database is there: what is built on demand still has to be
    let mut jobs: Jobs = vec![];
    let n = OPS.len();
    let few = if quick {
        vec![0, 2, 6, 7, 21]
    } else {
        (0..n).collect()
    };
    for (i, &a) in few.iter().enumerate() {
        for &b in &few[i..] {
            jobs.push((vec![a, b], lim(1, 3_000, true)));
        }
    }
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 1)
        }));
        bounds.push(format!(
            "with the built-in database there: {} pairs of operations with up to 1 preemption",
            jobs.len()
        ));
    }
    note("t4", sh);
    // a process in which every operation has been used
    if found.is_empty() {
        for o in OPS {
            guarded(o);
        }
    }
    let mut jobs: Jobs = vec![];
    for a in 0..n {
        for b in a..n {
            jobs.push((
                vec![a, b],
                Limits {
                    globals: quick,
                    ..lim(if quick { 1 } else { 2 }, 20_000, true)
                },
            ));
        }
    }
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 2)
        }));
        bounds.push(format!(
            "after all operations: {} pairs of operations with up to {} preemptions",
            jobs.len(),
            if quick { 1 } else { 2 }
        ));
    }
    note("t5", sh);
    let mut jobs: Jobs = vec![];
    let few: Vec<usize> = if quick {
        vec![0, 2, 6, 7, 10]
    } else {
        vec![0, 2, 4, 6, 7, 10, 11, 21, 23, 40, 52, 61]
    };
    for (i, &a) in few.iter().enumerate() {
        for (j, &b) in few.iter().enumerate().skip(i) {
            for &c in &few[j..] {
                jobs.push((
                    vec![a, b, c],
                    Limits {
                        globals: quick,
                        ..lim(if quick { 1 } else { 2 }, 20_000, true)
                    },
                ));
            }
        }
    }
    if found.is_empty() {
        found.extend(pool(sh, jobs.len(), |j| {
            explore(sh, &jobs[j].0, &base, &jobs[j].1, 2)
        }));
        bounds.push(format!(
            "after all operations: {} triples with up to {} preemptions",
            jobs.len(),
            if quick { 1 } else { 2 }
        ));
    }

    // report
    let g = |a: &AtomicU64| a.load(SeqCst);
    let known = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut lines = vec![];
    let mut violations = 0;
    for v in &found {
        let case =
            json!({"kind": v["kind"], "ops": v["ops"], "built": v["built"], "plan": v["plan"]});
        let name = case.to_string();
        if let Some(l) = known.lines().find(|l| {
            l.starts_with("known: property=C24 ")
                && l.contains(&serde_json::to_string(&name).unwrap())
        }) {
            println!("KNOWN-FINDING: property=C24 {l}");
            continue;
        }
        violations += 1;
        if violations > 10 {
            continue;
        }
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| {
            (h ^ b as u64).wrapping_mul(0x100000001b3)
        });
        let path = dir.join(format!("C24-{h:016x}.json"));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": "C24", "case": case, "detail": v["bad"], "what": v["what"], "replay": format!("sh check.sh C24 replay {}", path.display())})).unwrap());
        let bad: String = v["bad"].as_str().unwrap_or("").chars().take(1500).collect();
        lines.push(format!(
            "VIOLATION property=C24 replay={}\n  {} of {}\n  {bad}",
            path.display(),
            v["kind"].as_str().unwrap_or(""),
            v["ops"]
        ));
    }
    let ev = json!({
        "property": "C24",
        "tier": if quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": g(&sh.points),
            "transitions": g(&sh.points) + g(&sh.steps),
            "traces_validated_against_impl": g(&sh.schedules) + g(&sh.histories),
            "schedules": g(&sh.schedules),
            "histories": g(&sh.histories),
            "scheduling_points_of_the_longest_execution": g(&sh.deepest),
            "contended_locations_at_most": g(&sh.locations),
            "times_a_thread_blocked": g(&sh.blocked),
            "schedules_beyond_the_cap": g(&sh.capped),
            "repeated_schedules_that_differed": g(&sh.differ),
            "distinct_outcomes_of_operations": outcomes.len(),
            "exhaustive": g(&sh.capped) == 0 && g(&sh.stop) == 0,
            "bounds": bounds,
            "samples": [OPS[0].label(), base[0], OPS[10].label(), base[10]],
        },
        "assumptions": ["threads interact only through atomic operations, writable globals and locks (no unsynchronised heap sharing, which safe code cannot have)", "sequentially consistent memory"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join("C24.json"),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "C24 {}: {} schedules with {} points, {} histories with {} calls, {} beyond the cap, {} blocked, {} violations, {:.1} s",
        if quick { "quick" } else { "thorough" },
        g(&sh.schedules), g(&sh.points), g(&sh.histories), g(&sh.steps), g(&sh.capped), g(&sh.blocked), violations, t0.elapsed().as_secs_f64()
    );
    for l in lines {
        println!("{l}");
    }
    std::process::exit((violations > 0) as i32)
}
