//! Schedule exploration of native runs (a bounded stand-in for the properties that quantify over
//! interleavings of several threads): the real code runs on real threads of which exactly one is
//! allowed to run at a time; at every scheduling point (atomic access, lock, unlock, condition
//! variable, system call) the next thread is a recorded choice, and all choices are enumerated
//! depth first, up to a number of preemptions.  Data choices (`nd::bool`) are enumerated as well.
use crate::T;
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

type Cond = Box<dyn Fn() -> bool + Send>;

enum St {
    Ready,
    Blocked(Cond, Option<T>, &'static str),
    Done,
}

struct S {
    active: bool,
    st: Vec<St>,
    cur: usize,
    // the choices of this run: (taken, number of options)
    trail: Vec<(u32, u32)>,
    pos: usize,
    preempt: u32,
    bound: u32,
    /// threads may time out while others could run (counts as a preemption)
    steps: u64,
    total_steps: u64,
    timed_out: Vec<bool>,
    rng: Option<u64>,
    log: Vec<String>,
    logging: bool,
    note: Option<String>,
}

static S: Mutex<S> = Mutex::new(S {
    active: false,
    st: Vec::new(),
    cur: usize::MAX,
    trail: Vec::new(),
    pos: 0,
    preempt: 0,
    bound: 2,
    steps: 0,
    total_steps: 0,
    timed_out: Vec::new(),
    rng: None,
    log: Vec::new(),
    logging: false,
    note: None,
});
static CV: [Condvar; 5] = [Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new()];
const MAIN: usize = 4;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Is the calling thread one of those being scheduled?
pub fn active() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
/// Is this run one of an exploration (threads or not)?
static EXPLORING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn exploring() -> bool {
    EXPLORING.load(std::sync::atomic::Ordering::Relaxed)
}

fn lock() -> MutexGuard<'static, S> {
    match S.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

fn die(s: &S, what: &str) -> ! {
    println!("FAILED: {}", what);
    if let Some(n) = &s.note {
        println!("in: {}", n);
    }
    for l in &s.log {
        println!("  {}", l);
    }
    let c: Vec<String> = s.trail.iter().map(|x| x.0.to_string()).collect();
    println!("SCHEDULE: {};{}", s.bound, c.join(","));
    std::process::exit(101)
}

/// Reports a violation found in this run.
pub fn fail(what: &str) -> ! {
    for _ in 0..1000 {
        if let Ok(s) = S.try_lock() {
            die(&s, what)
        }
        std::thread::yield_now();
    }
    println!("FAILED: {}", what);
    std::process::exit(101)
}

fn choose(s: &mut S, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let c = if s.pos < s.trail.len() {
        let c = s.trail[s.pos].0;
        if c >= n {
            // (a recorded schedule of other code)
            n - 1
        } else {
            c
        }
    } else {
        let c = match &mut s.rng {
            None => 0,
            Some(x) => {
                *x ^= *x << 13;
                *x ^= *x >> 7;
                *x ^= *x << 17;
                (x.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as u32 % n
            }
        };
        s.trail.push((c, n));
        c
    };
    s.trail[s.pos] = (c, n);
    s.pos += 1;
    c
}

/// A data choice.
pub fn data(n: u32) -> u32 {
    choose(&mut lock(), n)
}

fn enabled(s: &S, i: usize) -> bool {
    match &s.st[i] {
        St::Ready => true,
        St::Blocked(c, _, _) => c(),
        St::Done => false,
    }
}

/// The calling thread has just yielded, blocked or ended: picks who runs next.
fn pick(s: &mut S, me: usize) {
    s.steps += 1;
    s.total_steps += 1;
    if s.steps > 5000 {
        die(s, "livelock: the threads run on without end");
    }
    let n = s.st.len();
    let mut opts: Vec<usize> = Vec::new();
    if enabled(s, me) {
        opts.push(me);
    }
    let mine = !opts.is_empty();
    for i in 0..n {
        if i != me && enabled(s, i) {
            opts.push(i);
        }
    }
    if opts.is_empty() {
        if s.st.iter().all(|x| matches!(x, St::Done)) {
            s.cur = MAIN;
            CV[MAIN].notify_one();
            return;
        }
        // everybody sleeps: time passes until the earliest limit
        let mut best: Option<(T, usize)> = None;
        for i in 0..n {
            if let St::Blocked(_, Some(t), _) = &s.st[i] {
                if best.map_or(true, |b| *t < b.0) {
                    best = Some((*t, i));
                }
            }
        }
        match best {
            None => {
                let w: Vec<String> = (0..n)
                    .filter_map(|i| match &s.st[i] {
                        St::Blocked(_, _, w) => Some(format!("thread {} in {}", i, w)),
                        _ => None,
                    })
                    .collect();
                die(s, &format!("threads sleep for ever: {}", w.join(", ")))
            }
            Some((t, i)) => {
                let k = crate::k();
                if t > k.now {
                    k.now = t;
                }
                s.timed_out[i] = true;
                s.st[i] = St::Ready;
                s.cur = i;
                CV[i].notify_one();
                return;
            }
        }
    }
    // a sleeping thread may also reach its limit now, while others could run
    let mut late: Option<(T, usize)> = None;
    if s.preempt < s.bound {
        for i in 0..n {
            if let St::Blocked(_, Some(t), _) = &s.st[i] {
                if !opts.contains(&i) && late.map_or(true, |b| *t < b.0) {
                    late = Some((*t, i));
                }
            }
        }
    }
    let total = opts.len() as u32 + late.is_some() as u32;
    let c = if mine && s.preempt >= s.bound { 0 } else { choose(s, total) as usize };
    if mine && c > 0 || c == opts.len() {
        s.preempt += 1;
    }
    let i = if c == opts.len() {
        let (t, i) = late.unwrap();
        let k = crate::k();
        if t > k.now {
            k.now = t;
        }
        s.timed_out[i] = true;
        i
    } else {
        opts[c]
    };
    s.st[i] = St::Ready;
    if i != s.cur {
        s.cur = i;
        CV[i].notify_one();
    }
}

fn wait_turn(mut s: MutexGuard<'static, S>, me: usize) {
    while s.cur != me {
        s = match CV[me].wait(s) {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
    }
}

fn note(s: &mut S, me: usize, what: &str) {
    if s.logging {
        s.log.push(format!("thread {}: {}", me, what));
    }
}

/// A scheduling point.
pub fn yield_now(kind: u8) {
    let me = ME.with(|m| m.get());
    let mut s = lock();
    note(&mut s, me, NAMES[kind as usize % NAMES.len()]);
    pick(&mut s, me);
    wait_turn(s, me);
}
const NAMES: [&str; 10] = [
    "?", "atomic", "lock", "unlock", "epoll_ctl", "wait", "read", "write", "signal", "settime",
];

/// The calling thread sleeps until the condition holds (true) or the clock reaches the limit.
pub fn block(cond: Cond, limit: Option<T>, what: &'static str) -> bool {
    let me = ME.with(|m| m.get());
    let mut s = lock();
    note(&mut s, me, what);
    if let Some(t) = limit {
        if crate::k().now >= t {
            return cond();
        }
    }
    s.timed_out[me] = false;
    s.st[me] = St::Blocked(cond, limit, what);
    pick(&mut s, me);
    wait_turn(s, me);
    !lock().timed_out[me]
}

/// Runs the bodies as concurrent threads until all have ended.
pub fn par(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n <= MAIN);
    {
        let mut s = lock();
        s.st = (0..n).map(|_| St::Ready).collect();
        s.timed_out = vec![false; n];
        s.steps = 0;
        s.preempt = 0;
        s.cur = usize::MAX - 1;
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::spawn(move || {
                ME.with(|m| m.set(i));
                wait_turn(lock(), i);
                b();
                let mut s = lock();
                s.st[i] = St::Done;
                pick(&mut s, i);
                ME.with(|m| m.set(usize::MAX));
            })
        })
        .collect();
    {
        let mut s = lock();
        // who starts
        let c = choose(&mut s, n as u32) as usize;
        s.cur = c;
        CV[c].notify_one();
        wait_turn(s, MAIN);
    }
    for h in hs {
        let _ = h.join();
    }
}

/// Runs `f` under every schedule with at most `bound` preemptions; returns the number of runs and
/// whether that was all of them.
pub fn explore(name: &str, f: fn(), bound: u32, secs: f64, seed: u64) -> (u64, bool, u64) {
    setup(name);
    let t0 = std::time::Instant::now();
    {
        let mut s = lock();
        s.trail.clear();
        s.bound = bound;
        s.rng = if seed == 0 { None } else { Some(seed | 1) };
        s.total_steps = 0;
    }
    let mut runs = 0;
    loop {
        {
            let mut s = lock();
            s.pos = 0;
            s.log.clear();
            if s.rng.is_some() {
                s.trail.clear();
            }
        }
        f();
        runs += 1;
        let mut s = lock();
        let p = s.pos;
        s.trail.truncate(p);
        if s.rng.is_none() {
            loop {
                match s.trail.pop() {
                    None => return (runs, true, s.total_steps),
                    Some((c, n)) if c + 1 < n => {
                        s.trail.push((c + 1, n));
                        break;
                    }
                    _ => {}
                }
            }
        }
        if t0.elapsed().as_secs_f64() > secs {
            return (runs, false, s.total_steps);
        }
    }
}

/// Runs `f` once under a recorded schedule.
pub fn replay(name: &str, f: fn(), bound: u32, trail: Vec<u32>) {
    setup(name);
    {
        let mut s = lock();
        s.trail = trail.into_iter().map(|c| (c, u32::MAX)).collect();
        s.bound = bound;
        s.pos = 0;
        s.logging = true;
    }
    f();
}

fn setup(name: &str) {
    EXPLORING.store(true, std::sync::atomic::Ordering::Relaxed);
    lock().note = Some(name.to_string());
    std::panic::set_hook(Box::new(|i| {
        let m = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match i.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_string(),
            },
        };
        let l = i.location().map(|l| format!(" ({}:{})", l.file(), l.line())).unwrap_or_default();
        fail(&format!("{}{}", m, l));
    }));
}
