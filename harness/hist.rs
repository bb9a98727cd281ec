//! Random histories of the public API against a reference model (native, bounded stand-in): the
//! contracts of the harnesses hold for short histories; this looks at long ones.  A failure counts
//! for a property only if the property says something about it (the tags of `ck!`).
use super::pre::*;
use std::collections::BTreeSet;
use std::string::String;
use std::vec::Vec;

/// xorshift; independent of the choices inside the ghost system
pub struct Rng(pub u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
}

/// What is specified about one source.
#[derive(Clone, Copy)]
struct Sp {
    reg: bool,
    key: usize,
    int: Int,
    mode: PollMode,
    armed: bool,
    edge: bool,
    ready: u16,
}
impl Sp {
    fn rep(&self) -> u16 {
        self.ready & self.int.wants()
    }
    /// does the next wait report it?
    fn due(&self) -> bool {
        self.reg
            && self.armed
            && self.rep() != 0
            && (self.edge || matches!(self.mode, PollMode::Oneshot | PollMode::Level))
    }
    fn set(&mut self, key: usize, int: Int, mode: PollMode) {
        *self = Sp { reg: true, key, int, mode, armed: true, edge: true, ready: self.ready };
    }
}

pub struct Hist {
    prop: String,
    r: Rng,
    s: Vec<Sp>,
    n: usize,
    src: Vec<Src>,
    pending: bool,
    /// tags of what happened since the last wait that went as specified
    tags: BTreeSet<&'static str>,
    /// delivered events, to be used as interest
    old: Vec<Event>,
    pub ops: u64,
}
/// The history that runs, for the report of a failure.
pub static mut TRACE: Vec<String> = Vec::new();
/// The history cannot be continued (a failure another property is about).
pub struct Stop;

static mut ON_BLOCK: u8 = 0;
static mut ON_ARG: (usize, u16) = (0, 0);
/// a change of a source while another thread sleeps: 0 add, 1 modify, 2 delete
static mut ON_CHG: (u8, i32, Event, PollMode) = (0, 0, Event::none(0), PollMode::Oneshot);
static mut ON_RES: bool = false;
fn while_asleep() {
    unsafe {
        let op = ON_BLOCK;
        ON_BLOCK = 0;
        match op {
            1 => notify(the()),
            2 => ghost::set_ready(ON_ARG.0, ON_ARG.1),
            3 => {
                notify(the());
                ghost::set_ready(ON_ARG.0, ON_ARG.1)
            }
            4 => {
                ghost::set_ready(ON_ARG.0, ON_ARG.1);
                notify(the())
            }
            5 => {
                let (op, fd, ev, mode) = ON_CHG;
                let s = &Src(fd);
                ON_RES = match op {
                    0 => the().add_with_mode(s, ev, mode),
                    1 => the().modify_with_mode(s, ev, mode),
                    _ => the().delete(s),
                }
                .is_ok()
            }
            _ => {}
        }
    }
}


impl Hist {
    pub fn new(prop: &str, seed: u64) -> Hist {
        let e = Sp { reg: false, key: 0, int: NONE, mode: PollMode::Oneshot, armed: false, edge: false, ready: 0 };
        Hist {
            prop: prop.into(),
            r: Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1),
            s: std::vec![e; ghost::NUSER],
            n: 3,
            src: Vec::new(),
            pending: false,
            tags: BTreeSet::new(),
            old: Vec::new(),
            ops: 0,
        }
    }
    fn ck(&self, ok: bool, tags: &[&str], msg: &str) {
        if ok {
            return;
        }
        let p = self.prop.as_str();
        if p == "ALL" || tags.contains(&p) || self.tags.contains(p) {
            panic!("{}", msg);
        }
        std::panic::panic_any(Stop);
    }
    fn say(&mut self, s: String) {
        self.ops += 1;
        unsafe { TRACE.push(s) }
    }
    fn int(&mut self) -> Int {
        let b = self.r.next();
        match b & 7 {
            0 => NONE,
            1 | 2 => R,
            3 => W,
            4 => RW,
            _ => Int { r: b & 16 != 0, w: b & 32 != 0, p: b & 64 != 0, h: b & 128 != 0 },
        }
    }
    fn ready(&mut self) -> u16 {
        match self.r.below(8) {
            0 | 1 => 0,
            2 | 3 => IN,
            4 => OUT,
            5 => IN | OUT,
            _ => self.r.next() as u16 & ALL,
        }
    }
    /// (Keys of different sources differ, so that every event can be attributed.)
    fn key(&mut self, i: usize) -> usize {
        match self.r.below(10) {
            0 => i,
            1 => usize::MAX - 1 - i,
            2 => usize::MAX,
            3 => (1 << 63) + i,
            4 => 0xffff_ffff + i,
            _ => i + self.n * (1 + self.r.below(1000) as usize),
        }
    }
    fn mode(&mut self) -> PollMode {
        MODES[match self.r.below(6) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2,
            _ => 3,
        }]
    }
    fn touched(&mut self, i: usize) {
        self.tags.insert("C16");
        if (0..self.n).any(|j| j != i && self.s[j].reg) {
            self.tags.insert("C12");
        }
    }

    fn change(&mut self, p: &Poller) {
        let i = self.r.below(self.n as u64) as usize;
        let op = self.r.below(3);
        let (mut key, mut int) = (self.key(i), self.int());
        if op == 2 {
            key = 0;
        }
        let mut ev = int.ev(key);
        if !self.old.is_empty() && self.r.one_in(6) {
            // an event that was delivered says what to ask for
            ev = self.old[self.r.below(self.old.len() as u64) as usize];
            ev.key = key;
            if self.r.one_in(2) {
                ev.readable = self.r.one_in(2);
                ev.writable = self.r.one_in(2);
            }
            if self.r.one_in(4) {
                ev.set_priority(self.r.one_in(2));
                ev.set_interrupt(self.r.one_in(2));
            }
            int = Int { r: ev.readable, w: ev.writable, p: ev.is_priority(), h: ev.is_interrupt() };
        }
        let plain = self.r.one_in(3);
        let mode = if plain { PollMode::Oneshot } else { self.mode() };
        let k = ghost::k();
        let f = self.r.one_in(6);
        let errno = 60 + self.r.below(60) as i32;
        let nf = k.nfaults;
        if f {
            k.fault_class = ghost::F_CTL;
            k.fault_budget = nf + 1;
            k.fault_force = true;
            k.fault_errno = errno;
        }
        self.say(format!(
            "{} source {} key {} r{} w{} p{} h{} {:?}{}",
            ["add", "modify", "delete"][op as usize], i, key, int.r as u8, int.w as u8, int.p as u8, int.h as u8, mode,
            if f { " (the system may fail)" } else { "" }
        ));
        let src = &self.src[i];
        let res = match (op, plain) {
            (0, true) => unsafe { p.add(src, ev) },
            (0, false) => unsafe { p.add_with_mode(src, ev, mode) },
            (1, true) => p.modify(src, ev),
            (1, false) => p.modify_with_mode(src, ev, mode),
            _ => p.delete(src),
        };
        let failed = ghost::k().nfaults > nf;
        ghost::k().fault_class = 0;
        let reserved = op < 2 && key == usize::MAX;
        let unsup = op < 2 && !supported(mode);
        let wrong = if op == 0 { self.s[i].reg } else { !self.s[i].reg };
        match res {
            Ok(()) => {
                self.ck(!failed, &["C17", "C11"], "an error of the system call is swallowed");
                self.ck(!reserved, &["C04"], "the reserved key is accepted");
                self.ck(!unsup, &["C03"], "an unsupported mode is accepted");
                self.ck(!wrong, &["C10"], "an operation against the life cycle is accepted");
                match op {
                    2 => self.s[i].reg = false,
                    _ => {
                        if op == 0 {
                            self.tags.insert("C10");
                        }
                        self.s[i].set(key, int, mode)
                    }
                }
            }
            Err(e) => {
                self.ck(failed || reserved || unsup || wrong, &["C10", if op < 2 { "C04" } else { "C10" }, "C03"], "an operation fails without a reason");
                if failed && !reserved && !unsup {
                    self.ck(raw(&e) == Some(errno), &["C17"], "another error than that of the system call");
                }
                if reserved {
                    self.ck(e.kind() == mstd::io::ErrorKind::InvalidInput, &["C04"], "the reserved key is refused with another error");
                }
                self.tags.insert("C11");
                if failed {
                    self.tags.insert("C17");
                }
            }
        }
        self.touched(i);
    }

    /// A great many operations without a wait: nothing fills up.
    fn burst(&mut self, p: &Poller) {
        let i = self.r.below(self.n as u64) as usize;
        let kind = self.r.below(4);
        self.say(format!("70000 times {} source {}", ["notify", "modify", "delete and add", "a failing change of"][kind as usize], i));
        let (key, int) = (i, R);
        for _ in 0..70000 {
            let s = &self.src[i];
            match kind {
                0 => {
                    if p.notify().is_err() {
                        self.ck(false, &["C07", "C08"], "notify fails");
                    }
                    self.pending = true;
                }
                1 => {
                    let ok = p.modify_with_mode(s, int.ev(key), PollMode::Level).is_ok();
                    self.ck(ok == self.s[i].reg, &["C10"], "a modification has another outcome");
                    if ok {
                        self.s[i].set(key, int, PollMode::Level);
                    }
                }
                2 => {
                    let ok = p.delete(s).is_ok();
                    self.ck(ok == self.s[i].reg, &["C10"], "a delete has another outcome");
                    let ok = unsafe { p.add(s, int.ev(key)) }.is_ok();
                    self.ck(ok, &["C10"], "an add fails");
                    self.s[i].set(key, int, PollMode::Oneshot);
                }
                _ => {
                    let ok = unsafe { p.add(s, int.ev(usize::MAX)) }.is_ok() || !self.s[i].reg && p.delete(s).is_ok();
                    self.ck(!ok, &["C04", "C10"], "an operation that has to fail succeeds");
                }
            }
        }
        self.tags.extend(if kind == 0 { ["C07", "C08"] } else { ["C10", "C16"] });
    }

    fn wait(&mut self, p: &Poller, evs: &mut Events, cap: usize) {
        let k = ghost::k();
        let any_due = self.s.iter().any(|s| s.due());
        let mut d = match self.r.below(8) {
            0 | 1 | 2 => Some(Duration::ZERO),
            3 => Some(Duration::new(self.r.below(4), self.r.below(1_000_000_000) as u32)),
            4 => Some(Duration::from_millis(1 + self.r.below(3))),
            5 => Some(Duration::new(0, 1 + self.r.below(2_000_000) as u32)),
            6 if self.r.one_in(2) => {
                let sh = self.r.below(64);
                Some(Duration::new((self.r.next() << 11) >> sh, self.r.below(1_000_000_000) as u32))
            }
            6 => Some(Duration::from_secs(1)),
            _ => None,
        };
        // what another thread, or the world, does while this one sleeps
        let sleep_op: u8 = match self.r.below(8) {
            0 | 1 => 1,
            2 | 3 => 2,
            4 => 3 + self.r.below(2) as u8,
            // (poll: the sleeper has to wake up first; see the scenarios of several threads)
            5 if !POLL => 5,
            _ => 0,
        };
        let (u, rd) = (self.r.below(self.n as u64) as usize, self.ready());
        let mut t = self.s[u];
        let mut chg_ok = true;
        if sleep_op == 5 {
            let (op, key, int) = (self.r.below(3) as u8, self.key(u), self.int());
            let mode = self.mode();
            unsafe { ON_CHG = (op, self.src[u].0, int.ev(key), mode) }
            chg_ok = (op == 2 || key != usize::MAX && supported(mode)) && t.reg == (op != 0);
            if chg_ok {
                match op {
                    2 => t.reg = false,
                    _ => t.set(key, int, mode),
                }
            }
        } else if sleep_op >= 2 {
            t.ready = rd;
            t.edge = true;
        }
        let noti = matches!(sleep_op, 1 | 3 | 4);
        let wakes = noti || sleep_op > 0 && t.due();
        // (a sleep that long would use up the clock)
        if !any_due && !self.pending && !wakes && d.map_or(false, |d| d.as_secs() >> 33 != 0) {
            d = Some(Duration::new(1 << 33, 5));
        }
        if d.is_none() && !any_due && !self.pending && !wakes {
            d = Some(Duration::from_secs(2));
        } else if d.is_none() && self.r.one_in(3) {
            d = Some(Duration::MAX);
        }
        let endless = match d {
            None => true,
            Some(d) => d.as_secs().saturating_add(k.now.s + 2) > ghost::time::CLOCK_MAX_S,
        };
        unsafe {
            ON_BLOCK = sleep_op;
            ON_ARG = (u, rd);
        }
        k.on_block_on = true;
        k.on_block = while_asleep;
        k.hang_is_error = true;
        k.eintr_max = if self.r.one_in(3) { u32::MAX } else { 0 };
        k.eintr_flows = self.r.one_in(2);
        let fault = self.r.one_in(8);
        let errno = 60 + self.r.below(60) as i32;
        let (nf, ni, nb) = (k.nfaults, k.neintr, k.nblock);
        if fault {
            k.fault_class = ghost::F_WAIT | ghost::F_TIMER;
            k.fault_budget = nf + 1;
            k.fault_force = true;
            k.fault_errno = errno;
        }
        k.nwait = 0;
        k.sleep_limit = None;
        let start = k.now;
        self.say(format!(
            "wait {:?} (list of {}, pending {}, while it sleeps: {}{}{})", d, cap, self.pending as u8,
            ["nothing", "notify", "readiness", "notify and readiness", "readiness and notify", "a change"][sleep_op as usize],
            if k.eintr_max > 0 { ", signals" } else { "" },
            if fault { ", the system fails" } else { "" }
        ));
        let res = p.wait(evs, d);
        let k = ghost::k();
        let failed = k.nfaults > nf;
        k.fault_class = 0;
        k.eintr_max = 0;
        k.on_block_on = false;
        if k.neintr > ni {
            self.tags.insert("C06");
        }
        let slept = k.nblock > nb;
        let acted = slept && unsafe { ON_BLOCK } == 0 && sleep_op != 0;
        if acted && sleep_op == 5 {
            self.ck(unsafe { ON_RES } == chg_ok, &["C10", "C16", "C11"], "a change during a wait has another outcome");
            self.tags.insert("C16");
        }
        let n = match res {
            Err(e) => {
                self.ck(failed, &["C05", "C17"], "a wait fails without a reason");
                self.ck(raw(&e) == Some(errno), &["C17"], "another error than that of the system call");
                self.tags.insert("C17");
                self.tags.insert("C09");
                self.pending |= acted && noti;
                if acted {
                    self.s[u] = t;
                }
                return;
            }
            Ok(n) => n,
        };
        self.ck(!failed, &["C17"], "an error of the system call is swallowed");
        if slept && self.pending {
            self.ck(false, &["C07"], "a wait sleeps although a notification is pending");
        }
        if slept && any_due {
            self.ck(false, &["C01", "C02"], "a wait sleeps although a source is ready");
        }
        if slept && d == Some(Duration::ZERO) {
            self.ck(false, &["C05"], "a wait with a zero timeout sleeps");
        }
        // did the interference take place?
        let pend = self.pending || acted && noti;
        if acted {
            self.s[u] = t;
        }
        let due: Vec<usize> = (0..self.n).filter(|i| self.s[*i].due()).collect();
        let evl: Vec<Event> = evs.iter().collect();
        self.ck(n == evl.len() && n == evs.len() && evs.is_empty() == (n == 0), &["C13", "C04"], "count, length and iteration disagree");
        if !POLL {
            self.ck(n <= cap && evs.capacity().get() == cap, &["C13"], "the capacity is exceeded or changes");
        }
        // time
        let now = k.now;
        let idle = due.is_empty() && !pend && n == 0;
        if let Some(d) = d {
            if let Some(end) = start.checked_add(d.0) {
                let first = match start.checked_add(T { s: 2_147_483, m: 647, n: 0 }) {
                    // the system takes 32-bit milliseconds
                    Some(c) if (POLL || k.no_timerfd) && c < end => c,
                    _ => end,
                };
                if idle && !endless {
                    self.ck(now >= first, &["C05", "C08"], "a wait returns before its timeout for no reason");
                }
                let late = end.checked_add(T { s: 0, m: 1, n: 0 });
                if let (Some(l), Some(late)) = (k.sleep_limit, late) {
                    if slept {
                        self.ck(l <= late, &["C05"], "a wait asks for more sleep than its timeout");
                    }
                }
            }
        }
        if !slept && idle && d != Some(Duration::ZERO) && k.neintr == ni {
            self.ck(false, &["C05", "C08"], "a wait returns at once for no reason");
        }
        if acted && (pend || !due.is_empty()) && k.neintr == ni {
            let tag: &[&str] = if noti { &["C07"] } else if sleep_op == 5 { &["C16"] } else { &["C01"] };
            self.ck(now == start, tag, "a wait goes on sleeping although it has something to return");
        }
        // events
        let mut seen = std::vec![false; self.n];
        for e in &evl {
            // (keys may be equal; prefer a source that is due)
            let c = |q: &dyn Fn(&Sp) -> bool| (0..self.n).find(|i| !seen[*i] && self.s[*i].reg && self.s[*i].key == e.key && q(&self.s[*i]));
            let same = |s: &Sp| {
                let rep = s.rep();
                e.readable == (rep & (IN | PRI | HUP | ERR) != 0)
                    && e.writable == (rep & (OUT | HUP | ERR) != 0)
                    && e.is_interrupt() == (rep & HUP != 0)
                    && e.is_priority() == (rep & PRI != 0)
                    && e.is_err() == Some(rep & ERR != 0)
            };
            match c(&|s| s.due() && same(s)).or_else(|| c(&|s| s.due())) {
                Some(i) => {
                    seen[i] = true;
                    self.ck(same(&self.s[i]), &["C02", "C12"], "the flags of an event are wrong");
                }
                None => {
                    // known finding: a spent oneshot source of poll still reports errors and hang-ups
                    if POLL && c(&|s| !s.armed && s.ready & (ERR | HUP) != 0).is_some() {
                        let i = c(&|s| !s.armed && s.ready & (ERR | HUP) != 0).unwrap();
                        seen[i] = true;
                        continue;
                    }
                    let gone = self.s.iter().any(|s| !s.reg && s.key == e.key);
                    if gone {
                        self.ck(false, &["C10", "C16", "C01"], "an event of a deleted source");
                    }
                    self.ck(e.key != usize::MAX, &["C04"], "a wake-up of the poller appears as an event");
                    match c(&|_| true) {
                        Some(i) if self.s[i].rep() == 0 => self.ck(false, &["C01", "C13", "C06"], "an event without readiness"),
                        Some(i) => {
                            let _ = i;
                            self.ck(false, &["C03"], "an event of a source that is silent until modified or until new activity")
                        }
                        None => self.ck(false, &["C01", "C13"], "an event with a strange key"),
                    }
                }
            }
        }
        let full = if pend { 0 } else if POLL { due.len() } else { due.len().min(cap) };
        let got = due.iter().filter(|i| seen[**i]).count();
        if got < full {
            for i in &due {
                if !seen[*i] && matches!(self.s[*i].mode, PollMode::Level) {
                    self.ck(false, &["C01", "C03"], "a ready source is not reported");
                }
            }
            self.ck(false, &["C01"], "a ready source is not reported");
        }
        if let Some(e) = evl.first() {
            self.old.push(*e);
        }
        for i in 0..self.n {
            if seen[i] {
                let s = &mut self.s[i];
                s.edge = false;
                if matches!(s.mode, PollMode::Oneshot | PollMode::EdgeOneshot) {
                    s.armed = false;
                }
            }
        }
        self.pending = false;
        self.tags.clear();
        if got < due.len() {
            self.tags.insert("C13");
            self.tags.insert("C04");
        }
        if self.r.one_in(2) {
            evs.clear();
            self.ck(evs.is_empty() && evs.iter().next().is_none() && evs.len() == 0, &["C13"], "clear leaves events");
            if !POLL {
                self.ck(evs.capacity().get() == cap, &["C13"], "clear changes the capacity");
            }
        }
    }

    /// Most sources are added at once.
    fn fill(&mut self, p: &Poller) {
        self.say("add most sources".into());
        let dense = self.r.one_in(2);
        for i in 0..self.n {
            if dense {
                self.s[i].ready = IN | OUT;
                ghost::set_ready(i, IN | OUT);
            } else if self.r.one_in(10) {
                continue;
            }
            let key = self.key(i);
            let key = if key == usize::MAX { i } else { key };
            let (mut int, mut mode) = (self.int(), self.mode());
            if dense {
                int = [R, W, RW][self.r.below(3) as usize];
                mode = if supported(mode) { mode } else { PollMode::Level };
            }
            if supported(mode) {
                let ok = unsafe { p.add_with_mode(&self.src[i], int.ev(key), mode) }.is_ok();
                self.ck(ok, &["C10", "C01"], "an add fails");
                self.s[i].set(key, int, mode);
            }
        }
    }

    fn cap(&mut self) -> usize {
        match self.r.below(5) {
            2 if cfg!(verif_crowd) => 3 * self.n,
            0 => 1024,
            1 => 1 + self.r.below(2 * self.n as u64) as usize,
            _ => 1 + self.r.below(4) as usize,
        }
    }

    pub fn run(&mut self) {
        unsafe { TRACE.clear() };
        ghost::reset();
        ghost::nd::seed(self.r.next() | 1);
        let k = ghost::k();
        k.wait_max = u32::MAX;
        k.spin_is_error = false;
        k.few_pending = false;
        match self.r.below(6) {
            0 => k.no_timerfd = true,
            1 => k.no_eventfd = true,
            2 => k.no_pipe2 = true,
            _ => {}
        }
        k.any_order = false;
        let p = &build();
        share(p);
        let crowd = cfg!(verif_crowd);
        self.n = match self.r.below(6) {
            0..=3 if crowd => 70 << self.r.below(4),
            _ if crowd => ghost::NUSER,
            0 => 1,
            1 => 2,
            2 | 3 => 3,
            4 => 8,
            _ => ghost::NUSER,
        };
        // the numbers of the descriptors
        let (base, step) = match self.r.below(5) {
            0 => (20, 1),
            1 => (i32::MAX - 1 - self.n as i32, 1),
            2 => (50, 64),
            _ => (100, 1),
        };
        for i in 0..self.n {
            self.s[i].ready = self.ready();
            self.src.push(Src(base + step * i as i32));
            ghost::add_user(self.src[i].0, self.s[i].ready);
        }
        let mut cap = self.cap();
        let mut evs = list(cap);
        self.ck(evs.capacity().get() == cap, &["C13"], "with_capacity gives another capacity");
        let mut len = 5 + self.r.below(20 * self.n as u64);
        if crowd {
            len = 5 + self.r.below(40);
            self.fill(p);
        }
        for _ in 0..len {
            match self.r.below(10) {
                0 | 1 | 2 => self.change(p),
                3 | 4 => {
                    let i = self.r.below(self.n as u64) as usize;
                    let x = self.ready();
                    self.say(format!("readiness of source {}: {:#x}", i, x));
                    self.s[i].ready = x;
                    self.s[i].edge = true;
                    ghost::set_ready(i, x);
                }
                5 => {
                    let n = 1 + self.r.below(3);
                    self.say(format!("notify {} times", n));
                    for _ in 0..n {
                        if p.notify().is_err() {
                            self.ck(false, &["C07", "C08"], "notify fails");
                        }
                    }
                    self.pending = true;
                    self.tags.insert("C07");
                    self.tags.insert("C08");
                }
                6 if self.r.one_in(4) => {
                    cap = self.cap();
                    evs = list(cap);
                }
                _ if self.r.one_in(30000) => self.burst(p),
                _ => self.wait(p, &mut evs, cap),
            }
        }
    }
}
