//! The simulated world: scheduler over real threads parked and released one at a time, simulated disk with
//! page cache and durable state, fault control, entropy, clock, event log.
//!
//! One world per worker process at a time. Exactly one simulated task runs at any moment (it holds the baton);
//! the others are parked at a scheduling point. Every choice comes from the plan.
use crate::rng::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

pub const FD0: i32 = 1_000_000;
pub const CWD: &str = "/sim/work";

// ---------------------------------------------------------------- thread-local switches

thread_local! {
    /// true while library code runs on behalf of a simulated task: only then are calls intercepted
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    pub static TASK: Cell<usize> = const { Cell::new(0) };
}
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// scheduling points at every basic block of the library, not only at its system calls
pub static EDGE_POINTS: AtomicBool = AtomicBool::new(false);
static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());
static STRAY_ENTROPY: AtomicU64 = AtomicU64::new(1);

#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    let p = WORLD.load(Ordering::Acquire);
    assert!(!p.is_null(), "no simulated world");
    unsafe { &mut *p }
}
pub fn world_active() -> bool {
    !WORLD.load(Ordering::Acquire).is_null()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = IN_LIB.with(|c| c.replace(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !was {
            eprintln!("harness panic: {} at {}", msg, loc);
            crate::runner::harness_failed(&format!("{} at {}", msg, loc));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        IN_LIB.with(|c| c.set(was));
    }));
}

/// Run library code: intercepted while it runs, panics caught.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    crate::cov::CALL.store(crate::cov::STEPS.load(Ordering::Relaxed), Ordering::Relaxed);
    IN_LIB.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            // dropping the payload must not be intercepted
            drop(e);
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

/// Leave interception for harness code called back from library code (user-defined layers).
pub fn unlib<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_LIB.with(|c| c.replace(false));
    let r = f();
    IN_LIB.with(|c| c.set(was));
    r
}

pub fn stray_entropy(buf: &mut [u8]) {
    let mut r = Rng::new(STRAY_ENTROPY.fetch_add(1, Ordering::Relaxed));
    for b in buf {
        *b = r.next() as u8;
    }
}

// ---------------------------------------------------------------- gates and tasks

pub struct Gate {
    m: Mutex<bool>,
    c: Condvar,
}
impl Gate {
    fn new() -> Arc<Gate> {
        Arc::new(Gate { m: Mutex::new(false), c: Condvar::new() })
    }
    pub fn open(&self) {
        *self.m.lock().unwrap() = true;
        self.c.notify_one();
    }
    pub fn wait(&self) {
        let mut g = self.m.lock().unwrap();
        while !*g {
            g = self.c.wait(g).unwrap();
        }
        *g = false;
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum State {
    Runnable,
    Blocked(usize),
    Done,
}

/// Fault control for the storage call currently made by a task.
#[derive(Clone, Default)]
pub struct Io {
    /// largest number of bytes one read or write moves (0: unlimited)
    pub max_io: usize,
    pub n: u32,
    pub eintr: Vec<u32>,
    /// (at which eligible call, error selector, sticky)
    pub hard: Vec<(u32, u32, bool)>,
    /// kill the process before the n-th eligible call; if that is a write, after `frac`/256 of it
    pub crash: Option<(u32, u32)>,
    pub broken: Option<u32>,
    pub hard_fired: u32,
    pub soft_fired: u32,
    pub fired: Vec<String>,
    pub cleanup_refused: bool,
}

pub struct Task {
    pub gate: Arc<Gate>,
    pub state: State,
    pub pid: i32,
    pub io: Io,
    pub crashed: bool,
    pub calls: u64,
    pub entropy: Rng,
    /// 0: full answers, otherwise answers are shortened/interrupted with this per-mille rate
    pub entropy_trouble: u64,
    pub entropy_pattern: u64,
    pub timed_out: bool,
    /// 0 stream, 1 zeros, 2 ones, 3 a constant
    pub entropy_mode: u64,
    pub entropy_const: u64,
    pub thread: usize,
    spins: u32,
    /// which copy of the library's statics it sees
    pub img: usize,
    /// no scheduling points for now
    pub mute: bool,
}

impl Task {
    fn new(pid: i32, entropy: u64) -> Task {
        Task {
            gate: Gate::new(),
            state: State::Runnable,
            pid,
            io: Io::default(),
            crashed: false,
            calls: 0,
            entropy: Rng::new(entropy),
            entropy_trouble: 0,
            entropy_pattern: 0,
            timed_out: false,
            entropy_mode: 0,
            entropy_const: 0,
            thread: 0,
            spins: 0,
            img: 0,
            mute: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sys {
    Open,
    Read,
    Write,
    Fsync,
    Rename,
    Unlink,
    Stat,
    Trunc,
    Close,
    Mkdir,
    Link,
    Chmod,
    Other,
}

pub enum Pre {
    Go,
    Fail(i32),
    /// killed now; a write applies this fraction (of 256) first
    Kill(u32),
}

pub struct World {
    pub disk: Disk,
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub sched: Vec<(u32, u32)>,
    sched_pos: usize,
    sched_seen: u32,
    hot: Option<(u64, u32)>,
    hot_hits: BTreeMap<u64, (u32, u32)>,
    pick: u64,
    picks: u64,
    since: u32,
    /// the preemptions that a schedule by location really made, as (points skipped, target)
    pub taken: Vec<(u32, u32)>,
    pub points: u64,
    pub switches: u64,
    pub time_ns: u64,
    pub digest: u64,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<String, u64>,
    coord: Arc<Gate>,
    pub deadlock: bool,
    pub seq: u64,
    next_pid: i32,
    pub skew_ns: i64,
    pub viol: Option<String>,
    pub nontrivial: bool,
    /// tasks that are clients of the simulation, not threads started by the library
    pub clients: usize,
    /// task and kernel ids of the threads started by the library
    pub tids: Vec<(usize, i32)>,
    /// the statics of the processes that are not running, and which one is
    images: Vec<Vec<u8>>,
    img: usize,
}

impl World {
    pub fn new(trace: bool) -> World {
        World {
            disk: Disk::new(),
            tasks: vec![],
            cur: 0,
            sched: vec![],
            sched_pos: 0,
            sched_seen: 0,
            hot: None,
            hot_hits: BTreeMap::new(),
            pick: 0,
            picks: 0,
            since: 0,
            taken: vec![],
            points: 0,
            switches: 0,
            time_ns: 1_700_000_000_000_000_000,
            digest: 0x1234,
            trace: if trace { Some(vec![]) } else { None },
            stats: BTreeMap::new(),
            coord: Gate::new(),
            deadlock: false,
            seq: 0,
            next_pid: 100,
            skew_ns: 0,
            viol: None,
            nontrivial: false,
            clients: 0,
            tids: vec![],
            images: vec![vec![]],
            img: 0,
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn count(&mut self, k: &str) {
        match self.stats.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.stats.insert(k.to_string(), 1);
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            let c = self.cur;
            self.trace.as_mut().unwrap().push(format!("[{:>4}] t{} {}", self.seq, c, s));
        }
    }
    /// every event goes through here: log first, digest always
    pub fn event(&mut self, a: u64, b: u64, f: impl FnOnce() -> String) {
        self.seq += 1;
        self.time_ns += 1000;
        self.digest = mix(self.digest, mix(a ^ ((self.cur as u64) << 56), b));
        self.note(f);
    }

    // ------------------------------------------------------------ scheduling

    fn runnable(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.tasks[i].state == State::Runnable).collect()
    }
    /// A scheduling point of the running task. May hand the baton to another task and come back later.
    /// `at` names the place in the code.
    pub fn point(&mut self, at: u64) {
        if self.tasks.get(self.cur).is_some_and(|t| t.mute) {
            return;
        }
        if self.tasks.len() < 2 {
            return;
        }
        self.points += 1;
        self.since += 1;
        if let Some((seed, shift)) = self.hot {
            self.point_hot(at, seed, shift);
            return;
        }
        if self.sched_pos >= self.sched.len() {
            return;
        }
        let (gap, target) = self.sched[self.sched_pos];
        self.sched_seen += 1;
        if self.sched_seen <= gap {
            return;
        }
        self.sched_seen = 0;
        self.sched_pos += 1;
        let me = self.cur;
        let others: Vec<usize> = self.runnable().into_iter().filter(|&i| i != me).collect();
        if others.is_empty() {
            return;
        }
        self.switch_to(others[target as usize % others.len()], me);
    }
    /// A schedule by location: a few places are drawn, and the task that comes by gives way there now and then.
    /// This reaches windows of one or two blocks that counting points would hardly ever hit.
    fn point_hot(&mut self, at: u64, seed: u64, shift: u32) {
        if mix(seed, at) & ((1u64 << shift) - 1) != 0 || self.taken.len() >= 48 {
            return;
        }
        let h = self.hot_hits.entry(at).or_insert((0, 0));
        h.0 += 1;
        let x = mix(mix(seed, at), h.0 as u64);
        if h.0 > 40 || h.1 >= 4 || x % 5 >= 3 {
            return;
        }
        let me = self.cur;
        let others: Vec<usize> = self.runnable().into_iter().filter(|&i| i != me).collect();
        if others.is_empty() {
            return;
        }
        self.hot_hits.get_mut(&at).unwrap().1 += 1;
        let target = (x >> 20) as usize % others.len();
        self.taken.push((self.since - 1, target as u32));
        self.since = 0;
        self.switch_to(others[target], me);
    }
    /// the simulation goes on in another process
    fn enter(&mut self, img: usize) {
        if img != self.img {
            self.images[self.img] = crate::statics::take();
            crate::statics::put(&self.images[img]);
            self.img = img;
        }
    }
    fn new_image(&mut self) -> usize {
        self.images.push(crate::statics::fresh());
        self.images.len() - 1
    }
    /// waiting on an address concerns the own process only
    pub fn key(&self, addr: usize) -> usize {
        if crate::statics::holds(addr) {
            addr ^ self.img << 52
        } else {
            addr
        }
    }
    fn switch_to(&mut self, next: usize, me: usize) {
        self.switches += 1;
        self.cur = me;
        self.event(1, next as u64, || format!("-- switch to t{}", next));
        self.cur = next;
        self.enter(self.tasks[next].img);
        let (mine, theirs) = (self.tasks[me].gate.clone(), self.tasks[next].gate.clone());
        theirs.open();
        mine.wait();
    }
    fn pick_next(&mut self) -> Option<usize> {
        let mut r = self.runnable();
        if r.is_empty() {
            // let a timed waiter time out
            let t = (0..self.tasks.len()).find(|&i| {
                matches!(self.tasks[i].state, State::Blocked(_)) && self.tasks[i].timed_out
            });
            match t {
                Some(i) => {
                    self.tasks[i].state = State::Runnable;
                    self.time_ns += 1_000_000_000;
                    r = vec![i];
                }
                None => return None,
            }
        }
        let target = if self.pick != 0 {
            self.picks += 1;
            mix(self.pick, self.picks) as u32
        } else if self.sched_pos < self.sched.len() {
            self.sched[self.sched_pos].1
        } else {
            0
        };
        Some(r[target as usize % r.len()])
    }
    /// the running task gives way to another runnable one, if any
    pub fn yield_now(&mut self) {
        let me = self.cur;
        let others: Vec<usize> = self.runnable().into_iter().filter(|&i| i != me).collect();
        if let Some(&n) = others.get((me + 1) % others.len().max(1)) {
            self.switch_to(n, me);
        }
    }
    /// busy waiting must end
    pub fn spin(&mut self) {
        let c = self.cur;
        if let Some(t) = self.tasks.get_mut(c) {
            t.spins += 1;
            if t.spins > 20_000 {
                self.die(77, "hang: endless waiting");
            }
        }
    }
    pub fn spawn_task(&mut self) -> usize {
        let c = self.cur;
        let (pid, e) = (self.tasks[c].pid, self.tasks[c].entropy.next());
        let mut t = Task::new(pid, e);
        t.img = self.tasks[c].img;
        t.crashed = self.tasks[c].crashed;
        self.tasks.push(t);
        self.tasks.len() - 1
    }
    /// the running task is over: hand the baton on
    pub fn finish(&mut self, id: usize) {
        self.tasks[id].state = State::Done;
        self.wake(0x6000_0000 + id, usize::MAX);
        match self.pick_next() {
            Some(n) => {
                self.cur = n;
                self.enter(self.tasks[n].img);
                let g = self.tasks[n].gate.clone();
                g.open();
            }
            None => {
                // a thread the library keeps in waiting is none of the clients' business
                if self.tasks.iter().take(self.clients).any(|t| t.state != State::Done) {
                    self.die(76, "deadlock: every remaining task is blocked");
                }
                let c = self.coord.clone();
                c.open()
            }
        }
    }
    /// block the running task on a key until woken; `timed`: may also wake by timeout
    pub fn block(&mut self, key: usize, timed: bool) {
        let me = self.cur;
        self.tasks[me].state = State::Blocked(key);
        self.tasks[me].timed_out = timed;
        self.event(2, 0, || "-- blocks".to_string());
        match self.pick_next() {
            Some(n) if n == me => {}
            Some(n) => self.switch_to(n, me),
            None => {
                self.deadlock = true;
                self.die(76, "deadlock: every task is blocked");
            }
        }
    }
    pub fn wake(&mut self, key: usize, max: usize) -> usize {
        let mut n = 0;
        for t in self.tasks.iter_mut() {
            if n < max && t.state == State::Blocked(key) {
                t.state = State::Runnable;
                t.timed_out = false;
                n += 1;
            }
        }
        n
    }
    /// The run cannot be continued in this process (runaway or deadlocked library code): report and stop.
    pub fn die(&mut self, _code: i32, msg: &str) -> ! {
        self.note(|| format!("VIOLATION {}", msg));
        self.viol = Some(msg.to_string());
        crate::runner::report(self);
        unsafe { libc::_exit(0) }
    }

    // ------------------------------------------------------------ storage faults

    pub fn io(&mut self) -> &mut Io {
        let c = self.cur;
        &mut self.tasks[c].io
    }
    pub fn pre(&mut self, k: Sys, what: impl FnOnce() -> String) -> Pre {
        let me = self.cur;
        self.tasks[me].calls += 1;
        if self.tasks[me].calls > 1_000_000 {
            self.die(77, "hang: more than 1000000 system calls in one operation");
        }
        if self.tasks[me].crashed {
            return Pre::Fail(libc::EIO);
        }
        self.point(1 << 40 | k as u64);
        let what = if self.trace.is_some() { what() } else { String::new() };
        self.event(3, k as u64, || what);
        if k == Sys::Other {
            return Pre::Go;
        }
        let io = &mut self.tasks[me].io;
        io.n += 1;
        let n = io.n;
        if let Some((at, frac)) = io.crash {
            if at <= n {
                io.fired.push(format!("kill@{:?}", k));
                self.tasks[me].crashed = true;
                self.count(&format!("kill@{:?}", k));
                self.event(4, 0, || "!! process killed here".to_string());
                return Pre::Kill(frac);
            }
        }
        let mut sel = io.broken;
        if sel.is_none() {
            if let Some(&(_, s, sticky)) = io.hard.iter().find(|h| h.0 == n) {
                if sticky {
                    io.broken = Some(s);
                }
                sel = Some(s);
            }
        }
        if let Some(s) = sel {
            let e = errno_for(k, s);
            io.hard_fired += 1;
            if k == Sys::Unlink {
                io.cleanup_refused = true;
            }
            if io.fired.len() < 64 {
                io.fired.push(format!("{}@{:?}", errno_name(e), k));
            }
            self.count(&format!("{}@{:?}", errno_name(e), k));
            self.event(5, e as u64, || format!("!! fails with {}", errno_name(e)));
            return Pre::Fail(e);
        }
        if matches!(k, Sys::Open | Sys::Read | Sys::Write | Sys::Fsync) && io.eintr.contains(&n) {
            io.soft_fired += 1;
            self.count(&format!("EINTR@{:?}", k));
            self.event(6, 0, || "!! interrupted (EINTR)".to_string());
            return Pre::Fail(libc::EINTR);
        }
        Pre::Go
    }
    /// limit of this transfer; counts it as short when it bites
    pub fn limit(&mut self, len: usize) -> usize {
        let m = self.io().max_io;
        if m > 0 && len > m {
            self.io().soft_fired += 1;
            self.count("short-io");
            // a big file still ends within some thousand calls, however the library cuts it
            let grown = m << (self.io().soft_fired / 1000).min(30);
            grown.max(len / 500).min(len)
        } else {
            len
        }
    }
    pub fn next_pid(&mut self) -> i32 {
        self.next_pid += 1;
        self.next_pid
    }
}

pub fn errno_for(k: Sys, sel: u32) -> i32 {
    use libc::*;
    let v: &[i32] = match k {
        Sys::Open => &[EACCES, EIO, EMFILE, ENOSPC, EROFS, ENFILE, EPERM, ENOMEM],
        Sys::Write => &[ENOSPC, EIO, EDQUOT, EFBIG],
        Sys::Read => &[EIO, ENXIO, EBADMSG],
        Sys::Fsync => &[EIO, ENOSPC, EDQUOT],
        Sys::Rename => &[EIO, EACCES, ENOSPC, EROFS, EPERM],
        Sys::Unlink => &[EIO, EACCES, EROFS],
        Sys::Close => &[EIO, ENOSPC],
        Sys::Stat => &[EACCES, EIO, ENOMEM],
        _ => &[EIO, EPERM, ENOSPC],
    };
    v[sel as usize % v.len()]
}
pub fn errno_name(e: i32) -> &'static str {
    use libc::*;
    match e {
        EACCES => "EACCES",
        EIO => "EIO",
        EMFILE => "EMFILE",
        ENFILE => "ENFILE",
        ENOSPC => "ENOSPC",
        EROFS => "EROFS",
        EPERM => "EPERM",
        ENOMEM => "ENOMEM",
        EDQUOT => "EDQUOT",
        EFBIG => "EFBIG",
        ENXIO => "ENXIO",
        EBADMSG => "EBADMSG",
        EINTR => "EINTR",
        ENOENT => "ENOENT",
        EEXIST => "EEXIST",
        _ => "errno",
    }
}

// ---------------------------------------------------------------- running tasks

pub struct TaskCfg {
    pub entropy: u64,
    pub entropy_trouble: u64,
    pub entropy_pattern: u64,
    pub entropy_mode: u64,
    pub same_pid: bool,
    /// a process with statics of its own, not a thread of the one process
    pub apart: bool,
    /// a process number of its choice, 0: any (in a container every life has the same one)
    pub pid: i32,
}
impl TaskCfg {
    pub fn new(entropy: u64) -> TaskCfg {
        TaskCfg { entropy, entropy_trouble: 0, entropy_pattern: 0, entropy_mode: 0, same_pid: false, apart: false, pid: 0 }
    }
}

/// Install a world for the current run.
pub fn begin(world: World) {
    let p = Box::into_raw(Box::new(world));
    let old = WORLD.swap(p, Ordering::AcqRel);
    assert!(old.is_null());
    STRAY_ENTROPY.store(1, Ordering::Relaxed);
}
pub fn end() -> World {
    let p = WORLD.swap(std::ptr::null_mut(), Ordering::AcqRel);
    *unsafe { Box::from_raw(p) }
}

/// Who runs when: a list of (points to skip, target), or a draw of places in the code; `pick` decides who goes on
/// when the running task blocks or ends (0: the next entry of the list).
#[derive(Clone, Default)]
pub struct Sched {
    pub list: Vec<(u32, u32)>,
    pub hot: Option<(u64, u32)>,
    pub pick: u64,
}

pub type Body<'a> = Box<dyn FnOnce() + 'a>;
/// Only one task runs at a time and every hand-over synchronises, so what a body captured is never touched by two
/// threads at once.
struct Moved<'a>(Body<'a>);
unsafe impl Send for Moved<'_> {}
impl Moved<'_> {
    fn run(self) {
        (self.0)()
    }
}

/// Run the given bodies as simulated tasks (fresh threads: fresh thread-local state, like fresh processes)
/// until all are done. `sched` decides every switch.
pub fn run_tasks<'a>(sched: Sched, bodies: Vec<(TaskCfg, Body<'a>)>) {
    let world = w();
    world.sched = sched.list;
    world.sched_pos = 0;
    world.sched_seen = 0;
    world.hot = sched.hot;
    world.hot_hits.clear();
    world.pick = sched.pick;
    world.picks = 0;
    world.since = 0;
    world.tasks.clear();
    world.clients = bodies.len();
    let shared_pid = world.next_pid();
    let n = bodies.len();
    for (cfg, _) in &bodies {
        let pid = if cfg.pid != 0 {
            cfg.pid
        } else if cfg.same_pid {
            shared_pid
        } else {
            world.next_pid()
        };
        let mut t = Task::new(pid, cfg.entropy);
        t.entropy_trouble = cfg.entropy_trouble;
        t.entropy_pattern = cfg.entropy_pattern;
        t.entropy_mode = cfg.entropy_mode;
        t.entropy_const = mix(cfg.entropy, 99);
        if cfg.apart {
            t.img = world.new_image();
        }
        world.tasks.push(t);
    }
    let coord = world.coord.clone();
    std::thread::scope(|s| {
        let mut handles = vec![];
        // a client thread starts and ends while no other runs: the runtime's own locks around a thread's
        // life are shared with the threads the library starts, and must not be met at an uncontrolled moment
        let ready = Arc::new(AtomicUsize::new(0));
        let mut ends = vec![];
        for (i, (_, body)) in bodies.into_iter().enumerate() {
            let gate = world.tasks[i].gate.clone();
            let body = Moved(body);
            let end = Gate::new();
            ends.push(end.clone());
            let ready = ready.clone();
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    TASK.with(|t| t.set(i));
                    ready.fetch_add(1, Ordering::SeqCst);
                    gate.wait();
                    body.run();
                    w().finish(i);
                    end.wait();
                })
                .expect("spawn");
            handles.push(h);
        }
        if n > 0 {
            let first = if world.pick != 0 {
                mix(world.pick, 0) as usize % n
            } else {
                world.sched.first().map(|s| s.1 as usize % n).unwrap_or(0)
            };
            world.cur = first;
            world.enter(world.tasks[first].img);
            while ready.load(Ordering::SeqCst) < n {
                std::thread::yield_now();
            }
            let g = world.tasks[first].gate.clone();
            g.open();
            coord.wait();
        }
        for e in ends {
            e.open();
        }
        // really gone before anything else happens: a thread still winding down must not meet a fork
        for h in handles {
            let _ = h.join();
        }
    });
    // what belongs to no process
    world.enter(0);
    for (id, tid) in std::mem::take(&mut world.tids) {
        if world.tasks[id].state != State::Done {
            continue;
        }
        let gone = || unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), tid, 0) } != 0;
        let mut n = 0;
        while !gone() && n < 2000 {
            std::thread::sleep(std::time::Duration::from_micros(if n < 50 { 20 } else { 500 }));
            n += 1;
        }
    }
}

// ---------------------------------------------------------------- disk

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    File,
    Dir,
    Symlink(String),
    Urandom,
}

#[derive(Clone, Debug)]
pub enum Dirty {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub dirty: Vec<Dirty>,
    /// an fsync failed: the cached data will not reach the disk and may vanish from the cache
    pub lost: bool,
    pub mode: u32,
    pub lock: Option<(usize, bool)>,
    pub lockers: u32,
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Add(String, usize),
    Del(String),
    Ren(String, String, usize),
}
impl DirOp {
    fn touches(&self, dir: &str) -> bool {
        match self {
            DirOp::Add(p, _) | DirOp::Del(p) => parent(p) == dir,
            DirOp::Ren(a, b, _) => parent(a) == dir || parent(b) == dir,
        }
    }
}

pub struct Ofd {
    pub ino: usize,
    pub off: usize,
    pub flags: i32,
    pub refs: u32,
    pub pid: i32,
}

pub struct Disk {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub names_durable: BTreeMap<String, usize>,
    pub pending: Vec<DirOp>,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub capacity: Option<u64>,
    pub fd_limit: usize,
    pub next_fd: i32,
    pub dirs_open: u32,
}

pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) => "/".into(),
        Some(i) => p[..i].into(),
        None => "/".into(),
    }
}

fn apply(names: &mut BTreeMap<String, usize>, op: &DirOp) {
    match op {
        DirOp::Add(p, i) => {
            names.insert(p.clone(), *i);
        }
        DirOp::Del(p) => {
            names.remove(p);
        }
        DirOp::Ren(a, b, i) => {
            names.remove(a);
            names.insert(b.clone(), *i);
        }
    }
}

fn apply_dirty(v: &mut Vec<u8>, d: &Dirty) {
    match d {
        Dirty::Write(off, b) => {
            if v.len() < off + b.len() {
                v.resize(off + b.len(), 0);
            }
            v[*off..off + b.len()].copy_from_slice(b);
        }
        Dirty::Trunc(n) => v.resize(*n, 0),
    }
}

type R<T> = Result<T, i32>;

impl Disk {
    pub fn new() -> Disk {
        let mut d = Disk {
            inodes: vec![],
            names: BTreeMap::new(),
            names_durable: BTreeMap::new(),
            pending: vec![],
            fds: BTreeMap::new(),
            ofds: vec![],
            capacity: None,
            fd_limit: 200,
            next_fd: FD0,
            dirs_open: 0,
        };
        for p in ["/", "/sim", CWD, "/sim/work/sub", "/sim/other", "/tmp", "/dev"] {
            d.mknode(p, Kind::Dir);
        }
        d.mknode("/dev/urandom", Kind::Urandom);
        d.mknode("/dev/random", Kind::Urandom);
        d
    }
    fn inode(&mut self, kind: Kind) -> usize {
        let mode = match kind {
            Kind::Dir => libc::S_IFDIR | 0o755,
            Kind::Symlink(_) => libc::S_IFLNK | 0o777,
            Kind::Urandom => libc::S_IFCHR | 0o666,
            Kind::File => libc::S_IFREG | 0o644,
        };
        self.inodes.push(Inode {
            kind,
            data: vec![],
            durable: vec![],
            dirty: vec![],
            lost: false,
            mode,
            lock: None,
            lockers: 0,
        });
        self.inodes.len() - 1
    }
    /// set-up helpers: durable at once
    pub fn mknode(&mut self, path: &str, kind: Kind) -> usize {
        let i = self.inode(kind);
        self.names.insert(path.into(), i);
        self.names_durable.insert(path.into(), i);
        i
    }
    pub fn put_file(&mut self, path: &str, bytes: &[u8]) {
        let i = self.mknode(path, Kind::File);
        self.inodes[i].data = bytes.to_vec();
        self.inodes[i].durable = bytes.to_vec();
    }
    /// replace the content in place, durably (stored bytes rot)
    pub fn damage(&mut self, path: &str, bytes: Vec<u8>) {
        if let Ok(i) = self.lookup(path, true) {
            self.inodes[i].data = bytes.clone();
            self.inodes[i].durable = bytes;
            self.inodes[i].dirty.clear();
        }
    }
    pub fn set_mode(&mut self, path: &str, mode: u32) {
        if let Ok(i) = self.lookup(path, true) {
            self.inodes[i].mode = (self.inodes[i].mode & libc::S_IFMT) | mode;
        }
    }
    pub fn mode(&self, path: &str) -> u32 {
        self.lookup(path, true).map(|i| self.inodes[i].mode & 0o7777).unwrap_or(0)
    }
    pub fn content(&self, path: &str) -> Option<Vec<u8>> {
        self.lookup(path, true).ok().filter(|&i| self.inodes[i].kind == Kind::File).map(|i| self.inodes[i].data.clone())
    }
    pub fn sync_all(&mut self) {
        self.names_durable = self.names.clone();
        self.pending.clear();
        for i in self.inodes.iter_mut() {
            if !i.lost {
                i.durable = i.data.clone();
            }
            i.dirty.clear();
        }
    }
    /// names and contents of everything except devices, for before/after comparison
    pub fn listing(&self) -> BTreeMap<String, Vec<u8>> {
        self.names
            .iter()
            .filter(|(_, &i)| self.inodes[i].kind != Kind::Urandom)
            .map(|(p, &i)| (p.clone(), self.inodes[i].data.clone()))
            .collect()
    }
    /// cached pages of inodes whose write-back failed are dropped
    pub fn evict_lost(&mut self) {
        for i in self.inodes.iter_mut() {
            if i.lost {
                i.data = i.durable.clone();
                i.dirty.clear();
                i.lost = false;
            }
        }
    }
    pub fn used(&self) -> u64 {
        let mut seen = std::collections::BTreeSet::new();
        self.names.values().filter(|i| seen.insert(**i)).map(|&i| self.inodes[i].data.len() as u64).sum()
    }
    pub fn close_pid(&mut self, pid: i32) -> usize {
        let l: Vec<i32> = self.fds.iter().filter(|(_, &o)| self.ofds[o].pid == pid).map(|(&f, _)| f).collect();
        for f in &l {
            let _ = self.close(*f);
        }
        l.len()
    }
    /// The machine loses power: only durable state survives, plus whatever part of the rest the seed lets through.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        // directory changes: per directory, a prefix survives
        let dirs: std::collections::BTreeSet<String> = self
            .pending
            .iter()
            .flat_map(|o| match o {
                DirOp::Add(p, _) | DirOp::Del(p) => vec![parent(p)],
                DirOp::Ren(a, b, _) => vec![parent(a), parent(b)],
            })
            .collect();
        let mut cut: BTreeMap<String, usize> = BTreeMap::new();
        for d in dirs {
            let n = self.pending.iter().filter(|o| o.touches(&d)).count() as u64;
            let k = match rng.below(3) {
                0 => 0,
                1 => n,
                _ => rng.below(n + 1),
            };
            cut.insert(d, k as usize);
        }
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for op in self.pending.clone() {
            let ds = match &op {
                DirOp::Add(p, _) | DirOp::Del(p) => vec![parent(p)],
                DirOp::Ren(a, b, _) => {
                    let (x, y) = (parent(a), parent(b));
                    if x == y {
                        vec![x]
                    } else {
                        vec![x, y]
                    }
                }
            };
            let mut ok = true;
            for d in ds {
                let s = seen.entry(d.clone()).or_insert(0);
                *s += 1;
                if *s > cut[&d] {
                    ok = false;
                }
            }
            if ok {
                apply(&mut self.names_durable, &op);
            }
        }
        self.pending.clear();
        self.names = self.names_durable.clone();
        for ino in self.inodes.iter_mut() {
            if ino.kind != Kind::File {
                continue;
            }
            if !ino.dirty.is_empty() && !ino.lost {
                let mut v = ino.durable.clone();
                match rng.below(4) {
                    0 => {}
                    1 => {
                        for d in &ino.dirty {
                            apply_dirty(&mut v, d);
                        }
                    }
                    2 => {
                        // a prefix, the last write torn
                        let k = rng.below(ino.dirty.len() as u64 + 1) as usize;
                        for d in &ino.dirty[..k] {
                            apply_dirty(&mut v, d);
                        }
                        if let Some(Dirty::Write(off, b)) = ino.dirty.get(k) {
                            let t = rng.below(b.len() as u64 + 1) as usize;
                            apply_dirty(&mut v, &Dirty::Write(*off, b[..t].to_vec()));
                        }
                    }
                    _ => {
                        // size first, data of some blocks missing
                        let mut full = v.clone();
                        for d in &ino.dirty {
                            apply_dirty(&mut full, d);
                        }
                        let bs = [16, 64, 512, 4096][rng.below(4) as usize];
                        let mut out = full.clone();
                        for (bi, ch) in out.chunks_mut(bs).enumerate() {
                            if rng.chance(500) {
                                for (j, x) in ch.iter_mut().enumerate() {
                                    *x = *v.get(bi * bs + j).unwrap_or(&0);
                                }
                            }
                        }
                        v = out;
                    }
                }
                ino.durable = v;
            }
            ino.data = ino.durable.clone();
            ino.dirty.clear();
            ino.lost = false;
        }
        self.fds.clear();
    }

    // ------------------------------------------------------------ calls

    pub fn abs(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", CWD, p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }
    pub fn resolve(&self, p: &str, follow: bool) -> R<String> {
        if p.is_empty() {
            return Err(libc::ENOENT);
        }
        if p.split('/').any(|c| c.len() > 255) {
            return Err(libc::ENAMETOOLONG);
        }
        let mut a = self.abs(p);
        for _ in 0..16 {
            // every ancestor must be a directory
            let par = parent(&a);
            if a != "/" {
                match self.names.get(&par) {
                    Some(&i) if self.inodes[i].kind == Kind::Dir => {}
                    Some(&i) => {
                        if let Kind::Symlink(t) = &self.inodes[i].kind {
                            let t = if t.starts_with('/') { t.clone() } else { format!("{}/{}", parent(&par), t) };
                            a = self.abs(&format!("{}{}", t, &a[par.len()..]));
                            continue;
                        }
                        return Err(libc::ENOTDIR);
                    }
                    None => return Err(libc::ENOENT),
                }
            }
            match self.names.get(&a) {
                Some(&i) if follow => {
                    if let Kind::Symlink(t) = &self.inodes[i].kind {
                        let t = if t.starts_with('/') { t.clone() } else { format!("{}/{}", par, t) };
                        a = self.abs(&t);
                        continue;
                    }
                    return Ok(a);
                }
                _ => return Ok(a),
            }
        }
        Err(libc::ELOOP)
    }
    /// the simulated user is no superuser and owns everything
    fn may(&self, i: usize, bit: u32) -> bool {
        self.inodes[i].mode & bit != 0
    }
    /// names in the directory of this one may change
    fn enterable(&self, a: &str) -> R<()> {
        match self.names.get(&parent(a)) {
            Some(&i) if !self.may(i, 0o200) => Err(libc::EACCES),
            _ => Ok(()),
        }
    }
    pub fn lookup(&self, p: &str, follow: bool) -> R<usize> {
        let a = self.resolve(p, follow)?;
        self.names.get(&a).copied().ok_or(libc::ENOENT)
    }
    fn dirop(&mut self, op: DirOp) {
        apply(&mut self.names, &op);
        self.pending.push(op);
    }
    pub fn new_fd(&mut self, ino: usize, flags: i32, pid: i32) -> R<i32> {
        if self.fds.len() >= self.fd_limit {
            return Err(libc::EMFILE);
        }
        self.ofds.push(Ofd { ino, off: 0, flags, refs: 1, pid });
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, self.ofds.len() - 1);
        Ok(fd)
    }
    pub fn open(&mut self, p: &str, flags: i32, mode: u32, pid: i32) -> R<i32> {
        let excl = flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0;
        let a = self.resolve(p, !excl && flags & libc::O_NOFOLLOW == 0)?;
        if p.ends_with('/') && flags & libc::O_CREAT != 0 {
            return Err(libc::EISDIR);
        }
        if flags & libc::O_TMPFILE == libc::O_TMPFILE {
            return Err(libc::EOPNOTSUPP);
        }
        if self.fds.len() >= self.fd_limit {
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let ino = match self.names.get(&a) {
            Some(&i) => {
                if excl {
                    return Err(libc::EEXIST);
                }
                if self.inodes[i].kind == Kind::Dir && acc != libc::O_RDONLY {
                    return Err(libc::EISDIR);
                }
                if flags & libc::O_DIRECTORY != 0 && self.inodes[i].kind != Kind::Dir {
                    return Err(libc::ENOTDIR);
                }
                if let Kind::Symlink(_) = self.inodes[i].kind {
                    return Err(libc::ELOOP);
                }
                if acc != libc::O_WRONLY && !self.may(i, 0o400)
                    || (acc != libc::O_RDONLY || flags & libc::O_TRUNC != 0) && !self.may(i, 0o200)
                {
                    return Err(libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY && !self.inodes[i].data.is_empty() {
                    self.truncate(i, 0);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                self.enterable(&a)?;
                let i = self.inode(Kind::File);
                self.inodes[i].mode = libc::S_IFREG | (mode & 0o777 & !0o022);
                self.dirop(DirOp::Add(a, i));
                i
            }
        };
        self.new_fd(ino, flags, pid)
    }
    pub fn ofd(&mut self, fd: i32) -> R<&mut Ofd> {
        match self.fds.get(&fd) {
            Some(&o) => Ok(&mut self.ofds[o]),
            None => Err(libc::EBADF),
        }
    }
    pub fn close(&mut self, fd: i32) -> R<()> {
        let o = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            let ino = self.ofds[o].ino;
            if self.inodes[ino].lock.map(|l| l.0 == o).unwrap_or(false) {
                self.inodes[ino].lock = None;
            }
        }
        Ok(())
    }
    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<usize>) -> R<usize> {
        let o = self.ofd(fd)?;
        let (ino, off, flags) = (o.ino, at.unwrap_or(o.off), o.flags);
        if flags & libc::O_ACCMODE == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        if self.inodes[ino].kind == Kind::Dir {
            return Err(libc::EISDIR);
        }
        let d = &self.inodes[ino].data;
        let n = d.len().saturating_sub(off).min(buf.len());
        if n > 0 {
            buf[..n].copy_from_slice(&d[off..off + n]);
        }
        if at.is_none() {
            self.ofd(fd)?.off += n;
        }
        Ok(n)
    }
    pub fn truncate(&mut self, ino: usize, n: usize) {
        self.inodes[ino].data.resize(n, 0);
        self.inodes[ino].dirty.push(Dirty::Trunc(n));
    }
    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<usize>) -> R<usize> {
        let o = self.ofd(fd)?;
        let (ino, flags) = (o.ino, o.flags);
        let mut off = at.unwrap_or(o.off);
        if flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        if flags & libc::O_APPEND != 0 {
            off = self.inodes[ino].data.len();
        }
        let mut n = buf.len();
        if let Some(cap) = self.capacity {
            let grow = (off + n).saturating_sub(self.inodes[ino].data.len()) as u64;
            let free = cap.saturating_sub(self.used());
            if grow > free {
                n = n.saturating_sub((grow - free) as usize);
                if n == 0 && !buf.is_empty() {
                    return Err(libc::ENOSPC);
                }
            }
        }
        let op = Dirty::Write(off, buf[..n].to_vec());
        apply_dirty(&mut self.inodes[ino].data, &op);
        self.inodes[ino].dirty.push(op);
        if at.is_none() {
            self.ofd(fd)?.off = off + n;
        }
        Ok(n)
    }
    pub fn fsync(&mut self, fd: i32) -> R<()> {
        let ino = self.ofd(fd)?.ino;
        self.fsync_ino(ino);
        Ok(())
    }
    pub fn fsync_ino(&mut self, ino: usize) {
        if self.inodes[ino].kind == Kind::Dir {
            let dirs: Vec<String> = self.names.iter().filter(|(_, &i)| i == ino).map(|(p, _)| p.clone()).collect();
            for d in dirs {
                let pend = std::mem::take(&mut self.pending);
                for op in pend {
                    if op.touches(&d) {
                        apply(&mut self.names_durable, &op);
                    } else {
                        self.pending.push(op);
                    }
                }
            }
        } else if !self.inodes[ino].lost {
            let i = &mut self.inodes[ino];
            i.durable = i.data.clone();
            i.dirty.clear();
        }
    }
    /// fsync reported an error: what was dirty is marked clean without reaching the disk
    pub fn fsync_failed(&mut self, fd: i32) {
        if let Ok(o) = self.ofd(fd) {
            let ino = o.ino;
            if self.inodes[ino].kind == Kind::File {
                self.inodes[ino].lost = true;
            }
        }
    }
    pub fn rename(&mut self, a: &str, b: &str, noreplace: bool) -> R<()> {
        let a = self.resolve(a, false)?;
        let b = self.resolve(b, false)?;
        let ia = *self.names.get(&a).ok_or(libc::ENOENT)?;
        if a.starts_with("/tmp") != b.starts_with("/tmp") {
            return Err(libc::EXDEV);
        }
        if let Some(&ib) = self.names.get(&b) {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if self.inodes[ib].kind == Kind::Dir && self.inodes[ia].kind != Kind::Dir {
                return Err(libc::EISDIR);
            }
            if ia == ib {
                return Ok(());
            }
        }
        if self.inodes[ia].kind == Kind::Dir {
            return Err(libc::EPERM);
        }
        self.enterable(&a)?;
        self.enterable(&b)?;
        self.dirop(DirOp::Ren(a, b, ia));
        Ok(())
    }
    pub fn unlink(&mut self, p: &str) -> R<()> {
        let a = self.resolve(p, false)?;
        let i = *self.names.get(&a).ok_or(libc::ENOENT)?;
        if self.inodes[i].kind == Kind::Dir {
            return Err(libc::EISDIR);
        }
        self.enterable(&a)?;
        self.dirop(DirOp::Del(a));
        Ok(())
    }
    pub fn rmdir(&mut self, p: &str) -> R<()> {
        let a = self.resolve(p, false)?;
        let i = *self.names.get(&a).ok_or(libc::ENOENT)?;
        if self.inodes[i].kind != Kind::Dir {
            return Err(libc::ENOTDIR);
        }
        let pre = format!("{}/", a);
        if self.names.keys().any(|k| k.starts_with(&pre)) {
            return Err(libc::ENOTEMPTY);
        }
        self.enterable(&a)?;
        self.dirop(DirOp::Del(a));
        Ok(())
    }
    pub fn mkdir(&mut self, p: &str) -> R<()> {
        let a = self.resolve(p, false)?;
        if self.names.contains_key(&a) {
            return Err(libc::EEXIST);
        }
        self.enterable(&a)?;
        let i = self.inode(Kind::Dir);
        self.dirop(DirOp::Add(a, i));
        Ok(())
    }
    pub fn link(&mut self, a: &str, b: &str) -> R<()> {
        let ia = self.lookup(a, false)?;
        let b = self.resolve(b, false)?;
        if self.names.contains_key(&b) {
            return Err(libc::EEXIST);
        }
        self.enterable(&b)?;
        self.dirop(DirOp::Add(b, ia));
        Ok(())
    }
    pub fn symlink(&mut self, target: &str, p: &str) -> R<()> {
        let a = self.resolve(p, false)?;
        if self.names.contains_key(&a) {
            return Err(libc::EEXIST);
        }
        self.enterable(&a)?;
        let i = self.inode(Kind::Symlink(target.into()));
        self.dirop(DirOp::Add(a, i));
        Ok(())
    }
    pub fn children(&self, dir: &str) -> Vec<(String, usize)> {
        let pre = if dir == "/" { "/".to_string() } else { format!("{}/", dir) };
        self.names
            .range(pre.clone()..)
            .take_while(|(k, _)| k.starts_with(&pre))
            .filter(|(k, _)| k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, &i)| (k[pre.len()..].to_string(), i))
            .collect()
    }
}

// ---------------------------------------------------------------- verdicts

pub fn violate(msg: String) {
    let wd = w();
    wd.note(|| format!("VIOLATION {}", msg));
    if wd.viol.is_none() {
        wd.viol = Some(msg);
    }
}
pub fn violated() -> bool {
    w().viol.is_some()
}
pub fn nontrivial() {
    w().nontrivial = true;
}

impl World {
    /// a process died: its descriptors and locks are released
    pub fn kill_cleanup(&mut self, pid: i32) {
        self.disk.close_pid(pid);
        for i in 0..self.disk.inodes.len() {
            if self.disk.inodes[i].lock.is_none() {
                self.wake(0x7000_0000 + i, usize::MAX);
            }
        }
    }
}
