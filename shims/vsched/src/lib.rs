//! A controlled scheduler for stateless model checking, and replacements of the blocking and
//! shared-memory primitives of std that report to it. One thread of an execution runs at a time;
//! which one continues is decided at every scheduling point. A thread that does not belong to an
//! execution gets the real primitives.
pub mod collections;
pub mod explore;
pub mod mem;
pub mod sync;
pub mod thread;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

pub type Tid = usize;
const NONE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    /// inside the scheduler
    static IN: Cell<bool> = const { Cell::new(false) };
}
/// The calling thread, when it belongs to an execution.
#[inline]
pub fn me() -> Option<Tid> {
    ME.try_with(|m| m.get()).ok().filter(|m| *m != NONE)
}
pub fn controlled() -> bool {
    me().is_some()
}

/// What a thread is about to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Start,
    /// a step without shared effect that is known to the scheduler
    Local,
    Read(usize),
    Write(usize),
    /// memory that is not a primitive of its own: whether it is a store
    Access(usize, bool),
    Lock(usize),
    RdLock(usize),
    WrLock(usize),
    /// wait until nobody initialises the cell
    Once(usize),
    Join(Tid),
    Cv(usize),
    Yield,
}
#[derive(Default)]
struct LockState {
    writer: Option<Tid>,
    readers: Vec<Tid>,
    waiting: Vec<Tid>,
    cw: Clock,
    cr: Clock,
}
pub(crate) type Clock = Vec<u32>;
pub(crate) fn join_clock(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
struct Th {
    pending: Op,
    finished: bool,
    clock: Clock,
    handle: Option<std::thread::Thread>,
    /// steps made by others since it yielded
    others: u64,
    notified: bool,
}
/// A decision with more than one option.
#[derive(Clone, Debug)]
pub struct Node {
    /// threads that could continue (or values that could be chosen)
    pub options: Vec<usize>,
    pub chosen: usize,
    /// choosing anything but the first option interrupts a thread that could go on
    pub preempts: bool,
    /// a choice of a value, not of a thread
    pub value: bool,
    /// shared accesses of the chosen step: address << 2 | kind
    pub acc: Vec<usize>,
    /// threads asleep before the step
    pub sleep: Vec<Sleeper>,
}
#[derive(Clone, Debug)]
pub struct Sleeper {
    pub tid: Tid,
    pub acc: Vec<usize>,
}
/// Kinds of access to a shared object; the last one only ends a write lock.
pub const READ: usize = 0;
pub const WRITE: usize = 1;
pub const UNLOCK: usize = 3;
/// Objects below this stand for the start and the end of threads.
pub const THREADS: usize = 4096;
pub fn dependent(a: &[usize], b: &[usize]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x >> 2 == y >> 2 && (x | y) & 1 == 1))
}
/// One step of an execution.
#[derive(Clone, Debug)]
pub struct Step {
    pub tid: Tid,
    /// the decision that chose it, if there was one
    pub node: Option<usize>,
    /// what it waited for: 0, or the address of a mutex or read lock
    pub gate: usize,
    pub acc: Vec<usize>,
}
#[derive(Default)]
pub(crate) struct State {
    threads: Vec<Th>,
    current: Tid,
    locks: BTreeMap<usize, LockState>,
    /// cells being initialised
    running: BTreeMap<usize, Tid>,
    clocks: BTreeMap<usize, Clock>,
    scopes: BTreeMap<usize, Vec<Tid>>,
    cvs: BTreeMap<usize, Vec<Tid>>,
    /// choices to be made first, and the threads asleep at the last of them
    prefix: Vec<usize>,
    given: Vec<Sleeper>,
    pub(crate) nodes: Vec<Node>,
    /// accesses of the step in progress, and the node that started it
    log: Vec<usize>,
    open: Option<usize>,
    by: Tid,
    gate: usize,
    pub(crate) trace: Vec<Step>,
    sleep: Vec<Sleeper>,
    use_sleep: bool,
    /// every continuation is asleep: the rest of the execution is not recorded
    pub(crate) blocked: bool,
    pub(crate) steps: u64,
    pub(crate) race: Option<String>,
    /// how the execution ends when it cannot go on
    pub(crate) stuck: Option<fn(&mut State, String) -> !>,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static CURRENT: AtomicUsize = AtomicUsize::new(NONE);
static ALLOC: AtomicBool = AtomicBool::new(false);
pub const MAX_STEPS: u64 = 200_000;

fn state() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|p| p.into_inner())
}
/// Runs inside the scheduler.
pub(crate) fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let old = IN.with(|i| i.replace(true));
    let r = f(state().as_mut().expect("no execution"));
    IN.with(|i| i.set(old));
    r
}
impl State {
    fn free_for(&self, t: Tid, op: Op) -> bool {
        match op {
            Op::Start | Op::Local | Op::Read(_) | Op::Write(_) | Op::Access(..) => true,
            Op::Lock(o) => self.locks.get(&o).is_none_or(|l| l.writer.is_none()),
            Op::RdLock(o) => self.locks.get(&o).is_none_or(|l| l.writer.is_none() && l.waiting.is_empty()),
            // a writer that finds the lock taken queues up, which keeps new readers out
            Op::WrLock(o) => self.locks.get(&o).is_none_or(|l| (l.writer.is_none() && l.readers.is_empty()) || !l.waiting.contains(&t)),
            Op::Once(o) => !self.running.contains_key(&o),
            Op::Join(c) => self.threads[c].finished,
            Op::Cv(_) => self.threads[t].notified,
            Op::Yield => self.threads[t].others > 0,
        }
    }
    /// Ends the step in progress.
    fn close_step(&mut self) {
        let acc = std::mem::take(&mut self.log);
        if self.use_sleep {
            self.sleep.retain(|s| !dependent(&s.acc, &acc));
        }
        let node = self.open.take();
        if let Some(n) = node {
            self.nodes[n].acc = acc.clone();
        }
        if self.use_sleep && !self.blocked && !acc.is_empty() {
            self.trace.push(Step { tid: self.by, node, gate: self.gate, acc });
        }
    }
    /// Decides who continues.
    fn next(&mut self) -> Tid {
        self.close_step();
        self.steps += 1;
        let cur = self.current;
        // a step that affects no other thread is made at once: its place in the order does not matter
        let at_once = |s: &Self, t: Tid| !s.threads[t].finished && matches!(s.threads[t].pending, Op::Start | Op::Join(_)) && s.free_for(t, s.threads[t].pending);
        if let Some(t) = (0..self.threads.len()).find(|t| at_once(self, *t)) {
            return t;
        }
        let mut options: Vec<Tid> = (0..self.threads.len()).filter(|t| !self.threads[*t].finished && self.free_for(*t, self.threads[*t].pending)).collect();
        if options.is_empty() {
            // only threads that yielded are left
            options = (0..self.threads.len()).filter(|t| !self.threads[*t].finished && self.threads[*t].pending == Op::Yield).collect();
        }
        if options.is_empty() {
            let w: Vec<String> = self.threads.iter().enumerate().filter(|(_, t)| !t.finished).map(|(i, t)| format!("thread {i} at {}", self.describe(t.pending))).collect();
            self.end(format!("deadlock: {}", w.join(", ")));
        }
        if self.steps > MAX_STEPS {
            self.end(format!("does not end after {MAX_STEPS} steps"));
        }
        let preempts = options.contains(&cur);
        if preempts {
            options.retain(|t| *t != cur);
            options.insert(0, cur);
        }
        let t = self.decide(options, preempts, false);
        self.current = t;
        for (i, th) in self.threads.iter_mut().enumerate() {
            if i != t {
                th.others += 1;
            }
        }
        t
    }
    fn describe(&self, op: Op) -> String {
        match op {
            Op::Lock(o) | Op::RdLock(o) | Op::WrLock(o) => {
                let l = self.locks.get(&o);
                let kind = match op {
                    Op::Lock(_) => "lock",
                    Op::RdLock(_) => "read lock",
                    _ => "write lock",
                };
                format!("{kind} (writer {:?}, readers {:?}, writers waiting {:?})", l.and_then(|l| l.writer), l.map(|l| l.readers.clone()).unwrap_or_default(), l.map(|l| l.waiting.clone()).unwrap_or_default())
            }
            Op::Once(o) => format!("a cell initialised by thread {:?}", self.running.get(&o)),
            o => format!("{o:?}").split('(').next().unwrap().to_string(),
        }
    }
    fn end(&mut self, why: String) -> ! {
        let f = self.stuck.expect("no handler");
        f(self, why)
    }
    fn decide(&mut self, options: Vec<usize>, preempts: bool, value: bool) -> usize {
        if self.blocked {
            return options[0];
        }
        let i = self.nodes.len();
        let asleep = |s: &State, t: usize| !value && s.sleep.iter().any(|x| x.tid == t);
        if options.len() == 1 {
            if asleep(self, options[0]) && i >= self.prefix.len() {
                self.blocked = true;
            }
            return options[0];
        }
        let chosen = if i < self.prefix.len() {
            let c = self.prefix[i];
            if !options.contains(&c) {
                let m = format!("the execution is not reproducible: choice {i} was {c}, now {options:?}");
                self.end(m);
            }
            c
        } else {
            match options.iter().find(|t| !asleep(self, **t)) {
                Some(c) => *c,
                None => {
                    self.blocked = true;
                    return options[0];
                }
            }
        };
        let sleep = if i + 1 >= self.prefix.len() { self.sleep.clone() } else { Vec::new() };
        self.nodes.push(Node { options, chosen, preempts, value, acc: Vec::new(), sleep });
        if !value {
            self.open = Some(i);
        }
        // the threads asleep at the last given choice are known from there on
        if i + 1 == self.prefix.len() {
            self.sleep = std::mem::take(&mut self.given);
            self.nodes[i].sleep = self.sleep.clone();
        }
        chosen
    }
    /// Performs the operation; false when the thread queued up instead.
    fn apply(&mut self, t: Tid) -> bool {
        let op = self.threads[t].pending;
        self.threads[t].others = 0;
        self.by = t;
        self.gate = match op {
            Op::Lock(o) | Op::RdLock(o) => o,
            _ => 0,
        };
        let n = self.threads.len();
        let c = &mut self.threads[t].clock;
        if c.len() < n {
            c.resize(n, 0);
        }
        c[t] += 1;
        match op {
            Op::Start => self.log.push((2 * t + 2) << 2 | READ),
            Op::Local | Op::Yield => {}
            Op::Read(o) => {
                self.log.push(o << 2 | READ);
                if let Some(k) = self.clocks.get(&o) {
                    join_clock(&mut self.threads[t].clock, k);
                }
            }
            Op::Write(o) => {
                self.log.push(o << 2 | WRITE);
                let k = self.clocks.entry(o).or_default();
                join_clock(&mut self.threads[t].clock, k);
                k.clone_from(&self.threads[t].clock);
                // what follows is not ordered before those that see this
                self.threads[t].clock[t] += 1;
            }
            Op::Access(o, w) => self.log.push(o << 2 | if w { WRITE } else { READ }),
            Op::Lock(o) | Op::WrLock(o) => {
                self.log.push(o << 2 | WRITE);
                let l = self.locks.entry(o).or_default();
                if l.writer.is_some() || !l.readers.is_empty() {
                    l.waiting.push(t);
                    return false;
                }
                l.waiting.retain(|x| *x != t);
                l.writer = Some(t);
                join_clock(&mut self.threads[t].clock, &l.cw);
                join_clock(&mut self.threads[t].clock, &l.cr);
            }
            Op::RdLock(o) => {
                self.log.push(o << 2 | READ);
                let l = self.locks.entry(o).or_default();
                l.readers.push(t);
                join_clock(&mut self.threads[t].clock, &l.cw);
            }
            Op::Once(o) => {
                self.log.push(o << 2 | WRITE);
                if let Some(k) = self.clocks.get(&o) {
                    join_clock(&mut self.threads[t].clock, k);
                }
            }
            Op::Join(c) => {
                self.log.push((2 * c + 3) << 2 | READ);
                let k = self.threads[c].clock.clone();
                join_clock(&mut self.threads[t].clock, &k);
            }
            Op::Cv(o) => {
                self.log.push(o << 2 | WRITE);
                self.threads[t].notified = false;
                if let Some(k) = self.clocks.get(&o) {
                    join_clock(&mut self.threads[t].clock, k);
                }
            }
        }
        mem::sync(t, &self.threads[t].clock);
        true
    }
    fn release(&mut self, t: Tid, o: usize, write: bool) {
        self.log.push(o << 2 | if write { UNLOCK } else { READ });
        let k = self.threads[t].clock.clone();
        let l = self.locks.entry(o).or_default();
        if write {
            l.writer = None;
            join_clock(&mut l.cw, &k);
        } else {
            if let Some(i) = l.readers.iter().position(|x| *x == t) {
                l.readers.remove(i);
            }
            join_clock(&mut l.cr, &k);
        }
        self.tick(t);
    }
    /// What the thread does from now on is not ordered before those that see what it has published.
    pub(crate) fn tick(&mut self, t: Tid) {
        self.threads[t].clock[t] += 1;
        mem::sync(t, &self.threads[t].clock);
    }
}
fn hand_over(t: Tid) {
    let h = with(|s| s.threads[t].handle.clone());
    CURRENT.store(t, SeqCst);
    if let Some(h) = h {
        h.unpark();
    }
}
fn wait_for(t: Tid) {
    while CURRENT.load(SeqCst) != t {
        std::thread::park();
    }
}
/// A scheduling point of the calling thread; returns when it has performed the operation.
pub fn point(op: Op) {
    let Some(t) = me() else { return };
    let old = IN.with(|i| i.replace(true));
    let mut chosen = with(|s| {
        s.threads[t].pending = op;
        s.next()
    });
    loop {
        if chosen != t {
            hand_over(chosen);
            wait_for(t);
        }
        if with(|s| s.apply(t)) {
            break;
        }
        chosen = with(|s| s.next());
    }
    IN.with(|i| i.set(old));
}
/// A value below n, every one of which is explored.
pub fn choose(n: usize) -> usize {
    if me().is_none() {
        return 0;
    }
    with(|s| s.decide((0..n).collect(), false, true))
}
pub(crate) fn release(o: usize, write: bool) {
    if let Some(t) = me() {
        with(|s| s.release(t, o, write));
    }
}
/// Registers a thread of the execution.
pub(crate) fn new_thread() -> Tid {
    let p = me();
    with(|s| {
        let t = s.threads.len();
        let mut clock = p.map(|p| s.threads[p].clock.clone()).unwrap_or_default();
        clock.resize(t + 1, 0);
        clock[t] = 1;
        if let Some(p) = p {
            let c = &mut s.threads[p].clock;
            c.resize(c.len().max(p + 1), 0);
            c[p] += 1;
            mem::sync(p, c);
        }
        mem::sync(t, &clock);
        s.log.push((2 * t + 2) << 2 | WRITE);
        s.threads.push(Th { pending: Op::Start, finished: false, clock, handle: None, others: 1, notified: false });
        t
    })
}
/// The body of an OS thread: waits for its turn, runs, hands over.
pub(crate) fn enter_thread(t: Tid) {
    wait_for(t);
    ME.with(|m| m.set(t));
    with(|s| s.apply(t));
}
pub(crate) fn leave_thread() {
    let t = me().unwrap();
    ME.with(|m| m.set(NONE));
    IN.with(|m| m.set(true));
    let n = with(|s| {
        s.threads[t].finished = true;
        s.log.push((2 * t + 3) << 2 | WRITE);
        let mut n = s.threads[t].clock.len();
        n = n.max(t + 1);
        s.threads[t].clock.resize(n, 0);
        s.next()
    });
    hand_over(n);
}
/// Starts an execution on the calling thread.
pub(crate) fn begin(prefix: Vec<usize>, given: Vec<Sleeper>, use_sleep: bool, alloc: bool, stuck: fn(&mut State, String) -> !) {
    *state() = Some(State { prefix, given, use_sleep, stuck: Some(stuck), ..State::default() });
    let t = new_thread();
    with(|s| s.threads[t].handle = Some(std::thread::current()));
    CURRENT.store(t, SeqCst);
    ME.with(|m| m.set(t));
    ALLOC.store(alloc, SeqCst);
    mem::begin();
}
pub(crate) fn finish() -> State {
    mem::end();
    ME.with(|m| m.set(NONE));
    ALLOC.store(false, SeqCst);
    let mut s = state().take().unwrap();
    s.close_step();
    s
}
pub(crate) fn set_handle(t: Tid, h: std::thread::Thread) {
    with(|s| s.threads[t].handle = Some(h));
}

/// Access history of an object that is not protected by itself.
pub struct Shadow(std::cell::UnsafeCell<Option<Box<(Clock, Clock)>>>);
unsafe impl Sync for Shadow {}
unsafe impl Send for Shadow {}
impl std::panic::RefUnwindSafe for Shadow {}
impl std::panic::UnwindSafe for Shadow {}
impl Shadow {
    pub const fn new() -> Self {
        Shadow(std::cell::UnsafeCell::new(None))
    }
    /// Notes an access and reports a conflicting one that is not ordered before it.
    pub fn touch(&self, write: bool, what: &str) {
        let Some(t) = me() else { return };
        with(|s| {
            // only the running thread of the execution gets here
            let (w, r) = &mut **unsafe { &mut *self.0.get() }.get_or_insert_with(Default::default);
            let c = &mut s.threads[t].clock;
            let seen = |c: &Clock, o: &Clock| o.iter().enumerate().all(|(i, x)| i == t || *x <= c.get(i).copied().unwrap_or(0));
            if !seen(c, w) || (write && !seen(c, r)) {
                s.race.get_or_insert_with(|| format!("unsynchronised accesses to a {what}: thread {t} {} it while another thread {} it", if write { "modifies" } else { "reads" }, if seen(c, w) { "reads" } else { "modifies" }));
            }
            let d = if write { w } else { r };
            if d.len() <= t {
                d.resize(t + 1, 0);
            }
            d[t] = c.get(t).copied().unwrap_or(0);
        });
    }
}
impl Default for Shadow {
    fn default() -> Self {
        Self::new()
    }
}

/// Allocator whose allocations are scheduling points when an execution asks for it.
pub struct PointAlloc;
impl PointAlloc {
    #[inline]
    fn hit() {
        if ALLOC.load(SeqCst) && me().is_some() && !IN.try_with(|i| i.get()).unwrap_or(true) && !std::thread::panicking() {
            point(Op::Local);
        }
    }
}
unsafe impl GlobalAlloc for PointAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Self::hit();
        let p = System.alloc(l);
        mem::fresh(p as usize, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        Self::hit();
        let p = System.alloc_zeroed(l);
        mem::fresh(p as usize, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let r = System.realloc(p, l, n);
        if r != p {
            mem::fresh(r as usize, n);
        } else if n > l.size() {
            mem::fresh(r as usize + l.size(), n - l.size());
        }
        r
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
