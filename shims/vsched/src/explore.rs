//! Depth-first search over the schedules of a body; every execution is a forked process, so each
//! starts from the same state of the whole program.
use crate::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const WORDS: usize = 4 << 20;
const TEXT: usize = 3 << 20;
static SHARED: AtomicUsize = AtomicUsize::new(0);

fn shared() -> &'static mut [u64] {
    let mut p = SHARED.load(SeqCst);
    if p == 0 {
        p = unsafe { mmap(std::ptr::null_mut(), WORDS * 8, 3, 0x21, -1, 0) } as usize;
        assert!(p != usize::MAX, "mmap");
        SHARED.store(p, SeqCst);
    }
    unsafe { std::slice::from_raw_parts_mut(p as *mut u64, WORDS) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// every interleaving, up to the order of independent steps (dynamic partial-order reduction with sleep sets)
    Full,
    /// every interleaving with at most so many preemptions
    Bounded(usize),
}
/// How one execution ended.
pub struct Run {
    pub nodes: Vec<Node>,
    pub trace: Vec<Step>,
    pub steps: u64,
    pub blocked: bool,
    /// words of memory in conflict, accesses watched, and whether some were not recorded
    pub conflicts: Vec<usize>,
    pub accesses: u64,
    pub lost: bool,
    /// what the body returned, or how it failed
    pub result: Result<String, String>,
}
impl Run {
    pub fn schedule(&self) -> Vec<usize> {
        self.nodes.iter().map(|n| n.chosen).collect()
    }
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    /// complete executions
    pub schedules: u64,
    /// executions cut because they only reorder independent steps
    pub cut: u64,
    /// scheduling states reached for the first time
    pub states: u64,
    /// steps executed
    pub steps: u64,
    /// loads and stores watched
    pub accesses: u64,
    /// the limit on executions was reached
    pub truncated: bool,
    pub max_depth: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.schedules += o.schedules;
        self.cut += o.cut;
        self.states += o.states;
        self.steps += o.steps;
        self.accesses += o.accesses;
        self.truncated |= o.truncated;
        self.max_depth = self.max_depth.max(o.max_depth);
    }
}
fn put(s: &State, status: u64, text: &str) -> ! {
    let w = shared();
    let mut i = 6;
    for n in &s.nodes {
        if i + 16 + mem::KEPT + n.options.len() + n.acc.len() + n.sleep.iter().map(|s| 2 + s.acc.len()).sum::<usize>() > TEXT {
            break;
        }
        w[i] = n.options.len() as u64;
        w[i + 1] = n.chosen as u64;
        w[i + 2] = n.preempts as u64 | (n.value as u64) << 1;
        w[i + 3] = n.acc.len() as u64;
        w[i + 4] = n.sleep.len() as u64;
        i += 5;
        for x in n.options.iter().chain(&n.acc) {
            w[i] = *x as u64;
            i += 1;
        }
        for x in &n.sleep {
            w[i] = x.tid as u64;
            w[i + 1] = x.acc.len() as u64;
            i += 2;
            for a in &x.acc {
                w[i] = *a as u64;
                i += 1;
            }
        }
    }
    let mut ns = 0;
    for x in &s.trace {
        if i + 4 + x.acc.len() + mem::KEPT + 3 > TEXT {
            break;
        }
        w[i] = x.tid as u64;
        w[i + 1] = x.node.map_or(0, |n| n as u64 + 1);
        w[i + 2] = x.gate as u64;
        w[i + 3] = x.acc.len() as u64;
        i += 4;
        for a in &x.acc {
            w[i] = *a as u64;
            i += 1;
        }
        ns += 1;
    }
    w[5] = ns;
    let (found, seen, lost) = mem::report();
    w[i] = seen as u64;
    w[i + 1] = lost as u64;
    w[i + 2] = found.len() as u64;
    for (j, k) in found.iter().enumerate() {
        w[i + 3 + j] = *k as u64;
    }
    w[1] = s.nodes.len() as u64;
    w[2] = s.steps;
    w[3] = s.blocked as u64;
    let t = &text.as_bytes()[..text.len().min((WORDS - TEXT) * 8 - 1)];
    w[4] = t.len() as u64;
    unsafe {
        std::ptr::copy_nonoverlapping(t.as_ptr(), w[TEXT..].as_mut_ptr() as *mut u8, t.len());
        w[0] = status;
        _exit(0)
    }
}
fn stuck(s: &mut State, why: String) -> ! {
    put(s, 2, &why)
}
fn message(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
/// One execution with the given choices first.
pub fn execute(body: &dyn Fn() -> Result<String, String>, prefix: &[usize], given: &[Sleeper], use_sleep: bool, alloc: bool) -> Run {
    let w = shared();
    w[..6].fill(0);
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(60);
            begin(prefix.to_vec(), given.to_vec(), use_sleep, alloc, stuck);
            let r = catch_unwind(AssertUnwindSafe(body)).unwrap_or_else(|e| Err(format!("panics: {}", message(e))));
            let s = finish();
            match (&s.race, &r) {
                (Some(m), _) => put(&s, 2, m),
                (_, Ok(t)) => put(&s, 1, t),
                (_, Err(m)) => put(&s, 2, m),
            }
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if w[0] == 0 {
            let why = if st & 0x7f == 14 { "does not end within 60 s".to_string() } else { format!("the process dies ({st:#x})") };
            return Run { nodes: Vec::new(), trace: Vec::new(), steps: 0, blocked: false, conflicts: Vec::new(), accesses: 0, lost: false, result: Err(why) };
        }
    }
    let mut nodes = Vec::new();
    let mut i = 6;
    for _ in 0..w[1] {
        let (no, chosen, fl, na, ns) = (w[i] as usize, w[i + 1] as usize, w[i + 2], w[i + 3] as usize, w[i + 4] as usize);
        i += 5;
        let mut take = |n: usize| {
            let v: Vec<usize> = w[i..i + n].iter().map(|x| *x as usize).collect();
            i += n;
            v
        };
        let options = take(no);
        let acc = take(na);
        let sleep = (0..ns)
            .map(|_| {
                let h = take(2);
                Sleeper { tid: h[0], acc: take(h[1]) }
            })
            .collect();
        nodes.push(Node { options, chosen, preempts: fl & 1 == 1, value: fl & 2 == 2, acc, sleep });
    }
    let mut trace = Vec::new();
    for _ in 0..w[5] {
        let n = w[i + 3] as usize;
        trace.push(Step { tid: w[i] as usize, node: (w[i + 1] as usize).checked_sub(1), gate: w[i + 2] as usize, acc: w[i + 4..i + 4 + n].iter().map(|x| *x as usize).collect() });
        i += 4 + n;
    }
    let (accesses, lost, nc) = (w[i], w[i + 1] != 0, w[i + 2] as usize);
    let conflicts = w[i + 3..i + 3 + nc].iter().map(|x| *x as usize).collect();
    let text = unsafe { std::slice::from_raw_parts(w[TEXT..].as_ptr() as *const u8, w[4] as usize) };
    let text = String::from_utf8_lossy(text).into_owned();
    Run { nodes, trace, steps: w[2], blocked: w[3] == 1, conflicts, accesses, lost, result: if w[0] == 1 { Ok(text) } else { Err(text) } }
}
/// Explores every schedule; `seen` is told how each execution ended and stops the search by returning false.
pub fn explore(mode: Mode, alloc: bool, limit: u64, body: &dyn Fn() -> Result<String, String>, seen: &mut dyn FnMut(&Run) -> bool) -> Stats {
    struct Frame {
        node: Node,
        /// options to explore, and those explored
        todo: Vec<usize>,
        done: Vec<usize>,
        /// preemptions made before this node
        spent: usize,
    }
    let full = matches!(mode, Mode::Full);
    let bound = match mode {
        Mode::Full => usize::MAX,
        Mode::Bounded(b) => b,
    };
    let mut st = Stats::default();
    let mut stack: Vec<Frame> = Vec::new();
    let mut prefix: Vec<usize> = Vec::new();
    let mut given: Vec<Sleeper> = Vec::new();
    loop {
        let run = execute(body, &prefix, &given, full, alloc);
        st.steps += run.steps;
        st.accesses += run.accesses;
        if run.blocked {
            st.cut += 1;
        } else {
            st.schedules += 1;
        }
        st.max_depth = st.max_depth.max(run.nodes.len() as u64);
        let go = seen(&run);
        // the last given choice and what follows are new
        for (i, n) in run.nodes.iter().enumerate() {
            if i < stack.len() {
                let f = &mut stack[i];
                for a in &n.acc {
                    if !f.node.acc.contains(a) {
                        f.node.acc.push(*a);
                    }
                }
            } else {
                let spent = stack.last().map_or(0, |f| f.spent + cost(&f.node));
                let todo = if full && !n.value { vec![n.chosen] } else { n.options.clone() };
                stack.push(Frame { node: n.clone(), todo, done: vec![n.chosen], spent });
                st.states += 1;
            }
        }
        if !go {
            return st;
        }
        if full {
            for (n, t) in reversals(&run.trace) {
                let f = &mut stack[n];
                let add = if f.node.options.contains(&t) { vec![t] } else { f.node.options.clone() };
                for t in add {
                    if !f.todo.contains(&t) {
                        f.todo.push(t);
                    }
                }
            }
        }
        if st.schedules + st.cut >= limit {
            st.truncated = true;
            return st;
        }
        // the deepest node with an option left
        loop {
            let Some(f) = stack.last_mut() else { return st };
            let n = &mut f.node;
            if full && !n.value && !n.sleep.iter().any(|s| s.tid == n.chosen) {
                n.sleep.push(Sleeper { tid: n.chosen, acc: std::mem::take(&mut n.acc) });
            }
            let spent = f.spent;
            let first = n.options[0];
            let next = n.options.iter().copied().find(|o| f.todo.contains(o) && !f.done.contains(o) && (n.value || !full || !n.sleep.iter().any(|s| s.tid == *o)) && spent + (n.preempts && *o != first) as usize <= bound);
            match next {
                Some(o) => {
                    n.chosen = o;
                    n.acc.clear();
                    f.done.push(o);
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
        prefix = stack.iter().map(|f| f.node.chosen).collect();
        given = stack.last().unwrap().node.sleep.clone();
    }
}
fn cost(n: &Node) -> usize {
    (n.preempts && n.chosen != n.options[0]) as usize
}
/// Decisions at which another thread has to be tried, because a later step of it conflicts with the step
/// chosen there and nothing orders the two.
fn reversals(trace: &[Step]) -> Vec<(usize, Tid)> {
    let threads = trace.iter().map(|s| s.tid).max().map_or(0, |t| t + 1);
    // per thread: the last step of every thread that is ordered before its next one
    let mut clock = vec![vec![0usize; threads]; threads];
    // per step, its clock; per object, the steps that accessed it
    let mut clocks: Vec<Vec<usize>> = Vec::new();
    let mut objects: std::collections::HashMap<usize, Vec<(usize, usize)>> = Default::default();
    let mut out = Vec::new();
    for (j, s) in trace.iter().enumerate() {
        let before = clock[s.tid].clone();
        let mut now = before.clone();
        for a in &s.acc {
            for (i, kind) in objects.entry(a >> 2).or_default().iter() {
                if (kind | a) & 1 == 0 {
                    continue;
                }
                let e = &trace[*i];
                if before[e.tid] <= *i && e.tid != s.tid && a >> 2 >= THREADS {
                    if let Some(n) = e.node {
                        // the end of a lock never competes with taking it
                        if !(s.gate == a >> 2 && *kind == UNLOCK) {
                            out.push((n, s.tid));
                        }
                    }
                }
                for (x, y) in now.iter_mut().zip(&clocks[*i]) {
                    *x = (*x).max(*y);
                }
            }
        }
        now[s.tid] = j + 1;
        for a in &s.acc {
            objects.get_mut(&(a >> 2)).unwrap().push((j, a & 3));
        }
        clocks.push(now.clone());
        clock[s.tid] = now;
    }
    out.sort();
    out.dedup();
    out
}
