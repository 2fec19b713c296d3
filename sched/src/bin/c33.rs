//! C33: every interleaving of threads that evaluate on shared evaluators.
#[path = "../explore.rs"]
mod explore;
use explore::*;
use harness::fields::*;
use harness::requests::{step, Op};
use harness::ring::Fld;
use harness::scheme::*;
use harness::world::{Set, World, ALPHABET};
use harness::*;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::process::Command;
use vsched::explore::Mode;

const EVALS: usize = ALPHABET.len();
/// What other threads of the process may do meanwhile.
const OTHERS: [&str; 6] = ["request a table of a new length", "initialise all lengths", "make keys and evaluate with them", "clone and drop an evaluator", "multiply polynomials", "request a table that does not exist"];
const LETTERS: usize = EVALS + OTHERS.len();
fn name(l: usize) -> String {
    if l < EVALS {
        harness::world::name(l)
    } else {
        OTHERS[l - EVALS].into()
    }
}
fn table<F: Fld>(op: Op) -> Result<String, String>
where
    F::Table: Send + Sync,
{
    step::<F>(&op).map(|_| "done".into())
}
/// Keys and an evaluation with them, all by the calling thread.
fn own(kind: usize) -> Result<String, String> {
    // few digits, so few requests for tables
    let k = Toy { sl: 0.5, bb: 7, kb: 7, lk: Lk::Binary, rk: Rk::Binary, ..Toy::new(2, 64, 16, Steps::BrKsMs) };
    match kind {
        0 => Set::<u16, F97>::new(k).run(0),
        1 => Set::<u16, F257>::new(Toy { nn: 8, bb: 9, kb: 9, ..k }).run(2),
        _ => Set::<u16, F97>::new(Toy { n: 1, q: 16, nn: 4, ..k }).run(7),
    }
}
fn run(w: &World, l: usize) -> Result<String, String> {
    if l < EVALS {
        return w.run(l);
    }
    match l - EVALS {
        0 => table::<F97>(Op::Get(2)),
        1 => table::<F257>(Op::Init(vec![2, 3, 4, 5, 6])),
        2 => own(2),
        3 => {
            drop(w.a.as_ref().map(|s| s.ev.clone()));
            drop(w.d.as_ref().map(|s| s.ev.clone()));
            Ok(String::new())
        }
        4 => table::<F97>(Op::Mul(4)),
        _ => table::<F97>(Op::Get(9)),
    }
}
fn digest(r: &Result<String, String>) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static PROGRAMS: RefCell<Vec<Vec<usize>>> = const { RefCell::new(Vec::new()) };
    /// digests of the results alone in a fresh process
    static ALONE: Vec<u64> = std::env::var("VERIF_DIGESTS").map(|d| d.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
}
fn judge(l: usize, r: Result<String, String>, when: &str) -> Result<String, String> {
    let d = digest(&r);
    match r {
        Err(e) => Err(format!("{}{when}: {e}", name(l))),
        Ok(x) if ALONE.with(|a| a[l]) != d => Err(format!("{}{when} gives {}, which is not what it gives alone in a fresh process", name(l), x.chars().take(900).collect::<String>())),
        Ok(_) => Ok(String::new()),
    }
}
/// All threads share one world.
fn shared(_: usize) -> Result<String, String> {
    WORLD.with(|w| PROGRAMS.with(|p| threads(w.borrow().as_ref().unwrap(), &p.borrow())))
}
fn threads(w: &World, programs: &[Vec<usize>]) -> Result<String, String> {
    let all: Vec<Vec<Result<String, String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = programs.iter().map(|p| s.spawn(|| p.iter().map(|l| catch(|| run(w, *l)).unwrap_or_else(|e| Err(format!("panics: {e}")))).collect())).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![Err("the thread panics".into())])).collect()
    });
    for (p, rs) in programs.iter().zip(all) {
        for (l, r) in p.iter().zip(rs) {
            judge(*l, r, "")?;
        }
    }
    // nothing was damaged for good
    vsched::thread::serial();
    for l in programs.iter().flatten() {
        judge(*l, catch(|| run(w, *l)).unwrap_or_else(|e| Err(format!("panics: {e}"))), " afterwards")?;
    }
    Ok(String::new())
}
/// Several evaluations as fork-join tasks of one thread, which turns to the next of them wherever it waits for a branch
/// that another thread has taken.
fn tasks(_: usize) -> Result<String, String> {
    WORLD.with(|w| {
        PROGRAMS.with(|p| {
            let (w, p) = (w.borrow(), p.borrow());
            let (w, p): (&World, &[usize]) = (w.as_ref().unwrap(), &p[0]);
            let go = |l: usize| catch(|| run(w, l)).unwrap_or_else(|e| Err(format!("panics: {e}")));
            let rs = match p {
                [a, b] => {
                    let (x, y) = vsched::thread::join_here(|| go(*a), || go(*b));
                    vec![x, y]
                }
                [a, b, c] => {
                    let ((x, y), z) = vsched::thread::join_here(|| vsched::thread::join_here(|| go(*a), || go(*b)), || go(*c));
                    vec![x, y, z]
                }
                _ => unreachable!(),
            };
            for (l, r) in p.iter().zip(rs) {
                judge(*l, r, " as a fork-join task")?;
            }
            vsched::thread::serial();
            for l in p {
                judge(*l, go(*l), " afterwards")?;
            }
            Ok(String::new())
        })
    })
}
/// Every thread makes its own keys, from a process that has made none.
fn apart(_: usize) -> Result<String, String> {
    let programs = PROGRAMS.with(|p| p.borrow().clone());
    let all: Vec<Result<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = programs.iter().map(|p| s.spawn(|| catch(|| own(p[0])).unwrap_or_else(|e| Err(format!("panics: {e}"))))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panics".into()))).collect()
    });
    for (p, r) in programs.iter().zip(all) {
        let d = digest(&r);
        let r = r?;
        if ALONE.with(|a| a[LETTERS + p[0]]) != d {
            return Err(format!("keys made by several threads at once give {r}, which is not what they give alone in a fresh process"));
        }
    }
    Ok(String::new())
}
/// Multisets of k out of the given letters.
fn multisets(n: &[usize], k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for (i, l) in n.iter().enumerate() {
        for mut m in multisets(&n[i..], k - 1) {
            m.insert(0, *l);
            out.push(m);
        }
    }
    out
}
/// A gate, mux, bootstrap, blind rotation and key switching of different sets, and the rest of the process.
const FEW: [usize; 10] = [0, 2, 5, 12, 14, 18, 20, 27, EVALS, EVALS + 2];
/// The evaluations that fork, and the longest of them.
const FORKS: [usize; 5] = [2, 12, 17, 26, 34];
const MUX: [usize; 3] = [2, 12, 17];
/// A mux of many steps beside a writer of the cache of tables, or several writers beside another thread:
/// too many interleavings for every run.
fn long(m: &[usize]) -> bool {
    let writers = m.iter().filter(|x| [EVALS, EVALS + 2, EVALS + 5].contains(x)).count();
    writers > 0 && MUX.iter().any(|x| m.contains(x)) || m.len() > 2 && (writers > 1 || writers > 0 && m.iter().any(|x| ![0, 5, 14, 20].contains(x) && *x < EVALS))
}
fn programs(kind: u32) -> Vec<Vec<Vec<usize>>> {
    let all: Vec<usize> = (0..LETTERS).collect();
    let one = |m: Vec<Vec<usize>>| m.into_iter().map(|v| v.into_iter().map(|l| vec![l]).collect()).collect();
    match kind {
        0 => one(multisets(&all, 2).into_iter().filter(|m| !long(m)).collect()),
        8 => one(multisets(&all, 2).into_iter().filter(|m| long(m)).collect()),
        1 => one(multisets(&FEW, 3).into_iter().filter(|m| !long(m)).collect()),
        9 => one(multisets(&FEW, 3).into_iter().filter(|m| long(m)).collect()),
        2 => {
            // two evaluations one after the other on both threads
            let two: Vec<Vec<usize>> = FEW[..6].iter().flat_map(|a| FEW[..6].iter().map(move |b| vec![*a, *b])).collect();
            let i: Vec<usize> = (0..two.len()).collect();
            multisets(&i, 2).into_iter().map(|m| m.into_iter().map(|x| two[x].clone()).collect()).collect()
        }
        3 => one(vec![vec![0, 0], vec![0, 1], vec![0, 2], vec![2, 2], vec![2, 2, 2]]),
        4 => one(multisets(&all, 3)),
        5 => one(multisets(&[0, 20, EVALS, EVALS + 2], 2)),
        10 => one(multisets(&FEW, 2)),
        6 => one(multisets(&FEW[..6], 4)),
        7 => vec![vec![vec![2], vec![2]]],
        12 => FORKS.iter().flat_map(|m| all.iter().map(|l| vec![vec![*m, *l]])).collect(),
        13 => FORKS.iter().flat_map(|m| multisets(&FEW, 2).into_iter().map(|v| vec![vec![*m, v[0], v[1]]])).collect(),
        _ => one(vec![vec![0, 0], vec![0, 1], vec![1, 1], vec![0, 0, 2]]),
    }
}
fn prepare(kind: u32, i: usize) {
    PROGRAMS.with(|p| *p.borrow_mut() = programs(kind).swap_remove(i));
    if ![3, 7, 11].contains(&kind) {
        WORLD.with(|w| {
            w.borrow_mut().get_or_insert_with(World::new);
        });
    }
}
fn show(kind: u32, i: usize) -> String {
    let p = &programs(kind)[i];
    let l = |l: usize| match kind {
        3 | 7 | 11 => format!("keys of set {l} and an evaluation"),
        _ => name(l),
    };
    p.iter().map(|p| p.iter().map(|x| l(*x)).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" | ")
}
macro_rules! family {
    ($name:literal, $kind:literal, $mode:expr, $alloc:literal, $body:expr) => {
        Family { name: $name, count: programs($kind).len(), mode: $mode, alloc: $alloc, watch: true, limit: 1 << 20, describe: |i| show($kind, i), body: $body, prepare: |i| prepare($kind, i) }
    };
}
fn main() {
    if let Ok(l) = std::env::var("VERIF_ALONE") {
        let l: usize = l.parse().unwrap();
        let r = if l < LETTERS { run(&World::new(), l) } else { own(l - LETTERS) };
        println!("{} {}", digest(&r), r.unwrap_or_else(|e| format!("ERROR {e}")));
        return;
    }
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut f = vec![
        family!("two threads", 0, Mode::Full, false, shared),
        family!("two threads, mux beside a writer", 8, Mode::Bounded(1), false, shared),
        family!("three threads", 1, Mode::Full, false, shared),
        family!("two threads, two evaluations each", 2, Mode::Full, false, shared),
        family!("fork-join tasks of one thread", 12, Mode::Full, false, tasks),
        family!("threads that make their own keys", 3, Mode::Bounded(1), false, apart),
        family!("two threads that make their own keys, every interleaving", 7, Mode::Full, false, apart),
        family!("two threads, preempted at locks and allocations", 5, Mode::Bounded(1), true, shared),
    ];
    if thorough {
        f.extend([
            family!("two threads, mux beside a writer, every interleaving", 8, Mode::Full, false, shared),
            family!("three threads, with mux or several writers, one preemption", 9, Mode::Bounded(1), false, shared),
            family!("three threads, all evaluations", 4, Mode::Full, false, shared),
            family!("three fork-join tasks of one thread", 13, Mode::Full, false, tasks),
            family!("four threads", 6, Mode::Full, false, shared),
            family!("two threads, more evaluations, preempted at locks and allocations", 10, Mode::Bounded(1), true, shared),
            family!("two threads that make their own keys, two preemptions", 11, Mode::Bounded(2), false, apart),
        ]);
    }
    if worker(&f) {
        return;
    }
    let c = Ctx::new("C33", "model_checking");
    c.rule("every interleaving, up to the order of independent steps, of threads that evaluate on shared evaluators (all gates, bootstrapping, blind rotation, both key switchings, decryption, on six evaluators) while others of the process evaluate, make keys, request tables or clone and drop evaluators; the two branches of the fork-join of mux run on the calling thread or on one of their own; locks, atomics, threads, cells and the fork-join are those of a scheduler, and every load and store of the code under test is watched: where threads access memory without an order between them, those accesses become scheduling points too; each result must be the one the evaluation gives alone in a fresh process, during and afterwards; states counts scheduling decisions reached, transitions steps, traces complete executions, each a process of its own");
    c.assume("sequentially consistent memory; copies of fewer than about 128 bytes whose length is fixed are not watched");
    let me = std::env::current_exe().unwrap();
    let outs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..LETTERS + 3).map(|l| (l, me.clone())).map(|(l, me)| sc.spawn(move || String::from_utf8_lossy(&Command::new(me).env("VERIF_ALONE", l.to_string()).output().unwrap().stdout).trim().to_string())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    tick();
    c.section("each alone in a fresh process", "letter", |s| {
        let mut t = Tally::default();
        for (l, o) in outs.iter().enumerate() {
            t.traces += 1;
            if o.is_empty() || o.contains(" ERROR ") {
                s.fail(if l < LETTERS { name(l) } else { "own keys".into() }, o);
            }
        }
        s.add(&t);
    });
    std::env::set_var("VERIF_DIGESTS", outs.iter().map(|o| o.split(' ').next().unwrap()).collect::<Vec<_>>().join(","));
    sections(&c, &f, (!thorough).then_some(560));
    c.finish()
}
#[global_allocator]
static A: vsched::PointAlloc = vsched::PointAlloc;
