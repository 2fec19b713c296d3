//! C13: every interleaving of concurrent requests for transform tables.
#[path = "../explore.rs"]
mod explore;
use explore::*;
use harness::fields::*;
use harness::requests::{step, Op};
use harness::ring::Fld;
use harness::*;
use std::sync::Arc;
use vsched::explore::Mode;

/// Letters: requests modulo a prime whose largest supported length is 2^t.
fn letter(l: usize, t: u32) -> Op {
    match l {
        0 => Op::Get(t),
        1 => Op::Get(t - 1),
        2 => Op::Get(t + 1),
        3 => Op::Init(vec![t, t - 1]),
        4 => Op::Init(vec![t - 1, t + 1, t]),
        5 => Op::Mul(t),
        6 => Op::Convert(t - 1),
        7 => Op::GetUnlucky(t),
        _ => Op::Init(vec![]),
    }
}
const LETTERS: usize = 9;
const STARTS: [&[usize]; 4] = [&[], &[0], &[1], &[2]];

/// Requests made before the threads start, and the requests of each thread.
#[derive(Debug, Clone)]
struct Scenario {
    start: usize,
    threads: Vec<Vec<usize>>,
}
/// Runs a scenario under the schedule of this execution.
fn run<F: Fld>(t: u32, sc: &Scenario) -> Result<String, String>
where
    F::Table: Send + Sync,
{
    let make = |p: &[usize]| -> Result<Vec<(u32, Arc<F::Table>)>, String> {
        let mut got = Vec::new();
        for l in p {
            let op = letter(*l, t);
            let r = catch(|| step::<F>(&op)).unwrap_or_else(|p| Err(format!("panics: {p}")));
            got.extend(r.map_err(|e| format!("{op:?}: {e}"))?);
        }
        Ok(got)
    };
    let mut got = make(STARTS[sc.start])?;
    // no lock of the check's own: it would order the requests
    let all: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = sc.threads.iter().map(|p| s.spawn(|| make(p))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panics".into()))).collect()
    });
    for r in all {
        got.extend(r?);
    }
    // everything is still there, and there is one table per length
    got.extend(make(&[0, 1, 2])?);
    for (k, a) in &got {
        if let Some((_, b)) = got.iter().find(|(j, b)| j == k && !Arc::ptr_eq(a, b)) {
            return Err(format!("two different tables for length 2^{k}, of which {} and {} references are held", Arc::strong_count(a), Arc::strong_count(b)));
        }
    }
    Ok(String::new())
}
thread_local! {
    static SCENARIO: std::cell::RefCell<Scenario> = const { std::cell::RefCell::new(Scenario { start: 0, threads: Vec::new() }) };
}
/// Multisets of k programs out of n, in order.
fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for m in multisets(n, k - 1) {
        for i in m.last().copied().unwrap_or(0)..n {
            let mut x = m.clone();
            x.push(i);
            out.push(x);
        }
    }
    out
}
fn program(p: usize) -> Vec<usize> {
    if p < LETTERS {
        vec![p]
    } else {
        let p = p - LETTERS;
        vec![p / LETTERS, p % LETTERS]
    }
}
/// Scenarios of a family: threads, whether programs have two requests, starts.
fn scenarios(kind: u32) -> Vec<Scenario> {
    let two: Vec<usize> = (LETTERS..LETTERS + LETTERS * LETTERS).collect();
    let (sets, starts): (Vec<Vec<Vec<usize>>>, usize) = match kind {
        // pairs of single requests
        0 => (multisets(LETTERS, 2).iter().map(|m| m.iter().map(|p| program(*p)).collect()).collect(), 4),
        // pairs of two requests each
        1 => (multisets(two.len(), 2).iter().map(|m| m.iter().map(|p| program(two[*p])).collect()).collect(), 2),
        // triples of single requests
        2 => (multisets(LETTERS, 3).iter().map(|m| m.iter().map(|p| program(*p)).collect()).collect(), 4),
        // two requests beside two threads of one
        3 => (two.iter().flat_map(|p| multisets(LETTERS, 2).into_iter().map(|m| vec![program(*p), program(m[0]), program(m[1])])).collect(), 1),
        // four single requests
        4 => (multisets(LETTERS, 4).iter().map(|m| m.iter().map(|p| program(*p)).collect()).collect(), 1),
        // triples of tables and initialisations only
        _ => (multisets(5, 3).iter().map(|m| m.iter().map(|p| program(*p)).collect()).collect(), 2),
    };
    (0..starts).flat_map(|start| sets.iter().map(move |t| Scenario { start, threads: t.clone() })).collect()
}
fn show(kind: u32, i: usize, t: u32, q: u64) -> String {
    let s = &scenarios(kind)[i];
    let ops = |v: &[usize]| v.iter().map(|l| format!("{:?}", letter(*l, t))).collect::<Vec<_>>().join(", ");
    format!("modulo {q}, before: [{}], threads: {}", ops(STARTS[s.start]), s.threads.iter().map(|p| format!("[{}]", ops(p))).collect::<Vec<_>>().join(" | "))
}
macro_rules! family {
    ($name:literal, $f:ty, $t:literal, $kind:literal, $mode:expr, $alloc:literal, $limit:expr) => {
        Family { name: $name, count: scenarios($kind).len(), mode: $mode, alloc: $alloc, watch: true, limit: $limit, describe: |i| show($kind, i, $t, fq::<$f>()), body: |_| SCENARIO.with(|s| run::<$f>($t, &s.borrow())), prepare: |i| SCENARIO.with(|s| *s.borrow_mut() = scenarios($kind).swap_remove(i)) }
    };
}
fn main() {
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut f = vec![
        family!("two threads, one request each (u32)", F17, 3, 0, Mode::Full, false, 1 << 20),
        family!("two threads, one request each (u8)", F13b, 1, 0, Mode::Full, false, 1 << 20),
        family!("two threads, one request each (u16)", F97h, 4, 0, Mode::Full, false, 1 << 20),
        family!("two threads, one request each (u64)", F257q, 7, 0, Mode::Full, false, 1 << 20),
        family!("three threads, one request each (u32)", F17, 3, 2, Mode::Full, false, 1 << 20),
        family!("two threads, two requests each (u32)", F17, 3, 1, Mode::Bounded(1), false, 1 << 20),
        family!("two threads, preempted at allocations too (u32)", F17, 3, 0, Mode::Bounded(1), true, 1 << 20),
    ];
    f.push(family!("two threads, preempted twice at allocations too (u32)", F17, 3, 0, Mode::Bounded(2), true, 1 << 20));
    if thorough {
        f.extend([
            family!("two threads, two requests each, every interleaving (u32)", F17, 3, 1, Mode::Full, false, 1 << 20),
            family!("three threads, one of them with two requests, two preemptions (u32)", F17, 3, 3, Mode::Bounded(2), false, 1 << 20),
            family!("four threads, two preemptions (u32)", F17, 3, 4, Mode::Bounded(2), false, 1 << 20),
            family!("three threads, tables only (u8)", F13b, 1, 5, Mode::Full, false, 1 << 20),
            family!("three threads, tables only (u16)", F97h, 4, 5, Mode::Full, false, 1 << 20),
            family!("three threads, tables only (u64)", F257q, 7, 5, Mode::Full, false, 1 << 20),
            family!("two threads, two requests each, preempted at allocations too (u32)", F17, 3, 1, Mode::Bounded(1), true, 1 << 20),
            family!("two threads, preempted three times at allocations too (u32)", F17, 3, 0, Mode::Bounded(3), true, 1 << 20),
        ]);
    }
    if worker(&f) {
        return;
    }
    let c = Ctx::new("C13", "model_checking");
    c.rule("every interleaving, up to the order of independent steps, of threads that request, initialise, multiply and convert, including unsupported lengths and requests whose random draws fail, on the code generated by the derive, with std's locks, atomics, threads and hash maps and once_cell's cells replaced by ones that a scheduler controls; the initial cache is empty, holds a table, or has refused a request; every request must give the table of its length (checked against the definition of the transform), all requests of a length the same one, before, during and after, without deadlock, panic or unsynchronised access; two families instead enumerate every schedule with one or two preemptions, at allocations too; every load and store of the code under test is watched, and where threads access memory without an order between them those accesses become scheduling points too; states counts scheduling decisions reached, transitions steps, traces complete executions, each a process of its own");
    c.assume("sequentially consistent memory; a waiting writer keeps new readers out, as std's lock does");
    c.assume("the transform computed with a table does not itself synchronise (its allocations are preemption points in one family)");
    sections(&c, &f, (!thorough).then_some(400));
    c.finish()
}
#[global_allocator]
static A: vsched::PointAlloc = vsched::PointAlloc;
