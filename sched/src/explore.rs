//! Drives the explorer from a check: scenarios are spread over worker processes.
use harness::*;
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock, RwLock};
use std::time::{Duration, Instant};
use vsched::explore::{execute, explore, Mode, Run, Stats};

/// A family of scenarios, each a body explored under every schedule.
pub struct Family {
    pub name: &'static str,
    pub count: usize,
    pub mode: Mode,
    /// allocations are scheduling points as well
    pub alloc: bool,
    /// the loads and stores of the code under test are watched
    pub watch: bool,
    /// largest number of executions of one scenario
    pub limit: u64,
    pub describe: fn(usize) -> String,
    /// what the scenario does in one execution; Err when the property fails
    pub body: fn(usize) -> Result<String, String>,
    /// prepares what all executions of a scenario share
    pub prepare: fn(usize),
}
#[derive(Default)]
struct Found {
    stats: Stats,
    /// words that threads access without an order
    points: BTreeSet<usize>,
    /// not every schedule was explored
    partial: bool,
}
/// Explores every schedule. When threads access memory without an order, explores again with such
/// accesses as scheduling points, with single preemptions and then with two. When the time runs out
/// before every schedule was seen, the schedules with a single preemption are explored instead.
fn search(mode: Mode, alloc: bool, watch: bool, limit: u64, time: Option<Duration>, body: &dyn Fn() -> Result<String, String>, seen: &mut dyn FnMut(&Run) -> bool) -> Found {
    let mut f = Found::default();
    let mut stopped = false;
    let start = Instant::now();
    // the share of the time that may have passed
    let spent = |share: f64| time.is_some_and(|t| start.elapsed() >= t.mul_f64(share));
    for round in 0..4 {
        let known: Vec<usize> = f.points.iter().copied().collect();
        vsched::mem::watch(watch, &known);
        let (mode, limit) = match round {
            0 => (mode, limit),
            1 => (Mode::Bounded(1), 5000),
            _ => (Mode::Bounded(2), 5000),
        };
        let mut more = false;
        let mut late = false;
        let st = explore(mode, alloc, limit, body, &mut |r: &Run| {
            f.partial |= r.lost;
            for k in &r.conflicts {
                more |= f.points.len() < vsched::mem::KEPT && f.points.insert(*k);
            }
            stopped = !seen(r);
            late = !stopped && spent(if round == 0 { 0.5 } else { 0.75 });
            !stopped && !late
        });
        f.partial |= st.truncated || late;
        f.stats.add(&st);
        if late && round == 0 && mode == Mode::Full {
            let st = explore(Mode::Bounded(1), alloc, limit, body, &mut |r: &Run| {
                stopped = !seen(r);
                !stopped && !spent(1.)
            });
            f.stats.add(&st);
        }
        if stopped || late || (!more && round != 1) {
            break;
        }
    }
    f.partial |= !f.points.is_empty();
    f
}
/// Executes the scenarios `from..to` in this process and prints what happened.
fn work(f: &Family, from: usize, to: usize, step: usize, budget: Option<(Duration, usize)>) {
    std::panic::set_hook(Box::new(|_| {}));
    rand::verif_hook::seed(1);
    let start = Instant::now();
    let mut i = from;
    while i < to.min(f.count) {
        // twelve times an even share of what is left for this family
        let time = budget.map(|(left, rounds)| {
            let here = f.count.div_ceil(step);
            let left = left.saturating_sub(start.elapsed());
            (left * 12 / (rounds * here - (i - from) / step) as u32).max(Duration::from_millis(300))
        });
        (f.prepare)(i);
        let body = || (f.body)(i);
        let mut bad: Option<(String, Vec<usize>)> = None;
        let mut n = 0u64;
        let found = search(f.mode, f.alloc, f.watch, f.limit, time, &body, &mut |r: &Run| match &r.result {
            Ok(_) => {
                n += 1;
                if n % 100 == 0 {
                    println!("P {n}");
                    let _ = std::io::stdout().flush();
                }
                true
            }
            Err(e) => {
                bad = Some((e.clone(), r.schedule()));
                false
            }
        });
        if let Some((e, s)) = bad {
            // the same choices again give the same failure
            let again = execute(&body, &s, &[], false, f.alloc);
            println!("V {i} {}; schedule {s:?}{}", e.replace('\n', " "), if again.result == Err(e.clone()) { "" } else { " (not reproduced by its choices alone)" });
        }
        if found.partial {
            println!("L {i}");
        }
        let (sum, points) = (found.stats, found.points);
        if !points.is_empty() {
            println!("C {i} {}", points.len());
        }
        println!("T {} {} {} {} {} {}", sum.schedules, sum.cut, sum.states, sum.steps, sum.max_depth, sum.accesses);
        let _ = std::io::stdout().flush();
        i += step;
    }
}
extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}
/// Only one thread of an execution runs at a time: it hands over fastest on one processor.
fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    let n = std::thread::available_parallelism().map_or(1, |n| n.get());
    m[cpu % n / 64] = 1 << (cpu % n % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}
/// Runs the worker when this process is one.
pub fn worker(families: &[Family]) -> bool {
    let Ok(a) = std::env::var("VERIF_SCHED") else { return false };
    if a == "known" {
        known();
        return true;
    }
    let a: Vec<usize> = a.split(',').map(|x| x.parse().unwrap()).collect();
    if let Some(cpu) = a.get(4) {
        pin(*cpu);
    }
    let budget = a.get(6).map(|ms| (Duration::from_millis(*ms as u64), a[5]));
    work(&families[a[0]], a[1], a[2], a[3], budget);
    true
}
/// One section per family; all of them together stay within `budget` seconds, if there is one: what
/// is not explored then counts as such.
pub fn sections(c: &Ctx, families: &[Family], budget: Option<u64>) {
    let end = budget.map(|b| Instant::now() + Duration::from_secs(b));
    let me = std::env::current_exe().unwrap();
    let mut sum = Stats::default();
    c.section("the explorer on known programs", "-", |s| {
        let o = Command::new(&me).env("VERIF_SCHED", "known").output().unwrap();
        let text = String::from_utf8_lossy(&o.stdout);
        let mut t = Tally::default();
        for l in text.lines() {
            t.traces += 1;
            s.sample(|| J::s(l));
            if !l.starts_with("ok ") {
                s.fail("known program", l);
            }
        }
        if !o.status.success() || t.traces != 30 {
            s.fail("known programs", format!("{:?} {} {}", o.status, t.traces, String::from_utf8_lossy(&o.stderr)));
        }
        s.add(&t);
    });
    let all = std::sync::Mutex::new(&mut sum);
    let shared = AtomicU32::new(0);
    let short = AtomicU32::new(0);
    for (k, f) in families.iter().enumerate() {
        c.section(f.name, "scenarios i, i + step, ..", |s| {
            // interleaved slices, so that neighbouring scenarios of similar cost are spread
            let jobs = f.count.min(64);
            let last = k + 1 == families.len();
            let until = end.map(|e| e - e.saturating_duration_since(Instant::now()).mul_f64(if last { 0. } else { 0.5 }));
            let lanes = std::thread::available_parallelism().map_or(1, |n| n.get());
            s.par(jobs, |j, tl| {
                let mut child = Command::new(&me).env("VERIF_SCHED", format!("{k},{j},{},{jobs},{}{}", f.count, slot(), until.map_or(String::new(), |u| format!(",{},{}", (jobs - j).div_ceil(lanes), u.saturating_duration_since(Instant::now()).as_millis())))).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
                let lines = BufReader::new(child.stdout.take().unwrap()).lines().map_while(Result::ok);
                let mut seen = 0;
                for l in lines {
                    tick();
                    let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                    match tag {
                        "T" => {
                            let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                            tl.traces += v[0];
                            tl.states += v[2];
                            tl.transitions += v[3];
                            tl.evals += v[0] + v[1];
                            all.lock().unwrap().add(&Stats { schedules: v[0], cut: v[1], states: v[2], steps: v[3], truncated: false, max_depth: v[4], accesses: v[5] });
                            seen += 1;
                        }
                        "L" => {
                            c.not_exhaustive();
                            short.fetch_add(1, SeqCst);
                        }
                        // memory that threads use without an order: explored, with fewer interleavings
                        "C" => {
                            c.not_exhaustive();
                            shared.fetch_add(1, SeqCst);
                        }
                        "V" => {
                            let (i, e) = rest.split_once(' ').unwrap();
                            s.fail((f.describe)(i.parse().unwrap()), e);
                        }
                        _ => {}
                    }
                }
                let status = child.wait().unwrap();
                let mut err = String::new();
                let _ = child.stderr.take().unwrap().read_to_string(&mut err);
                let want = (j..f.count).step_by(jobs).count();
                if seen != want || !status.success() {
                    s.fail(format!("worker {j}"), format!("{seen} of {want} scenarios, {:?}: {}", status, err.lines().take(3).collect::<Vec<_>>().join("; ")));
                }
                s.sample(|| J::obj([("scenario", J::s(&(f.describe)(j))), ("mode", J::s(&format!("{:?}{}", f.mode, if f.alloc { " with allocation points" } else { "" })))]));
            });
        });
    }
    c.extra("scenarios not explored in full", J::n(short.into_inner() as u64));
    c.extra("schedules", J::n(sum.schedules));
    c.extra("schedules cut as equivalent", J::n(sum.cut));
    c.extra("scheduling states", J::n(sum.states));
    c.extra("loads and stores watched", J::n(sum.accesses));
    c.extra("scenarios with memory accessed without an order", J::n(shared.into_inner() as u64));
    c.extra("longest schedule (decisions)", J::n(sum.max_depth));
}

/// Programs whose outcomes over all schedules are known.
fn known() {
    std::panic::set_hook(Box::new(|_| {}));
    fn outcomes(mode: Mode, body: &dyn Fn() -> Result<String, String>) -> (BTreeSet<String>, Stats) {
        let mut seen = BTreeSet::new();
        let st = explore(mode, false, 1 << 20, body, &mut |r| {
            seen.insert(match &r.result {
                Ok(x) => x.clone(),
                Err(e) => e.split([':', ' ']).next().unwrap().to_string(),
            });
            true
        });
        (seen, st)
    }
    fn pair(a: impl Fn() + Sync, b: impl Fn() + Sync) {
        std::thread::scope(|s| {
            s.spawn(&a);
            s.spawn(&b);
        });
    }
    let check = |name: &str, want: &[&str], body: &dyn Fn() -> Result<String, String>| {
        let want: BTreeSet<String> = want.iter().map(|x| x.to_string()).collect();
        for mode in [Mode::Full, Mode::Bounded(99)] {
            let (seen, st) = outcomes(mode, body);
            println!("{} {name} {mode:?}: {seen:?} in {} schedules, {} cut", if seen == want { "ok" } else { "WRONG" }, st.schedules, st.cut);
        }
    };
    check("increments made of a load and a store", &["1", "2"], &|| {
        let x = AtomicU32::new(0);
        let f = || x.store(x.load(SeqCst) + 1, SeqCst);
        pair(f, f);
        Ok(x.into_inner().to_string())
    });
    check("atomic increments", &["2"], &|| {
        let x = AtomicU32::new(0);
        let f = || {
            x.fetch_add(1, SeqCst);
        };
        pair(f, f);
        Ok(x.into_inner().to_string())
    });
    check("two locks in opposite order", &["deadlock", "done"], &|| {
        let (a, b) = (Mutex::new(0), Mutex::new(0));
        pair(
            || {
                let _x = a.lock().unwrap();
                let _y = b.lock().unwrap();
            },
            || {
                let _y = b.lock().unwrap();
                let _x = a.lock().unwrap();
            },
        );
        Ok("done".into())
    });
    check("a nested read lock and a writer", &["deadlock", "done"], &|| {
        let a = RwLock::new(0);
        pair(
            || {
                let _x = a.read().unwrap();
                let _y = a.read().unwrap();
            },
            || *a.write().unwrap() += 1,
        );
        Ok("done".into())
    });
    check("a read lock and a writer", &["done"], &|| {
        let a = RwLock::new(0);
        pair(|| drop(a.read().unwrap()), || *a.write().unwrap() += 1);
        Ok("done".into())
    });
    check("check, release, act", &["[1, 1]", "[1]"], &|| {
        let a = RwLock::new(Vec::new());
        let f = || {
            let none = a.read().unwrap().is_empty();
            if none {
                a.write().unwrap().push(1);
            }
        };
        pair(f, f);
        Ok(format!("{:?}", a.into_inner().unwrap()))
    });
    check("one initialisation", &["1"], &|| {
        let (c, n) = (OnceLock::new(), AtomicU32::new(0));
        let f = || {
            c.get_or_init(|| n.fetch_add(1, SeqCst));
        };
        pair(f, f);
        Ok(n.into_inner().to_string())
    });
    struct Share<T>(std::cell::UnsafeCell<T>);
    unsafe impl<T> Sync for Share<T> {}
    impl<T> Share<T> {
        #[allow(clippy::mut_from_ref)]
        fn get(&self) -> &mut T {
            unsafe { &mut *self.0.get() }
        }
    }
    check("a map without a lock", &["unsynchronised"], &|| {
        let m = Share(std::cell::UnsafeCell::new(std::collections::HashMap::from([(1, 1)])));
        pair(
            || {
                m.get().insert(2, 2);
            },
            || {
                m.get().get(&1);
            },
        );
        Ok("done".into())
    });
    check("a map read by both", &["done"], &|| {
        let m = std::collections::HashMap::from([(1, 1)]);
        let f = || {
            m.get(&1);
        };
        pair(f, f);
        Ok("done".into())
    });
    check("fork-join", &["ab", "ba"], &|| {
        let v = Mutex::new(String::new());
        vsched::thread::join(|| v.lock().unwrap().push('a'), || v.lock().unwrap().push('b'));
        Ok(v.into_inner().unwrap())
    });
    // memory that is no primitive
    static PLAIN: Share<[u64; 4]> = Share(std::cell::UnsafeCell::new([0; 4]));
    let watched = |name: &str, want: &[&str], conflict: bool, body: &dyn Fn() -> Result<String, String>| {
        let mut seen = BTreeSet::new();
        let f = search(Mode::Full, false, true, 1 << 20, None, body, &mut |r| {
            seen.insert(r.result.clone().unwrap_or_else(|e| e));
            true
        });
        vsched::mem::watch(false, &[]);
        let ok = seen.iter().map(|x| x.as_str()).eq(want.iter().copied()) && conflict != f.points.is_empty() && f.stats.accesses > 0;
        println!("{} {name}: {seen:?} in {} schedules, {} words in conflict, {} accesses", if ok { "ok" } else { "WRONG" }, f.stats.schedules, f.points.len(), f.stats.accesses);
    };
    fn add(p: &mut u64) {
        let x = std::hint::black_box(*p);
        *p = x + 1;
    }
    watched("a plain counter", &["1", "2"], true, &|| {
        let f = || add(&mut PLAIN.get()[1]);
        pair(f, f);
        Ok(PLAIN.get()[1].to_string())
    });
    watched("a shared buffer, word by word", &["[1, 1, 1, 1]", "[1, 1, 1, 2]", "[1, 1, 2, 1]", "[1, 1, 2, 2]", "[1, 2, 1, 1]", "[1, 2, 2, 1]", "[1, 2, 2, 2]", "[2, 1, 1, 1]", "[2, 2, 1, 1]", "[2, 2, 2, 1]", "[2, 2, 2, 2]"], true, &|| {
        let out = Mutex::new(Vec::new());
        let f = |k: u64| {
            for (i, x) in PLAIN.get().iter_mut().enumerate().rev() {
                *x = std::hint::black_box(k);
                std::hint::black_box(i);
            }
            out.lock().unwrap().push((k, PLAIN.get().iter().map(|x| std::hint::black_box(*x)).collect::<Vec<u64>>()));
        };
        pair(|| f(1), || f(2));
        let v = out.into_inner().unwrap();
        let v = &v.iter().find(|x| x.0 == 1).unwrap().1;
        Ok(format!("{v:?}"))
    });
    watched("a plain counter under a lock", &["2"], false, &|| {
        let a = Mutex::new(());
        let f = || {
            let _x = a.lock().unwrap();
            add(&mut PLAIN.get()[1]);
        };
        pair(f, f);
        Ok(PLAIN.get()[1].to_string())
    });
    watched("a plain counter after an unlock", &["1", "2"], true, &|| {
        let a = Mutex::new(());
        let f = || {
            drop(a.lock().unwrap());
            add(&mut PLAIN.get()[1]);
        };
        pair(f, f);
        Ok(PLAIN.get()[1].to_string())
    });
    watched("neighbouring counters", &["[0, 1, 1, 0]"], false, &|| {
        pair(|| add(&mut PLAIN.get()[1]), || add(&mut PLAIN.get()[2]));
        Ok(format!("{:?}", PLAIN.get()))
    });
    watched("a shared buffer", &["[1, 1, 1, 1]", "[2, 2, 2, 2]"], true, &|| {
        let out = Mutex::new(Vec::new());
        let f = |k: u64| {
            let n = std::hint::black_box(4);
            PLAIN.get()[..n].copy_from_slice(&std::hint::black_box([k; 4])[..n]);
            let mut v = std::hint::black_box(vec![0; n]);
            v.copy_from_slice(&PLAIN.get()[..n]);
            out.lock().unwrap().push((k, v));
        };
        pair(|| f(1), || f(2));
        let v = out.into_inner().unwrap();
        Ok(format!("{:?}", v.iter().find(|x| x.0 == 1).unwrap().1))
    });
    watched("a buffer read by both", &["done"], false, &|| {
        let f = || {
            std::hint::black_box(PLAIN.get().iter().sum::<u64>());
        };
        pair(f, f);
        Ok("done".into())
    });
    watched("a heap cell made before and read after", &["3"], false, &|| {
        let mut v = std::hint::black_box(vec![1u64; 8]);
        std::thread::scope(|s| {
            let (a, b) = v.split_at_mut(4);
            s.spawn(|| add(&mut a[0]));
            s.spawn(|| add(&mut b[0]));
        });
        Ok((v[0] + v[4] - 1).to_string())
    });
    // independent steps: one schedule up to equivalence, all of them otherwise
    let body = || {
        let (x, y) = (AtomicU32::new(0), AtomicU32::new(0));
        let f = |a: &AtomicU32| {
            a.store(1, SeqCst);
            a.store(2, SeqCst);
        };
        pair(|| f(&x), || f(&y));
        Ok(String::new())
    };
    let n = outcomes(Mode::Full, &body).1.schedules;
    println!("{} independent steps: {n} schedule", if n == 1 { "ok" } else { "WRONG" });
    let n = outcomes(Mode::Bounded(99), &body).1.schedules;
    println!("{} independent steps: {n} of {} schedules", if n == 6 { "ok" } else { "WRONG" }, 6);
}
