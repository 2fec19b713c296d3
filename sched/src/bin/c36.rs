//! C36: the counters of transforms, over every history of calls and every interleaving of threads.
#[path = "../explore.rs"]
mod explore;
use algebra::transformation::{count, AbstractNTT};
use algebra::{NTTField, NTTPolynomial, Polynomial};
use explore::*;
use harness::fields::*;
use harness::ring::Fld;
use harness::*;
use std::collections::BTreeSet;
use vsched::explore::Mode;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Enable,
    Disable,
    ClearNtt,
    ClearIntt,
    GetNtt,
    GetIntt,
    /// a slice of 2^k values, in place
    Transform(u32),
    Inverse(u32),
    /// a polynomial, with a table
    Polynomial(u32),
    InversePolynomial(u32),
    /// a polynomial, converted
    Into(u32),
    Back(u32),
}
use Op::*;
const LETTERS: [Op; 13] = [Enable, Disable, ClearNtt, ClearIntt, GetNtt, GetIntt, Transform(2), Inverse(2), Polynomial(1), InversePolynomial(3), Into(3), Back(1), Inverse(0)];

/// What the counters should hold.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Model {
    on: bool,
    ntt: u32,
    intt: u32,
}
impl Model {
    fn step(&mut self, op: Op) -> Option<u32> {
        match op {
            Enable => self.on = true,
            Disable => self.on = false,
            ClearNtt => self.ntt = 0,
            ClearIntt => self.intt = 0,
            GetNtt => return Some(self.ntt),
            GetIntt => return Some(self.intt),
            Transform(_) | Polynomial(_) | Into(_) => self.ntt += self.on as u32,
            Inverse(_) | InversePolynomial(_) | Back(_) => self.intt += self.on as u32,
        }
        None
    }
}
/// Runs the operation; the transforms must be right whether they are counted or not.
fn real<F: Fld>(op: Op) -> Result<Option<u32>, String> {
    let q = fq::<F>();
    let forward = |k: u32, f: &dyn Fn(Vec<F>) -> Vec<F>| -> Result<Option<u32>, String> {
        let a: Vec<u64> = (0..1u64 << k).map(|i| (i * i * 3 + 2 * i + 1) % q).collect();
        let x = vals(&f(fes::<F>(&a)));
        let w = val(F::get_ntt_table(k).map_err(|e| e.to_string())?.root()) as u128;
        if x != oracle::ntt(&a, w, q as u128) {
            return Err(format!("{op:?} gives {x:?}"));
        }
        Ok(None)
    };
    let backward = |k: u32, f: &dyn Fn(Vec<F>) -> Vec<F>| -> Result<Option<u32>, String> {
        let a: Vec<u64> = (0..1u64 << k).map(|i| (i * i * 5 + i + 2) % q).collect();
        let w = val(F::get_ntt_table(k).map_err(|e| e.to_string())?.root()) as u128;
        let x = vals(&f(fes::<F>(&oracle::ntt(&a, w, q as u128))));
        if x != a {
            return Err(format!("{op:?} gives {x:?} for the transform of {a:?}"));
        }
        Ok(None)
    };
    let table = |k: u32| F::get_ntt_table(k).unwrap();
    match op {
        Enable => count::enable_count_ntt_and_intt(),
        Disable => count::disable_count_ntt_and_intt(),
        ClearNtt => count::clear_ntt_count(),
        ClearIntt => count::clear_intt_count(),
        GetNtt => return Ok(Some(count::get_ntt_count())),
        GetIntt => return Ok(Some(count::get_intt_count())),
        Transform(k) => {
            return forward(k, &|mut v| {
                table(k).transform_slice(&mut v);
                v
            })
        }
        Polynomial(k) => return forward(k, &|v| table(k).transform(&algebra::Polynomial::new(v)).data()),
        Into(k) => return forward(k, &|v| algebra::Polynomial::new(v).into_ntt_polynomial().data()),
        Inverse(k) => {
            return backward(k, &|mut v| {
                table(k).inverse_transform_slice(&mut v);
                v
            })
        }
        InversePolynomial(k) => return backward(k, &|v| table(k).inverse_transform(&NTTPolynomial::new(v)).data()),
        Back(k) => return backward(k, &|v| NTTPolynomial::new(v).into_native_polynomial().data()),
    }
    Ok(None)
}
fn warm<F: Fld>() {
    for k in 0..4 {
        let _ = F::get_ntt_table(k);
    }
}

#[derive(Clone, Debug, Default)]
struct Scenario {
    on: bool,
    threads: Vec<Vec<Op>>,
}
/// What the threads saw, and the counters at the end.
type Outcome = (Vec<Vec<u32>>, Model);

/// The outcomes of all orders of the operations, each of them at once.
fn orders(m: Model, sc: &Scenario, at: &mut Vec<usize>, seen: &mut Vec<Vec<u32>>, out: &mut BTreeSet<Outcome>) {
    let mut last = true;
    for i in 0..sc.threads.len() {
        if let Some(op) = sc.threads[i].get(at[i]).copied() {
            last = false;
            let mut m = m;
            let r = m.step(op);
            at[i] += 1;
            if let Some(v) = r {
                seen[i].push(v);
            }
            orders(m, sc, at, seen, out);
            if r.is_some() {
                seen[i].pop();
            }
            at[i] -= 1;
        }
    }
    if last {
        out.insert((seen.clone(), m));
    }
}
/// Runs a scenario under the schedule of this execution; each is a process of its own.
fn run<F: Fld>(sc: &Scenario) -> Result<String, String> {
    let all = || -> Result<Outcome, String> {
        // a process starts with counting off and nothing counted
        for (op, want) in [(GetNtt, 0), (GetIntt, 0)] {
            let v = real::<F>(op)?;
            if v != Some(want) {
                return Err(format!("{op:?} gives {v:?} at the start"));
            }
        }
        real::<F>(if sc.on { Enable } else { Disable })?;
        let each: Vec<Result<Vec<u32>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = sc.threads.iter().map(|p| s.spawn(move || p.iter().filter_map(|op| catch(|| real::<F>(*op)).unwrap_or_else(|p| Err(format!("{op:?} panics: {p}"))).transpose()).collect())).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread panics".into()))).collect()
        });
        let each = each.into_iter().collect::<Result<Vec<_>, _>>()?;
        let (ntt, intt) = (real::<F>(GetNtt)?.unwrap(), real::<F>(GetIntt)?.unwrap());
        real::<F>(Transform(1))?;
        let on = real::<F>(GetNtt)?.unwrap().wrapping_sub(ntt);
        if on > 1 {
            return Err(format!("one transform changes the counter by {on}"));
        }
        Ok((each, Model { on: on == 1, ntt, intt }))
    };
    let got = all()?;
    let mut allowed = BTreeSet::new();
    let k = sc.threads.len();
    orders(Model { on: sc.on, ..Model::default() }, sc, &mut vec![0; k], &mut vec![vec![]; k], &mut allowed);
    if allowed.contains(&got) {
        Ok(format!("{got:?}"))
    } else {
        Err(format!("the threads saw {:?} and left {:?}, which no order of their operations does", got.0, got.1))
    }
}
fn multisets<T: Clone>(of: &[T], k: usize) -> Vec<Vec<T>> {
    if k == 0 {
        return vec![vec![]];
    }
    (0..of.len()).flat_map(|i| multisets(&of[i..], k - 1).into_iter().map(move |m| [vec![of[i].clone()], m].concat())).collect()
}
fn words(of: &[Op], len: usize) -> Vec<Vec<Op>> {
    (0..len).fold(vec![vec![]], |w, _| w.iter().flat_map(|p| of.iter().map(move |l| [p.clone(), vec![*l]].concat())).collect())
}
/// Every choice of programs of one family.
fn scenarios(kind: u32) -> Vec<Scenario> {
    // counting while the counters are read and cleared
    let counting = [Transform(1), Inverse(1), Into(1), ClearNtt, ClearIntt, GetNtt, GetIntt];
    // counting that begins: transforms before it are not counted, those after it are
    let begins = [Enable, Transform(1), InversePolynomial(1), GetNtt, GetIntt];
    // counting that ends
    let ends = [Disable, Polynomial(1), Back(0), Transform(2)];
    let make = |on: bool, of: &[Op], len: usize, k: usize| -> Vec<Scenario> { multisets(&words(of, len), k).into_iter().map(|threads| Scenario { on, threads }).collect() };
    match kind {
        0 => make(true, &counting, 2, 2),
        1 => make(true, &counting, 1, 3),
        2 => make(false, &begins, 2, 2),
        3 => make(false, &begins, 1, 3),
        4 => make(true, &ends, 2, 2),
        5 => make(true, &ends, 1, 3),
        6 => make(true, &counting[..5], 3, 2),
        7 => make(false, &begins, 3, 2),
        8 => make(true, &counting[..4], 2, 3),
        _ => make(true, &counting, 1, 4),
    }
}
thread_local! {
    static SCENARIO: std::cell::RefCell<Scenario> = std::cell::RefCell::default();
}
macro_rules! family {
    ($name:literal, $f:ty, $kind:literal, $mode:expr) => {
        Family {
            name: $name,
            count: scenarios($kind).len(),
            mode: $mode,
            alloc: false,
            watch: true,
            limit: 1 << 20,
            describe: |i| {
                let s = &scenarios($kind)[i];
                format!("counting {}, threads: {}", if s.on { "on" } else { "off" }, s.threads.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" | "))
            },
            body: |_| SCENARIO.with(|s| run::<$f>(&s.borrow())),
            prepare: |i| {
                warm::<$f>();
                SCENARIO.with(|s| *s.borrow_mut() = scenarios($kind).swap_remove(i))
            },
        }
    };
}
/// Every sequence of calls of a length, on top of every state that few calls reach.
fn history<F: Fld>(c: &Ctx, name: &str, len: usize) {
    c.section(name, "index of the sequence", |s| {
        warm::<F>();
        let mut t = Tally::default();
        let n = LETTERS.len();
        let mut states = BTreeSet::new();
        for i in 0..n.pow(len as u32) {
            cur(&[i as u64]);
            if s.stopped() {
                break;
            }
            let word: Vec<Op> = (0..len).map(|j| LETTERS[i / n.pow(j as u32) % n]).collect();
            let r = catch(|| -> Result<(), String> {
                let mut m = Model::default();
                for op in [Disable, ClearNtt, ClearIntt].into_iter().chain(word.iter().copied()).chain([GetNtt, GetIntt, Transform(1), Inverse(1), GetNtt, GetIntt]) {
                    let (got, want) = (real::<F>(op)?, m.step(op));
                    if got != want {
                        return Err(format!("{op:?} gives {got:?} and not {want:?}"));
                    }
                    states.insert(m);
                    t.transitions += 1;
                }
                Ok(())
            });
            if let Some(e) = r.map_or_else(|p| Some(format!("panics: {p}")), |r| r.err()) {
                s.fail(format!("{word:?}"), e);
            }
            t.traces += 1;
            t.evals += 1;
        }
        t.states = states.len() as u64;
        s.add(&t);
        s.sample(|| J::s("Enable, Transform, Disable, Inverse, then the counters and one more transform each"));
    });
}
fn main() {
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut f = vec![
        family!("counting, two threads, two operations each", F17, 0, Mode::Full),
        family!("counting, three threads", F17, 1, Mode::Full),
        family!("counting begins, two threads, two operations each", F17, 2, Mode::Full),
        family!("counting begins, three threads", F257q, 3, Mode::Full),
        family!("counting ends, two threads, two operations each", F17, 4, Mode::Full),
        family!("counting ends, three threads", F257q, 5, Mode::Full),
        family!("counting, two threads, three operations each", F17, 6, Mode::Full),
        family!("counting begins, two threads, three operations each", F17, 7, Mode::Full),
    ];
    if thorough {
        f.extend([family!("counting, three threads, two operations each", F17, 8, Mode::Bounded(2)), family!("counting, four threads", F17, 9, Mode::Bounded(2))]);
    }
    if worker(&f) {
        return;
    }
    let c = Ctx::new("C36", "model_checking");
    c.rule("every sequence of calls up to a length over all functions of the counters and all ways to transform, against a model of three variables; every interleaving, up to the order of independent steps, of threads that transform, read, clear, enable or disable, where what the threads saw and the counters at the end must be those of some order of the operations, with std's atomics and threads replaced by ones that a scheduler controls and every load and store watched; no transform's result may depend on being counted");
    c.assume("sequentially consistent memory");
    c.assume("threads disable counting only where nothing is read or cleared meanwhile: a transform that runs while counting ends may be counted late");
    history::<F17>(&c, "every sequence of calls (u32)", c.tier(5, 6));
    history::<F257q>(&c, "every sequence of calls (u64)", c.tier(4, 5));
    sections(&c, &f, (!thorough).then_some(300));
    c.finish()
}
#[global_allocator]
static A: vsched::PointAlloc = vsched::PointAlloc;
