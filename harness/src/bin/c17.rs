//! C17: arithmetic on LWE ciphertexts tracks arithmetic on the phases.
use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::{reduce::NegReduce, Field};
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::rngs::*;
use harness::*;
use lattice::{DiscreteGaussian, LWE};

/// mask then b
type Ct = Vec<u64>;
fn phase(c: &Ct, s: &[u64], q: u128) -> u64 {
    let n = c.len() - 1;
    let mut p = c[n] as u128 % q;
    for i in 0..n {
        p = (p + q - c[i] as u128 * s[i] as u128 % q) % q;
    }
    p as u64
}
/// Every key that decides equality of two masks: all of them when there are few, else the unit vectors,
/// zero and a mixed one (a difference of phases is affine in the key).
fn keys(q: u128, n: usize) -> Vec<Vec<u64>> {
    if (q as f64).powi(n as i32) <= 80. {
        oracle::all_vectors(q as u64, n)
    } else {
        let mut k = vec![vec![0; n], (0..n).map(|i| ((q - 1) as u64).wrapping_sub(i as u64)).collect()];
        for i in 0..n {
            let mut u = vec![0; n];
            u[i] = 1;
            k.push(u.clone());
            u[i] = (q - 1) as u64;
            k.push(u);
        }
        k
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Neg,
    Scale(u64),
    AddScaled(u64),
}
const FORMS: usize = 3;

/// What the phases must become.
fn model(op: Op, p: u64, r: u64, q: u128) -> u64 {
    let (p, r) = (p as u128, r as u128);
    (match op {
        Op::Add => (p + r) % q,
        Op::Sub => (p + q - r) % q,
        Op::Neg => (q - p) % q,
        Op::Scale(k) => p * k as u128 % q,
        Op::AddScaled(k) => (p + r * k as u128 % q) % q,
    }) as u64
}

macro_rules! lwe {
    ($apply:ident, $zero:ident, $T:ty, $M:ty) => {
        /// Applies form `f` of the operation; None if it has no such form.
        fn $apply(op: Op, f: usize, c: &Ct, r: &Ct, m: $M) -> Option<(Ct, Ct)> {
            let n = c.len() - 1;
            let mk = |c: &Ct| LWE::<$T>::new(c[..n].iter().map(|x| *x as $T).collect(), c[n] as $T);
            let out = |l: &LWE<$T>| l.a().iter().map(|x| *x as u64).chain([l.b() as u64]).collect::<Ct>();
            let (mut x, y) = (mk(c), mk(r));
            let z = match (op, f) {
                (Op::Add, 0) => x.add_reduce_component_wise_ref(&y, m),
                (Op::Add, 1) => x.add_reduce_component_wise(&y, m),
                (Op::Add, 2) => { x.add_reduce_inplace_component_wise(&y, m); x }
                (Op::Sub, 0) => x.sub_reduce_component_wise_ref(&y, m),
                (Op::Sub, 1) => x.sub_reduce_component_wise(&y, m),
                (Op::Sub, 2) => { x.sub_reduce_inplace_component_wise(&y, m); x }
                (Op::Neg, 0) => x.neg_reduce(m),
                (Op::Neg, 1) => { x.neg_reduce_assign(m); x }
                (Op::Scale(k), 0) => { x.scalar_mul_reduce_inplace(k as $T, m); x }
                // through the accessors, component by component
                (Op::Neg, 2) => {
                    x.a_mut().iter_mut().for_each(|v| *v = v.neg_reduce(m));
                    let b = x.b();
                    *x.b_mut() = b.neg_reduce(m);
                    LWE::<$T>::from_ref(x.a(), x.b())
                }
                (Op::AddScaled(k), 0) => { x.add_assign_rhs_mul_scalar_reduce(&y, k as $T, m); x }
                _ => return None,
            };
            Some((out(&z), out(&y)))
        }
        #[allow(dead_code)]
        fn $zero(sk: &[u64], q: u64, m: $M, std: f64, rng: &mut DetRng) -> Ct {
            let s: Vec<$T> = sk.iter().map(|x| *x as $T).collect();
            let g = DiscreteGaussian::<$T>::new(q as $T, 0., std).unwrap();
            let l = LWE::<$T>::generate_random_zero_sample(&s, q as $T, m, g, rng);
            l.a().iter().map(|x| *x as u64).chain([l.b() as u64]).collect()
        }
    };
}
lwe!(b8, zb8, u8, BarrettModulus<u8>);
lwe!(b16, zb16, u16, BarrettModulus<u16>);
lwe!(b32, zb32, u32, BarrettModulus<u32>);
lwe!(b64, zb64, u64, BarrettModulus<u64>);
lwe!(p8, zp8, u8, PowOf2Modulus<u8>);
lwe!(p16, zp16, u16, PowOf2Modulus<u16>);
lwe!(p32, zp32, u32, PowOf2Modulus<u32>);
lwe!(p64, zp64, u64, PowOf2Modulus<u64>);

type App<'a> = dyn Fn(Op, usize, &Ct, &Ct) -> Option<(Ct, Ct)> + Sync + 'a;

/// Runs `f` for every kind of modulus with value q.
fn kinds(q: u64, f: &mut dyn FnMut(&str, &App)) {
    if q < 1 << 6 {
        let m = BarrettModulus::<u8>::new(q as u8);
        f("barrett u8", &move |o, i, c, r| b8(o, i, c, r, m));
    }
    if q < 1 << 14 {
        let m = BarrettModulus::<u16>::new(q as u16);
        f("barrett u16", &move |o, i, c, r| b16(o, i, c, r, m));
    }
    if q < 1 << 30 {
        let m = BarrettModulus::<u32>::new(q as u32);
        f("barrett u32", &move |o, i, c, r| b32(o, i, c, r, m));
    }
    if q < 1 << 62 {
        let m = BarrettModulus::<u64>::new(q);
        f("barrett u64", &move |o, i, c, r| b64(o, i, c, r, m));
    }
    if q.is_power_of_two() {
        if q < 1 << 8 {
            let m = PowOf2Modulus::<u8>::new(q as u8);
            f("pow2 u8", &move |o, i, c, r| p8(o, i, c, r, m));
        }
        if q < 1 << 16 {
            let m = PowOf2Modulus::<u16>::new(q as u16);
            f("pow2 u16", &move |o, i, c, r| p16(o, i, c, r, m));
        }
        if q < 1 << 32 {
            let m = PowOf2Modulus::<u32>::new(q as u32);
            f("pow2 u32", &move |o, i, c, r| p32(o, i, c, r, m));
        }
        let m = PowOf2Modulus::<u64>::new(q);
        f("pow2 u64", &move |o, i, c, r| p64(o, i, c, r, m));
    }
}

fn check(s: &Sec, t: &mut Tally, kind: &str, app: &App, q: u128, ks: &[Vec<u64>], op: Op, c: &Ct, r: &Ct) -> Option<Ct> {
    let mut first = None;
    for f in 0..FORMS {
        cur(&[q as u64, c.len() as u64 - 1, c[0], r[0], f as u64]);
        let Some((z, y)) = app(op, f, c, r) else { continue };
        t.evals += 1;
        if y != *r {
            s.fail(format!("{kind} q={q} {op:?} form {f}"), "the right operand changed");
        }
        if z.len() != c.len() || z.iter().any(|x| *x as u128 >= q) {
            s.fail(format!("{kind} q={q} {op:?} form {f} c={c:?} r={r:?}"), format!("malformed result {z:?}"));
            return None;
        }
        for k in ks {
            let w = model(op, phase(c, k, q), phase(r, k, q), q);
            ck!(s, "phase", [kind, q, op, f, c, r, k], phase(&z, k, q), w);
        }
        first = Some(z);
    }
    first
}

fn field_forms<F: Field<Value: V>>(s: &Sec, t: &mut Tally, cts: &[Ct]) {
    let q = fq::<F>() as u128;
    for c in cts {
        for r in cts {
            let n = c.len() - 1;
            cur(&[q as u64, n as u64, c[0], r[0]]);
            let mk = |c: &Ct| LWE::<F>::new(fes(&c[..n]), fe(c[n]));
            let out = |l: &LWE<F>| l.a().iter().map(|x| val(*x)).chain([val(l.b())]).collect::<Ct>();
            let (x, y) = (mk(c), mk(r));
            let mut a3 = x.clone();
            a3.add_inplace_component_wise(&y);
            let mut s3 = x.clone();
            s3.sub_inplace_component_wise(&y);
            let adds = [x.add_component_wise_ref(&y), x.clone().add_component_wise(&y), a3];
            let subs = [x.sub_component_wise_ref(&y), x.clone().sub_component_wise(&y), s3];
            for k in keys(q, n) {
                let (p, r1) = (phase(c, &k, q), phase(r, &k, q));
                for f in 0..3 {
                    ck!(s, "field add", [q, f, c, r, k], phase(&out(&adds[f]), &k, q), model(Op::Add, p, r1, q));
                    ck!(s, "field sub", [q, f, c, r, k], phase(&out(&subs[f]), &k, q), model(Op::Sub, p, r1, q));
                }
            }
            ck!(s, "field operand unchanged", [q, c, r], (out(&x), out(&y)), (c.clone(), r.clone()));
            t.evals += 6;
            t.distinct += 1;
        }
    }
}

fn main() {
    let c = Ctx::new("C17", "exploration");
    c.rule("every pair of ciphertexts, every scalar and every secret key for small moduli (Barrett and power of two, all word sizes); boundary components at boundary moduli; every sequence of operations up to a depth; samples for enumerated generator states");
    c.section("every pair, small moduli", "q, n, c0, r0, form", |s| {
        let cap = c.tier(520u64, 5000);
        let dims: Vec<(u64, usize)> = (2..=c.tier(9u64, 17)).flat_map(|q| (0..5usize).map(move |n| (q, n))).filter(|(q, n)| q.pow(*n as u32 + 1) <= cap).collect();
        s.par(dims.len(), |i, t| {
            let (q, n) = dims[i];
            let cts = oracle::all_vectors(q, n + 1);
            let ks = keys(q as u128, n);
            kinds(q, &mut |kind, app| {
                for a in &cts {
                    tick();
                    for k in 0..q {
                        check(s, t, kind, app, q as u128, &ks, Op::Scale(k), a, a);
                    }
                    check(s, t, kind, app, q as u128, &ks, Op::Neg, a, a);
                    // all right operands while there are few, else those on a lattice that meets every component value
                    let step = (cts.len() / 130).max(1);
                    for b in cts.iter().step_by(if step > 1 { step | 1 } else { 1 }) {
                        check(s, t, kind, app, q as u128, &ks, Op::Add, a, b);
                        check(s, t, kind, app, q as u128, &ks, Op::Sub, a, b);
                        for k in [0, 1, q - 1, q / 2] {
                            check(s, t, kind, app, q as u128, &ks, Op::AddScaled(k), a, b);
                        }
                        t.distinct += 1;
                    }
                }
            });
        });
        s.sample(|| J::s("q=5 n=1 a=(3;4) minus (4;1), under every key"));
    });
    c.section("boundary components", "q, n, c0, r0, form", |s| {
        let mut qs = vec![31u64, 32, 61, 63, 64, 128, 509, 512, 1024, 2048, 12289, 16383, 16384, 32768, 132120577, 65536, (1 << 30) - 1, (1 << 29) + 3, 1 << 31, 1 << 32];
        qs.extend([(1u64 << 62) - 1, (1 << 62) - 57, 1 << 61, 1 << 63, (1 << 31) + 11, 1152921504606830593]);
        s.par(qs.len(), |i, t| {
            let q = qs[i];
            let vs = [0, 1, 2, q / 2, q / 2 + 1, q - 2, q - 1, q / 3];
            for n in 1..=2usize {
                let cts: Vec<Ct> = oracle::all_vectors(if n == 1 { 8 } else { 4 }, n + 1).into_iter().map(|v| v.iter().map(|j| vs[*j as usize * if n == 1 { 1 } else { 2 } + (n - 1)]).collect()).collect();
                let ks = keys(q as u128, n);
                kinds(q, &mut |kind, app| {
                    for a in &cts {
                        for k in vs {
                            check(s, t, kind, app, q as u128, &ks, Op::Scale(k), a, a);
                        }
                        check(s, t, kind, app, q as u128, &ks, Op::Neg, a, a);
                        for b in &cts {
                            check(s, t, kind, app, q as u128, &ks, Op::Add, a, b);
                            check(s, t, kind, app, q as u128, &ks, Op::Sub, a, b);
                            for k in [1, q - 1, q / 2 + 1] {
                                check(s, t, kind, app, q as u128, &ks, Op::AddScaled(k), a, b);
                            }
                            t.distinct += 1;
                        }
                    }
                });
            }
        });
        s.sample(|| J::s("q=2^62-1, components q-1 and q/2"));
    });
    c.section("lengths", "q, n", |s| {
        s.par(70, |n, t| {
            for q in [16u64, 61, 1024, 12289] {
                let a: Ct = (0..=n as u64).map(|i| (i * i * 7 + 3 * i + 5) % q).collect();
                let b: Ct = (0..=n as u64).map(|i| (q - 1 + q - (i * 5) % q) % q).collect();
                // an error in one component shows under the unit key of that component
                let ks: Vec<Vec<u64>> = (0..=n).map(|j| (0..n).map(|i| (i == j) as u64).collect()).collect();
                kinds(q, &mut |kind, app| {
                    for op in [Op::Add, Op::Sub, Op::Neg, Op::Scale(q - 3), Op::AddScaled(q - 2)] {
                        check(s, t, kind, app, q as u128, &ks, op, &a, &b);
                        t.distinct += 1;
                    }
                });
            }
        });
    });
    c.section("key lengths", "q, n", |s| {
        let jobs: Vec<(u64, usize)> = [16u64, 61, 1024, 12289, 1 << 14, 132120577, (1 << 62) - 57, 1 << 61]
            .into_iter()
            .flat_map(|q| [127usize, 128, 500, 512, 1000, 1023, 1024, 1025, 2048, 4096].map(|n| (q, n)))
            .collect();
        s.par(jobs.len(), |i, t| {
            let (q, n) = jobs[i];
            cur(&[q, n as u64]);
            let mut mix = Mix(q ^ n as u64);
            let mut fill = |k: u64| -> Ct {
                (0..=n as u64).map(|i| match k {
                    0 => q - 1,
                    1 => (q / 2).wrapping_add(i & 1) % q,
                    2 => i % q,
                    _ => mix.next() % q,
                }).collect()
            };
            let cts: Vec<Ct> = (0..5).map(&mut fill).collect();
            // two keys of unrelated entries, and the unit keys of the first, middle and last component
            let mut ks: Vec<Vec<u64>> = (3..5).map(|k| fill(k)[..n].to_vec()).collect();
            ks.push(vec![0; n]);
            for j in [0, n / 2, n - 1] {
                ks.push((0..n).map(|i| (i == j) as u64).collect());
            }
            kinds(q, &mut |kind, app| {
                for (j, a) in cts.iter().enumerate() {
                    let b = &cts[(j * 2 + 1) % 5];
                    for op in [Op::Add, Op::Sub, Op::Neg, Op::Scale(q - 3), Op::AddScaled(q - 2), Op::AddScaled(1)] {
                        check(s, t, kind, app, q as u128, &ks, op, a, b);
                        t.distinct += 1;
                    }
                }
            });
        });
        s.sample(|| J::s("q=1024 n=1024, all components q-1"));
    });
    c.section("sequences of operations", "q, n, c0, r0, form", |s| {
        let qs = [2u64, 5, 8, 12, 16];
        s.par(qs.len(), |i, t| {
            let q = qs[i];
            let n = 2;
            let ks = keys(q as u128, n);
            let starts: Vec<(Ct, Ct)> = vec![(vec![1, 0, q - 1], vec![q - 1, 1, 1]), (vec![q / 2, q - 1, 0], vec![1, 1, q / 2])];
            let ops = [Op::Add, Op::Sub, Op::Neg, Op::Scale(q - 1), Op::Scale(2 % q), Op::AddScaled(q - 1), Op::AddScaled(3 % q)];
            kinds(q, &mut |kind, app| {
                for (x, y) in &starts {
                    // state: the two registers; each operation acts on either of them
                    let mut seen = std::collections::HashSet::from([(x.clone(), y.clone())]);
                    let mut level = vec![(x.clone(), y.clone())];
                    for _ in 0..c.tier(4, 6) {
                        let mut next = vec![];
                        for (x, y) in level {
                            for op in ops {
                                for swap in [false, true] {
                                    let (a, b) = if swap { (&y, &x) } else { (&x, &y) };
                                    let Some(z) = check(s, t, kind, app, q as u128, &ks, op, a, b) else { continue };
                                    let st = if swap { (x.clone(), z) } else { (z, y.clone()) };
                                    if seen.insert(st.clone()) {
                                        next.push(st);
                                        t.distinct += 1;
                                    }
                                }
                            }
                        }
                        level = next;
                        if seen.len() > 60_000 {
                            break;
                        }
                    }
                }
            });
        });
    });
    c.section("field components", "q, n, c0, r0", |s| {
        s.par(8, |i, t| match i {
            0 => field_forms::<F2b>(s, t, &oracle::all_vectors(2, 4)),
            1 => field_forms::<F5b>(s, t, &oracle::all_vectors(5, 3)),
            2 => field_forms::<F17b>(s, t, &oracle::all_vectors(17, 2)),
            j => {
                let vs: Vec<u64> = (0..8).collect();
                let pick = |q: u64| oracle::all_vectors(8, 2).iter().map(|v| v.iter().map(|j| [0, 1, 2, q / 2, q / 2 + 1, q - 2, q - 1, q / 3][vs[*j as usize] as usize]).collect()).collect::<Vec<Ct>>();
                match j {
                    3 => field_forms::<F7681h>(s, t, &pick(7681)),
                    4 => field_forms::<DefaultFieldU32>(s, t, &pick(fq::<DefaultFieldU32>())),
                    5 => field_forms::<DefaultQks>(s, t, &pick(fq::<DefaultQks>())),
                    6 => field_forms::<F60>(s, t, &pick(fq::<F60>())),
                    _ => field_forms::<FTop64>(s, t, &pick(fq::<FTop64>())),
                }
            }
        });
    });
    c.section("fresh samples of zero", "q, n, generator state", |s| {
        let seeds = c.tier(2000u64, 50_000);
        let qs = [16u64, 31, 32, 61, 64, 512, 1021, 2048, 12289, 16384, 132120577, 1 << 31, (1 << 62) - 57, 1 << 61];
        s.par(qs.len(), |i, t| {
            let q = qs[i];
            let mut go = |kind: &str, gen: &dyn Fn(&[u64], f64, &mut DetRng) -> Ct| {
                for n in [0usize, 1, 2, 5, 16, 33] {
                    let sks: Vec<Vec<u64>> = vec![(0..n).map(|i| [0, 1, q - 1][i % 3]).collect(), (0..n).map(|i| (i as u64 * 3 + q / 2) % q).collect()];
                    for sk in &sks {
                        let (mut low, mut high, mut zero) = (0u64, 0u64, 0u64);
                        let mut masks = std::collections::HashSet::new();
                        for seed in 0..seeds / 10 {
                            cur(&[q, n as u64, seed]);
                            // deviation so small that the noise is zero: the phase is exactly zero
                            let z = gen(sk, 1e-9, &mut DetRng(seed));
                            ck!(s, "noiseless sample", [kind, q, n, seed, sk], (z.len(), phase(&z, sk, q as u128)), (n + 1, 0));
                            // deviation 0.5: the noise is at most 3
                            let z = gen(sk, 0.5, &mut DetRng(seed ^ 0xABCD_0000));
                            let p = phase(&z, sk, q as u128);
                            let m = p.min(q - p);
                            if m > 3 || z.len() != n + 1 || z.iter().any(|x| *x >= q) {
                                s.fail(format!("noisy sample {kind} q={q} n={n} seed={seed}"), format!("phase {p}"));
                            }
                            masks.insert(z[..n].to_vec());
                            match p {
                                0 => zero += 1,
                                _ if p < q / 2 => high += 1,
                                _ => low += 1,
                            }
                            t.evals += 2;
                        }
                        // all outcomes of the rounding occur, so the noise is neither dropped nor one-sided
                        if low == 0 || high == 0 || zero == 0 {
                            s.fail(format!("noise of samples {kind} q={q} n={n}"), format!("negative {low}, zero {zero}, positive {high}"));
                        }
                        if n > 0 && masks.len() < 10 {
                            s.fail(format!("masks of samples {kind} q={q} n={n}"), "the masks do not vary");
                        }
                        t.distinct += masks.len() as u64;
                    }
                }
            };
            if q < 64 {
                go("barrett u8", &|k, d, r| zb8(k, q, BarrettModulus::<u8>::new(q as u8), d, r));
            }
            if q < 1 << 14 {
                go("barrett u16", &|k, d, r| zb16(k, q, BarrettModulus::<u16>::new(q as u16), d, r));
            }
            if q < 1 << 30 {
                go("barrett u32", &|k, d, r| zb32(k, q, BarrettModulus::<u32>::new(q as u32), d, r));
            }
            if q < 1 << 62 {
                go("barrett u64", &|k, d, r| zb64(k, q, BarrettModulus::<u64>::new(q), d, r));
            }
            if q.is_power_of_two() {
                if q < 1 << 8 {
                    go("pow2 u8", &|k, d, r| zp8(k, q, PowOf2Modulus::<u8>::new(q as u8), d, r));
                }
                if q < 1 << 16 {
                    go("pow2 u16", &|k, d, r| zp16(k, q, PowOf2Modulus::<u16>::new(q as u16), d, r));
                }
                if q < 1 << 32 {
                    go("pow2 u32", &|k, d, r| zp32(k, q, PowOf2Modulus::<u32>::new(q as u32), d, r));
                }
                go("pow2 u64", &|k, d, r| zp64(k, q, PowOf2Modulus::<u64>::new(q), d, r));
            }
        });
        s.sample(|| J::s("q=512 n=16 deviation 0.5 seed 7"));
    });
    c.finish()
}
