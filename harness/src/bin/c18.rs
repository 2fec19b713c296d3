//! C18: arithmetic, rotation and extraction of RLWE ciphertexts track the phase.
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::oracle::{all_vectors, rotate};
use harness::ring::*;
use harness::rngs::*;
use harness::*;
use lattice::{LWE, NTTRLWE, RLWE};

macro_rules! phases {
    ($s:expr, $t:expr, $name:expr, $q:expr, $keys:expr, $want:expr, [$($op:expr),*]; $($form:expr),*) => {{
        let mut first: Option<Rc> = None;
        let ops = || format!("{:?}", ($(&$op,)*)).chars().take(300).collect::<String>();
        $(
            let z: Rc = $form;
            $t.evals += 1;
            // a form that returns the same ciphertext as the one before needs no second look
            if first.as_ref() != Some(&z) {
                if z.0.iter().chain(&z.1).any(|x| *x >= $q) {
                    $s.fail(format!("{} `{}` not canonical", $name, stringify!($form)), format!("{:?}", z));
                }
                for k in $keys {
                    let want: Vec<u64> = $want(k);
                    let got = rphase(&z, k, $q);
                    if got != want {
                        $s.fail(format!("{} `{}` q={} ({})", $name, stringify!($form), $q, ops()), format!("key {:?}: phase {:?}, want {:?}", head(k), head(&got), head(&want)));
                        break;
                    }
                }
                first = Some(z);
            }
        )*
        let _ = first;
    }};
}
fn head(v: &[u64]) -> &[u64] {
    &v[..v.len().min(16)]
}

fn pair<F: Fld>(s: &Sec, t: &mut Tally, c: &Rc, r: &Rc, keys: &[Vec<u64>]) {
    let q = fq::<F>();
    let n = c.0.len();
    cur(&[q, n as u64, c.0[0], c.1[0], r.0[0], r.1[0]]);
    let (x, y) = (rl::<F>(c), rl::<F>(r));
    let (nx, ny) = (nrl::<F>(c), nrl::<F>(r));
    let asg = |f: &dyn Fn(&mut RLWE<F>)| { let mut z = x.clone(); f(&mut z); unrl(&z) };
    let nasg = |f: &dyn Fn(&mut NTTRLWE<F>)| { let mut z = nx.clone(); f(&mut z); unnrl(&z) };
    let dirty: Rc = (vec![q - 1; n], vec![q / 2; n]);
    let dst = |f: &dyn Fn(&mut RLWE<F>)| { let mut z = rl::<F>(&dirty); f(&mut z); unrl(&z) };
    let ndst = |f: &dyn Fn(&mut NTTRLWE<F>)| { let mut z = NTTRLWE::<F>::new(npoly(&dirty.0), npoly(&dirty.1)); f(&mut z); unnrl(&z) };
    phases!(s, t, "add", q, keys, |k: &[u64]| vadd(&rphase(c, k, q), &rphase(r, k, q), q), [c, r];
        unrl(&x.add_element_wise_ref(&y)), unrl(&x.clone().add_element_wise(&y)),
        asg(&|z| z.add_assign_element_wise(&y)), dst(&|z| x.add_inplace(&y, z)),
        unnrl(&nx.add_element_wise_ref(&ny)), unnrl(&nx.clone().add_element_wise(&ny)),
        nasg(&|z| z.add_element_wise_assign(&ny)), ndst(&|z| nx.add_inplace(&ny, z)),
        asg(&|z| z.add_assign_rhs_mul_monic_monomial(&y, n, 0)));
    phases!(s, t, "sub", q, keys, |k: &[u64]| vsub(&rphase(c, k, q), &rphase(r, k, q), q), [c, r];
        unrl(&x.sub_element_wise_ref(&y)), unrl(&x.clone().sub_element_wise(&y)),
        asg(&|z| z.sub_assign_element_wise(&y)), dst(&|z| x.sub_inplace(&y, z)),
        unnrl(&nx.sub_element_wise_ref(&ny)), unnrl(&nx.clone().sub_element_wise(&ny)),
        nasg(&|z| z.sub_element_wise_assign(&ny)), ndst(&|z| nx.sub_inplace(&ny, z)),
        asg(&|z| z.add_assign_rhs_mul_monic_monomial(&y, n, n)));
    if unrl(&y) != *r || unnrl(&ny) != *r || unrl(&x) != *c || unnrl(&nx) != *c {
        s.fail(format!("operands changed q={q} n={n}"), "");
    }
    t.distinct += 1;
}

/// Multiplication by the polynomial m, and accumulation of such a product.
fn mul<F: Fld>(s: &Sec, t: &mut Tally, c: &Rc, r: &Rc, m: &[u64], keys: &[Vec<u64>]) {
    let q = fq::<F>();
    let n = c.0.len();
    cur(&[q, n as u64, c.0[0], c.1[0], r.0[0], m[0]]);
    let x = rl::<F>(c);
    let (nx, ny, p) = (nrl::<F>(c), nrl::<F>(r), tr::<F>(m));
    let dirty: Rc = (vec![q - 1; n], vec![q / 2; n]);
    let nasg = |f: &dyn Fn(&mut NTTRLWE<F>)| { let mut z = nx.clone(); f(&mut z); unnrl(&z) };
    let ndst = |f: &dyn Fn(&mut NTTRLWE<F>)| { let mut z = NTTRLWE::<F>::new(npoly(&dirty.0), npoly(&dirty.1)); f(&mut z); unnrl(&z) };
    phases!(s, t, "multiply by a polynomial", q, keys, |k: &[u64]| mulp(&rphase(c, k, q), m, q), [c, m];
        ndst(&|z| x.mul_ntt_polynomial_inplace(&p, z)),
        nasg(&|z| z.mul_ntt_polynomial_assign(&p)),
        ndst(&|z| nx.mul_ntt_polynomial_inplace(&p, z)));
    phases!(s, t, "add a product", q, keys, |k: &[u64]| vadd(&rphase(c, k, q), &mulp(&rphase(r, k, q), m, q), q), [c, r, m];
        nasg(&|z| z.add_ntt_rlwe_mul_ntt_polynomial_assign(&ny, &p)),
        nasg(&|z| z.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&ny, &p)),
        ndst(&|z| nx.add_ntt_rlwe_mul_ntt_polynomial_inplace(&ny, &p, z)));
    // the lazy form accumulates on its own output
    phases!(s, t, "add a product three times", q, keys, |k: &[u64]| vadd(&rphase(c, k, q), &mulp(&rphase(r, k, q), &vscal(m, 3 % q, q), q), q), [c, r, m];
        nasg(&|z| for _ in 0..3 { z.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&ny, &p) }),
        nasg(&|z| for _ in 0..3 { z.add_ntt_rlwe_mul_ntt_polynomial_assign(&ny, &p) }));
    t.distinct += 1;
}

/// Conversions between the forms, and resetting.
fn convert<F: Fld>(s: &Sec, t: &mut Tally, c: &Rc, keys: &[Vec<u64>]) {
    let q = fq::<F>();
    let n = c.0.len();
    cur(&[q, n as u64, c.0[0], c.1[0]]);
    let x = rl::<F>(c);
    let nx = nrl::<F>(c);
    let dst = |f: &dyn Fn(&mut RLWE<F>)| { let mut z = rl::<F>(&(vec![q - 1; n], vec![q / 2; n])); f(&mut z); unrl(&z) };
    phases!(s, t, "conversion", q, keys, |k: &[u64]| rphase(c, k, q), [c];
        unrl(&RLWE::<F>::from(nx.clone())), unnrl(&NTTRLWE::<F>::from(x.clone())),
        unrl(&RLWE::<F>::from((poly(&c.0), poly(&c.1)))), unrl(&RLWE::<F>::from((tr::<F>(&c.0), tr::<F>(&c.1)))),
        unnrl(&NTTRLWE::<F>::from((poly(&c.0), poly(&c.1)))),
        unrl(&RLWE::<F>::from_ref(x.a(), x.b())), unnrl(&NTTRLWE::<F>::from_ref(nx.a(), nx.b())),
        dst(&|z| nx.inverse_transform_inplace(z)),
        unrl(&RLWE::<F>::from(NTTRLWE::<F>::from(x.clone()))));
    let zero: Rc = (vec![0; n], vec![0; n]);
    let (mut zx, mut znx) = (x.clone(), nx.clone());
    zx.set_zero();
    znx.set_zero();
    ck!(s, "zero", [q, n], (unrl(&zx), unnrl(&znx), unrl(&RLWE::<F>::zero(n)), unnrl(&NTTRLWE::<F>::zero(n))), (zero.clone(), zero.clone(), zero.clone(), zero));
    ck!(s, "dimension", [q, n], (x.dimension(), nx.dimension()), (n, n));
    let mut y = x.clone();
    let (a, b) = y.a_b_mut();
    std::mem::swap(a, b);
    let swapped: Rc = (c.1.clone(), c.0.clone());
    for how in 0..3 {
        let (mut y, mut ny) = (x.clone(), nx.clone());
        match how {
            0 => {
                let (a, b) = y.a_b_mut_slices();
                a.swap_with_slice(b);
                let (a, b) = ny.a_b_mut_slices();
                a.swap_with_slice(b);
            }
            1 => {
                *y.a_mut() = x.b().clone();
                *y.b_mut() = x.a().clone();
                *ny.a_mut() = nx.b().clone();
                *ny.b_mut() = nx.a().clone();
            }
            _ => {
                y.a_mut_slice().copy_from_slice(x.b_slice());
                y.b_mut_slice().copy_from_slice(x.a_slice());
                ny.a_mut_slice().copy_from_slice(nx.b_slice());
                ny.b_mut_slice().copy_from_slice(nx.a_slice());
            }
        }
        ck!(s, "write in place", [q, n, c, how], (unrl(&y), unnrl(&ny)), (swapped.clone(), swapped.clone()));
    }
    ck!(s, "accessors", [q, n, c], (vals(x.a_slice()), vals(x.b_slice()), unrl(&y)), (c.0.clone(), c.1.clone(), (c.1.clone(), c.0.clone())));
    t.distinct += 1;
}

fn rotations<F: Fld>(s: &Sec, t: &mut Tally, c: &Rc, r: &Rc, keys: &[Vec<u64>], degrees: &[usize]) {
    let q = fq::<F>();
    let n = c.0.len();
    let (x, y) = (rl::<F>(c), rl::<F>(r));
    let base: Vec<(Vec<u64>, Vec<u64>)> = keys.iter().map(|k| (rphase(c, k, q), rphase(r, k, q))).collect();
    let at = |k: &[u64]| base[keys.iter().position(|x| x.as_slice() == k).unwrap()].clone();
    for &d in degrees {
        cur(&[q, n as u64, d as u64, c.0[0], c.1[0]]);
        for dirt in [0, q - 1] {
            let dst = || { let mut z = rl::<F>(&(vec![dirt; n], vec![dirt; n])); x.mul_monic_monomial_sub_one_inplace(n, d, &mut z); unrl(&z) };
            phases!(s, t, "times X^r - 1", q, keys, |k: &[u64]| { let p = at(k).0; vsub(&rotate(&p, d, q), &p, q) }, [d, c]; dst());
        }
        let acc = || { let mut z = x.clone(); z.add_assign_rhs_mul_monic_monomial(&y, n, d); unrl(&z) };
        phases!(s, t, "plus X^r times another", q, keys, |k: &[u64]| { let (p, o) = at(k); vadd(&p, &rotate(&o, d, q), q) }, [d, c, r]; acc());
        t.distinct += 1;
    }
}

fn extraction<F: Fld>(s: &Sec, t: &mut Tally, c: &Rc, keys: &[Vec<u64>], dims: &[usize]) {
    let q = fq::<F>();
    let n = c.0.len();
    let x = rl::<F>(c);
    cur(&[q, n as u64, c.0[0], c.1[0]]);
    let out = |l: LWE<F>| (vals(l.a()), val(l.b()));
    let full = [("extract", out(x.extract_lwe())), ("extract locally", out(x.clone().extract_lwe_locally())), ("extract partial, all", out(x.clone().extract_partial_lwe_locally(n)))];
    let revs = [("extract reverse", out(x.clone().extract_lwe_reverse_locally())), ("extract partial reverse, all", out(x.clone().extract_partial_lwe_reverse_locally(n)))];
    // the key in the order that the reversed extraction needs: s_0, -s_{N-1}, ..., -s_1
    let turn = |k: &[u64]| -> Vec<u64> { (0..n).map(|i| if i == 0 { k[0] } else { (q - k[n - i]) % q }).collect() };
    for k in keys {
        let want = rphase(c, k, q)[0];
        for (name, (a, b)) in &full {
            ck!(s, *name, [q, c, k], (a.len(), lphase(a, *b, k, q)), (n, want));
            t.evals += 1;
        }
        for (name, (a, b)) in &revs {
            ck!(s, *name, [q, c, k], (a.len(), lphase(a, *b, &turn(k), q)), (n, want));
            t.evals += 1;
        }
        for &d in dims {
            cur(&[q, n as u64, c.0[0], c.1[0], d as u64]);
            // a key of which only the first d coefficients are used
            let mut kd = k.clone();
            kd[d..].fill(0);
            let (a, b) = out(x.clone().extract_partial_lwe_locally(d));
            ck!(s, "extract partial", [q, c, d, kd], (a.len(), lphase(&a, b, &kd[..d], q)), (d, rphase(c, &kd, q)[0]));
            // a key whose reversed order vanishes from d on: s_1..s_{N-d} = 0
            let mut kr = k.clone();
            if d < n {
                kr[1..=n - d].fill(0);
            }
            if d == 0 {
                continue;
            }
            let (a, b) = out(x.clone().extract_partial_lwe_reverse_locally(d));
            ck!(s, "extract partial reverse", [q, c, d, kr], (a.len(), lphase(&a, b, &turn(&kr)[..d], q)), (d, rphase(c, &kr, q)[0]));
            t.evals += 2;
        }
    }
    t.distinct += 1;
}

fn fresh<F: Fld>(s: &Sec, t: &mut Tally, n: usize, seeds: u64) {
    let q = fq::<F>();
    let quiet = FieldDiscreteGaussianSampler::new(0., 1e-9).unwrap();
    let noisy = FieldDiscreteGaussianSampler::new(0., 0.5).unwrap();
    let sks: Vec<Vec<u64>> = vec![(0..n).map(|i| [1, 0, q - 1, 1, 0][i % 5]).collect(), (0..n as u64).map(|i| (i * 7 + q / 3) % q).collect()];
    for sk in &sks {
        let key = tr::<F>(sk);
        let mut count = [[0u64; 3]; 3];
        let mut masks = [(); 3].map(|_| std::collections::HashSet::new());
        for seed in 0..seeds {
            cur(&[q, n as u64, seed]);
            let value = [0, 1, q - 1, q / 2][seed as usize % 4];
            for (noise, sampler) in [(false, quiet), (true, noisy)] {
                let rng = || DetRng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) + noise as u64);
                let out = [
                    unrl(&RLWE::<F>::generate_random_zero_sample(&key, sampler, &mut rng())),
                    unnrl(&NTTRLWE::<F>::generate_random_zero_sample(&key, sampler, &mut rng())),
                    unnrl(&NTTRLWE::<F>::generate_random_value_sample(&key, fe(value), sampler, &mut rng())),
                ];
                for (form, c) in out.iter().enumerate() {
                    let mut p = rphase(c, sk, q);
                    if form == 2 {
                        p[0] = (p[0] + q - value) % q;
                    }
                    if !noise {
                        ck!(s, "noiseless sample", [form, q, n, seed], p, vec![0; n]);
                        masks[form].insert(c.0.clone());
                    } else {
                        for e in &p {
                            let m = (*e).min(q - *e);
                            if m > 3 {
                                s.fail(format!("noise of form {form} q={q} n={n} seed={seed}"), format!("{e}"));
                            }
                            count[form][if *e == 0 { 1 } else if *e < q / 2 { 2 } else { 0 }] += 1;
                        }
                    }
                    t.evals += 1;
                }
            }
            t.distinct += 1;
        }
        for form in 0..3 {
            if count[form].contains(&0) {
                s.fail(format!("noise of form {form} q={q} n={n}"), format!("negative, zero, positive noises: {:?}", count[form]));
            }
            if masks[form].len() < (seeds / 2).min((q as f64).powi(n as i32) as u64 / 2).max(2) as usize {
                s.fail(format!("masks of form {form} q={q} n={n}"), format!("{} different masks", masks[form].len()));
            }
        }
    }
}

fn all_cts(q: u64, n: usize) -> Vec<Rc> {
    all_vectors(q, 2 * n).into_iter().map(|v| (v[..n].to_vec(), v[n..].to_vec())).collect()
}

fn small<F: Fld>(s: &Sec, n: usize, step: usize, keycap: f64) {
    let q = fq::<F>();
    let cts = all_cts(q, n);
    let keys = rkeys(q, n, keycap);
    s.par(cts.len(), |i, t| {
        let c = &cts[i];
        for r in cts.iter().step_by(step) {
            pair::<F>(s, t, c, r, &keys);
        }
        for m in all_vectors(q, n).iter().step_by(if step == 1 { 1 } else { step % 7 + 1 }) {
            mul::<F>(s, t, c, &cts[(i * 7 + 3) % cts.len()], m, &keys);
        }
        convert::<F>(s, t, c, &keys);
        rotations::<F>(s, t, c, &cts[(i * 5 + 1) % cts.len()], &keys, &(0..2 * n).collect::<Vec<_>>());
        extraction::<F>(s, t, c, &keys, &(1..=n).collect::<Vec<_>>());
    });
}

fn large<F: Fld>(s: &Sec, n: usize, keys: &[Vec<u64>]) {
    let q = fq::<F>();
    let cts = rcts(q, n);
    s.par(cts.len() * 16, |i, t| {
        let (ci, part) = (i / 16, i % 16);
        let c = &cts[ci];
        if part == 0 {
            for r in &cts {
                pair::<F>(s, t, c, r, keys);
                for m in [&mono(n, 0, 1), &mono(n, n - 1, q - 1), &r.0] {
                    if n <= 128 || m.iter().filter(|x| **x != 0).count() < 3 {
                        mul::<F>(s, t, c, r, m, keys);
                    }
                }
            }
            convert::<F>(s, t, c, keys);
            let dims: Vec<usize> = if n <= 128 { (1..=n).collect() } else { vec![1, 2, 3, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n] };
            extraction::<F>(s, t, c, keys, &dims);
        }
        let degrees: Vec<usize> = (0..2 * n).filter(|d| d % 16 == part).collect();
        rotations::<F>(s, t, c, &cts[(ci + 1) % cts.len()], keys, &degrees);
    });
}

fn main() {
    let c = Ctx::new("C18", "exploration");
    c.rule("tiny rings: every ciphertext (and every second ciphertext, or a stride through them), every polynomial, every rotation, every extraction, under every key; larger rings up to the default dimension: extreme and all-different ciphertexts with every rotation; samples for enumerated generator states");
    c.assume("transformed ciphertexts are built and read with the transform, which C10 checks");
    c.section("every ciphertext of tiny rings", "q, n, a0, b0", |s| {
        small::<F5b>(s, 1, 1, 30.);
        small::<F17b>(s, 1, 1, 30.);
        small::<F17>(s, 1, 7, 20.);
        small::<F5b>(s, 2, 1, 30.);
        small::<F13b>(s, 2, c.tier(4001, 101), 10.);
        if c.thorough {
            small::<F17>(s, 2, 4001, 10.);
            small::<F29b>(s, 1, 1, 30.);
        }
        s.sample(|| J::s("q=5 N=2 a=(1,4) b=(0,3) times X^3 - 1, under every key"));
    });
    c.section("larger rings", "q, n, degree or a0", |s| {
        macro_rules! l { ($($F:ty: $($n:expr),*;)*) => { $( $( large::<$F>(s, $n, &rkeys(fq::<$F>(), $n, 20.)); )* )* } }
        l! { F17: 4, 8; F97: 2, 16; F257: 32, 128; F41b: 4; F97h: 16; F7681h: 64; F12289: 8; F60: 32; FTop64: 16; FTop32: 16; DefaultFieldU32: 64; DefaultQks: 32; }
        l! { DefaultFieldU32: 1024; }
        if c.thorough {
            l! { DefaultFieldU32: 2048; F12289: 1024; DefaultQks: 512; F257q: 128; F60: 1024; }
        }
        s.sample(|| J::s("default field, N=1024, every power below 2048"));
    });
    c.section("fresh samples", "q, n, generator state", |s| {
        let k = c.tier(200, 5000);
        s.par(9, |i, t| match i {
            0 => fresh::<F17>(s, t, 1, k),
            1 => fresh::<F17>(s, t, 8, k),
            2 => fresh::<F97>(s, t, 16, k),
            3 => fresh::<F61b>(s, t, 2, k),
            4 => fresh::<F7681h>(s, t, 16, k),
            5 => fresh::<F12289>(s, t, 32, k),
            6 => fresh::<DefaultFieldU32>(s, t, 64, k),
            7 => fresh::<F60>(s, t, 16, k),
            _ => fresh::<DefaultFieldU32>(s, t, 256, k / 10 + 10),
        });
        s.sample(|| J::s("default field N=64 deviation 0.5 state 7"));
    });
    c.finish()
}
