//! C19: gadget and RGSW products multiply the phase.
use algebra::{Basis, FieldDiscreteGaussianSampler};
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::oracle::all_vectors;
use harness::ring::*;
use harness::rngs::*;
use harness::*;
use lattice::*;

/// digits of every coefficient, least significant first
fn digits(p: &[u64], bits: u32, len: usize) -> Vec<Vec<u64>> {
    (0..len as u32).map(|i| p.iter().map(|c| (*c as u128 >> (i * bits) & ((1u128 << bits) - 1)) as u64).collect()).collect()
}
/// sum of digit_i(p) * row_i
fn combine(p: &[u64], bits: u32, rows: &[Rc], q: u64) -> Rc {
    let n = p.len();
    let mut r = (vec![0; n], vec![0; n]);
    for (d, row) in digits(p, bits, rows.len()).iter().zip(rows) {
        r.0 = vadd(&r.0, &mulp(&row.0, d, q), q);
        r.1 = vadd(&r.1, &mulp(&row.1, d, q), q);
    }
    r
}
/// phase of the combination: sum of digit_i(p) * phase_i
fn combine_phase(p: &[u64], bits: u32, phases: &[Vec<u64>], q: u64) -> Vec<u64> {
    digits(p, bits, phases.len()).iter().zip(phases).fold(vec![0; p.len()], |r, (d, f)| vadd(&r, &mulp(f, d, q), q))
}
/// Encrypts m*B^i with noise e_i under key s.
fn rows(q: u64, s: &[u64], m: &[u64], bits: u32, len: usize, noise: u64, mix: &mut Mix) -> Vec<Rc> {
    let n = s.len();
    let mut pw = 1u128;
    (0..len)
        .map(|_| {
            let a: Vec<u64> = (0..n).map(|_| mix.next() % q).collect();
            let e: Vec<u64> = (0..n).map(|_| if noise == 0 { 0 } else { (mix.next() % (2 * noise + 1) + q - noise) % q }).collect();
            let b = vadd(&vadd(&mulp(&a, s, q), &vscal(m, (pw % q as u128) as u64, q), q), &e, q);
            pw = (pw << bits) % (q as u128).max(1);
            (a, b)
        })
        .collect()
}
fn gad<F: Fld>(r: &[Rc], b: Basis<F>) -> GadgetRLWE<F> {
    GadgetRLWE::new(r.iter().map(rl::<F>).collect(), b)
}
fn ngad<F: Fld>(r: &[Rc], b: Basis<F>) -> NTTGadgetRLWE<F> {
    NTTGadgetRLWE::new(r.iter().map(nrl::<F>).collect(), b)
}
fn ungad<F: Fld>(g: &GadgetRLWE<F>) -> Vec<Rc> {
    g.iter().map(unrl).collect()
}
fn unngad<F: Fld>(g: &NTTGadgetRLWE<F>) -> Vec<Rc> {
    g.iter().map(unnrl).collect()
}
fn show(v: &[u64]) -> Vec<u64> {
    v.iter().take(12).copied().collect()
}

/// Scratch space that held something else before.
struct Scratch<F: Fld> {
    d: DecompositionSpace<F>,
    p: PolynomialSpace<F>,
    m: NTTRLWESpace<F>,
    out: RLWE<F>,
    nout: NTTRLWE<F>,
}
impl<F: Fld> Scratch<F> {
    fn new(n: usize, dirt: u64) -> Self {
        let mut s = Scratch { d: DecompositionSpace::new(n), p: PolynomialSpace::new(n), m: NTTRLWESpace::new(n), out: RLWE::zero(n), nout: NTTRLWE::zero(n) };
        let v = fe::<F>(dirt);
        s.d.get_mut().as_mut_slice().fill(v);
        s.p.get_mut().as_mut_slice().fill(v);
        s.m.get_mut().a_mut_slice().fill(v);
        s.m.get_mut().b_mut_slice().fill(v);
        s.out.a_mut_slice().fill(v);
        s.out.b_mut_slice().fill(v);
        s.nout.a_mut_slice().fill(v);
        s.nout.b_mut_slice().fill(v);
        s
    }
}

macro_rules! eq {
    ($s:expr, $t:expr, $name:expr, $desc:expr, $q:expr, $key:expr, $want:expr; $($form:expr),* $(,)?) => {{
        let want: &[Vec<u64>] = &$want;
        $(
            let z: Rc = $form;
            $t.evals += 1;
            let got = rphase(&z, $key, $q);
            if !want.contains(&got) || z.0.iter().chain(&z.1).any(|x| *x >= $q) {
                $s.fail(format!("{} `{}` {}", $name, stringify!($form).split_whitespace().collect::<Vec<_>>().join(" "), $desc), format!("key {:?}: phase {:?}, want {:?}", show($key), show(&got), show(&want[0])));
            }
        )*
    }};
}

/// All gadget products of the gadget `r` (rows) with p, added to or subtracted from c.
fn gadget<F: Fld>(s: &Sec, t: &mut Tally, b: Basis<F>, key: &[u64], r: &[Rc], p: &[u64], c: &Rc, sc: &mut Scratch<F>, desc: &str) {
    let q = fq::<F>();
    let bits = b.bits();
    let ph: Vec<Vec<u64>> = r.iter().map(|r| rphase(r, key, q)).collect();
    let prod = combine_phase(p, bits, &ph, q);
    let cp = rphase(c, key, q);
    let sum = vadd(&cp, &prod, q);
    // subtracting the digits of p, or adding those of -p
    let diff = vsub(&cp, &prod, q);
    let diff2 = vadd(&cp, &combine_phase(&vneg(p, q), bits, &ph, q), q);
    let (g, ng, x, c1, nc) = (gad::<F>(r, b), ngad::<F>(r, b), poly::<F>(p), rl::<F>(c), nrl::<F>(c));
    let desc = format!("{desc} p={:?} c={:?}", show(p), (show(&c.0), show(&c.1)));
    eq!(s, t, "gadget product", desc, q, key, [prod.clone()];
        unrl(&g.mul_polynomial(&x)),
        unnrl(&ng.mul_polynomial(&x)),
        unnrl(&NTTGadgetRLWE::<F>::from(g.clone()).mul_polynomial(&x)),
        { ng.mul_polynomial_inplace(&x, &mut sc.d, &mut sc.p, &mut sc.nout); unnrl(&sc.nout) },
        { ng.mul_polynomial_inplace_fast(&x, &mut sc.d, &mut sc.p, &mut sc.nout); unnrl(&sc.nout) },
    );
    eq!(s, t, "adding a gadget product", desc, q, key, [sum.clone()];
        unrl(&g.mul_polynomial_add_rlwe(&x, c1.clone())),
        unrl(&c1.clone().add_gadget_rlwe_mul_polynomial(&g, &x)),
        unnrl(&nc.clone().add_gadget_rlwe_mul_polynomial(&ng, &x)),
        { let mut z = nc.clone(); z.add_assign_gadget_rlwe_mul_polynomial(&ng, &x, &mut sc.d, &mut sc.p); unnrl(&z) },
        { let mut z = nc.clone(); z.add_assign_gadget_rlwe_mul_polynomial_fast(&ng, &x, &mut sc.d, &mut sc.p); unnrl(&z) },
        { let mut z = nc.clone(); z.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut x.clone(), &mut sc.d); unnrl(&z) },
    );
    eq!(s, t, "subtracting a gadget product", desc, q, key, [diff, diff2];
        { let mut z = nc.clone(); z.sub_assign_gadget_rlwe_mul_polynomial_inplace(&ng, x.clone(), &mut sc.d); unnrl(&z) },
        { let mut z = nc.clone(); z.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&ng, &mut x.clone(), &mut sc.d); unnrl(&z) },
    );
    // twice, on the lazily reduced result of the first
    eq!(s, t, "adding twice", desc, q, key, [vadd(&sum, &prod, q)];
        { let mut z = nc.clone(); for _ in 0..2 { z.add_assign_gadget_rlwe_mul_polynomial_fast(&ng, &x, &mut sc.d, &mut sc.p) } unnrl(&z) },
    );
    t.distinct += 1;
}

/// All products of the RLWE ciphertext c with the RGSW ciphertext (r0, r1).
fn rgsw<F: Fld>(s: &Sec, t: &mut Tally, b: Basis<F>, key: &[u64], r0: &[Rc], r1: &[Rc], c: &Rc, exact: Option<&[u64]>, sc: &mut Scratch<F>, desc: &str) {
    let q = fq::<F>();
    let bits = b.bits();
    let ph = |r: &[Rc]| r.iter().map(|r| rphase(r, key, q)).collect::<Vec<_>>();
    let want = vadd(&combine_phase(&c.0, bits, &ph(r0), q), &combine_phase(&c.1, bits, &ph(r1), q), q);
    if let Some(m) = exact {
        // without noise this is m times the phase: the reference agrees with the specification
        assert_eq!(want, mulp(&rphase(c, key, q), m, q));
    }
    let g = RGSW::new(gad::<F>(r0, b), gad::<F>(r1, b));
    let ng = NTTRGSW::new(ngad::<F>(r0, b), ngad::<F>(r1, b));
    let x = rl::<F>(c);
    let desc = format!("{desc} c={:?}", (show(&c.0), show(&c.1)));
    eq!(s, t, "external product", desc, q, key, [want.clone()];
        unrl(&x.mul_rgsw(&g)),
        unrl(&x.mul_ntt_rgsw(&ng)),
        unrl(&x.mul_ntt_rgsw(&NTTRGSW::from(g.clone()))),
        unrl(&x.mul_ntt_rgsw(&NTTRGSW::from_ref(ng.c_neg_s_m(), ng.c_m()))),
        unrl(&x.mul_rgsw(&RGSW::from((g.c_neg_s_m().clone(), g.c_m().clone())))),
        { let mut z = x.clone(); z.mul_assign_ntt_rgsw(&ng, &mut sc.d, &mut sc.p, &mut sc.m); unrl(&z) },
        { x.mul_ntt_rgsw_inplace(&ng, &mut sc.d, &mut sc.p, &mut sc.m, &mut sc.out); unrl(&sc.out) },
    );
    t.distinct += 1;
}

/// Sums, products and scalings of whole RGSW ciphertexts.
fn rgsw_ops<F: Fld>(s: &Sec, t: &mut Tally, b: Basis<F>, key: &[u64], x: (&[Rc], &[Rc]), y: (&[Rc], &[Rc]), p: &[u64], desc: &str) {
    let q = fq::<F>();
    let n = key.len();
    let bits = b.bits();
    let mk = |v: (&[Rc], &[Rc])| RGSW::new(gad::<F>(v.0, b), gad::<F>(v.1, b));
    let nmk = |v: (&[Rc], &[Rc])| NTTRGSW::new(ngad::<F>(v.0, b), ngad::<F>(v.1, b));
    let ph = |r: &[Rc]| r.iter().map(|r| rphase(r, key, q)).collect::<Vec<_>>();
    let un = |g: &RGSW<F>| (ph(&ungad(g.c_neg_s_m())), ph(&ungad(g.c_m())));
    let nun = |g: &NTTRGSW<F>| (ph(&unngad(g.c_neg_s_m())), ph(&unngad(g.c_m())));
    let zip = |f: &dyn Fn(&[u64], &[u64]) -> Vec<u64>| -> (Vec<Vec<u64>>, Vec<Vec<u64>>) {
        let z = |a: &[Rc], b: &[Rc]| ph(a).iter().zip(ph(b)).map(|(a, b)| f(a, &b)).collect();
        (z(x.0, y.0), z(x.1, y.1))
    };
    let (gx, gy, nx, ny) = (mk(x), mk(y), nmk(x), nmk(y));
    let junk: Vec<Rc> = vec![(vec![q - 1; n], vec![q / 2; n]); b.decompose_len()];
    let dirty = || mk((&junk, &junk));
    let ndirty = || { let g = NTTGadgetRLWE::new(junk.iter().map(|c| NTTRLWE::new(npoly(&c.0), npoly(&c.1))).collect(), b); NTTRGSW::new(g.clone(), g) };
    let np = tr::<F>(p);
    let (mut d, mut nd) = (dirty(), ndirty());
    gx.add_inplace(&gy, &mut d);
    nx.add_inplace(&ny, &mut nd);
    let w = zip(&|a, b| vadd(a, b, q));
    ck!(s, format!("RGSW sum {desc}"), [p], (un(&d) == w, nun(&nd) == w), (true, true));
    let (mut d, mut nd) = (dirty(), ndirty());
    gx.sub_inplace(&gy, &mut d);
    nx.sub_inplace(&ny, &mut nd);
    let w = zip(&|a, b| vsub(a, b, q));
    ck!(s, format!("RGSW difference {desc}"), [p], (un(&d) == w, nun(&nd) == w), (true, true));
    let mut nd = ndirty();
    nx.add_ntt_rgsw_mul_ntt_polynomial_inplace(&ny, &np, &mut nd);
    ck!(s, format!("RGSW plus polynomial times RGSW {desc}"), [p], nun(&nd) == zip(&|a, b| vadd(a, &mulp(b, p, q), q)), true);
    // the two halves, one by one, through the gadget and the accessors
    let (mut d, mut nd) = (dirty(), ndirty());
    *d.c_neg_s_m_mut() = gx.c_m().clone();
    d.c_m_mut().iter_mut().zip(gx.c_neg_s_m().iter()).for_each(|(d, x)| *d = x.clone());
    nx.c_neg_s_m().add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(ny.c_neg_s_m(), &np, nd.c_m_mut());
    nx.c_m().add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(ny.c_m(), &np, nd.c_neg_s_m_mut());
    let w = zip(&|a, b| vadd(a, &mulp(b, p, q), q));
    ck!(s, format!("RGSW halves {desc}"), [p], (un(&d) == (ph(x.1), ph(x.0)), nun(&nd) == (w.1, w.0)), (true, true));
    let mut nd = nx.clone();
    nd.mul_ntt_polynomial_assign(&np);
    ck!(s, format!("RGSW times polynomial {desc}"), [p], nun(&nd) == zip(&|a, _| mulp(a, p, q)), true);
    // product of two RGSW ciphertexts: every row of x times y
    let row = |r: &Rc| vadd(&combine_phase(&r.0, bits, &ph(y.0), q), &combine_phase(&r.1, bits, &ph(y.1), q), q);
    let w: (Vec<_>, Vec<_>) = (x.0.iter().map(row).collect(), x.1.iter().map(row).collect());
    ck!(s, format!("RGSW product {desc}"), [p], (un(&gx.mul_small_rgsw(&gy)) == w, un(&gx.mul_small_ntt_rgsw(&ny)) == w), (true, true));
    let mut z = nx.clone();
    z.set_zero();
    let zero = vec![(vec![0u64; n], vec![0u64; n]); b.decompose_len()];
    let raw = |g: &NTTRGSW<F>| [g.c_neg_s_m(), g.c_m()].map(|g| g.iter().map(|r| (nvals(r.a()), nvals(r.b()))).collect::<Vec<_>>());
    let zz = NTTRGSWSpace::<F>::new(n, b);
    ck!(s, format!("RGSW zero {desc}"), [p], raw(&z) == [zero.clone(), zero.clone()] && raw(&NTTRGSW::zero(n, b)) == [zero.clone(), zero.clone()] && raw(zz.get()) == [zero.clone(), zero], true);
    ck!(s, format!("RGSW basis {desc}"), [p], (gx.basis().bits(), nx.basis().bits(), gx.c_m().data().len()), (bits, bits, b.decompose_len()));
    t.evals += 9;
    t.distinct += 1;
}

/// Generated gadget and RGSW samples encrypt what they say.
fn samples<F: Fld>(s: &Sec, t: &mut Tally, n: usize, seeds: u64, every: u32) {
    let q = fq::<F>();
    let quiet = FieldDiscreteGaussianSampler::new(0., 1e-9).unwrap();
    let noisy = FieldDiscreteGaussianSampler::new(0., 0.5).unwrap();
    let pbits = 64 - q.leading_zeros();
    let sks: Vec<Vec<u64>> = vec![(0..n).map(|i| [1, q - 1, 0, 1][i % 4]).collect(), (0..n as u64).map(|i| (i * 5 + q / 3) % q).collect()];
    for bits in (1..=pbits).step_by(every as usize) {
        let b = Basis::<F>::new(bits);
        let len = b.decompose_len();
        for sk in &sks {
            let key = tr::<F>(sk);
            for seed in 0..seeds {
                cur(&[q, n as u64, bits as u64, seed]);
                for (noise, sm) in [(0, quiet), (3, noisy)] {
                    let rng = || DetRng(seed.wrapping_mul(0x9876_5432_10FE_DCBB) + noise);
                    let out: Vec<(&str, u8, Vec<Rc>)> = vec![
                        ("gadget of zero", 0, ungad(&GadgetRLWE::<F>::generate_random_zero_sample(&key, b, sm, &mut rng()))),
                        ("gadget of one", 1, ungad(&GadgetRLWE::<F>::generate_random_one_sample(&key, b, sm, &mut rng()))),
                        ("gadget of -s", 2, ungad(&GadgetRLWE::<F>::generate_random_neg_secret_sample(&key, b, sm, &mut rng()))),
                        ("transformed gadget of zero", 0, unngad(&NTTGadgetRLWE::<F>::generate_random_zero_sample(&key, b, sm, &mut rng()))),
                        ("transformed gadget of one", 1, unngad(&NTTGadgetRLWE::<F>::generate_random_one_sample(&key, b, sm, &mut rng()))),
                        ("transformed gadget of -s", 2, unngad(&NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&key, b, sm, &mut rng()))),
                    ];
                    let z = RGSW::<F>::generate_random_zero_sample(&key, b, sm, &mut rng());
                    let o = RGSW::<F>::generate_random_one_sample(&key, b, sm, &mut rng());
                    let nz = NTTRGSW::<F>::generate_random_zero_sample(&key, b, sm, &mut rng());
                    let no = NTTRGSW::<F>::generate_random_one_sample(&key, b, sm, &mut rng());
                    let all = out.into_iter().chain([
                        ("RGSW of zero, rows of -s", 0, ungad(z.c_neg_s_m())),
                        ("RGSW of zero, rows of 1", 0, ungad(z.c_m())),
                        ("RGSW of one, rows of -s", 2, ungad(o.c_neg_s_m())),
                        ("RGSW of one, rows of 1", 1, ungad(o.c_m())),
                        ("transformed RGSW of zero, rows of -s", 0, unngad(nz.c_neg_s_m())),
                        ("transformed RGSW of zero, rows of 1", 0, unngad(nz.c_m())),
                        ("transformed RGSW of one, rows of -s", 2, unngad(no.c_neg_s_m())),
                        ("transformed RGSW of one, rows of 1", 1, unngad(no.c_m())),
                    ]);
                    for (name, msg, rows) in all {
                        let m = match msg {
                            0 => vec![0; n],
                            1 => mono(n, 0, 1),
                            _ => vneg(sk, q),
                        };
                        if rows.len() != len {
                            s.fail(format!("{name} q={q} n={n} bits={bits}"), format!("{} rows instead of {len}", rows.len()));
                            continue;
                        }
                        let mut masks = std::collections::HashSet::new();
                        for (i, r) in rows.iter().enumerate() {
                            let w = vscal(&m, oracle::pw(2, (bits as usize * i) as u128, q as u128) as u64, q);
                            let e = vsub(&rphase(r, sk, q), &w, q);
                            if e.iter().any(|e| (*e).min(q - *e) > noise) {
                                s.fail(format!("{name} q={q} n={n} bits={bits} row {i} state {seed} noise up to {noise}"), format!("noise {:?}", show(&e)));
                            }
                            masks.insert(r.0.clone());
                            t.evals += 1;
                        }
                        if n > 4 && q > 90 && masks.len() < len {
                            s.fail(format!("{name} q={q} n={n} bits={bits} state {seed}"), "two rows share a mask");
                        }
                    }
                    t.distinct += 1;
                }
            }
        }
    }
}

fn keys_and_messages(q: u64, n: usize) -> (Vec<Vec<u64>>, Vec<Vec<u64>>) {
    let mut k: Vec<Vec<u64>> = vec![(0..n).map(|i| [1, q - 1, 0][i % 3]).collect(), (0..n as u64).map(|i| (i * 3 + q / 2) % q).collect()];
    if n <= 2 {
        k.push(vec![0; n]);
    }
    let mut m = vec![mono(n, 0, 1), mono(n, n - 1, 1), mono(n, n / 2, q - 1), vec![0; n], (0..n as u64).map(|i| (i * 2 + 1) % q).collect()];
    m.dedup();
    (k, m)
}

fn tiny<F: Fld>(s: &Sec, n: usize, cstep: usize) {
    let q = fq::<F>();
    let pbits = 64 - q.leading_zeros();
    let ps = all_vectors(q, n);
    let cs: Vec<Rc> = all_vectors(q, 2 * n).into_iter().map(|v| (v[..n].to_vec(), v[n..].to_vec())).collect();
    let (keys, msgs) = keys_and_messages(q, n);
    let mut jobs = vec![];
    for bits in 1..=pbits {
        for k in &keys {
            for m in &msgs {
                for noise in [0, 1] {
                    jobs.push((bits, k, m, noise));
                }
            }
        }
    }
    s.par(jobs.len(), |i, t| {
        let (bits, key, m, noise) = jobs[i];
        let b = Basis::<F>::new(bits);
        let len = b.decompose_len();
        let mut mix = Mix(i as u64 * 77 + q);
        let r1 = rows(q, key, m, bits, len, noise, &mut mix);
        let r0 = rows(q, key, &vneg(&mulp(key, m, q), q), bits, len, noise, &mut mix);
        let mut sc = Scratch::<F>::new(n, [0, 1, q - 1][i % 3]);
        let desc = format!("q={q} n={n} bits={bits} key={key:?} message={m:?} noise<={noise}");
        for (j, p) in ps.iter().enumerate() {
            cur(&[q, n as u64, bits as u64, i as u64, 0, j as u64]);
            gadget(s, t, b, key, &r1, p, &cs[(j * 13 + i) % cs.len()], &mut sc, &desc);
        }
        for (j, c) in cs.iter().enumerate().skip(i % cstep).step_by(cstep) {
            cur(&[q, n as u64, bits as u64, i as u64, 1, j as u64]);
            rgsw(s, t, b, key, &r0, &r1, c, (noise == 0).then_some(m), &mut sc, &desc);
            if s.stopped() {
                return;
            }
        }
        for (j, m2) in msgs.iter().enumerate() {
            cur(&[q, n as u64, bits as u64, i as u64, 2, j as u64]);
            let y1 = rows(q, key, m2, bits, len, noise, &mut mix);
            let y0 = rows(q, key, &vneg(&mulp(key, m2, q), q), bits, len, noise, &mut mix);
            rgsw_ops(s, t, b, key, (&r0, &r1), (&y0, &y1), &ps[(i * 3 + j) % ps.len()], &desc);
        }
    });
}

fn large<F: Fld>(s: &Sec, n: usize, widths: &[u32]) {
    let q = fq::<F>();
    let (keys, msgs) = keys_and_messages(q, n);
    let cs = rcts(q, n);
    let mut jobs = vec![];
    for &bits in widths {
        for k in &keys {
            for m in &msgs {
                for noise in [0, 3] {
                    jobs.push((bits, k, m, noise));
                }
            }
        }
    }
    s.par(jobs.len(), |i, t| {
        let (bits, key, m, noise) = jobs[i];
        let b = Basis::<F>::new(bits);
        let len = b.decompose_len();
        let mut mix = Mix(i as u64 * 77 + q);
        let r1 = rows(q, key, m, bits, len, noise, &mut mix);
        let r0 = rows(q, key, &vneg(&mulp(key, m, q), q), bits, len, noise, &mut mix);
        let mut sc = Scratch::<F>::new(n, [0, 1, q - 1][i % 3]);
        let desc = format!("q={q} n={n} bits={bits} key={:?} message={:?} noise<={noise}", show(key), show(m));
        for (j, c) in cs.iter().enumerate() {
            cur(&[q, n as u64, bits as u64, i as u64, 0, j as u64]);
            gadget(s, t, b, key, &r1, &c.0, &cs[(j + 1) % cs.len()], &mut sc, &desc);
            gadget(s, t, b, key, &r1, &c.1, c, &mut sc, &desc);
            rgsw(s, t, b, key, &r0, &r1, c, (noise == 0).then_some(m), &mut sc, &desc);
        }
        if n <= 64 && len <= 12 {
            let m2 = &msgs[i % msgs.len()];
            let y1 = rows(q, key, m2, bits, len, noise, &mut mix);
            let y0 = rows(q, key, &vneg(&mulp(key, m2, q), q), bits, len, noise, &mut mix);
            rgsw_ops(s, t, b, key, (&r0, &r1), (&y0, &y1), &cs[i % cs.len()].1, &desc);
        }
    });
}

fn main() {
    let c = Ctx::new("C19", "exploration");
    c.rule("tiny rings: every basis width, several keys and messages with and without row noise, every polynomial, every ciphertext (or a stride), every form, with scratch space left over from the previous product; larger rings: extreme and all-different operands, several widths; generated samples for every width and enumerated generator states");
    c.assume("transformed ciphertexts are built and read with the transform, which C10 checks; the digits are those of the decomposition, which C09 checks");
    let z: Rc = combine(&[1, 0], 1, &[(vec![1, 2], vec![3, 4])], 5);
    assert_eq!(z, (vec![1, 2], vec![3, 4]));
    c.section("tiny rings", "q, n, bits, job, kind, case", |s| {
        tiny::<F5b>(s, 1, 1);
        tiny::<F5b>(s, 2, 1);
        tiny::<F17b>(s, 1, 1);
        tiny::<F13b>(s, 2, c.tier(41, 3));
        tiny::<F17>(s, 2, c.tier(211, 11));
        if c.thorough {
            tiny::<F29b>(s, 2, 10007);
            tiny::<F37b>(s, 2, 30011);
            tiny::<F17q>(s, 2, 31);
        }
        s.sample(|| J::s("q=5 N=2 basis 2: every ciphertext times RGSW(X) under key 1-X"));
    });
    c.section("larger rings", "q, n, bits, job, kind, case", |s| {
        large::<F17>(s, 8, &[1, 2, 3, 4, 5]);
        large::<F97>(s, 16, &[1, 3, 4, 7]);
        large::<F257>(s, 32, &[2, 4, 9]);
        large::<F61b>(s, 2, &[1, 2, 3, 4, 5, 6]);
        large::<F7681h>(s, 32, &[1, 4, 6, 13]);
        large::<F16193h>(s, 8, &[2, 5, 7, 14]);
        large::<F12289>(s, 64, &[3, 7]);
        large::<FTop32>(s, 16, &[1, 5, 8, 11, 15, 30]);
        large::<F60>(s, 16, &[4, 17, 30, 59]);
        large::<FTop64>(s, 16, &[1, 7, 20, 31, 61]);
        large::<DefaultQks>(s, 64, &[2, 5]);
        large::<DefaultFieldU32>(s, 64, &[1, 6, 7, 9, 14, 27]);
        large::<DefaultFieldU32>(s, 256, &[7]);
        large::<DefaultFieldU32>(s, 1024, &[7]);
        s.sample(|| J::s("default field N=64 basis 2^7, all coefficients q-1, scratch filled with q-1"));
    });
    c.section("generated samples", "q, n, bits, state", |s| {
        let k = c.tier(40, 1000);
        s.par(10, |i, t| match i {
            0 => samples::<F5b>(s, t, 1, k, 1),
            1 => samples::<F17>(s, t, 8, k, 1),
            2 => samples::<F97>(s, t, 16, k, 1),
            3 => samples::<F61b>(s, t, 2, k, 1),
            4 => samples::<F16193h>(s, t, 8, k, 1),
            5 => samples::<F7681h>(s, t, 32, k / 4, 1),
            6 => samples::<FTop32>(s, t, 8, k / 4, 1),
            7 => samples::<DefaultFieldU32>(s, t, 32, k / 4, 1),
            8 => samples::<FTop64>(s, t, 8, k / 8, 1),
            _ => samples::<F60>(s, t, 16, k / 8, 3),
        });
        s.sample(|| J::s("FTop32 N=8 basis 2^11, gadget of one"));
    });
    c.finish()
}
