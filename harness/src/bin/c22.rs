//! C22: ring-based key switching of every ciphertext of toy dimensions, for every LWE dimension.
use fhe_core::KeySwitchingRLWEKey;
use harness::fields::*;
use harness::oracle::all_vectors;
use harness::ring::{lphase, rl, rphase0, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use lattice::LWE;

/// Inputs of n masks and m bodies: all while at most `cap`, else pairs of positions with boundary values and dense ones.
fn inputs(q: u64, n: usize, m: usize, cap: f64) -> Vec<Vec<u64>> {
    let w = n + m;
    if (q as f64).powi(w as i32) <= cap {
        return all_vectors(q, w);
    }
    let mut vals: Vec<u64> = vec![0, 1, 2, 3, q / 2, q / 2 + 1, q - 1, q - 2];
    let bits = 64 - q.leading_zeros();
    for j in (0..bits).step_by(if bits > 16 { 5 } else { 1 }) {
        vals.push(1 << j);
    }
    vals.retain(|v| *v < q);
    vals.sort();
    vals.dedup();
    let pos: Vec<usize> = if n <= 8 { (0..=n).collect() } else { vec![0, 1, n / 4 - 1, n / 4, n / 2, n / 2 + 1, n - 1, n] };
    let mut v = vec![];
    for &i in &pos {
        for &j in &pos {
            if i < j {
                for &x in &vals {
                    for &y in &vals {
                        let mut c = vec![0; w];
                        c[i] = x;
                        c[j] = y;
                        v.push(c);
                    }
                }
            }
        }
    }
    for &x in &vals {
        v.push(vec![x; w]);
        v.push((0..w as u64).map(|i| ((x as u128 + i as u128 * (q / 3 + 1) as u128 + (i * i * 3) as u128) % q as u128) as u64).collect());
    }
    v
}
#[allow(clippy::too_many_arguments)]
fn sweep<C: Cw, Q: Fld>(s: &Sec, ns: &[usize], nn: usize, bases: &[u32], nkeys: usize, cap: f64, sk: f64) {
    let q = fq::<Q>();
    let width = 64 - q.leading_zeros();
    let (rcts, lcts) = (inputs(q, nn, nn, cap), inputs(q, nn, 1, cap));
    let mut jobs = vec![];
    for &n in ns {
        for lk in [Lk::Binary, Lk::Ternary] {
            for rk in [Rk::Binary, Rk::Ternary, Rk::Gaussian] {
                for &kb in bases {
                    let k = Toy { lk, rk, kb, sk, sl: 2.0, sr: if q > 30 { 2.0 } else { 0.3 }, ..Toy::new(n, 32, nn, Steps::BrKsMs) };
                    let want = if rk == Rk::Gaussian { 40 } else { k.key_space().min(if nn > 8 { 200 } else { 3000 }) };
                    let all = key_pairs::<C, Q>(&k, want, if nn > 64 { 2 } else { 12_000 });
                    for p in spread(&all, nkeys) {
                        jobs.push((k, p));
                    }
                }
            }
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, pack) = &jobs[i];
        let n = k.n;
        let ksk = KeySwitchingRLWEKey::<Q>::generate(pack, &mut DetRng(31 + i as u64));
        let z = rkey(pack);
        let l = lift(&lkey(pack), k.q, q);
        let len = width.div_ceil(k.kb);
        for kind in ["RLWE", "LWE"] {
            let what = |c: &[u64]| format!("{kind} {} modulo Q={q} ring key {:?} LWE key {:?} ciphertext {c:?}", k.name(), z, l);
            let err = |c: &[u64]| -> u64 {
                let (out, before) = if kind == "RLWE" {
                    let r = (c[..nn].to_vec(), c[nn..].to_vec());
                    (ksk.key_switch_for_rlwe(rl::<Q>(&r)), rphase0(&r.0, r.1[0], &z, q))
                } else {
                    (ksk.key_switch_for_lwe(LWE::new(fes::<Q>(&c[..nn]), fe(c[nn]))), lphase(&c[..nn], c[nn], &z, q))
                };
                let (a, b) = (vals(out.a()), val(out.b()));
                if a.len() != n {
                    s.fail(what(c), format!("the result has {} mask entries", a.len()));
                    return 0;
                }
                (lphase(&a, b, &l, q) + q - before) % q
            };
            let most = (6.0 * sk).ceil() as u64;
            let cts = if kind == "RLWE" { &rcts } else { &lcts };
            // every mask coefficient contributes `len` digits below B, each times a noise of at most 6 deviations
            let bound = if sk == NO { 0 } else { nn as u64 * len as u64 * ((1u64 << k.kb) - 1) * most };
            if bound > 0 && bound >= q / 2 {
                s.fail(k.name(), format!("the bound {bound} says nothing modulo {q}: choose another parameter set"));
                return;
            }
            if sk != NO {
                // a ciphertext of one digit one: the noise of few rows (the negated coefficient has up to `len` digits)
                for j in 0..len {
                    for x in 0..nn {
                        let mut c = vec![0; if kind == "RLWE" { 2 * nn } else { nn + 1 }];
                        c[x] = 1u64 << (j * k.kb);
                        if c[x] >= q {
                            continue;
                        }
                        let e = mag(err(&c), q);
                        tl.evals += 1;
                        if e > len as u64 * ((1u64 << k.kb) - 1) * most {
                            s.fail(what(&c), format!("one coefficient causes noise {e}"));
                        }
                    }
                }
            }
            for (ci, c) in cts.iter().enumerate() {
                cur(&[q, nn as u64, n as u64, k.kb as u64, i as u64, (kind == "LWE") as u64, ci as u64]);
                let e = mag(err(c), q);
                if e > bound {
                    s.fail(what(c), format!("the phase changes by {e}, allowed is {bound}"));
                }
                tl.evals += 1;
                tl.distinct += 1;
                if ci % 512 == 0 {
                    tick();
                }
                if s.stopped() {
                    return;
                }
            }
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("Q", J::n(q)), ("ciphertexts", J::n((rcts.len() + lcts.len()) as u64))]));
    });
}
fn main() {
    let c = Ctx::new("C22", "exploration");
    c.rule("every RLWE and every LWE ciphertext modulo Q of the ring dimension (or every pair of positions with boundary values) for every LWE dimension up to the ring dimension, every basis width and every (or a spread of the) pairs of ring and LWE key; with noiseless rows the phase must not change, with noisy rows it may change by at most N * digits * (B-1) * 6 deviations, and by at most digits * (B-1) * 6 deviations for a ciphertext of one coefficient; distinct counts (keys, dimension, basis, ciphertext)");
    c.assume("noise of deviation 1e-9 rounds to zero; the LWE deviation of the parameter set is 2, so a key made with the wrong one is seen");
    let th = c.thorough;
    const L: &str = "Q, N, n, basis bits, job, LWE input, ciphertext";
    c.section("N=2, every ciphertext", L, |s| {
        sweep::<u8, F5b>(s, &[1, 2], 2, &[1, 2, 3], 81, 1e5, NO);
        sweep::<u16, F13b>(s, &[1, 2], 2, &[1, 2, 3, 4], c.tier(4, 40), 1e5, NO);
        sweep::<u32, F17b>(s, &[1, 2], 2, &[2, 5], c.tier(2, 20), 1e5, NO);
    });
    c.section("N=4 and 8, every dimension", L, |s| {
        sweep::<u8, F17>(s, &[1, 2, 3, 4], 4, &[1, 2, 3, 4, 5], c.tier(10, 60), c.tier(2e4, 1e5), NO);
        sweep::<u16, F41b>(s, &[1, 2, 3, 4], 4, &[1, 3], c.tier(6, 60), 2e4, NO);
        sweep::<u32, F97>(s, &[1, 2, 3, 4, 5, 6, 7, 8], 8, &[1, 2, 5, 7], c.tier(4, 20), 2e4, NO);
    });
    c.section("noisy rows", L, |s| {
        sweep::<u16, F7681h>(s, &[1, 2, 3, 4], 4, &[1, 3], c.tier(4, 60), 2e4, 0.5);
        sweep::<u16, F12289>(s, &[1, 2, 3, 4, 5, 6, 7, 8], 8, &[1, 2, 4], c.tier(2, 30), 2e4, 0.5);
        sweep::<u64, F60>(s, &[2, 3, 4], 4, &[1, 7, 20], c.tier(4, 30), 2e4, 3.2);
        sweep::<u32, F132M>(s, &[3, 5, 8, 9, 16], 16, &[1, 3, 9], c.tier(1, 10), 2e4, 6.4);
    });
    c.section("longer rings", L, |s| {
        sweep::<u16, F257>(s, &[1, 3, 4, 7, 8, 9, 12, 16], 16, &[1, 3], c.tier(1, 10), 2e4, NO);
        sweep::<u32, F12289>(s, &[2, 15, 17, 31, 32, 33, 64], 64, if th { &[1, 4, 14] } else { &[4] }, c.tier(1, 5), 2e4, NO);
        sweep::<u64, FTop64>(s, &[3, 8], 8, &[1, 8, 31], c.tier(1, 5), 2e4, NO);
        sweep::<u16, fhe_core::DefaultFieldU32>(s, if th { &[1024, 512, 500, 100] } else { &[1024] }, 1024, if th { &[1, 3, 7] } else { &[7] }, 1, 2e4, NO);
        if !th {
            sweep::<u16, fhe_core::DefaultFieldU32>(s, &[512, 500], 1024, &[7], 1, 200., NO);
            sweep::<u16, F12289>(s, &[512, 300], 512, &[5], 1, 200., NO);
        }
    });
    c.finish()
}
