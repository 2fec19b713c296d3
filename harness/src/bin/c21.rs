//! C21: LWE key switching of every ciphertext of toy dimensions.
use fhe_core::KeySwitchingLWEKey;
use harness::fields::*;
use harness::oracle::all_vectors;
use harness::ring::{lphase, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;

fn width(q: u64) -> u32 {
    q.trailing_zeros()
}
/// Ciphertexts: all while at most `cap`, else every pair of positions with boundary values, and dense ones.
fn inputs(q: u64, n: usize, cap: f64) -> Vec<Vec<u64>> {
    if (q as f64).powi(n as i32 + 1) <= cap {
        return all_vectors(q, n + 1);
    }
    let mut vals: Vec<u64> = vec![0, 1, 2, 3, q / 2, q / 2 - 1, q / 2 + 1, q - 1, q - 2, q / 4, q / 3];
    for j in 0..width(q) {
        vals.push(1 << j);
        vals.push(q - (1 << j));
    }
    vals.retain(|v| *v < q);
    vals.sort();
    vals.dedup();
    let pos: Vec<usize> = if n < 12 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    let mut v = vec![];
    for &i in &pos {
        for &j in &pos {
            if i < j {
                for &x in &vals {
                    for &y in &vals {
                        let mut c = vec![0; n + 1];
                        c[i] = x;
                        c[j] = y;
                        v.push(c);
                    }
                }
            }
        }
    }
    for &x in &vals {
        v.push(vec![x; n + 1]);
        v.push((0..=n as u64).map(|i| (x + i * i * 5 + 3 * i) % q).collect());
    }
    v
}
fn sweep<C: Cw, Q: Fld>(s: &Sec, n: usize, nn: usize, q: u64, bases: &[u32], nkeys: usize, cap: f64, sk: f64) {
    let cts = inputs(q, nn, cap);
    let mut jobs = vec![];
    for lk in [Lk::Binary, Lk::Ternary] {
        for rk in [Rk::Binary, Rk::Ternary] {
            for &kb in bases {
                if kb <= width(q) {
                    let k = Toy { lk, rk, kb, sk, sl: 2.0, sr: 2.0, t: 2, ..Toy::new(n, q, nn, Steps::BrMsKs) };
                    let all = key_pairs::<C, Q>(&k, k.key_space().min(3000), if nn > 64 { 3 } else { 12_000 });
                    for p in spread(&all, nkeys) {
                        jobs.push((k, p));
                    }
                }
            }
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, pack) = &jobs[i];
        let ksk = KeySwitchingLWEKey::generate(pack, &mut DetRng(31 + i as u64));
        let z = lift(&rkey(pack), fq::<Q>(), q);
        let l = lkey(pack);
        let what = |c: &[u64]| format!("{} ring key {:?} LWE key {:?} a={:?} b={}", k.name(), rkey(pack), l, &c[..nn], c[nn]);
        let err = |c: &[u64]| -> u64 {
            let out = ksk.key_switch_for_lwe(ct::<C>(&c[..nn], c[nn]));
            let (a, b) = unct(&out);
            if a.len() != n || a.iter().any(|x| *x >= q) || b >= q {
                s.fail(what(c), format!("the result has {} mask entries: {a:?} {b}", a.len()));
                return 0;
            }
            (lphase(&a, b, &l, q) + q - lphase(&c[..nn], c[nn], &z, q)) % q
        };
        // every mask coefficient uses one row per digit, each with a noise of at most 6 deviations
        let len = width(q).div_ceil(k.kb);
        let most = (6.0 * sk).ceil() as u64;
        let bound = if sk == NO { 0 } else { nn as u64 * len as u64 * most };
        if bound > 0 && bound >= q / 2 {
            s.fail(k.name(), format!("the bound {bound} says nothing modulo {q}: choose another parameter set"));
            return;
        }
        if sk != NO {
            for j in 0..len {
                for x in 0..nn {
                    for v in 1..(1u64 << k.kb).min(q >> (j * k.kb)) {
                        let mut c = vec![0; nn + 1];
                        c[x] = v << (j * k.kb);
                        let e = mag(err(&c), q);
                        tl.evals += 1;
                        if e > len as u64 * most {
                            s.fail(what(&c), format!("one coefficient causes noise {e}"));
                        }
                    }
                }
            }
        }
        for (ci, c) in cts.iter().enumerate() {
            cur(&[q, nn as u64, n as u64, k.kb as u64, i as u64, ci as u64]);
            let e = mag(err(c), q);
            if e > bound {
                s.fail(what(c), format!("the phase changes by {e}, allowed is {bound}"));
            }
            tl.evals += 1;
            tl.distinct += 1;
            if ci % 1024 == 0 {
                tick();
            }
            if s.stopped() {
                return;
            }
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("case", J::s(&what(&cts[cts.len() / 2])))]));
    });
}
fn main() {
    let c = Ctx::new("C21", "exploration");
    c.rule("every ciphertext of the ring dimension (or every pair of positions with boundary values) under every (or an even spread of the) pairs of ring and LWE key and every basis width; with noiseless rows the phase must not change, with noisy rows it may change by at most N * digits * 6 deviations, and by at most digits * 6 deviations for a ciphertext of one coefficient; distinct counts (keys, basis, ciphertext)");
    c.assume("noise of deviation 1e-9 rounds to zero; the other deviations of the parameter set are 2, so a key made with the wrong one is seen");
    let th = c.thorough;
    const L: &str = "q, N, n, basis bits, job, ciphertext";
    c.section("every ciphertext, noiseless", L, |s| {
        for n in 1..=3 {
            sweep::<u8, F5b>(s, n, 2, 8, &[1, 2, 3], 243, 1e6, NO);
            sweep::<u16, F5b>(s, n, 2, 16, &[1, 2, 3, 4], c.tier(27, 243), 1e6, NO);
            sweep::<u8, F17>(s, n, 4, 4, &[1, 2], c.tier(60, 729), 1e6, NO);
        }
        sweep::<u32, F13b>(s, 2, 2, 2, &[1], 81, 1e6, NO);
        sweep::<u64, F13b>(s, 2, 2, 32, &[1, 2, 3, 4, 5], c.tier(9, 81), 1e6, NO);
        sweep::<u8, F17>(s, 2, 4, 8, &[1, 2, 3], c.tier(8, 81), 1e6, NO);
        if th {
            sweep::<u8, F13b>(s, 2, 2, 128, &[1, 2, 3, 5, 6, 7], 8, 1e7, NO);
        }
    });
    c.section("noisy rows", L, |s| {
        for n in 1..=2 {
            sweep::<u8, F5b>(s, n, 2, 128, &[1, 2, 3, 4, 6], c.tier(6, 81), 3e5, 0.5);
            sweep::<u16, F17>(s, n, 4, 256, &[1, 2, 4, 8], c.tier(6, 60), 1e5, 0.5);
            sweep::<u16, F17>(s, n, 4, 1 << 14, &[1, 2, 4, 7], c.tier(20, 200), 1e4, 3.2);
        }
        sweep::<u32, F97>(s, 3, 8, 1 << 14, &[2, 5, 7], c.tier(6, 40), 1e4, 6.4);
    });
    c.section("wide moduli and longer keys", L, |s| {
        for kb in 1..=14 {
            sweep::<u16, F97>(s, 4, 8, 1 << 14, &[kb], c.tier(1, 8), 1e4, NO);
        }
        sweep::<u16, F97>(s, 5, 16, 1 << 15, &[1, 4, 15], c.tier(1, 4), 1e4, NO);
        sweep::<u32, F7681h>(s, 10, 8, 1 << 31, &[1, 3, 5, 8], c.tier(2, 6), 1e4, NO);
        sweep::<u64, F7681h>(s, 3, 8, 1 << 63, &[1, 3, 7, 9, 10], c.tier(2, 6), 1e4, NO);
        sweep::<u64, F60>(s, 3, 4, 1 << 33, &[1, 4, 11], c.tier(2, 6), 1e4, 3.2);
        sweep::<u8, F7681h>(s, 17, 16, 128, &[1, 2, 3, 5, 7], c.tier(1, 4), 1e4, NO);
        sweep::<u16, F12289>(s, 100, 256, 1 << 14, &[7, 5], 1, 1e4, NO);
        if !th {
            sweep::<u16, fhe_core::DefaultFieldU32>(s, 512, 1024, 1 << 14, &[7], 1, 1e3, NO);
            sweep::<u16, F12289>(s, 1000, 1024, 1 << 12, &[5], 1, 1e3, NO);
        }
        if th {
            sweep::<u16, fhe_core::DefaultFieldU32>(s, 512, 1024, 1 << 14, &[3, 7], 1, 1e4, NO);
        }
    });
    c.finish()
}
