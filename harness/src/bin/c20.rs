//! C20: blind rotation of every ciphertext modulo 2N under every key of toy dimensions.
use fhe_core::BlindRotationKey;
use harness::fields::*;
use harness::oracle::{all_vectors, rotate};
use harness::ring::{mono, rphase, unrl, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;

/// Tables: all of them while there are at most `cap`, else monomials, constants and dense ones.
fn luts(q: u64, n: usize, cap: f64) -> Vec<Vec<u64>> {
    if (q as f64).powi(n as i32) <= cap {
        return all_vectors(q, n);
    }
    let mut v: Vec<Vec<u64>> = (0..n).filter(|d| n <= 8 || [0, 1, n / 2, n - 1].contains(d)).map(|d| mono(n, d, 1 + d as u64 % 3)).collect();
    v.push(vec![q - 1; n]);
    v.push((0..n as u64).map(|i| (i * i * 7 + 3 * i + q / 8 + 1) % q).collect());
    v.push((0..n).map(|i| if i < n / 4 { q - q / 8 } else { q / 8 }).collect());
    v
}
fn show(v: &[u64]) -> String {
    if v.len() <= 16 { format!("{v:?}") } else { format!("{:?}... ({})", &v[..16], v.len()) }
}
/// One rotation: the whole phase polynomial against table * X^-phase, within `bound`.
#[allow(clippy::too_many_arguments)]
fn one<C: Cw, Q: Fld>(s: &Sec, k: &Toy, sk: &SecretKeyPack<C, Q>, s2n: &[u64], rk: &[u64], bk: &BlindRotationKey<Q>, lut: &[u64], a: &[u64], b: u64, bound: u64) {
    let q = fq::<Q>();
    let m = 2 * k.nn as u64;
    let out = bk.blind_rotate(poly::<Q>(lut), &ct::<C>(a, b), sk.parameters().blind_rotation_basis());
    let ph = ring::lphase(a, b, s2n, m);
    let want = rotate(lut, ((m - ph) % m) as usize, q);
    let got = rphase(&unrl(&out), rk, q);
    if got.iter().zip(&want).any(|(g, w)| mag((g + q - w) % q, q) > bound) {
        s.fail(
            format!("{} modulo Q={q} LWE key {:?} ring key {} table {} a={} b={b}", k.name(), lkey(sk), show(rk), show(lut), show(a)),
            format!("phase {ph}: got {}, want {} within {bound}", show(&got), show(&want)),
        );
    }
}
/// Every ciphertext with every key (up to `keys` pairs) and table (up to `cap`).
#[allow(clippy::too_many_arguments)]
fn sweep<C: Cw, Q: Fld>(s: &Sec, n: usize, nn: usize, bases: &[u32], nkeys: usize, cap: f64, sr: f64, stride: usize) {
    let q = fq::<Q>();
    let m = 2 * nn as u64;
    let cts = all_vectors(m, n + 1);
    let tables = luts(q, nn, cap);
    let mut jobs = vec![];
    for lk in [Lk::Binary, Lk::Ternary] {
        for rk in [Rk::Binary, Rk::Ternary] {
            for &bb in bases {
                let k = Toy { lk, rk, bb, sr, sl: 2.0, sk: 2.0, ..Toy::new(n, 64, nn, if n <= nn { Steps::BrKsMs } else { Steps::BrMsKs }) };
                let all = key_pairs::<C, Q>(&k, k.key_space().min(4000), 20_000);
                for p in spread(&all, nkeys) {
                    jobs.push((k, p));
                }
            }
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, sk) = &jobs[i];
        let bk = BlindRotationKey::generate(sk, &mut DetRng(99 + i as u64));
        let s2n = lift(&lkey(sk), k.q, m);
        let rk = rkey(sk);
        // largest noise of one sample is below 6 deviations
        let e = if sr == NO { 0 } else { (6.0 * sr).ceil() as u64 };
        let rows = match k.lk {
            Lk::Binary => 1,
            Lk::Ternary => 2,
        };
        let len = sk.parameters().blind_rotation_basis().decompose_len() as u64;
        let bound = n as u64 * 2 * len * nn as u64 * ((1 << k.bb) - 1) * e * rows;
        assert!(bound < q / 4, "the noise bound says nothing");
        for (li, lut) in tables.iter().enumerate() {
            for (ci, c) in cts.iter().enumerate().skip((i + li) % stride).step_by(stride) {
                cur(&[q, nn as u64, n as u64, k.bb as u64, i as u64, li as u64, ci as u64]);
                one::<C, Q>(s, k, sk, &s2n, &rk, &bk, lut, &c[..n], c[n], bound);
                tl.evals += 1;
                tl.distinct += 1;
            }
            tick();
            if s.stopped() {
                return;
            }
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("LWE key", J::s(&format!("{:?}", lkey(sk)))), ("ring key", J::s(&show(&rk))), ("table", J::s(&show(&tables[tables.len() - 1])))]));
    });
}
/// Large rings: every b, extreme and mixed masks.
fn large<C: Cw, Q: Fld>(s: &Sec, n: usize, nn: usize, bases: &[u32], bstep: usize, sr: f64) {
    let q = fq::<Q>();
    let m = 2 * nn as u64;
    let masks: Vec<Vec<u64>> = {
        let mut v: Vec<Vec<u64>> = vec![];
        for x in [0, 1, nn as u64 - 1, nn as u64, nn as u64 + 1, m - 1, nn as u64 / 2, 3] {
            v.push(vec![x; n]);
        }
        v.push((0..n as u64).map(|i| (i * 2 + 1) * 37 % m).collect());
        v.push((0..n as u64).map(|i| [nn as u64, 0, m - 1, 1, nn as u64 + 3][i as usize % 5]).collect());
        v
    };
    let mut jobs = vec![];
    for lk in [Lk::Binary, Lk::Ternary] {
        for &bb in bases {
            for (mi, _) in masks.iter().enumerate() {
                jobs.push((Toy { lk, rk: Rk::Ternary, bb, sr, ..Toy::new(n, 1024, nn, Steps::BrKsMs) }, mi));
            }
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, mi) = jobs[i];
        let sk = SecretKeyPack::new(k.params::<C, Q>(), &mut DetRng(5 + k.bb as u64));
        let bk = BlindRotationKey::generate(&sk, &mut DetRng(99 + i as u64));
        let s2n = lift(&lkey(&sk), k.q, m);
        let rk = rkey(&sk);
        let e = if sr == NO { 0 } else { (6.0 * sr).ceil() as u64 };
        let rows = if k.lk == Lk::Binary { 1 } else { 2 };
        let len = sk.parameters().blind_rotation_basis().decompose_len() as u64;
        let bound = n as u64 * 2 * len * nn as u64 * ((1 << k.bb) - 1) * e * rows;
        assert!(bound < q / 4, "the noise bound says nothing");
        let lut = luts(q, nn, 0.0).pop().unwrap();
        let dense = luts(q, nn, 0.0)[5].clone();
        for b in (0..m).step_by(bstep).chain([1, nn as u64 - 1, nn as u64 + 1, m - 1]) {
            cur(&[q, nn as u64, n as u64, k.bb as u64, i as u64, mi as u64, b]);
            one::<C, Q>(s, &k, &sk, &s2n, &rk, &bk, if b % 3 == 0 { &dense } else { &lut }, &masks[mi], b, bound);
            tl.evals += 1;
            tl.distinct += 1;
            tick();
            if s.stopped() {
                return;
            }
        }
    });
}
fn main() {
    let c = Ctx::new("C20", "exploration");
    c.rule("every LWE ciphertext modulo 2N with every (or an even spread of the) pairs of LWE and ring key, every basis width and every (or a set of) tables, for both kinds of LWE key; the phase of the result is computed with the real keys by schoolbook and every coefficient compared with the table times X^-phase; distinct counts (keys, basis, table, ciphertext)");
    c.assume("ring noise of deviation 1e-9 rounds to zero: the comparison is then exact; otherwise the bound is n * 2 * digits * N * (B-1) * (6 deviations) * (2 for ternary keys)");
    let th = c.thorough;
    const L: &str = "Q, N, n, basis bits, job, table, ciphertext";
    c.section("N=2, every table and key", L, |s| {
        sweep::<u8, F5b>(s, 1, 2, &[1, 2, 3], 27, 30.0, NO, 1);
        sweep::<u8, F5b>(s, 2, 2, &[1, 2, 3], 81, 30.0, NO, 1);
        sweep::<u16, F13b>(s, 1, 2, &[1, 2, 3, 4], 27, 200.0, NO, 1);
        sweep::<u32, F17b>(s, 2, 2, &[1, 2, 3, 5], 81, if th { 300.0 } else { 0.0 }, NO, 1);
        sweep::<u64, F17b>(s, 3, 2, &[1, 3], c.tier(60, 243), 0.0, NO, 1);
    });
    c.section("N=4", L, |s| {
        sweep::<u8, F17>(s, 1, 4, &[1, 2, 3, 4, 5], 243, 0.0, NO, 1);
        sweep::<u16, F97>(s, 2, 4, &[1, 2, 3, 5, 7], c.tier(48, 729), 0.0, NO, 1);
        sweep::<u32, F41b>(s, 3, 4, &[1, 4], c.tier(8, 60), 0.0, NO, c.tier(3, 1));
    });
    c.section("N=8 and 16", L, |s| {
        sweep::<u16, F17>(s, 1, 8, &[1, 3, 5], c.tier(24, 200), 0.0, NO, 1);
        sweep::<u8, F97>(s, 2, 8, &[1, 2, 4], c.tier(8, 40), 0.0, NO, c.tier(3, 1));
        sweep::<u64, F193>(s, 1, 16, &[2, 8], c.tier(8, 40), 0.0, NO, 1);
        sweep::<u16, F257>(s, 2, 16, &[3], c.tier(2, 8), 0.0, NO, c.tier(7, 1));
    });
    c.section("noisy keys", L, |s| {
        sweep::<u16, F132M>(s, 1, 4, &[1, 3, 7, 11], c.tier(40, 243), 0.0, 0.5, 1);
        sweep::<u16, F132M>(s, 2, 4, &[1, 4], c.tier(24, 200), 0.0, 0.5, 1);
        sweep::<u32, fhe_core::DefaultFieldU32>(s, 2, 8, &[3, 7], c.tier(4, 30), 0.0, 3.2, c.tier(5, 1));
        sweep::<u32, F60>(s, 3, 4, &[1, 5, 20], c.tier(4, 20), 0.0, 6.4, c.tier(5, 1));
    });
    c.section("large rings", L, |s| {
        large::<u16, fhe_core::DefaultFieldU32>(s, 4, 1024, &[3, 7], c.tier(41, 1), NO);
        large::<u16, fhe_core::DefaultFieldU32>(s, 6, 1024, &[1], c.tier(97, 3), 0.5);
        large::<u32, F132M>(s, 3, 512, &[4], c.tier(17, 1), NO);
        large::<u64, F60>(s, 3, 256, &[10], c.tier(17, 1), 3.2);
        large::<u16, F12289>(s, 2, 64, &[2, 5], 1, NO);
    });
    c.finish()
}
