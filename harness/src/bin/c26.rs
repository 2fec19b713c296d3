//! C26: every gate on every combination of input ciphertexts of toy dimensions within the margin.
use harness::fields::*;
use harness::gates::*;
use harness::oracle::all_vectors;
use harness::ring::{lphase, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use zkfhe::bfhe::{Evaluator, CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};
use zkfhe::{Decryptor, Encryptor, KeyGen};

/// All masks while there are at most `lim`, else `lim` of them: boundary values and dense ones.
fn masks(q: u64, n: usize, lim: usize) -> Vec<Vec<u64>> {
    if (q as f64).powi(n as i32) <= lim as f64 {
        return all_vectors(q, n);
    }
    let mut v: Vec<Vec<u64>> = vec![];
    let vals = [q - 1, 1, q / 2 + 1, 0, q / 4, q / 8 + 1, 3, q / 3, q - 5, q / 2];
    for (i, x) in vals.into_iter().enumerate() {
        let forms: [Vec<u64>; 3] = [(0..n as u64).map(|i| (x + i * (q / 3 + 1) + i * i * 5) % q).collect(), vec![x; n], (0..n as u64).map(|i| if i % 2 == 0 { x } else { q - 1 - x }).collect()];
        for j in 0..3 {
            v.push(forms[(i + j) % 3].clone());
        }
    }
    // first one form of each value, then the others
    let mut o: Vec<Vec<u64>> = vec![];
    for j in 0..3 {
        for i in 0..vals.len() {
            if !o.contains(&v[3 * i + j]) {
                o.push(v[3 * i + j].clone());
            }
        }
    }
    o.truncate(lim);
    o
}
/// All noises while there are at most `lim`, else the ends, and more if `lim` allows.
fn noises(most: u64, lim: u64) -> Vec<i64> {
    let m = most as i64;
    if 2 * most < lim {
        return (-m..=m).collect();
    }
    let mut v = vec![-m, m, 0, 1 - m, m - 1, -1, 1, -m / 2, m / 2 + 1];
    v.truncate(lim as usize);
    v.sort();
    v.dedup();
    v
}
/// Every mask, bit and noise.
fn cts<C: Cw, Q: Fld>(e: &Ev<C, Q>, most: u64, mlim: usize, elim: u64) -> Vec<(Ct, bool)> {
    let mut v = vec![];
    for a in masks(e.k.q, e.k.n, mlim) {
        for m in [false, true] {
            for x in noises(most, elim) {
                v.push((e.make(&a, m, x), m));
            }
        }
    }
    v
}
/// Masks and noises of the inputs of gates of two, and of three inputs.
#[derive(Clone, Copy)]
struct Cap {
    keys: usize,
    two: (usize, u64),
    three: (usize, u64),
}
/// Evaluators for a spread of the keys for which the parameter set refreshes noise.
fn evaluators<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], keys: usize, search: u64) -> Vec<Ev<C, Q>> {
    let mut v = vec![];
    for k in toys {
        let good: Vec<_> = key_pairs::<C, Q>(k, if search > 5000 || k.rk == Rk::Gaussian { u64::MAX } else { k.key_space() }, search)
            .into_iter()
            .filter(|p| {
                let (l, z) = (lkey(p), rkey(p));
                let e = 3.0 * out_noise(k, &l, &z, fq::<Q>()) as f64 * 2.0 * k.nn as f64 / k.q as f64 + rounding(k, &l);
                e < k.nn as f64 / 4.0
            })
            .collect();
        if good.is_empty() {
            s.fail(k.name(), format!("no key with a closed margin modulo {}", fq::<Q>()));
        }
        for (i, p) in spread(&good, keys).into_iter().enumerate() {
            v.push(Ev::new(k, p, 77 + i as u64));
        }
        tick();
    }
    v
}
fn gates<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], cap: Cap, search: u64) {
    let evs = evaluators::<C, Q>(s, toys, cap.keys, search);
    // one job per evaluator and slice of the first operand
    let slices = 8;
    s.par(evs.len() * slices, |job, tl| {
        let e = &evs[job / slices];
        let part = job % slices;
        assert!(e.closed());
        let two = cts(e, e.two, cap.two.0, cap.two.1);
        let three = cts(e, e.three, cap.three.0, cap.three.1);
        let show = |g: &str, c: &[&(Ct, bool)]| format!("{g} of {:?} with {}", c.iter().map(|c| (&c.0 .0, c.0 .1, c.1)).collect::<Vec<_>>(), e.name());
        for (i, x) in two.iter().enumerate().skip(part).step_by(slices) {
            cur(&[e.k.q, e.k.n as u64, e.k.nn as u64, job as u64, i as u64, 0]);
            let cx = e.c(&x.0);
            let noise = e.read(&x.0).1;
            e.expect(s, &e.ev.not(&cx), !x.1, noise, &|| show("not", &[x]));
            for j in 0..two.len() {
                let y = &two[j];
                let cy = e.c(&y.0);
                for (g, f, t) in gates2::<C, Q>() {
                    e.expect(s, &f(&e.ev, &cx, &cy), t(x.1, y.1), e.out, &|| show(g, &[x, y]));
                }
                tl.evals += 6;
                tl.distinct += 1;
            }
            tick();
            if s.stopped() {
                return;
            }
        }
        for (i, x) in three.iter().enumerate().skip(part).step_by(slices) {
            let cx = e.c(&x.0);
            for j in 0..three.len() {
                let y = &three[j];
                let cy = e.c(&y.0);
                for l in 0..three.len() {
                    cur(&[e.k.q, e.k.n as u64, e.k.nn as u64, job as u64, i as u64, j as u64, l as u64]);
                    let z = &three[l];
                    let cz = e.c(&z.0);
                    for (g, f, t) in gates3::<C, Q>() {
                        e.expect(s, &f(&e.ev, &cx, &cy, &cz), t(x.1, y.1, z.1), e.out, &|| show(g, &[x, y, z]));
                    }
                    tl.evals += 2;
                    tl.distinct += 1;
                }
            }
            tick();
            if s.stopped() {
                return;
            }
        }
        if part == 0 {
            s.sample(|| J::obj([("evaluator", J::s(&e.name())), ("noise allowed at the inputs", J::n(e.two)), ("at the inputs of three", J::n(e.three)), ("left by a gate", J::n(e.out)), ("ciphertexts", J::n(two.len() as u64))]));
        }
    });
}
/// Bootstrapping of every ciphertext with arbitrary tables.
fn bootstrap<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], keys: usize, search: u64, lim: usize) {
    let evs = evaluators::<C, Q>(s, toys, keys, search);
    let qq = fq::<Q>();
    s.par(evs.len(), |i, tl| {
        let e = &evs[i];
        let (q, m) = (e.k.q, 2 * e.k.nn as u64);
        let nn = e.k.nn;
        let luts: Vec<Vec<u64>> = vec![
            (0..nn as u64).map(|i| (i * (qq / nn as u64) / 2) % qq).collect(),
            (0..nn as u64).map(|i| (i * i * 7 + 3 + qq / 3) % qq).collect(),
            vec![qq / 8; nn],
        ];
        let r = rounding(&e.k, &e.l);
        for a in masks(q, e.k.n, lim) {
            for b in 0..q {
                let lut = &luts[(b % 3) as usize];
                cur(&[q, e.k.n as u64, nn as u64, i as u64, a[0], b]);
                let c = (a.clone(), b);
                let out = unct(&e.ev.bootstrap(e.c(&c), poly::<Q>(lut)));
                let got = lphase(&out.0, out.1, &e.l, q);
                // the phase after the switch to 2N, and everything within the rounding of it
                let ph = lphase(&a, b, &e.l, q) as f64 * m as f64 / q as f64;
                let lo = (ph - r).ceil() as i64;
                let hi = (ph + r).floor() as i64;
                let ok = (lo..=hi).any(|p| {
                    let p = p.rem_euclid(m as i64) as usize;
                    let v = if p < nn { lut[p] } else { (qq - lut[p - nn]) % qq };
                    let want = ((v + qq / 8) % qq) as f64 * q as f64 / qq as f64;
                    let d = (got as f64 - want).rem_euclid(q as f64);
                    d.min(q as f64 - d) <= e.out as f64 + 1.0
                });
                if !ok {
                    s.fail(format!("bootstrap of {c:?} with {} table {lut:?}", e.name()), format!("phase of the input {ph} of {m}, phase of the output {got}"));
                }
                tl.evals += 1;
                tl.distinct += 1;
            }
            tick();
            if s.stopped() {
                return;
            }
        }
    });
}
/// Truth tables of one of the shipped parameter sets.
fn shipped(s: &Sec, name: &str, p: Parameters<u16, fhe_core::DefaultFieldU32>, seeds: u64, limit: u64) {
    let q = p.lwe_cipher_modulus_value() as u64;
    let packs: Vec<_> = (0..seeds).map(|i| KeyGen::generate_secret_key(p, &mut DetRng(4242 + i))).collect();
    let evs: Vec<_> = packs.iter().map(|k| Evaluator::new(k, &mut DetRng(17))).collect();
    tick();
    let g2 = gates2();
    let g3 = gates3();
    // gate index, input bits
    let mut jobs: Vec<(usize, usize, u32)> = vec![];
    for e in 0..evs.len() {
        for g in 0..g2.len() {
            for b in 0..4 {
                jobs.push((e, g, b));
            }
        }
        for g in 0..g3.len() {
            for b in 0..8 {
                jobs.push((e, 100 + g, b));
            }
        }
        jobs.push((e, 200, 0));
        jobs.push((e, 200, 1));
    }
    s.par(jobs.len(), |i, tl| {
        let (e, g, b) = jobs[i];
        let (k, ev) = (&packs[e], &evs[e]);
        let enc = Encryptor::new(k.clone());
        let dec = Decryptor::new(k.clone());
        cur(&[q, e as u64, g as u64, b as u64]);
        let bit = |j: u32| b >> j & 1 == 1;
        let c = |j: u32| enc.encrypt(bit(j), &mut DetRng(1000 * i as u64 + j as u64));
        let (what, out, want) = if g == 200 {
            ("not", ev.not(&c(0)), !bit(0))
        } else if g >= 100 {
            let (w, f, t) = g3[g - 100];
            (w, f(ev, &c(0), &c(1), &c(2)), t(bit(0), bit(1), bit(2)))
        } else {
            let (w, f, t) = g2[g];
            (w, f(ev, &c(0), &c(1)), t(bit(0), bit(1)))
        };
        let (m, e) = dec.decrypt_with_noise::<bool>(&out);
        if m != want || e as u64 >= limit || dec.decrypt::<bool>(&out) != want {
            s.fail(format!("{name}: {what} of bits {b:03b} (key {})", jobs[i].0), format!("decrypts to {m} with noise {e}, want {want} below {limit}"));
        }
        tl.evals += 1;
        tl.distinct += 1;
        tick();
        s.sample(|| J::obj([("parameters", J::s(name)), ("gate", J::s(what)), ("bits", J::s(&format!("{b:03b}"))), ("noise of the result", J::n(e as u64))]));
    });
}
fn kinds(k: Toy) -> Vec<Toy> {
    let mut v = vec![];
    for lk in [Lk::Binary, Lk::Ternary] {
        for rk in [Rk::Binary, Rk::Ternary] {
            v.push(Toy { lk, rk, ..k });
        }
    }
    if matches!(k.steps, Steps::BrMs) {
        v.retain(|k| k.rk == Rk::Ternary);
    }
    v
}
fn main() {
    let c = Ctx::new("C26", "exploration");
    c.rule("for every key (or a spread of the keys) for which the parameter set refreshes noise, every pair of ciphertexts with every mask (one dimension) or a set of boundary masks (more), both bits and every noise up to the margin (or its ends and zero) goes through every gate of two inputs and not, and triples of them through majority and mux; the result must decrypt to the truth table value with noise within the bound that follows from the key; all pairs and triples of the stated ciphertext sets are taken; distinct counts (evaluator, inputs)");
    c.assume("the margins: parts * noise * 2N/q + rounding of the switch to 2N ((1 + key weight)/2, or 0 when q divides 2N) below N/4; a bootstrap leaves at most (1 + key weight)/2 of the last switch plus the scaled noise of the keys");
    let th = c.thorough;
    const L: &str = "q, n, N, job, first, second, third ciphertext";
    let toy = |n, q, nn, steps| Toy::new(n, q, nn, steps);
    use Steps::*;
    c.section("truth tables", "bits", |s| {
        use fhe_core::utils::*;
        let mut t = Tally::default();
        for i in 0..8u64 {
            let (x, y, z) = (i & 1 == 1, i & 2 == 2, i & 4 == 4);
            ck!(s, "not", [i], not(x), !x);
            ck!(s, "and", [i], and(x, y), x && y);
            ck!(s, "nand", [i], nand(x, y), !(x && y));
            ck!(s, "or", [i], or(x, y), x || y);
            ck!(s, "nor", [i], nor(x, y), !(x || y));
            ck!(s, "xor", [i], xor(x, y), x != y);
            ck!(s, "xnor", [i], xnor(x, y), x == y);
            ck!(s, "majority", [i], majority(x, y, z), x as u8 + y as u8 + z as u8 >= 2);
            t.evals += 8;
            t.distinct += 1;
        }
        s.add(&t);
    });
    c.section("all ciphertexts of dimension 1", L, |s| {
        gates::<u16, F97>(s, &kinds(toy(1, 32, 16, BrKsMs)), Cap { keys: c.tier(3, 40), two: (1024, 64), three: c.tier((4, 3), (32, 3)) }, 4000);
        let all = Cap { keys: c.tier(1, 6), two: c.tier((16, 64), (1024, 64)), three: c.tier((4, 3), (8, 5)) };
        gates::<u8, F193>(s, &kinds(Toy { bb: 4, kb: 3, ..toy(1, 64, 32, BrKsMs) }), all, 400);
        gates::<u32, F257>(s, &kinds(Toy { bb: 9, kb: 9, ..toy(1, 32, 64, BrKsMs) }), all, 400);
    });
    let some = |keys| Cap { keys, two: c.tier((12, 3), (30, 9)), three: c.tier((3, 2), (10, 3)) };
    c.section("two and more dimensions, step order BrKsMs", L, |s| {
        gates::<u16, F193>(s, &kinds(Toy { bb: 2, kb: 2, ..toy(2, 64, 32, BrKsMs) }), some(c.tier(2, 9)), 400);
        gates::<u16, F12289>(s, &kinds(Toy { bb: 3, kb: 4, ..toy(3, 128, 64, BrKsMs) }), some(c.tier(2, 9)), 200);
        gates::<u64, F12289>(s, &kinds(Toy { bb: 7, kb: 5, ..toy(5, 1024, 64, BrKsMs) }), some(1), 200);
        gates::<u16, F257>(s, &kinds(toy(2, 512, 32, BrKsMs)), some(c.tier(2, 9)), 400);
        gates::<u16, F132M>(s, &[Lk::Binary, Lk::Ternary].map(|lk| Toy { lk, rk: Rk::Gaussian, sr: 0.5, bb: 2, kb: 2, ..toy(2, 64, 32, BrKsMs) }), some(1), 400);
    });
    c.section("step order BrMsKs", L, |s| {
        gates::<u16, F97>(s, &kinds(Toy { kb: 3, ..toy(1, 512, 16, BrMsKs) }), some(c.tier(2, 9)), 4000);
        gates::<u16, F257>(s, &kinds(Toy { kb: 5, bb: 4, ..toy(2, 1 << 13, 32, BrMsKs) }), some(c.tier(2, 9)), 800);
        gates::<u32, F12289>(s, &kinds(Toy { kb: 7, bb: 5, ..toy(3, 1 << 12, 64, BrMsKs) }), some(1), 400);
        gates::<u64, F193>(s, &kinds(Toy { kb: 4, bb: 3, ..toy(1, 256, 32, BrMsKs) }), some(1), 4000);
    });
    c.section("step order BrMs", L, |s| {
        gates::<u16, F97>(s, &kinds(toy(16, 1024, 16, BrMs)), some(c.tier(1, 6)), 100_000);
        gates::<u32, F97>(s, &kinds(Toy { bb: 3, ..toy(16, 1 << 14, 16, BrMs) }), some(c.tier(1, 6)), 100_000);
        gates::<u16, F193>(s, &[Toy { lk: Lk::Binary, bb: 4, ..toy(32, 1 << 12, 32, BrMs) }], some(1), 200_000);
    });
    c.section("noisy keys", L, |s| {
        gates::<u16, F132M>(s, &kinds(Toy { sr: 3.2, sk: 3.2, sl: 100.0, bb: 3, kb: 2, ..toy(2, 64, 32, BrKsMs) }), some(c.tier(1, 9)), 400);
        gates::<u16, F132M>(s, &kinds(Toy { sr: 6.4, sk: 0.5, sl: 100.0, bb: 4, kb: 7, ..toy(2, 1 << 14, 32, BrMsKs) }), some(c.tier(1, 9)), 400);
        gates::<u32, F60>(s, &[Toy { sr: 6.4, sk: 6.4, rk: Rk::Gaussian, bb: 10, kb: 10, ..toy(3, 128, 64, BrKsMs) }], some(c.tier(1, 9)), 200);
        gates::<u16, F132M>(s, &kinds(Toy { sr: 3.2, bb: 4, ..toy(16, 1 << 12, 16, BrMs) }), some(1), 100_000);
    });
    c.section("bootstrapping with any table", "q, n, N, job, first mask entry, body", |s| {
        bootstrap::<u16, F97>(s, &kinds(toy(1, 32, 16, BrKsMs)), c.tier(8, 100), 4000, 100);
        bootstrap::<u8, F193>(s, &kinds(Toy { bb: 4, kb: 3, ..toy(2, 64, 32, BrKsMs) }), c.tier(1, 9), 400, c.tier(100, 5000));
        bootstrap::<u16, F97>(s, &kinds(Toy { kb: 3, ..toy(1, 512, 16, BrMsKs) }), c.tier(1, 9), 4000, c.tier(100, 5000));
        bootstrap::<u16, F257>(s, &kinds(toy(1, 512, 32, BrKsMs)), c.tier(1, 9), 400, c.tier(100, 5000));
        bootstrap::<u16, F97>(s, &kinds(toy(16, 1024, 16, BrMs)), c.tier(1, 4), 100_000, 50);
    });
    c.section("long rings, short keys", L, |s| {
        let few = Cap { keys: 1, two: c.tier((2, 3), (6, 3)), three: c.tier((1, 2), (2, 3)) };
        use fhe_core::DefaultFieldU32 as D;
        gates::<u16, D>(s, &kinds(Toy { bb: 3, kb: 1, ..toy(4, 1024, 1024, BrKsMs) })[2 * !th as usize..3 + th as usize], few, 3);
    });
    c.section("shipped parameter sets", "q, key, gate, bits", |s| {
        shipped(s, "DEFAULT_TERNARY_128_BITS_PARAMETERS", *DEFAULT_TERNARY_128_BITS_PARAMETERS, c.tier(1, 12), 64);
        // the noise of its key switch: 2048 samples of standard deviation 6.4; q/8 is 2048
        shipped(s, "CUSTOM_TERNARY_128_BITS_PARAMETERS", *CUSTOM_TERNARY_128_BITS_PARAMETERS, c.tier(1, 12), 2000);
    });
    c.finish()
}
