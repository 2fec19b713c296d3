//! C35: every secret key that key generation can yield for toy dimensions, and its evaluation keys.
use algebra::transformation::AbstractNTT;
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey};
use harness::fields::*;
use harness::oracle;
use harness::ring::{lphase, mono, rphase, unrl, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use std::collections::BTreeMap;

/// All statements about one generated pack.
fn shape<C: Cw, Q: Fld>(s: &Sec, k: &Toy, p: &SecretKeyPack<C, Q>, seed: u64) {
    let q = fq::<Q>();
    let what = || format!("{} modulo Q={q} generator state {seed}", k.name());
    let (l, z) = (lkey(p), rkey(p));
    let neg = k.q - 1;
    if l.len() != k.n || p.lwe_secret_key().len() != k.n {
        s.fail(what(), format!("LWE key of {} entries", l.len()));
    }
    for (i, x) in l.iter().enumerate() {
        let ok = match k.lk {
            Lk::Binary => *x <= 1,
            Lk::Ternary => *x <= 1 || *x == neg,
        };
        if !ok {
            s.fail(what(), format!("entry {i} of the {:?} LWE key is {x}", k.lk));
        }
    }
    if z.len() != k.nn {
        s.fail(what(), format!("ring key of {} entries", z.len()));
        return;
    }
    if matches!(k.steps, Steps::BrMs) {
        let want = lift(&l, k.q, q);
        if z != want {
            s.fail(what(), format!("LWE key {l:?} but ring key {z:?}"));
        }
    } else {
        let most = (6.0 * k.sr) as u64;
        for (i, x) in z.iter().enumerate() {
            let ok = match k.rk {
                Rk::Binary => *x <= 1,
                Rk::Ternary => *x <= 1 || *x == q - 1,
                Rk::Gaussian => *x < q && mag(*x, q) <= most,
            };
            if !ok {
                s.fail(what(), format!("entry {i} of the {:?} ring key is {x}", k.rk));
            }
        }
    }
    let table = Q::get_ntt_table(k.nn.trailing_zeros()).unwrap();
    let want = if k.nn <= 64 { oracle::ntt(&z, val(table.root()) as u128, q as u128) } else { z.clone() };
    let got = if k.nn <= 64 { nvals(p.ntt_ring_secret_key()) } else { ring::untr(p.ntt_ring_secret_key()) };
    if got != want {
        s.fail(what(), format!("ring key {z:?} with transformed form {got:?}, want {want:?}"));
    }
    let c = p.parameters();
    if c.lwe_dimension() != k.n || c.ring_dimension() != k.nn || format!("{:?}", c.steps()) != format!("{:?}", k.steps) || c.lwe_secret_key_type() != k.lk || c.ring_secret_key_type() != k.rk || c.lwe_cipher_modulus_value().to() != k.q {
        s.fail(what(), "the pack carries other parameters");
    }
}
/// Generator states until every key pair occurred (30 times the expected wait of the rarest).
fn all_keys<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy]) {
    s.par(toys.len(), |i, tl| {
        let k = toys[i];
        let p = k.params::<C, Q>();
        let rare = |two: bool, n: usize| if two { 2f64.powi(n as i32) } else { 4f64.powi(n as i32) };
        let mut wait = rare(k.lk == Lk::Binary, k.n);
        if !matches!(k.steps, Steps::BrMs) {
            // a Gaussian of deviation 0.6 gives -1, 0 and 1 more often than a ternary gives 1
            wait *= rare(k.rk == Rk::Binary, k.nn);
        }
        let cap = (30.0 * wait) as u64 + 100;
        let mut seen: BTreeMap<(Vec<u64>, Vec<u64>), u64> = BTreeMap::new();
        let want = match k.rk {
            Rk::Gaussian => Toy { rk: Rk::Ternary, ..k }.key_space(),
            _ => k.key_space(),
        };
        let mut seed = 0;
        let small = |z: &[u64]| z.iter().all(|x| mag(*x, fq::<Q>()) <= 1);
        let mut have = 0;
        while have < want && seed < cap {
            cur(&[k.q, k.nn as u64, k.n as u64, i as u64, seed]);
            let sk = if seed % 2 == 0 { SecretKeyPack::new(p, &mut DetRng(seed)) } else { zkfhe::KeyGen::generate_secret_key(p, &mut DetRng(seed)) };
            shape(s, &k, &sk, seed);
            let z = rkey(&sk);
            let ok = small(&z);
            let e = seen.entry((lkey(&sk), z)).or_insert(0);
            *e += 1;
            if *e == 1 && ok {
                have += 1;
            }
            tl.evals += 1;
            seed += 1;
            if seed % 256 == 0 {
                tick();
            }
            if s.stopped() {
                return;
            }
        }
        tl.distinct += seen.len() as u64;
        if have < want {
            s.fail(format!("{} modulo Q={}", k.name(), fq::<Q>()), format!("only {have} of {want} keys occurred in {seed} generations"));
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("keys", J::n(want)), ("generations", J::n(seed))]));
    });
}
fn steps_toys(n: usize, q: u64, nn: usize) -> Vec<Toy> {
    let mut v = vec![];
    for steps in [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs] {
        for lk in [Lk::Binary, Lk::Ternary] {
            for rk in [Rk::Binary, Rk::Ternary, Rk::Gaussian] {
                let fits = match steps {
                    Steps::BrMsKs => rk != Rk::Gaussian,
                    Steps::BrKsMs => n <= nn,
                    Steps::BrMs => n == nn && rk != Rk::Gaussian,
                };
                if fits {
                    v.push(Toy { lk, rk, sl: 2.0, sr: 0.6, sk: 3.0, ..Toy::new(n, q, nn, steps) });
                }
            }
        }
    }
    v
}
/// Evaluation keys probed row by row: the secret they encrypt, and the size of their noise.
fn eval_keys<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], nkeys: usize) {
    let q = fq::<Q>();
    let mut jobs = vec![];
    for k in toys {
        let want = if k.rk == Rk::Gaussian { 3u64.pow(k.nn as u32) } else { k.key_space() }.min(400);
        for p in spread(&key_pairs::<C, Q>(k, want, 4000), nkeys) {
            jobs.push((*k, p));
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, sk) = &jobs[i];
        let (l, z) = (lkey(sk), rkey(sk));
        let what = |t: &str| format!("{t} {} deviations {}/{}/{} modulo Q={q} LWE key {l:?} ring key {z:?}", k.name(), k.sl, k.sr, k.sk);
        let m = 2 * k.nn as u64;
        let s2n = lift(&l, k.q, m);
        // blind rotation key
        let br = BlindRotationKey::generate(sk, &mut DetRng(i as u64));
        let bits = 64 - (q - 1).leading_zeros();
        let len = bits.div_ceil(k.bb);
        let most = |sd: f64| (6.0 * sd).ceil() as u64;
        let rows = if k.lk == Lk::Binary { 1 } else { 2 };
        let bound = 2 * len as u64 * ((1 << k.bb) - 1) * most(k.sr) * rows;
        if bound >= q / 4 {
            s.fail(what("key"), "the bound says nothing");
            return;
        }
        let mut largest = 0;
        for x in 0..k.n {
            for j in 0..len {
                for d in 0..k.nn {
                    for a in [1, k.nn as u64, m - 1] {
                        let v = 1u64 << (j * k.bb);
                        if v >= q {
                            continue;
                        }
                        let lut = mono(k.nn, d, v);
                        cur(&[i as u64, 0, x as u64, j as u64, d as u64, a]);
                        let out = br.blind_rotate(poly::<Q>(&lut), &ct::<C>(&mono(k.n, x, a), 0), sk.parameters().blind_rotation_basis());
                        let want = oracle::rotate(&lut, (a * s2n[x] % m) as usize, q);
                        for (g, w) in rphase(&unrl(&out), &z, q).iter().zip(&want) {
                            let e = mag((g + q - w) % q, q);
                            largest = largest.max(e);
                            if e > bound {
                                s.fail(what("blind rotation key"), format!("entry {x}, digit {j}, coefficient {d}, a={a}: noise {e} above {bound}"));
                            }
                        }
                        tl.evals += 1;
                        tl.distinct += 1;
                    }
                }
            }
            tick();
        }
        if k.sr > 1.0 && (largest as f64) < k.sr {
            s.fail(what("blind rotation key"), format!("largest noise {largest} for deviation {}", k.sr));
        }
        if s.stopped() {
            return;
        }
        // key switching key
        let mut largest = 0;
        match k.steps {
            Steps::BrMsKs => {
                let key = KeySwitchingLWEKey::generate(sk, &mut DetRng(i as u64));
                let zq = lift(&z, q, k.q);
                let len = k.q.trailing_zeros().div_ceil(k.kb);
                for j in 0..len {
                    for x in 0..k.nn {
                        for v in 1..(1u64 << k.kb).min(k.q >> (j * k.kb)) {
                            cur(&[i as u64, 1, x as u64, j as u64, v]);
                            let c = mono(k.nn, x, v << (j * k.kb));
                            let (a, b) = unct(&key.key_switch_for_lwe(ct::<C>(&c, 0)));
                            let e = mag((lphase(&a, b, &l, k.q) + k.q - lphase(&c, 0, &zq, k.q)) % k.q, k.q);
                            largest = largest.max(e);
                            if e > len as u64 * most(k.sk) {
                                s.fail(what("key switching key"), format!("digit {j} value {v} entry {x}: noise {e}"));
                            }
                            tl.evals += 1;
                            tl.distinct += 1;
                        }
                    }
                }
            }
            Steps::BrKsMs => {
                let key = KeySwitchingRLWEKey::<Q>::generate(sk, &mut DetRng(i as u64));
                let lq = lift(&l, k.q, q);
                let len = bits.div_ceil(k.kb);
                for j in 0..len {
                    for x in 0..k.nn {
                        cur(&[i as u64, 2, x as u64, j as u64]);
                        let v = 1u64 << (j * k.kb);
                        if v >= q {
                            continue;
                        }
                        let c = mono(k.nn, x, v);
                        let out = key.key_switch_for_lwe(lattice::LWE::new(fes::<Q>(&c), fe(0)));
                        let e = mag((lphase(&vals(out.a()), val(out.b()), &lq, q) + q - lphase(&c, 0, &z, q)) % q, q);
                        largest = largest.max(e);
                        if e > len as u64 * ((1 << k.kb) - 1) * most(k.sk) {
                            s.fail(what("key switching key"), format!("digit {j} entry {x}: noise {e}"));
                        }
                        tl.evals += 1;
                        tl.distinct += 1;
                    }
                }
            }
            Steps::BrMs => return,
        }
        if k.sk > 1.0 && (largest as f64) < k.sk {
            s.fail(what("key switching key"), format!("largest noise {largest} for deviation {}", k.sk));
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("LWE key", J::s(&format!("{l:?}"))), ("ring key", J::s(&format!("{z:?}")))]));
    });
}
fn main() {
    let c = Ctx::new("C35", "exploration");
    c.rule("key generation is run on generator states 0, 1, 2, ... until every pair of LWE and ring key of the declared kinds occurred (for Gaussian ring keys: every key of entries 0, 1, -1), for every step order and kind; every pack is compared with its declaration and the transformed key with the transform by definition; the evaluation keys of all (or a spread of) the packs are probed with a unit ciphertext per row; distinct counts (key pair) and (key pair, row)");
    c.assume("a key that does not occur in 30 times the expected wait of the rarest key never occurs; a noise of deviation d over all rows of a key reaches d at least once");
    let th = c.thorough;
    const L: &str = "q, N, n, job, generator state (first sections); job, key, entry, digit, coefficient, value (evaluation keys)";
    c.section("every key pair", L, |s| {
        all_keys::<u8, F5b>(s, &[steps_toys(1, 16, 2), steps_toys(2, 128, 2), steps_toys(3, 8, 2)].concat());
        all_keys::<u16, F17>(s, &[steps_toys(1, 32, 4), steps_toys(2, 1 << 15, 4), steps_toys(4, 64, 4)].concat());
        all_keys::<u32, F97>(s, &[steps_toys(2, 1 << 31, 2), steps_toys(4, 8, 2), steps_toys(3, 1 << 20, 4)].concat());
        all_keys::<u64, F60>(s, &[steps_toys(2, 1 << 63, 2), steps_toys(4, 1 << 40, 4)].concat());
        all_keys::<u16, F257>(s, &[Toy { lk: Lk::Binary, rk: Rk::Binary, ..Toy::new(3, 64, 8, Steps::BrMsKs) }, Toy { lk: Lk::Binary, ..Toy::new(8, 64, 8, Steps::BrMs) }]);
        if th {
            all_keys::<u16, F193>(s, &[Toy { ..Toy::new(8, 64, 8, Steps::BrMs) }, Toy { lk: Lk::Binary, rk: Rk::Binary, ..Toy::new(8, 64, 8, Steps::BrKsMs) }, Toy::new(4, 64, 4, Steps::BrMsKs), Toy::new(5, 64, 4, Steps::BrMsKs)]);
        }
    });
    c.section("real dimensions", L, |s| {
        let jobs: Vec<u64> = (0..c.tier(16, 400)).collect();
        s.par(jobs.len(), |i, tl| {
            use fhe_core::DefaultFieldU32 as D;
            for k in [
                Toy { sl: 3.2, sr: 6.4, sk: 6.4, ..Toy::new(1024, 1024, 1024, Steps::BrKsMs) },
                Toy { sl: 3.2, sr: 6.4, sk: 6.4, ..Toy::new(512, 1 << 14, 1024, Steps::BrMsKs) },
                Toy { lk: Lk::Binary, rk: Rk::Gaussian, sr: 3.2, ..Toy::new(500, 1024, 1024, Steps::BrKsMs) },
                Toy { ..Toy::new(1024, 1024, 1024, Steps::BrMs) },
                Toy { lk: Lk::Binary, rk: Rk::Binary, ..Toy::new(1000, 2048, 512, Steps::BrMsKs) },
            ] {
                let sk = SecretKeyPack::new(k.params::<u16, D>(), &mut DetRng(jobs[i]));
                shape(s, &k, &sk, jobs[i]);
                let (l, z) = (lkey(&sk), rkey(&sk));
                let kinds = |v: &[u64]| v.iter().collect::<std::collections::BTreeSet<_>>().len();
                let want = |two: bool| if two { 2 } else { 3 };
                if kinds(&l) < want(k.lk == Lk::Binary) || kinds(&z) < want(k.rk == Rk::Binary) {
                    s.fail(format!("{} generator state {i}", k.name()), "an entry of the declared kind never occurs");
                }
                tl.evals += 1;
                tl.distinct += 1;
                tick();
            }
        });
    });
    c.section("evaluation keys", L, |s| {
        // three different deviations, each in turn the smallest: a key made with another one is seen
        for (sl, sr, sk) in [(60.0, 2.0, 0.5), (0.5, 0.5, 40.0), (0.3, 30.0, 0.5), (60.0, 0.5, 3.0)] {
            let set = |v: Vec<Toy>, bb, kb| -> Vec<Toy> { v.into_iter().map(|k| Toy { sl, sr, sk, bb, kb, ..k }).collect() };
            eval_keys::<u16, F132M>(s, &set(steps_toys(1, 1 << 15, 2), 4, 3), c.tier(27, 400));
            eval_keys::<u16, F132M>(s, &set(steps_toys(2, 1 << 14, 2), 1, 1), c.tier(27, 400));
            eval_keys::<u16, F132M>(s, &set(steps_toys(3, 1 << 15, 4), 7, 5), c.tier(12, 200));
            eval_keys::<u32, F132M>(s, &set(steps_toys(4, 1 << 20, 4), 3, 7), c.tier(8, 200));
            eval_keys::<u64, F60>(s, &set(steps_toys(2, 1 << 40, 4), 10, 8), c.tier(6, 200));
            if th {
                eval_keys::<u32, F132M>(s, &set(steps_toys(8, 1 << 20, 8), 3, 7), 60);
            }
        }
    });
    c.finish()
}
