//! C37: every ciphertext and key row has randomness of its own, taken from the generator given.
use algebra::{Basis, FieldDiscreteGaussianSampler, NTTPolynomial};
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey};
use harness::fields::*;
use harness::oracle;
use harness::ring::*;
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use lattice::{GadgetRLWE, NTTGadgetRLWE, NTTRGSW, LWE, NTTRLWE, RGSW, RLWE};
use rand::{CryptoRng, Rng};
use std::collections::HashMap;

/// One row: where it came from, its mask and its noise.
type Row = (String, Vec<u64>, Vec<u64>);

/// Multiplicative inverse modulo a prime.
fn inv(x: u64, q: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u128, x as u128, q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % q as u128;
        }
        b = b * b % q as u128;
        e >>= 1;
    }
    r as u64
}
/// Inverse modulo a power of two of an odd number.
fn inv2(x: u64) -> u64 {
    let mut y = x;
    for _ in 0..6 {
        y = y.wrapping_mul(2u64.wrapping_sub(x.wrapping_mul(y)));
    }
    y
}
/// The same vector for every multiple of a vector modulo a prime.
fn projective(v: &[u64], q: u64) -> Option<Vec<u64>> {
    let c = inv(*v.iter().find(|x| **x != 0)?, q);
    Some(vscal(v, c, q))
}
/// The same vector for a vector, its negative and its rotations modulo X^N+1 (and multiples if `scaled`).
fn orbit(v: &[u64], q: u64, scaled: bool) -> Vec<u64> {
    let two_n = 2 * v.len();
    let mut best: Option<Vec<u64>> = None;
    for r in 0..two_n {
        let w = oracle::rotate(v, r, q);
        let w = if scaled { projective(&w, q).unwrap_or_default() } else { w };
        if best.as_ref().is_none_or(|b| w < *b) {
            best = Some(w);
        }
    }
    best.unwrap()
}
/// No two rows over a ring share their mask (up to a factor, a rotation, or the constant coefficient,
/// to which a message may have been added) or their noise (up to sign and rotation).
fn ring_rows(s: &Sec, what: &str, rows: &[Row], q: u64) {
    let mut tails: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut masks: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut noises: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, (name, a, e)) in rows.iter().enumerate() {
        let Some(tail) = projective(&a[1..], q) else {
            s.fail(format!("{what}: {name}"), format!("the mask {a:?} is constant"));
            continue;
        };
        let small = a.len() <= 64;
        let mut clash = |j: usize, t: &str| {
            s.fail(format!("{what}: {} and {name}", rows[j].0), format!("{t}: masks {:?} and {a:?}, noises {:?} and {e:?}", rows[j].1, rows[j].2))
        };
        if let Some(j) = tails.insert(tail, i) {
            clash(j, "the masks are multiples of each other");
        }
        if small {
            if let Some(j) = masks.insert(orbit(a, q, true), i) {
                clash(j, "the masks are rotations of each other");
            }
        }
        let e = if small { orbit(e, q, false) } else { e.min(&vneg(e, q)).clone() };
        if let Some(j) = noises.insert(e, i) {
            clash(j, "the noises are the same");
        }
    }
}
/// The same for rows over the integers modulo a power of two; `e` is one number here.
fn lwe_rows(s: &Sec, what: &str, rows: &[Row], q: u64) {
    let mut masks: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut noises: HashMap<u64, usize> = HashMap::new();
    for (i, (name, a, e)) in rows.iter().enumerate() {
        let Some(odd) = a.iter().find(|x| **x & 1 == 1) else {
            s.fail(format!("{what}: {name}"), format!("every entry of the mask {a:?} is even"));
            continue;
        };
        let c = inv2(*odd);
        let a1: Vec<u64> = a.iter().map(|x| x.wrapping_mul(c) & (q - 1)).collect();
        if let Some(j) = masks.insert(a1, i) {
            s.fail(format!("{what}: {} and {name}", rows[j].0), format!("masks {:?} and {a:?} are multiples of each other", rows[j].1));
        }
        if let Some(j) = noises.insert(mag(e[0], q), i) {
            s.fail(format!("{what}: {} and {name}", rows[j].0), format!("noise {} twice", mag(e[0], q)));
        }
    }
}

// ---- samples of the lattice crate ----
const OPS: [&str; 13] = [
    "RLWE zero", "NTTRLWE zero", "NTTRLWE value", "GadgetRLWE zero", "GadgetRLWE one", "GadgetRLWE -s", "NTTGadgetRLWE zero",
    "NTTGadgetRLWE one", "NTTGadgetRLWE -s", "RGSW zero", "RGSW one", "NTTRGSW zero", "NTTRGSW one",
];
/// The rows of one sample with what their phases should be.
fn sample<F: Fld>(op: usize, s: &[u64], basis: u32, dev: f64, rng: &mut (impl Rng + CryptoRng)) -> Vec<Row> {
    let q = fq::<F>();
    let n = s.len();
    let key: NTTPolynomial<F> = tr(s);
    let b = Basis::<F>::new(basis);
    let chi = FieldDiscreteGaussianSampler::new(0.0, dev).unwrap();
    let one = |j: usize| mono(n, 0, ((1u128 << (j as u32 * basis)) % q as u128) as u64);
    let negs = |j: usize| vscal(&vneg(s, q), one(j)[0], q);
    let zero = |_: usize| vec![0; n];
    let row = |name: String, c: Rc, want: Vec<u64>| {
        let e = vsub(&rphase(&c, s, q), &want, q);
        (name, c.0, e)
    };
    let all = |part: &str, v: Vec<Rc>, want: &dyn Fn(usize) -> Vec<u64>| -> Vec<Row> {
        v.into_iter().enumerate().map(|(j, c)| row(format!("{}{part} row {j}", OPS[op]), c, want(j))).collect()
    };
    let g = |x: &GadgetRLWE<F>| -> Vec<Rc> { x.data().iter().map(unrl).collect() };
    let h = |x: &NTTGadgetRLWE<F>| -> Vec<Rc> { x.data().iter().map(unnrl).collect() };
    match op {
        0 => vec![row(OPS[0].into(), unrl(&RLWE::<F>::generate_random_zero_sample(&key, chi, rng)), zero(0))],
        1 => vec![row(OPS[1].into(), unnrl(&NTTRLWE::<F>::generate_random_zero_sample(&key, chi, rng)), zero(0))],
        2 => vec![row(OPS[2].into(), unnrl(&NTTRLWE::<F>::generate_random_value_sample(&key, fe(5), chi, rng)), mono(n, 0, 5))],
        3 => all("", g(&GadgetRLWE::generate_random_zero_sample(&key, b, chi, rng)), &zero),
        4 => all("", g(&GadgetRLWE::generate_random_one_sample(&key, b, chi, rng)), &one),
        5 => all("", g(&GadgetRLWE::generate_random_neg_secret_sample(&key, b, chi, rng)), &negs),
        6 => all("", h(&NTTGadgetRLWE::generate_random_zero_sample(&key, b, chi, rng)), &zero),
        7 => all("", h(&NTTGadgetRLWE::generate_random_one_sample(&key, b, chi, rng)), &one),
        8 => all("", h(&NTTGadgetRLWE::generate_random_neg_secret_sample(&key, b, chi, rng)), &negs),
        9 | 10 => {
            let x = if op == 9 { RGSW::<F>::generate_random_zero_sample(&key, b, chi, rng) } else { RGSW::generate_random_one_sample(&key, b, chi, rng) };
            let (w0, w1): (&dyn Fn(usize) -> _, &dyn Fn(usize) -> _) = if op == 9 { (&zero, &zero) } else { (&negs, &one) };
            [all(" first half", g(x.c_neg_s_m()), w0), all(" second half", g(x.c_m()), w1)].concat()
        }
        _ => {
            let x = if op == 11 { NTTRGSW::<F>::generate_random_zero_sample(&key, b, chi, rng) } else { NTTRGSW::generate_random_one_sample(&key, b, chi, rng) };
            let (w0, w1): (&dyn Fn(usize) -> _, &dyn Fn(usize) -> _) = if op == 11 { (&zero, &zero) } else { (&negs, &one) };
            [all(" first half", h(x.c_neg_s_m()), w0), all(" second half", h(x.c_m()), w1)].concat()
        }
    }
}
/// Every history of at most `depth` samples made with one generator.
fn samples<F: Fld>(s: &Sec, n: usize, basis: u32, depth: u32) {
    let q = fq::<F>();
    let key: Vec<u64> = (0..n).map(|i| [1, 0, q - 1, 1, q - 1][i % 5]).collect();
    let k = OPS.len();
    let count: usize = (1..=depth).map(|d| k.pow(d)).sum();
    s.par(count, |i, tl| {
        let mut len = 1;
        let mut x = i;
        while x >= k.pow(len) {
            x -= k.pow(len);
            len += 1;
        }
        let ops: Vec<usize> = (0..len).map(|j| x / k.pow(j) % k).collect();
        cur(&[q, n as u64, basis as u64, i as u64]);
        let what = format!("modulo {q} N={n} B=2^{basis} {:?}", ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>());
        let run = |seed: u64| {
            let mut rng = DetRng(seed);
            let mut rows = vec![];
            for (j, o) in ops.iter().enumerate() {
                for (name, a, e) in sample::<F>(*o, &key, basis, 1000.0, &mut rng) {
                    rows.push((format!("generator {seed} call {j} {name}"), a, e));
                }
            }
            rows
        };
        let rows = run(i as u64);
        if rows != run(i as u64) {
            s.fail(&*what, "two runs with one generator state give different samples");
        }
        let more = [rows, run(i as u64 + 1_000_000)].concat();
        ring_rows(s, &what, &more, q);
        tl.evals += 3;
        tl.states += more.len() as u64;
        tl.transitions += 3 * len as u64;
        tl.traces += 1;
        tl.distinct += 1;
        tick();
    });
}

// ---- the scheme ----
/// (X^k - 1)^-1 modulo X^N+1 for odd k, or k = 2 with N even.
fn inv_rot_sub(n: usize, k: usize, q: u64) -> Vec<u64> {
    // sum of X^(ki) for i < M is -2/(X^k-1) where X^(kM) = -1
    let m = if k % 2 == 1 { n } else { n / 2 };
    let c = q - inv(2, q);
    let mut v = vec![0; n];
    for i in 0..m {
        v = vadd(&v, &oracle::rotate(&mono(n, 0, c), k * i % (2 * n), q), q);
    }
    v
}
/// The rows of the half of a blind rotation key that multiplies bodies, recovered by rotating tables
/// whose difference with their own rotation has one digit.
fn blind_rows<C: Cw, Q: Fld>(k: &Toy, sk: &SecretKeyPack<C, Q>, br: &BlindRotationKey<Q>, name: &str) -> Vec<Row> {
    let q = fq::<Q>();
    let (l, z) = (lkey(sk), rkey(sk));
    let m = 2 * k.nn;
    let s2n = lift(&l, k.q, m as u64);
    let len = (64 - (q - 1).leading_zeros()).div_ceil(k.bb);
    let i1 = inv_rot_sub(k.nn, 1, q);
    let i3 = inv_rot_sub(k.nn, 3, q);
    let mut rows = vec![];
    for x in 0..k.n {
        for j in 0..len {
            let v = 1u64 << (j * k.bb);
            // the accumulator's mask, and its phase without the expected result
            let probe = |a: usize, inv: &[u64]| -> Rc {
                let lut = vscal(inv, v, q);
                let c = unrl(&br.blind_rotate(poly::<Q>(&lut), &ct::<C>(&mono(k.n, x, a as u64), 0), sk.parameters().blind_rotation_basis()));
                let want = oracle::rotate(&lut, (a as u64 * s2n[x] % m as u64) as usize, q);
                let e = vsub(&rphase(&c, &z, q), &want, q);
                (c.0, e)
            };
            let (m1, e1) = probe(1, &i1);
            match k.lk {
                Lk::Binary => rows.push((format!("{name} entry {x} digit {j}"), m1, e1)),
                Lk::Ternary => {
                    // with exponent a: first - X^-a second
                    let (m3, e3) = probe(3, &i3);
                    let i2 = inv_rot_sub(k.nn, 2, q);
                    let part = |u1: &[u64], u3: &[u64]| {
                        // u1 - u3 = second * (X^-3 - X^-1) = second * X^-3 * (1 - X^2)
                        let d = oracle::rotate(&vsub(u3, u1, q), 3, q);
                        let second = mulp(&d, &i2, q);
                        let first = vadd(u1, &oracle::rotate(&second, m - 1, q), q);
                        (first, second)
                    };
                    let ((ma, mb), (ea, eb)) = (part(&m1, &m3), part(&e1, &e3));
                    rows.push((format!("{name} entry {x} digit {j} first sample"), ma, ea));
                    rows.push((format!("{name} entry {x} digit {j} second sample"), mb, eb));
                }
            }
        }
    }
    rows
}
/// The rows of a ring key switching key that unit digits select.
fn rks_rows<C: Cw, Q: Fld>(k: &Toy, sk: &SecretKeyPack<C, Q>, key: &KeySwitchingRLWEKey<Q>, name: &str) -> Vec<Row> {
    let q = fq::<Q>();
    let (l, z) = (lift(&lkey(sk), k.q, q), rkey(sk));
    let len = (64 - (q - 1).leading_zeros()).div_ceil(k.kb);
    let ext = k.n.next_power_of_two();
    let mut rows = vec![];
    for chunk in 0..k.nn / ext {
        for j in 0..len {
            let v = 1u64 << (j * k.kb);
            let c = mono(k.nn, chunk * ext, v);
            let out = key.key_switch_for_lwe(LWE::new(fes::<Q>(&c), fe(0)));
            let (a, b) = (vals(out.a()), val(out.b()));
            let e = (lphase(&a, b, &l, q) + q - lphase(&c, 0, &z, q)) % q;
            rows.push((format!("{name} part {chunk} digit {j}"), a, vec![e]));
        }
    }
    rows
}
/// The rows of an LWE key switching key that unit digits select.
fn lks_rows<C: Cw, Q: Fld>(k: &Toy, sk: &SecretKeyPack<C, Q>, key: &KeySwitchingLWEKey<C>, name: &str) -> Vec<Row> {
    let (l, z) = (lkey(sk), lift(&rkey(sk), fq::<Q>(), k.q));
    let mut rows = vec![];
    for x in 0..k.nn {
        for j in 0..k.q.trailing_zeros().div_ceil(k.kb) {
            let c = mono(k.nn, x, 1 << (j * k.kb));
            let (a, b) = unct(&key.key_switch_for_lwe(ct::<C>(&c, 0)));
            let e = (lphase(&a, b, &l, k.q) + k.q - lphase(&c, 0, &z, k.q)) % k.q;
            rows.push((format!("{name} entry {x} digit {j}"), a, vec![e]));
        }
    }
    rows
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// encrypt false, true; through the wrapper
    Enc0,
    Enc1,
    EncW,
    Blind,
    RingSwitch,
    LweSwitch,
    /// another key pack of the same parameters replaces the current one
    Pack,
}
struct Out {
    lwe: Vec<Row>,
    blind: Vec<Row>,
    ring: Vec<Row>,
    packs: Vec<(Vec<u64>, Vec<u64>)>,
}
fn history<C: Cw, Q: Fld>(k: &Toy, ops: &[Op], seed: u64) -> Out {
    let mut rng = DetRng(seed);
    let p = k.params::<C, Q>();
    let mut sk = SecretKeyPack::new(p, &mut rng);
    let mut o = Out { lwe: vec![], blind: vec![], ring: vec![], packs: vec![(lkey(&sk), rkey(&sk))] };
    for (i, op) in ops.iter().enumerate() {
        let name = format!("generator {seed} call {i} {op:?}");
        let mut enc = |c: LWECiphertext<C>, m: u64| {
            let (a, b) = unct(&c);
            let e = (lphase(&a, b, &lkey(&sk), k.q) + k.q - m * (k.q / 4)) % k.q;
            o.lwe.push((name.clone(), a, vec![e]));
        };
        match op {
            Op::Enc0 => enc(sk.encrypt(false, &mut rng), 0),
            Op::Enc1 => enc(sk.encrypt(1u8, &mut rng), 1),
            Op::EncW => enc(zkfhe::Encryptor::new(sk.clone()).encrypt(true, &mut rng), 1),
            Op::Blind => {
                let br = BlindRotationKey::generate(&sk, &mut rng);
                o.blind.extend(blind_rows(k, &sk, &br, &name));
            }
            Op::RingSwitch => {
                let key = KeySwitchingRLWEKey::generate(&sk, &mut rng);
                o.ring.extend(rks_rows(k, &sk, &key, &name));
            }
            Op::LweSwitch => {
                let key = KeySwitchingLWEKey::generate(&sk, &mut rng);
                o.lwe.extend(lks_rows(k, &sk, &key, &name));
            }
            Op::Pack => {
                sk = if i % 2 == 0 { SecretKeyPack::new(p, &mut rng) } else { zkfhe::KeyGen::generate_secret_key(p, &mut rng) };
                o.packs.push((lkey(&sk), rkey(&sk)));
            }
        }
    }
    o
}
/// Every history of at most `depth` operations with one generator, twice, and with another generator.
fn scheme<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], depth: u32) {
    let q = fq::<Q>();
    let mut jobs: Vec<(Toy, Vec<Op>)> = vec![];
    for t in toys {
        let mut ops = vec![Op::Enc0, Op::Enc1, Op::EncW, Op::Blind, Op::Pack];
        match t.steps {
            Steps::BrMsKs => ops.push(Op::LweSwitch),
            Steps::BrKsMs => ops.push(Op::RingSwitch),
            Steps::BrMs => {}
        }
        let mut level: Vec<Vec<Op>> = vec![vec![]];
        for _ in 0..depth {
            level = level.iter().flat_map(|h| ops.iter().map(move |o| [h.clone(), vec![*o]].concat())).collect();
            jobs.extend(level.iter().map(|h| (*t, h.clone())));
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, ops) = &jobs[i];
        cur(&[q, i as u64]);
        let what = format!("{} modulo Q={q} {ops:?}", k.name());
        let (x, y, z) = (history::<C, Q>(k, ops, i as u64), history::<C, Q>(k, ops, i as u64), history::<C, Q>(k, ops, i as u64 + 1_000_000));
        if x.lwe != y.lwe || x.blind != y.blind || x.ring != y.ring || x.packs != y.packs {
            s.fail(&*what, "two runs with one generator state differ");
        }
        let lwe = [x.lwe, z.lwe].concat();
        let blind = [x.blind, z.blind].concat();
        let ring = [x.ring, z.ring].concat();
        let packs = [x.packs, z.packs].concat();
        lwe_rows(s, &what, &lwe, k.q);
        ring_rows(s, &what, &blind, q);
        ring_rows(s, &what, &ring, q);
        // where fewer LWE keys are possible, two may well coincide
        let many = k.lk == Lk::Ternary || k.n >= 32;
        for (a, p) in packs.iter().enumerate() {
            for (b, r) in packs[..a].iter().enumerate() {
                if many && p.0 == r.0 || p.1 == r.1 {
                    s.fail(&*what, format!("key packs {b} and {a} share a key: {p:?} and {r:?}"));
                }
            }
        }
        tl.evals += 3;
        tl.states += (lwe.len() + blind.len() + ring.len() + packs.len()) as u64;
        tl.transitions += 3 * ops.len() as u64;
        tl.traces += 1;
        tl.distinct += 1;
        tick();
        s.sample(|| J::obj([("history", J::s(&what)), ("rows compared", J::n((lwe.len() + blind.len() + ring.len()) as u64))]));
    });
}
/// Every pair of entries of two consecutive ciphertexts, masks and noises, takes every pair of values.
fn joint<C: Cw, Q: Fld>(s: &Sec, q: u64, n: usize, states: u64) {
    let k = Toy { sl: 1.0, sr: 1.0, ..Toy::new(n, q, 4, Steps::BrMsKs) };
    let p = k.params::<C, Q>();
    let qq = fq::<Q>();
    // 0: LWE ciphertexts, 1: ring samples in coefficient form, 2: transformed ring samples
    s.par(3, |kind, tl| {
        let base = if kind == 0 { q } else { qq };
        let small = |e: u64| if e == 0 { 0 } else if e == 1 { 1 } else if e == base - 1 { 2 } else { 3 };
        let width = if kind == 0 { n } else { 4 };
        let noises = if kind == 0 { 1 } else { 4 };
        let slots = 2 * (width + noises);
        let size = |x: usize| if x % (width + noises) < width { base } else { 3 };
        let mut seen = vec![vec![]; slots * slots];
        for x in 0..slots {
            for y in 0..x {
                seen[x * slots + y] = vec![false; (size(x) * size(y)) as usize];
            }
        }
        let sk = SecretKeyPack::new(p, &mut DetRng(5));
        let z = rkey(&sk);
        let chi = FieldDiscreteGaussianSampler::new(0.0, 1.0).unwrap();
        for seed in 0..states {
            let mut rng = DetRng(77_000_000 + seed);
            let mut v = vec![];
            for _ in 0..2 {
                match kind {
                    0 => {
                        let (a, b) = unct(&sk.encrypt(false, &mut rng));
                        let e = lphase(&a, b, &lkey(&sk), q);
                        v.extend(a);
                        v.push(small(e));
                    }
                    _ => {
                        let c = if kind == 1 {
                            unrl(&RLWE::<Q>::generate_random_zero_sample(sk.ntt_ring_secret_key(), chi, &mut rng))
                        } else {
                            unnrl(&NTTRLWE::<Q>::generate_random_zero_sample(sk.ntt_ring_secret_key(), chi, &mut rng))
                        };
                        let e = rphase(&c, &z, qq);
                        v.extend(c.0);
                        v.extend(e.iter().map(|e| small(*e)));
                    }
                }
            }
            for x in 0..slots {
                for y in 0..x {
                    if v[x] < size(x) && v[y] < size(y) {
                        seen[x * slots + y][(v[x] * size(y) + v[y]) as usize] = true;
                    }
                }
            }
            tl.evals += 2;
            if seed % 1024 == 0 {
                tick();
            }
        }
        let name = ["LWE encryption", "RLWE sample", "NTTRLWE sample"][kind];
        let slot = |x: usize| {
            let (c, r) = (x / (width + noises), x % (width + noises));
            if r < width { format!("mask entry {r} of ciphertext {c}") } else { format!("noise {} of ciphertext {c}", r - width) }
        };
        for x in 0..slots {
            for y in 0..x {
                let t = &seen[x * slots + y];
                tl.distinct += t.iter().filter(|b| **b).count() as u64;
                if let Some(i) = t.iter().position(|b| !*b) {
                    s.fail(
                        format!("{name} modulo {base}: {} and {}", slot(y), slot(x)),
                        format!("the values {} and {} (noise 2 stands for -1) never occur together in {states} runs", i as u64 % size(y), i as u64 / size(y)),
                    );
                }
            }
        }
    });
}
/// No `w` consecutive entries of a list occur again in it or in another list.
fn windows(s: &Sec, what: &str, lists: &[(String, Vec<u64>)], w: usize) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut seen: HashMap<u64, (usize, usize)> = HashMap::new();
    for (i, (name, v)) in lists.iter().enumerate() {
        for (j, x) in v.windows(w).enumerate() {
            let mut h = DefaultHasher::new();
            x.hash(&mut h);
            if let Some((k, l)) = seen.insert(h.finish(), (i, j)) {
                if lists[k].1[l..l + w] == *x {
                    s.fail(format!("{what}: {} and {name}", lists[k].0), format!("entries from {l} and from {j} are the same {w} values {:?}", x));
                    return 0;
                }
            }
        }
    }
    seen.len() as u64
}
/// Masks, noises and keys of real sizes: no stretch of random values is used twice.
fn long_rows(s: &Sec, dims: &[usize], rings: &[usize], seeds: u64) {
    let jobs: Vec<(usize, bool, u64)> = dims.iter().map(|n| (*n, false)).chain(rings.iter().map(|n| (*n, true))).flat_map(|(n, r)| (0..seeds).map(move |x| (n, r, x))).collect();
    s.par(jobs.len(), |i, tl| {
        let (n, ring, seed) = jobs[i];
        cur(&[n as u64, ring as u64, seed]);
        let mut rng = DetRng(99_000_000 + i as u64);
        if ring {
            let chi = FieldDiscreteGaussianSampler::new(0.0, 1000.0).unwrap();
            let p = Toy { sr: 1.0, ..Toy::new(4, 64, n, Steps::BrMsKs) }.params::<u32, F998>();
            let sk = SecretKeyPack::new(p, &mut rng);
            let z = rkey(&sk);
            let q = fq::<F998>();
            let key = sk.ntt_ring_secret_key();
            let (mut masks, mut raw, mut noises) = (vec![], vec![], vec![]);
            let mut add = |name: &str, c: Rc, neg_s: bool| {
                let mut e = rphase(&c, &z, q);
                if neg_s {
                    e = vadd(&e, &z, q);
                }
                masks.push((format!("mask of {name}"), c.0));
                noises.push((format!("noise of {name}"), e));
            };
            for r in 0..2 {
                let c = NTTRLWE::<F998>::generate_random_zero_sample(key, chi, &mut rng);
                raw.push((format!("transformed mask {r}"), nvals(c.a())));
                add(&format!("NTTRLWE {r}"), unnrl(&c), false);
                add(&format!("RLWE {r}"), unrl(&RLWE::<F998>::generate_random_zero_sample(key, chi, &mut rng)), false);
            }
            let g = NTTGadgetRLWE::<F998>::generate_random_zero_sample(key, Basis::new(15), chi, &mut rng);
            for (j, c) in g.data().iter().enumerate() {
                raw.push((format!("transformed mask of gadget row {j}"), nvals(c.a())));
                add(&format!("gadget row {j}"), unnrl(c), false);
            }
            let g = NTTGadgetRLWE::<F998>::generate_random_neg_secret_sample(key, Basis::new(30), chi, &mut rng);
            add("gadget row for -s", unnrl(&g.data()[0]), true);
            let what = format!("N={n}");
            for (l, w) in [(&masks, 5), (&raw, 5), (&noises, 16), (&vec![("ring key".to_string(), z.clone())], 90)] {
                tl.distinct += windows(s, &what, l, w);
            }
            tl.evals += 8;
        } else {
            for (lk, steps) in [(Lk::Binary, Steps::BrMsKs), (Lk::Ternary, Steps::BrMsKs)] {
                let p = Toy { lk, sl: 5.0, ..Toy::new(n, 1 << 15, 32, steps) }.params::<u16, F998>();
                let sk = SecretKeyPack::new(p, &mut rng);
                let cts: Vec<_> = (0..4).map(|j| (format!("mask of encryption {j}"), unct(&sk.encrypt(j % 2 == 1, &mut rng)).0)).collect();
                let what = format!("n={n} {lk:?}");
                tl.distinct += windows(s, &what, &cts, 9);
                let packs: Vec<_> = (0..3).map(|j| (format!("LWE key {j}"), lkey(&SecretKeyPack::new(p, &mut rng)))).collect();
                tl.distinct += windows(s, &what, &packs, 128);
                tl.evals += 8;
            }
        }
        tick();
    });
}
fn main() {
    let c = Ctx::new("C37", "exploration");
    c.rule("every history of samples, encryptions and key generations up to the stated depth is run with one generator, again with an equal generator, and with another generator; all rows of both generators (masks, and noises found with the secret key; rows of evaluation keys are recovered by probes that select one digit) are compared pairwise; at real sizes every stretch of consecutive mask, noise or key entries is compared with every other; for small moduli every pair of entries of two consecutive ciphertexts is followed until each pair of values has occurred; distinct counts histories and value pairs");
    c.assume("two honest rows of 2^40 and more possible masks and noises do not coincide for the generator states used; value pairs are missed by an honest sampler with probability below 2^-40 each");
    const L: &str = "modulus, dimension, basis bits, history (samples); modulus, history (scheme)";
    let d = c.tier(3, 4);
    c.section("histories of samples", L, |s| {
        samples::<F132M>(s, 8, 9, d);
        samples::<F132M>(s, 16, 3, d);
        samples::<F998>(s, 4, 5, d);
        samples::<F60>(s, 4, 12, d);
        samples::<FTop64>(s, 32, 31, c.tier(2, 3));
        samples::<F132M>(s, 1024, 7, c.tier(2, 3));
    });
    c.section("histories of the scheme", L, |s| {
        let mut toys = vec![];
        for steps in [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs] {
            for lk in [Lk::Binary, Lk::Ternary] {
                let (n, kb) = if matches!(steps, Steps::BrKsMs) { (24, 21) } else { (32, 5) };
                toys.push(Toy { lk, sl: (1u64 << 50) as f64, sr: 3000.0, sk: (1u64 << 50) as f64, bb: 20, kb, ..Toy::new(n, 1 << 62, 32, steps) });
            }
        }
        let big: Vec<Toy> = toys.iter().map(|t| if matches!(t.steps, Steps::BrKsMs) { Toy { sk: (1u64 << 40) as f64, ..*t } } else { *t }).collect();
        scheme::<u64, F60>(s, &big, c.tier(3, 4));
        // parts of the ring key of different lengths
        let parts: Vec<Toy> = big.iter().filter(|t| matches!(t.steps, Steps::BrKsMs)).flat_map(|t| [Toy { n: 16, nn: 64, ..*t }, Toy { n: 33, nn: 64, ..*t }]).collect();
        scheme::<u64, F60>(s, &parts, 2);
    });
    c.section("long rows", "dimension, ring or LWE, generator", |s| {
        let dims = [128, 500, 512, 513, 600, 1000, 1024, 1025, 1100, 1500, 2047, 2048, 2049, 3000, 4096, 4100, 6000, 10000, 70000];
        long_rows(s, &dims, &[256, 512, 1024, 2048, 4096, 8192, 1 << 15], c.tier(4, 40));
    });
    c.section("values of neighbours", L, |s| {
        joint::<u16, F17>(s, 16, 4, c.tier(60_000, 400_000));
        joint::<u32, F97>(s, 8, 6, c.tier(500_000, 3_000_000));
        joint::<u64, F17>(s, 64, 3, c.tier(300_000, 3_000_000));
        joint::<u16, F193>(s, 32, 2, c.tier(1_600_000, 8_000_000));
    });
    c.finish()
}
