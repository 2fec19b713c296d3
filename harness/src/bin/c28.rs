//! C28: samplers follow their distributions exactly, stay in range, and never hang.
use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec};
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::rngs::Stream;
use harness::*;
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler};
use rand::{CryptoRng, RngCore};
use rand_distr::{Distribution, Normal};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

/// The first output is chosen; some of the following ones is accepted by any sensible sampler.
struct One {
    x: u64,
    calls: u32,
}
impl One {
    fn later(&self, mid: u64) -> u64 {
        match self.calls {
            1 => self.x,
            2 => mid,
            3 => 0,
            k => (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(k),
        }
    }
}
impl RngCore for One {
    fn next_u32(&mut self) -> u32 {
        self.calls += 1;
        self.later(1 << 31) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.calls += 1;
        self.later(1 << 63)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for One {}

/// A fixed sequence of bits, served as words (least significant first) or bytes; then zeros.
#[derive(Clone)]
struct Bits {
    words: Vec<u32>,
    pos: usize,
    bytes: Vec<u8>,
    bpos: usize,
    budget: usize,
}
impl Bits {
    fn words(w: Vec<u32>) -> Self {
        Bits { words: w, pos: 0, bytes: vec![], bpos: 0, budget: 100_000 }
    }
    fn bytes(b: Vec<u8>) -> Self {
        Bits { words: vec![], pos: 0, bytes: b, bpos: 0, budget: 1_000_000 }
    }
}
impl RngCore for Bits {
    fn next_u32(&mut self) -> u32 {
        self.budget = self.budget.checked_sub(1).expect("HANG: the sampler does not stop drawing");
        self.pos += 1;
        self.words.get(self.pos - 1).copied().unwrap_or(0)
    }
    fn next_u64(&mut self) -> u64 {
        let l = self.next_u32() as u64;
        l | (self.next_u32() as u64) << 32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if !self.words.is_empty() {
            // words asked for as bytes
            for c in d.chunks_mut(4) {
                let w = self.next_u32().to_le_bytes();
                c.copy_from_slice(&w[..c.len()]);
            }
            return;
        }
        for b in d {
            self.bpos += 1;
            *b = self.bytes.get(self.bpos - 1).copied().unwrap_or(0);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Bits {}

/// Every one of the 2^32 outputs: each residue is hit equally often, the rest (less than half) is rejected.
fn uniform32<F: Field<Value: V>>(s: &Sec) {
    let q = fq::<F>();
    let counts: Vec<AtomicU32> = (0..if q <= 1 << 14 { q } else { 0 }).map(|_| AtomicU32::new(0)).collect();
    let small: Vec<AtomicU8> = (0..if q > 1 << 14 { q } else { 0 }).map(|_| AtomicU8::new(0)).collect();
    let rejected = AtomicU64::new(0);
    s.par(4096, |i, t| {
        let sampler = FieldUniformSampler::<F>::new();
        let base = (i as u64) << 20;
        let mut local = vec![0u32; counts.len()];
        for x in base..base + (1 << 20) {
            let mut rng = One { x, calls: 0 };
            let f: F = sampler.sample(&mut rng);
            let v = val(f);
            if v >= q {
                ck!(s, "uniform out of range", [q, x], v, q - 1);
                return;
            }
            if rng.calls > 1 {
                rejected.fetch_add(1, Relaxed);
            } else if q <= 1 << 14 {
                local[v as usize] += 1;
            } else if small[v as usize].fetch_add(1, Relaxed) == 255 {
                s.fail(format!("uniform q={q} residue={v}"), "hit more than 255 times");
                return;
            }
        }
        for (c, l) in counts.iter().zip(&local) {
            c.fetch_add(*l, Relaxed);
        }
        t.evals += 1 << 20;
        t.distinct += 1 << 20;
    });
    if s.stopped() {
        return;
    }
    let count = |r: u64| if q <= 1 << 14 { counts[r as usize].load(Relaxed) as u64 } else { small[r as usize].load(Relaxed) as u64 };
    let per = ((1u64 << 32) - rejected.load(Relaxed)) / q;
    let mut bad = 0;
    for r in 0..q {
        if count(r) != per {
            ck!(s, "uniform count", [q, r], count(r), per);
            bad += 1;
            if bad > 2 {
                return;
            }
        }
    }
    if per * q < 1 << 31 {
        s.fail(format!("uniform q={q}"), format!("rejects {} of 2^32 outputs", rejected.load(Relaxed)));
    }
}
/// 64-bit outputs. A sampler that takes the high part of a product is a step function of the output, with the rejected
/// outputs at one end of every step: the exact number of accepted outputs of every step looked at. A sampler that takes the
/// low bits and rejects what is too large is recognised as such. Anything else is a violation if it never rejects (no
/// power of two is a multiple of the modulus), and is not judged otherwise.
fn uniform64<F: Field<Value: V>>(s: &Sec, t: &mut Tally) {
    let q = fq::<F>();
    let sampler = FieldUniformSampler::<F>::new();
    let f = |x: u64| -> Option<u64> {
        let mut rng = One { x, calls: 0 };
        let v: F = sampler.sample(&mut rng);
        if val(v) >= q {
            ck!(s, "uniform out of range", [q, x], val(v), q - 1);
        }
        (rng.calls == 1).then(|| val(v))
    };
    // residue at or after x: a rejected stretch is shorter than the accepted one after it
    let at = |x: u64| -> u64 {
        if let Some(v) = f(x) {
            return v;
        }
        for k in 0..64 {
            match x.checked_add(1 << k) {
                Some(y) => if let Some(v) = f(y) { return v },
                None => break,
            }
        }
        q
    };
    let probes: Vec<u64> = {
        let mut p: Vec<u64> = edge_values(64).into_iter().map(|x| x as u64).chain((0..4096u64).map(|i| i << 52 | i * 0x1234_5678_9ABC % (1 << 52))).collect();
        let z = ((1u128 << 64) - (1u128 << 64) % q as u128) as u64;
        p.extend((0..64).flat_map(|i| [z.saturating_add(i), u64::MAX - i]));
        p.sort();
        p.dedup();
        p
    };
    let vals: Vec<u64> = probes.iter().map(|x| at(*x)).collect();
    if vals.windows(2).any(|w| w[0] > w[1]) {
        let mask = q.next_power_of_two() - 1;
        let low = probes.iter().all(|x| f(*x) == ((x & mask) < q).then_some(x & mask));
        if !low && probes.iter().all(|x| f(*x).is_some()) {
            s.fail(format!("uniform q={q}"), "no output is ever rejected: not every residue can be equally likely");
        }
        t.evals += 1;
        t.distinct += 1;
        return;
    }
    // smallest x with residue >= r
    let first = |r: u64| -> u128 {
        let (mut lo, mut hi) = (0u128, 1u128 << 64);
        while lo < hi {
            let m = (lo + hi) / 2;
            if at(m as u64) >= r { hi = m } else { lo = m + 1 }
        }
        lo
    };
    let mut rs: Vec<u64> = edge_values(63).into_iter().flat_map(|x| [x as u64 % q, q - 1 - x as u64 % q]).collect();
    rs.extend((0..300).map(|i| (q as u128 * i / 300) as u64));
    rs.sort();
    rs.dedup();
    let mut per = None;
    for r in rs {
        cur(&[q, r]);
        // the step [a, b): what `at` calls r or, at its start, skips on to r
        let (a, b) = (first(r), if r + 1 == q { 1u128 << 64 } else { first(r + 1) });
        let is = |x: u128| f(x as u64) == Some(r);
        let mid = (a + b) / 2;
        ck!(s, "uniform step", [q, r], is(mid), true);
        // accepted outputs are one stretch around the middle of the step
        let (mut lo, mut hi) = (a, mid);
        while lo < hi {
            let m = (lo + hi) / 2;
            if is(m) { hi = m } else { lo = m + 1 }
        }
        let start = lo;
        let (mut lo, mut hi) = (mid, b - 1);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if is(m) { lo = m } else { hi = m - 1 }
        }
        let n = lo + 1 - start;
        let want = *per.get_or_insert(n);
        if n != want {
            ck!(s, "uniform preimages", [q, r], n, want);
        }
        t.evals += 1;
        t.distinct += 1;
    }
    if !(1 << 63..=1 << 64).contains(&(per.unwrap_or(0) * q as u128)) {
        s.fail(format!("uniform q={q}"), format!("accepts {per:?} outputs per residue only"));
    }
}

/// `draw` maps generator bits to a vector of symbols. Finds which bits decide each entry, requires the entries to depend on
/// disjoint bits, and counts the outcomes over every assignment of the deciding bits.
fn bulk(s: &Sec, name: &str, len: usize, draw: &dyn Fn(&mut Bits) -> Vec<u64>, want: &BTreeMap<u64, u32>, total: u32, t: &mut Tally) {
    // as many words as the sampler asks for, and one more
    let words = 1 + [0, u32::MAX].map(|w| {
        let mut r = Bits::words(vec![w; 4 * len + 8]);
        draw(&mut r);
        r.pos
    }).into_iter().max().unwrap();
    let draw = |w: Vec<u32>| draw(&mut Bits::words(w));
    let mut owner: Vec<Option<usize>> = vec![None; words * 32];
    let mut deps: Vec<Vec<usize>> = vec![vec![]; len];
    let bases: Vec<Vec<u32>> = vec![
        vec![0; words],
        vec![u32::MAX; words],
        vec![0x5555_5555; words],
        vec![0xAAAA_AAAA; words],
        vec![0x6DB6_DB6D; words],
    ];
    for base in &bases {
        let v0 = draw(base.clone());
        if v0.len() != len {
            ck!(s, "length", [name, len], v0.len(), len);
            return;
        }
        for bit in 0..words * 32 {
            let mut b = base.clone();
            b[bit / 32] ^= 1 << (bit % 32);
            for (i, (x, y)) in draw(b).iter().zip(&v0).enumerate() {
                if x != y {
                    match owner[bit] {
                        Some(o) if o != i => {
                            s.fail(format!("{name} len={len}: entries {o} and {i} depend on one generator bit {bit}"), "entries are not independent");
                            return;
                        }
                        Some(_) => {}
                        None => {
                            owner[bit] = Some(i);
                            deps[i].push(bit);
                        }
                    }
                }
            }
            t.evals += 1;
        }
    }
    for i in 0..len {
        let d = &deps[i];
        if d.len() > 10 {
            s.fail(format!("{name} len={len} entry {i}"), format!("depends on {} bits", d.len()));
            return;
        }
        for base in &bases {
            let mut got: BTreeMap<u64, u32> = BTreeMap::new();
            for a in 0..1u32 << d.len() {
                let mut b = base.clone();
                for (k, bit) in d.iter().enumerate() {
                    b[bit / 32] = b[bit / 32] & !(1 << (bit % 32)) | (a >> k & 1) << (bit % 32);
                }
                *got.entry(draw(b)[i]).or_default() += total;
                t.evals += 1;
            }
            for v in got.values_mut() {
                *v >>= d.len();
            }
            if got != *want {
                ck!(s, "distribution", [name, len, i], got, *want);
                return;
            }
        }
        t.distinct += 1;
    }
}
/// One entry from one word: counts over every value of the low 16 bits, with the rest of the word fixed to four patterns.
fn scalar(s: &Sec, name: &str, draw: &dyn Fn(&mut Bits) -> u64, want: &BTreeMap<u64, u32>, total: u32, t: &mut Tally) {
    let v = |w: u32| draw(&mut Bits::words(vec![w, w]));
    for hi in [false, true] {
        for rest in [0u32, 0xFFFF, 0x5555, 0x8001] {
            let mut got: BTreeMap<u64, u32> = BTreeMap::new();
            for lo in 0..1u32 << 16 {
                *got.entry(v(if hi { lo << 16 | rest } else { rest << 16 | lo })).or_default() += 1;
                t.evals += 1;
            }
            // either the low half decides (exact counts), or it does not matter at all
            let n = 1u32 << 16;
            let exact: BTreeMap<u64, u32> = want.iter().map(|(k, c)| (*k, n / total * c)).collect();
            if got != exact && !(got.len() == 1 && want.contains_key(got.keys().next().unwrap())) {
                ck!(s, "distribution", [name, rest, hi], got, exact);
            }
            t.distinct += got.len() as u64;
        }
    }
    // the whole word, coarsely: low 8 and high 8 bits together
    let mut got: BTreeMap<u64, u32> = BTreeMap::new();
    for w in 0..1u32 << 16 {
        *got.entry(v((w & 0xFF) | (w >> 8) << 24)).or_default() += 1;
    }
    let exact: BTreeMap<u64, u32> = want.iter().map(|(k, c)| (*k, (1 << 16) / total * c)).collect();
    if got != exact {
        ck!(s, "distribution", [name], got, exact);
    }
}
/// The lengths that keys have.
const LONG: [usize; 5] = [512, 1000, 1024, 1025, 2048];
fn field_bits<F: Field<Value: V>>(s: &Sec, maxlen: usize, long: bool, t: &mut Tally) {
    let q = fq::<F>();
    let bin: BTreeMap<u64, u32> = [(0, 1), (1, 1)].into();
    let mut ter: BTreeMap<u64, u32> = [(0, 2)].into();
    for v in [1, q - 1] {
        *ter.entry(v).or_default() += 1;
    }
    scalar(s, "field binary", &|r| val::<F>(FieldBinarySampler.sample(r)), &bin, 2, t);
    scalar(s, "field ternary", &|r| val::<F>(FieldTernarySampler.sample(r)), &ter, 4, t);
    for len in (0..=maxlen).chain(LONG.into_iter().filter(|_| long)) {
        cur(&[q, len as u64]);
        tick();
        bulk(s, "field binary vector", len, &|w| vals::<F>(&sample_binary_field_vec(len, w)), &bin, 2, t);
        bulk(s, "field ternary vector", len, &|w| vals::<F>(&sample_ternary_field_vec(len, w)), &ter, 4, t);
        if s.stopped() {
            return;
        }
    }
    for len in [1, 33, maxlen] {
        bulk(s, "polynomial binary", len, &|w| pvals::<F>(&Polynomial::random_with_binary(len, w)), &bin, 2, t);
        bulk(s, "polynomial ternary", len, &|w| pvals::<F>(&Polynomial::random_with_ternary(len, w)), &ter, 4, t);
    }
    tick();
}
fn int_bits<T>(s: &Sec, m: T, maxlen: usize, long: bool, t: &mut Tally)
where
    T: V + num_traits::ConstZero + num_traits::ConstOne + std::ops::Sub<Output = T> + AsFrom<u32>,
{
    let bin: BTreeMap<u64, u32> = [(0, 1), (1, 1)].into();
    let mut ter: BTreeMap<u64, u32> = [(0, 2)].into();
    for v in [1, m.to() - 1] {
        *ter.entry(v).or_default() += 1;
    }
    scalar(s, "integer binary", &|r| { let x: T = BinarySampler.sample(r); x.to() }, &bin, 2, t);
    scalar(s, "integer ternary", &|r| { let x: T = TernarySampler::new(m).sample(r); x.to() }, &ter, 4, t);
    for len in (0..=maxlen).chain(LONG.into_iter().filter(|_| long)) {
        cur(&[m.to(), len as u64]);
        tick();
        bulk(s, "integer binary vector", len, &|w| sample_binary_values::<T, _>(len, w).iter().map(|x| x.to()).collect(), &bin, 2, t);
        bulk(s, "integer ternary vector", len, &|w| sample_ternary_values::<T, _>(m, len, w).iter().map(|x| x.to()).collect(), &ter, 4, t);
        if s.stopped() {
            return;
        }
    }
    tick();
}

/// Centred binomial: 21 bits against 21 bits. Which bits of the stream they are is found by switching each of them.
fn cbd<F: Field<Value: V>>(s: &Sec, name: &str, draw: &dyn Fn(usize, &mut Stream) -> Vec<u64>, t: &mut Tally) {
    let q = fq::<F>();
    let run = |len: usize, bytes: Vec<u8>| -> (Vec<u64>, usize) {
        let mut r = Stream { bytes, pos: 0 };
        let v = draw(len, &mut r);
        (v, r.pos)
    };
    // for every bit of the stream: the entry it counts in, and whether for or against
    type Layout = Vec<Option<(usize, bool)>>;
    let layout = |len: usize, t: &mut Tally| -> Option<Layout> {
        let (zero, n) = run(len, vec![]);
        if zero != vec![0; len] {
            ck!(s, "cbd of zeros", [name, q, len], zero, vec![0; len]);
            return None;
        }
        let mut l: Layout = vec![None; n * 8];
        let mut side = vec![[0u32; 2]; len];
        for (bit, own) in l.iter_mut().enumerate() {
            let mut b = vec![0u8; n];
            b[bit / 8] |= 1 << (bit % 8);
            let (v, _) = run(len, b);
            t.evals += 1;
            for (i, x) in v.iter().enumerate().filter(|(_, x)| **x != 0) {
                if own.is_some() || *x != 1 && *x != q - 1 {
                    s.fail(format!("{name} q={q} len={len} stream bit {bit}"), format!("moves entry {i} to {x}, and {own:?}"));
                    return None;
                }
                *own = Some((i, *x == 1));
                side[i][(*x == 1) as usize] += 1;
            }
        }
        for (i, c) in side.iter().enumerate() {
            // modulo 2 there is no sign
            if q > 2 && *c != [21, 21] || c[0] + c[1] != 42 {
                ck!(s, "cbd bits against and for", [name, q, len, i], *c, [21, 21]);
                return None;
            }
        }
        Some(l)
    };
    let want = |l: &Layout, len: usize, b: &[u8]| -> Vec<u64> {
        let mut v = vec![0i64; len];
        for (bit, own) in l.iter().enumerate() {
            if let Some((i, plus)) = own {
                if b[bit / 8] >> (bit % 8) & 1 == 1 {
                    v[*i] += if *plus { 1 } else { -1 };
                }
            }
        }
        v.into_iter().map(|x| x.rem_euclid(q as i64) as u64).collect()
    };
    let Some(one) = layout(1, t) else { return };
    let n = one.len() / 8;
    let check = |b: Vec<u8>, t: &mut Tally| {
        let w = want(&one, 1, &b);
        let (g, _) = run(1, b.clone());
        if g != w {
            ck!(s, "cbd", [name, q, b], g, w);
        }
        t.evals += 1;
        t.distinct += 1;
    };
    let plus: Vec<usize> = (0..n * 8).filter(|b| matches!(one[*b], Some((_, true)))).collect();
    let minus: Vec<usize> = (0..n * 8).filter(|b| matches!(one[*b], Some((_, false)))).collect();
    let idle: Vec<usize> = (0..n * 8).filter(|b| one[*b].is_none()).collect();
    let of = |parts: &[&[usize]]| -> Vec<u8> {
        let mut b = vec![0u8; n];
        for bit in parts.iter().flat_map(|p| p.iter()) {
            b[bit / 8] |= 1 << (bit % 8);
        }
        b
    };
    // every value of every byte, others from patterns
    for p in 0..n {
        for v in 0..=255u8 {
            for rest in [of(&[]), of(&[&plus, &minus, &idle]), of(&[&plus]), of(&[&minus]), vec![0x5A; n]] {
                let mut b = rest;
                b[p] = v;
                check(b, t);
            }
        }
    }
    // every pair of bit counts
    for i in 0..=plus.len() {
        for j in 0..=minus.len() {
            check(of(&[&plus[..i], &minus[..j]]), t);
            check(of(&[&plus[..i], &minus[..j], &idle]), t);
            check(of(&[&plus[plus.len() - i..], &minus[minus.len() - j..], &idle]), t);
        }
    }
    // exact distribution of one half: every value of its bits against three of the other half
    for (half, fixed, sign) in [(&plus, &minus, 1i64), (&minus, &plus, -1)] {
        if half.len() != 21 {
            continue;
        }
        let mut counts = BTreeMap::<u64, u64>::new();
        for x in 0..1u32 << 21 {
            let mut b = of(&[&fixed[..3]]);
            for (k, bit) in half.iter().enumerate() {
                b[bit / 8] |= ((x >> k & 1) as u8) << (bit % 8);
            }
            *counts.entry(run(1, b).0[0]).or_default() += 1;
            t.evals += 1;
        }
        let mut c = 1u64;
        let mut want = BTreeMap::new();
        for k in 0..=21i64 {
            *want.entry((sign * (k - 3)).rem_euclid(q as i64) as u64).or_default() += c;
            c = c * (21 - k as u64) / (k as u64 + 1);
        }
        ck!(s, "cbd distribution", [name, q], counts, want);
        tick();
    }
    for len in (0..40usize).chain([255, 256, 1000, 1024, 4096]) {
        cur(&[q, len as u64]);
        let used = run(len, vec![]).1;
        let l = if len < 40 || used != len * n {
            if len > 1024 {
                continue;
            }
            let Some(l) = layout(len, t) else { return };
            l
        } else {
            // the entries take the same number of bytes each: those of entry i come at i times that number
            (0..len).flat_map(|i| one.iter().map(move |o| o.map(|(_, p)| (i, p)))).collect()
        };
        let mut mix = Mix(len as u64);
        let b: Vec<u8> = (0..l.len() / 8).map(|_| mix.next() as u8).collect();
        ck!(s, "cbd vector", [name, q, len], run(len, b.clone()).0, want(&l, len, &b));
        t.evals += 1;
        tick();
    }
}
fn cbds<F: Field<Value: V>>(s: &Sec, poly: bool, t: &mut Tally) {
    let gauss = FieldDiscreteGaussianSampler::new(0.0, 3.2).unwrap();
    if poly {
        cbd::<F>(s, "polynomial with deviation 3.2", &|len, r| pvals::<F>(&Polynomial::random_with_gaussian(len, r, gauss)), t);
    } else {
        cbd::<F>(s, "cbd vector", &|len, r| vals::<F>(&sample_cbd_field_vec(len, r)), t);
    }
}

/// Outputs that reach every layer of the normal generator, both signs, and its tail.
fn layer_scripts(dense: bool) -> Vec<Vec<u32>> {
    let mut v = vec![];
    let mant: Vec<u64> = if dense { (0..256).map(|i| i << 44 | 0x5A5).collect() } else { (0..32).map(|i| i << 47 | 0x5A5).collect() };
    for layer in 0..256u64 {
        for &m in mant.iter().chain([0u64, (1 << 52) - 1].iter()) {
            let w = layer | m << 12;
            let mut mix = Mix(w);
            let mut sc = vec![w as u32, (w >> 32) as u32];
            sc.extend((0..40).map(|_| mix.next() as u32));
            v.push(sc);
        }
    }
    v
}
/// The noise the definition demands: the first normal value within the limit, rounded to the nearest (halves away from zero).
fn noise(mean: f64, std: f64, max: f64, rng: &mut Bits) -> i64 {
    let n = Normal::new(mean, std).unwrap();
    loop {
        let v: f64 = n.sample(rng);
        if (v - mean).abs() < max {
            return v.round() as i64;
        }
    }
}
fn gauss_field<F: Field<Value: V>>(s: &Sec, mean: f64, std: f64, max: Option<f64>, scripts: &[Vec<u32>], t: &mut Tally) {
    let q = fq::<F>();
    let m = max.unwrap_or(6.0 * std);
    let g = match max {
        None => FieldDiscreteGaussianSampler::new(mean, std),
        Some(m) => FieldDiscreteGaussianSampler::new_with_max(mean, std, m),
    };
    let Ok(g) = g else {
        s.fail(format!("refused mean={mean} std={std} max={max:?}"), "a usable sampler is refused");
        return;
    };
    ck!(s, "accessors", [mean, std, max], (g.mean(), g.std_dev(), g.max_std_dev()), (mean, std, m));
    for sc in scripts {
        cur(&[q, sc[0] as u64, sc[1] as u64]);
        let want = noise(mean, std, m, &mut Bits::words(sc.clone()));
        if (want as f64 - mean).abs() > m + 0.5 || want.unsigned_abs() >= q {
            continue;
        }
        let w = want.rem_euclid(q as i64) as u64;
        let got = val::<F>(g.sample(&mut Bits::words(sc.clone())));
        if got != w {
            ck!(s, "field noise", [q, mean, std, max, sc[0], sc[1]], got, w);
        }
        // a polynomial of that noise; deviation 3.2 may use the binomial instead, when the limit allows it
        if !g.cbd_enable() {
            let p = pvals::<F>(&Polynomial::random_with_gaussian(1, &mut Bits::words(sc.clone()), g));
            if p != [w] {
                ck!(s, "noise polynomial", [q, mean, std, max, sc[0], sc[1]], p, [w]);
            }
        }
        t.evals += 1;
        t.distinct += (want != 0) as u64;
    }
    if g.cbd_enable() {
        // its values must respect the stated limit and have the stated deviation (21 bits against 21 bits)
        ck!(s, "binomial used", [mean, std, max], (mean, std, max.is_none() || m > 21.0), (0.0, 3.2, true));
    }
    // whole polynomials draw one after another
    let sc: Vec<u32> = scripts.iter().step_by(61).flat_map(|s| s.clone()).collect();
    for len in [0usize, 1, 5, 16] {
        let mut r = Bits::words(sc.clone());
        let want: Vec<u64> = (0..len).map(|_| noise(mean, std, m, &mut r).rem_euclid(q as i64) as u64).collect();
        if !g.cbd_enable() {
            ck!(s, "noise polynomial", [q, mean, std, max, len], pvals::<F>(&Polynomial::random_with_gaussian(len, &mut Bits::words(sc.clone()), g)), want);
        }
        ck!(s, "noise polynomial by distribution", [q, mean, std, max, len], pvals::<F>(&Polynomial::random_with_distribution(len, &mut Bits::words(sc.clone()), g)), want);
    }
    tick();
}
fn gauss_int<T>(s: &Sec, q: u64, mean: f64, std: f64, max: Option<f64>, scripts: &[Vec<u32>], t: &mut Tally)
where
    T: V + std::ops::Sub<Output = T> + AsFrom<f64>,
{
    let m = max.unwrap_or(6.0 * std);
    let g = match max {
        None => DiscreteGaussian::new(T::of(q), mean, std),
        Some(m) => DiscreteGaussian::new_with_max_limit(T::of(q), mean, std, m),
    };
    let Ok(g) = g else {
        s.fail(format!("refused q={q} mean={mean} std={std} max={max:?}"), "a usable sampler is refused");
        return;
    };
    ck!(s, "accessors", [q, mean, std, max], (g.mean(), g.std_dev(), g.max_std_dev()), (mean, std, m));
    for sc in scripts {
        cur(&[q, sc[0] as u64, sc[1] as u64]);
        let want = noise(mean, std, m, &mut Bits::words(sc.clone()));
        if want.unsigned_abs() >= q {
            continue;
        }
        let w = want.rem_euclid(q as i64) as u64;
        let got = g.sample(&mut Bits::words(sc.clone())).to();
        if got != w {
            ck!(s, "integer noise", [q, mean, std, max, sc[0], sc[1]], got, w);
        }
        t.evals += 1;
        t.distinct += (want != 0) as u64;
    }
    tick();
}

fn main() {
    let c = Ctx::new("C28", "exploration");
    c.rule("a case is a generator output (or every assignment of the generator bits that decide an entry) given to a sampler; for the noise samplers, every layer of the underlying normal generator with a set of mantissas");
    c.assume("the normal distribution of the rand_distr crate is trusted; the noise maximum is below half of the modulus; noise polynomials of deviation 3.2 use a centred binomial of 21 bits against 21 bits when the limit allows it");
    c.assume("64-bit uniform sampling is a monotone step function of the 64-bit generator output (the length of each step looked at is exact), or takes the low bits");
    c.section("uniform, all 2^32 generator outputs", "chunk", |s| {
        uniform32::<F2b>(s);
        uniform32::<F3b>(s);
        uniform32::<F61b>(s);
        uniform32::<F7681h>(s);
        uniform32::<F16381h>(s);
        uniform32::<DefaultQks>(s);
        uniform32::<DefaultFieldU32>(s);
        if c.thorough {
            uniform32::<F5b>(s);
            uniform32::<F17b>(s);
            uniform32::<F47b>(s);
            uniform32::<F97h>(s);
            uniform32::<F16193h>(s);
            uniform32::<F17>(s);
            uniform32::<F12289>(s);
            uniform32::<FTop32>(s);
            uniform32::<FMax32>(s);
        }
        s.sample(|| J::s("output 0x80000000 for modulus 132120577"));
    });
    c.section("uniform, 64-bit outputs", "modulus, residue", |s| {
        s.par(5, |i, t| match i {
            0 => uniform64::<F60>(s, t),
            1 => uniform64::<FTop64>(s, t),
            2 => uniform64::<FMax64>(s, t),
            3 => uniform64::<F17q>(s, t),
            _ => uniform64::<F257q>(s, t),
        });
        s.sample(|| J::s("residue 0 of modulus 2^60-ish"));
    });
    let maxlen = c.tier(70, 140);
    c.section("binary and ternary", "modulus, length", |s| {
        s.par(10, |i, t| match i {
            0 => field_bits::<F2b>(s, maxlen, false, t),
            1 => field_bits::<F61b>(s, maxlen, false, t),
            2 => field_bits::<F7681h>(s, maxlen, false, t),
            3 => field_bits::<DefaultFieldU32>(s, maxlen, true, t),
            4 => field_bits::<FTop64>(s, maxlen, false, t),
            5 => int_bits::<u8>(s, 128, maxlen, false, t),
            6 => int_bits::<u16>(s, 1024, maxlen, true, t),
            7 => int_bits::<u32>(s, 132120577, maxlen, false, t),
            8 => int_bits::<u64>(s, 1 << 40, maxlen, false, t),
            _ => int_bits::<u16>(s, 2, maxlen, false, t),
        });
        s.sample(|| J::s("ternary vector of length 17: the entry 16 over every value of its bits"));
    });
    c.section("centred binomial", "", |s| {
        s.par(12, |i, t| match i / 2 {
            0 => cbds::<F97h>(s, i % 2 == 1, t),
            1 => cbds::<DefaultFieldU32>(s, i % 2 == 1, t),
            2 => cbds::<F47b>(s, i % 2 == 1, t),
            3 => cbds::<FTop64>(s, i % 2 == 1, t),
            4 => cbds::<DefaultQks>(s, i % 2 == 1, t),
            _ => cbds::<F23b>(s, i % 2 == 1, t),
        });
        s.sample(|| J::s("bytes ff ff 1f 00 00 00 -> 21"));
    });
    let scripts = layer_scripts(c.thorough);
    c.section("noise samplers", "modulus, word 0, word 1", |s| {
        let combos: Vec<(f64, f64, Option<f64>)> = vec![
            (0., 3.2, None),
            (0., 3.2, Some(5.0)),
            (0., 3.2, Some(3.3)),
            (0., 3.2, Some(21.0)),
            (0., 3.2, Some(25.0)),
            (-0., 3.2, None),
            (0., 0.5, None),
            (0., 1e-9, None),
            (0., 6.4, None),
            (0., 1.0, Some(1.5)),
            (5., 2.0, None),
            (-7.25, 1.5, None),
            (0., 0., Some(1.0)),
            (0., 40., None),
            (0., 1000., None),
        ];
        s.par(combos.len() * 10, |i, t| {
            let (mean, std, max) = combos[i / 10];
            let m = max.unwrap_or(6. * std) + mean.abs();
            macro_rules! f { ($f:ty) => { if m < fq::<$f>() as f64 / 2. { gauss_field::<$f>(s, mean, std, max, &scripts, t) } } }
            macro_rules! g { ($t:ty, $q:expr) => { if m < $q as f64 / 2. { gauss_int::<$t>(s, $q, mean, std, max, &scripts, t) } } }
            match i % 10 {
                0 => f!(F61b),
                1 => f!(F7681h),
                2 => f!(DefaultFieldU32),
                3 => f!(FTop64),
                4 => f!(DefaultQks),
                5 => g!(u8, 128u64),
                6 => g!(u16, 1024u64),
                7 => g!(u16, 16384u64),
                8 => g!(u32, 1u64 << 31),
                _ => g!(u64, 1u64 << 50),
            }
        });
        s.sample(|| J::s("layer 3, mantissa 0x8005a5"));
    });
    c.section("construction: refused or terminating", "mean, deviation, limit (bits)", |s| {
        let nan = f64::NAN;
        // after the scripted outputs: a fixed sequence without structure, so that no rejection loop starves
        let tail: Vec<u32> = (1..20_000u64).map(|i| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (i << 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(17) as u32).collect();
        let script = |w: &[u32]| Bits::words(w.iter().chain(&tail).copied().collect());
        let vs = [0., -0., 1., -1., 0.5, 3.2, 1e-9, 5e-324, 1e-320, -1e-9, nan, f64::INFINITY, f64::NEG_INFINITY];
        let mut t = Tally::default();
        for mean in [0., 1., -3., 0.5, nan, f64::INFINITY, f64::NEG_INFINITY] {
            for std in vs {
                for max in vs.iter().map(|v| Some(*v)).chain([None, Some(100.), Some(19.2)]) {
                    cur(&[f64::to_bits(mean), f64::to_bits(std), f64::to_bits(max.unwrap_or(-2.))]);
                    let bad = !mean.is_finite() || !std.is_finite() || std < 0. || max.is_some_and(|m| m.is_nan() || m <= std) || max.is_none() && std == 0.;
                    let a = match max {
                        None => FieldDiscreteGaussianSampler::new(mean, std),
                        Some(m) => FieldDiscreteGaussianSampler::new_with_max(mean, std, m),
                    };
                    let b = match max {
                        None => DiscreteGaussian::new(1024u16, mean, std),
                        Some(m) => DiscreteGaussian::new_with_max_limit(1024u16, mean, std, m),
                    };
                    if bad {
                        // either refused, or it does produce values
                        if let Ok(g) = &a {
                            if catch(|| val::<DefaultFieldU32>(g.sample(&mut script(&[7; 50])))).is_err() {
                                s.fail(format!("field noise sampler mean={mean} std={std} max={max:?}"), "accepted, but sampling hangs or panics");
                            }
                        }
                        if let Ok(g) = &b {
                            if catch(|| g.sample(&mut script(&[7; 50]))).is_err() {
                                s.fail(format!("integer noise sampler mean={mean} std={std} max={max:?}"), "accepted, but sampling hangs or panics");
                            }
                        }
                        if std < 0. || max.is_some_and(|m| m <= std) {
                            ck!(s, "refused", [mean, std, max], (a.is_err(), b.is_err()), (true, true));
                        }
                    } else {
                        ck!(s, "accepted", [mean, std, max], (a.is_ok(), b.is_ok()), (true, true));
                        for w in [vec![7u32; 50], vec![0; 10], vec![u32::MAX; 50]] {
                            if let (Ok(a), Ok(b)) = (&a, &b) {
                                let lim = max.unwrap_or(6. * std);
                                if lim > 500. {
                                    continue;
                                }
                                if let Err(e) = catch(|| (val::<DefaultFieldU32>(a.sample(&mut script(&w))), b.sample(&mut script(&w)))) {
                                    s.fail(format!("noise sampler mean={mean} std={std} max={max:?}"), e);
                                }
                            }
                        }
                    }
                    t.evals += 1;
                    t.distinct += 1;
                }
            }
        }
        s.add(&t);
        s.sample(|| J::s("deviation 0 without a limit"));
    });
    c.finish()
}
