//! C25: encryption and decryption at the scheme level, for every key, mask and noise of toy dimensions.
use fhe_core::LWEMsgType;
use harness::fields::*;
use harness::oracle::each_vector;
use harness::ring::{lphase, Fld};
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use std::collections::BTreeSet;
use zkfhe::{Decryptor, Encryptor};

trait Msg: LWEMsgType + PartialEq + std::fmt::Debug {
    const MAX: u64;
    fn of(x: u64) -> Self;
    fn to(self) -> u64;
}
macro_rules! msg { ($($t:ty)*) => { $( impl Msg for $t { const MAX: u64 = <$t>::MAX as u64; fn of(x: u64) -> Self { x as $t } fn to(self) -> u64 { self as u64 } } )* } }
msg! { u8 u16 u32 u64 }
impl Msg for bool {
    const MAX: u64 = 1;
    fn of(x: u64) -> Self {
        x == 1
    }
    fn to(self) -> u64 {
        self as u64
    }
}
/// Messages that decoding may return for this phase: the nearest, or either neighbour of a tie.
fn nearest(v: u64, t: u64, q: u64) -> (u64, bool) {
    let step = (q / t) as u128;
    (((2 * v as u128 + step) / (2 * step) % t as u128) as u64, step > 1 && v as u128 % step == step / 2)
}

/// Every ciphertext under every key: decryption is the decoding of the phase.
fn decrypt_all<M: Msg, C: Cw, Q: Fld>(s: &Sec, n: usize, q: u64, lks: &[Lk], ts: &[u64]) {
    for &lk in lks {
        for &t in ts {
            let k = Toy { lk, t, ..Toy::new(n, q, 4, Steps::BrMsKs) };
            // one pack per LWE key
            let mut seen = BTreeSet::new();
            let mut packs = vec![];
            let want = if lk == Lk::Binary { 2usize.pow(n as u32) } else { 3usize.pow(n as u32) };
            for seed in 0..4000 {
                if packs.len() == want {
                    break;
                }
                let p = SecretKeyPack::<C, Q>::new(k.params(), &mut DetRng(seed));
                if seen.insert(lkey(&p)) {
                    packs.push(p);
                }
            }
            s.par(packs.len(), |i, tl| {
                let p = &packs[i];
                let d = Decryptor::new(p.clone());
                let l = lkey(p);
                for v in each_vector(q, n + 1) {
                    cur(&[q, n as u64, t, i as u64, v[0], v[n]]);
                    let ph = lphase(&v[..n], v[n], &l, q);
                    let (m, tie) = nearest(ph, t, q);
                    let lower = (m + t - 1) % t;
                    if m > M::MAX || tie && lower > M::MAX {
                        continue;
                    }
                    let c = ct::<C>(&v[..n], v[n]);
                    let g: [(u64, Option<u64>); 4] = [
                        (p.decrypt::<M>(&c).to(), None),
                        (d.decrypt::<M>(&c).to(), None),
                        {
                            let (m, e) = p.decrypt_with_noise::<M>(&c);
                            (m.to(), Some(e.to()))
                        },
                        {
                            let (m, e) = d.decrypt_with_noise::<M>(&c);
                            (m.to(), Some(e.to()))
                        },
                    ];
                    for (w, (x, e)) in g.into_iter().enumerate() {
                        let noise = mag((ph + q - x * (q / t)) % q, q);
                        if x != m && !(tie && x == lower) || e.is_some_and(|e| e != noise) {
                            s.fail(format!("decryption form {w} of {v:?} modulo {q} with key {l:?}, t={t}"), format!("phase {ph}: message {x}, noise {e:?}; want message {m}, noise {noise}"));
                        }
                    }
                    tl.evals += 4;
                    tl.distinct += 1;
                }
                tick();
                s.sample(|| J::obj([("parameters", J::s(&k.name())), ("t", J::n(t)), ("LWE key", J::s(&format!("{l:?}")))]));
            });
        }
    }
}
/// Encryptions with generator states 0, 1, ... until every mask (where `masks`) and every noise of
/// magnitude up to `deep` deviations occurred for the message.
fn encrypt_all<M: Msg, C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], nkeys: usize, msgs: &(dyn Fn(u64) -> Vec<u64> + Sync), masks: bool, cap: u64) {
    let mut jobs = vec![];
    for k in toys {
        let mut seen = BTreeSet::new();
        let mut packs = vec![];
        for seed in 0..if k.n > 64 { 2 } else { 2000 } {
            let p = SecretKeyPack::<C, Q>::new(k.params(), &mut DetRng(seed));
            if seen.insert(lkey(&p)) {
                packs.push(p);
            }
            if seen.len() == 243 {
                break;
            }
        }
        packs.sort_by_key(|p| lkey(p));
        for p in spread(&packs, nkeys) {
            for m in msgs(k.t).into_iter().filter(|m| *m < k.t && *m <= M::MAX) {
                jobs.push((*k, p.clone(), m));
            }
        }
    }
    s.par(jobs.len(), |i, tl| {
        let (k, p, m) = &jobs[i];
        let l = lkey(p);
        let (q, t) = (k.q, k.t);
        let step = q / t;
        let (enc, dec) = (Encryptor::new(p.clone()), Decryptor::new(p.clone()));
        let most = (6.0 * k.sl) as u64;
        let deep = (1.5 * k.sl) as i64;
        let mut noises: BTreeSet<i64> = BTreeSet::new();
        let mut seen: BTreeSet<Vec<u64>> = BTreeSet::new();
        let want_masks = if masks { q.pow(k.n as u32) } else { 0 };
        let complete = |noises: &BTreeSet<i64>, seen: &BTreeSet<Vec<u64>>| (-deep..=deep).all(|e| noises.contains(&e)) && seen.len() as u64 >= want_masks;
        let mut seed = 0;
        while seed < cap && !(seed > 20 && complete(&noises, &seen)) {
            cur(&[q, k.n as u64, t, i as u64, *m, seed]);
            let c = if seed % 2 == 0 { p.encrypt(M::of(*m), &mut DetRng(seed * 7919 + i as u64)) } else { enc.encrypt(M::of(*m), &mut DetRng(seed * 7919 + i as u64)) };
            let (a, b) = unct(&c);
            let what = || format!("{} t={t} deviation {} key {} message {m} generator state {seed}", k.name(), k.sl, if l.len() < 20 { format!("{l:?}") } else { String::new() });
            if a.len() != k.n || a.iter().any(|x| *x >= q) || b >= q {
                s.fail(what(), format!("not a ciphertext modulo {q} of dimension {}: {a:?} {b}", k.n));
                return;
            }
            let e = (lphase(&a, b, &l, q) as u128 + q as u128 - *m as u128 * step as u128) % q as u128;
            let e = e as u64;
            let noise = mag(e, q);
            noises.insert(if e == noise { e as i64 } else { -(noise as i64) });
            if masks && seen.len() as u64 <= want_masks {
                seen.insert(a);
            }
            if noise > most {
                s.fail(what(), format!("noise {noise}"));
            }
            if 2 * noise < step || noise == 0 {
                let (m1, e1) = p.decrypt_with_noise::<M>(&c);
                let (m2, e2) = dec.decrypt_with_noise::<M>(&c);
                let got = [p.decrypt::<M>(&c).to(), dec.decrypt::<M>(&c).to(), m1.to(), m2.to()];
                if got != [*m; 4] || e1.to() != noise || e2.to() != noise {
                    s.fail(what(), format!("with noise {noise} decrypts to {got:?} with reported noise {} and {}", e1.to(), e2.to()));
                }
                tl.evals += 4;
            }
            tl.distinct += 1;
            seed += 1;
            if seed % 512 == 0 {
                tick();
            }
            if s.stopped() {
                return;
            }
        }
        if !complete(&noises, &seen) {
            s.fail(format!("{} t={t} deviation {} message {m}", k.name(), k.sl), format!("in {seed} encryptions only the noises {noises:?} and {} of {want_masks} masks occurred", seen.len()));
        }
        s.sample(|| J::obj([("parameters", J::s(&k.name())), ("t", J::n(t)), ("message", J::n(*m)), ("noises seen", J::s(&format!("{noises:?}"))), ("encryptions", J::n(seed))]));
    });
}
fn powers(q: u64, from: u64) -> Vec<u64> {
    (0..64).map(|i| 1u64 << i).filter(|t| *t >= from && *t <= q).collect()
}
fn kinds(k: Toy) -> Vec<Toy> {
    vec![Toy { lk: Lk::Binary, ..k }, k]
}
fn main() {
    let c = Ctx::new("C25", "exploration");
    c.rule("decryption: every ciphertext under every key of toy dimensions and every plain modulus, through every public form and message type, against the nearest message of the phase; encryption: for every key and message, generator states 0, 1, 2, ... until every mask (small cases) and every noise up to 1.5 deviations occurred, the noise being read from the ciphertext with the key; every ciphertext within the margin must decrypt to its message with that noise reported; distinct counts (key, t, ciphertext) and (key, message, generator state)");
    c.assume("the other deviations of the parameter sets are far larger or smaller, so noise of the wrong one is seen; a noise or mask that does not occur within the stated number of encryptions never occurs");
    const L: &str = "q, n, t, job, message (or first mask entry), generator state (or body)";
    let both = [Lk::Binary, Lk::Ternary];
    let all = |t: u64| (0..t).collect::<Vec<u64>>();
    let some = |t: u64| {
        let mut v = vec![0, 1, t / 2, t - 1, t / 3, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32];
        v.retain(|m| *m < t);
        v.sort();
        v.dedup();
        v
    };
    c.section("decryption of every ciphertext", L, |s| {
        for q in [4, 8, 16] {
            decrypt_all::<bool, u8, F17>(s, 1, q, &both, &[2]);
            decrypt_all::<u8, u8, F17>(s, 1, q, &both, &powers(q, 2));
            decrypt_all::<u16, u16, F17>(s, 2, q, &both, &powers(q, 1));
            decrypt_all::<u32, u64, F17>(s, 2, q, &both, &powers(q, 2));
        }
        decrypt_all::<bool, u16, F17>(s, 2, 32, &both, &[2, 4]);
        decrypt_all::<u8, u8, F97>(s, 1, 128, &both, &powers(128, 2));
        decrypt_all::<u64, u32, F97>(s, 3, 8, &both, &[2, 4, 8]);
        decrypt_all::<u8, u16, F97>(s, 1, 512, &both, &[2, 4, 256, 512]);
        decrypt_all::<bool, u16, F97>(s, 4, c.tier(4, 8), &both, &[2, 4]);
        if c.thorough {
            decrypt_all::<u8, u8, F97>(s, 2, 128, &both, &[2, 4, 32, 128]);
            decrypt_all::<u8, u32, F97>(s, 2, 64, &both, &[2, 4, 32, 64]);
            decrypt_all::<u16, u16, F97>(s, 1, 1 << 12, &both, &[2, 4, 1 << 10, 1 << 12]);
        }
    });
    c.section("encryption: every mask and noise", L, |s| {
        let cap = 200_000;
        for (q, n) in [(4, 1), (8, 1), (8, 2), (16, 2), (4, 4), (64, 1)] {
            for t in powers(q, 2) {
                let k = Toy { t, sl: 0.8, sr: 30.0, sk: 40.0, ..Toy::new(n, q, 4, Steps::BrMsKs) };
                encrypt_all::<u8, u8, F97>(s, &kinds(k), c.tier(27, 243), &all, true, cap);
                encrypt_all::<bool, u16, F97>(s, &kinds(Toy { sl: NO, steps: Steps::BrKsMs, ..k }), 27, &all, true, cap);
            }
        }
        for steps in [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs] {
            for t in [2, 4, 8, 64] {
                let k = Toy { t, sl: 3.2, sr: 0.4, sk: 0.4, ..Toy::new(4, 1024, 4, steps) };
                encrypt_all::<u16, u16, F97>(s, &kinds(k), c.tier(20, 81), &all, false, cap);
                encrypt_all::<bool, u32, F97>(s, &kinds(Toy { q: 1 << 14, sl: 6.4, ..k }), c.tier(20, 81), &all, false, cap);
            }
        }
    });
    c.section("encryption: wide moduli and real dimensions", L, |s| {
        let cap = c.tier(4000, 100_000);
        for (i, t) in powers(1 << 63, 2).into_iter().enumerate() {
            if i % c.tier(4, 1) == 0 || t == 1 << 63 {
                let k = Toy { t, sl: 3.2, sr: 0.4, sk: 0.4, ..Toy::new(3, 1 << 63, 4, Steps::BrMsKs) };
                encrypt_all::<u64, u64, F97>(s, &kinds(k), c.tier(4, 27), &some, false, cap);
                encrypt_all::<u64, u32, F97>(s, &kinds(Toy { t: t.min(1 << 31), q: 1 << 31, ..k }), c.tier(4, 27), &some, false, cap);
                encrypt_all::<u64, u16, F97>(s, &kinds(Toy { t: t.min(1 << 15), q: 1 << 15, ..k }), c.tier(4, 27), &some, false, cap);
                encrypt_all::<u32, u8, F97>(s, &kinds(Toy { t: t.min(1 << 7), q: 1 << 7, ..k }), c.tier(4, 27), &some, false, cap);
            }
        }
        use fhe_core::DefaultFieldU32 as D;
        for k in [Toy { sl: 3.2, sr: 6.4, sk: 6.4, ..Toy::new(1024, 1024, 1024, Steps::BrKsMs) }, Toy { sl: 3.2, sr: 6.4, sk: 6.4, ..Toy::new(512, 1 << 14, 1024, Steps::BrMsKs) }, Toy { sl: 3.2, sr: 30.0, ..Toy::new(1024, 2048, 1024, Steps::BrMs) }] {
            encrypt_all::<bool, u16, D>(s, &kinds(k), 2, &all, false, cap);
            encrypt_all::<u8, u16, D>(s, &kinds(k), 2, &all, false, cap);
        }
    });
    c.finish()
}
