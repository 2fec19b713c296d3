//! Evaluations with fixed inputs on evaluators of several parameter sets.
use crate::fields::*;
use crate::ring::{rl, Fld};
use crate::rngs::DetRng;
use crate::scheme::*;
use crate::*;
use fhe_core::{lwe_modulus_switch_inplace, BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey};
use lattice::LWE;
use std::fmt::Debug;
use zkfhe::bfhe::Evaluator;

/// Keys and inputs of one parameter set.
pub struct Set<C: Cw, Q: Fld> {
    pub pack: SecretKeyPack<C, Q>,
    pub ev: Evaluator<C, Q>,
    pub br: BlindRotationKey<Q>,
    pub ks_lwe: Option<KeySwitchingLWEKey<C>>,
    pub ks_rlwe: Option<KeySwitchingRLWEKey<Q>>,
    /// ciphertexts: encryptions of 0, 1, 1 with dense masks
    pub cts: Vec<LWECiphertext<C>>,
    pub lut: Vec<u64>,
    pub k: Toy,
}
impl<C: Cw, Q: Fld> Set<C, Q> {
    pub fn new(k: Toy) -> Self {
        let pack = SecretKeyPack::<C, Q>::new(k.params(), &mut DetRng(7));
        let q = fq::<Q>();
        Set {
            ev: Evaluator::new(&pack, &mut DetRng(8)),
            br: BlindRotationKey::generate(&pack, &mut DetRng(9)),
            ks_lwe: matches!(k.steps, Steps::BrMsKs).then(|| KeySwitchingLWEKey::generate(&pack, &mut DetRng(10))),
            ks_rlwe: matches!(k.steps, Steps::BrKsMs).then(|| KeySwitchingRLWEKey::generate(&pack, &mut DetRng(11))),
            cts: (0..3).map(|i| pack.encrypt(i > 0, &mut DetRng(20 + i))).collect(),
            lut: (0..k.nn as u64).map(|i| (i * i * 7 + 3 + q / 3) % q).collect(),
            pack,
            k,
        }
    }
    /// The operations of this set, each with fixed inputs.
    pub const OPS: [&'static str; 16] = ["nand", "xor", "mux", "majority", "not", "bootstrap", "blind_rotate", "key_switch", "and", "or", "key_switch_for_lwe", "nor", "xnor", "gate of a clone", "mux with the branches swapped", "decrypt"];
    /// Runs one; Err if it changed its inputs.
    pub fn run(&self, op: usize) -> Result<String, String> {
        let c = &self.cts;
        let before: Vec<LWECiphertext<C>> = c.clone();
        fn show(x: impl Debug) -> String {
            format!("{x:?}")
        }
        let q = fq::<Q>();
        let dense = |n: usize, m: u64| -> Vec<u64> { (0..n as u64).map(|i| ((i * i * 31 + 17 * i + 5) as u128 * (q / 2 + m) as u128 % q as u128) as u64).collect() };
        let r = match Self::OPS[op] {
            "nand" => show(self.ev.nand(&c[0], &c[1])),
            "and" => show(self.ev.and(&c[1], &c[2])),
            "or" => show(self.ev.or(&c[0], &c[1])),
            "nor" => show(self.ev.nor(&c[0], &c[0])),
            "xor" => show(self.ev.xor(&c[2], &c[0])),
            "xnor" => show(self.ev.xnor(&c[2], &c[1])),
            "mux" => show(self.ev.mux(&c[1], &c[0], &c[2])),
            "mux with the branches swapped" => show(self.ev.mux(&c[0], &c[2], &c[0])),
            "majority" => show(self.ev.majority(&c[0], &c[1], &c[2])),
            "not" => show(self.ev.not(&c[1])),
            "bootstrap" => show(self.ev.bootstrap(c[1].clone(), poly::<Q>(&self.lut))),
            "gate of a clone" => show(self.ev.clone().nand(&c[2], &c[0])),
            "blind_rotate" => {
                let m = 2 * self.k.nn as u64;
                let a: Vec<u64> = (0..self.k.n as u64).map(|i| (i * 7 + 3) % m).collect();
                show(self.br.blind_rotate(poly::<Q>(&self.lut), &ct::<C>(&a, m - 3), self.pack.parameters().blind_rotation_basis()))
            }
            "key_switch" => match (&self.ks_lwe, &self.ks_rlwe) {
                (Some(k), _) => {
                    let a: Vec<u64> = (0..self.k.nn as u64).map(|i| (i * i * 5 + 3) % self.k.q).collect();
                    show(k.key_switch_for_lwe(ct::<C>(&a, self.k.q - 1)))
                }
                (_, Some(k)) => show(k.key_switch_for_rlwe(rl::<Q>(&(dense(self.k.nn, 1), dense(self.k.nn, 3))))),
                _ => String::new(),
            },
            "key_switch_for_lwe" => match &self.ks_rlwe {
                Some(k) => show(k.key_switch_for_lwe(LWE::new(fes::<Q>(&dense(self.k.nn, 7)), fe(2)))),
                _ => {
                    // the destination is reused
                    let mut out = c[2].clone();
                    lwe_modulus_switch_inplace(LWE::new(fes::<Q>(&dense(self.k.n, 5)), fe::<Q>(3)), C::of(self.k.q), &mut out);
                    show(out)
                }
            },
            "decrypt" => show((self.pack.decrypt::<u8>(&c[0]), self.pack.decrypt_with_noise::<u8>(&c[1]).0)),
            _ => unreachable!(),
        };
        if *c != before {
            return Err(format!("{} changed its inputs from {before:?} to {c:?}", Self::OPS[op]));
        }
        Ok(r)
    }
}
impl<C: Cw, Q: Fld> Set<C, Q> {
    /// Ciphertexts that agree with others of the pool in all but one component, or in all but the body.
    pub fn pool(&self) -> Vec<LWECiphertext<C>> {
        let (n, q) = (self.k.n, self.k.q);
        let mut v: Vec<Vec<u64>> = vec![];
        for base in 0..4u64 {
            let w: Vec<u64> = (0..=n as u64).map(|i| [0, q - 1, (i * i * 5 + 3 * i + 1) % q, (q / 2 + i * 11) % q][base as usize]).collect();
            v.push(w.clone());
            for i in [0, n / 2, n - 1, n] {
                for d in [1, q / 4, q / 2] {
                    let mut x = w.clone();
                    x[i] = (x[i] + d) % q;
                    v.push(x);
                }
            }
        }
        v.sort();
        v.dedup();
        v.iter().map(|w| ct::<C>(&w[..n], w[n])).collect()
    }
    /// Evaluation number `i` on ciphertexts of the pool.
    pub fn numbered(&self, pool: &[LWECiphertext<C>], i: u64) -> LWECiphertext<C> {
        let p = pool.len() as u64;
        let (x, y, z) = (&pool[(i / 10 % p) as usize], &pool[(i / 10 / p % p) as usize], &pool[((i / 10 * 7 + 3) % p) as usize]);
        let ev = &self.ev;
        match i % 10 {
            0 => ev.nand(x, y),
            1 => ev.and(x, y),
            2 => ev.or(x, y),
            3 => ev.nor(x, y),
            4 => ev.xor(x, y),
            5 => ev.xnor(x, y),
            6 => ev.majority(x, y, z),
            7 => ev.mux(x, y, z),
            8 => ev.not(x),
            _ => {
                let q = fq::<Q>();
                let lut: Vec<u64> = (0..self.k.nn as u64).map(|j| (j * j * 7 + 3 + (i / 10) % 5 * (q / 3)) % q).collect();
                ev.bootstrap(x.clone(), poly::<Q>(&lut))
            }
        }
    }
    /// Runs evaluations `order(0)`, `order(1)`, ... and returns a digest of each, by number.
    pub fn long(&self, m: u64, order: impl Fn(u64) -> u64) -> Vec<u64> {
        use std::hash::{Hash, Hasher};
        let pool = self.pool();
        let mut out = vec![0; m as usize];
        for t in 0..m {
            let i = order(t);
            let c = self.numbered(&pool, i);
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (c.a().iter().map(|x| x.to()).collect::<Vec<u64>>(), c.b().to()).hash(&mut h);
            out[i as usize] = h.finish() | 1;
        }
        out
    }
}
/// All parameter sets: three step orders, equal and different fields, ring dimensions and steps of the tables.
pub struct World {
    pub a: Option<Set<u16, F97>>,
    pub b: Option<Set<u16, F257>>,
    pub c: Option<Set<u16, F97>>,
    pub d: Option<Set<u32, F97>>,
    pub e: Option<Set<u64, F60>>,
    pub f: Option<Set<u16, F257>>,
}
/// set and operation of every letter of the alphabet
pub const ALPHABET: [(u8, usize); 36] = [
    (0, 0), (0, 1), (0, 2), (0, 3), (0, 5), (0, 6), (0, 7), (0, 10), (0, 13), (0, 4), (0, 15),
    (1, 0), (1, 2), (1, 5), (1, 7), (1, 6),
    (2, 1), (2, 2), (2, 6), (2, 10),
    (3, 0), (3, 7), (3, 10), (3, 14), (3, 6),
    (4, 8), (4, 2), (4, 7), (4, 10), (4, 12),
    (1, 9), (2, 11),
    (5, 8), (5, 1), (5, 2), (5, 5),
];
impl World {
    pub fn new() -> World {
        World::with(&(0..ALPHABET.len()).collect::<Vec<_>>())
    }
    /// Only the sets that these letters use, made in the order of the letters.
    pub fn with(letters: &[usize]) -> World {
        let mut w = World { a: None, b: None, c: None, d: None, e: None, f: None };
        for l in letters {
            w.need(*l);
        }
        w
    }
    /// Makes the set of this letter unless it is there.
    pub fn need(&mut self, letter: usize) {
        {
            let w = self;
            match ALPHABET[letter].0 {
                0 => w.a = w.a.take().or_else(|| Some(Set::new(Toy { sl: 0.5, bb: 2, kb: 3, ..Toy::new(3, 64, 16, Steps::BrKsMs) }))),
                1 => w.b = w.b.take().or_else(|| Some(Set::new(Toy { sl: 0.5, bb: 3, kb: 2, lk: Lk::Binary, ..Toy::new(2, 512, 32, Steps::BrMsKs) }))),
                2 => w.c = w.c.take().or_else(|| Some(Set::new(Toy { sl: 0.5, bb: 1, ..Toy::new(16, 1024, 16, Steps::BrMs) }))),
                3 => w.d = w.d.take().or_else(|| Some(Set::new(Toy { sl: 0.5, bb: 7, kb: 1, lk: Lk::Binary, rk: Rk::Binary, ..Toy::new(4, 32, 8, Steps::BrKsMs) }))),
                4 => w.e = w.e.take().or_else(|| Some(Set::new(Toy { sl: 0.5, sr: 3.2, sk: 3.2, bb: 10, kb: 15, ..Toy::new(2, 128, 32, Steps::BrKsMs) }))),
                _ => w.f = w.f.take().or_else(|| Some(Set::new(Toy { sl: 0.5, bb: 4, kb: 4, ..Toy::new(2, 16, 32, Steps::BrKsMs) }))),
            }
        }
    }
    /// A long history on one set.
    pub fn long(&self, set: u8, m: u64, order: impl Fn(u64) -> u64) -> Vec<u64> {
        match set {
            0 => self.a.as_ref().unwrap().long(m, order),
            1 => self.b.as_ref().unwrap().long(m, order),
            2 => self.c.as_ref().unwrap().long(m, order),
            3 => self.d.as_ref().unwrap().long(m, order),
            4 => self.e.as_ref().unwrap().long(m, order),
            _ => self.f.as_ref().unwrap().long(m, order),
        }
    }
    pub fn run(&self, letter: usize) -> Result<String, String> {
        let (s, op) = ALPHABET[letter];
        match s {
            0 => self.a.as_ref().unwrap().run(op),
            1 => self.b.as_ref().unwrap().run(op),
            2 => self.c.as_ref().unwrap().run(op),
            3 => self.d.as_ref().unwrap().run(op),
            4 => self.e.as_ref().unwrap().run(op),
            _ => self.f.as_ref().unwrap().run(op),
        }
    }
}
pub fn name(letter: usize) -> String {
    let (s, op) = ALPHABET[letter];
    format!("{}.{}", ["A", "B", "C", "D", "E", "F"][s as usize], Set::<u16, F97>::OPS[op])
}
