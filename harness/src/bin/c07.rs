//! C07: primality: primes are never rejected; composites are recognised; the witnesses matter.
use algebra::modulus::BarrettModulus;
use algebra::utils::Prime;
use harness::*;
use std::cell::RefCell;
use std::rc::Rc;

fn sieve(n: usize) -> Vec<bool> {
    let mut p = vec![true; n];
    p[0] = false;
    p[1] = false;
    let mut i = 2;
    while i * i < n {
        if p[i] {
            for j in (i * i..n).step_by(i) {
                p[j] = false;
            }
        }
        i += 1;
    }
    p
}
fn mulm(a: u64, b: u64, m: u64) -> u64 {
    (a as u128 * b as u128 % m as u128) as u64
}
fn powm(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, m);
        }
        a = mulm(a, a, m);
        e >>= 1;
    }
    r
}
/// Deterministic test for 64-bit integers (first twelve primes as bases).
fn is_prime(n: u64) -> bool {
    const B: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 {
        return false;
    }
    for p in B {
        if n % p == 0 {
            return n == p;
        }
    }
    let r = (n - 1).trailing_zeros();
    let q = (n - 1) >> r;
    'b: for a in B {
        let mut x = powm(a, q, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..r {
            x = mulm(x, x, n);
            if x == n - 1 {
                continue 'b;
            }
        }
        return false;
    }
    true
}
macro_rules! test {
    ($T:ty, $n:expr, $r:expr) => {
        BarrettModulus::<$T>::new($n as $T).probably_prime($r)
    };
}

/// strong pseudoprimes to small sets of bases, and products p*q with q-1 a small multiple of p-1
fn hard(bits: u32) -> Vec<u64> {
    let lim = 1u64 << (bits - 2);
    let mut v: Vec<u64> = vec![
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751,
        1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
        561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101,
        252601, 294409, 399001, 410041, 449065, 488881, 512461, 1024651, 56052361, 118901521, 172947529, 216821881, 228842209,
        1299963601, 2301745249, 9624742921, 11346205609, 13079177569, 21515221081, 27278026129, 65700513721, 71171308081,
        1152921504606846976 / 3,
    ];
    for p in (59..4000u64).filter(|p| is_prime(*p)) {
        for k in [2u64, 3, 4, 5, 6] {
            let q = k * (p - 1) + 1;
            if is_prime(q) {
                v.push(p * q);
            }
        }
        v.push(p * p);
    }
    for p in [65537u64, 1000003, 16777213, 33554393, 67108859, 268435399, 536870909, 1073741789, 715827883, 1431655751] {
        for k in [1u64, 2, 3, 4] {
            let q = k * (p - 1) + 1;
            if is_prime(q) {
                if let Some(n) = p.checked_mul(q) {
                    v.push(n);
                }
            }
        }
    }
    v.retain(|x| *x < lim && *x >= 2);
    v.sort();
    v.dedup();
    v
}

fn main() {
    let c = Ctx::new("C07", "exploration");
    c.rule("every modulus of the enumerated range, number of rounds and scripted witness choice, compared with a sieve or a deterministic test; distinct counts (modulus, witness script) pairs");
    c.assume("outputs of thread_rng() and StdRng are chosen through the verification copy of rand; a composite must be recognised with 20 rounds on every fixed stream used, and by at least half of the witness scripts of a second round");
    c.section("u8 and u16, every modulus", "modulus", |s| {
        let p = sieve(16384);
        s.par(16382, |i, t| {
            let n = i as u64 + 2;
            cur(&[n]);
            for r in [1usize, 2, 5, 20, 40] {
                if n < 64 {
                    ck!(s, "u8", [n, r], test!(u8, n, r), p[n as usize]);
                }
                let g = [test!(u16, n, r), test!(u32, n, r), test!(u64, n, r)];
                if p[n as usize] {
                    ck!(s, "prime rejected", [n, r], g, [true; 3]);
                } else if r >= 20 {
                    ck!(s, "composite accepted", [n, r], g, [false; 3]);
                }
                t.evals += 4;
            }
            t.distinct += 1;
        });
        s.sample(|| J::s("all moduli 2..16384 with 1, 2, 5, 20, 40 rounds"));
    });
    let lim = c.tier(1u64 << 23, 1 << 27);
    c.section("range of u32 moduli", "modulus", |s| {
        let p = sieve(lim as usize);
        let blocks = (lim / 4096) as usize;
        s.par(blocks, |i, t| {
            for n in (i as u64 * 4096).max(2)..(i as u64 + 1) * 4096 {
                if n % 2 == 0 && n > 64 && i % 16 != 0 {
                    continue;
                }
                cur(&[n]);
                ck!(s, "u32", [n], test!(u32, n, 20), p[n as usize]);
                t.evals += 1;
                t.distinct += 1;
                if i % 8 == 0 {
                    ck!(s, "u64", [n], test!(u64, n, 20), p[n as usize]);
                    t.evals += 1;
                }
            }
        });
    });
    c.section("hard composites and boundary moduli", "modulus", |s| {
        let mut ns = hard(64);
        for b in edge_values(62) {
            for d in 0..40u64 {
                ns.extend([(b as u64).saturating_add(d), (b as u64).saturating_sub(d)]);
            }
        }
        ns.extend([132120577, 1073692673, 1152921504606830593, 4611686018427322369, 4611686018427387847, 1073741789]);
        ns.retain(|n| *n >= 2 && *n < 1 << 62);
        ns.sort();
        ns.dedup();
        s.par(ns.len(), |i, t| {
            let n = ns[i];
            let w = is_prime(n);
            cur(&[n]);
            // many fixed streams of witnesses
            for stream in 0..16u64 {
                let mut m = Mix(stream * 77 + 1);
                rand::verif_hook::set(Some(Box::new(move |_| m.next())));
                ck!(s, "u64", [n, stream], test!(u64, n, 20), w);
                if n < 1 << 30 {
                    ck!(s, "u32", [n, stream], test!(u32, n, 20), w);
                }
                rand::verif_hook::set(None);
                t.evals += 2;
                t.distinct += 1;
            }
            if w {
                for r in [0usize, 1, 2, 3, 7] {
                    ck!(s, "prime rejected", [n, r], test!(u64, n, r), true);
                    t.evals += 1;
                }
            }
        });
    });
    // every witness of the second round, through the outputs of the generator
    c.section("all second-round witnesses", "modulus,word", |s| {
        let p = sieve(1 << 14);
        let mut ns: Vec<u64> = (64..c.tier(2048u64, 8192)).filter(|n| n % 2 == 1 && (p[*n as usize] || (3..58).all(|d| n % d != 0))).collect();
        ns.extend(hard(32).into_iter().filter(|n| *n < 1 << 17 && n % 2 == 1 && *n > 64));
        s.par(ns.len(), |i, t| {
            let n = ns[i];
            let w = is_prime(n);
            let total = 2 * n;
            let mut accepted = 0u64;
            for k in 0..total {
                // evenly spaced generator outputs reach every witness in 3..n
                let word = ((k as u128 * 2 + 1) * (1u128 << 32) / (2 * total) as u128) as u64;
                cur(&[n, word]);
                let calls = Rc::new(RefCell::new(0u32));
                let cc = calls.clone();
                rand::verif_hook::set(Some(Box::new(move |width| {
                    *cc.borrow_mut() += 1;
                    let k = *cc.borrow();
                    let v = word.wrapping_add((k as u64 / 64) * 0x9E37_79B9);
                    if width == 8 { v << 32 | v } else { v }
                })));
                let g = test!(u32, n, 2);
                rand::verif_hook::set(None);
                if w {
                    ck!(s, "prime rejected", [n, word], g, true);
                } else if g {
                    accepted += 1;
                }
                t.evals += 1;
            }
            t.distinct += total;
            if !w && accepted * 2 > total {
                s.fail(format!("composite {n} accepted"), format!("with two rounds the composite {n} is accepted for {accepted} of {total} evenly spaced witness choices"));
            }
        });
    });
    c.finish()
}
