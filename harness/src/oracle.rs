//! Plain reference arithmetic, independent of the repository.
pub fn pw(mut b: u128, mut e: u128, p: u128) -> u128 {
    let mut w = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            w = w * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    w
}
pub fn rev(i: usize, bits: u32) -> usize {
    (0..bits).fold(0, |a, k| a | ((i >> k) & 1) << (bits - 1 - k))
}
/// a*b mod X^N+1 mod p
pub fn negacyclic(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let p = p as u128;
    let mut r = vec![0u128; n];
    for i in 0..n {
        for j in 0..n {
            let v = a[i] as u128 * b[j] as u128 % p;
            if i + j < n {
                r[i + j] = (r[i + j] + v) % p;
            } else {
                r[i + j - n] = (r[i + j - n] + p - v) % p;
            }
        }
    }
    r.into_iter().map(|x| x as u64).collect()
}
/// coefficients times X^r, r in 0..2N
pub fn rotate(a: &[u64], r: usize, p: u64) -> Vec<u64> {
    let n = a.len();
    let mut o = vec![0; n];
    for (i, &c) in a.iter().enumerate() {
        let d = (i + r) % (2 * n);
        if d < n {
            o[d] = c
        } else {
            o[d - n] = (p - c) % p
        }
    }
    o
}
/// evaluation by Horner's rule
pub fn eval(a: &[u64], x: u128, p: u128) -> u128 {
    a.iter().rev().fold(0, |acc, &c| (acc * x + c as u128) % p)
}
/// evaluations at the odd powers of w, in bit-reversed order
pub fn ntt(a: &[u64], w: u128, p: u128) -> Vec<u64> {
    let n = a.len();
    let l = n.trailing_zeros();
    (0..n).map(|i| eval(a, pw(w, 2 * rev(i, l) as u128 + 1, p), p) as u64).collect()
}
/// centred representative
pub fn centred(v: u64, q: u64) -> i64 {
    if v > q / 2 { v as i64 - q as i64 } else { v as i64 }
}
/// calls f with every vector of `n` digits below `base`
pub fn vectors(base: u64, n: usize, mut f: impl FnMut(&[u64])) {
    let mut v = vec![0u64; n];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            v[i] += 1;
            if v[i] < base {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}
/// the k-th vector of `n` digits below `base`
pub fn vector(mut k: u64, base: u64, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| {
            let d = k % base;
            k /= base;
            d
        })
        .collect()
}
/// All vectors of length n with entries below base.
/// The same vectors, one at a time.
pub fn each_vector(base: u64, n: usize) -> impl Iterator<Item = Vec<u64>> {
    (0..base.pow(n as u32)).map(move |mut i| {
        (0..n)
            .map(|_| {
                let d = i % base;
                i /= base;
                d
            })
            .collect()
    })
}
pub fn all_vectors(base: u64, n: usize) -> Vec<Vec<u64>> {
    let mut r = vec![];
    vectors(base, n, |v| r.push(v.to_vec()));
    r
}
