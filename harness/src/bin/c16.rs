//! C16: arithmetic on transformed polynomials matches arithmetic on the polynomials they represent.
use algebra::transformation::AbstractNTT;
use algebra::*;
use fhe_core::DefaultFieldU32;
use harness::fields::*;
use harness::oracle::*;
use harness::*;
use num_traits::Inv;
use std::collections::HashSet;

pub trait Fld: NTTField<Value: V> {}
impl<F: NTTField<Value: V>> Fld for F {}
type N<F> = NTTPolynomial<F>;

fn root<F: Fld>(n: usize) -> u128 {
    F::get_ntt_table(n.trailing_zeros()).unwrap().root().value().to() as u128
}

/// a, b: coefficients; ea, eb: their evaluations
fn pair<F: Fld>(s: &Sec, w: u128, a: &[u64], b: &[u64], t: &mut Tally) {
    let q = fq::<F>();
    let n = a.len();
    let (ea, eb) = (ntt(a, w, q as u128), ntt(b, w, q as u128));
    let (x, y) = (npoly::<F>(&ea), npoly::<F>(&eb));
    macro_rules! forms {
        ($n:expr, $w:expr; $($e:expr),*) => {{
            // the ring operation, on the coefficients
            let coeff = $w;
            let w = ntt(&coeff, w, q as u128);
            let mut k = 0;
            $(
                k += 1;
                let r: N<F> = $e;
                let g = nvals(&r);
                if g != w {
                    ck!(s, format!("{} form {k} `{}`", $n, stringify!($e)), [q, a, b], g, w);
                }
                if k == 1 {
                    ck!(s, format!("{} back in coefficient form", $n), [q, a, b], pvals(&r.into_native_polynomial()), coeff);
                }
            )*
            t.transitions += k;
        }};
    }
    let asg = |f: &dyn Fn(&mut N<F>)| { let mut z = x.clone(); f(&mut z); z };
    let dst = |f: &dyn Fn(&mut N<F>)| { let mut z = npoly::<F>(&vec![q - 1; n]); f(&mut z); z };
    forms!("add", vadd(a, b, q);
        x.clone() + y.clone(), x.clone() + &y, &x + y.clone(), &x + &y,
        asg(&|z| *z += y.clone()), asg(&|z| *z += &y), dst(&|z| x.add_inplace(&y, z)));
    forms!("sub", vsub(a, b, q);
        x.clone() - y.clone(), x.clone() - &y, &x - y.clone(), &x - &y,
        asg(&|z| *z -= y.clone()), asg(&|z| *z -= &y), dst(&|z| x.sub_inplace(&y, z)));
    let p = poly::<F>(b);
    forms!("mul", negacyclic(a, b, q);
        x.clone() * y.clone(), x.clone() * &y, &x * y.clone(), &x * &y,
        asg(&|z| *z *= y.clone()), asg(&|z| *z *= &y), dst(&|z| x.mul_inplace(&y, z)),
        x.clone() * p.clone(), x.clone() * &p, &x * p.clone(), &x * &p,
        asg(&|z| *z *= p.clone()), asg(&|z| *z *= &p));
    ck!(s, "equality", [q, a, b], x == y, a == b);
    ck!(s, "operands changed", [q, a, b], (nvals(&x), nvals(&y), pvals(&p)), (ea, eb, b.to_vec()));
    t.states += 1;
    t.traces += 1;
}
/// acc + a*b; the accumulator of the fast form may be lazily reduced
fn triple<F: Fld>(s: &Sec, w: u128, c: &[u64], a: &[u64], b: &[u64], t: &mut Tally) {
    let q = fq::<F>();
    let n = a.len();
    let e = |v: &[u64]| ntt(v, w, q as u128);
    let (ec, ea, eb) = (e(c), e(a), e(b));
    let want = vadd(&ec, &vmul(&ea, &eb, q), q);
    let (x, y) = (npoly::<F>(&ea), npoly::<F>(&eb));
    let mut z = npoly::<F>(&ec);
    ntt_add_mul_assign(&mut z, &x, &y);
    if nvals(&z) != want {
        ck!(s, "ntt_add_mul_assign", [q, c, a, b], nvals(&z), want);
    }
    let mut z = npoly::<F>(&vec![q - 1; n]);
    ntt_add_mul_inplace(&npoly::<F>(&ec), &x, &y, &mut z);
    if nvals(&z) != want {
        ck!(s, "ntt_add_mul_inplace", [q, c, a, b], nvals(&z), want);
    }
    for lazy in [false, true] {
        let mut z = N::<F>::new(ec.iter().map(|v| F::lazy_new(V::of(if lazy { v + q } else { *v }))).collect());
        ntt_add_mul_assign_fast(&mut z, &x, &y);
        let g = nvals(&z);
        if g.iter().any(|v| *v >= 2 * q) || g.iter().map(|v| v % q).ne(want.iter().copied()) {
            ck!(s, "ntt_add_mul_assign_fast", [q, c, a, b, lazy], g, want);
        }
        // and a lazily reduced result is accepted by the inverse transform
        let r = pvals(&z.into_native_polynomial());
        if r != vadd(c, &negacyclic(a, b, q), q) {
            ck!(s, "fast result in coefficient form", [q, c, a, b, lazy], r, vadd(c, &negacyclic(a, b, q), q));
        }
    }
    t.transitions += 6;
    t.states += 1;
    t.traces += 1;
}
fn single<F: Fld>(s: &Sec, w: u128, a: &[u64], scalars: &[u64], t: &mut Tally) {
    let q = fq::<F>();
    let n = a.len();
    let ea = ntt(a, w, q as u128);
    let x = npoly::<F>(&ea);
    ck!(s, "from coefficients", [q, a], nvals(&N::from(poly::<F>(a))), ea);
    let mut z = x.clone();
    z.neg_assign();
    let ng = ntt(&vneg(a, q), w, q as u128);
    ck!(s, "neg", [q, a], (nvals(&-x.clone()), nvals(&-&x), nvals(&z)), (ng.clone(), ng.clone(), ng));
    for &c in scalars {
        let f = fe::<F>(c);
        let mut z = x.clone();
        z.mul_scalar_assign(f);
        let w = ntt(&vscal(a, c, q), w, q as u128);
        ck!(s, "scalar", [q, a, c], (nvals(&x.mul_scalar(f)), nvals(&z)), (w.clone(), w));
        t.transitions += 2;
    }
    if ea.iter().all(|e| *e != 0) {
        let mut one = vec![0; n];
        one[0] = 1;
        for i in [(&x).inv(), x.clone().inv()] {
            ck!(s, "inverse", [q, a], negacyclic(a, &pvals(&i.into_native_polynomial()), q), one);
        }
    }
    for m in [0, 1, n, 2 * n] {
        let mut w = ea.to_vec();
        w.resize(m, q - 1);
        let mut z = x.clone();
        z.resize(m, fe(q - 1));
        let mut y = x.clone();
        y.resize_with(m, || fe(q - 1));
        ck!(s, "resize", [q, a, m], (nvals(&z), nvals(&y), z.coeff_count()), (w.clone(), w, m));
    }
    ck!(s, "is_zero", [q, a], (x.is_zero(), x.coeff_count()), (a.iter().all(|c| *c == 0), n));
    let mut z = npoly::<F>(&vec![q - 1; n]);
    z.copy_from(&x);
    ck!(s, "copy_from", [q, a], nvals(&z), ea);
    z.set_zero();
    ck!(s, "set_zero", [q, a], (nvals(&z), nvals(&N::<F>::zero(n))), (vec![0; n], vec![0; n]));
    let e: Vec<u64> = ea.clone();
    ck!(s, "access", [q, a],
        (vals(x.as_slice()), x.copied_iter().map(val).collect::<Vec<_>>(), vals(&x.clone().data()), vals(AsRef::<[F]>::as_ref(&x)), nvals(&N::from_slice(x.as_slice())), (0..n).map(|i| val(x[i])).collect::<Vec<_>>(), x.clone().into_iter().map(val).collect::<Vec<_>>()),
        (e.clone(), e.clone(), e.clone(), e.clone(), e.clone(), e.clone(), e));
    for how in 0..3 {
        let mut z = x.clone();
        match how {
            0 => z.as_mut_slice().reverse(),
            1 => z.data_mut().reverse(),
            _ => z[..].reverse(),
        }
        ck!(s, "write in place", [q, a, how], nvals(&z), ea.iter().rev().copied().collect::<Vec<_>>());
    }
    for i in 0..n.min(8) {
        let mut z = x.clone();
        z[i] = fe(1);
        let mut w = ea.clone();
        w[i] = 1;
        ck!(s, "index write", [q, a, i], nvals(&z), w);
    }
    t.transitions += 16;
}
fn all_pairs<F: Fld>(ctx: &Ctx, name: &str, n: usize, triples: bool) {
    ctx.section(&format!("{name} N={n} every pair of registers"), "q,N,a", |s| {
        let q = fq::<F>();
        let w = root::<F>(n);
        let total = q.pow(n as u32);
        s.par(total as usize, |i, t| {
            cur(&[q, n as u64, i as u64]);
            let a = vector(i as u64, q, n);
            single::<F>(s, w, &a, &(0..q).collect::<Vec<_>>(), t);
            for k in 0..total {
                let b = vector(k, q, n);
                pair::<F>(s, w, &a, &b, t);
                if triples {
                    for j in 0..total {
                        triple::<F>(s, w, &vector(j, q, n), &a, &b, t);
                    }
                } else {
                    for c in [vec![0; n], vec![q - 1; n], a.clone(), vector((k * 31 + 7) % total, q, n)] {
                        triple::<F>(s, w, &c, &a, &b, t);
                    }
                }
            }
        });
        s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("register pairs", J::n(total * total))]));
    });
}
fn grid<F: Fld>(ctx: &Ctx, name: &str, logs: &[u32]) {
    ctx.section(&format!("{name} longer polynomials"), "q,N,index", |s| {
        let q = fq::<F>();
        for &l in logs {
            let n = 1usize << l;
            let w = root::<F>(n);
            let mut ps: Vec<Vec<u64>> = vec![vec![0; n], vec![q - 1; n]];
            for i in (0..n).filter(|i| n <= 4 || *i == n - 1 || *i == n / 2) {
                for c in [1, q - 1] {
                    let mut v = vec![0; n];
                    v[i] = c;
                    ps.push(v);
                }
            }
            let mut m = Mix(ctx.seed ^ n as u64);
            for _ in 0..ctx.tier(4, 16) {
                ps.push((0..n).map(|_| m.next() % q).collect());
            }
            // a polynomial all of whose evaluations are maximal: -1
            s.par(ps.len(), |i, t| {
                cur(&[q, n as u64, i as u64]);
                single::<F>(s, w, &ps[i], &[0, 1, 2, q - 1, q / 2], t);
                for b in &ps {
                    pair::<F>(s, w, &ps[i], b, t);
                    triple::<F>(s, w, &ps[(i + 1) % ps.len()], &ps[i], b, t);
                    tick();
                }
            });
        }
    });
}
/// every register content against a set of partners, on both sides
fn every<F: Fld>(ctx: &Ctx, name: &str, n: usize) {
    ctx.section(&format!("{name} N={n} every register content with {} partners", n + 5), "q,N,a", |s| {
        let q = fq::<F>();
        let w = root::<F>(n);
        let total = q.pow(n as u32);
        let mut ps: Vec<Vec<u64>> = vec![vec![0; n], vec![1; n], vec![q - 1; n], vector(total / 3, q, n), vector(total / 7 * 5, q, n)];
        for i in 0..n {
            let mut v = vec![0; n];
            v[i] = q - 1;
            ps.push(v);
        }
        s.par(total as usize, |i, t| {
            cur(&[q, n as u64, i as u64]);
            let a = vector(i as u64, q, n);
            single::<F>(s, w, &a, &[0, 1, 3, q - 1], t);
            for (j, p) in ps.iter().enumerate() {
                pair::<F>(s, w, &a, p, t);
                pair::<F>(s, w, p, &a, t);
                let c = &ps[(i + j) % ps.len()];
                triple::<F>(s, w, c, &a, p, t);
                triple::<F>(s, w, c, p, &a, t);
                triple::<F>(s, w, &a, c, p, t);
            }
        });
        s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("register contents", J::n(total))]));
    });
}
/// every form at the dimensions in use
fn dims<F: Fld>(ctx: &Ctx, name: &str, ns: &[usize]) {
    ctx.section(&format!("{name} dimensions in use"), "q,N,index", |s| {
        let q = fq::<F>();
        for &n in ns {
            let w = root::<F>(n);
            let mut m = Mix(ctx.seed ^ n as u64);
            let mut ps: Vec<Vec<u64>> = vec![vec![q - 1; n], (0..n).map(|_| m.next() % q).collect(), (0..n as u64).map(|i| (q - 1) * (i & 1)).collect()];
            let mut v = vec![0; n];
            v[n - 1] = q - 1;
            ps.push(v);
            s.par(ps.len() * ps.len(), |i, t| {
                let (i, j) = (i / ps.len(), i % ps.len());
                cur(&[q, n as u64, i as u64]);
                if j == 0 {
                    single::<F>(s, w, &ps[i], &[0, 1, q - 1, q / 2], t);
                    tick();
                }
                pair::<F>(s, w, &ps[i], &ps[j], t);
                tick();
                triple::<F>(s, w, &ps[(i + 1) % ps.len()], &ps[i], &ps[j], t);
                tick();
            });
        }
    });
}
fn sequences<F: Fld>(ctx: &Ctx, name: &str, n: usize, depth: u32) {
    ctx.section(&format!("{name} N={n} every operation sequence of length {depth}"), "q,N,sequence", |s| {
        const OPS: u64 = 20;
        let q = fq::<F>();
        let w = root::<F>(n);
        let total = OPS.pow(depth);
        // the model works on coefficients
        let a0: Vec<u64> = (0..n as u64).map(|i| (i * 5 + 3) % q).collect();
        let b0: Vec<u64> = (0..n as u64).map(|i| (q - 1 + i * i) % q).collect();
        let d0 = vec![q - 1; n];
        let e = |v: &[u64]| ntt(v, w, q as u128);
        let (ea, eb, ed) = (e(&a0), e(&b0), e(&d0));
        s.par(total as usize / 400, |blk, t| {
            let mut seen = HashSet::new();
            for seq in blk as u64 * 400..blk as u64 * 400 + 400 {
                cur(&[q, n as u64, seq]);
                let (mut x, mut y, mut z) = (npoly::<F>(&ea), npoly::<F>(&eb), npoly::<F>(&ed));
                let (mut a, mut b, mut d) = (a0.clone(), b0.clone(), d0.clone());
                let mut code = seq;
                let mut ops = vec![];
                for _ in 0..depth {
                    let op = code % OPS;
                    code /= OPS;
                    ops.push(op);
                    match op {
                        0 => { x += &y; a = vadd(&a, &b, q) }
                        1 => { x -= &y; a = vsub(&a, &b, q) }
                        2 => { x *= &y; a = negacyclic(&a, &b, q) }
                        3 => { x *= y.clone().into_native_polynomial(); a = negacyclic(&a, &b, q) }
                        4 => { x.neg_assign(); a = vneg(&a, q) }
                        5 => { x.mul_scalar_assign(fe(3)); a = vscal(&a, 3, q) }
                        6 => { x.add_inplace(&y, &mut z); d = vadd(&a, &b, q) }
                        7 => { x.sub_inplace(&y, &mut z); d = vsub(&a, &b, q) }
                        8 => { std::mem::swap(&mut x, &mut z); std::mem::swap(&mut a, &mut d) }
                        9 => { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut a, &mut b) }
                        10 => { x.mul_inplace(&y, &mut z); d = negacyclic(&a, &b, q) }
                        11 => { z.set_zero(); d = vec![0; n] }
                        12 => { x = x + z.clone(); a = vadd(&a, &d, q) }
                        13 => { x = &z - x; a = vsub(&d, &a, q) }
                        14 => { ntt_add_mul_assign(&mut z, &x, &y); d = vadd(&d, &negacyclic(&a, &b, q), q) }
                        15 => { z.copy_from(&x); d = a.clone() }
                        16 => { x = x.into_native_polynomial().into_ntt_polynomial(); }
                        17 => { let o = z.clone(); ntt_add_mul_inplace(&o, &x, &y, &mut z); d = vadd(&d, &negacyclic(&a, &b, q), q) }
                        18 => { z = x.mul_scalar(fe(q - 1)); d = vneg(&a, q) }
                        _ => {
                            ntt_add_mul_assign_fast(&mut z, &x, &y);
                            z.iter_mut().for_each(|v| *v = fe(v.value().to()));
                            d = vadd(&d, &negacyclic(&a, &b, q), q)
                        }
                    }
                    t.transitions += 1;
                    let (wa, wb, wd) = (e(&a), e(&b), e(&d));
                    if nvals(&x) != wa || nvals(&y) != wb || nvals(&z) != wd {
                        ck!(s, "registers after the sequence", [q, n, ops], (nvals(&x), nvals(&y), nvals(&z)), (wa, wb, wd));
                        break;
                    }
                    seen.insert((a.clone(), b.clone(), d.clone()));
                }
                t.traces += 1;
            }
            t.states += seen.len() as u64;
        });
    });
}

fn main() {
    let ctx = Ctx::new("C16", "model_checking");
    let c = &ctx;
    c.rule("state: the polynomials that the transformed registers represent; transition: one operation form applied to real NTTPolynomial values, compared with the transform (by Horner's rule) of the ring operation on the represented polynomials. Every pair, and for the smallest field every triple, of register contents with every form, and every operation sequence of the given length on three live registers; a trace is one pair or triple put through all forms, or one sequence; states of sequence sections are counted per block of sequences");
    c.assume("every register content for moduli 5, 13 and 17 at lengths 1 and 2; longer polynomials: monomials, constants and seeded vectors");
    c.assume("the accumulator of the fast form may be in [0,2q), as the callers in the lattice crate use it");
    all_pairs::<F5b>(c, "F5b", 1, true);
    all_pairs::<F17b>(c, "F17b", 1, true);
    all_pairs::<F5b>(c, "F5b", 2, true);
    all_pairs::<F13b>(c, "F13b", 2, c.thorough);
    all_pairs::<F17>(c, "F17", 2, false);
    if c.thorough {
        all_pairs::<F37b>(c, "F37b", 2, false);
        all_pairs::<F17q>(c, "F17q", 2, false);
        all_pairs::<F61b>(c, "F61b", 1, true);
        all_pairs::<F97h>(c, "F97h", 1, true);
    }
    let logs: &[u32] = c.tier(&[0, 1, 2, 3, 5], &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    grid::<F17b>(c, "F17b", &[2, 3]);
    grid::<F61b>(c, "F61b", &[0, 1]);
    grid::<F7681h>(c, "F7681h", logs);
    grid::<F132M>(c, "F132M", logs);
    grid::<FTop32>(c, "FTop32", logs);
    grid::<DefaultFieldU32>(c, "DefaultFieldU32", logs);
    grid::<FTop64>(c, "FTop64", logs);
    every::<F17>(c, "F17", 4);
    dims::<DefaultFieldU32>(c, "DefaultFieldU32", c.tier(&[512, 1024, 2048], &[512, 1024, 2048, 4096]));
    dims::<F12289>(c, "F12289", c.tier(&[1024], &[512, 1024, 2048]));
    dims::<F60>(c, "F60", c.tier(&[1024], &[512, 1024, 2048]));
    let d = c.tier(4, 5);
    sequences::<F5b>(c, "F5b", 1, d);
    sequences::<F5b>(c, "F5b", 2, d);
    sequences::<F17>(c, "F17", 4, d);
    sequences::<FTop64>(c, "FTop64", 4, d);
    ctx.finish()
}
