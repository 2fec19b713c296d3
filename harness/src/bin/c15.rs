//! C15: polynomial arithmetic is the negacyclic ring, in every form and any sequence.
#![allow(dead_code)]
use algebra::*;
use fhe_core::DefaultFieldU32;
use harness::fields::*;
use harness::oracle::*;
use harness::*;
use num_traits::Inv;
use std::collections::HashSet;

pub trait Fld: NTTField<Value: V> {}
impl<F: NTTField<Value: V>> Fld for F {}
type P<F> = Polynomial<F>;

/// every form of every binary operation on one pair of registers
pub fn pair<F: Fld>(s: &Sec, a: &[u64], b: &[u64], mul: bool, t: &mut Tally) {
    let q = fq::<F>();
    let (x, y) = (poly::<F>(a), poly::<F>(b));
    macro_rules! forms {
        ($n:expr, $w:expr; $($e:expr),*) => {{
            let w = $w;
            let mut k = 0;
            $(
                k += 1;
                let g = pvals::<F>(&$e);
                if g != w {
                    ck!(s, format!("{} form {k} `{}`", $n, stringify!($e)), [q, a, b], g, w);
                }
            )*
            t.transitions += k;
        }};
    }
    let asg = |f: &dyn Fn(&mut P<F>)| { let mut z = x.clone(); f(&mut z); z };
    let dst = |f: &dyn Fn(&mut P<F>)| { let mut z = poly::<F>(&vec![q - 1; a.len()]); f(&mut z); z };
    forms!("add", vadd(a, b, q);
        x.clone() + y.clone(), x.clone() + &y, &x + y.clone(), &x + &y,
        asg(&|z| *z += y.clone()), asg(&|z| *z += &y), dst(&|z| x.add_inplace(&y, z)));
    forms!("sub", vsub(a, b, q);
        x.clone() - y.clone(), x.clone() - &y, &x - y.clone(), &x - &y,
        asg(&|z| *z -= y.clone()), asg(&|z| *z -= &y), dst(&|z| x.sub_inplace(&y, z)));
    if mul {
        let n = || y.clone().into_ntt_polynomial();
        forms!("mul", negacyclic(a, b, q);
            x.clone() * y.clone(), x.clone() * &y, &x * y.clone(), &x * &y,
            asg(&|z| *z *= y.clone()), asg(&|z| *z *= &y),
            x.clone() * n(), x.clone() * &n(), &x * n(), &x * &n(),
            asg(&|z| *z *= n()), asg(&|z| *z *= &n()));
    }
    ck!(s, "equality", [q, a, b], x == y, a == b);
    // the operands of the borrowing forms are untouched
    ck!(s, "operands changed", [q, a, b], (pvals(&x), pvals(&y)), (a.to_vec(), b.to_vec()));
    t.states += 1;
    t.traces += 1;
}
/// unary operations and access
pub fn single<F: Fld>(s: &Sec, a: &[u64], scalars: &[u64], t: &mut Tally) {
    let q = fq::<F>();
    let n = a.len();
    let x = poly::<F>(a);
    let mut z = x.clone();
    z.neg_assign();
    let w = vneg(a, q);
    ck!(s, "neg", [q, a], (pvals(&-x.clone()), pvals(&-&x), pvals(&z)), (w.clone(), w.clone(), w));
    for &c in scalars {
        let f = fe::<F>(c);
        let mut z = x.clone();
        z.mul_scalar_assign(f);
        let w = vscal(a, c, q);
        ck!(s, "scalar", [q, a, c], (pvals(&x.mul_scalar(f)), pvals(&z)), (w.clone(), w));
        ck!(s, "evaluate", [q, a, c], val(x.evaluate(f)) as u128, eval(a, c as u128, q as u128));
        t.transitions += 3;
    }
    for m in [0, 1, n / 2, n, n + 1, 2 * n, 2 * n + 1] {
        for c in [0, q - 1] {
            let f = fe::<F>(c);
            let mut w = a.to_vec();
            w.resize(m, c);
            let mut z = x.clone();
            z.resize(m, f);
            let mut y = x.clone();
            y.resize_with(m, || f);
            ck!(s, "resize", [q, a, m, c], (pvals(&z), pvals(&y), z.coeff_count()), (w.clone(), w, m));
            t.transitions += 2;
        }
    }
    let zero = a.iter().all(|c| *c == 0);
    ck!(s, "is_zero", [q, a], (x.is_zero(), x.coeff_count()), (zero, n));
    let mut z = poly::<F>(&vec![q - 1; n]);
    z.copy_from(&x);
    ck!(s, "copy_from", [q, a], pvals(&z), a.to_vec());
    z.set_zero();
    ck!(s, "set_zero", [q, a], (pvals(&z), pvals(&P::<F>::zero(n))), (vec![0; n], vec![0; n]));
    ck!(s, "access", [q, a],
        (vals(x.as_slice()), x.copied_iter().map(|x| val(x)).collect::<Vec<_>>(), vals(&x.clone().data()), vals(AsRef::<[F]>::as_ref(&x)), pvals(&P::from_slice(x.as_slice())), (0..n).map(|i| val(x[i])).collect::<Vec<_>>(), vals(&x[n / 2..]), x.clone().into_iter().map(|x| val(x)).collect::<Vec<_>>()),
        (a.to_vec(), a.to_vec(), a.to_vec(), a.to_vec(), a.to_vec(), a.to_vec(), a[n / 2..].to_vec(), a.to_vec()));
    for i in 0..n.min(16) {
        let mut z = x.clone();
        z[i] = fe::<F>(q - 1);
        let mut w = a.to_vec();
        w[i] = q - 1;
        ck!(s, "index write", [q, a, i], pvals(&z), w);
    }
    for how in 0..4 {
        let mut z = x.clone();
        match how {
            0 => z.as_mut_slice().reverse(),
            1 => z.data_mut().reverse(),
            2 => z[..].reverse(),
            _ => z.iter_mut().zip(a.iter().rev()).for_each(|(v, &w)| *v = fe::<F>(w)),
        }
        ck!(s, "write in place", [q, a, how], pvals(&z), a.iter().rev().copied().collect::<Vec<_>>());
    }
    t.transitions += 16;
}
/// multiplicative inverse, for units of the ring
pub fn inverse<F: Fld>(s: &Sec, a: &[u64], t: &mut Tally) {
    let q = fq::<F>();
    let x = poly::<F>(a);
    // a unit iff no evaluation at an odd power of the root vanishes
    let w = {
        use algebra::transformation::AbstractNTT;
        F::get_ntt_table(a.len().trailing_zeros()).unwrap().root().value().to() as u128
    };
    if ntt(a, w, q as u128).iter().any(|e| *e == 0) {
        return;
    }
    let mut one = vec![0; a.len()];
    one[0] = 1;
    for i in [pvals(&(&x).inv()), pvals(&x.inv())] {
        ck!(s, "inverse", [q, a], negacyclic(a, &i, q), one);
    }
    t.transitions += 2;
}
pub fn all_pairs<F: Fld>(ctx: &Ctx, name: &str, n: usize) {
    ctx.section(&format!("{name} N={n} every pair of registers"), "q,N,a", |s| {
        let q = fq::<F>();
        let total = q.pow(n as u32);
        s.par(total as usize, |i, t| {
            cur(&[q, n as u64, i as u64]);
            let a = vector(i as u64, q, n);
            single::<F>(s, &a, &(0..q).collect::<Vec<_>>(), t);
            inverse::<F>(s, &a, t);
            for k in 0..total {
                pair::<F>(s, &a, &vector(k, q, n), true, t);
            }
        });
        s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("registers", J::n(total * total))]));
    });
}
/// structured operands at longer lengths
pub fn grid<F: Fld>(ctx: &Ctx, name: &str, logs: &[u32]) {
    ctx.section(&format!("{name} longer polynomials"), "q,N,index", |s| {
        let q = fq::<F>();
        for &l in logs {
            let n = 1usize << l;
            let mut ps: Vec<Vec<u64>> = vec![vec![0; n], vec![q - 1; n], vec![1; n], vec![q / 2; n]];
            for i in (0..n).filter(|i| n <= 8 || i.count_ones() <= 1 || *i == n - 1) {
                for c in [1, q - 1, q / 2 + 1] {
                    let mut v = vec![0; n];
                    v[i] = c;
                    ps.push(v);
                }
            }
            let mut m = Mix(ctx.seed ^ n as u64);
            for _ in 0..ctx.tier(6, 30) {
                ps.push((0..n).map(|_| m.next() % q).collect());
            }
            s.par(ps.len(), |i, t| {
                cur(&[q, n as u64, i as u64]);
                single::<F>(s, &ps[i], &[0, 1, 2, q - 1, q / 2, q / 3], t);
                if l <= 5 {
                    inverse::<F>(s, &ps[i], t);
                }
                for b in &ps {
                    pair::<F>(s, &ps[i], b, true, t);
                    tick();
                }
            });
        }
    });
}
/// every register content against a set of partners, on both sides
pub fn every<F: Fld>(ctx: &Ctx, name: &str, n: usize) {
    ctx.section(&format!("{name} N={n} every register content with {} partners", 2 * n + 6), "q,N,a", |s| {
        let q = fq::<F>();
        let total = q.pow(n as u32);
        let mut ps: Vec<Vec<u64>> = vec![vec![1; n], vec![q - 1; n], vec![q / 2; n], vector(total / 3, q, n), vector(total / 5 * 2, q, n), vector(total / 7 * 5, q, n)];
        for i in 0..n {
            for c in [1, q - 1] {
                let mut v = vec![0; n];
                v[i] = c;
                ps.push(v);
            }
        }
        s.par(total as usize, |i, t| {
            cur(&[q, n as u64, i as u64]);
            let a = vector(i as u64, q, n);
            single::<F>(s, &a, &[0, 1, 3, q - 1], t);
            inverse::<F>(s, &a, t);
            for p in &ps {
                pair::<F>(s, &a, p, true, t);
                pair::<F>(s, p, &a, true, t);
            }
        });
        s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("register contents", J::n(total))]));
    });
}
/// every form at the dimensions in use
pub fn dims<F: Fld>(ctx: &Ctx, name: &str, ns: &[usize]) {
    ctx.section(&format!("{name} dimensions in use"), "q,N,index", |s| {
        let q = fq::<F>();
        for &n in ns {
            let mut m = Mix(ctx.seed ^ n as u64);
            let mut ps: Vec<Vec<u64>> = vec![vec![q - 1; n], (0..n).map(|_| m.next() % q).collect(), (0..n as u64).map(|i| (q - 1) * (i & 1)).collect()];
            for i in [n - 1, n / 2] {
                let mut v = vec![0; n];
                v[i] = q - 1;
                ps.push(v);
            }
            s.par(ps.len() * ps.len(), |i, t| {
                let (i, j) = (i / ps.len(), i % ps.len());
                cur(&[q, n as u64, i as u64]);
                if j == 0 {
                    single::<F>(s, &ps[i], &[0, 1, q - 1, q / 2], t);
                    tick();
                }
                pair::<F>(s, &ps[i], &ps[j], true, t);
                tick();
            });
        }
    });
}
/// every sequence of operations on three live registers
pub fn sequences<F: Fld>(ctx: &Ctx, name: &str, n: usize, depth: u32) {
    ctx.section(&format!("{name} N={n} every operation sequence of length {depth}"), "q,N,sequence", |s| {
        const OPS: u64 = 20;
        let q = fq::<F>();
        let total = OPS.pow(depth);
        let a0: Vec<u64> = (0..n as u64).map(|i| (i * 5 + 3) % q).collect();
        let b0: Vec<u64> = (0..n as u64).map(|i| (q - 1 + i * i) % q).collect();
        let d0 = vec![q - 1; n];
        s.par(total as usize / 400, |blk, t| {
            let mut seen = HashSet::new();
            for seq in blk as u64 * 400..blk as u64 * 400 + 400 {
                cur(&[q, n as u64, seq]);
                let (mut x, mut y, mut z) = (poly::<F>(&a0), poly::<F>(&b0), poly::<F>(&d0));
                let (mut a, mut b, mut d) = (a0.clone(), b0.clone(), d0.clone());
                let mut code = seq;
                let mut ops = vec![];
                for _ in 0..depth {
                    let op = code % OPS;
                    code /= OPS;
                    ops.push(op);
                    match op {
                        0 => { x += &y; a = vadd(&a, &b, q) }
                        1 => { x -= &y; a = vsub(&a, &b, q) }
                        2 => { x *= &y; a = negacyclic(&a, &b, q) }
                        3 => { x *= y.clone().into_ntt_polynomial(); a = negacyclic(&a, &b, q) }
                        4 => { x.neg_assign(); a = vneg(&a, q) }
                        5 => { x.mul_scalar_assign(fe::<F>(3)); a = vscal(&a, 3, q) }
                        6 => { x.add_inplace(&y, &mut z); d = vadd(&a, &b, q) }
                        7 => { x.sub_inplace(&y, &mut z); d = vsub(&a, &b, q) }
                        8 => { std::mem::swap(&mut x, &mut z); std::mem::swap(&mut a, &mut d) }
                        9 => { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut a, &mut b) }
                        10 => { y = x.clone(); b = a.clone() }
                        11 => { z.set_zero(); d = vec![0; n] }
                        12 => { x = x + z.clone(); a = vadd(&a, &d, q) }
                        13 => { x = &z - x; a = vsub(&d, &a, q) }
                        14 => { x.resize(2 * n, fe::<F>(1)); x.resize(n, fe::<F>(2)); }
                        15 => { z.copy_from(&x); d = a.clone() }
                        16 => { x = x.into_ntt_polynomial().into_native_polynomial(); }
                        17 => { x[n - 1] = fe::<F>(q - 1); a[n - 1] = q - 1 }
                        18 => { z = x.mul_scalar(fe::<F>(q - 1)); d = vscal(&a, q - 1, q) }
                        _ => { x = &x * &z; a = negacyclic(&a, &d, q) }
                    }
                    t.transitions += 1;
                    if pvals(&x) != a || pvals(&y) != b || pvals(&z) != d {
                        ck!(s, "register contents after the sequence", [q, n, ops], (pvals(&x), pvals(&y), pvals(&z)), (a.clone(), b.clone(), d.clone()));
                        break;
                    }
                    seen.insert((a.clone(), b.clone(), d.clone()));
                }
                t.traces += 1;
            }
            t.states += seen.len() as u64;
        });
    });
}

fn main() {
    let ctx = Ctx::new("C15", "model_checking");
    let c = &ctx;
    c.rule("state: contents of the polynomial registers; transition: one operator form applied to real Polynomial values and compared with schoolbook arithmetic. Every pair of register contents with every form (so, contents being the whole state, every sequence over those registers), and every operation sequence of the given length on three live registers; a trace is one pair of registers put through all forms, or one sequence; states of the sequence sections are counted per block of sequences");
    c.assume("every register content for moduli 5, 13 and 17 at lengths 1 and 2; longer polynomials: monomials, constants and seeded vectors");
    c.assume("inverses are checked for units only");
    all_pairs::<F5b>(c, "F5b", 1);
    all_pairs::<F5b>(c, "F5b", 2);
    all_pairs::<F13b>(c, "F13b", 2);
    all_pairs::<F61b>(c, "F61b", 1);
    all_pairs::<F17>(c, "F17", 2);
    if c.thorough {
        all_pairs::<F37b>(c, "F37b", 2);
        all_pairs::<F17q>(c, "F17q", 2);
        all_pairs::<F97h>(c, "F97h", 1);
    }
    let logs: &[u32] = c.tier(&[0, 1, 2, 3, 5, 8], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10]);
    grid::<F17b>(c, "F17b", &[2, 3]);
    grid::<F7681h>(c, "F7681h", if c.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 5, 8] });
    grid::<F132M>(c, "F132M", logs);
    grid::<FTop32>(c, "FTop32", logs);
    grid::<DefaultFieldU32>(c, "DefaultFieldU32", logs);
    grid::<FTop64>(c, "FTop64", logs);
    every::<F17>(c, "F17", 4);
    dims::<DefaultFieldU32>(c, "DefaultFieldU32", c.tier(&[512, 1024, 2048], &[512, 1024, 2048, 4096]));
    dims::<F12289>(c, "F12289", c.tier(&[1024], &[512, 1024, 2048]));
    dims::<F60>(c, "F60", c.tier(&[1024], &[512, 1024, 2048]));
    let d = c.tier(5, 6);
    sequences::<F5b>(c, "F5b", 1, d);
    sequences::<F5b>(c, "F5b", 2, d);
    sequences::<F17>(c, "F17", 4, d);
    sequences::<FTop64>(c, "FTop64", 8, d - 1);
    ctx.finish()
}
