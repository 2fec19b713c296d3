//! C04: chains of operations in the Goldilocks and BabyBear fields stay exact.
use algebra::modulus::{from_monty, to_canonical_u64, to_monty, BabyBearModulus, GoldilocksModulus, BABY_BEAR_P, GOLDILOCKS_P, MONTY_NEG_ONE, MONTY_ONE, MONTY_TWO, MONTY_ZERO};
use algebra::reduce::*;
use harness::*;
use std::collections::HashSet;

const GP: u128 = GOLDILOCKS_P as u128;
const BP: u64 = BABY_BEAR_P as u64;

fn powm(a: u128, mut e: u128, m: u128) -> u128 {
    let (mut r, mut p) = (1 % m, a % m);
    while e > 0 {
        if e & 1 == 1 {
            r = r * p % m;
        }
        p = p * p % m;
        e >>= 1;
    }
    r
}

/// Every binary operation on representations x, y of Goldilocks elements. Returns the results.
fn gold_pair(s: &Sec, x: u64, y: u64) -> [u64; 3] {
    let g = GoldilocksModulus;
    let (a, b) = (x as u128 % GP, y as u128 % GP);
    let add = x.add_reduce(y, g);
    let sub = x.sub_reduce(y, g);
    let mul = x.mul_reduce(y, g);
    let c = |v: u64| to_canonical_u64(v) as u128;
    ck!(s, "gold add", [x, y], c(add), (a + b) % GP);
    ck!(s, "gold sub", [x, y], c(sub), (a + GP - b) % GP);
    ck!(s, "gold mul", [x, y], c(mul), a * b % GP);
    let mut t = x;
    t.add_reduce_assign(y, g);
    ck!(s, "gold add_assign", [x, y], c(t), (a + b) % GP);
    let mut t = x;
    t.sub_reduce_assign(y, g);
    ck!(s, "gold sub_assign", [x, y], c(t), (a + GP - b) % GP);
    let mut t = x;
    t.mul_reduce_assign(y, g);
    ck!(s, "gold mul_assign", [x, y], c(t), a * b % GP);
    [add, sub, mul]
}
fn gold_unary(s: &Sec, x: u64) -> Vec<u64> {
    let g = GoldilocksModulus;
    let a = x as u128 % GP;
    let c = |v: u64| to_canonical_u64(v) as u128;
    ck!(s, "gold to_canonical", [x], c(x), a);
    let r = x.reduce(g);
    ck!(s, "gold reduce", [x], (c(r), r as u128), (a, a));
    let mut t = x;
    t.reduce_assign(g);
    ck!(s, "gold reduce_assign", [x], t as u128, a);
    let n = x.neg_reduce(g);
    ck!(s, "gold neg", [x], c(n), (GP - a) % GP);
    let mut t = x;
    t.neg_reduce_assign(g);
    ck!(s, "gold neg_assign", [x], c(t), (GP - a) % GP);
    let mut out = vec![r, n];
    let mut p = a;
    for e in 0..70u32 {
        let v = x.exp_power_of_2_reduce(e, g);
        ck!(s, "gold exp_power_of_2", [x, e], c(v), p);
        p = p * p % GP;
    }
    match x.try_inv_reduce(g) {
        Ok(i) => {
            ck!(s, "gold try_inv", [x], (a != 0, c(i) * a % GP), (true, 1));
            out.push(i);
            ck!(s, "gold inv", [x], c(x.inv_reduce(g)), c(i));
            let mut t = x;
            t.inv_reduce_assign(g);
            ck!(s, "gold inv_assign", [x], c(t), c(i));
        }
        Err(_) => ck!(s, "gold try_inv err", [x], a, 0),
    }
    out
}
fn gold_div(s: &Sec, x: u64, y: u64) -> Option<u64> {
    let g = GoldilocksModulus;
    let (a, b) = (x as u128 % GP, y as u128 % GP);
    if b == 0 {
        return None;
    }
    let q = x.div_reduce(y, g);
    ck!(s, "gold div", [x, y], to_canonical_u64(q) as u128 * b % GP, a);
    let mut t = x;
    t.div_reduce_assign(y, g);
    ck!(s, "gold div_assign", [x, y], to_canonical_u64(t) as u128 * b % GP, a);
    Some(q)
}
fn gold_exp(s: &Sec, x: u64, e: u64) -> u64 {
    let g = GoldilocksModulus;
    let a = x as u128 % GP;
    let w = powm(a, e as u128, GP);
    let r = x.exp_reduce(e, g);
    ck!(s, "gold exp", [x, e], to_canonical_u64(r) as u128, w);
    if e <= u8::MAX as u64 {
        ck!(s, "gold exp u8", [x, e], to_canonical_u64(x.exp_reduce(e as u8, g)) as u128, w);
    }
    if e <= u16::MAX as u64 {
        ck!(s, "gold exp u16", [x, e], to_canonical_u64(x.exp_reduce(e as u16, g)) as u128, w);
    }
    if e <= u32::MAX as u64 {
        ck!(s, "gold exp u32", [x, e], to_canonical_u64(x.exp_reduce(e as u32, g)) as u128, w);
    }
    r
}

/// x, y: Montgomery representations below the prime
fn baby_pair(s: &Sec, x: u32, y: u32) -> [u32; 3] {
    let m = BabyBearModulus;
    let (a, b) = (from_monty(x) as u64, from_monty(y) as u64);
    let add = x.add_reduce(y, m);
    let sub = x.sub_reduce(y, m);
    let mul = x.mul_reduce(y, m);
    let f = |v: u32| (from_monty(v) as u64, (v as u64) < BP);
    ck!(s, "baby add", [x, y], f(add), ((a + b) % BP, true));
    ck!(s, "baby sub", [x, y], f(sub), ((a + BP - b) % BP, true));
    ck!(s, "baby mul", [x, y], f(mul), (a * b % BP, true));
    let mut t = x;
    t.add_reduce_assign(y, m);
    ck!(s, "baby add_assign", [x, y], t, add);
    let mut t = x;
    t.sub_reduce_assign(y, m);
    ck!(s, "baby sub_assign", [x, y], t, sub);
    let mut t = x;
    t.mul_reduce_assign(y, m);
    ck!(s, "baby mul_assign", [x, y], t, mul);
    [add, sub, mul]
}
fn baby_unary(s: &Sec, x: u32, inv: bool) -> Vec<u32> {
    let m = BabyBearModulus;
    let a = from_monty(x) as u64;
    let n = x.neg_reduce(m);
    ck!(s, "baby neg", [x], (from_monty(n) as u64, (n as u64) < BP), ((BP - a) % BP, true));
    let mut t = x;
    t.neg_reduce_assign(m);
    ck!(s, "baby neg_assign", [x], t, n);
    let mut out = vec![n];
    if inv {
        let mut p = a;
        for e in 0..35u32 {
            let v = x.exp_power_of_2_reduce(e, m);
            ck!(s, "baby exp_power_of_2", [x, e], from_monty(v) as u64, p);
            p = p * p % BP;
        }
        match x.try_inv_reduce(m) {
            Ok(i) => {
                ck!(s, "baby try_inv", [x], (a != 0, from_monty(i) as u64 * a % BP, (i as u64) < BP), (true, 1, true));
                out.push(i);
                ck!(s, "baby inv", [x], x.inv_reduce(m), i);
                let mut t = x;
                t.inv_reduce_assign(m);
                ck!(s, "baby inv_assign", [x], t, i);
            }
            Err(_) => ck!(s, "baby try_inv err", [x], a, 0),
        }
    }
    out
}
fn baby_exp(s: &Sec, x: u32, e: u64) -> u32 {
    let m = BabyBearModulus;
    let w = powm(from_monty(x) as u128, e as u128, BP as u128) as u64;
    let r = x.exp_reduce(e, m);
    let check = |what: &str, r: u32| {
        if e == 0 && r == 1 {
            // one entry for the whole call site: the plain integer 1 instead of the representation of one
            s.fail("baby exp e=0 returns the plain integer 1", format!("x={x} {what}: got 1, want {MONTY_ONE} (the representation of one)"));
        } else {
            ck!(s, what, [x, e], (from_monty(r) as u64, (r as u64) < BP), (w, true));
        }
    };
    check("baby exp u64", r);
    if e <= u8::MAX as u64 {
        check("baby exp u8", x.exp_reduce(e as u8, m));
    }
    if e <= u16::MAX as u64 {
        check("baby exp u16", x.exp_reduce(e as u16, m));
    }
    if e <= u32::MAX as u64 {
        check("baby exp u32", x.exp_reduce(e as u32, m));
    }
    if e == 0 { MONTY_ONE } else { r }
}

fn main() {
    let c = Ctx::new("C04", "exploration");
    c.rule("breadth-first exploration of the representations reachable by operation chains from boundary values; every operation on every visited representation is executed on the real code and compared with exact integer arithmetic modulo the prime; distinct counts the different representations operations were applied to");
    c.assume("a chain is correct when each of its steps maps representations of residues to a representation of the exact result, so single steps from every visited representation, canonical or not, are checked; chains of the stated depth are explored explicitly");
    let exps: Vec<u64> = {
        let mut v: Vec<u64> = edge_values(64).into_iter().map(|x| x as u64).collect();
        v.extend(0..100);
        v.extend([GOLDILOCKS_P, GOLDILOCKS_P - 1, GOLDILOCKS_P - 2, BP, BP - 1, BP - 2, (GOLDILOCKS_P - 1) / 2]);
        v.sort();
        v.dedup();
        v
    };
    c.section("goldilocks boundary pairs", "x,y", |s| {
        let mut vs: Vec<u64> = edge_operands(GP, 64).into_iter().map(|x| x as u64).collect();
        for d in 0..40u64 {
            vs.extend([u64::MAX - d, GOLDILOCKS_P.wrapping_add(d), GOLDILOCKS_P - d, (1 << 32) + d, (1 << 32) - d, (0xFFFF_FFFF << 32) + d]);
        }
        vs.sort();
        vs.dedup();
        s.par(vs.len(), |i, t| {
            for &y in &vs {
                cur(&[vs[i], y]);
                gold_pair(s, vs[i], y);
                gold_div(s, vs[i], y);
                t.evals += 8;
            }
            cur(&[vs[i]]);
            gold_unary(s, vs[i]);
            t.evals += 80;
            for &e in &exps {
                cur(&[vs[i], e]);
                gold_exp(s, vs[i], e);
                t.evals += 4;
            }
            t.distinct += 1;
        });
    });
    c.section("goldilocks chains", "depth,x,y", |s| {
        // operands every chain may use at each step
        let ops: Vec<u64> = vec![0, 1, 2, 7, 0xFFFF_FFFF, 1 << 32, GOLDILOCKS_P - 1, GOLDILOCKS_P, GOLDILOCKS_P + 1, u64::MAX, u64::MAX - 1, 1 << 63, GOLDILOCKS_P / 2, 0xFFFF_FFFE_0000_0001];
        let mut seen: HashSet<u64> = ops.iter().copied().collect();
        let mut frontier: Vec<u64> = ops.clone();
        let depth = c.tier(5, 6);
        let cap = c.tier(300_000usize, 5_000_000);
        for d in 0..depth {
            let next = std::sync::Mutex::new(Vec::new());
            let chunks: Vec<&[u64]> = frontier.chunks(512).collect();
            s.par(chunks.len(), |i, t| {
                let mut out = vec![];
                for &x in chunks[i] {
                    for (k, &y) in ops.iter().enumerate() {
                        cur(&[d as u64, x, y]);
                        out.extend(gold_pair(s, x, y));
                        out.extend(gold_pair(s, y, x));
                        t.evals += 12;
                        if k % 7 == 0 {
                            out.extend(gold_div(s, y, x));
                        }
                    }
                    // a step with the value itself
                    out.extend(gold_pair(s, x, x));
                    if d < 3 {
                        out.extend(gold_unary(s, x));
                    }
                    for e in [0u64, 2, 3, 5, 1 << 32] {
                        out.push(gold_exp(s, x, e));
                    }
                    t.evals += 20;
                    t.distinct += 1;
                }
                next.lock().unwrap().extend(out);
            });
            let mut nf = vec![];
            let mut all = next.into_inner().unwrap();
            all.sort();
            all.dedup();
            for v in all {
                if seen.len() < cap && seen.insert(v) {
                    nf.push(v);
                }
            }
            frontier = nf;
        }
        s.sample(|| J::obj([("reachable representations kept", J::n(seen.len() as u64)), ("non-canonical among them", J::n(seen.iter().filter(|v| **v >= GOLDILOCKS_P).count() as u64))]));
    });
    c.section("babybear conversions, all values", "block", |s| {
        ck!(s, "constants", [0], (MONTY_ZERO, from_monty(MONTY_ONE), from_monty(MONTY_TWO), from_monty(MONTY_NEG_ONE)), (0, 1, 2, BABY_BEAR_P - 1));
        const B: u64 = 1 << 16;
        s.par(BP.div_ceil(B) as usize, |i, t| {
            for v in (i as u64 * B)..((i as u64 + 1) * B).min(BP) {
                let x = to_monty(v as u32);
                if from_monty(x) as u64 != v || x as u64 >= BP {
                    ck!(s, "to/from monty", [v], (from_monty(x) as u64, (x as u64) < BP), (v, true));
                }
                t.evals += 2;
                t.distinct += 1;
            }
        });
        // words at or above the prime are accepted by the conversion into the field
        for v in edge_operands(BP as u128, 32) {
            let x = to_monty(v as u32);
            ck!(s, "to_monty of any word", [v], from_monty(x) as u128, v % BP as u128);
        }
    });
    c.section("babybear unary, values in a stride", "block", |s| {
        let stride = c.tier(4096u64, 64);
        let n = BP / stride;
        s.par((n / 1024 + 1) as usize, |i, t| {
            for k in (i as u64 * 1024)..((i as u64 + 1) * 1024).min(n + 1) {
                let v = (k * stride).min(BP - 1) as u32;
                cur(&[v as u64]);
                baby_unary(s, v, true);
                t.evals += 40;
                t.distinct += 1;
            }
        });
    });
    c.section("babybear boundary pairs", "x,y", |s| {
        let mut vs: Vec<u32> = edge_operands(BP as u128, 31).into_iter().filter(|v| *v < BP as u128).map(|x| x as u32).collect();
        vs.extend(vs.clone().into_iter().map(to_monty));
        vs.sort();
        vs.dedup();
        s.par(vs.len(), |i, t| {
            let x = vs[i];
            for &y in &vs {
                cur(&[x as u64, y as u64]);
                baby_pair(s, x, y);
                t.evals += 6;
                if y != 0 {
                    let q = x.div_reduce(y, BabyBearModulus);
                    ck!(s, "baby div", [x, y], from_monty(q) as u64 * from_monty(y) as u64 % BP, from_monty(x) as u64);
                    let mut z = x;
                    z.div_reduce_assign(y, BabyBearModulus);
                    ck!(s, "baby div_assign", [x, y], z, q);
                    t.evals += 2;
                }
            }
            cur(&[x as u64]);
            baby_unary(s, x, true);
            for &e in &exps {
                cur(&[x as u64, e]);
                baby_exp(s, x, e);
                t.evals += 4;
            }
            t.distinct += 1;
        });
    });
    c.section("babybear chains", "depth,x,y", |s| {
        let ops: Vec<u32> = vec![0, 1, 2, MONTY_ONE, MONTY_TWO, MONTY_NEG_ONE, BABY_BEAR_P - 1, BABY_BEAR_P / 2, 1 << 27, (1 << 27) - 1, 1 << 30];
        let mut seen: HashSet<u32> = ops.iter().copied().collect();
        let mut frontier = ops.clone();
        let cap = c.tier(300_000usize, 5_000_000);
        for d in 0..c.tier(4, 6) {
            let next = std::sync::Mutex::new(Vec::new());
            let chunks: Vec<&[u32]> = frontier.chunks(512).collect();
            s.par(chunks.len(), |i, t| {
                let mut out = vec![];
                for &x in chunks[i] {
                    for &y in &ops {
                        cur(&[d as u64, x as u64, y as u64]);
                        out.extend(baby_pair(s, x, y));
                        out.extend(baby_pair(s, y, x));
                        t.evals += 12;
                    }
                    out.extend(baby_pair(s, x, x));
                    out.extend(baby_unary(s, x, d < 3));
                    for e in [0u64, 2, 3, 5, 1 << 27] {
                        out.push(baby_exp(s, x, e));
                    }
                    t.evals += 15;
                    t.distinct += 1;
                }
                next.lock().unwrap().extend(out);
            });
            let mut all = next.into_inner().unwrap();
            all.sort();
            all.dedup();
            frontier = vec![];
            for v in all {
                if seen.len() < cap && seen.insert(v) {
                    frontier.push(v);
                }
            }
        }
        s.sample(|| J::obj([("reachable representations kept", J::n(seen.len() as u64))]));
    });
    c.finish()
}
