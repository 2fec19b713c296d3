//! C23: modulus switching rounds every component to the nearest integer.
use algebra::Field;
use fhe_core::{lwe_modulus_switch, lwe_modulus_switch_assign_between_modulus, lwe_modulus_switch_inplace, DefaultFieldU32, DefaultQks, LWEModulusType};
use harness::fields::*;
use harness::*;
use lattice::LWE;

/// Is `got` the integer nearest to v*q2/q1, modulo q2? (Beyond 51 bits: up to the precision of a double.)
#[inline]
fn right(v: u64, q1: u64, q2: u64, got: u64) -> bool {
    let (n, d) = (v as u128 * q2 as u128, q1 as u128);
    let w = (2 * n + d) / (2 * d); // halves up
    let g = got as u128;
    if got >= q2 {
        return false;
    }
    if (q1 as u128 * q2 as u128) >> 51 == 0 {
        g == w % q2 as u128 || (2 * n + d) % (2 * d) == 0 && g == (w - 1) % q2 as u128
    } else {
        // |got - v*q2/q1| <= 1/2 + v*q2/q1 * 2^-50, on the circle
        let tol = d / 2 + (n >> 50) + 1;
        (g * d).abs_diff(n) <= tol || ((g + q2 as u128) * d).abs_diff(n) <= tol
    }
}

fn sw<F: Field<Value: V>, C: LWEModulusType + V>(s: &Sec, tl: &mut Tally, vs: &[u64], q2: u64, full: bool) {
    let q1 = fq::<F>();
    let m = C::of(q2);
    cur(&[q1, q2, vs[0]]);
    let a: Vec<F> = fes(vs);
    let b = vs[vs.len() / 2];
    let out = lwe_modulus_switch::<C, F>(LWE::new(a.clone(), fe(b)), m);
    if out.a().len() != vs.len() {
        s.fail(format!("length q={q1} q'={q2}"), "the mask changed its length");
        return;
    }
    for (v, o) in vs.iter().zip(out.a()) {
        if !right(*v, q1, q2, o.to()) {
            s.fail(format!("switch q={q1} q'={q2} v={v}"), format!("got {}", o.to()));
            return;
        }
    }
    if !right(b, q1, q2, out.b().to()) {
        s.fail(format!("switch of b q={q1} q'={q2} v={b}"), format!("got {}", out.b().to()));
    }
    tl.evals += vs.len() as u64 + 1;
    if full {
        for dirt in [0, 1, q2 - 1, C::max_value().to()] {
            let mut d = LWE::new(vec![C::of(dirt); vs.len()], C::of(dirt));
            lwe_modulus_switch_inplace::<C, F>(LWE::new(a.clone(), fe(b)), m, &mut d);
            if d != out {
                s.fail(format!("in-place form differs q={q1} q'={q2} from v={} dirt={dirt}", vs[0]), "differs from the allocating form");
            }
            tl.evals += vs.len() as u64 + 1;
        }
    }
    tl.distinct += vs.len() as u64;
}

fn field<F: Field<Value: V>>(s: &Sec, thorough: bool) {
    let q1 = fq::<F>();
    let chunks = if q1 <= 1 << 28 { q1.div_ceil(1 << 14) } else { 0 };
    s.par(chunks as usize, |i, tl| {
        let lo = (i as u64) << 14;
        let vs: Vec<u64> = (lo..(lo + (1 << 14)).min(q1)).collect();
        let full = q1 < 1 << 16 || i % 64 == 0;
        let all = q1 < 1 << 16 || thorough;
        for lg in 1..=15u32 {
            if all || [1, 4, 9, 10, 11, 12].contains(&lg) {
                sw::<F, u16>(s, tl, &vs, 1 << lg, full);
            }
        }
        if all {
            for lg in 1..=7 {
                sw::<F, u8>(s, tl, &vs, 1 << lg, full);
            }
            for lg in 1..=31 {
                sw::<F, u32>(s, tl, &vs, 1 << lg, full);
            }
        }
        if q1 < 1 << 16 {
            for lg in 1..=63 {
                sw::<F, u64>(s, tl, &vs, 1 << lg, full);
            }
            for q2 in [3, 5, 6, 100, 255] {
                sw::<F, u8>(s, tl, &vs, q2, full);
                sw::<F, u64>(s, tl, &vs, q2 * 1001, full);
            }
        }
    });
    // values around every rounding boundary, for every modulus after
    s.par(63, |i, tl| {
        let q2 = 1u64 << (i + 1);
        let mut vs: Vec<u64> = edge_operands(q1 as u128, 64).into_iter().map(|x| x as u64).filter(|x| *x < q1).collect();
        let steps = q2.min(1 << 14);
        for k in (0..steps).chain((0..steps).map(|d| q2 - 1 - d)) {
            let c = ((2 * k as u128 + 1) * q1 as u128 / (2 * q2 as u128)) as u64;
            vs.extend((c.saturating_sub(2)..=c.saturating_add(3)).filter(|x| *x < q1));
        }
        vs.sort();
        vs.dedup();
        for part in vs.chunks(1 << 12) {
            if i < 7 {
                sw::<F, u8>(s, tl, part, q2, true);
            }
            if i < 15 {
                sw::<F, u16>(s, tl, part, q2, true);
            }
            if i < 31 {
                sw::<F, u32>(s, tl, part, q2, true);
            }
            sw::<F, u64>(s, tl, part, q2, true);
        }
    });
    s.sample(|| J::s(&format!("modulus {q1} to 2048, value {}", q1 / 4096)));
}

fn between<C: LWEModulusType + V>(s: &Sec, tl: &mut Tally, q1: u64, q2: u64, lim: u64) {
    let vs: Vec<u64> = if q1 <= lim {
        (0..q1).collect()
    } else {
        let mut v: Vec<u64> = edge_operands(q1 as u128, 64).into_iter().map(|x| x as u64).filter(|x| *x < q1).collect();
        for k in 0..q2.min(1 << 10) {
            let c = ((2 * k as u128 + 1) * q1 as u128 / (2 * q2 as u128)) as u64;
            v.extend((c.saturating_sub(2)..=c + 3).filter(|x| *x < q1));
        }
        v
    };
    for part in vs.chunks(1 << 12) {
        cur(&[q1, q2, part[0]]);
        for b in [part[0], part[part.len() - 1]] {
            let mut c = LWE::new(part.iter().map(|v| C::of(*v)).collect(), C::of(b));
            lwe_modulus_switch_assign_between_modulus(&mut c, C::of(q1), C::of(q2));
            if c.a().len() != part.len() {
                s.fail(format!("length q={q1} q'={q2}"), "the mask changed its length");
                return;
            }
            for (v, o) in part.iter().zip(c.a()).chain([(&b, &c.b())]) {
                if !right(*v, q1, q2, o.to()) {
                    s.fail(format!("switch between word moduli q={q1} q'={q2} v={v}"), format!("got {}", o.to()));
                    return;
                }
            }
            tl.evals += part.len() as u64 + 1;
        }
        tl.distinct += part.len() as u64;
    }
}

fn main() {
    let c = Ctx::new("C23", "exploration");
    c.rule("field to power-of-two moduli: every value of every field below 2^28 for the listed moduli, the neighbourhood of every rounding boundary otherwise; between word moduli: every pair of 8-bit moduli with every value, every pair of powers of two of the wider words; every destination content class");
    c.assume("exactly between two integers either neighbour is accepted; where the product of the two moduli exceeds 51 bits the nearest integer is required up to the relative precision of a double");
    c.section("fields of 8 and 16 bits", "q, q', first v", |s| {
        field::<F2b>(s, true);
        field::<F3b>(s, true);
        field::<F5b>(s, true);
        field::<F17b>(s, true);
        field::<F61b>(s, true);
        field::<F97h>(s, true);
        field::<F7681h>(s, true);
        field::<F16381h>(s, true);
    });
    c.section("fields of 32 and 64 bits", "q, q', first v", |s| {
        field::<F17>(s, true);
        field::<F12289>(s, true);
        field::<DefaultQks>(s, c.thorough);
        field::<DefaultFieldU32>(s, c.thorough);
        field::<FTop32>(s, c.thorough);
        field::<FMax32>(s, c.thorough);
        field::<F257q>(s, c.thorough);
        field::<F60>(s, c.thorough);
        field::<FMax64>(s, c.thorough);
    });
    c.section("short ciphertexts", "q, q', v", |s| {
        let mut tl = Tally::default();
        for n in 0..5usize {
            for v in 0..17u64 {
                for w in 0..17u64 {
                    let a: Vec<F17> = (0..n).map(|i| fe((v + w * i as u64) % 17)).collect();
                    let o = lwe_modulus_switch::<u16, F17>(LWE::new(a.clone(), fe(w)), 16);
                    let ok = o.a().len() == n && a.iter().zip(o.a()).all(|(x, y)| right(val(*x), 17, 16, *y as u64)) && right(w, 17, 16, o.b() as u64);
                    ck!(s, "short", [n, v, w], ok, true);
                    let mut d = LWE::new(vec![7u16; n], 9);
                    lwe_modulus_switch_inplace(LWE::new(a, fe::<F17>(w)), 16, &mut d);
                    ck!(s, "short in place", [n, v, w], d, o);
                    tl.evals += 2;
                    tl.distinct += 1;
                }
            }
        }
        s.add(&tl);
    });
    c.section("between word moduli", "q, q', first v", |s| {
        s.par(254, |i, tl| {
            for q2 in 2..256 {
                between::<u8>(s, tl, i as u64 + 2, q2, 256);
            }
        });
        s.par(63 * 63, |i, tl| {
            let (l1, l2) = (i / 63 + 1, i % 63 + 1);
            let lim = c.tier(1 << 12, 1 << 18);
            if l1.max(l2) < 16 {
                between::<u16>(s, tl, 1 << l1, 1 << l2, 1 << 16);
            }
            if l1.max(l2) < 32 {
                between::<u32>(s, tl, 1 << l1, 1 << l2, lim);
            }
            between::<u64>(s, tl, 1 << l1, 1 << l2, lim);
        });
        s.sample(|| J::s("512 to 2048, every value"));
    });
    c.finish()
}
