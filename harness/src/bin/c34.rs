//! C34: reversing the low bits of an index.
use algebra::utils::ReverseLsbs;
use harness::*;

/// Bit by bit, on 128-bit integers.
fn want(x: u128, bits: u32) -> u128 {
    (0..bits).fold(0, |r, i| r | ((x >> i & 1) << (bits - 1 - i)))
}

trait Word: ReverseLsbs + Copy + Send + Sync + 'static {
    const B: u32;
    fn of(x: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! w { ($($t:ty)*) => { $( impl Word for $t { const B: u32 = <$t>::BITS; fn of(x: u128) -> Self { x as $t } fn to(self) -> u128 { self as u128 } } )* } }
w! { u8 u16 u32 u64 u128 usize }

/// Every value of that many bits.
fn all<T: Word>(s: &Sec, bits: u32, t: &mut Tally) {
    let n = 1u128 << bits;
    let mut seen = vec![false; n as usize];
    for x in 0..n {
        cur(&[T::B as u64, bits as u64, x as u64]);
        let r = T::of(x).reverse_lsbs(bits).to();
        let w = want(x, bits);
        if r != w {
            ck!(s, "reverse_lsbs", [T::B, bits, x], r, w);
            return;
        }
        let rr = T::of(r).reverse_lsbs(bits).to();
        if rr != x {
            ck!(s, "involution", [T::B, bits, x], rr, x);
            return;
        }
        if std::mem::replace(&mut seen[r as usize], true) {
            s.fail(format!("not a permutation: width={} bits={bits} x={x}", T::B), format!("{r} is hit twice"));
            return;
        }
        t.evals += 1;
        t.distinct += (x != 0) as u64;
    }
    tick();
}
/// Any word, bits above included: the low bits reversed and nothing else.
fn edges<T: Word>(s: &Sec, t: &mut Tally) {
    for bits in 0..T::B {
        for x in edge_values(T::B) {
            cur(&[T::B as u64, bits as u64, x as u64, (x >> 64) as u64]);
            let r = T::of(x).reverse_lsbs(bits).to();
            if r != want(x, bits) {
                ck!(s, "reverse_lsbs", [T::B, bits, x], r, want(x, bits));
            }
            t.evals += 1;
            t.distinct += (x != 0 && bits > 1) as u64;
        }
    }
}

fn main() {
    let c = Ctx::new("C34", "exploration");
    c.rule("a case is (word width, number of bits, value); non-trivial when the value is not zero");
    c.assume("number of bits below the word width, as the interface requires");
    let full = c.tier(16, 22);
    c.section("all values", "width, bits, value", |s| {
        let mut jobs: Vec<(u32, u32)> = vec![];
        for w in [8u32, 16, 32, 64, 128, 129] {
            for b in 0..=full.min(w.min(128) - 1) {
                jobs.push((w, b));
            }
        }
        jobs.reverse();
        s.par(jobs.len(), |i, t| {
            let (w, b) = jobs[i];
            match w {
                8 => all::<u8>(s, b, t),
                16 => all::<u16>(s, b, t),
                32 => all::<u32>(s, b, t),
                64 => all::<u64>(s, b, t),
                128 => all::<u128>(s, b, t),
                _ => all::<usize>(s, b, t),
            }
        });
        s.sample(|| J::s("u32, bits 4, value 0b0010 -> 0b0100"));
    });
    c.section("whole words", "width, bits, value low, value high", |s| {
        s.par(6, |i, t| match i {
            0 => edges::<u8>(s, t),
            1 => edges::<u16>(s, t),
            2 => edges::<u32>(s, t),
            3 => edges::<u64>(s, t),
            4 => edges::<u128>(s, t),
            _ => edges::<usize>(s, t),
        });
        // every 8- and 16-bit word with every bit count
        s.par(16, |b, t| {
            let bits = b as u32;
            if bits < 8 {
                for x in 0..=u8::MAX {
                    cur(&[8, bits as u64, x as u64]);
                    if x.reverse_lsbs(bits) as u128 != want(x as u128, bits) {
                        ck!(s, "reverse_lsbs u8", [bits, x], x.reverse_lsbs(bits) as u128, want(x as u128, bits));
                    }
                    t.evals += 1;
                    t.distinct += (x != 0) as u64;
                }
            }
            for x in 0..=u16::MAX {
                cur(&[16, bits as u64, x as u64]);
                if x.reverse_lsbs(bits) as u128 != want(x as u128, bits) {
                    ck!(s, "reverse_lsbs u16", [bits, x], x.reverse_lsbs(bits) as u128, want(x as u128, bits));
                    return;
                }
                t.evals += 1;
                t.distinct += (x != 0) as u64;
            }
        });
        s.sample(|| J::s("u64, bits 63, value 2^63"));
    });
    c.finish()
}
