//! C24: encoding and decoding of messages.
use fhe_core::{decode, encode, LWEModulusType, LWEMsgType};
use harness::*;

/// Values to use below `n`: all of them up to `lim`, else boundary values.
fn below(n: u64, lim: u64) -> Vec<u64> {
    if n <= lim {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = edge_values(64).into_iter().map(|x| x as u64).filter(|x| *x < n).collect();
    v.extend((1..=4).map(|d| n - d));
    v.extend((0..4).map(|d| n / 2 + d));
    v.extend((1..=4).map(|d| n / 2 - d));
    v.sort();
    v.dedup();
    v
}

/// Message type, with the values it can hold.
trait Msg: LWEMsgType + PartialEq + std::fmt::Debug {
    const MAX: u64;
    fn of(x: u64) -> Self;
    fn to(self) -> u64;
}
macro_rules! msg { ($($t:ty)*) => { $( impl Msg for $t { const MAX: u64 = <$t>::MAX as u64; fn of(x: u64) -> Self { x as $t } fn to(self) -> u64 { self as u64 } } )* } }
msg! { u8 u16 u32 u64 }
impl Msg for bool {
    const MAX: u64 = 1;
    fn of(x: u64) -> Self {
        x == 1
    }
    fn to(self) -> u64 {
        self as u64
    }
}

/// nearest multiple of q/t, halves up, as a message
fn want(v: u64, t: u64, q: u64) -> u64 {
    let step = (q / t) as u128;
    ((2 * v as u128 + step) / (2 * step) % t as u128) as u64
}

fn one<M: Msg, C: LWEModulusType + V>(s: &Sec, tl: &mut Tally, t: u64, q: u64, limit: u64) {
    let step = q / t;
    let noises: Vec<u64> = below(step.div_ceil(2), limit); // |e| < step / 2
    for m in below(t, limit).into_iter().filter(|m| *m <= M::MAX) {
        cur(&[t, q, m]);
        let e: C = encode(M::of(m), t, q);
        ck!(s, "encode", [t, q, m], e.to() as u128, m as u128 * step as u128);
        for &n in &noises {
            cur(&[t, q, m, n]);
            let up = ((e.to() as u128 + n as u128) % q as u128) as u64;
            let down = ((e.to() as u128 + q as u128 - n as u128) % q as u128) as u64;
            let a: M = decode(C::of(up), t, q);
            let b: M = decode(C::of(down), t, q);
            ck!(s, "decode with positive noise", [t, q, m, n], a.to(), m);
            ck!(s, "decode with negative noise", [t, q, m, n], b.to(), m);
            tl.evals += 2;
        }
        tl.distinct += 1;
    }
    // any value
    for v in below(q, limit) {
        let w = want(v, t, q);
        cur(&[t, q, v]);
        let odd = 2 * v as u128 % step as u128 == 0 && v as u128 % step as u128 != 0; // exactly between two messages
        if w <= M::MAX && !(odd && (w + t - 1) % t > M::MAX) {
            let g: M = decode(C::of(v), t, q);
            if odd {
                if g.to() != w && g.to() != (w + t - 1) % t {
                    s.fail(format!("decode of a midpoint t={t} q={q} v={v}"), format!("got {g:?}, want {w} or the one before"));
                }
            } else {
                ck!(s, "decode of any value", [t, q, v], g.to(), w);
            }
            tl.evals += 1;
        }
    }
    // a message outside the space is refused
    for m in [t, t + 1, t + (t - 1), t.saturating_mul(2)].into_iter().filter(|m| *m <= M::MAX) {
        if catch(|| encode::<M, C>(M::of(m), t, q)).is_ok() {
            s.fail(format!("encode of a message outside the space t={t} q={q} m={m}"), "accepted");
        }
    }
}

fn width<C: LWEModulusType + V>(c: &Ctx, name: &str, bits: u32, limit: u64) {
    c.section(name, "t, q, message, noise", |s| {
        let pairs: Vec<(u32, u32)> = (1..bits).flat_map(|lq| (0..=lq).map(move |lt| (lt, lq))).collect();
        s.par(pairs.len(), |i, tl| {
            let (lt, lq) = pairs[i];
            let (t, q) = (1u64 << lt, 1u64 << lq);
            one::<bool, C>(s, tl, t, q, limit);
            one::<u8, C>(s, tl, t, q, limit);
            one::<u16, C>(s, tl, t, q, limit);
            one::<u32, C>(s, tl, t, q, limit);
            one::<u64, C>(s, tl, t, q, limit);
        });
        s.sample(|| J::s("t=4 q=512 message 3, noise -63"));
    });
}

fn main() {
    let c = Ctx::new("C24", "exploration");
    c.rule("every pair of powers of two t <= q below the word size, every message type; every message, every noise in the open margin in both signs and every ciphertext value for moduli up to the stated limit, boundary values beyond it");
    c.assume("noise of exactly half a step is outside the margin: either neighbour is accepted");
    width::<u8>(&c, "u8 ciphertexts, all values", 8, 1 << 8);
    width::<u16>(&c, "u16 ciphertexts", 16, c.tier(1 << 14, 1 << 16));
    width::<u32>(&c, "u32 ciphertexts", 32, c.tier(1 << 11, 1 << 16));
    width::<u64>(&c, "u64 ciphertexts", 64, c.tier(1 << 11, 1 << 15));
    c.finish()
}
