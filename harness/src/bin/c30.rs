//! C30: the 128-bit block against u128.
use algebra::utils::Block;
use harness::rngs::*;
use harness::*;
use rand::Rng;

fn conv(s: &Sec, x: u128, t: &mut Tally) {
    cur(&[x as u64, (x >> 64) as u64]);
    let le = x.to_le_bytes();
    let words = [x as u64, (x >> 64) as u64];
    let b = Block::from(x);
    for (n, y) in [
        ("from u128", b),
        ("from bytes", Block::from(le)),
        ("from words", Block::from(words)),
        ("new", Block::new(&le)),
        ("clone", #[allow(clippy::clone_on_copy)] b.clone()),
    ] {
        if u128::from(y) != x {
            ck!(s, n, [x], u128::from(y), x);
        }
        if <[u8; 16]>::from(y) != le {
            ck!(s, format!("{n} to bytes"), [x], <[u8; 16]>::from(y), le);
        }
        if <[u64; 2]>::from(y) != words {
            ck!(s, format!("{n} to words"), [x], <[u64; 2]>::from(y), words);
        }
        if y.as_ref() != le {
            ck!(s, format!("{n} as_ref"), [x], y.as_ref(), &le[..]);
        }
    }
    // an unaligned slice
    let mut buf = vec![0xEEu8; 40];
    for off in 0..16 {
        buf[off..off + 16].copy_from_slice(&le);
        let y = Block::try_from_slice(&buf[off..off + 16]).map(u128::from);
        ck!(s, "try_from_slice", [x, off], y, Some(x));
        let arr: &[u8; 16] = buf[off..off + 16].try_into().unwrap();
        ck!(s, "new unaligned", [x, off], u128::from(Block::new(arr)), x);
    }
    ck!(s, "display", [x], format!("{b}"), format!("{x:032X}"));
    ck!(s, "debug", [x], format!("{b:?}"), format!("{x:032X}"));
    // writing a byte through as_mut
    for i in 0..16 {
        let mut y = b;
        y.as_mut()[i] ^= 0xA5;
        ck!(s, "as_mut", [x, i], u128::from(y), x ^ (0xA5u128 << (8 * i)));
    }
    t.evals += 1;
    t.distinct += 1;
}
fn pair(s: &Sec, x: u128, y: u128, t: &mut Tally) {
    cur(&[x as u64, (x >> 64) as u64, y as u64, (y >> 64) as u64]);
    let (a, b) = (Block::from(x), Block::from(y));
    let asg = |f: fn(&mut Block, Block)| { let mut z = a; f(&mut z, b); u128::from(z) };
    for (n, g, w) in [
        ("xor", u128::from(a ^ b), x ^ y),
        ("or", u128::from(a | b), x | y),
        ("and", u128::from(a & b), x & y),
        ("xor assign", asg(|z, b| *z ^= b), x ^ y),
        ("or assign", asg(|z, b| *z |= b), x | y),
        ("and assign", asg(|z, b| *z &= b), x & y),
    ] {
        if g != w {
            ck!(s, n, [x, y], g, w);
        }
    }
    if (a == b) != (x == y) || (a != b) != (x != y) {
        ck!(s, "equality", [x, y], a == b, x == y);
    }
    t.evals += 1;
    t.distinct += (x != y) as u64;
}

fn main() {
    let c = Ctx::new("C30", "exploration");
    c.rule("a case is a block value, a pair of block values, or a slice; a pair is non-trivial when the values differ");
    // all single-byte values at every byte position, all 1- and 2-bit patterns, boundary values, all complements
    let mut vals = edge_values(128);
    for i in 0..16 {
        for v in 0..256u128 {
            vals.push(v << (8 * i));
            vals.push(!(v << (8 * i)));
        }
    }
    vals.sort();
    vals.dedup();
    c.section("conversions", "low word, high word", |s| {
        ck!(s, "ZERO", [], u128::from(Block::ZERO), 0);
        ck!(s, "default", [], u128::from(Block::default()), 0);
        s.par(vals.len(), |i, t| conv(s, vals[i], t));
        s.sample(|| J::s(&format!("{:032X}", vals[vals.len() / 2])));
    });
    c.section("slices of every length", "length", |s| {
        let bytes: Vec<u8> = (0..c.tier(600, 5000)).map(|i| i as u8 ^ 0x5A).collect();
        let mut t = Tally::default();
        for n in 0..=bytes.len() {
            cur(&[n as u64]);
            let got = Block::try_from_slice(&bytes[..n]).map(u128::from);
            let want = (n == 16).then(|| u128::from_le_bytes(bytes[..16].try_into().unwrap()));
            ck!(s, "try_from_slice", [n], got, want);
            t.evals += 1;
            t.distinct += 1;
        }
        s.add(&t);
        s.sample(|| J::s("length 15 refused"));
    });
    // a random block: every bit is one bit of the generator's output, each a different one
    c.section("random blocks", "low word, high word", |s| {
        let draw = |x: &[u8]| {
            let mut r = Stream { bytes: x.to_vec(), pos: 0 };
            (u128::from(r.gen::<Block>()), r.pos)
        };
        let mut t = Tally::default();
        let (zero, n) = draw(&[]);
        // the stream bit behind each bit of the block
        let mut from: Vec<Option<usize>> = vec![None; 128];
        for bit in 0..8 * n {
            let mut b = vec![0u8; n];
            b[bit / 8] |= 1 << (bit % 8);
            let d = draw(&b).0 ^ zero;
            if d.count_ones() > 1 {
                s.fail(format!("generator bit {bit}"), format!("decides the block bits {d:032X}"));
                return;
            }
            if d != 0 {
                let k = d.trailing_zeros() as usize;
                if let Some(o) = from[k].replace(bit) {
                    s.fail(format!("block bit {k}"), format!("depends on generator bits {o} and {bit}"));
                    return;
                }
            }
            t.evals += 1;
        }
        if let Some(k) = from.iter().position(|f| f.is_none()) {
            s.fail(format!("block bit {k}"), "does not depend on the generator");
            return;
        }
        for x in &vals {
            cur(&[*x as u64, (*x >> 64) as u64]);
            let mut b: Vec<u8> = vec![0; n];
            for (i, v) in b.iter_mut().enumerate() {
                *v = x.to_le_bytes()[i % 16];
            }
            let want = (0..128).fold(zero, |w, k| w ^ ((b[from[k].unwrap() / 8] >> (from[k].unwrap() % 8) & 1) as u128) << k);
            ck!(s, "random", [x], draw(&b).0, want);
            t.evals += 1;
            t.distinct += 1;
        }
        s.add(&t);
        s.sample(|| J::s("the first generator bit"));
    });
    // every pair of bytes at every position, and all pairs of boundary values
    c.section("operations, all byte pairs", "x low, x high, y low, y high", |s| {
        s.par(16 * 256, |i, t| {
            let (p, v) = (8 * (i / 256) as u32, (i % 256) as u128);
            for w in 0..256u128 {
                pair(s, v << p, w << p, t);
                pair(s, !(v << p), w << p, t);
            }
        });
        s.sample(|| J::s("3 << 8 against 5 << 8"));
    });
    c.section("operations, boundary pairs", "x low, x high, y low, y high", |s| {
        let vals = if c.thorough { vals.clone() } else { edge_values(128) };
        s.par(vals.len(), |i, t| vals.iter().for_each(|y| pair(s, vals[i], *y, t)));
        s.sample(|| J::s("2^64-1 against 2^64"));
    });
    c.finish()
}
