//! C29: the generator is AES-128 in counter mode, one stream of 32-bit words however it is read.
use algebra::utils::{Aes, Block, Prg};
use harness::rngs::*;
use harness::*;
use rand::{Rng, RngCore, SeedableRng};

/// AES-128 after FIPS-197, byte by byte, computed from the field definition.
mod aes_ref {
    fn xt(a: u8) -> u8 {
        (a << 1) ^ (if a & 0x80 != 0 { 0x1B } else { 0 })
    }
    fn mul(mut a: u8, mut b: u8) -> u8 {
        let mut r = 0;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            a = xt(a);
            b >>= 1;
        }
        r
    }
    pub fn sbox() -> [u8; 256] {
        let mut s = [0u8; 256];
        for x in 0..256usize {
            let inv = (0..256usize).find(|y| mul(x as u8, *y as u8) == 1).unwrap_or(0) as u8;
            s[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    }
    /// The same with the processor's instructions; compared with `R` in the self-test.
    #[derive(Clone, Copy)]
    pub struct Fast([core::arch::x86_64::__m128i; 11]);
    unsafe impl Sync for Fast {}
    impl Fast {
        pub fn new(r: &R) -> Fast {
            Fast(r.rk.map(|k| unsafe { std::mem::transmute::<[u8; 16], core::arch::x86_64::__m128i>(k) }))
        }
        /// Encryptions of `from`, `from` + 1, ...
        pub fn counters(&self, from: u64, out: &mut [u128]) {
            #[target_feature(enable = "aes")]
            unsafe fn go(k: &[core::arch::x86_64::__m128i; 11], from: u64, out: &mut [u128]) {
                use core::arch::x86_64::*;
                for (j, o) in out.chunks_mut(8).enumerate() {
                    let mut b: [__m128i; 8] = std::array::from_fn(|i| _mm_xor_si128(_mm_set_epi64x(0, (from + 8 * j as u64 + i as u64) as i64), k[0]));
                    for r in 1..10 {
                        for x in &mut b {
                            *x = _mm_aesenc_si128(*x, k[r]);
                        }
                    }
                    for (x, o) in b.iter().zip(o) {
                        *o = std::mem::transmute::<__m128i, u128>(_mm_aesenclast_si128(*x, k[10]));
                    }
                }
            }
            unsafe { go(&self.0, from, out) }
        }
    }
    pub struct R {
        s: [u8; 256],
        rk: [[u8; 16]; 11],
    }
    impl R {
        pub fn new(s: &[u8; 256], key: [u8; 16]) -> R {
            let mut w = [[0u8; 4]; 44];
            for i in 0..4 {
                w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
            }
            let mut rcon = 1u8;
            for i in 4..44 {
                let mut t = w[i - 1];
                if i % 4 == 0 {
                    t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                    rcon = xt(rcon);
                }
                for j in 0..4 {
                    w[i][j] = w[i - 4][j] ^ t[j];
                }
            }
            let mut rk = [[0u8; 16]; 11];
            for r in 0..11 {
                for i in 0..4 {
                    rk[r][4 * i..4 * i + 4].copy_from_slice(&w[4 * r + i]);
                }
            }
            R { s: *s, rk }
        }
        pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
            let mut st = b;
            for (x, k) in st.iter_mut().zip(&self.rk[0]) {
                *x ^= k;
            }
            for r in 1..11 {
                let mut t = [0u8; 16];
                for c in 0..4 {
                    for row in 0..4 {
                        t[4 * c + row] = self.s[st[4 * ((c + row) % 4) + row] as usize];
                    }
                }
                if r < 10 {
                    for c in 0..4 {
                        let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                        for i in 0..4 {
                            t[4 * c + i] = xt(a[i]) ^ (xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4]) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                        }
                    }
                }
                for (x, k) in t.iter_mut().zip(&self.rk[r]) {
                    *x ^= k;
                }
                st = t;
            }
            st
        }
    }
}
use aes_ref::{Fast, R};

/// The stream of 32-bit words of a seed.
fn stream(sb: &[u8; 256], seed: [u8; 16], words: usize) -> Vec<u32> {
    let r = R::new(sb, seed);
    let mut v = vec![];
    let mut ctr = 0u128;
    while v.len() < words {
        let b = r.enc(ctr.to_le_bytes());
        v.extend(b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())));
        ctr += 1;
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bool,
    Bools(usize),
    Byte,
    U32,
    U64,
    One,
    Bytes(usize),
    Fill(usize),
    TryFill(usize),
    Blocks(usize),
    Clone,
}
use Op::*;

/// The stream byte behind each byte of a random block: how `Block` is drawn from any generator
/// (C30 checks that no bit of it is lost). The order of the words is nobody's promise.
fn block_order() -> &'static [usize; 16] {
    static O: std::sync::OnceLock<[usize; 16]> = std::sync::OnceLock::new();
    O.get_or_init(|| {
        let plain = std::array::from_fn(|i| i);
        let mut r = Stream { bytes: (0..16).collect(), pos: 0 };
        let o = u128::from(r.gen::<Block>()).to_le_bytes().map(usize::from);
        let mut sorted = o;
        sorted.sort();
        if sorted == plain && r.pos == 16 { o } else { plain }
    })
}

/// Applies a read to the generator and to the model (a position in the stream); compares.
fn apply(s: &Sec, op: Op, g: &mut Prg, st: &[u32], pos: &mut usize, hist: &dyn Fn() -> String) -> bool {
    let bytes = |n: usize, pos: &mut usize| -> Vec<u8> {
        let w = n.div_ceil(4);
        let b: Vec<u8> = st[*pos..*pos + w].iter().flat_map(|x| x.to_le_bytes()).take(n).collect();
        *pos += w;
        b
    };
    let word = |pos: &mut usize| { *pos += 1; st[*pos - 1] };
    macro_rules! cmp { ($g:expr, $w:expr) => {{
        let (x, y) = ($g, $w);
        if x != y {
            s.fail(format!("{op:?} after {}", hist()), format!("got {x:?}, want {y:?}"));
            return false;
        }
    }} }
    match op {
        Bool => cmp!(g.random_bool(), word(pos) >> 31 == 1),
        Bools(n) => {
            let mut b = vec![false; n];
            g.random_bools(&mut b);
            cmp!(b, (0..n).map(|_| word(pos) >> 31 == 1).collect::<Vec<_>>());
        }
        Byte => cmp!(g.random_byte(), word(pos) as u8),
        U32 => cmp!(g.next_u32(), word(pos)),
        U64 => cmp!(g.next_u64(), word(pos) as u64 | (word(pos) as u64) << 32),
        One => {
            let b = bytes(16, pos);
            let w = block_order().map(|i| b[i]);
            cmp!(u128::from(g.random_block()), u128::from_le_bytes(w));
        }
        Bytes(n) => {
            let mut b = vec![0u8; n];
            g.random_bytes(&mut b);
            cmp!(b, bytes(n, pos));
        }
        Fill(n) => {
            let mut b = vec![0xFFu8; n];
            g.fill_bytes(&mut b);
            cmp!(b, bytes(n, pos));
        }
        TryFill(n) => {
            let mut b = vec![0u8; n];
            cmp!(g.try_fill_bytes(&mut b).is_ok(), true);
            cmp!(b, bytes(n, pos));
        }
        Blocks(n) => {
            let mut b = vec![algebra::utils::Block::ZERO; n];
            g.random_blocks(&mut b);
            let got: Vec<u8> = b.iter().flat_map(|x| x.as_ref().to_vec()).collect();
            cmp!(got, bytes(16 * n, pos));
        }
        Clone => {
            let mut old = std::mem::replace(g, g.clone());
            // the original, used up, must not disturb its clone
            cmp!(old.next_u64(), st[*pos] as u64 | (st[*pos + 1] as u64) << 32);
        }
    }
    true
}

fn main() {
    let c = Ctx::new("C29", "model_checking");
    c.rule("a state is a position in the word stream (with the generator object that reached it); a transition is a read of some kind; a trace is a sequence of reads from every start offset in the buffer");
    c.assume("one bit and one byte reads consume one 32-bit word each, as every generator of the rand crate does; a bulk read of bytes consumes whole words");
    let sb = aes_ref::sbox();
    c.section("reference self-test", "", |s| {
        // FIPS-197 appendix B and C.1
        let key: Vec<u8> = (0..16).collect();
        let pt: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        let ct = R::new(&sb, key.try_into().unwrap()).enc(pt.try_into().unwrap());
        assert_eq!(u128::from_be_bytes(ct), 0x69c4e0d86a7b0430d8cdb78070b4c55a, "reference AES");
        let ct = R::new(&sb, 0x2b7e151628aed2a6abf7158809cf4f3cu128.to_be_bytes()).enc(0x3243f6a8885a308d313198a2e0370734u128.to_be_bytes());
        assert_eq!(u128::from_be_bytes(ct), 0x3925841d02dc09fbdc118597196a0b32, "reference AES");
        for k in [0u128, 1, u128::MAX, 0x2b7e151628aed2a6abf7158809cf4f3c] {
            let (r, mut v) = (R::new(&sb, k.to_le_bytes()), vec![0u128; 1000]);
            let from = (1u64 << 32) - 500;
            Fast::new(&r).counters(from, &mut v);
            for (i, x) in v.iter().enumerate() {
                assert_eq!(x.to_le_bytes(), r.enc((from as u128 + i as u128).to_le_bytes()), "fast reference AES");
            }
        }
        let _ = s;
    });
    // keys and blocks: every value of every byte, one- and two-bit patterns
    let mut vals: Vec<u128> = edge_values(128);
    for p in 0..16 {
        for v in 0..256u128 {
            vals.push(v << (8 * p));
        }
    }
    vals.sort();
    vals.dedup();
    c.section("block cipher, every key byte", "key low, key high, block low, block high", |s| {
        s.par(vals.len(), |i, t| {
            let k = vals[i];
            let (r, a) = (R::new(&sb, k.to_le_bytes()), Aes::new(Block::from(k)));
            for b in [0u128, 1, u128::MAX, k, !k, 0x0123456789ABCDEF_FEDCBA9876543210] {
                cur(&[k as u64, (k >> 64) as u64, b as u64, (b >> 64) as u64]);
                let g = u128::from(a.encrypt_block(Block::from(b)));
                let w = u128::from_le_bytes(r.enc(b.to_le_bytes()));
                if g != w {
                    ck!(s, "encrypt_block", [k, b], g, w);
                }
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
        });
        s.sample(|| J::s("key 0, block 0"));
    });
    c.section("block cipher, every block byte, every batch size", "key low, key high, length", |s| {
        let keys = [0u128, 1, u128::MAX, 0x2b7e151628aed2a6abf7158809cf4f3c, 0x000102030405060708090a0b0c0d0e0f];
        s.par(keys.len(), |i, t| {
            let k = keys[i];
            let (r, a) = (R::new(&sb, k.to_le_bytes()), Aes::new(Block::from(k)));
            let want: Vec<u128> = vals.iter().map(|b| u128::from_le_bytes(r.enc(b.to_le_bytes()))).collect();
            for (b, w) in vals.iter().zip(&want) {
                let g = u128::from(a.encrypt_block(Block::from(*b)));
                if g != *w {
                    ck!(s, "encrypt_block", [k, b], g, *w);
                }
                t.transitions += 1;
            }
            macro_rules! many { ($($n:literal)*) => { $( {
                for off in [0usize, 5, 100] {
                    let inp: [Block; $n] = std::array::from_fn(|j| Block::from(vals[off + 3 * j]));
                    let out: Vec<u128> = a.encrypt_many_blocks(inp).iter().map(|b| u128::from(*b)).collect();
                    let w: Vec<u128> = (0..$n).map(|j| want[off + 3 * j]).collect();
                    if out != w {
                        ck!(s, "encrypt_many_blocks", [k, $n, off], out, w);
                    }
                    t.transitions += 1;
                }
            } )* } }
            many! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32 33 }
            for n in 0..c.tier(130, 1000).min(vals.len()) {
                cur(&[k as u64, (k >> 64) as u64, n as u64]);
                let mut v: Vec<Block> = vals[..n].iter().map(|x| Block::from(*x)).collect();
                a.encrypt_block_slice(&mut v);
                let g: Vec<u128> = v.iter().map(|b| u128::from(*b)).collect();
                if g != want[..n] {
                    ck!(s, "encrypt_block_slice", [k, n], g, &want[..n]);
                }
                t.transitions += 1;
            }
            t.states += 1;
            t.traces += 1;
        });
        s.sample(|| J::s("slice of 9 blocks"));
    });

    let seeds: Vec<u128> = vec![0, 1, u128::MAX, 1 << 127, 0x2b7e151628aed2a6abf7158809cf4f3c];
    let long = c.tier(40_000, 1_000_000);
    c.section("long streams", "seed", |s| {
        s.par(seeds.len() * 3, |i, t| {
            let seed = seeds[i / 3];
            let st = stream(&sb, seed.to_le_bytes(), long);
            let mut g = Prg::from_seed(Block::from(seed));
            let mut pos = 0;
            // one long run of words, of double words, of odd-sized byte reads
            let op = [U32, U64, Bytes(29)][i % 3];
            while pos + 10 < long {
                let p0 = pos;
                if !apply(s, op, &mut g, &st, &mut pos, &|| format!("seed {seed:x}, {op:?} only, word {p0}")) {
                    return;
                }
                t.transitions += 1;
                t.states += 1;
            }
            t.traces += 1;
        });
    });
    // the counter: blocks one after the other, far beyond any buffer
    c.section("very long streams", "seed, block", |s| {
        s.par(seeds.len(), |i, t| {
            let seed = seeds[i];
            let fast = Fast::new(&R::new(&sb, seed.to_le_bytes()));
            let mut g = Prg::from_seed(Block::from(seed));
            let len = if i == 0 { c.tier((1u64 << 32) + (1 << 20), (1 << 34) + 1) } else { c.tier(1 << 22, 1 << 27) };
            let n = 4096;
            let (mut got, mut want) = (vec![Block::ZERO; n], vec![0u128; n]);
            for at in (0..len).step_by(n) {
                if at % (1 << 20) == 0 {
                    cur(&[seed as u64, at]);
                    tick();
                }
                g.random_blocks(&mut got);
                fast.counters(at, &mut want);
                if got.iter().zip(&want).any(|(g, w)| u128::from(*g) != *w) {
                    let j = got.iter().zip(&want).position(|(g, w)| u128::from(*g) != *w).unwrap();
                    s.fail(format!("block {} of the stream of seed {seed:x}", at + j as u64), format!("got {:x}, want {:x}", u128::from(got[j]), want[j]));
                    return;
                }
                if s.stopped() {
                    return;
                }
            }
            t.transitions += len / n as u64;
            t.states += len / n as u64;
            t.traces += 1;
        });
    });
    c.section("construction", "seed", |s| {
        let mut t = Tally::default();
        for &seed in &vals {
            cur(&[seed as u64, (seed >> 64) as u64]);
            let le = seed.to_le_bytes();
            let st = stream(&sb, le, 4);
            let first = |mut g: Prg| (g.next_u32(), g.next_u64());
            let want = (st[0], st[1] as u64 | (st[2] as u64) << 32);
            ck!(s, "from_seed", [seed], first(Prg::from_seed(Block::from(seed))), want);
            let words = [seed as u64, (seed >> 64) as u64];
            ck!(s, "from_rng", [seed], first(Prg::from_rng(ScriptRng::new(words.to_vec())).unwrap()), want);
            // a generator without a seed takes one from the thread generator
            let fresh = || {
                let mut k = 0;
                rand::verif_hook::set(Some(Box::new(move |_| { k += 1; words[(k - 1) % 2] })));
            };
            let hooked = |f: &dyn Fn() -> (u32, u64)| { fresh(); let r = f(); rand::verif_hook::seed(1); r };
            let expect = { fresh(); let b = rand::random::<Block>(); rand::verif_hook::seed(1); first(Prg::from_seed(b)) };
            ck!(s, "new", [seed], hooked(&|| first(Prg::new())), expect);
            ck!(s, "default", [seed], hooked(&|| first(Prg::default())), expect);
            t.transitions += 4;
            t.states += 1;
            t.traces += 1;
        }
        s.add(&t);
        s.sample(|| J::s("seed 0"));
    });
    // every sequence of reads of every kind, from every offset in the 32-word buffer
    let ops: Vec<Op> = vec![
        U32, U64, Bool, Byte, One, Clone, Bytes(0), Bytes(1), Bytes(3), Bytes(4), Bytes(5), Fill(8), TryFill(13), Bytes(16), Bools(0), Bools(3),
        Bytes(124), Bytes(127), Bytes(128), Fill(129), Bytes(133), Blocks(0), Blocks(1), Blocks(7), Blocks(8), Blocks(9), Bools(33),
    ];
    let depth = c.tier(4, 5);
    c.extra("read sequence depth", J::n(depth as u64));
    c.section("all read sequences", "start offset, first operation", |s| {
        let seed = seeds[4];
        let st = stream(&sb, seed.to_le_bytes(), 400);
        s.par(34 * ops.len(), |i, t| {
            let (off, first) = (i / ops.len(), i % ops.len());
            cur(&[off as u64, first as u64]);
            fn go(s: &Sec, ops: &[Op], left: usize, g: &Prg, pos: usize, st: &[u32], path: &mut Vec<Op>, off: usize, only: Option<usize>, t: &mut Tally) {
                t.states += 1;
                if left == 0 {
                    t.traces += 1;
                    return;
                }
                for (k, op) in ops.iter().enumerate() {
                    if only.is_some_and(|o| o != k) || s.stopped() {
                        continue;
                    }
                    let (mut g2, mut p2) = (g.clone(), pos);
                    t.transitions += 1;
                    let ok = apply(s, *op, &mut g2, st, &mut p2, &|| format!("skipping {off} words, then {path:?}"));
                    // the position is right: the next words come next
                    path.push(*op);
                    if ok && apply(s, U64, &mut g2.clone(), st, &mut { p2 }, &|| format!("skipping {off} words, then {path:?}")) {
                        go(s, ops, left - 1, &g2, p2, st, path, off, None, t);
                    }
                    path.pop();
                }
            }
            let mut g = Prg::from_seed(Block::from(seed));
            for _ in 0..off {
                g.next_u32();
            }
            go(s, &ops, depth, &g, off, &st, &mut vec![], off, Some(first), t);
        });
        s.sample(|| J::s("skip 31 words, next_u64, random_bytes of 3, random_blocks of 9"));
    });
    // one read of every length, and of the lengths around each power of two, from every offset
    c.section("reads of every length", "start offset, kind", |s| {
        let seed = seeds[3];
        let top = c.tier(1usize << 18, 1 << 22);
        let st = stream(&sb, seed.to_le_bytes(), top + 200);
        let mut lens: Vec<usize> = (0..=c.tier(1100, 5000)).collect();
        let dense = lens.len();
        lens.extend((10..=top.ilog2()).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (3 << k) / 2]).filter(|l| *l >= dense && *l <= top));
        s.par(34 * 5, |i, t| {
            let (off, kind) = (i % 34, i / 34);
            for &l in &lens {
                cur(&[off as u64, kind as u64, l as u64]);
                // in words: a block is four, a byte a quarter, a bool one
                let op = match kind {
                    0 => Bytes(l),
                    1 => Fill(l),
                    2 => TryFill(l),
                    3 if 4 * l <= top => Blocks(l),
                    4 => Bools(l),
                    _ => continue,
                };
                let mut g = Prg::from_seed(Block::from(seed));
                for _ in 0..off {
                    g.next_u32();
                }
                let mut pos = off;
                for op in [op, U64, One] {
                    if !apply(s, op, &mut g, &st, &mut pos, &|| format!("skipping {off} words, then {op:?} in a read of length {l}, kind {kind}")) {
                        return;
                    }
                    t.transitions += 1;
                }
                t.states += 1;
                t.traces += 1;
            }
        });
        s.sample(|| J::s("skip 7 words, random_blocks of 600, next_u64"));
    });
    let _ = DetRng(0).gen::<u8>();
    c.finish()
}
