//! C27: the ciphertexts reachable by circuits, explored to a fixpoint.
use harness::fields::*;
use harness::gates::*;
use harness::ring::Fld;
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use zkfhe::bfhe::{Evaluator, CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS};
use zkfhe::{Decryptor, Encryptor, KeyGen};

/// How far one exploration goes.
#[derive(Clone, Copy)]
struct Bound {
    /// noise of the circuit inputs: every value up to this (at most the margin)
    fresh: u64,
    /// masks of the circuit inputs: all, or the first few
    masks: usize,
    /// use at most this many states as first, second (and third) operands of gates of three inputs
    third: usize,
    /// stop at this many states
    states: usize,
    /// gates of two inputs to use (all, or only nand)
    gates: usize,
}
/// Breadth-first search over single ciphertexts: a wire of any circuit carries one of them.
/// The transitions are the gates of the real evaluator on every pair (triple) of states.
fn explore<C: Cw, Q: Fld>(s: &Sec, k: &Toy, pack: SecretKeyPack<C, Q>, bd: Bound, tl: &Tally) -> Tally {
    let e = Ev::new(k, pack, 99);
    let mut t = Tally::default();
    let _ = tl;
    if !e.closed() {
        s.fail(e.name(), "this key has no closed margin: choose another parameter set");
        return t;
    }
    let q = k.q;
    let fresh = bd.fresh.min(e.three) as i64;
    // states in order of discovery, with the wire's bit
    let mut list: Vec<(Ct, bool)> = vec![];
    let mut seen: HashMap<Ct, bool> = HashMap::new();
    let all = if k.n == 1 { (0..q).map(|x| vec![x]).collect::<Vec<_>>() } else { (0..bd.masks as u64).map(|i| (0..k.n as u64).map(|j| (i * (1 + j * (q / 3)) + i * i * j) % q).collect()).collect() };
    for a in all.into_iter().take(bd.masks) {
        for m in [false, true] {
            for x in -fresh..=fresh {
                let c = e.make(&a, m, x);
                if seen.insert(c.clone(), m).is_none() {
                    list.push((c, m));
                }
            }
        }
    }
    let most = e.out.max(fresh as u64);
    let g2: Vec<_> = gates2::<C, Q>().into_iter().filter(|g| bd.gates == 6 || g.0 == "nand").collect();
    let g3 = gates3::<C, Q>();
    let show = |g: &str, c: &[&(Ct, bool)]| format!("{g} of {:?} with {}", c.iter().map(|c| (&c.0 .0, c.0 .1, c.1)).collect::<Vec<_>>(), e.name());
    let mut done = 0; // all pairs among the first `done` states are explored
    let mut rounds = 0u64;
    while done < list.len() && !s.stopped() {
        let n = list.len().min(bd.states);
        if done >= n {
            break;
        }
        rounds += 1;
        let found: Mutex<Vec<(Ct, bool)>> = Mutex::new(vec![]);
        let (next, trans) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let (list_ref, seen_ref) = (&list, &seen);
        let work = || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n || s.stopped() {
                break;
            }
            let mut mine: HashMap<Ct, bool> = HashMap::new();
            let mut add = |c: Ct, m: bool| {
                if !seen_ref.contains_key(&c) {
                    mine.insert(c, m);
                }
            };
            let x = &list_ref[i];
            let cx = e.c(&x.0);
            let mut tr = 0;
            if i >= done {
                let noise = e.read(&x.0).1;
                let o = e.expect(s, &e.ev.not(&cx), !x.1, noise, &|| show("not", &[x]));
                add(o, !x.1);
                tr += 1;
            }
            // at least one operand is new
            for j in (if i < done { done } else { 0 })..n {
                cur(&[q, k.n as u64, k.nn as u64, rounds, i as u64, j as u64]);
                let y = &list_ref[j];
                let cy = e.c(&y.0);
                for (g, f, tt) in &g2 {
                    let want = tt(x.1, y.1);
                    let o = e.expect(s, &f(&e.ev, &cx, &cy), want, e.out, &|| show(g, &[x, y]));
                    add(o, want);
                    tr += 1;
                }
            }
            if i < bd.third {
                let m = n.min(bd.third);
                for j in 0..m {
                    let y = &list_ref[j];
                    let cy = e.c(&y.0);
                    let from = if i < done && j < done { done } else { 0 };
                    for l in from..m {
                        cur(&[q, k.n as u64, k.nn as u64, rounds, i as u64, j as u64, l as u64]);
                        let z = &list_ref[l];
                        let cz = e.c(&z.0);
                        for (g, f, tt) in &g3 {
                            let want = tt(x.1, y.1, z.1);
                            let o = e.expect(s, &f(&e.ev, &cx, &cy, &cz), want, e.out, &|| show(g, &[x, y, z]));
                            add(o, want);
                            tr += 1;
                        }
                    }
                    tick();
                }
            }
            tick();
            trans.fetch_add(tr, Ordering::Relaxed);
            found.lock().unwrap().extend(mine);
        };
        // a panic inside is a violation
        let r = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8).map(|_| sc.spawn(|| catch(|| work()))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        for x in r {
            if let Err(p) = x {
                s.fail(e.name(), format!("panic: {p}"));
                return t;
            }
        }
        t.transitions += trans.load(Ordering::Relaxed) as u64;
        t.evals += trans.load(Ordering::Relaxed) as u64;
        done = n;
        let mut f = found.into_inner().unwrap();
        f.sort();
        for (c, m) in f {
            match seen.get(&c) {
                None => {
                    let noise = e.read(&c).1;
                    if noise > most {
                        s.fail(format!("{c:?} with {}", e.name()), format!("reachable noise {noise} above {most}"));
                    }
                    seen.insert(c.clone(), m);
                    list.push((c, m));
                }
                Some(b) => {
                    if *b != m {
                        s.fail(format!("{c:?} with {}", e.name()), "one ciphertext carries both bits");
                    }
                }
            }
        }
    }
    // every transition is one gate of the real code compared with the gate of the model
    t.traces += t.transitions;
    t.states += list.len() as u64;
    t.distinct += list.len() as u64;
    let closed = done == list.len();
    s.sample(|| {
        J::obj([
            ("evaluator", J::s(&e.name())),
            ("reachable ciphertexts", J::n(list.len() as u64)),
            ("rounds until no new ciphertext", J::n(rounds)),
            ("fixpoint", J::s(if closed { "yes" } else { "no, bounded" })),
            ("gates of three inputs over", J::n(bd.third.min(list.len()) as u64)),
            ("largest noise", J::n(list.iter().map(|c| e.read(&c.0).1).max().unwrap_or(0))),
            ("margin", J::n(e.three)),
        ])
    });
    t
}
fn closed_keys<C: Cw, Q: Fld>(k: &Toy, keys: usize, search: u64) -> Vec<SecretKeyPack<C, Q>> {
    let good: Vec<_> = key_pairs::<C, Q>(k, if search > 5000 || k.rk == Rk::Gaussian { u64::MAX } else { k.key_space() }, search)
        .into_iter()
        .filter(|p| {
            let (l, z) = (lkey(p), rkey(p));
            3.0 * out_noise(k, &l, &z, fq::<Q>()) as f64 * 2.0 * k.nn as f64 / k.q as f64 + rounding(k, &l) < k.nn as f64 / 4.0
        })
        .collect();
    spread(&good, keys)
}
fn all<C: Cw, Q: Fld>(s: &Sec, toys: &[Toy], keys: usize, search: u64, bd: Bound) {
    for k in toys {
        let packs = closed_keys::<C, Q>(k, keys, search);
        if packs.is_empty() {
            s.fail(k.name(), "no key with a closed margin");
        }
        for p in packs {
            if s.stopped() {
                return;
            }
            let t = explore::<C, Q>(s, k, p, bd, &Tally::default());
            s.add(&t);
        }
    }
}
fn kinds(k: Toy) -> Vec<Toy> {
    vec![Toy { lk: Lk::Binary, rk: Rk::Binary, ..k }, k]
}
type D = fhe_core::DefaultFieldU32;
/// Circuits over one of the shipped parameter sets: an adder on every input, chains of every gate.
/// A gate errs when the noise of its inputs adds up to `q/8`; inputs whose noise leaves no room for the
/// rounding of the modulus switch are encrypted afresh, and an output whose noise exceeds `limit` is an error.
fn shipped(s: &Sec, name: &str, p: Parameters<u16, D>, bits: u32, depth: usize, limit: u64) {
    let q = p.lwe_cipher_modulus_value() as u64;
    let pack = KeyGen::generate_secret_key(p, &mut DetRng(31337));
    let ev = Evaluator::new(&pack, &mut DetRng(4));
    tick();
    let (ev, pack) = (&ev, &pack);
    let dec = Decryptor::new(pack.clone());
    let enc = Encryptor::new(pack.clone());
    let fits = |noise: &[u64]| noise.iter().sum::<u64>() < q / 8 * 3 / 4;
    // checks the bit, returns the noise
    let read = |what: &dyn Fn() -> String, c: &LWECiphertext<u16>, want: bool| {
        let (m, e) = dec.decrypt_with_noise::<bool>(c);
        if m != want || e as u64 >= limit {
            s.fail(format!("{name}: {}", what()), format!("decrypts to {m} with noise {e}, want {want} below {limit}"));
        } else if e as u64 >= q / 16 {
            s.fail(format!("{name}: noise of a gate's output above q/16"), format!("{}: noise {e}; a gate applied to this ciphertext twice can err", what()));
        }
        tick();
        e as u64
    };
    // ripple-carry addition of every pair of numbers; the carry by majority, by gates, and by mux
    let n = 1usize << (2 * bits);
    s.par(n, |i, tl| {
        let (x, y) = (i as u32 & ((1 << bits) - 1), i as u32 >> bits);
        let e = |b: u32, j: u32, r: u32| enc.encrypt(b >> j & 1 == 1, &mut DetRng((i as u64) << 8 | (2 * j + r) as u64));
        let mut carry: Option<LWECiphertext<u16>> = None;
        let (mut sum, mut cb, mut nc) = (x + y, 0u32, 0u64);
        for j in 0..bits {
            cur(&[q, i as u64, j as u64]);
            let (a, b) = (e(x, j, 0), e(y, j, 1));
            let (xj, yj) = (x >> j & 1, y >> j & 1);
            let what = |w: &'static str| move || format!("{x} + {y}, {w} of bit {j}");
            let mut half = ev.xor(&a, &b);
            let nh = read(&what("half sum"), &half, xj != yj);
            if !fits(&[nh, nc]) {
                half = enc.encrypt(xj != yj, &mut DetRng(77));
                carry = carry.map(|_| enc.encrypt(cb == 1, &mut DetRng(78)));
            }
            let (out, next) = match &carry {
                None => (half, ev.and(&a, &b)),
                Some(c) => {
                    let out = ev.xor(&half, c);
                    let next = match (i + j as usize) % 3 {
                        0 => ev.majority(&a, &b, c),
                        1 => ev.mux(&half, c, &a),
                        _ => ev.or(&ev.and(&a, &b), &ev.and(&half, c)),
                    };
                    (out, next)
                }
            };
            read(&what("sum"), &out, sum & 1 == 1);
            sum >>= 1;
            cb = (xj + yj + cb) / 2;
            nc = read(&what("carry"), &next, cb == 1);
            carry = Some(next);
            tl.states += 3;
            tl.transitions += 3;
        }
        tl.evals += 1;
        tl.distinct += 1;
    });
    // a chain of each gate that feeds the result into the next gate, both operands
    let g2 = gates2::<u16, D>();
    s.par(g2.len() * 2, |i, tl| {
        let (g, f, t) = g2[i / 2];
        let b0 = i % 2 == 1;
        let other = enc.encrypt(true, &mut DetRng(5 + i as u64));
        let (mut c, mut m, mut noise) = (enc.encrypt(b0, &mut DetRng(6 + i as u64)), b0, 0);
        // the longer chain reaches the known finding
        let depth = if limit > q / 16 && g == "nor" && !b0 { depth.max(48) } else { depth };
        for d in 0..depth {
            cur(&[q, i as u64, d as u64]);
            if !fits(&[noise, noise]) {
                c = enc.encrypt(m, &mut DetRng((100 + d * 16 + i) as u64));
            }
            match d % 4 {
                0 => (c, m) = (f(ev, &c, &other), t(m, true)),
                1 => (c, m) = (f(ev, &c, &c), t(m, m)),
                2 => (c, m) = (ev.not(&c), !m),
                _ => (c, m) = (f(ev, &other, &c), t(true, m)),
            }
            noise = read(&|| format!("chain of {g} from {b0} at depth {d}"), &c, m);
            tl.states += 1;
            tl.transitions += 1;
            tl.evals += 1;
        }
    });
}
fn main() {
    let c = Ctx::new("C27", "model_checking");
    c.rule("explicit-state exploration of the real evaluator: the states are the ciphertexts that a wire of a circuit can carry (with its bit), the initial states the encryptions of both bits with every mask and every noise within the bound, the transitions all gates on all pairs (and triples) of states; invariants: every state decrypts to its bit with noise within the margin of every gate. Where the search ends in a fixpoint every circuit of any depth over these inputs is covered; distinct counts the states");
    c.assume("an evaluator with fixed keys is deterministic and stateless (C32), so a wire is described by its ciphertext");
    const L: &str = "q, n, N, round, states";
    use Steps::*;
    let b = |fresh, masks, third, states| Bound { fresh, masks, third, states, gates: 6 };
    let th = c.thorough;
    c.section("all ciphertexts within the margin, gates of two and three inputs", L, |s| {
        // 192 states: every triple in the thorough run
        all::<u16, F97>(s, &kinds(Toy::new(1, 32, 16, BrKsMs)), c.tier(1, 2), 4000, b(1, 32, c.tier(40, 192), 10_000));
        all::<u16, F97>(s, &kinds(Toy::new(1, 32, 16, BrKsMs)), c.tier(3, 60), 4000, b(1, 32, c.tier(12, 30), 10_000));
        all::<u8, F193>(s, &kinds(Toy { bb: 3, kb: 4, ..Toy::new(1, 64, 32, BrKsMs) }), c.tier(1, 6), 400, b(2, 64, 12, 10_000));
    });
    c.section("reachable from few inputs", L, |s| {
        all::<u16, F97>(s, &kinds(Toy::new(1, 32, 16, BrKsMs)), c.tier(10, 200), 4000, b(0, 2, 16, 10_000));
        all::<u32, F257>(s, &kinds(Toy { bb: 3, kb: 3, ..Toy::new(1, 64, 32, BrKsMs) }), c.tier(2, 20), 400, b(1, 3, 16, 10_000));
        all::<u16, F132M>(s, &kinds(Toy { sr: 3.2, sk: 3.2, bb: 3, kb: 2, ..Toy::new(1, 64, 32, BrKsMs) }), c.tier(1, 20), 400, b(1, 3, 16, 10_000));
        // the switch down to 2N rounds
        all::<u16, F97>(s, &kinds(Toy { kb: 3, ..Toy::new(1, 256, 16, BrKsMs) }), c.tier(1, 9), 4000, b(1, 3, 10, c.tier(400, 2000)));
        all::<u16, F257>(s, &kinds(Toy { kb: 3, bb: 4, ..Toy::new(1, 512, 16, BrMsKs) }), c.tier(1, 9), 4000, b(1, 3, 10, c.tier(400, 2000)));
    });
    c.section("more dimensions, bounded", L, |s| {
        all::<u16, F193>(s, &kinds(Toy { bb: 2, kb: 2, ..Toy::new(2, 64, 32, BrKsMs) }), c.tier(1, 4), 400, b(1, 4, 12, c.tier(250, 1500)));
        all::<u16, F257>(s, &kinds(Toy { bb: 4, kb: 4, ..Toy::new(3, 128, 64, BrKsMs) }), 1, 400, b(1, 4, 12, c.tier(150, 1000)));
        all::<u16, F257>(s, &kinds(Toy { kb: 5, bb: 4, ..Toy::new(2, 1 << 13, 32, BrMsKs) }), c.tier(1, 4), 800, b(1, 4, 12, c.tier(250, 1500)));
        all::<u16, F97>(s, &kinds(Toy { rk: Rk::Ternary, ..Toy::new(16, 1024, 16, BrMs) }), 1, 100_000, b(1, 4, 12, c.tier(100, 600)));
        if th {
            all::<u16, F97>(s, &kinds(Toy { bb: 7, kb: 7, ..Toy::new(2, 32, 16, BrKsMs) }), 1, 4000, Bound { gates: 1, ..b(0, 2, 0, 3000) });
        }
    });
    c.section("shipped parameter sets", "q, input or chain, bit or depth", |s| {
        shipped(s, "DEFAULT_TERNARY_128_BITS_PARAMETERS", *DEFAULT_TERNARY_128_BITS_PARAMETERS, c.tier(2, 3), c.tier(12, 64), 64);
        // the noise of its key switch: 2048 samples of standard deviation 6.4; q/8 is 2048
        shipped(s, "CUSTOM_TERNARY_128_BITS_PARAMETERS", *CUSTOM_TERNARY_128_BITS_PARAMETERS, c.tier(2, 3), c.tier(12, 64), 2000);
    });
    c.finish()
}
