//! C32: evaluations in every order, compared with each evaluation alone in a fresh process.
use harness::oracle::vector;
use harness::world::{name, World, ALPHABET};
use harness::*;
use std::process::Command;

/// The output of a process that may run longer than the watchdog of this one waits.
fn wait(mut ch: std::process::Child) -> Vec<u8> {
    use std::io::Read;
    let (mut out, mut buf) = (vec![], vec![0; 1 << 16]);
    let mut so = ch.stdout.take().unwrap();
    while let Ok(n) = so.read(&mut buf) {
        if n == 0 {
            break;
        }
        out.extend(&buf[..n]);
        tick();
    }
    let _ = ch.wait();
    out
}

fn main() {
    if let Ok(l) = std::env::var("VERIF_ALONE") {
        // a fresh process that evaluates one letter and nothing else
        let l = l.parse().unwrap();
        println!("{:?}", World::with(&[l]).run(l));
        return;
    }
    if let Ok(h) = std::env::var("VERIF_HISTORY") {
        // a fresh process that makes the keys when they are needed first, and runs this history
        let h: Vec<usize> = h.split(',').map(|x| x.parse().unwrap()).collect();
        let mut w = World::with(if std::env::var("VERIF_KEYS").is_ok() { &h } else { &[] });
        for l in h {
            w.need(l);
            println!("{:?}", w.run(l));
        }
        return;
    }
    if let Ok(h) = std::env::var("VERIF_LONG") {
        // a fresh process that runs all numbered evaluations of one set in one order
        use std::io::Write;
        let v: Vec<u64> = h.split(',').map(|x| x.parse().unwrap()).collect();
        let (set, m) = (v[0] as u8, v[1]);
        let w = World::with(&[harness::world::ALPHABET.iter().position(|x| x.0 == set).unwrap()]);
        let out = w.long(set, m, |t| match v[2] {
            0 => t,
            1 => m - 1 - t,
            _ => t * 7919 % m,
        });
        let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::io::stdout().write_all(&bytes).unwrap();
        return;
    }
    let c = Ctx::new("C32", "model_checking");
    c.rule("every sequence, up to the stated length, over an alphabet of 36 evaluations (all gates, bootstrapping, blind rotation, both key switchings, decryption) on six evaluators of different step order, ring dimension, basis, field and table step is run on the real code; the model of an evaluation is the result of the same evaluation alone in a fresh process with the same keys, and every step of every sequence must give exactly that ciphertext and leave its inputs as they were; states counts the histories, transitions and traces the evaluations compared");
    c.assume("keys are equal when made from the same generator states (checked by the comparison itself)");
    let n = ALPHABET.len();
    let me = std::env::current_exe().unwrap();
    let alone: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|l| {
                let me = &me;
                sc.spawn(move || {
                    let o = Command::new(me).env("VERIF_ALONE", l.to_string()).output().unwrap();
                    String::from_utf8_lossy(&o.stdout).trim().to_string()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    tick();
    let step = |s: &Sec, w: &World, hist: &[usize], l: usize| {
        let got = format!("{:?}", w.run(l));
        if got != alone[l] {
            let h: Vec<String> = hist.iter().map(|x| name(*x)).collect();
            s.fail(format!("{} after {h:?}", name(l)), format!("gives {got}, alone in a fresh process {}", alone[l]));
        }
    };
    c.section("each evaluation alone and repeated", "letter", |s| {
        let w = World::new();
        let mut t = Tally::default();
        for (l, o) in alone.iter().enumerate() {
            if !o.starts_with("Ok(") {
                s.fail(name(l), format!("alone in a fresh process: {o}"));
            }
            for r in 0..8 {
                cur(&[l as u64, r]);
                step(s, &w, &vec![l; r as usize], l);
                t.transitions += 1;
            }
            t.states += 1;
        }
        t.traces = t.transitions;
        s.add(&t);
    });
    // whatever the process did first stays: every pair of evaluations in a process of its own
    c.section("every pair in a fresh process", "first letter, second letter, keys first", |s| {
        s.par(n * n * 2, |i, tl| {
            let h = [i / 2 / n, i / 2 % n];
            cur(&[h[0] as u64, h[1] as u64, i as u64 % 2]);
            let mut p = Command::new(&me);
            p.env("VERIF_HISTORY", format!("{},{}", h[0], h[1]));
            if i % 2 == 1 {
                p.env("VERIF_KEYS", "1");
            }
            let o = p.output().unwrap();
            let o = String::from_utf8_lossy(&o.stdout);
            let mut o = o.lines();
            for (d, l) in h.iter().enumerate() {
                let got = o.next().unwrap_or("nothing: the process dies");
                if got != alone[*l] {
                    s.fail(format!("{} after {:?} in a fresh process", name(*l), &h[..d].iter().map(|x| name(*x)).collect::<Vec<_>>()), format!("gives {got}, alone in a fresh process {}", alone[*l]));
                }
            }
            tl.states += 1;
            tl.transitions += 2;
            tl.traces += 2;
            tick();
        });
    });
    // more evaluations on one evaluator than a 16-bit counter can count, each compared between orders
    let m: u64 = c.tier(66_001, 200_003);
    c.section("long histories in several orders", "set, order", |s| {
        s.par(6, |set, tl| {
            let mut first: Vec<u8> = vec![];
            for order in 0..3 {
                cur(&[set as u64, order]);
                let ch = Command::new(&me).env("VERIF_LONG", format!("{set},{m},{order}")).stdout(std::process::Stdio::piped()).spawn().unwrap();
                let o = wait(ch);
                if o.len() as u64 != 8 * m {
                    s.fail(format!("set {set} order {order}"), format!("the process gives {} of {m} results", o.len() / 8));
                    return;
                }
                if order == 0 {
                    first = o;
                } else if let Some(i) = (0..m as usize).find(|i| first[8 * i..8 * i + 8] != o[8 * i..8 * i + 8]) {
                    s.fail(format!("set {set} evaluation {i}: order {order}"), "gives another ciphertext than in order 0".to_string());
                    return;
                }
                tl.states += m;
                tl.transitions += m;
                tl.traces += m;
            }
        });
        s.sample(|| J::s("set 0: evaluation 65536 is the 65537th in order 0 and the 465th in order 1"));
    });
    // every sequence: one world per first two letters, on its own thread; all continuations in order
    let seqs = |s: &Sec, depth: u32, fresh: bool| {
        let per = (n as u64).pow(depth - 2);
        s.par(n * n, |i, tl| {
            let mut w = World::new();
            for r in 0..per {
                if fresh {
                    w = World::new();
                }
                let mut h = vec![i / n, i % n];
                h.extend(vector(r, n as u64, depth as usize - 2).iter().map(|x| *x as usize));
                cur(&[i as u64, r]);
                for (d, l) in h.iter().enumerate() {
                    step(s, &w, &h[..d], *l);
                    tl.transitions += 1;
                    tl.traces += 1;
                }
                tl.states += 1;
                tick();
                if s.stopped() {
                    return;
                }
            }
            s.sample(|| J::obj([("history", J::s(&format!("{:?}", [name(i / n), name(i % n)]))), ("continuations", J::n(per))]));
        });
    };
    c.section("every sequence of three, new keys for each", "first two letters, continuation", |s| seqs(s, 3, true));
    c.section("every longer sequence on the same evaluators", "first two letters, continuation", |s| seqs(s, c.tier(3, 4), false));
    c.section("two worlds interleaved", "first two letters, step", |s| {
        // equal evaluators made separately, used alternately
        s.par(n * n, |i, tl| {
            let (w, v) = (World::new(), World::new());
            for r in 0..4 {
                cur(&[i as u64, r]);
                step(s, &w, &[], i / n);
                step(s, &v, &[i / n], i % n);
                tl.transitions += 2;
                tl.traces += 2;
            }
            tl.states += 1;
        });
    });
    c.finish()
}
