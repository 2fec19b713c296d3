//! C14: every sequence of table requests, valid and invalid, in a process of its own.
use harness::fields::*;
use harness::requests::{step, Op};
use harness::ring::Fld;
use harness::*;
use std::process::Command;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}
fn put(fd: i32, s: &str) {
    unsafe {
        write(fd, s.as_ptr(), s.len());
    }
}

/// Alphabet of requests for a field whose largest supported length is 2^top.
fn alphabet(top: u32) -> Vec<Op> {
    let t = top;
    vec![
        Op::Get(0),
        Op::Get(t),
        Op::Get(t + 1),
        Op::Get(t.max(1) - 1),
        Op::Get(31),
        Op::Get(63),
        Op::Get(u32::MAX),
        Op::GetUnlucky(t),
        Op::Init(vec![1.min(t), t]),
        Op::Init(vec![t, t + 1]),
        Op::Init(vec![]),
        Op::Init(vec![t, 0, t]),
        Op::Init(vec![64]),
        Op::Mul(t),
        Op::Mul(t + 1),
        Op::Convert(1.min(t)),
        Op::Convert(t + 2),
    ]
}
/// Depth-first search; every node is a process that made exactly the requests of its history.
fn dfs<F: Fld>(ops: &[Op], hist: &mut Vec<usize>, depth: usize) -> bool {
    for l in 0..ops.len() {
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(60);
                hist.push(l);
                if !node::<F>(ops, hist) {
                    _exit(1);
                }
                if depth > 1 {
                    alarm(0);
                    _exit(!dfs::<F>(ops, hist, depth - 1) as i32);
                }
                _exit(0);
            }
            assert!(pid > 0, "fork failed");
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 {
                if st & 0x7f != 0 {
                    let h: Vec<_> = hist.iter().chain(&[l]).map(|i| &ops[*i]).collect();
                    put(2, &format!("modulo {} after {:?}: the request does not return (signal {})\n", fq::<F>(), h, st & 0x7f));
                }
                return false;
            }
        }
    }
    true
}
fn node<F: Fld>(ops: &[Op], hist: &[usize]) -> bool {
    let l = *hist.last().unwrap();
    let r = catch(|| step::<F>(&ops[l]).map(|_| ())).unwrap_or_else(|p| Err(format!("panics: {p}")));
    put(1, ".");
    match r {
        Ok(()) => true,
        Err(e) => {
            let h: Vec<_> = hist[..hist.len() - 1].iter().map(|i| &ops[*i]).collect();
            put(2, &format!("modulo {}: {:?} after {:?}: {e}\n", fq::<F>(), ops[l], h));
            false
        }
    }
}
type Run = fn(u32, usize, usize) -> bool;
fn run<F: Fld>(top: u32, first: usize, depth: usize) -> bool {
    let ops = alphabet(top);
    let mut h = vec![first];
    unsafe {
        alarm(60);
    }
    let ok = node::<F>(&ops, &h);
    unsafe {
        alarm(0);
    }
    ok && (depth < 2 || dfs::<F>(&ops, &mut h, depth - 1))
}
/// field, its exponent, name
const FIELDS: [(Run, u32, &str); 7] = [
    (run::<F17>, 3, "17 (u32)"),
    (run::<F5b>, 1, "5 (u8)"),
    (run::<F97h>, 4, "97 (u16)"),
    (run::<F257q>, 7, "257 (u64)"),
    (run::<F13b>, 1, "13 (u8)"),
    (run::<F12289>, 11, "12289 (u32)"),
    (run::<F61b>, 1, "61 (u8)"),
];
fn main() {
    let args: Vec<String> = std::env::var("VERIF_DFS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    if let [f, first, depth] = &args[..] {
        std::panic::set_hook(Box::new(|_| {}));
        rand::verif_hook::seed(1);
        let (r, top, _) = FIELDS[f.parse::<usize>().unwrap()];
        std::process::exit(!r(top, first.parse().unwrap(), depth.parse().unwrap()) as i32);
    }
    let c = Ctx::new("C14", "model_checking");
    c.rule("depth-first search over all sequences, up to the stated length, of 17 requests (tables of supported and unsupported lengths, initialisations of valid, mixed, empty and repeated lists, multiplications and conversions of supported and unsupported lengths, a request whose random draws all fail), every history in a process of its own (forked at every node) on the real code; the model is the set of supported lengths: independent of the history every supported request gives the right table and every other one an error; states counts histories");
    c.assume("a request whose random draws all fail may be refused; the next one may not");
    let me = std::env::current_exe().unwrap();
    let n = alphabet(3).len();
    let deep = |f: usize| if f == 0 { c.tier(4, 5) } else { c.tier(3, 4) };
    for (f, (_, _, name)) in FIELDS.iter().enumerate() {
        c.section(&format!("modulus {name}"), "first request", |s| {
            s.par(n, |i, tl| {
                let o = Command::new(&me).env("VERIF_DFS", format!("{f},{i},{}", deep(f))).output().unwrap();
                let steps = o.stdout.iter().filter(|b| **b == b'.').count() as u64;
                tl.states += steps;
                tl.transitions += steps;
                tl.traces += steps;
                if !o.status.success() {
                    let e = String::from_utf8_lossy(&o.stderr);
                    let line = e.lines().next().unwrap_or("the process died").to_string();
                    s.fail(line, format!("exit {:?}: {}", o.status.code(), e.lines().take(5).collect::<Vec<_>>().join("; ")));
                } else {
                    let want: u64 = (0..deep(f) as u32).map(|d| (n as u64).pow(d)).sum();
                    if steps != want {
                        s.fail(format!("search from request {i}"), format!("{steps} of {want} histories"));
                    }
                }
                if i == 3 {
                    s.sample(|| J::obj([("modulus", J::s(name)), ("first request", J::s(&format!("{:?}", alphabet(FIELDS[f].1)[i]))), ("histories", J::n(steps))]));
                }
            });
        });
    }
    c.finish()
}
