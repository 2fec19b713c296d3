//! Common machinery of the checks: exhaustive enumeration helpers, evidence, violations,
//! known findings, panics and hangs of the code under test.
pub mod json;
pub mod fields;
pub mod rngs;
pub mod oracle;
pub mod ring;
pub mod scheme;
pub mod world;
pub mod gates;
pub mod requests;

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use json::J;

pub const MAX_SLOTS: usize = 64;
pub const CUR_WORDS: usize = 8;
static CUR: [[AtomicU64; CUR_WORDS]; MAX_SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const R: [AtomicU64; CUR_WORDS] = [Z; CUR_WORDS];
    [R; MAX_SLOTS]
};
static PROGRESS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Notes the case the calling thread is working on; reported when the code under test panics or hangs.
#[inline(always)]
pub fn cur(words: &[u64]) {
    SLOT.with(|s| {
        let row = &CUR[s.get()];
        for (d, w) in row.iter().zip(words) {
            d.store(*w, Relaxed);
        }
    });
}
fn cur_get(slot: usize) -> Vec<u64> {
    CUR[slot].iter().map(|a| a.load(Relaxed)).collect()
}
/// Number of the worker thread of `par` the caller is on.
pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}
/// Threads at work in `par`.
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
/// Changes when the check makes progress: a tick, or a thread that is on another case.
fn progress() -> u64 {
    CUR.iter().flatten().fold(PROGRESS.load(Relaxed), |h, w| (h ^ w.load(Relaxed)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23))
}
/// Processor time of this process.
fn cpu() -> Duration {
    extern "C" {
        fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    Duration::new(t[0] as u64, t[1] as u32)
}
/// Tells the watchdog that the check makes progress.
#[inline(always)]
pub fn tick() {
    PROGRESS.fetch_add(1, Relaxed);
}

#[derive(Default, Clone, Debug)]
pub struct Tally {
    /// cases executed against the real code and compared with the oracle
    pub evals: u64,
    /// distinct non-trivial cases
    pub distinct: u64,
    /// states of the explored model / state space
    pub states: u64,
    /// transitions (operations applied to a state)
    pub transitions: u64,
    /// executions of the real code compared step by step with the reference model
    pub traces: u64,
}
impl Tally {
    pub fn add(&mut self, o: &Tally) {
        self.evals += o.evals;
        self.distinct += o.distinct;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
    }
}

struct Viol {
    key: String,
    detail: String,
}

pub struct Ctx {
    pub id: &'static str,
    level: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    only: Vec<String>,
    known: Vec<(String, String)>,
    st: Mutex<State>,
}
#[derive(Default)]
struct State {
    total: Tally,
    sections: Vec<(String, Tally, f64)>,
    samples: Vec<J>,
    viols: Vec<Viol>,
    known_hit: BTreeMap<String, String>,
    extra: Vec<(String, J)>,
    assumptions: Vec<String>,
    rule: String,
    exhaustive: bool,
}

/// One section of a check: a family of cases. Collects its own tally and violations.
pub struct Sec<'a> {
    pub ctx: &'a Ctx,
    pub name: String,
    /// names of the words noted with `cur`
    labels: &'static str,
    tally: Mutex<Tally>,
    nviol: AtomicUsize,
    stop: AtomicBool,
    nsamples: AtomicUsize,
}

pub const MAX_VIOL_PER_SECTION: usize = 3;

impl<'a> Sec<'a> {
    /// Reports that the property fails on a case. `key` identifies the case (input, call site, history).
    pub fn fail(&self, key: impl Into<String>, detail: impl Into<String>) {
        let key = format!("{}/{}", self.name, key.into());
        let detail = detail.into();
        let mut st = self.ctx.st.lock().unwrap();
        if let Some((k, d)) = self.ctx.known.iter().find(|(k, _)| *k == key) {
            st.known_hit.insert(k.clone(), d.clone());
            return;
        }
        if st.viols.iter().any(|v| v.key == key) {
            return;
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < MAX_VIOL_PER_SECTION {
            st.viols.push(Viol { key, detail });
        }
        if n + 1 >= MAX_VIOL_PER_SECTION {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        let key = format!("{}/{}", self.name, key);
        self.ctx.known.iter().any(|(k, _)| *k == key)
    }
    #[inline(always)]
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn add(&self, t: &Tally) {
        self.tally.lock().unwrap().add(t);
    }
    /// Keeps an actual case for the evidence file (at most a few per section).
    pub fn sample(&self, f: impl FnOnce() -> J) {
        if self.nsamples.load(Relaxed) < 2 && self.nsamples.fetch_add(1, Relaxed) < 2 {
            let j = J::obj([("section", J::s(&self.name)), ("case", f())]);
            self.ctx.st.lock().unwrap().samples.push(j);
        }
    }
    /// Runs `f`; a panic of the code under test is a violation on the case noted with `cur`.
    pub fn guard<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let c = cur_get(SLOT.with(|s| s.get()));
                let m = PANIC_MSG.with(|p| p.borrow().clone());
                self.fail(format!("panic at [{}]={:?}", self.labels, c), format!("the code panicked: {m}"));
                None
            }
        }
    }
    /// Enumerates items 0..n on all cores. Each item is guarded.
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Tally) + Sync) {
        self.par_threads(n, 8, f)
    }
    pub fn par_threads(&self, n: usize, threads: usize, f: impl Fn(usize, &mut Tally) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for t in 0..threads.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(t + 1));
                        ACTIVE.fetch_add(1, Relaxed);
                        let mut tally = Tally::default();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            cur(&[i as u64, 0, 0, 0, 0, 0, 0, 0]);
                            let _ = self.guard(|| f(i, &mut tally));
                            tick();
                        }
                        ACTIVE.fetch_sub(1, Relaxed);
                        self.add(&tally);
                    })
                    .unwrap();
            }
        });
    }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

impl Ctx {
    pub fn new(id: &'static str, level: &'static str) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
            if std::env::var("VERIF_PANICS").is_ok() {
                eprintln!("panic: {msg} at {loc}");
            }
        }));
        rand::verif_hook::seed(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
        let dir = verif_dir();
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
            for l in t.lines() {
                // finding: property=C04 key=<key> | <what fails>
                if let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) {
                    if let Some((k, d)) = r.split_once(" | ") {
                        known.push((k.to_string(), d.to_string()));
                    }
                }
            }
        }
        let args: Vec<String> = std::env::args().skip(1).collect();
        let mut only = vec![];
        let mut it = args.iter();
        while let Some(a) = it.next() {
            if a == "--section" {
                only.push(it.next().cloned().unwrap_or_default());
            }
        }
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        Ctx {
            id,
            level,
            thorough: tier == "thorough",
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            only,
            known,
            st: Mutex::new(State { exhaustive: true, ..Default::default() }),
        }
    }
    pub fn rule(&self, s: &str) {
        self.st.lock().unwrap().rule = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.st.lock().unwrap().assumptions.push(s.to_string());
    }
    pub fn extra(&self, k: &str, v: J) {
        self.st.lock().unwrap().extra.push((k.to_string(), v));
    }
    pub fn not_exhaustive(&self) {
        self.st.lock().unwrap().exhaustive = false;
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    /// Runs one section (unless filtered out with --section). `labels` names the words noted with `cur`.
    pub fn section(&self, name: &str, labels: &'static str, f: impl FnOnce(&Sec)) {
        if !self.only.is_empty() && !self.only.iter().any(|o| name.starts_with(o.as_str())) {
            return;
        }
        let sec = Sec {
            ctx: self,
            name: name.to_string(),
            labels,
            tally: Default::default(),
            nviol: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            nsamples: AtomicUsize::new(0),
        };
        let t0 = Instant::now();
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let (done, sec) = (&done, &sec);
            let wd = sc.spawn(move || {
                let mut last = progress();
                let mut since = (Instant::now(), cpu());
                // for long enough, and not for want of processors: each thread had its share of time, or
                // all of them wait for something
                let stuck = |since: &(Instant, Duration)| {
                    let used = cpu() - since.1;
                    since.0.elapsed() > Duration::from_secs(150) && (used > Duration::from_secs(100) * ACTIVE.load(Relaxed).max(1) as u32 || used < Duration::from_secs(2))
                };
                while !done.load(Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    let p = progress();
                    if p != last {
                        last = p;
                        since = (Instant::now(), cpu());
                    } else if stuck(&since) {
                        let cases: Vec<_> = (0..10).map(cur_get).filter(|c| c.iter().any(|w| *w != 0)).collect();
                        sec.fail(
                            "does not terminate",
                            format!("no progress for 150 s; cases in progress [{}]: {:?}", sec.labels, cases),
                        );
                        self.st.lock().unwrap().sections.push((sec.name.clone(), Tally::default(), 150.0));
                        self.finish_now();
                    }
                }
            });
            SLOT.with(|s| s.set(0));
            let _ = sec.guard(|| f(sec));
            done.store(true, Relaxed);
            wd.thread().unpark();
            tick();
        });
        let t = sec.tally.lock().unwrap().clone();
        let secs = t0.elapsed().as_secs_f64();
        let counts = if self.level == "model_checking" {
            format!("states={} transitions={} traces={}", t.states, t.transitions, t.traces)
        } else {
            format!("evals={} distinct={}", t.evals, t.distinct)
        };
        eprintln!(
            "[{}] {:<40} {} {:.1}s{}",
            self.id,
            name,
            counts,
            secs,
            if sec.nviol.load(Relaxed) > 0 { "  VIOLATED" } else { "" }
        );
        let mut st = self.st.lock().unwrap();
        st.total.add(&t);
        st.sections.push((name.to_string(), t, secs));
    }
    /// Writes the evidence file, prints the verdict and exits.
    pub fn finish(self) -> ! {
        self.finish_now()
    }
    fn finish_now(&self) -> ! {
        let dir = verif_dir();
        let st = self.st.lock().unwrap();
        let t = &st.total;
        let mut cov: Vec<(String, J)> = vec![];
        let mut put = |k: &str, v: J| cov.push((k.to_string(), v));
        if self.level == "model_checking" {
            put("states", J::n(t.states));
            put("transitions", J::n(t.transitions));
            put("traces_validated_against_impl", J::n(t.traces));
        }
        if self.level != "model_checking" {
            put("evaluations", J::n(t.evals));
            put("distinct_nontrivial", J::n(t.distinct));
        }
        put("rule", J::s(&st.rule));
        put("samples", J::A(st.samples.clone()));
        put("exhaustive", J::B(st.exhaustive));
        put(
            "sections",
            J::A(st.sections
                .iter()
                .map(|(n, t, s)| {
                    let counts = if self.level == "model_checking" {
                        [("states", t.states), ("transitions", t.transitions), ("traces", t.traces)].to_vec()
                    } else {
                        [("evaluations", t.evals), ("distinct", t.distinct)].to_vec()
                    };
                    let mut o = vec![("name".to_string(), J::s(n))];
                    o.extend(counts.into_iter().map(|(k, v)| (k.to_string(), J::n(v))));
                    o.push(("wall_s".to_string(), J::F(*s)));
                    J::O(o)
                })
                .collect()),
        );
        for (k, v) in &st.extra {
            put(k, v.clone());
        }
        let ev = J::O(vec![
            ("property".into(), J::s(self.id)),
            ("tier".into(), J::s(if self.thorough { "thorough" } else { "quick" })),
            ("seed".into(), J::n(self.seed)),
            ("level".into(), J::s(self.level)),
            ("coverage".into(), J::O(cov)),
            ("assumptions".into(), J::A(st.assumptions.iter().map(|s| J::s(s)).collect())),
            ("wall_s".into(), J::F(self.start.elapsed().as_secs_f64())),
            ("violations".into(), J::n(st.viols.len() as u64)),
        ]);
        std::fs::create_dir_all(format!("{dir}/evidence")).ok();
        if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", self.id), ev.to_string() + "\n") {
            eprintln!("ERROR: cannot write the evidence file: {e}");
            std::process::exit(3);
        }
        for (k, d) in &st.known_hit {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, d, k);
        }
        for (i, v) in st.viols.iter().enumerate() {
            let path = format!("{dir}/replays/{}-{}.json", self.id, i);
            std::fs::create_dir_all(format!("{dir}/replays")).ok();
            let sec = v.key.split('/').next().unwrap_or("").to_string();
            let j = J::obj([
                ("property", J::s(self.id)),
                ("case", J::s(&v.key)),
                ("detail", J::s(&v.detail)),
                ("tier", J::s(if self.thorough { "thorough" } else { "quick" })),
                ("seed", J::n(self.seed)),
                (
                    "replay_cmd",
                    J::s(&format!(
                        "VERIF_SEED={} VERIF_TIER={} ./run.sh {} --section '{}'",
                        self.seed,
                        if self.thorough { "thorough" } else { "quick" },
                        self.id,
                        sec
                    )),
                ),
            ]);
            std::fs::write(&path, j.to_string() + "\n").ok();
            println!("case: {}\n  {}", v.key, v.detail);
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        println!(
            "{} {}: evaluations={} states={} transitions={} traces={} violations={} wall={:.1}s",
            self.id,
            if st.viols.is_empty() { "held" } else { "BROKEN" },
            t.evals,
            t.states,
            t.transitions,
            t.traces,
            st.viols.len(),
            self.start.elapsed().as_secs_f64()
        );
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(if st.viols.is_empty() { 0 } else { 1 })
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// SplitMix64: only used to derive fixed filler values, never to sample the space a check claims.
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Compares and reports: `ck!(sec, "what", [named operands], got, want)`.
#[macro_export]
macro_rules! ck {
    ($sec:expr, $what:expr, [$($op:expr),*], $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if g != w {
            let mut k = String::from($what);
            $( k.push_str(&format!(" {}={:?}", stringify!($op), $op)); )*
            $sec.fail(k, format!("got {:?}, want {:?}", g, w));
        }
    }};
}

/// Boundary values below 2^bits: 0, 1, 2, all 2^j and 2^j +- 1, and alternating patterns.
pub fn edge_values(bits: u32) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![0u128, 1, 2, 3, max, max - 1, max - 2];
    for j in 0..bits {
        let p = 1u128 << j;
        v.extend([p, p - 1, p.wrapping_add(1), max - p, max ^ (p - 1)]);
    }
    v.extend([0x5555_5555_5555_5555_5555_5555_5555_5555u128 & max, 0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAAu128 & max]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
/// Operand values that stress reduction modulo m within a word of `bits` bits.
pub fn edge_operands(m: u128, bits: u32) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = edge_values(bits);
    for q in edge_values(bits) {
        if let Some(x) = q.checked_mul(m) {
            if x <= max {
                v.extend([x.saturating_sub(1), x, x.saturating_add(1).min(max)]);
            }
        }
    }
    for d in 1..=4u128 {
        v.push(max / m * m - d.min(max / m * m));
        v.push(m.saturating_sub(d));
        v.push(m + d);
        v.push(2 * m + d);
        v.push((2 * m).saturating_sub(d));
        v.push(m / 2 + d);
        v.push((m / 2).saturating_sub(d));
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// Machine words of every width, seen as u64.
pub trait V: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn of(x: u64) -> Self;
    fn to(self) -> u64;
}
macro_rules! impl_v { ($($t:ty)*) => { $( impl V for $t { #[inline(always)] fn of(x: u64) -> Self { x as $t } #[inline(always)] fn to(self) -> u64 { self as u64 } } )* } }
impl_v! { u8 u16 u32 u64 }
/// The field with this value (reduced by the field's constructor).
#[inline(always)]
pub fn fe<F: algebra::Field<Value: V>>(x: u64) -> F {
    F::new(V::of(x))
}
#[inline(always)]
pub fn val<F: algebra::Field<Value: V>>(f: F) -> u64 {
    f.value().to()
}
pub fn fq<F: algebra::Field<Value: V>>() -> u64 {
    F::MODULUS_VALUE.to()
}
pub fn fes<F: algebra::Field<Value: V>>(v: &[u64]) -> Vec<F> {
    v.iter().map(|x| fe(*x)).collect()
}
pub fn vals<F: algebra::Field<Value: V>>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| val(*x)).collect()
}
pub fn poly<F: algebra::Field<Value: V>>(v: &[u64]) -> algebra::Polynomial<F> {
    algebra::Polynomial::new(fes(v))
}
pub fn pvals<F: algebra::Field<Value: V>>(v: &algebra::Polynomial<F>) -> Vec<u64> {
    vals(v.as_slice())
}
pub fn npoly<F: algebra::Field<Value: V>>(v: &[u64]) -> algebra::NTTPolynomial<F> {
    algebra::NTTPolynomial::new(fes(v))
}
pub fn nvals<F: algebra::Field<Value: V>>(v: &algebra::NTTPolynomial<F>) -> Vec<u64> {
    vals(v.as_slice())
}
/// Vectors modulo q.
pub fn vadd(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| ((*x as u128 + *y as u128) % q as u128) as u64).collect()
}
pub fn vneg(a: &[u64], q: u64) -> Vec<u64> {
    a.iter().map(|x| (q - x % q) % q).collect()
}
pub fn vsub(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    vadd(a, &vneg(b, q), q)
}
pub fn vscal(a: &[u64], c: u64, q: u64) -> Vec<u64> {
    a.iter().map(|x| (*x as u128 * c as u128 % q as u128) as u64).collect()
}
pub fn vmul(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| (*x as u128 * *y as u128 % q as u128) as u64).collect()
}
