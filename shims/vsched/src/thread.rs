//! Replacements of std::thread::{spawn, scope} and of fork-join.
use crate::*;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::thread as real;

/// Runs `f` as thread `t` of the execution.
fn run<T>(t: Option<Tid>, f: impl FnOnce() -> T) -> T {
    let Some(t) = t else { return f() };
    enter_thread(t);
    let r = catch_unwind(AssertUnwindSafe(f));
    leave_thread();
    match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}
fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let old = IN.with(|i| i.replace(true));
    let r = f();
    IN.with(|i| i.set(old));
    r
}
pub struct JoinHandle<T> {
    inner: real::JoinHandle<T>,
    tid: Option<Tid>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> real::Result<T> {
        if let (Some(t), true) = (self.tid, controlled()) {
            point(Op::Join(t));
        }
        quietly(|| self.inner.join())
    }
    pub fn thread(&self) -> &real::Thread {
        self.inner.thread()
    }
    pub fn is_finished(&self) -> bool {
        if let (Some(t), true) = (self.tid, controlled()) {
            point(Op::Local);
            return with(|s| s.threads[t].finished);
        }
        self.inner.is_finished()
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}
#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope>(real::Scope<'scope, 'env>);
pub struct ScopedJoinHandle<'scope, T> {
    inner: real::ScopedJoinHandle<'scope, T>,
    tid: Option<Tid>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> real::Result<T> {
        if let (Some(t), true) = (self.tid, controlled()) {
            point(Op::Join(t));
        }
        quietly(|| self.inner.join())
    }
    pub fn thread(&self) -> &real::Thread {
        self.inner.thread()
    }
    pub fn is_finished(&self) -> bool {
        if let (Some(t), true) = (self.tid, controlled()) {
            point(Op::Local);
            return with(|s| s.threads[t].finished);
        }
        self.inner.is_finished()
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    real::scope(|s| {
        let s: &Scope<'_, 'env> = unsafe { std::mem::transmute(s) };
        let r = catch_unwind(AssertUnwindSafe(|| f(s)));
        if controlled() {
            let k = s as *const _ as usize;
            // threads may spawn further threads in the scope
            while let Some(t) = with(|st| st.scopes.get_mut(&k).and_then(|v| v.pop())) {
                point(Op::Join(t));
            }
        }
        IN.with(|i| i.set(controlled()));
        match r {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    })
    .leave()
}
trait Leave {
    fn leave(self) -> Self;
}
impl<T> Leave for T {
    /// The real scope has waited for its threads: back to the code under test.
    fn leave(self) -> Self {
        IN.with(|i| i.set(false));
        self
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
/// Configuration of a thread.
#[derive(Debug)]
pub struct Builder(real::Builder);
impl Builder {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Builder(real::Builder::new())
    }
    pub fn name(self, n: String) -> Self {
        Builder(self.0.name(n))
    }
    pub fn stack_size(self, n: usize) -> Self {
        Builder(self.0.stack_size(n))
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let tid = controlled().then(new_thread);
        let inner = quietly(|| self.0.spawn(move || run(tid, f)))?;
        if let Some(t) = tid {
            set_handle(t, inner.thread().clone());
        }
        Ok(JoinHandle { inner, tid })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let tid = controlled().then(new_thread);
        let inner = quietly(|| self.0.spawn_scoped(&s.0, move || run(tid, f)))?;
        if let Some(t) = tid {
            set_handle(t, inner.thread().clone());
            let k = s as *const _ as usize;
            with(|st| st.scopes.entry(k).or_default().push(t));
        }
        Ok(ScopedJoinHandle { inner, tid })
    }
}
pub fn yield_now() {
    if controlled() {
        point(Op::Yield);
    } else {
        real::yield_now();
    }
}
pub fn sleep(d: std::time::Duration) {
    if controlled() {
        point(Op::Yield);
    } else {
        real::sleep(d);
    }
}
static SERIAL: AtomicBool = AtomicBool::new(false);
/// Fork-joins of the execution run one branch after the other from now on.
pub fn serial() {
    SERIAL.store(true, SeqCst);
}
/// A second branch that waits on this thread for its turn.
struct Waiting<B, RB> {
    f: Option<B>,
    r: Option<real::Result<RB>>,
}
unsafe fn run_waiting<B: FnOnce() -> RB, RB>(w: *mut ()) {
    let w = w as *mut Waiting<B, RB>;
    let f = (*w).f.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(f));
    (*w).r = Some(r);
}
thread_local! {
    /// What this thread does when it waits for a branch that went to another thread: the newest first.
    static LOCAL: std::cell::RefCell<Vec<(*mut (), unsafe fn(*mut ()))>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Both closures on this thread: the second after the first, or in the middle of it, where it waits for another thread.
pub fn join_here<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let mut w = Waiting { f: Some(b), r: None };
    let p = &mut w as *mut Waiting<B, RB>;
    LOCAL.with(|l| l.borrow_mut().push((p as *mut (), run_waiting::<B, RB>)));
    let x = catch_unwind(AssertUnwindSafe(a));
    LOCAL.with(|l| l.borrow_mut().retain(|(q, _)| *q != p as *mut ()));
    let x = x.unwrap_or_else(|e| resume_unwind(e));
    let y = match unsafe { ((*p).f.take(), (*p).r.take()) } {
        (Some(b), _) => b(),
        (None, Some(Ok(y))) => y,
        (None, Some(Err(e))) => resume_unwind(e),
        (None, None) => unreachable!(),
    };
    (x, y)
}
/// Both closures: on this thread, or the second on a thread of its own.
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if SERIAL.load(SeqCst) || choose(2) == 0 {
        return join_here(a, b);
    }
    scope(|s| {
        let h = s.spawn(b);
        let x = a();
        // meanwhile this thread turns to what else waits for it
        while LOCAL.with(|l| !l.borrow().is_empty()) && choose(2) == 1 {
            let (w, f) = LOCAL.with(|l| l.borrow_mut().pop()).unwrap();
            unsafe { f(w) };
        }
        match h.join() {
            Ok(y) => (x, y),
            Err(e) => resume_unwind(e),
        }
    })
}
