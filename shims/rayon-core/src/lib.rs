//! Stand-in for rayon-core: the same interface, with every fork, join, scope
//! and spawn decided by `mcsched`.  Outside of a controlled run forks are
//! executed serially and spawned jobs are plain threads.
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

use mcsched as mc;

#[derive(Debug)]
pub struct FnContext {
  migrated: bool,
  _m: PhantomData<*mut ()>,
}
impl FnContext {
  fn new(migrated: bool) -> Self {
    FnContext { migrated, _m: PhantomData }
  }
  pub fn migrated(&self) -> bool {
    self.migrated
  }
}

pub fn max_num_threads() -> usize {
  usize::MAX >> 48
}
thread_local! {
  static PASSIVE_THREADS: std::cell::Cell<usize> = const { std::cell::Cell::new(8) };
  static INDEX: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
pub fn current_num_threads() -> usize {
  if mc::active() {
    mc::num_threads()
  } else {
    PASSIVE_THREADS.with(|c| c.get())
  }
}
pub fn current_thread_index() -> Option<usize> {
  INDEX.with(|c| c.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
  None
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
  Executed,
  Idle,
}
pub fn yield_now() -> Option<Yield> {
  mc::point(mc::Kind::Fork);
  None
}
pub fn yield_local() -> Option<Yield> {
  None
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
  A: FnOnce() -> RA + Send,
  B: FnOnce() -> RB + Send,
  RA: Send,
  RB: Send,
{
  join_context(|_| a(), |_| b())
}

static KEYS: AtomicUsize = AtomicUsize::new(1);
fn fresh_key() -> usize {
  (KEYS.fetch_add(1, Ordering::Relaxed) << 1) | 1
}

/// Lengthen the lifetime of a job that is joined before its borrows end.
unsafe fn erase<'a>(
  f: Box<dyn FnOnce() + Send + 'a>,
) -> Box<dyn FnOnce() + Send + 'static> {
  std::mem::transmute(f)
}

type Slot<R> = Arc<Mutex<Option<std::thread::Result<R>>>>;

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
  A: FnOnce(FnContext) -> RA + Send,
  B: FnOnce(FnContext) -> RB + Send,
  RA: Send,
  RB: Send,
{
  if !mc::explore_forks() {
    let ra = a(FnContext::new(false));
    let rb = b(FnContext::new(false));
    return (ra, rb);
  }
  let slot: Slot<RB> = Arc::new(Mutex::new(None));
  let key = fresh_key();
  {
    let slot = slot.clone();
    let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
      let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
      *slot.lock().unwrap() = Some(r);
    });
    // Joined below before anything it borrows goes away.
    mc::spawn_task("fork", mc::NO_POOL, key, false, unsafe { erase(job) });
  }
  mc::point(mc::Kind::Fork);
  let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
  let mut ok = true;
  while slot.lock().unwrap().is_none() && ok {
    ok = match catch_unwind(AssertUnwindSafe(|| mc::block(key))) {
      Ok(v) => v,
      Err(_) => false,
    };
  }
  // An aborted run still has to wait for the sibling's borrows to end.
  while slot.lock().unwrap().is_none() {
    std::thread::sleep(std::time::Duration::from_millis(1));
    if Arc::strong_count(&slot) == 1 {
      break;
    }
  }
  let rb = slot.lock().unwrap().take();
  match (ra, rb) {
    (Ok(ra), Some(Ok(rb))) => (ra, rb),
    (Err(e), _) => resume_unwind(e),
    (_, Some(Err(e))) => resume_unwind(e),
    (_, None) => panic!("aborted schedule"),
  }
}

// ---------------------------------------------------------------- scopes

struct ScopeState {
  pending: AtomicUsize,
  key: usize,
  err: Mutex<Option<Box<dyn std::any::Any + Send>>>,
  m: Mutex<()>,
  cv: Condvar,
}

impl ScopeState {
  fn new() -> Arc<Self> {
    Arc::new(ScopeState {
      pending: AtomicUsize::new(0),
      key: fresh_key(),
      err: Mutex::new(None),
      m: Mutex::new(()),
      cv: Condvar::new(),
    })
  }
  fn done(&self, r: std::thread::Result<()>) {
    if let Err(e) = r {
      let mut g = self.err.lock().unwrap();
      if g.is_none() || g.as_ref().is_some_and(|p| mc::is_abort(&**p)) {
        *g = Some(e);
      }
    }
    let _g = self.m.lock().unwrap();
    self.pending.fetch_sub(1, Ordering::SeqCst);
    self.cv.notify_all();
    mc::notify(self.key);
  }
  fn wait(&self, controlled: bool) {
    if controlled {
      mc::release_worker();
      let mut ok = true;
      while self.pending.load(Ordering::SeqCst) > 0 && ok {
        ok = catch_unwind(AssertUnwindSafe(|| mc::block(self.key)))
          .unwrap_or(false);
      }
      mc::reacquire_worker();
    }
    let mut g = self.m.lock().unwrap();
    while self.pending.load(Ordering::SeqCst) > 0 {
      g = self.cv.wait(g).unwrap();
    }
    drop(g);
    if let Some(e) = self.err.lock().unwrap().take() {
      resume_unwind(e);
    }
  }
}

fn scope_spawn<'scope>(
  st: &Arc<ScopeState>, job: Box<dyn FnOnce() + Send + 'scope>, threads: bool,
  deferred: &Mutex<Vec<Box<dyn FnOnce() + Send + 'static>>>,
) {
  let controlled = mc::active();
  // Counts the job as done even if it is dropped without having run.
  struct Guard(Arc<ScopeState>, bool);
  impl Drop for Guard {
    fn drop(&mut self) {
      if !self.1 {
        self.0.done(Ok(()));
      }
    }
  }
  let mut g = Guard(st.clone(), false);
  let job: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
    let r = catch_unwind(AssertUnwindSafe(job));
    g.1 = true;
    g.0.done(r);
  });
  st.pending.fetch_add(1, Ordering::SeqCst);
  let job = unsafe { erase(job) };
  if controlled && (threads || mc::explore_forks()) {
    mc::spawn_task("scoped", mc::current_pool(), fresh_key(), false, job);
    mc::point(mc::Kind::Fork);
  } else if threads {
    let n = current_num_threads();
    std::thread::spawn(move || {
      PASSIVE_THREADS.with(|c| c.set(n));
      job()
    });
  } else {
    deferred.lock().unwrap().push(job);
  }
}

fn scope_end(
  st: &Arc<ScopeState>, deferred: &Mutex<Vec<Box<dyn FnOnce() + Send + 'static>>>,
) {
  loop {
    let v: Vec<_> = std::mem::take(&mut *deferred.lock().unwrap());
    if v.is_empty() {
      break;
    }
    for j in v {
      j();
    }
  }
  st.wait(mc::active());
}

macro_rules! scopes {
  ($S:ident, $f:ident, $inplace:ident, $sp:ident, $threads:expr) => {
    pub struct $S<'scope> {
      st: Arc<ScopeState>,
      deferred: Arc<Mutex<Vec<Box<dyn FnOnce() + Send + 'static>>>>,
      _m: PhantomData<Box<dyn FnOnce(&$S<'scope>) + Send + Sync + 'scope>>,
    }
    impl<'scope> $S<'scope> {
      fn new() -> Self {
        $S { st: ScopeState::new(), deferred: Arc::default(), _m: PhantomData }
      }
      fn dup(&self) -> Self {
        $S {
          st: self.st.clone(),
          deferred: self.deferred.clone(),
          _m: PhantomData,
        }
      }
      pub fn $sp<BODY>(&self, body: BODY)
      where
        BODY: FnOnce(&$S<'scope>) + Send + 'scope,
      {
        let me = self.dup();
        scope_spawn(
          &self.st,
          Box::new(move || body(&me)),
          $threads,
          &self.deferred,
        );
      }
    }
    impl fmt::Debug for $S<'_> {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(stringify!($S))
      }
    }
    pub fn $f<'scope, OP, R>(op: OP) -> R
    where
      OP: FnOnce(&$S<'scope>) -> R + Send,
      R: Send,
    {
      $inplace(op)
    }
    pub fn $inplace<'scope, OP, R>(op: OP) -> R
    where
      OP: FnOnce(&$S<'scope>) -> R,
    {
      let s = $S::new();
      let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
      scope_end(&s.st, &s.deferred);
      match r {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
      }
    }
  };
}
scopes!(Scope, scope, in_place_scope, spawn, false);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo, true);

// ---------------------------------------------------------------- spawn

fn spawn_in(pool: usize, size: usize, f: Box<dyn FnOnce() + Send + 'static>) {
  if mc::active() {
    mc::spawn_task("spawned", pool, fresh_key(), true, f);
    mc::point(mc::Kind::Fork);
  } else {
    std::thread::spawn(move || {
      PASSIVE_THREADS.with(|c| c.set(size));
      f()
    });
  }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
  let p = if mc::current_pool() != mc::NO_POOL {
    mc::current_pool()
  } else {
    mc::global_pool()
  };
  spawn_in(p, current_num_threads(), Box::new(f))
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
  spawn(f)
}

// ---------------------------------------------------------------- pools

pub struct ThreadPool {
  size: usize,
  id: usize,
}
impl fmt::Debug for ThreadPool {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "ThreadPool({})", self.size)
  }
}
struct Restore(usize, usize, Option<usize>);
impl Drop for Restore {
  fn drop(&mut self) {
    PASSIVE_THREADS.with(|c| c.set(self.0));
    INDEX.with(|c| c.set(self.2));
    mc::set_pool(self.1);
  }
}
impl ThreadPool {
  pub fn new(b: ThreadPoolBuilder) -> Result<ThreadPool, Box<dyn Error>> {
    Ok(b.build().unwrap())
  }
  pub fn install<OP, R>(&self, op: OP) -> R
  where
    OP: FnOnce() -> R + Send,
    R: Send,
  {
    let _r = Restore(
      PASSIVE_THREADS.with(|c| c.get()),
      mc::current_pool(),
      current_thread_index(),
    );
    PASSIVE_THREADS.with(|c| c.set(self.size));
    INDEX.with(|c| c.set(Some(0)));
    if mc::active() {
      mc::set_pool(self.id);
      // The worker that executes `op`.
      mc::reacquire_worker();
      struct W;
      impl Drop for W {
        fn drop(&mut self) {
          mc::release_worker();
        }
      }
      let _w = W;
      op()
    } else {
      op()
    }
  }
  pub fn current_num_threads(&self) -> usize {
    self.size
  }
  pub fn current_thread_index(&self) -> Option<usize> {
    current_thread_index()
  }
  pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
    None
  }
  pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
  where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
  {
    self.install(|| join(a, b))
  }
  pub fn scope<'scope, OP, R>(&self, op: OP) -> R
  where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
  {
    self.install(|| scope(op))
  }
  pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
  where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
  {
    self.install(|| scope_fifo(op))
  }
  pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
  where
    OP: FnOnce(&Scope<'scope>) -> R,
  {
    in_place_scope(op)
  }
  pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
  where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
  {
    in_place_scope_fifo(op)
  }
  pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
    spawn_in(self.id, self.size, Box::new(op))
  }
  pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
    spawn_in(self.id, self.size, Box::new(op))
  }
  pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
  where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
  {
    (0..self.size)
      .map(|i| op(BroadcastContext { i, n: self.size, _m: PhantomData }))
      .collect()
  }
  pub fn yield_now(&self) -> Option<Yield> {
    yield_now()
  }
  pub fn yield_local(&self) -> Option<Yield> {
    None
  }
}

pub struct ThreadBuilder {
  _p: (),
}
impl fmt::Debug for ThreadBuilder {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("ThreadBuilder")
  }
}

pub struct ThreadPoolBuilder<S = ()> {
  n: usize,
  _s: PhantomData<S>,
}
impl fmt::Debug for ThreadPoolBuilder {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("ThreadPoolBuilder")
  }
}
impl Default for ThreadPoolBuilder {
  fn default() -> Self {
    ThreadPoolBuilder { n: 0, _s: PhantomData }
  }
}
impl ThreadPoolBuilder {
  pub fn new() -> Self {
    Self::default()
  }
  pub fn num_threads(mut self, n: usize) -> Self {
    self.n = n;
    self
  }
  pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
    self
  }
  pub fn stack_size(self, _n: usize) -> Self {
    self
  }
  pub fn panic_handler<H>(self, _h: H) -> Self
  where
    H: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static,
  {
    self
  }
  pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
    self
  }
  pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
    self
  }
  #[deprecated]
  pub fn breadth_first(self) -> Self {
    self
  }
  pub fn use_current_thread(self) -> Self {
    self
  }
  pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
    let size = if self.n == 0 { 8 } else { self.n };
    Ok(ThreadPool { size, id: mc::new_pool(size) })
  }
  pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
    Ok(())
  }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("thread pool")
  }
}
impl Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct BroadcastContext<'a> {
  i: usize,
  n: usize,
  _m: PhantomData<&'a ()>,
}
impl BroadcastContext<'_> {
  pub fn index(&self) -> usize {
    self.i
  }
  pub fn num_threads(&self) -> usize {
    self.n
  }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
  OP: Fn(BroadcastContext<'_>) -> R + Sync,
  R: Send,
{
  let n = current_num_threads();
  (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
  OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
  broadcast(op);
}
