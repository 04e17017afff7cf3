//! A controlled scheduler for stateless model checking of the real rav1e
//! code.  One `run` is one execution: logical tasks are OS threads that hand a
//! baton to each other, so exactly one of them runs at any time, and every
//! scheduling decision is taken from (or appended to) a recorded list of
//! choices.  Threads that do not belong to a run see every operation as a
//! no-op ("passive mode").
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  /// A parallel region forks or a task ends.
  Fork,
  /// A channel operation.
  Chan,
  /// Entry of an instrumented function of the encoder.
  Fun,
  /// The running task cannot continue.
  Block,
}

#[derive(Clone, Debug)]
pub struct RunCfg {
  /// Choices to replay; later choices default to 0.
  pub prefix: Vec<usize>,
  /// Fork/join regions become explored tasks (else they run serially).
  pub explore_forks: bool,
  /// Function entries are scheduling points.
  pub fun_points: bool,
  /// Number reported by `current_num_threads` outside of a sized pool.
  pub default_threads: usize,
  /// Upper bound on scheduling points in one execution.
  pub horizon: usize,
}

impl Default for RunCfg {
  fn default() -> Self {
    RunCfg {
      prefix: vec![],
      explore_forks: true,
      fun_points: false,
      default_threads: 8,
      horizon: 5_000_000,
    }
  }
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
  pub kind: Kind,
  pub enabled: u32,
  pub chosen: u32,
  /// The task that was running is still enabled (switching is a preemption).
  pub running_enabled: bool,
}

#[derive(Debug, Default)]
pub struct Outcome {
  pub points: Vec<Point>,
  pub deadlock: Option<String>,
  pub horizon_hit: bool,
  /// Panic messages of tasks nobody joins.
  pub detached_panics: Vec<String>,
  /// The replayed prefix did not fit the execution.
  pub diverged: bool,
  pub tasks: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
  Queued,
  Ready,
  Blocked(usize),
  Done,
}

struct Task {
  st: St,
  pool: usize,
  cv: Arc<Condvar>,
  name: String,
}

struct PoolInfo {
  size: usize,
  active: usize,
}

struct State {
  tasks: Vec<Task>,
  pools: Vec<PoolInfo>,
  current: usize,
  cfg: RunCfg,
  out: Outcome,
  aborted: bool,
  live: usize,
}

pub struct Inner {
  m: Mutex<State>,
  all_done: Condvar,
}

thread_local! {
  static CUR: RefCell<Option<(Arc<Inner>, usize)>> = const { RefCell::new(None) };
}

/// Pool 0 is "outside every pool": unlimited.
pub const NO_POOL: usize = 0;

struct Abort;

fn lock(i: &Inner) -> MutexGuard<'_, State> {
  i.m.lock().unwrap_or_else(|e| e.into_inner())
}

fn cur() -> Option<(Arc<Inner>, usize)> {
  CUR.with(|c| c.borrow().clone())
}

pub fn active() -> bool {
  CUR.with(|c| c.borrow().is_some())
}

pub fn explore_forks() -> bool {
  match cur() {
    Some((i, _)) => {
      let s = lock(&i);
      s.cfg.explore_forks && !s.aborted
    }
    None => false,
  }
}

pub fn num_threads() -> usize {
  match cur() {
    Some((i, t)) => {
      let s = lock(&i);
      let p = s.tasks[t].pool;
      if p == NO_POOL {
        s.cfg.default_threads
      } else {
        s.pools[p].size
      }
    }
    None => 8,
  }
}

/// Registers a pool with a bounded number of workers.
pub fn new_pool(size: usize) -> usize {
  match cur() {
    Some((i, _)) => {
      let mut s = lock(&i);
      s.pools.push(PoolInfo { size, active: 0 });
      s.pools.len() - 1
    }
    None => NO_POOL,
  }
}

/// The pool used by tasks spawned "globally".
pub fn global_pool() -> usize {
  match cur() {
    Some((i, _)) => {
      let mut s = lock(&i);
      if s.pools.len() < 2 {
        let size = s.cfg.default_threads;
        s.pools.push(PoolInfo { size, active: 0 });
      }
      1
    }
    None => NO_POOL,
  }
}

pub fn current_pool() -> usize {
  match cur() {
    Some((i, t)) => lock(&i).tasks[t].pool,
    None => NO_POOL,
  }
}

/// Temporarily move the running task to another pool (ThreadPool::install).
pub fn set_pool(p: usize) {
  if let Some((i, t)) = cur() {
    lock(&i).tasks[t].pool = p;
  }
}

impl State {
  fn enabled(&self, from: usize) -> Vec<usize> {
    let mut v = vec![];
    if self.tasks[from].st == St::Ready {
      v.push(from);
    }
    let mut queued_seen = vec![false; self.pools.len()];
    for (i, t) in self.tasks.iter().enumerate() {
      if i == from {
        continue;
      }
      match t.st {
        St::Ready => v.push(i),
        St::Queued => {
          // FIFO start order per pool, bounded by its workers.
          let p = t.pool;
          let room =
            p == NO_POOL || self.pools[p].active < self.pools[p].size;
          if room && (p == NO_POOL || !queued_seen[p]) {
            v.push(i);
          }
          queued_seen[p] = true;
        }
        _ => {}
      }
    }
    v
  }

  fn abort(&mut self) {
    self.aborted = true;
    for t in &self.tasks {
      t.cv.notify_all();
    }
  }

  /// Decide who runs next; returns false when nobody can.
  fn pick(&mut self, from: usize, kind: Kind) -> bool {
    let en = self.enabled(from);
    if en.is_empty() {
      return false;
    }
    let running_enabled = self.tasks[from].st == St::Ready;
    let mut c = 0;
    if en.len() > 1 {
      let n = self.out.points.len();
      if n < self.cfg.prefix.len() {
        c = self.cfg.prefix[n];
        if c >= en.len() {
          self.out.diverged = true;
          c = 0;
        }
      }
      self.out.points.push(Point {
        kind,
        enabled: en.len() as u32,
        chosen: c as u32,
        running_enabled,
      });
      if self.out.points.len() > self.cfg.horizon {
        self.out.horizon_hit = true;
        self.abort();
        return true;
      }
    }
    let next = en[c];
    if self.tasks[next].st == St::Queued {
      self.tasks[next].st = St::Ready;
      let p = self.tasks[next].pool;
      if p != NO_POOL {
        self.pools[p].active += 1;
      }
    }
    self.current = next;
    if next != from {
      self.tasks[next].cv.notify_all();
    }
    true
  }
}

fn wait_turn(i: &Inner, mut s: MutexGuard<'_, State>, me: usize) {
  let cv = s.tasks[me].cv.clone();
  while s.current != me && !s.aborted {
    s = cv.wait(s).unwrap_or_else(|e| e.into_inner());
  }
  let ab = s.aborted;
  drop(s);
  let _ = i;
  if ab && !std::thread::panicking() {
    resume_unwind(Box::new(Abort));
  }
}

/// A scheduling point of the running task.
pub fn point(kind: Kind) {
  let Some((i, me)) = cur() else { return };
  let mut s = lock(&i);
  if kind == Kind::Fun && !s.cfg.fun_points {
    return;
  }
  if s.aborted {
    drop(s);
    if !std::thread::panicking() {
      resume_unwind(Box::new(Abort));
    }
    return;
  }
  s.pick(me, kind);
  wait_turn(&i, s, me);
}

/// Blocks the running task until `notify(key)`.  Returns false when the run
/// was aborted while the task was already unwinding.
pub fn block(key: usize) -> bool {
  let Some((i, me)) = cur() else { return true };
  let mut s = lock(&i);
  if s.aborted {
    drop(s);
    if !std::thread::panicking() {
      resume_unwind(Box::new(Abort));
    }
    return false;
  }
  s.tasks[me].st = St::Blocked(key);
  if !s.pick(me, Kind::Block) {
    let d: Vec<String> = s
      .tasks
      .iter()
      .enumerate()
      .filter(|(_, t)| t.st != St::Done)
      .map(|(n, t)| format!("{n}:{}:{:?}", t.name, match t.st {
        St::Blocked(_) => "blocked",
        St::Queued => "queued",
        _ => "ready",
      }))
      .collect();
    s.out.deadlock = Some(d.join(" "));
    s.abort();
  }
  wait_turn(&i, s, me);
  true
}

/// Makes every task blocked on `key` runnable.
pub fn notify(key: usize) {
  let Some((i, _)) = cur() else { return };
  let mut s = lock(&i);
  for t in s.tasks.iter_mut() {
    if t.st == St::Blocked(key) {
      t.st = St::Ready;
    }
  }
}

/// A worker that waits for its children lets its pool start another task.
pub fn release_worker() {
  let Some((i, me)) = cur() else { return };
  let mut s = lock(&i);
  let p = s.tasks[me].pool;
  if p != NO_POOL {
    s.pools[p].active = s.pools[p].active.saturating_sub(1);
  }
}

pub fn reacquire_worker() {
  let Some((i, me)) = cur() else { return };
  let mut s = lock(&i);
  let p = s.tasks[me].pool;
  if p != NO_POOL {
    s.pools[p].active += 1;
  }
}

fn finish(i: &Inner, me: usize) {
  let mut s = lock(i);
  s.tasks[me].st = St::Done;
  let p = s.tasks[me].pool;
  if p != NO_POOL {
    s.pools[p].active = s.pools[p].active.saturating_sub(1);
  }
  s.live -= 1;
  if s.live == 0 {
    i.all_done.notify_all();
    return;
  }
  if !s.aborted && !s.pick(me, Kind::Block) {
    let d: Vec<String> = s
      .tasks
      .iter()
      .enumerate()
      .filter(|(_, t)| t.st != St::Done)
      .map(|(n, t)| format!("{n}:{}", t.name))
      .collect();
    s.out.deadlock = Some(d.join(" "));
    s.abort();
  }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else if e.is::<Abort>() {
    "aborted schedule".into()
  } else {
    "panic".into()
  }
}

pub fn is_abort(e: &(dyn Any + Send)) -> bool {
  e.is::<Abort>()
}

/// Spawns a controlled task.  `done_key` is notified when it ends; the result
/// of the closure (a caught panic, if any) is handed to `on_end`.
pub fn spawn_task(
  name: &str, pool: usize, done_key: usize, detached: bool,
  f: Box<dyn FnOnce() + Send + 'static>,
) {
  let (i, _) = cur().expect("spawn_task outside of a controlled run");
  let id;
  {
    let mut s = lock(&i);
    id = s.tasks.len();
    s.tasks.push(Task {
      st: St::Queued,
      pool,
      cv: Arc::new(Condvar::new()),
      name: name.into(),
    });
    s.live += 1;
    s.out.tasks += 1;
  }
  let i2 = i.clone();
  std::thread::Builder::new()
    .name("mc-task".into())
    .stack_size(8 << 20)
    .spawn(move || {
      CUR.with(|c| *c.borrow_mut() = Some((i2.clone(), id)));
      let r = catch_unwind(AssertUnwindSafe(|| {
        {
          let s = lock(&i2);
          wait_turn(&i2, s, id);
        }
        f();
      }));
      if let Err(e) = r {
        if !e.is::<Abort>() && detached {
          let mut s = lock(&i2);
          let t = panic_text(&*e);
          s.out.detached_panics.push(t);
        }
      }
      notify(done_key);
      CUR.with(|c| *c.borrow_mut() = None);
      finish(&i2, id);
    })
    .expect("thread");
}

/// Runs one execution.  The closure is task 0 (the client), on this thread.
pub fn run<R>(
  cfg: RunCfg, f: impl FnOnce() -> R,
) -> (Result<R, Box<dyn Any + Send>>, Outcome) {
  assert!(!active(), "nested controlled run");
  let inner = Arc::new(Inner {
    m: Mutex::new(State {
      tasks: vec![Task {
        st: St::Ready,
        pool: NO_POOL,
        cv: Arc::new(Condvar::new()),
        name: "client".into(),
      }],
      pools: vec![PoolInfo { size: usize::MAX, active: 0 }],
      current: 0,
      cfg,
      out: Outcome { tasks: 1, ..Default::default() },
      aborted: false,
      live: 1,
    }),
    all_done: Condvar::new(),
  });
  CUR.with(|c| *c.borrow_mut() = Some((inner.clone(), 0)));
  let r = catch_unwind(AssertUnwindSafe(f));
  CUR.with(|c| *c.borrow_mut() = None);
  finish(&inner, 0);
  let mut s = lock(&inner);
  while s.live > 0 {
    s = inner.all_done.wait(s).unwrap_or_else(|e| e.into_inner());
  }
  let mut out = std::mem::take(&mut s.out);
  if s.cfg.prefix.len() > out.points.len() {
    out.diverged = true;
  }
  drop(s);
  (r, out)
}
