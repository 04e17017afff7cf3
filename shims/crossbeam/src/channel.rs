use mcsched as mc;
use std::collections::VecDeque;
use std::fmt;
use std::iter::FusedIterator;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Q<T> {
  q: VecDeque<T>,
  senders: usize,
  receivers: usize,
  /// Receivers waiting on a zero-capacity channel.
  waiting: usize,
}
struct Chan<T> {
  m: Mutex<Q<T>>,
  cv: Condvar,
  cap: Option<usize>,
}
impl<T> Chan<T> {
  fn key(&self) -> usize {
    (self as *const _ as *const u8 as usize) & !1
  }
  fn lock(&self) -> std::sync::MutexGuard<'_, Q<T>> {
    self.m.lock().unwrap_or_else(|e| e.into_inner())
  }
  fn wake(&self) {
    self.cv.notify_all();
    mc::notify(self.key());
  }
  fn room(&self, q: &Q<T>) -> bool {
    match self.cap {
      None => true,
      Some(0) => q.q.len() < q.waiting,
      Some(c) => q.q.len() < c,
    }
  }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn chan<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
  let c = Arc::new(Chan {
    m: Mutex::new(Q {
      q: VecDeque::new(),
      senders: 1,
      receivers: 1,
      waiting: 0,
    }),
    cv: Condvar::new(),
    cap,
  });
  (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
  chan(None)
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
  chan(Some(cap))
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
  Full(T),
  Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
  Timeout(T),
  Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
  Empty,
  Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
  Timeout,
  Disconnected,
}
impl<T> fmt::Debug for SendError<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("SendError(..)")
  }
}
impl<T> fmt::Display for SendError<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("sending on a disconnected channel")
  }
}
impl<T: Send> std::error::Error for SendError<T> {}
impl<T> SendError<T> {
  pub fn into_inner(self) -> T {
    self.0
  }
}
impl<T> fmt::Debug for TrySendError<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      TrySendError::Full(..) => f.write_str("Full(..)"),
      TrySendError::Disconnected(..) => f.write_str("Disconnected(..)"),
    }
  }
}
impl<T> fmt::Display for TrySendError<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(self, f)
  }
}
impl<T: Send> std::error::Error for TrySendError<T> {}
impl<T> TrySendError<T> {
  pub fn into_inner(self) -> T {
    match self {
      TrySendError::Full(v) | TrySendError::Disconnected(v) => v,
    }
  }
  pub fn is_full(&self) -> bool {
    matches!(self, TrySendError::Full(_))
  }
  pub fn is_disconnected(&self) -> bool {
    matches!(self, TrySendError::Disconnected(_))
  }
}
impl<T> fmt::Debug for SendTimeoutError<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("SendTimeoutError(..)")
  }
}
macro_rules! disp {
  ($t:ty) => {
    impl fmt::Display for $t {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
      }
    }
    impl std::error::Error for $t {}
  };
}
disp!(RecvError);
disp!(TryRecvError);
disp!(RecvTimeoutError);
impl TryRecvError {
  pub fn is_empty(&self) -> bool {
    *self == TryRecvError::Empty
  }
  pub fn is_disconnected(&self) -> bool {
    *self == TryRecvError::Disconnected
  }
}

impl<T> Sender<T> {
  pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
    mc::point(mc::Kind::Chan);
    let mut q = self.0.lock();
    if q.receivers == 0 {
      return Err(TrySendError::Disconnected(v));
    }
    if !self.0.room(&q) {
      return Err(TrySendError::Full(v));
    }
    q.q.push_back(v);
    drop(q);
    self.0.wake();
    Ok(())
  }
  pub fn send(&self, v: T) -> Result<(), SendError<T>> {
    mc::point(mc::Kind::Chan);
    loop {
      let mut q = self.0.lock();
      if q.receivers == 0 {
        return Err(SendError(v));
      }
      if self.0.room(&q) {
        q.q.push_back(v);
        drop(q);
        self.0.wake();
        return Ok(());
      }
      if mc::active() {
        drop(q);
        if !mc::block(self.0.key()) {
          return Err(SendError(v));
        }
      } else {
        drop(self.0.cv.wait(q));
      }
    }
  }
  pub fn send_timeout(
    &self, v: T, d: Duration,
  ) -> Result<(), SendTimeoutError<T>> {
    self.send_deadline(v, Instant::now() + d)
  }
  pub fn send_deadline(
    &self, v: T, _d: Instant,
  ) -> Result<(), SendTimeoutError<T>> {
    match self.try_send(v) {
      Ok(()) => Ok(()),
      Err(TrySendError::Full(v)) => Err(SendTimeoutError::Timeout(v)),
      Err(TrySendError::Disconnected(v)) => {
        Err(SendTimeoutError::Disconnected(v))
      }
    }
  }
  pub fn is_empty(&self) -> bool {
    self.len() == 0
  }
  pub fn is_full(&self) -> bool {
    mc::point(mc::Kind::Chan);
    !self.0.room(&self.0.lock())
  }
  pub fn len(&self) -> usize {
    mc::point(mc::Kind::Chan);
    self.0.lock().q.len()
  }
  pub fn capacity(&self) -> Option<usize> {
    self.0.cap
  }
  pub fn same_channel(&self, o: &Sender<T>) -> bool {
    Arc::ptr_eq(&self.0, &o.0)
  }
}
impl<T> Receiver<T> {
  pub fn try_recv(&self) -> Result<T, TryRecvError> {
    mc::point(mc::Kind::Chan);
    let mut q = self.0.lock();
    match q.q.pop_front() {
      Some(v) => {
        drop(q);
        self.0.wake();
        Ok(v)
      }
      None if q.senders == 0 => Err(TryRecvError::Disconnected),
      None => Err(TryRecvError::Empty),
    }
  }
  pub fn recv(&self) -> Result<T, RecvError> {
    mc::point(mc::Kind::Chan);
    loop {
      let mut q = self.0.lock();
      if let Some(v) = q.q.pop_front() {
        drop(q);
        self.0.wake();
        return Ok(v);
      }
      if q.senders == 0 {
        return Err(RecvError);
      }
      if self.0.cap == Some(0) {
        q.waiting += 1;
        self.0.wake();
      }
      if mc::active() {
        drop(q);
        if !mc::block(self.0.key()) {
          return Err(RecvError);
        }
      } else {
        drop(self.0.cv.wait(q));
      }
      if self.0.cap == Some(0) {
        self.0.lock().waiting -= 1;
      }
    }
  }
  pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
    self.recv_deadline(Instant::now() + d)
  }
  pub fn recv_deadline(&self, _d: Instant) -> Result<T, RecvTimeoutError> {
    self.try_recv().map_err(|e| match e {
      TryRecvError::Empty => RecvTimeoutError::Timeout,
      TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
    })
  }
  pub fn is_empty(&self) -> bool {
    self.len() == 0
  }
  pub fn is_full(&self) -> bool {
    mc::point(mc::Kind::Chan);
    !self.0.room(&self.0.lock())
  }
  pub fn len(&self) -> usize {
    mc::point(mc::Kind::Chan);
    self.0.lock().q.len()
  }
  pub fn capacity(&self) -> Option<usize> {
    self.0.cap
  }
  pub fn iter(&self) -> Iter<'_, T> {
    Iter { r: self }
  }
  pub fn try_iter(&self) -> TryIter<'_, T> {
    TryIter { r: self }
  }
  pub fn same_channel(&self, o: &Receiver<T>) -> bool {
    Arc::ptr_eq(&self.0, &o.0)
  }
}
impl<T> Clone for Sender<T> {
  fn clone(&self) -> Self {
    self.0.lock().senders += 1;
    Sender(self.0.clone())
  }
}
impl<T> Clone for Receiver<T> {
  fn clone(&self) -> Self {
    self.0.lock().receivers += 1;
    Receiver(self.0.clone())
  }
}
impl<T> Drop for Sender<T> {
  fn drop(&mut self) {
    if !std::thread::panicking() {
      mc::point(mc::Kind::Chan);
    }
    self.0.lock().senders -= 1;
    self.0.wake();
  }
}
impl<T> Drop for Receiver<T> {
  fn drop(&mut self) {
    if !std::thread::panicking() {
      mc::point(mc::Kind::Chan);
    }
    let dropped = {
      let mut q = self.0.lock();
      q.receivers -= 1;
      // Undelivered messages are discarded with the last receiver.
      if q.receivers == 0 { std::mem::take(&mut q.q) } else { VecDeque::new() }
    };
    drop(dropped);
    self.0.wake();
  }
}
impl<T> fmt::Debug for Sender<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Sender { .. }")
  }
}
impl<T> fmt::Debug for Receiver<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Receiver { .. }")
  }
}
pub struct Iter<'a, T> {
  r: &'a Receiver<T>,
}
impl<T> FusedIterator for Iter<'_, T> {}
impl<T> Iterator for Iter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.r.recv().ok()
  }
}
pub struct TryIter<'a, T> {
  r: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.r.try_recv().ok()
  }
}
pub struct IntoIter<T> {
  r: Receiver<T>,
}
impl<T> FusedIterator for IntoIter<T> {}
impl<T> Iterator for IntoIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.r.recv().ok()
  }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
  type Item = T;
  type IntoIter = Iter<'a, T>;
  fn into_iter(self) -> Iter<'a, T> {
    self.iter()
  }
}
impl<T> IntoIterator for Receiver<T> {
  type Item = T;
  type IntoIter = IntoIter<T>;
  fn into_iter(self) -> IntoIter<T> {
    IntoIter { r: self }
  }
}
