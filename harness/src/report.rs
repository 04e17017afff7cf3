//! Exploration bookkeeping, verdicts and evidence.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> std::path::PathBuf {
  std::env::var_os("MC_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new();
  t.hash(&mut h);
  h.finish()
}

pub struct Violation {
  pub key: String,
  pub case: String,
  pub what: String,
}

pub struct Report {
  pub id: String,
  pub tier: String,
  start: Instant,
  inner: Mutex<Inner>,
  only: Option<String>,
}

#[derive(Default)]
struct Inner {
  counts: BTreeMap<String, u64>,
  distinct: HashSet<u64>,
  samples: Vec<String>,
  violations: Vec<Violation>,
  nviol: usize,
  assumptions: Vec<String>,
  rule: String,
  level: String,
  exhaustive: bool,
  capped: Vec<String>,
}

impl Report {
  pub fn new(id: &str, tier: &str) -> Report {
    Report {
      id: id.into(),
      tier: tier.into(),
      start: Instant::now(),
      inner: Mutex::new(Inner { exhaustive: true, ..Default::default() }),
      only: std::env::var("MC_ONLY").ok().filter(|s| !s.is_empty()),
    }
  }
  pub fn thorough(&self) -> bool {
    self.tier == "thorough"
  }
  /// Replays run one case only.
  pub fn wants(&self, case: &str) -> bool {
    tick(case);
    match &self.only {
      Some(o) if o.ends_with('*') => case.starts_with(o.trim_end_matches('*')),
      Some(o) => case == o || o.starts_with(&format!("{case} ")),
      None => true,
    }
  }
  pub fn only(&self) -> Option<&str> {
    self.only.as_deref()
  }
  pub fn add(&self, k: &str, n: u64) {
    *self.inner.lock().unwrap().counts.entry(k.into()).or_default() += n;
  }
  pub fn outcome<T: Hash>(&self, t: &T) {
    let h = hash_of(t);
    self.inner.lock().unwrap().distinct.insert(h);
  }
  pub fn sample(&self, s: String) {
    let mut g = self.inner.lock().unwrap();
    if g.samples.len() < 12 {
      g.samples.push(s);
    }
  }
  pub fn rule(&self, s: &str) {
    self.inner.lock().unwrap().rule = s.into();
  }
  pub fn level(&self, s: &str) {
    self.inner.lock().unwrap().level = s.into();
  }
  pub fn assume(&self, s: &str) {
    self.inner.lock().unwrap().assumptions.push(s.into());
  }
  pub fn capped(&self, s: &str) {
    let mut g = self.inner.lock().unwrap();
    g.exhaustive = false;
    g.capped.push(s.into());
  }
  /// `key` identifies the failure for the known-findings file.
  pub fn violation(&self, key: &str, case: &str, what: &str) {
    let mut g = self.inner.lock().unwrap();
    g.nviol += 1;
    if g.violations.len() < 200
      && g.violations.iter().filter(|v| v.key == key).count() < 5
    {
      g.violations.push(Violation {
        key: key.into(),
        case: case.into(),
        what: what.into(),
      });
    }
  }
  pub fn n_violations(&self) -> usize {
    self.inner.lock().unwrap().nviol
  }
  pub fn elapsed(&self) -> f64 {
    self.start.elapsed().as_secs_f64()
  }

  /// Writes the evidence and prints the verdict; returns the exit code.
  pub fn finish(&self) -> i32 {
    let g = self.inner.lock().unwrap();
    let root = root();
    let ev = root.join("evidence");
    let rep = ev.join("replay");
    let _ = std::fs::create_dir_all(&rep);
    let known = std::fs::read_to_string(root.join("known-findings.txt"))
      .unwrap_or_default();
    // Lines: KNOWN property=<id> key=<key> :: description
    let known: Vec<(String, String)> = known
      .lines()
      .filter_map(|l| {
        let l = l.strip_prefix("KNOWN property=")?;
        let (id, rest) = l.split_once(" key=")?;
        let (key, desc) = rest.split_once(" :: ")?;
        (id == self.id).then(|| (key.to_string(), desc.to_string()))
      })
      .collect();
    let mut shown = HashSet::new();
    let mut bad = 0;
    let mut vjson = vec![];
    for (n, v) in g.violations.iter().enumerate() {
      if let Some((k, d)) = known.iter().find(|(k, _)| *k == v.key) {
        if shown.insert(k.clone()) {
          println!("KNOWN-FINDING: property={} {d}", self.id);
        }
        continue;
      }
      bad += 1;
      let p = rep.join(format!("{}-{n}.txt", self.id));
      let cmd = format!(
        "MC_ONLY='{}' {}/check.sh {} {}",
        v.case.replace('\'', "'\\''"),
        root.display(),
        self.id,
        self.tier
      );
      let _ = std::fs::write(
        &p,
        format!(
          "property: {}\ncase: {}\nkey: {}\nwhat: {}\nreplay: {}\n",
          self.id, v.case, v.key, v.what, cmd
        ),
      );
      if bad <= 20 {
        println!("VIOLATION property={} replay={}", self.id, p.display());
        println!("  case: {}", v.case);
        println!("  key: {}", v.key);
        let what: String = v.what.chars().take(600).collect();
        println!("  what: {what}");
      }
      vjson.push(format!(
        "{{\"case\":\"{}\",\"what\":\"{}\"}}",
        esc(&v.case),
        esc(&v.what)
      ));
    }
    let c = |k: &str| g.counts.get(k).copied().unwrap_or(0);
    let extra: Vec<String> = g
      .counts
      .iter()
      .filter(|(k, _)| {
        !["states", "transitions", "evaluations", "traces"].contains(&k.as_str())
      })
      .map(|(k, v)| format!("\"{}\":{}", esc(k), v))
      .collect();
    let seed: i64 = std::env::var("VERIF_SEED")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(1);
    let mut assumptions = g.assumptions.clone();
    for c in &g.capped {
      assumptions.push(format!("cap hit: {c}"));
    }
    let q = |v: &[String]| {
      v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
    };
    let json = format!(
      "{{\n\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"exhaustive\":{},\"samples\":[{}]{}{}}},\n\"wall_s\":{:.2},\n\"assumptions\":[{}],\n\"violations\":[{}]\n}}\n",
      self.id,
      self.tier,
      seed,
      esc(&g.level),
      c("states"),
      c("transitions"),
      c("traces"),
      c("evaluations"),
      g.distinct.len(),
      esc(&g.rule),
      g.exhaustive,
      q(&g.samples),
      if extra.is_empty() { "" } else { "," },
      extra.join(","),
      self.elapsed(),
      q(&assumptions),
      vjson.join(",")
    );
    if self.only.is_none() {
      if let Err(e) = std::fs::write(ev.join(format!("{}.json", self.id)), json) {
        eprintln!("cannot write evidence: {e}");
        return 2;
      }
    }
    println!(
      "{} {}: {} {} distinct={} violations={} wall={:.1}s",
      self.id,
      self.tier,
      g.counts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "),
      if g.exhaustive { "complete within bounds" } else { "capped" },
      g.distinct.len(),
      g.nviol,
      self.elapsed()
    );
    if c("evaluations") == 0 {
      eprintln!("nothing was explored");
      return 2;
    }
    if bad > 0 {
      1
    } else {
      0
    }
  }
}

static SLOTS: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());
thread_local! {
  static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Restarts the hang timer of this worker and names what it is doing.
pub fn tick(what: &str) {
  let s = SLOT.with(|s| s.get());
  if s != usize::MAX {
    SLOTS.lock().unwrap()[s] = Some((Instant::now(), what.to_string()));
  }
}

/// A single execution that makes no progress for this long is a hang; the
/// longest ordinary ones take a few seconds.
pub const HANG_S: u64 = 240;

extern "C" {
  static mc_crash_signal: std::sync::atomic::AtomicI32;
  static mc_crash_slot: std::sync::atomic::AtomicI64;
  fn mc_crash_install(text: *const std::ffi::c_char);
}
#[no_mangle]
extern "C" fn mc_slot() -> i64 {
  SLOT.with(|s| s.get()) as i64
}
/// The last panic of any thread.
pub static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// Reports a hang of any worker, or a fatal signal, as a violation and ends
/// the process.
pub fn watchdog(r: std::sync::Arc<Report>) {
  let text = format!(
    "VIOLATION property={} replay={}\n  what: the process is ended by a signal\n\0",
    r.id,
    root().join("evidence/replay").join(format!("{}-crash.txt", r.id)).display()
  );
  unsafe { mc_crash_install(text.as_ptr() as *const _) };
  std::thread::spawn(move || loop {
    std::thread::sleep(std::time::Duration::from_millis(300));
    let sig = unsafe { mc_crash_signal.load(Ordering::SeqCst) };
    if sig > 0 {
      let all = SLOTS.lock().unwrap();
      let own = unsafe { mc_crash_slot.load(Ordering::SeqCst) } as usize;
      let (case, what) = match all.get(own) {
        Some(Some((_, w))) => (w.clone(), String::new()),
        _ => {
          let v: Vec<_> = all.iter().flatten().map(|(_, w)| w.clone()).collect();
          (v.first().cloned().unwrap_or_default(), format!(" in one of: {}", v.join(" | ")))
        }
      };
      let last = ANY_PANIC.try_lock().map(|s| s.clone()).unwrap_or_default();
      r.add("evaluations", 1);
      r.violation("crash", &case, &format!("signal {sig}, last panic: {last}{what}"));
      let rc = r.finish();
      unsafe { _exit(rc) };
    }
    let hung = SLOTS.lock().unwrap().iter().flatten().find_map(|(t, w)| {
      (t.elapsed().as_secs() > HANG_S).then(|| w.clone())
    });
    if let Some(w) = hung {
      r.add("evaluations", 1);
      r.violation("hang", &w, &format!("no result after {HANG_S} s"));
      let rc = r.finish();
      unsafe { _exit(rc) };
    }
  });
}
extern "C" {
  fn _exit(rc: i32) -> !;
}

/// Applies `f` to every index on all cores; each index exactly once.
pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
  par_for_n(n, usize::MAX, f)
}
pub fn par_for_n(n: usize, max: usize, f: impl Fn(usize) + Sync) {
  let next = AtomicUsize::new(0);
  let workers = std::thread::available_parallelism()
    .map_or(8, |n| n.get())
    .min(n.max(1))
    .min(max);
  {
    let mut g = SLOTS.lock().unwrap();
    g.clear();
    g.resize(workers, None);
  }
  std::thread::scope(|s| {
    for w in 0..workers {
      let (next, f) = (&next, &f);
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn_scoped(s, move || {
          SLOT.with(|s| s.set(w));
          loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n {
              break;
            }
            tick(&format!("index {i}"));
            f(i);
            SLOTS.lock().unwrap()[w] = None;
          }
        })
        .unwrap();
    }
  });
}
