//! Deviation-bounded exhaustive exploration of schedules.
use mcsched::{Kind, Outcome, RunCfg};

pub struct Bounds {
  /// How many non-default choices one execution may contain.
  pub deviations: usize,
  /// Choices at points where the running task cannot continue are free.
  pub free_when_blocked: bool,
  pub fun_points: bool,
  pub explore_forks: bool,
  pub threads: usize,
  pub max_execs: u64,
}

pub struct Stats {
  pub execs: u64,
  pub points: u64,
  pub max_points: usize,
  pub capped: bool,
}

/// Runs `f` under every schedule within the bounds.  `f` gets the schedule and
/// returns the execution's outcome; `check` judges it.
pub fn explore<R>(
  b: &Bounds, mut run: impl FnMut() -> R,
  mut check: impl FnMut(&[usize], Result<R, String>, &Outcome) -> bool,
) -> Stats {
  let mut st = Stats { execs: 0, points: 0, max_points: 0, capped: false };
  let mut stack: Vec<Vec<usize>> = vec![vec![]];
  while let Some(prefix) = stack.pop() {
    if st.execs >= b.max_execs {
      st.capped = true;
      break;
    }
    let (r, out) = mcsched::run(
      RunCfg {
        prefix: prefix.clone(),
        explore_forks: b.explore_forks,
        fun_points: b.fun_points,
        default_threads: b.threads,
        horizon: 5_000_000,
      },
      &mut run,
    );
    st.execs += 1;
    st.points += out.points.len() as u64;
    st.max_points = st.max_points.max(out.points.len());
    let r = r.map_err(|e| mcsched::panic_text(&*e));
    let choices: Vec<usize> =
      out.points.iter().map(|p| p.chosen as usize).collect();
    // The schedule up to its last non-default choice identifies it.
    let last = choices.iter().rposition(|&c| c != 0).map_or(0, |i| i + 1);
    if !check(&choices[..last], r, &out) {
      break;
    }
    let cost_at = |i: usize| -> usize {
      let p = &out.points[i];
      usize::from(
        !(b.free_when_blocked && !p.running_enabled && p.kind == Kind::Block),
      )
    };
    let mut cost: usize = (0..prefix.len().min(out.points.len()))
      .filter(|&i| choices[i] != 0)
      .map(cost_at)
      .sum();
    let mut next = vec![];
    for i in prefix.len()..out.points.len() {
      let c = cost + cost_at(i);
      if c <= b.deviations {
        for alt in 1..out.points[i].enabled as usize {
          let mut p = choices[..i].to_vec();
          p.push(alt);
          next.push(p);
        }
      }
      if choices[i] != 0 {
        cost += cost_at(i);
      }
    }
    next.reverse();
    stack.extend(next);
  }
  st
}

pub fn fmt_schedule(c: &[usize]) -> String {
  // Run-length form: index:choice for every non-default choice.
  let v: Vec<String> = c
    .iter()
    .enumerate()
    .filter(|(_, &x)| x != 0)
    .map(|(i, x)| format!("{i}:{x}"))
    .collect();
  if v.is_empty() {
    "default".into()
  } else {
    v.join("+")
  }
}
