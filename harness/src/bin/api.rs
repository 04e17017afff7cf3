use mc::*;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  if a.len() < 3 {
    eprintln!("usage: mc-api <property> <quick|thorough>");
    std::process::exit(2);
  }
  quiet_panics();
  let r = std::sync::Arc::new(Report::new(&a[1], &a[2]));
  watchdog(r.clone());
  match a[1].as_str() {
    "R01" => checks::r01::run(&r),
    "R05" => checks::r05::run(&r),
    "R04" => checks::r04::run(&r),
    "R03" => checks::r03::run(&r),
    "R02" => checks::r02::run(&r),
    "R07" => checks::r07::run(&r),
    "R08" => checks::r08::run(&r),
    "R06" => checks::r06::run(&r),
    "R09" => checks::r09::run(&r),
    "R10" => checks::r10::run(&r),
    "R11" => checks::r11::run(&r),
    "R12" => checks::r12::run(&r),
    "R13" => checks::r13::run(&r),
    "R14" => checks::r14::run(&r),
    "R15" => checks::r15::run(&r),
    "R16" => checks::r16::run(&r),
    "R17" => checks::r17::run(&r),
    o => {
      eprintln!("unknown property {o}");
      std::process::exit(2);
    }
  }
  std::process::exit(r.finish());
}
