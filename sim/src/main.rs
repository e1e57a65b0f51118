//! Command line driver.
//!
//!   cgar-sim check  <property>            search, minimise, report, evidence
//!   cgar-sim replay <file>                re-execute a replay file
//!   cgar-sim selftest [runs]              determinism over processes and workers
//!   cgar-sim seeds <property> <VERIF_SEED> <first> <step> <last>
//!   cgar-sim worker / one                 internal
mod check;
mod exec;
mod json;
mod minimise;
mod replay;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // without its callbacks no schedule could be forced
    if unsafe { rt::sched::GUARDS } < 20_000 {
        eprintln!("cgar-sim: the library under test was built without edge instrumentation");
        std::process::exit(2);
    }
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check::check(arg(2)),
        "worker" => exec::worker(&a[2..]),
        "one" => exec::one(&a[2..]),
        "replay" => replay::replay(arg(2)),
        "selftest" => check::selftest(arg(2).parse().unwrap_or(200)),
        "seeds" => {
            let n: Vec<u64> = a[3..7].iter().map(|x| x.parse().unwrap_or(0)).collect();
            let v: Vec<String> = (n[1]..=n[3]).step_by(n[2] as usize).map(|i| exec::run_seed(exec::prop(arg(2)), n[0], i).to_string()).collect();
            println!("{}", v.join(" "));
            0
        }
        "list" => {
            for p in drive::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: cgar-sim check|replay|selftest|list ...");
            2
        }
    };
    std::process::exit(code);
}
