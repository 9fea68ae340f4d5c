//! Deterministic simulation of DIS exercises over the real open-dis-rust library.
//!
//!   dissim check C01            explore (VERIF_SEED, VERIF_TIER), write evidence, report
//!   dissim replay FILE          run a replay file; exit 1 if it still shows the violation
//!   dissim plan C01 SEED RUN    print the plan of one run
//!   dissim worker|exec ...      used by the above, one fresh process per batch

mod gen_;
mod model;
#[rustfmt::skip]
mod model_gen;
mod plan;
mod rng;
mod runner;
mod tasks;
mod world;

use plan::{Plan, Role};
use std::io::Write as _;
use world::{Stats, Violation, World};

pub fn root() -> std::path::PathBuf {
    std::env::var_os("DISSIM_ROOT").map_or_else(|| "/verif".into(), Into::into)
}
pub fn known(prop: &str) -> bool {
    runner::known_findings().iter().any(|k| k.0 == prop)
}

/// Run one plan in this process
pub fn run_plan(p: &Plan, known: bool, stats: &mut Stats) -> (Option<Violation>, u64) {
    if p.nodes.first().is_some_and(|n| matches!(n.role, Role::Threads | Role::Nested)) {
        return tasks::run_tasks(p, stats);
    }
    let mut w = World::new(p, known, stats);
    w.run();
    (w.violation.take(), w.hash)
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

fn main() {
    seams::fix_addresses();
    seams::find_thread_locals();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map_or("", String::as_str);
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(0) {
        "worker" => {
            world::quiet_panics();
            let dict = runner::read_dict(arg(3));
            let known = known(arg(1));
            let (start, count) = (num(4), num(5));
            let mut stats = Stats::default();
            for i in start..start + count {
                say(&format!("S {i}"));
                let p = gen_::make_plan(arg(1), num(2), i, &dict);
                let (v, h) = run_plan(&p, known, &mut stats);
                match v {
                    None => say(&format!("H {i} {h:x}")),
                    Some(v) => {
                        say(&format!("V {i} {} {} {}", v.class, v.op, v.msg.replace('\n', " ")));
                        break;
                    }
                }
            }
            for (k, v) in &stats.n {
                say(&format!("N {k} {v}"));
            }
            let hex = |v: Vec<u64>| v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ");
            let mut sit: Vec<u64> = stats.situations.iter().copied().collect();
            sit.sort_unstable();
            say(&format!("Q {}", hex(sit)));
            say(&format!("C {}", hex(seams::edges(false).into_iter().map(u64::from).collect())));
            say(&format!("T {}", seams::edge_total()));
            say(&format!("M {}", stats.stateful.iter().map(usize::to_string).collect::<Vec<_>>().join(" ")));
            say("E");
            0
        }
        "exec" => {
            world::quiet_panics();
            let Some(plans) = std::fs::read_to_string(arg(1)).ok().and_then(|t| Plan::parse_all(&t)) else {
                eprintln!("cannot read the plan");
                std::process::exit(2);
            };
            let mut stats = Stats::default();
            for (i, p) in plans.iter().enumerate() {
                let (v, h) = run_plan(p, known(&p.prop), &mut stats);
                match v {
                    None => say(&format!("H {i} {h:x}")),
                    Some(v) => say(&format!("V {i} {} {} {}", v.class, v.op, v.msg.replace('\n', " "))),
                }
            }
            say("E");
            0
        }
        "plan" => {
            let dict = runner::source_dict();
            print!("{}", gen_::make_plan(arg(1), num(2), num(3), &dict).text());
            0
        }
        "mentions" => {
            print!("{}", runner::mentions_text());
            0
        }
        "replay" => runner::replay(arg(1)),
        "check" => runner::check(arg(1)),
        _ => {
            eprintln!("usage: dissim check PROPERTY | replay FILE | plan PROPERTY SEED RUN");
            2
        }
    };
    std::process::exit(code);
}
