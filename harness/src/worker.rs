//! The command line of a worker: runs suites, replays cases, reports in JSON.
use std::collections::HashSet;
use tbx_engine::run::{case_text, json_str, parse_case, run_forked, run_one, Case, Cx, Failure, Report, Verdict};

pub type Suite = fn(&Case, &mut Cx) -> Verdict;
/// (entry, suite, function)
pub type Registry = Vec<(&'static str, &'static str, Suite)>;

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn num(args: &[String], name: &str, or: u64) -> u64 {
    opt(args, name).map_or(or, |v| v.parse().unwrap_or_else(|_| panic!("{name} {v}")))
}

/// `--suite S --seed N --shard N --cases N --ops N --words N --samples N --known a,b [--entry E] [--fork]`
/// or `--replay ENTRY SUITE CASE`, or `--cases-file FILE` (Miri: lines of ENTRY SUITE CASE)
pub fn main(reg: Registry, systematic: &[(&'static str, fn(&mut Cx) -> Result<u64, String>)]) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    // Deep enough for large values in unoptimised code
    let size = if cfg!(miri) { 4 << 20 } else { 256 << 20 };
    let sys: Vec<_> = systematic.to_vec();
    let code = std::thread::Builder::new()
        .stack_size(size)
        .spawn(move || go(&args, &reg, &sys))
        .unwrap()
        .join()
        .unwrap_or(4);
    std::process::exit(code)
}

fn known(args: &[String]) -> HashSet<String> {
    opt(args, "--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect()
}

fn go(args: &[String], reg: &Registry, systematic: &[(&'static str, fn(&mut Cx) -> Result<u64, String>)]) -> i32 {
    let fork = args.iter().any(|a| a == "--fork");
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        return replay(reg, &args[i + 1], &args[i + 2], &parse_case(&args[i + 3]), fork, known(args));
    }
    if let Some(f) = opt(args, "--cases-file") {
        return batch(reg, &f, known(args));
    }
    let suite = opt(args, "--suite").expect("--suite");
    let mut rep = Report::default();
    if num(args, "--shard", 0) == 0 && !args.iter().any(|a| a == "--no-systematic") {
        for (name, f) in systematic.iter().filter(|s| s.0 == suite) {
            let mut cx = Cx { known_keys: known(args), ..Cx::default() };
            match f(&mut cx) {
                Ok(n) => {
                    rep.evaluations += n;
                    *rep.labels.entry("systematic".into()).or_insert(0) += n;
                    for (k, n) in cx.known {
                        rep.known.entry(k).or_insert(n);
                    }
                }
                Err(m) => rep.failures.push(Failure {
                    suite: name.to_string(),
                    entry: "systematic".into(),
                    message: m,
                    case: Vec::new(),
                    trace: Vec::new(),
                }),
            }
        }
    }
    #[cfg(feature = "gen")]
    {
        let o = tbx_engine::run::Opts {
            seed: num(args, "--seed", 1),
            shard: num(args, "--shard", 0),
            cases: num(args, "--cases", 100) as u32,
            fork,
            max_ops: num(args, "--ops", 16) as usize,
            max_words: num(args, "--words", 8) as usize,
            known_keys: known(args),
            samples: num(args, "--samples", 2) as usize,
            crash_file: opt(args, "--crash-file"),
        };
        for (entry, s, f) in reg {
            if *s != suite || opt(args, "--entry").is_some_and(|e| e != *entry) {
                continue;
            }
            tbx_engine::gen::explore(s, entry, &o, &mut rep, &mut |c, cx| f(c, cx));
            if rep.failures.len() > 3 {
                break;
            }
        }
        if let Some(n) = opt(args, "--emit") {
            // Cases for another interpreter (Miri)
            for (entry, s, _) in reg.iter().filter(|r| r.1 == suite) {
                for c in tbx_engine::gen::sample(s, entry, &o, n.parse().unwrap()) {
                    println!("{entry} {s} {}", case_text(&c));
                }
            }
            return 0;
        }
    }
    println!("{}", rep.json());
    (!rep.failures.is_empty()) as i32
}

fn find(reg: &Registry, entry: &str, suite: &str) -> Suite {
    reg.iter()
        .find(|r| r.0 == entry && r.1 == suite)
        .unwrap_or_else(|| panic!("no suite {suite} for {entry}"))
        .2
}

fn replay(reg: &Registry, entry: &str, suite: &str, case: &Case, fork: bool, known_keys: HashSet<String>) -> i32 {
    let f = find(reg, entry, suite);
    let mut cx = Cx { tracing: true, known_keys, ..Cx::default() };
    let v = if fork {
        run_forked(&mut |c, cx| f(c, cx), case, &mut cx)
    } else {
        run_one(&mut |c, cx| f(c, cx), case, &mut cx)
    };
    for t in &cx.trace {
        eprintln!("  {t}");
    }
    match v {
        Ok(()) => {
            println!("{{\"ok\":true}}");
            0
        }
        Err(m) => {
            println!("{{\"ok\":false,\"message\":{}}}", json_str(&m));
            1
        }
    }
}

fn batch(reg: &Registry, file: &str, known_keys: HashSet<String>) -> i32 {
    let text = std::fs::read_to_string(file).expect("cases file");
    let mut bad = 0;
    for line in text.lines() {
        let mut p = line.splitn(3, ' ');
        let (entry, suite, case) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        println!("RUN {line}");
        let f = find(reg, entry, suite);
        let mut cx = Cx { known_keys: known_keys.clone(), ..Cx::default() };
        if let Err(m) = run_one(&mut |c, cx| f(c, cx), &parse_case(case), &mut cx) {
            println!("FAIL {m}");
            bad = 1;
        } else {
            println!("OK {}", cx.nontrivial as u8);
        }
    }
    bad
}
