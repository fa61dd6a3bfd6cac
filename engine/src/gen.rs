//! Generation and shrinking, by proptest.
use crate::run::*;
use proptest::{
    prelude::*,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use std::cell::RefCell;

pub fn word() -> impl Strategy<Value = u64> {
    prop_oneof![
        6 => 0u64..64,
        2 => any::<u64>(),
        1 => 0u64..0x1_0000,
        1 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => (0u32..64).prop_map(|k| (1u64 << k).wrapping_sub(1)),
        1 => (0u64..8).prop_map(|k| u64::MAX - k),
    ]
}

pub fn cases(max_ops: usize, max_words: usize) -> impl Strategy<Value = Case> {
    prop::collection::vec(prop::collection::vec(word(), 1..=max_words), 1..=max_ops)
}

pub fn rng(seed: u64, what: &str, shard: u64) -> TestRng {
    // FNV over the name: each suite, entry and shard has its own stream
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in what.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&h.to_le_bytes());
    s[16..24].copy_from_slice(&shard.to_le_bytes());
    s[24..].copy_from_slice(b"taggdbox");
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn hash_case(what: &str, c: &Case) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    what.hash(&mut h);
    c.hash(&mut h);
    h.finish()
}

fn note_case(path: &Option<String>, what: &str, c: &Case) {
    // For the post mortem of a crash: what was running
    if let Some(p) = path {
        use std::os::unix::fs::FileExt;
        thread_local!(static F: RefCell<Option<std::fs::File>> = const { RefCell::new(None) });
        F.with(|f| {
            let mut f = f.borrow_mut();
            let f = f.get_or_insert_with(|| std::fs::File::create(p).unwrap());
            let s = format!("{:08}{}\n{}\n", what.len() + case_text(c).len() + 2, what, case_text(c));
            let _ = f.write_at(s.as_bytes(), 0);
        });
    }
}

/// Generate and run the cases of one suite over one entry; shrink the first failure
pub fn explore(
    suite: &str,
    entry: &str,
    o: &Opts,
    rep: &mut Report,
    f: &mut dyn FnMut(&Case, &mut Cx) -> Verdict,
) {
    let what = format!("{suite}/{entry}");
    let config = Config {
        cases: o.cases,
        failure_persistence: None,
        max_shrink_iters: if o.fork { 3000 } else { 30_000 },
        max_shrink_time: 0,
        max_global_rejects: 1,
        source_file: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng(o.seed, &what, o.shard));
    let acc = RefCell::new((std::mem::take(rep), f, false));
    let result = runner.run(&cases(o.max_ops, o.max_words), |case| {
        let mut acc = acc.borrow_mut();
        let (rep, f, failed) = &mut *acc;
        let mut cx = Cx {
            known_keys: o.known_keys.clone(),
            tracing: !*failed && rep.samples.len() < o.samples && rep.evaluations % 61 == 7,
            ..Cx::default()
        };
        note_case(&o.crash_file, &what, &case);
        let v = if o.fork {
            run_forked(*f, &case, &mut cx)
        } else {
            run_one(*f, &case, &mut cx)
        };
        if !*failed {
            rep.evaluations += 1;
            if cx.nontrivial {
                rep.distinct.insert(hash_case(&what, &case));
                if cx.tracing {
                    rep.samples.push(format!("{what}: {}", cx.trace.join("; ")));
                }
            }
            for (k, n) in cx.labels {
                *rep.labels.entry(k).or_insert(0) += n;
            }
            for (k, n) in cx.known {
                rep.known.entry(k).or_insert(n);
            }
        }
        v.map_err(|m| {
            *failed = true;
            TestCaseError::fail(m)
        })
    });
    let (r, f, _) = acc.into_inner();
    *rep = r;
    match result {
        Ok(()) => {}
        Err(TestError::Fail(why, case)) => {
            let mut cx = Cx {
                tracing: true,
                known_keys: o.known_keys.clone(),
                ..Cx::default()
            };
            let mut message = why.message().to_string();
            let trace = if o.fork {
                let _ = match forked(|| {
                    let _ = run_one(f, &case, &mut cx);
                    (0, cx.trace.join("\n"))
                }) {
                    End::Exit(_, t) | End::Signal(_, t) => cx.trace.extend(t.lines().map(String::from)),
                };
                std::mem::take(&mut cx.trace)
            } else {
                match run_one(f, &case, &mut cx) {
                    Err(m) => message = m,
                    Ok(()) => message = format!("{message} (only with the state left by earlier cases of this run)"),
                }
                std::mem::take(&mut cx.trace)
            };
            rep.failures.push(Failure {
                suite: suite.into(),
                entry: entry.into(),
                message,
                case,
                trace,
            });
        }
        Err(TestError::Abort(r)) => {
            eprintln!("engine: aborted: {r}");
            std::process::exit(3);
        }
    }
}


/// Cases as `explore` would make them
pub fn sample(suite: &str, entry: &str, o: &Opts, n: usize) -> Vec<Case> {
    use proptest::strategy::ValueTree;
    let mut runner = TestRunner::new_with_rng(Config::default(), rng(o.seed, &format!("{suite}/{entry}"), o.shard));
    let s = cases(o.max_ops, o.max_words);
    (0..n).map(|_| s.new_tree(&mut runner).unwrap().current()).collect()
}
