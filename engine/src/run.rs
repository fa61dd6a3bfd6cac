//! Generation, execution, shrinking and reporting of cases.
//!
//! A case is a list of operations, each a short list of 64-bit words. proptest generates and
//! shrinks that value; the suites decode it (missing words read as 0, every word decodes to
//! something valid), so shrinking drops operations and moves words to 0.
use crate::{ledger, track};
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub type Case = Vec<Vec<u64>>;
pub type Verdict = Result<(), String>;

/// The words of one operation, read front to back
#[derive(Clone)]
pub struct Src<'a> {
    words: &'a [u64],
    at: usize,
}

impl<'a> Src<'a> {
    pub fn new(words: &'a [u64]) -> Self {
        Self { words, at: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let w = self.words.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        w
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// A payload made from the next word
    pub fn pay(&mut self) -> Pay {
        Pay::new(self.next())
    }
}

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The contents of a payload, derived from one word: an endless stream whose elements differ
/// from each other, so that mixed-up fields show. Seed 0 gives 1, 2, 3, ..
#[derive(Clone)]
pub struct Pay {
    pub seed: u64,
    pub at: u64,
    /// How deep in a recursive value we are
    pub depth: u32,
}

impl Pay {
    pub fn new(seed: u64) -> Self {
        Self { seed, at: 0, depth: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.at += 1;
        if self.seed < 8 {
            return self.seed * 100 + self.at;
        }
        let m = mix(self.seed.wrapping_add(self.at.wrapping_mul(0x0101_0101_0101)));
        match m % 11 {
            0 => u64::MAX,
            1 => 1 << (m >> 32 & 63),
            2 => u64::MAX >> (m >> 32 & 63),
            3 => 0,
            4 | 5 => m >> 40 & 0xff,
            _ => mix(m),
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// What a case tells the engine about itself
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub known: BTreeMap<String, String>,
    /// Blocks left behind by the code under test, released after the case
    pub left: Vec<(usize, u64)>,
    pub known_keys: HashSet<String>,
}

impl Cx {
    pub fn label(&mut self, l: &str) {
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn step(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    /// Remember a heap block that may be left behind
    pub fn leaves(&mut self, p: usize) {
        if let Some(s) = ledger::serial(p) {
            self.left.push((p, s));
        }
    }
    /// A violation which may be listed as known: quiet if so
    pub fn known(&mut self, key: &str, what: impl FnOnce() -> String) -> Verdict {
        let what = what();
        if self.known_keys.contains(key) {
            self.label(&format!("known:{key}"));
            self.known.entry(key.to_string()).or_insert(what);
            Ok(())
        } else {
            Err(format!("[{key}] {what}"))
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => {
        if !$c {
            return Err(format!($($t)+));
        }
    };
}

/// Run `f`, telling a panic from a result
pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    ledger::unmeasure();
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if e.is::<track::Injected>() {
            "injected".to_string()
        } else {
            "panic".to_string()
        }
    })
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub failures: Vec<Failure>,
}

pub struct Failure {
    pub suite: String,
    pub entry: String,
    pub message: String,
    pub case: Case,
    pub trace: Vec<String>,
}

pub struct Opts {
    pub seed: u64,
    pub shard: u64,
    pub cases: u32,
    pub fork: bool,
    pub max_ops: usize,
    pub max_words: usize,
    pub known_keys: HashSet<String>,
    pub samples: usize,
    pub crash_file: Option<String>,
}

/// One case from a clean slate: suite verdict plus the memory and ownership oracles
pub fn run_one(
    f: &mut dyn FnMut(&Case, &mut Cx) -> Verdict,
    case: &Case,
    cx: &mut Cx,
) -> Verdict {
    track::reset();
    ledger::sweep();
    let _ = ledger::take_fault();
    let v = match quietly(|| f(case, cx)) {
        Ok(v) => v,
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    track::disarm_fuse();
    for (p, s) in cx.left.drain(..) {
        ledger::reclaim(p, s);
    }
    v?;
    if let Some(m) = track::take_fault() {
        return Err(m);
    }
    ledger::sweep();
    if let Some(m) = ledger::take_fault() {
        return Err(m);
    }
    Ok(())
}

#[cfg(not(miri))]
mod forked {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn pipe(fds: *mut i32) -> i32;
        fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
        fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
        fn close(fd: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn alarm(s: u32) -> u32;
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }

    pub enum End {
        Exit(i32, String),
        Signal(i32, String),
    }

    /// Run `f` in a child process; it returns an exit code and a text
    pub fn forked(f: impl FnOnce() -> (i32, String)) -> End {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                close(fds[0]);
                alarm(60);
                setrlimit(4, &[0, 0]); // no core files
                let (code, text) = f();
                write(fds[1], text.as_ptr().cast(), text.len().min(60_000));
                _exit(code);
            }
            close(fds[1]);
            let mut out = Vec::new();
            let mut buf = [0u8; 4096];
            loop {
                let n = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            close(fds[0]);
            let mut st = 0i32;
            waitpid(pid, &mut st, 0);
            let text = String::from_utf8_lossy(&out).into_owned();
            if st & 0x7f == 0 {
                End::Exit((st >> 8) & 0xff, text)
            } else {
                End::Signal(st & 0x7f, text)
            }
        }
    }
}
#[cfg(not(miri))]
pub use forked::{forked, End};

#[cfg(miri)]
pub enum End {
    Exit(i32, String),
    Signal(i32, String),
}
#[cfg(miri)]
pub fn forked(f: impl FnOnce() -> (i32, String)) -> End {
    let (c, t) = f();
    End::Exit(c, t)
}

/// As `run_one`, in a child process, so that a crash is a verdict like any other
pub fn run_forked(
    f: &mut dyn FnMut(&Case, &mut Cx) -> Verdict,
    case: &Case,
    cx: &mut Cx,
) -> Verdict {
    match forked(|| match run_one(f, case, cx) {
        Ok(()) => (0, String::new()),
        Err(m) => (1, m),
    }) {
        End::Exit(0, _) => Ok(()),
        End::Exit(_, m) => Err(m),
        // The watchdog, or no memory left: inconclusive, never a violation
        End::Signal(14 | 9, _) => Ok(()),
        End::Signal(s, _) => Err(format!("the process was ended by signal {s} ({})", signal(s))),
    }
}

pub fn signal(s: i32) -> &'static str {
    match s {
        4 => "illegal instruction",
        6 => "abort",
        7 => "bus error",
        8 => "arithmetic exception",
        11 => "segmentation fault",
        _ => "crash",
    }
}

pub fn case_text(c: &Case) -> String {
    let mut s = String::from("[");
    for (i, o) in c.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{:?}", o);
    }
    s.push(']');
    s.replace(' ', "")
}

pub fn parse_case(s: &str) -> Case {
    let mut out: Case = Vec::new();
    let mut depth = 0;
    let mut num: Option<u64> = None;
    for ch in s.chars() {
        match ch {
            '[' => {
                depth += 1;
                if depth == 2 {
                    out.push(Vec::new());
                }
            }
            ']' | ',' => {
                if let Some(n) = num.take() {
                    out.last_mut().unwrap().push(n);
                }
                if ch == ']' {
                    depth -= 1;
                }
            }
            d if d.is_ascii_digit() => {
                num = Some(num.unwrap_or(0).wrapping_mul(10).wrapping_add(d as u64 - 48));
            }
            _ => {}
        }
    }
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn json(&self) -> String {
        let mut s = String::new();
        let list = |v: &[String]| v.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
        let _ = write!(
            s,
            "{{\"evaluations\":{},\"distinct\":{},\"labels\":{{{}}},\"known\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}",
            self.evaluations,
            self.distinct.len(),
            self.labels
                .iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(","),
            self.known
                .iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), json_str(v)))
                .collect::<Vec<_>>()
                .join(","),
            list(&self.samples),
            self.failures
                .iter()
                .map(|f| format!(
                    "{{\"suite\":{},\"entry\":{},\"message\":{},\"case\":{},\"trace\":[{}]}}",
                    json_str(&f.suite),
                    json_str(&f.entry),
                    json_str(&f.message),
                    case_text(&f.case),
                    list(&f.trace)
                ))
                .collect::<Vec<_>>()
                .join(",")
        );
        s
    }
}
