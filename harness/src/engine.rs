//! Drives a property over choice sequences with proptest's `TestRunner`
//! (generation from a seeded ChaCha stream, shrinking through `ValueTree`),
//! on a fixed number of shards, and collects coverage.

use crate::src::Src;
use crate::supervise::CaseLog;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

pub const SHARDS: usize = 8;
/// Whether descriptions are printed as soon as they are made.
pub static LIVE: AtomicBool = AtomicBool::new(false);

/// What a property may use while it runs one case.
pub struct Cx<'a> {
    pub src: Src<'a>,
    pub thorough: bool,
    trace: bool,
    desc: String,
    labels: Vec<&'static str>,
    discarded: bool,
    /// Extra evaluations (library executions) beyond the case itself.
    pub evals: u64,
    /// For properties that run the library many times per case: further
    /// distinct non-trivial sub-cases (already distinct within the case).
    pub sub_nontrivial: u64,
}

impl<'a> Cx<'a> {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn discard(&mut self, why: &'static str) -> Res {
        self.discarded = true;
        self.label(why);
        Ok(false)
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            if LIVE.load(Ordering::Relaxed) {
                // Replaying: the case may end the process.
                println!("{s}");
            }
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
}

/// Ok(non-trivial?) or the violation.
pub type Res = Result<bool, String>;
pub type PropFn = fn(&mut Cx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    /// Cases per shard at the quick tier.
    pub quick: u32,
    /// Thorough multiplies by this.
    pub thorough: u32,
    /// Length of the choice sequences.
    pub len: usize,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic in the library into `Err(description)`. Panics in
/// the harness itself are errors of the check and are re-raised.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(payload) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                let _ = payload;
                eprintln!("ERROR: the check itself failed: {msg} at {loc}");
                std::process::exit(2);
            }
            Err(format!("the library panicked: {msg} (at {loc})"))
        }
    }
}

pub struct CaseOut {
    pub res: Res,
    pub desc: String,
    pub labels: Vec<&'static str>,
    pub discarded: bool,
    pub hash: u64,
    pub used: usize,
    pub evals: u64,
    pub sub_nontrivial: u64,
}

pub fn run_case(p: &Prop, data: &[u32], trace: bool, thorough: bool) -> CaseOut {
    let mut cx = Cx {
        src: Src::new(data),
        thorough,
        trace,
        desc: String::new(),
        labels: Vec::new(),
        discarded: false,
        evals: 0,
        sub_nontrivial: 0,
    };
    let res = match guard(|| (p.run)(&mut cx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    CaseOut {
        res,
        desc: cx.desc,
        labels: cx.labels,
        discarded: cx.discarded,
        hash: cx.src.hash,
        used: cx.src.pos,
        evals: cx.evals,
        sub_nontrivial: cx.sub_nontrivial,
    }
}

// ---- Choice sequences as a proptest strategy --------------------------------

#[derive(Debug, Clone)]
struct Choices {
    len: usize,
    /// How many choices the most recent failing case consumed.
    used: Rc<RefCell<usize>>,
}

#[derive(Debug)]
struct ChoicesTree {
    best: Vec<u32>,
    cand: Option<Vec<u32>>,
    used: Rc<RefCell<usize>>,
    pass: usize,
    size: usize,
    idx: usize,
    progress: bool,
    started: bool,
}

impl Strategy for Choices {
    type Tree = ChoicesTree;
    type Value = Vec<u32>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        let mut v: Vec<u32> = Vec::with_capacity(self.len);
        // Some sequences are short, which makes small cases common.
        let n = match rng_u32(rng) % 8 {
            0 => self.len / 8,
            1 => self.len / 4,
            2 => self.len / 2,
            _ => self.len,
        };
        for _ in 0..n {
            v.push(rng_u32(rng));
        }
        Ok(ChoicesTree {
            best: v,
            cand: None,
            used: self.used.clone(),
            pass: 0,
            size: 0,
            idx: 0,
            progress: false,
            started: false,
        })
    }
}

fn rng_u32(rng: &mut TestRng) -> u32 {
    use proptest::prelude::Rng;
    rng.next_u32()
}

impl ChoicesTree {
    /// Propose the next candidate, or return false when a whole sweep of the
    /// passes has made no progress.
    fn propose(&mut self) -> bool {
        loop {
            let n = self.best.len();
            match self.pass {
                // 0: delete blocks, 1: zero blocks, 2: halve values, 3: decrement-ish
                0 | 1 => {
                    if self.size == 0 || self.idx >= n {
                        self.size /= 2;
                        self.idx = 0;
                        if self.size == 0 {
                            self.pass += 1;
                            self.size = if self.pass == 1 { n.next_power_of_two().min(64) } else { 0 };
                            self.idx = 0;
                            continue;
                        }
                        continue;
                    }
                    let end = (self.idx + self.size).min(n);
                    let mut c = self.best.clone();
                    if self.pass == 0 {
                        c.drain(self.idx..end);
                    } else {
                        if c[self.idx..end].iter().all(|v| *v == 0) {
                            self.idx = end;
                            continue;
                        }
                        for v in &mut c[self.idx..end] {
                            *v = 0;
                        }
                        self.idx = end;
                    }
                    if self.pass == 0 {
                        // On success `best` shrinks and the same idx is next;
                        // on failure `complicate` moves idx on.
                    }
                    self.cand = Some(c);
                    return true;
                }
                2 | 3 => {
                    if self.idx >= n {
                        self.pass += 1;
                        self.idx = 0;
                        self.size = 0;
                        continue;
                    }
                    let v = self.best[self.idx];
                    let nv = if self.pass == 2 { v / 2 } else { v - v / 8 };
                    if nv == v {
                        self.idx += 1;
                        continue;
                    }
                    let mut c = self.best.clone();
                    c[self.idx] = nv;
                    self.cand = Some(c);
                    return true;
                }
                _ => {
                    if !self.progress {
                        return false;
                    }
                    self.progress = false;
                    self.pass = 0;
                    self.size = n.next_power_of_two();
                    self.idx = 0;
                }
            }
        }
    }
}

impl ValueTree for ChoicesTree {
    type Value = Vec<u32>;
    fn current(&self) -> Vec<u32> {
        self.cand.as_ref().unwrap_or(&self.best).clone()
    }
    fn simplify(&mut self) -> bool {
        // The current value failed.
        if let Some(c) = self.cand.take() {
            self.best = c;
            self.progress = true;
        }
        let used = *self.used.borrow();
        self.best.truncate(used);
        if !self.started {
            self.started = true;
            self.size = self.best.len().next_power_of_two();
        }
        self.propose()
    }
    fn complicate(&mut self) -> bool {
        // The current value passed.
        if self.cand.take().is_none() {
            return false;
        }
        match self.pass {
            0 => self.idx += self.size,
            1 => (),
            _ => self.idx += 1,
        }
        self.propose()
    }
}

// ---- Shards ------------------------------------------------------------------

#[derive(Default)]
pub struct Coverage {
    pub cases: u64,
    pub discarded: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub sub_nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

pub struct Failure {
    pub msg: String,
    pub data: Vec<u32>,
}

pub struct RunOut {
    pub cov: Coverage,
    pub failure: Option<Failure>,
}

pub fn run_prop(p: &'static Prop, seed: u64, thorough: bool, scale: f64) -> RunOut {
    let stop = Arc::new(AtomicBool::new(false));
    let progress: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(0)).collect());
    {
        // Watchdog: the supervising process decides what a stuck case means.
        let progress = progress.clone();
        std::thread::spawn(move || {
            let mut last = vec![(u64::MAX, Instant::now()); SHARDS];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(5));
                for (i, l) in last.iter_mut().enumerate() {
                    let v = progress[i].load(Ordering::Relaxed);
                    if v == u64::MAX - 1 {
                        continue; // shard done
                    }
                    if v != l.0 {
                        *l = (v, Instant::now());
                    } else if l.1.elapsed().as_secs() > 100 {
                        eprintln!("shard {i} made no progress for 100 s (case {v})");
                        std::process::exit(crate::supervise::STUCK);
                    }
                }
            }
        });
    }
    let mut handles = Vec::new();
    for shard in 0..SHARDS {
        let stop = stop.clone();
        let progress = progress.clone();
        let h = std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || run_shard(p, seed, shard, thorough, scale, &stop, &progress[shard]))
            .unwrap();
        handles.push(h);
    }
    let mut cov = Coverage::default();
    let mut failure: Option<(usize, Failure)> = None;
    for (shard, h) in handles.into_iter().enumerate() {
        match h.join() {
            Err(_) => {
                eprintln!("ERROR: a shard of the check died");
                std::process::exit(2);
            }
            Ok((c, f)) => {
                cov.cases += c.cases;
                cov.discarded += c.discarded;
                cov.evals += c.evals;
                cov.nontrivial += c.nontrivial;
                cov.sub_nontrivial += c.sub_nontrivial;
                cov.distinct.extend(c.distinct);
                for (k, v) in c.labels {
                    *cov.labels.entry(k).or_default() += v;
                }
                cov.samples.extend(c.samples);
                if let Some(f) = f {
                    let better = match &failure {
                        None => true,
                        Some((_, g)) => f.data.len() < g.data.len(),
                    };
                    if better {
                        failure = Some((shard, f));
                    }
                }
            }
        }
    }
    RunOut { cov, failure: failure.map(|f| f.1) }
}

fn run_shard(
    p: &'static Prop,
    seed: u64,
    shard: usize,
    thorough: bool,
    scale: f64,
    stop: &AtomicBool,
    progress: &AtomicU64,
) -> (Coverage, Option<Failure>) {
    let mut seed_bytes = [0u8; 32];
    seed_bytes[..8].copy_from_slice(&seed.to_le_bytes());
    seed_bytes[8] = shard as u8 + 1;
    for (i, b) in p.id.bytes().enumerate() {
        seed_bytes[16 + i] = b;
    }
    let base = if thorough { p.quick.saturating_mul(p.thorough) } else { p.quick };
    let cases = ((base as f64 * scale) as u32).max(1);
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 40_000,
        max_local_rejects: u32::MAX,
        max_global_rejects: u32::MAX,
        ..Config::default()
    };
    let mut runner =
        TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes));
    let used = Rc::new(RefCell::new(usize::MAX));
    let strategy = Choices { len: p.len, used: used.clone() };
    let cov = RefCell::new(Coverage::default());
    let last_fail: RefCell<Option<Failure>> = RefCell::new(None);
    let log = CaseLog::open(shard);
    let start = Instant::now();
    let budget = std::time::Duration::from_secs(if thorough { 3600 } else { 600 });
    let result = runner.run(&strategy, |data| {
        progress.fetch_add(1, Ordering::Relaxed);
        let failing = last_fail.borrow().is_some();
        if !failing && (stop.load(Ordering::Relaxed) || start.elapsed() > budget) {
            return Ok(()); // another shard found a violation, or the machine is very slow
        }
        log.note(&data);
        let out = run_case(p, &data, false, thorough);
        if !failing {
            let mut c = cov.borrow_mut();
            c.cases += 1;
            c.evals += 1 + out.evals;
            if out.discarded {
                c.discarded += 1;
            }
            for l in &out.labels {
                *c.labels.entry(l).or_default() += 1;
            }
            if let Ok(true) = out.res {
                c.nontrivial += 1;
                if c.distinct.insert(out.hash) {
                    c.sub_nontrivial += out.sub_nontrivial;
                    let n = c.distinct.len();
                    if n == 1 + shard * 3 || n == 500 + shard * 17 {
                        let t = run_case(p, &data, true, thorough);
                        let mut d = t.desc;
                        if d.len() > 1600 {
                            let mut k = 1600;
                            while !d.is_char_boundary(k) {
                                k -= 1;
                            }
                            d.truncate(k);
                            d.push_str("...");
                        }
                        c.samples.push(d);
                    }
                }
            }
        }
        match out.res {
            Ok(_) => Ok(()),
            Err(msg) => {
                stop.store(true, Ordering::Relaxed);
                *used.borrow_mut() = out.used;
                let mut d = data.clone();
                d.truncate(out.used);
                *last_fail.borrow_mut() = Some(Failure { msg: msg.clone(), data: d });
                Err(TestCaseError::fail(msg))
            }
        }
    });
    progress.store(u64::MAX - 1, Ordering::Relaxed);
    log.done();
    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(_, _)) => last_fail.into_inner(),
        Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
    };
    (cov.into_inner(), failure)
}
