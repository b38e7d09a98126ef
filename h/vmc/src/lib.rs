//! vmc: a small stateless model checker.
//!
//! A *space* is a closure `body(&mut Case)` that builds one execution by calling
//! `case.choose(n)`. The explorer enumerates **every** sequence of choices exactly once
//! (depth first, with work stealing between threads): no sampling is involved anywhere.
//! Every node of the choice tree is a state, every edge a transition.
//!
//! The process re-executes itself so that an abort, a stack overflow or a hang of the code under
//! test is attributed to the choice sequence that was being executed.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet, VecDeque},
    fmt::Write as _,
    hash::{BuildHasher, Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
    sync::{
        Condvar, Mutex, OnceLock,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

pub mod json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One execution.
pub struct Case<'a> {
    choices: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    frozen: usize,
    trace: Vec<String>,
    failures: Vec<Failure>,
    outcomes: Vec<u64>,
    trivial: bool,
    steps: u64,
    validated: u64,
    skipped: bool,
    verbose: bool,
    tier: Tier,
    _m: std::marker::PhantomData<&'a ()>,
}

#[derive(Clone)]
pub struct Failure {
    pub key: String,
    pub message: String,
}


impl Case<'_> {
    /// Non-deterministically chooses in `0..n`. The explorer visits every alternative.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "vmc: empty choice");
        let n = n as u32;
        if self.pos < self.choices.len() {
            let c = self.choices[self.pos];
            if self.pos < self.arity.len() {
                assert_eq!(
                    self.arity[self.pos], n,
                    "vmc: nondeterministic harness (diverged while replaying a prefix)"
                );
            } else {
                assert!(c < n, "vmc: replayed choice out of range");
                self.arity.push(n);
            }
            self.pos += 1;
            c as usize
        } else {
            self.choices.push(0);
            self.arity.push(n);
            self.pos += 1;
            0
        }
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        let i = self.choose(items.len());
        &items[i]
    }

    /// Any subset of `items`, in order.
    pub fn subset<T: Clone>(&mut self, items: &[T]) -> Vec<T> {
        let mut out = Vec::new();
        for it in items {
            if self.flag() {
                out.push(it.clone());
            }
        }
        out
    }

    /// Abandons this execution: not part of the explored space.
    pub fn skip(&mut self) -> ! {
        self.skipped = true;
        std::panic::panic_any(SkipToken)
    }

    pub fn tier(&self) -> Tier {
        self.tier
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Human readable description of the execution; only rendered for samples & violations.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }

    /// The property is violated. `key` identifies the specific failing input / call site / history.
    pub fn fail(&mut self, key: impl Into<String>, message: impl Into<String>) {
        self.failures.push(Failure {
            key: key.into(),
            message: message.into(),
        });
    }

    pub fn check(&mut self, ok: bool, key: &str, message: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, message());
        }
        ok
    }

    pub fn check_eq<T: PartialEq + std::fmt::Debug>(&mut self, key: &str, expected: &T, got: &T, ctx: &str) -> bool {
        if expected != got {
            self.fail(
                key,
                format!("{ctx}\n   expected: {expected:?}\n   got:      {got:?}"),
            );
            return false;
        }
        true
    }

    /// Records an observed outcome of the implementation (for the distinct outcome count).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.push(hash(t));
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// Counts `n` steps of the reference model compared to the implementation.
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    pub fn validated(&mut self, n: u64) {
        self.validated += n;
    }
    pub fn failed(&self) -> bool {
        !self.failures.is_empty()
    }
}

struct SkipToken;

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    // deterministic
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

#[derive(Clone, Default)]
struct IdHash;
struct IdHasher(u64);
impl BuildHasher for IdHash {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Lines of a readable length; all of it is in the replay.
fn clipped(text: &str) -> String {
    let clip = |line: &str| match line.char_indices().nth(2000) {
        Some((at, _)) => format!("{}[...]", &line[..at]),
        None => line.to_string(),
    };
    text.lines().map(clip).collect::<Vec<_>>().join("\n")
}

/// Runs `f`, turning a panic into an Err with its message & location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = IN_CASE.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.set(before);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<SkipToken>() {
                std::panic::resume_unwind(p);
            }
            Err(LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
        }
    }
}

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let payload = info.payload();
        if payload.is::<SkipToken>() {
            return;
        }
        if !IN_CASE.get() {
            default(info);
            return;
        }
        let msg = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non string panic>".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

type Body<'s> = Box<dyn Fn(&mut Case) + Sync + 's>;

#[derive(Default, Clone)]
pub struct SpaceStats {
    name: String,
    executions: u64,
    skipped: u64,
    nontrivial: u64,
    nodes: u64,
    edges: u64,
    steps: u64,
    validated: u64,
    outcomes: u64,
    capped: bool,
    wall: f64,
}

pub struct Violation {
    space: String,
    choices: Vec<u32>,
    failure: Failure,
    trace: Vec<String>,
}

pub struct Check {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    known: Vec<(String, String)>, // (key, text)
    known_seen: Mutex<BTreeMap<String, u64>>,
    stats: Mutex<Vec<SpaceStats>>,
    violations: Mutex<Vec<Violation>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<(String, String)>>,
    assumptions: Mutex<Vec<String>>,
    replay: Option<(String, Vec<u32>)>,
    start: Instant,
    deadline: Instant,
    slots_file: Option<PathBuf>,
    threads: usize,
    pub level: &'static str,
}

const MAX_VIOLATIONS: usize = 8;

struct Shared {
    queue: Mutex<(VecDeque<Vec<(u32, u32)>>, usize)>, // tasks (choice, arity), busy workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    done: AtomicU64,
}

#[derive(Default)]
struct Local {
    st: SpaceStats,
    outcomes: HashSet<u64, IdHash>,
}

impl Check {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Adds free text to the evidence.
    pub fn info(&self, key: &str, value: impl Into<String>) {
        self.notes.lock().unwrap().push((key.to_string(), value.into()));
    }
    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.to_string());
    }

    fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    /// Explores every execution of `body` (in parallel: `body` must not touch process wide state).
    pub fn space(&self, name: &str, body: impl Fn(&mut Case) + Sync) {
        self.run_space(name, self.threads, Box::new(body))
    }

    /// Same, on a single thread.
    pub fn space_seq(&self, name: &str, body: impl Fn(&mut Case) + Sync) {
        self.run_space(name, 1, Box::new(body))
    }

    fn run_space(&self, name: &str, threads: usize, body: Body<'_>) {
        if let Some((space, choices)) = &self.replay {
            if space != name {
                return;
            }
            let (case, _) = self.execute(&body, choices.iter().map(|c| (*c, 0)).collect(), 0, true, true);
            for t in &case.trace {
                println!("{t}");
            }
            for f in &case.failures {
                println!("FAIL key={}\n   {}", f.key, f.message);
                self.violations.lock().unwrap().push(Violation {
                    space: name.into(),
                    choices: case.choices.clone(),
                    failure: f.clone(),
                    trace: case.trace.clone(),
                });
            }
            return;
        }
        if self.violations.lock().unwrap().len() >= MAX_VIOLATIONS {
            return;
        }
        // determinism: the first execution twice must make the same observations.
        {
            let (a, _) = self.execute(&body, vec![], 0, true, false);
            let (b, _) = self.execute(&body, vec![], 0, true, false);
            if a.arity != b.arity || (a.outcomes != b.outcomes && a.failures.is_empty()) {
                // The unchanged tree is deterministic: so is the harness.
                self.violations.lock().unwrap().push(Violation {
                    space: name.into(),
                    choices: a.choices.clone(),
                    failure: Failure {
                        key: "nondeterministic".into(),
                        message: "the same execution, run twice, made different observations".into(),
                    },
                    trace: a.trace.clone(),
                });
            }
            let mut s = self.samples.lock().unwrap();
            if s.len() < 6 && !a.trace.is_empty() {
                s.push(format!("[{name}] {}", a.trace.join(" ; ")));
            }
        }
        let t0 = Instant::now();
        let sh = Shared {
            queue: Mutex::new((VecDeque::from([vec![]]), 0)),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            done: AtomicU64::new(0),
        };
        let locals = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for t in 0..threads {
                let (sh, body, locals) = (&sh, &body, &locals);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let l = self.worker(name, t, sh, body, threads);
                        locals.lock().unwrap().push(l);
                    })
                    .unwrap();
            }
        });
        let mut st = SpaceStats {
            name: name.into(),
            ..Default::default()
        };
        let mut outcomes: HashSet<u64, IdHash> = HashSet::default();
        for l in locals.into_inner().unwrap() {
            st.executions += l.st.executions;
            st.skipped += l.st.skipped;
            st.nontrivial += l.st.nontrivial;
            st.nodes += l.st.nodes;
            st.edges += l.st.edges;
            st.steps += l.st.steps;
            st.validated += l.st.validated;
            outcomes.extend(l.outcomes);
        }
        st.outcomes = outcomes.len() as u64;
        st.capped = sh.capped.load(Ordering::Relaxed);
        st.wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "  space {name}: executions={} nontrivial={} states={} transitions={} steps={} distinct_outcomes={} skipped={} {}{:.1}s",
            st.executions,
            st.nontrivial,
            st.nodes,
            st.edges,
            st.steps,
            st.outcomes,
            st.skipped,
            if st.capped { "CAPPED " } else { "" },
            st.wall
        );
        self.stats.lock().unwrap().push(st);
    }

    fn execute(
        &self,
        body: &Body<'_>,
        prefix: Vec<(u32, u32)>,
        frozen: usize,
        verbose: bool,
        replay: bool,
    ) -> (Case<'static>, bool) {
        let mut case = Case {
            choices: prefix.iter().map(|p| p.0).collect(),
            arity: if replay {
                Vec::new()
            } else {
                prefix.iter().map(|p| p.1).collect()
            },
            pos: 0,
            frozen,
            trace: Vec::new(),
            failures: Vec::new(),
            outcomes: Vec::new(),
            trivial: false,
            steps: 0,
            validated: 0,
            skipped: false,
            verbose,
            tier: self.tier,
            _m: std::marker::PhantomData,
        };
        IN_CASE.set(true);
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut case)));
        IN_CASE.set(false);
        let mut skipped = false;
        if let Err(p) = r {
            if p.is::<SkipToken>() {
                skipped = true;
            } else {
                let msg = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or_else(|| "panic".into());
                // The unchanged tree is deterministic: if the choices of an execution depend on anything else
                // than the choices before, it is the code under test.
                let key = if msg.contains("vmc: ") { "nondeterministic".into() } else { panic_key(&msg) };
                case.failures.push(Failure { key, message: msg });
            }
        }
        // an execution may be shorter than its prefix only if harness is nondeterministic
        if case.pos < case.choices.len() && !replay {
            if case.failures.is_empty() && !skipped {
                case.failures.push(Failure {
                    key: "nondeterministic".into(),
                    message: "the execution is shorter than the prefix it shares with one before".into(),
                });
            }
            case.choices.truncate(case.pos);
            case.arity.truncate(case.pos);
        }
        (case, skipped)
    }

    fn worker(&self, name: &str, t: usize, sh: &Shared, body: &Body<'_>, threads: usize) -> Local {
        let mut local = Local::default();
        loop {
            let task = {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        sh.cv.notify_all();
                        return local;
                    }
                    if let Some(t) = q.0.pop_front() {
                        q.1 += 1;
                        break t;
                    }
                    if q.1 == 0 {
                        sh.cv.notify_all();
                        return local;
                    }
                    sh.idle.fetch_add(1, Ordering::Relaxed);
                    q = sh.cv.wait(q).unwrap();
                    sh.idle.fetch_sub(1, Ordering::Relaxed);
                }
            };
            self.subtree(name, t, sh, body, task, &mut local, threads);
            let mut q = sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() {
                sh.cv.notify_all();
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn subtree(
        &self,
        name: &str,
        t: usize,
        sh: &Shared,
        body: &Body<'_>,
        task: Vec<(u32, u32)>,
        local: &mut Local,
        threads: usize,
    ) {
        let mut frozen = task.len();
        let mut prefix = task;
        let mut new_from = prefix.len().saturating_sub(1);
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                return;
            }
            slot_begin(t, name, &prefix);
            let (case, skipped) = self.execute(body, prefix, frozen, false, false);
            slot_end(t);
            let n = sh.done.fetch_add(1, Ordering::Relaxed);
            if n % 256 == 0 && Instant::now() > self.deadline {
                sh.capped.store(true, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
                sh.cv.notify_all();
            }
            let depth = case.choices.len();
            local.st.nodes += (depth - new_from.min(depth)) as u64;
            local.st.edges += (depth - new_from.min(depth)) as u64;
            if skipped {
                local.st.skipped += 1;
            } else {
                local.st.executions += 1;
                local.st.steps += case.steps;
                local.st.validated += case.validated.max(1);
                if !case.trivial {
                    local.st.nontrivial += 1;
                }
                if local.outcomes.len() < 4_000_000 {
                    local.outcomes.extend(case.outcomes.iter());
                }
            }
            if !case.failures.is_empty() {
                self.report(name, body, &case, sh);
            }
            let mut choices = case.choices;
            let arity = case.arity;
            debug_assert_eq!(case.frozen, frozen);
            // donate work
            if threads > 1 && sh.idle.load(Ordering::Relaxed) > 0 {
                if let Some(p) = (frozen..choices.len()).find(|p| choices[*p] + 1 < arity[*p]) {
                    let mut q = sh.queue.lock().unwrap();
                    for alt in choices[p] + 1..arity[p] {
                        let mut task: Vec<(u32, u32)> =
                            choices[..p].iter().copied().zip(arity[..p].iter().copied()).collect();
                        task.push((alt, arity[p]));
                        q.0.push_back(task);
                    }
                    drop(q);
                    sh.cv.notify_all();
                    frozen = p + 1;
                }
            }
            // next leaf
            loop {
                if choices.len() <= frozen {
                    return;
                }
                let last = choices.len() - 1;
                if choices[last] + 1 < arity[last] {
                    choices[last] += 1;
                    break;
                }
                choices.pop();
            }
            new_from = choices.len() - 1;
            prefix = choices.iter().copied().zip(arity.iter().copied()).collect();
        }
    }

    fn report(&self, name: &str, body: &Body<'_>, case: &Case, sh: &Shared) {
        let mut fresh = false;
        for f in &case.failures {
            if self.is_known(&f.key) {
                *self.known_seen.lock().unwrap().entry(f.key.clone()).or_default() += 1;
            } else {
                fresh = true;
            }
        }
        if !fresh {
            return;
        }
        // Replay the recorded choices: the failure must reproduce, unless the code under test is nondeterministic.
        let mut again = None;
        for _ in 0..10 {
            let choices = case.choices.iter().map(|c| (*c, 0)).collect();
            let (a, _) = self.execute(body, choices, 0, true, true);
            let reproduced = a.failures.iter().any(|f| !self.is_known(&f.key));
            let a = again.insert(a);
            if reproduced {
                break;
            }
            a.failures.clear();
        }
        let mut again = again.expect("an execution");
        if again.failures.is_empty() {
            for f in &case.failures {
                again.failures.push(Failure {
                    key: f.key.clone(),
                    message: format!("{}\n(not the same when it is run again: the outcome depends on more than the input)", f.message),
                });
            }
            again.choices = case.choices.clone();
        }
        let mut vs = self.violations.lock().unwrap();
        for f in &again.failures {
            if self.is_known(&f.key) || vs.len() >= MAX_VIOLATIONS {
                continue;
            }
            if vs.iter().any(|v| v.failure.key == f.key && v.space == name) {
                continue;
            }
            vs.push(Violation {
                space: name.into(),
                choices: again.choices.clone(),
                failure: f.clone(),
                trace: again.trace.clone(),
            });
        }
        if vs.len() >= MAX_VIOLATIONS || (std::env::var_os("VMC_FIRST").is_some()) {
            sh.stop.store(true, Ordering::Relaxed);
            sh.cv.notify_all();
        }
    }

    fn finish(self) -> i32 {
        let vs = self.violations.into_inner().unwrap();
        if self.replay.is_some() {
            return if vs.is_empty() {
                println!("replay: property held");
                0
            } else {
                println!("VIOLATION property={} replay=(replayed)", self.property);
                1
            };
        }
        let known_seen = self.known_seen.into_inner().unwrap();
        for (k, text) in &self.known {
            if known_seen.contains_key(k) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.property, text, k);
            }
        }
        let stats = self.stats.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        write_evidence(
            &self.property,
            self.tier,
            self.seed,
            self.level,
            &stats,
            &self.samples.into_inner().unwrap(),
            &self.notes.into_inner().unwrap(),
            &self.assumptions.into_inner().unwrap(),
            vs.len(),
            &known_seen,
            wall,
        );
        for (i, v) in vs.iter().enumerate() {
            let path = write_replay(&self.property, i, v);
            println!("VIOLATION property={} replay={}", self.property, path.display());
            println!("   space={} key={}", v.space, v.failure.key);
            for t in v.trace.iter().take(40) {
                println!("   | {}", clipped(t).replace('\n', "\n   | "));
            }
            println!("   => {}", clipped(&v.failure.message).replace('\n', "\n      "));
        }
        if vs.is_empty() { 0 } else { 1 }
    }
}

fn panic_key(msg: &str) -> String {
    // file:line without line, so that the key is stable
    let m = msg.strip_prefix("panicked at ").unwrap_or(msg);
    let file = m.split(':').next().unwrap_or("");
    let file = file.rsplit("/crates/").next().unwrap_or(file);
    format!("panic@{file}")
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VMC_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay(property: &str, i: usize, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{i}.replay"));
    let mut s = String::new();
    let _ = writeln!(s, "property {property}");
    let _ = writeln!(s, "space {}", v.space);
    let _ = writeln!(
        s,
        "choices {}",
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    );
    let _ = writeln!(s, "# replay with: ./check.sh {property} --replay {}", path.display());
    let _ = writeln!(s, "# key: {}", v.failure.key);
    for l in v.trace.iter().flat_map(|t| t.lines()) {
        let _ = writeln!(s, "# | {l}");
    }
    for l in v.failure.message.lines() {
        let _ = writeln!(s, "# => {l}");
    }
    let _ = std::fs::write(&path, s);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    property: &str,
    tier: Tier,
    seed: u64,
    level: &str,
    stats: &[SpaceStats],
    samples: &[String],
    notes: &[(String, String)],
    assumptions: &[String],
    violations: usize,
    known: &BTreeMap<String, u64>,
    wall: f64,
) {
    use json::J;
    let sum = |f: fn(&SpaceStats) -> u64| stats.iter().map(f).sum::<u64>();
    let mut cov: Vec<(String, J)> = Vec::new();
    let exhaustive = stats.iter().all(|s| !s.capped);
    if level == "model_checking" {
        cov.push(("states".into(), J::Int(sum(|s| s.nodes) + stats.len() as u64)));
        cov.push(("transitions".into(), J::Int(sum(|s| s.edges))));
        cov.push(("traces_validated_against_impl".into(), J::Int(sum(|s| s.validated))));
        cov.push(("model_steps_compared".into(), J::Int(sum(|s| s.steps))));
        cov.push(("distinct_outcomes".into(), J::Int(sum(|s| s.outcomes))));
    } else {
        cov.push(("evaluations".into(), J::Int(sum(|s| s.executions))));
        cov.push(("distinct_nontrivial".into(), J::Int(sum(|s| s.nontrivial))));
        cov.push(("distinct_outcomes".into(), J::Int(sum(|s| s.outcomes))));
        cov.push((
            "rule".into(),
            J::Str(
                "every leaf of the choice tree of each space, each enumerated exactly once; a case is trivial when the harness says the property is vacuous on it"
                    .into(),
            ),
        ));
    }
    cov.push(("exhaustive".into(), J::Bool(exhaustive)));
    cov.push(("samples".into(), J::Arr(samples.iter().map(|s| J::Str(s.clone())).collect())));
    cov.push((
        "spaces".into(),
        J::Arr(
            stats
                .iter()
                .map(|s| {
                    J::Obj(vec![
                        ("name".into(), J::Str(s.name.clone())),
                        ("executions".into(), J::Int(s.executions)),
                        ("nontrivial".into(), J::Int(s.nontrivial)),
                        ("choice_tree_edges".into(), J::Int(s.edges)),
                        ("steps".into(), J::Int(s.steps)),
                        ("distinct_outcomes".into(), J::Int(s.outcomes)),
                        ("pruned".into(), J::Int(s.skipped)),
                        ("complete".into(), J::Bool(!s.capped)),
                        ("wall_s".into(), J::Num((s.wall * 100.0).round() / 100.0)),
                    ])
                })
                .collect(),
        ),
    ));
    for (k, v) in notes {
        cov.push((k.clone(), J::Str(v.clone())));
    }
    if !known.is_empty() {
        cov.push((
            "known_findings_seen".into(),
            J::Obj(known.iter().map(|(k, v)| (k.clone(), J::Int(*v))).collect()),
        ));
    }
    let doc = J::Obj(vec![
        ("property".into(), J::Str(property.into())),
        (
            "tier".into(),
            J::Str(if tier == Tier::Quick { "quick" } else { "thorough" }.into()),
        ),
        ("seed".into(), J::Int(seed)),
        ("level".into(), J::Str(level.into())),
        ("coverage".into(), J::Obj(cov)),
        (
            "assumptions".into(),
            J::Arr(assumptions.iter().map(|s| J::Str(s.clone())).collect()),
        ),
        ("violations".into(), J::Int(violations as u64)),
        ("wall_s".into(), J::Num((wall * 100.0).round() / 100.0)),
    ]);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{property}.json")), doc.render()).expect("write evidence");
}

// ---- crash slots -------------------------------------------------------------------------------

static SLOTS: OnceLock<Vec<Mutex<Slot>>> = OnceLock::new();
struct Slot {
    file: Option<std::fs::File>,
    since: Option<Instant>,
    what: String,
}

fn slot_begin(t: usize, name: &str, prefix: &[(u32, u32)]) {
    let Some(slots) = SLOTS.get() else { return };
    let mut s = slots[t].lock().unwrap();
    s.since = Some(Instant::now());
    s.what.clear();
    s.what.push_str(name);
    s.what.push('\n');
    for (i, (c, _)) in prefix.iter().enumerate() {
        if i > 0 {
            s.what.push(',');
        }
        let _ = write!(s.what, "{c}");
    }
    s.what.push('\n');
    let s = &mut *s;
    if let Some(f) = &mut s.file {
        use std::os::unix::fs::FileExt;
        let mut buf = s.what.clone().into_bytes();
        buf.push(0);
        let _ = f.write_all_at(&buf, 0);
    }
}

fn slot_end(t: usize) {
    let Some(slots) = SLOTS.get() else { return };
    let mut s = slots[t].lock().unwrap();
    s.since = None;
    if let Some(f) = &mut s.file {
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(&[0], 0);
    }
}

const HANG_SECS: u64 = 90;

/// Entry point of a harness binary: `BIN <property> [--replay FILE]`.
pub fn main(checks: &[(&'static str, &'static str, fn(&Check))]) {
    let args: Vec<String> = std::env::args().collect();
    let property = args.get(1).cloned().unwrap_or_default();
    let Some(&(_, level, f)) = checks.iter().find(|(p, _, _)| *p == property) else {
        eprintln!("unknown property {property:?}");
        std::process::exit(2)
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let replay = match args.get(2).map(|s| s.as_str()) {
        Some("--replay") => {
            let text = std::fs::read_to_string(&args[3]).expect("replay file");
            let mut space = String::new();
            let mut choices = Vec::new();
            for l in text.lines() {
                if let Some(s) = l.strip_prefix("space ") {
                    space = s.to_string();
                } else if let Some(s) = l.strip_prefix("choices ") {
                    choices = s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                }
            }
            Some((space, choices))
        }
        _ => None,
    };
    if replay.is_none() && std::env::var_os("VMC_CHILD").is_none() {
        std::process::exit(supervise(&property));
    }
    install_panic_hook();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let budget = std::env::var("VMC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420u64,
        Tier::Thorough => 3000,
    });
    let slots_file = std::env::var_os("VMC_CHILD").map(PathBuf::from);
    let mut known = Vec::new();
    if let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in text.lines() {
            // KNOWN property=C01 key=<key> <text>
            if let Some(rest) = l.strip_prefix("KNOWN property=") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("").trim_start_matches("key=");
                let text = it.next().unwrap_or("");
                if p == property {
                    known.push((k.to_string(), text.to_string()));
                }
            }
        }
    }
    if let Some(dir) = &slots_file {
        let v = (0..threads)
            .map(|i| {
                Mutex::new(Slot {
                    file: std::fs::File::create(dir.join(format!("slot{i}"))).ok(),
                    since: None,
                    what: String::new(),
                })
            })
            .collect();
        let _ = SLOTS.set(v);
        // watchdog
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_secs(1));
                for s in SLOTS.get().unwrap() {
                    let s = s.lock().unwrap();
                    if s.since.is_some_and(|s| s.elapsed() > Duration::from_secs(HANG_SECS)) {
                        // leave the slot file as it is: the supervisor attributes the hang.
                        std::process::exit(97);
                    }
                }
            }
        });
    }
    let start = Instant::now();
    let name = property.clone();
    let check = Check {
        property,
        tier,
        seed,
        known,
        known_seen: Default::default(),
        stats: Default::default(),
        violations: Default::default(),
        samples: Default::default(),
        notes: Default::default(),
        assumptions: Default::default(),
        replay,
        start,
        deadline: start + Duration::from_secs(budget),
        slots_file,
        threads,
        level,
    };
    let _ = &check.slots_file;
    // run on a big stack
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            f(&check);
            check.finish()
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            // The preparations of a space panicked, which they do not on the unchanged tree.
            let message = LAST_PANIC.with(|_| String::from("a panic outside of the executions, see above"));
            let v = Violation {
                space: "(preparations)".into(),
                choices: vec![],
                failure: Failure { key: "panic".into(), message },
                trace: vec![],
            };
            let path = write_replay(&name, 0, &v);
            println!("VIOLATION property={name} replay={}", path.display());
            println!("   => {}", v.failure.message);
            1
        });
    std::process::exit(code);
}

/// This program again, with a limit of memory in kB: without, one that runs away ends others.
fn limited(kb: u64) -> std::process::Command {
    let mut c = std::process::Command::new("/bin/sh");
    c.args(["-c", &format!("ulimit -v {kb}; exec \"$0\" \"$@\"")]);
    c.arg(std::env::current_exe().expect("exe"));
    c
}

fn supervise(property: &str) -> i32 {
    // memory backed when possible
    let name = format!("vmc-{}-{}", property, std::process::id());
    let mut dir = std::path::Path::new("/dev/shm").join(&name);
    if std::fs::create_dir(&dir).is_err() {
        dir = std::env::temp_dir().join(name);
    }
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let mut child = limited(24 << 20)
        .args(std::env::args().skip(1))
        .env("VMC_CHILD", &dir)
        .env("TMPDIR", &dir)
        .spawn()
        .expect("spawn");
    let status = child.wait().expect("wait");
    let mut code = status.code();
    use std::os::unix::process::ExitStatusExt;
    let crashed = code == Some(97) || matches!(status.signal(), Some(4 | 6 | 7 | 8 | 9 | 11));
    if crashed {
        let mut found = Vec::new();
        for i in 0..64 {
            let Ok(bytes) = std::fs::read(dir.join(format!("slot{i}"))) else { continue };
            let end = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
            if end == 0 {
                continue;
            }
            let text = String::from_utf8_lossy(&bytes[..end]).into_owned();
            let mut it = text.lines();
            let space = it.next().unwrap_or("").to_string();
            let choices: Vec<u32> = it
                .next()
                .unwrap_or("")
                .split(',')
                .filter_map(|s| s.parse().ok())
                .collect();
            found.push((space, choices));
        }
        // attribute: re-run each candidate alone, the one that dies again is the culprit.
        for (i, (space, choices)) in found.iter().enumerate() {
            let v = Violation {
                space: space.clone(),
                choices: choices.clone(),
                failure: Failure {
                    key: "crash".into(),
                    message: format!("the code under test killed the process ({status}) or hung for {HANG_SECS}s"),
                },
                trace: vec![],
            };
            let path = write_replay(property, i, &v);
            let mut c = limited(6 << 20)
                .args([property, "--replay", path.to_str().unwrap()])
                .env("TMPDIR", &dir)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("spawn");
            let t0 = Instant::now();
            let st = loop {
                if let Some(st) = c.try_wait().unwrap() {
                    break Some(st);
                }
                if t0.elapsed().as_secs() > HANG_SECS {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            let dead = match st {
                None => true,
                Some(s) => s.signal().is_some(),
            };
            if dead {
                println!("VIOLATION property={property} replay={}", path.display());
                println!("   space={space} choices={choices:?}: {}", v.failure.message);
                write_evidence(
                    property,
                    Tier::Quick,
                    1,
                    "exploration",
                    &[],
                    &[format!("crash in {space} {choices:?}")],
                    &[],
                    &[],
                    1,
                    &BTreeMap::new(),
                    0.0,
                );
                code = Some(1);
                break;
            }
        }
        if code != Some(1) {
            let (space, choices) = found.into_iter().next().unwrap_or_default();
            let message = format!("the code under test killed the process ({status}), not again when its last cases ran alone");
            let v = Violation { space, choices, failure: Failure { key: "crash".into(), message }, trace: vec![] };
            let path = write_replay(property, 0, &v);
            println!("VIOLATION property={property} replay={}", path.display());
            println!("   => {}", v.failure.message);
            code = Some(1);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code.unwrap_or(3)
}
