//! Stateless explorer: runs a scenario once for every sequence of answers to its choice points.
use crate::guard;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type HSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new(); // fixed keys
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What an execution found. `Known` is a failure that the known-findings file lists.
#[derive(Clone, Debug)]
pub enum Fail {
    Violation(String),
    Known(&'static str),
}
pub type Verdict = Result<(), Fail>;

pub fn bad<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(m.into()))
}

pub const SET_CAP: usize = 6_000_000; // per worker

#[derive(Default)]
pub struct Local {
    pub states: HSet,
    pub transitions: HSet,
    pub outcomes: HSet,
    pub inputs: HSet,
    pub compared: u64,
    pub more_states: u64,
    pub more_transitions: u64,
    pub counters: BTreeMap<&'static str, u64>,
}

pub struct Ctx<'a> {
    pub tier: Tier,
    prefix: &'a [u16],
    trace: Vec<(u16, u16, bool)>,
    pub budget: u32,
    cur: u64,
    pub local: &'a mut Local,
    /// in record mode the execution explains itself
    pub record: bool,
    pub notes: Vec<String>,
    pub input: Vec<u8>,
}

impl<'a> Ctx<'a> {
    pub fn new(tier: Tier, prefix: &'a [u16], budget: u32, local: &'a mut Local) -> Self {
        Ctx {
            tier,
            prefix,
            trace: vec![],
            budget,
            cur: 0,
            local,
            record: false,
            notes: vec![],
            input: vec![],
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    fn point(&mut self, n: usize, dev: bool) -> usize {
        assert!(n >= 1 && n < 65536, "bad choice width {n}");
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            assert!((c as usize) < n, "replay divergence: choice {c} of {n} at point {i}");
            c
        } else {
            0
        };
        if n > 1 || i < self.prefix.len() {
            guard::slot_choice(i, c);
        } else {
            guard::slot_choice(i, 0);
        }
        self.trace.push((c, n as u16, dev));
        c as usize
    }
    /// a choice among n equally good alternatives
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.point(n, false)
    }
    /// alternative 0 is the default; every other one spends one of the deviation budget
    pub fn deviate(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        let used = self.trace.iter().filter(|t| t.2 && t.0 != 0).count() as u32;
        if used >= self.budget && self.trace.len() >= self.prefix.len() {
            return self.point(1, true);
        }
        self.point(n, true)
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.choose(v.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// records the model state reached after an event
    pub fn step<E: Hash + ?Sized, S: Hash + ?Sized>(&mut self, event: &E, state: &S) {
        let s = hash(state);
        let t = hash(&(self.cur, hash(event)));
        if self.local.transitions.len() < SET_CAP {
            self.local.transitions.insert(t);
        }
        if self.local.states.len() < SET_CAP {
            self.local.states.insert(s);
        }
        self.cur = s;
    }
    /// states and transitions counted by a scheduler of its own
    pub fn explored(&mut self, states: u64, transitions: u64) {
        self.local.more_states += states;
        self.local.more_transitions += transitions;
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.local.outcomes.len() < SET_CAP {
            self.local.outcomes.insert(hash(t));
        }
    }
    /// one non-trivial input (fault enumeration)
    pub fn nontrivial(&mut self, data: &[u8]) {
        if self.local.inputs.len() < SET_CAP {
            self.local.inputs.insert(hash(data));
        }
    }
    /// one comparison of a complete execution of the implementation with the model
    pub fn compared(&mut self) {
        self.local.compared += 1;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.local.counters.entry(k).or_insert(0) += n;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            self.notes.push(f());
        }
    }
    pub fn input(&mut self, data: &[u8]) {
        if self.record {
            self.input = data.to_vec();
        }
    }
}

pub type Exec = Box<dyn Fn(&mut Ctx) -> Verdict + Sync + Send>;

pub struct Scenario {
    pub name: &'static str,
    /// deviation bounds (quick, thorough)
    pub dev: (u32, u32),
    pub run: Exec,
}

pub fn scenario(
    name: &'static str,
    dev: (u32, u32),
    run: impl Fn(&mut Ctx) -> Verdict + Sync + Send + 'static,
) -> Scenario {
    Scenario {
        name,
        dev,
        run: Box::new(run),
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: usize,
    pub choices: Vec<u16>,
    pub devs: u32,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub scenarios: Vec<(String, u64, u32, bool)>, // name, executions, deviation level completed, exhaustive
    pub local: Local,
    pub found: Vec<Found>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub harness_error: Option<String>,
    pub max_depth: usize,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u16>>, usize)>, // items, active workers
    cv: Condvar,
    stop: AtomicBool,
    capped: AtomicBool,
    execs: AtomicU64,
    depth: AtomicUsize,
}

fn run_one(sc: &Scenario, si: usize, tier: Tier, budget: u32, prefix: &[u16], local: &mut Local) -> (Result<Verdict, String>, Vec<(u16, u16, bool)>) {
    guard::slot_begin(si);
    let mut cx = Ctx::new(tier, prefix, budget, local);
    let r = guard::catch(|| (sc.run)(&mut cx));
    let t = std::mem::take(&mut cx.trace);
    guard::slot_end();
    if r.is_ok() && t.len() < prefix.len() {
        return (Err("replay divergence: execution ended before its prefix".into()), t);
    }
    (r, t)
}

/// Runs one choice sequence and returns its verdict and explanation.
pub fn replay(sc: &Scenario, si: usize, tier: Tier, choices: &[u16]) -> (Result<Verdict, String>, Vec<String>, Vec<u8>) {
    let mut local = Local::default();
    guard::slot_begin(si);
    let mut cx = Ctx::new(tier, choices, u32::MAX, &mut local);
    cx.record = true;
    // beyond the recorded choices only defaults are taken
    let r = guard::catch(|| (sc.run)(&mut cx));
    let n = std::mem::take(&mut cx.notes);
    let i = std::mem::take(&mut cx.input);
    guard::slot_end();
    (r, n, i)
}

pub fn explore(scs: &[Scenario], tier: Tier, workers: usize, deadline: Instant) -> Report {
    let mut rep = Report::default();
    for (si, sc) in scs.iter().enumerate() {
        let maxdev = if tier == Tier::Quick { sc.dev.0 } else { sc.dev.1 };
        let t0 = Instant::now();
        let mut buckets: Vec<Vec<Vec<u16>>> = vec![vec![]; maxdev as usize + 1];
        buckets[0].push(vec![]);
        let mut execs_sc = 0;
        let compared_before = rep.local.compared;
        let mut completed = 0;
        let mut exhaustive = true;
        for level in 0..=maxdev {
            let init = std::mem::take(&mut buckets[level as usize]);
            if init.is_empty() {
                completed = level;
                continue;
            }
            let sh = Shared {
                queue: Mutex::new((init, 0)),
                cv: Condvar::new(),
                stop: AtomicBool::new(false),
                capped: AtomicBool::new(false),
                execs: AtomicU64::new(0),
                depth: AtomicUsize::new(0),
            };
            let out: Mutex<(Vec<Vec<Vec<u16>>>, Vec<Local>, Vec<Found>, BTreeMap<String, u64>, Option<String>)> =
                Mutex::new((vec![vec![]; maxdev as usize + 1], vec![], vec![], BTreeMap::new(), None));
            std::thread::scope(|s| {
                for w in 0..workers {
                    let (sh, out) = (&sh, &out);
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(s, move || {
                            guard::use_slot(w);
                            guard::set_seed(1 + w as u64);
                            worker(sc, si, tier, maxdev, sh, out, deadline)
                        })
                        .expect("spawn");
                }
            });
            let (next, locals, found, known, err) = out.into_inner().unwrap();
            for (i, b) in next.into_iter().enumerate() {
                buckets[i].extend(b);
            }
            for l in locals {
                merge(&mut rep.local, l);
            }
            execs_sc += sh.execs.load(Ordering::Relaxed);
            rep.max_depth = rep.max_depth.max(sh.depth.load(Ordering::Relaxed));
            rep.found.extend(found);
            for (k, v) in known {
                *rep.known.entry(k).or_insert(0) += v;
            }
            if err.is_some() {
                rep.harness_error = err;
            }
            if sh.capped.load(Ordering::Relaxed) {
                exhaustive = false;
                break;
            }
            completed = level;
            if !rep.found.is_empty() || rep.harness_error.is_some() {
                break;
            }
        }
        rep.executions += execs_sc;
        if rep.local.compared == compared_before && rep.found.is_empty() && exhaustive && rep.harness_error.is_none() {
            rep.harness_error = Some(format!("scenario {} compares nothing", sc.name));
        }
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("{:8.2}s {execs_sc:9} {:9} {}", t0.elapsed().as_secs_f64(), rep.local.compared - compared_before, sc.name);
        }
        rep.scenarios.push((sc.name.to_string(), execs_sc, completed, exhaustive));
        // one written-out sample per scenario: the first (all-default) execution
        let (_, notes, input) = replay(sc, si, tier, &[]);
        rep.samples.push(format!(
            "{}: {}{}",
            sc.name,
            notes.join(" | "),
            if input.is_empty() { String::new() } else { format!(" [{} bytes]", input.len()) }
        ));
        if !rep.found.is_empty() || rep.harness_error.is_some() {
            break;
        }
    }
    rep.found.sort_by(|a, b| (a.devs, a.choices.len(), &a.choices).cmp(&(b.devs, b.choices.len(), &b.choices)));
    rep
}

fn merge(a: &mut Local, b: Local) {
    let j = |x: &mut HSet, y: HSet| {
        if x.is_empty() {
            *x = y
        } else {
            x.extend(y)
        }
    };
    j(&mut a.states, b.states);
    j(&mut a.transitions, b.transitions);
    j(&mut a.outcomes, b.outcomes);
    j(&mut a.inputs, b.inputs);
    a.compared += b.compared;
    a.more_states += b.more_states;
    a.more_transitions += b.more_transitions;
    for (k, v) in b.counters {
        *a.counters.entry(k).or_insert(0) += v;
    }
}

type Out = Mutex<(Vec<Vec<Vec<u16>>>, Vec<Local>, Vec<Found>, BTreeMap<String, u64>, Option<String>)>;

fn worker(sc: &Scenario, si: usize, tier: Tier, maxdev: u32, sh: &Shared, out: &Out, deadline: Instant) {
    let mut local = Local::default();
    let mut next: Vec<Vec<Vec<u16>>> = vec![vec![]; maxdev as usize + 1];
    let mut found = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut stack: Vec<Vec<u16>> = vec![];
    let mut err = None;
    let mut execs = 0u64;
    let mut depth = 0;
    'outer: loop {
        // get work
        if stack.is_empty() {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break 'outer;
                }
                let n = q.0.len();
                if n > 0 {
                    let take = (n / 8).clamp(1, 256);
                    let at = n - take;
                    stack = q.0.split_off(at);
                    q.1 += 1;
                    break;
                }
                if q.1 == 0 {
                    sh.cv.notify_all();
                    break 'outer;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(5)).unwrap().0;
            }
        }
        let mut n_since = 0;
        while let Some(prefix) = stack.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let (r, trace) = run_one(sc, si, tier, maxdev, &prefix, &mut local);
            execs += 1;
            depth = depth.max(trace.len());
            match r {
                Err(e) => {
                    err = Some(format!("scenario {}: harness failure: {e}; choices {:?}", sc.name, trace.iter().map(|t| t.0).collect::<Vec<_>>()));
                    sh.stop.store(true, Ordering::Relaxed);
                }
                Ok(Ok(())) => {}
                Ok(Err(Fail::Known(k))) => *known.entry(k.to_string()).or_insert(0) += 1,
                Ok(Err(Fail::Violation(m))) => {
                    found.push(Found {
                        scenario: si,
                        choices: trace.iter().map(|t| t.0).collect(),
                        devs: trace.iter().filter(|t| t.2 && t.0 != 0).count() as u32,
                        msg: m,
                    });
                    if found.len() >= 8 {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            // children: every alternative after the prefix
            let mut devs = trace[..prefix.len()].iter().filter(|t| t.2 && t.0 != 0).count() as u32;
            for i in prefix.len()..trace.len() {
                let (c, n, dev) = trace[i];
                debug_assert_eq!(c, 0);
                if n > 1 {
                    let base: Vec<u16> = trace[..i].iter().map(|t| t.0).collect();
                    for alt in (1..n).rev() {
                        let mut p = base.clone();
                        p.push(alt);
                        if dev {
                            if devs + 1 <= maxdev {
                                next[devs as usize + 1].push(p);
                            }
                        } else {
                            stack.push(p);
                        }
                    }
                }
                if dev && c != 0 {
                    devs += 1;
                }
            }
            n_since += 1;
            if n_since % 16 == 0 {
                if Instant::now() > deadline {
                    sh.capped.store(true, Ordering::Relaxed);
                    sh.stop.store(true, Ordering::Relaxed);
                }
                if stack.len() > 8 {
                    if let Ok(mut q) = sh.queue.try_lock() {
                        if q.0.len() < 64 {
                            let half = stack.len() / 2;
                            let give: Vec<_> = stack.drain(..half).collect();
                            q.0.extend(give);
                            sh.cv.notify_all();
                        }
                    }
                }
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        if sh.stop.load(Ordering::Relaxed) {
            sh.cv.notify_all();
            break;
        }
        drop(q);
        stack.clear();
    }
    sh.execs.fetch_add(execs, Ordering::Relaxed);
    sh.depth.fetch_max(depth, Ordering::Relaxed);
    let mut o = out.lock().unwrap();
    for (i, b) in next.into_iter().enumerate() {
        o.0[i].extend(b);
    }
    o.1.push(local);
    o.2.extend(found);
    for (k, v) in known {
        *o.3.entry(k).or_insert(0) += v;
    }
    if err.is_some() {
        o.4 = err;
    }
}
