//! Exhaustive exploration of nondeterministic programs.
//!
//! A *space* is a closure that asks a `Ch` for choices, runs the implementation on what the choices
//! describe and compares the outcome with a reference. The explorer runs the closure once for every
//! possible sequence of choices (depth first, split over threads by choice prefix). Free choices
//! (`pick`) always branch; deviations from a default (`dev`) branch only while the deviation budget
//! of the space lasts.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Stack of the threads that run cases (the default of Rust threads).
pub const STACK: usize = 2 << 20;
/// A case that makes no progress for this long is suspected to hang.
pub const HANG_SECS: u64 = 20;
/// What the watchdog goes by.
pub static WATCH_SECS: AtomicU64 = AtomicU64::new(HANG_SECS);
pub const EXIT_HANG: i32 = 77;
pub const EXIT_ERROR: i32 = 2;

// ---------------------------------------------------------------------------------------------
// Violations

#[derive(Clone, Debug)]
pub struct Viol
{
    /// Identity of the failing case, for known findings.
    pub key: Option<String>,
    pub msg: String,
}

pub type R = Result<(), Viol>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Viol>
{
    Err(Viol {
        key: None,
        msg: msg.into(),
    })
}

pub fn fail_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol>
{
    Err(Viol {
        key: Some(key.into()),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail(format!($($arg)*));
        }
    };
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook()
{
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.try_with(|g| g.get()).unwrap_or(false);
        if guarded {
            let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}", info));
        } else {
            default(info);
        }
    }));
}

/// Calls into the implementation. A panic is an observation, not an error of the harness.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol>
{
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            fail(format!("{} panicked: {}", what, msg.replace('\n', " ")))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Hashing

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx
{
    fn finish(&self) -> u64
    {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8])
    {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8)
    {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32)
    {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64)
    {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize)
    {
        self.write_u64(v as u64)
    }
}
pub type FxSet<T> = HashSet<T, BuildHasherDefault<Fx>>;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64
{
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Choices

#[repr(C)]
pub struct Slot
{
    pub counter: AtomicU64,
    pub busy: AtomicU64,
    pub space: AtomicU64,
    pub len: AtomicU64,
    pub choices: [Cell<u32>; SLOT_CHOICES],
}
pub const SLOT_CHOICES: usize = 8192 - 8;
pub const SLOTS: usize = 64;

unsafe impl Sync for Slot {}

/// Ends the process when a case makes no progress.
pub fn watchdog(slots: &'static [Slot])
{
    let patience: u64 = std::env::var("MC_PATIENCE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            for (slot, last) in slots.iter().zip(&mut last) {
                let c = slot.counter.load(Ordering::Relaxed);
                if c != last.0 || slot.busy.load(Ordering::Relaxed) == 0 {
                    *last = (c, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(patience * WATCH_SECS.load(Ordering::Relaxed))
                {
                    eprintln!("no progress for {} s", WATCH_SECS.load(Ordering::Relaxed));
                    slot.busy.store(2, Ordering::SeqCst);
                    std::process::exit(EXIT_HANG);
                }
            }
        }
    });
}

pub struct Ch<'a>
{
    prefix: &'a [u32],
    trail: Vec<(u32, u32)>,
    budget: u32,
    used: u32,
    strict: bool,
    slot: Option<&'a Slot>,
}

impl<'a> Ch<'a>
{
    /// Free choice of 0..n.
    pub fn pick(&mut self, n: usize) -> usize
    {
        assert!(n > 0, "empty choice");
        if n == 1 {
            return 0;
        }
        let pos = self.trail.len();
        let c = match self.prefix.get(pos) {
            Some(c) => *c,
            None => 0,
        };
        assert!(
            (c as usize) < n,
            "choice {} of {} at position {} while replaying a prefix",
            c,
            n,
            pos
        );
        self.trail.push((c, n as u32));
        if let Some(slot) = self.slot {
            assert!(pos < SLOT_CHOICES, "choice sequence too long");
            slot.choices[pos].set(c);
            slot.len.store(pos as u64 + 1, Ordering::Relaxed);
        }
        c as usize
    }

    /// Choice of 0..n where everything but 0 is a deviation.
    pub fn dev(&mut self, n: usize) -> usize
    {
        if self.used >= self.budget {
            return 0;
        }
        let c = self.pick(n);
        if c > 0 {
            self.used += 1;
        }
        c
    }

    pub fn of<'t, T>(&mut self, items: &'t [T]) -> &'t T
    {
        &items[self.pick(items.len())]
    }

    pub fn dev_of<'t, T>(&mut self, items: &'t [T]) -> &'t T
    {
        &items[self.dev(items.len())]
    }

    pub fn flag(&mut self) -> bool
    {
        self.pick(2) == 1
    }

    pub fn deviations(&self) -> u32
    {
        self.used
    }
}

// ---------------------------------------------------------------------------------------------
// Statistics

#[derive(Default)]
pub struct St
{
    pub evals: u64,
    /// Executions of the implementation compared with the reference.
    pub traces: u64,
    /// Steps of the reference model.
    pub steps: u64,
    /// Distinct abstract states of the reference model.
    pub states: FxSet<u64>,
    /// Distinct abstract transitions of the reference model.
    pub edges: FxSet<u64>,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub sample_now: bool,
}

impl St
{
    pub fn outcome(&mut self, o: &'static str)
    {
        *self.outcomes.entry(o).or_insert(0) += 1;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T)
    {
        self.states.insert(hash_of(s));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String)
    {
        if self.sample_now {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: St)
    {
        self.evals += o.evals;
        self.traces += o.traces;
        self.steps += o.steps;
        self.states.extend(o.states);
        self.edges.extend(o.edges);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, (n, m)) in o.known {
            self.known.entry(k).or_insert((0, m)).0 += n;
        }
        self.samples.extend(o.samples);
    }
}

pub struct SpaceReport
{
    pub name: String,
    pub bounds: String,
    pub cases: u64,
    pub states: u64,
    pub wall: f64,
    pub complete: bool,
}

pub struct Found
{
    pub space: String,
    pub choices: Vec<u32>,
    pub viol: Viol,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier
{
    Quick,
    Thorough,
}

pub enum Mode
{
    Explore,
    /// Run one case.
    Replay
    {
        space: u64,
        choices: Vec<u32>,
    },
    /// Explore the spaces with this in their name.
    Only(String),
}

pub struct Runner
{
    pub property: String,
    pub tier: Tier,
    pub threads: usize,
    pub mode: Mode,
    pub slots: &'static [Slot],
    pub known_keys: BTreeSet<String>,
    pub total: St,
    pub spaces: Vec<SpaceReport>,
    pub found: Option<Found>,
    pub deadline: Instant,
    pub replayed: bool,
    pub verbose: bool,
}

impl Runner
{
    pub fn thorough(&self) -> bool
    {
        self.tier == Tier::Thorough
    }

    /// Picks the bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T
    {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn space_id(name: &str) -> u64
    {
        hash_of(name)
    }

    /// A step that everything else needs. Its failure is a violation as well.
    pub fn setup<T>(&mut self, name: &str, f: impl FnOnce() -> Result<T, Viol>) -> Option<T>
    {
        if self.found.is_some() {
            return None;
        }
        let slot = &self.slots[0];
        slot.space
            .store(Self::space_id(&format!("setup:{}", name)), Ordering::Relaxed);
        slot.len.store(0, Ordering::Relaxed);
        slot.counter.fetch_add(1, Ordering::Relaxed);
        slot.busy.store(1, Ordering::Relaxed);
        let r = f();
        slot.busy.store(0, Ordering::Relaxed);
        match r {
            Ok(t) => Some(t),
            Err(v) => {
                self.found = Some(Found {
                    space: format!("setup:{}", name),
                    choices: vec![],
                    viol: v,
                });
                None
            }
        }
    }

    pub fn space<F>(&mut self, name: &str, budget: u32, bounds: &str, body: F)
    where
        F: Fn(&mut Ch, &mut St) -> R + Sync,
    {
        if self.found.is_some() {
            return;
        }
        match &self.mode {
            Mode::Replay { space, choices } => {
                if *space == Self::space_id(name) {
                    let choices = choices.clone();
                    self.replay(name, budget, &choices, body);
                }
                return;
            }
            Mode::Only(s) if !name.contains(s.as_str()) => return,
            _ => {}
        }
        let start = Instant::now();
        let id = Self::space_id(name);
        let known = &self.known_keys;
        let deadline = self.deadline;

        // Split the space into subtrees.
        let want = if self.threads > 1 { self.threads * 64 } else { 1 };
        let mut work: std::collections::VecDeque<Vec<u32>> = Default::default();
        let mut leaves: Vec<Vec<u32>> = vec![];
        work.push_back(vec![]);
        let mut probes = 0;
        while let Some(p) = work.pop_front() {
            if work.len() + leaves.len() + 1 >= want || probes > 4 * want {
                work.push_front(p);
                break;
            }
            probes += 1;
            // The probe only learns the arity of the next choice.
            let arity = probe(&body, budget, &p, &self.slots[0], id);
            match arity {
                Probe::Leaf => leaves.push(p),
                Probe::Arity(n) => {
                    for c in 0..n {
                        let mut q = p.clone();
                        q.push(c);
                        work.push_back(q);
                    }
                }
                Probe::Viol(v, choices) => {
                    let is_known = v.key.as_ref().map_or(false, |k| known.contains(k));
                    if is_known {
                        leaves.push(p);
                    } else {
                        self.found = Some(Found {
                            space: name.to_string(),
                            choices,
                            viol: v,
                        });
                        return;
                    }
                }
            }
        }
        let mut items: Vec<Vec<u32>> = leaves;
        items.extend(work);
        items.sort();

        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let merged: Mutex<St> = Mutex::new(St::default());
        let broken: Mutex<Option<String>> = Mutex::new(None);
        let slots = self.slots;
        // For finding slow cases: report those that take longer (in milliseconds).
        let slow: Option<u64> = std::env::var("MC_SLOW").ok().and_then(|s| s.parse().ok());
        let sample_every = (items.len() / 3).max(1);

        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, stop, capped, found, merged, broken, items, body) = (
                    &next, &stop, &capped, &found, &merged, &broken, &items, &body,
                );
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let slot = &slots[t];
                        slot.space.store(id, Ordering::Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut st = St::default();
                            'outer: while !stop.load(Ordering::Relaxed) {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= items.len() {
                                    break;
                                }
                                let root = &items[i];
                                let mut prefix = root.clone();
                                let mut trail: Vec<(u32, u32)> = vec![];
                                st.sample_now = i % sample_every == sample_every / 2;
                                loop {
                                    slot.len.store(0, Ordering::Relaxed);
                                    slot.busy.store(1, Ordering::Relaxed);
                                    slot.counter.fetch_add(1, Ordering::Relaxed);
                                    trail.clear();
                                    let mut ch = Ch {
                                        prefix: &prefix,
                                        trail: std::mem::take(&mut trail),
                                        budget,
                                        used: 0,
                                        strict: false,
                                        slot: Some(slot),
                                    };
                                    let begin = slow.map(|_| Instant::now());
                                    let r = body(&mut ch, &mut st);
                                    if let (Some(limit), Some(begin)) = (slow, begin) {
                                        if begin.elapsed().as_millis() as u64 > limit {
                                            let c: Vec<u32> = ch.trail.iter().map(|x| x.0).collect();
                                            eprintln!("slow: {:?} {:?}", begin.elapsed(), c);
                                        }
                                    }
                                    trail = std::mem::take(&mut ch.trail);
                                    st.evals += 1;
                                    st.sample_now = false;
                                    assert!(
                                        trail.len() >= prefix.len()
                                            || trail.len() < root.len(),
                                        "choice prefix not replayed"
                                    );
                                    if let Err(v) = r {
                                        let is_known =
                                            v.key.as_ref().map_or(false, |k| known.contains(k));
                                        if is_known {
                                            st.known
                                                .entry(v.key.unwrap())
                                                .or_insert((0, v.msg))
                                                .0 += 1;
                                        } else {
                                            stop.store(true, Ordering::Relaxed);
                                            let choices: Vec<u32> =
                                                trail.iter().map(|x| x.0).collect();
                                            let mut f = found.lock().unwrap();
                                            let better = match &*f {
                                                None => true,
                                                Some(o) => choices < o.choices,
                                            };
                                            if better {
                                                *f = Some(Found {
                                                    space: String::new(),
                                                    choices,
                                                    viol: v,
                                                });
                                            }
                                            break 'outer;
                                        }
                                    }
                                    // Next choice sequence below the root.
                                    let mut k = trail.len();
                                    let mut more = false;
                                    while k > root.len() {
                                        k -= 1;
                                        if trail[k].0 + 1 < trail[k].1 {
                                            more = true;
                                            break;
                                        }
                                    }
                                    if !more {
                                        break;
                                    }
                                    prefix.clear();
                                    prefix.extend(trail[..k].iter().map(|x| x.0));
                                    prefix.push(trail[k].0 + 1);
                                    if st.evals & 0xff == 0 {
                                        if stop.load(Ordering::Relaxed) {
                                            break 'outer;
                                        }
                                        if Instant::now() > deadline {
                                            capped.store(true, Ordering::Relaxed);
                                            stop.store(true, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                    }
                                }
                            }
                            st
                        }));
                        slot.busy.store(0, Ordering::Relaxed);
                        match r {
                            Ok(st) => merged.lock().unwrap().merge(st),
                            Err(e) => {
                                stop.store(true, Ordering::Relaxed);
                                let m = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                *broken.lock().unwrap() = Some(m);
                            }
                        }
                    })
                    .expect("thread");
            }
        });

        if let Some(m) = broken.into_inner().unwrap() {
            eprintln!("harness error in space {}: {}", name, m);
            std::process::exit(EXIT_ERROR);
        }
        let st = merged.into_inner().unwrap();
        let complete = !capped.load(Ordering::Relaxed);
        let report = SpaceReport {
            name: name.to_string(),
            bounds: bounds.to_string(),
            cases: st.evals,
            states: st.states.len() as u64,
            wall: start.elapsed().as_secs_f64(),
            complete,
        };
        if self.verbose {
            eprintln!(
                "  {:<28} cases={:<10} states={:<8} {:.2}s{}",
                report.name,
                report.cases,
                report.states,
                report.wall,
                if complete { "" } else { " CAPPED" }
            );
        }
        self.spaces.push(report);
        let mut st = st;
        st.samples = st
            .samples
            .into_iter()
            .take(2)
            .map(|s| format!("{}: {}", name, s))
            .collect();
        self.total.merge(st);
        if let Some(mut f) = found.into_inner().unwrap() {
            f.space = name.to_string();
            self.found = Some(f);
        }
    }

    fn replay<F>(&mut self, name: &str, budget: u32, choices: &[u32], body: F)
    where
        F: Fn(&mut Ch, &mut St) -> R + Sync,
    {
        self.replayed = true;
        let slot = &self.slots[0];
        slot.space.store(Self::space_id(name), Ordering::Relaxed);
        let known = &self.known_keys;
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    let mut st = St::default();
                    let mut ch = Ch {
                        prefix: choices,
                        trail: vec![],
                        budget,
                        used: 0,
                        strict: true,
                        slot: Some(slot),
                    };
                    let r = body(&mut ch, &mut st);
                    if r.is_ok() && ch.strict {
                        assert!(
                            ch.trail.len() >= choices.len(),
                            "replay used only {} of {} choices",
                            ch.trail.len(),
                            choices.len()
                        );
                    }
                    (r, ch.trail.iter().map(|x| x.0).collect::<Vec<_>>())
                })
                .expect("thread")
                .join()
        });
        match r {
            Ok((Ok(()), _)) => {}
            Ok((Err(v), trail)) => {
                if v.key.as_ref().map_or(false, |k| known.contains(k)) {
                    eprintln!("known finding: {}", v.msg);
                    return;
                }
                self.found = Some(Found {
                    space: name.to_string(),
                    choices: trail,
                    viol: v,
                });
            }
            Err(_) => {
                eprintln!("harness error while replaying");
                std::process::exit(EXIT_ERROR);
            }
        }
    }
}

enum Probe
{
    Leaf,
    Arity(u32),
    Viol(Viol, Vec<u32>),
}

fn probe<F>(body: &F, budget: u32, prefix: &[u32], slot: &'static Slot, id: u64) -> Probe
where
    F: Fn(&mut Ch, &mut St) -> R + Sync,
{
    slot.space.store(id, Ordering::Relaxed);
    slot.len.store(0, Ordering::Relaxed);
    slot.counter.fetch_add(1, Ordering::Relaxed);
    slot.busy.store(1, Ordering::Relaxed);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut st = St::default();
                let mut ch = Ch {
                    prefix,
                    trail: vec![],
                    budget,
                    used: 0,
                    strict: false,
                    slot: Some(slot),
                };
                let r = body(&mut ch, &mut st);
                (r, ch.trail)
            })
            .expect("thread")
            .join()
    });
    slot.busy.store(0, Ordering::Relaxed);
    match r {
        Err(_) => {
            eprintln!("harness error while splitting a space");
            std::process::exit(EXIT_ERROR);
        }
        Ok((Err(v), trail)) => Probe::Viol(v, trail.iter().map(|x| x.0).collect()),
        Ok((Ok(()), trail)) => match trail.get(prefix.len()) {
            None => Probe::Leaf,
            Some((_, n)) => Probe::Arity(*n),
        },
    }
}
