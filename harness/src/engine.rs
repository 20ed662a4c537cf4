//! Items, threads, counters, violations.

use crate::model::*;
use crate::real;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// The history of the position being looked at: enough to replay it.
#[derive(Clone, Debug)]
pub struct Hist {
    pub start: Pos,
    pub moves: Vec<Mv>,
}
impl Hist {
    pub fn new(start: &Pos) -> Hist {
        Hist {
            start: start.clone(),
            moves: vec![],
        }
    }
    pub fn text(&self) -> String {
        let m: Vec<String> = self.moves.iter().map(|m| m.usi()).collect();
        format!("{} moves {}", self.start.sfen(), m.join(" "))
    }
    pub fn end(&self) -> Pos {
        let mut p = self.start.clone();
        for &m in &self.moves {
            p.apply(m);
        }
        p
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    /// the input that fails, identifying it independently of the run
    pub signature: String,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(h: &Hist, what: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        what: what.into(),
        signature: h.text(),
    })
}
pub fn viol_at<T>(p: &Pos, what: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        what: what.into(),
        signature: p.sfen(),
    })
}

/// Per-thread state of a run.
pub struct Cx {
    pub prop: &'static str,
    pub seed: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub n: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub distinct2: HashSet<u64>,
    pub samples: Vec<String>,
    pub family: usize,
    pub idx: u64,
}
impl Cx {
    pub fn new(prop: &'static str, seed: u64, thorough: bool) -> Cx {
        Cx {
            prop,
            seed,
            rng: Rng::new(seed, 0, 0),
            thorough,
            n: BTreeMap::new(),
            distinct: HashSet::new(),
            distinct2: HashSet::new(),
            samples: vec![],
            family: 0,
            idx: 0,
        }
    }
    #[inline(always)]
    pub fn count(&mut self, k: &'static str) {
        *self.n.entry(k).or_insert(0) += 1;
    }
    #[inline(always)]
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.n.entry(k).or_insert(0);
        if v > *e {
            *e = v;
        }
    }
    /// A non-trivial case, by the identity of its position.
    pub fn nontrivial(&mut self, id: u64) -> bool {
        if self.distinct.len() >= 1_200_000 {
            return false;
        }
        self.distinct.insert(id)
    }
    pub fn state(&mut self, id: u64) {
        if self.distinct2.len() < 1_200_000 {
            self.distinct2.insert(id);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
}

/// Sum over threads; keys starting with "max " are maxima.
#[derive(Default)]
pub struct Totals {
    pub n: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub api_calls: u64,
}

pub struct Found {
    pub viol: Viol,
    pub family: usize,
    pub idx: u64,
}

// ------------------------------------------------------------ crash context

pub const NCTX: usize = 64;
/// What each worker is doing, readable from a signal handler.
pub struct Slot {
    pub family: AtomicUsize,
    pub idx: AtomicU64,
    pub beat: AtomicU64,
    pub busy: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    family: AtomicUsize::new(0),
    idx: AtomicU64::new(0),
    beat: AtomicU64::new(0),
    busy: AtomicBool::new(false),
};
pub static SLOTS: [Slot; NCTX] = [SLOT0; NCTX];
thread_local! {
    pub static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(NCTX - 1) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    /// The history being worked on.
    pub static CUR: std::cell::RefCell<Option<Hist>> = const { std::cell::RefCell::new(None) };
}
pub fn set_cur(h: &Hist) {
    CUR.with(|c| {
        let mut g = c.borrow_mut();
        match g.as_mut() {
            Some(x) => {
                x.start.clone_from(&h.start);
                x.moves.clone_from(&h.moves);
            }
            None => *g = Some(h.clone()),
        }
    });
}
pub fn beat() {
    SLOT.with(|s| SLOTS[s.get()].beat.fetch_add(1, Ordering::Relaxed));
}

/// Call the library and the harness for one item; a panic inside the library
/// is a violation, a panic of the harness is an error of the check.
pub fn guarded(sig: impl Fn() -> String, f: impl FnOnce() -> Res) -> Result<Res, String> {
    real::IN_API.with(|c| c.set(false));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let msg = LAST_PANIC.with(|m| m.borrow().clone());
            if real::IN_API.with(|c| c.replace(false)) {
                Ok(Err(Viol {
                    what: format!("the library panicked: {msg}"),
                    signature: sig(),
                }))
            } else {
                Err(format!("harness panic: {msg}"))
            }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let text = format!("{msg} at {loc}");
        if text.contains("unsafe precondition") || text.contains("cannot unwind") || text.contains("nounwind") {
            // will abort: the signal handler reports it
            eprintln!("PANIC {text}");
        }
        let _ = LAST_PANIC.try_with(|m| *m.borrow_mut() = text);
    }));
}

#[cfg(unix)]
mod sig {
    use super::*;
    extern "C" {
        fn signal(sig: i32, handler: usize) -> usize;
        fn _exit(code: i32) -> !;
    }
    extern "C" fn on_crash(s: i32) {
        let in_api = real::IN_API.with(|c| c.get());
        let slot = SLOT.with(|s| s.get());
        let sl = &SLOTS[slot];
        // The driver turns this line into a violation.
        println!(
            "CRASH signal={s} in_api={} family={} idx={}",
            in_api as u8,
            sl.family.load(Ordering::Relaxed),
            sl.idx.load(Ordering::Relaxed)
        );
        unsafe { _exit(3) }
    }
    pub fn install() {
        for s in [4, 6, 7, 8, 11] {
            unsafe {
                signal(s, on_crash as *const () as usize);
            }
        }
    }
}
#[cfg(unix)]
pub use sig::install as install_signals;

/// Run `count[f]` items of each family f on all threads.  Stops at the first
/// violation.  Items are claimed in order, each seeded by (seed, prop, f, idx).
pub fn run_items(
    prop: &'static str,
    seed: u64,
    thorough: bool,
    threads: usize,
    plan: &[(usize, u64)],
    known: &HashSet<String>,
    item: impl Fn(&mut Cx, usize, u64) -> Res + Sync,
) -> (Totals, Option<Found>, Vec<String>) {
    // interleave families: flatten into chunks
    let total: u64 = plan.iter().map(|p| p.1).sum();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
    let totals = Mutex::new(Totals::default());
    // map a ticket to (family, idx), spreading the families evenly
    let mut order: Vec<(usize, u64)> = Vec::with_capacity(total as usize);
    {
        let mut acc: Vec<(f64, usize, u64)> = vec![];
        for &(f, n) in plan {
            for i in 0..n {
                acc.push(((i as f64 + 0.5) / n as f64, f, i));
            }
        }
        acc.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        order.extend(acc.into_iter().map(|x| (x.1, x.2)));
    }
    let order = &order;
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, found, totals, item, known_hits, harness_error, done) =
                (&next, &stop, &found, &totals, &item, &known_hits, &harness_error, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(t));
                    SLOTS[t].busy.store(true, Ordering::Relaxed);
                    let mut cx = Cx::new(prop, seed, thorough);
                    let calls0 = real::API_CALLS.with(|c| c.get());
                    while !stop.load(Ordering::Relaxed) {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= total {
                            break;
                        }
                        let (f, i) = order[k as usize];
                        SLOTS[t].family.store(f, Ordering::Relaxed);
                        SLOTS[t].idx.store(i, Ordering::Relaxed);
                        beat();
                        cx.family = f;
                        cx.idx = i;
                        cx.rng = item_rng(prop, seed, f, i);
                        let r = guarded(
                            || {
                                CUR.with(|c| {
                                    c.borrow().as_ref().map(|h| h.text()).unwrap_or_else(|| format!("item {f} {i} of seed {seed}"))
                                })
                            },
                            || item(&mut cx, f, i),
                        );
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => {
                                if known.contains(&v.signature) {
                                    known_hits.lock().unwrap().push(v.signature);
                                } else {
                                    let mut g = found.lock().unwrap();
                                    if g.is_none() {
                                        *g = Some(Found {
                                            viol: v,
                                            family: f,
                                            idx: i,
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(e) => {
                                *harness_error.lock().unwrap() = Some(format!("{e} (family {f} idx {i})"));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    SLOTS[t].busy.store(false, Ordering::Relaxed);
                    let mut g = totals.lock().unwrap();
                    for (k, v) in cx.n {
                        let e = g.n.entry(k).or_insert(0);
                        if k.starts_with("max ") {
                            *e = (*e).max(v);
                        } else {
                            *e += v;
                        }
                    }
                    g.distinct.extend(cx.distinct);
                    g.states.extend(cx.distinct2);
                    g.samples.extend(cx.samples);
                    g.api_calls += real::API_CALLS.with(|c| c.get()) - calls0;
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watch for calls that never return.
        let mut last = [0u64; NCTX];
        let mut since = vec![std::time::Instant::now(); NCTX];
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(5));
            for t in 0..threads {
                let b = SLOTS[t].beat.load(Ordering::Relaxed);
                if b != last[t] || !SLOTS[t].busy.load(Ordering::Relaxed) {
                    last[t] = b;
                    since[t] = std::time::Instant::now();
                } else if since[t].elapsed().as_secs() > 150 {
                    println!(
                        "HANG family={} idx={}",
                        SLOTS[t].family.load(Ordering::Relaxed),
                        SLOTS[t].idx.load(Ordering::Relaxed)
                    );
                    std::process::exit(3);
                }
            }
        }
    });
    if let Some(e) = harness_error.into_inner().unwrap() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    (
        totals.into_inner().unwrap(),
        found.into_inner().unwrap(),
        known_hits.into_inner().unwrap(),
    )
}

pub fn item_rng(prop: &str, seed: u64, f: usize, i: u64) -> Rng {
    let p = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    Rng::new(seed ^ (p << 20), f as u64, i)
}
