//! The exploration engine: a choice oracle, exhaustive search of the tree of choices, and
//! exhaustive search of a state graph whose transitions are executions of the real code.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A detected violation.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::ctl::Fail { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

/// Errors of the machinery itself (never a statement about the code under test).
pub struct Machinery(pub String);

#[derive(Clone)]
pub struct Ctl(Rc<Inner>);

struct Inner {
    prefix: Vec<u16>,
    trace: RefCell<Vec<(u16, u16)>>,
    budget: Cell<u32>,
    log: Option<RefCell<String>>,
}

impl Ctl {
    pub fn new(prefix: Vec<u16>, log: bool) -> Ctl {
        Ctl(Rc::new(Inner {
            prefix,
            trace: RefCell::new(Vec::new()),
            budget: Cell::new(u32::MAX),
            log: log.then(|| RefCell::new(String::new())),
        }))
    }
    /// Every value in `0..n` is explored.
    pub fn choose(&self, n: usize) -> usize {
        debug_assert!(n > 0 && n <= u16::MAX as usize);
        let mut t = self.0.trace.borrow_mut();
        let i = t.len();
        let c = self.0.prefix.get(i).copied().unwrap_or(0);
        if c as usize >= n {
            drop(t);
            std::panic::panic_any(Machinery(format!(
                "replay diverged at choice {i}: {c} of {n}"
            )));
        }
        t.push((c, n as u16));
        c as usize
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.choose(v.len())]
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    pub fn set_budget(&self, n: u32) {
        self.0.budget.set(n);
    }
    /// 0 is the ordinary answer; any other one uses up one unit of the deviation budget.
    pub fn choose_dev(&self, n: usize) -> usize {
        if n <= 1 || self.0.budget.get() == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 && self.0.budget.get() != u32::MAX {
            self.0.budget.set(self.0.budget.get() - 1);
        }
        c
    }
    pub fn pos(&self) -> usize {
        self.0.trace.borrow().len()
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if let Some(l) = &self.0.log {
            let mut l = l.borrow_mut();
            let _ = writeln!(l, "{}", f());
        }
    }
    fn take_log(&self) -> String {
        self.0
            .log
            .as_ref()
            .map(|l| l.borrow().clone())
            .unwrap_or_default()
    }
    fn choices(&self) -> Vec<u16> {
        self.0.trace.borrow().iter().map(|x| x.0).collect()
    }
}

#[derive(Default, Clone, Debug)]
pub struct SectionStats {
    pub executions: u64,
    /// Complete histories: executions that nothing continues
    pub traces: u64,
    /// Operations of the code under test, counting repetitions
    pub ops: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_depth: u64,
    pub exhausted: bool,
    pub secs: f64,
}

struct Beat {
    start_ms: AtomicU64,
    choices: Mutex<(String, Vec<u16>)>,
}

pub enum Mode {
    Run,
    Replay { section: String, choices: Vec<u16> },
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub mode: Mode,
    pub threads: usize,
    pub start: Instant,
    pub verif_dir: std::path::PathBuf,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    sections: Mutex<Vec<(String, SectionStats)>>,
    samples: Mutex<Vec<String>>,
    pub nontrivial: AtomicU64,
    notes: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    beats: Vec<Beat>,
    replayed: AtomicBool,
}

pub const HANG_SECS: u64 = 120;

fn payload_msg(p: &(dyn std::any::Any + Send)) -> Option<String> {
    if p.downcast_ref::<Machinery>().is_some() {
        return None;
    }
    Some(if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    })
}

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
}

/// Counts an operation of the code under test whose outcome is judged.
pub fn op() {
    OPS.with(|o| o.set(o.get() + 1));
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
    }));
}

/// A violation was found and is being reported.
static REPORTING: AtomicBool = AtomicBool::new(false);

/// Runs `f`, turning panics of the code under test into violations.
fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => match payload_msg(&*p) {
            Some(m) => {
                let at = PANIC_AT.with(|p| p.borrow().clone());
                fail("panic", format!("panic: {m} (at {at})"))
            }
            None => {
                let m = p.downcast_ref::<Machinery>().unwrap();
                if REPORTING.load(Ordering::SeqCst) {
                    // A violation was found already, which is being reported; this thread may
                    // have lost its scratch directory to that.
                    return fail("machinery", m.0.clone());
                }
                println!("MACHINERY ERROR: {}", m.0);
                std::process::exit(2);
            }
        },
    }
}

impl Ctx {
    pub fn new(property: &str, tier: Tier, mode: Mode, verif_dir: std::path::PathBuf) -> Arc<Ctx> {
        let threads = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .clamp(1, 8);
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif_dir.join("known_findings.json")) {
            let v: serde_json::Value =
                serde_json::from_str(&s).expect("known_findings.json is not valid JSON");
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["status"] == "known" && f["property"] == property {
                    known.push((
                        f["signature"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        let ctx = Arc::new(Ctx {
            property: property.to_string(),
            tier,
            mode,
            threads,
            start: Instant::now(),
            verif_dir,
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            sections: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            nontrivial: AtomicU64::new(0),
            notes: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            beats: (0..threads)
                .map(|_| Beat {
                    start_ms: AtomicU64::new(0),
                    choices: Mutex::new(Default::default()),
                })
                .collect(),
            replayed: AtomicBool::new(false),
        });
        let c2 = ctx.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let now = c2.start.elapsed().as_millis() as u64 + 1;
                for b in &c2.beats {
                    let s = b.start_ms.load(Ordering::Relaxed);
                    if s != 0 && now.saturating_sub(s) > HANG_SECS * 1000 {
                        let (section, choices) = b.choices.lock().unwrap().clone();
                        c2.violation(
                            &section,
                            &choices,
                            &Fail {
                                sig: "hang".into(),
                                msg: format!("a single execution did not end in {HANG_SECS} s"),
                            },
                            "",
                        );
                    }
                }
            }
        });
        ctx
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            let mut x = s();
            if x.len() > 600 {
                let mut i = 600;
                while !x.is_char_boundary(i) {
                    i -= 1;
                }
                x.truncate(i);
            }
            v.push(x);
        }
    }
    pub fn note(&self, k: &str, n: u64) {
        *self.notes.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn note_max(&self, k: &str, n: u64) {
        let mut g = self.notes.lock().unwrap();
        let e = g.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    fn beat(&self, w: usize, section: &str, choices: &[u16]) {
        {
            let mut c = self.beats[w].choices.lock().unwrap();
            if c.0 != section {
                c.0 = section.to_string();
            }
            c.1.clear();
            c.1.extend_from_slice(choices);
        }
        self.beats[w].start_ms.store(
            self.start.elapsed().as_millis() as u64 + 1,
            Ordering::Relaxed,
        );
    }
    fn unbeat(&self, w: usize) {
        self.beats[w].start_ms.store(0, Ordering::Relaxed);
    }

    /// Reports a violation and ends the process.
    pub fn violation(&self, section: &str, choices: &[u16], f: &Fail, log: &str) -> ! {
        static ONCE: Mutex<()> = Mutex::new(());
        let _g = ONCE.lock();
        REPORTING.store(true, Ordering::SeqCst);
        if let Mode::Replay { .. } = self.mode {
            println!("replayed execution:\n{log}");
            println!("reproduced: [{}] {}", f.sig, f.msg);
            println!(
                "VIOLATION property={} replay={}",
                self.property,
                std::env::args().nth(2).unwrap_or_default()
            );
            crate::checks_builder::remove_scratch();
            std::process::exit(1);
        }
        let dir = self.verif_dir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!(
            "{}-{}.json",
            self.property,
            section.replace(|c: char| !c.is_alphanumeric(), "_")
        ));
        let v = serde_json::json!({
            "property": self.property,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "section": section,
            "choices": choices,
            "signature": f.sig,
            "what": f.msg,
            "execution": log,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("section: {section}");
        println!("what:    [{}] {}", f.sig, f.msg);
        if !log.is_empty() {
            let mut l = log.to_string();
            if l.len() > 6000 {
                let mut i = l.len() - 6000;
                while !l.is_char_boundary(i) {
                    i += 1;
                }
                l = format!("...{}", &l[i..]);
            }
            println!("execution:\n{l}");
        }
        self.write_evidence(1);
        println!(
            "VIOLATION property={} replay={}",
            self.property,
            path.display()
        );
        crate::checks_builder::remove_scratch();
        std::process::exit(1);
    }

    /// Returns if the failure is a listed known finding, otherwise reports it and exits.
    fn on_fail(&self, section: &str, choices: &[u16], f: Fail, rerun: &dyn Fn(&Ctl) -> R) {
        if self.known.iter().any(|k| k.0 == f.sig) {
            *self
                .known_hit
                .lock()
                .unwrap()
                .entry(f.sig.clone())
                .or_default() += 1;
            return;
        }
        REPORTING.store(true, Ordering::SeqCst);
        self.stop.store(true, Ordering::SeqCst);
        // Run it again, with a log of what happens.
        let ctl = Ctl::new(choices.to_vec(), true);
        let again = guarded(|| rerun(&ctl));
        let mut log = ctl.take_log();
        match again {
            Err(g) if g.sig == f.sig => {}
            Err(g) => {
                let _ = writeln!(log, "(running it again gave: [{}] {})", g.sig, g.msg);
            }
            Ok(()) => log.push_str("(running it again alone did not fail)\n"),
        }
        self.violation(section, choices, &f, &log);
    }

    fn replay(&self, section: &str, run: &dyn Fn(&Ctl) -> R) -> bool {
        if let Mode::Replay {
            section: s,
            choices,
        } = &self.mode
        {
            if s == section {
                self.replayed.store(true, Ordering::Relaxed);
                let ctl = Ctl::new(choices.clone(), true);
                let r = guarded(|| run(&ctl));
                if let Err(f) = r {
                    self.violation(section, choices, &f, &ctl.take_log());
                }
                println!("replayed execution:\n{}", ctl.take_log());
                println!("no violation");
            }
            return true;
        }
        false
    }

    /// Whether a section that began at `t0` and has found that many states has to be cut short. Never the
    /// case for the code these checks were made for; a change that makes everything slower, or that gives
    /// the library an ever-changing state (a counter, say) must not keep the check from answering.
    fn over(&self, t0: Instant, states: usize) -> bool {
        let (section, whole, most) = self.q((150, 690, 40_000_000), (3000, 9000, 100_000_000));
        (t0 > self.start && t0.elapsed() > Duration::from_secs(section))
            || self.start.elapsed() > Duration::from_secs(whole)
            || states > most
    }

    /// Exhaustively explores the tree of choices of `f`.
    pub fn tree<F>(&self, section: &str, f: F)
    where
        F: Fn(&Ctl) -> R + Sync,
    {
        self.tree_n(section, self.threads, f)
    }

    pub fn tree_n<F>(&self, section: &str, threads: usize, f: F)
    where
        F: Fn(&Ctl) -> R + Sync,
    {
        if self.replay(section, &|c| f(c)) {
            return;
        }
        let t0 = Instant::now();
        let execs = AtomicU64::new(0);
        let nodes = AtomicU64::new(0);
        let ops = AtomicU64::new(0);
        let maxd = AtomicU64::new(0);
        let global: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
        let idle = AtomicUsize::new(0);
        let cut = AtomicBool::new(false);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (execs, nodes, ops, maxd, global, idle, cut, f) =
                    (&execs, &nodes, &ops, &maxd, &global, &idle, &cut, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local: Vec<Vec<u16>> = Vec::new();
                        let mut is_idle = false;
                        loop {
                            if self.stop.load(Ordering::Relaxed) {
                                self.unbeat(w);
                                // Leave the reporting thread alone
                                std::thread::sleep(Duration::from_millis(50));
                                return;
                            }
                            if self.over(self.start, 0) {
                                cut.store(true, Ordering::Relaxed);
                                return;
                            }
                            let Some(prefix) = local.pop().or_else(|| {
                                let mut g = global.lock().unwrap();
                                let r = g.pop();
                                if r.is_some() && is_idle {
                                    is_idle = false;
                                    idle.fetch_sub(1, Ordering::SeqCst);
                                }
                                r
                            }) else {
                                if !is_idle {
                                    is_idle = true;
                                    idle.fetch_add(1, Ordering::SeqCst);
                                }
                                if idle.load(Ordering::SeqCst) == threads {
                                    return;
                                }
                                std::thread::sleep(Duration::from_micros(200));
                                continue;
                            };
                            self.beat(w, section, &prefix);
                            let plen = prefix.len();
                            let ctl = Ctl::new(prefix, false);
                            let r = guarded(|| f(&ctl));
                            self.unbeat(w);
                            ops.fetch_add(OPS.with(|o| o.take()), Ordering::Relaxed);
                            execs.fetch_add(1, Ordering::Relaxed);
                            let trace = ctl.0.trace.borrow().clone();
                            if trace.len() < plen && !REPORTING.load(Ordering::SeqCst) {
                                println!(
                                    "MACHINERY ERROR: replay shorter than its prefix in {section}"
                                );
                                std::process::exit(2);
                            }
                            nodes.fetch_add((trace.len() - plen) as u64 + 1, Ordering::Relaxed);
                            maxd.fetch_max(trace.len() as u64, Ordering::Relaxed);
                            if let Err(fl) = r {
                                let choices = ctl.choices();
                                self.on_fail(section, &choices, fl, &|c| f(c));
                            }
                            for i in (plen..trace.len()).rev() {
                                for alt in (1..trace[i].1).rev() {
                                    let mut p: Vec<u16> = trace[..i].iter().map(|x| x.0).collect();
                                    p.push(alt);
                                    local.push(p);
                                }
                            }
                            // The stack order does not matter for exhaustiveness
                            if idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                                let half = local.len() / 2;
                                let give: Vec<_> = local.drain(..half).collect();
                                global.lock().unwrap().extend(give);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        self.finish_section(
            section,
            SectionStats {
                traces: execs.load(Ordering::Relaxed),
                ops: ops.into_inner(),
                executions: execs.into_inner(),
                states: nodes.load(Ordering::Relaxed),
                transitions: nodes.load(Ordering::Relaxed).saturating_sub(1),
                max_depth: maxd.into_inner(),
                exhausted: !cut.into_inner(),
                secs: t0.elapsed().as_secs_f64(),
            },
        );
    }

    fn finish_section(&self, section: &str, st: SectionStats) {
        if self.stop.load(Ordering::Relaxed) {
            // Another thread is reporting
            std::thread::sleep(Duration::from_secs(3600));
        }
        println!(
            "  {section}: {} executions, {} operations, {} states, {} transitions, depth {}{}, {:.1} s",
            st.executions,
            st.ops,
            st.states,
            st.transitions,
            st.max_depth,
            if st.exhausted { "" } else { " (bounded)" },
            st.secs
        );
        self.sections
            .lock()
            .unwrap()
            .push((section.to_string(), st));
    }

    /// Explores every state reachable from `init` (which may itself make choices).
    pub fn graph<M, F>(&self, section: &str, max_depth: usize, init: F)
    where
        M: Machine,
        F: Fn(&Ctl) -> R<M> + Sync,
    {
        let full_run = |ctl: &Ctl| -> R {
            // Used for replays: keep stepping until the choices run out.
            let total = ctl.0.prefix.len();
            let mut m = init(ctl)?;
            while ctl.pos() < total {
                m.step(ctl)?;
            }
            m.probe(ctl)?;
            Ok(())
        };
        if self.replay(section, &full_run) {
            return;
        }
        let t0 = Instant::now();
        const SHARDS: usize = 256;
        let visited: Vec<Mutex<HashSet<u128>>> =
            (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
        let execs = AtomicU64::new(0);
        let trans = AtomicU64::new(0);
        let ops = AtomicU64::new(0);
        let news = AtomicU64::new(0);
        let mut frontier: Vec<(Box<[u16]>, u32)> = vec![(Box::new([]), 0)];
        let mut depth = 0usize;
        let mut exhausted = true;
        while !frontier.is_empty() {
            if depth > max_depth {
                exhausted = false;
                break;
            }
            let next: Mutex<Vec<(Box<[u16]>, u32)>> = Mutex::new(Vec::new());
            let idx = AtomicUsize::new(0);
            let cut = AtomicBool::new(false);
            std::thread::scope(|s| {
                for w in 0..self.threads {
                    let (visited, execs, trans, ops, news, next, idx, frontier, init, full_run) = (
                        &visited, &execs, &trans, &ops, &news, &next, &idx, &frontier, &init,
                        &full_run,
                    );
                    let cut = &cut;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut out = Vec::new();
                            loop {
                                if self.stop.load(Ordering::Relaxed) {
                                    self.unbeat(w);
                                    std::thread::sleep(Duration::from_millis(50));
                                    return;
                                }
                                if self.over(t0, news.load(Ordering::Relaxed) as usize) {
                                    cut.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let i = idx.fetch_add(1, Ordering::Relaxed);
                                let Some((node, steps)) = frontier.get(i) else {
                                    break;
                                };
                                let mut stack: Vec<Vec<u16>> = vec![node.to_vec()];
                                while let Some(prefix) = stack.pop() {
                                    self.beat(w, section, &prefix);
                                    let plen = prefix.len();
                                    let ctl = Ctl::new(prefix, false);
                                    let is_root = depth == 0;
                                    let r = guarded(|| {
                                        let mut m = init(&ctl)?;
                                        if !is_root {
                                            for _ in 0..*steps {
                                                m.step(&ctl)?;
                                            }
                                            if ctl.pos() != node.len() {
                                                std::panic::panic_any(Machinery(format!(
                                                    "replay diverged in {section}: {} choices instead of {}",
                                                    ctl.pos(),
                                                    node.len()
                                                )));
                                            }
                                            m.step(&ctl)?;
                                        }
                                        let k = m.key();
                                        let new = match k {
                                            Some(k) => visited[(k as usize) % SHARDS]
                                                .lock()
                                                .unwrap()
                                                .insert(k),
                                            None => true,
                                        };
                                        if new {
                                            m.probe(&ctl)?;
                                        }
                                        Ok(new)
                                    });
                                    self.unbeat(w);
                                    execs.fetch_add(1, Ordering::Relaxed);
                                    trans.fetch_add(u64::from(!is_root), Ordering::Relaxed);
                                    ops.fetch_add(OPS.with(|o| o.take()), Ordering::Relaxed);
                                    let trace = ctl.0.trace.borrow().clone();
                                    match r {
                                        Ok(true) => {
                                            news.fetch_add(1, Ordering::Relaxed);
                                            let c: Box<[u16]> =
                                                trace.iter().map(|x| x.0).collect();
                                            out.push((
                                                c,
                                                if is_root { 0 } else { steps + 1 },
                                            ));
                                        }
                                        Ok(false) => {}
                                        Err(f) => {
                                            let choices = ctl.choices();
                                            self.on_fail(section, &choices, f, &|c| full_run(c));
                                        }
                                    }
                                    for i in (plen..trace.len()).rev() {
                                        for alt in (1..trace[i].1).rev() {
                                            let mut p: Vec<u16> =
                                                trace[..i].iter().map(|x| x.0).collect();
                                            p.push(alt);
                                            stack.push(p);
                                        }
                                    }
                                }
                            }
                            next.lock().unwrap().append(&mut out);
                        })
                        .unwrap();
                }
            });
            frontier = next.into_inner().unwrap();
            if cut.into_inner() {
                exhausted = false;
                break;
            }
            // Reproducible order, whatever the thread schedule was
            frontier.sort();
            depth += 1;
        }
        let states = visited.iter().map(|v| v.lock().unwrap().len() as u64).sum();
        self.finish_section(
            section,
            SectionStats {
                traces: execs.load(Ordering::Relaxed) - news.into_inner() + frontier.len() as u64,
                ops: ops.into_inner(),
                executions: execs.into_inner(),
                states,
                transitions: trans.into_inner(),
                max_depth: depth as u64,
                exhausted,
                secs: t0.elapsed().as_secs_f64(),
            },
        );
    }

    pub fn write_evidence(&self, violations: u64) {
        let dir = self.verif_dir.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let secs = self.sections.lock().unwrap();
        let (mut e, mut s, mut t, mut o) = (0, 0, 0, 0);
        let mut all = true;
        let mut list = Vec::new();
        for (n, st) in secs.iter() {
            e += st.traces;
            o += st.ops;
            s += st.states;
            t += st.transitions;
            all &= st.exhausted;
            list.push(serde_json::json!({
                "section": n, "executions": st.executions, "operations": st.ops, "states": st.states,
                "transitions": st.transitions, "depth": st.max_depth,
                "complete_within_bounds": st.exhausted, "secs": st.secs,
            }));
        }
        let (level, rule) = ("model_checking", crate::counting_rule(&self.property));
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1);
        let kf: Vec<String> = self.known_hit.lock().unwrap().keys().cloned().collect();
        let v = serde_json::json!({
            "property": self.property,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": seed,
            "level": level,
            "coverage": {
                "states": s, "transitions": t, "traces_validated_against_impl": e,
                "operations_judged": o,
                "configurations": self.nontrivial.load(Ordering::Relaxed),
                "rule": rule,
                "samples": *self.samples.lock().unwrap(),
                "exhaustive": all,
                "sections": list,
                "counters": *self.notes.lock().unwrap(),
                "state_hook": cfg!(zippity_verif),
                "known_findings_hit": kf,
            },
            "assumptions": [
                "the code under test is deterministic given the entry sources' answers and the caller's calls",
                "every transition is an execution of the code in /repo; there is no separate model that could drift from it",
            ],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let _ = std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&v).unwrap(),
        );
    }

    pub fn finish(&self) -> i32 {
        if let Mode::Replay { section, .. } = &self.mode {
            if !self.replayed.load(Ordering::Relaxed) {
                println!("no section {section} in this check");
                return 2;
            }
            return 0;
        }
        self.write_evidence(0);
        for (sig, n) in self.known_hit.lock().unwrap().iter() {
            let what = self
                .known
                .iter()
                .find(|k| &k.0 == sig)
                .map(|k| k.1.as_str())
                .unwrap_or("");
            println!(
                "KNOWN-FINDING: property={} [{sig}] {what} ({n} executions)",
                self.property
            );
        }
        println!(
            "OK property={} held on everything explored ({:.1} s)",
            self.property,
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

pub trait Machine {
    /// Performs one operation, chosen with `ctl`.
    fn step(&mut self, ctl: &Ctl) -> R;
    /// Identifies the state; None if states can't be compared.
    fn key(&self) -> Option<u128>;
    /// Extra checks on a newly found state; the machine is discarded afterwards.
    fn probe(&mut self, _ctl: &Ctl) -> R {
        Ok(())
    }
}

/// 128 bit hash fed by formatting.
pub struct H(u64, u64);
impl H {
    pub fn new() -> H {
        H(0xcbf2_9ce4_8422_2325, 0x9e37_79b9_7f4a_7c15)
    }
    fn mix(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(23) ^ w).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        self.1 ^= self.1 >> 29;
    }
    pub fn end(mut self) -> u128 {
        self.mix(0x1234_5678_9abc_def1);
        self.mix(0x0fed_cba9_8765_4321);
        ((self.0 as u128) << 64) | self.1 as u128
    }
}
impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.mix(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let r = c.remainder();
        if !r.is_empty() {
            let mut x = [0u8; 8];
            x[..r.len()].copy_from_slice(r);
            x[7] = r.len() as u8;
            self.mix(u64::from_le_bytes(x));
        }
        Ok(())
    }
}
