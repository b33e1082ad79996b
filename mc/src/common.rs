//! Exploration engine: sections of indexed cases, parallel workers, statistics, evidence, replay files.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

static OUT_FD: AtomicI32 = AtomicI32::new(1);

/// The library prints a banner and log lines to stdout: keep fd 1 for ourselves and point it at /dev/null.
pub fn capture_stdio() {
    unsafe {
        let saved = libc::dup(1);
        OUT_FD.store(saved, SeqCst);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        if std::env::var_os("MC_STDERR").is_none() {
            libc::dup2(null, 2);
        }
    }
}

pub fn out(line: &str) {
    let s = format!("{}\n", line);
    unsafe {
        libc::write(OUT_FD.load(SeqCst), s.as_ptr() as *const _, s.len());
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// while the checks themselves are being put together, a panic is the explorer's own fault
pub static SETTING_UP: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if SETTING_UP.load(SeqCst) {
            out(&format!("ENGINE ERROR: panic at {}:{}: {}", loc, line, msg));
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((format!("{}:{}", loc, line), msg)));
    }));
}

/// Run code of the library under test that is allowed to panic; Err carries the panic text.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .map(|(l, m)| format!("{} [{}]", m, l))
            .unwrap_or_else(|| "panic".into())
    })
}

#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evaluations += o.evaluations;
        if self.samples.len() < 24 {
            self.samples.extend(o.samples.into_iter().take(3));
        }
    }
}

pub struct W {
    pub st: Stats,
    pub wire: crate::wire::WireBox,
    pub worker: usize,
    pub verbose: bool,
}

impl W {
    pub fn new(worker: usize) -> W {
        W { st: Stats::default(), wire: crate::wire::WireBox::new(worker), worker, verbose: false }
    }
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.st.states.insert(hash_of(t));
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        self.st.outcomes.insert(hash_of(t));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let s = f();
            self.st.samples.push(s);
        }
    }
}

pub type CaseResult = Result<(), String>;

pub struct Section {
    pub name: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64, &mut W) -> CaseResult + Send + Sync>,
}

/// set in the build without debug assertions: the first cases of every section only
pub const LITE_CASES: u64 = 1500;
pub fn lite() -> bool {
    std::env::var_os("MC_LITE").is_some()
}

impl Section {
    fn cases(&self) -> u64 {
        if lite() {
            self.n.min(LITE_CASES)
        } else {
            self.n
        }
    }
    /// a section whose cases wait rather than compute
    fn is_slow(&self) -> bool {
        self.name.starts_with("slow")
    }
}

pub fn section(name: &str, n: u64, f: impl Fn(u64, &mut W) -> CaseResult + Send + Sync + 'static) -> Section {
    Section { name: name.to_string(), n, f: Box::new(f) }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub sections: Vec<Section>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Violation {
    pub section: String,
    pub index: u64,
    pub what: String,
}

pub enum Verdict {
    Held,
    Violated(Vec<Violation>),
    EngineError(String),
}

const NWORKERS: usize = 8;
/// workers for the sections that mostly wait: they run beside the others from the start
const NSLOW: usize = 2;
const NSLOTS: usize = NWORKERS + NSLOW;
const CASE_LIMIT_S: u64 = 200;

pub fn is_engine_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("/verif/")
}

fn run_case(sec: &Section, i: u64, w: &mut W) -> Result<CaseResult, String> {
    match catch_unwind(AssertUnwindSafe(|| (sec.f)(i, w))) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            w.wire.reset();
            if is_engine_panic(&loc) {
                Err(format!("harness panic at {}: {}", loc, msg))
            } else {
                Ok(Err(format!("the library panicked where it must not: {} [{}]", msg, loc)))
            }
        }
    }
}

/// `progress`: a file of NWORKERS slots (section,index) so that a parent can name the case a crash happened in.
pub fn run_sections(check: &'static Check, progress: Option<&str>) -> (Verdict, Stats, Vec<(String, u64)>) {
    let mut total = Stats::default();
    let mut per_section = vec![];
    let slots: Arc<Vec<AtomicU64>> = Arc::new((0..NSLOTS * 3).map(|_| AtomicU64::new(0)).collect());
    let t0 = Instant::now();
    let done = Arc::new(AtomicBool::new(false));
    let prog = progress.map(|p| p.to_string());
    {
        let slots = slots.clone();
        let done = done.clone();
        let names: Vec<String> = check.sections.iter().map(|s| s.name.clone()).collect();
        let id = check.id;
        std::thread::spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = t0.elapsed().as_secs();
                for k in 0..NSLOTS {
                    let started = slots[k * 3 + 2].load(SeqCst);
                    if started != 0 && now + 1 > started + CASE_LIMIT_S {
                        let si = slots[k * 3].load(SeqCst) as usize;
                        let ix = slots[k * 3 + 1].load(SeqCst);
                        if done.load(SeqCst) || si == 0 {
                            continue;
                        }
                        let v = Violation {
                            section: names[si - 1].clone(),
                            index: ix,
                            what: format!("no progress for {} s: the code under test does not terminate on this case", CASE_LIMIT_S),
                        };
                        let path = write_replay(id, &v);
                        out(&format!("VIOLATION property={} replay={}", id, path));
                        out(&v.what);
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let mut violations: Vec<Violation> = vec![];
    let mut engine: Option<String> = None;
    let mut waiting = vec![];
    for (si, sec) in check.sections.iter().enumerate().filter(|(_, s)| s.is_slow() && !lite()) {
        let (slots, prog) = (slots.clone(), prog.clone());
        waiting.push((sec, std::thread::spawn(move || run_section(si, sec, NWORKERS..NSLOTS, &slots, &prog, t0))));
    }
    for (si, sec) in check.sections.iter().enumerate().filter(|(_, s)| !s.is_slow()) {
        let r = run_section(si, sec, 0..NWORKERS, &slots, &prog, t0);
        r.take_into(sec, &mut total, &mut per_section, &mut violations, &mut engine);
        if !violations.is_empty() || engine.is_some() {
            break;
        }
    }
    if violations.is_empty() && engine.is_none() {
        for (sec, h) in waiting {
            match h.join() {
                Ok(r) => r.take_into(sec, &mut total, &mut per_section, &mut violations, &mut engine),
                Err(_) => engine = Some(format!("section {}: worker panicked", sec.name)),
            }
        }
    }
    // (after a failure the waiting sections are left where they are: the process ends soon)
    done.store(true, SeqCst);
    violations.truncate(1);
    if !violations.is_empty() {
        return (Verdict::Violated(violations), total, per_section);
    }
    if let Some(e) = engine {
        return (Verdict::EngineError(e), total, per_section);
    }
    (Verdict::Held, total, per_section)
}

struct SectionRun {
    stats: Stats,
    found: Vec<Violation>,
    engine: Option<String>,
    completed: u64,
}

impl SectionRun {
    fn take_into(mut self, sec: &Section, total: &mut Stats, per_section: &mut Vec<(String, u64)>, violations: &mut Vec<Violation>, engine: &mut Option<String>) {
        total.merge(self.stats);
        per_section.push((sec.name.clone(), self.completed));
        if self.engine.is_some() {
            *engine = self.engine;
        }
        self.found.sort_by_key(|v| v.index);
        if !self.found.is_empty() {
            violations.push(self.found.remove(0));
        }
    }
}

/// all cases of one section, claimed in order by the workers of the range
fn run_section(si: usize, sec: &Section, workers: std::ops::Range<usize>, slots: &Arc<Vec<AtomicU64>>, prog: &Option<String>, t0: Instant) -> SectionRun {
    let cases = sec.cases();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let eng: Mutex<Option<String>> = Mutex::new(None);
    let merged = Mutex::new(Stats::default());
    let completed = AtomicU64::new(0);
    std::thread::scope(|s| {
        for k in workers {
            let (next, best, found, eng, merged, completed) = (&next, &best, &found, &eng, &merged, &completed);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut w = W::new(k);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= cases || i > best.load(SeqCst) || eng.lock().unwrap().is_some() {
                            break;
                        }
                        slots[k * 3].store(si as u64 + 1, SeqCst);
                        slots[k * 3 + 1].store(i, SeqCst);
                        slots[k * 3 + 2].store(t0.elapsed().as_secs() + 1, SeqCst);
                        if let Some(p) = prog {
                            write_progress(p, k, si as u64 + 1, i);
                        }
                        match run_case(sec, i, &mut w) {
                            Ok(Ok(())) => {
                                completed.fetch_add(1, SeqCst);
                            }
                            Ok(Err(what)) => {
                                best.fetch_min(i, SeqCst);
                                found.lock().unwrap().push(Violation { section: sec.name.clone(), index: i, what });
                            }
                            Err(e) => {
                                *eng.lock().unwrap() = Some(format!("section {} case {}: {}", sec.name, i, e));
                            }
                        }
                        slots[k * 3 + 2].store(0, SeqCst);
                        slots[k * 3].store(0, SeqCst);
                        if let Some(p) = prog {
                            write_progress(p, k, 0, 0);
                        }
                    }
                    let st = std::mem::take(&mut w.st);
                    merged.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let stats = merged.into_inner().unwrap();
    if std::env::var_os("MC_TIMING").is_some() {
        out(&format!("  section {:30} n={:8} traces={} evaluations={} t={:?}", sec.name, sec.n, stats.traces, stats.evaluations, t0.elapsed()));
    }
    SectionRun { stats, found: found.into_inner().unwrap(), engine: eng.into_inner().unwrap(), completed: completed.load(SeqCst) }
}

thread_local! {
    static PROG: RefCell<Option<(String, std::fs::File)>> = RefCell::new(None);
}

fn write_progress(p: &str, k: usize, sec: u64, idx: u64) {
    use std::os::unix::fs::FileExt;
    PROG.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            if let Ok(f) = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p) {
                *c = Some((p.to_string(), f));
            }
        }
        if let Some((_, f)) = c.as_ref() {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&sec.to_le_bytes());
            b[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = f.write_all_at(&b, (k * 16) as u64);
        }
    });
}

pub fn read_progress(p: &str) -> Vec<(u64, u64)> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()),
            )
        })
        .filter(|(s, _)| *s != 0)
        .collect()
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn current_tier() -> Tier {
    match std::env::var("MC_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn write_replay(id: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, id, v.section.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), v.index);
    let j = serde_json::json!({
        "property": id, "tier": tier_name(current_tier()), "build": if cfg!(debug_assertions) { "debug" } else { "nodebug" }, "section": v.section, "index": v.index,
        "what": v.what,
        "how_to_replay": format!("/verif/check.sh replay {}", path),
    });
    let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()));
    path
}
