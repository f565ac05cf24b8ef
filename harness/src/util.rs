//! Verdicts, evidence, seeds, watchdogs.
use rand::{rngs::StdRng, SeedableRng};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub static START: OnceLock<Instant> = OnceLock::new();

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Whether this is a run within C24, whose instrumented builds are slow
pub fn brief() -> bool {
    std::env::var("VERIF_BRIEF").is_ok()
}

/// The lengths that a brief run has time for
pub fn lengths(all: &[usize]) -> Vec<usize> {
    all.iter().copied().filter(|l| *l <= 3000 || !brief()).collect()
}

/// The run in a build without debug assertions, after one with them
pub fn plain() -> bool {
    std::env::var("VERIF_PLAIN").is_ok()
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// The panics of the code under test while a check observes it.
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Messages of the checks of the compiler and the standard library that end a program before undefined behaviour
pub const UB_CHECKS: [&str; 3] = ["unsafe precondition", "an enum from an invalid value", "pointer dereference"];

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if UB_CHECKS.iter().any(|s| msg.contains(s)) {
            eprintln!("UB CHECK: {msg} at {loc}");
        }
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// Whether a panic location is in the harness itself
pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/") || loc.contains("harness/src/")
}

/// Runs `f`, which only calls the code under test; `Err` describes its panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

pub fn take_last_panic() -> (String, String) {
    LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default()
}

// ---- CPU-time watchdog for calls that must end ----
struct Slot {
    clock: libc::clockid_t,
    start_ns: AtomicU64,
    limit_ns: AtomicU64,
    name: Mutex<String>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
static CURRENT_ID: OnceLock<String> = OnceLock::new();

struct MySlot(Arc<Slot>);
impl Drop for MySlot {
    fn drop(&mut self) {
        SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &self.0));
    }
}
thread_local! {
    static MY_SLOT: MySlot = {
        let mut clock: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        let s = Arc::new(Slot { clock, start_ns: AtomicU64::new(u64::MAX), limit_ns: AtomicU64::new(0), name: Mutex::new(String::new()) });
        SLOTS.lock().unwrap().push(s.clone());
        MySlot(s)
    };
}

fn clock_ns(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(c, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn set_current_id(id: &str) {
    let _ = CURRENT_ID.set(id.to_string());
}

/// Runs `f`; if it uses more than `secs` seconds of CPU on this thread it is reported as not ending.
pub fn bounded<T>(name: &str, secs: u64, f: impl FnOnce() -> T) -> T {
    let s = MY_SLOT.with(|s| s.0.clone());
    {
        let mut n = s.name.lock().unwrap();
        n.clear();
        n.push_str(name);
    }
    s.limit_ns.store(secs * 1_000_000_000, Ordering::SeqCst);
    s.start_ns.store(clock_ns(s.clock), Ordering::SeqCst);
    let r = f();
    s.start_ns.store(u64::MAX, Ordering::SeqCst);
    r
}

/// Called by the main thread every now and then
pub fn watchdog_tick() {
    // a thread stays in the list, and its clock valid, while the list is locked
    for s in SLOTS.lock().unwrap().iter() {
        let start = s.start_ns.load(Ordering::SeqCst);
        if start != u64::MAX {
            let now = clock_ns(s.clock);
            let limit = s.limit_ns.load(Ordering::SeqCst);
            if now > start && now - start > limit && s.start_ns.load(Ordering::SeqCst) == start {
                let name = s.name.lock().unwrap().clone();
                let id = CURRENT_ID.get().cloned().unwrap_or_default();
                report_violation(&id, &format!("does not end (more than {} s of CPU): {name}", limit / 1_000_000_000));
                std::process::exit(1);
            }
        }
    }
    if seconds_left() == 0 {
        remove_scratch();
        eprintln!("watchdog: inconclusive, out of time");
        std::process::exit(2);
    }
}

/// How long this run may still take
pub fn seconds_left() -> u64 {
    static DEADLINE: OnceLock<u64> = OnceLock::new();
    let now = || std::time::SystemTime::UNIX_EPOCH.elapsed().map(|d| d.as_secs()).unwrap_or(0);
    let deadline = *DEADLINE.get_or_init(|| {
        let given = std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok());
        given.unwrap_or_else(|| now() + if thorough() { 6 * 3600 } else { 860 })
    });
    deadline.saturating_sub(now())
}

static SCRATCH: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);

/// A scratch directory that goes away in the end
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let base = verif_dir().join("target").join("scratch");
        let p = base.join(format!("{name}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("harness: scratch directory");
        SCRATCH.lock().unwrap().push(p.clone());
        // what killed runs left behind
        if let Ok(d) = std::fs::read_dir(&base) {
            for e in d.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                let pid = n.rsplit('-').next().unwrap_or("").to_string();
                if pid.parse::<u32>().is_ok() && !std::path::Path::new(&format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn remove_scratch() {
    let _ = std::env::set_current_dir("/");
    if let Ok(l) = SCRATCH.lock() {
        for p in l.iter() {
            let _ = std::fs::remove_dir_all(p);
        }
    }
}

static SAVED_STDOUT: OnceLock<i32> = OnceLock::new();

/// From here on what the code under test prints is dropped; `out` still prints.
pub fn quiet_stdout() {
    SAVED_STDOUT.get_or_init(|| unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        fd
    });
}

pub fn out(s: &str) {
    use std::io::Write;
    let text = format!("{s}\n");
    match SAVED_STDOUT.get() {
        Some(fd) => unsafe {
            libc::write(*fd, text.as_ptr().cast(), text.len());
        },
        None => {
            let _ = std::io::stdout().write_all(text.as_bytes());
            let _ = std::io::stdout().flush();
        }
    }
}

pub fn report_violation(id: &str, detail: &str) -> PathBuf {
    remove_scratch();
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.txt"));
    let text = format!(
        "property: {id}\nVERIF_SEED={} VERIF_TIER={}\nreplay: VERIF_SEED={} VERIF_TIER={} /verif/run.sh {id}\n\n{detail}\n",
        seed(),
        if thorough() { "thorough" } else { "quick" },
        seed(),
        if thorough() { "thorough" } else { "quick" },
    );
    let _ = std::fs::write(&path, text);
    out(detail);
    out(&format!("VIOLATION property={id} replay={}", path.display()));
    path
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: StdRng,
    pub evals: u64,
    distinct: HashSet<u64>,
    distinct_more: u64,
    pub samples: Vec<String>,
    pub metrics: BTreeMap<String, u64>,
    pub rule: String,
    pub exhaustive: bool,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    known: Vec<(String, String)>,
    known_hits: BTreeMap<String, (u64, String)>,
}

impl Ctx {
    pub fn new(id: &str) -> Self {
        let s = seed();
        let known = std::fs::read_to_string(verif_dir().join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix(&format!("known: property={id} sig="))?;
                let (sig, text) = rest.split_once(' ').unwrap_or((rest, ""));
                Some((sig.to_string(), text.to_string()))
            })
            .collect();
        Ctx {
            id: id.into(),
            seed: if plain() { s.wrapping_add(1_000_003) } else { s },
            thorough: thorough(),
            rng: StdRng::seed_from_u64(s.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_of(id) ^ if plain() { 0x5bd1e995 } else { 0 }),
            evals: 0,
            distinct: HashSet::new(),
            distinct_more: 0,
            samples: vec![],
            metrics: BTreeMap::new(),
            rule: String::new(),
            exhaustive: false,
            assumptions: vec![],
            level: "exploration",
            known,
            known_hits: BTreeMap::new(),
        }
    }

    /// quick or thorough amount
    pub fn amount(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else if brief() {
            quick
        } else {
            // cheap checks can do more of the same in a few seconds
            let times = match self.id.as_str() {
                "C01" | "C06" | "C08" | "C11" | "C20" | "C23" => 8,
                "C12" | "C21" => 5,
                "C05" | "C07" | "C09" | "C10" | "C13" => 3,
                "C02" | "C03" => 2,
                _ => 1,
            };
            (quick * times).min(thorough.max(quick))
        }
    }

    /// Counts one evaluated case, identified by `key`
    pub fn eval(&mut self, key: u64) {
        self.evals += 1;
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }

    /// Counts cases of an enumeration without repetition
    pub fn eval_many(&mut self, n: u64) {
        self.evals += n;
        self.distinct_more += n;
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 8 {
            let s = s();
            self.samples.push(s);
        }
    }

    pub fn metric(&mut self, k: &str, n: u64) {
        *self.metrics.entry(k.to_string()).or_insert(0) += n;
    }

    pub fn metric_max(&mut self, k: &str, n: u64) {
        let e = self.metrics.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    /// Records a violation with an exact signature that may be a listed finding; ends the check if it isn't.
    pub fn known_or_fail(&mut self, sig: &str, detail: impl FnOnce() -> String) {
        if let Some((s, text)) = self.known.iter().find(|(s, _)| s == sig) {
            let d = if self.known_hits.contains_key(s) { String::new() } else { format!("{text} (e.g. {})", detail()) };
            let e = self.known_hits.entry(s.clone()).or_insert((0, d));
            e.0 += 1;
            return;
        }
        let d = detail();
        self.fail(d)
    }

    pub fn fail(&mut self, detail: String) -> ! {
        self.write_evidence(1);
        report_violation(&self.id.clone(), &detail);
        std::process::exit(1);
    }

    /// The check itself is broken, or could not observe anything
    pub fn error(&mut self, detail: &str) -> ! {
        remove_scratch();
        eprintln!("ERROR of check {}: {detail}", self.id);
        std::process::exit(2);
    }

    pub fn finish(mut self) -> ! {
        if self.evals == 0 {
            self.error("nothing was observed");
        }
        remove_scratch();
        for (s, (n, text)) in self.known_hits.iter().filter(|_| !plain()) {
            out(&format!("KNOWN-FINDING: property={} {} [{} times, signature {}]", self.id, text, n, s));
        }
        if plain() {
            self.add_plain_evidence();
        } else {
            self.write_evidence(0);
        }
        out(&format!(
            "{}{}: held on {} evaluations ({} distinct), {:.1} s",
            self.id,
            if plain() { " (plain release build)" } else { "" },
            self.evals,
            self.distinct.len() as u64 + self.distinct_more,
            START.get().unwrap().elapsed().as_secs_f64()
        ));
        std::process::exit(0);
    }

    /// Notes in the evidence of the first run what this one saw
    fn add_plain_evidence(&mut self) {
        let p = verif_dir().join("evidence").join(format!("{}.json", self.id));
        let Ok(j) = std::fs::read_to_string(&p) else { return self.write_evidence(0) };
        let more = format!(
            "\"plain_release_build\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.3}}},\n  \"exhaustive\":",
            self.evals,
            self.distinct.len() as u64 + self.distinct_more,
            START.get().map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0)
        );
        let tmp = p.with_extension("tmp");
        let _ = std::fs::write(&tmp, j.replacen("\"exhaustive\":", &more, 1));
        let _ = std::fs::rename(&tmp, &p);
    }

    fn write_evidence(&mut self, violations: u64) {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let samples: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let metrics: Vec<String> = self.metrics.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| json_str(s)).collect();
        let known: Vec<String> = self
            .known_hits
            .iter()
            .map(|(s, (n, t))| format!("{{\"signature\": {}, \"times\": {}, \"text\": {}}}", json_str(s), n, json_str(t)))
            .collect();
        let j = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"observed\": {{{}}},\n  \"known_findings\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&self.id),
            json_str(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            json_str(self.level),
            self.evals,
            self.distinct.len() as u64 + self.distinct_more,
            json_str(&self.rule),
            self.exhaustive,
            metrics.join(", "),
            known.join(", "),
            samples.join(", "),
            assumptions.join(", "),
            START.get().map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0),
            violations
        );
        let p = dir.join(format!("{}.json", self.id));
        let tmp = dir.join(format!(".{}.json.tmp", self.id));
        let _ = std::fs::write(&tmp, j);
        let _ = std::fs::rename(&tmp, &p);
    }
}

#[macro_export]
macro_rules! ck {
    ($ctx:expr, $cond:expr, $($arg:tt)*) => {
        if !$cond {
            let d = format!($($arg)*);
            $ctx.fail(d);
        }
    };
}

/// Unwraps a guarded call
#[macro_export]
macro_rules! run {
    ($ctx:expr, $call:expr, $($arg:tt)*) => {
        match $crate::util::guarded(|| $call) {
            Ok(v) => v,
            Err(e) => {
                let d = format!("{}: {}", format!($($arg)*), e);
                $ctx.fail(d);
            }
        }
    };
}

/// Runs `f(part)` for every part on all cores; the first error (by part) wins.
pub fn parallel<T: Send>(parts: usize, f: impl Fn(usize) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Mutex<BTreeMap<usize, Result<T, String>>> = Mutex::new(BTreeMap::new());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= parts {
                    return;
                }
                let r = match guarded(|| f(i)) {
                    Ok(r) => r,
                    Err(e) => Err(e),
                };
                let bad = r.is_err();
                results.lock().unwrap().insert(i, r);
                if bad {
                    next.store(parts, Ordering::SeqCst);
                }
            });
        }
    });
    results.into_inner().unwrap().into_values().collect()
}
