//! C24: the library never has undefined behaviour. Runs it under Miri and under the address, memory and
//! thread sanitizers: the calls of `bin/ub.rs` with valid and invalid values, and all the other checks.
use super::*;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const TARGET: &str = "x86_64-unknown-linux-gnu";
const SECTIONS: [&str; 14] =
    ["moves", "indices", "tables", "threads", "parser", "small-tables", "space", "big-cubes", "cubes", "random", "search", "pictures", "center-sets", "sets"];
/// sections in which the arrangement of fields in memory could matter
const LAYOUT: [&str; 6] = ["moves", "small-tables", "big-cubes", "cubes", "center-sets", "sets"];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Watch {
    Miri,
    MiriLayout,
    Address,
    Memory,
    Thread,
}
use Watch::*;

impl Watch {
    fn name(&self) -> &'static str {
        match self {
            Miri => "Miri",
            MiriLayout => "Miri with shuffled layouts",
            Address => "the address sanitizer",
            Memory => "the memory sanitizer",
            Thread => "the thread sanitizer",
        }
    }
    fn dir(&self) -> PathBuf {
        verif_dir().join("target").join(match self {
            Miri => "miri",
            MiriLayout => "miri-layout",
            Address => "asan",
            Memory => "msan",
            Thread => "tsan",
        })
    }
    fn miri(&self) -> bool {
        matches!(self, Miri | MiriLayout)
    }
    fn cargo(&self, hooks: bool, layout: u64) -> Command {
        let mut c = Command::new("cargo");
        c.current_dir(verif_dir().join("harness")).arg("+nightly");
        let mut flags = vec![];
        if hooks {
            flags.push("--cfg barbarosa_verif".to_string());
        }
        if self.miri() {
            c.args(["miri", "run", "--quiet"]);
            if *self == MiriLayout {
                flags.push(format!("-Zrandomize-layout -Zlayout-seed={layout}"));
            }
        } else {
            c.args(["build", "--profile", "watched", "--target", TARGET]);
            flags.push(format!(
                "-Zsanitizer={}",
                match self {
                    Address => "address",
                    Memory => "memory",
                    _ => "thread",
                }
            ));
            // otherwise what the standard library does is not watched
            c.arg("-Zbuild-std");
        }
        c.args(["--offline", "--locked"]);
        c.env("RUSTFLAGS", flags.join(" ")).env("CARGO_TARGET_DIR", self.dir()).env_remove("RUSTC").env_remove("RUSTUP_TOOLCHAIN");
        c.stdin(Stdio::null());
        c
    }
    fn bin(&self, name: &str) -> PathBuf {
        self.dir().join(TARGET).join("watched").join(name)
    }
    /// Builds; whether with hooks
    fn build(&self, layout: u64) -> Result<bool, String> {
        let mut text = String::new();
        for hooks in [true, false] {
            let mut c = self.cargo(hooks, layout);
            if self.miri() {
                c.args(["--bin", "ub", "--", "nothing", "1", "0"]);
            }
            let o = c.output().map_err(|e| e.to_string())?;
            if o.status.success() {
                return Ok(hooks);
            }
            let e = String::from_utf8_lossy(&o.stderr);
            text = e.lines().filter(|l| !l.starts_with("warning")).collect::<Vec<_>>().join("\n");
            if let Some(u) = undefined(&e) {
                return Err(u);
            }
        }
        let tail: String = text.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect();
        Err(format!("it does not build: {tail}"))
    }
}

/// The first report of undefined behaviour in a text
fn undefined(text: &str) -> Option<String> {
    const SIGNS: [&str; 6] =
        ["error: Undefined Behavior", "ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: ThreadSanitizer", "UB CHECK: ", "unsafe precondition(s) violated"];
    // the process ran out of something: no undefined behaviour
    const OTHER: [&str; 6] = ["stack-overflow", "allocation-size-too-big", "out-of-memory", "calloc-overflow", "failed to allocate", "rss-limit-exceeded"];
    let mut from = 0;
    while let Some(i) = SIGNS.iter().filter_map(|s| text[from..].find(s)).min() {
        let rest: String = text[from + i..].chars().take(2500).collect();
        if !OTHER.iter().any(|o| rest.lines().next().unwrap_or("").contains(o)) {
            return Some(rest);
        }
        from += i + 1;
    }
    None
}

enum Work {
    /// section, seed, rounds
    Calls(&'static str, u64, u64),
    /// another check
    Check(&'static str),
}

struct Job {
    watch: Watch,
    work: Work,
    /// whether it must be noticed
    bad: bool,
}

#[derive(Default)]
struct Outcome {
    calls: u64,
    panics: u64,
    evals: u64,
    cut: bool,
    other: Option<String>,
    report: Option<String>,
    secs: f64,
}

fn tail(s: &str, n: usize) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(n)..].iter().collect()
}

/// Runs a command for some time; its output, and whether it was cut short
fn timed(c: &mut Command, until: Instant, dir: &Path) -> (String, bool, Option<std::process::ExitStatus>) {
    let files = [dir.join("stdout"), dir.join("stderr")];
    let make = |p: &PathBuf| std::fs::File::create(p).expect("harness: file");
    c.stdout(make(&files[0])).stderr(make(&files[1])).process_group(0);
    let mut child = c.spawn().expect("harness: spawn");
    let mut cut = false;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if Instant::now() > until {
            cut = true;
            // SAFETY: the group of the child, which has not been waited for
            unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(30));
    };
    let text = files.map(|p| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned()).concat();
    (text, cut, status)
}

fn perform(job: &Job, hooks: bool, layout: u64, dir: &Path, until: Instant) -> Outcome {
    let sub = dir.join("here");
    std::fs::create_dir_all(&sub).expect("harness: dir");
    let mut c;
    if job.watch.miri() {
        c = job.watch.cargo(hooks, layout);
        let Work::Calls(section, seed, rounds) = &job.work else { unreachable!() };
        c.args(["--manifest-path"]).arg(verif_dir().join("harness/Cargo.toml"));
        c.args(["--bin", "ub", "--", section, &seed.to_string(), &rounds.to_string()]).current_dir(&sub);
        c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={}", seed ^ layout));
    } else {
        match &job.work {
            Work::Calls(section, seed, rounds) => {
                c = Command::new(job.watch.bin("ub"));
                c.args([section, &seed.to_string()[..], &rounds.to_string()[..]]).current_dir(&sub);
            }
            Work::Check(id) => {
                c = Command::new(job.watch.bin("bharness"));
                c.arg(id).current_dir(&sub).env("VERIF_DIR", dir).env("VERIF_TIER", "quick").env("VERIF_NO_GENERATION", "1").env("VERIF_BRIEF", "1").env("VERIF_HARNESS", job.watch.bin("bharness"));
                let _ = std::fs::create_dir_all(dir.join("evidence"));
                let _ = std::fs::create_dir_all(dir.join("target"));
                let _ = std::fs::copy(verif_dir().join("known_findings.txt"), dir.join("known_findings.txt"));
            }
        }
        let log = format!("log_path={}:", dir.join("san").display());
        c.env("ASAN_OPTIONS", format!("{log}detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:detect_invalid_pointer_pairs=0"));
        c.env("MSAN_OPTIONS", format!("{log}allocator_may_return_null=1"));
        c.env("TSAN_OPTIONS", format!("{log}allocator_may_return_null=1:halt_on_error=0:history_size=4"));
    }
    c.stdin(Stdio::null());
    let (mut text, cut, status) = timed(&mut c, until, dir);
    for e in std::fs::read_dir(dir).expect("harness: dir").flatten() {
        if e.file_name().to_string_lossy().starts_with("san.") {
            text += &String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default());
        }
    }
    let mut o = Outcome { cut, report: undefined(&text), ..Default::default() };
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[..] {
            ["observed", _, c, p, ..] => {
                o.calls = c.parse().unwrap_or(0);
                o.panics = p.parse().unwrap_or(0);
            }
            [_, "held", "on", n, ..] => o.evals = n.parse().unwrap_or(0),
            _ => (),
        }
    }
    if o.report.is_none() && !cut {
        use std::os::unix::process::ExitStatusExt;
        let s = status.unwrap();
        if let Some(sig @ (libc::SIGSEGV | libc::SIGBUS | libc::SIGILL)) = s.signal() {
            if !text.contains("stack overflow") && !text.contains("stack-overflow") {
                o.report = Some(format!("ended by signal {sig}: {}", tail(&text, 1000)));
            }
        } else if !s.success() {
            o.other = Some(format!("{s}: {}", tail(&text, 300)));
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    o
}

/// Builds everything that the check needs
pub fn child_build() {
    for w in [Address, Memory, Thread, Miri, MiriLayout] {
        match w.build(seed().max(1)) {
            Ok(_) => println!("built for {}", w.name()),
            Err(e) => println!("{}: {e}", w.name()),
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "calls of the whole public interface with valid and invalid values (bin/ub.rs) and all the other checks, under Miri (also with shuffled layouts), AddressSanitizer with the compiler's own checks, MemorySanitizer and ThreadSanitizer (all with an instrumented standard library); any report is a violation; deliberate defects must be reported".into();
    let layout = ctx.seed.max(1);
    let scratch = Scratch::new("C24");
    let all = [Address, Memory, Thread, Miri, MiriLayout];
    let built = match parallel(all.len(), |i| Ok((all[i], all[i].build(layout)))) {
        Ok(v) => v,
        Err(e) => ctx.error(&e),
    };
    let mut hooks = BTreeMap::new();
    for (w, r) in built {
        match r {
            Ok(h) => {
                hooks.insert(w, h);
                ctx.metric(if h { "builds with hooks" } else { "builds without hooks" }, 1);
            }
            Err(e) if undefined(&e).is_some() => ctx.fail(format!("{}: {e}", w.name())),
            Err(e) => ctx.error(&format!("{}: {e}", w.name())),
        }
    }
    let mut jobs = vec![];
    let seed = ctx.seed.wrapping_mul(1000);
    let bad = |watch, s| Job { watch, work: Work::Calls(s, seed, 1), bad: true };
    for s in ["bad-bounds", "bad-uninit", "bad-race", "bad-value"] {
        jobs.push(bad(Miri, s));
    }
    jobs.extend([bad(Address, "bad-bounds"), bad(Memory, "bad-uninit"), bad(Thread, "bad-race")]);
    // the longest first
    let checks = |w: Watch, ids: &[&'static str]| ids.iter().map(|i| Job { watch: w, work: Work::Check(i), bad: false }).collect::<Vec<_>>();
    if ctx.thorough {
        for w in [Thread, Memory, Address] {
            let mut ids = vec!["C18", "C14", "C15", "C10", "C05", "C16", "C17", "C02", "C12", "C11", "C04", "C07", "C01", "C08", "C20", "C21", "C03", "C06", "C09", "C19", "C23", "C13"];
            if w == Thread {
                ids.retain(|i| *i != "C18"); // takes much too long
            }
            jobs.extend(checks(w, &ids));
        }
    } else {
        jobs.extend(checks(Address, &["C16", "C05", "C17", "C02", "C12", "C11", "C04", "C01", "C08", "C20", "C21", "C03", "C06", "C09", "C19", "C23", "C13"]));
        jobs.extend(checks(Thread, &["C16", "C21", "C09", "C23"]));
        jobs.extend(checks(Memory, &["C16", "C05", "C02", "C12", "C08", "C01", "C20", "C03", "C09", "C23", "C13"]));
    }
    let many = ctx.amount(1, 12);
    for s in SECTIONS {
        if s == "small-tables" && !hooks[&Miri] {
            continue;
        }
        for r in 0..many {
            jobs.push(Job { watch: Miri, work: Work::Calls(s, seed + r, 2), bad: false });
            if LAYOUT.contains(&s) {
                jobs.push(Job { watch: MiriLayout, work: Work::Calls(s, seed + 100 + r, 1), bad: false });
            }
        }
        for w in [Address, Memory, Thread] {
            if s != "small-tables" || hooks[&w] {
                let rounds = match s {
                    "tables" | "small-tables" => ctx.amount(3, 30),
                    _ => ctx.amount(600, 10_000),
                };
                jobs.push(Job { watch: w, work: Work::Calls(s, seed + 200, rounds), bad: false });
            }
        }
    }
    let until = Instant::now() + Duration::from_secs(ctx.amount(560, 4 * 3600).min(seconds_left().saturating_sub(60)));
    let base = scratch.0.clone();
    let done = parallel(jobs.len(), |i| {
        let dir = base.join(format!("{i}"));
        std::fs::create_dir_all(&dir).expect("harness: dir");
        let j = &jobs[i];
        let t = Instant::now();
        let mut o = perform(j, hooks[&j.watch], layout, &dir, until);
        o.secs = t.elapsed().as_secs_f64();
        match (&o.report, j.bad) {
            (Some(r), false) => {
                let what = match &j.work {
                    Work::Calls(s, seed, rounds) => format!("ub {s} {seed} {rounds}"),
                    Work::Check(id) => format!("check {id}"),
                };
                Err(format!("{what} under {}: {r}", j.watch.name()))
            }
            _ => Ok(o),
        }
    });
    let done = match done {
        Ok(v) => v,
        Err(e) if e.starts_with("harness") => ctx.error(&e),
        Err(e) => ctx.fail(e),
    };
    for (j, o) in jobs.iter().zip(&done) {
        let w = j.watch.name();
        if j.bad {
            if o.report.is_none() && !o.cut {
                ctx.error(&format!("{w} did not notice a deliberate defect"));
            }
            ctx.metric("deliberate defects noticed", 1);
            continue;
        }
        let name = match &j.work {
            Work::Calls(s, ..) => format!("{s} ({w})"),
            Work::Check(id) => format!("{id} ({w})"),
        };
        if std::env::var("VERIF_TIMES").is_ok() {
            eprintln!("time {:.1} {name}", o.secs);
        }
        if o.cut {
            ctx.metric("runs cut short", 1);
        }
        if let Some(e) = &o.other {
            ctx.metric(&format!("runs of {name} that ended early"), 1);
            eprintln!("note: {name}: {}", e.replace('\n', " / "));
        }
        ctx.metric(&format!("calls under {w}"), o.calls);
        ctx.metric(&format!("calls under {w} that panicked"), o.panics);
        ctx.metric(&format!("evaluations of checks under {w}"), o.evals);
        ctx.eval_many(o.calls + o.evals);
        ctx.sample(|| format!("{name}: {} calls, {} evaluations", o.calls, o.evals));
    }
}
