//! C16: a damaged or missing table file is never silently used.
use super::c14::{CORNERS, HALF_EDGES};
use super::*;
use crate::{ck, run};
use barbarosa::cube3::mus::cache::{self, Cache};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;

const CORNER_FILE: &str = "mus-cache/corners.barbarosa";
const EDGE_FILE: &str = "mus-cache/edges.barbarosa";

/// A file of one repeated byte; zeros take no space
fn constant(path: &str, len: usize, value: u8) {
    let f = std::fs::File::create(path).expect("harness: file");
    if value == 0 {
        f.set_len(len as u64).expect("harness: file");
    } else {
        std::fs::write(path, vec![value; len]).expect("harness: file");
    }
}

fn child(args: &[&str], dir: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("harness: exe"));
    c.arg("child").args(args).current_dir(dir).stdin(std::process::Stdio::null());
    c
}

/// The lines "R: ..." a child printed, and how it ended
fn answer(mut c: Command) -> (Vec<String>, String) {
    let o = c.output().expect("harness: child");
    let lines = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("R: ").map(|s| s.to_string())).collect();
    let err = String::from_utf8_lossy(&o.stderr);
    let err: String = err.chars().take(600).collect();
    (lines, format!("{}; {err}", o.status))
}

/// What the whole cache does with files of wrong sizes
fn whole_cache(ctx: &mut Ctx) {
    let s = Scratch::new("C16-whole");
    std::env::set_current_dir(&s.0).expect("harness: chdir");
    let put = |c: Option<usize>, e: Option<usize>| {
        let _ = std::fs::remove_dir_all("mus-cache");
        std::fs::create_dir("mus-cache").expect("harness: dir");
        if let Some(c) = c {
            constant(CORNER_FILE, c, 0);
        }
        if let Some(e) = e {
            constant(EDGE_FILE, e, 0);
        }
    };
    let good = (Some(CORNERS), Some(HALF_EDGES));
    let mut wrong = vec![
        (None, None),
        (None, Some(HALF_EDGES)),
        (Some(CORNERS), None),
        (Some(0), Some(HALF_EDGES)),
        (Some(CORNERS), Some(0)),
        (Some(1), Some(HALF_EDGES)),
        (Some(CORNERS - 1), Some(HALF_EDGES)),
        (Some(CORNERS + 1), Some(HALF_EDGES)),
        (Some(CORNERS), Some(HALF_EDGES - 1)),
        (Some(CORNERS), Some(HALF_EDGES + 1)),
        (Some(CORNERS), Some(HALF_EDGES / 2)),
        (Some(CORNERS / 2), Some(HALF_EDGES)),
        (Some(CORNERS * 2), Some(HALF_EDGES)),
        (Some(CORNERS), Some(HALF_EDGES * 2)),
        (Some(HALF_EDGES), Some(CORNERS)),
        (Some(CORNERS), Some(CORNERS)),
        (Some(HALF_EDGES), Some(HALF_EDGES)),
        (Some(CORNERS - 4096), Some(HALF_EDGES)),
        (Some(CORNERS), Some(HALF_EDGES - 512)),
    ];
    let more = ctx.amount(6, 60);
    for _ in 0..more {
        let c = ctx.rng.gen_range(0..CORNERS);
        let e = ctx.rng.gen_range(0..HALF_EDGES);
        wrong.push(if ctx.rng.gen() { (Some(c), Some(HALF_EDGES)) } else { (Some(CORNERS), Some(e)) });
    }
    for (c, e) in wrong {
        put(c, e);
        let r = guarded(Cache::load);
        if let Ok(Ok(cache)) = r {
            let d = run!(ctx, cache.get(&Cube3::SOLVED), "Cache::get");
            ctx.fail(format!("a corner table of {c:?} and an edge table of {e:?} bytes are loaded without an error (and used: {d})"));
        }
        // an existing damaged table is not built again in the quick checks' time either, so this must end soon
        if c.is_some() && e.is_some() {
            let (lines, end) = answer({
                let mut x = child(&["c16-init"], &s.0);
                limit_cpu(&mut x, 40);
                x
            });
            // killed for taking too long: it builds new tables, which is not a silent use of the damaged ones
            let built = lines.is_empty() && (end.contains("signal: 24") || end.contains("signal: 9"));
            ck!(
                ctx,
                built || lines.first().map(|l| l.as_str()) == Some("panic"),
                "with a corner table of {c:?} and an edge table of {e:?} bytes get_or_init answers {lines:?} ({end})"
            );
            if lines.len() > 1 {
                ck!(ctx, lines[1] == "get None", "after a failed initialisation: {}", lines[1]);
            }
        }
        ctx.eval(hash_of(&(c, e)));
        ctx.metric("wrong sizes of the real tables refused", 1);
    }
    // something else in the place of a table
    type Place = (&'static str, fn());
    let odd: [Place; 5] = [
        ("the corner table is a directory", || {
            let _ = std::fs::remove_file(CORNER_FILE);
            std::fs::create_dir(CORNER_FILE).unwrap()
        }),
        ("the edge table is a directory", || {
            let _ = std::fs::remove_file(EDGE_FILE);
            std::fs::create_dir(EDGE_FILE).unwrap()
        }),
        ("the folder is a file", || {
            std::fs::remove_dir_all("mus-cache").unwrap();
            std::fs::write("mus-cache", b"x").unwrap()
        }),
        ("the edge table links to itself", || {
            std::fs::remove_file(EDGE_FILE).unwrap();
            std::os::unix::fs::symlink("edges.barbarosa", EDGE_FILE).unwrap()
        }),
        ("the corner table links to an empty device", || {
            std::fs::remove_file(CORNER_FILE).unwrap();
            std::os::unix::fs::symlink("/dev/null", CORNER_FILE).unwrap()
        }),
    ];
    for (name, change) in odd {
        put(good.0, good.1);
        change();
        let r = guarded(Cache::load);
        ck!(ctx, !matches!(r, Ok(Ok(_))), "{name}: loaded without an error");
        let mut x = child(&["c16-init"], &s.0);
        limit_cpu(&mut x, 40);
        let (lines, end) = answer(x);
        ck!(ctx, lines.first().map(|l| l.as_str()) == Some("panic"), "{name}: get_or_init answers {lines:?} ({end})");
        ctx.eval(hash_of(name));
        let _ = std::fs::remove_file("mus-cache");
    }
    // and the right size is taken
    put(good.0, good.1);
    let c = run!(ctx, Cache::load(), "Cache::load");
    match c {
        Ok(c) => {
            let d = run!(ctx, c.get(&Cube3::SOLVED), "Cache::get");
            ck!(ctx, d == 0, "tables of zeros give {d}");
        }
        Err(e) => ctx.fail(format!("tables of the right size are refused: {e}")),
    }
    // values read back as stored, in the right table
    let mut b = vec![0u8; HALF_EDGES];
    let mut arrs = vec![];
    for v in 1..=200u8 {
        let a = Arr::random_solvable(&mut ctx.rng);
        let i = a.cube3().indices();
        for (x, e) in i.edges.iter().enumerate() {
            b[*e] = v.max(b[*e]);
            let _ = x;
        }
        arrs.push(a);
    }
    std::fs::write(EDGE_FILE, &b).expect("harness: file");
    let mut k = vec![0u8; CORNERS];
    for (j, a) in arrs.iter().enumerate() {
        if j % 2 == 0 {
            k[a.cube3().indices().corners] = 253 - j as u8;
        }
    }
    std::fs::write(CORNER_FILE, &k).expect("harness: file");
    match run!(ctx, Cache::load(), "Cache::load") {
        Ok(c) => {
            for a in &arrs {
                let i = a.cube3().indices();
                let want = k[i.corners].max(b[i.edges[0]]).max(b[i.edges[1]]);
                let got = run!(ctx, c.get(&a.cube3()), "Cache::get");
                ck!(ctx, got == want, "stored values {} {} {} are looked up as {got}", k[i.corners], b[i.edges[0]], b[i.edges[1]]);
                ctx.eval_many(1);
            }
        }
        Err(e) => ctx.fail(format!("tables of the right size are refused: {e}")),
    }
}

/// The command that builds the tables
fn command_line(ctx: &mut Ctx) {
    let bin = super::c22::build("release").unwrap_or_else(|e| ctx.error(&e));
    let s = Scratch::new("C16-cli");
    let dir = s.0.join("mus-cache");
    let sizes: [(Option<usize>, Option<usize>, &str); 6] = [
        (Some(CORNERS), Some(HALF_EDGES), "ends well"),
        (None, None, "builds"),
        (Some(CORNERS), None, "builds"),
        (None, Some(HALF_EDGES), "builds"),
        (Some(CORNERS), Some(HALF_EDGES - 1), "reports"),
        (Some(1), Some(HALF_EDGES), "reports"),
    ];
    for (c, e, want) in sizes {
        let _ = std::fs::remove_dir_all(&dir);
        if c.is_some() || e.is_some() {
            std::fs::create_dir(&dir).expect("harness: dir");
        }
        let (cf, ef) = (s.0.join(CORNER_FILE), s.0.join(EDGE_FILE));
        if let Some(c) = c {
            constant(cf.to_str().unwrap(), c, 0);
        }
        if let Some(e) = e {
            constant(ef.to_str().unwrap(), e, 0);
        }
        let mut x = Command::new(&bin);
        x.arg("--build-mus-cache").current_dir(&s.0).stdin(std::process::Stdio::null());
        limit_cpu(&mut x, if want == "builds" { 4 } else { 40 });
        let o = x.output().expect("harness: binary");
        let size = |p: &Path| std::fs::metadata(p).ok().map(|m| m.len() as usize);
        let complete = size(&cf) == Some(CORNERS) && size(&ef) == Some(HALF_EDGES);
        let said = String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>();
        let out_of_time = o.status.code().is_none();
        let fine = match want {
            "ends well" => o.status.success() && complete,
            // it has no time to finish
            "builds" => out_of_time || (o.status.success() && complete),
            // reported, or built again
            _ => out_of_time || !o.status.success() || complete,
        };
        ck!(
            ctx,
            fine,
            "barbarosa --build-mus-cache with a corner table of {c:?} and an edge table of {e:?} bytes: {} {said:?}; it leaves {:?} and {:?} bytes",
            o.status,
            size(&cf),
            size(&ef)
        );
        ctx.eval_many(1);
        ctx.metric("runs of barbarosa --build-mus-cache", 1);
    }
}

fn limit_cpu(c: &mut Command, secs: u64) {
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: secs, rlim_max: secs + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
}

/// A child: initialises the cache and says what happened
pub fn child_init() {
    crate::util::install_panic_hook();
    match guarded(|| cache::get_or_init(&Cube3::SOLVED)) {
        Ok(d) => println!("R: got {d}"),
        Err(_) => {
            println!("R: panic");
            println!("R: get {:?}", cache::get(&Cube3::SOLVED));
        }
    }
}

// ---------- first use by many threads ----------

/// A child: many threads use the cache for the first time while the edge table is being replaced.
/// Prints one line per thread and how often the files were opened.
pub fn child_threads(args: &[String]) {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::sync::{Barrier, Mutex};
    crate::util::install_panic_hook();
    let threads: usize = args[0].parse().unwrap();
    let seed: u64 = args[1].parse().unwrap();
    // damaged first: every thread must see the failure, then everything is repaired
    let broken = args[2] == "broken";
    let fd = unsafe {
        let fd = libc::inotify_init1(libc::IN_NONBLOCK);
        let dir = std::ffi::CString::new("mus-cache").unwrap();
        if fd >= 0 {
            libc::inotify_add_watch(fd, dir.as_ptr(), libc::IN_OPEN);
        }
        fd
    };
    if broken {
        constant(EDGE_FILE, HALF_EDGES - 1, 0);
        let barrier = Barrier::new(threads);
        let bad = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    barrier.wait();
                    let r = guarded(|| cache::get_or_init(&Cube3::SOLVED));
                    if r.is_ok() || cache::get(&Cube3::SOLVED).is_some() {
                        bad.lock().unwrap().push(format!("{r:?}"));
                    }
                });
            }
        });
        println!("R: broken {:?}", bad.into_inner().unwrap());
        constant(EDGE_FILE, HALF_EDGES, 2);
    }
    let clock = AtomicU64::new(1);
    let first_done = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let barrier = Barrier::new(threads + if broken { 0 } else { 1 });
    let log: Mutex<Vec<String>> = Mutex::new(vec![]);
    drain(fd);
    let read_before = bytes_read();
    std::thread::scope(|s| {
        if !broken {
            s.spawn(|| {
                // replaces the edge table as a whole, again and again
                barrier.wait();
                let mut i = 0;
                while !stop.load(Ordering::SeqCst) {
                    let v = i % 3 + 1;
                    let _ = std::fs::hard_link(format!("v{v}"), "mus-cache/new");
                    let _ = std::fs::rename("mus-cache/new", EDGE_FILE);
                    i += 1;
                    std::thread::sleep(std::time::Duration::from_micros(500));
                }
            });
        }
        let mut hs = vec![];
        for t in 0..threads {
            let (clock, first_done, barrier, log) = (&clock, &first_done, &barrier, &log);
            hs.push(s.spawn(move || {
                barrier.wait();
                let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(t as u64 * 0xD1B54A32D192ED03);
                x ^= x >> 29;
                let spin = x % 2000;
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                let mut out = vec![];
                for round in 0..40 {
                    let before = clock.fetch_add(1, Ordering::SeqCst);
                    let done_before = first_done.load(Ordering::SeqCst) < before;
                    if (t + round) % 3 == 0 || round == 39 {
                        let v = guarded(|| cache::get_or_init(&Cube3::SOLVED));
                        let now = clock.fetch_add(1, Ordering::SeqCst);
                        first_done.fetch_min(now, Ordering::SeqCst);
                        out.push(format!("{v:?}"));
                    } else {
                        match cache::get(&Cube3::SOLVED) {
                            Some(v) => out.push(format!("Ok({v})")),
                            None if done_before => out.push("None after the first use was over".into()),
                            None => {}
                        }
                    }
                }
                out.sort();
                out.dedup();
                log.lock().unwrap().push(out.join(", "));
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, Ordering::SeqCst);
    });
    let mut l = log.into_inner().unwrap();
    l.sort();
    l.dedup();
    println!("R: values {}", l.join(" | "));
    if broken {
        println!("R: opened {}", drain(fd));
        let once = (CORNERS + HALF_EDGES) as u64;
        let bytes = bytes_read().zip(read_before).map(|(now, before)| now - before);
        println!("R: {}", match bytes {
            None => "unknown".into(),
            Some(b) if b < once / 2 => "not read".into(),
            Some(b) if b < once / 10 * 13 => "read once".into(),
            Some(b) => format!("{b} bytes read of {once}"),
        });
    }
}

/// What this process has read from files so far
fn bytes_read() -> Option<u64> {
    let io = std::fs::read_to_string("/proc/self/io").ok()?;
    io.lines().find_map(|l| l.strip_prefix("rchar: "))?.trim().parse().ok()
}

/// How often something in the watched folder was opened
fn drain(fd: i32) -> i64 {
    if fd < 0 {
        return -1;
    }
    let mut buf = [0u8; 65536];
    let mut n = 0;
    loop {
        let r = unsafe { libc::read(fd, buf.as_mut_ptr().cast(), buf.len()) };
        if r <= 0 {
            return n;
        }
        let mut o = 0usize;
        while o + 16 <= r as usize {
            let mask = u32::from_ne_bytes(buf[o + 4..o + 8].try_into().unwrap());
            let len = u32::from_ne_bytes(buf[o + 12..o + 16].try_into().unwrap()) as usize;
            let name = String::from_utf8_lossy(&buf[o + 16..o + 16 + len]).to_string();
            if mask & libc::IN_OPEN != 0 && name.contains(".barbarosa") {
                n += 1;
            }
            o += 16 + len;
        }
    }
}

fn concurrent(ctx: &mut Ctx) {
    let s = Scratch::new("C16-threads");
    std::env::set_current_dir(&s.0).expect("harness: chdir");
    std::fs::create_dir("mus-cache").expect("harness: dir");
    constant(CORNER_FILE, CORNERS, 0);
    for v in 1..=3u8 {
        constant(&format!("v{v}"), HALF_EDGES, v);
    }
    let rounds = ctx.amount(6, 60);
    for i in 0..rounds {
        let _ = std::fs::remove_file("mus-cache/new");
        let _ = std::fs::remove_file(EDGE_FILE);
        std::fs::hard_link("v1", EDGE_FILE).expect("harness: link");
        let threads = [8, 2, 16, 3, 32, 5][i as usize % 6].to_string();
        let seed = ctx.rng.gen_range(0..1_000_000u32).to_string();
        let (lines, end) = answer(child(&["c16-threads", &threads, &seed, "whole"], &s.0));
        let ok = lines.len() == 1 && ["values Ok(1)", "values Ok(2)", "values Ok(3)"].contains(&lines[0].as_str());
        ck!(ctx, ok, "{threads} threads using the cache first at the same time, while whole valid tables (1, 2 or 3 everywhere) replace each other, see {lines:?} ({end})");
        ctx.metric(&format!("concurrent first uses that got table {}", &lines[0][10..11]), 1);
        ctx.eval(hash_of(&(&threads, &seed, &lines[0])));
    }
    for i in 0..ctx.amount(3, 12) {
        let _ = std::fs::remove_file(EDGE_FILE);
        let threads = [8, 2, 24][i as usize % 3].to_string();
        let (lines, end) = answer(child(&["c16-threads", &threads, "7", "broken"], &s.0));
        ck!(ctx, lines.len() == 4 && lines[0] == "broken []", "{threads} threads first using damaged tables: {lines:?} ({end})");
        ck!(ctx, lines[1] == "values Ok(2)", "{threads} threads using tables that were damaged before and then repaired see {lines:?} ({end})");
        ck!(ctx, !lines[3].contains("bytes read of"), "{threads} threads using the cache first at the same time: {}", lines[3]);
        ctx.metric(&format!("tables {}", lines[3]), 1);
        ctx.metric(&format!("files {} times in one go", lines[2]), 1);
        ctx.eval(hash_of(&("broken", &threads, i)));
        ctx.metric("concurrent first uses after a repair", 1);
    }
}

#[cfg(barbarosa_verif)]
mod faults {
    use super::super::c15::synth::*;
    use super::*;
    use barbarosa::cube3::mus::cache::verif_hooks::*;
    use barbarosa::cube3::mus::deindex::Deindexable;
    use barbarosa::generic::moves::Movable;

    pub enum Out {
        Exact,
        Wrong(String),
        Error(String),
    }
    impl std::fmt::Debug for Out {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Out::Exact => write!(f, "the exact table"),
                Out::Wrong(s) => write!(f, "a wrong table without an error: {s}"),
                Out::Error(s) => write!(f, "error: {s}"),
            }
        }
    }
    impl Out {
        fn exact(&self) -> bool {
            matches!(self, Out::Exact)
        }
        fn error(&self) -> bool {
            matches!(self, Out::Error(_))
        }
    }

    pub fn judge(want: &[u8], r: Result<std::io::Result<Vec<u8>>, String>) -> Out {
        match r {
            Ok(Ok(v)) if v == want => Out::Exact,
            Ok(Ok(v)) => {
                let i = (0..want.len().min(v.len())).find(|i| v[*i] != want[*i]);
                Out::Wrong(format!("{} entries instead of {}, first difference at {i:?}", v.len(), want.len()))
            }
            Ok(Err(e)) => Out::Error(e.to_string()),
            Err(e) => Out::Error(e),
        }
    }

    pub trait Small: Deindexable + DiskCacheable + Movable<AxisMove> + Clone {
        const NAME: &'static str;
        fn want() -> &'static Vec<u8>;
        fn op(op: &str) -> Out {
            judge(
                Self::want(),
                guarded(|| match op {
                    "load" => load_partial::<Self>(),
                    "use" => load_or_build_partial::<Self>(),
                    "build" => build_partial::<Self>(),
                    "write" => write_partial::<Self>(Self::want()).map(|_| Self::want().clone()),
                    _ => panic!("harness: op"),
                }),
            )
        }
    }
    macro_rules! small {
        ($($t:ident, $n:literal);*) => {$(
            impl Small for $t {
                const NAME: &'static str = $n;
                fn want() -> &'static Vec<u8> {
                    static W: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
                    W.get_or_init(distances::<$t>)
                }
            }
        )*};
    }
    small!(Ring, "ring"; Tree, "tree"; Deep, "deep");

    fn in_child<T: Small>(op: &str, dir: &Path, limit: Option<(u64, bool)>, user: bool) -> Result<String, String> {
        let mut c = child(&["c16-op", T::NAME, op, if user { "user" } else { "root" }], dir);
        if let Some((bytes, ignore)) = limit {
            unsafe {
                c.pre_exec(move || {
                    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &z);
                    libc::signal(libc::SIGXFSZ, if ignore { libc::SIG_IGN } else { libc::SIG_DFL });
                    Ok(())
                });
            }
        }
        let (lines, end) = answer(c);
        lines.first().cloned().ok_or(end)
    }

    pub fn child_op(a: &[String]) {
        crate::util::install_panic_hook();
        fn go<T: Small>(a: &[String]) {
            T::want();
            if a[2] == "user" && unsafe { libc::setgid(65534) != 0 || libc::setuid(65534) != 0 } {
                println!("R: no user");
                return;
            }
            let r = T::op(&a[1]);
            println!("R: {} {r:?}", if r.exact() { "exact" } else if r.error() { "error" } else { "wrong" });
        }
        match a[0].as_str() {
            "ring" => go::<Ring>(a),
            "tree" => go::<Tree>(a),
            _ => go::<Deep>(a),
        }
    }

    /// What is on the disk, as the model has it
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Disk {
        Exact,
        Missing,
        Damaged,
        /// nothing can be stored there
        Blocked,
    }

    fn look<T: Small>() -> Disk {
        let p = Path::new(T::PATH);
        let folder = p.parent().unwrap();
        // a file in the place of a folder
        let mut f = Some(folder);
        while let Some(x) = f {
            if !x.as_os_str().is_empty() && std::fs::symlink_metadata(x).is_ok_and(|m| !m.is_dir()) {
                return Disk::Blocked;
            }
            f = x.parent();
        }
        match std::fs::symlink_metadata(p) {
            Err(_) => Disk::Missing,
            Ok(m) if m.is_file() => match std::fs::read(p) {
                Ok(v) if v == *T::want() => Disk::Exact,
                Ok(v) if v.len() == T::want().len() => panic!("VIOL: the table on the disk has the right size and wrong contents"),
                _ => Disk::Damaged,
            },
            Ok(m) if m.file_type().is_symlink() => match std::fs::read(p) {
                Ok(v) if v == *T::want() => Disk::Exact,
                Ok(_) => Disk::Damaged,
                Err(e) if e.kind() == std::io::ErrorKind::NotFound => Disk::Missing,
                Err(_) => Disk::Blocked,
            },
            Ok(_) => Disk::Blocked,
        }
    }

    fn clear<T: Small>() {
        let p = Path::new(T::PATH);
        let top = p.components().next().unwrap();
        let top: &Path = top.as_ref();
        match std::fs::symlink_metadata(top) {
            Ok(m) if m.is_dir() => std::fs::remove_dir_all(top).expect("harness: clear"),
            Ok(_) => std::fs::remove_file(top).expect("harness: clear"),
            Err(_) => {}
        }
    }

    fn put<T: Small>(v: &[u8]) {
        let p = Path::new(T::PATH);
        std::fs::create_dir_all(p.parent().unwrap()).expect("harness: put");
        std::fs::write(p, v).expect("harness: put");
    }

    /// The result of an operation must fit what was on the disk
    fn fits<T: Small>(ctx: &mut Ctx, op: &str, before: Disk, out: &str, text: &str, trace: &[String]) {
        let name = T::NAME;
        ck!(ctx, out != "wrong", "{name} table, {trace:?}, then {op} with the table {before:?} gives {text}");
        let must_work = match (op, before) {
            ("load", Disk::Exact) => Some(true),
            ("load", _) => Some(false),
            ("use", Disk::Exact | Disk::Missing) => Some(true),
            ("use", Disk::Damaged) => None,
            ("use", Disk::Blocked) => Some(false),
            // it may put the table in the place of what blocks it
            ("build" | "write", Disk::Blocked) => None,
            ("build" | "write", _) => Some(true),
            _ => None,
        };
        if let Some(w) = must_work {
            ck!(ctx, (out == "exact") == w, "{name} table, {trace:?}, then {op} with the table {before:?} gives {text}");
        }
        if out == "exact" && op != "load" {
            let now = look::<T>();
            ck!(ctx, now == Disk::Exact, "{name} table, {trace:?}, then {op} with the table {before:?} succeeds, but on the disk it is {now:?}");
        }
    }

    fn here<T: Small>(ctx: &mut Ctx, op: &str, trace: &[String]) {
        let before = look::<T>();
        let r = T::op(op);
        let out = if r.exact() { "exact" } else if r.error() { "error" } else { "wrong" };
        fits::<T>(ctx, op, before, out, &format!("{r:?}"), trace);
        ctx.metric(&format!("{op} on a table that is {before:?}: {out}"), 1);
    }

    /// Random sequences of faults and uses
    fn sequences<T: Small>(ctx: &mut Ctx, dir: &Path) {
        let n = ctx.amount(25, 400);
        let size = T::want().len();
        for _ in 0..n {
            clear::<T>();
            let mut trace: Vec<String> = vec![];
            for _ in 0..ctx.rng.gen_range(1..9) {
                let what = match ctx.rng.gen_range(0..17) {
                    0 | 1 => {
                        here::<T>(ctx, "load", &trace);
                        "load".into()
                    }
                    2..=4 => {
                        here::<T>(ctx, "use", &trace);
                        "use".into()
                    }
                    5 => {
                        here::<T>(ctx, "build", &trace);
                        "build".into()
                    }
                    6 => {
                        here::<T>(ctx, "write", &trace);
                        "write".into()
                    }
                    7 | 8 => {
                        // the write stops after some bytes: as an error, or with the end of the process
                        let k = match ctx.rng.gen_range(0..6) {
                            0 => 0,
                            1 => 1,
                            2 => size as u64 - 1,
                            3 => size as u64,
                            4 => 4096.min(size as u64 - 1),
                            _ => ctx.rng.gen_range(0..size as u64),
                        };
                        let ignore = ctx.rng.gen();
                        let op = ["use", "build", "write"][ctx.rng.gen_range(0..3)];
                        let before = look::<T>();
                        let r = in_child::<T>(op, dir, Some((k, ignore)), false);
                        let what = format!("{op} with {} after {k} bytes", if ignore { "an error" } else { "a crash" });
                        let writes = (op != "use" || before == Disk::Missing) && before != Disk::Blocked;
                        match &r {
                            Ok(l) => {
                                let out = l.split(' ').next().unwrap_or("");
                                ck!(ctx, out != "wrong", "{} table, {trace:?}, then {what} with the table {before:?} gives {l}", T::NAME);
                                if writes && k < size as u64 {
                                    ck!(ctx, out == "error", "{} table, {trace:?}, then {what} with the table {before:?} reports no error: {l}", T::NAME);
                                }
                                if out == "exact" {
                                    fits::<T>(ctx, op, before, out, l, &trace);
                                }
                            }
                            Err(end) => {
                                let crashed = end.contains("signal: 25");
                                let may_write = writes || (op != "use" && before == Disk::Blocked);
                                ck!(ctx, crashed && !ignore && may_write, "{} table, {trace:?}, then {what} with the table {before:?} ends with {end}", T::NAME);
                            }
                        }
                        ctx.metric(if r.is_ok() { "writes that failed or were cut short" } else { "writes ended by a crash" }, 1);
                        what
                    }
                    9 | 10 => {
                        let k = if ctx.rng.gen() { ctx.rng.gen_range(0..size) } else { size - 1 };
                        if look::<T>() == Disk::Exact {
                            std::fs::OpenOptions::new().write(true).open(T::PATH).and_then(|f| f.set_len(k as u64)).expect("harness: truncate");
                        } else if look::<T>() != Disk::Blocked {
                            put::<T>(&T::want()[..k]);
                        }
                        format!("cut to {k} bytes")
                    }
                    11 => {
                        if look::<T>() == Disk::Blocked {
                            clear::<T>();
                        }
                        let mut v = T::want().clone();
                        let more = if ctx.rng.gen() { 1 } else { ctx.rng.gen_range(1..2 * size) };
                        v.extend(std::iter::repeat(0).take(more));
                        put::<T>(&v);
                        format!("{more} bytes too many")
                    }
                    12 => {
                        if look::<T>() != Disk::Blocked {
                            let _ = std::fs::remove_file(T::PATH);
                        }
                        "file removed".into()
                    }
                    13 => {
                        clear::<T>();
                        "folder removed".into()
                    }
                    14 => {
                        clear::<T>();
                        std::fs::create_dir_all(T::PATH).expect("harness: dir");
                        "a folder in the place of the file".into()
                    }
                    15 => {
                        clear::<T>();
                        let top: &Path = Path::new(T::PATH).parent().unwrap();
                        if let Some(p) = top.parent() {
                            if !p.as_os_str().is_empty() {
                                std::fs::create_dir_all(p).expect("harness: dir");
                            }
                        }
                        std::fs::write(top, b"not a folder").expect("harness: file");
                        "a file in the place of the folder".into()
                    }
                    _ => {
                        clear::<T>();
                        std::fs::create_dir_all(Path::new(T::PATH).parent().unwrap()).expect("harness: dir");
                        let _ = std::fs::remove_file("elsewhere");
                        if ctx.rng.gen() {
                            std::os::unix::fs::symlink(dir.join("elsewhere"), T::PATH).expect("harness: link");
                            "a link to a missing file".into()
                        } else {
                            std::os::unix::fs::symlink(Path::new(T::PATH).file_name().unwrap(), T::PATH).expect("harness: link");
                            "a link to itself".into()
                        }
                    }
                };
                trace.push(what);
            }
            here::<T>(ctx, "load", &trace);
            here::<T>(ctx, "use", &trace);
            here::<T>(ctx, "load", &trace);
            ctx.eval(hash_of(&(T::NAME, &trace)));
            ctx.sample(|| format!("{}: {}", T::NAME, trace.join(", ")));
        }
        clear::<T>();
        let _ = std::fs::remove_file("elsewhere");
    }

    /// Arbitrary contents of the right size read back as written; wrong sizes are not written
    fn round_trips<T: Small>(ctx: &mut Ctx) {
        let size = T::want().len();
        clear::<T>();
        for i in 0..ctx.amount(12, 100) {
            let v: Vec<u8> = (0..size).map(|_| ctx.rng.gen_range(0..255)).collect();
            let r = run!(ctx, write_partial::<T>(&v), "storing a {} table", T::NAME);
            ck!(ctx, r.is_ok(), "storing a {} table: {r:?}", T::NAME);
            let f = std::fs::read(T::PATH).unwrap_or_default();
            ck!(ctx, f == v, "a stored {} table is not what was stored ({} bytes of {})", T::NAME, f.len(), v.len());
            for _ in 0..2 {
                match run!(ctx, load_partial::<T>(), "loading a {} table", T::NAME) {
                    Ok(w) => ck!(ctx, w == v, "a {} table is not read back as written", T::NAME),
                    Err(e) => ctx.fail(format!("loading a stored {} table: {e}", T::NAME)),
                }
            }
            match run!(ctx, load_or_build_partial::<T>(), "loading a {} table", T::NAME) {
                Ok(w) => ck!(ctx, w == v, "a {} table is not read back as written", T::NAME),
                Err(e) => ctx.fail(format!("loading a stored {} table: {e}", T::NAME)),
            }
            // the next table replaces a longer or shorter file
            match i % 3 {
                0 => put::<T>(&vec![9; size * 2]),
                1 => put::<T>(&[9]),
                _ => {}
            }
            // a table of a wrong size is not stored as if it were right
            let k = ctx.rng.gen_range(0..size * 2);
            if k != size {
                let r = guarded(|| write_partial::<T>(&vec![3; k]));
                ck!(ctx, !matches!(r, Ok(Ok(()))), "storing a {} table of {k} bytes instead of {size} is not reported", T::NAME);
            }
            ctx.eval(hash_of(&v));
        }
        // a device that is full
        clear::<T>();
        std::fs::create_dir_all(Path::new(T::PATH).parent().unwrap()).expect("harness: dir");
        std::os::unix::fs::symlink("/dev/full", T::PATH).expect("harness: link");
        // (reported, or stored all the same by putting a file in the place of the device)
        let r = guarded(|| write_partial::<T>(T::want()));
        let stored = || look::<T>() == Disk::Exact;
        ck!(ctx, !matches!(r, Ok(Ok(()))) || stored(), "storing a {} table on a full device is not reported", T::NAME);
        let r = guarded(|| build_partial::<T>());
        ck!(ctx, !matches!(r, Ok(Ok(_))) || stored(), "building a {} table on a full device is not reported", T::NAME);
        clear::<T>();
        ctx.eval(hash_of(&("full", T::NAME)));
    }

    /// As a user without the right to read or write
    fn rights<T: Small>(ctx: &mut Ctx, dir: &Path) {
        use std::os::unix::fs::PermissionsExt;
        let mode = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("harness: chmod");
        let file = Path::new(T::PATH);
        let folder = file.parent().unwrap();
        mode(dir, 0o755);
        for (name, file_mode, folder_mode, ops) in [
            ("an unreadable table", Some(0o000), 0o777, [("load", "error"), ("use", "error")]),
            ("a table that can be read only", Some(0o444), 0o555, [("load", "exact"), ("write", "error")]),
            ("a folder that cannot be written", None, 0o555, [("load", "error"), ("use", "error")]),
            ("a folder that cannot be entered", Some(0o666), 0o000, [("load", "error"), ("use", "error")]),
            ("a folder open to all", None, 0o777, [("use", "exact"), ("load", "exact")]),
        ] {
            clear::<T>();
            put::<T>(T::want());
            match file_mode {
                Some(m) => mode(file, m),
                None => std::fs::remove_file(file).expect("harness: remove"),
            }
            mode(folder, folder_mode);
            for (op, want) in ops {
                let r = in_child::<T>(op, dir, None, true);
                match r {
                    Ok(l) if l == "no user" => {
                        ctx.metric("rights not observed: cannot become another user", 1);
                        mode(folder, 0o755);
                        clear::<T>();
                        return;
                    }
                    Ok(l) => ck!(ctx, l.starts_with(want), "{} table, {name}: {op} gives {l}", T::NAME),
                    Err(e) => ctx.fail(format!("{} table, {name}: {op} ends with {e}", T::NAME)),
                }
                ctx.eval(hash_of(&(name, op, T::NAME)));
            }
            mode(folder, 0o755);
        }
        // nothing there, and no right to make the folder
        clear::<T>();
        if let Ok(l) = in_child::<T>("use", dir, None, true) {
            ck!(ctx, l.starts_with("error"), "{} table, no right to create the folder: {l}", T::NAME);
        }
        clear::<T>();
    }

    /// Several processes use the table for the first time
    fn processes<T: Small>(ctx: &mut Ctx, dir: &Path) {
        for _ in 0..ctx.amount(4, 40) {
            clear::<T>();
            let kids: Vec<_> = (0..6)
                .map(|_| child(&["c16-op", T::NAME, "use", "root"], dir).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("harness: child"))
                .collect();
            let mut exact = 0;
            for k in kids {
                let o = k.wait_with_output().expect("harness: child");
                let t = String::from_utf8_lossy(&o.stdout);
                let l = t.lines().find_map(|l| l.strip_prefix("R: ")).unwrap_or("").to_string();
                ck!(ctx, l.starts_with("exact") || l.starts_with("error"), "{} table: six processes use it for the first time, one gets {l:?}", T::NAME);
                exact += l.starts_with("exact") as u64;
            }
            ctx.metric("processes racing for the first use: exact", exact);
            ctx.metric("processes racing for the first use", 6);
            let trace = vec!["six processes".to_string()];
            here::<T>(ctx, "use", &trace);
            ctx.eval(ctx.evals);
        }
        clear::<T>();
    }

    pub fn all(ctx: &mut Ctx) {
        let s = Scratch::new("C16-small");
        std::env::set_current_dir(&s.0).expect("harness: chdir");
        sequences::<Ring>(ctx, &s.0);
        sequences::<Deep>(ctx, &s.0);
        sequences::<Tree>(ctx, &s.0);
        round_trips::<Ring>(ctx);
        round_trips::<Deep>(ctx);
        rights::<Ring>(ctx, &s.0);
        rights::<Deep>(ctx, &s.0);
        processes::<Ring>(ctx, &s.0);
    }
}

#[cfg(barbarosa_verif)]
pub fn child_op(a: &[String]) {
    faults::child_op(a)
}
#[cfg(not(barbarosa_verif))]
pub fn child_op(_: &[String]) {}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    ctx.rule = "real tables of wrong sizes or odd kinds are refused by Cache::load and get_or_init; first use by many threads while \
                whole tables replace each other; random fault sequences (cuts, extra bytes, removals, writes that fail or \
                crash after any byte, missing rights) on small tables, where every result is the exact table or an error"
        .into();
    ctx.assumptions.push("damage that keeps the size of the file is not covered by the property".into());
    #[cfg(barbarosa_verif)]
    faults::all(ctx);
    if !plain() && !brief() {
        command_line(ctx);
    }
    whole_cache(ctx);
    concurrent(ctx);
}
