//! C15: the pattern-database distance is exact and never overestimates.
use super::*;
use crate::pdb::*;
use crate::{ck, run};
use barbarosa::cube3::heuristics;
use barbarosa::cube3::mus::cache::{self, Cache};
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::Indexable;
use barbarosa::cube_n::{Corner, Edge};
use std::path::Path;
use std::sync::atomic::{AtomicU8, Ordering};

fn to_edges(a: &Arr, half: usize) -> [Edge; 6] {
    a.edges()[half * 6..half * 6 + 6].to_vec().try_into().unwrap()
}

/// The exact table in the order of the library's indices
fn in_library_order(size: usize, item: impl Fn(usize) -> (usize, u8) + Sync) -> Result<Vec<u8>, String> {
    let t: Vec<AtomicU8> = (0..size).map(|_| AtomicU8::new(255)).collect();
    let parts = 256;
    parallel(parts, |p| {
        for i in size * p / parts..size * (p + 1) / parts {
            let (j, d) = item(i);
            if j >= size || t[j].swap(d, Ordering::Relaxed) != 255 {
                return Err(format!("two arrangements share the index {j}, or it is too big"));
            }
        }
        Ok(())
    })?;
    Ok(t.into_iter().map(|x| x.into_inner()).collect())
}

pub fn library_corners(pdb: &Pdb) -> Result<Vec<u8>, String> {
    in_library_order(CORNERS, |i| {
        let mut a = Arr::solved();
        corner_unrank(i, &mut a);
        (a.corners().index(), pdb.corners[i])
    })
}
pub fn library_edges(pdb: &Pdb) -> Result<Vec<u8>, String> {
    in_library_order(HALVES, |i| {
        let mut a = Arr::solved();
        half_unrank(i, 0, &mut a);
        (to_edges(&a, 0).index(), pdb.halves[0][i])
    })
}

/// The steps the generation takes: index to arrangement, turn, arrangement to index
fn steps(ctx: &mut Ctx) {
    let n = ctx.amount(1_000_000, 20_000_000) as usize;
    let parts = 128;
    let seed: usize = ctx.rng.gen();
    let r = parallel(parts, |p| {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64((seed ^ p << 20) as u64);
        let moves = moves18();
        for _ in 0..n / parts {
            let m = &moves[rng.gen_range(0..18)];
            let i = rng.gen_range(0..CORNERS);
            let x = <[Corner; 8]>::from_index(i);
            let mut a = Arr::solved();
            let Some(b) = Arr::of(&x, &a.edges()) else { return Err(format!("corner index {i} gives {x:?}")) };
            a = b.turned(m);
            let y = x.clone().moved(&m.axis_move());
            if y != a.corners() || y.index() != a.corners().index() {
                return Err(format!("the corners {x:?} turned by {m} are {y:?}"));
            }
            let i = rng.gen_range(0..HALVES);
            let x = <[Edge; 6]>::from_index(i);
            let y = x.clone().moved(&m.axis_move());
            let mut a = Arr::solved();
            for (j, e) in x.iter().enumerate() {
                let p = edge_coords(e.normal_axis, &e.slice_position);
                a.ep[j] = (0..12).find(|k| edge_home(*k) == p).ok_or("harness: edge place")?;
                a.eo[j] = e.oriented;
            }
            let want = to_edges(&a.turned(m), 0);
            if y != want || y.index() != want.index() {
                return Err(format!("the edges {x:?} turned by {m} are {y:?}"));
            }
        }
        Ok(())
    });
    if let Err(e) = r {
        ctx.fail(e);
    }
    ctx.metric("steps of the generation replayed on the real types", 2 * n as u64);
    ctx.evals += 2 * n as u64;
}

/// A cube near, not so near or nowhere near to being solved
fn some_cube(ctx: &mut Ctx) -> (Arr, Option<usize>) {
    if ctx.rng.gen_bool(0.6) {
        let l = ctx.rng.gen_range(0..14);
        let w = random_word(&mut ctx.rng, l, 0);
        (Arr::solved().turned_by(&w), Some(l))
    } else {
        (Arr::random_solvable(&mut ctx.rng), None)
    }
}

fn lookups(ctx: &mut Ctx, pdb: &Pdb, dir: &Path) {
    run!(ctx, std::env::set_current_dir(dir), "chdir").expect("harness: chdir");
    let a = Arr::random_solvable(&mut ctx.rng);
    let fallback = heuristics::mus_with_fallback(|_| 4.5);
    let x = run!(ctx, cache::get(&a.cube3()), "cache::get before the cache is there");
    ck!(ctx, x.is_none(), "the cache gives {x:?} before it is initialized");
    let x = run!(ctx, fallback(&a.cube3()), "mus_with_fallback before the cache is there");
    ck!(ctx, x == 4.5, "mus_with_fallback gives {x} instead of the fallback's 4.5 before the cache is initialized");
    let loaded = run!(ctx, Cache::load(), "Cache::load with both tables in place");
    let loaded = match loaded {
        Ok(l) => l,
        Err(e) => ctx.fail(format!("Cache::load with both tables in place fails: {e}")),
    };
    let solved = run!(ctx, cache::get_or_init(&Cube3::SOLVED), "get_or_init");
    ck!(ctx, solved == 0, "the solved cube is said to be {solved} turns away");
    let n = ctx.amount(150_000, 3_000_000);
    for i in 0..n {
        let (a, l) = some_cube(ctx);
        let c = a.cube3();
        let want = pdb.get(&a);
        let parts = pdb.parts(&a);
        let got = run!(ctx, loaded.get(&c), "Cache::get of {a:?}");
        ck!(ctx, got == want, "the distance looked up for {a:?} is {got}; the parts' exact distances are {parts:?}");
        let got = run!(ctx, cache::get(&c), "cache::get of {a:?}");
        ck!(ctx, got == Some(want), "the initialized cache gives {got:?} for {a:?}; the parts' exact distances are {parts:?}");
        if let Some(l) = l {
            ck!(ctx, want as usize <= l, "harness: {want} for {l} turns");
        }
        if i % 8 == 0 {
            let g = run!(ctx, cache::get_or_init(&c), "cache::get_or_init of {a:?}");
            let h = run!(ctx, heuristics::mus(&c), "mus of {a:?}");
            let f = run!(ctx, fallback(&c), "mus_with_fallback of {a:?}");
            ck!(ctx, g == want && h == want as f32 && f == want as f32, "get_or_init gives {g}, mus {h}, mus_with_fallback {f} for {a:?} instead of {want}");
            let m = Mv::random(&mut ctx.rng, 0);
            let g = run!(ctx, loaded.get(&c.clone().moved(&m.axis_move())), "Cache::get after {m}");
            ck!(ctx, g.abs_diff(want) <= 1, "the turn {m} of {a:?} changes the looked up distance from {want} to {g}");
        }
        ctx.metric(["decided by the corners", "decided by the first edges", "decided by the other edges"][(0..3).find(|i| parts[*i] == want).unwrap()], 1);
        ctx.eval(hash_of(&a));
    }
}

#[cfg(barbarosa_verif)]
pub mod synth {
    //! Small types that the real generation is run on
    use super::*;
    use barbarosa::cube3::mus::cache::verif_hooks::*;
    use barbarosa::cube3::mus::index::{OrientationIndexable, PositionIndexable};
    use barbarosa::generic::moves::Movable;

    fn number(m: &AxisMove) -> usize {
        let m = Mv::from_axis_move(m);
        m.face() * 3 + m.k as usize - 1
    }

    macro_rules! synthetic {
        ($($name:ident, $size:expr, $path:literal, $next:expr;)*) => {$(
            #[derive(Clone, Debug)]
            pub struct $name(pub usize);
            impl PositionIndexable for $name {
                fn position_index(&self) -> usize {
                    self.0
                }
                const POSITION_SET_SIZE: usize = $size;
            }
            impl OrientationIndexable for $name {
                fn orientation_index(&self) -> usize {
                    0
                }
                const ORIENTATION_SET_SIZE: usize = 1;
            }
            impl Deindexable for $name {
                fn from_index(i: usize) -> Self {
                    $name(i)
                }
            }
            impl DiskCacheable for $name {
                const PATH: &'static str = $path;
            }
            impl Movable<AxisMove> for $name {
                fn apply(&mut self, m: &AxisMove) {
                    let f: fn(usize, usize) -> usize = $next;
                    self.0 = f(self.0, number(m));
                }
            }
        )*};
    }

    /// ±1, ±2, 0 on a ring, by which of the 18 turns it is
    fn ring(n: usize, x: usize, m: usize) -> usize {
        match m % 3 {
            0 => (x + 1 + m / 3) % n,
            2 => (x + n - 1 - m / 3) % n,
            _ => x,
        }
    }
    /// a tree-like graph: halves and doubles, with the way back
    fn tree(n: usize, x: usize, m: usize) -> usize {
        match m {
            4 => {
                if 2 * x + 1 < n {
                    2 * x + 1
                } else {
                    x
                }
            }
            11 => {
                if 2 * x + 2 < n {
                    2 * x + 2
                } else {
                    x
                }
            }
            17 => x.saturating_sub(1) / 2,
            _ => x,
        }
    }
    /// a tree, and a few states far behind one of its leaves
    fn tail(n: usize, x: usize, m: usize) -> usize {
        let body = n - 3;
        match m {
            2 if x == body / 2 + 1000 => body,
            2 if x >= body && x + 1 < n => x + 1,
            15 if x == body => body / 2 + 1000,
            15 if x > body => x - 1,
            _ if x >= body => x,
            _ => tree(body, x, m),
        }
    }
    const BIG: usize = (1 << 24) + 77;
    synthetic! {
        // 254 states in a row: distances up to 253, far more than any cube has
        Line, 254, "mus-cache/line.barbarosa", |x, m| match m { 0 => if x < 253 { x + 1 } else { x }, 17 => x.saturating_sub(1), _ => x };
        // the same, the far end being the low indices
        Back, 254, "mus-cache/back.barbarosa", |x, m| match m { 3 => if x == 0 { 253 } else if x > 1 { x - 1 } else { x }, 7 => if x == 253 { 0 } else if x > 0 { x + 1 } else { x }, _ => x };
        One, 1, "mus-cache/one.barbarosa", |x, _| x;
        Two, 2, "mus-cache/two.barbarosa", |x, m| if m == 8 { 1 - x } else { x };
        Ring, 2000, "mus-cache/ring.barbarosa", |x, m| ring(2000, x, m);
        Tree, 100_000, "mus-cache/tree.barbarosa", |x, m| tree(100_000, x, m);
        Tail, 4_000_000, "mus-cache/tail.barbarosa", |x, m| tail(4_000_000, x, m);
        Deep, 40_000, "mus-cache/sub/folder/deep.barbarosa", |x, m| match m { 1 => (x + 200) % 40_000, 16 => (x + 39_800) % 40_000, 5 => (x + 1) % 40_000, 9 => (x + 39_999) % 40_000, _ => x };
        Big, BIG, "mus-cache/big.barbarosa", |x, m| match m { 0 => (x + 1) % BIG, 2 => (x + BIG - 1) % BIG, 6 => (x + 300) % BIG, 8 => (x + BIG - 300) % BIG, 9 => (x + 90_000) % BIG, 11 => (x + BIG - 90_000) % BIG, 15 => (x + 4_000_000) % BIG, 17 => (x + BIG - 4_000_000) % BIG, _ => x };
    }

    /// real pieces: the first four edges, and the first three corners with their twists
    #[derive(Clone, Debug)]
    pub struct Four(pub [Edge; 4]);
    impl PositionIndexable for Four {
        fn position_index(&self) -> usize {
            barbarosa::cube3::mus::index::position_disposition_index::<Edge, 4, 12>(&self.0)
        }
        const POSITION_SET_SIZE: usize = 11880;
    }
    impl OrientationIndexable for Four {
        fn orientation_index(&self) -> usize {
            barbarosa::cube3::mus::index::orientation_permutation_index(&self.0)
        }
        const ORIENTATION_SET_SIZE: usize = 16;
    }
    impl Four {
        fn all() -> &'static Vec<Option<Four>> {
            static T: std::sync::OnceLock<Vec<Option<Four>>> = std::sync::OnceLock::new();
            T.get_or_init(|| {
                let mut v = vec![None; 11880 * 16];
                for r in 0..11880 {
                    let p = super::super::c14::nth_arrangement(12, 4, r);
                    for o in 0..16 {
                        let f = Four(std::array::from_fn(|i| {
                            let (n, s) = un_edge_coords(edge_home(p[i]));
                            Edge::new(n, s, o >> i & 1 == 0)
                        }));
                        let i = f.index();
                        v[i] = Some(f);
                    }
                }
                v
            })
        }
    }
    impl Deindexable for Four {
        fn from_index(i: usize) -> Self {
            Self::all()[i].clone().expect("harness: index")
        }
    }
    impl DiskCacheable for Four {
        const PATH: &'static str = "mus-cache/four.barbarosa";
    }
    impl Movable<AxisMove> for Four {
        fn apply(&mut self, m: &AxisMove) {
            self.0.apply(m);
        }
    }

    /// Plain breadth-first search over the same states
    pub fn distances<T: Deindexable + Movable<AxisMove> + Clone>() -> Vec<u8> {
        let mut d = vec![255u8; T::TOTAL_SET_SIZE];
        d[0] = 0;
        let mut queue = std::collections::VecDeque::from([0usize]);
        while let Some(i) = queue.pop_front() {
            for f in 0..6 {
                for k in 1..4 {
                    let j = T::from_index(i).moved(&Mv::from_face(f, k, 0).axis_move()).index();
                    if d[j] == 255 {
                        d[j] = d[i].checked_add(1).filter(|x| *x < 255).expect("harness: too deep");
                        queue.push_back(j);
                    }
                }
            }
        }
        assert!(d.iter().all(|x| *x != 255), "harness: unreachable states");
        d
    }

    fn generated<T: Deindexable + DiskCacheable + Movable<AxisMove> + Clone>(ctx: &mut Ctx, name: &str) {
        let want = distances::<T>();
        let path = Path::new(T::PATH);
        ck!(ctx, !path.exists(), "harness: {path:?} exists");
        let deepest = want.iter().max().unwrap();
        ctx.metric_max("greatest distance in a generated table", *deepest as u64);
        let got = bounded(&format!("generating the {name} table"), 120, || run!(ctx, build_partial::<T>(), "generating the {name} table"));
        let got = match got {
            Ok(g) => g,
            Err(e) => ctx.fail(format!("generating the {name} table fails: {e}")),
        };
        compare(ctx, name, "generated", &got, &want);
        let file = std::fs::read(path).unwrap_or_default();
        compare(ctx, name, "stored", &file, &want);
        let again = run!(ctx, load_partial::<T>(), "loading the {name} table");
        let again = match again {
            Ok(g) => g,
            Err(e) => ctx.fail(format!("loading the {name} table fails: {e}")),
        };
        compare(ctx, name, "loaded", &again, &want);
        let again = run!(ctx, load_or_build_partial::<T>(), "loading or building the {name} table");
        match again {
            Ok(g) => compare(ctx, name, "loaded (or built)", &g, &want),
            Err(e) => ctx.fail(format!("loading the {name} table fails: {e}")),
        };
        ctx.eval_many(want.len() as u64);
        ctx.metric("entries of generated tables compared", want.len() as u64);
    }

    pub fn compare(ctx: &mut Ctx, name: &str, what: &str, got: &[u8], want: &[u8]) {
        ck!(ctx, got.len() == want.len(), "the {what} {name} table has {} entries instead of {}", got.len(), want.len());
        if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
            ctx.fail(format!("the {what} {name} table says {} for state {i} whose exact distance is {}", got[i], want[i]));
        }
    }

    pub fn all(ctx: &mut Ctx) {
        generated::<Line>(ctx, "line");
        generated::<Back>(ctx, "backward line");
        generated::<One>(ctx, "one-state");
        generated::<Two>(ctx, "two-state");
        generated::<Ring>(ctx, "ring");
        generated::<Tree>(ctx, "tree");
        generated::<Tail>(ctx, "tailed tree");
        generated::<Deep>(ctx, "deep ring");
        generated::<Four>(ctx, "four-edge");
        generated::<Big>(ctx, "big ring");
    }
}

/// The real generation, from nothing, in processes of its own
struct Generation {
    scratch: Scratch,
    tables: Vec<&'static str>,
    child: std::process::Child,
    log: std::path::PathBuf,
}

impl Drop for Generation {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn start_generations() -> Vec<Generation> {
    let start = |op: &[&str], tables: &[&'static str]| {
        let scratch = Scratch::new(&format!("C15-gen-{}", op.last().unwrap()));
        let log = scratch.0.join("log");
        let file = std::fs::File::create(&log).expect("harness: log");
        let mut c = if op[0] == "build" {
            let mut c = std::process::Command::new(super::c22::build("release").expect("harness: the binary does not build"));
            c.arg(op[1]);
            c
        } else {
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("child").args(op);
            c
        };
        c.current_dir(&scratch.0).stdin(std::process::Stdio::null());
        c.stdout(file.try_clone().expect("harness: log")).stderr(file);
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().expect("harness: child");
        Generation { scratch, tables: tables.to_vec(), child, log }
    };
    if plain() {
        // the command line builds them
        vec![start(&["build", "--build-mus-cache"], &["edges", "corners"])]
    } else if cfg!(barbarosa_verif) {
        vec![start(&["c15-gen", "corners"], &["corners"]), start(&["c15-gen", "edges"], &["edges"])]
    } else {
        vec![start(&["c15-init"], &["edges", "corners"])]
    }
}

fn finish_generations(ctx: &mut Ctx, mut all: Vec<Generation>, corners: &[u8], edges: &[u8], begun: std::time::Instant) {
    // a slow machine is no violation
    let limit = std::time::Duration::from_secs(if ctx.thorough { 3600 } else { 600 });
    for g in &mut all {
        let status = loop {
            match g.child.try_wait().expect("harness: wait") {
                Some(s) => break Some(s),
                None if begun.elapsed() > limit => break None,
                None => std::thread::sleep(std::time::Duration::from_millis(100)),
            }
        };
        let Some(status) = status else {
            ctx.metric("real generations that took too long to wait for", 1);
            continue;
        };
        let text = std::fs::read_to_string(&g.log).unwrap_or_default();
        let end: String = text.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        ck!(ctx, status.success() && (plain() || text.contains("R: 0")), "generating the tables {:?} from nothing: {status} {end}", g.tables);
        for name in &g.tables {
            let want = if *name == "corners" { corners } else { edges };
            let got = std::fs::read(g.scratch.0.join(format!("mus-cache/{name}.barbarosa"))).unwrap_or_default();
            ck!(ctx, got.len() == want.len(), "the generated {name} table has {} entries instead of {}", got.len(), want.len());
            if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
                ctx.fail(format!("the generated {name} table says {} for index {i} whose exact distance is {}", got[i], want[i]));
            }
            ctx.eval_many(want.len() as u64);
            ctx.metric("entries of the real generated tables compared", want.len() as u64);
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "own breadth-first search over all corner arrangements and both halves of the edges; the library looks distances \
                up in the tables that search gives (in the library's order); the real generation runs on small types of \
                every shape and on the real ones, every entry compared"
        .into();
    ctx.assumptions.push("the tables in use are those the library generates, or equal ones".into());
    quiet_stdout();
    let begun = std::time::Instant::now();
    let generations = if std::env::var("VERIF_NO_GENERATION").is_ok() && !(plain() && ctx.thorough) { vec![] } else { start_generations() };
    let scratch = Scratch::new("C15");
    let pdb = bounded("harness: search", 600, Pdb::build);
    let deepest = [&pdb.corners, &pdb.halves[0], &pdb.halves[1]].map(|t| *t.iter().max().unwrap());
    assert!(deepest == [11, 10, 10], "harness: deepest arrangements {deepest:?}");
    // the model of single turns against the stickers
    for _ in 0..200 {
        let (a, _) = some_cube(ctx);
        let m = Mv::random(&mut ctx.rng, 0);
        assert!(a.turned(&m).phys(3) == a.phys(3).with_word(&[m]), "harness: turned");
    }
    steps(ctx);
    let tables = (|| Ok((library_corners(&pdb)?, library_edges(&pdb)?)))();
    let (corners, edges) = match tables {
        Ok(t) => t,
        Err(e) => {
            let e: String = e;
            ctx.fail(e)
        }
    };
    let dir = scratch.0.join("mus-cache");
    std::fs::create_dir_all(&dir).expect("harness: scratch");
    std::fs::write(dir.join("corners.barbarosa"), &corners).expect("harness: scratch");
    std::fs::write(dir.join("edges.barbarosa"), &edges).expect("harness: scratch");
    lookups(ctx, &pdb, &scratch.0);
    drop(scratch);
    #[cfg(barbarosa_verif)]
    {
        let scratch = Scratch::new("C15-small");
        std::env::set_current_dir(&scratch.0).expect("harness: chdir");
        synth::all(ctx);
    }
    #[cfg(not(barbarosa_verif))]
    ctx.assumptions.push("the hooks are missing: generation is only observed in the thorough tier".into());
    finish_generations(ctx, generations, &corners, &edges, begun);
    ctx.sample(|| format!("deepest arrangements: {deepest:?}"));
}

pub fn child_init() {
    println!("R: {}", cache::get_or_init(&Cube3::SOLVED));
}

#[cfg(barbarosa_verif)]
pub fn child_gen(which: &str) {
    use barbarosa::cube3::mus::cache::verif_hooks::build_partial;
    let built = match which {
        "corners" => build_partial::<[Corner; 8]>(),
        _ => build_partial::<[Edge; 6]>(),
    };
    println!("R: {}", built.expect("building a table")[0]);
}
