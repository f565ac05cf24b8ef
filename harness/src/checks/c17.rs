//! C17: search results are real solutions, and shortest ones.
use super::*;
use crate::pdb::*;
use crate::{ck, run};
use barbarosa::cube3::heuristics;
use barbarosa::cube_n::WideAxisMove;
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::search::{ida::IDASearcher, Searcher, Solver};
use barbarosa::generic::{Alg, Move};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ---- a puzzle that is just a graph ----

/// For each node its labelled ways out: (label, where to, allowed)
type Graph = Vec<Vec<(u16, u16, bool)>>;
thread_local! {
    static GRAPH: RefCell<Graph> = const { RefCell::new(vec![]) };
    /// how many nodes share a hash
    static COARSE: Cell<u16> = const { Cell::new(1) };
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct Node(u16);
impl Hash for Node {
    fn hash<H: Hasher>(&self, h: &mut H) {
        // equal nodes have equal hashes; the others may
        (self.0 / COARSE.get()).hash(h)
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct Label(u16);
impl Move for Label {
    fn inverse(&self) -> Self {
        self.clone()
    }
}
impl AsMove for Node {
    type Move = Label;
}
impl Movable<Label> for Node {
    fn apply(&mut self, m: &Label) {
        let to = GRAPH.with(|g| g.borrow()[self.0 as usize].iter().find(|e| e.0 == m.0).map(|e| e.1));
        self.0 = to.unwrap_or_else(|| panic!("there is no way {m:?} out of {self:?}"));
    }
}
impl Cube for Node {
    const SOLVED: Node = Node(0);
}

fn ways_out(n: &Node) -> Vec<(Node, Label)> {
    GRAPH.with(|g| g.borrow()[n.0 as usize].iter().filter(|e| e.2).map(|e| (Node(e.1), Label(e.0))).collect())
}

fn random_graph(rng: &mut impl Rng) -> (Graph, &'static str) {
    let mut next = 0u16;
    let mut label = || {
        next += 1;
        next
    };
    let (mut g, name): (Graph, _) = match rng.gen_range(0..7) {
        0 | 1 => {
            let n = rng.gen_range(1..=9);
            let most = rng.gen_range(1..=3);
            ((0..n).map(|_| (0..rng.gen_range(0..=most)).map(|_| (label(), rng.gen_range(0..n), true)).collect()).collect(), "any graph")
        }
        2 => {
            let n: u16 = rng.gen_range(2..=40);
            ((0..n).map(|i| vec![(label(), (i + 1) % n, true), (label(), (i + n - 1) % n, true)]).collect(), "ring")
        }
        3 => {
            let (w, h) = (rng.gen_range(2..=4u16), rng.gen_range(2..=3u16));
            let near = |i: u16| {
                let (x, y) = (i % w, i / w);
                let mut v = vec![];
                (x > 0).then(|| v.push(i - 1));
                (x + 1 < w).then(|| v.push(i + 1));
                (y > 0).then(|| v.push(i - w));
                (y + 1 < h).then(|| v.push(i + w));
                v
            };
            ((0..w * h).map(|i| near(i).into_iter().map(|j| (label(), j, true)).collect()).collect(), "grid")
        }
        4 => {
            // a way with dead ends, to or from node 0
            let n: u16 = rng.gen_range(3..=60);
            let mut g: Graph = (0..n)
                .map(|i| {
                    let mut v = vec![];
                    if i > 0 {
                        v.push((label(), i - 1, true));
                    }
                    if rng.gen_bool(0.3) {
                        v.push((label(), i, true));
                    }
                    if rng.gen_bool(0.2) && i + 1 < n {
                        v.push((label(), i + 1, true));
                    }
                    v
                })
                .collect();
            for i in 0..n {
                if rng.gen_bool(0.2) {
                    g.push(vec![]);
                    let to = g.len() as u16 - 1;
                    g[i as usize].push((label(), to, true));
                }
            }
            (g, "line with dead ends")
        }
        5 => {
            // two ways of different length from the end to the beginning
            let (a, b) = (rng.gen_range(1..=15u16), rng.gen_range(1..=15u16));
            let end = a + b;
            let mut g: Graph = vec![vec![]; end as usize + 1];
            // 0 <- 1 .. a-1 <- end; 0 <- a .. a+b-2 <- end
            for (from, len) in [(1, a), (a, b)] {
                let mut at = end;
                for k in (0..len - 1).rev() {
                    g[at as usize].push((label(), from + k, true));
                    at = from + k;
                }
                g[at as usize].push((label(), 0, true));
            }
            (g, "two ways")
        }
        _ => {
            // levels, all joined
            let levels = rng.gen_range(1..=5u16);
            let w = rng.gen_range(1..=3u16);
            let n = levels * w + 1;
            let g = (0..n)
                .map(|i| {
                    let l = if i == 0 { 0 } else { (i - 1) / w + 1 };
                    let mut v: Vec<(u16, u16, bool)> = vec![];
                    for j in 0..n {
                        let m = if j == 0 { 0 } else { (j - 1) / w + 1 };
                        if m + 1 == l || rng.gen_bool(0.04) {
                            v.push((label(), j, true));
                        }
                    }
                    v
                })
                .collect();
            (g, "levels")
        }
    };
    let forbid = [0.0, 0.0, 0.1, 0.3][rng.gen_range(0..4)];
    for v in &mut g {
        shuffle(v, rng);
        for e in v.iter_mut() {
            e.2 = !rng.gen_bool(forbid);
        }
    }
    (g, name)
}

/// Fewest steps from each node to a goal
fn graph_distances(g: &Graph, goal: &[bool]) -> Vec<Option<u32>> {
    let mut d: Vec<Option<u32>> = goal.iter().map(|x| x.then_some(0)).collect();
    loop {
        let mut changed = false;
        for i in 0..g.len() {
            for (_, j, ok) in &g[i] {
                if let (true, Some(x)) = (*ok, d[*j as usize]) {
                    if d[i].map_or(true, |y| y > x + 1) {
                        d[i] = Some(x + 1);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return d;
        }
    }
}

/// What the search says must follow from the shortest distance
/// (`None`: no solution; only given for estimates that never exceed the distance).
#[allow(clippy::too_many_arguments)]
fn judge<C, M>(
    ctx: &mut Ctx,
    start: &C,
    found: Option<(Alg<M>, C)>,
    ways: &dyn Fn(&C) -> Vec<(C, M)>,
    goal: &dyn Fn(&C) -> bool,
    shortest: Option<Option<u32>>,
    limit: i64,
    what: &str,
) -> Option<usize>
where
    C: Cube + Movable<M> + Movable<Alg<M>>,
    M: Move + PartialEq + Debug + AsMove<Move = M>,
{
    match found {
        Some((alg, end)) => {
            let mut at = start.clone();
            for (i, m) in alg.moves.iter().enumerate() {
                let next = ways(&at).into_iter().find(|(_, x)| x == m);
                match next {
                    Some((c, _)) => {
                        let by_move = run!(ctx, <C as Movable<M>>::moved(at.clone(), m), "{what}: {m:?}");
                        if by_move != c {
                            ctx.error("the ways out do not agree with the moves");
                        }
                        at = c;
                    }
                    None => ctx.fail(format!("{what}: step {} of {:?} was not allowed", i + 1, alg.moves)),
                }
            }
            ck!(ctx, at == end, "{what}: {:?} leads from {start:?} to {at:?}, not to the returned {end:?}", alg.moves);
            let whole = run!(ctx, <C as Movable<Alg<M>>>::moved(start.clone(), &alg), "{what}: {:?}", alg.moves);
            ck!(ctx, whole == end, "{what}: the algorithm {:?} leads from {start:?} to {whole:?}, not to the returned {end:?}", alg.moves);
            ck!(ctx, goal(&end), "{what}: {:?} leads from {start:?} to {end:?}, which is no goal", alg.moves);
            if let Some(d) = shortest {
                match d {
                    Some(d) => ck!(ctx, alg.moves.len() == d as usize, "{what}: {:?} has {} steps from {start:?}, {d} are enough", alg.moves, alg.moves.len()),
                    None => ctx.error("found a solution where there is none"),
                }
            }
            Some(alg.moves.len())
        }
        None => {
            if let Some(Some(d)) = shortest {
                ck!(ctx, d as i64 > limit, "{what}: nothing found from {start:?}, though {d} steps are enough and the limit is {limit}");
            }
            None
        }
    }
}

fn graphs(ctx: &mut Ctx) {
    let n = ctx.amount(12_000, 400_000);
    for _ in 0..n {
        let (g, name) = random_graph(&mut ctx.rng);
        let goal: Vec<bool> = match ctx.rng.gen_range(0..4) {
            0 => (0..g.len()).map(|_| ctx.rng.gen_bool(0.2)).collect(),
            1 => (0..g.len()).map(|i| i == g.len() / 2).collect(),
            _ => (0..g.len()).map(|i| i == 0).collect(),
        };
        let d = graph_distances(&g, &goal);
        let size = g.len();
        let start = Node(ctx.rng.gen_range(0..size) as u16);
        let start = if ctx.rng.gen_bool(0.3) { Node(size as u16 - 1) } else { start };
        let r: f32 = ctx.rng.gen();
        // (name, never more than the distance, estimate)
        let far = |i: usize, rng: &mut rand::rngs::StdRng| match d[i] {
            Some(x) => x as f32,
            None => [0.0, 3.0, 1.5, f32::INFINITY][rng.gen_range(0..4)],
        };
        let kind = ctx.rng.gen_range(0..9);
        let (est, cautious, h): (&str, bool, Vec<f32>) = match kind {
            0 => ("zero", true, vec![0.0; size]),
            1 => ("exact", true, (0..size).map(|i| far(i, &mut ctx.rng)).collect()),
            2 => ("a part of the distance", true, (0..size).map(|i| r * far(i, &mut ctx.rng)).collect()),
            3 => ("rounded down part", true, (0..size).map(|i| (r * far(i, &mut ctx.rng)).floor()).collect()),
            4 => ("inconsistent", true, (0..size).map(|i| far(i, &mut ctx.rng).min(ctx.rng.gen_range(0..6) as f32)).collect()),
            5 => ("inconsistent parts", true, (0..size).map(|i| far(i, &mut ctx.rng) * (ctx.rng.gen_range(0..=8) as f32 / 8.0)).collect()),
            6 => ("small steps", true, (0..size).map(|i| (r * 8.0 * far(i, &mut ctx.rng)).floor() / 8.0).collect()),
            7 => ("overestimates", false, (0..size).map(|i| ctx.rng.gen_range(0.5..2.0) * far(i, &mut ctx.rng).min(50.0)).collect()),
            _ => ("random numbers", false, (0..size).map(|_| ctx.rng.gen_range(0..5) as f32 / 2.0).collect()),
        };
        let far_off = d[start.0 as usize].unwrap_or(5) as i32;
        let limit = match ctx.rng.gen_range(0..6) {
            0 => far_off,
            1 => far_off - 1,
            2 => far_off + ctx.rng.gen_range(0..3),
            3 => ctx.rng.gen_range(0..4),
            _ => far_off + ctx.rng.gen_range(0..30),
        };
        let sol = d[start.0 as usize];
        let text = || format!("{name} {g:?}, goals {:?}, estimates {h:?}, limit {limit}", goal.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| i).collect::<Vec<_>>());
        GRAPH.with(|x| *x.borrow_mut() = g.clone());
        COARSE.set([1, 1, 1, 2, 5, u16::MAX][ctx.rng.gen_range(0..6)]);
        ctx.eval(hash_of(&(text(), start.0)));
        let s = IDASearcher::new(|n: &Node| h[n.0 as usize], ways_out, limit);
        let found = bounded("a search on a small graph", 60, || run!(ctx, Searcher::<Node, Label>::search(&s, &start, |n: &Node| goal[n.0 as usize]), "{}: search from {start:?}", text()));
        let len = judge(ctx, &start, found, &ways_out, &|n: &Node| goal[n.0 as usize], cautious.then_some(sol), limit as i64, &text());
        ctx.metric(
            &format!(
                "{name}: {}",
                match (len, sol) {
                    (Some(0), _) => "already there",
                    (Some(_), _) => "solved",
                    (None, None) => "no solution",
                    (None, Some(x)) if x as i32 > limit => "beyond the limit",
                    _ => "not found with overestimates",
                }
            ),
            1,
        );
        ctx.metric(&format!("estimates: {est}"), 1);
        if let Some(l) = len {
            ctx.metric_max("longest solution on a graph", l as u64);
        }
        ctx.sample(|| format!("{}, from {start:?}: {len:?} steps", text()));
        // solving is searching for the solved state
        if cautious && goal.iter().enumerate().all(|(i, x)| *x == (i == 0)) {
            let alg = run!(ctx, Solver::<Node, Label>::solve(&s, &start), "{}: solve from {start:?}", text());
            let found = alg.map(|a| {
                let mut c = start.clone();
                for m in &a.moves {
                    <Node as Movable<Label>>::apply(&mut c, m);
                }
                (a, c)
            });
            judge(ctx, &start, found, &ways_out, &|n: &Node| n.0 == 0, Some(sol), limit as i64, &format!("solve, {}", text()));
            ctx.metric("solves on graphs", 1);
        }
    }
}

// ---- real cubes ----

/// Fewest steps to a goal, up to `cap`
fn breadth_first<C: Clone + Eq + Hash, M>(start: &C, ways: &dyn Fn(&C) -> Vec<(C, M)>, goal: &dyn Fn(&C) -> bool, cap: u32) -> Option<u32> {
    let mut seen: HashSet<C> = HashSet::from([start.clone()]);
    let mut level = vec![start.clone()];
    for d in 0..=cap {
        if level.iter().any(goal) {
            return Some(d);
        }
        let mut next = vec![];
        for c in &level {
            for (n, _) in ways(c) {
                if seen.insert(n.clone()) {
                    next.push(n);
                }
            }
        }
        level = next;
    }
    None
}

type Key = (usize, usize, usize);
fn key(a: &Arr) -> Key {
    (corner_rank(a), half_rank(a, 0), half_rank(a, 1))
}

/// Arrangements near the solved one and their distances
fn near(depth: u8) -> HashMap<Key, u8> {
    let moves = moves18();
    let mut t = HashMap::new();
    let mut level = vec![Arr::solved()];
    t.insert(key(&level[0]), 0);
    for d in 1..=depth {
        let mut next = vec![];
        for a in &level {
            for m in &moves {
                let b = a.turned(m);
                if let std::collections::hash_map::Entry::Vacant(e) = t.entry(key(&b)) {
                    e.insert(d);
                    next.push(b);
                }
            }
        }
        level = next;
    }
    t
}

/// Exact distance from both ends, if at most twice the depth of the table
fn exact(a: &Arr, t: &HashMap<Key, u8>, depth: u8) -> Option<u32> {
    if let Some(d) = t.get(&key(a)) {
        return Some(*d as u32);
    }
    let moves = moves18();
    let mut seen: HashSet<Key> = HashSet::from([key(a)]);
    let mut level = vec![a.clone()];
    for d in 1..=depth {
        let mut next = vec![];
        let mut best = None;
        for a in &level {
            for m in &moves {
                let b = a.turned(m);
                let k = key(&b);
                if let Some(x) = t.get(&k) {
                    let x = *x as u32 + d as u32;
                    best = Some(best.map_or(x, |y: u32| y.min(x)));
                }
                if seen.insert(k) {
                    next.push(b);
                }
            }
        }
        // all states d away are checked: the first that is in the table is at its rim
        if best.is_some() {
            return best;
        }
        level = next;
    }
    None
}

fn arr_of(c: &Cube3) -> Arr {
    match Arr::of(c.corners.pieces(), c.edges.pieces()) {
        Some(a) => a,
        None => std::panic::panic_any(format!("VIOL: not an arrangement of pieces: {c:?}")),
    }
}

fn all_ways3(c: &Cube3) -> Vec<(Cube3, AxisMove)> {
    all_moves(0).iter().map(|m| (<Cube3 as Movable<AxisMove>>::moved(c.clone(), &m.axis_move()), m.axis_move())).collect()
}

fn successors(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(200, 2000) {
        let a = if ctx.rng.gen_bool(0.5) { Arr::random_solvable(&mut ctx.rng) } else { Arr::random(&mut ctx.rng) };
        let c = a.cube3();
        ctx.eval(hash_of(&a));
        let s: Vec<(Cube3, AxisMove)> = run!(ctx, c.successors().into_iter().collect(), "successors of {c:?}");
        let mut seen = HashSet::new();
        for (n, m) in &s {
            let want = a.turned(&Mv::from_axis_move(m)).cube3();
            ck!(ctx, *n == want, "successors of {c:?}: {m} is said to give {n:?}, it gives {want:?}");
            seen.insert(Mv::from_axis_move(m).to_string());
        }
        ck!(ctx, seen.len() == 18 && s.len() == 18, "the successors of {c:?} are {} with {} different moves, there are 18 face turns", s.len(), seen.len());
    }
    ctx.metric("lists of successors, all 18 right", ctx.amount(200, 2000));
}

fn cube3s(ctx: &mut Ctx, pdb: &Pdb) {
    let depth = ctx.amount(4, 5) as u8;
    let table = near(depth);
    ctx.metric("states near the solved one with known distance", table.len() as u64);
    for i in 0..ctx.amount(150, 1500) {
        let long = ctx.amount(8, 10) as usize;
        let l = if i < 4 { i as usize } else { ctx.rng.gen_range(0..=long) };
        let w = random_word(&mut ctx.rng, l, 0);
        let a = Arr::solved().turned_by(&w);
        let Some(d) = exact(&a, &table, depth) else { ctx.error("no distance") };
        let c = a.cube3();
        ctx.eval(hash_of(&a));
        let r: f32 = ctx.rng.gen_range(0.7..1.0);
        let salt: u64 = ctx.rng.gen();
        let far = |c: &Cube3| pdb.get(&arr_of(c)) as f32;
        let wobble = |c: &Cube3| hash_of(&(salt, c)) % 4;
        let (name, cautious, found): (_, _, Option<Alg<AxisMove>>) = bounded("solve_with_heuristic", 200, || match ctx.rng.gen_range(0..if d <= 3 { 7 } else { 4 }) {
            0 | 1 => ("largest pattern distance", true, run!(ctx, c.solve_with_heuristic(far), "solve {w:?}")),
            2 => ("part of the largest pattern distance", true, run!(ctx, c.solve_with_heuristic(|c| far(c) * r), "solve {w:?}")),
            3 => ("inconsistent pattern distance", true, run!(ctx, c.solve_with_heuristic(|c| (far(c) - wobble(c) as f32 / 2.0).max(0.0)), "solve {w:?}")),
            4 => ("zero", true, run!(ctx, c.solve_with_heuristic(heuristics::zero), "solve {w:?}")),
            5 => ("manhattan", false, run!(ctx, c.solve_with_heuristic(heuristics::manhattan), "solve {w:?}")),
            _ => ("fallback for missing tables", true, run!(ctx, c.solve_with_heuristic(heuristics::mus_with_fallback(far)), "solve {w:?}")),
        });
        let what = format!("3x3x3 after {}, solved with {name}", word_str(&w));
        let found = found.map(|alg| {
            let word: Vec<Mv> = alg.moves.iter().map(Mv::from_axis_move).collect();
            (alg, a.turned_by(&word).cube3())
        });
        ck!(ctx, found.is_some(), "{what}: no solution found");
        let l = judge(ctx, &c, found, &all_ways3, &|c| arr_of(c) == Arr::solved(), cautious.then_some(Some(d)), 200, &what);
        ctx.metric(&format!("3x3x3 with {name}"), 1);
        ctx.metric(&format!("3x3x3 solved in {}", l.unwrap()), 1);
    }
}

/// Searches with a part of the moves for a part of the cube
fn parts3(ctx: &mut Ctx) {
    for i in 0..ctx.amount(250, 4000) {
        let mut all = all_moves(0);
        shuffle(&mut all, &mut ctx.rng);
        let mut allowed: Vec<Mv> = match ctx.rng.gen_range(0..5) {
            0 => all.into_iter().filter(|m| m.k == 2).collect(),
            1 => {
                let (f, g) = (ctx.rng.gen_range(0..6), ctx.rng.gen_range(0..6));
                all.into_iter().filter(|m| m.face() == f || m.face() == g).collect()
            }
            2 => all.into_iter().filter(|m| m.k == 1).collect(),
            3 => all.into_iter().take(4).collect(),
            _ => all,
        };
        shuffle(&mut allowed, &mut ctx.rng);
        let long = match allowed.len() {
            0..=4 => 6,
            5..=6 => 5,
            7..=9 => 4,
            _ => 3,
        };
        let wl = ctx.rng.gen_range(0..=25);
        let setup = random_word(&mut ctx.rng, wl, 0);
        let start = Arr::solved().turned_by(&setup);
        // the goal: some places look like in a state some turns away
        let gl = ctx.rng.gen_range(0..=long);
        let w: Vec<Mv> = (0..gl).map(|_| if i % 9 == 0 { Mv::random(&mut ctx.rng, 0) } else { allowed[ctx.rng.gen_range(0..allowed.len())] }).collect();
        let end = start.turned_by(&w);
        let p = [0.2, 0.5, 1.0][ctx.rng.gen_range(0..3)];
        let (cs, es): (Vec<bool>, Vec<bool>) = ((0..8).map(|_| ctx.rng.gen_bool(p)).collect(), (0..12).map(|_| ctx.rng.gen_bool(p)).collect());
        let same = |a: &Arr| (0..8).all(|i| !cs[i] || (a.cp[i], a.co[i]) == (end.cp[i], end.co[i])) && (0..12).all(|i| !es[i] || (a.ep[i], a.eo[i]) == (end.ep[i], end.eo[i]));
        let limit = long as i32;
        let ways_arr = |a: &Arr| allowed.iter().map(|m| (a.turned(m), *m)).collect::<Vec<_>>();
        let d = breadth_first(&start, &ways_arr, &same, long as u32);
        let ways = |c: &Cube3| allowed.iter().map(|m| (<Cube3 as Movable<AxisMove>>::moved(c.clone(), &m.axis_move()), m.axis_move())).collect::<Vec<_>>();
        let goal = |c: &Cube3| same(&arr_of(c));
        let c = start.cube3();
        // an estimate that is 0 or 1
        let one = ctx.rng.gen_bool(0.5);
        let h = |c: &Cube3| if one && !goal(c) { 0.75 } else { 0.0 };
        let s = IDASearcher::new(h, ways, limit);
        let what = format!(
            "3x3x3 after {}, moves {}, wanted the places of corners {cs:?} and edges {es:?} as after {}, limit {limit}",
            word_str(&setup),
            word_str(&allowed),
            word_str(&w)
        );
        ctx.eval(hash_of(&what));
        let found = bounded("a search with some moves", 200, || run!(ctx, Searcher::<Cube3, AxisMove>::search(&s, &c, goal), "{what}"));
        // nothing shorter than the limit: the search may still go on to a longer one
        if d.is_none() {
            if let Some((alg, _)) = &found {
                ck!(ctx, alg.moves.len() > long, "{what}: a solution of {} turns that does not exist", alg.moves.len());
            }
        }
        let l = judge(ctx, &c, found, &ways, &goal, d.map(Some), limit as i64, &what);
        ctx.metric(
            match l {
                Some(0) => "parts of a 3x3x3 that were right already",
                Some(_) => "parts of a 3x3x3 with some moves: solved",
                None => "parts of a 3x3x3 with some moves: not within the limit",
            },
            1,
        );
        ctx.sample(|| format!("{what}: {l:?} turns"));
    }
}

fn cube2s(ctx: &mut Ctx, pdb: &Pdb) {
    let ways = |c: &Cube2| all_moves(0).iter().map(|m| (<Cube2 as Movable<AxisMove>>::moved(c.clone(), &m.axis_move()), m.axis_move())).collect::<Vec<_>>();
    let edges = Arr::solved().edges();
    let corner = |c: &Cube2| match Arr::of(c.corners.pieces(), &edges) {
        Some(a) => pdb.corners[corner_rank(&a)] as u32,
        None => std::panic::panic_any(format!("VIOL: not an arrangement of pieces: {c:?}")),
    };
    for _ in 0..ctx.amount(400, 4000) {
        let wl = ctx.rng.gen_range(0..=20);
        let w = random_word(&mut ctx.rng, wl, 0);
        let a = Arr::solved().turned_by(&w);
        let c = a.cube2();
        let d = pdb.corners[corner_rank(&a)] as u32;
        let salt: u64 = ctx.rng.gen();
        let (name, part): (_, f32) = match ctx.rng.gen_range(0..3) {
            0 if d <= 5 => ("part of the exact distance", ctx.rng.gen_range(0.5..1.0)),
            1 if d <= 8 => ("inconsistent part of the distance", -1.0),
            _ => ("exact distance", 1.0),
        };
        let h = |c: &Cube2| {
            let x = corner(c) as f32;
            match part < 0.0 {
                true => (x - (hash_of(&(salt, c)) % 3) as f32 / 2.0).max(0.0),
                false => x * part,
            }
        };
        let limit = d as i32 + ctx.rng.gen_range(0..5);
        let what = format!("2x2x2 after {}, solved with {name}, limit {limit}", word_str(&w));
        ctx.eval(hash_of(&what));
        let s = IDASearcher::new(h, ways, limit);
        let found = bounded("a search of a 2x2x2", 200, || run!(ctx, Searcher::<Cube2, AxisMove>::search(&s, &c, |c: &Cube2| *c == Arr::solved().cube2()), "{what}"));
        judge(ctx, &c, found, &ways, &|c| *c == Arr::solved().cube2(), Some(Some(d)), limit as i64, &what);
        ctx.metric(&format!("2x2x2 with {name}"), 1);
        ctx.metric_max("furthest 2x2x2", d as u64);
    }
}

fn cube4s(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(60, 600) {
        let depth = ctx.rng.gen_range(0..2);
        let mut allowed = all_moves(1);
        shuffle(&mut allowed, &mut ctx.rng);
        if depth == 0 {
            allowed.truncate(6);
        }
        let long = if depth == 0 { 4 } else { 2 };
        let w: Vec<Mv> = (0..ctx.rng.gen_range(0..=long)).map(|_| allowed[ctx.rng.gen_range(0..allowed.len())].inv()).collect();
        let c = Cube4::after(&w);
        let ways = |c: &Cube4| allowed.iter().map(|m| (<Cube4 as Movable<WideAxisMove<1>>>::moved(c.clone(), &m.wide::<1>()), m.wide::<1>())).collect::<Vec<_>>();
        let goal = |c: &Cube4| c.is_solved();
        let d = breadth_first(&c, &ways, &goal, long);
        let what = format!("4x4x4 after {}, moves {}", word_str(&w), word_str(&allowed));
        ctx.eval(hash_of(&what));
        let s = IDASearcher::new(heuristics::zero, ways, long as i32);
        let found = bounded("a search of a 4x4x4", 200, || run!(ctx, Searcher::<Cube4, WideAxisMove<1>>::search(&s, &c, goal), "{what}"));
        let l = judge(ctx, &c, found, &ways, &goal, d.map(Some), long as i64, &what);
        ctx.metric(if l.is_some() { "4x4x4 solved" } else { "4x4x4 not within the limit" }, 1);
    }
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    let pdb = Pdb::build();
    graphs(ctx);
    successors(ctx);
    cube3s(ctx, &pdb);
    parts3(ctx);
    cube2s(ctx, &pdb);
    cube4s(ctx);
    ctx.rule = "every search on random small graphs (with forbidden ways, dead ends, loops; estimates that are zero, exact, fractional, inconsistent or too high; all kinds of limits), and on real 2x2x2, 3x3x3 and 4x4x4 with all or some of the moves; each step of a result is replayed against the ways out, its end and length against an own breadth-first or two-sided search".into();
    ctx.assumptions = vec!["that a search only fails beyond its limit is judged for estimates that never exceed the distance".into()];
}
