//! C07: uniform generators. Contingency tables of what the generators produce, judged by chi-square.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::{moves::QuarterAxisMove, WideAxisMove};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::generic::Alg;
use rand::{rngs::StdRng, SeedableRng};
use std::collections::{BTreeMap, HashSet};

/// Counts in cells that should all be equally likely
struct Table {
    name: String,
    cells: Vec<u64>,
    n: u64,
}

impl Table {
    fn new(name: impl Into<String>, k: usize) -> Table {
        Table { name: name.into(), cells: vec![0; k], n: 0 }
    }
    fn add(&mut self, cell: usize) {
        self.cells[cell] += 1;
        self.n += 1;
    }
    /// Wilson-Hilferty normal score of the chi-square statistic
    fn z(&self) -> f64 {
        let k = (self.cells.len() - 1) as f64;
        let e = self.n as f64 / self.cells.len() as f64;
        let x: f64 = self.cells.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
        ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
    }
}

#[derive(Default)]
struct Tables {
    t: Vec<Table>,
    at: BTreeMap<String, usize>,
}

impl Tables {
    fn get(&mut self, name: &str, k: usize) -> usize {
        if let Some(i) = self.at.get(name) {
            return *i;
        }
        self.t.push(Table::new(name, k));
        self.at.insert(name.into(), self.t.len() - 1);
        self.t.len() - 1
    }
    fn judge(&self, ctx: &mut Ctx, what: &str) {
        let mut worst = f64::MIN;
        for t in &self.t {
            if t.n < 6 * t.cells.len() as u64 {
                continue; // too few for the approximation
            }
            let z = t.z();
            worst = worst.max(z.abs());
            // p of about 1e-18
            ck!(
                ctx,
                z.abs() < 8.8,
                "{what}: {} is not uniform: {} samples in {} cells, normal score {z:.1}; counts {:?}",
                t.name,
                t.n,
                t.cells.len(),
                &t.cells[..t.cells.len().min(48)]
            );
            ctx.metric(&format!("tables judged ({what})"), 1);
        }
        ctx.metric_max(&format!("largest normal score x100 ({what})"), (worst.max(0.0) * 100.0) as u64);
    }
}

fn rank(p: &[usize]) -> usize {
    let mut r = 0;
    for i in 0..p.len() {
        r = r * (p.len() - i) + p[i + 1..].iter().filter(|x| **x < p[i]).count();
    }
    r
}

/// place of `b` among the places other than that of `a`
fn other(a: usize, b: usize) -> usize {
    b - usize::from(b > a)
}

fn corners(t: &mut Ids, ts: &mut Tables, cp: &[usize; 8], tw: &[usize; 8], last: &mut Option<[usize; 8]>) {
    let _ = &t;
    for i in 0..8 {
        ts.t[t.place_orient[i]].add(cp[i] * 3 + tw[i]);
        for j in 0..8 {
            if i != j {
                ts.t[t.pair[i][j]].add(cp[i] * 7 + other(cp[i], cp[j]));
                ts.t[t.twistpair[i][j]].add((tw[i] * 3 + tw[j]) * 8 + cp[i]);
            }
        }
        if let Some(l) = last {
            ts.t[t.serial[i]].add(l[i] * 8 + cp[i]);
        }
    }
    ts.t[t.perm].add(rank(cp));
    // by place: the twist of the corner that is at each place
    let mut at = [0; 8];
    (0..8).for_each(|i| at[cp[i]] = tw[i]);
    ts.t[t.twists].add(tw[..7].iter().fold(0, |a, x| a * 3 + x));
    ts.t[t.twists_place].add(at[..7].iter().fold(0, |a, x| a * 3 + x));
    ts.t[t.mixed].add((rank(cp) % 105) * 27 + (tw[0] + 3 * tw[1] + 9 * tw[2]));
    *last = Some(*cp);
}

struct Ids {
    place_orient: Vec<usize>,
    pair: Vec<Vec<usize>>,
    twistpair: Vec<Vec<usize>>,
    serial: Vec<usize>,
    perm: usize,
    twists: usize,
    twists_place: usize,
    mixed: usize,
}

fn corner_tables(ts: &mut Tables) -> Ids {
    Ids {
        place_orient: (0..8).map(|i| ts.get(&format!("place and twist of corner {i}"), 24)).collect(),
        pair: (0..8).map(|i| (0..8).map(|j| ts.get(&format!("places of corners {i} and {j}"), 56)).collect()).collect(),
        twistpair: (0..8).map(|i| (0..8).map(|j| ts.get(&format!("twists of corners {i} and {j} and place of {i}"), 72)).collect()).collect(),
        serial: (0..8).map(|i| ts.get(&format!("places of corner {i} in consecutive cubes"), 64)).collect(),
        perm: ts.get("permutation of the corners", 40320),
        twists: ts.get("twists of 7 corners", 2187),
        twists_place: ts.get("twists at 7 places", 2187),
        mixed: ts.get("permutation modulo 105 and 3 twists", 105 * 27),
    }
}

fn cubes(ctx: &mut Ctx) {
    let n = ctx.amount(300_000, 12_000_000);
    // ---- 2x2x2 ----
    let mut ts = Tables::default();
    let mut ids = corner_tables(&mut ts);
    let parity = ts.get("parity of the corners", 2);
    let mut last = None;
    let mut r = StdRng::seed_from_u64(ctx.seed ^ 0x2222);
    let mut distinct: HashSet<u64> = HashSet::new();
    let m = n.min(1_000_000);
    for i in 0..n {
        let c: Cube2 = run!(ctx, r.gen(), "random 2x2x2");
        let (mut cp, mut tw) = ([0; 8], [0; 8]);
        for (k, p) in c.corners.iter().enumerate() {
            let v = vec3(&p.position);
            let Some(j) = (0..8).find(|j| corner_home(*j) == v) else { ctx.fail(format!("{c:?}")) };
            cp[k] = j;
            tw[k] = twist_of(v, unax(p.orientation_axis));
        }
        let key = (rank(&cp) * 6561 + tw.iter().fold(0, |a, x| a * 3 + x)) as u64;
        if i < m {
            distinct.insert(key);
        }
        ctx.eval(hash_of(&(2, key)));
        corners(&mut ids, &mut ts, &cp, &tw, &mut last);
        ts.t[parity].add(perm_parity(&cp));
        ctx.sample(|| format!("2x2x2 with corners at {cp:?} twisted {tw:?}"));
    }
    ts.judge(ctx, "2x2x2");
    // birthday statistic: number of repeated states among m draws from 8! * 3^7
    let total: f64 = 40320.0 * 2187.0;
    let expected = total * (1.0 - (1.0 - 1.0 / total).powf(m as f64));
    let repeats = m as f64 - expected;
    let z = (distinct.len() as f64 - expected) / repeats.max(1.0).sqrt();
    ctx.metric("distinct 2x2x2 states in the first million", distinct.len() as u64);
    ck!(ctx, z.abs() < 9.0, "2x2x2: {} distinct states in {m} draws, {expected:.0} expected", distinct.len());

    // ---- 3x3x3 ----
    let mut ts = Tables::default();
    let mut ids = corner_tables(&mut ts);
    let eo: Vec<_> = (0..12).map(|i| ts.get(&format!("place and flip of edge {i}"), 24)).collect();
    let ep: Vec<Vec<_>> = (0..12).map(|i| (0..12).map(|j| ts.get(&format!("places of edges {i} and {j}"), 132)).collect()).collect();
    let ef: Vec<Vec<_>> = (0..12).map(|i| (0..12).map(|j| ts.get(&format!("flips of edges {i} and {j} and place of {i}"), 48)).collect()).collect();
    let quad: Vec<_> = (0..4).map(|i| ts.get(&format!("places of edges {}..{}", 2 * i, 2 * i + 4), 12 * 11 * 10 * 9)).collect();
    let flips = ts.get("flips of 11 edges", 2048);
    let flips_place = ts.get("flips at 11 places", 2048);
    let parity = ts.get("parity of the permutations", 2);
    let joint: Vec<_> = (0..12).map(|i| ts.get(&format!("parity, flip and place of edge {i}, twist of a corner"), 2 * 2 * 12 * 3)).collect();
    let cross: Vec<Vec<_>> = (0..8).map(|i| (0..12).map(|j| ts.get(&format!("places of corner {i} and edge {j}"), 96)).collect()).collect();
    let flipserial = ts.get("flips of 5 edges in consecutive cubes", 1024);
    let (mut last, mut lastflip) = (None, None);
    let mut r = StdRng::seed_from_u64(ctx.seed ^ 0x3333);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut first = 0;
    for i in 0..n {
        let c: Cube3 = run!(ctx, r.gen(), "random 3x3x3");
        let Some(a) = Arr::of(c.corners.pieces(), c.edges.pieces()) else { ctx.fail(format!("not an arrangement: {c:?}")) };
        let mut tw = [0; 8];
        (0..8).for_each(|k| tw[k] = twist_of(corner_home(a.cp[k]), a.co[k]));
        let p = perm_parity(&a.ep);
        corners(&mut ids, &mut ts, &a.cp, &tw, &mut last);
        for k in 0..12 {
            let f = usize::from(a.eo[k]);
            ts.t[eo[k]].add(a.ep[k] * 2 + f);
            ts.t[joint[k]].add(((p * 2 + f) * 12 + a.ep[k]) * 3 + tw[k % 8]);
            for l in 0..12 {
                if l != k {
                    ts.t[ep[k][l]].add(a.ep[k] * 11 + other(a.ep[k], a.ep[l]));
                    ts.t[ef[k][l]].add((f * 2 + usize::from(a.eo[l])) * 12 + a.ep[k]);
                }
            }
            for l in 0..8 {
                ts.t[cross[l][k]].add(a.cp[l] * 12 + a.ep[k]);
            }
        }
        for (q, id) in quad.iter().enumerate() {
            let v = &a.ep[2 * q..2 * q + 4];
            let mut x = 0;
            for k in 0..4 {
                x = x * (12 - k) + v[k] - v[..k].iter().filter(|y| **y < v[k]).count();
            }
            ts.t[*id].add(x);
        }
        let mut at = [false; 12];
        (0..12).for_each(|k| at[a.ep[k]] = a.eo[k]);
        ts.t[flips].add(a.eo[..11].iter().fold(0, |x, f| x * 2 + usize::from(*f)));
        ts.t[flips_place].add(at[..11].iter().fold(0, |x, f| x * 2 + usize::from(*f)));
        ts.t[parity].add(p);
        let fl = a.eo[..5].iter().fold(0, |x, f| x * 2 + usize::from(*f));
        if let Some(l) = lastflip {
            ts.t[flipserial].add(l * 32 + fl);
        }
        lastflip = Some(fl);
        let h = hash_of(&a);
        if i < 1_000_000 {
            seen.insert(h);
            first += 1;
        }
        ctx.eval(h);
    }
    ts.judge(ctx, "3x3x3");
    // 4.3e19 states: not a single repetition is to be expected
    ck!(ctx, seen.len() + 1 >= first, "3x3x3: only {} distinct states in {first} draws", seen.len());

    // The same source gives the same cubes, another source others
    for s in 0..200u64 {
        let s = s ^ (ctx.seed << 20);
        let (a, b, c): (Cube3, Cube3, Cube3) = (
            StdRng::seed_from_u64(s).gen(),
            StdRng::seed_from_u64(s).gen(),
            StdRng::seed_from_u64(s ^ (1 << 60)).gen(),
        );
        ck!(ctx, a == b, "random 3x3x3: the same source gives different cubes");
        ck!(ctx, a != c, "random 3x3x3: different sources give the same cube");
        let (a, b): (Cube2, Cube2) = (StdRng::seed_from_u64(s).gen(), StdRng::seed_from_u64(s).gen());
        ck!(ctx, a == b, "random 2x2x2: the same source gives different cubes");
    }
    // the thread's own source
    let mut ts = Tables::default();
    let ids: Vec<_> = (0..8).map(|i| ts.get(&format!("corner {i}"), 24)).collect();
    for _ in 0..ctx.amount(20_000, 400_000) {
        let c: Cube2 = run!(ctx, rand::random(), "random 2x2x2");
        for (k, p) in c.corners.iter().enumerate() {
            let v = vec3(&p.position);
            let j = (0..8).find(|j| corner_home(*j) == v).unwrap_or(0);
            ts.t[ids[k]].add(j * 3 + twist_of(v, unax(p.orientation_axis)));
        }
    }
    ts.judge(ctx, "2x2x2 of the thread's source");
}

fn moves(ctx: &mut Ctx) {
    let n = ctx.amount(300_000, 6_000_000);
    let mut ts = Tables::default();
    let mut r = StdRng::seed_from_u64(ctx.seed ^ 0x4444);
    let fk = |f: &Face| face_idx(f);
    let ak = |m: &AxisMove| face_idx(&m.face) * 3 + unamt(m.amount) as usize - 1;
    let qk = |m: &QuarterAxisMove| face_idx(&m.face) * 2 + usize::from(undir(m.direction) > 0);

    macro_rules! stream {
        ($name:expr, $k:expr, $gen:expr) => {{
            let (one, two) = (ts.get($name, $k), ts.get(&format!("consecutive {}s", $name), $k * $k));
            let mut prev = None;
            for _ in 0..n {
                let x: usize = run!(ctx, $gen, "random {}", $name);
                ts.t[one].add(x);
                if let Some(p) = prev {
                    ts.t[two].add(p * $k + x);
                }
                prev = Some(x);
            }
            ctx.metric(&format!("random {}s", $name), n);
            ctx.evals += n;
        }};
    }
    stream!("axis", 3, unax(r.gen::<Axis>()));
    stream!("direction", 2, usize::from(undir(r.gen::<Direction>()) > 0));
    stream!("amount", 3, unamt(r.gen::<Amount>()) as usize - 1);
    stream!("face", 6, fk(&r.gen::<Face>()));
    stream!("face turn", 18, ak(&r.gen::<AxisMove>()));
    stream!("quarter turn", 12, qk(&r.gen::<QuarterAxisMove>()));
    macro_rules! wide {
        ($($d:literal),*) => {$(
            stream!(concat!("layer turn up to depth ", $d), 18 * ($d + 1), {
                let m = r.gen::<WideAxisMove<$d>>();
                m.depth() as usize * 18 + ak(&m.axis_move)
            });
        )*};
    }
    wide!(0, 1, 2, 3, 5, 9);
    // depths far beyond any cube: by tenths
    {
        const D: u32 = 999_999;
        stream!("deep layer turn (tenths)", 180, {
            let m = r.gen::<WideAxisMove<D>>();
            if m.depth() > D {
                std::panic::panic_any(format!("VIOL: a random layer turn of depth {} > {D}", m.depth()));
            }
            (m.depth() / 100_000) as usize * 18 + ak(&m.axis_move)
        });
    }
    // as part of random algorithms
    let first = ts.get("first move of a random algorithm", 18);
    let mid = ts.get("three moves within random algorithms", 18 * 18 * 18);
    let q = ts.get("two quarter turns within random algorithms", 144);
    let w = ts.get("two layer turns within random algorithms", 54 * 54);
    for i in 0..n / 4 {
        let len = 1 + (i % 9) as usize;
        let a = run!(ctx, Alg::<AxisMove>::random_unnormalized_with_rng(len, &mut r), "random algorithm");
        ck!(ctx, a.moves.len() == len, "a random algorithm of length {len} has length {}", a.moves.len());
        ts.t[first].add(ak(&a.moves[0]));
        if len >= 5 {
            let k = (i / 9) as usize % (len - 2);
            ts.t[mid].add((ak(&a.moves[k]) * 18 + ak(&a.moves[k + 1])) * 18 + ak(&a.moves[k + 2]));
        }
        let a = run!(ctx, Alg::<QuarterAxisMove>::random_unnormalized_with_rng(3, &mut r), "random algorithm");
        ts.t[q].add(qk(&a.moves[0]) * 12 + qk(&a.moves[2]));
        let a = run!(ctx, Alg::<WideAxisMove<2>>::random_unnormalized_with_rng(2, &mut r), "random algorithm");
        let wk = |m: &WideAxisMove<2>| m.depth() as usize * 18 + ak(&m.axis_move);
        ts.t[w].add(wk(&a.moves[0]) * 54 + wk(&a.moves[1]));
        ctx.eval(hash_of(&(7, i)));
    }
    ts.judge(ctx, "moves");
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "each sample is placed in contingency tables (places, orientations, pairs, parities, whole permutations, consecutive samples); a table is violated at a normal score beyond 8.8 of its chi-square".into();
    ctx.assumptions.push("StdRng behaves like a uniform source".into());
    moves(ctx);
    cubes(ctx);
}
