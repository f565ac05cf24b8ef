//! C18: the cross solvers really solve the cross, the exact one in the fewest turns.
use super::*;
use crate::pdb::*;
use crate::{ck, run};
use barbarosa::cube3::cfop::cross::{count_cross_pieces, get_cross_pieces, is_cross_edge, solve_cross, solve_cross_fast};
use barbarosa::generic::Alg;
use std::sync::atomic::{AtomicU64, Ordering};

pub const STATES: usize = 12 * 11 * 10 * 9 * 16;

/// The homes of the four cross edges of a face
pub fn homes(face: usize) -> [usize; 4] {
    let v: Vec<usize> = (0..12)
        .filter(|i| {
            let p = edge_home(*i);
            let (a, d) = unface(&crate::conv::face(face));
            p[a] == d
        })
        .collect();
    v.try_into().expect("harness: four cross edges")
}

pub fn unrank4(r: usize) -> ([usize; 4], [bool; 4]) {
    let (mut r, o) = (r / 16, r % 16);
    let mut d = [0; 4];
    for i in (0..4).rev() {
        d[i] = r % (12 - i);
        r /= 12 - i;
    }
    let mut left: Vec<usize> = (0..12).collect();
    (d.map(|x| left.remove(x)), std::array::from_fn(|i| o >> i & 1 == 1))
}
pub fn rank4(p: &[usize; 4], flip: &[bool; 4]) -> usize {
    let mut r = 0;
    for i in 0..4 {
        r = r * (12 - i) + p[i] - (0..i).filter(|j| p[*j] < p[i]).count();
    }
    r * 16 + (0..4).fold(0, |o, i| o | (flip[i] as usize) << i)
}

/// Exact distances of all crosses of a face
pub fn distances(face: usize) -> Vec<u8> {
    let em = edge_moves();
    let mut t = vec![255u8; STATES];
    let start = rank4(&homes(face), &[false; 4]);
    t[start] = 0;
    let mut level = vec![start];
    let mut d = 0;
    while !level.is_empty() {
        d += 1;
        let mut next = vec![];
        for r in level {
            let (p, f) = unrank4(r);
            for m in &em {
                let q = rank4(&p.map(|x| m[x].0), &std::array::from_fn(|i| f[i] ^ m[p[i]].1));
                if t[q] == 255 {
                    t[q] = d;
                    next.push(q);
                }
            }
        }
        level = next;
    }
    assert!(t.iter().all(|x| *x < 20), "harness: all crosses can be solved");
    t
}

/// An arrangement with the given cross
pub fn with_cross(face: usize, r: usize, rng: &mut impl Rng) -> Arr {
    let mut a = match rng.gen_range(0..4) {
        0 => Arr::solved(),
        1 => Arr::random(rng),
        _ => Arr::random_solvable(rng),
    };
    let (p, f) = unrank4(r);
    let h = homes(face);
    for i in 0..4 {
        // swap the places of this edge and the one that is there
        let j = a.ep.iter().position(|x| *x == p[i]).unwrap();
        a.ep.swap(h[i], j);
        a.eo[h[i]] = !f[i];
    }
    a
}

pub fn cross_rank(face: usize, a: &Arr) -> usize {
    let h = homes(face);
    rank4(&h.map(|i| a.ep[i]), &h.map(|i| !a.eo[i]))
}

fn pieces(ctx: &mut Ctx) {
    for f in 0..6 {
        let want = homes(f);
        let lib = face(f);
        let list = run!(ctx, get_cross_pieces(&lib), "cross pieces of {}", face_name(f));
        let mut got: Vec<usize> = list
            .iter()
            .map(|(n, s)| {
                let p = edge_coords(*n, s);
                (0..12).find(|i| edge_home(*i) == p).expect("an edge place")
            })
            .collect();
        ctx.eval(f as u64);
        got.sort();
        let mut sorted = want.to_vec();
        sorted.sort();
        ck!(ctx, got == sorted, "the cross pieces of {} are {list:?}", face_name(f));
        for i in 0..12 {
            let pos = un_edge_coords(edge_home(i));
            let is = run!(ctx, is_cross_edge(&pos, &lib), "is_cross_edge");
            ctx.eval((f * 12 + i + 100) as u64);
            ck!(ctx, is == want.contains(&i), "{pos:?} is said {}to be a cross edge of {}", if is { "" } else { "not " }, face_name(f));
        }
    }
    ctx.metric("faces whose list of cross pieces is right", 6);
}

fn counts(ctx: &mut Ctx) {
    let rounds = ctx.amount(1, 10) as usize;
    let seed: u64 = ctx.rng.gen();
    let by_count: Vec<AtomicU64> = (0..5).map(|_| AtomicU64::new(0)).collect();
    let parts = 96 * rounds;
    let r = parallel(parts, |part| {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed ^ (part as u64) << 32);
        let f = part % 6;
        let p = part / 6 % 16;
        let h = homes(f);
        for r in STATES * p / 16..STATES * (p + 1) / 16 {
            let a = with_cross(f, r, &mut rng);
            let c = a.cube3();
            // this face and some other
            for g in [f, rng.gen_range(0..6)] {
                let h = if g == f { h } else { homes(g) };
                let want = h.iter().filter(|i| a.ep[**i] == **i && a.eo[**i]).count();
                let got = guarded(|| count_cross_pieces(&c, &face(g))).map_err(|e| format!("counting the cross of {}: {e}: {c:?}", face_name(g)))?;
                if got != want as i32 {
                    return Err(format!("{got} cross pieces of {} are said to be solved, it is {want}: {c:?}", face_name(g)));
                }
                by_count[want].fetch_add(1, Ordering::Relaxed);
            }
        }
        Ok(())
    });
    if let Err(e) = r {
        ctx.fail(e);
    }
    let n = by_count.iter().map(|x| x.load(Ordering::Relaxed)).sum();
    ctx.eval_many(n);
    for (i, x) in by_count.iter().enumerate() {
        ctx.metric(&format!("cubes with {i} solved cross pieces"), x.load(Ordering::Relaxed));
    }
}

fn solve(ctx: &mut Ctx, exact: bool, most: u8, each: u64, tables: &[Vec<u8>]) {
    // by face and distance
    let mut jobs = vec![];
    for f in 0..6 {
        for d in 0..=most {
            let all: Vec<usize> = (0..STATES).filter(|r| tables[f][*r] == d).collect();
            if all.is_empty() {
                continue;
            }
            for _ in 0..each.min(all.len() as u64 * 4) {
                let r = all[ctx.rng.gen_range(0..all.len())];
                jobs.push((f, d, with_cross(f, r, &mut ctx.rng)));
            }
        }
    }
    shuffle(&mut jobs, &mut ctx.rng);
    let name = if exact { "exact" } else { "fast" };
    let steps = AtomicU64::new(0);
    let r = parallel(jobs.len(), |i| {
        let (f, d, a) = &jobs[i];
        assert!(tables[*f][cross_rank(*f, a)] == *d, "harness: distance");
        let c = a.cube3();
        let got: Option<(Alg<AxisMove>, Cube3)> =
            bounded("solving a cross", 200, || guarded(|| if exact { solve_cross(&c, &face(*f)) } else { solve_cross_fast(&c, &face(*f)) }))
                .map_err(|e| format!("{name} cross of {}: {e}: {c:?}", face_name(*f)))?;
        let Some((alg, end)) = got else { return Err(format!("{name}: no cross of {} found for {c:?}", face_name(*f))) };
        let w: Vec<Mv> = alg.moves.iter().map(Mv::from_axis_move).collect();
        let b = a.turned_by(&w);
        if b.cube3() != end {
            return Err(format!("{name} cross of {}: {} leads from {c:?} to {:?}, not to the returned {end:?}", face_name(*f), word_str(&w), b.cube3()));
        }
        if tables[*f][cross_rank(*f, &b)] != 0 {
            return Err(format!("{name} cross of {}: {} leads from {c:?} to {end:?}, where the cross is not solved", face_name(*f), word_str(&w)));
        }
        if exact && w.len() != *d as usize {
            return Err(format!("exact cross of {}: {} has {} turns from {c:?}, {d} are enough", face_name(*f), word_str(&w), w.len()));
        }
        steps.fetch_add(w.len() as u64, Ordering::Relaxed);
        Ok(w.len() as u8 - d)
    });
    match r {
        Err(e) => ctx.fail(e),
        Ok(over) => {
            for (i, (f, d, a)) in jobs.iter().enumerate() {
                ctx.eval(hash_of(&(exact, f, a)));
                ctx.metric(&format!("{name} solutions of crosses {d} turns away"), 1);
                if over[i] > 0 {
                    ctx.metric("fast solutions longer than needed", 1);
                }
            }
            if let Some((f, d, a)) = jobs.first() {
                ctx.sample(|| format!("{name}, {}, {d} turns away: {a:?}", face_name(*f)));
            }
        }
    }
    ctx.metric(&format!("turns of {name} solutions replayed"), steps.load(Ordering::Relaxed));
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    let tables = parallel(6, |f| Ok(distances(f))).expect("harness: tables");
    pieces(ctx);
    counts(ctx);
    let (most, each) = (ctx.amount(6, 7) as u8, ctx.amount(30, 200));
    solve(ctx, true, most, each, &tables);
    let (most, each) = (ctx.amount(7, 8) as u8, ctx.amount(150, 1000));
    solve(ctx, false, most, each, &tables);
    ctx.rule = "both cross solvers on crosses of all six faces drawn by their exact distance (own breadth-first search over all 190080 crosses of each face), the rest of the cube solved, random or not even valid; each result is replayed on an own model; the counting of solved cross pieces on every cross of every face".into();
}
