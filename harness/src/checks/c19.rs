//! C19: edge and cross distance estimates never overestimate.
use super::c18::{distances, homes, with_cross, STATES};
use super::*;
use crate::pdb::edge_moves;
use crate::{ck, run};
use barbarosa::cube3::cfop::cross::worse_but_admissable_cross_heuristic;
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube_n::Edge;
use std::sync::atomic::{AtomicU64, Ordering};

/// Fewest turns of one edge between any two states (place, flipped): by an own search
fn edge_distances() -> [[u8; 24]; 24] {
    let em = edge_moves();
    std::array::from_fn(|start| {
        let mut t = [255u8; 24];
        t[start] = 0;
        let mut level = vec![start];
        let mut d = 0;
        while !level.is_empty() {
            d += 1;
            let mut next = vec![];
            for s in level {
                for m in &em {
                    let (to, flip) = m[s / 2];
                    let q = to * 2 + (s % 2 ^ flip as usize);
                    if t[q] == 255 {
                        t[q] = d;
                        next.push(q);
                    }
                }
            }
            level = next;
        }
        t
    })
}

fn single(ctx: &mut Ctx) {
    let t = edge_distances();
    for home in 0..12 {
        let original = un_edge_coords(edge_home(home));
        for place in 0..12 {
            for flipped in 0..2 {
                let (axis, slice) = un_edge_coords(edge_home(place));
                let e = Edge::new(axis, slice, flipped == 0);
                let d = t[place * 2 + flipped][home * 2];
                ctx.eval((home * 24 + place * 2 + flipped) as u64);
                let got = run!(ctx, min_moves_to_solve(&original, &e), "min_moves_to_solve({original:?}, {e:?})");
                ck!(ctx, got == d as i32, "{e:?} is said to need {got} turns to be solved at {original:?}, it is {d}");
                ctx.metric(&format!("edges {d} turns from home"), 1);
            }
        }
    }
}

fn crosses(ctx: &mut Ctx) {
    let rounds = ctx.amount(1, 20) as usize;
    let seed: u64 = ctx.rng.gen();
    let tables = parallel(6, |f| Ok(distances(f))).expect("harness: tables");
    let seen: Vec<Vec<AtomicU64>> = (0..10).map(|_| (0..10).map(|_| AtomicU64::new(0)).collect()).collect();
    let r = parallel(96 * rounds, |part| {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(seed ^ (part as u64) << 32);
        let (f, p) = (part % 6, part / 6 % 16);
        for r in STATES * p / 16..STATES * (p + 1) / 16 {
            let a = with_cross(f, r, &mut rng);
            let c = a.cube3();
            let d = tables[f][r];
            let got = guarded(|| worse_but_admissable_cross_heuristic(&c, &face(f))).map_err(|e| format!("estimate for {}: {e}: {c:?}", face_name(f)))?;
            if !(got <= d as f32) || !(got >= 0.0) {
                return Err(format!("the cautious estimate for the cross of {} is {got}, {d} turns are enough: {c:?}", face_name(f)));
            }
            if d == 0 && got != 0.0 {
                return Err(format!("the estimate for the solved cross of {} is {got}: {c:?}", face_name(f)));
            }
            seen[d as usize][got as usize].fetch_add(1, Ordering::Relaxed);
        }
        Ok(())
    });
    if let Err(e) = r {
        ctx.fail(e);
    }
    let mut n = 0;
    for (d, row) in seen.iter().enumerate() {
        for (g, x) in row.iter().enumerate() {
            let x = x.load(Ordering::Relaxed);
            if x > 0 {
                ctx.metric(&format!("crosses {d} turns away estimated at {g}"), x);
                n += x;
            }
        }
    }
    ctx.eval_many(n);
    for f in 0..6 {
        ctx.sample(|| format!("{}: cross edges {:?}, furthest {}", face_name(f), homes(f).map(edge_home), tables[f].iter().max().unwrap()));
    }
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    single(ctx);
    crosses(ctx);
    ctx.exhaustive = true;
    ctx.rule = "all 288 pairs of edge state and target against an own breadth-first search of single edges; the cautious estimate on all 190080 crosses of each of the six faces (the rest of the cube solved, random or not valid) against the exact distances".into();
}
