//! C06: only solvable states.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity};
use barbarosa::generic::Alg;
use rand::{rngs::StdRng, SeedableRng};

fn arr3(ctx: &mut Ctx, c: &Cube3, why: &str) -> Arr {
    match Arr::of(c.corners.pieces(), c.edges.pieces()) {
        Some(a) => a,
        None => ctx.fail(format!("{why}: not every piece is there exactly once: {c:?}")),
    }
}
fn twist2(ctx: &mut Ctx, c: &Cube2, why: &str) -> (Vec<usize>, usize) {
    let mut places: Vec<usize> = vec![];
    let mut t = 0;
    for p in c.corners.iter() {
        let v = vec3(&p.position);
        places.push((0..8).find(|i| corner_home(*i) == v).unwrap_or(9));
        t += twist_of(v, unax(p.orientation_axis));
    }
    let mut s = places.clone();
    s.sort();
    ck!(ctx, s == (0..8).collect::<Vec<_>>(), "{why}: not every corner is there exactly once: {c:?}");
    (places, t % 3)
}

fn solvable(ctx: &mut Ctx, c: &Cube3, why: &str) {
    let a = arr3(ctx, c, why);
    let p = (perm_parity(&a.cp), perm_parity(&a.ep));
    ck!(
        ctx,
        a.solvable(),
        "{why}: cannot be solved: {} flipped edges, corner twist {} (modulo 3), parities {} and {}: {c:?}",
        a.flips(),
        a.twist(),
        p.0,
        p.1
    );
    ctx.eval(hash_of(&a));
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "edge flips even, corner twist 0 modulo 3, parities equal (computed from places and stickers), all pieces once".into();
    // random cubes
    for i in 0..ctx.amount(30_000, 1_000_000) {
        let mut r = StdRng::seed_from_u64(ctx.seed.wrapping_mul(1 << 40) + i);
        let c: Cube3 = run!(ctx, r.gen(), "random 3x3x3 with seed {i}");
        solvable(ctx, &c, &format!("random 3x3x3 number {i}"));
        ctx.metric("random 3x3x3", 1);
        let c: Cube2 = run!(ctx, r.gen(), "random 2x2x2 with seed {i}");
        let (places, t) = twist2(ctx, &c, "random 2x2x2");
        ck!(ctx, t == 0, "random 2x2x2 number {i}: cannot be solved, corner twist {t}: {c:?}");
        ctx.eval(hash_of(&(2, places, format!("{c:?}"))));
        ctx.metric("random 2x2x2", 1);
    }
    // a few from the library's own source of randomness
    for _ in 0..300 {
        let c: Cube3 = run!(ctx, rand::random(), "random 3x3x3");
        solvable(ctx, &c, "random 3x3x3 from the thread's generator");
        let c: Cube2 = run!(ctx, rand::random(), "random 2x2x2");
        let (_, t) = twist2(ctx, &c, "random 2x2x2");
        ck!(ctx, t == 0, "random 2x2x2: corner twist {t}");
    }
    // walks
    for _ in 0..ctx.amount(3000, 60_000) {
        let l = ctx.rng.gen_range(1..60);
        let w = random_word(&mut ctx.rng, l, 0);
        let (mut c, mut c2) = (Cube3::SOLVED, Cube2::SOLVED);
        for (i, m) in w.iter().enumerate() {
            run!(ctx, c.apply(&m.axis_move()), "{m}");
            run!(ctx, c2.apply(&m.axis_move()), "{m}");
            if i % 7 == 0 || i + 1 == w.len() {
                solvable(ctx, &c, &format!("after {}", word_str(&w[..=i])));
                let (_, t) = twist2(ctx, &c2, "2x2x2 walk");
                ck!(ctx, t == 0, "2x2x2 after {}: corner twist {t}", word_str(&w[..=i]));
                ctx.metric("states of walks", 1);
            }
        }
    }
    for _ in 0..ctx.amount(300, 3000) {
        let l = ctx.rng.gen_range(0..80);
        let mut r = StdRng::seed_from_u64(ctx.rng.gen());
        let alg = run!(ctx, Alg::<AxisMove>::random_with_rng(l, &mut r), "random alg");
        let c = run!(ctx, Cube3::SOLVED.moved(&alg), "{alg}");
        solvable(ctx, &c, &format!("after {alg}"));
    }
    // repair functions, on all kinds of arrangements
    for i in 0..ctx.amount(30_000, 600_000) {
        let a = match ctx.rng.gen_range(0..5) {
            0 => Arr::random_solvable(&mut ctx.rng),
            1 => {
                // one thing wrong
                let mut a = Arr::random_solvable(&mut ctx.rng);
                match ctx.rng.gen_range(0..4) {
                    0 => {
                        let i = ctx.rng.gen_range(0..12);
                        a.eo[i] = !a.eo[i]
                    }
                    1 => {
                        let i = ctx.rng.gen_range(0..8);
                        a.co[i] = (a.co[i] + 1 + ctx.rng.gen_range(0..2)) % 3
                    }
                    2 => {
                        let (i, j) = (ctx.rng.gen_range(0..12), ctx.rng.gen_range(0..12));
                        a.ep.swap(i, j)
                    }
                    _ => {
                        let (i, j) = (ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..8));
                        a.cp.swap(i, j)
                    }
                }
                a
            }
            2 => {
                let mut a = Arr::solved();
                let (i, j) = (ctx.rng.gen_range(0..12), ctx.rng.gen_range(0..12));
                a.ep.swap(i, j);
                let (i, j) = (ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..8));
                a.cp.swap(i, j);
                a
            }
            _ => Arr::random(&mut ctx.rng),
        };
        let a = if i == 0 { Arr::solved() } else { a };
        let c = a.cube3();
        // one by one
        let mut f = c.clone();
        run!(ctx, fix_swap_parity(&mut f), "fix_swap_parity of {a:?}");
        let b = arr3(ctx, &f, "after fix_swap_parity");
        let ok = perm_parity(&a.cp) == perm_parity(&a.ep);
        ck!(ctx, perm_parity(&b.cp) == perm_parity(&b.ep), "fix_swap_parity leaves different parities: {a:?} becomes {b:?}");
        ck!(ctx, !ok || b == a, "fix_swap_parity changes {a:?}, which has equal parities, to {b:?}");
        let mut es = c.edges.clone();
        run!(ctx, fix_edge_flip_parity(&mut es), "fix_edge_flip_parity of {a:?}");
        let mut f = c.clone();
        f.edges = es;
        let b = arr3(ctx, &f, "after fix_edge_flip_parity");
        ck!(ctx, b.flips() % 2 == 0, "fix_edge_flip_parity leaves {} flipped edges of {a:?}", b.flips());
        ck!(ctx, a.flips() % 2 == 1 || b == a, "fix_edge_flip_parity changes {a:?}, which has an even number of flipped edges, to {b:?}");
        ck!(ctx, b.ep == a.ep, "fix_edge_flip_parity moves edges of {a:?}");
        let mut cs = c.corners.clone();
        run!(ctx, fix_corner_multiplicity(&mut cs), "fix_corner_multiplicity of {a:?}");
        let mut f = c.clone();
        f.corners = cs;
        let b = arr3(ctx, &f, "after fix_corner_multiplicity");
        ck!(ctx, b.twist() == 0, "fix_corner_multiplicity leaves twist {} of {a:?}", b.twist());
        ck!(ctx, a.twist() != 0 || b == a, "fix_corner_multiplicity changes {a:?}, which has no twist, to {b:?}");
        ck!(ctx, b.cp == a.cp, "fix_corner_multiplicity moves corners of {a:?}");
        // all, in any order
        let mut f = c.clone();
        let mut order = [0, 1, 2];
        shuffle(&mut order, &mut ctx.rng);
        for o in order {
            match o {
                0 => run!(ctx, fix_swap_parity(&mut f), "fix_swap_parity"),
                1 => run!(ctx, fix_edge_flip_parity(&mut f.edges), "fix_edge_flip_parity"),
                _ => run!(ctx, fix_corner_multiplicity(&mut f.corners), "fix_corner_multiplicity"),
            }
        }
        solvable(ctx, &f, &format!("repairing {a:?} in order {order:?}"));
        ctx.metric("arrangements repaired", 1);
        ctx.metric(if a.solvable() { "of these already solvable" } else { "of these not solvable before" }, 1);
        ctx.sample(|| format!("{a:?}"));
    }
}
