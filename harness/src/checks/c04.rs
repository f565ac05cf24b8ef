//! C04: inverses and reversals restore the state.
use super::*;
use crate::{ck, each_cube, run};
use barbarosa::cube_n::moves::{rotation::AxisRotation, ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{Orientable, WideAxisMove};
use barbarosa::generic::moves::AsMove;
use barbarosa::generic::{Alg, Move};
use std::fmt::Debug;

pub fn random_extended(rng: &mut impl Rng, n: u32) -> ExtendedAxisMove {
    let m = Mv::random(rng, 0);
    match rng.gen_range(0..6) {
        0 | 1 => ExtendedAxisMove::Regular(m.axis_move()),
        2 => ExtendedAxisMove::Rotation(rotation(m.a, m.k)),
        3 | 4 => {
            let depth = match rng.gen_range(0..8) {
                0 => u32::MAX - rng.gen_range(0..4),
                1 => rng.gen(),
                2 => rng.gen_range(0..2 * n + 3),
                _ => rng.gen_range(0..n),
            };
            ExtendedAxisMove::Wide(Mv { depth, ..m }.wide::<{ u32::MAX }>())
        }
        _ => ExtendedAxisMove::Slice { rot: rotation(m.a, m.k), wide: rng.gen() },
    }
}

fn round_trip<C, M>(ctx: &mut Ctx, c: &C, ms: &[M], what: &str)
where
    C: Movable<M> + Movable<Alg<M>> + PartialEq + Clone + Debug,
    M: Move + AsMove<Move = M> + PartialEq + Debug,
{
    for m in ms {
        let inv = run!(ctx, m.inverse(), "{what}: inverse of {m:?}");
        let inv2 = run!(ctx, inv.inverse(), "{what}: inverse of {inv:?}");
        ck!(ctx, inv2 == *m, "{what}: the inverse of the inverse of {m:?} is {inv2:?}");
        let there = run!(ctx, <C as Movable<M>>::moved(c.clone(), m), "{what}: {m:?}");
        let back = run!(ctx, <C as Movable<M>>::moved(there, &inv), "{what}: {inv:?}");
        ck!(ctx, back == *c, "{what}: {m:?} and then its inverse {inv:?} changes the state {c:?} to {back:?}");
        let there = run!(ctx, <C as Movable<M>>::moved(c.clone(), &inv), "{what}: {inv:?}");
        let back = run!(ctx, <C as Movable<M>>::moved(there, m), "{what}: {m:?}");
        ck!(ctx, back == *c, "{what}: {inv:?} and then its inverse {m:?} changes the state {c:?} to {back:?}");
    }
    let alg = Alg::<M>::new(ms.to_vec());
    let rev = run!(ctx, alg.reversed(), "{what}: reversed {alg:?}");
    ck!(ctx, rev.moves.len() == ms.len(), "{what}: reversing {alg:?} of length {} has length {}", ms.len(), rev.moves.len());
    let rr = run!(ctx, rev.reversed(), "{what}: reversed");
    ck!(ctx, rr == alg, "{what}: reversing {alg:?} twice gives {rr:?}");
    for (a, b) in [(&alg, &rev), (&rev, &alg)] {
        let there = run!(ctx, <C as Movable<Alg<M>>>::moved(c.clone(), a), "{what}: {a:?}");
        let back = run!(ctx, <C as Movable<Alg<M>>>::moved(there, b), "{what}: {b:?}");
        ck!(ctx, back == *c, "{what}: {a:?} and then {b:?} changes the state");
    }
    ctx.metric(&format!("round trips with {what}"), 2 * ms.len() as u64 + 2);
}

fn one<C: AnyCube + super::c03::Widths>(ctx: &mut Ctx)
where
    Orientable<C>: Movable<ExtendedAxisMove> + Debug,
{
    let n = C::S as u32;
    for i in 0..ctx.amount(500, 8000) {
        let sl = len(&mut ctx.rng, 15, 60);
        let setup = random_word(&mut ctx.rng, sl, C::D);
        let c = run!(ctx, C::after(&setup), "{n}x{n}x{n} {}", word_str(&setup));
        let wl = if i == 0 { 0 } else { len(&mut ctx.rng, 8, 60) };
        let w = if i == 1 { all_moves(C::D) } else { random_word(&mut ctx.rng, wl, C::D) };
        let axis: Vec<AxisMove> = w.iter().map(|m| m.axis_move()).collect();
        round_trip(ctx, &c, &axis, "face turns");
        let quarter: Vec<_> = w.iter().map(|m| QuarterAxisMove::new(mkface(m.a, m.d), dir(if m.k == 1 { 1 } else { -1 }))).collect();
        round_trip(ctx, &c, &quarter, "quarter turns");
        let nr: Vec<_> = w
            .iter()
            .map(|m| match ctx.rng.gen_range(0..3) {
                0 => NonRedundantAxisMove::Single(m.axis_move()),
                _ => NonRedundantAxisMove::Double { axis: ax(m.a), amount_positive: amt(m.k), amount_negative: amt(ctx.rng.gen_range(1..4)) },
            })
            .collect();
        round_trip(ctx, &c, &nr, "merged turns");
        // layer turns of the cube
        let (mut x, inv) = (c.clone(), inv_word(&w));
        run!(ctx, x.word(&w), "layer turns {}", word_str(&w));
        let mut back = x.clone();
        run!(ctx, back.word(&inv), "layer turns {}", word_str(&inv));
        ck!(ctx, back == c, "{n}x{n}x{n}: [{}] and then [{}] changes the state", word_str(&w), word_str(&inv));
        // through the library's inverse, all widths
        for m in &w {
            fn wd<const N: u32>(ctx: &mut Ctx, m: &Mv) -> Mv {
                let l = m.wide::<N>();
                let i = run!(ctx, l.inverse(), "inverse of {l:?}");
                ck!(ctx, i.inverse() == l, "inverse of inverse of {l:?}");
                ck!(ctx, i.depth() == l.depth(), "the inverse of {l:?} has another depth: {i:?}");
                Mv { depth: i.depth(), ..Mv::from_axis_move(&i.axis_move) }
            }
            let i = match C::D {
                0 => wd::<0>(ctx, m),
                1 => wd::<1>(ctx, m),
                _ => wd::<2>(ctx, m),
            };
            let mut y = c.clone();
            run!(ctx, y.narrower(m, 0), "{m}");
            run!(ctx, y.narrower(&i, 1), "{i}");
            ck!(ctx, y == c, "{n}x{n}x{n}: {m} and then its inverse {i} changes the state");
            ctx.metric("round trips with layer turns", 1);
        }
        let alg = Alg::<WideAxisMove<2>>::new(w.iter().map(|m| m.wide::<2>()).collect());
        let rev = run!(ctx, alg.reversed(), "reversed");
        ck!(ctx, rev.moves.len() == w.len() && rev.reversed() == alg, "reversing {alg:?} twice");
        let mut y = c.clone();
        for m in alg.moves.iter().chain(&rev.moves) {
            let m = Mv { depth: m.depth(), ..Mv::from_axis_move(&m.axis_move) };
            run!(ctx, y.mv(&m), "{m}");
        }
        ck!(ctx, y == c, "{n}x{n}x{n}: [{}] and then its reversal changes the state", word_str(&w));

        // cubes held in any orientation
        let mut o = Orientable::new(c.clone());
        let pre = len(&mut ctx.rng, 6, 20);
        let premoves: Vec<_> = (0..pre).map(|_| random_extended(&mut ctx.rng, n)).collect();
        for m in &premoves {
            run!(ctx, <Orientable<C> as Movable<ExtendedAxisMove>>::apply(&mut o, m), "{n}x{n}x{n} {m:?}");
        }
        let wl = len(&mut ctx.rng, 8, 60);
        let ext: Vec<_> = (0..wl).map(|_| random_extended(&mut ctx.rng, n)).collect();
        round_trip(ctx, &o, &ext, "extended moves");
        round_trip::<Orientable<C>, AxisMove>(ctx, &o, &axis, "face turns of held cubes");
        ctx.eval(hash_of(&(n, &setup, &w, format!("{premoves:?}"))));
        ctx.sample(|| format!("{n}x{n}x{n}: {ext:?} there and back"));
    }
}

/// Algorithms of lengths where counters of 8 and 16 bits and fixed buffers run out
fn long<C: AnyCube>(ctx: &mut Ctx)
where
    Orientable<C>: Movable<ExtendedAxisMove> + Debug,
{
    fn alg<C, M>(ctx: &mut Ctx, c: &C, ms: Vec<M>, what: &str)
    where
        C: Movable<M> + Movable<Alg<M>> + PartialEq + Clone,
        M: Move + AsMove<Move = M> + PartialEq + Debug,
    {
        let l = ms.len();
        let alg = Alg::<M>::new(ms);
        let rev = run!(ctx, alg.reversed(), "{what}: reversing {l} moves");
        ck!(ctx, rev.moves.len() == l, "{what}: reversing {l} moves gives {} moves", rev.moves.len());
        for (i, m) in alg.moves.iter().enumerate() {
            let r = &rev.moves[l - 1 - i];
            ck!(ctx, m.inverse() == *r, "{what}: move {i} of {l} is {m:?}, at its place in the reversal is {r:?}");
        }
        ck!(ctx, rev.reversed() == alg, "{what}: reversing {l} moves twice changes them");
        for (a, b, first) in [(&alg, &rev, "the moves"), (&rev, &alg, "their reversal")] {
            let mut x = c.clone();
            run!(ctx, <C as Movable<Alg<M>>>::apply(&mut x, a), "{what}: {l} moves");
            let mut one = c.clone();
            run!(ctx, a.moves.iter().for_each(|m| <C as Movable<M>>::apply(&mut one, m)), "{what}: {l} moves one by one");
            ck!(ctx, x == one, "{what}: {l} moves as an algorithm and one by one differ");
            run!(ctx, <C as Movable<Alg<M>>>::apply(&mut x, b), "{what}: {l} moves");
            ck!(ctx, x == *c, "{what}: {l} moves there and back, {first} first, change the state");
        }
        ctx.eval_many(1);
        ctx.metric("long algorithms there and back", 1);
        ctx.metric_max("longest algorithm there and back", l as u64);
    }
    let n = C::S as u32;
    for l in lengths(&[127, 128, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 65_537, if ctx.thorough { 300_001 } else { 70_001 }]) {
        // the longest ones take long on big cubes
        if l > 5000 && !ctx.thorough && l == if n % 2 == 0 { 70_001 } else { 65_537 } {
            continue;
        }
        let w = random_word(&mut ctx.rng, l, C::D);
        let c = run!(ctx, C::after(&random_word(&mut ctx.rng, 20, C::D)), "setup");
        alg(ctx, &c, w.iter().map(|m| m.axis_move()).collect(), "face turns");
        alg(ctx, &c, w.iter().map(|m| QuarterAxisMove::new(mkface(m.a, m.d), dir(if m.k == 1 { 1 } else { -1 }))).collect(), "quarter turns");
        let nr = w.iter().map(|m| NonRedundantAxisMove::Double { axis: ax(m.a), amount_positive: amt(m.k), amount_negative: amt(ctx.rng.gen_range(1..4)) });
        let nr = nr.collect();
        alg(ctx, &c, nr, "merged turns");
        let ext: Vec<_> = w.iter().map(|_| random_extended(&mut ctx.rng, n)).collect();
        alg(ctx, &Orientable::new(c), ext, "extended moves");
    }
}

fn all_inverses(ctx: &mut Ctx) {
    for m in all_moves(0) {
        let r: AxisRotation = rotation(m.a, m.k);
        let i = run!(ctx, r.inverse(), "inverse of {r:?}");
        ck!(ctx, i == rotation(m.a, 4 - m.k) && i.inverse() == r, "inverse of {r:?} is {i:?}");
        for d in [0, 1, 2, 7, u32::MAX] {
            let w = Mv { depth: d, ..m }.wide::<{ u32::MAX }>();
            let i = run!(ctx, w.inverse(), "inverse");
            ck!(ctx, i == Mv { depth: d, k: 4 - m.k, ..m }.wide::<{ u32::MAX }>(), "inverse of {w:?} is {i:?}");
            ctx.eval(hash_of(&(m, d)));
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "state after move and inverse (alg and reversal) equals the recorded state".into();
    all_inverses(ctx);
    each_cube!(one(ctx));
    each_cube!(long(ctx));
}
