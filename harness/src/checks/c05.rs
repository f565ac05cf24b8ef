//! C05: solved means every face shows its own color.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::wide::{DepthPiece, DepthPieceSet};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::{moves::rotation::Rotatable, Orientable, Orientation, Wing};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::Piece;

fn compare<C: AnyCube>(ctx: &mut Ctx, c: &C, p: &Phys, why: &dyn Fn() -> String)
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let want = p.colors_home();
    let got = run!(ctx, c.is_solved(), "is_solved of {}", why());
    if got != want {
        let w = why();
        ctx.fail(format!("{0}x{0}x{0} after {w}: is_solved is {got}, but on the physical cube it is {want}; not at home: {1:?}", C::S, p.moved_cubies()));
    }
    let o = Orientable::new(c.clone());
    let got = run!(ctx, o.is_solved(), "is_solved of orientable {}", why());
    if got != want {
        let w = why();
        ctx.fail(format!("{0}x{0}x{0} held as at the start after {w}: is_solved is {got}, but on the physical cube it is {want}", C::S));
    }
    ctx.eval(hash_of(&(C::S, &p.st)));
    ctx.metric(&format!("{} {}", if want { "solved" } else { "not solved" }, if p.is_identity() { "(untouched)" } else { "(something moved)" }), 1);
}

fn big<C: AnyCube>(ctx: &mut Ctx)
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let n = C::S;
    let solved = Phys::solved(n);
    ck!(ctx, C::new_solved() == C::SOLVED, "new_solved of {n}x{n}x{n}");
    compare(ctx, &C::SOLVED, &solved, &|| "nothing".into());
    for a in all_moves(C::D) {
        for b in all_moves(C::D) {
            let w = [a, b];
            let c = run!(ctx, C::after(&w), "{}", word_str(&w));
            compare(ctx, &c, &solved.with_word(&w), &|| word_str(&w));
        }
    }
    for _ in 0..ctx.amount(400, 8000) {
        let l = len(&mut ctx.rng, 10, 60);
        let w = random_word(&mut ctx.rng, l, C::D);
        let c = run!(ctx, C::after(&w), "{}", word_str(&w));
        compare(ctx, &c, &solved.with_word(&w), &|| word_str(&w));
        let full: Vec<Mv> = w.iter().chain(&inv_word(&w)).copied().collect();
        let c = run!(ctx, C::after(&full), "{}", word_str(&full));
        compare(ctx, &c, &solved, &|| word_str(&full));
    }
    // few moved pieces: powers of random words
    for _ in 0..ctx.amount(250, 3000) {
        let l = ctx.rng.gen_range(2..7);
        let w = random_word(&mut ctx.rng, l, C::D);
        let p = solved.with_word(&w);
        let Some(o) = p.order(3_000) else { continue };
        let mut cur = solved.clone();
        let mut c = C::SOLVED;
        for i in 1..=o {
            run!(ctx, c.word(&w), "{}", word_str(&w));
            cur = cur.then(&p);
            if o % i == 0 || cur.colors_home() {
                compare(ctx, &c, &cur, &|| format!("[{}] repeated {i} times", word_str(&w)));
            }
        }
    }
    if n >= 4 {
        // single kinds of pieces, also brought onto one face where they are indistinguishable
        let tries = ctx.amount(3000, 20_000) as usize;
        let iso = super::c02::isolating_words(n, &mut ctx.rng, tries);
        for (kind, list) in &iso {
            let center = kind[1] < n as i32 - 1;
            for (w, p) in list {
                let c = run!(ctx, C::after(w), "{}", word_str(w));
                compare(ctx, &c, p, &|| format!("[{}], which moves only {kind:?}", word_str(w)));
                // conjugate until the moved centers are on the same face
                let mut found = 0;
                for _ in 0..if center { 400 } else { 2 } {
                    let s = { let l = ctx.rng.gen_range(1..4); random_word(&mut ctx.rng, l, C::D) };
                    let conj: Vec<Mv> = s.iter().chain(w).chain(&inv_word(&s)).copied().collect();
                    let pc = solved.with_word(&conj);
                    if pc.colors_home() || !center || found == 0 && ctx.rng.gen_bool(0.02) {
                        let c = run!(ctx, C::after(&conj), "{}", word_str(&conj));
                        compare(ctx, &c, &pc, &|| format!("[{}], which moves only {kind:?}", word_str(&conj)));
                        if pc.colors_home() {
                            found += 1;
                            ctx.metric(&format!("{n}x{n}x{n}: only indistinguishable {kind:?} exchanged"), 1);
                            ctx.sample(|| format!("{n}x{n}x{n} solved after [{}] though {:?} moved", word_str(&conj), pc.moved_cubies()));
                            if found >= 3 {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Arranged 2x2x2 and 3x3x3 with little wrong
fn arranged(ctx: &mut Ctx) {
    let mut arrs = vec![Arr::solved()];
    for i in 0..8 {
        for o in [0, 2] {
            let mut a = Arr::solved();
            a.co[i] = o;
            arrs.push(a);
        }
        for j in 0..i {
            let mut a = Arr::solved();
            a.cp.swap(i, j);
            arrs.push(a);
        }
    }
    for i in 0..12 {
        let mut a = Arr::solved();
        a.eo[i] = false;
        arrs.push(a);
        for j in 0..i {
            let mut a = Arr::solved();
            a.ep.swap(i, j);
            arrs.push(a.clone());
            a.eo[i] = false;
            a.eo[j] = false;
            arrs.push(a);
        }
    }
    for _ in 0..ctx.amount(2000, 20_000) {
        let r = Arr::random(&mut ctx.rng);
        let mut a = Arr::solved();
        match ctx.rng.gen_range(0..6) {
            0 => a = r,
            1 => a.cp = r.cp,
            2 => a.co = r.co,
            3 => a.ep = r.ep,
            4 => a.eo = r.eo,
            _ => {
                for _ in 0..2 {
                    let (i, j, k) = (ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..8));
                    a.cp.swap(i, j);
                    a.cp.swap(j, k);
                    let (i, j, k) = (ctx.rng.gen_range(0..12), ctx.rng.gen_range(0..12), ctx.rng.gen_range(0..12));
                    a.ep.swap(i, j);
                    a.ep.swap(j, k);
                }
            }
        }
        arrs.push(a);
    }
    for a in arrs {
        let p3 = a.phys(3);
        let c3 = a.cube3();
        compare(ctx, &c3, &p3, &|| format!("arranging {a:?}"));
        let p2 = a.phys(2);
        let c2 = a.cube2();
        compare(ctx, &c2, &p2, &|| format!("arranging {a:?}"));
        // single sets and pieces
        let ce = p2.colors_home();
        ck!(ctx, run!(ctx, c2.corners.is_solved(), "set") == ce, "the set of corners of {a:?} is_solved should be {ce}");
        let mut only_edges = a.clone();
        only_edges.cp = Arr::solved().cp;
        only_edges.co = Arr::solved().co;
        let ee = only_edges.phys(3).colors_home();
        ck!(ctx, run!(ctx, c3.edges.is_solved(), "set") == ee, "the set of edges of {a:?} is_solved should be {ee}");
        for (i, (pos, piece)) in c3.corners.iter_with_pos().enumerate() {
            let want = a.cp[i] == i && a.co[i] == 1;
            ck!(ctx, piece.is_solved(&pos) == want, "corner {i} of {a:?}: is_solved should be {want}");
        }
        for (i, (pos, piece)) in c3.edges.iter_with_pos().enumerate() {
            let want = a.ep[i] == i && a.eo[i];
            ck!(ctx, piece.is_solved(&pos) == want, "edge {i} of {a:?}: is_solved should be {want}");
        }
        ctx.metric("arranged cubes", 1);
    }
}

/// Piece sets of big cubes: solved when the stickers of these pieces are on their faces
fn sets<P, const N: usize, const ND: u32, const TD: u32>(ctx: &mut Ctx, n: usize, what: &str)
where
    P: DepthPiece + Rotatable + PieceSetDescriptor<N> + Located,
{
    let max = n as u32 / 2 - 1;
    let solved = Phys::solved(n);
    let homes: Vec<([i32; 3], usize)> = P::SOLVED.iter().map(|p| (p.cubie(n, ND, TD), p.sticker_axis())).collect();
    let solved_in = |p: &Phys| {
        let loc = p.locations();
        homes.iter().all(|(h, _)| {
            (0..3).filter(|a| h[*a].abs() == n as i32 - 1).all(|a| {
                let i = p.g.index[&Slot { p: *h, a, d: h[a].signum() }] as usize;
                let now = &p.g.slots[loc[i] as usize];
                now.a == a && now.d == h[a].signum()
            })
        })
    };
    let mut words: Vec<Vec<Mv>> = vec![vec![]];
    for m in all_moves(max) {
        words.push(vec![m]);
    }
    for _ in 0..ctx.amount(150, 2000) {
        let l = ctx.rng.gen_range(2..30);
        words.push(random_word(&mut ctx.rng, l, max));
    }
    let tries = ctx.amount(1500, 10_000) as usize;
    let iso = super::c02::isolating_words(n, &mut ctx.rng, tries);
    for (kind, list) in &iso {
        for (w, _) in list.iter().take(12) {
            words.push(w.clone());
            if homes.iter().any(|h| orbit(h.0) == *kind) {
                for _ in 0..40 {
                    let l = ctx.rng.gen_range(1..4);
                    let s = random_word(&mut ctx.rng, l, max);
                    words.push(s.iter().chain(w).chain(&inv_word(&s)).copied().collect());
                }
            }
        }
    }
    for w in words {
        let mut set = DepthPieceSet::<P, N, ND, TD>::SOLVED;
        for m in &w {
            run!(ctx, set.apply(&m.wide::<2>()), "{what} {m}");
        }
        let want = solved_in(&solved.with_word(&w));
        let got = run!(ctx, set.is_solved(), "is_solved");
        ck!(ctx, got == want, "{what} with depths {ND}, {TD} of a {n}x{n}x{n} after [{}]: is_solved is {got}, should be {want}", word_str(&w));
        ctx.eval(hash_of(&(what, ND, TD, &w)));
        ctx.metric(if want { "solved piece sets" } else { "unsolved piece sets" }, 1);
    }
    // piece by piece: exactly the homes on the same face (or the same place with the same stickers) count
    let (a, b) = (P::SOLVED, P::REFERENCE_POSITIONS);
    for (i, x) in a.iter().enumerate() {
        for (j, pos) in b.iter().enumerate() {
            let got = run!(ctx, Piece::is_solved(x, pos), "{what}");
            let (hi, hj) = (homes[i], homes[j]);
            let stickers = (0..3).filter(|k| hi.0[*k].abs() == n as i32 - 1).count();
            let want = if stickers > 1 { i == j } else { hi.1 == hj.1 && hi.0[hi.1] == hj.0[hj.1] };
            ck!(ctx, got == want, "{what}: a piece at {:?} counts as solved for the place {:?}: {got}, should be {want}", hi.0, hj.0);
            ctx.eval_many(1);
        }
    }
}

/// Held in another way than at the start: a cube whose visible faces are not at home is not solved
fn held(ctx: &mut Ctx) {
    for i in 0..6 {
        for j in 0..6 {
            if i % 3 == j % 3 {
                continue;
            }
            let Ok(orientation) = Orientation::try_from([face(i), face(j)]) else {
                ctx.fail(format!("no orientation with R at {} and U at {}", face_name(i), face_name(j)));
            };
            let mut c = Orientable::new(Cube3::SOLVED);
            c.orientation = orientation;
            // only the orientation of the start is specified; elsewhere it must not panic
            let got = run!(ctx, c.is_solved(), "is_solved of a held cube");
            if i == 0 && j == 1 {
                ck!(ctx, got, "a solved 3x3x3 held as at the start is not solved");
                let t = Mv::random(&mut ctx.rng, 0);
                c.apply(&t.axis_move());
                ck!(ctx, !c.is_solved(), "a 3x3x3 after {t} held as at the start is solved");
            }
            ctx.eval_many(1);
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "is_solved equals: every sticker of the model is on its home face".into();
    arranged(ctx);
    big::<Cube2>(ctx);
    big::<Cube3>(ctx);
    big::<Cube4>(ctx);
    big::<Cube5>(ctx);
    big::<Cube6>(ctx);
    big::<Cube7>(ctx);
    sets::<Wing, 24, 1, 0>(ctx, 4, "wings");
    sets::<Wing, 24, 1, 0>(ctx, 6, "wings");
    sets::<Wing, 24, 2, 0>(ctx, 7, "wings");
    sets::<CenterCorner, 24, 1, 0>(ctx, 4, "center corners");
    sets::<CenterCorner, 24, 2, 0>(ctx, 6, "center corners");
    sets::<CenterEdge, 24, 1, 0>(ctx, 5, "center edges");
    sets::<CenterEdge, 24, 2, 0>(ctx, 7, "center edges");
    sets::<CenterWing, 48, 1, 2>(ctx, 6, "center wings");
    sets::<CenterWing, 48, 1, 2>(ctx, 7, "center wings");
    // center corners have a method of their own for it, too
    for x in &CenterCorner::SOLVED {
        for pos in &CenterCorner::REFERENCE_POSITIONS {
            let got = run!(ctx, CenterCorner::is_solved(x, pos), "is_solved of a center corner");
            let (a, b) = (x.sticker_axis(), pos.sticker_axis());
            let want = a == b && (x.cubie(4, 1, 0)[a] > 0) == (pos.cubie(4, 1, 0)[b] > 0);
            ck!(ctx, got == want, "{x:?} counts as solved at {pos:?}: {got}, should be {want}");
            ctx.eval_many(1);
        }
    }
    held(ctx);
}
