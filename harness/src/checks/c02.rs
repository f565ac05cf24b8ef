//! C02: layer turns of big cubes against the sticker model.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::wide::{DepthPiece, DepthPieceSet};
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::{moves::rotation::Rotatable, WideAxisMove, Wing};
use barbarosa::generic::piece::PieceSetDescriptor;
use std::collections::HashMap;

/// The places of all pieces of a set in the model
fn compare_set<P, const N: usize, const ND: u32, const TD: u32>(
    ctx: &mut Ctx,
    set: &DepthPieceSet<P, N, ND, TD>,
    p: &Phys,
    what: &str,
    hist: &dyn Fn() -> String,
) where
    P: DepthPiece + PieceSetDescriptor<N> + Located,
{
    let n = p.g.n;
    let loc = p.locations();
    for (i, (home, now)) in P::SOLVED.iter().zip(set.iter()).enumerate() {
        let hc = home.cubie(n, ND, TD);
        let ha = home.sticker_axis();
        let slot = Slot { p: hc, a: ha, d: hc[ha].signum() };
        let Some(h) = p.g.index.get(&slot) else {
            ctx.fail(format!("{what}: piece {i} ({home:?}) claims to be at {hc:?}, which is no place of a {n}x{n}x{n}"));
        };
        let want = p.g.slots[loc[*h as usize] as usize].p;
        let got = now.cubie(n, ND, TD);
        if got != want {
            let h = hist();
            ctx.fail(format!("{what}: after {h} the piece from {hc:?} is at {got:?} ({now:?}) but on the physical {n}x{n}x{n} it is at {want:?}"));
        }
        // centers show one sticker: it has to be on the same face
        let wa = p.g.slots[loc[*h as usize] as usize].a;
        let multi = (0..3).filter(|a| hc[*a].abs() == n as i32 - 1).count() > 1;
        if !multi && now.sticker_axis() != wa {
            let h = hist();
            ctx.fail(format!("{what}: after {h} the center from {hc:?} shows on axis {} instead of {wa}", now.sticker_axis()));
        }
    }
}

fn set_walks<P, const N: usize, const ND: u32, const TD: u32, const M: u32>(ctx: &mut Ctx, n: usize, what: &str)
where
    P: DepthPiece + Rotatable + PieceSetDescriptor<N> + Located,
{
    // M: maximum depth of the moves
    let max = M.min(n as u32 / 2 - 1);
    let walks = ctx.amount(60, 600);
    let moves = all_moves(max);
    for i in 0..walks + moves.len() as u64 {
        let mut set = DepthPieceSet::<P, N, ND, TD>::SOLVED;
        let mut p = Phys::solved(n);
        let steps = if (i as usize) < moves.len() { 1 } else { len(&mut ctx.rng, 20, 60) };
        let mut hist = vec![];
        for s in 0..steps {
            let m = if (i as usize) < moves.len() { moves[i as usize] } else { Mv::random(&mut ctx.rng, max) };
            hist.push(m);
            p.turn(&m);
            run!(ctx, <DepthPieceSet<P, N, ND, TD> as Movable<WideAxisMove<M>>>::apply(&mut set, &m.wide::<M>()), "{what} (ND {ND}, TD {TD}) {m} of {M}");
            if s % 4 == 3 || s + 1 == steps {
                compare_set(ctx, &set, &p, &format!("{what} with depths {ND}, {TD}, moves of maximum depth {M}"), &|| word_str(&hist));
                ctx.eval(hash_of(&(what, ND, TD, M, &p.st)));
                ctx.metric("piece set states compared", 1);
            }
        }
    }
}

/// Equal cubes if and only if equal physical cubes
fn same<C: AnyCube>(ctx: &mut Ctx, a: &C, pa: &Phys, b: &C, pb: &Phys, why: &dyn Fn() -> String) {
    let (l, p) = (a == b, pa == pb);
    if l != p {
        let w = why();
        let cubies = if p { vec![] } else { pa.moved_cubies() };
        ctx.fail(format!(
            "{0}x{0}x{0}: {w}: physical cubes are {1}, cubes of the library are {2} {cubies:?}",
            C::S,
            if p { "equal" } else { "different" },
            if l { "equal" } else { "different" }
        ));
    }
    ctx.metric(if p { "pairs of cubes: equal" } else { "pairs of cubes: different" }, 1);
}

fn pow_word(w: &[Mv], n: u64) -> Vec<Mv> {
    (0..n).flat_map(|_| w.iter().copied()).collect()
}

/// A word that only moves pieces of one kind, if found
pub fn isolating_words(n: usize, rng: &mut impl Rng, tries: usize) -> HashMap<[i32; 3], Vec<(Vec<Mv>, Phys)>> {
    let d = (n as u32 / 2 - 1).min(2);
    let mut out: HashMap<[i32; 3], Vec<(Vec<Mv>, Phys)>> = HashMap::new();
    let inner = |rng: &mut dyn rand::RngCore, layer: u32| -> Vec<Mv> {
        // the turn of a single layer
        let f = rng.gen_range(0..6);
        let k = rng.gen_range(1..4);
        if layer == 0 {
            vec![Mv::from_face(f, k, 0)]
        } else {
            vec![Mv::from_face(f, k, layer), Mv::from_face(f, 4 - k, layer - 1)]
        }
    };
    for _ in 0..tries {
        // [A, B C B'] commutators of single layers
        let (la, lb, lc) = (rng.gen_range(0..=d), rng.gen_range(0..=d), rng.gen_range(0..=d));
        let a = inner(rng, la);
        let b = inner(rng, lb);
        let c = inner(rng, lc);
        let x: Vec<Mv> = a.iter().chain(&c).chain(&inv_word(&a)).copied().collect();
        let w: Vec<Mv> = x.iter().chain(&b).chain(&inv_word(&x)).chain(&inv_word(&b)).copied().collect();
        let p = Phys::solved(n).with_word(&w);
        let moved = p.moved_cubies();
        if moved.is_empty() || moved.len() > 8 {
            continue;
        }
        let o = orbit(moved[0]);
        if moved.iter().all(|m| orbit(*m) == o) {
            let v = out.entry(o).or_default();
            if v.len() < 40 {
                v.push((w, p));
            }
        }
    }
    out
}

fn whole_cube<C: AnyCube>(ctx: &mut Ctx) {
    let n = C::S;
    let moves = all_moves(C::D);
    let solved = Phys::solved(n);
    // all words of two turns: sort them by physical state
    let mut groups: HashMap<Vec<u16>, (C, Vec<Mv>)> = HashMap::new();
    let mut prints: HashMap<u64, (Vec<u16>, C, Vec<Mv>)> = HashMap::new();
    let mut words: Vec<Vec<Mv>> = vec![vec![]];
    for a in &moves {
        words.push(vec![*a]);
        for b in &moves {
            words.push(vec![*a, *b]);
        }
    }
    for _ in 0..ctx.amount(4000, 40_000) {
        let l = ctx.rng.gen_range(3..6);
        // few faces, so that equal states are met
        let f = ctx.rng.gen_range(0..6);
        let g = ctx.rng.gen_range(0..6);
        let w = random_word(&mut ctx.rng, l, C::D);
        words.push(w.into_iter().enumerate().map(|(i, m)| Mv::from_face([f, g, (f + 3) % 6][(i + m.face()) % 3], m.k, m.depth)).collect());
    }
    for w in words {
        let p = solved.with_word(&w);
        let c = run!(ctx, C::after(&w), "{n}x{n}x{n} {}", word_str(&w));
        ctx.eval(hash_of(&(n, &p.st)));
        // the same turns as moves of narrower types
        for how in 0..2 {
            let mut c2 = C::SOLVED;
            for m in &w {
                run!(ctx, c2.mv_narrow(m, how), "{n}x{n}x{n} {m} of a narrower type");
            }
            ck!(ctx, c2 == c, "{n}x{n}x{n}: [{}] as {} is not what it is as moves of the cube's own type", word_str(&w), if how == 0 { "plain face turns and narrower wide moves" } else { "narrower wide moves" });
            ctx.metric("words repeated with narrower moves", 1);
        }
        if let Some((c2, w2)) = groups.get(&p.st) {
            let same = c2 == &c;
            let w2 = w2.clone();
            ck!(ctx, same, "{n}x{n}x{n}: [{}] and [{}] lead to the same physical cube but to different cubes", word_str(&w), word_str(&w2));
            ctx.metric("pairs of words with the same result", 1);
        } else {
            let print = hash_of(&format!("{c:?}"));
            if let Some((st2, c2, w2)) = prints.get(&print) {
                let collides = *st2 != p.st && c2 == &c;
                let w2 = w2.clone();
                ck!(ctx, !collides, "{n}x{n}x{n}: [{}] and [{}] lead to equal cubes but to different physical cubes", word_str(&w), word_str(&w2));
            }
            prints.insert(print, (p.st.clone(), c.clone(), w.clone()));
            groups.insert(p.st.clone(), (c, w));
        }
    }
    ctx.metric("distinct states of short words", groups.len() as u64);
    drop(groups);
    drop(prints);

    // orders of random words
    let sc = C::SOLVED;
    for _ in 0..ctx.amount(120, 1200) {
        let l = ctx.rng.gen_range(1..9);
        let w = random_word(&mut ctx.rng, l, C::D);
        let p = solved.with_word(&w);
        let Some(o) = p.order(2_600) else { continue };
        let mut c = C::SOLVED;
        let mut cur = solved.clone();
        for i in 1..=o {
            run!(ctx, c.word(&w), "{n}x{n}x{n} {}", word_str(&w));
            cur = cur.then(&p);
            // at every proper divisor power they must differ or agree with the model
            if o % i == 0 || i < 4 {
                same(ctx, &c, &cur, &sc, &solved, &|| format!("[{}] repeated {i} times, compared with the solved cube", word_str(&w)));
            }
        }
        ctx.eval(hash_of(&(n, "order", &p.st)));
        ctx.metric_max("longest order of a word", o);
        ctx.sample(|| format!("{n}x{n}x{n}: [{}] has order {o}", word_str(&w)));
    }

    // words that move few pieces of one kind
    let tries = ctx.amount(3000, 20_000) as usize;
    let iso = isolating_words(n, &mut ctx.rng, tries);
    let kinds = iso.len() as u64;
    ctx.metric(&format!("kinds of pieces isolated on {n}x{n}x{n}"), kinds);
    for (kind, list) in &iso {
        for (w, p) in list {
            let setup = random_word(&mut ctx.rng, 3, C::D);
            let conj: Vec<Mv> = setup.iter().chain(w).chain(&inv_word(&setup)).copied().collect();
            for w in [w, &conj] {
                let c = run!(ctx, C::after(w), "{n}x{n}x{n} {}", word_str(w));
                let pp = solved.with_word(w);
                same(ctx, &c, &pp, &sc, &solved, &|| format!("[{}], which moves only {kind:?} pieces, compared with the solved cube", word_str(w)));
                ctx.eval(hash_of(&(n, "iso", &pp.st)));
            }
            if let Some(o) = p.order(400) {
                let pw = pow_word(w, o);
                let c = run!(ctx, C::after(&pw), "{n}x{n}x{n} {}", word_str(&pw));
                same(ctx, &c, &solved, &sc, &solved, &|| format!("[{}] repeated {o} times", word_str(w)));
            }
        }
    }
    // pairs of words of different kinds commute; words that lead to equal states in different ways
    let all: Vec<&(Vec<Mv>, Phys)> = iso.values().flatten().collect();
    if !all.is_empty() {
        for _ in 0..ctx.amount(300, 3000) {
            let (w1, p1) = all[ctx.rng.gen_range(0..all.len())];
            let (w2, p2) = all[ctx.rng.gen_range(0..all.len())];
            let s = random_word(&mut ctx.rng, 4, C::D);
            let a: Vec<Mv> = s.iter().chain(w1).chain(w2).copied().collect();
            let b: Vec<Mv> = s.iter().chain(w2).chain(w1).copied().collect();
            let ps = solved.with_word(&s);
            let (pa, pb) = (ps.then(p1).then(p2), ps.then(p2).then(p1));
            let (ca, cb) = (run!(ctx, C::after(&a), "{}", word_str(&a)), run!(ctx, C::after(&b), "{}", word_str(&b)));
            same(ctx, &ca, &pa, &cb, &pb, &|| format!("[{}] and [{}]", word_str(&a), word_str(&b)));
            ctx.eval(hash_of(&(n, "comm", &pa.st, &pb.st)));
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "piece sets: every piece is at the place of the model; whole cubes: two words give equal cubes exactly when the model's permutations are equal".into();
    set_walks::<Wing, 24, 1, 0, 1>(ctx, 4, "wings");
    set_walks::<Wing, 24, 1, 0, 1>(ctx, 5, "wings");
    set_walks::<Wing, 24, 1, 0, 2>(ctx, 6, "wings");
    set_walks::<Wing, 24, 2, 0, 2>(ctx, 6, "wings");
    set_walks::<Wing, 24, 1, 0, 2>(ctx, 7, "wings");
    set_walks::<Wing, 24, 2, 0, 2>(ctx, 7, "wings");
    set_walks::<Wing, 24, 2, 0, 1>(ctx, 7, "wings");
    set_walks::<Wing, 24, 2, 0, 7>(ctx, 7, "wings");
    set_walks::<CenterCorner, 24, 1, 0, 1>(ctx, 4, "center corners");
    set_walks::<CenterCorner, 24, 1, 0, 1>(ctx, 5, "center corners");
    set_walks::<CenterCorner, 24, 1, 0, 2>(ctx, 7, "center corners");
    set_walks::<CenterCorner, 24, 2, 0, 2>(ctx, 6, "center corners");
    set_walks::<CenterCorner, 24, 2, 0, 2>(ctx, 7, "center corners");
    set_walks::<CenterCorner, 24, 2, 0, 9>(ctx, 7, "center corners");
    set_walks::<CenterEdge, 24, 1, 0, 1>(ctx, 5, "center edges");
    set_walks::<CenterEdge, 24, 1, 0, 2>(ctx, 7, "center edges");
    set_walks::<CenterEdge, 24, 2, 0, 2>(ctx, 7, "center edges");
    set_walks::<CenterEdge, 24, 2, 0, 1>(ctx, 7, "center edges");
    set_walks::<CenterEdge, 24, 1, 0, 5>(ctx, 7, "center edges");
    set_walks::<CenterWing, 48, 1, 2, 2>(ctx, 6, "center wings");
    set_walks::<CenterWing, 48, 1, 2, 2>(ctx, 7, "center wings");
    set_walks::<CenterWing, 48, 2, 1, 2>(ctx, 7, "center wings");
    set_walks::<CenterWing, 48, 1, 2, 1>(ctx, 7, "center wings");
    set_walks::<CenterWing, 48, 1, 2, 6>(ctx, 6, "center wings");
    whole_cube::<Cube4>(ctx);
    whole_cube::<Cube5>(ctx);
    whole_cube::<Cube6>(ctx);
    whole_cube::<Cube7>(ctx);
}
