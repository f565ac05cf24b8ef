//! C03: different ways to write the same turn have the same effect.
use super::*;
use crate::{ck, each_cube, run};
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::WideAxisMove;
use barbarosa::generic::Alg;
use once_cell::sync::Lazy;

/// Extra widths that a cube accepts
pub trait Widths: AnyCube {
    fn narrower(&mut self, m: &Mv, way: usize) -> String;
}
macro_rules! widths {
    ($($c:ty: [$($w:literal),*]);*) => {$(
        impl Widths for $c {
            #[allow(unused_assignments, unused_mut)]
            fn narrower(&mut self, m: &Mv, way: usize) -> String {
                let ws = [$($w as u32),*];
                let fits: Vec<u32> = ws.into_iter().filter(|w| *w >= m.depth).collect();
                let w = fits[way % fits.len()];
                $(if w == $w { self.apply(&m.wide::<$w>()); })*
                format!("WideAxisMove<{w}>")
            }
        }
    )*};
}
widths!(Cube2: [0]; Cube3: [0]; Cube4: [0, 1]; Cube5: [0, 1]; Cube6: [0, 1, 2]; Cube7: [0, 1, 2]);

fn quarters(m: &Mv) -> Vec<QuarterAxisMove> {
    let f = mkface(m.a, m.d);
    match m.k {
        1 => vec![QuarterAxisMove::new(f, dir(1))],
        3 => vec![QuarterAxisMove::new(f, dir(-1))],
        _ => vec![QuarterAxisMove::new(f.clone(), dir(1)), QuarterAxisMove::new(f, dir(1))],
    }
}

/// Merges neighbouring turns of the same axis
fn merged(w: &[Mv]) -> Vec<NonRedundantAxisMove> {
    let mut out = vec![];
    let mut i = 0;
    while i < w.len() {
        if i + 1 < w.len() && w[i].a == w[i + 1].a && w[i].d != w[i + 1].d {
            let (p, n) = if w[i].d > 0 { (&w[i], &w[i + 1]) } else { (&w[i + 1], &w[i]) };
            out.push(NonRedundantAxisMove::Double { axis: ax(w[i].a), amount_positive: amt(p.k), amount_negative: amt(n.k) });
            i += 2;
        } else {
            out.push(NonRedundantAxisMove::Single(w[i].axis_move()));
            i += 1;
        }
    }
    out
}

fn ways<C: Widths>(ctx: &mut Ctx) {
    let n = C::S;
    for i in 0..ctx.amount(700, 12_000) {
        let sl = len(&mut ctx.rng, 15, 50);
        let setup = random_word(&mut ctx.rng, sl, C::D);
        let start = run!(ctx, C::after(&setup), "{n}x{n}x{n} {}", word_str(&setup));
        // face turns
        let wl = if i < 18 { 1 } else { len(&mut ctx.rng, 6, 20) };
        let mut w = if i < 18 { vec![all_moves(0)[i as usize]] } else { random_word(&mut ctx.rng, wl, 0) };
        if w.len() > 1 && ctx.rng.gen() {
            // neighbours on the same axis
            let m = w[0];
            w[1] = Mv { d: -m.d, a: m.a, ..w[1] };
        }
        let mut base = start.clone();
        for m in &w {
            run!(ctx, base.apply(&m.axis_move()), "{n}x{n}x{n} {m}");
        }
        let axis: Vec<AxisMove> = w.iter().map(|m| m.axis_move()).collect();
        let nr = merged(&w);
        let mut results: Vec<(String, C)> = vec![];
        let mut c = start.clone();
        run!(ctx, c.word(&w), "layer turns");
        results.push((format!("WideAxisMove<{}> of depth 0", C::D), c));
        for way in 0..3 {
            let mut c = start.clone();
            let mut name = String::new();
            for m in &w {
                name = run!(ctx, c.narrower(m, way), "layer turns of another maximum depth");
            }
            results.push((format!("{name} of depth 0"), c));
        }
        let mut c = start.clone();
        run!(ctx, w.iter().for_each(|m| quarters(m).iter().for_each(|q| c.apply(q))), "quarter turns");
        results.push(("quarter turns".into(), c));
        let mut c = start.clone();
        run!(ctx, nr.iter().for_each(|m| c.apply(m)), "merged turns");
        results.push(("merged turns".into(), c));
        let mut c = start.clone();
        let alg = Alg::<AxisMove>::new(axis.clone());
        run!(ctx, c.apply(&alg), "alg");
        results.push(("Alg".into(), c));
        results.push(("Alg, moved()".into(), run!(ctx, start.clone().moved(&alg), "alg")));
        let mut c = start.clone();
        run!(ctx, <C as Movable<[AxisMove]>>::apply(&mut c, &axis[..]), "slice");
        results.push(("list".into(), c));
        let collected: Alg<AxisMove> = axis.iter().cloned().collect();
        ck!(ctx, collected == alg && alg.moves == axis, "an alg collected from {} is {collected:?}", word_str(&w));
        let mut c = start.clone();
        let q: Alg<QuarterAxisMove> = run!(ctx, alg.clone().into(), "alg to quarter turns");
        ck!(ctx, q.moves == w.iter().flat_map(quarters).collect::<Vec<_>>(), "quarter turns of {} are {q:?}", word_str(&w));
        run!(ctx, c.apply(&q), "alg of quarter turns");
        results.push(("Alg of quarter turns".into(), c));
        let mut c = start.clone();
        let nralg = Alg::<NonRedundantAxisMove>::new(nr.clone());
        run!(ctx, c.apply(&nralg), "alg of merged turns");
        results.push(("Alg of merged turns".into(), c));
        let back: Alg<AxisMove> = run!(ctx, nralg.into(), "alg of merged turns to face turns");
        results.push(("converted Alg of merged turns".into(), start.clone().moved(&back)));
        let mut c = start.clone();
        for m in &nr {
            let a: Alg<AxisMove> = m.clone().into();
            run!(ctx, c.apply(&a), "merged turn as alg");
        }
        results.push(("merged turns as algs".into(), c));
        static CELL: std::sync::Mutex<Vec<AxisMove>> = std::sync::Mutex::new(vec![]);
        *CELL.lock().unwrap() = axis.clone();
        let lazy: Lazy<Alg<AxisMove>> = Lazy::new(|| Alg::new(CELL.lock().unwrap().clone()));
        let mut c = start.clone();
        run!(ctx, c.apply(&lazy), "lazy alg");
        results.push(("lazily made Alg".into(), c));
        ctx.metric("comparisons of ways to write face turns", results.len() as u64);
        for (name, c) in results {
            ck!(ctx, c == base, "{n}x{n}x{n} after [{}]: [{}] as {name} differs from face turns", word_str(&setup), word_str(&w));
        }
        // layer turns in all widths that fit them
        let wl = len(&mut ctx.rng, 6, 20);
        let w = random_word(&mut ctx.rng, wl, C::D);
        let mut base = start.clone();
        run!(ctx, base.word(&w), "layer turns");
        for way in 0..4 {
            let mut c = start.clone();
            for m in &w {
                let x = if way == 3 { ctx.rng.gen_range(0..3) } else { way };
                run!(ctx, c.narrower(m, x), "layer turns of another maximum depth");
            }
            ck!(ctx, c == base, "{n}x{n}x{n} after [{}]: [{}] with other maximum depths differs", word_str(&setup), word_str(&w));
        }
        ctx.eval(hash_of(&(n, &setup, &w, &axis.len())));
        ctx.sample(|| format!("{n}x{n}x{n}: [{}] in 14 ways after [{}]", word_str(&w), word_str(&setup)));
    }
}

/// The same, with lengths where counters of 8 and 16 bits and fixed buffers run out
fn long<C: Widths>(ctx: &mut Ctx) {
    let n = C::S;
    for l in lengths(&[127, 128, 255, 256, 257, 1023, 1025, 4097, 65_537, ctx.amount(70_001, 300_001) as usize]) {
        let w = random_word(&mut ctx.rng, l, 0);
        let mut base = run!(ctx, C::after(&random_word(&mut ctx.rng, 20, C::D)), "setup");
        let start = base.clone();
        run!(ctx, w.iter().for_each(|m| base.apply(&m.axis_move())), "{l} face turns");
        let mut results: Vec<(&str, C)> = vec![];
        let axis: Vec<AxisMove> = w.iter().map(|m| m.axis_move()).collect();
        let alg = Alg::<AxisMove>::new(axis.clone());
        results.push(("Alg", run!(ctx, start.clone().moved(&alg), "alg")));
        let mut c = start.clone();
        run!(ctx, <C as Movable<[AxisMove]>>::apply(&mut c, &axis[..]), "slice");
        results.push(("list", c));
        let q: Alg<QuarterAxisMove> = run!(ctx, alg.clone().into(), "alg to quarter turns");
        results.push(("Alg of quarter turns", run!(ctx, start.clone().moved(&q), "quarter turns")));
        let nr = Alg::<NonRedundantAxisMove>::new(merged(&w));
        results.push(("Alg of merged turns", run!(ctx, start.clone().moved(&nr), "merged turns")));
        let back: Alg<AxisMove> = run!(ctx, nr.into(), "alg of merged turns to face turns");
        results.push(("converted Alg of merged turns", run!(ctx, start.clone().moved(&back), "alg")));
        let mut c = start.clone();
        run!(ctx, w.iter().for_each(|m| { c.narrower(m, 1); }), "layer turns");
        results.push(("layer turns", c));
        let wide = run!(ctx, alg.widen::<2>(0), "widen");
        let same = matches!(&wide, Ok(a) if a.moves.len() == l && a.moves.iter().zip(&axis).all(|(x, y)| x.depth() == 0 && x.axis_move == *y));
        ck!(ctx, same, "widening {l} face turns gives {:?} moves", wide.map(|a| a.moves.len()).ok());
        for (name, c) in results {
            ck!(ctx, c == base, "{n}x{n}x{n}: {l} face turns as {name} differ from the turns one by one");
            ctx.metric("comparisons of long algorithms", 1);
        }
        ctx.eval_many(1);
    }
}

fn wide_of<const N: u32>(ctx: &mut Ctx, m: &Mv, depth: u32) {
    let f = mkface(m.a, m.d);
    let mk = run!(ctx, WideAxisMove::<N>::new(f.clone(), amt(m.k), depth), "new");
    let wi = run!(ctx, m.axis_move().widen::<N>(depth), "widen");
    let al = run!(ctx, Alg::<AxisMove>::new(vec![m.axis_move(), m.axis_move()]).widen::<N>(depth), "widen alg");
    let ok = depth <= N;
    ck!(
        ctx,
        mk.is_ok() == ok && wi.is_ok() == ok && al.is_ok() == ok,
        "a layer turn of depth {depth} and maximum {N}: should {} be possible; new {}, widen {}, alg {}",
        if ok { "" } else { "not" },
        mk.is_ok(),
        wi.is_ok(),
        al.is_ok()
    );
    let mut base = WideAxisMove::<N>::new(f.clone(), amt(m.k), 0).ok().unwrap_or_else(|| std::panic::panic_any("VIOL: depth 0 is rejected".to_string()));
    let set = run!(ctx, base.set_depth(depth), "set_depth");
    ck!(ctx, set.is_ok() == ok && base.depth() == if ok { depth } else { 0 }, "set_depth({depth}) of {N}: {set:?}, depth is then {}", base.depth());
    ck!(ctx, *base.face() == f && base.amount() == amt(m.k), "set_depth changes the turn");
    if let (Ok(a), Ok(b), Ok(c)) = (mk, wi, al) {
        ck!(ctx, a == b && a == base && c.moves.len() == 2 && c.moves.iter().all(|x| *x == a), "new, widen and set_depth differ: {a:?} {b:?} {base:?} {c:?}");
        ck!(ctx, a.depth() == depth && *a.face() == f && a.amount() == amt(m.k) && a.axis_move == m.axis_move(), "{m} of depth {depth} and maximum {N} is {a:?}");
        fn conv<const N: u32, const M: u32>(ctx: &mut Ctx, a: &WideAxisMove<N>) {
            let r = run!(ctx, a.clone().set_max_depth::<M>(), "set_max_depth");
            let ok = a.depth() <= M;
            ck!(ctx, r.is_ok() == ok, "{a:?} of {N} with maximum depth {M}: should {} be possible", if ok { "" } else { "not" });
            if let Ok(b) = r {
                ck!(ctx, b.depth() == a.depth() && b.axis_move == a.axis_move, "{a:?} of {N} becomes {b:?} of {M}");
                let back = run!(ctx, b.set_max_depth::<N>(), "set_max_depth");
                ck!(ctx, matches!(&back, Ok(x) if x == a), "{a:?} of {N} to {M} and back is {back:?}");
            }
            ctx.metric("maximum depths changed", 1);
        }
        conv::<N, 0>(ctx, &a);
        conv::<N, 1>(ctx, &a);
        conv::<N, 2>(ctx, &a);
        conv::<N, 3>(ctx, &a);
        conv::<N, 17>(ctx, &a);
        conv::<N, 255>(ctx, &a);
        conv::<N, 256>(ctx, &a);
        conv::<N, { u32::MAX - 1 }>(ctx, &a);
        conv::<N, { u32::MAX }>(ctx, &a);
    }
    ctx.eval(hash_of(&(m, depth, N)));
}

fn successors(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(300, 3000) {
        let arr = Arr::random(&mut ctx.rng);
        let c = arr.cube3();
        let list: Vec<_> = run!(ctx, c.successors().into_iter().collect::<Vec<_>>(), "successors");
        let mut seen = vec![];
        for (s, m) in &list {
            let mv = Mv::from_axis_move(m);
            ck!(ctx, !seen.contains(&mv), "successors list {mv} twice");
            let p = arr.phys(3).with_word(&[mv]);
            ck!(ctx, phys3(s).as_ref() == Some(&p), "successor by {mv} of {arr:?} is not the cube after that turn");
            seen.push(mv);
        }
        ck!(ctx, seen.len() == 18, "there are {} successors", seen.len());
        ctx.eval(hash_of(&arr));
        ctx.metric("successor lists", 1);
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "all ways give equal cubes; depths are accepted exactly when they fit; 18 right successors".into();
    each_cube!(ways(ctx));
    each_cube!(long(ctx));
    for m in all_moves(0) {
        for d in [0, 1, 2, 3, 4, 16, 17, 18, 255, 256, 257, 65_536, u32::MAX - 2, u32::MAX - 1, u32::MAX] {
            wide_of::<0>(ctx, &m, d);
            wide_of::<1>(ctx, &m, d);
            wide_of::<2>(ctx, &m, d);
            wide_of::<3>(ctx, &m, d);
            wide_of::<17>(ctx, &m, d);
            wide_of::<256>(ctx, &m, d);
            wide_of::<{ u32::MAX - 1 }>(ctx, &m, d);
            wide_of::<{ u32::MAX }>(ctx, &m, d);
        }
    }
    successors(ctx);
}
