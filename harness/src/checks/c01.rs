//! C01: face turns of 2x2x2 and 3x3x3 against the sticker model.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::{NonRedundantAxisMove, QuarterAxisMove};
use barbarosa::cube_n::{Corner, Edge, WideAxisMove};
use barbarosa::generic::piece::Coordinates;
use barbarosa::generic::{Alg, Piece};
use once_cell::sync::Lazy;

fn quarters(m: &Mv) -> Vec<QuarterAxisMove> {
    let f = mkface(m.a, m.d);
    match m.k {
        1 => vec![QuarterAxisMove::new(f, dir(1))],
        3 => vec![QuarterAxisMove::new(f, dir(-1))],
        _ => vec![QuarterAxisMove::new(f.clone(), dir(1)), QuarterAxisMove::new(f, dir(1))],
    }
}

/// Applies a word to any cube in one of the ways the library offers. Returns the name of the way.
fn apply_somehow<C>(c: &mut C, w: &[Mv], way: usize) -> &'static str
where
    C: Cube + Movable<AxisMove> + 'static,
{
    match way {
        0 => {
            w.iter().for_each(|m| c.apply(&m.axis_move()));
            "AxisMove"
        }
        1 => {
            w.iter().for_each(|m| *c = c.clone().moved(&m.axis_move()));
            "moved(AxisMove)"
        }
        2 => {
            w.iter().for_each(|m| <C as Movable<WideAxisMove<0>>>::apply(c, &m.wide::<0>()));
            "WideAxisMove<0>"
        }
        3 => {
            w.iter().for_each(|m| quarters(m).iter().for_each(|q| c.apply(q)));
            "QuarterAxisMove"
        }
        4 => {
            w.iter().for_each(|m| c.apply(&NonRedundantAxisMove::from(m.axis_move())));
            "NonRedundantAxisMove"
        }
        5 => {
            let alg = Alg::<AxisMove>::new(w.iter().map(|m| m.axis_move()).collect());
            c.apply(&alg);
            "Alg"
        }
        6 => {
            let v: Vec<AxisMove> = w.iter().map(|m| m.axis_move()).collect();
            <C as Movable<[AxisMove]>>::apply(c, &v[..]);
            "slice"
        }
        7 => {
            static CELL: std::sync::Mutex<Vec<Mv>> = std::sync::Mutex::new(vec![]);
            *CELL.lock().unwrap() = w.to_vec();
            let lazy: Lazy<Alg<AxisMove>> =
                Lazy::new(|| Alg::new(CELL.lock().unwrap().iter().map(|m| m.axis_move()).collect()));
            c.apply(&lazy);
            "Lazy<Alg>"
        }
        _ => {
            let q: Alg<QuarterAxisMove> = Alg::<AxisMove>::new(w.iter().map(|m| m.axis_move()).collect()).into();
            c.apply(&q);
            "Alg<QuarterAxisMove>"
        }
    }
}

fn pieces_exhaustively(ctx: &mut Ctx) {
    let moves = all_moves(0);
    for place in 0..8 {
        for o in 0..3 {
            let p = corner_home(place);
            let c = Corner::new(unvec3(p), ax(o));
            let xyz = run!(ctx, c.coordinates(), "coordinates of {c:?}");
            ck!(ctx, [xyz.x, xyz.y, xyz.z] == p.map(|x| x as f32), "coordinates of the corner at {p:?} are {xyz:?}");
            let mut faces: Vec<_> = c.faces().iter().map(unface).collect();
            faces.sort();
            let mut want: Vec<_> = (0..3).map(|a| (a, p[a])).collect();
            want.sort();
            ck!(ctx, faces == want, "faces of the corner at {p:?} are {faces:?}");
            ck!(ctx, vec3(&c.position()) == p, "position of the corner at {p:?} is {:?}", c.position());
            ck!(ctx, c.is_oriented() == (o == 1), "is_oriented of a corner at {p:?} with axis {o}");
            for m in &moves {
                let mut s = corner_stickers(3, p, p, o);
                let on = p[m.a] == m.d;
                ck!(ctx, mkface(m.a, m.d).contains_vector(&c.position) == on, "{m} contains the corner at {p:?}: should be {on}");
                if on {
                    s.iter_mut().for_each(|x| x.1 = x.1.rotated(m.a, m.k * m.d));
                }
                // the home sticker slots stay the names of the stickers
                let mut ways = vec![];
                ways.push(run!(ctx, c.clone().moved(&m.axis_move()), "corner {c:?} {m}"));
                ways.push(run!(ctx, [c.clone()].moved(&m.axis_move())[0].clone(), "[corner {c:?}] {m}"));
                for got in ways {
                    let mut g = corner_stickers(3, p, vec3(&got.position), unax(got.orientation_axis));
                    g.sort_by_key(|x| x.0.a);
                    s.sort_by_key(|x| x.0.a);
                    // sticker i of the corner in state (p, o) is identified by its own home axis
                    ck!(ctx, g == s, "turning {m}: corner at {p:?} with U/D sticker on axis {o} becomes {got:?}, stickers {g:?} instead of {s:?}");
                    ck!(ctx, on || got == c, "turning {m} changes the corner at {p:?}");
                    ctx.eval_many(1);
                }
            }
        }
    }
    for place in 0..12 {
        for o in [true, false] {
            let p = edge_home(place);
            let (n, sl) = un_edge_coords(p);
            let e = Edge::new(n, sl, o);
            let xyz = run!(ctx, e.coordinates(), "coordinates of {e:?}");
            ck!(ctx, [xyz.x, xyz.y, xyz.z] == p.map(|x| x as f32), "coordinates of the edge at {p:?} are {xyz:?}");
            let mut faces: Vec<_> = e.faces().iter().map(unface).collect();
            faces.sort();
            let mut want: Vec<_> = (0..3).filter(|a| p[*a] != 0).map(|a| (a, p[a])).collect();
            want.sort();
            ck!(ctx, faces == want, "faces of the edge at {p:?} are {faces:?}");
            let [a1, a2] = edge_axes(p);
            let (f1, f2) = (Edge::orientation_face(e.position()), Edge::non_orientation_face(e.position()));
            ck!(ctx, unface(&f1) == (a1, p[a1]) && unface(&f2) == (a2, p[a2]), "orientation faces of the edge at {p:?} are {f1:?}, {f2:?}");
            for a in 0..3 {
                let d = run!(ctx, Edge::direction_on_axis(&e.position(), ax(a)), "direction_on_axis");
                ck!(ctx, d.map(undir).unwrap_or(0) == p[a], "direction on axis {a} of the edge at {p:?} is {d:?}");
            }
            for m in &moves {
                let mut s = edge_stickers(3, p, p, o);
                let on = p[m.a] == m.d;
                ck!(ctx, mkface(m.a, m.d).contains_edge(&e) == on, "{m} contains the edge at {p:?}: should be {on}");
                if on {
                    s.iter_mut().for_each(|x| x.1 = x.1.rotated(m.a, m.k * m.d));
                }
                let mut ways = vec![];
                ways.push(run!(ctx, e.clone().moved(&m.axis_move()), "edge {e:?} {m}"));
                ways.push(run!(ctx, [e.clone()].moved(&m.axis_move())[0].clone(), "[edge {e:?}] {m}"));
                for got in ways {
                    let g = edge_stickers(3, p, edge_coords(got.normal_axis, &got.slice_position), got.oriented);
                    ck!(ctx, g == s, "turning {m}: edge at {p:?} oriented {o} becomes {got:?}, stickers {g:?} instead of {s:?}");
                    ck!(ctx, on || got == e, "turning {m} changes the edge at {p:?}");
                    ctx.eval_many(1);
                }
            }
        }
    }
}

/// A list of any length: every piece goes where it goes alone
fn list<const N: usize>(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(6, 60) {
        let (mut cs, mut es) = (vec![], vec![]);
        for _ in 0..N {
            cs.push(Corner::new(unvec3(corner_home(ctx.rng.gen_range(0..8))), ax(ctx.rng.gen_range(0..3))));
            let (n, s) = un_edge_coords(edge_home(ctx.rng.gen_range(0..12)));
            es.push(Edge::new(n, s, ctx.rng.gen()));
        }
        let mut ca: [Corner; N] = cs.clone().try_into().unwrap();
        let mut ea: [Edge; N] = es.clone().try_into().unwrap();
        let w = random_word(&mut ctx.rng, 4, 0);
        for m in &w {
            let mv = m.axis_move();
            run!(ctx, ca.apply(&mv), "list of {N} corners {m}");
            run!(ctx, ea.apply(&mv), "list of {N} edges {m}");
            cs.iter_mut().for_each(|c| c.apply(&mv));
            es.iter_mut().for_each(|e| e.apply(&mv));
        }
        ck!(ctx, ca.as_slice() == cs.as_slice(), "a list of {N} corners after {} is {ca:?}, one by one they are {cs:?}", word_str(&w));
        ck!(ctx, ea.as_slice() == es.as_slice(), "a list of {N} edges after {} is {ea:?}, one by one they are {es:?}", word_str(&w));
        ctx.eval(hash_of(&(N, &format!("{ca:?}{ea:?}"))));
        ctx.metric("lists of pieces", 2);
        ctx.metric_max("longest list of pieces", N as u64);
    }
}

pub fn check(ctx: &mut Ctx) {
    list::<0>(ctx);
    list::<1>(ctx);
    list::<2>(ctx);
    list::<5>(ctx);
    list::<8>(ctx);
    list::<12>(ctx);
    list::<13>(ctx);
    list::<24>(ctx);
    list::<64>(ctx);
    list::<1000>(ctx);
    ctx.rule = "for every turn: all stickers of the cube are where the model of a physical cube has them".into();
    ctx.exhaustive = false;
    pieces_exhaustively(ctx);
    ctx.metric("single piece transitions (all)", 8 * 3 * 18 * 2 + 12 * 2 * 18 * 2);

    // every turn directly on the solved cubes
    let mut walks = ctx.amount(6000, 120_000);
    walks += 36;
    for i in 0..walks {
        let arr = match ctx.rng.gen_range(0..4) {
            0 => Arr::solved(),
            1 => Arr::random(&mut ctx.rng),
            _ => Arr::random_solvable(&mut ctx.rng),
        };
        let arr = if i < 36 { Arr::solved() } else { arr };
        let (mut c3, mut c2) = (arr.cube3(), arr.cube2());
        let (mut ca, mut ea) = (arr.corners(), arr.edges());
        let mut cs = cset(arr.corners());
        let mut es = eset(arr.edges());
        let (mut p3, mut p2) = (arr.phys(3), arr.phys(2));
        ck!(ctx, phys3(&c3).as_ref() == Some(&p3), "harness or library: arrangement differs");
        let mut hist: Vec<Mv> = vec![];
        let steps = if i < 36 { 1 } else { len(&mut ctx.rng, 12, 40) };
        for s in 0..steps {
            let way = ctx.rng.gen_range(0..9);
            let wl = if way >= 4 { ctx.rng.gen_range(0..6) } else { 1 };
            let w = if i < 36 { vec![all_moves(0)[i as usize % 18]] } else { random_word(&mut ctx.rng, wl, 0) };
            hist.extend(&w);
            p3.apply_word(&w);
            p2.apply_word(&w);
            let name = run!(ctx, apply_somehow(&mut c3, &w, way), "3x3x3 {} after {}", word_str(&w), word_str(&hist));
            run!(ctx, apply_somehow(&mut c2, &w, way), "2x2x2 {} after {}", word_str(&w), word_str(&hist));
            for m in &w {
                let mv = m.axis_move();
                run!(ctx, ca.apply(&mv), "array of corners {m}");
                run!(ctx, ea.apply(&mv), "array of edges {m}");
                run!(ctx, cs.apply(&mv), "set of corners {m}");
                run!(ctx, es.apply(&mv), "set of edges {m}");
            }
            let ctxt = || format!("start {arr:?}, turns {} (last {} turns as {name})", word_str(&hist), w.len());
            ck!(ctx, phys3(&c3).as_ref() == Some(&p3), "3x3x3 differs from the physical cube: {}; got {:?}", ctxt(), c3);
            ck!(ctx, phys2(&c2).as_ref() == Some(&p2), "2x2x2 differs from the physical cube: {}; got {:?}", ctxt(), c2);
            ck!(ctx, phys_of(3, &ca, Some(&ea)).as_ref() == Some(&p3), "arrays of pieces differ from the physical cube: {}", ctxt());
            ck!(
                ctx,
                phys_of(3, cs.pieces(), Some(es.pieces())).as_ref() == Some(&p3),
                "sets of pieces differ from the physical cube: {}",
                ctxt()
            );
            let h = hash_of(&(&p3.st, &hist.last().map(|m| (m.face(), m.k))));
            ctx.eval(h);
            ctx.metric(&format!("states compared via {name}"), 4);
            ctx.metric_max("longest history", hist.len() as u64);
            if s == 3 {
                ctx.sample(|| format!("{} from {}", word_str(&hist), if arr == Arr::solved() { "solved" } else { "an arrangement" }));
            }
        }
        // pieces report the coordinates of their place
        for c in c3.corners.iter() {
            let x = run!(ctx, c.coordinates(), "coordinates");
            ck!(ctx, [x.x, x.y, x.z] == vec3(&c.position).map(|x| x as f32), "coordinates of {c:?} are {x:?}");
        }
        for e in c3.edges.iter() {
            let x = run!(ctx, e.coordinates(), "coordinates");
            ck!(ctx, [x.x, x.y, x.z] == edge_coords(e.normal_axis, &e.slice_position).map(|x| x as f32), "coordinates of {e:?} are {x:?}");
        }
    }
    ctx.metric("walks", walks);
}
