//! C21: recovering moves from a recorded history of states is exact.
use super::*;
use crate::{ck, each_cube, run};
use barbarosa::cube_n::moves::ExtendedAxisMove;
use barbarosa::cube_n::{Corner, Edge, Orientable};
use barbarosa::generic::alg::TryFromStatesError;
use barbarosa::generic::moves::connect;
use barbarosa::generic::Alg;
use std::fmt::Debug;

/// A state of the library together with the stickers it must show
type State<C> = (C, Phys);

/// The face turn between two states, by the model
fn joined(a: &Phys, b: &Phys) -> Option<Mv> {
    let v: Vec<Mv> = all_moves(0)
        .into_iter()
        .filter(|m| {
            let mut c = a.clone();
            c.turn(m);
            c == *b
        })
        .collect();
    assert!(v.len() < 2, "harness: two face turns do the same");
    v.first().copied()
}

fn one_pair<C: Movable<AxisMove> + Eq + Clone + Debug>(ctx: &mut Ctx, a: &State<C>, b: &State<C>, what: &str) -> bool {
    let want = joined(&a.1, &b.1);
    let got = run!(ctx, connect::<AxisMove, C>(&a.0, &b.0), "{what}: connect {:?} and {:?}", a.0, b.0);
    let got = got.as_ref().map(Mv::from_axis_move);
    let show = |m: Option<Mv>| m.map_or("no face turn".into(), |m| m.to_string());
    ck!(ctx, got == want, "{what}: {:?} and {:?} are connected by {}, found {}", a.0, b.0, show(want), show(got));
    ctx.metric(if want.is_some() { "pairs one turn apart" } else { "pairs not one turn apart" }, 1);
    want.is_some()
}

fn history<C: Movable<AxisMove> + Eq + Clone + Debug>(ctx: &mut Ctx, h: &[State<C>], what: &str) {
    let states: Vec<C> = h.iter().map(|x| x.0.clone()).collect();
    let want: Vec<Option<Mv>> = h.windows(2).map(|w| joined(&w[0].1, &w[1].1)).collect();
    let first = want.iter().position(|x| x.is_none());
    let text = || format!("{what}: history with the turns {:?}", want.iter().map(|m| m.map_or("-".into(), |m| m.to_string())).collect::<Vec<_>>());
    for way in 0..2 {
        let got = run!(
            ctx,
            if way == 0 { Alg::<AxisMove>::try_from_states(&states) } else { <Alg<AxisMove> as TryFrom<&[C]>>::try_from(&states[..]) },
            "{}",
            text()
        );
        match (got, first) {
            (Ok(alg), None) => {
                let got: Vec<Mv> = alg.moves.iter().map(Mv::from_axis_move).collect();
                ck!(ctx, got.iter().map(|x| Some(*x)).collect::<Vec<_>>() == want, "{}, recovered {}", text(), word_str(&got));
                let mut at = states.first().cloned();
                for (m, s) in alg.moves.iter().zip(states.iter().skip(1)) {
                    let c = run!(ctx, at.unwrap().moved(m), "{}", text());
                    ck!(ctx, c == *s, "{}: replaying gives {c:?} instead of {s:?}", text());
                    at = Some(c);
                }
                ctx.metric("histories recovered and replayed", 1);
                ctx.metric_max("longest history recovered", states.len() as u64);
            }
            (Ok(alg), Some(i)) => ctx.fail(format!("{}, states {} and {} are not connected, recovered {:?}", text(), i + 1, i + 2, alg.moves)),
            (Err(e), None) => ctx.fail(format!("{}: {}", text(), cut(&e.to_string()))),
            (Err(TryFromStatesError::NotConnected(a, b, _)), Some(_)) => {
                let named = (0..want.len()).any(|i| want[i].is_none() && states[i] == a && states[i + 1] == b);
                ck!(ctx, named, "{}: the error names {a:?} and {b:?}, which are no unconnected neighbours", text());
                ctx.metric("broken histories refused", 1);
            }
        }
    }
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// A walk with the given chance of a step that is not one face turn
fn walk<C: Clone>(ctx: &mut Ctx, start: State<C>, len: usize, breaks: f64, turn: &dyn Fn(&mut C, &Mv), deep: u32) -> Vec<State<C>> {
    let mut h = vec![start];
    let mut last: Option<Mv> = None;
    while h.len() < len {
        let (mut c, mut p) = h.last().unwrap().clone();
        let w: Vec<Mv> = if ctx.rng.gen_bool(breaks) {
            match ctx.rng.gen_range(0..5) {
                0 => vec![],
                // back and forth, or two turns of one face, or of opposite faces
                1 => {
                    let m = Mv::random(&mut ctx.rng, 0);
                    vec![m, Mv { k: ctx.rng.gen_range(1..4), ..m }]
                }
                2 => {
                    let m = Mv::random(&mut ctx.rng, 0);
                    vec![m, Mv { d: -m.d, k: ctx.rng.gen_range(1..4), ..m }]
                }
                3 => vec![Mv::random(&mut ctx.rng, deep)],
                _ => (0..ctx.rng.gen_range(2..5)).map(|_| Mv::random(&mut ctx.rng, deep)).collect(),
            }
        } else {
            match (ctx.rng.gen_range(0..6), last) {
                (0, Some(m)) => vec![m.inv()],
                (1, Some(m)) => vec![m],
                (2, Some(m)) => vec![Mv { k: ctx.rng.gen_range(1..4), d: -m.d, ..m }],
                _ => vec![Mv::random(&mut ctx.rng, 0)],
            }
        };
        for m in &w {
            turn(&mut c, m);
            p.turn(m);
        }
        if w.len() == 1 && w[0].depth == 0 {
            last = Some(w[0]);
        }
        h.push((c, p));
    }
    h
}

fn walks<C: AnyCube + Debug>(ctx: &mut Ctx) {
    let n = C::S;
    let what = format!("{n}x{n}x{n}");
    let turn = |c: &mut C, m: &Mv| c.mv(m);
    for i in 0..ctx.amount(250, 6000) {
        let l = ctx.rng.gen_range(0..20);
        let setup = random_word(&mut ctx.rng, l, C::D);
        let start = (run!(ctx, C::after(&setup), "{what}"), Phys::solved(n).with_word(&setup));
        let len = match i {
            0..=2 => i as usize,
            _ => len(&mut ctx.rng, 25, 120),
        };
        let breaks = [0.0, 0.0, 0.03, 0.2][ctx.rng.gen_range(0..4)];
        let mut h = if len == 0 { vec![] } else { walk(ctx, start, len, breaks, &turn, C::D) };
        // sometimes the last step, or the first, is the only break
        if h.len() > 2 && ctx.rng.gen_bool(0.2) {
            let at = if ctx.rng.gen_bool(0.5) { h.len() - 1 } else { 0 };
            let x = h[at].clone();
            h.insert(at, x);
        }
        ctx.eval(hash_of(&h.iter().map(|x| &x.1).collect::<Vec<_>>()));
        history(ctx, &h, &what);
        if h.len() > 1 {
            for _ in 0..3 {
                let i = ctx.rng.gen_range(0..h.len() - 1);
                one_pair(ctx, &h[i], &h[i + 1], &what);
                let j = ctx.rng.gen_range(0..h.len());
                one_pair(ctx, &h[i], &h[j], &what);
            }
        }
        if breaks == 0.0 && n == 3 {
            ctx.sample(|| format!("{what}: {} states from {}", h.len(), word_str(&setup)));
        }
    }
    // long histories, whole and with one break near the end
    let big = if n == 3 && ctx.thorough { 300_000 } else if n == 3 && !brief() { 70_000 } else { 3000 };
    for len in [64, 65, 129, 257, 513, 1025, big] {
        let mut h = walk(ctx, (C::after(&[]), Phys::solved(n)), len, 0.0, &turn, C::D);
        ctx.eval(hash_of(&(n, h.last().map(|x| x.1.clone()))));
        history(ctx, &h, &what);
        let at = len - 1 - ctx.rng.gen_range(0..len.min(300) / 2);
        let x = h[at].clone();
        h.insert(at, x);
        history(ctx, &h, &what);
    }
    // every turn, from some states
    for _ in 0..ctx.amount(5, 50) {
        let setup = random_word(&mut ctx.rng, 15, C::D);
        let a = (run!(ctx, C::after(&setup), "{what}"), Phys::solved(n).with_word(&setup));
        for m in all_moves(C::D) {
            let mut b = a.clone();
            run!(ctx, turn(&mut b.0, &m), "{what}: {m}");
            b.1.turn(&m);
            ctx.eval(hash_of(&(n, &setup, m)));
            one_pair(ctx, &a, &b, &what);
        }
    }
}

/// States that are almost one turn apart: a piece twisted, flipped or exchanged
fn almost(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(4000, 100_000) {
        let a = if ctx.rng.gen_bool(0.5) { Arr::random_solvable(&mut ctx.rng) } else { Arr::random(&mut ctx.rng) };
        let mut b = a.turned(&Mv::random(&mut ctx.rng, 0));
        match ctx.rng.gen_range(0..6) {
            0 => {
                let i = ctx.rng.gen_range(0..8);
                b.co[i] = (b.co[i] + ctx.rng.gen_range(1..3)) % 3;
            }
            1 => {
                let i = ctx.rng.gen_range(0..12);
                b.eo[i] = !b.eo[i];
            }
            2 => b.cp.swap(ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..8)),
            3 => b.ep.swap(ctx.rng.gen_range(0..12), ctx.rng.gen_range(0..12)),
            4 => {
                // corners of one turn, edges of another
                let c = a.turned(&Mv::random(&mut ctx.rng, 0));
                (b.ep, b.eo) = (c.ep, c.eo);
            }
            _ => (),
        }
        ctx.eval(hash_of(&(&a, &b)));
        let (x, y) = ((a.cube3(), a.phys(3)), (b.cube3(), b.phys(3)));
        one_pair(ctx, &x, &y, "3x3x3");
        history(ctx, &[x.clone(), y.clone(), x], "3x3x3");
        let (x, y) = ((a.cube2(), a.phys(2)), (b.cube2(), b.phys(2)));
        one_pair(ctx, &x, &y, "2x2x2");
    }
}

/// A cube held in some way: turns are those the holder sees
fn held(ctx: &mut Ctx) {
    let turns = all_moves(0);
    for _ in 0..ctx.amount(200, 3000) {
        let l = ctx.rng.gen_range(0..15);
        let mut c = Orientable::new(Cube3::after(&random_word(&mut ctx.rng, l, 0)));
        for _ in 0..ctx.rng.gen_range(0..4) {
            let (a, k) = (ctx.rng.gen_range(0..3), ctx.rng.gen_range(1..4));
            run!(ctx, c.apply(&ExtendedAxisMove::Rotation(rotation(a, k))), "rotating");
        }
        let m = turns[ctx.rng.gen_range(0..18)];
        let d = run!(ctx, <Orientable<Cube3> as Movable<AxisMove>>::moved(c.clone(), &m.axis_move()), "turning {m}");
        ctx.eval(hash_of(&format!("{c:?} {m}")));
        let got = run!(ctx, connect::<AxisMove, _>(&c, &d), "connect");
        ck!(ctx, got.as_ref().map(Mv::from_axis_move) == Some(m), "held cube {c:?}: {m} is found as {got:?}");
        let mut e = d.clone();
        run!(ctx, e.apply(&ExtendedAxisMove::Rotation(rotation(ctx.rng.gen_range(0..3), ctx.rng.gen_range(1..4)))), "rotating");
        let got = run!(ctx, connect::<AxisMove, _>(&c, &e), "connect");
        ck!(ctx, got.is_none(), "held cubes {c:?} and {e:?} are held differently, but {got:?} is found between them");
        ctx.metric("turns of held cubes recovered", 1);
    }
}

/// Single pieces, where several turns may lead to the same place
fn single(ctx: &mut Ctx) {
    fn pair<P: Movable<AxisMove> + Eq + Clone + Debug>(ctx: &mut Ctx, a: &P, b: &P) {
        let want = all_moves(0).iter().any(|m| <P as Movable<AxisMove>>::moved(a.clone(), &m.axis_move()) == *b);
        let got = run!(ctx, connect::<AxisMove, P>(a, b), "connect {a:?} and {b:?}");
        ctx.eval(hash_of(&format!("{a:?} {b:?}")));
        match got {
            None => ck!(ctx, !want, "no turn found between {a:?} and {b:?}, there is one"),
            Some(m) => {
                let c = <P as Movable<AxisMove>>::moved(a.clone(), &m);
                ck!(ctx, c == *b, "{m} is found between {a:?} and {b:?}, it leads to {c:?}");
            }
        }
        ctx.metric("pairs of single pieces", 1);
    }
    let corner = |i: usize| Corner { position: unvec3(corner_home(i / 3)), orientation_axis: ax(i % 3) };
    for i in 0..24 {
        for j in 0..24 {
            pair(ctx, &corner(i), &corner(j));
        }
    }
    let edge = |i: usize| {
        let (n, s) = un_edge_coords(edge_home(i / 2));
        Edge::new(n, s, i % 2 == 0)
    };
    for i in 0..24 {
        for j in 0..24 {
            pair(ctx, &edge(i), &edge(j));
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    each_cube!(walks(ctx));
    almost(ctx);
    held(ctx);
    single(ctx);
    ctx.rule = "random histories of all cubes, whole and broken (missing, repeated, merged, deep and rotated turns; twisted, flipped and exchanged pieces), against the turns the sticker model finds between neighbours; recovered turns are replayed".into();
}
