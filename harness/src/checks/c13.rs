//! C13: orientations, axes, faces, positions and pieces form a consistent rotation algebra.
//! Everything here is a finite set, so all of it is enumerated and compared with integer rotation matrices.
use super::c12::rot_of;
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::space::{faces, Axis, Direction, Face};
use barbarosa::cube_n::{Corner, Edge, Orientation, Wing};
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::{Alg, Piece};
use nalgebra::{Vector2, Vector3};
use std::collections::HashSet;
use strum::IntoEnumIterator;

const DIRS: [i32; 2] = [1, -1];

/// The nine rotations and their matrices
fn rotations() -> Vec<(AxisRotation, Rot)> {
    let mut v = vec![];
    for a in 0..3 {
        for k in 1..4 {
            v.push((rotation(a, k), Rot::about(a, k)));
        }
    }
    v
}

fn cross(a: [i32; 3], b: [i32; 3]) -> [i32; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

fn funit(f: &Face) -> [i32; 3] {
    let (a, d) = unface(f);
    unit(a, d)
}

fn faces6() -> Vec<Face> {
    (0..6).map(face).collect()
}

fn axes(ctx: &mut Ctx) {
    let mut seen = vec![];
    for a in run!(ctx, Axis::iter().collect::<Vec<_>>(), "Axis::iter") {
        seen.push(unax(a));
    }
    ck!(ctx, seen.len() == 3 && seen.iter().collect::<HashSet<_>>().len() == 3, "iterating over the axes gives {seen:?}");
    for a in 0..3 {
        let (b, c) = ((a + 1) % 3, (a + 2) % 3);
        ck!(ctx, ax(a).next() == ax(b), "{:?}.next() is {:?}", ax(a), ax(a).next());
        ck!(ctx, ax(a).prev() == ax(c), "{:?}.prev() is {:?}", ax(a), ax(a).prev());
        ck!(ctx, ax(a).next_with_handedness(dir(1)) == ax(b), "{:?}: the next axis with positive handedness is wrong", ax(a));
        ck!(ctx, ax(a).next_with_handedness(dir(-1)) == ax(c), "{:?}: the next axis with negative handedness is wrong", ax(a));
        ck!(ctx, Axis::basis(&ax(a)) == [ax(b), ax(c)], "the basis of {:?} is {:?}", ax(a), Axis::basis(&ax(a)));
        let v: Vector3<i8> = (&ax(a)).into();
        let u = unit(a, 1);
        ck!(ctx, [v.x as i32, v.y as i32, v.z as i32] == u, "{:?} as a vector is {v:?}", ax(a));
        let w = Vector3::new(10, 20, 30);
        ck!(ctx, w[ax(a)] == 10 * (a as i32 + 1), "indexing a vector with {:?} gives {}", ax(a), w[ax(a)]);
        let mut w2 = w;
        w2[ax(a)] = 7;
        ck!(ctx, w2[a] == 7 && w2[b] == w[b] && w2[c] == w[c], "writing to a vector at {:?} gives {w2:?}", ax(a));
        let mut got = None;
        let r = run!(
            ctx,
            ax(a).map_on_slice(w, |[x, y]| {
                got = Some((*x, *y));
                Vector2::new(-1, -2)
            }),
            "map_on_slice"
        );
        ck!(ctx, got == Some((w[b], w[c])), "map_on_slice around {:?} shows {got:?} of {w:?}", ax(a));
        ck!(ctx, r[a] == w[a] && r[b] == -1 && r[c] == -2, "map_on_slice around {:?} gives {r:?}", ax(a));
        // the two coordinates of the plane, in the order of the axes
        let plane = run!(ctx, barbarosa::generic::utils::slice_coords(w, ax(a)), "slice_coords");
        let left: Vec<i32> = (0..3).filter(|x| *x != a).map(|x| w[x]).collect();
        ck!(ctx, vec![plane.x, plane.y] == left, "the plane coordinates of {w:?} for the normal {:?} are {plane:?}", ax(a));
        for o in 0..3 {
            let d = (o + 3 - a) % 3;
            ck!(ctx, ax(a).offset(&ax(o)) == d as i32, "offset of {:?} and {:?} is {}", ax(a), ax(o), ax(a).offset(&ax(o)));
            let h = run!(ctx, ax(a).get_handedness(&ax(o)), "get_handedness");
            let want = match d {
                1 => Some(1),
                2 => Some(-1),
                _ => None,
            };
            ck!(ctx, h.as_ref().ok().map(|h| undir(*h)) == want, "handedness of {:?}, {:?} is {h:?}", ax(a), ax(o));
            let third = run!(ctx, Axis::other(&ax(a), &ax(o)), "Axis::other");
            let want = if a == o { None } else { Some(ax(3 - a - o)) };
            ck!(ctx, third == want, "the axis other than {:?} and {:?} is {third:?}", ax(a), ax(o));
            ctx.eval_many(1);
        }
        for (r, m) in rotations() {
            let (x, _) = m.map_face(a, 1);
            let got = run!(ctx, ax(a).rotated(&r), "rotating {:?}", ax(a));
            ck!(ctx, got == ax(x), "{:?} rotated by {r:?} is {got:?} instead of {:?}", ax(a), ax(x));
            ctx.eval_many(1);
        }
    }
}

fn directions_and_amounts(ctx: &mut Ctx) {
    let all: Vec<Direction> = Direction::iter().collect();
    ck!(ctx, all.len() == 2 && all[0] != all[1], "iterating over the directions gives {all:?}");
    for d in DIRS {
        ck!(ctx, dir(d).scalar() as i32 == d, "the scalar of {:?} is {}", dir(d), dir(d).scalar());
        ck!(ctx, i8::from(&dir(d)) as i32 == d, "{:?} as a number is wrong", dir(d));
        ck!(ctx, -dir(d) == dir(-d), "the opposite of {:?} is {:?}", dir(d), -dir(d));
        let a: Amount = dir(d).into();
        ck!(ctx, unamt(a) == d.rem_euclid(4), "{:?} as an amount is {a:?}", dir(d));
        for k in 1..4 {
            let m = amt(k) * dir(d);
            ck!(ctx, unamt(m) == (k * d).rem_euclid(4), "{:?} times {:?} is {m:?}", amt(k), dir(d));
            ctx.eval_many(1);
        }
    }
    let all: Vec<Amount> = Amount::iter().collect();
    ck!(ctx, all.len() == 3 && all.iter().map(|a| unamt(*a)).sum::<i32>() == 6, "iterating over the amounts gives {all:?}");
    for k in 1..4 {
        for l in 1..4 {
            let s = amt(k) + amt(l);
            let want = if (k + l) % 4 == 0 { None } else { Some(amt(k + l)) };
            ck!(ctx, s == want, "{:?} and {:?} add up to {s:?}", amt(k), amt(l));
            ctx.eval_many(1);
        }
        for x in DIRS {
            for y in DIRS {
                let v = run!(ctx, rotate_vec2(&amt(k), &Vector2::new(dir(x), dir(y))), "rotate_vec2");
                let p = rot([x, y, 0], 2, k);
                ck!(
                    ctx,
                    [undir(v.x), undir(v.y)] == [p[0], p[1]],
                    "({x}, {y}) rotated clockwise by {:?} is {v:?} instead of ({}, {})",
                    amt(k),
                    p[0],
                    p[1]
                );
                ctx.eval_many(1);
            }
        }
    }
    for (r, m) in rotations() {
        let i = run!(ctx, r.inverse(), "inverse of {r:?}");
        let im = Rot::about(unax(i.axis), unamt(i.amount));
        ck!(ctx, im.after(&m) == Rot::ID, "the inverse of {r:?} is {i:?}");
        ck!(ctx, AxisRotation::new(r.axis, r.amount) == r, "AxisRotation::new mixes up its arguments");
    }
    for m in all_moves(0) {
        let r = run!(ctx, AxisRotation::from(&m.axis_move()), "rotation of {m}");
        let got = Rot::about(unax(r.axis), unamt(r.amount));
        ck!(ctx, got == Rot::about(m.a, m.k * m.d), "the move {m} rotates by {r:?}");
        ctx.eval_many(1);
    }
    let moves: Vec<_> = AxisMove::iter().collect();
    let set: HashSet<Mv> = moves.iter().map(Mv::from_axis_move).collect();
    ck!(ctx, moves.len() == 18 && set.len() == 18, "iterating over the moves gives {} different ones of {}", set.len(), moves.len());
}

fn the_faces(ctx: &mut Ctx) {
    let listed: Vec<Face> = Face::iter().collect();
    ck!(ctx, listed == faces6(), "Face::iter() is {listed:?} instead of R, U, F, L, D, B");
    let consts = [Face::R, Face::U, Face::F, Face::L, Face::D, Face::B];
    ck!(ctx, consts.to_vec() == faces6(), "the face constants are {consts:?}");
    let consts = [faces::R, faces::U, faces::F, faces::L, faces::D, faces::B];
    ck!(ctx, consts.to_vec() == faces6(), "the constants in `faces` are {consts:?}");
    for (i, f) in faces6().into_iter().enumerate() {
        let u = funit(&f);
        ck!(ctx, f.index() == i, "{f}.index() is {}", f.index());
        ck!(ctx, f.to_string() == face_name(i), "{f:?} is printed as {f}");
        ck!(ctx, Face::new(f.axis, f.direction) == f, "Face::new mixes up its arguments");
        ck!(ctx, funit(&f.opposite()) == u.map(|x| -x), "the opposite of {f} is {}", f.opposite());
        let c = f.coords();
        ck!(ctx, [c.x as i32, c.y as i32, c.z as i32] == u, "the coordinates of {f} are {c:?}");
        let c: Vector3<i8> = (&f).into();
        ck!(ctx, [c.x as i32, c.y as i32, c.z as i32] == u, "{f} as a vector is {c:?}");
        for a in 0..3 {
            let n = run!(ctx, f.clone().next_around(&ax(a)), "next_around");
            ck!(ctx, funit(&n) == rot(u, a, 1), "the face after {f} clockwise around {:?} is {n}", ax(a));
            let n = run!(ctx, f.clone().prev_around(&ax(a)), "prev_around");
            ck!(ctx, funit(&n) == rot(u, a, 3), "the face before {f} clockwise around {:?} is {n}", ax(a));
            ctx.eval_many(2);
        }
        for g in faces6() {
            let w = cross(u, funit(&g));
            let got = run!(ctx, f.cross(&g), "cross");
            let want = if w == [0; 3] { None } else { Some(w) };
            ck!(ctx, got.as_ref().map(funit) == want, "{f} cross {g} is {got:?}");
            ctx.eval_many(1);
        }
        for (r, m) in rotations() {
            let got = run!(ctx, f.clone().rotated(&r), "rotating {f}");
            let want = m.map(u);
            ck!(ctx, funit(&got) == want, "{f} rotated by {r:?} is {got}");
            let back = run!(ctx, got.clone().rotated(&r.inverse()), "rotating back {f}");
            ck!(ctx, back == f, "{f} rotated by {r:?} and its inverse is {back}");
            for k in 1..4 {
                let mv = AxisMove::new(f.clone(), amt(k));
                let got = run!(ctx, mv.clone().rotated(&r), "rotating {mv}");
                let (a, d) = face_of(want);
                let want = Mv { a, d, k, depth: 0 };
                ck!(ctx, Mv::from_axis_move(&got) == want, "the move {mv} rotated by {r:?} is {got} instead of {want}");
                ctx.eval_many(1);
            }
            ctx.eval_many(1);
        }
        for p in 0..8 {
            let v = corner_home(p);
            let inside = v[i % 3] == u[i % 3];
            ck!(ctx, f.contains_vector(&unvec3(v)) == inside, "{f} contains the corner place {v:?}: {}", !inside);
        }
        for e in 0..12 {
            let v = edge_home(e);
            let (normal, sp) = un_edge_coords(v);
            for oriented in [true, false] {
                let edge = Edge::new(normal, sp, oriented);
                let inside = v[i % 3] == u[i % 3];
                ck!(ctx, f.contains_edge(&edge) == inside, "{f} contains {edge:?}: {}", !inside);
            }
        }
    }
    // whole algorithms
    let n = ctx.amount(200, 5000);
    for _ in 0..n {
        let l = len(&mut ctx.rng, 12, 60);
        let w = random_word(&mut ctx.rng, l, 0);
        let alg = Alg { moves: w.iter().map(Mv::axis_move).collect::<Vec<AxisMove>>() };
        let rs = rotations();
        let (r, m) = &rs[ctx.rng.gen_range(0..9)];
        let got = run!(ctx, alg.clone().rotated(r), "rotating {alg}");
        let want: Vec<Mv> = w
            .iter()
            .map(|x| {
                let (a, d) = m.map_face(x.a, x.d);
                Mv { a, d, ..*x }
            })
            .collect();
        let got: Vec<Mv> = got.moves.iter().map(Mv::from_axis_move).collect();
        ck!(ctx, got == want, "{alg} rotated by {r:?} is {} instead of {}", word_str(&got), word_str(&want));
        ctx.eval(hash_of(&(want, unax(r.axis), unamt(r.amount))));
    }
}

fn orientations(ctx: &mut Ctx) {
    let mut all: Vec<(Rot, Orientation)> = vec![];
    for r in faces6() {
        for u in faces6() {
            let o = run!(ctx, Orientation::try_from([r.clone(), u.clone()]), "orientation from {r}, {u}");
            let perpendicular = r.axis != u.axis;
            ck!(ctx, o.is_ok() == perpendicular, "making an orientation from {r} and {u}: {o:?}");
            ctx.eval_many(1);
            let Ok(o) = o else { continue };
            ck!(ctx, *o.r_face() == r && o.u_face() == u, "the orientation from {r} and {u} has R at {} and U at {}", o.r_face(), o.u_face());
            let Some(m) = rot_of(&o) else { ctx.fail(format!("the faces of {o:?} are parallel")) };
            ck!(ctx, all.iter().all(|(_, p)| *p != o), "two different orientations are equal: {o:?}");
            all.push((m, o));
        }
    }
    ck!(ctx, all.len() == 24, "there are {} orientations", all.len());
    let default = Orientation::default();
    ck!(ctx, rot_of(&default) == Some(Rot::ID), "the default orientation is {default:?}");
    let canonical = |m: &Rot| all.iter().find(|(x, _)| x == m).map(|(_, o)| o.clone()).expect("harness: 24 rotations");
    for (m, o) in &all {
        let turns: Vec<AxisRotation> = run!(ctx, o.rotations().collect(), "rotations of {o:?}");
        let mut x = Rot::ID;
        let mut y = default.clone();
        for t in &turns {
            x = Rot::about(unax(t.axis), unamt(t.amount)).after(&x);
            run!(ctx, y.rotate(t), "rotating {y:?}");
        }
        ck!(ctx, x == *m, "the rotations {turns:?} do not lead to the orientation with R at {} and U at {}", o.r_face(), o.u_face());
        ck!(ctx, y == *o, "applying the rotations {turns:?} to the default orientation gives {y:?} instead of {o:?}");
        ctx.metric_max("rotations reported for one orientation", turns.len() as u64);
        for (r, n) in rotations() {
            let got = run!(ctx, o.clone().rotated(&r), "rotating {o:?}");
            let want = canonical(&n.after(m));
            ck!(ctx, rot_of(&got) == Some(n.after(m)), "{o:?} rotated by {r:?} is {got:?}");
            ck!(ctx, got == want, "{o:?} rotated by {r:?} is {got:?}, which has the faces of {want:?} but is not equal to it");
            let back = run!(ctx, got.rotated(&r.inverse()), "rotating back");
            ck!(ctx, back == *o, "{o:?} rotated by {r:?} and back is {back:?}");
            ctx.eval_many(1);
        }
    }
    // a history of rotations, remembered by the orientation
    let n = ctx.amount(300, 20_000);
    for _ in 0..n {
        let (mut o, mut m) = (Orientation::default(), Rot::ID);
        let mut word = vec![];
        for _ in 0..ctx.rng.gen_range(1..40) {
            let rs = rotations();
            let (r, x) = &rs[ctx.rng.gen_range(0..9)];
            word.push((unax(r.axis), unamt(r.amount)));
            o.rotate(r);
            m = x.after(&m);
        }
        ck!(ctx, o == canonical(&m), "after the rotations {word:?} the orientation is {o:?} instead of {:?}", canonical(&m));
        ctx.eval(hash_of(&word));
    }
}

/// What a piece looks like: the stickers' (home, now) slots, or only where they are now
fn pieces(ctx: &mut Ctx) {
    let turn = |s: &Slot, r: &AxisRotation| s.rotated(unax(r.axis), unamt(r.amount));
    for p in 0..8 {
        let v = corner_home(p);
        let mut c = Corner::oriented(unvec3(v));
        for twists in 0..3 {
            ck!(ctx, c.orientation_index() == twists, "an oriented corner at {v:?} twisted {twists} times has the orientation {}", c.orientation_index());
            ck!(ctx, c.is_oriented() == (twists == 0), "a corner at {v:?} twisted {twists} times is oriented: {}", c.is_oriented());
            ck!(ctx, unax(c.orientation_axis) == corner_cycle(v, 1)[twists], "twisting the corner at {v:?} is not counter-clockwise: {c:?}");
            ck!(
                ctx,
                Corner::next_axis(&c.position, &c.orientation_axis) == ax(corner_cycle(v, 1)[(twists + 1) % 3]),
                "the counter-clockwise axis for {c:?} is wrong"
            );
            ck!(ctx, Corner::new(c.position, c.orientation_axis) == c, "Corner::new mixes up its arguments");
            ck!(ctx, c.position() == unvec3(v), "the position of {c:?} is {:?}", c.position());
            let f: HashSet<[i32; 3]> = c.faces().iter().map(funit).collect();
            let want: HashSet<[i32; 3]> = (0..3).map(|a| unit(a, v[a])).collect();
            ck!(ctx, f == want, "the faces of the corner at {v:?} are {:?}", c.faces());
            let x = c.coordinates();
            ck!(ctx, [x.x, x.y, x.z] == v.map(|x| x as f32), "the coordinates of {c:?} are {x:?}");
            for q in 0..8 {
                let h = corner_home(q);
                ck!(
                    ctx,
                    c.is_solved(&unvec3(h)) == (h == v && twists == 0),
                    "{c:?} counts as solved at {h:?}: {}",
                    c.is_solved(&unvec3(h))
                );
            }
            for (r, _) in rotations() {
                let got = run!(ctx, c.clone().rotated(&r), "rotating {c:?}");
                let want = corner_stickers(3, [1; 3], v, unax(c.orientation_axis)).map(|(h, s)| (h, turn(&s, &r)));
                let is = corner_stickers(3, [1; 3], vec3(&got.position), unax(got.orientation_axis));
                ck!(ctx, is == want, "{c:?} rotated by {r:?} is {got:?}");
                let got = run!(ctx, c.position.rotated(&r), "rotating a position");
                ck!(ctx, vec3(&got) == rot(v, unax(r.axis), unamt(r.amount)), "the position {v:?} rotated by {r:?} is {got:?}");
                ctx.eval_many(1);
            }
            run!(ctx, c.twist(), "twist");
        }
        ck!(ctx, c == Corner::oriented(unvec3(v)), "three twists of a corner do not restore it: {c:?}");
    }
    for p in 0..12 {
        let v = edge_home(p);
        let (normal, sp) = un_edge_coords(v);
        for oriented in [true, false] {
            let e = Edge::new(normal, sp, oriented);
            ck!(ctx, e.normal_axis == normal && e.slice_position == sp && e.oriented == oriented, "Edge::new makes {e:?}");
            ck!(ctx, Edge::oriented(normal, sp) == Edge::new(normal, sp, true), "Edge::oriented is not oriented");
            ck!(ctx, e.position() == (normal, sp), "the position of {e:?} is {:?}", e.position());
            let f: HashSet<[i32; 3]> = e.faces().iter().map(funit).collect();
            let want: HashSet<[i32; 3]> = (0..3).filter(|a| v[*a] != 0).map(|a| unit(a, v[a])).collect();
            ck!(ctx, f == want, "the faces of the edge at {v:?} are {:?}", e.faces());
            let x = e.coordinates();
            ck!(ctx, [x.x, x.y, x.z] == v.map(|x| x as f32), "the coordinates of {e:?} are {x:?}");
            ck!(ctx, e.clone().flipped() == Edge::new(normal, sp, !oriented), "the flipped {e:?} is {:?}", e.clone().flipped());
            let mut g = e.clone();
            g.flip();
            ck!(ctx, g == Edge::new(normal, sp, !oriented), "flipping {e:?} gives {g:?}");
            for q in 0..12 {
                let h = edge_home(q);
                let s = e.is_solved(&un_edge_coords(h));
                ck!(ctx, s == (h == v && oriented), "{e:?} counts as solved at {h:?}: {s}");
            }
            for (r, _) in rotations() {
                let got = run!(ctx, e.clone().rotated(&r), "rotating {e:?}");
                let home = [1, 1, 0];
                let want = edge_stickers(3, home, v, oriented).map(|(h, s)| (h, turn(&s, &r)));
                let is = edge_stickers(3, home, edge_coords(got.normal_axis, &got.slice_position), got.oriented);
                ck!(ctx, is == want, "{e:?} rotated by {r:?} is {got:?}");
                let flips = got.oriented != e.oriented;
                ck!(ctx, r.flips_edge_orientation(normal) == flips, "{r:?} flips edges with normal {normal:?}: {}", !flips);
                ctx.eval_many(1);
            }
        }
        let s = edge_axes(v);
        let (f, g) = (Edge::orientation_face((normal, sp)), Edge::non_orientation_face((normal, sp)));
        ck!(ctx, funit(&f) == unit(s[0], v[s[0]]), "the orientation sticker at the edge place {v:?} is said to be on {f}");
        ck!(ctx, funit(&g) == unit(s[1], v[s[1]]), "the other sticker at the edge place {v:?} is said to be on {g}");
        for a in 0..3 {
            let d = run!(ctx, Edge::direction_on_axis(&(normal, sp), ax(a)), "direction_on_axis");
            let want = if v[a] == 0 { None } else { Some(dir(v[a])) };
            ck!(ctx, d == want, "the edge place {v:?} is said to be at {d:?} on {:?}", ax(a));
        }
    }
    for f in faces6() {
        for g in faces6() {
            let par = f.axis == g.axis;
            let (x, y) = (funit(&f), funit(&g));
            let at = [0, 1, 2].map(|i| x[i] + y[i]);
            let p = run!(ctx, Edge::position_from_faces([f.clone(), g.clone()]), "position_from_faces");
            ck!(ctx, p.is_err() == par, "edge place between {f} and {g}: {p:?}");
            if let Ok((n, s)) = p {
                ck!(ctx, edge_coords(n, &s) == at, "the edge place between {f} and {g} is {n:?}, {s:?}");
            }
            let e = run!(ctx, Edge::try_from([f.clone(), g.clone()]), "Edge::try_from");
            ck!(ctx, e.is_err() == par, "edge between {f} and {g}: {e:?}");
            if let Ok(e) = e {
                ck!(ctx, e.oriented && edge_coords(e.normal_axis, &e.slice_position) == at, "the edge between {f} and {g} is {e:?}");
            }
            for d in DIRS {
                let w = run!(ctx, Wing::try_from_faces([f.clone(), g.clone()], dir(d)), "Wing::try_from_faces");
                ck!(ctx, w.is_err() == par, "wing between {f} and {g}: {w:?}");
                if let Ok(w) = w {
                    let a = 3 - unax(f.axis) - unax(g.axis);
                    let mut want = at.map(|x| 3 * x);
                    want[a] = d;
                    ck!(ctx, w.cubie(4, 1, 0) == want, "the wing between {f} and {g} at {d} is {w:?}");
                }
            }
            let c = run!(ctx, CenterEdge::try_from_faces(f.clone(), g.clone()), "CenterEdge::try_from_faces");
            ck!(ctx, c.is_err() == par, "center edge on {f} towards {g}: {c:?}");
            if let Ok(c) = c {
                ck!(ctx, c.main_face == f && c.side_face() == g, "the center edge on {f} towards {g} is {c:?}");
                let a = ax(3 - unax(f.axis) - unax(g.axis));
                ck!(ctx, c.normal_axis() == a, "the normal axis of {c:?} is {:?}", c.normal_axis());
                for d in DIRS {
                    let w = run!(ctx, CenterWing::new(f.clone(), c.handedness, c.side_direction, dir(d)), "CenterWing::new");
                    ck!(
                        ctx,
                        *w.main_face() == f && w.side_face() == g && w.normal_axis() == a && w.normal_direction() == dir(d),
                        "the center wing on {f} towards {g} at {d} is {w:?}"
                    );
                }
            }
            ctx.eval_many(1);
        }
    }
    for a in 0..3 {
        for x in DIRS {
            for y in DIRS {
                for d in DIRS {
                    let sp = Vector2::new(dir(x), dir(y));
                    let w = run!(ctx, Wing::new(ax(a), sp, dir(d)), "Wing::new");
                    ck!(
                        ctx,
                        w.normal_axis() == ax(a) && w.slice_position() == sp && w.normal_direction() == dir(d),
                        "Wing::new({:?}, {sp:?}, {d}) is {w:?}",
                        ax(a)
                    );
                    let f: HashSet<[i32; 3]> = w.faces().iter().map(funit).collect();
                    let want: HashSet<[i32; 3]> = [unit((a + 1) % 3, x), unit((a + 2) % 3, y)].into_iter().collect();
                    ck!(ctx, f == want, "the faces of {w:?} are {:?}", w.faces());
                }
            }
        }
    }
    located::<Wing, 24>(ctx, "wing", 6, 1, 0);
    located::<Wing, 24>(ctx, "wing", 6, 2, 0);
    located::<CenterEdge, 24>(ctx, "center edge", 7, 1, 0);
    located::<CenterEdge, 24>(ctx, "center edge", 7, 2, 0);
    located::<CenterCorner, 24>(ctx, "center corner", 6, 1, 0);
    located::<CenterCorner, 24>(ctx, "center corner", 6, 2, 0);
    located::<CenterWing, 48>(ctx, "center wing", 7, 1, 2);
    located::<CenterWing, 48>(ctx, "center wing", 7, 2, 1);
}

/// Pieces of big cubes: rotating one takes its sticker where it belongs, in all places
fn located<P, const N: usize>(ctx: &mut Ctx, name: &str, n: usize, nd: u32, td: u32)
where
    P: PieceSetDescriptor<N> + Located + Rotatable + Clone + std::fmt::Debug,
{
    let slot = |p: &P| {
        let c = p.cubie(n, nd, td);
        let a = p.sticker_axis();
        Slot { p: c, a, d: c[a].signum() }
    };
    let solved = P::SOLVED;
    let at: Vec<Slot> = solved.iter().map(&slot).collect();
    ck!(ctx, at.iter().collect::<HashSet<_>>().len() == N, "the {name} pieces are not at {N} different places");
    for (p, s) in solved.iter().zip(&at) {
        for (r, _) in rotations() {
            let got = run!(ctx, p.clone().rotated(&r), "rotating {p:?}");
            let want = s.rotated(unax(r.axis), unamt(r.amount));
            let is = slot(&got);
            ck!(ctx, is.p == want.p, "{name} {p:?} rotated by {r:?} is {got:?}, at {:?} instead of {:?}", is.p, want.p);
            if name != "wing" {
                ck!(ctx, is == want, "{name} {p:?} rotated by {r:?} is {got:?}");
            }
            let j = at.iter().position(|x| x.p == want.p && (name == "wing" || x == &want));
            ck!(ctx, j.is_some_and(|j| solved[j] == got), "{name} {p:?} rotated by {r:?} is {got:?}, which is not the {name} of that place");
            ctx.eval_many(1);
        }
    }
    ctx.metric(&format!("{name} states"), N as u64);
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "all axes, directions, amounts, the 18 moves, 36 face pairs, 24 orientations, 24 corner and 24 edge states, \
                24 wings, center edges and center corners, 48 center wings, each with all nine rotations (plus random \
                rotation histories and algorithms), against integer rotation matrices"
        .into();
    ctx.exhaustive = true;
    ctx.assumptions.push("X to R, Y to U, Z to F; clockwise as seen from the positive end of the axis".into());
    axes(ctx);
    directions_and_amounts(ctx);
    the_faces(ctx);
    orientations(ctx);
    pieces(ctx);
    ctx.sample(|| "orientation [U, B] rotated by x' y2: R and U faces follow the matrices".into());
}
