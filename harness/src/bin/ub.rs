//! C24: the library under Miri, used through its safe interface with valid and invalid values.
//!
//! Runs natively with sanitizers, too.
//!
//! usage: ub SECTION SEED ROUNDS; prints "observed SECTION N" (calls made). Panics of the library are
//! allowed here: only undefined behaviour, which ends the interpreter, counts.
#![allow(unexpected_cfgs)]
#![allow(dead_code)]

#[path = "../conv.rs"]
mod conv;
#[path = "../phys.rs"]
mod phys;

use barbarosa::cube3::cfop::cross;
use barbarosa::cube3::heuristics;
use barbarosa::cube3::mus::cache;
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{CubeIndices, Indexable, OrientationIndexable, PositionIndexable};
use barbarosa::cube_n::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::invariants;
use barbarosa::cube_n::moves::non_redundant::{absorve, NonRedundantAxisMove};
use barbarosa::cube_n::moves::rotation::{rotate_vec2, AxisRotation, Rotatable};
use barbarosa::cube_n::moves::wide::{DepthPiece, DepthPieceSet};
use barbarosa::cube_n::moves::{Amount, ExtendedAxisMove, QuarterAxisMove};
use barbarosa::cube_n::pieces::edge::min_moves_to_solve;
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colored, Colorscheme};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Edge, Orientable, Orientation, WideAxisMove, Wing};
use barbarosa::generic::moves::connect;
use barbarosa::generic::piece::{Coordinates, PieceSetDescriptor};
use barbarosa::generic::search::{ida::IDASearcher, Searcher};
use barbarosa::generic::{Alg, Cube, Movable, Move, Parsable, Piece, PieceSet};
use conv::*;
use nalgebra::Vector3;
use phys::Mv;
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use strum::IntoEnumIterator;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static PANICS: Cell<u64> = const { Cell::new(0) };
}

/// One observed call; the library may panic
fn g<T>(f: impl FnOnce() -> T) -> Option<T> {
    CALLS.with(|c| c.set(c.get() + 1));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(black_box(v)),
        Err(_) => {
            PANICS.with(|c| c.set(c.get() + 1));
            None
        }
    }
}

/// Looks at all bits of a value
fn look<T: Debug>(t: &T) -> usize {
    format!("{t:?}").len()
}

fn small_wide<const N: u32, const M: u32>(rng: &mut StdRng) {
    for depth in [0, 1, 2, N / 2, N.saturating_sub(1), N, N.saturating_add(1), u32::MAX, rng.gen()] {
        let f = face(rng.gen_range(0..6));
        if let Some(Ok(m)) = g(|| WideAxisMove::<N>::new(f, Amount::Double, depth)) {
            g(|| look(&m));
            g(|| m.to_string());
            g(|| m.inverse());
            let mut m2 = m.clone();
            g(|| m2.set_depth(depth.wrapping_add(1)).is_ok());
            g(|| look(&m2));
            if let Some(Ok(w)) = g(|| m.clone().set_max_depth::<M>()) {
                g(|| look(&w));
                g(|| w == w.inverse().inverse());
                g(|| (w.depth(), w.face().clone(), w.amount()));
                if let Some(Ok(b)) = g(|| w.set_max_depth::<N>()) {
                    g(|| b == m);
                }
            }
            g(|| look(&ExtendedAxisMove::from(m)));
        }
    }
    let m: Option<WideAxisMove<N>> = g(|| rng.gen());
    g(|| look(&m));
}

fn moves(rng: &mut StdRng) {
    g(|| AxisMove::all().iter().map(look).sum::<usize>());
    g(|| AxisMove::iter().map(|m| m.to_string()).collect::<String>());
    let all = AxisMove::all();
    for m in &all {
        g(|| look(&m.inverse()));
        for d in [0, 1, 5, u32::MAX] {
            g(|| m.clone().widen::<3>(d).map(|m| look(&m)).ok());
        }
    }
    small_wide::<0, 1>(rng);
    small_wide::<1, 0>(rng);
    small_wide::<2, 7>(rng);
    small_wide::<{ u32::MAX }, 3>(rng);
    small_wide::<3, { u32::MAX }>(rng);
    g(|| NonRedundantAxisMove::all().map(|m| look(&m)).sum::<usize>());
    for a in AXES {
        g(|| NonRedundantAxisMove::of_axis(a).map(|m| look(&m)).sum::<usize>());
        g(|| NonRedundantAxisMove::given_last_axis(&a).map(|m| look(&m)).sum::<usize>());
    }
    let nr: Vec<_> = NonRedundantAxisMove::all().collect();
    for _ in 0..20 {
        let m = nr[rng.gen_range(0..nr.len())].clone();
        g(|| look(&m.inverse()));
        g(|| m.moves().map(|m| look(&m)).sum::<usize>());
        g(|| m.to_string());
        g(|| look(&Alg::<AxisMove>::from(m.clone()).moves));
        g(|| {
            let mut s = Some(m.clone());
            for _ in 0..4 {
                look(&absorve(&mut s, &all[rng.gen_range(0..18)]));
            }
            look(&s)
        });
    }
    for _ in 0..4 {
        let a = g(|| Alg::<AxisMove>::random_with_rng(7, rng)).unwrap_or(Alg::empty());
        g(|| look(&a.reversed().moves));
        g(|| a.to_string());
        g(|| look(&Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(a.moves.clone())).moves));
        g(|| Alg::<AxisMove>::new(a.moves.clone()).widen::<2>(1).map(|a| look(&a.moves)).ok());
        let b = g(|| Alg::<AxisMove>::random_unnormalized_with_rng(12, rng)).unwrap_or(Alg::empty());
        g(|| look(&b.normalized().moves));
    }
    g(|| Alg::<AxisMove>::random(3));
    for _ in 0..5 {
        g(|| look(&rng.gen::<AxisMove>()));
        g(|| look(&rng.gen::<Amount>()));
        g(|| look(&rng.gen::<Axis>()));
    }
}

trait Big: Cube + Movable<AxisMove> + Clone + Debug + PartialEq {
    fn turn(&mut self, m: &Mv);
}
macro_rules! big {
    ($($c:ident: $($d:literal),*;)*) => {$(
        impl Big for $c {
            fn turn(&mut self, m: &Mv) {
                match m.depth {
                    $($d => { let w = m.wide::<$d>(); g(|| Movable::<WideAxisMove<$d>>::apply(self, &w)); })*
                    _ => { g(|| Movable::<AxisMove>::apply(self, &m.axis_move())); }
                }
            }
        }
    )*};
}
big! { Cube2: 0; Cube3: 0; Cube4: 0, 1; Cube5: 0, 1; Cube6: 0, 1, 2; Cube7: 0, 1, 2; }

fn extended(rng: &mut StdRng, n: u32) -> ExtendedAxisMove {
    let m = Mv::random(rng, 0);
    match rng.gen_range(0..5) {
        0 => ExtendedAxisMove::Regular(m.axis_move()),
        1 => ExtendedAxisMove::Rotation(rotation(m.a, m.k)),
        2 => ExtendedAxisMove::Wide(Mv { depth: rng.gen_range(0..n + 2), ..m }.wide()),
        3 => ExtendedAxisMove::Wide(Mv { depth: [u32::MAX, rng.gen(), n, n + 1][rng.gen_range(0..4)], ..m }.wide()),
        _ => ExtendedAxisMove::Slice { rot: rotation(m.a, m.k), wide: rng.gen() },
    }
}

fn big_cube<C: Big + 'static>(rng: &mut StdRng, n: u32)
where
    C: barbarosa::cube_n::CubeN,
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let mut c = C::new_solved();
    for _ in 0..3 {
        let depth = rng.gen_range(0..n / 2);
        c.turn(&Mv::random(rng, depth));
    }
    g(|| c.is_solved());
    g(|| c == C::new_solved());
    g(|| look(&c));
    let mut o = Orientable::new(c.clone());
    for _ in 0..4 {
        let m = extended(rng, n);
        g(|| o.apply(&m));
        g(|| o.apply(&m.inverse()));
        g(|| o.apply(&m));
    }
    g(|| look(&o.orientation));
    g(|| o.base_cube == c);
}

fn cubes(rng: &mut StdRng) {
    big_cube::<Cube2>(rng, 2);
    big_cube::<Cube3>(rng, 3);
    big_cube::<Cube4>(rng, 4);
    big_cube::<Cube5>(rng, 5);
}
fn big_cubes(rng: &mut StdRng) {
    big_cube::<Cube6>(rng, 6);
    big_cube::<Cube7>(rng, 7);
}

fn parser(rng: &mut StdRng) {
    let texts = [
        "R", "U2", "F'", "Rw", "3Rw2", "12Lw'", "r", "4294967295Rw", "4294967296Rw", "x", "y'", "z2", "M", "E'", "S2", "m", "0Rw", "", "Q", "R3", "R''", "🧊", "\u{0}", "2R", "w", "999999999999999999999999Rw",
    ];
    for s in texts {
        g(|| Face::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| Amount::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| AxisMove::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| AxisRotation::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| WideAxisMove::<2>::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| ExtendedAxisMove::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
        g(|| Axis::parse(s).map(|x| look(&x)).map_err(|e| e.to_string()));
    }
    for _ in 0..3 {
        let mut s: String = (0..5).map(|_| texts[rng.gen_range(0..17)].to_string() + " ").collect();
        g(|| Alg::<ExtendedAxisMove>::parse(&s).map(|x| look(&x.moves)).map_err(|e| e.to_string()));
        let p = rng.gen_range(0..s.len());
        s.insert(p, rng.gen_range(' '..'z'));
        g(|| Alg::<ExtendedAxisMove>::parse(&s).map(|x| look(&x.moves)).map_err(|e| e.to_string()));
        g(|| Alg::<AxisMove>::try_from("R U R' U'").map(|x| look(&x.moves)).ok());
    }
}

/// Sets of pieces, also ones with pieces twice
fn set<P: PieceSetDescriptor<N> + Debug + PartialEq + Clone, const N: usize>(rng: &mut StdRng)
where
    P::Position: Debug + PartialEq + Clone,
{
    let mut s = PieceSet::<P, N>::SOLVED;
    g(|| look(&s.validate().is_none()));
    for _ in 0..3 {
        let (a, b) = (rng.gen_range(0..N), rng.gen_range(0..N));
        let (pa, pb) = (s.pieces()[a].position(), s.pieces()[b].position());
        g(|| s.swap(&pa, &pb));
        g(|| look(s.piece_originally_at(&pb)));
        g(|| look(&s.original_position_of_piece_at(&pa)));
    }
    g(|| s.shuffle(rng));
    for i in [0, 1, N - 1, N, N + 1, usize::MAX, usize::MAX / 2, rng.gen()] {
        g(|| s.at_index(i).map(look));
    }
    g(|| s.is_solved());
    // duplicates through the functions that do not check
    let copy = s.pieces()[rng.gen_range(0..N)].clone();
    let k = rng.gen_range(0..N);
    g(|| *s.iter_mut_unchecked().nth(k).unwrap() = copy.clone());
    g(|| s.validate().map(|e| e.to_string().len()));
    g(|| PieceSet::<P, N>::new(s.pieces().clone()).map(|s| look(s.pieces())).map_err(|e| e.to_string().len()));
    for i in 0..N.min(6) {
        let p = P::REFERENCE_POSITIONS[(i * 5 + k) % N].clone();
        g(|| look(s.piece_originally_at(&p)));
        g(|| look(&s.original_position_of_piece_at(&p)));
        let q = P::REFERENCE_POSITIONS[(i * 7) % N].clone();
        g(|| s.swap(&p, &q));
    }
    g(|| s.shuffle(rng));
    g(|| look(&s.clone().into_iter().collect::<Vec<_>>()));
    g(|| look(s.pieces()));
}

fn depth_set<P, const N: usize, const ND: u32, const TD: u32>(rng: &mut StdRng)
where
    P: DepthPiece + Rotatable + PieceSetDescriptor<N> + Debug + Clone,
{
    let mut s = DepthPieceSet::<P, N, ND, TD>::SOLVED;
    for depth in [0, 1, 5, u32::MAX, u32::MAX - 1, rng.gen()] {
        let m = Mv { depth, ..Mv::random(rng, 0) };
        g(|| s.apply(&m.wide::<{ u32::MAX }>()));
    }
    g(|| s.set.pieces().iter().map(look).sum::<usize>());
}

fn sets(rng: &mut StdRng) {
    set::<Corner, 8>(rng);
    set::<Edge, 12>(rng);
    set::<Wing, 24>(rng);
}
fn center_sets(rng: &mut StdRng) {
    set::<CenterCorner, 24>(rng);
    set::<CenterEdge, 24>(rng);
    depth_set::<Wing, 24, 1, 0>(rng);
    depth_set::<Wing, 24, { u32::MAX }, 0>(rng);
    depth_set::<CenterCorner, 24, 2, 0>(rng);
    depth_set::<CenterEdge, 24, 3, 7>(rng);
    depth_set::<CenterWing, 48, 1, 2>(rng);
}

/// Any corners and edges, places and twists, possibly twice
fn wild(rng: &mut StdRng) -> ([Corner; 8], [Edge; 12]) {
    let c = std::array::from_fn(|_| Corner { position: unvec3(corner_home(rng.gen_range(0..8))), orientation_axis: ax(rng.gen_range(0..3)) });
    let e = std::array::from_fn(|_| {
        let (n, s) = un_edge_coords(edge_home(rng.gen_range(0..12)));
        Edge::new(n, s, rng.gen())
    });
    (c, e)
}
fn wild_cube(rng: &mut StdRng) -> Cube3 {
    let mut c = Cube3::new_solved();
    let (cs, es) = match rng.gen_range(0..4) {
        0 => wild(rng),
        // all the highest, or nearly
        1 => {
            let a = Arr::solved();
            let (mut c, mut e) = (a.corners(), a.edges());
            c.reverse();
            e.reverse();
            c.iter_mut().for_each(|c| c.orientation_axis = ax(rng.gen_range(0..3)));
            e.iter_mut().for_each(|e| e.oriented = rng.gen());
            (c, e)
        }
        2 => {
            let a = Arr::random(rng);
            (a.corners(), a.edges())
        }
        _ => {
            let a = Arr::random_solvable(rng);
            let (mut c, mut e) = (a.corners(), a.edges());
            let (i, j) = (rng.gen_range(0..8), rng.gen_range(0..8));
            c[i] = c[j].clone();
            let (i, j) = (rng.gen_range(0..12), rng.gen_range(0..12));
            e[i] = e[j].clone();
            (c, e)
        }
    };
    c.corners.iter_mut_unchecked().zip(cs).for_each(|(a, b)| *a = b);
    c.edges.iter_mut_unchecked().zip(es).for_each(|(a, b)| *a = b);
    c
}

fn indices(rng: &mut StdRng) {
    for _ in 0..4 {
        let c = Arr::random_solvable(rng).cube3();
        if let Some(i) = g(|| c.indices()) {
            g(|| look(&(i.corners, i.edges)));
            g(|| Cube3::from_indices(i) == c);
        }
    }
    for _ in 0..8 {
        let c = wild_cube(rng);
        g(|| c.indices().corners);
        g(|| c.indices().edges);
        g(|| c.corners.pieces().index());
        for p in c.corners.pieces() {
            g(|| (p.position_index(), OrientationIndexable::orientation_index(p)));
        }
        for p in c.edges.pieces() {
            g(|| (p.position_index(), OrientationIndexable::orientation_index(p)));
        }
        let h: [Edge; 6] = std::array::from_fn(|i| c.edges.pieces()[2 * i].clone());
        g(|| h.index());
    }
    const C: usize = 40320 * 2187;
    const H: usize = 665280 * 64;
    for i in [0, 1, C / 2, C - 1, C, C + 1, H - 1, H, H + 1, 10 * C, u32::MAX as usize, usize::MAX, rng.gen_range(0..C), rng.gen_range(0..H), rng.gen()] {
        g(|| look(&<[Corner; 8]>::from_index(i)));
        g(|| look(&<[Edge; 6]>::from_index(i)));
        g(|| look(&Cube3::from_indices(CubeIndices { corners: i % C, edges: [i, i.wrapping_mul(31) % H] })));
    }
}

/// Whole tables of the right size (all zeros), used by several threads at once
fn tables(rng: &mut StdRng) {
    std::fs::create_dir_all("mus-cache").expect("dir");
    for (f, n) in [("corners", 40320 * 2187u64), ("edges", 665280 * 64)] {
        std::fs::File::create(format!("mus-cache/{f}.barbarosa")).and_then(|f| f.set_len(n)).expect("file");
    }
    g(|| cache::get(&Cube3::SOLVED));
    let seeds: Vec<u64> = (0..3).map(|_| rng.gen()).collect();
    let done: Vec<(u64, u64)> = std::thread::scope(|s| {
        let t: Vec<_> = seeds
            .iter()
            .map(|x| {
                s.spawn(move || {
                    let mut rng = StdRng::seed_from_u64(*x);
                    for _ in 0..4 {
                        let c = wild_cube(&mut rng);
                        g(|| cache::get(&c));
                        g(|| cache::get_or_init(&c));
                        g(|| heuristics::mus(&c));
                        let c = Arr::random_solvable(&mut rng).cube3();
                        g(|| cache::get_or_init(&c));
                        g(|| heuristics::mus_with_fallback(|_: &Cube3| 1.0)(&c));
                    }
                    (CALLS.with(|c| c.get()), PANICS.with(|c| c.get()))
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap_or((0, 0))).collect()
    });
    for (c, p) in done {
        CALLS.with(|x| x.set(x.get() + c));
        PANICS.with(|x| x.set(x.get() + p));
    }
}

#[cfg(barbarosa_verif)]
mod small {
    //! The generation of tables, on small types
    use super::*;
    use barbarosa::cube3::mus::cache::verif_hooks::*;

    macro_rules! ring {
        ($t:ident, $n:literal, $p:literal) => {
            #[derive(Clone, Debug)]
            struct $t(usize);
            impl PositionIndexable for $t {
                fn position_index(&self) -> usize {
                    self.0
                }
                const POSITION_SET_SIZE: usize = $n;
            }
            impl OrientationIndexable for $t {
                fn orientation_index(&self) -> usize {
                    0
                }
                const ORIENTATION_SET_SIZE: usize = 1;
            }
            impl Deindexable for $t {
                fn from_index(i: usize) -> Self {
                    $t(i)
                }
            }
            impl DiskCacheable for $t {
                const PATH: &'static str = $p;
            }
            impl Movable<AxisMove> for $t {
                fn apply(&mut self, m: &AxisMove) {
                    self.0 = (self.0 + unamt(m.amount) as usize * (1 + unax(m.face.axis))) % $n;
                }
            }
        };
    }
    ring!(One, 1, "mus-cache/one");
    ring!(Few, 7, "mus-cache/few");
    ring!(Many, 120, "mus-cache/sub/many");
    /// says more than it has: indices out of its own bounds
    #[derive(Clone, Debug)]
    struct Liar(usize);
    impl PositionIndexable for Liar {
        fn position_index(&self) -> usize {
            self.0
        }
        const POSITION_SET_SIZE: usize = 9;
    }
    impl OrientationIndexable for Liar {
        fn orientation_index(&self) -> usize {
            0
        }
        const ORIENTATION_SET_SIZE: usize = 1;
    }
    impl Deindexable for Liar {
        fn from_index(i: usize) -> Self {
            Liar(i)
        }
    }
    impl DiskCacheable for Liar {
        const PATH: &'static str = "mus-cache/liar";
    }
    impl Movable<AxisMove> for Liar {
        fn apply(&mut self, m: &AxisMove) {
            self.0 += unamt(m.amount) as usize;
        }
    }

    fn one<T: Deindexable + DiskCacheable + Movable<AxisMove> + Clone>() {
        let _ = std::fs::remove_file(T::PATH);
        g(|| load_partial::<T>().map(|v| look(&v)).ok());
        let v = g(|| build_partial::<T>()).and_then(|r| r.ok());
        if let Some(v) = v {
            g(|| look(&v));
            let mut w = v.clone();
            w.push(7); // uses the allocation
            w.shrink_to_fit();
            g(|| look(&w));
            g(|| write_partial::<T>(&w).is_ok());
            g(|| write_partial::<T>(&v).is_ok());
        }
        g(|| load_or_build_partial::<T>().map(|v| look(&v)).ok());
        g(|| load_partial::<T>().map(|v| look(&v)).ok());
        for n in [0usize, 1, 3, 300] {
            std::fs::write(T::PATH, vec![3; n]).ok();
            g(|| load_or_build_partial::<T>().map(|v| look(&v)).ok());
        }
    }
    pub fn all(_: &mut StdRng) {
        let _ = std::fs::remove_dir_all("mus-cache");
        one::<One>();
        one::<Few>();
        one::<Many>();
        one::<Liar>();
    }
}

fn random(rng: &mut StdRng) {
    for _ in 0..2 {
        let c: Option<Cube2> = g(|| rng.gen());
        g(|| look(&c));
        let c: Option<Cube3> = g(|| rng.gen());
        g(|| look(&c));
    }
    for _ in 0..3 {
        let mut c = wild_cube(rng);
        g(|| invariants::fix_edge_flip_parity(&mut c.edges));
        g(|| invariants::fix_corner_multiplicity(&mut c.corners));
        g(|| invariants::fix_swap_parity(&mut c));
        g(|| look(&c));
        let mut c = Arr::random(rng).cube3();
        g(|| invariants::fix_edge_flip_parity(&mut c.edges));
        g(|| invariants::fix_corner_multiplicity(&mut c.corners));
        g(|| invariants::fix_swap_parity(&mut c));
        g(|| look(&c));
    }
    for i in 0..8 {
        let mut c = Corner { position: unvec3(corner_home(i)), orientation_axis: ax(rng.gen_range(0..3)) };
        g(|| c.twist());
        g(|| (c.is_oriented(), c.orientation_index(), look(&c.faces())));
        g(|| look(&Colored::colors(&c, unvec3(corner_home(i)))));
        g(|| look(&c.coordinates()));
    }
    for i in 0..12 {
        let (n, s) = un_edge_coords(edge_home(i));
        let mut e = Edge::new(n, s, rng.gen());
        g(|| e.flip());
        g(|| look(&e.faces()));
        g(|| look(&Edge::position_from_faces(e.faces()).ok()));
        g(|| look(&Colored::colors(&e, (n, s))));
        g(|| look(&e.coordinates()));
        let (n, s) = un_edge_coords(edge_home(rng.gen_range(0..12)));
        g(|| min_moves_to_solve(&(n, s), &e));
    }
}

fn pictures(rng: &mut StdRng) {
    let c = Arr::random_solvable(rng).cube3();
    g(|| c.to_string());
    let c = wild_cube(rng);
    g(|| c.to_string());
    let mut s = Square::<3>::new(Color::new(face(2)));
    let mut t = Square::<5>::new(Color::new(face(1)));
    for _ in 0..6 {
        let mut x = || [0.0, 1.0, -1.0, 1.5, -1.49, 9.0, -9.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, -0.0][rng.gen_range(0..12)];
        let p = Vector3::new(x(), x(), x());
        for f in 0..6 {
            let f = face(f);
            g(|| s.at(&p, &f).map(look));
            g(|| s.at_mut(&p, &f).map(|c| *c = Color::new(f.clone())));
            g(|| t.at_mut(&p, &f).map(|c| *c = Color::new(f.clone())));
            g(|| t.at(&p, &f).map(look));
        }
    }
    let scheme = Colorscheme::<palette::Srgb>::default();
    for i in 0..6 {
        g(|| look(scheme.get(&face(i))));
    }
}

fn search(rng: &mut StdRng) {
    let w = random_word(rng, 2, 0);
    let mut c = Cube3::new_solved();
    w.iter().for_each(|m| c.apply(&m.axis_move()));
    let few = |c: &Cube3| -> Vec<(Cube3, AxisMove)> { w.iter().map(|m| m.axis_move().inverse()).map(|m| (c.clone().moved(&m), m)).collect() };
    let s = IDASearcher::new(|_: &Cube3| 0.0, few, 3);
    g(|| Searcher::<Cube3, AxisMove>::search(&s, &c, |c: &Cube3| c.is_solved()).map(|(a, _)| look(&a.moves)));
    g(|| c.successors().into_iter().map(|(_, m)| look(&m)).sum::<usize>());
    let d = wild_cube(rng);
    for f in 0..6 {
        let f = face(f);
        g(|| cross::get_cross_pieces(&f));
        g(|| cross::count_cross_pieces(&c, &f));
        g(|| cross::count_cross_pieces(&d, &f));
        g(|| cross::good_cross_heuristic(&d, &f));
        g(|| cross::worse_but_admissable_cross_heuristic(&d, &f));
    }
    let mut one = Cube3::new_solved();
    one.apply(&w[0].axis_move());
    g(|| cross::solve_cross_fast(&one, &face(1)).map(|(a, c)| (look(&a.moves), look(&c))));
    g(|| heuristics::manhattan::manhattan(&d));
    g(|| connect::<AxisMove, Cube3>(&Cube3::SOLVED, &one).map(|m| look(&m)));
    g(|| Alg::<AxisMove>::try_from_states(&[Cube3::new_solved(), one.clone(), c.clone()]).map(|a| look(&a.moves)).ok());
    g(|| Alg::<AxisMove>::try_from_states::<Cube3>(&[]).map(|a| look(&a.moves)).ok());
    g(|| Alg::<AxisMove>::try_from_states(&[c.clone()]).map(|a| look(&a.moves)).ok());
}

fn space(rng: &mut StdRng) {
    for i in 0..6 {
        let f = face(i);
        g(|| (look(&f), f.to_string(), f.index(), look(&f.opposite()), look(&f.coords())));
        for a in AXES {
            g(|| look(&f.clone().next_around(&a)));
            g(|| look(&f.clone().prev_around(&a)));
            g(|| look(&f.clone().rotated(&rotation(unax(a), 1))));
        }
        for j in 0..6 {
            g(|| look(&f.cross(&face(j))));
            if let Some(Ok(o)) = g(|| Orientation::try_from([f.clone(), face(j)])) {
                g(|| (look(&o.r_face()), look(&o.u_face())));
                g(|| look(&o.rotations().collect::<Vec<_>>()));
                let m = AxisMove::all()[rng.gen_range(0..18)].clone();
                g(|| {
                    let mut o = Orientable { base_cube: Cube3::SOLVED, orientation: o.clone() };
                    Movable::<AxisMove>::apply(&mut o, &m);
                    look(&o.base_cube)
                });
            }
            g(|| CenterEdge::try_from_faces(f.clone(), face(j)).map(|x| look(&x)).ok());
        }
    }
    for a in AXES {
        for b in AXES {
            g(|| (a.offset(&b), look(&a.get_handedness(&b).ok()), look(&Axis::other(&a, &b))));
        }
        g(|| (look(&a.next()), look(&a.prev()), look(&Axis::basis(&a)), look(&a.next_with_handedness(Direction::Negative))));
        let v = Vector3::new(1u8, 2, 3);
        g(|| v[unax(a)]);
        g(|| look(&barbarosa::generic::utils::slice_coords(v, a)));
        g(|| look(&a.map_on_slice(v, |v| nalgebra::Vector2::new(*v[1], *v[0]))));
    }
    for k in 1..4 {
        g(|| look(&rotate_vec2(&amt(k), &nalgebra::Vector2::new(Direction::Positive, Direction::Negative))));
    }
}

/// Everything that has shared or lazily made state, from several threads at once
fn threads(rng: &mut StdRng) {
    let seeds: Vec<u64> = (0..3).map(|_| rng.gen()).collect();
    let done: Vec<(u64, u64)> = std::thread::scope(|s| {
        let t: Vec<_> = seeds
            .iter()
            .map(|x| {
                s.spawn(move || {
                    let mut rng = StdRng::seed_from_u64(*x);
                    let c = Arr::random_solvable(&mut rng).cube3();
                    g(|| Alg::<ExtendedAxisMove>::parse("R U2 x").map(|a| look(&a.moves)).ok());
                    g(|| c.indices().corners);
                    g(|| Cube3::from_indices(c.indices()) == c);
                    g(|| barbarosa::cube_n::moves::perms::pll::T.len_of());
                    g(|| Cube3::new_solved().moved(&*barbarosa::cube_n::moves::perms::pll::T));
                    g(|| min_moves_to_solve(&c.edges.pieces()[1].position(), &c.edges.pieces()[2]));
                    g(|| c.to_string());
                    g(|| cache::get(&c));
                    g(|| rng.gen::<Cube3>());
                    g(|| Alg::<AxisMove>::random(2));
                    g(|| cross::get_cross_pieces(&face(3)));
                    g(|| Orientable::new(Cube5::SOLVED).moved(&extended(&mut rng, 5)));
                    (CALLS.with(|c| c.get()), PANICS.with(|c| c.get()))
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap_or((0, 0))).collect()
    });
    for (c, p) in done {
        CALLS.with(|x| x.set(x.get() + c));
        PANICS.with(|x| x.set(x.get() + p));
    }
}
trait LenOf {
    fn len_of(&self) -> usize;
}
impl LenOf for Alg<AxisMove> {
    fn len_of(&self) -> usize {
        self.moves.len()
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (section, seed, rounds) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u32>().unwrap());
    std::panic::set_hook(Box::new(|info| {
        // checks of the standard library and the compiler that end the program
        let text = info.to_string();
        if ["unsafe precondition", "an enum from an invalid value", "pointer dereference"].iter().any(|s| text.contains(s)) {
            eprintln!("UB CHECK: {text}");
        }
    }));
    let mut rng = StdRng::seed_from_u64(seed);
    let f: fn(&mut StdRng) = match section {
        "moves" => moves,
        "cubes" => cubes,
        "big-cubes" => big_cubes,
        "parser" => parser,
        "sets" => sets,
        "center-sets" => center_sets,
        "indices" => indices,
        "tables" => tables,
        #[cfg(barbarosa_verif)]
        "small-tables" => small::all,
        "random" => random,
        "pictures" => pictures,
        "search" => search,
        "space" => space,
        "threads" => threads,
        "nothing" => |_| (),
        // what the watchers must notice
        "bad-bounds" => |r| unsafe {
            let v: Vec<u8> = vec![1; 10 + r.gen_range(0..2)];
            println!("{}", *v.as_ptr().add(black_box(12)));
        },
        "bad-uninit" => |_| unsafe {
            let v: Box<[std::mem::MaybeUninit<u8>]> = Box::new_uninit_slice(16);
            if black_box(&v)[7].assume_init() == 3 {
                println!("three");
            }
        },
        "bad-race" => |_| {
            struct P(*mut u32);
            unsafe impl Send for P {}
            let x = Box::leak(Box::new(0u32)) as *mut u32;
            let p = [P(x), P(x)];
            let all_here = std::sync::Barrier::new(2);
            let b = &all_here;
            std::thread::scope(|s| {
                for p in p {
                    s.spawn(move || {
                        let p = p;
                        b.wait();
                        for _ in 0..if cfg!(miri) { 100 } else { 300_000 } {
                            unsafe { p.0.write_volatile(p.0.read_volatile().wrapping_add(1)) }
                        }
                    });
                }
            });
        },
        "bad-value" => |r| {
            let x: u8 = black_box(r.gen_range(7..9));
            let a: Axis = unsafe { std::mem::transmute(x) };
            println!("{:?}", black_box(a) == Axis::X);
        },
        _ => panic!("harness: no section {section}"),
    };
    let out = std::panic::catch_unwind(AssertUnwindSafe(|| (0..rounds).for_each(|_| f(&mut rng))));
    let (c, p) = (CALLS.with(|c| c.get()), PANICS.with(|c| c.get()));
    println!("\nobserved {section} {c} {p} {}", if out.is_ok() { "to the end" } else { "up to a panic outside of a call" });
}
