//! What the library's values mean on a physical cube (documented conventions only).
use crate::phys::*;
use barbarosa::cube_n::moves::{rotation::AxisRotation, Amount};
use barbarosa::cube_n::pieces::center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing};
use barbarosa::cube_n::pieces::{corner::CornerSet, edge::EdgeSet};
use barbarosa::cube_n::space::{Axis, Direction, Face};
use barbarosa::cube_n::{AxisMove, Corner, Cube2, Cube3, Edge, WideAxisMove, Wing};
use barbarosa::generic::piece::PieceSetDescriptor;
use nalgebra::{Vector2, Vector3};
use rand::Rng;

pub const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];

pub fn ax(a: usize) -> Axis {
    AXES[a % 3]
}
pub fn unax(a: Axis) -> usize {
    match a {
        Axis::X => 0,
        Axis::Y => 1,
        Axis::Z => 2,
    }
}
pub fn dir(d: i32) -> Direction {
    if d > 0 {
        Direction::Positive
    } else {
        Direction::Negative
    }
}
pub fn undir(d: Direction) -> i32 {
    match d {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}
pub fn amt(k: i32) -> Amount {
    match k.rem_euclid(4) {
        1 => Amount::Single,
        2 => Amount::Double,
        3 => Amount::Inverse,
        _ => panic!("harness: no amount for 0"),
    }
}
pub fn unamt(a: Amount) -> i32 {
    match a {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}
/// faces in the order R U F L D B
pub fn face(i: usize) -> Face {
    Face { axis: ax(i % 3), direction: dir(if i < 3 { 1 } else { -1 }) }
}
pub fn mkface(a: usize, d: i32) -> Face {
    Face { axis: ax(a), direction: dir(d) }
}
pub fn unface(f: &Face) -> (usize, i32) {
    (unax(f.axis), undir(f.direction))
}
pub fn face_idx(f: &Face) -> usize {
    unax(f.axis) + if undir(f.direction) > 0 { 0 } else { 3 }
}
pub fn face_name(i: usize) -> &'static str {
    ["R", "U", "F", "L", "D", "B"][i]
}

impl Mv {
    pub fn axis_move(&self) -> AxisMove {
        AxisMove { face: mkface(self.a, self.d), amount: amt(self.k) }
    }
    pub fn wide<const N: u32>(&self) -> WideAxisMove<N> {
        match WideAxisMove::<N>::new(mkface(self.a, self.d), amt(self.k), self.depth) {
            Ok(m) => m,
            Err(e) => std::panic::panic_any(format!("VIOL: creating a layer turn of allowed depth {} of {N} fails: {e}", self.depth)),
        }
    }
    pub fn from_axis_move(m: &AxisMove) -> Mv {
        let (a, d) = unface(&m.face);
        Mv { a, d, k: unamt(m.amount), depth: 0 }
    }
    pub fn random(rng: &mut impl Rng, max_depth: u32) -> Mv {
        Mv::from_face(rng.gen_range(0..6), rng.gen_range(1..4), rng.gen_range(0..=max_depth))
    }
}

pub fn rotation(a: usize, k: i32) -> AxisRotation {
    AxisRotation { axis: ax(a), amount: amt(k) }
}

pub fn random_word(rng: &mut impl Rng, len: usize, max_depth: u32) -> Vec<Mv> {
    (0..len).map(|_| Mv::random(rng, max_depth)).collect()
}

pub fn all_moves(max_depth: u32) -> Vec<Mv> {
    let mut v = vec![];
    for depth in 0..=max_depth {
        for f in 0..6 {
            for k in 1..4 {
                v.push(Mv::from_face(f, k, depth));
            }
        }
    }
    v
}

// ---------- corners and edges ----------

pub fn vec3(p: &Vector3<Direction>) -> [i32; 3] {
    [undir(p.x), undir(p.y), undir(p.z)]
}
pub fn unvec3(p: [i32; 3]) -> Vector3<Direction> {
    Vector3::new(dir(p[0]), dir(p[1]), dir(p[2]))
}
fn scale(p: [i32; 3], m: i32) -> [i32; 3] {
    p.map(|x| x * m)
}
fn sgn(p: [i32; 3]) -> i32 {
    p[0] * p[1] * p[2]
}

/// The three stickers (as axes) of a corner in rotational order, starting from `start`
pub fn corner_cycle(p: [i32; 3], start: usize) -> [usize; 3] {
    if sgn(p) > 0 {
        [start, (start + 1) % 3, (start + 2) % 3]
    } else {
        [start, (start + 2) % 3, (start + 1) % 3]
    }
}

/// Slots (home slot, current slot) of the three stickers of a corner
pub fn corner_stickers(n: usize, home: [i32; 3], now: [i32; 3], orientation: usize) -> [(Slot, Slot); 3] {
    let m = n as i32 - 1;
    let (hc, nc) = (corner_cycle(home, 1), corner_cycle(now, orientation));
    [0, 1, 2].map(|i| {
        (
            Slot { p: scale(home, m), a: hc[i], d: home[hc[i]] },
            Slot { p: scale(now, m), a: nc[i], d: now[nc[i]] },
        )
    })
}

/// The coordinates (-1, 0, 1) of an edge position
pub fn edge_coords(normal: Axis, slice: &Vector2<Direction>) -> [i32; 3] {
    let a = unax(normal);
    let mut p = [0; 3];
    p[(a + 1) % 3] = undir(slice.x);
    p[(a + 2) % 3] = undir(slice.y);
    p
}
pub fn un_edge_coords(p: [i32; 3]) -> (Axis, Vector2<Direction>) {
    let a = (0..3).find(|i| p[*i] == 0).unwrap();
    (ax(a), Vector2::new(dir(p[(a + 1) % 3]), dir(p[(a + 2) % 3])))
}
/// (axis of the orientation sticker, axis of the other) at an edge place: U/D first, else F/B
pub fn edge_axes(p: [i32; 3]) -> [usize; 2] {
    if p[1] != 0 {
        if p[2] != 0 {
            [1, 2]
        } else {
            [1, 0]
        }
    } else {
        [2, 0]
    }
}
pub fn edge_stickers(n: usize, home: [i32; 3], now: [i32; 3], oriented: bool) -> [(Slot, Slot); 2] {
    let m = n as i32 - 1;
    let h = edge_axes(home);
    let mut c = edge_axes(now);
    if !oriented {
        c.swap(0, 1);
    }
    [0, 1].map(|i| {
        (
            Slot { p: scale(home, m), a: h[i], d: home[h[i]] },
            Slot { p: scale(now, m), a: c[i], d: now[c[i]] },
        )
    })
}

/// Home position of corner number `i`
pub fn corner_home(i: usize) -> [i32; 3] {
    vec3(&<Corner as PieceSetDescriptor<8>>::REFERENCE_POSITIONS[i])
}
pub fn edge_home(i: usize) -> [i32; 3] {
    let (a, s) = &<Edge as PieceSetDescriptor<12>>::REFERENCE_POSITIONS[i];
    edge_coords(*a, s)
}

/// Builds the sticker state that corners (and edges) describe. `None` if it isn't an arrangement.
pub fn phys_of(n: usize, corners: &[Corner; 8], edges: Option<&[Edge; 12]>) -> Option<Phys> {
    let g = Geom::get(n);
    let mut st = vec![u16::MAX; g.slots.len()];
    let mut set = |h: Slot, c: Slot| -> Option<()> {
        let (h, c) = (g.index[&h], g.index[&c]);
        if st[c as usize] != u16::MAX {
            return None;
        }
        st[c as usize] = h;
        Some(())
    };
    for (i, c) in corners.iter().enumerate() {
        for (h, s) in corner_stickers(n, corner_home(i), vec3(&c.position), unax(c.orientation_axis)) {
            set(h, s)?;
        }
    }
    if let Some(edges) = edges {
        for (i, e) in edges.iter().enumerate() {
            for (h, s) in edge_stickers(n, edge_home(i), edge_coords(e.normal_axis, &e.slice_position), e.oriented) {
                set(h, s)?;
            }
        }
    }
    for (i, s) in st.iter_mut().enumerate() {
        if *s == u16::MAX {
            *s = i as u16;
        }
    }
    Some(Phys { g, st })
}

pub fn phys3(c: &Cube3) -> Option<Phys> {
    phys_of(3, c.corners.pieces(), Some(c.edges.pieces()))
}
pub fn phys2(c: &Cube2) -> Option<Phys> {
    phys_of(2, c.corners.pieces(), None)
}

// ---------- arrangements ----------

/// An arrangement of corners and edges, independent of the library
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Arr {
    /// place of corner i (an index of home places), twist (axis of its U/D sticker)
    pub cp: [usize; 8],
    pub co: [usize; 8],
    pub ep: [usize; 12],
    pub eo: [bool; 12],
}

pub fn shuffle<T>(v: &mut [T], rng: &mut impl Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.gen_range(0..=i));
    }
}

pub fn perm_parity(p: &[usize]) -> usize {
    let mut seen = vec![false; p.len()];
    let mut par = 0;
    for i in 0..p.len() {
        let mut j = i;
        let mut c = 0;
        while !seen[j] {
            seen[j] = true;
            j = p[j];
            c += 1;
        }
        if c > 0 {
            par += c - 1;
        }
    }
    par % 2
}

impl Arr {
    pub fn solved() -> Arr {
        let mut cp = [0; 8];
        let mut ep = [0; 12];
        (0..8).for_each(|i| cp[i] = i);
        (0..12).for_each(|i| ep[i] = i);
        Arr { cp, co: [1; 8], ep, eo: [true; 12] }
    }
    pub fn random(rng: &mut impl Rng) -> Arr {
        let mut a = Arr::solved();
        shuffle(&mut a.cp, rng);
        shuffle(&mut a.ep, rng);
        a.co.iter_mut().for_each(|o| *o = rng.gen_range(0..3));
        a.eo.iter_mut().for_each(|o| *o = rng.gen());
        a
    }
    pub fn random_solvable(rng: &mut impl Rng) -> Arr {
        let mut a = Arr::random(rng);
        if perm_parity(&a.cp) != perm_parity(&a.ep) {
            a.ep.swap(0, 1);
        }
        if a.flips() % 2 == 1 {
            let i = rng.gen_range(0..12);
            a.eo[i] = !a.eo[i];
        }
        let i = rng.gen_range(0..8);
        while a.twist() != 0 {
            a.co[i] = (a.co[i] + 1) % 3;
        }
        a
    }
    pub fn flips(&self) -> usize {
        self.eo.iter().filter(|x| !**x).count()
    }
    /// Sum of twists modulo 3: for each corner how many rotational steps its U/D sticker is from the U/D axis
    pub fn twist(&self) -> usize {
        (0..8).map(|i| twist_of(corner_home(self.cp[i]), self.co[i])).sum::<usize>() % 3
    }
    pub fn solvable(&self) -> bool {
        self.flips() % 2 == 0 && self.twist() == 0 && perm_parity(&self.cp) == perm_parity(&self.ep)
    }
    pub fn corners(&self) -> [Corner; 8] {
        std::array::from_fn(|i| Corner { position: unvec3(corner_home(self.cp[i])), orientation_axis: ax(self.co[i]) })
    }
    pub fn edges(&self) -> [Edge; 12] {
        std::array::from_fn(|i| {
            let (normal_axis, slice_position) = un_edge_coords(edge_home(self.ep[i]));
            Edge { normal_axis, slice_position, oriented: self.eo[i] }
        })
    }
    pub fn cube3(&self) -> Cube3 {
        Cube3 { edges: eset(self.edges()), corners: cset(self.corners()) }
    }
    pub fn cube2(&self) -> Cube2 {
        Cube2 { corners: cset(self.corners()) }
    }
    pub fn phys(&self, n: usize) -> Phys {
        let e = self.edges();
        phys_of(n, &self.corners(), if n == 2 { None } else { Some(&e) }).expect("harness: arrangement")
    }
    /// The arrangement a library cube is in
    pub fn of(c: &[Corner; 8], e: &[Edge; 12]) -> Option<Arr> {
        let mut a = Arr::solved();
        for i in 0..8 {
            let p = vec3(&c[i].position);
            a.cp[i] = (0..8).find(|j| corner_home(*j) == p)?;
            a.co[i] = unax(c[i].orientation_axis);
        }
        for i in 0..12 {
            let p = edge_coords(e[i].normal_axis, &e[i].slice_position);
            a.ep[i] = (0..12).find(|j| edge_home(*j) == p)?;
            a.eo[i] = e[i].oriented;
        }
        let (mut c, mut e) = (a.cp, a.ep);
        c.sort();
        e.sort();
        if c.iter().enumerate().any(|(i, x)| i != *x) || e.iter().enumerate().any(|(i, x)| i != *x) {
            return None;
        }
        Some(a)
    }
}

/// Rotational steps from the U/D axis to axis `o` at corner place `p`
pub fn twist_of(p: [i32; 3], o: usize) -> usize {
    corner_cycle(p, 1).iter().position(|x| *x == o).unwrap()
}

pub fn cset(c: [Corner; 8]) -> CornerSet {
    match CornerSet::new(c) {
        Ok(s) => s,
        Err(e) => std::panic::panic_any(format!("VIOL: a set of distinct corners is rejected: {e}")),
    }
}
pub fn eset(e: [Edge; 12]) -> EdgeSet {
    match EdgeSet::new(e) {
        Ok(s) => s,
        Err(e) => std::panic::panic_any(format!("VIOL: a set of distinct edges is rejected: {e}")),
    }
}

// ---------- pieces of big cubes: the cubie they are at ----------

/// A piece of a big cube that can say on which cubie it is, given its depths and the cube size
pub trait Located {
    fn cubie(&self, n: usize, nd: u32, td: u32) -> [i32; 3];
    /// an axis on which the cubie has a sticker
    fn sticker_axis(&self) -> usize;
}

impl Located for Wing {
    fn cubie(&self, n: usize, nd: u32, _td: u32) -> [i32; 3] {
        let m = n as i32 - 1;
        let mut p = scale(edge_coords(self.normal_axis(), &self.slice_position()), m);
        p[unax(self.normal_axis())] = undir(self.normal_direction()) * (m - 2 * nd as i32);
        p
    }
    fn sticker_axis(&self) -> usize {
        (unax(self.normal_axis()) + 1) % 3
    }
}

impl Located for CenterEdge {
    fn cubie(&self, n: usize, nd: u32, _td: u32) -> [i32; 3] {
        let m = n as i32 - 1;
        let mut p = [0; 3];
        let (a, d) = unface(&self.main_face);
        p[a] = d * m;
        let (b, e) = unface(&self.side_face());
        p[b] = e * (m - 2 * nd as i32);
        p
    }
    fn sticker_axis(&self) -> usize {
        unax(self.main_face.axis)
    }
}

impl Located for CenterWing {
    fn cubie(&self, n: usize, nd: u32, td: u32) -> [i32; 3] {
        let m = n as i32 - 1;
        let mut p = [0; 3];
        let (a, d) = unface(self.main_face());
        p[a] = d * m;
        let (b, e) = unface(&self.side_face());
        p[b] = e * (m - 2 * nd as i32);
        let c = 3 - a - b;
        p[c] = undir(self.normal_direction()) * (m - 2 * td as i32);
        p
    }
    fn sticker_axis(&self) -> usize {
        unax(self.main_face().axis)
    }
}

impl Located for CenterCorner {
    fn cubie(&self, n: usize, nd: u32, _td: u32) -> [i32; 3] {
        // Its fields are private; which turns take it along says where it is.
        use barbarosa::cube_n::moves::wide::DepthPiece;
        let m = n as i32 - 1;
        let mut p = [0; 3];
        let taken = |f: usize, depth: u32, own: u32| {
            let w = WideAxisMove::<9>::new(face(f), Amount::Single, depth).unwrap_or_else(|_| panic!("depth {depth} of 9"));
            self.is_in_wide_move::<9>(own, 0, &w)
        };
        for f in 0..6 {
            let (a, d) = (f % 3, if f < 3 { 1 } else { -1 });
            if taken(f, 0, 5) {
                p[a] = d * m; // the outer turn takes it however deep it is: its own face
            } else if taken(f, 5, 5) {
                p[a] = d * (m - 2 * nd as i32);
            }
        }
        p
    }
    fn sticker_axis(&self) -> usize {
        for f in 0..6 {
            use barbarosa::cube_n::moves::wide::DepthPiece;
            let w = WideAxisMove::<9>::new(face(f), Amount::Single, 0).unwrap();
            if self.is_in_wide_move::<9>(5, 0, &w) {
                return f % 3;
            }
        }
        0
    }
}
