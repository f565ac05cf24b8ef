//! C14: indexing of corners and edge halves is one-to-one and reversible.
use super::*;
use crate::{ck, run};
use barbarosa::cube3::mus::deindex::Deindexable;
use barbarosa::cube3::mus::index::{
    factorial, orientation_permutation_index, position_disposition_index, CubeIndices, Indexable, OrientationIndexable, PositionIndexable,
};
use barbarosa::cube_n::{Corner, Edge};
use barbarosa::generic::piece::PieceSetDescriptor;
use std::sync::atomic::{AtomicU64, Ordering};

pub const CORNERS: usize = 40320 * 2187;
pub const HALF_EDGES: usize = 665280 * 64;

/// A set of numbers that many threads add to
pub struct Bits(Vec<AtomicU64>, usize);

impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits((0..n.div_ceil(64)).map(|_| AtomicU64::new(0)).collect(), n)
    }
    /// false if it is too big or was there already
    pub fn add(&self, i: usize) -> bool {
        if i >= self.1 {
            return false;
        }
        let b = 1u64 << (i % 64);
        self.0[i / 64].fetch_or(b, Ordering::Relaxed) & b == 0
    }
    pub fn count(&self) -> u64 {
        self.0.iter().map(|x| x.load(Ordering::Relaxed).count_ones() as u64).sum()
    }
}

/// The `r`-th arrangement (own order) of `k` of the numbers 0..n
pub fn nth_arrangement(n: usize, k: usize, mut r: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..k)
        .map(|_| {
            let i = r % left.len();
            r /= left.len();
            left.swap_remove(i)
        })
        .collect()
}

/// Whether these are 8 corners at different places whose twists cancel out
fn valid_corners(c: &[Corner; 8]) -> bool {
    let mut seen = 0u32;
    let mut twist = 0;
    for x in c {
        let p = vec3(&x.position);
        let i = (p[0] > 0) as u32 | ((p[1] > 0) as u32) << 1 | ((p[2] > 0) as u32) << 2;
        seen |= 1 << i;
        twist += twist_of(p, unax(x.orientation_axis));
    }
    seen == 255 && twist % 3 == 0
}

fn valid_half(e: &[Edge; 6]) -> bool {
    let mut seen = 0u32;
    for x in e {
        let p = edge_coords(x.normal_axis, &x.slice_position);
        let i = (p[0] + 1) + 3 * (p[1] + 1) + 9 * (p[2] + 1);
        seen |= 1 << i;
    }
    seen.count_ones() == 6
}

/// Every index gives a valid arrangement, and that arrangement has this index. As there are exactly as many valid
/// arrangements as indices, each arrangement then has exactly one index and the indices have no gaps.
fn all<T: Deindexable + std::fmt::Debug>(ctx: &mut Ctx, name: &str, size: usize, stride: usize, valid: impl Fn(&T) -> bool + Sync) {
    ck!(ctx, T::TOTAL_SET_SIZE == size, "the number of {name} arrangements is {} instead of {size}", T::TOTAL_SET_SIZE);
    let parts = 512;
    let off = ctx.rng.gen_range(0..stride);
    let r = parallel(parts, |p| {
        let mut n = 0u64;
        let (a, b) = (size * p / parts, size * (p + 1) / parts);
        let mut i = a + (off + stride - a % stride) % stride;
        while i < b {
            let x = T::from_index(i);
            if !valid(&x) {
                return Err(format!("the {name} arrangement with index {i} is not a valid one: {x:?}"));
            }
            let back = x.index();
            if back != i {
                return Err(format!("the {name} arrangement made from the index {i} has the index {back}: {x:?}"));
            }
            n += 1;
            i += stride;
        }
        Ok(n)
    });
    match r {
        Ok(v) => {
            let n = v.iter().sum();
            ctx.eval_many(n);
            ctx.metric(&format!("{name} indices turned into an arrangement and back"), n);
            ctx.exhaustive &= stride == 1;
        }
        Err(e) => ctx.fail(format!("{name}: {e}")),
    }
}

/// All arrangements of one half of the edges, as seen through the indices of a whole cube
fn halves(ctx: &mut Ctx, half: usize, stride: usize) {
    let bits = Bits::new(HALF_EDGES);
    let parts = 512;
    let off = ctx.rng.gen_range(0..stride);
    let r = parallel(parts, |p| {
        let mut n = 0u64;
        let (a, b) = (665280 * p / parts, 665280 * (p + 1) / parts);
        let mut r = a + (off + stride - a % stride) % stride;
        while r < b {
            let here = nth_arrangement(12, 6, r);
            let rest: Vec<usize> = (0..12).filter(|x| !here.contains(x)).collect();
            for o in 0..64usize {
                let mut arr = Arr::solved();
                for i in 0..6 {
                    arr.ep[half * 6 + i] = here[i];
                    arr.eo[half * 6 + i] = o >> i & 1 == 1;
                    arr.ep[6 - half * 6 + i] = rest[i];
                }
                // the other half in some order and orientation
                let m = (r + o) % 6;
                arr.ep[6 - half * 6..12 - half * 6].rotate_left(m);
                arr.eo[6 - half * 6 + m] = o & 4 == 0;
                let c = arr.cube3();
                let i = c.indices();
                if !bits.add(i.edges[half]) {
                    return Err(format!(
                        "the index {} of the arrangement {:?} with orientations {:?} is too big or that of another arrangement",
                        i.edges[half],
                        &arr.ep[half * 6..half * 6 + 6],
                        &arr.eo[half * 6..half * 6 + 6]
                    ));
                }
                if (r + o) % 61 == 0 {
                    let back = Cube3::from_indices(i);
                    if back != c {
                        return Err(format!("the cube made from the indices of {c:?} is {back:?}"));
                    }
                }
                n += 1;
            }
            r += stride;
        }
        Ok(n)
    });
    match r {
        Ok(v) => {
            let n: u64 = v.iter().sum();
            ck!(ctx, bits.count() == n, "half {half} of the edges: {n} arrangements have {} indices", bits.count());
            if stride == 1 {
                ck!(ctx, n as usize == HALF_EDGES, "harness: {n} arrangements");
            }
            ctx.exhaustive &= stride == 1;
            ctx.eval_many(n);
            ctx.metric(&format!("arrangements of half {} of the edges given an index of their own", half + 1), n);
        }
        Err(e) => ctx.fail(format!("half {half} of the edges: {e}")),
    }
}

fn cubes(ctx: &mut Ctx) {
    let n = ctx.amount(60_000, 2_000_000);
    for i in 0..n {
        let a = if i == 0 { Arr::solved() } else { Arr::random_solvable(&mut ctx.rng) };
        let c = a.cube3();
        let x = run!(ctx, c.indices(), "indices of {a:?}");
        ck!(ctx, x.corners < CORNERS && x.edges[0] < HALF_EDGES && x.edges[1] < HALF_EDGES, "indices of {a:?} out of range: {} {:?}", x.corners, x.edges);
        let y = CubeIndices { corners: x.corners, edges: x.edges };
        let back = run!(ctx, Cube3::from_indices(y), "cube from the indices {} {:?}", x.corners, x.edges);
        ck!(ctx, back == c, "the cube made from the indices {} {:?} of {a:?} is {back:?}", x.corners, x.edges);
        // the parts, on their own
        let own = run!(ctx, c.corners.pieces().index(), "index of the corners of {a:?}");
        ck!(ctx, own == x.corners, "the corners of {a:?} have the index {own}, and {} in the cube", x.corners);
        let half: [Edge; 6] = c.edges.pieces()[0..6].to_vec().try_into().unwrap();
        let own = run!(ctx, half.index(), "index of the edges of {a:?}");
        ck!(ctx, own == x.edges[0], "the first edges of {a:?} have the index {own}, and {} in the cube", x.edges[0]);
        ctx.eval(hash_of(&a));
    }
    let s = run!(ctx, Cube3::SOLVED.indices(), "indices of the solved cube");
    ck!(ctx, s.corners == 0 && s.edges == [0, 0], "the indices of the solved cube are {} {:?} (tables start from index 0)", s.corners, s.edges);
}

/// The helpers, on shorter lists of pieces
fn lists(ctx: &mut Ctx) {
    for n in 0..=20usize {
        ck!(ctx, factorial(n) == (1..=n).product::<usize>(), "factorial({n}) is {}", factorial(n));
    }
    fn corners<const N: usize>(ctx: &mut Ctx) {
        let total: usize = (9 - N..=8).product();
        let bits = Bits::new(total);
        for r in 0..total {
            let a = nth_arrangement(8, N, r);
            let c: [Corner; N] = std::array::from_fn(|i| Corner::SOLVED[a[i]].clone());
            let i = run!(ctx, position_disposition_index::<Corner, N, 8>(&c), "place index of {c:?}");
            ck!(ctx, bits.add(i), "the place index {i} of {c:?} is too big or used twice");
            ctx.eval_many(1);
        }
        let total = 3usize.pow(N as u32);
        let bits = Bits::new(total);
        for r in 0..total {
            let c: [Corner; N] = std::array::from_fn(|i| Corner::new(Corner::SOLVED[7 - i].position, ax(r / 3usize.pow(i as u32) % 3)));
            let i = run!(ctx, orientation_permutation_index(&c), "orientation index of {c:?}");
            ck!(ctx, bits.add(i), "the orientation index {i} of {c:?} is too big or used twice");
            ctx.eval_many(1);
        }
    }
    fn edges<const N: usize>(ctx: &mut Ctx) {
        let total: usize = (13 - N..=12).product();
        let bits = Bits::new(total);
        for r in 0..total {
            let a = nth_arrangement(12, N, r);
            let c: [Edge; N] = std::array::from_fn(|i| Edge::SOLVED[a[i]].clone());
            let i = run!(ctx, position_disposition_index::<Edge, N, 12>(&c), "place index of {c:?}");
            ck!(ctx, bits.add(i), "the place index {i} of {c:?} is too big or used twice");
            ctx.eval_many(1);
        }
        let total = 1usize << N;
        let bits = Bits::new(total);
        for r in 0..total {
            let c: [Edge; N] = std::array::from_fn(|i| {
                let e = Edge::SOLVED[i].clone();
                if r >> i & 1 == 1 {
                    e.flipped()
                } else {
                    e
                }
            });
            let i = run!(ctx, orientation_permutation_index(&c), "orientation index of {c:?}");
            ck!(ctx, bits.add(i), "the orientation index {i} of {c:?} is too big or used twice");
            ctx.eval_many(1);
        }
    }
    corners::<1>(ctx);
    corners::<2>(ctx);
    corners::<3>(ctx);
    corners::<5>(ctx);
    corners::<7>(ctx);
    corners::<8>(ctx);
    edges::<1>(ctx);
    edges::<2>(ctx);
    edges::<3>(ctx);
    edges::<4>(ctx);
    edges::<5>(ctx);
    // single pieces
    let bits = Bits::new(24);
    for p in 0..8 {
        for o in 0..3 {
            let c = Corner::new(unvec3(corner_home(p)), ax(o));
            let i = run!(ctx, c.index(), "index of {c:?}");
            ck!(ctx, bits.add(i), "the index {i} of {c:?} is too big or used twice");
            ck!(ctx, PositionIndexable::position_index(&c) < 8 && OrientationIndexable::orientation_index(&c) < 3, "place or orientation index of {c:?} out of range");
        }
    }
    let bits = Bits::new(24);
    for p in 0..12 {
        for o in [true, false] {
            let (n, s) = un_edge_coords(edge_home(p));
            let e = Edge::new(n, s, o);
            let i = run!(ctx, e.index(), "index of {e:?}");
            ck!(ctx, bits.add(i), "the index {i} of {e:?} is too big or used twice");
        }
    }
    ctx.eval_many(48);
}

pub fn check(ctx: &mut Ctx) {
    ctx.exhaustive = true;
    ctx.rule = "every index is turned into an arrangement (which must be valid) and back; every arrangement of each half of \
                the edges gets its own index through the indices of a cube; random solvable cubes survive the trip"
        .into();
    ctx.assumptions.push("as many indices as valid arrangements and a left inverse make a bijection".into());
    // coprime to 12, 11, 10, 9 and 8, so that all first pieces are seen
    let stride = ctx.amount(7, 1) as usize;
    lists(ctx);
    cubes(ctx);
    all::<[Edge; 6]>(ctx, "edge", HALF_EDGES, 1, valid_half);
    all::<[Corner; 8]>(ctx, "corner", CORNERS, 1, valid_corners);
    halves(ctx, 0, stride);
    halves(ctx, 1, stride);
    ctx.sample(|| "corner index 12345678 -> arrangement -> 12345678".into());
}
