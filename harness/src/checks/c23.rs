//! C23: piece sets detect duplicates and look pieces up correctly.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::center::wing::CenterWing;
use barbarosa::cube_n::center::{corner::CenterCorner, edge::CenterEdge};
use barbarosa::cube_n::moves::wide::{DepthPiece, DepthPieceSet};
use barbarosa::cube_n::{Corner, Edge, Wing};
use barbarosa::generic::piece::PieceSetDescriptor;
use barbarosa::generic::{Piece, PieceSet};
use rand::{RngCore, SeedableRng};
use std::collections::HashMap;
use std::fmt::Debug;

/// All pieces of a kind, each with a name for its place that does not come from the library
trait Kind<const N: usize>: PieceSetDescriptor<N> + Debug + PartialEq + Clone {
    const NAME: &'static str;
    fn all() -> Vec<(Self, String)>;
}

impl Kind<8> for Corner {
    const NAME: &'static str = "corners";
    fn all() -> Vec<(Self, String)> {
        (0..24).map(|i| (Corner { position: unvec3(corner_home(i / 3)), orientation_axis: ax(i % 3) }, format!("{:?}", corner_home(i / 3)))).collect()
    }
}
impl Kind<12> for Edge {
    const NAME: &'static str = "edges";
    fn all() -> Vec<(Self, String)> {
        (0..24)
            .map(|i| {
                let (n, s) = un_edge_coords(edge_home(i / 2));
                (Edge::new(n, s, i % 2 == 0), format!("{:?}", edge_home(i / 2)))
            })
            .collect()
    }
}
fn located<P: PieceSetDescriptor<N> + Located, const N: usize>() -> Vec<(P, String)> {
    P::SOLVED.iter().map(|p| (p.clone(), format!("{:?} {}", p.cubie(7, 1, 2), p.sticker_axis()))).collect()
}
macro_rules! kinds {
    ($($t:ty, $n:literal, $name:literal);*) => {$(
        impl Kind<$n> for $t {
            const NAME: &'static str = $name;
            fn all() -> Vec<(Self, String)> {
                located::<$t, $n>()
            }
        }
    )*};
}
kinds!(CenterEdge, 24, "center edges"; CenterWing, 48, "center wings"; CenterCorner, 24, "center corners");
impl Kind<24> for Wing {
    const NAME: &'static str = "wings";
    fn all() -> Vec<(Self, String)> {
        // a wing's axis with a sticker is not part of its place
        Wing::SOLVED.iter().map(|p| (p.clone(), format!("{:?}", p.cubie(7, 1, 2)))).collect()
    }
}

/// A made up piece: a place of three, and a mark that is not part of the place
#[derive(Debug, Clone, PartialEq)]
struct Toy(u8, u8);
impl Piece for Toy {
    type Position = u8;
    fn position(&self) -> u8 {
        self.0
    }
    fn is_solved(&self, original_pos: &u8) -> bool {
        self.0 == *original_pos && self.1 == 0
    }
}
impl PieceSetDescriptor<3> for Toy {
    const SOLVED: [Toy; 3] = [Toy(7, 0), Toy(3, 0), Toy(5, 0)];
    const REFERENCE_POSITIONS: [u8; 3] = [7, 3, 5];
}
impl Kind<3> for Toy {
    const NAME: &'static str = "made up pieces";
    fn all() -> Vec<(Self, String)> {
        (0..12).map(|i| (Toy([7, 3, 5][i / 4], i as u8 % 4), format!("{}", [7, 3, 5][i / 4]))).collect()
    }
}

/// Poor generators to shuffle with
struct Odd(u64, u64);
impl RngCore for Odd {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        self.0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|b| *b = self.next_u64() as u8);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A piece, the name of its place, and how an error would show the place and the piece
type Named<P> = (P, String, String, String);
fn named<P: Kind<N>, const N: usize>() -> Vec<Named<P>> {
    P::all()
        .into_iter()
        .map(|(p, s)| {
            let (a, b) = (format!("{:?}", p.position()), format!("{p:?}"));
            (p, s, a, b)
        })
        .collect()
}

/// One set, from indices into all pieces
fn made<P: Kind<N>, const N: usize>(ctx: &mut Ctx, all: &[Named<P>], ix: &[usize]) -> Option<PieceSet<P, N>> {
    let name = P::NAME;
    let pieces: [P; N] = std::array::from_fn(|i| all[ix[i]].0.clone());
    let mut count: HashMap<&str, usize> = HashMap::new();
    ix.iter().for_each(|i| *count.entry(&all[*i].1).or_default() += 1);
    let valid = count.len() == N;
    ctx.eval(hash_of(&(name, ix)));
    let judge = |ctx: &mut Ctx, e: Option<String>, how: &str| match (e, valid) {
        (None, true) => ctx.metric(&format!("valid sets of {name} accepted"), 1),
        (Some(e), false) => {
            let dup = ix.iter().any(|i| count[all[*i].1.as_str()] > 1 && (e.contains(&all[*i].2) || e.contains(&all[*i].3)));
            let single = ix.iter().any(|i| count[all[*i].1.as_str()] == 1 && e.contains(&format!("({})", all[*i].2)));
            ck!(ctx, dup && !single, "{how} {name}: the error {e:?} names no real duplicate of {pieces:?}");
            if e.contains("Duplicate piece") {
                let real = (0..N).any(|i| (0..i).any(|j| pieces[i] == pieces[j] && e.contains(&format!("{:?}", pieces[i]))));
                ck!(ctx, real, "{how} {name}: the error {e:?} names a duplicate piece, there is none in {pieces:?}");
            }
            ctx.metric(&format!("sets of {name} with duplicates refused"), 1);
        }
        (Some(e), true) => ctx.fail(format!("{how} {name}: {pieces:?} are all at different places, refused with {e:?}")),
        (None, false) => ctx.fail(format!("{how} {name}: {pieces:?} accepted")),
    };
    let r = run!(ctx, PieceSet::<P, N>::new(pieces.clone()).map_err(|e| format!("{e}")), "new set of {name}");
    let e = r.as_ref().err().cloned();
    judge(ctx, e, "creating a set of");
    // the same by changing a valid set
    let mut s = PieceSet::<P, N>::SOLVED;
    run!(ctx, s.iter_mut_unchecked().zip(pieces.iter()).for_each(|(a, b)| *a = b.clone()), "changing a set of {name}");
    let e = run!(ctx, s.validate().map(|e| format!("{e}")), "validate a set of {name}");
    judge(ctx, e, "validating");
    ck!(ctx, s.pieces() == &pieces, "{name}: a set changed to {pieces:?} has {:?}", s.pieces());
    if let Ok(r) = &r {
        ck!(ctx, r.pieces() == &pieces, "{name}: a set of {pieces:?} has {:?}", r.pieces());
        ck!(ctx, *r == s, "{name}: two sets of {pieces:?} are not equal");
    }
    r.ok()
}

fn lookups<P: Kind<N>, const N: usize>(ctx: &mut Ctx, all: &[Named<P>], ix: &[usize], s: &PieceSet<P, N>) {
    let name = P::NAME;
    let pieces: Vec<P> = ix.iter().map(|i| all[*i].0.clone()).collect();
    let homes = P::REFERENCE_POSITIONS;
    let home_names: Vec<&str> = (0..N).map(|i| all.iter().find(|x| x.0 == P::SOLVED[i]).map_or("?", |x| &x.1)).collect();
    for i in 0..N {
        let got = run!(ctx, s.piece_originally_at(&homes[i]).clone(), "piece_originally_at {:?}", homes[i]);
        ck!(ctx, got == pieces[i], "{name} {pieces:?}: the one that started at {:?} is {:?}, found {got:?}", homes[i], pieces[i]);
        // who is now at the place of piece i
        let at = pieces[i].position();
        let got = run!(ctx, s.original_position_of_piece_at(&at), "original_position_of_piece_at {at:?}");
        ck!(ctx, got == homes[i], "{name} {pieces:?}: the one at {at:?} started at {:?}, found {got:?}", homes[i]);
        // every home is taken by somebody
        if let Some(j) = (0..N).find(|j| all[ix[*j]].1 == home_names[i]) {
            let got = run!(ctx, s.original_position_of_piece_at(&homes[i]), "original_position_of_piece_at {:?}", homes[i]);
            ck!(ctx, got == homes[j], "{name} {pieces:?}: the one at {:?} started at {:?}, found {got:?}", homes[i], homes[j]);
        } else {
            ctx.error("a home without a piece");
        }
        let got = run!(ctx, s.at_index(i).cloned(), "at_index");
        ck!(ctx, got.as_ref() == Some(&pieces[i]), "{name} {pieces:?}: at index {i} is {got:?}");
    }
    ck!(ctx, run!(ctx, s.at_index(N).is_none() && s.at_index(usize::MAX).is_none(), "at_index"), "{name}: there is a piece at index {N}");
    let it: Vec<P> = run!(ctx, s.iter().cloned().collect(), "iter");
    ck!(ctx, it == pieces, "{name} {pieces:?}: iterating gives {it:?}");
    let it: Vec<P> = run!(ctx, s.clone().into_iter().collect(), "into_iter");
    ck!(ctx, it == pieces, "{name} {pieces:?}: iterating gives {it:?}");
    let it: Vec<(P::Position, P)> = run!(ctx, s.iter_with_pos().map(|(a, b)| (a, b.clone())).collect(), "iter_with_pos");
    let right = it.len() == N && it.iter().enumerate().all(|(i, (a, b))| *a == homes[i] && *b == pieces[i]);
    ck!(ctx, right, "{name} {pieces:?}: iterating with places gives {it:?}");
    ctx.metric("lookups", 3 * N as u64);
    // exchanging
    let (i, j) = (ctx.rng.gen_range(0..N), ctx.rng.gen_range(0..N));
    let mut t = s.clone();
    run!(ctx, t.swap(&homes[i], &homes[j]), "swap");
    let mut want = pieces.clone();
    want.swap(i, j);
    ck!(ctx, t.pieces()[..] == want[..], "{name} {pieces:?}: exchanging {:?} and {:?} gives {:?}", homes[i], homes[j], t.pieces());
    run!(ctx, t.swap(&homes[i], &homes[j]), "swap");
    ck!(ctx, t == *s, "{name} {pieces:?}: exchanging {:?} and {:?} twice gives {:?}", homes[i], homes[j], t.pieces());
    ctx.metric("exchanges", 2);
    // shuffling
    for k in 0..3 {
        let mut t = s.clone();
        let (a, b): (u64, u64) = (ctx.rng.gen(), ctx.rng.gen());
        run!(
            ctx,
            match k {
                0 => t.shuffle(&mut rand::rngs::StdRng::seed_from_u64(a)),
                // two kinds of low-discrepancy numbers; nothing that a rejecting generator could loop on
                1 => t.shuffle(&mut Odd(a, 0x9E37_79B9_7F4A_7C15)),
                _ => t.shuffle(&mut Odd(a, 0xD1B5_4A32_D192_ED03 ^ (b & 0xff00))),
            },
            "shuffle"
        );
        let mut left = pieces.clone();
        for p in t.iter() {
            match left.iter().position(|x| x == p) {
                Some(i) => drop(left.swap_remove(i)),
                None => ctx.fail(format!("{name} {pieces:?}: after shuffling there is {p:?} more than before: {:?}", t.pieces())),
            }
        }
        ck!(ctx, left.is_empty(), "{name} {pieces:?}: after shuffling {left:?} is missing");
        ck!(ctx, t.validate().is_none(), "{name} {pieces:?}: after shuffling the set is not valid");
        ctx.metric("shuffles", 1);
    }
    let want = (0..N).all(|i| pieces[i].is_solved(&homes[i]));
    ck!(ctx, run!(ctx, s.is_solved(), "is_solved") == want, "{name} {pieces:?}: said {}to be solved", if want { "not " } else { "" });
}

/// A random valid set: one piece for every place
fn valid<P>(rng: &mut impl Rng, all: &[Named<P>]) -> Vec<usize> {
    let mut by: Vec<Vec<usize>> = vec![];
    for (i, x) in all.iter().enumerate() {
        match by.iter_mut().find(|v| all[v[0]].1 == x.1) {
            Some(v) => v.push(i),
            None => by.push(vec![i]),
        }
    }
    shuffle(&mut by, rng);
    by.into_iter().map(|v| v[rng.gen_range(0..v.len())]).collect()
}

fn kind<P: Kind<N>, const N: usize>(ctx: &mut Ctx) {
    let all = named::<P, N>();
    let name = P::NAME;
    // the solved set
    let homes = P::REFERENCE_POSITIONS;
    for i in 0..N {
        for j in 0..i {
            ck!(ctx, homes[i] != homes[j], "{name}: the places {} and {} are the same", i + 1, j + 1);
        }
        ck!(ctx, P::SOLVED[i].position() == homes[i], "{name}: the solved {:?} is not at {:?}", P::SOLVED[i], homes[i]);
        ck!(ctx, P::SOLVED[i].is_solved(&homes[i]), "{name}: {:?} is not solved at {:?}", P::SOLVED[i], homes[i]);
    }
    let solved: Vec<usize> = (0..N).map(|i| all.iter().position(|x| x.0 == P::SOLVED[i]).unwrap_or(usize::MAX)).collect();
    ck!(ctx, solved.iter().all(|i| *i < all.len()), "{name}: {:?} are not all pieces of that kind", P::SOLVED);
    match made::<P, N>(ctx, &all, &solved) {
        Some(s) => {
            ck!(ctx, s == PieceSet::<P, N>::SOLVED && run!(ctx, s.is_solved(), "is_solved"), "{name}: the solved set is not solved");
            lookups(ctx, &all, &solved, &s);
        }
        None => ctx.error("the solved set"),
    }
    for _ in 0..ctx.amount(300, 20_000) {
        let ix = valid(&mut ctx.rng, &all);
        assert!(ix.len() == N, "harness: places");
        if let Some(s) = made::<P, N>(ctx, &all, &ix) {
            lookups(ctx, &all, &ix, &s);
        }
        // some duplicates, or anything
        let mut bad = ix.clone();
        match ctx.rng.gen_range(0..4) {
            0 => bad.iter_mut().for_each(|i| *i = ctx.rng.gen_range(0..all.len())),
            1 => {
                for _ in 0..ctx.rng.gen_range(1..4) {
                    bad[ctx.rng.gen_range(0..N)] = ctx.rng.gen_range(0..all.len());
                }
            }
            2 => bad[ctx.rng.gen_range(0..N)] = ix[ctx.rng.gen_range(0..N)],
            _ => {
                // all the same place
                let at = &all[ix[0]].1;
                let same: Vec<usize> = (0..all.len()).filter(|i| all[*i].1 == *at).collect();
                bad.iter_mut().for_each(|i| *i = same[ctx.rng.gen_range(0..same.len())]);
            }
        }
        made::<P, N>(ctx, &all, &bad);
    }
    // every pair of indices at one place, with the same piece and with another
    let ix = valid(&mut ctx.rng, &all);
    for i in 0..N {
        for j in 0..N {
            if i == j {
                continue;
            }
            let same: Vec<usize> = (0..all.len()).filter(|k| all[*k].1 == all[ix[i]].1).collect();
            for k in same {
                let mut bad = ix.clone();
                bad[j] = k;
                made::<P, N>(ctx, &all, &bad);
            }
        }
    }
    // every pair exchanged
    let Some(s) = made::<P, N>(ctx, &all, &ix) else { ctx.error("a valid set") };
    for i in 0..N {
        for j in 0..N {
            let mut t = s.clone();
            run!(ctx, t.swap(&homes[i], &homes[j]), "swap");
            let right = (0..N).all(|k| t.pieces()[k] == all[ix[if k == i { j } else if k == j { i } else { k }]].0);
            ck!(ctx, right, "{name}: exchanging {:?} and {:?} of {:?} gives {:?}", homes[i], homes[j], s.pieces(), t.pieces());
            ctx.eval_many(1);
        }
    }
    ctx.metric("exchanges", (N * N) as u64);
    ctx.sample(|| format!("{name}: {:?}", s.pieces()));
}

/// Sets of big cubes hold the same sets
fn deep<P: Kind<N> + DepthPiece, const N: usize, const ND: u32, const TD: u32>(ctx: &mut Ctx) {
    let d = DepthPieceSet::<P, N, ND, TD>::SOLVED;
    ctx.eval(hash_of(&(P::NAME, N, ND, TD)));
    ck!(ctx, *d == PieceSet::<P, N>::SOLVED && d.set == PieceSet::<P, N>::SOLVED, "{} of depth {ND}, {TD}: the solved set is another", P::NAME);
    let all = named::<P, N>();
    let ix = valid(&mut ctx.rng, &all);
    if let Some(set) = made::<P, N>(ctx, &all, &ix) {
        let d = DepthPieceSet::<P, N, ND, TD> { set: set.clone() };
        ck!(ctx, *d == set, "{}: a deep set is another", P::NAME);
    }
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    kind::<Toy, 3>(ctx);
    kind::<Corner, 8>(ctx);
    kind::<Edge, 12>(ctx);
    kind::<Wing, 24>(ctx);
    kind::<CenterCorner, 24>(ctx);
    kind::<CenterEdge, 24>(ctx);
    kind::<CenterWing, 48>(ctx);
    deep::<Wing, 24, 1, 0>(ctx);
    deep::<CenterCorner, 24, 1, 0>(ctx);
    deep::<CenterEdge, 24, 2, 0>(ctx);
    deep::<CenterWing, 48, 1, 2>(ctx);
    ctx.rule = "random sets of all six kinds of pieces and of a made up one, valid and with duplicates anywhere (every pair of indices), against an own naming of places; every lookup, exchange and iteration, shuffles with good and poor random numbers".into();
}
