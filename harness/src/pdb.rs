//! Exact distances of corners and edge halves, computed from the sticker model alone.
use crate::conv::*;
use crate::phys::*;
use crate::util::parallel;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};

pub const PERMS: usize = 40320;
pub const TWISTS: usize = 2187;
pub const PLACES: usize = 665280;
pub const CORNERS: usize = PERMS * TWISTS;
pub const HALVES: usize = PLACES * 64;

/// The 18 face turns in the order face * 3 + k - 1
pub fn moves18() -> Vec<Mv> {
    all_moves(0)
}

/// What each turn does to corner places: (destination, twist added)
pub fn corner_moves() -> Vec<[(usize, usize); 8]> {
    moves18()
        .iter()
        .map(|m| {
            std::array::from_fn(|s| {
                let p = corner_home(s);
                if p[m.a] != m.d {
                    return (s, 0);
                }
                let q = rot(p, m.a, m.k * m.d);
                let to = (0..8).find(|i| corner_home(*i) == q).unwrap();
                let mut add = None;
                for t in 0..3 {
                    let a = corner_cycle(p, 1)[t];
                    let (na, _) = face_of(rot(unit(a, p[a]), m.a, m.k * m.d));
                    let x = (twist_of(q, na) + 3 - t) % 3;
                    assert!(add.is_none() || add == Some(x), "harness: twist");
                    add = Some(x);
                }
                (to, add.unwrap())
            })
        })
        .collect()
}

/// What each turn does to edge places: (destination, whether it flips)
pub fn edge_moves() -> Vec<[(usize, bool); 12]> {
    moves18()
        .iter()
        .map(|m| {
            std::array::from_fn(|s| {
                let p = edge_home(s);
                if p[m.a] != m.d {
                    return (s, false);
                }
                let q = rot(p, m.a, m.k * m.d);
                let to = (0..12).find(|i| edge_home(*i) == q).unwrap();
                let a = edge_axes(p)[0];
                let (na, _) = face_of(rot(unit(a, p[a]), m.a, m.k * m.d));
                (to, edge_axes(q)[0] != na)
            })
        })
        .collect()
}

impl Arr {
    /// The arrangement after a turn, by the model
    pub fn turned(&self, m: &Mv) -> Arr {
        thread_local! {
            static T: (Vec<[(usize, usize); 8]>, Vec<[(usize, bool); 12]>) = (corner_moves(), edge_moves());
        }
        T.with(|(c, e)| {
            let i = m.face() * 3 + m.k as usize - 1;
            let mut a = self.clone();
            for j in 0..8 {
                let p = self.cp[j];
                let (to, add) = c[i][p];
                a.cp[j] = to;
                let t = twist_of(corner_home(p), self.co[j]);
                a.co[j] = corner_cycle(corner_home(to), 1)[(t + add) % 3];
            }
            for j in 0..12 {
                let (to, flip) = e[i][self.ep[j]];
                a.ep[j] = to;
                a.eo[j] = self.eo[j] ^ flip;
            }
            a
        })
    }
    pub fn turned_by(&self, w: &[Mv]) -> Arr {
        w.iter().fold(self.clone(), |a, m| a.turned(m))
    }
}

fn rank_perm(p: &[usize; 8]) -> usize {
    let mut r = 0;
    for i in 0..8 {
        r = r * (8 - i) + (i + 1..8).filter(|j| p[*j] < p[i]).count();
    }
    r
}
fn unrank_perm(mut r: usize) -> [usize; 8] {
    let mut d = [0; 8];
    for i in (0..8).rev() {
        d[i] = r % (8 - i);
        r /= 8 - i;
    }
    let mut left: Vec<usize> = (0..8).collect();
    d.map(|x| left.remove(x))
}
fn rank_twist(t: &[usize; 8]) -> usize {
    t[..7].iter().fold(0, |r, x| r * 3 + x)
}
fn unrank_twist(mut r: usize) -> [usize; 8] {
    let mut t = [0; 8];
    for i in (0..7).rev() {
        t[i] = r % 3;
        r /= 3;
    }
    t[7] = (21 - t[..7].iter().sum::<usize>()) % 3;
    t
}
pub fn rank_places(p: &[usize; 6]) -> usize {
    let mut r = 0;
    for i in 0..6 {
        r = r * (12 - i) + p[i] - (0..i).filter(|j| p[*j] < p[i]).count();
    }
    r
}
pub fn unrank_places(mut r: usize) -> [usize; 6] {
    let mut d = [0; 6];
    for i in (0..6).rev() {
        d[i] = r % (12 - i);
        r /= 12 - i;
    }
    let mut left: Vec<usize> = (0..12).collect();
    d.map(|x| left.remove(x))
}

/// Own number of the corners of an arrangement (by place: which corner, how twisted)
pub fn corner_rank(a: &Arr) -> usize {
    let (mut p, mut t) = ([0; 8], [0; 8]);
    for i in 0..8 {
        p[a.cp[i]] = i;
        t[a.cp[i]] = twist_of(corner_home(a.cp[i]), a.co[i]);
    }
    rank_perm(&p) * TWISTS + rank_twist(&t)
}
pub fn corner_unrank(r: usize, a: &mut Arr) {
    let (p, t) = (unrank_perm(r / TWISTS), unrank_twist(r % TWISTS));
    for s in 0..8 {
        a.cp[p[s]] = s;
        a.co[p[s]] = corner_cycle(corner_home(s), 1)[t[s]];
    }
}
pub fn half_rank(a: &Arr, half: usize) -> usize {
    let p: [usize; 6] = std::array::from_fn(|i| a.ep[half * 6 + i]);
    let o = (0..6).fold(0, |o, i| o | (!a.eo[half * 6 + i] as usize) << i);
    rank_places(&p) * 64 + o
}
/// Sets one half of the edges, and the other in any valid way
pub fn half_unrank(r: usize, half: usize, a: &mut Arr) {
    let p = unrank_places(r / 64);
    let rest: Vec<usize> = (0..12).filter(|x| !p.contains(x)).collect();
    for i in 0..6 {
        a.ep[half * 6 + i] = p[i];
        a.eo[half * 6 + i] = r >> i & 1 == 0;
        a.ep[6 - half * 6 + i] = rest[i];
        a.eo[6 - half * 6 + i] = true;
    }
}

pub struct Pdb {
    pub corners: Vec<u8>,
    pub halves: [Vec<u8>; 2],
}

fn search(size: usize, start: usize, next: impl Fn(usize, usize) -> usize + Sync) -> Vec<u8> {
    let t: Vec<AtomicU8> = (0..size).map(|_| AtomicU8::new(255)).collect();
    t[start].store(0, Ordering::Relaxed);
    let filled = AtomicUsize::new(1);
    let mut level = 0;
    while filled.load(Ordering::Relaxed) < size {
        let before = filled.load(Ordering::Relaxed);
        let parts = 256;
        parallel(parts, |p| {
            let mut n = 0;
            for i in size * p / parts..size * (p + 1) / parts {
                if t[i].load(Ordering::Relaxed) == level {
                    for m in 0..18 {
                        let j = &t[next(i, m)];
                        if j.load(Ordering::Relaxed) == 255 && j.swap(level + 1, Ordering::Relaxed) == 255 {
                            n += 1;
                        }
                    }
                }
            }
            filled.fetch_add(n, Ordering::Relaxed);
            Ok(())
        })
        .expect("harness: search");
        level += 1;
        assert!(filled.load(Ordering::Relaxed) > before, "harness: not all arrangements are reachable");
    }
    t.into_iter().map(|x| x.into_inner()).collect()
}

impl Pdb {
    pub fn build() -> Pdb {
        let cm = corner_moves();
        let mut perm = vec![[0u16; 18]; PERMS];
        for (r, row) in perm.iter_mut().enumerate() {
            let p = unrank_perm(r);
            assert!(rank_perm(&p) == r, "harness: rank");
            for (m, x) in row.iter_mut().enumerate() {
                let mut q = [0; 8];
                (0..8).for_each(|s| q[cm[m][s].0] = p[s]);
                *x = rank_perm(&q) as u16;
            }
        }
        let mut twist = vec![[0u16; 18]; TWISTS];
        for (r, row) in twist.iter_mut().enumerate() {
            let t = unrank_twist(r);
            for (m, x) in row.iter_mut().enumerate() {
                let mut q = [0; 8];
                (0..8).for_each(|s| q[cm[m][s].0] = (t[s] + cm[m][s].1) % 3);
                assert!(q.iter().sum::<usize>() % 3 == 0, "harness: twist sum");
                *x = rank_twist(&q) as u16;
            }
        }
        let start = corner_rank(&Arr::solved());
        let corners = search(CORNERS, start, |i, m| perm[i / TWISTS][m] as usize * TWISTS + twist[i % TWISTS][m] as usize);

        let em = edge_moves();
        let parts = 64;
        let rows = parallel(parts, |p| {
            let mut v = vec![];
            for r in PLACES * p / parts..PLACES * (p + 1) / parts {
                let places = unrank_places(r);
                assert!(rank_places(&places) == r, "harness: rank");
                let row: [(u32, u8); 18] = std::array::from_fn(|m| {
                    let mut flips = 0;
                    let q: [usize; 6] = std::array::from_fn(|i| {
                        let (to, flip) = em[m][places[i]];
                        flips |= (flip as u8) << i;
                        to
                    });
                    (rank_places(&q) as u32, flips)
                });
                v.push(row);
            }
            Ok(v)
        })
        .expect("harness: places")
        .concat();
        let halves = [0, 1].map(|h| {
            let start = half_rank(&Arr::solved(), h);
            search(HALVES, start, |i, m| {
                let (q, f) = rows[i / 64][m];
                q as usize * 64 + (i % 64 ^ f as usize)
            })
        });
        Pdb { corners, halves }
    }

    /// The three distances of an arrangement
    pub fn parts(&self, a: &Arr) -> [u8; 3] {
        [self.corners[corner_rank(a)], self.halves[0][half_rank(a, 0)], self.halves[1][half_rank(a, 1)]]
    }
    pub fn get(&self, a: &Arr) -> u8 {
        self.parts(a).into_iter().max().unwrap()
    }
}
