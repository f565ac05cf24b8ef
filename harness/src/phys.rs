//! A physical NxNxN cube: stickers in space. Independent of the code under test.
use std::collections::HashMap;
use std::sync::OnceLock;

/// A sticker slot: cubie coordinates (-(n-1)..=n-1, step 2) and the face it is on (axis, sign)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Slot {
    pub p: [i32; 3],
    pub a: usize,
    pub d: i32,
}

/// Rotates a vector clockwise `k` quarter turns around the positive end of axis `a`
pub fn rot(v: [i32; 3], a: usize, k: i32) -> [i32; 3] {
    let (b, c) = ((a + 1) % 3, (a + 2) % 3);
    let mut v = v;
    for _ in 0..k.rem_euclid(4) {
        let (x, y) = (v[b], v[c]);
        v[b] = y;
        v[c] = -x;
    }
    v
}

pub fn unit(a: usize, d: i32) -> [i32; 3] {
    let mut v = [0; 3];
    v[a] = d;
    v
}

/// (axis, sign) of a unit vector
pub fn face_of(v: [i32; 3]) -> (usize, i32) {
    let a = (0..3).find(|i| v[*i] != 0).unwrap();
    (a, v[a])
}

impl Slot {
    pub fn rotated(&self, a: usize, k: i32) -> Slot {
        let (na, nd) = face_of(rot(unit(self.a, self.d), a, k));
        Slot { p: rot(self.p, a, k), a: na, d: nd }
    }
}

pub struct Geom {
    pub n: usize,
    pub slots: Vec<Slot>,
    pub index: HashMap<Slot, u16>,
    /// turn[a][layer][k-1]: for every slot moved, (from, to)
    turn: Vec<Vec<[Vec<(u16, u16)>; 3]>>,
}

static GEOMS: [OnceLock<Geom>; 10] = [const { OnceLock::new() }; 10];

impl Geom {
    pub fn get(n: usize) -> &'static Geom {
        GEOMS[n].get_or_init(|| Geom::build(n))
    }

    fn build(n: usize) -> Geom {
        let m = n as i32 - 1;
        let coords: Vec<i32> = (0..n as i32).map(|i| 2 * i - m).collect();
        let mut slots = vec![];
        for d in [1, -1] {
            for a in 0..3 {
                for &u in &coords {
                    for &v in &coords {
                        let mut p = [0; 3];
                        p[a] = m * d;
                        p[(a + 1) % 3] = u;
                        p[(a + 2) % 3] = v;
                        slots.push(Slot { p, a, d });
                    }
                }
            }
        }
        let index: HashMap<Slot, u16> = slots.iter().enumerate().map(|(i, s)| (*s, i as u16)).collect();
        let mut turn = vec![];
        for a in 0..3 {
            let mut layers = vec![];
            for &c in &coords {
                let f = |k: i32| -> Vec<(u16, u16)> {
                    slots
                        .iter()
                        .enumerate()
                        .filter(|(_, s)| s.p[a] == c)
                        .map(|(i, s)| (i as u16, index[&s.rotated(a, k)]))
                        .collect()
                };
                layers.push([f(1), f(2), f(3)]);
            }
            turn.push(layers);
        }
        Geom { n, slots, index, turn }
    }
}

/// A state: which sticker (identified by its home slot) is at each slot
#[derive(Clone)]
pub struct Phys {
    pub g: &'static Geom,
    pub st: Vec<u16>,
}

impl PartialEq for Phys {
    fn eq(&self, o: &Phys) -> bool {
        self.g.n == o.g.n && self.st == o.st
    }
}
impl Eq for Phys {}
impl std::hash::Hash for Phys {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.st.hash(h)
    }
}

/// A turn of the `depth + 1` layers from face (a, d), `k` quarter turns clockwise as seen from that face
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mv {
    pub a: usize,
    pub d: i32,
    pub k: i32,
    pub depth: u32,
}

impl Mv {
    pub fn inv(&self) -> Mv {
        Mv { k: 4 - self.k, ..*self }
    }
    pub fn face(&self) -> usize {
        self.a + if self.d > 0 { 0 } else { 3 }
    }
    pub fn from_face(f: usize, k: i32, depth: u32) -> Mv {
        Mv { a: f % 3, d: if f < 3 { 1 } else { -1 }, k, depth }
    }
}

impl std::fmt::Display for Mv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.depth > 0 {
            write!(f, "[{} layers]", self.depth + 1)?;
        }
        write!(f, "{}{}", ["R", "U", "F", "L", "D", "B"][self.face()], ["", "", "2", "'"][self.k as usize])
    }
}

pub fn word_str(w: &[Mv]) -> String {
    w.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(" ")
}

pub fn inv_word(w: &[Mv]) -> Vec<Mv> {
    w.iter().rev().map(Mv::inv).collect()
}

impl Phys {
    pub fn solved(n: usize) -> Phys {
        let g = Geom::get(n);
        Phys { g, st: (0..g.slots.len() as u16).collect() }
    }

    /// Turns layer `layer` (0 = most negative coordinate) of axis `a` by `k` clockwise quarters around +a
    pub fn turn_layer(&mut self, a: usize, layer: usize, k: i32) {
        let k = k.rem_euclid(4);
        if k == 0 {
            return;
        }
        let t = &self.g.turn[a][layer][k as usize - 1];
        let mut tmp = [0u16; 7 * 7 * 2 + 64];
        for (i, (from, _)) in t.iter().enumerate() {
            tmp[i] = self.st[*from as usize];
        }
        for (i, (_, to)) in t.iter().enumerate() {
            self.st[*to as usize] = tmp[i];
        }
    }

    pub fn turn(&mut self, m: &Mv) {
        let n = self.g.n;
        for i in 0..=(m.depth as usize).min(n - 1) {
            let layer = if m.d > 0 { n - 1 - i } else { i };
            self.turn_layer(m.a, layer, m.k * m.d);
        }
    }

    pub fn apply_word(&mut self, w: &[Mv]) {
        for m in w {
            self.turn(m);
        }
    }

    pub fn with_word(&self, w: &[Mv]) -> Phys {
        let mut p = self.clone();
        p.apply_word(w);
        p
    }

    /// Rotates the whole cube
    pub fn turn_whole(&mut self, a: usize, k: i32) {
        for l in 0..self.g.n {
            self.turn_layer(a, l, k);
        }
    }

    /// Current slots of all stickers: loc[sticker] = slot
    pub fn locations(&self) -> Vec<u16> {
        let mut l = vec![0u16; self.st.len()];
        for (slot, s) in self.st.iter().enumerate() {
            l[*s as usize] = slot as u16;
        }
        l
    }

    /// Home face index (R U F L D B) of the sticker at a slot
    pub fn color(&self, slot: &Slot) -> usize {
        let home = &self.g.slots[self.st[self.g.index[slot] as usize] as usize];
        home.a + if home.d > 0 { 0 } else { 3 }
    }

    /// Whether every face shows only its own color
    pub fn colors_home(&self) -> bool {
        self.st.iter().enumerate().all(|(slot, s)| {
            let (x, y) = (&self.g.slots[slot], &self.g.slots[*s as usize]);
            x.a == y.a && x.d == y.d
        })
    }

    pub fn is_identity(&self) -> bool {
        self.st.iter().enumerate().all(|(i, s)| i == *s as usize)
    }

    /// Applies the state reached by `other` after self (as a permutation of slots)
    pub fn then(&self, other: &Phys) -> Phys {
        // other.st[slot] = home slot whose content moves to `slot`
        Phys { g: self.g, st: other.st.iter().map(|h| self.st[*h as usize]).collect() }
    }

    /// The order of this permutation, if at most `cap`
    pub fn order(&self, cap: u64) -> Option<u64> {
        let mut seen = vec![false; self.st.len()];
        let mut l = 1u64;
        for i in 0..self.st.len() {
            if seen[i] {
                continue;
            }
            let (mut j, mut c) = (i, 0u64);
            while !seen[j] {
                seen[j] = true;
                j = self.st[j] as usize;
                c += 1;
            }
            l = l / gcd(l, c) * c;
            if l > cap {
                return None;
            }
        }
        Some(l)
    }

    /// The cubies (home coordinates) that are not at home
    pub fn moved_cubies(&self) -> Vec<[i32; 3]> {
        let mut v: Vec<[i32; 3]> = self
            .st
            .iter()
            .enumerate()
            .filter(|(i, s)| *i != **s as usize)
            .map(|(_, s)| self.g.slots[*s as usize].p)
            .collect();
        v.sort();
        v.dedup();
        v
    }
}

pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// A kind of piece: the sorted absolute coordinates of a cubie
pub fn orbit(p: [i32; 3]) -> [i32; 3] {
    let mut q = [p[0].abs(), p[1].abs(), p[2].abs()];
    q.sort();
    q
}

/// A rotation of space as an integer matrix: columns are the images of +x, +y, +z
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rot(pub [[i32; 3]; 3]);

impl Rot {
    pub const ID: Rot = Rot([[1, 0, 0], [0, 1, 0], [0, 0, 1]]);
    pub fn about(a: usize, k: i32) -> Rot {
        Rot([rot([1, 0, 0], a, k), rot([0, 1, 0], a, k), rot([0, 0, 1], a, k)])
    }
    pub fn map(&self, v: [i32; 3]) -> [i32; 3] {
        let m = &self.0;
        [0, 1, 2].map(|i| m[0][i] * v[0] + m[1][i] * v[1] + m[2][i] * v[2])
    }
    /// self after other
    pub fn after(&self, o: &Rot) -> Rot {
        Rot([self.map(o.0[0]), self.map(o.0[1]), self.map(o.0[2])])
    }
    pub fn inverse(&self) -> Rot {
        let m = &self.0;
        Rot([[m[0][0], m[1][0], m[2][0]], [m[0][1], m[1][1], m[2][1]], [m[0][2], m[1][2], m[2][2]]])
    }
    pub fn map_face(&self, a: usize, d: i32) -> (usize, i32) {
        face_of(self.map(unit(a, d)))
    }
    pub fn all() -> Vec<Rot> {
        let mut v = vec![Rot::ID];
        let mut i = 0;
        while i < v.len() {
            for a in 0..3 {
                let r = Rot::about(a, 1).after(&v[i]);
                if !v.contains(&r) {
                    v.push(r);
                }
            }
            i += 1;
        }
        v
    }
    /// A sequence of (axis, k) whole-cube rotations that composes to this rotation
    pub fn as_turns(&self) -> Vec<(usize, i32)> {
        for a in 0..3 {
            for k in 0..4 {
                for b in 0..3 {
                    for l in 0..4 {
                        if Rot::about(b, l).after(&Rot::about(a, k)) == *self {
                            return [(a, k), (b, l)].into_iter().filter(|x| x.1 != 0).collect();
                        }
                    }
                }
            }
        }
        unreachable!("every rotation is at most two turns")
    }
}
