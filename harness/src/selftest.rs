//! Is the sticker model a cube?
use crate::phys::*;

/// Facts about physical cubes that are known from elsewhere; the model must agree with all of them
pub fn self_test() {
    let word = |n: usize, s: &str| {
        let w: Vec<Mv> = s
            .split_whitespace()
            .map(|t| match crate::notation::wide(t, n as u32) {
                crate::notation::Meaning::Is(crate::notation::Note::Face(m) | crate::notation::Note::Wide(m)) => m,
                _ => panic!("harness: {t} in a known word"),
            })
            .collect();
        Phys::solved(n).with_word(&w)
    };
    for (n, s, order, moved) in [
        (3, "R", 4, 8),
        (3, "R U", 105, 13),
        (3, "R U2 D' B D'", 1260, 0),
        (3, "R U R' U'", 6, 7),
        (3, "R U R' U R U2 R'", 6, 7),
        (3, "R U R' U' R' F R2 U' R' U' R U R' F'", 2, 4),
        (3, "R2 L2 U2 D2 F2 B2", 2, 12),
        (3, "U R2 F B R B2 R U2 L B2 R U' D' R2 F R' L B2 U2 F2", 2, 12),
        (4, "Rw", 4, 28),
        (4, "r2 R2 U2 r2 R2 Uw2 r2 R2 Uw2 U2", 2, 12),
        (5, "2Rw", 4, 0),
    ] {
        let p = word(n, s);
        let (o, m) = (p.order(100_000), p.moved_cubies().len());
        // numbers that are not known from elsewhere are written as 0
        assert!(o == Some(order), "harness: the order of {s} is {o:?}");
        assert!(moved == 0 || m == moved, "harness: {s} moves {m} pieces");
    }
    // a turn of R brings what is in front to the top, a turn of U brings what is in front to the left
    for (s, home, face) in [("R", Slot { p: [2, 0, 2], a: 2, d: 1 }, (1, 1)), ("U", Slot { p: [0, 2, 2], a: 2, d: 1 }, (0, -1)), ("F", Slot { p: [0, 2, 2], a: 1, d: 1 }, (0, 1))] {
        let p = word(3, s);
        let now = &p.g.slots[p.locations()[p.g.index[&home] as usize] as usize];
        assert!((now.a, now.d) == face, "harness: {s} brings a sticker to {:?}", (now.a, now.d));
    }
    assert!(Rot::all().len() == 24);
}
