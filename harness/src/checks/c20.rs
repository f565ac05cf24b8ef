//! C20: pictures of a cube show its true stickers.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::visualization::unfolded::{Square, Unfolded};
use barbarosa::cube_n::visualization::{Color, Colored, Colorscheme};
use nalgebra::Vector3;
use palette::Srgb;
use std::collections::HashSet;
use std::fmt::{self, Display};

/// Where the facelets of a face lie: the directions in which rows and columns are counted,
/// as (axis, sign). The cube is unfolded like paper around F; B hangs below D.
pub fn directions(f: usize) -> [(usize, i32); 2] {
    const R: (usize, i32) = (0, 1);
    const U: (usize, i32) = (1, 1);
    const F: (usize, i32) = (2, 1);
    const D: (usize, i32) = (1, -1);
    const B: (usize, i32) = (2, -1);
    match f {
        0 => [D, B],
        1 => [F, R],
        2 => [D, R],
        3 => [D, F],
        4 => [B, R],
        _ => [U, R],
    }
}

/// The place on the cube of the facelet in a row and column
pub fn slot(n: usize, f: usize, row: usize, col: usize) -> Slot {
    let m = n as i32 - 1;
    let (a, d) = unface(&face(f));
    let mut p = [0; 3];
    p[a] = d * m;
    for ((x, s), i) in directions(f).into_iter().zip([row, col]) {
        p[x] = s * (2 * i as i32 - m);
    }
    Slot { p, a, d }
}

/// Colors of all facelets by the model: [face][row][column]
pub fn facelets(p: &Phys) -> Vec<Vec<Vec<usize>>> {
    let n = p.g.n;
    (0..6).map(|f| (0..n).map(|i| (0..n).map(|j| p.color(&slot(n, f, i, j))).collect()).collect()).collect()
}

// ---- reading printed text like a terminal does ----

pub type Cell = (char, Option<[u8; 3]>);

/// Lines of characters with their background colors
pub fn terminal(text: &str) -> Result<Vec<Vec<Cell>>, String> {
    let mut lines = vec![vec![]];
    let mut back = None;
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\u{1b}' => {
                if it.next() != Some('[') {
                    return Err("an unknown escape sequence".into());
                }
                let mut s = String::new();
                let last = loop {
                    match it.next() {
                        Some(c) if c.is_ascii_digit() || c == ';' => s.push(c),
                        Some(c) => break c,
                        None => return Err("an escape sequence without end".into()),
                    }
                };
                if last != 'm' {
                    return Err(format!("escape sequence [{s}{last}"));
                }
                let p: Vec<u32> = s.split(';').map(|x| if x.is_empty() { Ok(0) } else { x.parse() }).collect::<Result<_, _>>().map_err(|e| format!("escape sequence [{s}m: {e}"))?;
                let mut i = 0;
                while i < p.len() {
                    match p[i] {
                        0 | 49 => back = None,
                        48 if p.get(i + 1) == Some(&2) && p.len() > i + 4 => {
                            let x: Vec<u8> = p[i + 2..i + 5].iter().map(|x| (*x).min(255) as u8).collect();
                            back = Some([x[0], x[1], x[2]]);
                            i += 4;
                        }
                        _ => return Err(format!("escape sequence [{s}m")),
                    }
                    i += 1;
                }
            }
            '\n' => lines.push(vec![]),
            '\r' => (),
            c => lines.last_mut().unwrap().push((c, back)),
        }
    }
    Ok(lines)
}

/// The places of the faces in the text: first line and first column
fn offset(n: usize, f: usize) -> (usize, usize) {
    let w = 2 * (n + 1);
    match f {
        0 => (n + 1, 2 * w),
        1 => (0, w),
        2 => (n + 1, w),
        3 => (n + 1, 0),
        4 => (2 * (n + 1), w),
        _ => (3 * (n + 1), w),
    }
}

/// Whether a text shows these facelets; every facelet is two blanks wide
pub fn shows(lines: &[Vec<Cell>], want: &[Vec<Vec<usize>>], is: &dyn Fn(usize, [u8; 3]) -> bool) -> Result<(), String> {
    let n = want[0].len();
    let mut used = HashSet::new();
    for f in 0..6 {
        let (y, x) = offset(n, f);
        for i in 0..n {
            for j in 0..n {
                for k in 0..2 {
                    let (l, c) = (y + i, x + 2 * j + k);
                    used.insert((l, c));
                    match lines.get(l).and_then(|v| v.get(c)) {
                        Some((' ', Some(rgb))) if is(want[f][i][j], *rgb) => (),
                        got => {
                            return Err(format!(
                                "line {}, column {}: {got:?}, where the facelet in row {} and column {} of {} should be {}",
                                l + 1,
                                c + 1,
                                i + 1,
                                j + 1,
                                face_name(f),
                                face_name(want[f][i][j])
                            ))
                        }
                    }
                }
            }
        }
    }
    for (l, v) in lines.iter().enumerate() {
        for (c, (ch, back)) in v.iter().enumerate() {
            if !used.contains(&(l, c)) && (!ch.is_whitespace() || back.is_some()) {
                return Err(format!("line {}, column {}: {ch:?} in {back:?} beside the facelets", l + 1, c + 1));
            }
        }
    }
    Ok(())
}

// what the library's own scheme looks like; exact enough to tell the six colors apart
const DEFAULT: [[i32; 3]; 6] = [[134, 52, 52], [255, 255, 255], [52, 149, 57], [195, 112, 23], [218, 174, 64], [52, 61, 111]];
pub fn is_default(f: usize, rgb: [u8; 3]) -> bool {
    (0..3).all(|i| (rgb[i] as i32 - DEFAULT[f][i]).abs() <= 2)
}

struct With<'a, const N: usize>(&'a Unfolded<N>, &'a Colorscheme<Srgb>);
impl<const N: usize> Display for With<'_, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}
struct Alone<'a, const N: usize>(&'a Square<N>, &'a Colorscheme<Srgb>, usize);
impl<const N: usize> Display for Alone<'_, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, self.2, f)
    }
}

fn random_scheme(rng: &mut impl Rng) -> (Colorscheme<Srgb>, [[u8; 3]; 6]) {
    let mut c: Vec<[u8; 3]> = vec![];
    while c.len() < 6 {
        let x: [u8; 3] = match rng.gen_range(0..3) {
            0 => std::array::from_fn(|_| [0, 255][rng.gen_range(0..2)]),
            _ => rng.gen(),
        };
        if !c.contains(&x) {
            c.push(x);
        }
    }
    let c: [[u8; 3]; 6] = c.try_into().unwrap();
    // a bit more than the exact number, to mean the same rounded to the nearest or down
    let part = |x: u8| if x == 255 { 1.0 } else { (x as f32 + 0.2) / 255.0 };
    (Colorscheme::new(c.map(|x| Srgb::new(part(x[0]), part(x[1]), part(x[2])))), c)
}

fn picture<const N: usize>(ctx: &mut Ctx, u: &Unfolded<N>, want: &[Vec<Vec<usize>>], what: &str) {
    let mut faces = HashSet::new();
    let squares: Vec<(_, &Square<N>)> = run!(ctx, u.iter().collect(), "iterating over a picture");
    for (f, sq) in squares {
        let f = face_idx(&f);
        faces.insert(f);
        for i in 0..N {
            for j in 0..N {
                let got = face_idx(&sq.data[i][j].face);
                ck!(ctx, got == want[f][i][j], "{what}: row {} and column {} of {} is {}, not {}", i + 1, j + 1, face_name(f), face_name(got), face_name(want[f][i][j]));
            }
        }
        ck!(ctx, std::ptr::eq(sq, &u[&face(f)]), "{what}: iterating gives another square for {} than indexing", face_name(f));
    }
    ck!(ctx, faces.len() == 6, "{what}: the picture has {} faces", faces.len());
}

fn cubes(ctx: &mut Ctx) {
    let mut corners = HashSet::new();
    let mut edges = HashSet::new();
    let mut shown = HashSet::new();
    for i in 0..ctx.amount(4000, 100_000) {
        let a = match ctx.rng.gen_range(0..4) {
            0 => Arr::random(&mut ctx.rng),
            1 => {
                let l = ctx.rng.gen_range(0..6);
                let w = random_word(&mut ctx.rng, l, 0);
                Arr::solved().turned_by(&w)
            }
            _ => Arr::random_solvable(&mut ctx.rng),
        };
        let a = if i == 0 { Arr::solved() } else { a };
        let c = a.cube3();
        ctx.eval(hash_of(&a));
        (0..8).for_each(|i| drop(corners.insert((i, a.cp[i], a.co[i]))));
        (0..12).for_each(|i| drop(edges.insert((i, a.ep[i], a.eo[i]))));
        let what = format!("picture of {c:?}");
        let want = facelets(&a.phys(3));
        for f in 0..6 {
            for i in 0..3 {
                for j in 0..3 {
                    shown.insert((f, i, j, want[f][i][j]));
                }
            }
        }
        let u: Unfolded<3> = run!(ctx, c.clone().into(), "{what}");
        picture(ctx, &u, &want, &what);
        for (name, text) in [("text", run!(ctx, format!("{u}"), "{what}")), ("text of the cube", run!(ctx, format!("{c}"), "{what}"))] {
            let r = terminal(&text).and_then(|l| shows(&l, &want, &is_default));
            if let Err(e) = r {
                ctx.fail(format!("{what}: {name}: {e}"));
            }
        }
        let (scheme, rgb) = random_scheme(&mut ctx.rng);
        let text = run!(ctx, format!("{}", With(&u, &scheme)), "{what}");
        let r = terminal(&text).and_then(|l| shows(&l, &want, &|f, x| x == rgb[f]));
        if let Err(e) = r {
            ctx.fail(format!("{what}: text with the colors {rgb:?}: {e}"));
        }
        // one face alone
        let f = ctx.rng.gen_range(0..6);
        let pad = ctx.rng.gen_range(0..9);
        let text = run!(ctx, format!("{}", Alone(&u[&face(f)], &scheme, pad)), "{what}");
        match terminal(&text) {
            Err(e) => ctx.fail(format!("{what}: {} alone: {e}", face_name(f))),
            Ok(l) => {
                for i in 0..3 {
                    let row: Vec<Cell> = (0..2 * pad).map(|_| (' ', None)).chain((0..6).map(|j| (' ', Some(rgb[want[f][i][j / 2]])))).collect();
                    ck!(ctx, l.get(i) == Some(&row), "{what}: {} alone with padding {pad}: row {} is {:?}", face_name(f), i + 1, l.get(i));
                }
            }
        }
        // the stickers of single pieces
        let (i, j) = (ctx.rng.gen_range(0..8), ctx.rng.gen_range(0..12));
        let sort = |mut v: Vec<(usize, usize)>| {
            v.sort();
            v
        };
        let got = run!(ctx, c.corners.pieces()[i].colors(unvec3(corner_home(i))), "colors of a corner");
        let want = corner_stickers(3, corner_home(i), corner_home(a.cp[i]), a.co[i]).map(|(h, s)| (face_idx(&mkface(s.a, s.d)), face_idx(&mkface(h.a, h.d))));
        ck!(ctx, sort(got.iter().map(|(f, c)| (face_idx(f), face_idx(&c.face))).collect()) == sort(want.to_vec()), "{:?} of {:?} has the colors {got:?}", c.corners.pieces()[i], corner_home(i));
        let got = run!(ctx, c.edges.pieces()[j].colors(un_edge_coords(edge_home(j))), "colors of an edge");
        let want = edge_stickers(3, edge_home(j), edge_home(a.ep[j]), a.eo[j]).map(|(h, s)| (face_idx(&mkface(s.a, s.d)), face_idx(&mkface(h.a, h.d))));
        ck!(ctx, sort(got.iter().map(|(f, c)| (face_idx(f), face_idx(&c.face))).collect()) == sort(want.to_vec()), "{:?} of {:?} has the colors {got:?}", c.edges.pieces()[j], edge_home(j));
        ctx.sample(|| format!("{a:?}"));
    }
    ctx.metric("printed pictures read back", 3 * ctx.amount(4000, 100_000));
    ctx.metric("kinds of corner states shown, of 192", corners.len() as u64);
    ctx.metric("kinds of edge states shown, of 288", edges.len() as u64);
    ctx.metric("facelet colors shown, of 294 possible", shown.len() as u64);
}

/// Pictures of other sizes: the corners are at the corners, the edges in the middle
fn sizes<const N: usize>(ctx: &mut Ctx) {
    for _ in 0..ctx.amount(100, 3000) {
        let a = Arr::random(&mut ctx.rng);
        ctx.eval(hash_of(&(N, &a)));
        let what = format!("{N}x{N} picture of {a:?}");
        let c = a.cube3();
        let mut u = Unfolded::<N>::default();
        run!(ctx, u.populate_with(&c.corners), "{what}");
        let with_edges = N % 2 == 1;
        if with_edges {
            run!(ctx, u.populate_with(&c.edges), "{what}");
        }
        let edges = a.edges();
        let Some(p) = phys_of(N, &a.corners(), with_edges.then_some(&edges)) else { ctx.error("no arrangement") };
        let want = facelets(&p);
        picture(ctx, &u, &want, &what);
        let (scheme, rgb) = random_scheme(&mut ctx.rng);
        let text = run!(ctx, format!("{}", With(&u, &scheme)), "{what}");
        let r = terminal(&text).and_then(|l| shows(&l, &want, &|f, x| x == rgb[f]));
        if let Err(e) = r {
            ctx.fail(format!("{what}: text with the colors {rgb:?}: {e}"));
        }
    }
    ctx.metric(&format!("{N}x{N} pictures"), ctx.amount(100, 3000));
}

/// Looking up facelets by coordinates
fn lookup<const N: usize>(ctx: &mut Ctx) {
    for f in 0..6 {
        let lib = face(f);
        let [(ra, rs), (ca, cs)] = directions(f);
        let (na, _) = unface(&lib);
        let mut sq = Square::<N>::new(Color::new(face(0)));
        let mut u = Unfolded::<N>::default();
        for i in 0..N {
            for j in 0..N {
                for k in 0..ctx.amount(30, 600) {
                    // exactly its center, or nearer to it than to any other
                    let step = if N == 1 { 2.0 } else { 2.0 / (N as f32 - 1.0) };
                    let room = if k == 0 { 0.0 } else { 0.49 * step };
                    let at = |i: usize| if N == 1 { 0.0 } else { -1.0 + 2.0 * i as f32 / (N as f32 - 1.0) };
                    let mut v = Vector3::zeros();
                    // not further out than a bit beyond the rim
                    let mut coord = |x: f32| (x + room * ctx.rng.gen_range(-1.0f32..=1.0)).clamp(-1.0 - 0.1f32.min(0.2 * step), 1.0 + 0.1f32.min(0.2 * step));
                    v[ra] = rs as f32 * coord(at(i));
                    v[ca] = cs as f32 * coord(at(j));
                    v[na] = if k % 2 == 0 { 0.0 } else { ctx.rng.gen_range(-3.0..3.0) };
                    ctx.eval_many(1);
                    let want: *const Color = &sq.data[i][j];
                    let got = run!(ctx, sq.at(&v, &lib), "at {v:?}").map(|x| x as *const Color);
                    let place = |p: *const Color| (0..N).flat_map(|i| (0..N).map(move |j| (i, j))).find(|(i, j)| std::ptr::eq(&sq.data[*i][*j], p));
                    ck!(ctx, got == Some(want), "{N}x{N}: at {v:?} of {} is {:?}, it is ({i}, {j})", face_name(f), got.map(place));
                    let m = run!(ctx, sq.at_mut(&v, &lib), "at_mut {v:?}").map(|x| x as *const Color);
                    let place = |p: *const Color| (0..N).flat_map(|i| (0..N).map(move |j| (i, j))).find(|(i, j)| std::ptr::eq(&sq.data[*i][*j], p));
                    ck!(ctx, m == Some(want), "{N}x{N}: at_mut {v:?} of {} is {:?}, it is ({i}, {j})", face_name(f), m.map(place));
                    let want: *const Color = &u[&lib].data[i][j];
                    let m = run!(ctx, u.at_mut(&v, &lib), "at_mut {v:?}").map(|x| x as *const Color);
                    ck!(ctx, m == Some(want), "{N}x{N}: at_mut {v:?} of {} of a whole picture is not ({i}, {j})", face_name(f));
                }
            }
        }
        // anything else only must not crash, and far away is nothing
        for _ in 0..ctx.amount(200, 5000) {
            let big = [2.0, 10.0, 1e9, f32::MAX][ctx.rng.gen_range(0..4)];
            let v = Vector3::from_fn(|_, _| ctx.rng.gen_range(-1.0f32..=1.0) * big);
            ctx.eval_many(1);
            let got = run!(ctx, sq.at(&v, &lib).is_some(), "at {v:?}");
            if v[ra].abs() > 4.0 || v[ca].abs() > 4.0 {
                ck!(ctx, !got, "{N}x{N}: there is a facelet of {} at {v:?}", face_name(f));
            }
        }
    }
    ctx.metric(&format!("facelets looked up in {N}x{N} pictures"), 6 * (N * N) as u64 * ctx.amount(30, 600));
}

fn colors(ctx: &mut Ctx) {
    let named = [Color::RED, Color::WHITE, Color::GREEN, Color::ORANGE, Color::YELLOW, Color::BLUE];
    let names = ["red", "white", "green", "orange", "yellow", "blue"];
    for i in 0..6 {
        ctx.eval(hash_of(&("color", i)));
        ck!(ctx, face_idx(&named[i].face) == i, "the color {} belongs to {}", names[i], face_name(face_idx(&named[i].face)));
        let got = run!(ctx, format!("{:?}", Color::new(face(i))), "debug text of a color");
        ck!(ctx, got.contains(names[i]), "the color of {} is called {got}, it is {}", face_name(i), names[i]);
        let scheme: Colorscheme<Srgb> = Colorscheme::default();
        let c = run!(ctx, *scheme.get(&face(i)), "color of {}", face_name(i));
        let rgb = [c.red, c.green, c.blue].map(|x| (x * 255.0) as u8);
        ck!(ctx, is_default(i, rgb), "the default color of {} is {rgb:?}", face_name(i));
    }
}

pub fn check(ctx: &mut Ctx) {
    quiet_stdout();
    colors(ctx);
    cubes(ctx);
    sizes::<2>(ctx);
    sizes::<3>(ctx);
    sizes::<4>(ctx);
    sizes::<5>(ctx);
    sizes::<6>(ctx);
    sizes::<7>(ctx);
    sizes::<9>(ctx);
    lookup::<1>(ctx);
    lookup::<2>(ctx);
    lookup::<3>(ctx);
    lookup::<4>(ctx);
    lookup::<5>(ctx);
    lookup::<6>(ctx);
    lookup::<7>(ctx);
    lookup::<8>(ctx);
    lookup::<9>(ctx);
    lookup::<17>(ctx);
    ctx.rule = "random arrangements (valid and not) as pictures and as printed text, which is read back by an own terminal, against the stickers of the model, with the default and random colors; pictures of 2x2 to 9x9; every facelet of pictures of ten sizes looked up at its center and around".into();
}
