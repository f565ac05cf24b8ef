//! C10: the parser accepts exactly the notation.
use super::*;
use crate::notation::{self as nt, Meaning, Note};
use crate::{ck, run};
use barbarosa::cube_n::moves::{rotation::AxisRotation, Amount, ExtendedAxisMove};
use barbarosa::cube_n::space::{Axis, Face};
use barbarosa::cube_n::{Orientable, WideAxisMove};
use barbarosa::generic::{Alg, Parsable};

pub fn ext(n: &Note) -> ExtendedAxisMove {
    match n {
        Note::Face(m) => ExtendedAxisMove::Regular(m.axis_move()),
        Note::Wide(m) => ExtendedAxisMove::Wide(m.wide()),
        Note::Rotation(a, k) => ExtendedAxisMove::Rotation(rotation(*a, *k)),
        Note::Slice(a, k, w) => ExtendedAxisMove::Slice { rot: rotation(*a, *k), wide: *w },
    }
}
fn wide<const N: u32>(n: &Note) -> WideAxisMove<N> {
    match n {
        Note::Face(m) | Note::Wide(m) => m.wide(),
        _ => unreachable!("harness: not a layer turn"),
    }
}
fn show(s: &str) -> String {
    if s.chars().count() > 90 {
        let head: String = s.chars().take(60).collect();
        format!("{head:?}... ({} bytes)", s.len())
    } else {
        format!("{s:?}")
    }
}

enum Want<T> {
    Is(T),
    Any,
    Error,
}
fn opt<T>(o: Option<T>) -> Want<T> {
    o.map_or(Want::Error, Want::Is)
}
fn mean<T>(m: Meaning, f: impl FnOnce(&Note) -> T) -> Want<T> {
    match m {
        Meaning::Is(n) => Want::Is(f(&n)),
        Meaning::Unspecified => Want::Any,
        Meaning::Nothing => Want::Error,
    }
}

fn one<T: Parsable + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, s: &str, what: &str, want: Want<T>) -> bool
where
    T::Rule: 'static,
{
    // the message of an error must be printable too
    let got = run!(ctx, T::parse(s).map_err(|e| e.to_string()), "parsing {} as {what}", show(s));
    match (want, got) {
        (Want::Is(w), Ok(g)) => {
            ck!(ctx, w == g, "{} parsed as {what} is {g:?}, not {w:?}", show(s));
            return true;
        }
        (Want::Is(w), Err(e)) => ctx.fail(format!("{} as {what} is {w:?}, but parsing it fails: {e}", show(s))),
        (Want::Error, Ok(g)) => ctx.fail(format!("{} is no {what}, but parsing it gives {g:?}", show(s))),
        _ => (),
    }
    false
}

fn single(ctx: &mut Ctx, s: &str) {
    let mut yes = false;
    bounded("parsing a move", 60, || {
        yes |= one::<Face>(ctx, s, "face", opt(nt::face(s).map(face)));
        yes |= one::<Amount>(ctx, s, "amount", opt(nt::amount(s).map(amt)));
        yes |= one::<Axis>(ctx, s, "axis", opt(nt::axis(s).map(ax)));
        yes |= one::<AxisRotation>(ctx, s, "rotation", opt(nt::rotation(s).map(|(a, k)| rotation(a, k))));
        yes |= one::<AxisMove>(ctx, s, "face turn", opt(nt::face_turn(s).map(|m| m.axis_move())));
        yes |= one::<WideAxisMove<0>>(ctx, s, "layer turn up to depth 0", mean(nt::wide(s, 0), wide));
        yes |= one::<WideAxisMove<1>>(ctx, s, "layer turn up to depth 1", mean(nt::wide(s, 1), wide));
        yes |= one::<WideAxisMove<2>>(ctx, s, "layer turn up to depth 2", mean(nt::wide(s, 2), wide));
        yes |= one::<WideAxisMove<12>>(ctx, s, "layer turn up to depth 12", mean(nt::wide(s, 12), wide));
        yes |= one::<WideAxisMove<{ u32::MAX }>>(ctx, s, "layer turn of any depth", mean(nt::wide(s, u32::MAX), wide));
        yes |= one::<ExtendedAxisMove>(ctx, s, "extended move", mean(nt::extended(s), ext));
        let _ = run!(ctx, <u32 as Parsable>::parse(s).map_err(|e| e.to_string()), "parsing {} as a depth", show(s));
    });
    ctx.metric(if yes { "texts that are something" } else { "texts that are nothing" }, 1);
}

fn alg(ctx: &mut Ctx, s: &str) {
    fn w<T>(r: Option<Result<Vec<Note>, ()>>, f: impl Fn(&Note) -> T) -> Want<Vec<T>> {
        match r {
            Some(Ok(v)) => Want::Is(v.iter().map(f).collect()),
            Some(Err(())) => Want::Error,
            None => Want::Any,
        }
    }
    fn al<T>(w: Want<Vec<T>>) -> Want<Alg<T>>
    where
        T: barbarosa::generic::Move,
    {
        match w {
            Want::Is(v) => Want::Is(Alg::new(v)),
            Want::Any => Want::Any,
            Want::Error => Want::Error,
        }
    }
    let fm = |s: &str| nt::face_turn(s).map_or(Meaning::Nothing, |m| Meaning::Is(Note::Face(m)));
    let name = format!("parsing the algorithm {}", show(s));
    let mut yes = false;
    bounded(&name, 60, || {
        let axis = |n: &Note| match n {
            Note::Face(m) => m.axis_move(),
            _ => unreachable!("harness"),
        };
        yes |= one::<Alg<AxisMove>>(ctx, s, "algorithm of face turns", al(w(nt::alg(s, fm), axis)));
        yes |= one::<Alg<WideAxisMove<2>>>(ctx, s, "algorithm of layer turns", al(w(nt::alg(s, |s| nt::wide(s, 2)), wide)));
        yes |= one::<Alg<ExtendedAxisMove>>(ctx, s, "algorithm of extended moves", al(w(nt::alg(s, nt::extended), ext)));
    });
    // the other ways in
    let p = Alg::<AxisMove>::parse(s).ok();
    let t = run!(ctx, Alg::<AxisMove>::try_from(s).ok(), "converting {}", show(s));
    ck!(ctx, p == t, "parsing and converting {} differ: {p:?} and {t:?}", show(s));
    let q = run!(ctx, Alg::<Cube3>::parse(s).ok(), "parsing {}", show(s));
    ck!(ctx, p.map(|a| a.moves) == q.map(|a| a.moves), "parsing {} for Cube3 differs", show(s));
    // the algorithms of each cube accept the turns that the cube has
    let p2 = run!(ctx, Alg::<Cube2>::parse(s).ok().map(|a| a.moves), "parsing {}", show(s));
    ck!(ctx, p2 == Alg::<AxisMove>::parse(s).ok().map(|a| a.moves), "parsing {} for Cube2 differs", show(s));
    let l1 = Alg::<WideAxisMove<1>>::parse(s).ok().map(|a| format!("{:?}", a.moves));
    let l2 = Alg::<WideAxisMove<2>>::parse(s).ok().map(|a| format!("{:?}", a.moves));
    let le = Alg::<ExtendedAxisMove>::parse(s).ok().map(|a| a.moves);
    macro_rules! cube {
        ($($c:ty, $l:ident);*) => {$(
            let got = run!(ctx, Alg::<$c>::parse(s).ok().map(|a| format!("{:?}", a.moves)), "parsing {}", show(s));
            ck!(ctx, got == $l, "parsing {} for {} gives {got:?}, not {:?}", show(s), stringify!($c), $l);
        )*};
    }
    cube!(Cube4, l1; Cube5, l1; Cube6, l2; Cube7, l2);
    let got = run!(ctx, Alg::<Orientable<Cube3>>::parse(s).ok().map(|a| a.moves), "parsing {}", show(s));
    ck!(ctx, got == le, "parsing {} for Orientable<Cube3> gives {got:?}, not {le:?}", show(s));
    ctx.metric(if yes { "algorithms" } else { "texts that are no algorithm" }, 1);
}

fn strings(alphabet: &[&str], len: usize, mut f: impl FnMut(&str)) -> u64 {
    let mut n = 0;
    for l in 0..=len {
        let mut ix = vec![0; l];
        'all: loop {
            let s: String = ix.iter().map(|i| alphabet[*i]).collect();
            f(&s);
            n += 1;
            let mut p = 0;
            loop {
                if p == l {
                    break 'all;
                }
                ix[p] += 1;
                if ix[p] < alphabet.len() {
                    break;
                }
                ix[p] = 0;
                p += 1;
            }
        }
    }
    n
}

const ODD: &[&str] = &[
    "\u{0}", "\t", "\n", "\r", "\u{b}", "\u{85}", "\u{a0}", "\u{2003}", "\u{200b}", "\u{feff}", "\u{3000}", "’", "′", "ʼ", "`", "\"", "²", "٢", "２", "Ⅱ", "Ｒ", "ｒ", "Р", "\u{301}", "\u{20d7}", "🧊", "\u{10ffff}", "/*",
    "*/", "//", "/* */", "//\n", "-", "+", "_", ".", ",", "(", ")", "[", "]", "{", "}", "i", "3", "9", "W", "X", "Y", "Z", "A", "n", "\\", "%s", "ß", "ſ", "K",
];
const PARTS: &[&str] = &[
    "R", "U", "F", "L", "D", "B", "r", "u", "f", "l", "d", "b", "w", "x", "y", "z", "M", "E", "S", "m", "e", "s", "2", "'", "0", "1", "3", "4", "10", "12", "13", " ", "2Rw", "3Rw'", "R2", "U'", "01",
    "4294967295", "4294967296", "4294967297", "99999999999999999999", "18446744073709551617",
];

pub fn random_move(rng: &mut impl Rng) -> String {
    let pick = |rng: &mut dyn rand::RngCore, s: &str| -> String {
        let v: Vec<char> = s.chars().collect();
        v[rng.gen_range(0..v.len())].to_string()
    };
    let amount = ["", "2", "'"][rng.gen_range(0..3)];
    let number = match rng.gen_range(0..9) {
        0..=3 => String::new(),
        4 => rng.gen_range(0..4u32).to_string(),
        5 => rng.gen_range(0..300u32).to_string(),
        6 => rng.gen::<u32>().to_string(),
        7 => (u64::from(u32::MAX) + rng.gen_range(0..3) - 1).to_string(),
        _ => format!("{}{}", "0".repeat(rng.gen_range(0..30)), rng.gen_range(0..14u32)),
    };
    match rng.gen_range(0..6) {
        0 | 1 => format!("{}{amount}", pick(rng, "RUFLDB")),
        2 => format!("{number}{}w{amount}", pick(rng, "RUFLDB")),
        3 => format!("{number}{}{amount}", pick(rng, "rufldb")),
        4 => format!("{}{amount}", pick(rng, "xyz")),
        _ => format!("{}{amount}", pick(rng, "MESmes")),
    }
}

pub fn mutate(rng: &mut impl Rng, s: &str) -> String {
    let mut c: Vec<String> = s.chars().map(String::from).collect();
    for _ in 0..rng.gen_range(1..4) {
        let p = rng.gen_range(0..=c.len());
        match rng.gen_range(0..6) {
            0 => c.insert(p, ODD[rng.gen_range(0..ODD.len())].into()),
            1 => c.insert(p, PARTS[rng.gen_range(0..PARTS.len())].into()),
            2 if p < c.len() => {
                c.remove(p);
            }
            3 if p < c.len() => {
                let x = c[p].clone();
                c.insert(p, x);
            }
            4 if p < c.len() => c[p] = char::from_u32(rng.gen_range(0..0x11_0000)).unwrap_or('\u{fffd}').into(),
            _ if p + 1 < c.len() => c.swap(p, p + 1),
            _ => c.insert(p, char::from(rng.gen_range(0..128u8)).into()),
        }
    }
    c.concat()
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "parse() of every type against an independent recogniser: same value, or error; messages printable; all short texts over the notation's characters, valid texts, mutated texts, odd unicode, huge numbers and lengths".into();
    // exhaustive
    let full: Vec<&str> = "R U F L D B r u f l d b w x y z M E S m e s 2 ' 0 1 3 9 W X _ / *".split(' ').chain([" ", "\n", "\u{a0}", "’", "２"]).collect();
    let n = strings(&full, if ctx.thorough { 4 } else { 3 }, |s| single(ctx, s));
    ctx.eval_many(n);
    ctx.metric("all texts over 38 characters", n);
    let few = ["R", "b", "w", "2", "'", "1", "0", "y", "M"];
    let n = strings(&few, if ctx.thorough { 7 } else { 4 }, |s| single(ctx, s));
    ctx.eval_many(n);
    ctx.metric("all texts over 9 characters", n);
    let sp = ["R", "w", "2", "'", " ", "x", "\n"];
    let n = strings(&sp, if ctx.thorough { 7 } else { 5 }, |s| alg(ctx, s));
    ctx.eval_many(n);
    ctx.metric("all algorithm texts over 7 characters", n);
    for a in ODD.iter().chain(PARTS) {
        for b in ODD.iter().chain(PARTS) {
            for s in [format!("{a}{b}"), format!("{a}R{b}"), format!("{a}Rw{b}"), format!("R{a}{b}"), format!("2{a}w{b}")] {
                single(ctx, &s);
                alg(ctx, &s);
                ctx.eval(hash_of(&s));
            }
        }
    }
    // every number around the limits
    for base in [0u64, 1, 12, 255, 256, 65535, 65536, 99_999_999, u64::from(u32::MAX) / 10, u64::from(u32::MAX), 1 << 33, 10_000_000_000, u64::MAX - 3] {
        for d in 0..4u64 {
            for v in [base.saturating_add(d), base.saturating_sub(d)] {
                for s in [format!("{v}Rw"), format!("{v}u2"), format!("000{v}Lw'"), format!("{v}F"), format!("-{v}Rw"), format!("+{v}Rw"), format!("{v}")] {
                    single(ctx, &s);
                    ctx.eval(hash_of(&s));
                }
            }
        }
    }
    for l in [20usize, 1000, 100_000] {
        for s in ["9".repeat(l) + "Rw", "0".repeat(l) + "2Rw", "R".repeat(l), "'".repeat(l), "1".repeat(l), "/*".repeat(l), format!("R{}", " ".repeat(l)), "w".repeat(l) + "R", "２".repeat(l)] {
            single(ctx, &s);
            alg(ctx, &s);
            ctx.eval(hash_of(&s));
        }
        let v: Vec<String> = (0..l).map(|_| random_move(&mut ctx.rng)).collect();
        alg(ctx, &v.join(" "));
        let v: Vec<String> = (0..l).map(|_| word_str(&[Mv::random(&mut ctx.rng, 0)])).collect();
        alg(ctx, &v.join("\u{2003}\r\n"));
        alg(ctx, &(v.join(" ") + " Q"));
    }
    // random
    for i in 0..ctx.amount(60_000, 2_500_000) {
        let mut s = random_move(&mut ctx.rng);
        if i % 3 != 0 {
            s = mutate(&mut ctx.rng, &s);
        }
        single(ctx, &s);
        ctx.eval(hash_of(&s));
        ctx.sample(|| format!("{s:?}: {:?}", nt::extended(&s)));
        if i % 3 == 0 {
            let l = len(&mut ctx.rng, 8, 60);
            let mut a: String = if i % 2 == 0 {
                (0..l).map(|_| random_move(&mut ctx.rng)).collect::<Vec<_>>().join(" ")
            } else {
                word_str(&random_word(&mut ctx.rng, l, 0))
            };
            let seps = ["  ", "\t", "\n", "\r\n", "\u{a0}", "\u{2028}", "\u{85}"];
            for _ in 0..ctx.rng.gen_range(0..3) {
                a = a.replacen(' ', seps[ctx.rng.gen_range(0..seps.len())], 1);
            }
            match ctx.rng.gen_range(0..4) {
                0 => a = format!(" {a}\n"),
                1 => a = mutate(&mut ctx.rng, &a),
                _ => (),
            }
            alg(ctx, &a);
            ctx.eval(hash_of(&a));
        }
    }
}
