//! C08: normalizing keeps the effect and removes every redundancy.
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::non_redundant::{absorve, AbsorveResult, NonRedundantAxisMove};
use barbarosa::generic::Alg;

/// Two turns of the same face separated only by turns of the opposite face
pub fn redundant(w: &[Mv]) -> Option<(usize, usize)> {
    for i in 0..w.len() {
        for j in i + 1..w.len() {
            if w[j].a != w[i].a {
                break;
            }
            if w[j].d == w[i].d {
                return Some((i, j));
            }
        }
    }
    None
}

pub fn to_alg(w: &[Mv]) -> Alg<AxisMove> {
    Alg::new(w.iter().map(|m| m.axis_move()).collect())
}
pub fn of_alg(a: &Alg<AxisMove>) -> Vec<Mv> {
    a.moves.iter().map(Mv::from_axis_move).collect()
}
fn short(w: &[Mv]) -> String {
    if w.len() > 60 {
        format!("{} ... ({} turns)", word_str(&w[..60]), w.len())
    } else {
        word_str(w)
    }
}

struct Mon {
    solved: Phys,
}

impl Mon {
    fn normalize(&self, ctx: &mut Ctx, w: &[Mv]) -> Vec<Mv> {
        let alg = to_alg(w);
        let out = bounded_run(ctx, w, || alg.normalized());
        let o = of_alg(&out);
        ck!(ctx, o.len() <= w.len(), "normalizing [{}] gives the longer [{}]", short(w), short(&o));
        if let Some((i, j)) = redundant(&o) {
            ctx.fail(format!("normalizing [{}] gives [{}], whose turns {i} and {j} can be joined", short(w), short(&o)));
        }
        let (a, b) = (self.solved.with_word(w), self.solved.with_word(&o));
        ck!(ctx, a == b, "normalizing [{}] gives [{}], which does something else", short(w), short(&o));
        o
    }
    fn full(&self, ctx: &mut Ctx, w: &[Mv]) {
        let o = self.normalize(ctx, w);
        let alg = to_alg(&o);
        let again = of_alg(&bounded_run(ctx, &o, || alg.normalized()));
        ck!(ctx, again == o, "normalizing [{}] gives [{}], and normalizing that gives [{}]", short(w), short(&o), short(&again));
        ctx.metric("turns removed", (w.len() - o.len()) as u64);
        ctx.metric_max("longest input", w.len() as u64);
    }
}

fn bounded_run<T>(ctx: &mut Ctx, w: &[Mv], f: impl FnOnce() -> T) -> T {
    let name = if w.len() > 12 { format!("normalizing [{}]", short(w)) } else { String::new() };
    if w.len() > 12 {
        bounded(&name, 60, || run!(ctx, f(), "normalizing [{}]", short(w)))
    } else {
        bounded("normalizing a short algorithm", 60, || run!(ctx, f(), "normalizing [{}]", short(w)))
    }
}

fn exhaustive(ctx: &mut Ctx, mon: &Mon, moves: &[Mv], len: usize, what: &str) {
    let k = moves.len();
    let mut n = 0u64;
    for l in 0..=len {
        let mut ix = vec![0usize; l];
        'words: loop {
            let w: Vec<Mv> = ix.iter().map(|i| moves[*i]).collect();
            mon.full(ctx, &w);
            n += 1;
            let mut p = 0;
            loop {
                if p == l {
                    break 'words;
                }
                ix[p] += 1;
                if ix[p] < k {
                    break;
                }
                ix[p] = 0;
                p += 1;
            }
        }
    }
    ctx.eval_many(n);
    ctx.metric(what, n);
}

/// A word with the same effect as the empty one in the group generated by commuting opposite faces
fn nested(rng: &mut impl Rng, budget: &mut i64, axes: usize) -> Vec<Mv> {
    let mut w = vec![];
    while *budget > 0 && rng.gen_range(0..3) != 0 {
        *budget -= 2;
        let m = Mv::from_face([0, 3, 1, 4, 2, 5][rng.gen_range(0..2 * axes)], rng.gen_range(1..4), 0);
        let inner = nested(rng, budget, axes);
        w.push(m);
        w.extend(inner);
        w.push(m.inv());
    }
    w
}

/// Splits turns, exchanges neighbouring turns of opposite faces
fn disguise(rng: &mut impl Rng, w: &mut Vec<Mv>) {
    let mut out = vec![];
    for m in w.iter() {
        if rng.gen_range(0..4) == 0 {
            // the same turn in two or three parts
            let k = rng.gen_range(1..4);
            if k != m.k {
                out.push(Mv { k, ..*m });
                out.push(Mv { k: (m.k - k).rem_euclid(4), ..*m });
                continue;
            }
        }
        out.push(*m);
    }
    for _ in 0..out.len() {
        if out.len() < 2 {
            break;
        }
        let i = rng.gen_range(0..out.len() - 1);
        if out[i].a == out[i + 1].a {
            out.swap(i, i + 1);
        }
    }
    *w = out;
}

fn absorption(ctx: &mut Ctx, mon: &Mon) {
    let amount = |m: &Option<NonRedundantAxisMove>| -> Option<(usize, [i32; 2])> {
        m.as_ref().map(|m| {
            let mut a = [0, 0];
            for x in m.moves() {
                let x = Mv::from_axis_move(&x);
                a[usize::from(x.d < 0)] += x.k;
            }
            (unax(m.axis()), a)
        })
    };
    let mut all: Vec<Option<NonRedundantAxisMove>> = vec![None];
    for a in 0..3 {
        for p in 0..4 {
            for q in 0..4 {
                all.push(match (p, q) {
                    (0, 0) => continue,
                    (p, 0) => Some(NonRedundantAxisMove::Single(Mv { a, d: 1, k: p, depth: 0 }.axis_move())),
                    (0, q) => Some(NonRedundantAxisMove::Single(Mv { a, d: -1, k: q, depth: 0 }.axis_move())),
                    (p, q) => Some(NonRedundantAxisMove::Double { axis: ax(a), amount_positive: amt(p), amount_negative: amt(q) }),
                });
            }
        }
    }
    for before in &all {
        let word: Vec<Mv> = before.iter().flat_map(|m| m.moves()).map(|m| Mv::from_axis_move(&m)).collect();
        for m in all_moves(0) {
            let mut after = before.clone();
            let r = run!(ctx, absorve(&mut after, &m.axis_move()), "merging {m} into {before:?}");
            let aw: Vec<Mv> = after.iter().flat_map(|m| m.moves()).map(|m| Mv::from_axis_move(&m)).collect();
            let i = usize::from(m.d < 0);
            let (want, result) = match amount(before) {
                None => {
                    let mut a = [0, 0];
                    a[i] = m.k;
                    (Some((m.a, a)), AbsorveResult::Absorved)
                }
                Some((a, x)) if a != m.a => (Some((a, x)), AbsorveResult::NotAdded),
                Some((a, mut x)) => {
                    let old = x[i];
                    x[i] = (x[i] + m.k) % 4;
                    let result = match (old, x[i]) {
                        (0, _) => AbsorveResult::Added,
                        (_, 0) => AbsorveResult::Collapsed,
                        _ => AbsorveResult::Absorved,
                    };
                    (if x == [0, 0] { None } else { Some((a, x)) }, result)
                }
            };
            ck!(ctx, amount(&after) == want, "merging {m} into {before:?} gives {after:?}");
            ck!(ctx, r == result, "merging {m} into {before:?} reports {r:?} instead of {result:?}");
            let mut both = word.clone();
            if r != AbsorveResult::NotAdded {
                both.push(m);
            }
            ck!(ctx, mon.solved.with_word(&both) == mon.solved.with_word(&aw), "merging {m} into {before:?} gives {after:?}, which does something else");
            ctx.eval(hash_of(&(word.clone(), m)));
            ctx.metric("merges (all pairs)", 1);
        }
    }
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "output of normalized(): not longer, no two turns of a face separated only by the opposite face, same sticker permutation, unchanged when normalized again; all short algs, and long ones with nested cancellations, split turns and exchanged opposite turns".into();
    let mon = Mon { solved: Phys::solved(3) };
    absorption(ctx, &mon);
    let all = all_moves(0);
    let t = ctx.thorough;
    exhaustive(ctx, &mon, &all, if t { 5 } else { 3 }, "all algs of the 18 face turns");
    let pick = |fs: &[usize], ks: &[i32]| -> Vec<Mv> { fs.iter().flat_map(|f| ks.iter().map(|k| Mv::from_face(*f, *k, 0))).collect() };
    exhaustive(ctx, &mon, &pick(&[0, 3, 1], &[1, 2, 3]), if t { 7 } else { 5 }, "all algs of R L U turns");
    exhaustive(ctx, &mon, &pick(&[2, 5], &[1, 2, 3]), if t { 9 } else { 6 }, "all algs of F B turns");
    exhaustive(ctx, &mon, &pick(&[1, 4, 2, 5], &[1, 3]), if t { 7 } else { 5 }, "all algs of U D F B quarter turns");

    for i in 0..ctx.amount(60_000, 2_000_000) {
        let axes = 1 + (i % 3) as usize;
        let mut w = match i % 5 {
            0 => {
                let l = len(&mut ctx.rng, 30, 200);
                (0..l).map(|_| Mv::from_face([0, 3, 1, 4, 2, 5][ctx.rng.gen_range(0..2 * axes)], ctx.rng.gen_range(1..4), 0)).collect()
            }
            1 => {
                // a palindrome around something
                let l = len(&mut ctx.rng, 20, 100);
                let outer = random_word(&mut ctx.rng, l, 0);
                let l = len(&mut ctx.rng, 3, 10);
                let inner = random_word(&mut ctx.rng, l, 0);
                [outer.clone(), inner, inv_word(&outer)].concat()
            }
            _ => {
                let mut b = ctx.rng.gen_range(2..60);
                let mut w = nested(&mut ctx.rng, &mut b, axes);
                let l = ctx.rng.gen_range(0..4);
                for m in random_word(&mut ctx.rng, l, 0) {
                    let p = ctx.rng.gen_range(0..=w.len());
                    w.insert(p, m);
                }
                w
            }
        };
        if i % 2 == 1 {
            disguise(&mut ctx.rng, &mut w);
        }
        mon.full(ctx, &w);
        ctx.eval(hash_of(&w));
        ctx.metric("random and nested algs", 1);
        ctx.sample(|| format!("[{}] -> [{}]", short(&w), word_str(&of_alg(&to_alg(&w).normalized()))));
        if i % 50 == 0 {
            // what the library does with both
            let a: Cube3 = ctx.rng.gen();
            let (b, c) = (a.clone().moved(&to_alg(&w)), a.clone().moved(&to_alg(&w).normalized()));
            ck!(ctx, b == c, "[{}] and its normalized algorithm do different things to {a:?}", short(&w));
        }
    }
    // long ones
    for (i, n) in [2_000usize, 20_000, if t { 400_000 } else { 60_000 }].into_iter().enumerate() {
        let half = random_word(&mut ctx.rng, n / 2, 0);
        let long = random_word(&mut ctx.rng, n, 0);
        let pal = [half.clone(), inv_word(&half)].concat();
        let one: Vec<Mv> = (0..n).map(|i| Mv::from_face(if i % 2 == 0 { 0 } else { 3 }, 1, 0)).collect();
        let stairs: Vec<Mv> = (0..n).map(|i| Mv::from_face([0, 3, 0, 1, 4, 1][i % 6], 1 + (i % 3) as i32, 0)).collect();
        for w in [pal, long, one, stairs] {
            mon.full(ctx, &w);
            ctx.eval(hash_of(&w));
            ctx.metric("long algs", 1);
        }
        // a complete cancellation must end up empty
        let mut d = [half.clone(), inv_word(&half)].concat();
        if i < 2 {
            disguise(&mut ctx.rng, &mut d);
        }
        mon.full(ctx, &d);
    }
}
