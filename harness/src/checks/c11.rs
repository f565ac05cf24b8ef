//! C11: printed moves read back as the same move.
use super::c08::to_alg;
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::non_redundant::NonRedundantAxisMove;
use barbarosa::cube_n::moves::Amount;
use barbarosa::cube_n::space::Face;
use barbarosa::cube_n::WideAxisMove;
use barbarosa::generic::{Alg, Parsable};
use std::collections::HashMap;

const SIG: &str = "deep-wide-prints-one-more";

/// Prints and reads a layer turn; whether it came back
fn wide<const N: u32>(ctx: &mut Ctx, m: &Mv, texts: Option<&mut HashMap<String, Mv>>) -> bool {
    let w = m.wide::<N>();
    let text = run!(ctx, w.to_string(), "printing {w:?}");
    if let Some(t) = texts {
        if let Some(o) = t.insert(text.clone(), *m) {
            ck!(ctx, o == *m, "{m} and {o} both print as {text:?}");
        }
    }
    let back = run!(ctx, WideAxisMove::<N>::parse(&text).map_err(|e| e.to_string()), "parsing {text:?}");
    if back.as_ref() == Ok(&w) {
        return true;
    }
    // the listed finding: depth d >= 2 is printed as d + 1, which is read as depth d + 1 (or is too deep)
    let letter = format!("{}{}", face_name(m.face()), ["", "", "2", "'"][m.k as usize]);
    let listed = m.depth >= 2
        && text == format!("{}{}w{}", u64::from(m.depth) + 1, &letter[..1], &letter[1..])
        && match &back {
            Ok(b) => m.depth < N && *b == (Mv { depth: m.depth + 1, ..*m }).wide::<N>(),
            Err(_) => m.depth == N,
        };
    let detail = || format!("{w:?} prints as {text:?}, which reads back as {back:?}");
    if listed {
        ctx.known_or_fail(SIG, detail);
        return false;
    }
    ctx.fail(detail())
}

fn depths<const N: u32>(ctx: &mut Ctx) {
    let mut texts = HashMap::new();
    let mut d: Vec<u32> = (0..=N.min(300)).collect();
    for p in [1u64, 10, 100, 1000, 10_000, 99_999, 1 << 16, 1 << 24, 1 << 31, 4_294_967_290] {
        for e in 0..6 {
            d.push((p + e).min(u64::from(N)) as u32);
            d.push(N.saturating_sub(e as u32));
        }
    }
    d.sort();
    d.dedup();
    for depth in d {
        for m in all_moves(0) {
            let m = Mv { depth, ..m };
            wide::<N>(ctx, &m, Some(&mut texts));
            ctx.eval(hash_of(&(N, m)));
        }
    }
    ctx.metric("layer turns", texts.len() as u64);
}

fn wide_algs<const N: u32>(ctx: &mut Ctx, rng: &mut impl Rng, l: usize) {
    let max = if rng.gen_range(0..3) == 0 { N } else { N.min(1) };
    let w = random_word(rng, l, max);
    let ok = w.iter().fold(true, |a, m| wide::<N>(ctx, m, None) && a);
    let alg = Alg::<WideAxisMove<N>>::new(w.iter().map(|m| m.wide()).collect());
    let text = run!(ctx, alg.to_string(), "printing {alg:?}");
    let back = run!(ctx, Alg::<WideAxisMove<N>>::parse(&text).map_err(|e| e.to_string()), "parsing {text:?}");
    if ok {
        ck!(ctx, back.as_ref() == Ok(&alg), "[{}] prints as {text:?}, which reads back as {back:?}", word_str(&w));
    } else {
        // it contains listed turns: it must be made of its turns' texts
        let one: Result<Vec<_>, _> = w.iter().map(|m| WideAxisMove::<N>::parse(&m.wide::<N>().to_string()).map_err(|_| ())).collect();
        ck!(ctx, back.ok().map(|a| a.moves) == one.ok(), "[{}] prints as {text:?}, not as its turns", word_str(&w));
    }
    ctx.eval(hash_of(&(N, &w)));
    ctx.metric("algorithms of layer turns", 1);
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "parse(to_string(x)) == x; no two different moves of a kind have the same text".into();
    // faces, amounts, face turns
    let mut texts = HashMap::new();
    for f in 0..6 {
        let t = run!(ctx, face(f).to_string(), "printing face {f}");
        ck!(ctx, Face::parse(&t).ok() == Some(face(f)), "face {} prints as {t:?}", face_name(f));
    }
    for k in 1..4 {
        let t = run!(ctx, amt(k).to_string(), "printing amount {k}");
        ck!(ctx, Amount::parse(&t).ok() == Some(amt(k)), "amount {k} prints as {t:?}");
    }
    for m in all_moves(0) {
        let a = m.axis_move();
        let t = run!(ctx, a.to_string(), "printing {a:?}");
        let back = run!(ctx, AxisMove::parse(&t).map_err(|e| e.to_string()), "parsing {t:?}");
        ck!(ctx, back.as_ref() == Ok(&a), "{a:?} prints as {t:?}, which reads back as {back:?}");
        if let Some(o) = texts.insert(t.clone(), m) {
            ctx.fail(format!("{o} and {m} both print as {t:?}"));
        }
        ctx.eval(hash_of(&m));
    }
    // merged turns
    let mut texts = HashMap::new();
    for a in 0..3 {
        for i in 1..16 {
            let (p, q) = (i / 4, i % 4);
            let mk = |d: i32, k: i32| Mv { a, d, k, depth: 0 };
            let (m, w) = match (p, q) {
                (p, 0) => (NonRedundantAxisMove::Single(mk(1, p).axis_move()), vec![mk(1, p)]),
                (0, q) => (NonRedundantAxisMove::Single(mk(-1, q).axis_move()), vec![mk(-1, q)]),
                (p, q) => (NonRedundantAxisMove::Double { axis: ax(a), amount_positive: amt(p), amount_negative: amt(q) }, vec![mk(1, p), mk(-1, q)]),
            };
            let t = run!(ctx, m.to_string(), "printing {m:?}");
            let back = run!(ctx, Alg::<AxisMove>::parse(&t).map_err(|e| e.to_string()), "parsing {t:?}");
            ck!(ctx, back.as_ref() == Ok(&to_alg(&w)), "{m:?} prints as {t:?}, which reads back as {back:?}");
            let alg: Alg<AxisMove> = m.clone().into();
            ck!(ctx, back.as_ref() == Ok(&alg), "{m:?} prints as {t:?}, but converts to {alg:?}");
            if let Some(o) = texts.insert(t.clone(), m.clone()) {
                ctx.fail(format!("{o:?} and {m:?} both print as {t:?}"));
            }
            ctx.eval(hash_of(&w));
        }
    }
    ctx.metric("merged turns", texts.len() as u64);
    depths::<0>(ctx);
    depths::<1>(ctx);
    depths::<2>(ctx);
    depths::<3>(ctx);
    depths::<9>(ctx);
    depths::<10>(ctx);
    depths::<200>(ctx);
    depths::<{ u32::MAX }>(ctx);

    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(ctx.rng.gen());
    for i in 0..ctx.amount(20_000, 600_000) {
        let l = match i {
            0..=49 => i as usize,
            // counters of 8 and 16 bits, fixed buffers
            50..=61 => [127, 128, 255, 256, 257, 1023, 1025, 4097, 21_846, 32_769, 65_535, 65_537][i as usize - 50].min(if brief() { 3000 } else { usize::MAX }),
            _ => len(&mut rng, 20, 120),
        };
        ctx.metric_max("longest algorithm printed", l as u64);
        let w = random_word(&mut rng, l, 0);
        let alg = to_alg(&w);
        let t = run!(ctx, alg.to_string(), "printing {alg:?}");
        let back = run!(ctx, Alg::<AxisMove>::parse(&t).map_err(|e| e.to_string()), "parsing {t:?}");
        ck!(ctx, back.as_ref() == Ok(&alg), "[{}] prints as {t:?}, which reads back as {back:?}", word_str(&w));
        ctx.sample(|| t.clone());
        ctx.eval(hash_of(&w));
        ctx.metric("algorithms of face turns", 1);
        let nr: Vec<NonRedundantAxisMove> = NonRedundantAxisMove::all().collect();
        let nr: Vec<_> = (0..l).map(|_| nr[rng.gen_range(0..nr.len())].clone()).collect();
        let flat: Vec<AxisMove> = nr.iter().flat_map(|m| m.moves()).collect();
        let t = run!(ctx, Alg::<NonRedundantAxisMove>::new(nr.clone()).to_string(), "printing {nr:?}");
        let back = run!(ctx, Alg::<AxisMove>::parse(&t).map_err(|e| e.to_string()), "parsing {t:?}");
        ck!(ctx, back.as_ref().map(|a| &a.moves) == Ok(&flat), "merged turns {nr:?} print as {t:?}, which reads back as {back:?}");
        let l = if l > 120 { l } else { len(&mut rng, 10, 80) };
        match i % 4 {
            0 => wide_algs::<0>(ctx, &mut rng, l),
            1 => wide_algs::<1>(ctx, &mut rng, l),
            2 => wide_algs::<2>(ctx, &mut rng, l),
            _ => wide_algs::<40>(ctx, &mut rng, l),
        }
    }
}
