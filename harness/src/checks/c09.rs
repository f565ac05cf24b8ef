//! C09: random scrambles.
use super::c08::{of_alg, redundant};
use super::*;
use crate::{ck, run};
use barbarosa::cube_n::moves::non_redundant::NonRedundantAxisMove;
use barbarosa::cube_n::moves::QuarterAxisMove;
use barbarosa::cube_n::WideAxisMove;
use barbarosa::generic::Alg;
use rand::rngs::mock::StepRng;
use rand::{rngs::StdRng, RngCore, SeedableRng};
use std::collections::HashSet;

/// A source that repeats a short random script, with some noise so that rejection sampling ends
struct Script {
    words: Vec<u64>,
    i: usize,
    noise: StdRng,
    every: usize,
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.i += 1;
        if self.i % self.every == 0 {
            self.noise.next_u64()
        } else {
            self.words[self.i % self.words.len()]
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn judge(ctx: &mut Ctx, a: &Alg<AxisMove>, n: usize, why: &str) {
    ck!(ctx, a.moves.len() == n, "{why}: a random algorithm of length {n} has {} turns", a.moves.len());
    let w = of_alg(a);
    if let Some((i, j)) = redundant(&w) {
        ctx.fail(format!("{why}: turns {i} and {j} of the random algorithm [{}] can be joined", word_str(&w)));
    }
    ctx.metric("turns", n as u64);
    if w.windows(2).any(|p| p[0].a == p[1].a) {
        ctx.metric("algorithms with opposite neighbours", 1);
    }
    ctx.eval(hash_of(&w));
}

fn both<R: Rng>(ctx: &mut Ctx, n: usize, why: &str, src: impl Fn() -> R) {
    let name = format!("random algorithm of length {n} ({why})");
    let a = bounded(&name, 60, || run!(ctx, Alg::<AxisMove>::random_with_rng(n, &mut src()), "{why}: random algorithm of length {n}"));
    judge(ctx, &a, n, why);
    let b = Alg::<AxisMove>::random_with_rng(n, &mut src());
    ck!(ctx, a == b, "{why}: the same source gives [{a}] and then [{b}]");
    let a = bounded(&name, 60, || {
        run!(ctx, Alg::<AxisMove>::random_unnormalized_with_rng(n, &mut src()), "{why}: unnormalized random algorithm of length {n}")
    });
    ck!(ctx, a.moves.len() == n, "{why}: an unnormalized random algorithm of length {n} has {} turns", a.moves.len());
    let b = Alg::<AxisMove>::random_unnormalized_with_rng(n, &mut src());
    ck!(ctx, a == b, "{why}: the same source gives unnormalized [{a}] and then [{b}]");
    let q = run!(ctx, Alg::<QuarterAxisMove>::random_unnormalized_with_rng(n, &mut src()), "{why}: quarter turns");
    ck!(ctx, q.moves.len() == n, "{why}: {n} random quarter turns are {}", q.moves.len());
    ck!(ctx, q == Alg::<QuarterAxisMove>::random_unnormalized_with_rng(n, &mut src()), "{why}: quarter turns differ for the same source");
    let w = run!(ctx, Alg::<WideAxisMove<2>>::random_unnormalized_with_rng(n, &mut src()), "{why}: layer turns");
    ck!(ctx, w.moves.len() == n, "{why}: {n} random layer turns are {}", w.moves.len());
    ck!(ctx, w == Alg::<WideAxisMove<2>>::random_unnormalized_with_rng(n, &mut src()), "{why}: layer turns differ for the same source");
    ck!(ctx, w.moves.iter().all(|m| m.depth() <= 2), "{why}: a random layer turn is too deep: {w:?}");
    ctx.metric("sources", 1);
}

fn enumerations(ctx: &mut Ctx) {
    let key = |m: &NonRedundantAxisMove| -> (usize, [i32; 2]) {
        let mut x = [0, 0];
        for t in m.moves() {
            let t = Mv::from_axis_move(&t);
            x[usize::from(t.d < 0)] += t.k;
        }
        (unax(m.axis()), x)
    };
    let expected = |a: usize| -> HashSet<(usize, [i32; 2])> {
        (1..16).map(|i| (a, [i / 4, i % 4])).collect()
    };
    let check = |ctx: &mut Ctx, v: Vec<NonRedundantAxisMove>, want: HashSet<(usize, [i32; 2])>, what: String| {
        let got: HashSet<_> = v.iter().map(key).collect();
        ck!(ctx, v.len() == want.len() && got == want, "{what}: {} moves, {} of them different, {} expected: {v:?}", v.len(), got.len(), want.len());
        for m in &v {
            // each turn of the merged turn is on the axis it reports, each face at most once
            let w: Vec<Mv> = m.moves().map(|t| Mv::from_axis_move(&t)).collect();
            ck!(ctx, !w.is_empty() && w.iter().all(|t| t.a == unax(m.axis())) && redundant(&w).is_none(), "{what}: {m:?} stands for [{}]", word_str(&w));
            ctx.eval(hash_of(&(what.clone(), key(m))));
        }
    };
    let mut all = HashSet::new();
    for a in 0..3 {
        let v: Vec<_> = run!(ctx, NonRedundantAxisMove::of_axis(ax(a)).collect(), "of_axis");
        check(ctx, v, expected(a), format!("merged turns of axis {a}"));
        let axis = ax(a);
        let v: Vec<_> = run!(ctx, NonRedundantAxisMove::given_last_axis(&axis).collect(), "given_last_axis");
        let want = expected(a + 1).into_iter().chain(expected(a + 2)).map(|(a, x)| (a % 3, x)).collect();
        check(ctx, v, want, format!("merged turns after axis {a}"));
        all.extend(expected(a));
    }
    let v: Vec<_> = run!(ctx, NonRedundantAxisMove::all().collect(), "all");
    check(ctx, v, all, "all merged turns".into());
}

pub fn check(ctx: &mut Ctx) {
    ctx.rule = "exact length, no two turns of a face separated only by the opposite face, equal results for equal sources; enumerations compared as sets with the 15/30/45 expected".into();
    enumerations(ctx);
    let seeds = ctx.amount(40, 1500);
    for n in 0..=ctx.amount(120, 400) as usize {
        for s in 0..seeds {
            let seed = ctx.seed.wrapping_mul(0x1000193) ^ (s << 32) ^ n as u64;
            both(ctx, n, &format!("seed {seed}"), || StdRng::seed_from_u64(seed));
        }
    }
    for i in 0..ctx.amount(3000, 100_000) {
        let n = ctx.rng.gen_range(0..60);
        let (a, b) = (ctx.rng.gen::<u64>(), ctx.rng.gen::<u64>() | 1);
        both(ctx, n, &format!("counter {a} step {b}"), || StepRng::new(a, b));
        let words: Vec<u64> = (0..ctx.rng.gen_range(1..7)).map(|_| ctx.rng.gen::<u64>() >> ctx.rng.gen_range(0..64)).collect();
        let every = ctx.rng.gen_range(2..9);
        let seed = ctx.rng.gen();
        both(ctx, n, &format!("script {i}: {words:?} seed {seed}"), || Script {
            words: words.clone(),
            i: 0,
            noise: StdRng::seed_from_u64(seed),
            every,
        });
    }
    for n in lengths(&[255, 256, 257, 1000, 1023, 1024, 1025, 5000, 65_535, 65_536, 65_537, 200_003]) {
        both(ctx, n, "long", || StdRng::seed_from_u64(n as u64));
    }
    // the thread's own source
    let mut seen = HashSet::new();
    for i in 0..ctx.amount(3000, 30_000) {
        let n = (i % 40) as usize;
        let a = run!(ctx, Alg::<AxisMove>::random(n), "random algorithm");
        judge(ctx, &a, n, "the thread's source");
        let b = run!(ctx, Alg::<AxisMove>::random_unnormalized(n), "random algorithm");
        ck!(ctx, b.moves.len() == n, "an unnormalized random algorithm of length {n} has {} turns", b.moves.len());
        if n >= 30 {
            seen.insert(a.to_string());
        }
        ctx.sample(|| format!("[{a}]"));
    }
    ck!(ctx, seen.len() > 1, "all random algorithms are the same");
}
