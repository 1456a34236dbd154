//! Containment questions, and questions under fuel limits.
use crate::ast::*;
use crate::fam_ast::*;
use crate::fam_syntax as syn;
use crate::gen;
use crate::graph::*;
use crate::size::effort;
use crate::{Args, Out};
use derivre::raw::{DerivCache, RelevanceCache};
use derivre::{ExprRef, Regex, RegexAst, RegexBuilder};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Shortest word of the matcher, if one is found.
fn witness(rx: &mut Regex) -> Option<Vec<u8>> {
    let i = rx.initial_state();
    if i.is_dead() {
        return None;
    }
    let mut from: HashMap<derivre::StateID, Option<(derivre::StateID, u8)>> = HashMap::new();
    from.insert(i, None);
    let mut q = std::collections::VecDeque::from([i]);
    while let Some(s) = q.pop_front() {
        if rx.is_accepting(s) {
            let mut w = vec![];
            let mut c = s;
            while let Some(Some((p, b))) = from.get(&c) {
                w.push(*b);
                c = *p;
            }
            w.reverse();
            return Some(w);
        }
        if from.len() > 3000 {
            return None;
        }
        for b in 0..=255u8 {
            let t = rx.transition(s, b);
            if !t.is_dead() && !from.contains_key(&t) {
                from.insert(t, Some((s, b)));
                q.push_back(t);
            }
        }
    }
    None
}

/// Something that contains (or is contained in, or equals, or nearly does) the expression.
fn related(a: &Ast, rng: &mut Rng, pool: &[BSet], cfg: &Cfg, depth: usize) -> Ast {
    let x = |rng: &mut Rng| {
        let s = 1 + rng.below(3);
        random_ast(rng, s, pool, cfg)
    };
    if depth > 0 && rng.chance(2, 3) {
        let rel = |k: &Ast, rng: &mut Rng| related(k, rng, pool, cfg, depth - 1);
        match a {
            Ast::Cat(v) | Ast::Or(v) if !v.is_empty() => {
                let mut v = v.clone();
                let i = rng.below(v.len());
                v[i] = rel(&v[i], rng);
                return if matches!(a, Ast::Cat(_)) {
                    Ast::Cat(v)
                } else {
                    if rng.chance(1, 4) {
                        v.reverse();
                    }
                    Ast::Or(v)
                };
            }
            Ast::Rep(k, mn, mx) => {
                if rng.chance(1, 2) {
                    return Ast::rep(rel(k, rng), *mn, *mx);
                }
                // wider bounds, or the loop unrolled once
                if rng.chance(1, 2) {
                    return Ast::rep(
                        (**k).clone(),
                        mn.saturating_sub(rng.below(2) as u32),
                        if *mx == INF || rng.chance(1, 3) {
                            INF
                        } else {
                            mx + rng.below(2) as u32
                        },
                    );
                }
                if *mx == INF {
                    let rest = Ast::rep((**k).clone(), mn.saturating_sub(1), INF);
                    let once = Ast::Cat(vec![(**k).clone(), rest]);
                    return if *mn == 0 {
                        Ast::Or(vec![Ast::Eps, once])
                    } else {
                        once
                    };
                }
            }
            Ast::Set(s) => {
                return Ast::Set(s.union(rng.pick(pool)));
            }
            Ast::Lit(v) => {
                return Ast::Cat(v.iter().map(|b| Ast::byte(*b)).collect());
            }
            Ast::Not(k) => return Ast::not(rel(k, rng)),
            _ => {}
        }
    }
    match rng.below(8) {
        0 => a.clone(),
        1 => Ast::Or(vec![a.clone(), x(rng)]),
        2 => Ast::Or(vec![x(rng), a.clone()]),
        3 => Ast::not(Ast::not(a.clone())),
        4 if cfg.and > 0 => Ast::And(vec![a.clone(), x(rng)]),
        5 => Ast::rep(a.clone(), 0, 1 + rng.below(2) as u32),
        6 => Ast::Cat(vec![a.clone(), Ast::rep(x(rng), 0, 1)]),
        _ => Ast::Or(vec![Ast::Cat(vec![a.clone(), Ast::Eps]), x(rng)]),
    }
}

/// Two repetitions of one operand that is, perhaps, a repetition or a choice of lengths.
fn two_ranges(rng: &mut Rng, pool: &[BSet]) -> (Ast, Ast) {
    let x = match rng.below(4) {
        0 => Ast::Cat(vec![Ast::Set(rng.pick(pool).clone()), Ast::Set(rng.pick(pool).clone())]),
        _ => Ast::Set(rng.pick(pool).clone()),
    };
    let r = match rng.below(6) {
        0 => Ast::Or(vec![x.clone(), Ast::Cat(vec![x.clone(), x.clone(), x])]),
        1 => x,
        2 => Ast::rep(x, 0, 1 + rng.below(3) as u32),
        3 => Ast::rep(x, 1, 1 + rng.below(3) as u32),
        4 => Ast::rep(x, 2, 3),
        _ => Ast::rep(x, rng.below(3) as u32, INF),
    };
    let mut one = |rng: &mut Rng| {
        let lo = rng.below(4) as u32;
        let hi = if rng.chance(1, 4) { INF } else { lo + rng.below(4) as u32 };
        Ast::rep(r.clone(), lo, hi)
    };
    (one(rng), one(rng))
}

/// `a` and `b` can be given as trees and, perhaps, as patterns.
fn contain_case(
    id: usize,
    a: Option<&Ast>,
    b: Option<&Ast>,
    pa: Option<&str>,
    pb: Option<&str>,
    hist: &[String],
    seed: u64,
) -> Value {
    let src = match (a, b) {
        (Some(a), Some(b)) => format!("{:?} in {:?}", a, b),
        _ => format!("/{}/ in /{}/", pa.unwrap(), pb.unwrap()),
    };
    let tree = |p: &str, reps: &[u8]| {
        let h = syn::Flags::default().parser().parse(p).unwrap();
        syn::hir_json(&h, reps)
    };
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut ans: Vec<bool> = vec![];
        let mut wit = vec![];
        let mut bd = RegexBuilder::new();
        for round in 0..2 {
            if !hist.is_empty() || rng.chance(1, 3) {
                let more = syn::family(&mut rng, &syn::Flags::default());
                for p in if hist.is_empty() { &more[..] } else { hist } {
                    if rng.chance(1, 3) {
                        let _ = bd.is_contained_in(p, "(a|b|[c-x])*", rng.below(300) as u64);
                    } else {
                        let _ = bd.mk_regex(p);
                    }
                }
            }
            if round == 1 || rng.chance(1, 3) {
                // other uses of the builder in between
                let pool: Vec<BSet> = (0..2).map(|_| random_set(&mut rng)).collect();
                let other = random_ast(&mut rng, 5, &pool, &Cfg::all());
                let style = pick_style(&mut rng);
                let ra = to_regex_ast(&other, &mut bd, style, &mut rng).unwrap();
                let e = bd.mk(&ra).unwrap();
                bd.to_regex(e);
                let _ = bd.is_contained_in("a[bc]*", "(ab|ac|a)*", 10);
            }
            // the same parts in other questions
            if let (Some(pa), Some(pb)) = (pa, pb) {
                for (x, y) in [(pb, pa), (pa, pa), (pb, pb)] {
                    if rng.chance(1, 3) {
                        bd.is_contained_in(x, y, u64::MAX).unwrap();
                    }
                    if rng.chance(1, 6) {
                        let e = bd.mk_contained_in(x, y).unwrap();
                        bd.to_regex(e).always_empty();
                    }
                }
            }
            if let (Some(a), Some(b)) = (a, b) {
                let style = pick_style(&mut rng);
                for (x, y) in [(b, a), (a, a), (b, b)] {
                    if rng.chance(1, 4) {
                        let x = to_regex_ast(x, &mut bd, style, &mut rng).unwrap();
                        let y = to_regex_ast(y, &mut bd, style, &mut rng).unwrap();
                        let e = bd.mk_contained_in_ast(&x, &y).unwrap();
                        bd.to_regex(e).always_empty();
                    }
                }
            }
            if let (Some(pa), Some(pb)) = (pa, pb) {
                ans.push(bd.is_contained_in(pa, pb, u64::MAX).unwrap());
                let e = bd.mk_contained_in(pa, pb).unwrap();
                let mut rx = bd.to_regex(e);
                ans.push(rx.always_empty());
                if let Some(w) = witness(&mut rx) {
                    wit = vec![w];
                }
            }
            if let (Some(a), Some(b)) = (a, b) {
                let style = pick_style(&mut rng);
                let ra = to_regex_ast(a, &mut bd, style, &mut rng).unwrap();
                let rb = to_regex_ast(b, &mut bd, style, &mut rng).unwrap();
                let e = if rng.chance(1, 2) {
                    bd.mk_contained_in_ast(&ra, &rb).unwrap()
                } else {
                    let c = ra.contained_in(&rb);
                    bd.mk(&c).unwrap()
                };
                let mut rx = bd.to_regex(e);
                ans.push(rx.always_empty());
                if let Some(w) = witness(&mut rx) {
                    wit = vec![w];
                }
                let mut x = bd.exprset().clone();
                ans.push(!RelevanceCache::new().is_non_empty(&mut x, e));
            }
        }
        let mut atoms = vec![];
        for w in wit.iter().flatten() {
            atoms.push(BSet::one(*w));
        }
        for x in [a, b].into_iter().flatten() {
            x.atoms(&mut atoms);
        }
        if a.is_none() {
            for p in [pa.unwrap(), pb.unwrap()] {
                let h = syn::Flags::default().parser().parse(p).unwrap();
                syn::hir_atoms(&h, &mut atoms);
            }
        }
        atoms.sort();
        atoms.dedup();
        let (_, reps) = partition(&atoms, &[]);
        let (ja, jb) = match (a, b) {
            (Some(a), Some(b)) => (a.json(&reps), b.json(&reps)),
            _ => (tree(pa.unwrap(), &reps), tree(pb.unwrap(), &reps)),
        };
        json!({"panic": "", "ast": [ja, jb], "reps": reps, "ans": ans, "wit": wit})
    });
    finish(res, id, "contain", &src, json!([]), seed)
}

pub fn run_contain(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let limit = args.n("effort", 3000) as usize;
    let mode = args.s("mode", "random");
    let mut rng = Rng::new(seed ^ 0xC07);
    let all: Vec<Value> = if mode == "file" {
        serde_json::from_str(&std::fs::read_to_string(args.s("in", "")).unwrap()).unwrap()
    } else {
        vec![]
    };
    for k in 0..n {
        let sd;
        match mode.as_str() {
            "syntax" => {
                let fl = syn::Flags::default();
                let mut gen = |rng: &mut Rng| loop {
                    let mut d = syn::Cfg2 {
                        heavy: rng.chance(1, 20),
                        anchors: 0,
                    };
                    let sz = 1 + rng.below(5);
                    let p = syn::pat(rng, sz, &fl, &mut d);
                    if let Ok(h) = fl.parser().parse(&p) {
                        if h.properties().look_set().is_empty() {
                            return p;
                        }
                    }
                };
                let mut p = gen(&mut rng);
                let mut x = gen(&mut rng);
                // about patterns that resemble those the builder was used for before
                let mut hist = vec![];
                if rng.chance(1, 3) {
                    let mut f = syn::family(&mut rng, &fl);
                    f.retain(|p| match fl.parser().parse(p) {
                        Ok(h) => h.properties().look_set().is_empty(),
                        _ => false,
                    });
                    if f.len() > 2 {
                        for q in [&mut p, &mut x] {
                            if rng.chance(2, 3) {
                                *q = f.swap_remove(rng.below(f.len()));
                            }
                        }
                        hist = f;
                    }
                }
                if hist.is_empty() && rng.chance(1, 4) {
                    // made of simple parts, without any brackets
                    let part = |rng: &mut Rng| {
                        rng.pick(&["a", "b", "ab", "a*", "[ab]", "abc", "x", "c|d", "a|ab", "é", "bx?"])
                            .to_string()
                    };
                    p = part(&mut rng);
                    while rng.chance(1, 2) {
                        if rng.chance(1, 2) {
                            p.push('|');
                        }
                        p += &part(&mut rng);
                    }
                }
                let y = if rng.chance(1, 2) { "x".to_string() } else { gen(&mut rng) };
                let q = match rng.below(20) {
                    // as a text
                    10 => format!("{p}|{x}"),
                    11 => format!("{x}|{p}"),
                    12 => format!("{x}|{p}|{y}"),
                    13 => format!("({x}|{p}|{y})"),
                    14 => format!("{y}({x}|{p})"),
                    15 => format!("({p}|{x}){y}"),
                    16 => format!("{y}(?:{x}|{p}|b)?"),
                    17 => format!("{p}{y}"),
                    18 => format!("(?:{x}|{p}|{y}){{0,2}}"),
                    19 => format!("a({x}|{p}|{y})b|{y}"),
                    0 => format!("(?:{p})|(?:{x})"),
                    1 => format!("(?:{x})|(?:{p})"),
                    2 => format!("(?:{p})*"),
                    3 => format!("(?:{p})?"),
                    4 => format!("(?i:{p})"),
                    5 => "(?s:.)*".to_string(),
                    6 => format!("(?:{p})(?:{x})?"),
                    7 => format!("(?:{p}){{1,3}}"),
                    8 => p.clone(),
                    _ => x.clone(),
                };
                let (p, q) = if rng.chance(1, 4) { (q, p) } else { (p, q) };
                if fl.parser().parse(&p).is_err() || fl.parser().parse(&q).is_err() {
                    continue;
                }
                sd = rng.next() >> 12;
                out.begin(&json!({"fam": "contain", "src": format!("/{p}/ in /{q}/"), "seed": sd}));
                out.push(contain_case(k + 1, None, None, Some(&p), Some(&q), &hist, sd));
            }
            _ => {
                let (a, b) = if mode == "file" {
                    let ls = letters(rng.below(4));
                    let i = rng.below(all.len());
                    let j = rng.below(all.len());
                    (Ast::from_json(&all[i], &ls), Ast::from_json(&all[j], &ls))
                } else {
                    let np = 1 + rng.below(3);
                    let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
                    let cfg = if rng.chance(2, 3) {
                        Cfg::positive()
                    } else {
                        Cfg::all()
                    };
                    let sz = 2 + rng.below(6);
                    let (a, b) = if rng.chance(1, 6) {
                        two_ranges(&mut rng, &pool)
                    } else {
                        let a = gen::mixed(&mut rng, sz, &pool, &cfg, limit);
                        let b = related(&a, &mut rng, &pool, &cfg, 3);
                        (a, b)
                    };
                    if rng.chance(1, 4) {
                        (b, a)
                    } else {
                        (a, b)
                    }
                };
                sd = rng.next() >> 12;
                let q = Ast::And(vec![a.clone(), Ast::not(b.clone())]);
                if effort(&q, limit).is_none() {
                    continue;
                }
                out.begin(&json!({"fam": "contain", "src": format!("{:?} in {:?}", a, b), "seed": sd}));
                let (pa, pb) = (to_pattern(&a), to_pattern(&b));
                out.push(contain_case(
                    k + 1,
                    Some(&a),
                    Some(&b),
                    pa.as_deref(),
                    pb.as_deref(),
                    &[],
                    sd,
                ));
            }
        }
    }
}

// ------------------------------------------------------------------ fuel

const ERR: i64 = -1;

fn code(r: anyhow::Result<bool>) -> i64 {
    match r {
        Ok(b) => b as i64,
        Err(_) => ERR,
    }
}

/// Limits to try: small ones, and the smallest that suffices with its neighbours.
fn sweep(mut ask: impl FnMut(u64) -> i64, rng: &mut Rng) -> Vec<(u64, i64)> {
    let mut pts: Vec<u64> = vec![0, 1, 2, 3, 5, 10, 20, 50, 100, 1000, u64::MAX];
    // numbers whose low half is small
    let top = 1u64 << (31 + rng.below(33));
    pts.extend([1 << 32, top, top + rng.below(3) as u64, u64::MAX - 1]);
    let mut hi = 1u64;
    while ask(hi) == ERR && hi < 1 << 40 {
        hi *= 2;
    }
    if hi < 1 << 40 {
        let mut lo = 0;
        while lo + 1 < hi {
            let mid = (lo + hi) / 2;
            if ask(mid) == ERR {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        for d in 0..4 {
            pts.push(hi.saturating_sub(d));
            pts.push(hi + d);
        }
        for _ in 0..4 {
            pts.push(rng.below(2 * hi as usize + 1) as u64);
        }
    }
    pts.sort();
    pts.dedup();
    pts.into_iter().map(|f| (f, ask(f))).collect()
}

/// Unrelated uses of a builder.
fn work(b: &mut RegexBuilder, refs: &[ExprRef], rng: &mut Rng) {
    for _ in 0..1 + rng.below(4) {
        match rng.below(4) {
            0 => {
                let _ = b.is_contained_in("(a|bc)*d", "[a-d]*", 100000);
            }
            1 => {
                let e = b.mk_regex("[a-z]+é{2,5}|x{3,9}").unwrap();
                b.to_regex(e).is_match("ab");
            }
            2 => {
                let r = RegexAst::Not(Box::new(RegexAst::ExprRef(*rng.pick(refs))));
                let e = b.mk(&r).unwrap();
                b.to_regex(e);
            }
            _ => {
                for p in syn::family(rng, &syn::Flags::default()) {
                    let _ = b.mk_regex(&p);
                }
            }
        }
    }
}

/// A great deal of it.
fn heavy_work(b: &mut RegexBuilder, rng: &mut Rng) {
    let t = rng.below(1000);
    for i in 0..*rng.pick(&[40, 300, 1500]) {
        let _ = match i % 3 {
            0 => b.mk_regex(&format!("w{t}q{i}(a|b[x-z]{{2,4}})*k{i}")),
            1 => b.mk_regex(&format!("[a-f]{{{}}}n{t}|é{i}", 1 + i % 9)),
            _ => b.mk(&RegexAst::Literal(format!("word {i} of {t}"))),
        };
    }
}

fn fuel_case(id: usize, asts: &[Ast], zero: bool, seed: u64) -> Value {
    let src = format!("zero={zero} {:?}", asts);
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let refs: Vec<ExprRef> = asts
            .iter()
            .map(|a| {
                let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
                b.mk(&ra).unwrap()
            })
            .collect();
        // answers: 1 = non-empty, 0 = empty, -1 = error; one sweep per line
        let mut sweeps = vec![];
        let mut after = vec![];
        let line = |q: usize, kind: &str, v: Vec<(u64, i64)>| {
            json!({"q": q + 1, "kind": kind,
                   "a": v.iter().map(|(_, a)| *a).collect::<Vec<_>>(),
                   "f": v.iter().map(|(f, _)| f.to_string()).collect::<Vec<_>>()})
        };
        for (q, e) in refs.iter().enumerate() {
            let v = sweep(
                |f| code(b.to_regex_limited(*e, f).map(|mut r| !r.always_empty())),
                &mut rng,
            );
            let least = v.iter().find(|(_, a)| *a != ERR).map(|(f, _)| *f);
            sweeps.push(line(q, "to_regex_limited", v));
            if let Some(f) = least {
                // other work on the builder is not paid for by this question
                let mut b2 = b.clone();
                if rng.chance(1, 12) {
                    heavy_work(&mut b2, &mut rng);
                } else {
                    work(&mut b2, &refs, &mut rng);
                }
                let a = code(b2.to_regex_limited(*e, f).map(|mut r| !r.always_empty()));
                after.push(json!({"q": q + 1, "a": a, "f": f.to_string(), "kind": "to_regex_limited"}));
            }
            let x0 = b.exprset().clone();
            {
                let mut x = x0.clone();
                // everything that the search creates exists afterwards
                let exact = RelevanceCache::new().is_non_empty(&mut x, *e);
                let _ = exact;
                let (mut lo, mut hi) = (0u64, 1u64 << 40);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    let mut y = x.clone();
                    if RelevanceCache::new().is_non_empty_limited(&mut y, *e, mid).is_ok() {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                let mut rc = RelevanceCache::new();
                for _ in 0..3 {
                    let o = *rng.pick(&refs);
                    rc.is_non_empty(&mut x, o);
                    DerivCache::new().derivative(&mut x, o, rng.next() as u8);
                    x.mk_literal("work done before");
                }
                let a = code(RelevanceCache::new().is_non_empty_limited(&mut x, *e, hi));
                after.push(json!({"q": q + 1, "a": a, "f": hi.to_string(), "kind": "is_non_empty_limited"}));
            }
            let v = sweep(
                |f| {
                    let mut x = x0.clone();
                    code(RelevanceCache::new().is_non_empty_limited(&mut x, *e, f))
                },
                &mut rng,
            );
            sweeps.push(line(q, "is_non_empty_limited", v));
        }
        // patterns
        if asts.len() == 2 {
            if let (Some(p), Some(q)) = (to_pattern(&asts[0]), to_pattern(&asts[1])) {
                let v = sweep(
                    |f| {
                        let mut b = RegexBuilder::new();
                        code(b.is_contained_in(&p, &q, f).map(|c| !c))
                    },
                    &mut rng,
                );
                if let Some((f, _)) = v.iter().find(|(_, a)| *a != ERR) {
                    // what was enough is enough again, whatever was done in between
                    let mut b2 = RegexBuilder::new();
                    if rng.chance(1, 2) {
                        let _ = b2.is_contained_in(&p, &q, 0);
                    }
                    let a1 = code(b2.is_contained_in(&p, &q, *f).map(|c| !c));
                    if rng.chance(1, 2) {
                        heavy_work(&mut b2, &mut rng);
                    } else {
                        work(&mut b2, &[ExprRef::EMPTY_STRING], &mut rng);
                    }
                    let a2 = code(b2.is_contained_in(&p, &q, *f).map(|c| !c));
                    for a in [a1, a2] {
                        after.push(json!({"q": 3, "a": a, "f": f.to_string(), "kind": "is_contained_in"}));
                    }
                }
                sweeps.push(line(2, "is_contained_in", v));
                // always the same builder: more and more fuel
                let mut v = vec![];
                for f in [0, 1, 10, 50, 200, 1000, u64::MAX] {
                    v.push((f, code(b.is_contained_in(&p, &q, f).map(|c| !c))));
                }
                sweeps.push(line(2, "is_contained_in", v));
            }
        }
        // one emptiness cache, questions in any order and with any limits
        let mut x = b.exprset().clone();
        let mut rc = RelevanceCache::new();
        let mut log = vec![];
        for i in 0..12 {
            let q = rng.below(refs.len());
            let f = match rng.below(4) {
                0 => 0,
                1 => rng.below(30) as u64,
                2 => rng.below(500) as u64,
                _ => u64::MAX,
            };
            if i == 6 && rng.chance(1, 2) {
                rc = rc.clone();
            }
            let a = code(rc.is_non_empty_limited(&mut x, refs[q], f));
            log.push(json!({"q": q + 1, "max": f == u64::MAX, "a": a, "f": f.to_string()}));
        }
        for q in 0..refs.len() {
            let a = code(rc.is_non_empty_limited(&mut x, refs[q], u64::MAX));
            log.push(json!({"q": q + 1, "max": true, "a": a, "f": "max"}));
        }
        let mut atoms = vec![];
        for a in asts {
            a.atoms(&mut atoms);
        }
        let (_, reps) = partition(&atoms, &[]);
        json!({"panic": "", "reps": reps, "sweeps": sweeps, "log": log, "zero": zero, "after": after,
               "ast": asts.iter().map(|a| a.json(&reps)).collect::<Vec<_>>()})
    });
    finish(res, id, "fuel", &src, json!([]), seed)
}

pub fn run_fuel(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let limit = args.n("effort", 3000) as usize;
    let mut rng = Rng::new(seed ^ 0xF0E1);
    for k in 0..n {
        let mut zero = false;
        let np = 1 + rng.below(3);
        let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
        let asts = match rng.below(4) {
            0 => {
                // a search of several rounds, with or without success at the end
                zero = true;
                let m = 3 + rng.below(5) as u32;
                let s = Ast::Set(BSet::range(b'a', b'm'));
                let t = Ast::Set(BSet::range(b'g', b'z'));
                let e1 = Ast::byte(b'x');
                let e2 = Ast::byte(*rng.pick(b"xy"));
                vec![Ast::And(vec![
                    Ast::Cat(vec![Ast::rep(s, m, m), e1]),
                    Ast::Cat(vec![Ast::rep(t, m, m), e2]),
                ])]
            }
            1 => {
                let cfg = Cfg::positive();
                let sz = 2 + rng.below(6);
                let a = gen::mixed(&mut rng, sz, &pool, &cfg, limit);
                let b = related(&a, &mut rng, &pool, &cfg, 3);
                vec![a, b]
            }
            _ => (0..1 + rng.below(3))
                .map(|_| {
                    let sz = 3 + rng.below(7);
                    let a = gen::mixed(&mut rng, sz, &pool, &Cfg::all(), limit);
                    match rng.below(3) {
                        0 => Ast::And(vec![a.clone(), Ast::not(related(&a, &mut rng, &pool, &Cfg::all(), 2))]),
                        1 => Ast::Cat(vec![a, Ast::And(vec![Ast::rep(Ast::Set(pool[0]), 1, 4), Ast::Set(pool[0]).clone(), Ast::not(Ast::Eps)])]),
                        _ => a,
                    }
                })
                .collect(),
        };
        let sd = rng.next() >> 12;
        let mut hard = asts.iter().any(|a| effort(a, limit).is_none());
        if asts.len() == 2 {
            let q = Ast::And(vec![asts[0].clone(), Ast::not(asts[1].clone())]);
            hard |= effort(&q, limit).is_none();
        }
        if hard {
            continue;
        }
        out.begin(&json!({"fam": "fuel", "src": format!("{:?}", asts), "seed": sd}));
        out.push(fuel_case(k + 1, &asts, zero, sd));
    }
    let _ = |x: &RegexAst| x.clone();
}
