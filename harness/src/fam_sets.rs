//! Byte sets combined in an expression set (C20), folds over shared expressions (C21), and the
//! combination of next-byte answers (C07).
use crate::ast::*;
use crate::fam_ast::finish;
use crate::fam_raw;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet};
use derivre::{ExprRef, NextByte};
use serde_json::{json, Value};
use std::collections::HashMap;

fn words(n: usize, members: &[usize]) -> Vec<u32> {
    let mut w = vec![0u32; (n + 31) / 32];
    for m in members {
        w[m / 32] |= 1 << (m % 32);
    }
    w
}

/// what the expression says about every symbol
fn reads(x: &ExprSet, e: ExprRef, n: usize) -> (Vec<usize>, Vec<usize>) {
    let yes = (0..n).filter(|b| x.get(e).matches_byte(*b as u8)).collect();
    let no = (0..n).filter(|b| x.get(e).surely_no_match(*b as u8)).collect();
    (yes, no)
}

fn some_members(n: usize, rng: &mut Rng, known: &[Vec<usize>]) -> Vec<usize> {
    let edge = |rng: &mut Rng| match rng.below(3) {
        0 => (32 * rng.below(n / 32 + 1) + rng.below(3)).saturating_sub(1).min(n - 1),
        1 => n - 1,
        _ => rng.below(n),
    };
    match rng.below(7) {
        0 => vec![edge(rng)],
        1 => {
            let (a, b) = (edge(rng), edge(rng));
            (a.min(b)..=a.max(b)).collect()
        }
        2 => (0..n).filter(|_| rng.chance(1, 2)).collect(),
        3 => (0..rng.below(5)).map(|_| edge(rng)).collect(),
        4 if !known.is_empty() => {
            let k: Vec<usize> = rng.pick(known).clone();
            let t = edge(rng);
            // one more or one less
            if k.contains(&t) {
                k.into_iter().filter(|b| *b != t).collect()
            } else {
                [k, vec![t]].concat()
            }
        }
        5 if !known.is_empty() => {
            let k: Vec<usize> = rng.pick(known).clone();
            (0..n).filter(|b| !k.contains(b)).collect()
        }
        _ => (0..n).filter(|_| rng.chance(1, 8)).collect(),
    }
}

fn sets_case(id: usize, n: usize, ops: usize, seed: u64) -> Value {
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut x = ExprSet::new(n);
        let mut log: Vec<Value> = vec![];
        // what may be an operand: everything but the empty set
        let mut pool: Vec<ExprRef> = vec![ExprRef::ANY_BYTE];
        let mut known: Vec<Vec<usize>> = vec![];
        let mut asked: Vec<ExprRef> = vec![ExprRef::ANY_BYTE, ExprRef::NO_MATCH];
        for e in [ExprRef::ANY_BYTE, ExprRef::NO_MATCH] {
            let (yes, no) = reads(&x, e, n);
            let op = if e == ExprRef::ANY_BYTE { "all" } else { "none" };
            log.push(json!({"op": op, "args": [], "bits": [], "res": e.as_u32(), "yes": yes,
                "no": no}));
        }
        let mut dc = DerivCache::new();
        for _ in 0..ops {
            let some = |rng: &mut Rng| -> Vec<ExprRef> {
                let k = match rng.below(6) {
                    0 => 0,
                    5 => 3 + rng.below(5),
                    k => k,
                };
                (0..k).map(|_| *rng.pick(&pool)).collect()
            };
            let (op, a, bits): (&str, Vec<ExprRef>, Vec<usize>);
            let e = match rng.below(9) {
                0 => {
                    (op, a, bits) = ("byte", vec![], vec![rng.below(n)]);
                    x.mk_byte(bits[0] as u8)
                }
                1 | 2 => {
                    let v = some_members(n, &mut rng, &known);
                    (op, a, bits) = ("set", vec![], v);
                    x.mk_byte_set(&words(n, &bits))
                }
                3 => {
                    (op, a, bits) = ("or", some(&mut rng), vec![]);
                    x.mk_byte_set_or(&a)
                }
                4 => {
                    (op, a, bits) = ("negor", some(&mut rng), vec![]);
                    x.mk_byte_set_neg_or(&a)
                }
                5 => {
                    (op, a, bits) = ("not", vec![*rng.pick(&pool)], vec![]);
                    x.mk_byte_set_not(a[0])
                }
                6 => {
                    (op, a, bits) = ("and", vec![*rng.pick(&pool), *rng.pick(&pool)], vec![]);
                    x.mk_byte_set_and(a[0], a[1])
                }
                7 => {
                    (op, a, bits) = ("sub", vec![*rng.pick(&pool), *rng.pick(&pool)], vec![]);
                    x.mk_byte_set_sub(a[0], a[1])
                }
                _ => {
                    // something else happens meanwhile
                    let (p, q) = (*rng.pick(&pool), *rng.pick(&pool));
                    let c = x.mk_concat(vec![p, q]);
                    let o = x.mk_or(vec![p, c]);
                    let o = x.mk_repeat(o, 0, 3);
                    dc.derivative(&mut x, o, rng.below(n) as u8);
                    if rng.chance(1, 3) {
                        x = x.clone();
                    }
                    continue;
                }
            };
            let (yes, no) = reads(&x, e, n);
            log.push(json!({"op": op, "args": a.iter().map(|r| r.as_u32()).collect::<Vec<_>>(),
                "bits": bits, "res": e.as_u32(), "yes": yes, "no": no}));
            if e != ExprRef::NO_MATCH && !pool.contains(&e) {
                pool.push(e);
                known.push(yes);
            }
            if !asked.contains(&e) {
                asked.push(e);
            }
        }
        let again: Vec<Value> = asked
            .iter()
            .map(|e| {
                let (yes, no) = reads(&x, *e, n);
                let dv: Vec<u32> = (0..n)
                    .map(|b| dc.derivative(&mut x, *e, b as u8).as_u32())
                    .collect();
                json!({"id": e.as_u32(), "yes": yes, "no": no, "dv": dv,
                    "null": x.is_nullable(*e)})
            })
            .collect();
        json!({"panic": "", "n": n, "log": log, "again": again,
            "eps": ExprRef::EMPTY_STRING.as_u32(), "nothing": ExprRef::NO_MATCH.as_u32()})
    });
    let mut v = finish(res, id, "sets", &format!("{n} symbols, {ops} operations"), json!([]), seed);
    if v["panic"] != "" {
        v["n"] = json!(0);
        v["again"] = json!([]);
    }
    v
}

pub fn run_sets(args: &Args, out: &mut Out) {
    let mut rng = Rng::new(args.n("seed", 1) ^ 0x5E75);
    let n = args.n("n", 100) as usize;
    let ops = args.n("ops", 30) as usize;
    for id in 1..=n {
        let size = match rng.below(8) {
            0 => 256,
            1 => 2 + rng.below(3),
            2 => 31 + rng.below(3),
            3 => 63 + rng.below(3),
            4 => 250 + rng.below(7),
            _ => 2 + rng.below(100),
        };
        let sd = rng.next() >> 12;
        let ops = 3 + rng.below(ops);
        out.begin(&json!({"fam": "sets", "n": size, "ops": ops, "seed": sd}));
        out.push(sets_case(id, size, ops, sd));
    }
}

/// Folds over what is reachable from several roots, with caches that are kept.
fn share_case(id: usize, asts: &[Ast], seed: u64) -> Value {
    let src = format!("{:?}", asts);
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut x = ExprSet::new(256);
        let roots: Vec<ExprRef> = asts.iter().map(|a| fam_raw::build(a, &mut x, &mut rng)).collect();
        // every expression below the roots
        let mut nodes: Vec<ExprRef> = vec![];
        let mut num: HashMap<ExprRef, usize> = HashMap::new();
        let mut todo = roots.clone();
        while let Some(e) = todo.pop() {
            if num.contains_key(&e) {
                continue;
            }
            nodes.push(e);
            num.insert(e, nodes.len());
            todo.extend_from_slice(x.get_args(e));
        }
        let kids: Vec<Vec<usize>> = nodes
            .iter()
            .map(|e| x.get_args(*e).iter().map(|k| num[k]).collect())
            .collect();
        let is_cat = |e: ExprRef| format!("{:?}", x.get_tag(e)) == "Concat";
        let cat: Vec<bool> = nodes.iter().map(|e| is_cat(*e)).collect();
        let nullable: Vec<bool> = nodes.iter().map(|e| x.is_nullable(*e)).collect();
        let mut caches: [HashMap<ExprRef, u32>; 2] = [HashMap::new(), HashMap::new()];
        let mut pair: HashMap<(ExprRef, u8), u32> = HashMap::new();
        let mut log: Vec<Value> = vec![];
        let mut count = 0u32;
        for _ in 0..2 + rng.below(5) {
            let some = if rng.chance(1, 2) { &roots } else { &nodes };
            let r = *rng.pick(some);
            let how = rng.below(4);
            // results may be the same for several
            let coarse = rng.chance(1, 4);
            let mut vis: Vec<Value> = vec![];
            let noise = rng.chance(1, 2);
            let mut nrng = Rng::new(rng.next());
            let mut process = |x: &mut ExprSet, a: Vec<u32>, e: ExprRef| -> u32 {
                count += 1;
                let v = if coarse { count % 3 } else { count };
                if noise {
                    let k = *nrng.pick(&nodes);
                    let k = x.mk_concat(vec![k, e]);
                    x.mk_or(vec![k, ExprRef::EMPTY_STRING]);
                }
                vis.push(json!({"node": num.get(&e).copied().unwrap_or(0), "args": a, "res": v}));
                v
            };
            // 0: a cache of its own; 1, 2: one that is kept, whole or up to what cannot be
            // empty; 3: kept under another key
            let (name, out_) = match how {
                0 => (0, x.simple_map(r, &mut process)),
                1 => (1, x.map(r, &mut caches[0], false, |e| e, &mut process)),
                2 => (2, x.map(r, &mut caches[1], true, |e| e, &mut process)),
                _ => (3, x.map(r, &mut pair, true, |e| (e, 7), &mut process)),
            };
            log.push(json!({"root": num[&r], "cache": name, "cut": how >= 2, "visits": vis,
                "out": out_}));
        }
        json!({"panic": "", "kids": kids, "cat": cat, "null": nullable, "log": log})
    });
    let mut v = finish(res, id, "share", &src, json!([]), seed);
    if v["panic"] != "" {
        v["kids"] = json!([]);
    }
    v
}

pub fn run_share(args: &Args, out: &mut Out) {
    let mut rng = Rng::new(args.n("seed", 1) ^ 0x54A8);
    let n = args.n("n", 100) as usize;
    for id in 1..=n {
        let pool: Vec<BSet> = (0..1 + rng.below(3)).map(|_| random_set(&mut rng)).collect();
        let cfg = if rng.chance(1, 2) {
            Cfg::with_pre()
        } else {
            Cfg::all()
        };
        let k = 1 + rng.below(3);
        let mut asts: Vec<Ast> = vec![];
        for _ in 0..k {
            let size = 3 + rng.below(20);
            asts.push(if rng.chance(1, 3) {
                gen::special(&mut rng, size, &cfg)
            } else {
                random_ast(&mut rng, size, &pool, &cfg)
            });
        }
        if rng.chance(1, 20) {
            // many operands, most of which match the empty string
            let n = 40 + rng.below(110);
            let odd = *rng.pick(&[2, 10, 100, 1000]);
            let v: Vec<Ast> = (0..n)
                .map(|i| {
                    let b = Ast::byte((i % 130) as u8);
                    if rng.chance(1, odd) { b } else { Ast::rep(b, 0, 2 + (i % 3) as u32) }
                })
                .collect();
            asts = vec![match rng.below(4) {
                0 => Ast::Or(v),
                1 => Ast::And(v.into_iter().map(Ast::not).collect()),
                _ => Ast::Cat(v),
            }];
        } else if rng.chance(1, 2) {
            // parts that are met again
            let a = asts[0].clone();
            let b = asts[asts.len() - 1].clone();
            asts.push(Ast::Cat(vec![a.clone(), b.clone(), a.clone()]));
            asts.push(Ast::And(vec![Ast::not(b), Ast::Cat(vec![Ast::rep(a.clone(), 0, 2), a])]));
        }
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "share", "src": format!("{:?}", asts), "seed": sd}));
        out.push(share_case(id, &asts, sd));
    }
}

/// Both operators on next-byte answers, on all pairs.
pub fn run_lattice(_args: &Args, out: &mut Out) {
    let all = [
        NextByte::Dead,
        NextByte::ForcedEOI,
        NextByte::SomeBytes,
        NextByte::ForcedByte(0),
        NextByte::ForcedByte(1),
        NextByte::ForcedByte(b'a'),
        NextByte::ForcedByte(255),
    ];
    out.begin(&json!({"fam": "lattice"}));
    let mut v = vec![];
    for x in all {
        for y in all {
            let (a, o) = (nb_code(x & y), nb_code(x | y));
            v.push(json!({"x": nb_code(x), "y": nb_code(y), "and": a, "or": o}));
        }
    }
    out.push(json!({"id": 1, "fam": "lattice", "panic": "", "src": "", "pairs": v}));
}
