//! Derivatives, nullability and emptiness on raw expressions, several roots at once, with
//! shared caches, in the original or in a compressed alphabet.
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::size::effort;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, ExprRef, RegexBuilder};
use serde_json::{json, Value};
use std::collections::HashMap;

/// Straight through the constructors of the expression set.
pub fn build(a: &Ast, x: &mut ExprSet, rng: &mut Rng) -> ExprRef {
    let mut sub = |v: &Vec<Ast>, x: &mut ExprSet, rng: &mut Rng| -> Vec<ExprRef> {
        v.iter().map(|k| build(k, x, rng)).collect()
    };
    match a {
        Ast::Eps => ExprRef::EMPTY_STRING,
        Ast::None => ExprRef::NO_MATCH,
        Ast::Set(s) => {
            let bs = s.bytes();
            if bs.len() == 1 && rng.chance(1, 2) {
                x.mk_byte(bs[0])
            } else {
                x.mk_byte_set(&s.words()[..x.alphabet_words()])
            }
        }
        Ast::Lit(v) => match String::from_utf8(v.clone()) {
            Ok(s) if rng.chance(1, 2) => x.mk_literal(&s),
            _ => x.mk_byte_literal(v),
        },
        Ast::Cat(v) => {
            let v = sub(v, x, rng);
            x.mk_concat(v)
        }
        Ast::Or(v) => {
            let v = sub(v, x, rng);
            x.mk_or(v)
        }
        Ast::And(v) => {
            let v = sub(v, x, rng);
            x.mk_and(v)
        }
        Ast::Not(k) => {
            let k = build(k, x, rng);
            x.mk_not(k)
        }
        Ast::Rep(k, mn, mx) => {
            let k = build(k, x, rng);
            x.mk_repeat(k, *mn, *mx)
        }
        Ast::Pre(k) => {
            let k = build(k, x, rng);
            x.mk_prefixes(k)
        }
        Ast::La(k) => {
            let k = build(k, x, rng);
            x.mk_lookahead(k, 0)
        }
    }
}

struct Node {
    null: bool,
    ne: Option<bool>,
    same: bool,
    nb: (u8, u8),
    row: Option<Box<[u32; 256]>>,
}

/// ask: 0 = emptiness at once or later, 1 = of every root at once, in order
fn case(id: usize, asts: &[Ast], compressed: bool, ask: usize, seed: u64, opt: &Opt) -> Value {
    let src = format!("compressed={compressed} {:?}", asts);
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let (set0, mut roots) = if rng.chance(1, 2) {
            let mut x = ExprSet::new(256);
            let r: Vec<ExprRef> = asts.iter().map(|a| build(a, &mut x, &mut rng)).collect();
            (x, r)
        } else {
            let mut b = RegexBuilder::new();
            let style = pick_style(&mut rng);
            let r: Vec<ExprRef> = asts
                .iter()
                .map(|a| {
                    let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
                    b.mk(&ra).unwrap()
                })
                .collect();
            (b.exprset().clone(), r)
        };
        let mut forced = vec![];
        let mut extra = vec![];
        if !compressed {
            for (k, r) in roots.iter().enumerate() {
                let mut asked = vec![];
                let w = some_word(&asts[k], &mut rng);
                for l in 1..=w.len().min(5) {
                    asked.push(w[..l].to_vec());
                }
                let mut w2 = w.clone();
                w2.push(b'a');
                asked.push(w2);
                if !w.is_empty() {
                    let mut w3 = w;
                    let at = rng.below(w3.len());
                    w3[at] ^= 1;
                    asked.push(w3);
                }
                for p in asked {
                    if set0.has_simply_forced_bytes(*r, &p) {
                        for b in &p {
                            extra.push(Ast::byte(*b));
                        }
                        forced.push(json!({"root": k + 1, "p": p}));
                    }
                }
            }
        }
        let (map, mut x): (Vec<usize>, ExprSet) = if compressed {
            let (alpha, x, r) = AlphabetInfo::from_exprset(&set0, &roots);
            roots = r;
            ((0..=255u8).map(|b| alpha.map(b)).collect(), x)
        } else {
            ((0..256).collect(), set0)
        };
        let mut dc = DerivCache::new();
        let mut rc = RelevanceCache::new();
        let mut nc = NextByteCache::new();
        let mut ids: Vec<ExprRef> = vec![];
        let mut idx: HashMap<ExprRef, usize> = HashMap::new();
        let mut st: Vec<Node> = vec![];
        let mut todo: Vec<usize> = vec![];
        let mut add = |e: ExprRef,
                       x: &mut ExprSet,
                       rc: &mut RelevanceCache,
                       nc: &mut NextByteCache,
                       ids: &mut Vec<ExprRef>,
                       st: &mut Vec<Node>,
                       todo: &mut Vec<usize>,
                       rng: &mut Rng|
         -> usize {
            if let Some(i) = idx.get(&e) {
                return *i;
            }
            ids.push(e);
            let ne = if (ask == 1 && st.len() < asts.len()) || rng.chance(1, 2) {
                Some(rc.is_non_empty(x, e))
            } else {
                None
            };
            st.push(Node {
                null: x.is_nullable(e),
                ne,
                same: true,
                nb: if compressed {
                    (3, 0)
                } else {
                    nb_code(nc.next_byte(x, e))
                },
                row: None,
            });
            idx.insert(e, st.len());
            todo.push(st.len() - 1);
            st.len()
        };
        let init: Vec<usize> = roots
            .iter()
            .map(|e| {
                add(
                    *e, &mut x, &mut rc, &mut nc, &mut ids, &mut st, &mut todo, &mut rng,
                )
            })
            .collect();
        let c0 = x.cost();
        let mut n = 0;
        while !todo.is_empty() {
            let at = match rng.below(3) {
                0 => 0,
                1 => todo.len() - 1,
                _ => rng.below(todo.len()),
            };
            let k = todo.remove(at);
            if n >= opt.lim.states || x.cost() - c0 > opt.lim.cost {
                continue;
            }
            n += 1;
            let mut row = Box::new([0u32; 256]);
            let start = rng.below(256);
            for o in 0..256usize {
                let b = (start + o) % 256;
                let d = dc.derivative(&mut x, ids[k], map[b] as u8);
                let i = add(
                    d, &mut x, &mut rc, &mut nc, &mut ids, &mut st, &mut todo, &mut rng,
                );
                row[b] = i as u32;
            }
            st[k].row = Some(row);
        }
        let mut order: Vec<usize> = (0..st.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i + 1));
        }
        for k in order {
            let again = if st[k].ne.is_none() && rng.chance(1, 2) {
                // a first answer from an empty cache
                RelevanceCache::new().is_non_empty(&mut x, ids[k])
            } else {
                rc.is_non_empty(&mut x, ids[k])
            };
            match st[k].ne {
                None => st[k].ne = Some(again),
                Some(a) => st[k].same = a == again,
            }
            if let Some(row) = &st[k].row {
                // the same derivative again
                let b = rng.below(256);
                let d = dc.derivative(&mut x, ids[k], map[b] as u8);
                st[k].same &= ids[row[b] as usize - 1] == d;
            }
            st[k].same &= st[k].null == x.is_nullable(ids[k]);
        }
        // distances to nullable nodes
        let g = Graph {
            st: st
                .iter()
                .map(|s| StateRec {
                    acc: s.null,
                    la: -1,
                    nb: s.nb,
                    same: s.same,
                    same2: true,
                    dead: false,
                    row: s.row.clone(),
                    word: vec![],
                })
                .collect(),
            ids: vec![],
            init: 1,
            partial: st.iter().any(|s| s.row.is_none()),
        };
        let d = distances(&g);
        let ex = Ast::Or(extra);
        let mut sets: Vec<&Ast> = asts.iter().collect();
        sets.push(&ex);
        let atoms = all_atoms(&sets, Some(&g));
        let (_, reps) = partition(&atoms, &rows(&g));
        let stj: Vec<Value> = g
            .st
            .iter()
            .enumerate()
            .map(|(k, s)| {
                let t: Vec<u32> = match &s.row {
                    None => vec![],
                    Some(r) => reps.iter().map(|b| r[*b as usize]).collect(),
                };
                json!({"null": s.acc, "ne": st[k].ne.unwrap(), "same": s.same, "t": t,
                    "d": d[k], "nb": s.nb.0, "nbb": s.nb.1})
            })
            .collect();
        json!({"panic": "", "reps": reps, "init": init, "st": stj, "forced": forced,
            "ast": asts.iter().map(|a| a.json(&reps)).collect::<Vec<_>>(),
            "skip": asts.iter().any(|a| a.size() > 9)})
    });
    let mut v = finish(res, id, "raw", &src, json!([]), seed);
    if v["forced"].is_null() {
        v["forced"] = json!([]);
    }
    v
}

/// A plausible beginning of a word of the expression.
fn some_word(a: &Ast, rng: &mut Rng) -> Vec<u8> {
    match a {
        Ast::Set(s) => s.bytes().first().map(|b| vec![*b]).unwrap_or_default(),
        Ast::Lit(v) => v.clone(),
        Ast::Cat(v) => v.iter().flat_map(|k| some_word(k, rng)).collect(),
        Ast::Or(v) | Ast::And(v) => {
            if v.is_empty() {
                vec![]
            } else {
                let k = rng.pick(v).clone();
                some_word(&k, rng)
            }
        }
        Ast::Rep(k, mn, _) => {
            let w = some_word(k, rng);
            w.repeat((*mn).clamp(1, 3) as usize)
        }
        Ast::Not(k) | Ast::Pre(k) | Ast::La(k) => some_word(k, rng),
        _ => vec![],
    }
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let opt = Opt::from(args);
    let mode = args.s("mode", "random");
    let mut rng = Rng::new(seed ^ 0x4A3);
    let all: Vec<Value> = if mode == "file" {
        let txt = std::fs::read_to_string(args.s("in", "")).unwrap();
        serde_json::from_str(&txt).unwrap()
    } else {
        vec![]
    };
    let stride = args.n("stride", 1) as usize;
    let count = if mode == "file" { all.len() / 3 } else { n };
    for k in 0..count {
        let compressed = match mode.as_str() {
            "plain" => false,
            "compressed" => true,
            _ => rng.chance(1, 2),
        };
        let asts: Vec<Ast> = if mode == "file" {
            if k % stride != seed as usize % stride {
                continue;
            }
            // three TLC-generated expressions far apart in the list, over the same letters
            let ls = letters(k);
            (0..3)
                .map(|j| Ast::from_json(&all[k + j * (all.len() / 3)], &ls))
                .collect()
        } else if mode == "wide" {
            (0..1 + rng.below(2)).map(|j| wide(&mut rng, k + j)).collect()
        } else {
            let np = 1 + rng.below(4);
            let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
            let cfg = match rng.below(3) {
                0 => Cfg::positive(),
                1 => Cfg::with_pre(),
                _ => Cfg::all(),
            };
            if k % 4 == 1 {
                // parts first, then what is made of them
                let m = 2 + rng.below(3);
                let mut v = if rng.chance(2, 3) {
                    gen::parts(&mut rng, m)
                } else {
                    (0..m)
                        .map(|_| {
                            let sz = 1 + rng.below(4);
                            gen::mixed(&mut rng, sz, &pool, &cfg, 300)
                        })
                        .collect()
                };
                for _ in 0..1 + rng.below(3) {
                    let a = gen::over(&mut rng, &v);
                    v.push(a);
                }
                v.retain(|a| effort(a, 10_000).is_some());
                if v.is_empty() {
                    continue;
                }
                let sd = rng.next() >> 12;
                out.begin(&json!({"fam": "raw", "src": format!("compressed={compressed} {:?}", v), "seed": sd}));
                let c = case(k + 1, &v, compressed, 1, sd, &opt);
                out.push(c);
                continue;
            }
            let m = 1 + rng.below(3);
            (0..m)
                .map(|_| {
                    let sz = 2 + rng.below(8);
                    let a = gen::mixed(&mut rng, sz, &pool, &cfg, 10_000);
                    if rng.chance(1, 3) {
                        let l = Ast::Lit((0..1 + rng.below(3)).map(|_| *rng.pick(b"ab")).collect());
                        Ast::Cat(vec![l, a])
                    } else {
                        a
                    }
                })
                .collect()
        };
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "raw", "src": format!("compressed={compressed} {:?}", asts), "seed": sd}));
        let c = case(k + 1, &asts, compressed, 0, sd, &opt);
        out.push(c);
    }
}
