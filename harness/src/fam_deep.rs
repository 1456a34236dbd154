//! Very deep and very wide expressions, on a thread with an ordinary stack; and the tree fold.
use crate::ast::*;
use crate::fam_ast::finish;
use crate::graph::*;
use crate::{Args, Out};
use derivre::{map_ast, ExprRef, Regex, RegexAst, RegexBuilder};
use serde_json::{json, Value};

/// What next_byte() says at the beginning: [code, byte].
fn next(rx: &mut Regex) -> [u8; 2] {
    let s = rx.initial_state();
    let (c, b) = nb_code(rx.next_byte(s));
    [c, b]
}

const STACK: usize = 2 << 20;

fn on_thread(f: impl FnOnce() -> Value + Send + 'static) -> Result<Value, String> {
    on_stack(STACK, f)
}

fn on_stack(size: usize, f: impl FnOnce() -> Value + Send + 'static) -> Result<Value, String> {
    let h = std::thread::Builder::new()
        .stack_size(size)
        .spawn(move || guarded(f))
        .unwrap();
    h.join().unwrap()
}

/// One layer around an expression. Membership of a word in layer(X) is decided by the word
/// or by membership of a part of it in X (see ConformDeep.tla).
type Layer = (&'static str, u8);

fn wrap(l: Layer, x: RegexAst) -> RegexAst {
    let c = RegexAst::Byte(l.1);
    match l.0 {
        "cat" => RegexAst::Concat(vec![c, x]),
        "tac" => RegexAst::Concat(vec![x, c]),
        "opt" => RegexAst::Repeat(Box::new(x), 0, 1),
        "not" => RegexAst::Not(Box::new(x)),
        "or" => RegexAst::Or(vec![c, x]),
        "ro" => RegexAst::Or(vec![x, c]),
        "andn" => RegexAst::And(vec![x, RegexAst::Not(Box::new(c))]),
        "all" => RegexAst::And(vec![
            RegexAst::Repeat(
                Box::new(RegexAst::ByteSet(BSet::full().words())),
                0,
                INF,
            ),
            x,
        ]),
        "none" => RegexAst::Or(vec![x, RegexAst::NoMatch]),
        "eps" => RegexAst::Concat(vec![RegexAst::EmptyString, x]),
        "one" => RegexAst::Repeat(Box::new(x), 1, 1),
        _ => unreachable!(),
    }
}

/// kinds of layers, most of which consume, with what they are wrapped in
fn layers(style: &str, n: usize, rng: &mut Rng) -> Vec<Layer> {
    let al = b"ab";
    let mut v: Vec<Layer> = vec![];
    while v.len() < n {
        let c = *rng.pick(al);
        match style {
            "cat" => v.push(("cat", c)),
            "tac" => v.push(("tac", c)),
            "opt" => {
                v.push(("opt", 0));
                v.push(("cat", c));
            }
            "or" => {
                v.push((if rng.chance(1, 2) { "or" } else { "ro" }, *rng.pick(al)));
                v.push(("cat", c));
            }
            "not" => {
                v.push(("not", 0));
                v.push(("cat", c));
            }
            "notnot" => v.push(("not", 0)),
            "trivial" => v.push(*rng.pick(&[
                ("none", 0),
                ("eps", 0),
                ("one", 0),
                ("all", 0),
                ("not", 0),
                ("not", 0),
            ])),
            "and" => {
                if rng.chance(1, 2) {
                    v.push(("andn", *rng.pick(al)));
                }
                v.push(("cat", c));
            }
            _ => {
                match rng.below(8) {
                    0 => v.push(("opt", 0)),
                    1 => v.push(("or", *rng.pick(al))),
                    2 => v.push(("ro", *rng.pick(al))),
                    3 => v.push(("none", 0)),
                    4 => v.push(("eps", 0)),
                    5 => v.push(("all", 0)),
                    6 => v.push(("one", 0)),
                    _ => {}
                }
                v.push(("cat", c));
            }
        }
    }
    v
}

/// A word that follows the layers from the outside for a while (or to the base).
fn a_word(v: &[Layer], base: u8, rng: &mut Rng) -> Vec<u8> {
    let consuming = v.iter().filter(|l| l.0 == "cat" || l.0 == "tac").count();
    let stop = match rng.below(4) {
        0 => rng.below(consuming + 1),
        _ => consuming,
    };
    let mut pre = vec![];
    let mut post = vec![];
    let mut n = 0;
    for l in v {
        if n == stop && stop < consuming {
            break;
        }
        match l.0 {
            "cat" => {
                pre.push(l.1);
                n += 1
            }
            "tac" => {
                post.push(l.1);
                n += 1
            }
            _ => {}
        }
    }
    if stop == consuming || rng.chance(1, 3) {
        pre.push(base);
    }
    post.reverse();
    pre.extend(post);
    // and nearly
    match rng.below(6) {
        0 if !pre.is_empty() => {
            let i = rng.below(pre.len());
            pre[i] ^= 3;
        }
        1 => pre.push(*rng.pick(b"abz")),
        2 if !pre.is_empty() => {
            pre.pop();
        }
        3 if !pre.is_empty() => {
            let i = pre.len() - 1 - rng.below(pre.len().min(3));
            pre[i] = *rng.pick(b"abz");
        }
        _ => {}
    }
    pre
}

fn nest_case(style: &'static str, n: usize, words: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let v = layers(style, n, &mut rng);
        let base = b'z';
        let mut b = RegexBuilder::new();
        let by_ref = rng.chance(1, 3);
        let mut x = RegexAst::Byte(base);
        for (i, l) in v.iter().rev().enumerate() {
            x = wrap(*l, x);
            if by_ref && i % 7 == 6 {
                x = RegexAst::ExprRef(b.mk(&x).unwrap());
            }
        }
        // the tree itself cannot be freed on a small stack
        let x: &'static RegexAst = Box::leak(Box::new(x));
        // x without nothing, or what is in everything and not outside x
        let e = match rng.below(4) {
            0 | 1 => b.mk_contained_in_ast(x, &RegexAst::NoMatch).unwrap(),
            2 => {
                let out: &'static RegexAst =
                    Box::leak(Box::new(RegexAst::Not(Box::new(RegexAst::ExprRef(b.mk(x).unwrap())))));
                let all = RegexAst::Repeat(
                    Box::new(RegexAst::ByteSet(BSet::full().words())),
                    0,
                    INF,
                );
                b.mk_contained_in_ast(&all, out).unwrap()
            }
            _ => b.mk(x).unwrap(),
        };
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        let mut ws = vec![];
        let mut acc = vec![];
        for _ in 0..words {
            let w = a_word(&v, base, &mut rng);
            acc.push(rx.is_match_bytes(&w));
            ws.push(w);
        }
        json!({"panic": "", "kind": "nest", "base": base, "words": ws, "acc": acc, "empty": empty, "nb": nb,
               "ops": v.iter().map(|l| l.0).collect::<Vec<_>>(),
               "cs": v.iter().map(|l| l.1).collect::<Vec<_>>()})
    });
    finish(res, 0, "deep", &format!("nest {style} {n}"), json!([]), seed)
}

/// Many operands: literals of length at most 4 (or with long shared beginnings).
fn wide_case(kind: &'static str, n: usize, words: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let lit = |rng: &mut Rng| -> Vec<u8> {
            (0..1 + rng.below(4)).map(|_| b'a' + rng.below(20) as u8).collect()
        };
        let mut lits: Vec<Vec<u8>> = (0..n).map(|_| lit(&mut rng)).collect();
        if kind == "cat" || kind == "early" || kind == "rep" {
            lits = vec![];
        }
        let mut sets: Vec<Vec<u8>> = vec![];
        let mut reps = (0, 0);
        let leaf = |v: &Vec<u8>| RegexAst::ByteLiteral(v.clone());
        let x = match kind {
            "or" => RegexAst::Or(lits.iter().map(leaf).collect()),
            "and" => RegexAst::And(
                lits.iter()
                    .map(|l| RegexAst::Not(Box::new(leaf(l))))
                    .collect(),
            ),
            "norm" => RegexAst::Not(Box::new(RegexAst::Or(lits.iter().map(leaf).collect()))),
            "cat" | "early" => {
                for _ in 0..n {
                    sets.push(match rng.below(3) {
                        0 => vec![b'a'],
                        1 => vec![b'b'],
                        _ => vec![b'a', b'b'],
                    });
                }
                RegexAst::Concat(
                    sets.iter()
                        .map(|s| {
                            let mut bs = BSet::empty();
                            for c in s {
                                bs.add(*c);
                            }
                            RegexAst::ByteSet(bs.words())
                        })
                        .collect(),
                )
            }
            "rep" => {
                reps = (n / 2, n);
                RegexAst::Repeat(
                    Box::new(RegexAst::Byte(b'a')),
                    reps.0 as u32,
                    reps.1 as u32,
                )
            }
            _ => unreachable!(),
        };
        let e = b.mk(&x).unwrap();
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        let mut ws = vec![];
        let mut acc = vec![];
        for i in 0..words {
            let w: Vec<u8> = match kind {
                // matching all of it would take quadratic time
                "early" => (0..rng.below(20)).map(|_| *rng.pick(b"ab")).collect(),
                "cat" => {
                    let mut w: Vec<u8> = sets.iter().map(|s| *rng.pick(s)).collect();
                    match i % 4 {
                        1 => {
                            let i = rng.below(w.len());
                            w[i] ^= 3;
                        }
                        2 => w.truncate(n - 1),
                        3 => w.push(b'a'),
                        _ => {}
                    }
                    w
                }
                "rep" => {
                    let l = *rng.pick(&[
                        reps.0,
                        reps.0 - 1,
                        reps.1,
                        reps.1 + 1,
                        (reps.0 + reps.1) / 2,
                        0,
                    ]);
                    let mut w = vec![b'a'; l];
                    if l > 0 && rng.chance(1, 4) {
                        w[rng.below(l)] = b'b';
                    }
                    w
                }
                _ => {
                    let mut w = if rng.chance(2, 3) {
                        rng.pick(&lits).clone()
                    } else {
                        lit(&mut rng)
                    };
                    if rng.chance(1, 4) {
                        w.push(b'a');
                    }
                    if rng.chance(1, 8) {
                        w.clear();
                    }
                    w
                }
            };
            acc.push(rx.is_match_bytes(&w));
            ws.push(w);
        }
        let kind = if kind == "early" { "cat" } else { kind };
        json!({"panic": "", "kind": kind, "words": ws, "acc": acc, "empty": empty, "nb": nb,
               "lits": lits, "sets": sets, "mn": reps.0, "mx": reps.1})
    });
    finish(res, 0, "deep", &format!("wide {kind} {n}"), json!([]), seed)
}

/// Emptiness of the intersection of two nested sequences of byte sets.
fn meet_case(n: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let letters = b"abc";
        let mut mk = |rng: &mut Rng| -> Vec<Vec<u8>> {
            (0..n)
                .map(|_| {
                    let skip = rng.below(4);
                    letters
                        .iter()
                        .enumerate()
                        .filter(|(i, _)| *i != skip)
                        .map(|(_, c)| *c)
                        .collect()
                })
                .collect()
        };
        let mut s1 = mk(&mut rng);
        let mut s2 = mk(&mut rng);
        if rng.chance(1, 2) {
            // one level at which they do not meet, perhaps at the end
            let i = if rng.chance(1, 2) {
                n - 1
            } else {
                rng.below(n)
            };
            s1[i] = vec![b'a'];
            s2[i] = vec![b'b', b'c'];
        }
        let mut b = RegexBuilder::new();
        let nest = |s: &Vec<Vec<u8>>, b: &mut RegexBuilder| -> ExprRef {
            let mut x = RegexAst::EmptyString;
            for l in s.iter().rev() {
                let mut bs = BSet::empty();
                for c in l {
                    bs.add(*c);
                }
                x = RegexAst::Concat(vec![RegexAst::ByteSet(bs.words()), x]);
            }
            let x: &'static RegexAst = Box::leak(Box::new(x));
            b.mk(x).unwrap()
        };
        let e1 = nest(&s1, &mut b);
        let e2 = nest(&s2, &mut b);
        let e = b
            .mk(&RegexAst::And(vec![
                RegexAst::ExprRef(e1),
                RegexAst::ExprRef(e2),
            ]))
            .unwrap();
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        json!({"panic": "", "kind": "meet", "words": [], "acc": [], "empty": empty, "nb": nb,
               "s1": s1, "s2": s2})
    });
    finish(res, 0, "deep", &format!("meet {n}"), json!([]), seed)
}

/// Whether deep expressions match the empty string, asked of the builder at several depths.
fn null_case(n: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let mut ops: Vec<&'static str> = vec!["base"];
        let mut ps: Vec<bool> = vec![rng.chance(1, 2)];
        let mut refs = vec![];
        let mut x = if ps[0] { RegexAst::EmptyString } else { RegexAst::Byte(b'z') };
        // operands that match the empty string: most often in sequences, rarely in unions
        let odd = *rng.pick(&[20, 1000, 1_000_000]);
        let plain = rng.chance(2, 3);
        let each = rng.chance(2, 3);
        for i in 0..n {
            let op = match i % 4 {
                0 | 2 => "cat",
                _ if plain || rng.chance(1, 2) => "or",
                _ => *rng.pick(&["or", "and", "not", "opt", "rep"]),
            };
            let p = (op != "or") != rng.chance(1, odd);
            let c = RegexAst::Byte(b'a' + rng.below(20) as u8);
            let o = match (p, rng.below(2)) {
                (false, _) => c,
                (_, 0) => RegexAst::Repeat(Box::new(c), 0, 1),
                _ => RegexAst::Repeat(Box::new(c), 0, INF),
            };
            let mut v = vec![o, x];
            if (op == "or" || op == "and") && rng.chance(1, 2) {
                v.reverse();
            }
            x = match op {
                // what is added behind a sequence has it copied
                "cat" => RegexAst::Concat(v),
                "or" => RegexAst::Or(v),
                "and" => RegexAst::And(v),
                "not" => RegexAst::Not(Box::new(v.pop().unwrap())),
                "opt" => RegexAst::Repeat(Box::new(v.pop().unwrap()), 0, 1),
                _ => RegexAst::Repeat(Box::new(v.pop().unwrap()), 2, 3),
            };
            ops.push(op);
            ps.push(p);
            if each || i + 1 == n {
                let y: &'static RegexAst = Box::leak(Box::new(x));
                let r = b.mk(y).unwrap();
                refs.push((i + 2, r));
                x = RegexAst::ExprRef(r);
            }
        }
        let mut ans = vec![];
        for k in 0..30.min(refs.len()) {
            let (i, r) = if k < 10 { refs[refs.len() - 1 - k] } else { *rng.pick(&refs) };
            ans.push(json!([i, b.is_nullable(r)]));
        }
        json!({"panic": "", "kind": "null", "words": [], "acc": [], "empty": false, "nb": [3, 0],
               "ops": ops, "ps": ps, "ans": ans})
    });
    finish(res, 0, "deep", &format!("null {n}"), json!([]), seed)
}

/// Emptiness, words and forced bytes of an intersection of repetitions of different lengths.
fn count_case(n: usize, words: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let parts = 2 + rng.below(2);
        let sets: Vec<Vec<u8>> = (0..parts)
            .map(|i| match (rng.below(6), i) {
                (0, _) => vec![b'a', b'b', b'c'],
                (1, 0) => vec![b'b'],
                (_, 0) => vec![b'a', b'b'],
                (_, 1) => vec![b'a', b'c'],
                _ => vec![b'a', b'd'],
            })
            .collect();
        let n = if rng.chance(1, 6) { rng.below(3) } else { n };
        let reps: Vec<(usize, usize)> = (0..parts)
            .map(|_| {
                let mn = match rng.below(5) {
                    0 => n.saturating_sub(1 + rng.below(3)),
                    1 => n + 1 + rng.below(3),
                    _ => n,
                };
                (mn, mn + *rng.pick(&[0, 0, 1, 2, 5]))
            })
            .collect();
        let mut b = RegexBuilder::new();
        let v = (0..parts)
            .map(|i| {
                let mut bs = BSet::empty();
                for c in &sets[i] {
                    bs.add(*c);
                }
                RegexAst::Repeat(
                    Box::new(RegexAst::ByteSet(bs.words())),
                    reps[i].0 as u32,
                    reps[i].1 as u32,
                )
            })
            .collect();
        let e = b.mk(&RegexAst::And(v)).unwrap();
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        let mut ws = vec![];
        let mut acc = vec![];
        for _ in 0..words {
            let l = (n + rng.below(8)).saturating_sub(3);
            let mut w = vec![b'a'; if rng.chance(1, 8) { rng.below(4) } else { l }];
            if l > 0 && !w.is_empty() && rng.chance(1, 3) {
                let i = rng.below(w.len());
                w[i] = *rng.pick(b"bcd");
            }
            acc.push(rx.is_match_bytes(&w));
            ws.push(w);
        }
        json!({"panic": "", "kind": "count", "words": ws, "acc": acc, "empty": empty, "nb": nb,
               "sets": sets, "mns": reps.iter().map(|r| r.0).collect::<Vec<_>>(),
               "mxs": reps.iter().map(|r| r.1).collect::<Vec<_>>()})
    });
    finish(res, 0, "deep", &format!("count {n}"), json!([]), seed)
}

/// Many beginnings of one long word: the alternation divides at every step.
fn chain_case(n: usize, words: usize, neg: bool, seed: u64) -> Value {
    // the number of members is limited by their total length, so a smaller stack (which only
    // holds while no larger one is cached for reuse: these cases run in their own process)
    let res = on_stack(STACK / 4, move || {
        let mut rng = Rng::new(seed);
        let n = if neg { n / 4 } else { n };
        let al: &[u8] = if rng.chance(1, 2) { b"a" } else { b"ab" };
        let base: Vec<u8> = (0..n).map(|_| *rng.pick(al)).collect();
        let mut lens: Vec<usize> = (0..=n).filter(|_| rng.chance(9, 10)).collect();
        for i in (1..lens.len()).rev() {
            lens.swap(i, rng.below(i + 1));
        }
        let mut b = RegexBuilder::new();
        let mut v = vec![];
        for l in &lens {
            let x = RegexAst::ByteLiteral(base[..*l].to_vec());
            v.push(if rng.chance(1, 2) {
                RegexAst::ExprRef(b.mk(&x).unwrap())
            } else {
                x
            });
        }
        let x = if neg {
            RegexAst::And(v.into_iter().map(|x| RegexAst::Not(Box::new(x))).collect())
        } else {
            RegexAst::Or(v)
        };
        let e = b.mk(&x).unwrap();
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        let mut ws = vec![];
        let mut acc = vec![];
        for _ in 0..words {
            let mut w = base[..rng.below(n.min(130))].to_vec();
            match rng.below(5) {
                0 if !w.is_empty() => {
                    let i = rng.below(w.len());
                    w[i] ^= 3;
                }
                1 => w.push(b'b'),
                _ => {}
            }
            acc.push(rx.is_match_bytes(&w));
            ws.push(w);
        }
        json!({"panic": "", "kind": "chain", "words": ws, "acc": acc, "empty": empty, "nb": nb,
               "chain": base, "lens": lens, "neg": neg})
    });
    finish(res, 0, "deep", &format!("chain {n}"), json!([]), seed)
}

/// A dictionary: many words over alphabets and stems of various sizes, asked about members
/// and about words made of the parts of members.
fn dict_case(n: usize, words: usize, seed: u64) -> Value {
    let res = on_thread(move || {
        let mut rng = Rng::new(seed);
        let n = n / (1 << rng.below(5));
        let mut al: Vec<u8> = (0..=255).collect();
        for i in 0..255 {
            al.swap(i, i + rng.below(256 - i));
        }
        al.truncate(*rng.pick(&[2, 5, 26, 50, 120, 256]));
        let part = |rng: &mut Rng, lo: usize, hi: usize, al: &[u8]| -> Vec<u8> {
            (0..rng.between(lo, hi)).map(|_| *rng.pick(al)).collect()
        };
        let nst = *rng.pick(&[0, 1, 5, 60]);
        let stems: Vec<Vec<u8>> = (0..nst).map(|_| part(&mut rng, 1, 6, &al)).collect();
        let ends: Vec<Vec<u8>> = (0..nst).map(|_| part(&mut rng, 1, 4, &al)).collect();
        let mut lits: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            let mut w = if nst > 0 && rng.chance(4, 5) {
                rng.pick(&stems).clone()
            } else {
                vec![]
            };
            w.extend(part(&mut rng, 1, 5, &al));
            if nst > 0 && rng.chance(1, 2) {
                w.extend(rng.pick(&ends));
            }
            lits.push(w);
        }
        let mut b = RegexBuilder::new();
        let mut v: Vec<RegexAst> = lits.iter().map(|l| RegexAst::ByteLiteral(l.clone())).collect();
        if rng.chance(1, 3) {
            // some of them first
            let m = rng.below(n.max(2));
            let rest = v.split_off(m);
            let e = b.mk(&RegexAst::Or(v)).unwrap();
            v = rest;
            v.push(RegexAst::ExprRef(e));
        }
        let neg = rng.chance(1, 4);
        let x = if neg {
            RegexAst::Not(Box::new(RegexAst::Or(v)))
        } else {
            RegexAst::Or(v)
        };
        let e = b.mk(&x).unwrap();
        let mut rx = b.to_regex(e);
        let empty = rx.always_empty();
        let nb = next(&mut rx);
        let mut ws = vec![];
        let mut acc = vec![];
        for i in 0..words {
            let mut w = rng.pick(&lits).clone();
            match i % 6 {
                0 | 1 => {}
                2 => {
                    let o = rng.pick(&lits).clone();
                    let (p, q) = (rng.below(w.len() + 1), rng.below(o.len() + 1));
                    w.truncate(p);
                    w.extend(&o[q..]);
                }
                3 => {
                    let p = rng.below(w.len());
                    w[p] = *rng.pick(&al);
                }
                4 => {
                    w.pop();
                }
                _ => w.push(*rng.pick(&al)),
            }
            acc.push(rx.is_match_bytes(&w));
            ws.push(w);
        }
        json!({"panic": "", "kind": if neg { "norm" } else { "or" }, "words": ws, "acc": acc,
               "empty": empty, "nb": nb, "lits": lits})
    });
    finish(res, 0, "deep", &format!("dict {n}"), json!([]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 10) as usize;
    let mul = args.n("scale", 100) as usize;
    let words = args.n("words", 4) as usize;
    let mut rng = Rng::new(seed ^ 0xDEE9);
    let kinds: &[(&'static str, &'static str, usize)] = &[
        ("nest", "cat", 13000),
        ("nest", "tac", 1500),
        ("nest", "opt", 30000),
        ("nest", "or", 30000),
        ("nest", "not", 30000),
        ("nest", "notnot", 30000),
        ("nest", "trivial", 30000),
        ("nest", "and", 3000),
        ("nest", "mix", 30000),
        ("wide", "or", 20000),
        ("wide", "and", 20000),
        ("wide", "norm", 20000),
        ("wide", "cat", 2500),
        ("wide", "rep", 20000),
        ("wide", "early", 30000),
        ("meet", "", 3000),
        ("null", "null", 40000),
        ("count", "count", 50000),
        ("chain", "chain", 7000),
        ("dict", "dict", 6000),
    ];
    let only = args.s("only", "");
    let kinds: Vec<_> = kinds
        .iter()
        .filter(|x| if only.is_empty() { x.1 != "chain" && x.1 != "null" } else { only == x.1 })
        .collect();
    for k in 0..n {
        let (f, kind, size) = *kinds[k % kinds.len()];
        let size = (size * mul / 100).max(4);
        let size = size - rng.below(size / 4);
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "deep", "src": format!("{f} {kind} {size}"), "seed": sd}));
        let t = std::time::Instant::now();
        let c = match f {
            "nest" => nest_case(kind, size, words, sd),
            "wide" => wide_case(kind, size, words * 10, sd),
            "null" => null_case(size, sd),
            "count" => count_case(size, words * 2, sd),
            "chain" => chain_case(size, words * 10, k / kinds.len() % 3 == 1, sd),
            "dict" => dict_case(size, words * 100, sd),
            _ => meet_case(size, sd),
        };
        if args.n("time", 0) == 1 {
            eprintln!("{f} {kind} {size} {:?} {}", t.elapsed(), c["panic"]);
        }
        out.push(c);
    }
}

// ------------------------------------------------------------------ the tree fold

struct Tree {
    id: usize,
    kids: Vec<Tree>,
}

fn build(kids: &[Vec<usize>], id: usize) -> Tree {
    Tree {
        id,
        kids: kids[id - 1].iter().map(|k| build(kids, *k)).collect(),
    }
}

fn chain(n: usize, rng: &mut Rng) -> (Tree, Vec<Vec<usize>>) {
    // a spine with some leaves on either side; built from the inside
    let mut kids: Vec<Vec<usize>> = vec![vec![]; 1];
    let mut t = Tree {
        id: 1,
        kids: vec![],
    };
    while kids.len() < n {
        let l = rng.below(3);
        let r = rng.below(2);
        let mut v = vec![];
        for _ in 0..l {
            kids.push(vec![]);
            v.push(Tree {
                id: kids.len(),
                kids: vec![],
            });
        }
        v.push(t);
        for _ in 0..r {
            kids.push(vec![]);
            v.push(Tree {
                id: kids.len(),
                kids: vec![],
            });
        }
        kids.push(v.iter().map(|k| k.id).collect());
        t = Tree {
            id: kids.len(),
            kids: v,
        };
    }
    (t, kids)
}

/// `fail`: number of the visit that reports an error (0: none)
fn fold(t: Tree, kids: Vec<Vec<usize>>, fail: usize, src: String, seed: u64) -> Value {
    let root = t.id;
    let res = on_thread(move || {
        let t: &'static Tree = Box::leak(Box::new(t));
        let mut log = vec![];
        let mut n = 0;
        let r = map_ast(
            t,
            |t: &Tree| &t.kids[..],
            |t: &Tree, args: Vec<usize>| {
                n += 1;
                // results are unlike node numbers
                log.push(json!({"node": t.id, "args": args, "res": n + 100000}));
                if n == fail {
                    anyhow::bail!("stop {}", n);
                }
                Ok(n + 100000)
            },
        );
        let (out, err) = match r {
            Ok(v) => (v, String::new()),
            Err(e) => (0, e.to_string()),
        };
        let want = if fail > 0 {
            format!("stop {fail}")
        } else {
            String::new()
        };
        json!({"panic": "", "root": root, "log": log, "out": out, "ok": err.is_empty(),
               "msg": err == want, "fail": fail, "kids": kids})
    });
    finish(res, 0, "fold", &src, json!([]), seed)
}

pub fn run_fold(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let mut rng = Rng::new(seed ^ 0xF01D);
    if args.s("mode", "random") == "file" {
        // children lists of every small tree; node 1 is the root
        let all: Vec<Vec<Vec<usize>>> =
            serde_json::from_str(&std::fs::read_to_string(args.s("in", "")).unwrap()).unwrap();
        for kids in all {
            for fail in 0..=kids.len() {
                out.begin(&json!({"fam": "fold", "src": format!("{:?} fail {fail}", kids)}));
                let t = build(&kids, 1);
                out.push(fold(t, kids.clone(), fail, format!("{:?}", kids), 0));
            }
        }
        return;
    }
    let n = args.n("n", 20) as usize;
    let size = args.n("size", 20000) as usize;
    for k in 0..n {
        let m = match k % 3 {
            0 => size - rng.below(size / 4),
            _ => 1 + rng.below(200),
        };
        let sd = rng.next() >> 12;
        let src = format!("random tree {m}");
        out.begin(&json!({"fam": "fold", "src": src, "seed": sd}));
        let (t, kids) = if k % 6 == 3 {
            // wide
            let kids: Vec<Vec<usize>> = std::iter::once((2..=m + 1).collect())
                .chain((0..m).map(|_| vec![]))
                .collect();
            (build(&kids, 1), kids)
        } else {
            chain(m, &mut rng)
        };
        let fail = if rng.chance(1, 2) {
            0
        } else {
            1 + rng.below(kids.len())
        };
        out.push(fold(t, kids, fail, src, sd));
    }
}
