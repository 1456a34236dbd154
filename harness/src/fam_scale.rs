//! Large numbers: progressions of one letter whose combinations take many steps to decide
//! (unary), counts beyond 2^16 (counts), set operations on large finite sets of words (words),
//! and expression sets of more than 2^16 expressions (bulk).
use crate::ast::*;
use crate::graph::*;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet, RelevanceCache};
use derivre::{Regex, RegexAst, RegexBuilder, StateID};
use serde_json::{json, Value};

fn finish(id: usize, fam: &str, src: String, seed: u64, res: Result<Value, String>) -> Value {
    let mut v = match res {
        Ok(v) => v,
        Err(p) => json!({"panic": p}),
    };
    if v.get("panic").is_none() {
        v["panic"] = json!("");
    }
    v["id"] = json!(id);
    v["fam"] = json!(fam);
    v["src"] = json!(src);
    v["seed"] = json!(seed);
    v
}

// ---------------------------------------------------------------------------------------
// Sets of numbers n standing for the words a^n; a word with another byte is a word of its own.

#[derive(Clone, Debug)]
enum U {
    Prog(u32, u32),
    Range(u32, u32),
    And(Vec<U>),
    Or(Vec<U>),
    Not(Box<U>),
    Pre(Box<U>),
}

impl U {
    fn json(&self) -> Value {
        let n = |k: &str, a: u32, b: u32, v: Vec<Value>| json!({"k": k, "a": a, "b": b, "x": v});
        match self {
            U::Prog(p, r) => n("prog", *p, *r, vec![]),
            // an open range is one from a on, closed with b < a
            U::Range(a, b) if *b == INF => n("from", *a, 0, vec![]),
            U::Range(a, b) => n("range", *a, *b, vec![]),
            U::And(v) => n("and", 0, 0, v.iter().map(|u| u.json()).collect()),
            U::Or(v) => n("or", 0, 0, v.iter().map(|u| u.json()).collect()),
            U::Not(u) => n("not", 0, 0, vec![u.json()]),
            U::Pre(u) => n("pre", 0, 0, vec![u.json()]),
        }
    }
    fn tree(&self, rng: &mut Rng, letter: u8) -> RegexAst {
        let a = || RegexAst::Byte(letter);
        let rep = |x: RegexAst, lo: u32, hi: u32| RegexAst::Repeat(Box::new(x), lo, hi);
        match self {
            U::Prog(p, r) => {
                let block = |n: u32, rng: &mut Rng| {
                    if rng.chance(1, 2) {
                        rep(a(), n, n)
                    } else {
                        RegexAst::ByteLiteral(vec![letter; n as usize])
                    }
                };
                let tail = block(*r, rng);
                if *p == 0 {
                    return tail;
                }
                let round = block(*p, rng);
                let round = rep(round, 0, INF);
                RegexAst::Concat(if rng.chance(1, 2) {
                    vec![round, tail]
                } else {
                    vec![tail, round]
                })
            }
            U::Range(a1, b1) => rep(a(), *a1, *b1),
            U::And(v) => RegexAst::And(v.iter().map(|u| u.tree(rng, letter)).collect()),
            U::Or(v) => RegexAst::Or(v.iter().map(|u| u.tree(rng, letter)).collect()),
            U::Not(u) => RegexAst::Not(Box::new(u.tree(rng, letter))),
            U::Pre(u) => RegexAst::Prefixes(Box::new(u.tree(rng, letter))),
        }
    }
    fn pattern(&self, letter: char) -> Option<String> {
        Some(match self {
            U::Prog(0, r) => format!("{letter}{{{r}}}"),
            U::Prog(p, r) => format!("(?:{letter}{{{p}}})*{letter}{{{r}}}"),
            U::Range(a, b) if *b == INF => format!("{letter}{{{a},}}"),
            U::Range(a, b) => format!("{letter}{{{a},{b}}}"),
            U::Or(v) => {
                let v: Option<Vec<String>> = v.iter().map(|u| u.pattern(letter)).collect();
                format!("(?:{})", v?.join("|"))
            }
            _ => return None,
        })
    }
    fn period(&self) -> u64 {
        match self {
            U::Prog(p, _) => (*p).max(1) as u64,
            U::Range(..) => 1,
            U::And(v) | U::Or(v) => v.iter().map(|u| u.period()).fold(1, lcm),
            U::Not(u) | U::Pre(u) => u.period(),
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn lcm(a: u64, b: u64) -> u64 {
    a / gcd(a, b) * b
}

fn some_prog(rng: &mut Rng, g: u32, big: u32) -> U {
    match rng.below(8) {
        0 => {
            let lo = rng.below(big as usize) as u32;
            U::Range(lo, if rng.chance(1, 2) { INF } else { lo + rng.below(20) as u32 })
        }
        1 => U::Prog(0, rng.below(big as usize) as u32),
        _ => {
            // often with a common divisor, so that they may never meet
            let p = g * (1 + rng.below((big / g).max(1) as usize) as u32);
            U::Prog(p, rng.below(p as usize + 3) as u32)
        }
    }
}

fn some_tree(rng: &mut Rng, depth: usize, g: u32, big: u32, pre: bool) -> U {
    if depth == 0 {
        return some_prog(rng, g, big);
    }
    let sub = |rng: &mut Rng| some_tree(rng, depth - 1, g, big, pre);
    match rng.below(9) {
        0 => U::Or(vec![sub(rng), sub(rng)]),
        1 => U::Not(Box::new(sub(rng))),
        2 if pre => U::Pre(Box::new(sub(rng))),
        3 => some_prog(rng, g, big),
        4 => U::And(vec![sub(rng), U::Not(Box::new(sub(rng)))]),
        5 => U::And(vec![sub(rng), sub(rng), sub(rng)]),
        _ => U::And(vec![sub(rng), sub(rng)]),
    }
}

fn unary_case(id: usize, seed: u64, big: u32, limit: u64, what: &str) -> Value {
    let mut rng = Rng::new(seed);
    let pre = what == "pre";
    let (t, s, b) = loop {
        let g = 1 + rng.below(5) as u32;
        let big = if rng.chance(1, 2) { big } else { 12 };
        let d = 1 + rng.below(2);
        let t = some_tree(&mut rng, d, g, big, pre);
        let s = some_tree(&mut rng, rng_depth(seed), g, big, false);
        let b = some_tree(&mut rng, 1, g, big, false);
        if t.period() <= limit && lcm(s.period(), b.period()) <= limit {
            break (if pre { U::Pre(Box::new(t)) } else { t }, s, b);
        }
    };
    let src = format!("{t:?}; {s:?} in {b:?}");
    let letter = *rng.pick(b"a\x00\xffz");
    let res = guarded(|| {
        let mut bd = RegexBuilder::new();
        let tree = t.tree(&mut rng, letter);
        let e = bd.mk(&tree).unwrap();
        let mut probes = vec![];
        let mut empty = vec![];
        let mut sweep = vec![];
        let mut cont = vec![];
        if what != "fuel" && what != "contain" {
            // on its own, and after another byte
            let mut rx = bd.to_regex(e);
            empty.push(rx.always_empty());
            let mut step = |rx: &mut Regex, mut st: StateID, probes: &mut Vec<Value>| {
                let mut n = 0;
                let mut to = rng.below(3);
                for _ in 0..if st.is_dead() { 1 } else { 6 } {
                    while n < to {
                        st = rx.transition(st, letter);
                        n += 1;
                    }
                    probes.push(json!([n, rx.is_accepting(st), st.is_dead()]));
                    let o = rx.transition(st, 0x41);
                    probes.push(json!([-1, rx.is_accepting(o), o.is_dead()]));
                    let far = if rng.chance(1, 2) { 3 } else { big as usize };
                    to = n + 1 + rng.below(far);
                }
            };
            let i = rx.initial_state();
            step(&mut rx, i, &mut probes);
            let two = RegexAst::Or(vec![
                RegexAst::Concat(vec![RegexAst::Byte(b'x'), RegexAst::ExprRef(e)]),
                RegexAst::Byte(b'q'),
            ]);
            let two = bd.mk(&two).unwrap();
            let mut rx = bd.to_regex(two);
            let i = rx.initial_state();
            let i = rx.transition(i, b'x');
            empty.push(i.is_dead());
            step(&mut rx, i, &mut probes);
            let mut x = bd.exprset().clone();
            empty.push(!RelevanceCache::new().is_non_empty(&mut x, e));
        }
        if what == "fuel" {
            for l in [0, 1, 100, 1000, 5000, 20_000, 60_000, 70_000, 100_000, 1_000_000, 1 << 31,
                (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, u64::MAX - 1, u64::MAX] {
                sweep.push(match bd.to_regex_limited(e, l) {
                    Ok(mut r) => r.always_empty() as u8,
                    Err(_) => 2,
                });
            }
        }
        if what == "contain" {
            let mut ans = vec![];
            let mut bd = RegexBuilder::new();
            let (st, bt) = (s.tree(&mut rng, letter), b.tree(&mut rng, letter));
            for turn in 0..2 {
                let (st, bt) = if turn == 0 { (&st, &bt) } else { (&bt, &st) };
                let c = bd.mk_contained_in_ast(st, bt).unwrap();
                let mut v = vec![bd.to_regex(c).always_empty()];
                if letter == b'a' || letter == b'z' {
                    let (s, b) = if turn == 0 { (&s, &b) } else { (&b, &s) };
                    if let (Some(p), Some(q)) = (s.pattern(letter as char), b.pattern(letter as char)) {
                        v.push(bd.is_contained_in(&p, &q, u64::MAX).unwrap());
                    }
                }
                ans.push(v);
            }
            cont.push(json!({"s": s.json(), "b": b.json(), "ans": ans[0], "back": ans[1]}));
        }
        json!({"tree": t.json(), "empty": empty, "probes": probes, "sweep": sweep, "cont": cont})
    });
    finish(id, "unary", src, seed, res)
}

fn rng_depth(seed: u64) -> usize {
    (seed % 2) as usize
}

pub fn run_unary(args: &Args, out: &mut Out) {
    let (n, seed) = (args.n("n", 50) as usize, args.n("seed", 1));
    let what = args.s("what", "states");
    for i in 0..n {
        let s = seed.wrapping_mul(7919).wrapping_add(i as u64 * 17);
        out.begin(&json!({"unary": s}));
        let v = unary_case(i, s, args.n("big", 100) as u32, args.n("period", 6000), &what);
        out.push(v);
    }
}

// ---------------------------------------------------------------------------------------
// Sequences of counted words over different letters.

struct Item {
    w: Vec<u8>,
    lo: u32,
    hi: u32,
}

/// Texts are runs of these words.
fn counts_case(id: usize, seed: u64, huge: bool) -> Value {
    let mut rng = Rng::new(seed);
    let letters = b"abcdefghijkl";
    let mut at = 0;
    let k = 1 + rng.below(if huge { 2 } else { 4 });
    let mut items = vec![];
    for i in 0..k {
        let n = if rng.chance(3, 4) { 1 } else { 2 };
        let w = letters[at..at + n].to_vec();
        at += n;
        let top = if huge && i + 1 == k { 70_000 } else { 400 };
        let edge = |rng: &mut Rng| -> u32 {
            match rng.below(4) {
                0 => rng.below(4) as u32,
                1 if top > 1000 => 65_535 + rng.below(4) as u32,
                2 => [254, 255, 256, 257][rng.below(4)],
                _ => rng.below(top) as u32,
            }
        };
        let (a, b) = (edge(&mut rng), edge(&mut rng));
        let (mut lo, mut hi) = (a.min(b), a.max(b));
        match rng.below(6) {
            0 => hi = INF,
            1 => lo = hi,
            2 => lo = 0,
            _ => {}
        }
        if huge && i + 1 == k {
            // the count that matters is beyond 2^16
            hi = if rng.chance(1, 5) { INF } else { 65_536 + rng.below(3000) as u32 };
            if rng.chance(1, 3) && hi != INF {
                lo = hi;
            }
        }
        items.push(Item { w, lo, hi });
    }
    // the last ones may be a look-ahead
    let la = if rng.chance(1, 2) { 1 + rng.below(k) } else { k };
    let la = la.max(1);
    let shown: Vec<String> = items
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let s = String::from_utf8(x.w.clone()).unwrap();
            let hi = if x.hi == INF { String::new() } else { x.hi.to_string() };
            let s = format!("(?:{}){{{},{}}}", s, x.lo, hi);
            if i == la { format!("(?P<stop>{s}") } else { s }
        })
        .collect();
    let mut pat = shown.join("");
    if la < k {
        pat.push(')');
    }
    let src = pat.clone();
    let res = guarded(|| {
        let mut rx = if rng.chance(1, 2) {
            Regex::new(&pat).unwrap()
        } else {
            let mut v: Vec<RegexAst> = items
                .iter()
                .map(|x| RegexAst::Repeat(Box::new(RegexAst::ByteLiteral(x.w.clone())), x.lo, x.hi))
                .collect();
            if la < k {
                let rest = v.split_off(la);
                v.push(RegexAst::LookAhead(Box::new(RegexAst::Concat(rest))));
            }
            let mut bd = RegexBuilder::new();
            let e = bd.mk(&RegexAst::Concat(v)).unwrap();
            bd.to_regex(e)
        };
        let mut texts = vec![];
        for _ in 0..if huge { 10 } else { 8 } {
            let mut st = rx.initial_state();
            let mut log = vec![];
            let mut whole: Vec<u8> = vec![];
            let mut i = 0;
            let mut run = 0;
            while i < k && run < k + 2 {
                let x = &items[i];
                // a count near what is allowed, most often
                let n = match rng.below(if huge { 30 } else { 14 }) {
                    0 => rng.below(3) as u32,
                    1 => x.lo.saturating_sub(1 + rng.below(2) as u32),
                    2 if x.hi != INF => x.hi + 1 + rng.below(2) as u32,
                    3 | 4 => x.lo,
                    5 | 6 => x.lo + 1,
                    _ if x.hi == INF => x.lo + rng.below(if huge { 66_000 } else { 400 }) as u32,
                    7 | 8 => x.hi,
                    _ => x.lo + rng.below((x.hi - x.lo) as usize + 1) as u32,
                };
                if n > 0 {
                    for _ in 0..n {
                        st = rx.transition_bytes(st, &x.w);
                        whole.extend_from_slice(&x.w);
                    }
                    log.push(json!({"i": i + 1, "n": n, "acc": rx.is_accepting(st),
                        "dead": st.is_dead(), "la": la_code(rx.lookahead_len_for_state(st))}));
                    if x.w.len() > 1 {
                        // in the middle of the next one
                        let t = rx.transition(st, x.w[0]);
                        log.push(json!({"i": i + 1, "n": -1, "acc": rx.is_accepting(t),
                            "dead": t.is_dead(), "la": la_code(rx.lookahead_len_for_state(t))}));
                    }
                }
                run += 1;
                if !rng.chance(1, 12) {
                    i += 1;
                } else if rng.chance(1, 2) {
                    i = rng.below(k);
                }
            }
            let m = la_code(rx.lookahead_len_bytes(&whole));
            // in one call, and in two
            let i = rx.initial_state();
            let one = rx.transition_bytes(i, &whole);
            let cut = rng.below(whole.len() + 1);
            let two = rx.transition_bytes(i, &whole[..cut]);
            let two = rx.transition_bytes(two, &whole[cut..]);
            texts.push(json!({"runs": log,
                "end": [rx.is_accepting(st) as i64, la_code(rx.lookahead_len_for_state(st)), m,
                    la_code(rx.lookahead_len_for_state(one)), la_code(rx.lookahead_len_for_state(two))],
                "same": one == st && two == st}));
        }
        let it: Vec<Value> = items
            .iter()
            .map(|x| json!({"len": x.w.len(), "lo": x.lo,
                "hi": if x.hi == INF { -1 } else { x.hi as i64 }}))
            .collect();
        json!({"items": it, "la": la, "texts": texts})
    });
    finish(id, "counts", src, seed, res)
}

pub fn run_counts(args: &Args, out: &mut Out) {
    let (n, seed) = (args.n("n", 50) as usize, args.n("seed", 1));
    let huge = args.n("huge", 4) as usize;
    for i in 0..n {
        let s = seed.wrapping_mul(104729).wrapping_add(i as u64 * 31);
        out.begin(&json!({"counts": s}));
        let v = counts_case(i, s, i < huge);
        out.push(v);
    }
}

// ---------------------------------------------------------------------------------------
// Set operations on large finite sets of words.

#[derive(Clone, Debug)]
enum W {
    Set(Vec<Vec<u8>>),
    And(Vec<W>),
    Or(Vec<W>),
    Not(Box<W>),
    Pre(Box<W>),
}

impl W {
    fn json(&self) -> Value {
        let n = |k: &str, w: Vec<Vec<u8>>, v: Vec<Value>| json!({"k": k, "w": w, "x": v});
        match self {
            W::Set(w) => n("set", w.clone(), vec![]),
            W::And(v) => n("and", vec![], v.iter().map(|u| u.json()).collect()),
            W::Or(v) => n("or", vec![], v.iter().map(|u| u.json()).collect()),
            W::Not(u) => n("not", vec![], vec![u.json()]),
            W::Pre(u) => n("pre", vec![], vec![u.json()]),
        }
    }
    fn tree(&self, rng: &mut Rng) -> RegexAst {
        match self {
            W::Set(w) => {
                let mut w = w.clone();
                for i in (1..w.len()).rev() {
                    if rng.chance(1, 2) {
                        w.swap(i, rng.below(i + 1));
                    }
                }
                RegexAst::Or(w.into_iter().map(RegexAst::ByteLiteral).collect())
            }
            W::And(v) => RegexAst::And(v.iter().map(|u| u.tree(rng)).collect()),
            W::Or(v) => RegexAst::Or(v.iter().map(|u| u.tree(rng)).collect()),
            W::Not(u) => RegexAst::Not(Box::new(u.tree(rng))),
            W::Pre(u) => RegexAst::Prefixes(Box::new(u.tree(rng))),
        }
    }
}

fn words_case(id: usize, seed: u64, size: usize, pre: bool) -> Value {
    let mut rng = Rng::new(seed);
    // words that begin in many ways; the sets differ by little or have little in common
    let ways = 1 + rng.below(256);
    let apart = rng.chance(1, 2); // every beginning goes on in its own way
    let base: Vec<Vec<u8>> = {
        let len = 1 + rng.below(3);
        let mut v: Vec<Vec<u8>> = vec![];
        let n = if apart { ways } else { 1 + rng.below(size) };
        for i in 0..n {
            let mut w = vec![(i % ways) as u8];
            if apart {
                w.push(w[0].wrapping_mul(3));
            }
            for _ in 0..rng.below(len + 1) {
                w.push(if rng.chance(1, 2) { b'a' + rng.below(3) as u8 } else { w[0] });
            }
            v.push(w);
        }
        v.sort();
        v.dedup();
        v
    };
    let other = |rng: &mut Rng| -> W {
        let mut v = base.clone();
        match rng.below(5) {
            // everything goes on differently, but for a few
            0 | 1 => {
                let keep = rng.below(v.len());
                for (i, w) in v.iter_mut().enumerate() {
                    if i != keep {
                        w.push(b'0' + rng.below(2) as u8);
                    }
                }
                // the one that is kept comes in two ways, so that it is not the same expression
                let mut k = v[keep].clone();
                k.push(b'!');
                v.push(k);
            }
            2 => {
                let keep = rng.below(v.len());
                v = v.iter().enumerate().filter(|(i, _)| *i <= keep).map(|(_, w)| w.clone()).collect();
            }
            3 => {
                let gone = rng.below(v.len());
                v.remove(gone);
            }
            _ => {
                for w in v.iter_mut() {
                    if rng.chance(1, 3) {
                        let i = rng.below(w.len());
                        w[i] = w[i].wrapping_add(1);
                    }
                }
            }
        }
        W::Set(v)
    };
    let a = W::Set(base.clone());
    let b = other(&mut rng);
    let t = match rng.below(7) {
        0 => W::And(vec![a, W::Not(Box::new(b))]),
        1 => W::And(vec![b, W::Not(Box::new(a))]),
        2 => {
            let c = other(&mut rng);
            W::And(vec![a, b, c])
        }
        3 => W::Not(Box::new(W::Or(vec![W::Not(Box::new(a)), b]))),
        4 => W::Not(Box::new(W::Or(vec![W::Not(Box::new(a)), W::Not(Box::new(b))]))),
        _ => W::And(vec![a, b]),
    };
    let t = if pre || rng.chance(1, 12) { W::Pre(Box::new(t)) } else { t };
    let src = format!("{} words from {ways} bytes, {}", base.len(), match &t { W::And(_) => "and", W::Not(_) => "not", _ => "other" });
    let mut probe: Vec<Vec<u8>> = vec![vec![]];
    let last = match &t {
        W::And(v) => match &v[v.len() - 1] { W::Set(w) => w.clone(), _ => base.clone() },
        _ => base.clone(),
    };
    for _ in 0..24 {
        let from = if rng.chance(1, 2) { &base } else { &last };
        let mut w = rng.pick(from).clone();
        match rng.below(6) {
            0 => {
                w.pop();
            }
            1 => w.push(b'0' + rng.below(3) as u8),
            2 => {
                let i = rng.below(w.len());
                w[i] = w[i].wrapping_add(1);
            }
            3 => w.truncate(1),
            _ => {}
        }
        probe.push(w);
    }
    let res = guarded(|| {
        let mut bd = RegexBuilder::new();
        let tree = t.tree(&mut rng);
        let e = bd.mk(&tree).unwrap();
        let mut rx = bd.to_regex(e);
        let mut empty = vec![rx.always_empty()];
        if rng.chance(1, 3) {
            let mut x = bd.exprset().clone();
            empty.push(!RelevanceCache::new().is_non_empty(&mut x, e));
        }
        let i = rx.initial_state();
        let probes: Vec<Value> = probe
            .iter()
            .map(|w| {
                let s = rx.transition_bytes(i, w);
                json!({"w": w, "acc": rx.is_accepting(s), "dead": s.is_dead()})
            })
            .collect();
        json!({"tree": t.json(), "empty": empty, "probes": probes})
    });
    finish(id, "words", src, seed, res)
}

pub fn run_words(args: &Args, out: &mut Out) {
    let (n, seed) = (args.n("n", 50) as usize, args.n("seed", 1));
    for i in 0..n {
        let s = seed.wrapping_mul(15485863).wrapping_add(i as u64 * 13);
        out.begin(&json!({"words": s}));
        let v = words_case(i, s, args.n("size", 400) as usize, args.n("pre", 0) == 1);
        out.push(v);
    }
}

// ---------------------------------------------------------------------------------------
// Very many expressions in one set, one derivative cache, one emptiness cache.

fn name(i: usize) -> Vec<u8> {
    vec![b'a', (i >> 16) as u8, (i >> 8) as u8, i as u8]
}

fn bulk_case(id: usize, seed: u64, total: usize) -> Value {
    let mut rng = Rng::new(seed);
    let src = format!("{total} expressions");
    let res = guarded(|| {
        let mut bd = RegexBuilder::new();
        let mut all = vec![];
        for i in 0..total {
            let w = |i: usize| RegexAst::ByteLiteral(name(i));
            let no = |i: usize| RegexAst::Not(Box::new(w(i)));
            let t = match i % 6 {
                0 => w(i),
                1 => no(i),
                2 => RegexAst::Or(vec![w(i), RegexAst::Concat(vec![w(i), RegexAst::Byte(b'z')])]),
                3 => RegexAst::And(vec![no(i), no(i + 1)]),
                4 => RegexAst::Repeat(Box::new(w(i)), 0, 1),
                _ => RegexAst::And(vec![w(i), w(i + 6)]),
            };
            all.push(bd.mk(&t).unwrap());
        }
        let mut x: ExprSet = bd.exprset().clone();
        let (mut dc, mut rc) = (DerivCache::new(), RelevanceCache::new());
        // everything is asked once
        for e in &all {
            dc.derivative(&mut x, *e, b'a');
            rc.is_non_empty(&mut x, *e);
        }
        let mut log = vec![];
        for k in 0..160 {
            let i = match k % 4 {
                0 => rng.below(total),
                1 => total - 1 - rng.below(total / 20),
                2 => rng.below(total / 20),
                _ => (65_536usize.saturating_sub(20) + rng.below(40)).min(total - 1),
            };
            let mut probe = vec![name(i), name(i)[..2].to_vec(), vec![]];
            for j in [i + 1, i + 6, i + 65_536, i.saturating_sub(65_536), i ^ 256] {
                probe.push(name(j));
            }
            let mut z = name(i);
            z.push(b'z');
            probe.push(z);
            let mut rx = if k % 8 < 2 { Some(bd.to_regex(all[i])) } else { None };
            let mut answers = vec![];
            for w in &probe {
                let mut e = all[i];
                for b in w {
                    e = dc.derivative(&mut x, e, *b);
                }
                let mut a = vec![x.is_nullable(e)];
                if let Some(rx) = &mut rx {
                    a.push(rx.is_match_bytes(w));
                }
                answers.push(json!({"w": w, "acc": a, "live": rc.is_non_empty(&mut x, e)}));
            }
            log.push(json!({"i": i, "kind": i % 6, "probes": answers}));
        }
        json!({"log": log, "exprs": x.len()})
    });
    finish(id, "bulk", src, seed, res)
}

pub fn run_bulk(args: &Args, out: &mut Out) {
    let (n, seed) = (args.n("n", 2) as usize, args.n("seed", 1));
    for i in 0..n {
        let s = seed.wrapping_mul(6700417).wrapping_add(i as u64 * 11);
        out.begin(&json!({"bulk": s}));
        let v = bulk_case(i, s, args.n("total", 14_000) as usize);
        out.push(v);
    }
}
