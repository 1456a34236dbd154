//! Expressions built through the builder; the resulting automaton is recorded.
use crate::ast::*;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::{Regex, RegexBuilder};
use serde_json::{json, Value};

#[derive(Clone, Copy)]
pub struct Opt {
    pub lim: Limits,
    pub api: bool,
    pub map: bool,
}

impl Opt {
    pub fn from(args: &Args) -> Opt {
        Opt {
            lim: Limits {
                states: args.n("states", 40) as usize,
                cost: args.n("cost", 200_000),
            },
            api: args.n("api", 0) == 1,
            map: args.n("map", 0) == 1,
        }
    }
}

pub fn run_case(id: usize, fam: &str, a: &Ast, seed: u64, opt: &Opt) -> Value {
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        if rng.chance(1, 4) {
            // unrelated earlier use of the builder
            let pool: Vec<BSet> = (0..3).map(|_| random_set(&mut rng)).collect();
            let other = random_ast(&mut rng, 4, &pool, &Cfg::positive());
            let r = to_regex_ast(&other, &mut b, Style::Mixed, &mut rng).unwrap();
            b.mk(&r).unwrap();
        }
        let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
        let e = b.mk(&ra).unwrap();
        let is_null = b.is_nullable(e);
        let mut rx = b.to_regex(e);
        record(&mut rx, &[a], a, is_null, &mut rng, opt)
    });
    finish(res, id, fam, &format!("{:?}", a), a.json(&[]), seed)
}

/// Everything the interface says about a matcher.
pub fn record(
    rx: &mut Regex,
    sets_of: &[&Ast],
    a: &Ast,
    is_null: bool,
    rng: &mut Rng,
    opt: &Opt,
) -> Value {
    let cold = rx.clone();
    let empty = rx.always_empty();
    let g = explore(rx, &opt.lim, rng);
    // whole-string interfaces on the breadth-first words, on a clone with empty caches
    let mut cold = cold;
    let init = rx.initial_state();
    let mut api = vec![];
    if opt.api {
        let all = g.st.len() <= 12;
        for (k, s) in g.st.iter().enumerate() {
            let ask = all || rng.chance(12, g.st.len());
            if !ask {
                continue;
            }
            let m = cold.is_match_bytes(&s.word);
            let l = la_code(cold.lookahead_len_bytes(&s.word));
            let same = rx.transition_bytes(init, &s.word) == g.ids[k];
            let txt = match std::str::from_utf8(&s.word) {
                Ok(t) => {
                    if rng.chance(1, 2) {
                        cold.is_match(t) == m && la_code(cold.lookahead_len(t)) == l
                    } else {
                        rx.is_match(t) == m && la_code(rx.lookahead_len(t)) == l
                    }
                }
                Err(_) => true,
            };
            api.push(json!({"s": k + 1, "m": m, "l": l, "tb": same, "txt": txt}));
        }
    }
    let atoms = all_atoms(sets_of, Some(&g));
    let (cls, reps) = partition(&atoms, &rows(&g));
    let mut st = graph_json(&g, &reps);
    // states that were not expanded, but something was said to be forced in: which bytes fail
    let mut left = 60;
    for (k, s) in g.st.iter().enumerate() {
        if left > 0 && s.row.is_none() && (s.nb.0 == 1 || s.nb.0 == 2) {
            left -= 1;
            let fails = |b: &u8| rx.transition(g.ids[k], *b).is_dead();
            st[k]["fails"] = json!(reps.iter().map(fails).collect::<Vec<_>>());
        }
    }
    let mut v = json!({"panic": "", "ast": a.json(&reps), "reps": reps, "init": g.init,
           "st": st, "empty": empty, "null": is_null, "partial": g.partial,
           "api": api, "skip": a.size() > 9});
    if opt.map {
        let alpha = rx.alpha();
        let map: Vec<usize> = (0..=255u8).map(|b| alpha.map(b)).collect();
        let inv: Vec<i64> = (0..alpha.len().min(256))
            .map(|v| alpha.inv_map(v).map(|b| b as i64).unwrap_or(-1))
            .collect();
        v["map"] = json!(map);
        v["inv"] = json!(inv);
        v["cls"] = json!(cls.iter().map(|c| c + 1).collect::<Vec<_>>());
        v["len"] = json!(alpha.len());
    }
    v
}

pub fn finish(
    res: Result<Value, String>,
    id: usize,
    fam: &str,
    src: &str,
    ast: Value,
    seed: u64,
) -> Value {
    let mut v = match res {
        Ok(v) => v,
        Err(p) => json!({"panic": p, "ast": ast, "free": false, "log": [], "roots": [], "reps": [], "init": 0, "st": [],
            "empty": false, "null": false, "partial": true, "api": [], "skip": true}),
    };
    v["id"] = json!(id);
    v["fam"] = json!(fam);
    v["src"] = json!(src);
    v["seed"] = json!(seed);
    v
}

pub fn letters(k: usize) -> Vec<BSet> {
    // concretisations of the three abstract letters of generated expressions; they always
    // cover all bytes
    let l = |a: BSet, b: BSet| vec![a, b, a.union(&b).not()];
    match k % 4 {
        0 => l(BSet::one(b'a'), BSet::one(b'b')),
        1 => l(BSet::range(0x80, 0xff), BSet::one(0)),
        2 => l(BSet::range(b'a', b'm'), BSet::range(b'n', b'z')),
        _ => l(BSet::one(0xff), BSet::range(0x1f, 0x20)),
    }
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let mode = args.s("mode", "all");
    let opt = Opt::from(args);
    let mut rng = Rng::new(seed ^ 0xA57);
    if mode == "file" {
        // TLC-generated expressions; every `stride`-th from an offset given by the seed
        let txt = std::fs::read_to_string(args.s("in", "")).unwrap();
        let all: Value = serde_json::from_str(&txt).unwrap();
        let all = all.as_array().unwrap();
        let stride = args.n("stride", 1) as usize;
        let off = seed as usize % stride;
        for (k, v) in all.iter().enumerate() {
            if k % stride != off {
                continue;
            }
            let a = Ast::from_json(v, &letters(k / stride));
            let sd = rng.next() >> 12;
            out.begin(&json!({"fam": "small", "src": format!("{:?}", a), "seed": sd}));
            let c = run_case(k + 1, "small", &a, sd, &opt);
            out.push(c);
        }
        return;
    }
    for k in 0..n {
        let a = match mode.as_str() {
            "all" | "positive" | "pre" => {
                let np = 1 + rng.below(5);
                let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
                let cfg = match mode.as_str() {
                    "all" => Cfg::all(),
                    "positive" => Cfg::positive(),
                    _ => Cfg::with_pre(),
                };
                let size = args.n("minsize", 3) as usize
                    + rng.below(args.n("spread", 9) as usize);
                gen::mixed(&mut rng, size, &pool, &cfg, args.n("effort", 20_000) as usize)
            }
            "wide" => wide(&mut rng, k),
            "trie" => trie(&mut rng, k),
            "crowd" => crowd(&mut rng),
            "lit" => literal(&mut rng, k),
            m => panic!("unknown mode {m}"),
        };
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": mode, "src": format!("{:?}", a), "seed": sd}));
        let c = run_case(k + 1, &mode, &a, sd, &opt);
        out.push(c);
    }
}

fn shuffle<T>(v: &mut [T], rng: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

/// A union of many alternatives that stay separate until some bytes have been read; all but
/// one or two of them go on in the same way.
fn crowd(rng: &mut Rng) -> Ast {
    let n = 12 + rng.below(50);
    let c = *rng.pick(b"cz\x00\xff");
    let heads = rng.below(3); // bytes that all alternatives accept before the common one
    let few = rng.chance(1, 2); // sets made of a few bytes
    let mut v: Vec<Ast> = (0..n)
        .map(|i| {
            let mut w: Vec<Ast> = vec![];
            for _ in 0..heads {
                let mut h = BSet::one(b'h');
                if few {
                    (0..6).filter(|j| (i + 1) >> j & 1 == 1).for_each(|j| h.add(b'0' + j as u8));
                } else {
                    h.add(b'A' + i as u8);
                }
                w.push(Ast::Set(h));
            }
            w.push(match rng.below(4) {
                0 => Ast::rep(Ast::byte(c), 1, INF),
                1 => Ast::rep(Ast::byte(c), 1, 1 + rng.below(3) as u32),
                _ => Ast::byte(c),
            });
            w.push(Ast::Lit(vec![b'A' + i as u8, *rng.pick(b"pqr")]));
            Ast::Cat(w)
        })
        .collect();
    for _ in 0..*rng.pick(&[0, 1, 1, 2]) {
        let mut w: Vec<Ast> = vec![Ast::Set(BSet::range(b'h', b'i')); heads];
        w.push(match rng.below(4) {
            0 => Ast::Eps,
            1 => Ast::rep(Ast::byte(c), 0, 1),
            _ => Ast::byte(c.wrapping_add(1)),
        });
        if rng.chance(1, 2) {
            w.push(Ast::byte(b'w'));
        }
        let at = rng.below(v.len() + 1);
        v.insert(at, Ast::Cat(w));
    }
    match rng.below(5) {
        0 => Ast::not(Ast::And(v.into_iter().map(Ast::not).collect())),
        1 => Ast::Cat(vec![Ast::Lit(vec![c]), Ast::Or(v)]),
        2 => Ast::And(vec![Ast::Or(v), Ast::not(Ast::Lit(vec![b'h', c]))]),
        _ => Ast::Or(v),
    }
}

/// Expressions with many byte classes: the numbers around the sizes at which the library
/// changes representation, and random ones.
pub fn wide(rng: &mut Rng, k: usize) -> Ast {
    const EDGE: &[usize] = &[
        256, 255, 254, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 224, 225, 253, 3,
        30, 34, 62, 66,
    ];
    let cnt = |rng: &mut Rng| {
        if k / 6 < EDGE.len() {
            EDGE[k / 6]
        } else {
            1 + rng.below(256)
        }
    };
    let mut bytes: Vec<u8> = (0..=255).collect();
    if rng.chance(3, 4) {
        shuffle(&mut bytes, rng);
    }
    if k % 7 == 6 {
        // disjoint sets of several bytes, each with an ending of its own
        let n = *rng.pick(&[2, 31, 32, 33, 40, 63, 64, 65, 66, 70, 95, 96, 97, 100, 120, 127, 128]);
        let v: Vec<Ast> = gen::partition_sets(rng, n)
            .into_iter()
            .enumerate()
            .map(|(i, s)| {
                let t = match rng.below(8) {
                    0 => Ast::Eps,
                    1 => Ast::Set(*rng.pick(&[BSet::full(), BSet::one(b'a')])),
                    _ => Ast::Lit(vec![bytes[i % 256], bytes[(i * 7 + 1) % 16]]),
                };
                Ast::Cat(vec![Ast::Set(s), t])
            })
            .collect();
        return match rng.below(4) {
            0 => Ast::not(Ast::Or(v)),
            1 => Ast::And(vec![
                Ast::Or(v),
                Ast::not(Ast::Lit(vec![bytes[0], bytes[1], bytes[2]])),
            ]),
            _ => Ast::Or(v),
        };
    }
    if k % 7 == 5 {
        return crowd(rng);
    }
    match k % 6 {
        // n single bytes, with a tail that depends on the byte
        0 => {
            let n = cnt(rng);
            let tails: Vec<BSet> = (0..3).map(|_| random_set(rng)).collect();
            Ast::Or(
                bytes[..n]
                    .iter()
                    .map(|b| {
                        if rng.chance(1, 8) {
                            Ast::byte(*b)
                        } else {
                            Ast::Cat(vec![Ast::byte(*b), Ast::Set(*rng.pick(&tails))])
                        }
                    })
                    .collect(),
            )
        }
        // one literal of n different bytes
        1 => {
            let n = cnt(rng);
            let l = Ast::Lit(bytes[..n].to_vec());
            match rng.below(3) {
                0 => Ast::not(l),
                1 => Ast::rep(l, 0, INF),
                _ => l,
            }
        }
        // n different byte sets (ranges), mixed with single bytes
        2 | 3 => {
            let n = cnt(rng);
            let mut v = vec![];
            for i in 0..n {
                let s = match rng.below(3) {
                    0 => {
                        let a = rng.next() as u8;
                        let b = rng.next() as u8;
                        BSet::range(a.min(b), a.max(b))
                    }
                    1 => BSet::range(i.min(255) as u8, 255),
                    _ => {
                        let mut s = BSet::empty();
                        for _ in 0..2 + rng.below(20) {
                            s.add(rng.next() as u8);
                        }
                        s
                    }
                };
                let t = match rng.below(4) {
                    0 => Ast::byte(bytes[rng.below(3)]),
                    1 => Ast::Set(BSet::one(bytes[0]).not()),
                    2 => Ast::Eps,
                    _ => Ast::Lit(vec![bytes[1], bytes[2]]),
                };
                v.push(Ast::Cat(vec![Ast::Set(s), Ast::byte(bytes[i % 7]), t]));
            }
            if k % 6 == 2 {
                Ast::Or(v)
            } else {
                Ast::And(v.into_iter().take(12).map(Ast::not).collect())
            }
        }
        // emptiness with n classes: a small question in front of a large alphabet
        4 => {
            let n = cnt(rng);
            let pool: Vec<BSet> = (0..2).map(|_| BSet::one(*rng.pick(&bytes))).collect();
            let q = random_ast(rng, 6, &pool, &Cfg::all());
            let big = Ast::Lit(bytes[..n].to_vec());
            match rng.below(4) {
                0 => Ast::And(vec![Ast::not(q), Ast::not(big)]),
                1 => Ast::Or(vec![Ast::not(Ast::not(q)), big]),
                2 => Ast::Or(vec![
                    Ast::not(Ast::Or(vec![
                        Ast::Eps,
                        Ast::Set(BSet::full()),
                        Ast::Cat(vec![
                            Ast::Set(BSet::full()),
                            Ast::rep(Ast::Set(BSet::full()), 1, INF),
                        ]),
                    ])),
                    big,
                ]),
                _ => Ast::And(vec![
                    Ast::not(big.clone()),
                    Ast::Or(vec![big, Ast::And(vec![q.clone(), Ast::not(q)])]),
                ]),
            }
        }
        // few classes, or just one
        _ => {
            let pool: Vec<BSet> = (0..1 + rng.below(3)).map(|_| random_set(rng)).collect();
            let size = 1 + rng.below(7);
            match rng.below(4) {
                0 => Ast::rep(Ast::Set(BSet::full()), rng.below(3) as u32, INF),
                1 => Ast::not(Ast::Set(BSet::full())),
                2 => Ast::Eps,
                _ => random_ast(rng, size, &pool, &Cfg::all()),
            }
        }
    }
}

/// Alternations of sequences with shared beginnings.
pub fn trie(rng: &mut Rng, k: usize) -> Ast {
    let word = |rng: &mut Rng, al: &[u8], max: usize| -> Vec<u8> {
        (0..rng.below(max + 1)).map(|_| *rng.pick(al)).collect()
    };
    let mut v: Vec<Ast> = match k % 8 {
        0 | 1 => {
            let al: &[u8] = rng.pick(&[
                &b"ab"[..],
                &b"abc"[..],
                &[0x80, 0xff],
                &[0, b'a'],
                &[0xc3, 0xa4, b'z'],
            ]);
            let n = 2 + rng.below(30);
            (0..n).map(|_| Ast::Lit(word(rng, al, 6))).collect()
        }
        2 => {
            // keyword list
            let n = if k == 2 { 900 } else { 20 + rng.below(120) };
            let stems: Vec<Vec<u8>> = (0..6).map(|_| word(rng, b"efgst", 5)).collect();
            (0..n)
                .map(|_| {
                    let mut w = rng.pick(&stems).clone();
                    w.extend(word(rng, b"abcdefghijklmnopqrstuvwxyz", 4));
                    Ast::Lit(w)
                })
                .collect()
        }
        3 => {
            // every member a prefix of the next: splits at every level
            let m = 90 + rng.below(60);
            let mut v: Vec<Ast> = (0..=m)
                .filter(|_| rng.chance(9, 10))
                .map(|i| Ast::Lit(vec![b'a'; i]))
                .collect();
            for _ in 0..rng.below(6) {
                let mut w = vec![b'a'; rng.below(m + 10)];
                w.extend(word(rng, b"ab", 3));
                v.push(Ast::Lit(w));
            }
            v
        }
        4 => {
            // long shared beginning
            let p = word(rng, b"ab", 4);
            let mut pre = vec![];
            for _ in 0..60 {
                pre.extend(&p);
                pre.push(b'x');
            }
            let n = 2 + rng.below(12);
            (0..n)
                .map(|_| {
                    let cut = if rng.chance(1, 2) {
                        pre.len()
                    } else {
                        rng.below(pre.len() + 1)
                    };
                    let mut w = pre[..cut].to_vec();
                    w.extend(word(rng, b"abx", 4));
                    Ast::Lit(w)
                })
                .collect()
        }
        5 => {
            // words that differ in few places
            let n = 2 + rng.below(14);
            gen::mutants(rng, n).into_iter().map(Ast::Lit).collect()
        }
        _ => {
            // sequences of arbitrary elements
            let pool: Vec<BSet> = (0..2)
                .map(|_| random_set(rng))
                .chain([BSet::one(b'a'), BSet::one(b'b')])
                .collect();
            let nel = 2 + rng.below(4);
            let els: Vec<Ast> = (0..nel)
                .map(|i| {
                    if i < 2 {
                        Ast::byte(b"ab"[i])
                    } else {
                        let sz = 1 + rng.below(4);
                        random_ast(
                            rng,
                            sz,
                            &pool,
                            &Cfg {
                                not: (k % 3 == 0) as usize,
                                and: (k % 3 == 0) as usize,
                                pre: 0,
                                max_rep: 3,
                            },
                        )
                    }
                })
                .collect();
            let n = 2 + rng.below(8);
            (0..n)
                .map(|_| {
                    let m = rng.below(5);
                    Ast::Cat((0..m).map(|_| rng.pick(&els).clone()).collect())
                })
                .collect()
        }
    };
    for _ in 0..rng.below(3) {
        let d = v[rng.below(v.len())].clone();
        let at = rng.below(v.len() + 1);
        v.insert(at, d);
    }
    if rng.chance(1, 2) {
        shuffle(&mut v, rng);
    }
    let extra = |rng: &mut Rng| Ast::Lit(word(rng, b"ab", 4));
    match rng.below(6) {
        0 => {
            // nested alternations
            let at = rng.below(v.len());
            let t = v.split_off(at);
            Ast::Or(vec![Ast::Or(v), extra(rng), Ast::Or(t)])
        }
        1 => Ast::Cat(vec![Ast::Or(v), extra(rng)]),
        2 if k % 8 < 5 => Ast::Or(vec![
            Ast::Cat(vec![extra(rng), Ast::Or(v), extra(rng)]),
            extra(rng),
        ]),
        _ => Ast::Or(v),
    }
}

pub fn literal(rng: &mut Rng, k: usize) -> Ast {
    let n = match k % 4 {
        0 => k % 30,
        1 => 1 + rng.below(3),
        2 => 200 + rng.below(200),
        _ => rng.below(40),
    };
    let kind = rng.below(4);
    Ast::Lit(
        (0..n)
            .map(|i| match kind {
                0 => rng.next() as u8,
                1 => *rng.pick(b"ab"),
                2 => (i % 256) as u8,
                _ => *rng.pick("aé\u{1F600}\0\u{7f}".as_bytes()),
            })
            .collect(),
    )
}
