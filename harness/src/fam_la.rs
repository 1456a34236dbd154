//! Expressions with a trailing lookahead.
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet, NextByteCache};
use std::collections::HashMap;
use derivre::{AlphabetInfo, ExprRef, RegexAst, RegexBuilder};
use serde_json::{json, Value};

/// The derivative graph of an expression, with the lengths that the expression set gives.
fn raw_record(set0: &ExprSet, e: ExprRef, all: &[&Ast], rng: &mut Rng, opt: &Opt) -> Value {
    let compressed = rng.chance(1, 2);
    let (map, mut x, e): (Vec<usize>, ExprSet, ExprRef) = if compressed {
        let (alpha, x, r) = AlphabetInfo::from_exprset(set0, &[e]);
        ((0..=255u8).map(|b| alpha.map(b)).collect(), x, r[0])
    } else {
        ((0..256).collect(), set0.clone(), e)
    };
    let mut dc = DerivCache::new();
    let mut nc = NextByteCache::new();
    let mut ids = vec![e];
    let mut idx: HashMap<ExprRef, usize> = HashMap::new();
    idx.insert(e, 1);
    let mut st: Vec<StateRec> = vec![];
    let mut pl = vec![];
    // length of a shortest word that leads there
    let mut dep = vec![0];
    let mut k = 0;
    let c0 = x.cost();
    while k < ids.len() {
        let e = ids[k];
        let acc = x.is_nullable(e);
        // as the matcher understands the answer
        let la = match (acc, x.lookahead_len(e)) {
            (true, l) => l.unwrap_or(0) as i64,
            (false, None) => -1,
            (false, Some(l)) => -2 - l as i64,
        };
        pl.push(x.possible_lookahead_len(e));
        let nb = if compressed {
            (3, 0)
        } else {
            nb_code(nc.next_byte(&x, e))
        };
        let dead = e == ExprRef::NO_MATCH;
        let mut row = None;
        if dead || (k < opt.lim.states && x.cost() - c0 <= opt.lim.cost) {
            let mut r = Box::new([0u32; 256]);
            for b in 0..256 {
                let d = dc.derivative(&mut x, e, map[b] as u8);
                let n = ids.len();
                let i = *idx.entry(d).or_insert_with(|| {
                    ids.push(d);
                    dep.push(dep[k] + 1);
                    n + 1
                });
                r[b] = i as u32;
            }
            row = Some(r);
        }
        st.push(StateRec {
            acc,
            la,
            nb,
            same: true,
            same2: true,
            dead,
            row,
            word: vec![],
        });
        k += 1;
    }
    for (k, e) in ids.iter().enumerate() {
        st[k].same2 = x.possible_lookahead_len(*e) == pl[k] && x.is_nullable(*e) == st[k].acc;
        st[k].same = compressed || nb_code(nc.next_byte(&x, *e)) == st[k].nb;
    }
    let g = Graph {
        st,
        ids: vec![],
        init: 1,
        partial: true,
    };
    let (_, reps) = partition(&all_atoms(all, Some(&g)), &rows(&g));
    let mut s = graph_json(&g, &reps);
    for (k, v) in s.as_array_mut().unwrap().iter_mut().enumerate() {
        v["pl"] = json!(pl[k]);
        v["dep"] = json!(dep[k]);
    }
    json!({"panic": "", "ast": [], "reps": reps, "init": 1, "st": s, "empty": false,
           "null": false, "partial": true, "api": [], "skip": true})
}

fn case(id: usize, alts: &[(Ast, Ast)], raw: bool, seed: u64, opt: &Opt) -> Value {
    let src = format!("{:?}", alts);
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let mut v = vec![];
        for (x, y) in alts {
            let pat = match (to_pattern(x), to_pattern(y)) {
                (Some(p), Some(q)) => Some(format!("(?:{p})({}<stop>{q})", if p.len() % 2 == 0 { "?P" } else { "?" })),
                _ => None,
            };
            let r = match pat {
                Some(p) if rng.chance(1, 3) => RegexAst::Regex(p),
                _ => {
                    let la = Ast::la(y.clone());
                    let a = match x {
                        Ast::Eps if rng.chance(1, 2) => la,
                        Ast::Cat(v) if rng.chance(1, 2) => {
                            let mut v = v.clone();
                            v.push(la);
                            Ast::Cat(v)
                        }
                        _ => Ast::Cat(vec![x.clone(), la]),
                    };
                    to_regex_ast(&a, &mut b, style, &mut rng).unwrap()
                }
            };
            v.push(r);
        }
        let ra = if v.len() == 1 {
            v.pop().unwrap()
        } else {
            RegexAst::Or(v)
        };
        let e = b.mk(&ra).unwrap();
        let is_null = b.is_nullable(e);
        let all: Vec<&Ast> = alts.iter().flat_map(|(x, y)| [x, y]).collect();
        let whole = Ast::Or(all.iter().map(|a| (*a).clone()).collect());
        let mut v = if raw {
            raw_record(b.exprset(), e, &all, &mut rng, opt)
        } else {
            let mut rx = b.to_regex(e);
            record(&mut rx, &all, &whole, is_null, &mut rng, opt)
        };
        let reps: Vec<u8> = v["reps"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap() as u8)
            .collect();
        v["ast"] = alts
            .iter()
            .map(|(x, y)| json!([x.json(&reps), y.json(&reps)]))
            .collect();
        v
    });
    finish(res, id, "la", &src, json!([]), seed)
}

fn nullable(a: &Ast) -> bool {
    match a {
        Ast::Eps => true,
        Ast::None | Ast::Set(_) => false,
        Ast::Lit(v) => v.is_empty(),
        Ast::Cat(v) | Ast::And(v) => v.iter().all(nullable),
        Ast::Or(v) => v.iter().any(nullable),
        Ast::Not(a) => !nullable(a),
        Ast::Rep(a, mn, _) => *mn == 0 || nullable(a),
        Ast::Pre(_) | Ast::La(_) => true,
    }
}

/// One long text through an expression whose lookahead reaches far back; `sure`: one run that
/// goes on up to the last byte.
fn long(id: usize, len: usize, sure: bool, seed: u64) -> Value {
    let mut rng = Rng::new(seed);
    let np = 2 + rng.below(2);
    let mut pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
    if rng.chance(2, 3) {
        pool = vec![BSet::one(b'a'), BSet::one(b'b'), BSet::range(b'a', b'c')];
    }
    let set = |rng: &mut Rng| Ast::Set(*rng.pick(&pool));
    // what goes on for long; what ends it
    let far = len * 2 / 3;
    let run = |rng: &mut Rng| -> Ast {
        match rng.below(6) {
            0 => Ast::rep(Ast::Cat(vec![set(rng), set(rng)]), 0, INF),
            1 => {
                let m = rng.between(far / 3, far);
                Ast::rep(set(rng), m as u32, INF)
            }
            2 => {
                let m = rng.between(far / 3, far);
                Ast::rep(set(rng), m as u32, m as u32)
            }
            _ => Ast::rep(set(rng), 0, INF),
        }
    };
    let m = if sure { 1 } else { 1 + rng.below(2) };
    let mut alts = vec![];
    if sure {
        let x = random_set(&mut rng);
        let e = gen::minus(&BSet::full(), &x);
        let run = match rng.below(3) {
            0 if len % 2 == 1 => Ast::rep(Ast::Cat(vec![Ast::Set(x), Ast::Set(x)]), 0, INF),
            1 => Ast::rep(Ast::Set(x), 1, INF),
            _ => Ast::rep(Ast::Set(x), 0, INF),
        };
        let a = *rng.pick(&x.bytes());
        let beg = match rng.below(3) {
            0 => Ast::Eps,
            1 => Ast::rep(Ast::byte(a), 0, 1),
            _ => Ast::Lit(vec![a, a]),
        };
        alts.push((beg, Ast::Cat(vec![run, Ast::Set(e)])));
    }
    while alts.len() < m {
        let end = match rng.below(3) {
            0 => Ast::Lit(b"b".to_vec()),
            1 => set(&mut rng),
            _ => Ast::Cat(vec![set(&mut rng), Ast::Lit(vec![b'a'])]),
        };
        let b = Ast::Cat(vec![run(&mut rng), end]);
        let a = match rng.below(4) {
            0 => Ast::Eps,
            1 => set(&mut rng),
            2 => Ast::rep(set(&mut rng), 1, 1 + rng.below(3) as u32),
            _ => Ast::rep(set(&mut rng), 0, INF),
        };
        alts.push((a, b));
    }
    // one run of the lookahead at a time, or else many of them in short texts
    let many = alts.iter().any(|(a, _)| matches!(a, Ast::Rep(_, 0, INF)));
    let counted = format!("{:?}", alts).contains(&", Rep(Set");
    let len = if many && counted { len / 4 } else { len };
    let src = format!("{:?} over {len} bytes", alts);
    let res = guarded(|| {
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let v: Vec<RegexAst> = alts
            .iter()
            .map(|(x, y)| {
                let a = Ast::Cat(vec![x.clone(), Ast::la(y.clone())]);
                to_regex_ast(&a, &mut b, style, &mut rng).unwrap()
            })
            .collect();
        let e = b.mk(&RegexAst::Or(v)).unwrap();
        let mut rx = b.to_regex(e);
        let atoms: Vec<&Ast> = alts.iter().flat_map(|(x, y)| [x, y]).collect();
        let (_, reps) = partition(&all_atoms(&atoms, None), &[]);
        let mut bytes = vec![];
        let mut st = vec![];
        let mut s = rx.initial_state();
        let mut liked = *rng.pick(&reps);
        let mut target = if sure { len - 1 } else { len / 3 + rng.below(len * 2 / 3) };
        loop {
            let l = la_code(rx.lookahead_len_for_state(s));
            st.push(json!({"acc": rx.is_accepting(s), "la": l, "dead": s.is_dead()}));
            if bytes.len() == len || s.is_dead() {
                break;
            }
            // go on without an end for a while, then look for one
            let late = bytes.len() >= target;
            let mut c = liked;
            let mut rank = 9;
            let off = rng.below(reps.len());
            for i in 0..=reps.len() {
                let d = if i == 0 {
                    liked
                } else {
                    reps[(off + i) % reps.len()]
                };
                let t = rx.transition(s, d);
                let q = if t.is_dead() {
                    2
                } else if rx.is_accepting(t) == late {
                    0
                } else {
                    1
                };
                if q < rank {
                    (rank, c) = (q, d);
                }
            }
            if late && (rank == 0 || rng.chance(1, 20)) {
                target = bytes.len() + rng.below(len);
            }
            if !sure && rng.chance(1, 2 * len) {
                c = *rng.pick(&reps);
                liked = c;
            }
            s = rx.transition(s, c);
            bytes.push(c);
        }
        let api: Vec<Value> = (0..3)
            .map(|i| {
                let n = if i == 0 {
                    bytes.len()
                } else {
                    rng.below(bytes.len() + 1)
                };
                let txt = &bytes[..n];
                let mut l = la_code(rx.lookahead_len_bytes(txt));
                let m = rx.is_match_bytes(txt);
                if let Ok(t) = std::str::from_utf8(txt) {
                    if rng.chance(1, 2) {
                        l = la_code(rx.lookahead_len(t));
                    }
                }
                json!({"n": n, "m": m, "l": l})
            })
            .collect();
        json!({"panic": "", "reps": reps, "text": bytes, "st": st, "api": api,
               "ast": alts.iter().map(|(x, y)| json!([x.json(&reps), y.json(&reps)]))
                   .collect::<Vec<_>>()})
    });
    finish(res, id, "lalong", &src, json!([]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let opt = Opt::from(args);
    let mut rng = Rng::new(seed ^ 0x1A);
    let raw = args.n("raw", 0) == 1;
    let mut go = |id: usize, alts: &[(Ast, Ast)], sd: u64, out: &mut Out| {
        out.begin(&json!({"fam": "la", "src": format!("{:?}", alts), "seed": sd}));
        let c = case(id, alts, raw, sd, &opt);
        out.push(c);
    };
    if args.s("mode", "random") == "long" {
        let len = args.n("len", 1200) as usize;
        for k in 0..n {
            let sd = rng.next() >> 12;
            let sure = k % 4 == 1;
            let l = match k % 8 {
                0 => len,
                7 => len / 2,
                _ if k == 1 => 65600 + rng.below(3000),
                _ if sure => len + rng.below(3 * len),
                _ => 300 + rng.below(100),
            };
            out.begin(&json!({"fam": "lalong", "src": format!("{l} bytes"), "seed": sd}));
            let c = long(k + 1, l, sure, sd);
            out.push(c);
        }
        return;
    }
    if args.s("mode", "random") == "file" {
        // pairs of TLC-generated expressions
        let txt = std::fs::read_to_string(args.s("in", "")).unwrap();
        let all: Value = serde_json::from_str(&txt).unwrap();
        let all = all.as_array().unwrap();
        let total = all.len() * all.len();
        for i in 0..n.min(total) {
            let p = if n >= total {
                i
            } else {
                rng.below(total)
            };
            let ls = letters(rng.below(4));
            let a = Ast::from_json(&all[p / all.len()], &ls);
            let b = Ast::from_json(&all[p % all.len()], &ls);
            let sd = rng.next() >> 12;
            go(i + 1, &[(a, b)], sd, out);
        }
        return;
    }
    for k in 0..n {
        let np = 1 + rng.below(4);
        let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
        let cfg = if rng.chance(2, 3) {
            Cfg::positive()
        } else {
            Cfg::all()
        };
        let m = if rng.chance(1, 4) { 2 + rng.below(2) } else { 1 };
        let mut alts = vec![];
        while alts.len() < m {
            let sa = 1 + rng.below(6);
            let sb = 1 + rng.below(6);
            let a = gen::mixed(&mut rng, sa, &pool, &cfg, 1500);
            let b = gen::mixed(&mut rng, sb, &pool, &cfg, 1500);
            if m > 1 && nullable(&b) {
                continue;
            }
            alts.push((a, b));
        }
        if m > 1 && rng.chance(1, 2) {
            // the same lookahead behind different beginnings
            let b = alts[0].1.clone();
            alts[1].1 = b;
        }
        let sd = rng.next() >> 12;
        go(k + 1, &alts, sd, out);
    }
}
