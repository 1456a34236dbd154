//! Sessions on one builder in which things that cannot be built are mixed with things that can.
use crate::ast::*;
use crate::fam_ast::*;
use crate::graph::*;
use crate::size::effort;
use crate::{Args, Out};
use derivre::{ExprRef, JsonQuoteOptions, Regex, RegexAst, RegexBuilder};
use serde_json::{json, Value};

const BAD_PATTERNS: &[&str] = &[
    "(", ")", "*", "a{2,1}", "[z-a]", "\\p{Nope}", "a**{", "(?P<n>a)(?P<n>b)", "[", "\\", "(?z)a",
    "\\ba", "a\\b", "a\\Bb", "(?m)^a", "(?m)a$", "(?m:^)a|b", "x(?m:$)", "a^b", "a$b", "(^a)+b^",
    "a(b$c|d)", "[a-\\d]", "(?-u:\\xff)", "\\x{110000}", "\\x{d800}", "x|y|(\\b)", "((((\\B))))",
    "a{99999999999}", "(?<", "\\b{start}", "\\b{end-half}x",
];

/// A syntax tree with a copy for the specification.
struct T {
    ast: RegexAst,
    js: Value,
}

struct S {
    b: RegexBuilder,
    /// references handed out, with their expressions
    refs: Vec<(ExprRef, Ast)>,
    log: Vec<Value>,
    atoms: Vec<BSet>,
}

/// `alone`: this is the whole tree, so that nothing is made before it is looked at
fn bad_leaf(s: &S, alone: bool, rng: &mut Rng) -> T {
    match rng.below(8) {
        0 | 1 => {
            // no such expression, now
            let n = s.b.exprset().len() as u32;
            let id = match rng.below(5) {
                0 if alone => n,
                1 if alone => n + 1,
                0 | 1 | 2 => n + 2000 + rng.below(100_000) as u32,
                3 => u32::MAX,
                _ => 0,
            };
            let r = if id == 0 {
                ExprRef::INVALID
            } else {
                ExprRef::new(id)
            };
            T {
                ast: RegexAst::ExprRef(r),
                js: json!(["ref", id.to_string(), false]),
            }
        }
        2 | 3 => {
            let n = *rng.pick(&[0usize, 1, 4, 7, 9, 16, 32, 256]);
            let w = (0..n).map(|_| rng.next() as u32).collect::<Vec<_>>();
            T {
                ast: RegexAst::ByteSet(w),
                js: json!(["words", n]),
            }
        }
        4 => {
            let (mn, mx) = *rng.pick(&[(1u32, 0u32), (2, 1), (u32::MAX, 0), (5, 3), (u32::MAX, 7)]);
            T {
                ast: RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), mn, mx),
                js: json!(["badrep", mn.to_string(), mx.to_string()]),
            }
        }
        _ => {
            let p = *rng.pick(BAD_PATTERNS);
            T {
                ast: RegexAst::Regex(p.to_string()),
                js: json!(["pattern", p]),
            }
        }
    }
}

/// A tree in which, if `bad`, at least one part is invalid; `size` counts nodes.
fn tree(s: &S, size: usize, bad: bool, alone: bool, pool: &[BSet], rng: &mut Rng) -> T {
    if size <= 1 {
        if bad {
            return bad_leaf(s, alone, rng);
        }
        if !s.refs.is_empty() && rng.chance(1, 3) {
            let (r, _) = rng.pick(&s.refs);
            return T {
                ast: RegexAst::ExprRef(*r),
                js: json!(["ref", r.as_u32().to_string(), true]),
            };
        }
        let a = random_ast(rng, 1, pool, &Cfg::all());
        return T {
            ast: leaf(&a, rng),
            js: json!(["leaf", a_json(&a)]),
        };
    }
    match rng.below(8) {
        0..=4 => {
            let n = 1 + rng.below(3);
            let at = rng.below(n);
            let mut v = vec![];
            for i in 0..n {
                let sz = 1 + rng.below((size - 1).max(1));
                v.push(tree(s, sz.min(size - 1), bad && i == at, false, pool, rng));
            }
            let js: Value = v.iter().map(|t| t.js.clone()).collect();
            let asts: Vec<RegexAst> = v.into_iter().map(|t| t.ast).collect();
            match rng.below(5) {
                0 | 1 => T {
                    ast: RegexAst::Concat(asts),
                    js: json!(["cat", js]),
                },
                2 | 3 => T {
                    ast: RegexAst::Or(asts),
                    js: json!(["or", js]),
                },
                _ => T {
                    ast: RegexAst::And(asts),
                    js: json!(["and", js]),
                },
            }
        }
        5 => {
            let t = tree(s, size - 1, bad, false, pool, rng);
            T {
                ast: RegexAst::Not(Box::new(t.ast)),
                js: json!(["not", t.js]),
            }
        }
        6 if bad && rng.chance(1, 3) => {
            // the range is what is wrong, whatever it is that is repeated
            let t = tree(s, size - 1, false, false, pool, rng);
            let (mn, mx) = *rng.pick(&[(1u32, 0u32), (2, 1), (5, 2), (INF, 1)]);
            T {
                ast: RegexAst::Repeat(Box::new(t.ast), mn, mx),
                js: json!(["badrep", mn.to_string(), mx.to_string()]),
            }
        }
        6 => {
            let t = tree(s, size - 1, bad, false, pool, rng);
            let (mn, mx) = *rng.pick(&[(0u32, INF), (0, 1), (1, 2), (2, 2), (0, 0)]);
            T {
                ast: RegexAst::Repeat(Box::new(t.ast), mn, mx),
                js: json!(["rep", t.js, mn, if mx == INF { -1 } else { mx as i64 }]),
            }
        }
        _ => {
            let t = tree(s, size - 1, bad, false, pool, rng);
            T {
                ast: RegexAst::Prefixes(Box::new(t.ast)),
                js: json!(["pre", t.js]),
            }
        }
    }
}

/// leaves keep all bytes until the representatives are known
fn a_json(a: &Ast) -> Value {
    match a {
        Ast::Set(s) => json!(["set", s.bytes()]),
        _ => a.json(&[]),
    }
}

/// the expression a tree denotes, for estimating the effort
fn meaning(s: &S, js: &Value) -> Ast {
    let l = |v: &Value| -> Vec<Ast> {
        v.as_array().unwrap().iter().map(|x| meaning(s, x)).collect()
    };
    match js[0].as_str().unwrap() {
        "ref" => {
            let id: u32 = js[1].as_str().unwrap().parse().unwrap();
            s.refs
                .iter()
                .find(|(r, _)| r.as_u32() == id)
                .map(|(_, a)| a.clone())
                .unwrap_or(Ast::Eps)
        }
        "leaf" => {
            let j = &js[1];
            let bytes = |v: &Value| -> Vec<u8> {
                v.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| x.as_u64().unwrap() as u8)
                    .collect()
            };
            match j[0].as_str().unwrap() {
                "eps" => Ast::Eps,
                "none" => Ast::None,
                "lit" => Ast::Lit(bytes(&j[1])),
                _ => {
                    let mut b = BSet::empty();
                    for x in bytes(&j[1]) {
                        b.add(x);
                    }
                    Ast::Set(b)
                }
            }
        }
        "cat" => Ast::Cat(l(&js[1])),
        "or" => Ast::Or(l(&js[1])),
        "and" => Ast::And(l(&js[1])),
        "not" => Ast::not(meaning(s, &js[1])),
        "pre" => Ast::pre(meaning(s, &js[1])),
        "rep" => {
            let mx = js[3].as_i64().unwrap();
            Ast::rep(
                meaning(s, &js[1]),
                js[2].as_u64().unwrap() as u32,
                if mx < 0 { INF } else { mx as u32 },
            )
        }
        _ => Ast::Eps,
    }
}

/// sets of bytes within a logged tree, cut down to the representatives
fn restrict(v: &mut Value, reps: &[u8]) {
    if let Some(a) = v.as_array_mut() {
        if a.len() == 2 && a[0] == "set" {
            let keep: Vec<Value> = a[1]
                .as_array()
                .unwrap()
                .iter()
                .filter(|x| reps.contains(&(x.as_u64().unwrap() as u8)))
                .cloned()
                .collect();
            a[1] = Value::Array(keep);
        } else {
            for x in a {
                restrict(x, reps);
            }
        }
    }
}

impl S {
    fn outcome<R>(
        &mut self,
        what: &str,
        arg: Value,
        bad: bool,
        f: impl FnOnce(&mut RegexBuilder) -> anyhow::Result<R>,
    ) -> Option<R> {
        let b = &mut self.b;
        let (o, r) = match guarded(|| f(b)) {
            Ok(Ok(r)) => ("ok".to_string(), Some(r)),
            Ok(Err(_)) => ("err".to_string(), None),
            Err(p) => (format!("panic: {p}"), None),
        };
        self.log
            .push(json!({"op": what, "arg": arg, "bad": bad, "out": o, "id": "", "tree": ["none"]}));
        r
    }
    fn mk(&mut self, t: T) {
        let m = meaning(self, &t.js);
        let mut at = vec![];
        m.atoms(&mut at);
        self.atoms.extend(at);
        let b = &mut self.b;
        let (o, id) = match guarded(|| b.mk(&t.ast)) {
            Ok(Ok(r)) => {
                if effort(&m, 4000).is_some() {
                    self.refs.push((r, m));
                }
                ("ok".to_string(), r.as_u32().to_string())
            }
            Ok(Err(_)) => ("err".to_string(), String::new()),
            Err(p) => (format!("panic: {p}"), String::new()),
        };
        self.log
            .push(json!({"op": "mk", "arg": "", "bad": false, "tree": t.js, "out": o, "id": id}));
    }
}

fn case(id: usize, ops: usize, seed: u64) -> Value {
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let np = 1 + rng.below(3);
        let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
        let mut s = S {
            b: RegexBuilder::new(),
            refs: vec![],
            log: vec![],
            atoms: vec![],
        };
        let sz = 1 + rng.below(4);
        let t = tree(&s, sz, false, false, &pool, &mut rng);
        s.mk(t);
        for _ in 0..ops {
            match rng.below(12) {
                0..=3 => {
                    let sz = 1 + rng.below(6);
                    let t = loop {
                        let t = tree(&s, sz, false, false, &pool, &mut rng);
                        if effort(&meaning(&s, &t.js), 4000).is_some() {
                            break t;
                        }
                    };
                    s.mk(t);
                }
                4..=7 => {
                    let sz = 1 + rng.below(7);
                    let t = tree(&s, sz, true, sz == 1, &pool, &mut rng);
                    s.mk(t);
                }
                8 => {
                    let p = *rng.pick(BAD_PATTERNS);
                    match rng.below(5) {
                        0 => {
                            s.outcome("mk_regex", json!(p), true, |b| b.mk_regex(p));
                        }
                        1 => {
                            s.outcome("mk_contained_in", json!(p), true, |b| {
                                b.mk_contained_in("a+", p)
                            });
                        }
                        2 => {
                            s.outcome("is_contained_in", json!(p), true, |b| {
                                b.is_contained_in(p, "a+", u64::MAX)
                            });
                        }
                        3 => {
                            s.outcome("Regex::new", json!(p), true, |_| Regex::new(p).map(|_| ()));
                        }
                        _ => {
                            let t = tree(&s, 3, true, false, &pool, &mut rng);
                            s.outcome("mk_contained_in_ast", t.js, true, |b| {
                                b.mk_contained_in_ast(&RegexAst::Byte(b'a'), &t.ast)
                            });
                        }
                    }
                }
                9 => {
                    // escapes that do not exist, with an expression that can be quoted
                    let e = *rng.pick(&["x", "q\"", "\\U", "btnN", " ", "é", "/", "\"\\bfnrtu0", "B"]);
                    let r = s.b.mk(&RegexAst::Literal("a\"b".to_string())).unwrap();
                    let raw_mode = rng.chance(1, 2);
                    s.outcome("json_quote", json!(e), true, |b| {
                        b.json_quote(
                            r,
                            &JsonQuoteOptions {
                                allowed_escapes: e.to_string(),
                                raw_mode,
                            },
                        )
                    });
                }
                10 => {
                    // an expression that cannot be quoted
                    let a = rng
                        .pick(&[
                            Ast::not(Ast::Lit(b"ab".to_vec())),
                            Ast::Cat(vec![Ast::byte(b'x'), Ast::not(Ast::Lit(b"\n".to_vec()))]),
                            Ast::Or(vec![
                                Ast::byte(b'"'),
                                Ast::And(vec![
                                    Ast::Cat(vec![Ast::byte(b'a'), Ast::rep(Ast::byte(b'b'), 0, INF)]),
                                    Ast::Cat(vec![
                                        Ast::rep(Ast::Set(BSet::range(b'a', b'b')), 0, INF),
                                        Ast::byte(b'b'),
                                    ]),
                                ]),
                            ]),
                            Ast::rep(Ast::pre(Ast::Lit(b"abc".to_vec())), 2, 5),
                        ])
                        .clone();
                    let ra = to_regex_ast(&a, &mut s.b, Style::Tree, &mut rng).unwrap();
                    let r = s.b.mk(&ra).unwrap();
                    s.outcome("json_quote", json!(format!("{:?}", a)), true, |b| {
                        b.json_quote(r, &JsonQuoteOptions::with_unicode())
                    });
                }
                _ => {
                    // things that work, or may run out of fuel
                    let i = rng.below(s.refs.len());
                    let r = s.refs[i].0;
                    match rng.below(3) {
                        0 => {
                            let f = rng.below(20) as u64;
                            let _ = s.b.to_regex_limited(r, f);
                        }
                        1 => {
                            s.outcome("mk_regex", json!("a|b+"), false, |b| b.mk_regex("a|b+"));
                        }
                        _ => {
                            s.outcome("json_quote", json!("\"\\bfnrtu"), false, |b| {
                                let r = b.mk_regex("a\"b").unwrap();
                                b.json_quote(r, &JsonQuoteOptions::with_unicode())
                            });
                        }
                    }
                }
            }
        }
        // what became of the references: the matchers they give now
        let mut picks: Vec<usize> = (0..s.refs.len()).collect();
        for i in (1..picks.len()).rev() {
            picks.swap(i, rng.below(i + 1));
        }
        picks.truncate(3);
        let mut roots = vec![];
        let mut graphs = vec![];
        for i in picks {
            let mut rx = s.b.to_regex(s.refs[i].0);
            let g = explore(
                &mut rx,
                &Limits {
                    states: 25,
                    cost: 200_000,
                },
                &mut rng,
            );
            roots.push(s.refs[i].0.as_u32().to_string());
            graphs.push(g);
        }
        let mut atoms = s.atoms.clone();
        atoms.sort();
        atoms.dedup();
        let all: Vec<&[u32; 256]> = graphs.iter().flat_map(|g| rows(g)).collect();
        let (_, reps) = partition(&atoms, &all);
        let mut log = s.log;
        for o in log.iter_mut() {
            restrict(&mut o["tree"], &reps);
        }
        // one numbering of states for all
        let mut st = vec![];
        let mut init = vec![];
        for g in &graphs {
            let base = st.len() as u64;
            init.push(base + 1);
            for n in graph_json(g, &reps).as_array().unwrap() {
                let mut n = n.clone();
                let t: Vec<u64> = n["t"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| match x.as_u64().unwrap() {
                        0 => 0,
                        x => x + base,
                    })
                    .collect();
                n["t"] = json!(t);
                st.push(n);
            }
        }
        json!({"panic": "", "reps": reps, "log": log, "roots": roots, "init": init, "st": st})
    });
    finish(res, id, "refuse", &format!("session {seed}"), json!([]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let ops = args.n("ops", 14) as usize;
    let mut rng = Rng::new(seed ^ 0x4EF);
    for k in 0..n {
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "refuse", "src": "session", "seed": sd}));
        out.push(case(k + 1, ops, sd));
    }
}
