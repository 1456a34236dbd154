//! The same history made several times: on fresh objects, on clones after the other has gone
//! on, in other threads, in another process, with reading calls and foreign work in between.
use crate::ast::*;
use crate::fam_ast::finish;
use crate::fam_syntax;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, ExprRef, JsonQuoteOptions, Regex, RegexBuilder, StateID};
use serde_json::{json, Value};

/// What is done on a matcher; numbers select among what is known.
#[derive(Clone, Debug)]
enum MOp {
    Tr(usize, u8),
    Acc(usize),
    La(usize),
    Nb(usize),
    Word(Vec<u8>, usize),
    Dfa,
    Stats,
}

#[derive(Clone, Debug)]
enum ROp {
    Deriv(usize, u8),
    NonEmpty(usize, u64),
    Nb(usize),
    Mk(usize, usize, usize),
    Alpha(usize, usize),
    Show(usize),
    Len(usize),
}

#[derive(Clone, Debug)]
enum BOp {
    Mk(Ast, u64),
    Rx(String),
    Meet(usize, usize, usize),
    Contained(String, String, u64),
    Json(usize, String, bool),
    Flag(usize, bool),
    Show(usize, usize),
    Matcher(usize, u64, Vec<MOp>),
    Raw(usize, usize, Vec<ROp>),
    /// a matcher made without the builder
    Alone(String, Vec<MOp>),
}

fn digest(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn short(s: String) -> String {
    if s.len() > 60 {
        let d = digest(s.as_bytes());
        let c: String = s.chars().take(30).collect();
        format!("{c}..{}:{d}", s.len())
    } else {
        s
    }
}

/// Numbers the objects of one run; the log is spliced with those of the others later.
#[derive(Default)]
struct Log {
    log: Vec<(String, usize, String, String, usize)>,
    objs: usize,
}

impl Log {
    fn root(&mut self, what: &str) -> usize {
        self.objs += 1;
        self.log
            .push(("root".into(), self.objs, what.into(), String::new(), 0));
        self.objs
    }
    fn clone_of(&mut self, o: usize) -> usize {
        self.objs += 1;
        self.log
            .push(("clone".into(), self.objs, String::new(), String::new(), o));
        self.objs
    }
    fn act(&mut self, o: usize, op: String, r: String) {
        self.log.push(("do".into(), o, op, short(r), 0));
    }
    fn see(&mut self, o: usize, op: String, r: String) {
        self.log.push(("see".into(), o, op, short(r), 0));
    }
    fn new(&mut self, o: usize, op: String, r: String) -> usize {
        self.objs += 1;
        self.log.push(("new".into(), self.objs, op, short(r), o));
        self.objs
    }
}

#[derive(Clone)]
struct Bld {
    b: RegexBuilder,
    refs: Vec<ExprRef>,
}

#[derive(Clone)]
struct Mat {
    rx: Regex,
    known: Vec<StateID>,
}

#[derive(Clone)]
struct RawO {
    x: ExprSet,
    d: DerivCache,
    r: RelevanceCache,
    n: NextByteCache,
    refs: Vec<ExprRef>,
}

fn no_bytes(s: String) -> String {
    // the size estimate is not an answer
    match (s.find("bytes: "), s.find("; alphabet")) {
        (Some(i), Some(j)) if i < j => format!("{}{}", &s[..i], &s[j..]),
        _ => s,
    }
}

/// Number i; counted from the end from 100 on.
fn nth(i: usize, n: usize) -> usize {
    if i >= 100 {
        n - 1 - (i - 100) % n
    } else {
        i % n
    }
}

fn mat_op(m: &mut Mat, o: usize, op: &MOp, l: &mut Log) {
    let name = format!("{op:?}");
    let n = m.known.len();
    let r = match op {
        MOp::Stats => {
            let r = format!("{} cost {}", no_bytes(m.rx.stats()), m.rx.cost());
            l.see(o, name, r);
            let r = format!("{:?}", m.rx);
            l.see(o, "debug".into(), r);
            return;
        }
        MOp::Tr(i, b) => {
            let s = m.rx.transition(m.known[nth(*i, n)], *b);
            if !m.known.contains(&s) {
                m.known.push(s);
            }
            format!("{}", s.as_u32())
        }
        MOp::Acc(i) => format!("{}", m.rx.is_accepting(m.known[nth(*i, n)])),
        MOp::La(i) => format!("{:?}", m.rx.lookahead_len_for_state(m.known[nth(*i, n)])),
        MOp::Nb(i) => format!("{:?}", m.rx.next_byte(m.known[nth(*i, n)])),
        MOp::Word(w, k) => match k {
            0 => format!("{}", m.rx.is_match_bytes(w)),
            1 => format!("{:?}", m.rx.lookahead_len_bytes(w)),
            _ => {
                let i = m.rx.initial_state();
                let s = m.rx.transition_bytes(i, w);
                if !m.known.contains(&s) {
                    m.known.push(s);
                }
                format!("{} empty {}", s.as_u32(), m.rx.always_empty())
            }
        },
        MOp::Dfa => {
            let rx = &mut m.rx;
            match guarded(|| digest(&rx.dfa())) {
                Ok(s) => s,
                Err(_) => "panic".into(),
            }
        }
    };
    let r = format!("{r} cost {}", m.rx.cost());
    l.act(o, name, r);
}

fn raw_op(x: &mut RawO, o: usize, op: &ROp, l: &mut Log) {
    let name = format!("{op:?}");
    let n = x.refs.len();
    let r = match op {
        ROp::Show(i) => {
            let e = x.refs[nth(*i, n)];
            let r = format!(
                "{} {} {} {}",
                x.x.expr_to_string(e),
                x.x.expr_to_string_with_info(e),
                x.x.expr_to_string_max_len(e, 9),
                x.x.len()
            );
            l.see(o, name, r);
            return;
        }
        ROp::Len(i) => {
            let e = x.refs[nth(*i, n)];
            let r = format!(
                "{} {} {:?} {} cost {}",
                x.x.is_nullable(e),
                x.x.is_positive(e),
                x.x.lookahead_len(e),
                x.x.possible_lookahead_len(e),
                x.x.cost()
            );
            l.see(o, name, r);
            return;
        }
        ROp::Alpha(i, j) => {
            let (a, y, rs) =
                AlphabetInfo::from_exprset(&x.x, &[x.refs[nth(*i, n)], x.refs[nth(*j, n)]]);
            let map: Vec<u8> = (0..=255u8).map(|b| a.map(b) as u8).collect();
            let inv: Vec<_> = (0..a.len()).map(|v| a.inv_map(v)).collect();
            let r = format!(
                "{} {} {:?} {} {} {:?}",
                a.len(),
                digest(&map),
                digest(format!("{:?}", inv).as_bytes()),
                y.len(),
                y.cost(),
                rs.iter().map(|e| y.expr_to_string(*e)).collect::<Vec<_>>()
            );
            l.see(o, name, digest(r.as_bytes()));
            return;
        }
        ROp::Deriv(i, b) => {
            let e = x.d.derivative(&mut x.x, x.refs[nth(*i, n)], *b);
            x.refs.push(e);
            format!("{}", e.as_u32())
        }
        ROp::NonEmpty(i, fuel) => {
            match x.r.is_non_empty_limited(&mut x.x, x.refs[nth(*i, n)], *fuel) {
                Ok(b) => format!("{b}"),
                Err(e) => format!("{e}"),
            }
        }
        ROp::Nb(i) => format!("{:?}", x.n.next_byte(&x.x, x.refs[nth(*i, n)])),
        ROp::Mk(k, i, j) => {
            let (a, b) = (x.refs[nth(*i, n)], x.refs[nth(*j, n)]);
            let e = match k {
                0 => x.x.mk_and(vec![a, b]),
                1 => x.x.mk_or(vec![a, b]),
                2 => x.x.mk_concat(vec![a, b]),
                3 => x.x.mk_not(a),
                4 => x.x.mk_repeat(a, 1, 3),
                _ => x.x.mk_prefixes(a),
            };
            x.refs.push(e);
            format!("{}", e.as_u32())
        }
    };
    let r = format!("{r} len {} cost {}", x.x.len(), x.x.cost());
    l.act(o, name, r);
}

/// How a run deviates from doing everything once, in order.
#[derive(Clone, Copy)]
struct How {
    /// reading calls in between, chances in 8
    look: usize,
    /// clones are made and used first or afterwards, chances in 8
    clone: usize,
    /// the clone does something else first, instead of the same
    other: bool,
}

fn run_mat(m: &mut Mat, o: usize, ops: &[MOp], l: &mut Log, how: How, rng: &mut Rng) {
    let cut = if rng.chance(how.clone, 8) {
        rng.below(ops.len() + 1)
    } else {
        usize::MAX
    };
    for (i, op) in ops.iter().enumerate() {
        if i == cut {
            let mut c = m.clone();
            let co = l.clone_of(o);
            if how.other {
                for op in ops[i..].iter().rev() {
                    mat_op(&mut c, co, op, l);
                }
            } else {
                for op in &ops[i..] {
                    mat_op(&mut c, co, op, l);
                }
            }
        }
        if rng.chance(how.look, 8) {
            mat_op(m, o, &MOp::Stats, l);
        }
        mat_op(m, o, op, l);
    }
}

fn run_raw(m: &mut RawO, o: usize, ops: &[ROp], l: &mut Log, how: How, rng: &mut Rng) {
    let cut = if rng.chance(how.clone, 8) {
        rng.below(ops.len() + 1)
    } else {
        usize::MAX
    };
    for (i, op) in ops.iter().enumerate() {
        if i == cut {
            let mut c = m.clone();
            let co = l.clone_of(o);
            if how.other {
                for op in ops[i..].iter().rev() {
                    raw_op(&mut c, co, op, l);
                }
            } else {
                for op in &ops[i..] {
                    raw_op(&mut c, co, op, l);
                }
            }
        }
        if rng.chance(how.look, 8) {
            let k = rng.below(9);
            raw_op(m, o, &ROp::Show(k), l);
            let k = rng.below(9);
            raw_op(m, o, &ROp::Alpha(k, k + 1), l);
            raw_op(m, o, &ROp::Len(k), l);
        }
        raw_op(m, o, op, l);
    }
}

fn bld_op(x: &mut Bld, o: usize, op: &BOp, l: &mut Log, how: How, rng: &mut Rng) {
    let name = match op {
        // what is done on it afterwards is that object's history
        BOp::Matcher(i, fuel, _) => format!("Matcher({i}, {fuel})"),
        BOp::Alone(p, _) => format!("Alone({p})"),
        BOp::Raw(i, j, _) => format!("Raw({i}, {j})"),
        _ => digest(format!("{op:?}").as_bytes()),
    };
    let n = x.refs.len();
    let res = |x: &mut Bld, r: anyhow::Result<ExprRef>| match r {
        Ok(e) => {
            x.refs.push(e);
            format!("{}", e.as_u32())
        }
        Err(e) => format!("{e}"),
    };
    let r = match op {
        BOp::Mk(a, sd) => {
            let r = to_regex_ast(a, &mut x.b, Style::Mixed, &mut Rng::new(*sd))
                .and_then(|r| x.b.mk(&r));
            res(x, r)
        }
        BOp::Rx(s) => {
            let r = x.b.mk_regex(s);
            res(x, r)
        }
        BOp::Meet(k, i, j) => {
            let a = derivre::RegexAst::ExprRef(x.refs[nth(*i, n)]);
            let b = derivre::RegexAst::ExprRef(x.refs[nth(*j, n)]);
            let t = match k {
                0 => derivre::RegexAst::And(vec![a, b]),
                1 => derivre::RegexAst::Or(vec![a, b]),
                2 => derivre::RegexAst::Concat(vec![a, b]),
                3 => a.contained_in(&b),
                _ => derivre::RegexAst::Not(Box::new(a)),
            };
            let r = x.b.mk(&t);
            res(x, r)
        }
        BOp::Contained(s, t, fuel) => match x.b.is_contained_in(s, t, *fuel) {
            Ok(b) => format!("{b}"),
            Err(e) => format!("{e}"),
        },
        BOp::Json(i, esc, raw) => {
            let r = x.b.json_quote(
                x.refs[nth(*i, n)],
                &JsonQuoteOptions {
                    allowed_escapes: esc.clone(),
                    raw_mode: *raw,
                },
            );
            res(x, r)
        }
        BOp::Flag(k, v) => {
            match k {
                0 => x.b.case_insensitive(*v),
                1 => x.b.ignore_whitespace(*v),
                2 => x.b.dot_matches_new_line(*v),
                3 => x.b.unicode(*v),
                _ => x.b.utf8(*v),
            };
            String::new()
        }
        BOp::Show(i, k) => {
            let e = x.refs[nth(*i, n)];
            let r = match k {
                0 => x.b.exprset().expr_to_string(e),
                1 => x.b.exprset().expr_to_string_with_info(e),
                2 => x.b.exprset().expr_to_string_max_len(e, 20),
                3 => format!("{}", x.b.is_nullable(e)),
                _ => format!("{} {}", x.b.exprset().len(), x.b.exprset().cost()),
            };
            l.see(o, name, r);
            return;
        }
        BOp::Matcher(i, fuel, ops) => {
            match x.b.to_regex_limited(x.refs[nth(*i, n)], *fuel) {
                Err(e) => l.see(o, name, format!("{e}")),
                Ok(mut rx) => {
                    let s = rx.initial_state();
                    let mo = l.new(o, name, format!("{} cost {}", s.as_u32(), rx.cost()));
                    let mut m = Mat { rx, known: vec![s] };
                    run_mat(&mut m, mo, ops, l, how, rng);
                }
            }
            return;
        }
        BOp::Alone(p, ops) => {
            match Regex::new(p) {
                Err(e) => {
                    let r = l.root("nothing");
                    l.see(r, name, format!("{e}"))
                }
                Ok(mut rx) => {
                    let s = rx.initial_state();
                    let r = l.root("nothing");
                    let mo = l.new(r, name, format!("{} cost {}", s.as_u32(), rx.cost()));
                    let mut m = Mat { rx, known: vec![s] };
                    run_mat(&mut m, mo, ops, l, how, rng);
                }
            }
            return;
        }
        BOp::Raw(i, j, ops) => {
            let mo = l.new(o, name, String::new());
            let mut m = RawO {
                x: x.b.exprset().clone(),
                d: DerivCache::new(),
                r: RelevanceCache::new(),
                n: NextByteCache::new(),
                refs: vec![x.refs[nth(*i, n)], x.refs[nth(*j, n)]],
            };
            run_raw(&mut m, mo, ops, l, how, rng);
            return;
        }
    };
    let r = format!("{r} len {} cost {}", x.b.exprset().len(), x.b.exprset().cost());
    l.act(o, name, r);
}

fn run_script(ops: &[BOp], how: How, seed: u64) -> Log {
    let mut rng = Rng::new(seed);
    let mut l = Log::default();
    let o = l.root("builder");
    let mut x = Bld {
        b: RegexBuilder::new(),
        refs: vec![ExprRef::EMPTY_STRING, ExprRef::ANY_BYTE_STRING],
    };
    let cut = if rng.chance(how.clone, 8) {
        rng.below(ops.len() + 1)
    } else {
        usize::MAX
    };
    for (i, op) in ops.iter().enumerate() {
        if i == cut {
            let mut c = x.clone();
            let co = l.clone_of(o);
            let straight = How { look: 0, clone: 0, other: false };
            if how.other {
                for op in ops[i..].iter().rev() {
                    bld_op(&mut c, co, op, &mut l, straight, &mut rng);
                }
            } else {
                for op in &ops[i..] {
                    bld_op(&mut c, co, op, &mut l, straight, &mut rng);
                }
            }
        }
        if rng.chance(how.look, 8) {
            let k = rng.below(6);
            bld_op(&mut x, o, &BOp::Show(i, k), &mut l, how, &mut rng);
            if rng.chance(1, 3) {
                let w = BOp::Matcher(i, 200, vec![MOp::Nb(0), MOp::Acc(0)]);
                bld_op(&mut x, o, &w, &mut l, how, &mut rng);
            }
        }
        bld_op(&mut x, o, op, &mut l, how, &mut rng);
    }
    l
}

const PATS: &[&str] = &[
    "a*", "[ab]*", "a{2,4}", "(ab|cd)*e", "[a-c]+(x|é)", "(?i)Kelvin", "\\w+", ".", "(a|b)*abb", "x y",
    "[^a]b", "(?s:.)*z", "foo|foobar|fob", "(", "^a", "a$", "(?P<stop>b)c",
];

fn mops(rng: &mut Rng, asts: &[Ast]) -> Vec<MOp> {
    let mut atoms = vec![];
    for a in asts {
        a.atoms(&mut atoms);
    }
    let (_, reps) = partition(&atoms, &[]);
    let n = 2 + rng.below(10);
    (0..n)
        .map(|_| match rng.below(12) {
            0..=4 => MOp::Tr(idx(rng), *rng.pick(&reps)),
            5 => MOp::Acc(idx(rng)),
            6 => MOp::La(idx(rng)),
            7 => MOp::Nb(idx(rng)),
            8 if rng.chance(1, 2) => MOp::Dfa,
            8 => MOp::Stats,
            _ => {
                let w = (0..rng.below(6)).map(|_| *rng.pick(&reps)).collect();
                MOp::Word(w, rng.below(3))
            }
        })
        .collect()
}

fn rops(rng: &mut Rng) -> Vec<ROp> {
    let n = 2 + rng.below(8);
    let mut mk = 0;
    (0..n)
        .map(|_| match rng.below(9) {
            0..=2 => ROp::Deriv(idx(rng), b'a' + rng.below(4) as u8),
            3 | 4 => {
                let f = if rng.chance(1, 2) { 100_000 } else { rng.below(60) as u64 };
                ROp::NonEmpty(idx(rng), f)
            }
            5 => ROp::Nb(idx(rng)),
            6 if mk < 2 => {
                mk += 1;
                ROp::Mk(rng.below(6), idx(rng), idx(rng))
            }
            7 => ROp::Alpha(idx(rng), idx(rng)),
            _ => ROp::Show(idx(rng)),
        })
        .collect()
}

/// Mostly one of the last.
fn idx(rng: &mut Rng) -> usize {
    if rng.chance(3, 4) {
        100 + rng.below(3)
    } else {
        rng.below(9)
    }
}

fn script(rng: &mut Rng) -> Vec<BOp> {
    let pool: Vec<BSet> = (0..1 + rng.below(3)).map(|_| random_set(rng)).collect();
    let mut asts = vec![];
    let n = 4 + rng.below(8);
    let mut v = vec![];
    let mut meets = 0;
    for k in 0..n {
        let mut kind = if k == 0 { 0 } else { rng.below(13) };
        if kind == 2 {
            meets += 1;
            if meets > 3 {
                kind = 9
            }
        }
        v.push(match kind {
            0 | 1 => {
                let cfg = match rng.below(3) {
                    0 => Cfg::positive(),
                    1 => Cfg::with_pre(),
                    _ => Cfg::all(),
                };
                let sz = 2 + rng.below(6);
                let mut a = gen::mixed(rng, sz, &pool, &cfg, 800);
                if rng.chance(1, 8) {
                    let b = random_ast(rng, 3, &pool, &Cfg::positive());
                    a = Ast::Cat(vec![random_ast(rng, 3, &pool, &Cfg::positive()), Ast::la(b)]);
                }
                asts.push(a.clone());
                BOp::Mk(a, rng.next())
            }
            2 => BOp::Meet(rng.below(5), idx(rng), idx(rng)),
            3 => {
                let p = if rng.chance(1, 3) {
                    fam_syntax::family(rng, &fam_syntax::Flags::default()).remove(0)
                } else {
                    rng.pick(PATS).to_string()
                };
                BOp::Rx(p)
            }
            4 => {
                let f = if rng.chance(1, 2) { 50_000 } else { rng.below(200) as u64 };
                BOp::Contained(rng.pick(PATS).to_string(), rng.pick(PATS).to_string(), f)
            }
            5 => BOp::Json(
                idx(rng),
                rng.pick(&["nrbtf\\\"u", "nrbtf\\\"", "u", ""]).to_string(),
                rng.chance(1, 2),
            ),
            6 if rng.chance(1, 2) => BOp::Flag(rng.below(5), rng.chance(1, 2)),
            7 => BOp::Raw(idx(rng), idx(rng), rops(rng)),
            6 => {
                let p = if rng.chance(1, 3) {
                    fam_syntax::family(rng, &fam_syntax::Flags::default()).remove(0)
                } else {
                    rng.pick(PATS).to_string()
                };
                BOp::Alone(p, mops(rng, &asts))
            }
            8 => BOp::Show(idx(rng), idx(rng)),
            _ => {
                let f = if rng.chance(3, 4) { 100_000 } else { rng.below(100) as u64 };
                BOp::Matcher(idx(rng), f, mops(rng, &asts))
            }
        });
    }
    v
}

const PLAIN: How = How { look: 0, clone: 0, other: false };

/// The straight run only: what the second process does.
fn straight(ops: &[BOp], seed: u64) -> Result<Vec<(String, usize, String, String, usize)>, String> {
    guarded(|| run_script(ops, PLAIN, seed).log)
}

fn case(id: usize, ops: &[BOp], seed: u64, other: Option<&Value>) -> Value {
    let src: String = format!("{:?}", ops).chars().take(1500).collect();
    let res = guarded(|| {
        let mut logs = vec![run_script(ops, PLAIN, seed)];
        // side by side, in threads of their own
        let hows = [
            How { look: 3, clone: 0, other: false },
            How { look: 0, clone: 6, other: false },
            How { look: 1, clone: 6, other: true },
        ];
        let outs: Vec<Result<Log, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = hows
                .iter()
                .enumerate()
                .map(|(i, how)| {
                    s.spawn(move || guarded(|| run_script(ops, *how, seed ^ (i as u64 + 1) << 3)))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            logs.push(o.unwrap_or_else(|e| panic!("{e}")));
        }
        let mut base = 0;
        let mut log = vec![];
        let mut names = std::collections::HashMap::new();
        let mut add = |k: &str, o: usize, op: &str, r: &str, f: usize, base: usize| {
            let n = names.len() + 1;
            let n = *names.entry(op.to_string()).or_insert(n);
            log.push(json!({"k": k, "o": o + base, "op": n, "r": r, "f": if f == 0 { 0 } else { f + base }}));
        };
        for l in &logs {
            for (k, o, op, r, f) in &l.log {
                add(k, *o, op, r, *f, base);
            }
            base += l.objs;
        }
        if let Some(v) = other {
            for e in v.as_array().unwrap() {
                add(
                    e[0].as_str().unwrap(),
                    e[1].as_u64().unwrap() as usize,
                    e[2].as_str().unwrap(),
                    e[3].as_str().unwrap(),
                    e[4].as_u64().unwrap() as usize,
                    base,
                );
            }
        }
        json!({"panic": "", "log": log})
    });
    finish(res, id, "repro", &src, json!([]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let mut rng = Rng::new(seed ^ 0x4E9);
    let scripts: Vec<(Vec<BOp>, u64)> = (0..n).map(|_| (script(&mut rng), rng.next() >> 12)).collect();
    if args.n("child", 0) == 1 {
        for (ops, sd) in &scripts {
            out.begin(&json!({"fam": "repro", "src": format!("{:?}", ops), "seed": sd}));
            out.push(match straight(ops, *sd) {
                Ok(l) => json!(l),
                Err(e) => json!({ "panic": e }),
            });
        }
        return;
    }
    let path = format!("{}.child", args.s("out", "cases.json"));
    let ok = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["repro", "--child", "1", "--seed", &seed.to_string(), "--n", &n.to_string(), "--out", &path])
        .stdout(std::process::Stdio::null())
        .status()
        .unwrap()
        .success();
    let other: Option<Vec<Value>> = if ok {
        serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).ok()
    } else {
        None
    };
    for f in [path.clone(), format!("{path}.cur")] {
        let _ = std::fs::remove_file(f);
    }
    for (k, (ops, sd)) in scripts.iter().enumerate() {
        out.begin(&json!({"fam": "repro", "src": format!("{:?}", ops), "seed": sd}));
        // a crash of the second process happens here as well, and is noted here
        let o = other.as_ref().map(|v| &v[k]).filter(|v| v.is_array());
        out.push(case(k + 1, ops, *sd, o));
    }
}
