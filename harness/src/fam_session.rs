//! Histories of queries on matchers, their clones, and the builder.
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::{ExprRef, Regex, RegexBuilder, StateID};
use serde_json::{json, Value};
use std::collections::HashMap;

struct Handle {
    rx: Regex,
    e: usize,
    /// states known so far, with the first word that led there
    known: Vec<(StateID, Vec<u8>)>,
    cur: usize,
}

impl Handle {
    fn note(&mut self, s: StateID, w: Vec<u8>) -> usize {
        if let Some(i) = self.known.iter().position(|(t, _)| *t == s) {
            return i;
        }
        self.known.push((s, w));
        self.known.len() - 1
    }
}

struct Sess {
    b: RegexBuilder,
    refs: Vec<ExprRef>,
    hs: Vec<Handle>,
    log: Vec<Value>,
    forced: Vec<u8>,
}

impl Sess {
    fn new_handle(&mut self, e: usize) -> usize {
        let mut rx = self.b.to_regex(self.refs[e]);
        let s = rx.initial_state();
        self.hs.push(Handle {
            rx,
            e,
            known: vec![(s, vec![])],
            cur: 0,
        });
        self.log.push(json!({"op": "new", "h": self.hs.len(), "e": e + 1, "s": s.as_u32()}));
        self.hs.len() - 1
    }
    fn clone_handle(&mut self, h: usize) -> usize {
        let src = &self.hs[h];
        let n = Handle {
            rx: src.rx.clone(),
            e: src.e,
            known: src.known.clone(),
            cur: src.cur,
        };
        self.hs.push(n);
        self.log.push(json!({"op": "clone", "h": self.hs.len(), "from": h + 1}));
        self.hs.len() - 1
    }
    fn tr(&mut self, h: usize, st: usize, b: u8) {
        let x = &mut self.hs[h];
        let (s, mut w) = x.known[st].clone();
        let t = x.rx.transition(s, b);
        w.push(b);
        x.cur = x.note(t, w);
        self.log
            .push(json!({"op": "tr", "h": h + 1, "s": s.as_u32(), "b": b, "t": t.as_u32()}));
    }
    fn ask(&mut self, h: usize, st: usize, what: usize) {
        let x = &mut self.hs[h];
        let (s, w) = x.known[st].clone();
        let v = match what {
            0 => json!({"op": "acc", "v": x.rx.is_accepting(s) as i64}),
            1 => json!({"op": "la", "v": la_code(x.rx.lookahead_len_for_state(s))}),
            _ => {
                let (c, b) = nb_code(x.rx.next_byte(s));
                if c == 2 {
                    self.forced.push(b);
                }
                json!({"op": "nb", "v": c as i64 * 1000 + b as i64})
            }
        };
        let mut v = v;
        v["h"] = json!(h + 1);
        v["s"] = json!(s.as_u32());
        v["w"] = json!(w);
        self.log.push(v);
    }
    fn whole(&mut self, h: usize, w: &[u8], kind: usize) {
        let x = &mut self.hs[h];
        let v = match kind {
            0 => json!({"op": "match", "v": x.rx.is_match_bytes(w) as i64}),
            1 => json!({"op": "len", "v": la_code(x.rx.lookahead_len_bytes(w))}),
            _ => json!({"op": "empty", "v": x.rx.always_empty() as i64}),
        };
        let mut v = v;
        v["h"] = json!(h + 1);
        v["w"] = json!(w);
        self.log.push(v);
    }
    /// Something unrelated on the builder.
    fn builder(&mut self, rng: &mut Rng) {
        match rng.below(3) {
            0 => {
                let _ = self.b.mk_regex("[a-c]+(x|é)").unwrap();
            }
            1 => {
                let k = self.refs.len();
                let r = derivre::RegexAst::Not(Box::new(derivre::RegexAst::ExprRef(
                    self.refs[rng.below(k)],
                )));
                let e = self.b.mk(&r).unwrap();
                self.b.to_regex(e).is_match("ab");
            }
            _ => {
                let _ = self.b.is_contained_in("a*", "[ab]*", 3);
            }
        }
    }
    /// Ask everything again on matchers with another history.
    fn again(&mut self, rng: &mut Rng) {
        let mut words: HashMap<(usize, Vec<u8>), ()> = HashMap::new();
        for h in &self.hs {
            for (_, w) in &h.known {
                words.insert((h.e, w.clone()), ());
            }
        }
        let mut words: Vec<(usize, Vec<u8>)> = words.into_keys().collect();
        words.sort();
        for i in (1..words.len()).rev() {
            words.swap(i, rng.below(i + 1));
        }
        words.truncate(8);
        for (e, w) in words {
            // a fresh matcher, or a clone of a used one
            let mut rx = if rng.chance(1, 2) {
                self.b.to_regex(self.refs[e])
            } else {
                let i = rng.below(self.hs.len());
                let h = (0..self.hs.len())
                    .map(|o| (i + o) % self.hs.len())
                    .find(|h| self.hs[*h].e == e)
                    .unwrap();
                self.hs[h].rx.clone()
            };
            let i = rx.initial_state();
            let s = rx.transition_bytes(i, &w);
            let (c, b) = nb_code(rx.next_byte(s));
            if c == 2 {
                self.forced.push(b);
            }
            self.log.push(json!({"op": "again", "e": e + 1, "w": w, "dead": s.is_dead(),
                "acc": rx.is_accepting(s) as i64, "la": la_code(rx.lookahead_len_for_state(s)),
                "nb": c as i64 * 1000 + b as i64}));
        }
    }
}

fn start(asts: &[Ast], rng: &mut Rng) -> Sess {
    let mut b = RegexBuilder::new();
    let style = pick_style(rng);
    let refs: Vec<ExprRef> = asts
        .iter()
        .map(|a| {
            let ra = to_regex_ast(a, &mut b, style, rng).unwrap();
            b.mk(&ra).unwrap()
        })
        .collect();
    Sess {
        b,
        refs,
        hs: vec![],
        log: vec![],
        forced: vec![],
    }
}

fn finish_case(s: Sess, asts: &[Ast], la: bool) -> Value {
    let mut atoms = vec![];
    for a in asts {
        a.atoms(&mut atoms);
    }
    for b in &s.forced {
        atoms.push(BSet::one(*b));
    }
    atoms.sort();
    atoms.dedup();
    let (cls, reps) = partition(&atoms, &[]);
    // rep[b+1]: the representative of byte b
    let rep: Vec<u8> = (0..256).map(|b| reps[cls[b]]).collect();
    json!({"panic": "", "reps": reps, "rep": rep, "log": s.log, "free": la,
        "ast": asts.iter().map(|a| if la { json!(["eps"]) } else { a.json(&reps) })
            .collect::<Vec<_>>()})
}

fn random_case(id: usize, asts: &[Ast], la: bool, ops: usize, seed: u64) -> Value {
    let src = format!("{:?}", asts);
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut s = start(asts, &mut rng);
        s.new_handle(0);
        let mut atoms = vec![];
        for a in asts {
            a.atoms(&mut atoms);
        }
        let (_, reps) = partition(&atoms, &[]);
        // with many classes: few states, and bytes that resemble those asked before
        let many = reps.len() > 90;
        let mut lastb = reps[0];
        for _ in 0..ops {
            let h = rng.below(s.hs.len());
            let n = s.hs[h].known.len();
            let st = if many && rng.chance(1, 2) {
                0
            } else if rng.chance(1, 2) {
                s.hs[h].cur
            } else {
                rng.below(n)
            };
            match rng.below(20) {
                0 if s.hs.len() < 5 => {
                    s.new_handle(rng.below(asts.len()));
                }
                1 if s.hs.len() < 5 => {
                    s.clone_handle(h);
                }
                2 => s.builder(&mut rng),
                3 | 4 => s.ask(h, st, 0),
                5 | 6 => s.ask(h, st, 1),
                7 | 8 => s.ask(h, st, 2),
                9 => {
                    let w: Vec<u8> = (0..rng.below(5)).map(|_| *rng.pick(&reps)).collect();
                    s.whole(h, &w, rng.below(3));
                }
                _ => {
                    let b = if many && rng.chance(1, 2) {
                        lastb ^ (1 << rng.below(8))
                    } else if rng.chance(3, 4) {
                        *rng.pick(&reps)
                    } else {
                        rng.next() as u8
                    };
                    lastb = b;
                    s.tr(h, st, b)
                }
            }
        }
        s.again(&mut rng);
        finish_case(s, asts, la)
    });
    finish(res, id, "session", &src, json!([]), seed)
}

/// A schedule enumerated by TLC: words over
/// a, b (letter on matcher 1), A, B (on matcher 2), n, N (next byte), q, Q (accepting?),
/// c (matcher 2 := clone of 1), w (builder work), z (back to the initial state of 1)
fn scheduled(id: usize, a: &Ast, ls: &[BSet], sched: &[String], seed: u64) -> Value {
    let src = format!("{} on {:?}", sched.join(""), a);
    let asts = [a.clone()];
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut s = start(&asts, &mut rng);
        let mut two = s.new_handle(0);
        two = s.new_handle(0).max(two);
        let letter = |i: usize, rng: &mut Rng| {
            let v = ls[i].bytes();
            v[rng.below(v.len())]
        };
        for op in sched {
            let h = if op.chars().next().unwrap().is_uppercase() {
                two
            } else {
                0
            };
            let st = s.hs[h].cur;
            match op.to_lowercase().as_str() {
                "a" => s.tr(h, st, letter(0, &mut rng)),
                "b" => s.tr(h, st, letter(1, &mut rng)),
                "n" => s.ask(h, st, 2),
                "q" => s.ask(h, st, rng.below(2)),
                "c" => two = s.clone_handle(0),
                "w" => s.builder(&mut rng),
                "z" => s.hs[0].cur = 0,
                _ => unreachable!(),
            }
        }
        s.again(&mut rng);
        finish_case(s, &asts, false)
    });
    finish(res, id, "session", &src, json!([]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let ops = args.n("ops", 60) as usize;
    let mut rng = Rng::new(seed ^ 0x5E55);
    if args.s("mode", "random") == "file" {
        let scheds: Vec<Vec<String>> =
            serde_json::from_str(&std::fs::read_to_string(args.s("in", "")).unwrap()).unwrap();
        let asts: Vec<Value> =
            serde_json::from_str(&std::fs::read_to_string(args.s("asts", "")).unwrap()).unwrap();
        let stride = args.n("stride", 1) as usize;
        for (k, s) in scheds.iter().enumerate() {
            if k % stride != seed as usize % stride {
                continue;
            }
            let ls = letters(rng.below(4));
            let a = Ast::from_json(rng.pick(&asts), &ls);
            let sd = rng.next() >> 12;
            out.begin(&json!({"fam": "session", "src": format!("{} on {:?}", s.join(""), a), "seed": sd}));
            out.push(scheduled(k + 1, &a, &ls, s, sd));
        }
        return;
    }
    if args.s("mode", "random") == "wide" {
        for k in 0..n {
            let a = [gen::classes(&mut rng)];
            let sd = rng.next() >> 12;
            out.begin(&json!({"fam": "session", "src": format!("{:?}", a), "seed": sd}));
            out.push(random_case(k + 1, &a, false, ops, sd));
        }
        return;
    }
    for k in 0..n {
        let np = 1 + rng.below(3);
        let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
        let la = rng.chance(1, 6);
        let m = 1 + rng.below(2);
        let asts: Vec<Ast> = (0..m)
            .map(|_| {
                let cfg = match rng.below(3) {
                    0 => Cfg::all(),
                    1 if !la => Cfg::with_pre(),
                    _ => Cfg::positive(),
                };
                let sz = 2 + rng.below(6);
                let a = gen::mixed(&mut rng, sz, &pool, &cfg, 10_000);
                if la {
                    let sz = 1 + rng.below(4);
                    let b = random_ast(&mut rng, sz, &pool, &Cfg::positive());
                    Ast::Cat(vec![a, Ast::la(b)])
                } else {
                    a
                }
            })
            .collect();
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "session", "src": format!("{:?}", asts), "seed": sd}));
        out.push(random_case(k + 1, &asts, la, ops, sd));
    }
}
