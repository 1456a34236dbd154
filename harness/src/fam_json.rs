//! JSON-quoted forms of expressions.
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::{JsonQuoteOptions, RegexBuilder};
use serde_json::{json, Value};

fn jset(rng: &mut Rng) -> BSet {
    let ctrl = BSet::range(0, 31);
    let mut s = match rng.below(16) {
        0 => ctrl,
        1 => BSet::full(),
        2 => {
            let mut s = ctrl;
            s.0[0] &= !(1 << 10);
            s
        }
        3 => {
            let mut s = BSet::full();
            s.0[0] &= !(1 << 10);
            s
        }
        4 => BSet::one(b'"').not(),
        5 => BSet::one(b'\\').not(),
        6 => {
            let mut s = ctrl;
            s.0[0] &= !(1 << rng.below(32));
            s
        }
        7 | 8 => BSet::one(*rng.pick(&[0, 8, 9, 10, 11, 12, 13, 31, 32, b'"', b'\\', 0x7f, b'/', b'u', b'n', b'0', b'7', b'F', b'f', b'a'])),
        9 => {
            let mut s = BSet::empty();
            for _ in 0..1 + rng.below(6) {
                s.add(rng.below(32) as u8);
            }
            s
        }
        10 => {
            let mut s = BSet::empty();
            for b in [8u8, 9, 10, 12, 13] {
                if rng.chance(2, 3) {
                    s.add(b);
                }
            }
            s
        }
        11 => BSet::range(32, 126),
        12 => BSet::range(127, 255),
        13 => BSet::range(rng.below(40) as u8, 40 + rng.below(200) as u8),
        _ => random_set(rng),
    };
    if rng.chance(1, 4) {
        s.add(*rng.pick(b"\"\\\x7fbfu"));
    }
    if rng.chance(1, 10) {
        s.0[0] &= !(1 << 34);
    }
    s
}

fn has_ops(a: &Ast) -> bool {
    matches!(a, Ast::And(_) | Ast::Not(_) | Ast::Pre(_)) || a.kids().iter().any(|k| has_ops(k))
}

/// `must`: the intersection, complement or prefixes in it cannot be simplified away.
fn case(id: usize, a: &Ast, esc: &str, raw: bool, must: bool, seed: u64, opt: &Opt) -> Value {
    let src = format!("json raw={raw} esc={esc:?} {:?}", a);
    let bad = !esc.bytes().all(|c| b"\"\\bfnrtu".contains(&c));
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
        let e = b.mk(&ra).unwrap();
        let o = JsonQuoteOptions {
            allowed_escapes: esc.to_string(),
            raw_mode: raw,
        };
        if rng.chance(1, 4) {
            // quoting under other options first
            let o2 = if rng.chance(1, 2) {
                JsonQuoteOptions::with_unicode()
            } else {
                JsonQuoteOptions::no_unicode()
            };
            let _ = b.json_quote(e, &o2);
        }
        match b.json_quote(e, &o) {
            Err(_) => {
                let mut v = json!({"panic": "", "reps": [], "init": 0, "st": [], "empty": false,
                    "null": false, "partial": true, "api": [], "skip": true});
                v["ast"] = a.json(&[]);
                v["err"] = json!(true);
                v
            }
            Ok(q) => {
                let is_null = b.is_nullable(q);
                let mut rx = b.to_regex(q);
                let mut sets: Vec<Ast> = (0..32).map(Ast::byte).collect();
                for c in b"\"\\\x7fbfnrtu0123456789abcdefABCDEF" {
                    sets.push(Ast::byte(*c));
                }
                let sets = Ast::Or(sets);
                let mut v = record(&mut rx, &[a, &sets], a, is_null, &mut rng, opt);
                v["err"] = json!(false);
                v
            }
        }
    });
    let mut v = finish(res, id, "json", &src, a.json(&[]), seed);
    v["ops"] = json!(has_ops(a));
    v["must"] = json!(must);
    v["bad"] = json!(bad);
    v["raw"] = json!(raw);
    v["esc"] = json!(esc.bytes().collect::<Vec<u8>>());
    if v["err"].is_null() {
        v["err"] = json!(false);
    }
    v
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let opt = Opt::from(args);
    let mut rng = Rng::new(seed ^ 0x150);
    let letters_ = b"\"\\bfnrtu";
    for k in 0..n {
        let mut must = false;
        let a = if k < 256 {
            // every single byte, in turn as a byte, a literal, a complement class
            match k % 3 {
                0 => Ast::byte(k as u8),
                1 => Ast::Set(BSet::one(k as u8).not()),
                _ => Ast::Cat(vec![Ast::byte(b'x'), Ast::rep(Ast::byte(k as u8), 0, INF)]),
            }
        } else {
            let pool: Vec<BSet> = (0..1 + rng.below(3)).map(|_| jset(&mut rng)).collect();
            let size = 1 + rng.below(6);
            let cfg = if rng.chance(1, 12) {
                Cfg::with_pre()
            } else {
                Cfg::positive()
            };
            let a = if rng.chance(2, 3) || cfg.pre > 0 {
                random_ast(&mut rng, size, &pool, &cfg)
            } else {
                let a = gen::mixed(&mut rng, size, &pool, &cfg, 5000);
                gen::rename(&a, &[0, 8, 9, 10, 12, 13, 16, 31, 32, 34, 92, 127, 7], &mut rng)
            };
            if rng.chance(1, 12) {
                must = true;
                let x = Ast::rep(Ast::Set(BSet::range(b'a', b'c')), 0, INF);
                let y = Ast::rep(Ast::Set(BSet::range(b'b', b'd')), 0, INF);
                let m = match rng.below(3) {
                    0 => Ast::And(vec![x, y]),
                    1 => Ast::not(x),
                    _ => Ast::pre(Ast::Cat(vec![Ast::byte(b'q'), x])),
                };
                let e = Ast::Cat(vec![Ast::byte(b'x'), m.clone()]);
                match rng.below(3) {
                    0 => m,
                    1 => Ast::Or(vec![Ast::Lit(b"yz".to_vec()), e]),
                    _ => Ast::rep(e, 2, 3),
                }
            } else {
                a
            }
        };
        let mut esc = String::new();
        match rng.below(4) {
            0 => esc.push_str("nrbtf\\\""),
            1 => esc.push_str("nrbtf\\\"u"),
            _ => {
                for c in letters_ {
                    if rng.chance(3, 5) {
                        esc.push(*c as char);
                    }
                }
            }
        }
        if rng.chance(1, 30) {
            let bad: String = rng.pick(&["x", "/", "'", "U", "0", "é", " ", "N", "a"]).to_string();
            let at = rng.below(2);
            if at == 0 {
                esc.insert_str(0, &bad);
            } else {
                esc.push_str(&bad);
            }
        }
        let raw = rng.chance(1, 2);
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "json", "src": format!("raw={raw} {esc:?} {:?}", a), "seed": sd}));
        let c = case(k + 1, &a, &esc, raw, must, sd, &opt);
        out.push(c);
    }
}
