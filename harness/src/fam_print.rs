//! What is printed (C22): texts of expressions, in bytes or in symbols, whole and cut off.
use crate::ast::*;
use crate::fam_ast::finish;
use crate::fam_raw;
use crate::gen;
use crate::graph::*;
use crate::{Args, Out};
use derivre::raw::{DerivCache, ExprSet};
use derivre::{AlphabetInfo, ExprRef};
use serde_json::{json, Value};

/// Only bytes below n.
fn within(a: &Ast, n: usize) -> Ast {
    let all = |v: &Vec<Ast>| v.iter().map(|k| within(k, n)).collect();
    match a {
        Ast::Set(s) => {
            let mut t = BSet::empty();
            s.bytes().into_iter().filter(|b| (*b as usize) < n).for_each(|b| t.add(b));
            Ast::Set(t)
        }
        Ast::Lit(v) => Ast::Lit(v.iter().map(|b| (*b as usize % n) as u8).collect()),
        Ast::Cat(v) => Ast::Cat(all(v)),
        Ast::Or(v) => Ast::Or(all(v)),
        Ast::And(v) => Ast::And(all(v)),
        Ast::Not(k) => Ast::not(within(k, n)),
        Ast::Rep(k, lo, hi) => Ast::rep(within(k, n), *lo, *hi),
        Ast::Pre(k) => Ast::pre(within(k, n)),
        Ast::La(k) => Ast::la(within(k, n)),
        Ast::Eps => Ast::Eps,
        Ast::None => Ast::None,
    }
}

/// Text that needs care: quotes, escapes, characters of one to four bytes, parts of these.
fn text(rng: &mut Rng) -> Vec<u8> {
    const BITS: &[&[u8]] = &[
        b"a", b"b c", b"'", b"\"", b"\\", b"\n", b"\t", b"\r", b"\0", b"\x1b", b"\x7f", b"(", b")*",
        b" | ", b"[_]", b"s0", "é".as_bytes(), "…".as_bytes(), "ε".as_bytes(), "€".as_bytes(),
        "\u{301}".as_bytes(), "\u{200b}".as_bytes(), "😀".as_bytes(), "\u{10ffff}".as_bytes(),
        "\u{80}".as_bytes(), "\u{feff}".as_bytes(), "\u{ffff}".as_bytes(), b"\xff", b"\xe2\x82", b"\xc3",
        b"\xed\xa0\x80", b"\\n", b"0A",
    ];
    let n = if rng.chance(1, 30) { 100 + rng.below(100) } else { 1 + rng.below(5) };
    (0..n).flat_map(|_| rng.pick(BITS).to_vec()).collect()
}

/// Repetitions with large bounds; nothing in them can be written in two ways.
fn bounds(rng: &mut Rng) -> Ast {
    let set = random_set(rng);
    let near = |rng: &mut Rng, m: u32| {
        let b = *rng.pick(&[3, 9, 10, 99, 100, 255, 256, 999, 1000, 4096, 9999, 10_000, 32_767,
            65_535, 65_536, 99_999, 1_000_000, 16_777_216, 100_000_000, 999_999_990]);
        (b + rng.below(5) as u32).saturating_sub(2).max(m)
    };
    let lo = if rng.chance(1, 2) { rng.below(4) as u32 } else { near(rng, 0) };
    let hi = match rng.below(4) {
        0 => INF,
        1 => lo.max(2),
        _ => lo.max(near(rng, 2)),
    };
    let r = Ast::rep(if rng.chance(1, 2) { Ast::Set(set) } else { Ast::Lit(b"xyz".to_vec()) }, lo, hi);
    match rng.below(4) {
        0 => Ast::Cat(vec![Ast::byte(b'-'), r]),
        1 => Ast::Cat(vec![r, Ast::byte(b'-')]),
        2 => Ast::not(r),
        _ => r,
    }
}

fn expression(rng: &mut Rng, la: bool, effort: usize) -> Ast {
    let np = 1 + rng.below(4);
    let pool: Vec<BSet> = (0..np).map(|_| random_set(rng)).collect();
    let mut cfg = Cfg::with_pre();
    cfg.max_rep = *rng.pick(&[2, 3, 12]);
    let size = 1 + rng.below(8);
    let a = gen::mixed(rng, size, &pool, &cfg, effort);
    let t = |rng: &mut Rng| Ast::Lit(text(rng));
    let a = match rng.below(8) {
        0 => t(rng),
        1 => Ast::Cat(vec![t(rng), a]),
        2 => Ast::Cat(vec![a, t(rng)]),
        3 => Ast::Or(vec![t(rng), a]),
        4 => Ast::not(Ast::rep(t(rng), 2, INF)),
        _ => a,
    };
    if la {
        let b = random_ast(rng, 3, &pool, &Cfg::positive());
        let c = Ast::Cat(vec![a, Ast::la(b)]);
        return if rng.chance(1, 2) { Ast::Or(vec![c, Ast::la(t(rng))]) } else { c };
    }
    a
}

fn case(id: usize, a: &Ast, n: usize, symbols: bool, exact: bool, seed: u64) -> Value {
    let a = &within(a, n);
    let src = format!("alphabet={n} symbols={symbols} {a:?}");
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut x = ExprSet::new(n);
        if rng.chance(1, 4) {
            // there is something else in the set
            let b = within(&expression(&mut rng, false, 500), n);
            fam_raw::build(&b, &mut x, &mut rng);
        }
        let mut e = fam_raw::build(a, &mut x, &mut rng);
        let (cls, reps) = partition(&all_atoms(&[a], None), &[]);
        let reps: Vec<u8> = reps.into_iter().filter(|b| (*b as usize) < n).collect();
        let mut map: Vec<usize> = (0..n).collect();
        let mut syms = 0;
        if symbols {
            let (alpha, y, v) = AlphabetInfo::from_exprset(&x, &[e]);
            map = (0..=255u8).map(|b| alpha.map(b)).collect();
            syms = alpha.len();
            x = y;
            e = v[0];
        }
        // later on
        let mut w = vec![];
        let mut dc = DerivCache::new();
        for _ in 0..if exact { 0 } else { *rng.pick(&[0, 0, 1, 2, 3]) } {
            let b = *rng.pick(&reps);
            let d = dc.derivative(&mut x, e, map[b as usize] as u8);
            if d == ExprRef::NO_MATCH && rng.chance(3, 4) {
                continue;
            }
            e = d;
            w.push(b);
        }
        let whole = x.expr_to_string_max_len(e, usize::MAX);
        let table = x.pp().alphabet_info();
        let limits = [0, 1, 5, 9, whole.len() / 2, whole.len() - 1, whole.len(), 1024];
        let mut cuts: Vec<Value> = limits
            .iter()
            .filter(|_| rng.chance(1, 2))
            .map(|m| json!([m, x.expr_to_string_max_len(e, *m).as_bytes()]))
            .collect();
        cuts.push(json!([1024, x.expr_to_string(e).as_bytes()]));
        let info = x.expr_to_string_with_info(e) == x.expr_to_string(e) + &table;
        // texts of what is in the set
        let count = (1..).take_while(|i| x.is_valid(ExprRef::new(*i))).count() as u32;
        let mut names: Vec<(u32, String)> = vec![];
        for i in 1..=count {
            if count <= 30 || rng.chance(30, count as usize) {
                names.push((i, x.expr_to_string_max_len(ExprRef::new(i), usize::MAX)));
            }
        }
        let has_table = !table.is_empty();
        json!({"panic": "", "ast": if a.has_la() { json!(["none"]) } else { a.json(&reps) },
            "la": a.has_la(), "reps": reps,
            "cls": cls[..n].iter().map(|c| c + 1).collect::<Vec<_>>(), "n": n,
            "text": (whole + &table).as_bytes(), "sym": has_table, "syms": syms, "map": map,
            "w": w, "cuts": cuts, "info": info, "exact": exact, "deep": false,
            "names": names.iter().map(|(_, t)| t.as_str()).collect::<Vec<_>>()})
    });
    finish(res, id, "print", &src, json!(["none"]), seed)
}

/// Too deep to be printed in full.
fn deep(id: usize, depth: usize, seed: u64) -> Value {
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut x = ExprSet::new(256);
        let mut e = x.mk_literal("ab");
        let ways = 1 + rng.below(6);
        for i in 0..depth {
            let b = x.mk_byte((i % 251) as u8);
            e = match (i + rng.below(2)) % ways {
                0 => x.mk_repeat(e, 2, 3 + (i % 3) as u32),
                1 => {
                    let v = if rng.chance(1, 2) { vec![b, e] } else { vec![e, b] };
                    x.mk_concat(v)
                }
                2 => x.mk_or(vec![b, e]),
                3 => x.mk_and(vec![b, e]),
                4 => x.mk_not(e),
                _ => {
                    let t = x.mk_repeat(b, 0, u32::MAX);
                    let v = x.mk_concat(vec![t, e]);
                    x.mk_repeat(v, 0, 5)
                }
            };
        }
        let text = x.expr_to_string_max_len(e, 3000);
        let cuts: Vec<Value> = [0, 1, 7, 50, 200 + rng.below(800), 1024]
            .iter()
            .map(|m| json!([m, x.expr_to_string_max_len(e, *m).as_bytes()]))
            .chain([json!([1024, x.expr_to_string(e).as_bytes()])])
            .collect();
        json!({"panic": "", "ast": ["none"], "la": true, "reps": [], "cls": [], "n": 256,
            "text": text.as_bytes(), "sym": false, "syms": 0, "map": [], "w": [], "cuts": cuts,
            "info": true, "exact": false, "deep": true, "names": []})
    });
    finish(res, id, "print", &format!("nested {depth} deep"), json!(["none"]), seed)
}

pub fn run(args: &Args, out: &mut Out) {
    let n = args.n("n", 100) as usize;
    let mut rng = Rng::new(args.n("seed", 1) ^ 0x9127);
    for k in 0..n {
        let exact = k % 16 == 5;
        let a = if exact {
            bounds(&mut rng)
        } else {
            expression(&mut rng, k % 8 == 7, args.n("effort", 400) as usize)
        };
        let size = match k % 5 {
            4 if exact => *rng.pick(&[129, 160, 225, 255]),
            4 => *rng.pick(&[2, 3, 31, 32, 33, 64, 65, 100, 128, 160, 224, 225, 255]),
            _ => 256,
        };
        let symbols = size == 256 && rng.chance(1, 2);
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "print", "src": format!("{a:?}"), "seed": sd}));
        out.push(case(k + 1, &a, size, symbols, exact, sd));
    }
    for k in 0..args.n("deep", 0) as usize {
        let depth = *rng.pick(&[100, 1000, 20_000, 60_000]);
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "print", "src": format!("nested {depth}"), "seed": sd}));
        out.push(deep(n + k + 1, depth, sd));
    }
}
