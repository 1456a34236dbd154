//! Structured expressions: shapes that random trees hardly ever take.
use crate::ast::*;
use crate::size::effort;

fn word(rng: &mut Rng, al: &[u8], mn: usize, mx: usize) -> Vec<u8> {
    let n = mn + rng.below(mx - mn + 1);
    (0..n).map(|_| *rng.pick(al)).collect()
}

fn any() -> Ast {
    Ast::Set(BSet::full())
}

pub fn minus(a: &BSet, b: &BSet) -> BSet {
    a.not().union(b).not()
}

/// Sets that overlap, contain one another, touch, complete one another or differ in one byte.
pub fn related_sets(rng: &mut Rng, n: usize) -> Vec<BSet> {
    let mut v = vec![];
    while v.len() < n {
        let s = if v.is_empty() || rng.chance(1, 5) {
            random_set(rng)
        } else {
            let a: BSet = *rng.pick(&v);
            let b = if rng.chance(1, 2) {
                *rng.pick(&v)
            } else {
                random_set(rng)
            };
            match rng.below(7) {
                0 => a.union(&b),
                1 => minus(&a, &b),
                2 => a.not(),
                3 => a.not().union(&b.not()).not(),
                4 => {
                    let mut s = a;
                    s.add(rng.next() as u8);
                    s
                }
                5 => {
                    let bs = a.bytes();
                    if bs.is_empty() {
                        a
                    } else {
                        minus(&a, &BSet::one(bs[rng.below(bs.len())]))
                    }
                }
                _ => {
                    let bs = a.bytes();
                    if bs.is_empty() {
                        a
                    } else {
                        BSet::one(bs[rng.below(bs.len())])
                    }
                }
            }
        };
        if s != BSet::empty() || rng.chance(1, 20) {
            v.push(s);
        }
    }
    v
}

/// An intersection whose emptiness shows only after some bytes.
pub fn hidden(rng: &mut Rng) -> Ast {
    let sets = related_sets(rng, 3);
    let body = |rng: &mut Rng| match rng.below(4) {
        0 => Ast::byte(*rng.pick(b"ab")),
        1 => Ast::Lit(word(rng, b"ab", 1, 2)),
        _ => Ast::Set(*rng.pick(&sets)),
    };
    let x = body(rng);
    let ends = b"bcd";
    let n = if rng.chance(1, 4) { 3 } else { 2 };
    let mut v = vec![];
    for _ in 0..n {
        let mn = rng.below(3) as u32;
        let mx = match rng.below(4) {
            0 => INF,
            _ => mn + rng.below(4) as u32,
        };
        let b = if rng.chance(2, 3) { x.clone() } else { body(rng) };
        let mut c = vec![Ast::rep(b, mn, mx)];
        match rng.below(6) {
            0 => {}
            1 => c.push(Ast::rep(Ast::byte(*rng.pick(ends)), 0, 1)),
            2 => c.push(Ast::Set(*rng.pick(&sets))),
            _ => c.push(Ast::byte(*rng.pick(ends))),
        }
        if rng.chance(1, 4) {
            c.insert(0, Ast::rep(Ast::byte(*rng.pick(b"ab")), 0, 1));
        }
        v.push(Ast::Cat(c));
    }
    if rng.chance(1, 5) {
        let k = v.pop().unwrap();
        v.push(Ast::not(k));
    }
    Ast::And(v)
}

/// A meeting that ends where no byte leads on, though nothing says so in words.
pub fn standstill(rng: &mut Rng) -> Ast {
    let ss = related_sets(rng, 2);
    let set = Ast::Set(ss[0]);
    let any = Ast::rep(Ast::Set(BSet::full()), 0, INF);
    let more = match rng.below(4) {
        0 => Ast::rep(set.clone(), 0, INF),
        1 => Ast::Cat(vec![Ast::rep(Ast::Set(ss[1]), 0, 2), any]),
        _ => any,
    };
    let not = Ast::not(Ast::Cat(vec![set.clone(), more]));
    let star = match rng.below(3) {
        0 => Ast::Or(vec![Ast::Eps, set.clone(), Ast::rep(set.clone(), 2, 5)]),
        1 => Ast::rep(Ast::Set(ss[0].union(&ss[1])), rng.below(2) as u32, INF),
        _ => Ast::rep(set.clone(), rng.below(3) as u32, INF),
    };
    let m = Ast::And(vec![star, not]);
    match rng.below(4) {
        0 => m,
        1 => Ast::Cat(vec![Ast::Set(ss[1]), m]),
        2 => Ast::Cat(vec![Ast::Lit(word(rng, b"abx", 1, 3)), m]),
        _ => Ast::Or(vec![Ast::Lit(word(rng, b"cdx", 1, 3)), m]),
    }
}

/// Several of them, behind different beginnings, under all operators.
pub fn hiddens(rng: &mut Rng, pre: bool) -> Ast {
    let n = 1 + rng.below(3);
    let mut items = vec![];
    for i in 0..n {
        let h = hidden(rng);
        let h = match rng.below(8) {
            0 | 1 => h,
            2 => Ast::rep(h, rng.below(2) as u32, 1 + rng.below(2) as u32),
            3 => Ast::Cat(vec![h, Ast::rep(Ast::byte(b'd'), 0, 1)]),
            4 if pre => Ast::pre(h),
            5 => Ast::Or(vec![h, Ast::Lit(word(rng, b"ab", 1, 3))]),
            _ => Ast::Cat(vec![Ast::byte(b"xyz"[i]), h]),
        };
        items.push(h);
    }
    if rng.chance(1, 3) {
        items.push(Ast::Lit(word(rng, b"abx", 0, 3)));
    }
    let all = match rng.below(6) {
        0 => Ast::And(items),
        1 => Ast::Cat(items),
        2 => Ast::not(Ast::Or(items)),
        _ => Ast::Or(items),
    };
    match rng.below(8) {
        0 if pre => Ast::pre(all),
        1 => Ast::Cat(vec![Ast::byte(*rng.pick(b"axd")), all]),
        2 => Ast::not(all),
        3 => Ast::And(vec![all, Ast::not(Ast::Lit(word(rng, b"ab", 0, 2)))]),
        _ => all,
    }
}

/// The difference of two alternations over related sets and shared words.
pub fn sets(rng: &mut Rng) -> Ast {
    let ss = related_sets(rng, 4);
    let words: Vec<Vec<u8>> = (0..3).map(|_| word(rng, b"pqr", 1, 3)).collect();
    let alt = |rng: &mut Rng| {
        let m = 1 + rng.below(3);
        Ast::Or((0..m).map(|_| Ast::Lit(rng.pick(&words).clone())).collect())
    };
    let side = |rng: &mut Rng, n: usize| {
        Ast::Or(
            (0..n)
                .map(|_| {
                    let s = match rng.below(6) {
                        0 => any(),
                        1 => Ast::byte(*rng.pick(b"abz")),
                        _ => Ast::Set(*rng.pick(&ss)),
                    };
                    if rng.chance(1, 10) {
                        s
                    } else {
                        Ast::Cat(vec![s, alt(rng)])
                    }
                })
                .collect(),
        )
    };
    let n = 1 + rng.below(2);
    let m = 1 + rng.below(5);
    let (a, b) = (side(rng, n), side(rng, m));
    match rng.below(5) {
        0 => Ast::not(b),
        1 => Ast::And(vec![a, b]),
        2 => Ast::not(Ast::Or(vec![a, Ast::not(b)])),
        _ => Ast::And(vec![a, Ast::not(b)]),
    }
}

/// Overlapping sets followed by unions of a few values: what follows a byte in several of the
/// sets is a union that is also the value of another set.
pub fn lattice(rng: &mut Rng) -> Ast {
    let nv = 2 + rng.below(2);
    let vals: Vec<Ast> = (0..nv)
        .map(|i| match rng.below(3) {
            0 => Ast::Lit(vec![b"pqr"[i]]),
            1 => Ast::Lit(vec![b"pqr"[i], *rng.pick(b"pq")]),
            _ => Ast::rep(Ast::byte(b"pqr"[i]), 0, *rng.pick(&[2, INF])),
        })
        .collect();
    // few points, so that the sets overlap in many ways
    let pts: Vec<BSet> = match rng.below(3) {
        0 => b"abcd".iter().map(|b| BSet::one(*b)).collect(),
        1 => partition_sets(rng, 4),
        _ => vec![
            BSet::range(0, 49),
            BSet::range(50, 99),
            BSet::range(100, 200),
            BSet::range(201, 255),
        ],
    };
    let n = 2 + rng.below(4);
    let v: Vec<Ast> = (0..n)
        .map(|_| {
            let k = 1 + rng.below(3);
            let mut s = BSet::empty();
            for _ in 0..k {
                s = s.union(rng.pick(&pts));
            }
            let m = 1 + rng.below(nv);
            let vs: Vec<Ast> = (0..m).map(|_| rng.pick(&vals).clone()).collect();
            Ast::Cat(vec![Ast::Set(s), Ast::Or(vs)])
        })
        .collect();
    let inner = match rng.below(5) {
        0 => Ast::And(v),
        _ => Ast::Or(v),
    };
    let some = Ast::Cat(vec![
        Ast::Set(*rng.pick(&pts)),
        Ast::Or(vec![rng.pick(&vals).clone(), rng.pick(&vals).clone()]),
    ]);
    match rng.below(6) {
        0 => Ast::not(inner),
        1 => inner,
        2 => Ast::And(vec![Ast::Cat(vec![any(), rng.pick(&vals).clone()]), Ast::not(inner)]),
        3 => Ast::not(Ast::Or(vec![Ast::not(inner), some])),
        4 => Ast::Cat(vec![Ast::byte(b'x'), Ast::And(vec![some, Ast::not(inner)])]),
        _ => Ast::And(vec![some, Ast::not(inner)]),
    }
}

/// Alternations of many operands with a common first byte that cannot be factored out, and
/// some that do not have it.
pub fn branches(rng: &mut Rng) -> Ast {
    let c = *rng.pick(b"abz\x00\xff");
    let n = 2 + rng.below(10);
    let ss = related_sets(rng, 2);
    let mut v: Vec<Ast> = (0..n)
        .map(|_| {
            let mn = 1 + rng.below(3) as u32;
            let head = match rng.below(5) {
                0 => Ast::byte(c),
                1 => Ast::rep(Ast::byte(c), mn, INF),
                2 => Ast::rep(Ast::Lit(vec![c, *rng.pick(b"pq")]), mn, mn + rng.below(3) as u32),
                _ => Ast::rep(Ast::byte(c), mn, mn + rng.below(4) as u32),
            };
            let tail = match rng.below(4) {
                0 => Ast::Set(*rng.pick(&ss)),
                1 => Ast::Eps,
                _ => Ast::Lit(word(rng, b"pqa", 1, 3)),
            };
            Ast::Cat(vec![head, tail])
        })
        .collect();
    for _ in 0..rng.below(3) {
        let odd = match rng.below(6) {
            0 => Ast::Eps,
            1 => Ast::Set(*rng.pick(&ss)),
            2 => Ast::rep(Ast::byte(c), 0, 2),
            3 => Ast::Lit(word(rng, b"ab", 1, 3)),
            4 => Ast::not(Ast::byte(c)),
            _ => Ast::rep(Ast::byte(c.wrapping_add(1)), 1, 3),
        };
        let at = rng.below(v.len() + 1);
        v.insert(at, odd);
    }
    let o = Ast::Or(v);
    match rng.below(4) {
        0 => Ast::Cat(vec![Ast::Lit(word(rng, b"xy", 1, 3)), o]),
        1 => Ast::Cat(vec![o, Ast::Lit(word(rng, b"xy", 1, 2))]),
        _ => o,
    }
}

/// Words that differ from one another in a few places only.
pub fn mutants(rng: &mut Rng, count: usize) -> Vec<Vec<u8>> {
    let len = 2 + rng.below(9);
    let al: &[u8] = rng.pick(&[&b"ab"[..], &b"abcdef"[..], &[0, 0x7f, 0x80, 0xff]]);
    let base = word(rng, al, len, len);
    let keep = rng.below(3);
    (0..count)
        .map(|_| {
            let mut w = base.clone();
            for _ in 0..rng.below(4) {
                let i = rng.below(w.len());
                if i >= keep && (i + 1 < w.len() || rng.chance(1, 3)) {
                    w[i] = *rng.pick(al);
                }
            }
            match rng.below(10) {
                0 => {
                    w.pop();
                }
                1 => w.push(*rng.pick(al)),
                2 => {
                    let at = rng.below(w.len());
                    w.insert(at, *rng.pick(al));
                }
                _ => {}
            }
            w
        })
        .collect()
}

/// n disjoint sets of two or more bytes, told apart only by what follows.
pub fn partition_sets(rng: &mut Rng, n: usize) -> Vec<BSet> {
    let mut bytes: Vec<u8> = (0..=255).collect();
    if rng.chance(2, 3) {
        for i in (1..256usize).rev() {
            bytes.swap(i, rng.below(i + 1));
        }
    }
    let per = (256 / n).max(1);
    let per = if rng.chance(1, 2) { per.min(2) } else { per };
    (0..n)
        .map(|i| {
            let mut s = BSet::empty();
            for b in bytes.iter().skip(i * per).take(per) {
                s.add(*b);
            }
            s
        })
        .collect()
}

/// A random tree in which parts are used several times.
pub fn shared(rng: &mut Rng, size: usize, cfg: &Cfg) -> Ast {
    let n = 2 + rng.below(3);
    let pool = related_sets(rng, n);
    let mut lib: Vec<Ast> = (0..2)
        .map(|_| {
            let s = 1 + rng.below(3);
            random_ast(rng, s, &pool, cfg)
        })
        .collect();
    if cfg.and > 0 && rng.chance(1, 3) {
        lib.push(hidden(rng));
    }
    fn put(a: &Ast, lib: &[Ast], rng: &mut Rng) -> Ast {
        if a.kids().is_empty() {
            return if rng.chance(1, 2) {
                rng.pick(lib).clone()
            } else {
                a.clone()
            };
        }
        let l = |v: &Vec<Ast>, rng: &mut Rng| v.iter().map(|x| put(x, lib, rng)).collect();
        match a {
            Ast::Cat(v) => Ast::Cat(l(v, rng)),
            Ast::Or(v) => Ast::Or(l(v, rng)),
            Ast::And(v) => Ast::And(l(v, rng)),
            Ast::Not(x) => Ast::not(put(x, lib, rng)),
            Ast::Rep(x, mn, mx) => Ast::rep(put(x, lib, rng), *mn, *mx),
            Ast::Pre(x) => Ast::pre(put(x, lib, rng)),
            Ast::La(x) => Ast::la(put(x, lib, rng)),
            _ => a.clone(),
        }
    }
    let a = random_ast(rng, size, &pool, cfg);
    put(&a, &lib, rng)
}

/// Long runs of counted items; bounds far from the small ones.
pub fn counted(rng: &mut Rng, cfg: &Cfg) -> Ast {
    let ss = related_sets(rng, 2);
    let n = 1 + rng.below(3);
    let v: Vec<Ast> = (0..n)
        .map(|_| {
            let mn = rng.below(14) as u32;
            let mx = match rng.below(4) {
                0 => INF,
                1 => mn,
                _ => mn + rng.below(14) as u32,
            };
            let x = match rng.below(4) {
                0 => Ast::byte(*rng.pick(b"ab")),
                1 => Ast::Lit(word(rng, b"ab", 2, 3)),
                2 => Ast::Or(vec![Ast::Lit(word(rng, b"ab", 1, 2)), Ast::Set(ss[1])]),
                _ => Ast::Set(ss[0]),
            };
            Ast::rep(x, mn, mx)
        })
        .collect();
    let v2 = v.clone();
    match rng.below(4) {
        0 => Ast::Or(v),
        1 if cfg.and > 0 => Ast::And(v),
        2 if cfg.not > 0 => Ast::And(vec![Ast::Cat(v), Ast::not(Ast::Or(v2))]),
        _ => Ast::Cat(v),
    }
}

pub fn special(rng: &mut Rng, size: usize, cfg: &Cfg) -> Ast {
    let kinds = if cfg.and > 0 && cfg.not > 0 { 8 } else { 4 };
    match rng.below(kinds) {
        0 => branches(rng),
        1 => {
            let n = 2 + rng.below(8);
            Ast::Or(mutants(rng, n).into_iter().map(Ast::Lit).collect())
        }
        2 => counted(rng, cfg),
        3 => shared(rng, size, cfg),
        4 if rng.chance(1, 4) => standstill(rng),
        4 | 5 => hiddens(rng, cfg.pre > 0),
        6 if rng.chance(1, 2) => lattice(rng),
        6 => sets(rng),
        _ => {
            let mut v = vec![special(rng, size, cfg), special(rng, size, cfg)];
            match rng.below(5) {
                0 => Ast::And(v),
                1 => Ast::Cat(v),
                2 => {
                    let b = v.pop().unwrap();
                    v.push(Ast::not(b));
                    Ast::And(v)
                }
                3 if cfg.pre > 0 => Ast::pre(Ast::And(v)),
                _ => Ast::Or(v),
            }
        }
    }
}

/// Random or structured, and small enough for the specification to be explored completely.
pub fn mixed(rng: &mut Rng, size: usize, pool: &[BSet], cfg: &Cfg, limit: usize) -> Ast {
    for _ in 0..30 {
        let a = if rng.chance(1, 2) {
            random_ast(rng, size, pool, cfg)
        } else {
            let a = special(rng, size, cfg);
            if rng.chance(1, 3) {
                rename(&a, &[0, 1, 10, 31, 63, 64, 127, 128, 191, 192, 254, 255], rng)
            } else {
                a
            }
        };
        if effort(&a, limit).is_some() {
            return a;
        }
    }
    random_ast(rng, size.min(4), pool, cfg)
}

/// Parts that meet two by two, though perhaps not all together.
pub fn parts(rng: &mut Rng, n: usize) -> Vec<Ast> {
    let ss = related_sets(rng, 2);
    let xs: Vec<Ast> = (0..n)
        .map(|i| match rng.below(4) {
            0 => Ast::Lit(vec![b"abcd"[i % 4], *rng.pick(b"ab")]),
            1 => Ast::rep(Ast::byte(b"abcd"[i % 4]), 1 + rng.below(2) as u32, 3),
            _ => Ast::byte(b"abcd"[i % 4]),
        })
        .collect();
    let tail = match rng.below(4) {
        0 => Ast::Eps,
        1 => Ast::rep(Ast::Set(ss[0]), 0, INF),
        2 => Ast::Set(ss[0]),
        _ => Ast::rep(Ast::Set(ss[1]), 1, INF),
    };
    let common = rng.chance(1, 3);
    (0..n)
        .map(|i| {
            let mut v: Vec<Ast> = (0..n)
                .filter(|j| *j != i || rng.chance(1, 8))
                .map(|j| xs[j].clone())
                .collect();
            if common {
                v.push(Ast::Lit(vec![b'd', b'a']));
            }
            let mut a = Ast::Cat(vec![Ast::Or(v), tail.clone()]);
            if rng.chance(1, 4) {
                a = Ast::Cat(vec![Ast::Set(ss[1]), a]);
            }
            match rng.below(5) {
                0 => a,
                1 => Ast::And(vec![a, Ast::not(Ast::Lit(word(rng, b"ab", 0, 3)))]),
                2 => Ast::And(vec![
                    a,
                    Ast::not(Ast::Cat(vec![
                        Ast::byte(*rng.pick(b"abcd")),
                        Ast::rep(Ast::Set(ss[0]), 0, INF),
                    ])),
                ]),
                3 => Ast::not(Ast::Or(vec![Ast::not(a), Ast::Lit(word(rng, b"abc", 1, 2))])),
                _ => Ast::And(vec![a, Ast::rep(Ast::Set(ss[0].union(&ss[1])), 0, 4)]),
            }
        })
        .collect()
}

/// Expressions that mention some of these.
pub fn over(rng: &mut Rng, parts: &[Ast]) -> Ast {
    let mut v: Vec<Ast> = vec![];
    for p in parts {
        if rng.chance(4, 5) {
            v.push(p.clone());
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
    match rng.below(8) {
        0 => Ast::Cat(v),
        1 => Ast::Or(v),
        2 => Ast::Cat(vec![Ast::Lit(word(rng, b"ab", 1, 2)), Ast::And(v)]),
        3 => Ast::not(Ast::Or(v.into_iter().map(Ast::not).collect())),
        4 => {
            let k = v.pop().unwrap_or(Ast::Eps);
            v.push(Ast::not(k));
            Ast::And(v)
        }
        5 => Ast::rep(Ast::And(v), rng.below(3) as u32, 3),
        _ => Ast::And(v),
    }
}

/// Very many classes, told apart in every state by what comes next.
pub fn classes(rng: &mut Rng) -> Ast {
    let n = *rng.pick(&[96usize, 127, 128, 129, 180, 200, 255, 256]);
    let off = rng.below(257 - n);
    let x = 1u8 << rng.below(8);
    let v = (off..off + n)
        .map(|i| {
            let b = i as u8;
            Ast::Cat(vec![
                Ast::byte(b),
                Ast::byte(b ^ x),
                Ast::rep(Ast::byte(b), 0, rng.below(3) as u32),
            ])
        })
        .collect();
    let a = Ast::Or(v);
    match rng.below(3) {
        0 => Ast::rep(a, 0, 2 + rng.below(2) as u32),
        1 => Ast::not(a),
        _ => a,
    }
}

/// The same expression over other bytes: some letters change places with bytes of `with`.
pub fn rename(a: &Ast, with: &[u8], rng: &mut Rng) -> Ast {
    let mut perm: Vec<u8> = (0..=255).collect();
    for b in b"abpqxyd" {
        if rng.chance(1, 2) {
            let o = *rng.pick(with);
            perm.swap(*b as usize, o as usize);
        }
    }
    fn go(a: &Ast, p: &[u8]) -> Ast {
        let l = |v: &Vec<Ast>| v.iter().map(|x| go(x, p)).collect();
        match a {
            Ast::Set(s) => {
                let mut r = BSet::empty();
                for b in s.bytes() {
                    r.add(p[b as usize]);
                }
                Ast::Set(r)
            }
            Ast::Lit(v) => Ast::Lit(v.iter().map(|b| p[*b as usize]).collect()),
            Ast::Cat(v) => Ast::Cat(l(v)),
            Ast::Or(v) => Ast::Or(l(v)),
            Ast::And(v) => Ast::And(l(v)),
            Ast::Not(x) => Ast::not(go(x, p)),
            Ast::Rep(x, mn, mx) => Ast::rep(go(x, p), *mn, *mx),
            Ast::Pre(x) => Ast::pre(go(x, p)),
            Ast::La(x) => Ast::la(go(x, p)),
            Ast::Eps | Ast::None => a.clone(),
        }
    }
    go(a, &perm)
}
