//! Patterns in regex syntax. The oracle's view of a pattern is its HIR as produced by the
//! regex-syntax crate under the flags the builder was given.
use crate::ast::*;
use crate::fam_ast::*;
use crate::graph::*;
use crate::{Args, Out};
use derivre::{Regex, RegexAst, RegexBuilder};
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug)]
pub struct Flags {
    pub unicode: bool,
    pub utf8: bool,
    pub x: bool,
    pub i: bool,
    pub s: bool,
}
impl Flags {
    pub fn default() -> Flags {
        Flags {
            unicode: true,
            utf8: true,
            x: false,
            i: false,
            s: false,
        }
    }
    pub fn parser(&self) -> regex_syntax::Parser {
        regex_syntax::ParserBuilder::new()
            .unicode(self.unicode)
            .utf8(self.utf8)
            .ignore_whitespace(self.x)
            .case_insensitive(self.i)
            .dot_matches_new_line(self.s)
            .build()
    }
}

/// Some(true): look-around that has no meaning in the specification
pub fn unsupported(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Look(l) => !matches!(l, Look::Start | Look::End),
        k => k.subs().iter().any(unsupported),
    }
}

pub fn hir_atoms(h: &Hir, out: &mut Vec<BSet>) {
    let mut edge = |b: u8, out: &mut Vec<BSet>| {
        out.push(BSet::one(b));
        out.push(BSet::range(b, 255));
    };
    match h.kind() {
        HirKind::Literal(l) => {
            for b in l.0.iter() {
                out.push(BSet::one(*b));
            }
        }
        HirKind::Class(Class::Bytes(c)) => {
            for r in c.ranges() {
                out.push(BSet::range(r.start(), r.end()));
            }
        }
        HirKind::Class(Class::Unicode(c)) => {
            let mut buf = [0u8; 4];
            for r in c.ranges() {
                for c in [r.start(), r.end()] {
                    for b in c.encode_utf8(&mut buf).bytes() {
                        edge(b, out);
                    }
                }
            }
            for b in [
                0x80, 0x90, 0xa0, 0xc0, 0xc2, 0xe0, 0xe1, 0xf0, 0xf1, 0xf5, 0xf8, 0xed, 0xf4, 0x9f,
                0x8f, 0xbf,
            ] {
                edge(b, out);
            }
        }
        k => {
            for s in k.subs() {
                hir_atoms(s, out);
            }
        }
    }
}

pub fn hir_json(h: &Hir, reps: &[u8]) -> Value {
    let l = |v: &[Hir]| -> Value { v.iter().map(|x| hir_json(x, reps)).collect() };
    match h.kind() {
        HirKind::Empty => json!(["eps"]),
        HirKind::Literal(l) => json!(["lit", l.0.to_vec()]),
        HirKind::Class(Class::Bytes(c)) => {
            let v: Vec<u8> = reps
                .iter()
                .copied()
                .filter(|b| c.ranges().iter().any(|r| r.start() <= *b && *b <= r.end()))
                .collect();
            json!(["set", v])
        }
        HirKind::Class(Class::Unicode(c)) => {
            let v: Vec<[u32; 2]> = c
                .ranges()
                .iter()
                .map(|r| [r.start() as u32, r.end() as u32])
                .collect();
            json!(["ucls", v])
        }
        HirKind::Look(Look::Start) => json!(["bos"]),
        HirKind::Look(Look::End) => json!(["eos"]),
        HirKind::Look(_) => json!(["look"]),
        HirKind::Repetition(r) => json!([
            "rep",
            hir_json(&r.sub, reps),
            r.min,
            r.max.map(|m| m as i64).unwrap_or(-1)
        ]),
        HirKind::Capture(c) => hir_json(&c.sub, reps),
        HirKind::Concat(v) => json!(["cat", l(v)]),
        HirKind::Alternation(v) => json!(["or", l(v)]),
    }
}

/// `around`: patterns given to the same builder before and after (the number says how many
/// before).
pub fn case(
    id: usize,
    pat: &str,
    around: &(Vec<String>, usize),
    fl: Flags,
    seed: u64,
    opt: &Opt,
) -> Value {
    let src = if around.0.is_empty() {
        format!("{fl:?} /{pat}/")
    } else {
        format!("{fl:?} /{pat}/ after {} of {:?}", around.1, around.0)
    };
    let hir = fl.parser().parse(pat);
    let unsup = match &hir {
        Ok(h) => unsupported(h),
        Err(_) => true,
    };
    let whole = match &hir {
        Ok(h) => hir_json(h, &(0..=255).collect::<Vec<u8>>()),
        Err(_) => json!(["none"]),
    };
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let plain = fl.unicode && fl.utf8 && !fl.x && !fl.i && !fl.s;
        let hist = !around.0.is_empty();
        let rx: anyhow::Result<Regex> = if hist {
            (|| {
                let mut b = RegexBuilder::new();
                b.unicode(fl.unicode)
                    .utf8(fl.utf8)
                    .ignore_whitespace(fl.x)
                    .case_insensitive(fl.i)
                    .dot_matches_new_line(fl.s);
                for p in &around.0[..around.1] {
                    if let Ok(e) = b.mk_regex(p) {
                        if rng.chance(1, 4) {
                            b.to_regex(e).is_match("ab");
                        }
                    }
                }
                let e = b.mk_regex(pat)?;
                for p in &around.0[around.1..] {
                    let _ = b.mk_regex(p);
                }
                if rng.chance(1, 2) {
                    let e2 = b.mk_regex(pat)?;
                    return Ok(b.to_regex(e2));
                }
                Ok(b.to_regex(e))
            })()
        } else if plain && rng.chance(1, 4) {
            Regex::new(pat)
        } else if rng.chance(1, 5) {
            Regex::new_with_parser(fl.parser(), pat)
        } else {
            (|| {
                let mut b = RegexBuilder::new();
                if rng.chance(1, 2) {
                    // a pattern parsed under other flags first
                    let _ = b.mk_regex("[a-z]é.(?i:k)");
                }
                if rng.chance(1, 3) {
                    b.unicode(!fl.unicode).utf8(!fl.utf8).ignore_whitespace(!fl.x);
                    b.case_insensitive(!fl.i).dot_matches_new_line(!fl.s);
                    let _ = b.mk_regex("a .é");
                }
                // only what differs from the default has to be set
                let all = rng.chance(1, 2) || b.mk_regex("(?i)a").is_err();
                let _ = all;
                b.unicode(fl.unicode)
                    .utf8(fl.utf8)
                    .ignore_whitespace(fl.x)
                    .case_insensitive(fl.i)
                    .dot_matches_new_line(fl.s);
                let e = if rng.chance(1, 2) {
                    b.mk_regex(pat)?
                } else {
                    b.mk(&RegexAst::Regex(pat.to_string()))?
                };
                Ok(b.to_regex(e))
            })()
        };
        match rx {
            Err(_) => {
                let mut v = json!({"panic": "", "reps": [], "init": 0, "st": [], "empty": false,
                    "null": false, "partial": true, "api": [], "skip": true});
                v["ast"] = whole.clone();
                v["err"] = json!(true);
                v
            }
            Ok(mut rx) => {
                let mut atoms = vec![];
                if let Ok(h) = &hir {
                    hir_atoms(h, &mut atoms);
                }
                atoms.sort();
                atoms.dedup();
                let sets = Ast::Or(atoms.into_iter().map(Ast::Set).collect());
                let mut v = record(&mut rx, &[&sets], &Ast::Eps, false, &mut rng, opt);
                let reps: Vec<u8> = v["reps"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| x.as_u64().unwrap() as u8)
                    .collect();
                v["ast"] = match &hir {
                    Ok(h) => hir_json(h, &reps),
                    Err(_) => json!(["none"]),
                };
                v["skip"] = json!(true);
                v["err"] = json!(false);
                v
            }
        }
    });
    let mut v = finish(res, id, "syntax", &src, whole, seed);
    v["unsupported"] = json!(unsup);
    if v["err"].is_null() {
        v["err"] = json!(true);
    }
    v
}

const EDGE_CP: &[u32] = &[
    0, 9, 10, 0x61, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff,
    0xd000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000,
    0x10ffff, 0x20ac, 0x1f600,
];

fn cp(rng: &mut Rng) -> u32 {
    loop {
        let c = match rng.below(3) {
            0 => *rng.pick(EDGE_CP),
            1 => {
                let e = *rng.pick(EDGE_CP) as i64 + rng.below(5) as i64 - 2;
                e.max(0) as u32
            }
            _ => rng.below(0x110000) as u32,
        };
        if char::from_u32(c).is_some() {
            return c;
        }
    }
}

pub fn pat(rng: &mut Rng, size: usize, fl: &Flags, d: &mut Cfg2) -> String {
    if size <= 1 {
        return match rng.below(16) {
            0..=4 => rng.pick(&["a", "b", "c", "k", "-", "0"]).to_string(),
            5 => rng.pick(&["é", "ſ", "K", "€", "ß", "😀", "Σ"]).to_string(),
            6 => rng
                .pick(&["[a-c]", "[^a]", "[^a-z]", "[a-zé]", "[^é]", "[α-ω]", "[[:alpha:]]", "[a&&b]", "[^\\x00-\\x7f]"])
                .to_string(),
            7 => {
                let a = cp(rng);
                let b = cp(rng);
                format!("[\\x{{{:x}}}-\\x{{{:x}}}]", a.min(b), a.max(b))
            }
            8 => {
                let mut r = "[".to_string();
                if rng.chance(1, 4) {
                    r.push('^');
                }
                for _ in 0..1 + rng.below(4) {
                    let a = cp(rng);
                    let b = if rng.chance(1, 2) {
                        a
                    } else {
                        a + rng.below(100) as u32
                    };
                    let b = if char::from_u32(b).is_some() { b } else { a };
                    r += &format!("\\x{{{:x}}}-\\x{{{:x}}}", a, b);
                }
                r.push(']');
                r
            }
            9 => ".".to_string(),
            10 => format!("\\x{{{:x}}}", cp(rng)),
            11 => rng
                .pick(&["\\n", "\\.", "\\x7F", "\\\\", "\\t", "(?s:.)", "(?-s:.)", "\\[", "\\*"])
                .to_string(),
            12 if d.heavy => rng
                .pick(&["\\d", "\\s", "\\S", "\\p{Greek}", "\\PN", "\\pL", "\\w", "\\D"])
                .to_string(),
            13 if !fl.utf8 => rng
                .pick(&["(?-u:\\xff)", "(?-u:[\\x80-\\xff])", "(?-u:[^a])", "(?-u:.)", "(?-u:\\w)"])
                .to_string(),
            14 => rng
                .pick(&["(?i:a)", "(?i:k)", "(?i:[a-f])", "(?i-u:k)", "(?i:s)", "(?i:é)", "(?-i:k)"])
                .to_string(),
            15 if d.anchors > 0 => {
                d.anchors -= 1;
                rng.pick(&["^", "$", "^", "$", "^", "$", "\\A", "\\z", "\\b", "(?m:^)", "(?m:$)", "\\B", "(?:^|a)", "(?:$|a)"])
                    .to_string()
            }
            _ => rng.pick(&["a", "b", "ab", "abc", ""]).to_string(),
        };
    }
    let mut part = |rng: &mut Rng, n: usize| {
        let p = pat(rng, n.max(1), fl, d);
        match rng.below(4) {
            0 => format!("({p})"),
            // any name is a name, but for "stop"
            1 => {
                let r = rng.below(1_000_000_000);
                let name = match rng.below(10) {
                    0 => format!("stop{r}"),
                    1 => format!("stop_{r}"),
                    2 => format!("x{r}stop"),
                    3 => rng.pick(&["STOP", "Stop", "_stop", "stop_", "stops", "nonstop", "sto"]).to_string(),
                    4 => rng.pick(&["start", "end", "prefix", "suffix", "lookahead", "s"]).to_string(),
                    _ => format!("n{r}"),
                };
                format!("({}<{name}>{p})", rng.pick(&["?P", "?"]))
            }
            _ => format!("(?:{p})"),
        }
    };
    match rng.below(10) {
        0..=3 => {
            let a = 1 + rng.below(size - 1);
            format!("{}{}", part(rng, a), part(rng, size - a))
        }
        4..=6 => {
            let a = 1 + rng.below(size - 1);
            if rng.chance(1, 2) {
                let l = pat(rng, a, fl, d);
                let r = pat(rng, size - a, fl, d);
                format!("{l}|{r}")
            } else {
                let l = pat(rng, a, fl, d);
                let r = pat(rng, size - a, fl, d);
                format!("(?:{l}|{r}|{l})")
            }
        }
        _ => {
            let p = part(rng, size - 1);
            let q = match rng.below(8) {
                0 => "*".to_string(),
                1 => "+".to_string(),
                2 => "?".to_string(),
                3 => "*?".to_string(),
                4 => {
                    let n = rng.below(4);
                    format!("{{{n}}}")
                }
                5 => {
                    let n = rng.below(4);
                    format!("{{{n},}}")
                }
                6 => {
                    let n = rng.below(3);
                    format!("{{{n},{}}}?", n + rng.below(3))
                }
                _ => "+?".to_string(),
            };
            let sp = if fl.x && rng.chance(1, 2) { " " } else { "" };
            format!("{p}{sp}{q}")
        }
    }
}

/// A class of many ranges, as a list.
fn ranges(rng: &mut Rng) -> Vec<(u32, u32)> {
    if rng.chance(1, 12) {
        // hundreds of ranges, one after another
        let n = *rng.pick(&[100, 255, 256, 257, 300, 512, 700]);
        let start = *rng.pick(&[0x100, 0x61, 0x2000, 0x10000]);
        let step = 3 + rng.below(3) as u32;
        return (0..n)
            .map(|i| (start + i * step, start + i * step + rng.below(2) as u32))
            .collect();
    }
    let n = 1 + rng.below(16);
    let mut pts: Vec<u32> = (0..2 * n)
        .map(|_| {
            if rng.chance(1, 3) {
                0x61 + rng.below(400) as u32
            } else {
                cp(rng)
            }
        })
        .filter(|c| char::from_u32(*c).is_some())
        .collect();
    pts.sort();
    pts.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect()
}

fn class_of(v: &[(u32, u32)], neg: bool) -> String {
    let mut r = if neg { "[^".to_string() } else { "[".to_string() };
    for (a, b) in v {
        r += &format!("\\x{{{:x}}}-\\x{{{:x}}}", a, b);
    }
    r + "]"
}

/// Patterns that resemble one another: classes that differ in one range, alternations of
/// words that share parts, other patterns with a part replaced.
pub fn family(rng: &mut Rng, fl: &Flags) -> Vec<String> {
    let n = 2 + rng.below(6);
    match rng.below(3) {
        0 => {
            let base = ranges(rng);
            let neg = rng.chance(1, 4);
            (0..n)
                .map(|_| {
                    let mut v = base.clone();
                    for _ in 0..1 + rng.below(2) {
                        if v.is_empty() {
                            break;
                        }
                        let i = if rng.chance(1, 3) {
                            v.len() / 2
                        } else {
                            rng.below(v.len())
                        };
                        match rng.below(5) {
                            0 => {
                                v.remove(i);
                            }
                            1 => {
                                let c = cp(rng);
                                v.push((c, c));
                            }
                            2 if v[i].0 < v[i].1 && char::from_u32(v[i].0 + 1).is_some() => v[i].0 += 1,
                            3 if v[i].0 < v[i].1 && char::from_u32(v[i].1 - 1).is_some() => v[i].1 -= 1,
                            _ => {
                                let m = v[i].0 + (v[i].1 - v[i].0) / 2;
                                if char::from_u32(m).is_some() {
                                    v[i].1 = m;
                                }
                            }
                        }
                    }
                    let c = class_of(&v, neg && rng.chance(1, 2));
                    match rng.below(4) {
                        0 => format!("{c}+"),
                        1 => format!("a{c}"),
                        _ => c,
                    }
                })
                .collect()
        }
        1 => (0..n)
            .map(|_| {
                if rng.chance(1, 3) {
                    let (a, m) = match rng.below(4) {
                        0 => (0, 2 + rng.below(6)),
                        1 => (rng.below(4), 1 + rng.below(12)),
                        _ => (rng.below(0x20), rng.below(0x50)),
                    };
                    format!("[\\x{:02x}-\\x{:02x}]", a, a + m)
                } else {
                    let m = 2 + rng.below(6);
                    let ws = crate::gen::mutants(rng, m);
                    let ws: Vec<String> = ws
                        .iter()
                        .map(|w| w.iter().map(|b| (b'a' + b % 26) as char).collect())
                        .collect();
                    ws.join("|")
                }
            })
            .collect(),
        _ => (0..n)
            .map(|_| {
                let mut d = Cfg2 {
                    heavy: rng.chance(1, 20),
                    anchors: 0,
                };
                let sz = 1 + rng.below(6);
                pat(rng, sz, fl, &mut d)
            })
            .collect(),
    }
}

pub struct Cfg2 {
    pub heavy: bool,
    pub anchors: usize,
}

/// Patterns that are asked every time.
const FIXED: &[&str] = &[
    "", "^", "$", "^$", "$^", "^a$", "^a|b$", "(^a|b)c", "a(b|c$)", "a^b", "a$b", "(^)*a", "(^a)+",
    "(a$)?", "^^a", "a$$", "(?:^|a)b", "a(?:$|b)", "(?:a|^)(?:b|$)", "(^|a){2}b", "x*^", "x*^y",
    "$x*", "y$x*", "(?:(?:^a))b", "(a|(b|^c))d", "\\ba", "a\\b", "a\\Bb", "(?m)^a", "(?m)a$",
    "\\Aa\\z", "a\\z", "(?s).", ".", "(?s).*", ".*", "[^\\n]", "\\d", "\\w+", "(?i)straße", "(?i)k",
    "[\\x{80}-\\x{10ffff}]", "[\\x{d7ff}-\\x{e000}]", "[^a]", "[\\x{7ff}-\\x{800}]",
    "[\\x{ffff}-\\x{10000}]", "[\\x{0}-\\x{10ffff}]", "[\\x{f0000}-\\x{10fffe}]", "[é-ü]+x", "a{3,5}",
    "(a{2}){3}", "(a|b|ab){2,}", "(?:a?){3}", "(?x) a b # c", "(?P<x>a)(?P<y>b)", "[a-z&&[^m]]",
    "[[:^alpha:]]", "(", "a{2,1}", "*", "[z-a]", "\\p{Nope}", "(?-u:\\xff)", "(?<stopx>a)b",
    "a(|b)c", "(|a)*", "()", "(?:)", "[^\\x{0}-\\x{10ffff}]", "a[^\\x{0}-\\x{10ffff}]|b",
    "^(?:a|b)*$", "(?:^a$)|(?:^b$)", "(?i:[^k])", "\\x{1F600}|\\x{1F601}|\\x{1F640}",
];

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let opt = Opt::from(args);
    let heavy_den = args.n("heavy", 12) as usize;
    let mut rng = Rng::new(seed ^ 0x5F);
    for k in 0..n + FIXED.len() {
        let (p, fl) = if k < FIXED.len() {
            (FIXED[k].to_string(), Flags::default())
        } else {
            let mut fl = Flags::default();
            if rng.chance(1, 3) {
                fl.i = rng.chance(1, 2);
                fl.s = rng.chance(1, 2);
                fl.x = rng.chance(1, 3);
                fl.utf8 = rng.chance(1, 2);
                fl.unicode = fl.utf8 || rng.chance(1, 2);
                if rng.chance(1, 10) {
                    fl.unicode = !fl.unicode;
                }
            }
            let mut d = Cfg2 {
                heavy: rng.chance(1, heavy_den),
                anchors: if rng.chance(1, 3) { 2 } else { 0 },
            };
            let size = if d.heavy {
                1 + rng.below(3)
            } else {
                1 + rng.below(8)
            };
            let mut p = pat(&mut rng, size, &fl, &mut d);
            if rng.chance(1, 12) {
                p = format!("^{p}");
            }
            if rng.chance(1, 12) {
                p = format!("{p}$");
            }
            (p, fl)
        };
        let mut p = p;
        let mut around = (vec![], 0);
        if k >= FIXED.len() && rng.chance(1, 3) {
            around.0 = family(&mut rng, &fl);
            if rng.chance(2, 3) {
                p = around.0.pop().unwrap();
            }
            around.1 = if rng.chance(1, 2) {
                around.0.len()
            } else {
                rng.below(around.0.len() + 1)
            };
        }
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": "syntax", "src": format!("{p} around {:?}", around), "seed": sd}));
        let c = case(k + 1, &p, &around, fl, sd, &opt);
        out.push(c);
    }
}
