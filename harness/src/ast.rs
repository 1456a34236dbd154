//! Expressions as the harness knows them (before the library sees them), their random
//! generation, their construction through the public builder interface, and their JSON form
//! for the TLA+ side.
use derivre::{RegexAst, RegexBuilder};
use serde_json::{json, Value};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// a number from lo to hi
    pub fn between(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct BSet(pub [u64; 4]);
impl BSet {
    pub fn empty() -> Self {
        BSet([0; 4])
    }
    pub fn full() -> Self {
        BSet([!0; 4])
    }
    pub fn one(b: u8) -> Self {
        let mut s = Self::empty();
        s.add(b);
        s
    }
    pub fn range(a: u8, b: u8) -> Self {
        let mut s = Self::empty();
        for x in a..=b {
            s.add(x);
        }
        s
    }
    pub fn add(&mut self, b: u8) {
        self.0[b as usize / 64] |= 1 << (b % 64);
    }
    pub fn has(&self, b: u8) -> bool {
        self.0[b as usize / 64] >> (b % 64) & 1 == 1
    }
    pub fn not(&self) -> Self {
        BSet([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn union(&self, o: &Self) -> Self {
        let mut r = *self;
        for i in 0..4 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn bytes(&self) -> Vec<u8> {
        (0..=255u8).filter(|b| self.has(*b)).collect()
    }
    pub fn words(&self) -> Vec<u32> {
        let mut v = vec![0u32; 8];
        for b in self.bytes() {
            v[b as usize / 32] |= 1 << (b % 32);
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ast {
    Eps,
    None,
    Set(BSet),
    Lit(Vec<u8>),
    Cat(Vec<Ast>),
    Or(Vec<Ast>),
    And(Vec<Ast>),
    Not(Box<Ast>),
    Rep(Box<Ast>, u32, u32),
    Pre(Box<Ast>),
    La(Box<Ast>),
}

pub const INF: u32 = u32::MAX;

impl Ast {
    pub fn byte(b: u8) -> Ast {
        Ast::Set(BSet::one(b))
    }
    pub fn not(a: Ast) -> Ast {
        Ast::Not(Box::new(a))
    }
    pub fn rep(a: Ast, mn: u32, mx: u32) -> Ast {
        Ast::Rep(Box::new(a), mn, mx)
    }
    pub fn pre(a: Ast) -> Ast {
        Ast::Pre(Box::new(a))
    }
    pub fn la(a: Ast) -> Ast {
        Ast::La(Box::new(a))
    }
    pub fn kids(&self) -> Vec<&Ast> {
        match self {
            Ast::Cat(v) | Ast::Or(v) | Ast::And(v) => v.iter().collect(),
            Ast::Not(a) | Ast::Rep(a, _, _) | Ast::Pre(a) | Ast::La(a) => vec![a],
            _ => vec![],
        }
    }
    /// byte sets the meaning of the expression can distinguish
    pub fn atoms(&self, out: &mut Vec<BSet>) {
        match self {
            Ast::Set(s) => out.push(*s),
            Ast::Lit(v) => {
                for b in v {
                    out.push(BSet::one(*b))
                }
            }
            _ => {}
        }
        for k in self.kids() {
            k.atoms(out);
        }
    }
    /// JSON with byte sets restricted to representatives
    pub fn json(&self, reps: &[u8]) -> Value {
        let f = |s: &BSet| -> Vec<u8> { reps.iter().copied().filter(|b| s.has(*b)).collect() };
        let l = |v: &Vec<Ast>| -> Value { v.iter().map(|a| a.json(reps)).collect() };
        let mx = |m: u32| -> i64 {
            if m == INF {
                -1
            } else {
                m as i64
            }
        };
        match self {
            Ast::Eps => json!(["eps"]),
            Ast::None => json!(["none"]),
            Ast::Set(s) => json!(["set", f(s)]),
            Ast::Lit(v) => json!(["lit", v]),
            Ast::Cat(v) => json!(["cat", l(v)]),
            Ast::Or(v) => json!(["or", l(v)]),
            Ast::And(v) => json!(["and", l(v)]),
            Ast::Not(a) => json!(["not", a.json(reps)]),
            Ast::Rep(a, mn, m) => json!(["rep", a.json(reps), mn, mx(*m)]),
            Ast::Pre(a) => json!(["pre", a.json(reps)]),
            Ast::La(a) => json!(["la", a.json(reps)]),
        }
    }
    /// from the JSON of a TLC-generated expression over abstract letters
    pub fn from_json(v: &Value, letters: &[BSet]) -> Ast {
        let tag = v[0].as_str().unwrap();
        let l = |v: &Value| -> Vec<Ast> {
            v.as_array()
                .unwrap()
                .iter()
                .map(|x| Ast::from_json(x, letters))
                .collect()
        };
        let b = |v: &Value| Box::new(Ast::from_json(v, letters));
        match tag {
            "eps" => Ast::Eps,
            "none" => Ast::None,
            "set" => {
                let mut s = BSet::empty();
                for x in v[1].as_array().unwrap() {
                    s = s.union(&letters[x.as_u64().unwrap() as usize - 1]);
                }
                Ast::Set(s)
            }
            "cat" => Ast::Cat(l(&v[1])),
            "or" => Ast::Or(l(&v[1])),
            "and" => Ast::And(l(&v[1])),
            "not" => Ast::Not(b(&v[1])),
            "rep" => {
                let mx = v[3].as_i64().unwrap();
                Ast::Rep(
                    b(&v[1]),
                    v[2].as_u64().unwrap() as u32,
                    if mx < 0 { INF } else { mx as u32 },
                )
            }
            "pre" => Ast::Pre(b(&v[1])),
            "la" => Ast::La(b(&v[1])),
            t => panic!("tag {t}"),
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn has_la(&self) -> bool {
        matches!(self, Ast::La(_)) || self.kids().iter().any(|k| k.has_la())
    }
    pub fn has_pre(&self) -> bool {
        matches!(self, Ast::Pre(_)) || self.kids().iter().any(|k| k.has_pre())
    }
}

fn byte_regex(b: u8) -> String {
    format!("\\x{:02X}", b)
}

/// How an expression is handed to the builder: as one tree, bottom up through references,
/// or a mixture, with different leaf notations.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Tree,
    Refs,
    Mixed,
}

pub fn leaf(a: &Ast, rng: &mut Rng) -> RegexAst {
    match a {
        Ast::Eps => match rng.below(4) {
            0 => RegexAst::Concat(vec![]),
            1 => RegexAst::Literal(String::new()),
            2 => RegexAst::ByteLiteral(vec![]),
            _ => RegexAst::EmptyString,
        },
        Ast::None => match rng.below(3) {
            0 => RegexAst::Or(vec![]),
            1 => RegexAst::ByteSet(vec![0; 8]),
            _ => RegexAst::NoMatch,
        },
        Ast::Set(s) => {
            let bs = s.bytes();
            if bs.len() == 1 {
                let b = bs[0];
                match rng.below(5) {
                    0 => RegexAst::ByteSet(s.words()),
                    1 => RegexAst::ByteLiteral(vec![b]),
                    2 if b < 0x80 => RegexAst::Literal((b as char).to_string()),
                    3 if b < 0x80 => RegexAst::Regex(byte_regex(b)),
                    _ => RegexAst::Byte(b),
                }
            } else if !bs.is_empty() && bs.iter().all(|b| *b < 0x80) && rng.chance(1, 4) {
                let mut r = "[".to_string();
                for b in &bs {
                    r.push_str(&byte_regex(*b));
                }
                r.push(']');
                RegexAst::Regex(r)
            } else {
                RegexAst::ByteSet(s.words())
            }
        }
        Ast::Lit(v) => match (rng.below(3), String::from_utf8(v.clone())) {
            (0, Ok(s)) => RegexAst::Literal(s),
            (1, _) => RegexAst::Concat(v.iter().map(|b| RegexAst::Byte(*b)).collect()),
            _ => RegexAst::ByteLiteral(v.clone()),
        },
        _ => unreachable!(),
    }
}

pub fn to_regex_ast(
    a: &Ast,
    b: &mut RegexBuilder,
    style: Style,
    rng: &mut Rng,
) -> anyhow::Result<RegexAst> {
    let mut sub = |v: &Vec<Ast>, b: &mut RegexBuilder, rng: &mut Rng| {
        v.iter()
            .map(|x| to_regex_ast(x, b, style, rng))
            .collect::<anyhow::Result<Vec<_>>>()
    };
    let r = match a {
        Ast::Cat(v) => RegexAst::Concat(sub(v, b, rng)?),
        Ast::Or(v) => RegexAst::Or(sub(v, b, rng)?),
        Ast::And(v) => RegexAst::And(sub(v, b, rng)?),
        Ast::Not(x) => RegexAst::Not(Box::new(to_regex_ast(x, b, style, rng)?)),
        Ast::Rep(x, mn, mx) => {
            RegexAst::Repeat(Box::new(to_regex_ast(x, b, style, rng)?), *mn, *mx)
        }
        Ast::Pre(x) => RegexAst::Prefixes(Box::new(to_regex_ast(x, b, style, rng)?)),
        Ast::La(x) => RegexAst::LookAhead(Box::new(to_regex_ast(x, b, style, rng)?)),
        _ => leaf(a, rng),
    };
    let by_ref = match style {
        Style::Tree => false,
        Style::Refs => true,
        Style::Mixed => rng.chance(1, 3),
    };
    if by_ref {
        Ok(RegexAst::ExprRef(b.mk(&r)?))
    } else {
        Ok(r)
    }
}

pub fn pick_style(rng: &mut Rng) -> Style {
    match rng.below(3) {
        0 => Style::Tree,
        1 => Style::Refs,
        _ => Style::Mixed,
    }
}

// ---------------------------------------------------------------- random expressions

pub fn random_set(rng: &mut Rng) -> BSet {
    let edge: &[u8] = &[
        0, 1, 9, 10, 31, 32, 33, b'"', b'0', b'9', b'A', b'Z', b'\\', b'a', b'b', b'c', b'z', 126,
        127, 128, 129, 191, 192, 193, 194, 223, 224, 239, 240, 244, 245, 254, 255, 63, 64, 65, 95,
        96, 159, 160,
    ];
    match rng.below(10) {
        0..=3 => BSet::one(if rng.chance(3, 4) {
            b'a' + rng.below(4) as u8
        } else {
            *rng.pick(edge)
        }),
        4 | 5 => {
            let a = *rng.pick(edge);
            let b = *rng.pick(edge);
            BSet::range(a.min(b), a.max(b))
        }
        6 => BSet::one(*rng.pick(edge)).not(),
        7 => BSet::full(),
        8 => {
            let mut s = BSet::empty();
            for _ in 0..1 + rng.below(6) {
                s.add(rng.next() as u8);
            }
            s
        }
        _ => {
            let mut s = BSet::empty();
            for x in b'a'..=b'e' {
                if rng.chance(1, 2) {
                    s.add(x);
                }
            }
            s
        }
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub not: usize,
    pub and: usize,
    pub pre: usize,
    pub max_rep: u32,
}

impl Cfg {
    pub fn all() -> Cfg {
        Cfg {
            not: 2,
            and: 3,
            pre: 0,
            max_rep: 4,
        }
    }
    pub fn positive() -> Cfg {
        Cfg {
            not: 0,
            and: 0,
            pre: 0,
            max_rep: 4,
        }
    }
    pub fn with_pre() -> Cfg {
        Cfg {
            not: 2,
            and: 3,
            pre: 4,
            max_rep: 3,
        }
    }
}

pub fn random_ast(rng: &mut Rng, size: usize, pool: &[BSet], cfg: &Cfg) -> Ast {
    if size <= 1 {
        return match rng.below(14) {
            0 => Ast::Eps,
            1 if rng.chance(1, 3) => Ast::None,
            2 | 3 => {
                let n = 1 + rng.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    let bs = rng.pick(pool).bytes();
                    if !bs.is_empty() {
                        v.push(bs[rng.below(bs.len())]);
                    }
                }
                Ast::Lit(v)
            }
            _ => Ast::Set(*rng.pick(pool)),
        };
    }
    let total = 8 + 6 + 6 + cfg.not + cfg.and + cfg.pre;
    let mut k = rng.below(total);
    let split = |rng: &mut Rng, n: usize| -> Vec<Ast> {
        let mut left = size - 1;
        let mut v = vec![];
        for i in 0..n {
            let s = if i == n - 1 {
                left
            } else {
                1 + rng.below(left.max(1))
            };
            let s = s.max(1).min(left.max(1));
            v.push(random_ast(rng, s, pool, cfg));
            left = left.saturating_sub(s);
        }
        if n > 1 && rng.chance(1, 8) {
            let d = v[rng.below(v.len())].clone();
            let at = rng.below(v.len() + 1);
            v.insert(at, d);
        }
        v
    };
    if k < 8 {
        let n = 2 + rng.below(2);
        return Ast::Cat(split(rng, n));
    }
    k -= 8;
    if k < 6 {
        let n = 2 + rng.below(3);
        return Ast::Or(split(rng, n));
    }
    k -= 6;
    if k < 6 {
        let (mn, mx) = match rng.below(8) {
            0 | 1 => (0, INF),
            2 => (1, INF),
            3 => (0, 1),
            4 => {
                let mn = rng.below(cfg.max_rep as usize) as u32;
                (mn, mn)
            }
            5 => (1 + rng.below(cfg.max_rep as usize) as u32, INF),
            _ => {
                let mn = rng.below(cfg.max_rep as usize) as u32;
                (mn, mn + rng.below(cfg.max_rep as usize) as u32)
            }
        };
        return Ast::rep(random_ast(rng, size - 1, pool, cfg), mn, mx);
    }
    k -= 6;
    if k < cfg.not {
        return Ast::not(random_ast(rng, size - 1, pool, cfg));
    }
    k -= cfg.not;
    if k < cfg.and {
        let n = 2 + rng.below(2);
        return Ast::And(split(rng, n));
    }
    Ast::pre(random_ast(rng, size - 1, pool, cfg))
}

/// The expression as a regex-syntax pattern, if it can be written as one.
pub fn to_pattern(a: &Ast) -> Option<String> {
    let join = |v: &Vec<Ast>, sep: &str| -> Option<String> {
        let r: Option<Vec<String>> = v.iter().map(to_pattern).collect();
        Some(r?.join(sep))
    };
    Some(match a {
        Ast::Eps => "(?:)".to_string(),
        Ast::Set(s) => {
            let bs = s.bytes();
            if bs.is_empty() || bs.iter().any(|b| *b >= 0x80) {
                return None;
            }
            format!(
                "[{}]",
                bs.iter().map(|b| byte_regex(*b)).collect::<String>()
            )
        }
        Ast::Lit(v) => {
            if v.iter().any(|b| *b >= 0x80) {
                return None;
            }
            format!("(?:{})", v.iter().map(|b| byte_regex(*b)).collect::<String>())
        }
        Ast::Cat(v) => format!("(?:{})", join(v, "")?),
        Ast::Or(v) if !v.is_empty() => format!("(?:{})", join(v, "|")?),
        Ast::Rep(x, mn, mx) => {
            let p = to_pattern(x)?;
            match (*mn, *mx) {
                (0, INF) => format!("(?:{p})*"),
                (mn, INF) => format!("(?:{p}){{{mn},}}"),
                (mn, mx) => format!("(?:{p}){{{mn},{mx}}}"),
            }
        }
        _ => return None,
    })
}
