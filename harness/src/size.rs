//! How hard a question is: the number of residuals of an expression, modulo the identities the
//! specification uses (RegexSem.tla). Used only to choose cases that both the library and TLC
//! can decide completely; no verdict depends on it.
use crate::ast::*;
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;

#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum R {
    Eps,
    None,
    Set(BSet),
    Cat(Vec<Rc<R>>),
    Or(BTreeSet<Rc<R>>),
    And(BTreeSet<Rc<R>>),
    Not(Rc<R>),
    Rep(Rc<R>, u32, u32),
    Pre(Rc<R>),
}
type P = Rc<R>;

fn cat_args(x: &P) -> Vec<P> {
    match &**x {
        R::Cat(v) => v.clone(),
        R::Eps => vec![],
        _ => vec![x.clone()],
    }
}
fn cat(a: &P, b: &P) -> P {
    if **a == R::None || **b == R::None {
        return Rc::new(R::None);
    }
    let mut v = cat_args(a);
    v.extend(cat_args(b));
    match v.len() {
        0 => Rc::new(R::Eps),
        1 => v.pop().unwrap(),
        _ => Rc::new(R::Cat(v)),
    }
}
fn is_all(x: &P) -> bool {
    matches!(&**x, R::Not(n) if **n == R::None)
}
fn all() -> P {
    Rc::new(R::Not(Rc::new(R::None)))
}
fn assoc(v: Vec<P>, or: bool) -> P {
    let mut s: BTreeSet<P> = BTreeSet::new();
    let mut bits: Option<BSet> = None;
    let mut work = v;
    while let Some(x) = work.pop() {
        match &*x {
            R::Or(k) if or => work.extend(k.iter().cloned()),
            R::And(k) if !or => work.extend(k.iter().cloned()),
            R::None if or => {}
            R::None => return x,
            _ if is_all(&x) => {
                if or {
                    return x;
                }
            }
            R::Set(b) => {
                bits = Some(match bits {
                    None => *b,
                    Some(o) if or => o.union(b),
                    Some(o) => o.not().union(&b.not()).not(),
                })
            }
            _ => {
                s.insert(x);
            }
        }
    }
    match bits {
        Some(b) if b == BSet::empty() && !or => return Rc::new(R::None),
        Some(b) if b != BSet::empty() => {
            s.insert(Rc::new(R::Set(b)));
        }
        _ => {}
    }
    match s.len() {
        0 if or => Rc::new(R::None),
        0 => all(),
        1 => s.into_iter().next().unwrap(),
        _ if or => Rc::new(R::Or(s)),
        _ => Rc::new(R::And(s)),
    }
}
fn not(x: P) -> P {
    match &*x {
        R::Not(y) => y.clone(),
        _ => Rc::new(R::Not(x)),
    }
}
fn rep(x: P, mn: u32, mx: u32) -> P {
    match &*x {
        R::None if mn > 0 => x,
        R::None | R::Eps => Rc::new(R::Eps),
        _ if mx == 0 => Rc::new(R::Eps),
        _ if mn == 1 && mx == 1 => x,
        _ => Rc::new(R::Rep(x, mn, mx)),
    }
}
fn pre(x: P) -> P {
    match &*x {
        R::None | R::Eps | R::Pre(_) => x,
        _ => Rc::new(R::Pre(x)),
    }
}
fn of(a: &Ast) -> P {
    let l = |v: &Vec<Ast>| v.iter().map(of).collect::<Vec<P>>();
    match a {
        Ast::Eps => Rc::new(R::Eps),
        Ast::None => Rc::new(R::None),
        Ast::Set(s) if *s == BSet::empty() => Rc::new(R::None),
        Ast::Set(s) => Rc::new(R::Set(*s)),
        Ast::Lit(v) => v.iter().rev().fold(Rc::new(R::Eps), |t, b| {
            cat(&Rc::new(R::Set(BSet::one(*b))), &t)
        }),
        Ast::Cat(v) => l(v).iter().rev().fold(Rc::new(R::Eps), |t, x| cat(x, &t)),
        Ast::Or(v) => assoc(l(v), true),
        Ast::And(v) => assoc(l(v), false),
        Ast::Not(x) => not(of(x)),
        Ast::Rep(x, mn, mx) => rep(of(x), *mn, *mx),
        Ast::Pre(x) | Ast::La(x) => pre(of(x)),
    }
}
/// may answer false where emptiness would have to be decided
fn null(x: &P) -> bool {
    match &**x {
        R::Eps => true,
        R::None | R::Set(_) => false,
        R::Cat(v) => v.iter().all(null),
        R::And(v) => v.iter().all(null),
        R::Or(v) => v.iter().any(null),
        R::Not(y) => !null(y),
        R::Rep(y, mn, _) => *mn == 0 || null(y),
        R::Pre(_) => true,
    }
}
fn der(x: &P, c: u8) -> P {
    match &**x {
        R::Eps | R::None => Rc::new(R::None),
        R::Set(s) => Rc::new(if s.has(c) { R::Eps } else { R::None }),
        R::Cat(v) => {
            let mut alts = vec![];
            for i in 0..v.len() {
                let mut t = der(&v[i], c);
                for y in &v[i + 1..] {
                    t = cat(&t, y);
                }
                alts.push(t);
                if !null(&v[i]) {
                    break;
                }
            }
            assoc(alts, true)
        }
        R::Or(v) => assoc(v.iter().map(|y| der(y, c)).collect(), true),
        R::And(v) => assoc(v.iter().map(|y| der(y, c)).collect(), false),
        R::Not(y) => not(der(y, c)),
        R::Rep(y, mn, mx) => {
            let mx2 = if *mx == INF { INF } else { mx - 1 };
            cat(&der(y, c), &rep(y.clone(), mn.saturating_sub(1), mx2))
        }
        R::Pre(y) => pre(der(y, c)),
    }
}
/// size of a residual, as a tree
fn weight(x: &P) -> usize {
    1 + match &**x {
        R::Cat(v) => v.iter().map(weight).sum(),
        R::And(v) | R::Or(v) => v.iter().map(weight).sum(),
        R::Not(y) | R::Rep(y, _, _) | R::Pre(y) => weight(y),
        _ => 0,
    }
}

/// Sum of the sizes of the residuals times the number of byte classes, or None beyond `limit`.
pub fn effort(a: &Ast, limit: usize) -> Option<usize> {
    let mut atoms = vec![];
    a.atoms(&mut atoms);
    atoms.sort();
    atoms.dedup();
    let (_, reps) = crate::graph::partition(&atoms, &[]);
    let mut seen: HashSet<P> = HashSet::new();
    let mut stack = vec![of(a)];
    seen.insert(stack[0].clone());
    let mut total = 0;
    while let Some(x) = stack.pop() {
        total += weight(&x) * reps.len();
        if total > limit {
            return None;
        }
        for c in &reps {
            let d = der(&x, *c);
            if !seen.contains(&d) {
                seen.insert(d.clone());
                stack.push(d);
            }
        }
    }
    Some(total)
}

/// The number of residuals, or None beyond `limit`.
pub fn residuals(a: &Ast, limit: usize) -> Option<usize> {
    let mut atoms = vec![];
    a.atoms(&mut atoms);
    atoms.sort();
    atoms.dedup();
    let (_, reps) = crate::graph::partition(&atoms, &[]);
    let mut seen: HashSet<P> = HashSet::new();
    let mut stack = vec![of(a)];
    seen.insert(stack[0].clone());
    while let Some(x) = stack.pop() {
        for c in &reps {
            let d = der(&x, *c);
            if !seen.contains(&d) {
                if seen.len() >= limit {
                    return None;
                }
                seen.insert(d.clone());
                stack.push(d);
            }
        }
    }
    Some(seen.len())
}
