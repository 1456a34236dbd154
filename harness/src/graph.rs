//! Records the automaton the library builds, as far as its public interface shows it.
use crate::ast::*;
use derivre::{NextByte, Regex, StateID};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
pub struct Limits {
    pub states: usize,
    pub cost: u64,
}

pub struct StateRec {
    pub acc: bool,
    pub la: i64,
    pub nb: (u8, u8),
    pub same: bool,
    pub same2: bool,
    pub dead: bool,
    pub row: Option<Box<[u32; 256]>>,
    pub word: Vec<u8>,
}

pub struct Graph {
    pub st: Vec<StateRec>,
    pub ids: Vec<StateID>,
    pub init: usize,
    pub partial: bool,
}

pub fn nb_code(nb: NextByte) -> (u8, u8) {
    match nb {
        NextByte::Dead => (0, 0),
        NextByte::ForcedEOI => (1, 0),
        NextByte::ForcedByte(b) => (2, b),
        NextByte::SomeBytes => (3, 0),
    }
}

pub fn la_code(l: Option<usize>) -> i64 {
    l.map(|x| x as i64).unwrap_or(-1)
}

/// Breadth-first exploration through `transition`; index 0 in a row stands for "beyond the
/// recorded part". State numbers start at 1.
pub fn explore(rx: &mut Regex, lim: &Limits, rng: &mut Rng) -> Graph {
    let mut st: Vec<StateRec> = vec![];
    let mut ids: Vec<StateID> = vec![];
    let mut idx: HashMap<StateID, usize> = HashMap::new();
    let c0 = rx.cost();
    let mut partial = false;
    let mut push = |rx: &mut Regex,
                    s: StateID,
                    word: Vec<u8>,
                    st: &mut Vec<StateRec>,
                    ids: &mut Vec<StateID>,
                    rng: &mut Rng| {
        // ask in a varying order
        let (la, acc, nb);
        if rng.chance(1, 2) {
            la = la_code(rx.lookahead_len_for_state(s));
            acc = rx.is_accepting(s);
            nb = nb_code(rx.next_byte(s));
        } else {
            nb = nb_code(rx.next_byte(s));
            acc = rx.is_accepting(s);
            la = la_code(rx.lookahead_len_for_state(s));
        }
        ids.push(s);
        st.push(StateRec {
            acc,
            la,
            nb,
            same: true,
            same2: true,
            dead: s.is_dead(),
            row: None,
            word,
        });
        st.len()
    };
    let i0 = rx.initial_state();
    idx.insert(i0, 1);
    push(rx, i0, vec![], &mut st, &mut ids, rng);
    let mut k = 0;
    // the dead state is always expanded, so that it is known to be absorbing
    while k < st.len() {
        let s = ids[k];
        let expand = st[k].dead || (k < lim.states && rx.cost() - c0 <= lim.cost);
        if expand {
            let mut row = Box::new([0u32; 256]);
            let start = rng.below(256);
            for o in 0..256usize {
                let b = ((start + o) % 256) as u8;
                let t = rx.transition(s, b);
                let i = match idx.get(&t) {
                    Some(i) => *i,
                    None => {
                        let mut w = st[k].word.clone();
                        w.push(b);
                        let i = push(rx, t, w, &mut st, &mut ids, rng);
                        idx.insert(t, i);
                        i
                    }
                };
                row[b as usize] = i as u32;
            }
            st[k].row = Some(row);
        } else {
            partial = true;
        }
        k += 1;
    }
    // ask again, now that much more is known to the caches
    for (k, s) in ids.iter().enumerate() {
        st[k].same = nb_code(rx.next_byte(*s)) == st[k].nb;
        st[k].same2 = la_code(rx.lookahead_len_for_state(*s)) == st[k].la
            && rx.is_accepting(*s) == st[k].acc;
    }
    Graph {
        st,
        ids,
        init: 1,
        partial,
    }
}

/// Coarsest partition of the bytes that respects all given sets and all recorded rows.
/// Returns class of each byte and one representative per class.
pub fn partition(atoms: &[BSet], g: &[&[u32; 256]]) -> (Vec<usize>, Vec<u8>) {
    let mut cls = vec![0usize; 256];
    let mut refine = |f: &dyn Fn(u8) -> u32| {
        let mut m: HashMap<(usize, u32), usize> = HashMap::new();
        for b in 0..=255u8 {
            let key = (cls[b as usize], f(b));
            let n = m.len();
            let id = *m.entry(key).or_insert(n);
            cls[b as usize] = id;
        }
    };
    for a in atoms {
        refine(&|b| a.has(b) as u32);
    }
    for row in g {
        refine(&|b| row[b as usize]);
    }
    let n = cls.iter().max().unwrap() + 1;
    let mut reps = vec![0u8; n];
    for b in (0..=255u8).rev() {
        reps[cls[b as usize]] = b;
    }
    (cls, reps)
}

/// distance of each state to the nearest accepting one within the recorded part, or -1
pub fn distances(g: &Graph) -> Vec<i64> {
    let n = g.st.len();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for (k, s) in g.st.iter().enumerate() {
        if let Some(r) = &s.row {
            let mut last = 0;
            for t in r.iter() {
                if *t != 0 && *t != last {
                    pred[*t as usize - 1].push(k);
                    last = *t;
                }
            }
        }
    }
    let mut d = vec![-1; n];
    let mut queue = std::collections::VecDeque::new();
    for (k, s) in g.st.iter().enumerate() {
        if s.acc {
            d[k] = 0;
            queue.push_back(k);
        }
    }
    while let Some(k) = queue.pop_front() {
        for p in &pred[k] {
            if d[*p] < 0 {
                d[*p] = d[k] + 1;
                queue.push_back(*p);
            }
        }
    }
    d
}

pub fn graph_json(g: &Graph, reps: &[u8]) -> Value {
    let d = distances(g);
    let st: Vec<Value> = g
        .st
        .iter()
        .enumerate()
        .map(|(k, s)| {
            let t: Vec<u32> = match &s.row {
                None => vec![],
                Some(r) => reps.iter().map(|b| r[*b as usize]).collect(),
            };
            json!({"acc": s.acc, "la": s.la, "nb": s.nb.0, "nbb": s.nb.1, "dead": s.dead,
                   "t": t, "d": d[k], "same": s.same, "same2": s.same2})
        })
        .collect();
    Value::Array(st)
}

pub fn all_atoms(asts: &[&Ast], g: Option<&Graph>) -> Vec<BSet> {
    let mut atoms = vec![];
    for a in asts {
        a.atoms(&mut atoms);
    }
    if let Some(g) = g {
        for s in &g.st {
            if s.nb.0 == 2 {
                atoms.push(BSet::one(s.nb.1));
            }
        }
    }
    atoms.sort();
    atoms.dedup();
    atoms
}

pub fn rows(g: &Graph) -> Vec<&[u32; 256]> {
    g.st.iter()
        .filter_map(|s| s.row.as_ref().map(|r| &**r))
        .collect()
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}
