//! The exported DFA table, after an arbitrary partial exploration of the matcher.
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::size::effort;
use crate::{Args, Out};
use derivre::{Regex, RegexBuilder, StateID};
use serde_json::{json, Value};

/// None: not a case (too many states)
fn case(id: usize, a: &Ast, seed: u64, max_states: usize) -> Option<Value> {
    let src = format!("{:?}", a);
    let mut skip = false;
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
        let e = b.mk(&ra).unwrap();
        let lim = Limits {
            states: max_states,
            cost: 3_000_000,
        };
        {
            let mut probe = b.to_regex(e);
            let g = explore(&mut probe, &lim, &mut rng);
            if g.partial || g.st.len() > max_states {
                skip = true;
                return json!({});
            }
        }
        let mut atoms = vec![];
        a.atoms(&mut atoms);
        let (_, reps0) = partition(&atoms, &[]);
        let mut rx = b.to_regex(e);
        // before the export: some steps from some states
        let i0 = rx.initial_state();
        let mut known = vec![i0];
        let mut taken: Vec<(StateID, u8, StateID)> = vec![];
        let steps = match rng.below(4) {
            0 => 0,
            1 => 1 + rng.below(3),
            _ => rng.below(60),
        };
        let pick = |rng: &mut Rng, reps: &Vec<u8>| {
            if rng.chance(3, 4) {
                *rng.pick(reps)
            } else {
                rng.next() as u8
            }
        };
        for _ in 0..steps {
            let s = if rng.chance(1, 2) {
                *known.last().unwrap()
            } else {
                *rng.pick(&known)
            };
            let c = pick(&mut rng, &reps0);
            let t = rx.transition(s, c);
            taken.push((s, c, t));
            if !known.contains(&t) {
                known.push(t);
            }
            match rng.below(8) {
                0 => {
                    rx.is_accepting(s);
                }
                1 => {
                    rx.next_byte(t);
                }
                2 => {
                    let w: Vec<u8> = (0..rng.below(4)).map(|_| pick(&mut rng, &reps0)).collect();
                    rx.is_match_bytes(&w);
                }
                3 if rng.chance(1, 4) => rx = rx.clone(),
                _ => {}
            }
        }
        // now and then everything has been seen before the export
        if rng.chance(1, 4) {
            let mut at = 0;
            while at < known.len() && known.len() < 300 {
                for c in &reps0 {
                    let t = rx.transition(known[at], *c);
                    if !known.contains(&t) {
                        known.push(t);
                    }
                }
                at += 1;
            }
        }
        // what the visited states say, before and after the export
        let say = |rx: &mut Regex, s: StateID| {
            (
                rx.is_accepting(s),
                rx.next_byte(s),
                rx.lookahead_len_for_state(s),
                s.is_dead(),
            )
        };
        let asked = rng.chance(2, 3);
        let before: Vec<_> = if asked {
            known.iter().map(|s| say(&mut rx, *s)).collect()
        } else {
            vec![]
        };
        let dfa = rx.dfa();
        let again = rx.dfa();
        let mut same = dfa == again && rx.initial_state() == i0;
        if asked {
            let after: Vec<_> = known.iter().map(|s| say(&mut rx, *s)).collect();
            same &= before == after;
        }
        for (s, c, t) in &taken {
            same &= rx.transition(*s, *c) == *t;
        }
        // the matcher after the export
        let g = explore(&mut rx, &lim, &mut rng);
        let len = rx.alpha().len();
        let amap: Vec<usize> = (0..=255u8).map(|b| rx.alpha().map(b)).collect();
        let nrows = if dfa.len() < 256 {
            0
        } else {
            (dfa.len() - 256) / len
        };
        let map: Vec<u8> = dfa.iter().take(256).copied().collect();
        let row = |i: usize| &dfa[256 + i * len..256 + (i + 1) * len];
        // bytes are told apart when the table does
        let mut rs: Vec<Box<[u32; 256]>> = vec![];
        for i in 0..nrows {
            let mut r = Box::new([0u32; 256]);
            for b in 0..256 {
                r[b] = *row(i).get(map[b] as usize).unwrap_or(&255) as u32;
            }
            rs.push(r);
        }
        let mut all = rows(&g);
        all.extend(rs.iter().map(|r| &**r));
        let at = all_atoms(&[a], None);
        let (_, reps) = partition(&at, &all);
        let st: Vec<Value> = g
            .st
            .iter()
            .enumerate()
            .map(|(k, s)| {
                let t: Vec<u32> = match &s.row {
                    None => vec![],
                    Some(r) => reps.iter().map(|b| r[*b as usize]).collect(),
                };
                json!({"acc": s.acc, "dead": s.dead, "num": g.ids[k].as_u32(), "t": t})
            })
            .collect();
        let free = a.has_la();
        let ja = if free { json!(["eps"]) } else { a.json(&reps) };
        json!({"panic": "", "ast": ja, "free": free, "reps": reps, "init": 1, "st": st,
               "start": i0.as_u32(), "same": same, "len": len, "bytes": dfa.len(),
               "map": map, "amap": amap,
               "rows": (0..nrows).map(|i| row(i).to_vec()).collect::<Vec<_>>()})
    });
    if skip {
        return None;
    }
    Some(finish(res, id, "dfa", &src, json!([]), seed))
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let max = args.n("states", 249) as usize;
    let mut rng = Rng::new(seed ^ 0xDFA);
    let mut go = |k: usize, a: &Ast, sd: u64, out: &mut Out| {
        out.begin(&json!({"fam": "dfa", "src": format!("{:?}", a), "seed": sd}));
        if let Some(c) = case(k, a, sd, max) {
            out.push(c);
        }
    };
    if args.s("mode", "random") == "file" {
        let txt = std::fs::read_to_string(args.s("in", "")).unwrap();
        let all: Value = serde_json::from_str(&txt).unwrap();
        let stride = args.n("stride", 1) as usize;
        for (k, v) in all.as_array().unwrap().iter().enumerate() {
            if k % stride != seed as usize % stride {
                continue;
            }
            let a = Ast::from_json(v, &letters(k / stride));
            let sd = rng.next() >> 12;
            go(k + 1, &a, sd, out);
        }
        return;
    }
    for k in 0..n {
        let a = match k % 12 {
            // near the size limit of the export
            0 => {
                let cut = if rng.chance(1, 2) { 4 } else { max - 4 };
                let m = (max - 2 - rng.below(cut)).max(1);
                let x: Vec<u8> = (0..m).map(|_| *rng.pick(b"abc")).collect();
                match rng.below(3) {
                    0 => Ast::Lit(x),
                    1 => Ast::rep(Ast::Set(BSet::range(0, 127)), m as u32 / 2, m as u32),
                    _ => Ast::Lit((0..m.min(200)).map(|i| i as u8).collect()),
                }
            }
            1 => literal(&mut rng, k),
            6 => gen::standstill(&mut rng),
            2 => {
                let mut j = rng.below(144);
                if j % 6 == 5 {
                    j -= 1;
                }
                wide(&mut rng, j)
            }
            _ => {
                let np = 1 + rng.below(4);
                let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
                let cfg = match rng.below(4) {
                    0 => Cfg::all(),
                    1 => Cfg::with_pre(),
                    _ => Cfg::positive(),
                };
                let size = 1 + rng.below(10);
                let a = gen::mixed(&mut rng, size, &pool, &cfg, 20_000);
                if effort(&a, 20_000).is_none() {
                    continue;
                }
                if k % 12 == 3 {
                    let size = 1 + rng.below(4);
                    let b = random_ast(&mut rng, size, &pool, &Cfg::positive());
                    Ast::Cat(vec![a, Ast::la(b)])
                } else {
                    a
                }
            }
        };
        let sd = rng.next() >> 12;
        go(k + 1, &a, sd, out);
    }
}
