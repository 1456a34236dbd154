//! Is the matcher a finite automaton, and at rest once it has been explored?
use crate::ast::*;
use crate::fam_ast::*;
use crate::gen;
use crate::graph::*;
use crate::size::residuals;
use crate::{Args, Out};
use derivre::RegexBuilder;
use serde_json::{json, Value};

/// Work allowed per unit of effort of the specification (measured on 20 000 cases: at most 10).
const COST: u64 = 100;

fn case(id: usize, fam: &str, a: &Ast, limit: usize, effort: u64, seed: u64) -> Value {
    let res = guarded(|| {
        let mut rng = Rng::new(seed);
        let mut b = RegexBuilder::new();
        let style = pick_style(&mut rng);
        let ra = to_regex_ast(a, &mut b, style, &mut rng).unwrap();
        let e = b.mk(&ra).unwrap();
        let mut rx = b.to_regex(e);
        let mut atoms = vec![];
        a.atoms(&mut atoms);
        let (_, reps) = partition(&atoms, &[]);
        // without compression every byte is a class of its own
        let more = if cfg!(feature = "compress") {
            1
        } else {
            256 / reps.len() as u64
        };
        let lim = Limits {
            states: limit,
            cost: COST * (effort * more + 100),
        };
        let c0 = rx.cost();
        let g = explore(&mut rx, &lim, &mut rng);
        let full = !g.partial && g.st.len() <= limit;
        let cost = rx.cost() - c0;
        // given up although there were few states: the states themselves grow
        let swollen = g.partial && cost > lim.cost;
        let account = |rx: &derivre::Regex| {
            // everything it tells about its size
            format!("{} {} {}", rx.stats(), rx.cost(), rx.num_bytes())
        };
        let before = account(&rx);
        if full {
            // walk about and ask
            let mut s = rx.initial_state();
            for i in 0..400 {
                s = rx.transition(s, rng.next() as u8);
                if s.is_dead() || i % 97 == 96 {
                    s = *rng.pick(&g.ids);
                }
                match rng.below(8) {
                    0 => {
                        rx.is_accepting(s);
                    }
                    1 => {
                        rx.next_byte(s);
                    }
                    2 => {
                        let w: Vec<u8> = (0..rng.below(9)).map(|_| rng.next() as u8).collect();
                        rx.lookahead_len_bytes(&w);
                    }
                    _ => {}
                }
            }
        }
        let after = account(&rx);
        json!({"panic": "", "ast": a.json(&reps), "reps": reps, "states": g.st.len(),
            "limit": limit, "full": full, "swollen": swollen,
            "cost": cost.min(1 << 30), "before": before, "after": after})
    });
    finish(res, id, fam, &format!("{:?}", a), a.json(&[]), seed)
}

/// Left to itself, the number of states would grow with every byte: repetitions of things that
/// can begin again at every byte, in unions and intersections, nested and counted.
fn growing(rng: &mut Rng, pool: &[BSet], depth: usize) -> Ast {
    let leaf = |rng: &mut Rng| Ast::Set(rng.pick(pool).clone());
    if depth == 0 {
        return leaf(rng);
    }
    let mut sub = |rng: &mut Rng| growing(rng, pool, depth - 1);
    match rng.below(9) {
        0 => Ast::rep(Ast::Or(vec![sub(rng), sub(rng)]), 0, INF),
        1 => Ast::rep(Ast::Cat(vec![sub(rng), leaf(rng)]), rng.below(3) as u32, INF),
        2 => Ast::Cat(vec![Ast::rep(Ast::Set(BSet::full()), 0, INF), sub(rng)]),
        3 => Ast::Cat(vec![Ast::rep(sub(rng), 0, INF), sub(rng)]),
        4 => Ast::And(vec![Ast::rep(sub(rng), 0, INF), Ast::not(sub(rng))]),
        5 => Ast::not(Ast::Cat(vec![Ast::rep(sub(rng), 0, INF), leaf(rng)])),
        6 => Ast::rep(sub(rng), rng.below(3) as u32, 2 + rng.below(4) as u32),
        7 => Ast::Or(vec![sub(rng), Ast::Cat(vec![leaf(rng), sub(rng)])]),
        _ => Ast::rep(Ast::not(sub(rng)), 1, INF),
    }
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let max = args.n("max", 200) as usize;
    let mut rng = Rng::new(seed ^ 0xF1);
    let mut todo: Vec<(&str, Ast)> = vec![];
    if args.s("mode", "random") == "file" {
        let txt = std::fs::read_to_string(args.s("in", "")).unwrap();
        let all: Vec<Value> = serde_json::from_str(&txt).unwrap();
        let stride = args.n("stride", 1) as usize;
        for (k, v) in all.iter().enumerate() {
            if k % stride == seed as usize % stride {
                todo.push(("small", Ast::from_json(v, &letters(k / stride))));
            }
        }
    } else {
        while todo.len() < n {
            let np = 1 + rng.below(3);
            let pool: Vec<BSet> = (0..np).map(|_| random_set(&mut rng)).collect();
            let cfg = match rng.below(3) {
                0 => Cfg::positive(),
                1 => Cfg::with_pre(),
                _ => Cfg::all(),
            };
            let size = 3 + rng.below(9);
            let (f, a) = match rng.below(4) {
                0 | 1 => {
                    let d = 2 + rng.below(4);
                    ("growing", growing(&mut rng, &pool, d))
                }
                2 => ("special", gen::special(&mut rng, size, &cfg)),
                _ => ("all", random_ast(&mut rng, size, &pool, &cfg)),
            };
            todo.push((f, a));
        }
    }
    let mut id = 0;
    for (f, a) in todo {
        // what cannot be counted is not asked
        let Some(r) = residuals(&a, max) else { continue };
        let Some(eff) = crate::size::effort(&a, 20_000) else {
            continue;
        };
        id += 1;
        let sd = rng.next() >> 12;
        out.begin(&json!({"fam": f, "src": format!("{:?}", a), "seed": sd}));
        out.push(case(id, f, &a, 4 * r + 16, eff as u64, sd));
    }
}
