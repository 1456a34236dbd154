//! Logs of calls on the hash-consing table.
use crate::ast::Rng;
use crate::graph::guarded;
use crate::{Args, Out};
use derivre::raw::VecHashCons;
use serde_json::{json, Value};

struct T {
    tabs: Vec<VecHashCons>,
    /// the vector under way, per table
    open: Vec<Option<Vec<u32>>>,
    log: Vec<Value>,
}

impl T {
    fn new() -> T {
        T {
            tabs: vec![VecHashCons::new()],
            open: vec![None],
            log: vec![],
        }
    }
    /// chunks: None = insert(); otherwise lengths of the pieces pushed (1 = push_u32 if `word`)
    fn put(&mut self, t: usize, v: &[u32], chunks: Option<&[usize]>, rng: &mut Rng) {
        let h = &mut self.tabs[t];
        let id = match chunks {
            None => h.insert(v),
            Some(c) => {
                h.start_insert();
                let mut at = 0;
                for n in c {
                    let n = (*n).min(v.len() - at);
                    if n == 1 && rng.chance(2, 3) {
                        h.push_u32(v[at]);
                    } else {
                        h.push_slice(&v[at..at + n]);
                    }
                    at += n;
                }
                if at < v.len() {
                    h.push_slice(&v[at..]);
                }
                h.finish_insert()
            }
        };
        let len = h.len();
        self.log
            .push(json!({"op": "put", "t": t + 1, "v": v, "id": id, "len": len}));
    }
    fn get(&mut self, t: usize, id: u32) {
        let v = self.tabs[t].get(id).to_vec();
        self.log.push(json!({"op": "get", "t": t + 1, "id": id, "v": v}));
    }
    fn valid(&mut self, t: usize, id: u32) {
        let b = self.tabs[t].is_valid(id);
        // identifiers are compared as numbers on the other side
        self.log
            .push(json!({"op": "valid", "t": t + 1, "id": id.min(2_000_000_000), "b": b}));
    }
    fn clone(&mut self, t: usize) {
        let c = self.tabs[t].clone();
        self.tabs.push(c);
        self.open.push(self.open[t].clone());
        self.log.push(json!({"op": "clone", "t": t + 1}));
    }
    fn start(&mut self, t: usize) {
        self.tabs[t].start_insert();
        self.open[t] = Some(vec![]);
        self.log.push(json!({"op": "start", "t": t + 1}));
    }
    fn push(&mut self, t: usize, v: &[u32], word: bool) {
        if word && v.len() == 1 {
            self.tabs[t].push_u32(v[0]);
        } else {
            self.tabs[t].push_slice(v);
        }
        self.open[t].as_mut().unwrap().extend_from_slice(v);
        self.log.push(json!({"op": "push", "t": t + 1, "v": v}));
    }
    fn end(&mut self, t: usize) {
        let id = self.tabs[t].finish_insert();
        self.open[t] = None;
        let len = self.tabs[t].len();
        self.log
            .push(json!({"op": "end", "t": t + 1, "id": id, "len": len}));
    }
    fn finish(&mut self) {
        for t in 0..self.tabs.len() {
            if self.open[t].is_some() {
                self.end(t);
            }
        }
        for t in 0..self.tabs.len() {
            for id in 0..self.tabs[t].len() {
                self.get(t, id as u32);
            }
            let n = self.tabs[t].len() as u32;
            self.valid(t, n);
            if n > 0 {
                self.valid(t, n - 1);
            }
        }
    }
}

fn out_case(res: Result<Vec<Value>, String>, id: usize, src: String, seed: u64) -> Value {
    match res {
        Ok(log) => json!({"panic": "", "log": log, "id": id, "src": src, "seed": seed}),
        Err(p) => json!({"panic": p, "log": [], "id": id, "src": src, "seed": seed}),
    }
}

pub fn run(args: &Args, out: &mut Out) {
    let seed = args.n("seed", 1);
    let n = args.n("n", 100) as usize;
    let mut rng = Rng::new(seed ^ 0x4A54);
    match args.s("mode", "random").as_str() {
        "file" => {
            // TLC-generated: a list of [table, vector, chunk lengths or [-1] for insert()],
            // ["c", table]
            let all: Vec<Value> =
                serde_json::from_str(&std::fs::read_to_string(args.s("in", "")).unwrap()).unwrap();
            let stride = args.n("stride", 1) as usize;
            for (k, sched) in all.iter().enumerate() {
                if k % stride != seed as usize % stride {
                    continue;
                }
                let src = sched.to_string();
                out.begin(&json!({"fam": "hash", "src": src}));
                let sd = rng.next() >> 34;
                let res = guarded(|| {
                    let mut rng = Rng::new(sd);
                    let mut t = T::new();
                    for op in sched.as_array().unwrap() {
                        let tab = op[1].as_u64().unwrap() as usize - 1;
                        if op[0] == "clone" {
                            t.clone(tab.min(t.tabs.len() - 1));
                            continue;
                        }
                        let tab = tab.min(t.tabs.len() - 1);
                        match (op[0].as_str().unwrap(), t.open[tab].is_some()) {
                            ("start", false) => t.start(tab),
                            ("end", true) => t.end(tab),
                            ("push", true) => {
                                let w = [op[2].as_u64().unwrap() as u32];
                                let word = rng.chance(1, 2);
                                t.push(tab, &w, word);
                            }
                            _ => {}
                        }
                        if !op[2].is_array() || t.open[tab].is_some() {
                            continue;
                        }
                        let v: Vec<u32> = op[2]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| x.as_u64().unwrap() as u32)
                            .collect();
                        let c: Vec<usize> = op[3]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| x.as_u64().unwrap() as usize)
                            .collect();
                        let ch = if op[0] == "ins" { None } else { Some(&c[..]) };
                        t.put(tab, &v, ch, &mut rng);
                    }
                    t.finish();
                    t.log
                });
                out.push(out_case(res, k + 1, src, sd));
            }
        }
        _ => {
            for k in 0..n {
                let sd = rng.next() >> 34;
                let kind = k % 4;
                let src = format!("random kind {kind}");
                out.begin(&json!({"fam": "hash", "src": src, "seed": sd}));
                let res = guarded(|| {
                    let mut rng = Rng::new(sd);
                    let mut t = T::new();
                    let ops = if kind == 3 { 700 } else { 60 };
                    let mut seen: Vec<Vec<u32>> = vec![];
                    for _ in 0..ops {
                        let tab = rng.below(t.tabs.len());
                        // a vector under way: more of it, or the end, or other calls between
                        if let Some(cur) = t.open[tab].clone() {
                            match rng.below(6) {
                                0 | 1 => {
                                    // sometimes what is needed to spell a vector seen before
                                    let like: Vec<Vec<u32>> = seen
                                        .iter()
                                        .filter(|s| s.len() > cur.len() && s.starts_with(&cur))
                                        .cloned()
                                        .collect();
                                    let v = if !like.is_empty() && rng.chance(2, 3) {
                                        let s = rng.pick(&like);
                                        let n = 1 + rng.below(s.len() - cur.len());
                                        s[cur.len()..cur.len() + n].to_vec()
                                    } else {
                                        let n = if kind == 2 { rng.below(140) } else { rng.below(4) };
                                        (0..n).map(|_| rng.below(3) as u32).collect()
                                    };
                                    let word = rng.chance(1, 2);
                                    t.push(tab, &v, word);
                                    continue;
                                }
                                2 | 3 => {
                                    seen.push(cur);
                                    t.end(tab);
                                    continue;
                                }
                                4 if t.tabs.len() < 6 && kind != 3 => {
                                    t.clone(tab);
                                    continue;
                                }
                                _ => {}
                            }
                        }
                        let busy = t.open[tab].is_some();
                        match rng.below(if busy { 3 } else { 14 }) {
                            12 | 13 => t.start(tab),
                            0 if kind != 3 && t.tabs.len() < 4 => t.clone(tab),
                            1 if t.tabs[tab].len() > 0 => {
                                let id = rng.below(t.tabs[tab].len()) as u32;
                                t.get(tab, id);
                            }
                            2 => {
                                let l = t.tabs[tab].len() as u32;
                                let id = *rng.pick(&[0, l, l + 1, l.saturating_sub(1), u32::MAX]);
                                t.valid(tab, id);
                            }
                            _ if busy => {}
                            _ => {
                                let v: Vec<u32> = if !seen.is_empty() && rng.chance(1, 3) {
                                    let mut v = rng.pick(&seen).clone();
                                    match rng.below(5) {
                                        0 => v.push(0),
                                        1 => {
                                            v.pop();
                                        }
                                        2 if !v.is_empty() => {
                                            let i = rng.below(v.len());
                                            v[i] ^= 1 << rng.below(32);
                                        }
                                        _ => {}
                                    }
                                    v
                                } else {
                                    let len = match (kind, rng.below(6)) {
                                        (3, _) => rng.below(4),
                                        (_, 0) => 0,
                                        (2, _) => 115 + rng.below(30),
                                        (1, 1) => 250 + rng.below(200),
                                        _ => rng.below(6),
                                    };
                                    let lim = if rng.chance(1, 2) { 3 } else { 1 << 32 };
                                    (0..len).map(|_| rng.below(lim) as u32).collect()
                                };
                                seen.push(v.clone());
                                let mut c = vec![];
                                for _ in 0..rng.below(5) {
                                    c.push(rng.below(if kind == 2 { 140 } else { 4 }));
                                }
                                if rng.chance(1, 2) {
                                    t.put(tab, &v, None, &mut rng);
                                } else {
                                    t.put(tab, &v, Some(&c), &mut rng);
                                }
                            }
                        }
                    }
                    if kind != 3 {
                        t.finish();
                    } else {
                        for _ in 0..60 {
                            let id = rng.below(t.tabs[0].len()) as u32;
                            t.get(0, id);
                        }
                    }
                    t.log
                });
                out.push(out_case(res, k + 1, src, sd));
            }
        }
    }
}
