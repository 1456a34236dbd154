mod ast;
mod fam_ast;
mod fam_contain;
mod fam_deep;
mod fam_dfa;
mod fam_finite;
mod fam_hash;
mod fam_json;
mod fam_la;
mod fam_print;
mod fam_refuse;
mod fam_repro;
mod fam_scale;
mod fam_sets;
mod fam_session;
mod fam_syntax;
mod fam_raw;
mod gen;
mod graph;
mod size;

use serde_json::Value;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Processor time (in 1/100 s) used up when the case being run was begun.
static STARTED: AtomicU64 = AtomicU64::new(0);

/// Ends a run whose case takes out of all proportion to what is usual (measured over all checks:
/// 4 s and 600 MB for the deepest expressions, 1 s and 140 MB for all others): the code under
/// test does not answer.
mod watch {
    use super::*;

    pub fn cpu() -> u64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        n(11) + n(12)
    }

    fn memory_mb() -> u64 {
        let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        let pages = s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok());
        pages.unwrap_or(0) / 256
    }

    pub fn start(seconds: u64, mb: u64) {
        STARTED.store(cpu(), Relaxed);
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                let used = cpu().saturating_sub(STARTED.load(Relaxed));
                let mem = memory_mb();
                if used > 100 * seconds || mem > mb {
                    eprintln!("no answer within {seconds} s and {mb} MB");
                    std::process::abort();
                }
            }
        });
    }
}

pub struct Args {
    pub fam: String,
    kv: HashMap<String, String>,
}
impl Args {
    pub fn s(&self, k: &str, d: &str) -> String {
        self.kv.get(k).cloned().unwrap_or(d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.kv.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
}

/// Collects cases; notes the case being run in OUT.cur, so that a crash or a hang of the code
/// under test can be attributed.
pub struct Out {
    path: String,
    cur: std::fs::File,
    pub cases: Vec<Value>,
}
impl Out {
    pub fn begin(&mut self, what: &Value) {
        use std::io::Seek;
        let s = what.to_string();
        self.cur.rewind().unwrap();
        self.cur.set_len(0).unwrap();
        self.cur.write_all(s.as_bytes()).unwrap();
        STARTED.store(watch::cpu(), Relaxed);
    }
    pub fn push(&mut self, v: Value) {
        self.cases.push(v);
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let fam = it.next().expect("family");
    let mut kv = HashMap::new();
    while let Some(k) = it.next() {
        kv.insert(k.trim_start_matches("--").to_string(), it.next().unwrap());
    }
    let args = Args { fam, kv };
    // a panic of the code under test is recorded as data
    std::panic::set_hook(Box::new(|_| {}));
    watch::start(args.n("seconds", 60), args.n("mb", 3000));
    let path = args.s("out", "cases.json");
    let mut out = Out {
        cur: std::fs::File::create(format!("{path}.cur")).unwrap(),
        path,
        cases: vec![],
    };
    match args.fam.as_str() {
        "ast" => fam_ast::run(&args, &mut out),
        "la" => fam_la::run(&args, &mut out),
        "dfa" => fam_dfa::run(&args, &mut out),
        "print" => fam_print::run(&args, &mut out),
        "refuse" => fam_refuse::run(&args, &mut out),
        "repro" => fam_repro::run(&args, &mut out),
        "deep" => fam_deep::run(&args, &mut out),
        "fold" => fam_deep::run_fold(&args, &mut out),
        "finite" => fam_finite::run(&args, &mut out),
        "hash" => fam_hash::run(&args, &mut out),
        "sets" => fam_sets::run_sets(&args, &mut out),
        "unary" => fam_scale::run_unary(&args, &mut out),
        "counts" => fam_scale::run_counts(&args, &mut out),
        "words" => fam_scale::run_words(&args, &mut out),
        "bulk" => fam_scale::run_bulk(&args, &mut out),
        "share" => fam_sets::run_share(&args, &mut out),
        "lattice" => fam_sets::run_lattice(&args, &mut out),
        "session" => fam_session::run(&args, &mut out),
        "contain" => fam_contain::run_contain(&args, &mut out),
        "fuel" => fam_contain::run_fuel(&args, &mut out),
        "raw" => fam_raw::run(&args, &mut out),
        "json" => fam_json::run(&args, &mut out),
        "syntax" => fam_syntax::run(&args, &mut out),
        f => panic!("unknown family {f}"),
    }
    let f = std::fs::File::create(&out.path).unwrap();
    let mut w = std::io::BufWriter::new(f);
    serde_json::to_writer(&mut w, &out.cases).unwrap();
    w.flush().unwrap();
    println!("CASES {}", out.cases.len());
}
