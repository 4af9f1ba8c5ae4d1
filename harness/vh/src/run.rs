//! Master / worker framework: deterministic cases sharded over processes, violations and coverage merged into evidence.
use crate::engine::{self, cut};
use crate::prng::Rng;
use crate::props;
use serde_json::{json, Value as J};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of cases in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// seconds after which workers stop taking new cases
    pub quick_s: u64,
    pub thorough_s: u64,
    pub run: fn(&mut Ctx, u64),
    /// counters that must be non-zero on a full run for the evidence to mean anything
    pub require: &'static [&'static str],
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub samples: Vec<J>,
    pub violations: u64,
    pub verbose: bool,
    pub case: J,
    seen_sigs: BTreeSet<String>,
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64) -> Self {
        Ctx {
            id: id.into(),
            thorough,
            seed,
            idx: 0,
            rng: Rng::new(0),
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            evals: 0,
            samples: vec![],
            violations: 0,
            verbose: false,
            case: J::Null,
            seen_sigs: BTreeSet::new(),
        }
    }
    pub fn start(&mut self, idx: u64) {
        self.idx = idx;
        let mut h = DefaultHasher::new();
        self.id.hash(&mut h);
        self.rng = Rng::derive(h.finish() ^ self.seed.wrapping_mul(0x1000193), idx);
        self.case = J::Null;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", k)).or_default();
        *e = (*e).max(n);
    }
    /// one monitored execution / evaluation
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial<K: Hash>(&mut self, k: K) {
        let mut h = DefaultHasher::new();
        k.hash(&mut h);
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// sig identifies the failing input or call site across runs (known findings are matched on it)
    pub fn violation(&mut self, sig: &str, desc: String) {
        self.violations += 1;
        if !self.seen_sigs.insert(sig.to_string()) && self.seen_sigs.len() > 6 {
            return;
        }
        println!(
            "{}",
            json!({"v": {"sig": sig, "desc": desc, "idx": self.idx, "case": self.case}})
        );
        let _ = std::io::stdout().flush();
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn work_dir() -> String {
    let d = std::env::var("VH_WORK").unwrap_or_else(|_| format!("{}/work", verif_dir()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn scratch(name: &str) -> String {
    let d = format!("{}/scratch-{}-{}", work_dir(), std::process::id(), name);
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1))
            .cloned()
    };
    let tier = get("--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let seed: u64 = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.level, p.rule);
            }
        }
        Some("run") => std::process::exit(master(&a[2], &tier, seed)),
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            worker(&a[2], &tier, seed, n(3), n(4), n(5), n(6));
        }
        Some("replay") => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            one(&a[2], j["tier"].as_str().unwrap_or("quick"), j["seed"].as_u64().unwrap(), j["idx"].as_u64().unwrap())
        }
        Some("case") => one(&a[2], &tier, seed, a[3].parse().unwrap()),
        Some("tool") => in_thread(move || props::tool(&a[2..])),
        _ => {
            eprintln!("usage: vh run ID [--tier quick|thorough] [--seed N] | replay ID FILE | case ID IDX | list");
            std::process::exit(2)
        }
    }
}

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
}

fn in_thread<F: FnOnce() + Send + 'static>(f: F) {
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap();
}

fn one(id: &str, tier: &str, seed: u64, idx: u64) {
    let (id, tier) = (id.to_string(), tier.to_string());
    in_thread(move || {
        engine::install_panic_hook();
        let p = find(&id);
        let mut c = Ctx::new(&id, tier == "thorough", seed);
        c.verbose = true;
        c.start(idx);
        (p.run)(&mut c, idx);
        println!("violations: {}", c.violations);
        println!("counters: {:?}", c.counters);
        if c.violations > 0 {
            std::process::exit(1)
        }
    });
}

fn now_ms() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// cases shard, shard+n, ... from `from` on, until `end_ms` (unix time)
fn worker(id: &str, tier: &str, seed: u64, shard: u64, n: u64, from: u64, end_ms: u64) {
    let p = find(id);
    let thorough = tier == "thorough";
    let total = if thorough { p.thorough } else { p.quick };
    let cur = Arc::new(AtomicU64::new(0));
    let (cur2, id2) = (cur.clone(), id.to_string());
    let progress = format!("{}/{}.{}.case", work_dir(), id, shard);
    let case_limit = Duration::from_secs(if thorough { 240 } else if id == "N01" { 300 } else { 100 });
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            engine::install_panic_hook();
            let mut c = Ctx::new(&id2, thorough, seed);
            let mut idx = from;
            let mut done = 0u64;
            let mut cut_short = 0;
            while idx < total {
                if now_ms() > end_ms {
                    cut_short = 1;
                    break;
                }
                let _ = std::fs::write(&progress, idx.to_string());
                cur2.store(now_ms(), Ordering::SeqCst);
                c.start(idx);
                let r = engine::guard(|| (p.run)(&mut c, idx));
                if let Err(e) = r {
                    // a panic that no oracle attributed to the code under test is ours
                    c.count("harness_errors");
                    println!("{}", json!({"harness_error": {"idx": idx, "e": e}}));
                }
                done += 1;
                cur2.store(0, Ordering::SeqCst);
                if c.violations >= 8 {
                    break;
                }
                idx += n;
            }
            let d: Vec<String> = c.distinct.iter().map(|x| format!("{:x}", x)).collect();
            println!(
                "{}",
                json!({"end": {"counters": c.counters, "evals": c.evals, "cases": done, "distinct": d, "samples": c.samples,
                  "violations": c.violations, "cut_short": cut_short}})
            );
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        })
        .unwrap();
    loop {
        std::thread::sleep(Duration::from_millis(200));
        if h.is_finished() {
            std::process::exit(78);
        }
        let t = cur.load(Ordering::SeqCst);
        if t > 0 && now_ms().saturating_sub(t) > case_limit.as_millis() as u64 {
            println!("{}", json!({"slow": true}));
            let _ = std::io::stdout().flush();
            std::process::exit(77);
        }
    }
}

struct Merge {
    counters: BTreeMap<String, u64>,
    evals: u64,
    cases: u64,
    distinct: BTreeSet<String>,
    samples: Vec<J>,
    viol: Vec<J>,
    errors: Vec<J>,
    nviol: u64,
    cut: u64,
    slow: Vec<u64>,
}

fn master(id: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let thorough = tier == "thorough";
    let n: u64 = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs = if thorough { p.thorough_s } else { p.quick_s };
    let end_ms = now_ms() + secs * 1000;
    let m = Arc::new(Mutex::new(Merge {
        counters: BTreeMap::new(),
        evals: 0,
        cases: 0,
        distinct: BTreeSet::new(),
        samples: vec![],
        viol: vec![],
        errors: vec![],
        nviol: 0,
        cut: 0,
        slow: vec![],
    }));
    let exe = std::env::current_exe().unwrap();
    let total = if thorough { p.thorough } else { p.quick };
    let hs: Vec<_> = (0..n.min(total))
        .map(|shard| {
            let (m, exe, id, tier) = (m.clone(), exe.clone(), id.to_string(), tier.to_string());
            std::thread::spawn(move || {
                let mut from = shard;
                loop {
                    let mut ch = Command::new(&exe)
                        .args(["worker", &id, &shard.to_string(), &n.to_string(), &from.to_string(), &end_ms.to_string()])
                        .args(["--tier", &tier, "--seed", &seed.to_string()])
                        .stdout(Stdio::piped())
                        .stderr(if std::env::var("VH_PANICS").is_ok() { Stdio::inherit() } else { Stdio::null() })
                        .spawn()
                        .unwrap();
                    let out = BufReader::new(ch.stdout.take().unwrap());
                    let mut ended = false;
                    let mut slow = false;
                    for line in out.lines().map_while(Result::ok) {
                        let j: J = match serde_json::from_str(&line) {
                            Ok(j) => j,
                            Err(_) => continue,
                        };
                        let mut m = m.lock().unwrap();
                        if let Some(v) = j.get("v") {
                            m.viol.push(v.clone());
                        } else if let Some(e) = j.get("harness_error") {
                            m.errors.push(e.clone());
                        } else if j.get("slow").is_some() {
                            slow = true;
                        } else if let Some(e) = j.get("end") {
                            ended = true;
                            for (k, v) in e["counters"].as_object().unwrap() {
                                let v = v.as_u64().unwrap();
                                let c = m.counters.entry(k.clone()).or_default();
                                *c = if k.starts_with("max_") { v.max(*c) } else { *c + v };
                            }
                            m.evals += e["evals"].as_u64().unwrap();
                            m.cases += e["cases"].as_u64().unwrap();
                            m.nviol += e["violations"].as_u64().unwrap();
                            m.cut += e["cut_short"].as_u64().unwrap();
                            for d in e["distinct"].as_array().unwrap() {
                                m.distinct.insert(d.as_str().unwrap().to_string());
                            }
                            if m.samples.len() < 4 {
                                m.samples.extend(e["samples"].as_array().unwrap().iter().cloned());
                            }
                        }
                    }
                    let st = ch.wait().unwrap();
                    if ended {
                        break;
                    }
                    use std::os::unix::process::ExitStatusExt;
                    let at: u64 = std::fs::read_to_string(format!("{}/{}.{}.case", work_dir(), id, shard))
                        .ok()
                        .and_then(|s| s.parse().ok())
                        .unwrap_or(from);
                    let mut mm = m.lock().unwrap();
                    if slow {
                        mm.slow.push(at);
                    } else {
                        match st.signal() {
                            Some(s) if s == 11 || s == 6 || s == 4 || s == 7 || s == 8 => {
                                mm.viol.push(json!({"sig": format!("crash-{}", s), "idx": at, "case": J::Null,
                                    "desc": format!("the process running case {} was ended by signal {}", at, s)}));
                                mm.nviol += 1;
                            }
                            // memory ran out: says nothing about the property, as a case that takes too long
                            Some(9) => mm.slow.push(at),
                            _ => mm.errors.push(json!({"idx": at, "e": format!("worker ended with {:?}", st)})),
                        }
                        if mm.errors.len() + mm.viol.len() > 40 {
                            break;
                        }
                    }
                    drop(mm);
                    from = at + n;
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let m = Arc::try_unwrap(m).ok().unwrap().into_inner().unwrap();
    // known findings: "property<TAB>signature<TAB>description"
    let known: Vec<(String, String)> = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir()))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let mut it = l.splitn(4, '\t');
            match (it.next(), it.next(), it.next(), it.next()) {
                (Some("finding"), Some(p), Some(sig), Some(d)) if p == id => Some((sig.to_string(), d.to_string())),
                _ => None,
            }
        })
        .collect();
    let dir = format!("{}/replay", work_dir());
    let _ = std::fs::create_dir_all(&dir);
    let mut reported = 0;
    let mut bysig: BTreeMap<String, u64> = BTreeMap::new();
    for v in &m.viol {
        let sig = v["sig"].as_str().unwrap_or("").to_string();
        let k = bysig.entry(sig.clone()).or_default();
        *k += 1;
        if known.iter().any(|x| x.0 == sig) {
            continue;
        }
        reported += 1;
        if *k > 2 || reported > 12 {
            continue;
        }
        let f = format!("{}/{}-{}-{}.json", dir, id, seed, v["idx"]);
        let mut o = v.clone();
        o["property"] = json!(id);
        o["seed"] = json!(seed);
        o["tier"] = json!(tier);
        o["replay_with"] = json!(format!("vh replay {} {}", id, f));
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&o).unwrap());
        println!("VIOLATION property={} replay={}", id, f);
        println!("  {} (case {})", cut(v["desc"].as_str().unwrap_or(""), 1500), v["idx"]);
    }
    for (s, d) in &known {
        println!("KNOWN-FINDING: property={} {} [{}]", id, d, s);
    }
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(m.evals));
    cov.insert("distinct_nontrivial".into(), json!(m.distinct.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("samples".into(), json!(m.samples.iter().take(4).collect::<Vec<_>>()));
    cov.insert("cases".into(), json!(m.cases));
    cov.insert("cases_planned".into(), json!(total));
    cov.insert("observed".into(), json!(m.counters));
    if !m.slow.is_empty() {
        cov.insert("cases_abandoned_as_slow".into(), json!(m.slow));
    }
    if m.cut > 0 {
        cov.insert("stopped_by_time".into(), json!(true));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": reported,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    std::fs::write(
        format!("{}/evidence/{}.json", verif_dir(), id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    for e in m.errors.iter().take(5) {
        println!("harness error: {}", e);
    }
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {} violations, {:.1} s{}",
        id,
        m.cases,
        m.evals,
        m.distinct.len(),
        reported,
        t0.elapsed().as_secs_f64(),
        if m.cut > 0 { " (stopped by time)" } else { "" }
    );
    println!("  {:?}", m.counters);
    if reported > 0 {
        return 1;
    }
    if m.evals == 0 || m.errors.len() as u64 * 20 > m.cases + 20 {
        println!("the run observed too little to answer");
        return 2;
    }
    for r in p.require {
        if m.counters.get(*r).copied().unwrap_or(0) == 0 {
            println!("the run never observed `{}`", r);
            return 2;
        }
    }
    0
}
