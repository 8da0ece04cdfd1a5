//! Command line, evidence files, replay artefacts, known findings.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::explore::{explore, install_panic_hook, run_once, Body, Found, Limits, Stats, R};

pub struct Scenario {
    pub name: String,
    pub body: Body,
    /// deviation bound
    pub dev: usize,
    /// wall cap in seconds
    pub wall: u64,
    /// what the scenario enumerates
    pub bounds: String,
    /// seconds one execution may take before it counts as a hang
    pub hang: u64,
}

impl Scenario {
    pub fn new(
        name: &str,
        dev: usize,
        wall: u64,
        bounds: &str,
        body: impl Fn() -> R<()> + Send + Sync + 'static,
    ) -> Self {
        Scenario {
            name: name.to_string(),
            body: Arc::new(body),
            dev,
            wall,
            bounds: bounds.to_string(),
            hang: 60,
        }
    }

    /// One execution may take this long.
    pub fn slow(mut self, hang: u64) -> Self {
        self.hang = hang;
        self
    }
}

pub struct Check {
    pub property: &'static str,
    pub assumptions: Vec<&'static str>,
    /// thorough?
    pub scenarios: fn(bool) -> Vec<Scenario>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    property: String,
    scenario: String,
    sig: String,
    what: String,
}

fn load_known(root: &PathBuf) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("known:") {
                let (head, what) = match rest.find("::") {
                    Some(i) => (&rest[..i], rest[i + 2..].trim()),
                    None => (rest, ""),
                };
                let mut m = BTreeMap::new();
                for kv in head.split_whitespace() {
                    if let Some(i) = kv.find('=') {
                        m.insert(kv[..i].to_string(), kv[i + 1..].to_string());
                    }
                }
                v.push(Known {
                    property: m.get("property").cloned().unwrap_or_default(),
                    scenario: m.get("scenario").cloned().unwrap_or_default(),
                    sig: m.get("sig").cloned().unwrap_or_default(),
                    what: what.to_string(),
                });
            }
        }
    }
    v
}

#[derive(Clone, Default)]
struct Current {
    root: PathBuf,
    property: String,
    scenario: String,
    tier: String,
    seed: u64,
}

static CURRENT: Mutex<Option<Current>> = Mutex::new(None);

pub fn hang_hook() -> fn(Found) {
    |f: Found| {
        let c = CURRENT.lock().unwrap().clone().unwrap();
        let path = write_replay(&c, &f, &[]);
        println!(
            "scenario {}: {}: {}",
            c.scenario, f.violation.sig, f.violation.msg
        );
        println!(
            "VIOLATION property={} replay={}",
            c.property,
            path.display()
        );
        write_evidence(&c, &[], 0.0, 1, &[]);
        std::process::exit(1);
    }
}

fn write_replay(c: &Current, f: &Found, log: &[String]) -> PathBuf {
    let dir = c.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!(
        "{}-{}.txt",
        c.property,
        c.scenario.replace('/', "_")
    ));
    let mut t = String::new();
    t.push_str(&format!("property={}\n", c.property));
    t.push_str(&format!("scenario={}\n", c.scenario));
    t.push_str(&format!("seed={}\n", c.seed));
    t.push_str(&format!("tier={}\n", c.tier));
    t.push_str(&format!(
        "choices={}\n",
        f.choices
            .iter()
            .map(|c| c.to_string())
            .collect::<Vec<_>>()
            .join(",")
    ));
    t.push_str(&format!("sig={}\n", f.violation.sig));
    t.push_str(&format!(
        "message={}\n",
        f.violation.msg.replace('\n', "\\n")
    ));
    t.push_str("--- log of the execution (deviations, task polls, time) ---\n");
    for l in log.iter().take(5000) {
        t.push_str(l);
        t.push('\n');
    }
    std::fs::write(&path, t).expect("write replay");
    path
}

fn write_evidence(
    c: &Current,
    stats: &[(String, String, usize, Stats)],
    wall: f64,
    violations: usize,
    assumptions: &[&str],
) {
    let sum = |f: &dyn Fn(&Stats) -> u64| -> u64 { stats.iter().map(|s| f(&s.3)).sum() };
    let mut samples = Vec::new();
    for (n, _, _, s) in stats {
        for x in s.samples.iter().take(1) {
            samples.push(esc(&format!("{}: {}", n, x)));
        }
    }
    let mut per = Vec::new();
    for (n, b, d, s) in stats {
        per.push(format!(
            "{{\"scenario\":{},\"bounds\":{},\"deviation_bound\":{},\"complete_through_deviation\":{},\"exhaustive\":{},\"executions\":{},\"executions_by_deviation\":{:?},\"states\":{},\"transitions\":{},\"distinct_outcomes\":{},\"deepest_choice\":{},\"wall_s\":{:.2}}}",
            esc(n),
            esc(b),
            d,
            s.complete_dev,
            s.exhaustive,
            s.executions,
            s.by_dev,
            s.states,
            s.transitions,
            s.outcomes,
            s.max_depth,
            s.wall
        ));
    }
    let known: u64 = stats
        .iter()
        .map(|s| s.3.known.iter().map(|k| k.1).sum::<u64>())
        .sum();
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"executions\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"executions_matching_known_findings\": {},\n  \"rule\": {},\n  \"scenarios\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        esc(&c.property),
        esc(&c.tier),
        c.seed,
        sum(&|s| s.states),
        sum(&|s| s.transitions),
        sum(&|s| s.replayed),
        sum(&|s| s.executions),
        sum(&|s| s.outcomes),
        !stats.is_empty() && stats.iter().all(|s| s.3.exhaustive),
        known,
        esc("every execution runs the real code; states = distinct decision points (choice prefixes) visited, transitions = task polls, clock advances, operations and choices executed, traces_validated_against_impl = recorded choice sequences re-executed on the implementation from scratch and compared for identical choices and observations"),
        per.join(",\n   "),
        samples.join(",\n   "),
        assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","),
        violations,
        wall
    );
    let dir = match std::env::var("VERIF_VARIANT") {
        Ok(v) => c.root.join("evidence").join(v),
        Err(_) => c.root.join("evidence"),
    };
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.property)), t).expect("write evidence");
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1).cloned())
}

/// The scenarios of a check. A harness built in another variant (VERIF_VARIANT) names them
/// after it, and leaves out those whose name contains one of VERIF_SKIP's words.
fn scenarios(check: &Check, thorough: bool) -> Vec<Scenario> {
    let mut all = (check.scenarios)(thorough);
    if let Ok(skip) = std::env::var("VERIF_SKIP") {
        all.retain(|s| !skip.split_whitespace().any(|w| s.name.contains(w)));
    }
    if let Ok(variant) = std::env::var("VERIF_VARIANT") {
        for s in &mut all {
            s.name = format!("{}-{}", s.name, variant);
        }
    }
    all
}

/// Seconds until VERIF_DEADLINE (seconds since the epoch); on a machine so slow that a check
/// would be cut off without an answer, it stops there and reports what it covered.
fn left() -> u64 {
    let at: u64 = match std::env::var("VERIF_DEADLINE").map(|d| d.parse()) {
        Ok(Ok(d)) => d,
        _ => return u64::MAX,
    };
    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_secs())
        .unwrap_or(0);
    at.saturating_sub(now).max(1)
}

/// Entry point of every harness binary.
pub fn main_cli(checks: Vec<Check>) -> ! {
    install_panic_hook();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let tier = arg("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let threads: usize = arg("--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(8)
        });
    if let Some(p) = arg("--replay") {
        replay(checks, &p);
    }
    let prop = arg("--prop").expect("--prop");
    let only = arg("--only");
    let dev = arg("--dev").and_then(|d| d.parse::<usize>().ok());
    let wallo = arg("--wall").and_then(|d| d.parse::<u64>().ok());
    let check = match checks.into_iter().find(|c| c.property == prop) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    };
    let known = load_known(&root);
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let mut all = Vec::new();
    let mut cur = Current {
        root,
        property: prop.clone(),
        scenario: String::new(),
        tier: tier.clone(),
        seed,
    };
    let mut hit: Vec<String> = Vec::new();
    for sc in scenarios(&check, thorough) {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        cur.scenario = sc.name.clone();
        *CURRENT.lock().unwrap() = Some(cur.clone());
        let lim = Limits {
            max_dev: dev.unwrap_or(sc.dev),
            wall: Duration::from_secs(wallo.unwrap_or(sc.wall).min(left())),
            max_exec: u64::MAX,
            threads,
            hang_s: sc.hang,
        };
        let kf = |v: &crate::Violation| -> Option<String> {
            known
                .iter()
                .find(|k| k.property == prop && k.scenario == sc.name && k.sig == v.sig)
                .map(|k| k.what.clone())
        };
        match explore(sc.body.clone(), &lim, seed, &kf) {
            Err(e) => {
                eprintln!("ENGINE ERROR in {}/{}: {}", prop, sc.name, e);
                std::process::exit(3);
            }
            Ok((stats, found)) => {
                println!(
                    "{} {:<28} dev<={} exec={} {:?} states={} transitions={} outcomes={} depth={} exhaustive={} (complete to dev {}) {:.1}s",
                    prop,
                    sc.name,
                    lim.max_dev,
                    stats.executions,
                    stats.by_dev,
                    stats.states,
                    stats.transitions,
                    stats.outcomes,
                    stats.max_depth,
                    stats.exhaustive,
                    stats.complete_dev,
                    stats.wall
                );
                for (k, n) in &stats.known {
                    if !hit.contains(k) {
                        hit.push(k.clone());
                        println!("KNOWN-FINDING: property={} {} [{} executions]", prop, k, n);
                    }
                }
                all.push((sc.name.clone(), sc.bounds.clone(), lim.max_dev, stats));
                if let Some(f) = found {
                    let r = run_once(&sc.body, Arc::new(f.choices.clone()), true, seed);
                    let path = write_replay(&cur, &f, &r.log);
                    println!(
                        "scenario {}: {}: {}",
                        sc.name, f.violation.sig, f.violation.msg
                    );
                    println!("VIOLATION property={} replay={}", prop, path.display());
                    write_evidence(
                        &cur,
                        &all,
                        t0.elapsed().as_secs_f64(),
                        1,
                        &check.assumptions,
                    );
                    std::process::exit(1);
                }
            }
        }
    }
    write_evidence(
        &cur,
        &all,
        t0.elapsed().as_secs_f64(),
        0,
        &check.assumptions,
    );
    std::process::exit(0)
}

fn replay(checks: Vec<Check>, path: &str) -> ! {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut m = BTreeMap::new();
    for l in t.lines() {
        if l.starts_with("---") {
            break;
        }
        if let Some(i) = l.find('=') {
            m.insert(l[..i].to_string(), l[i + 1..].to_string());
        }
    }
    let check = checks
        .into_iter()
        .find(|c| c.property == m["property"])
        .expect("property");
    let sc = scenarios(&check, m["tier"] == "thorough")
        .into_iter()
        .find(|s| s.name == m["scenario"])
        .expect("scenario");
    let choices: Vec<u16> = m["choices"]
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let seed = m["seed"].parse().unwrap();
    let r = run_once(&sc.body, Arc::new(choices), true, seed);
    for l in &r.log {
        println!("{}", l);
    }
    println!("outcome: {}", String::from_utf8_lossy(&r.outcome));
    match r.result {
        Err(v) => {
            println!("{}: {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", m["property"], path);
            std::process::exit(1)
        }
        Ok(()) => {
            println!("no violation");
            std::process::exit(0)
        }
    }
}
