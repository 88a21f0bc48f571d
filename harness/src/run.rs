//! Driver: runs the facets of a property, shrinks and reports failures, and
//! writes the evidence file.

use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::gen::{hash_str, hash_words, mix, G};
use crate::Outcome;

/// One sub-check of a property.
#[derive(Clone)]
pub struct Facet {
    pub name: &'static str,
    /// What is generated and what makes a case non-trivial.
    pub rule: &'static str,
    /// Cases in the quick tier (ignored for exhaustive facets).
    pub quick: u64,
    /// Cases in the thorough tier (ignored for exhaustive facets).
    pub thorough: u64,
    /// If set, the first choice enumerates `0..n` completely.
    pub exhaustive: Option<u64>,
    /// How many candidate cases shrinking may try.
    pub shrink: usize,
    pub run: fn(&mut G) -> Outcome,
}

impl Facet {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, run: fn(&mut G) -> Outcome, rule: &'static str) -> Self {
        Facet { name, rule, quick, thorough, exhaustive: None, shrink: SHRINK_RUNS, run }
    }

    pub const fn all(name: &'static str, n: u64, run: fn(&mut G) -> Outcome, rule: &'static str) -> Self {
        Facet { name, rule, quick: n, thorough: n, exhaustive: Some(n), shrink: SHRINK_RUNS, run }
    }

    /// Limit shrinking, for cases that take long.
    pub const fn shrinks(mut self, n: usize) -> Self {
        self.shrink = n;
        self
    }
}

#[derive(Clone)]
pub struct Property {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: Vec<&'static str>,
}

const SHRINK_RUNS: usize = 20_000;
const CRASH_SHRINK_RUNS: usize = 250;
const THREADS: usize = 8;

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

/// Run one closure, turning panics into errors.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())),
    }
}

fn run_case(facet: &Facet, g: &mut G) -> Outcome {
    match guarded(|| (facet.run)(g)) {
        Ok(r) => r,
        Err(e) => {
            if e.contains("harness:") {
                eprintln!("internal error: {}", e);
                std::process::exit(3);
            }
            Err(e)
        },
    }
}

fn case_gen(seed: u64, prop: &str, facet: &Facet, idx: u64) -> G {
    let s = mix(mix(seed ^ hash_str(prop)) ^ hash_str(facet.name)).wrapping_add(mix(idx.wrapping_add(0x51ed27)));
    // A share of a large enumeration is spread over all of it.
    let at = match facet.exhaustive {
        Some(n) if n_cases(facet) < n => (idx as u128 * n as u128 / n_cases(facet) as u128) as u64,
        _ => idx,
    };
    G::fresh(mix(s), if facet.exhaustive.is_some() { vec![at] } else { vec![] })
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."))
}

fn seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "0".to_string());
    let s = s.trim();
    s.parse::<u64>()
        .or_else(|_| s.parse::<i64>().map(|v| v as u64))
        .unwrap_or_else(|_| hash_str(s) >> 1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false)
}

fn scale() -> Option<f64> {
    static SCALE: std::sync::OnceLock<Option<f64>> = std::sync::OnceLock::new();
    *SCALE.get_or_init(|| std::env::var("HARNESS_SCALE").ok().and_then(|v| v.parse::<f64>().ok()))
}

/// Whether this is the run in the other configuration.
pub fn sanitized() -> bool {
    std::env::var_os("HARNESS_SANITIZED").is_some()
}

fn n_cases(f: &Facet) -> u64 {
    let n = match f.exhaustive {
        Some(n) if n <= 100_000 => return n,
        Some(n) => n,
        None => if thorough() { f.thorough } else { f.quick },
    };
    match scale() {
        Some(s) if f.exhaustive.is_none() || s < 1.0 => ((n as f64) * s).ceil() as u64,
        _ => n,
    }
}

pub fn json_str(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut r: String = s.chars().take(n).collect();
        r.push_str("...");
        r
    }
}

// --- known findings ---------------------------------------------------------

/// Signatures `known: property=<id> facet=<facet> sig=<text up to end of line>`.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut r = Vec::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: property=") {
                if let Some((pid, rest)) = rest.split_once(" facet=") {
                    if pid == id {
                        if let Some((facet, sig)) = rest.split_once(" sig=") {
                            r.push((facet.to_string(), sig.to_string()));
                        }
                    }
                }
            }
        }
    }
    r
}

/// The signature of a violation is its message up to the first `|`.
fn signature(msg: &str) -> String {
    msg.split('|').next().unwrap_or("").trim().replace('\n', " ")
}

// --- running ------------------------------------------------------------------

struct FacetStats {
    name: &'static str,
    rule: &'static str,
    exhaustive: bool,
    evaluations: u64,
    nontrivial: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: u64,
}

struct Failure {
    idx: u64,
    choices: Vec<u64>,
    msg: String,
}

fn run_facet(
    prop: &Property,
    fi: usize,
    seed: u64,
    known: &[(String, String)],
    progress: Option<&std::fs::File>,
) -> (FacetStats, Option<Failure>) {
    let facet = &prop.facets[fi];
    let n = n_cases(facet);
    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let chunk = (n / (THREADS as u64 * 16)).clamp(1, 512);

    struct Local {
        evaluations: u64,
        nontrivial: u64,
        distinct: HashSet<u64>,
        labels: BTreeMap<String, u64>,
        known: u64,
    }

    let locals: Mutex<Vec<Local>> = Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for t in 0..THREADS {
            let (next, limit, failure, locals) = (&next, &limit, &failure, &locals);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let mut l = Local {
                        evaluations: 0,
                        nontrivial: 0,
                        distinct: HashSet::new(),
                        labels: BTreeMap::new(),
                        known: 0,
                    };
                    'outer: loop {
                        let base = next.fetch_add(chunk, Ordering::Relaxed);
                        if base >= n {
                            break;
                        }
                        for idx in base..(base + chunk).min(n) {
                            if idx > limit.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if let Some(f) = progress {
                                let mut b = [0u8; 24];
                                b[..8].copy_from_slice(&(fi as u64).to_le_bytes());
                                b[8..16].copy_from_slice(&idx.to_le_bytes());
                                b[16..].copy_from_slice(&1u64.to_le_bytes());
                                let _ = f.write_at(&b, (t * 24) as u64);
                            }
                            let mut g = case_gen(seed, prop.id, facet, idx);
                            let r = run_case(facet, &mut g);
                            l.evaluations += 1;
                            if g.nontrivial {
                                l.nontrivial += 1;
                                l.distinct.insert(hash_words(&g.choices));
                            }
                            for v in g.labels.drain(..) {
                                *l.labels.entry(v).or_insert(0) += 1;
                            }
                            if let Err(msg) = r {
                                let sig = signature(&msg);
                                if known.iter().any(|(f, s)| f == facet.name && *s == sig) {
                                    l.known += 1;
                                    continue;
                                }
                                limit.fetch_min(idx, Ordering::Relaxed);
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map(|v| idx < v.idx).unwrap_or(true) {
                                    *f = Some(Failure { idx, choices: g.choices, msg });
                                }
                                break;
                            }
                        }
                    }
                    if let Some(f) = progress {
                        let _ = f.write_at(&[0u8; 24], (t * 24) as u64);
                    }
                    locals.lock().unwrap().push(l);
                })
                .expect("spawn");
        }
    });

    let mut s = FacetStats {
        name: facet.name,
        rule: facet.rule,
        exhaustive: facet.exhaustive == Some(n_cases(facet)),
        evaluations: 0,
        nontrivial: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        samples: Vec::new(),
        known: 0,
    };
    let mut set: HashSet<u64> = HashSet::new();
    for l in locals.into_inner().unwrap() {
        s.evaluations += l.evaluations;
        s.nontrivial += l.nontrivial;
        s.known += l.known;
        if set.is_empty() {
            set = l.distinct;
        } else {
            set.extend(l.distinct);
        }
        for (k, v) in l.labels {
            *s.labels.entry(k).or_insert(0) += v;
        }
    }
    s.distinct = set.len() as u64;
    let failure = failure.into_inner().unwrap();

    // Re-run a few early cases to describe them.
    if failure.is_none() {
        let mut tries = 0;
        let mut idx = 0;
        while s.samples.len() < 3 && tries < 200 && idx < n {
            let mut g = case_gen(seed, prop.id, facet, idx);
            g.want_notes = true;
            let _ = run_case(facet, &mut g);
            if g.nontrivial && !g.notes.is_empty() {
                s.samples.push(clip(&g.notes.join("; "), 600));
            }
            tries += 1;
            idx += 1 + n / 200;
        }
    }
    (s, failure)
}

/// Generic shrinking over the choice sequence.
fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }

    let mut best = start;
    let mut runs = 0;
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>, runs: &mut usize| -> bool {
        if *runs >= budget || !better(&cand, best) {
            return false;
        }
        *runs += 1;
        if let Some(used) = fails(&cand) {
            // The case may consume fewer or clamped choices.
            let next = if better(&used, &cand) { used } else { cand };
            if better(&next, best) {
                *best = next;
                return true;
            }
        }
        false
    };

    loop {
        let before = best.clone();

        // Remove blocks, large ones first.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(lo..i);
                    if attempt(&mut best, cand, &mut runs) {
                        i = i.min(best.len());
                        continue;
                    }
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 }).min(best.len());
                if i == 0 {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size = if size > 8 { size / 2 } else { size - 1 };
        }

        // Zero blocks.
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                for v in &mut cand[i..i + size] {
                    *v = 0;
                }
                attempt(&mut best, cand, &mut runs);
                i += size;
            }
        }

        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !attempt(&mut best, cand, &mut runs) && i < best.len() {
                    let mut lo = 0;
                    let mut hi = best[i];
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(&mut best, cand, &mut runs) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if runs >= budget {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }

        // Lower a value and drop a following block (counts and lengths).
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 64 {
                for drop in 1..=4usize {
                    if i + 1 + drop <= best.len() && best[i] > 0 {
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + drop);
                        if attempt(&mut best, cand, &mut runs) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }

        if best == before || runs >= budget {
            return best;
        }
    }
}

fn write_replay(prop: &str, facet: &str, choices: &[u64], msg: &str, notes: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", prop, facet));
    let list: Vec<String> = choices.iter().map(|v| v.to_string()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"facet\": {},\n \"sanitized\": {},\n \"choices\": [{}],\n \"message\": {},\n \"case\": {},\n \"run\": {}\n}}\n",
        json_str(prop),
        json_str(facet),
        sanitized(),
        list.join(", "),
        json_str(msg),
        json_str(notes),
        json_str(&format!("./check replay replays/{}-{}.json", prop, facet)),
    );
    let _ = std::fs::write(&path, body);
    path
}

fn report_violation(prop: &Property, facet: &Facet, choices: &[u64], msg: &str, notes: &str) {
    let path = write_replay(prop.id, facet.name, choices, msg, notes);
    let shown = path.strip_prefix(verif_dir()).unwrap_or(&path).to_path_buf();
    println!("facet {}: {}", facet.name, clip(msg, 4000));
    if !notes.is_empty() {
        println!("case: {}", clip(notes, 4000));
    }
    println!("VIOLATION property={} replay={}", prop.id, shown.display());
    let _ = std::io::stdout().flush();
}

fn write_evidence(prop: &Property, seed: u64, stats: &[FacetStats], violations: u64, wall: f64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let evaluations: u64 = stats.iter().map(|s| s.evaluations).sum();
    let distinct: u64 = stats.iter().map(|s| s.distinct).sum();
    let rule: Vec<String> = stats.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect();
    let mut samples: Vec<String> = Vec::new();
    for s in stats {
        for v in &s.samples {
            samples.push(json_str(&format!("[{}] {}", s.name, v)));
        }
    }
    let mut facets: Vec<String> = Vec::new();
    for s in stats {
        let labels: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        facets.push(format!(
            "{{\"facet\": {}, \"cases\": {}, \"nontrivial_cases\": {}, \"distinct_nontrivial_cases\": {}, \"known_finding_cases\": {}, \"exhaustive\": {}, \"classes\": {{{}}}}}",
            json_str(s.name), s.evaluations, s.nontrivial, s.distinct, s.known, s.exhaustive, labels.join(", "),
        ));
    }
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let exhaustive = !stats.is_empty() && stats.iter().all(|s| s.exhaustive);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"exhaustive\": {},\n  \"address_sanitizer_cases\": {},\n  \"interpreter_cases\": {},\n  \"facets\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(if thorough() { "thorough" } else { "quick" }),
        seed & 0x7fff_ffff_ffff_ffff,
        evaluations,
        distinct,
        json_str(&rule.join(" ")),
        samples.join(", "),
        exhaustive,
        std::env::var("HARNESS_SANITIZED_CASES").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0),
        std::env::var("HARNESS_INTERPRETED_CASES").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0),
        facets.join(",\n   "),
        assumptions.join(", "),
        wall,
        violations,
    );
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), body) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(3);
    }
}

fn child(prop: &Property, progress: &Path) -> i32 {
    install_hook();
    let start = Instant::now();
    let seed = seed();
    let known = known_findings(prop.id);
    let pf = std::fs::OpenOptions::new().write(true).open(progress).ok();
    let mut stats = Vec::new();
    let only = std::env::var("HARNESS_FACET").ok();
    for fi in 0..prop.facets.len() {
        if let Some(o) = &only {
            if prop.facets[fi].name != o {
                continue;
            }
        }
        let t0 = Instant::now();
        let (s, failure) = run_facet(prop, fi, seed, &known, pf.as_ref());
        if std::env::var_os("HARNESS_VERBOSE").is_some() {
            println!("  {} {}: {} cases, {} nontrivial, {} distinct, {:.2}s", prop.id, s.name, s.evaluations, s.nontrivial, s.distinct, t0.elapsed().as_secs_f64());
            for (k, v) in &s.labels {
                println!("      {:>10} {}", v, k);
            }
            for v in &s.samples {
                println!("      sample: {}", v);
            }
        }
        if s.known > 0 {
            for (f, sig) in &known {
                if f == s.name {
                    println!("KNOWN-FINDING: property={} {}", prop.id, sig);
                }
            }
        }
        stats.push(s);
        if let Some(f) = failure {
            let facet = &prop.facets[fi];
            let fails = |c: &[u64]| -> Option<Vec<u64>> {
                let mut g = G::replay(c.to_vec());
                match run_case(facet, &mut g) {
                    Ok(()) => None,
                    Err(m) => {
                        let sig = signature(&m);
                        if known.iter().any(|(f, s)| f == facet.name && *s == sig) {
                            None
                        } else {
                            Some(g.choices)
                        }
                    },
                }
            };
            // The failure is on record, should shrinking bring the process down.
            let record = progress.with_extension("fail");
            save_failure(&record, fi, &f.choices, &f.msg);
            let fails = |c: &[u64]| -> Option<Vec<u64>> {
                let r = fails(c);
                if let Some(v) = &r {
                    save_failure(&record, fi, v, &f.msg);
                }
                r
            };
            // Run the shrinker on a big stack as well.
            let small = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || shrink(f.choices.clone(), facet.shrink, fails))
                    .expect("spawn")
                    .join()
            });
            let small = small.unwrap_or(f.choices.clone());
            let mut g = G::replay(small.clone());
            g.want_notes = true;
            let msg = match run_case(facet, &mut g) {
                Err(m) => m,
                Ok(()) => f.msg.clone(),
            };
            write_evidence(prop, seed, &stats, 1, start.elapsed().as_secs_f64());
            println!("case {} of facet {} fails: {}", f.idx, facet.name, clip(&f.msg, 1000));
            report_violation(prop, facet, &small, &msg, &g.notes.join("; "));
            return 1;
        }
    }
    write_evidence(prop, seed, &stats, 0, start.elapsed().as_secs_f64());
    let total: u64 = stats.iter().map(|s| s.evaluations).sum();
    let distinct: u64 = stats.iter().map(|s| s.distinct).sum();
    println!(
        "property {} held: {} cases, {} distinct non-trivial, {:.1}s",
        prop.id, total, distinct, start.elapsed().as_secs_f64(),
    );
    0
}

fn save_failure(path: &Path, fi: usize, choices: &[u64], msg: &str) {
    let list: Vec<String> = choices.iter().map(|v| v.to_string()).collect();
    let _ = std::fs::write(path, format!("{}\n{}\n{}", fi, list.join(" "), msg));
}

fn load_failure(path: &Path) -> Option<(usize, Vec<u64>, String)> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut l = t.splitn(3, '\n');
    let fi = l.next()?.parse().ok()?;
    let choices = l.next()?.split(' ').filter_map(|v| v.parse().ok()).collect();
    Some((fi, choices, l.next()?.to_string()))
}

fn read_choices(path: &Path) -> Vec<u64> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.trim().parse().ok())
        .collect()
}

enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}

fn wait(mut c: std::process::Child, limit: Duration) -> End {
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(v) => End::Exit(v),
                    None => End::Signal(s.signal().unwrap_or(0)),
                };
            },
            Ok(None) => {},
            Err(_) => return End::Exit(3),
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Signals that stand for a crash of the tested code. SIGKILL (memory
/// pressure, operator) is not among them.
fn is_crash(sig: i32) -> bool {
    matches!(sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)
}

fn parent(prop: &Property) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let dir = verif_dir().join("target").join("run");
    let _ = std::fs::create_dir_all(&dir);
    let progress = dir.join(format!("{}-{}.progress", prop.id, std::process::id()));
    let trace = dir.join(format!("{}-{}.trace", prop.id, std::process::id()));
    std::fs::write(&progress, [0u8; 24 * THREADS]).expect("progress file");
    let limit = std::env::var("HARNESS_TIMEOUT").ok().and_then(|v| v.parse().ok()).unwrap_or(860u64);

    let c = Command::new(&exe).arg("child").arg(prop.id).arg(&progress).spawn().expect("spawn");
    let end = wait(c, Duration::from_secs(limit));
    let slots = std::fs::read(&progress).unwrap_or_default();
    let record = load_failure(&progress.with_extension("fail"));
    let _ = std::fs::remove_file(&progress);
    let _ = std::fs::remove_file(&progress.with_extension("fail"));

    let code = match end {
        End::Exit(v @ (0 | 1)) => v,
        End::Exit(v) => {
            eprintln!("worker ended with status {}", v);
            2
        },
        End::Timeout => {
            eprintln!("watchdog: run exceeded {} s, inconclusive", limit);
            2
        },
        End::Signal(sig) if !is_crash(sig) => {
            eprintln!("worker was killed by signal {}, inconclusive", sig);
            2
        },
        End::Signal(sig) if record.is_some() => {
            // Found a failure, then crashed while making it smaller.
            let (fi, choices, msg) = record.unwrap();
            println!("crash by signal {} while shrinking", sig);
            write_evidence(prop, seed(), &[], 1, 0.0);
            report_violation(prop, &prop.facets[fi], &choices, &msg, "");
            1
        },
        End::Signal(sig) => {
            let mut found = None;
            let mut cases: Vec<(u64, u64)> = slots
                .chunks(24)
                .filter(|b| b.len() == 24 && b[16] == 1)
                .map(|b| {
                    (
                        u64::from_le_bytes(b[..8].try_into().unwrap()),
                        u64::from_le_bytes(b[8..16].try_into().unwrap()),
                    )
                })
                .collect();
            cases.sort();
            for (fi, idx) in cases {
                let _ = std::fs::remove_file(&trace);
                let c = Command::new(&exe)
                    .args(["single", prop.id, &fi.to_string(), &idx.to_string()])
                    .arg(&trace)
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("spawn");
                if let End::Signal(s) = wait(c, Duration::from_secs(60)) {
                    if is_crash(s) {
                        found = Some((fi as usize, s, read_choices(&trace)));
                        break;
                    }
                }
            }
            match found {
                None => {
                    // Damage may show only after further cases: the crash
                    // counts if the whole run reproduces it.
                    std::fs::write(&progress, [0u8; 24 * THREADS]).expect("progress file");
                    let c = Command::new(&exe).arg("child").arg(prop.id).arg(&progress).stdout(Stdio::null()).spawn().expect("spawn");
                    let again = wait(c, Duration::from_secs(limit / 2));
                    let _ = std::fs::remove_file(&progress);
                    let _ = std::fs::remove_file(&progress.with_extension("fail"));
                    match again {
                        End::Signal(s) if is_crash(s) => {
                            write_evidence(prop, seed(), &[], 1, 0.0);
                            let path = write_replay(prop.id, "run", &[], &format!("crash by signal {}", s), &format!("whole run with VERIF_SEED={}", seed()));
                            println!("crash by signal {}, reproduced by the run as a whole", s);
                            println!("VIOLATION property={} replay={}", prop.id, path.strip_prefix(verif_dir()).unwrap_or(&path).display());
                            1
                        },
                        _ => {
                            eprintln!("worker died of signal {} but this does not reproduce, inconclusive", sig);
                            2
                        },
                    }
                },
                Some((fi, s, choices)) => {
                    let facet = &prop.facets[fi];
                    let cand = dir.join(format!("{}-{}.choices", prop.id, std::process::id()));
                    let small = shrink(choices, CRASH_SHRINK_RUNS, |c| {
                        let t: Vec<String> = c.iter().map(|v| v.to_string()).collect();
                        std::fs::write(&cand, t.join("\n")).ok()?;
                        let p = Command::new(&exe)
                            .args(["choices", prop.id, &fi.to_string()])
                            .arg(&cand)
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .spawn()
                            .ok()?;
                        match wait(p, Duration::from_secs(60)) {
                            End::Signal(s) if is_crash(s) => Some(c.to_vec()),
                            _ => None,
                        }
                    });
                    let _ = std::fs::remove_file(&cand);
                    write_evidence(prop, seed(), &[], 1, 0.0);
                    report_violation(prop, facet, &small, &format!("crash by signal {}", s), "");
                    1
                },
            }
        },
    };
    let _ = std::fs::remove_file(&trace);
    code
}

/// Run some cases of every facet within this thread, for interpreters. What
/// is running is on record, should the interpreter refuse to go on.
fn interpret(prop: &Property, n: u64) -> i32 {
    install_hook();
    let seed = seed();
    let known = known_findings(prop.id);
    let mut total = 0;
    let only = std::env::var("HARNESS_FACET").ok();
    for (fi, facet) in prop.facets.iter().enumerate() {
        if only.as_ref().is_some_and(|v| v != facet.name) || ["large", "huge", "long"].iter().any(|v| facet.name.contains(v)) {
            continue;
        }
        let all = facet.exhaustive.unwrap_or(u64::MAX);
        let mut steps = 0;
        for i in 0..n.min(all) {
            // Cost is bounded by the choices made.
            if steps > n * 40 {
                break;
            }
            let idx = if all == u64::MAX { i } else { (i as u128 * all as u128 / n.min(all) as u128) as u64 };
            println!("@ {} {} {}", fi, idx, facet.name);
            let mut g = case_gen(seed, prop.id, facet, idx);
            let r = run_case(facet, &mut g);
            total += 1;
            steps += 1 + g.choices.len() as u64;
            if let Err(msg) = r {
                let sig = signature(&msg);
                if known.iter().any(|(f, s)| f == facet.name && *s == sig) {
                    continue;
                }
                println!("{}", clip(&msg, 4000));
                return 1;
            }
        }
    }
    println!("held in {} cases", total);
    0
}

fn find<'a>(props: &'a [Property], id: &str) -> &'a Property {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn replay(props: &[Property], path: &str) -> i32 {
    install_hook();
    let t = std::fs::read_to_string(path).expect("replay file");
    let field = |name: &str| -> String {
        let k = format!("\"{}\": \"", name);
        let s = t.find(&k).expect("field") + k.len();
        t[s..].split('"').next().unwrap().to_string()
    };
    let prop = find(props, &field("property"));
    let fname = field("facet");
    if fname == "run" {
        let seed = field("case").rsplit('=').next().unwrap_or("0").to_string();
        println!("running all of {} with VERIF_SEED={}", prop.id, seed);
        unsafe { std::env::set_var("VERIF_SEED", &seed) };
        return parent(prop);
    }
    let facet = prop.facets.iter().find(|f| f.name == fname).expect("facet");
    let s = t.find("\"choices\": [").expect("choices") + 12;
    let list = t[s..].split(']').next().unwrap();
    let choices: Vec<u64> = list.split(',').filter_map(|v| v.trim().parse().ok()).collect();
    let mut g = G::replay(choices);
    g.want_notes = true;
    let r = run_case(facet, &mut g);
    println!("case: {}", g.notes.join("; "));
    match r {
        Ok(()) => {
            println!("property {} facet {} holds on this case", prop.id, facet.name);
            0
        },
        Err(m) => {
            println!("facet {}: {}", facet.name, m);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        },
    }
}

/// Entry point of every check binary.
pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["list"] => {
            for p in &props {
                for f in &p.facets {
                    println!("{} {}", p.id, f.name);
                }
            }
            0
        },
        ["check", id] => parent(find(&props, id)),
        ["interpret", id, n] => interpret(find(&props, id), n.parse().expect("count")),
        ["child", id, progress] => child(find(&props, id), Path::new(progress)),
        ["single", id, fi, idx, trace] => {
            install_hook();
            let p = find(&props, id);
            let f = p.facets[fi.parse::<usize>().unwrap()].clone();
            let idx = idx.parse::<u64>().unwrap();
            let mut g = case_gen(seed(), p.id, &f, idx);
            g.trace_to(Path::new(trace));
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = run_case(&f, &mut g); });
            let _ = h.expect("spawn").join();
            0
        },
        ["choices", id, fi, file] => {
            install_hook();
            let p = find(&props, id);
            let f = p.facets[fi.parse::<usize>().unwrap()].clone();
            let mut g = G::replay(read_choices(Path::new(file)));
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = run_case(&f, &mut g); });
            let _ = h.expect("spawn").join();
            0
        },
        ["replay", file] => replay(&props, file),
        _ => {
            eprintln!("usage: list | check ID | replay FILE");
            2
        },
    };
    std::process::exit(code)
}
