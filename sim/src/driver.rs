//! Runs seeds, checks repeatability, minimises failures, writes evidence.

use crate::json::{self, J};
use crate::out::Out;
use crate::rng::{mix, Rng};
use crate::rt;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&str, &mut Rng) -> J,
    pub run: fn(&J, &str) -> Option<Out>,
    /// Number of runs per tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
}

pub fn seed_of(prop: &str, vseed: u64, idx: u64) -> u64 {
    let h = prop.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)
    });
    mix(mix(vseed ^ h).wrapping_add(idx)) >> 1
}

pub fn case_of(p: &Prop, seed: u64) -> J {
    (p.gen)(p.id, &mut Rng::new(seed))
}

fn run_case(p: &Prop, case: &J) -> Out {
    (p.run)(case, p.id).unwrap_or_else(|| Out {
        harness: Some("case does not decode".into()),
        ..Out::default()
    })
}

#[derive(Default)]
struct Tally {
    runs: u64,
    execs: u64,
    nontrivial: u64,
    ticks: u64,
    allocs: u64,
    draws: u64,
    repeats: u64,
    cnt: BTreeMap<String, u64>,
}

fn worker(p: &Prop, vseed: u64, n: u64, w: u64, nw: u64, deadline: Instant, dir: &Path) {
    let mut t = Tally::default();
    let mut digests: Vec<u64> = vec![];
    let mut idx = w;
    let stop = dir.join("stop");
    let mut error: Option<String> = None;
    let mut samples = vec![];
    while idx < n {
        if Instant::now() > deadline {
            break;
        }
        if let Some(min) =
            std::fs::read_to_string(&stop).ok().and_then(|s| s.trim().parse::<u64>().ok())
        {
            if idx > min {
                break;
            }
        }
        let seed = seed_of(p.id, vseed, idx);
        let case = case_of(p, seed);
        let out = run_case(p, &case);
        if idx % 64 == 5 {
            t.repeats += 1;
            let again = run_case(p, &case_of(p, seed));
            let loose = |o: &Out| o.cnt.contains_key(crate::cross::UNSCHEDULED);
            if again != out && !loose(&out) && !loose(&again) {
                error = Some(format!("seed {seed} did not repeat exactly: {out:?} / {again:?}"));
            }
        }
        if let Some(h) = &out.harness {
            error = Some(format!("seed {seed}: {h}"));
        }
        if error.is_some() {
            break;
        }
        t.runs += 1;
        t.execs += out.execs;
        t.ticks += out.ticks;
        t.allocs += out.allocs;
        t.draws += out.draws;
        if out.nontrivial {
            t.nontrivial += 1;
            digests.push(out.digest);
            if samples.len() < 2 {
                samples.push(J::obj([("seed", J::num(seed as i64)), ("case", case.clone())]));
            }
        }
        for (k, v) in &out.cnt {
            *t.cnt.entry(k.clone()).or_insert(0) += v;
        }
        if let Some(v) = &out.viol {
            let f = J::obj([
                ("index", J::num(idx)),
                ("seed", J::num(seed as i64)),
                ("violation", J::str(v.clone())),
                ("case", case),
            ]);
            let _ = std::fs::write(dir.join(format!("viol-{w}")), f.print());
            let cur = std::fs::read_to_string(&stop).ok().and_then(|s| s.trim().parse().ok());
            if cur.map_or(true, |c: u64| idx < c) {
                let _ = std::fs::write(&stop, idx.to_string());
            }
            break;
        }
        idx += nw;
    }
    let j = J::obj([
        ("runs", J::num(t.runs)),
        ("execs", J::num(t.execs)),
        ("nontrivial", J::num(t.nontrivial)),
        ("ticks", J::num(t.ticks)),
        ("allocs", J::num(t.allocs)),
        ("draws", J::num(t.draws)),
        ("repeats", J::num(t.repeats)),
        ("cnt", J::O(t.cnt.iter().map(|(k, v)| (k.clone(), J::num(*v))).collect())),
        ("samples", J::A(samples)),
        ("error", error.map(J::S).unwrap_or(J::Null)),
    ]);
    let mut b = Vec::with_capacity(digests.len() * 8);
    for d in digests {
        b.extend_from_slice(&d.to_le_bytes());
    }
    let _ = std::fs::write(dir.join(format!("dig-{w}")), b);
    let _ = std::fs::write(dir.join(format!("tally-{w}")), j.print());
}

/// Greedy minimisation: keep any simplification with the same failure class.
pub fn minimise(p: &Prop, case: J, class: &str, secs: u64) -> (J, u64, Out) {
    let t0 = Instant::now();
    let mut best = case;
    let mut out = run_case(p, &best);
    let mut tried = 0;
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    'outer: loop {
        for c in json::shrinks(&best) {
            if t0.elapsed().as_secs() >= secs {
                break 'outer;
            }
            if c.size() >= best.size() {
                continue;
            }
            let h = c.print().bytes().fold(7u64, |h, b| mix(h ^ b as u64));
            if !seen.insert(h) {
                continue;
            }
            let Some(o) = (p.run)(&c, p.id) else { continue };
            tried += 1;
            if o.harness.is_none() && o.class() == Some(class) {
                best = c;
                out = o;
                continue 'outer;
            }
        }
        break;
    }
    (best, tried, out)
}

pub fn check(p: &Prop, tier: &str, vseed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let n = if tier == "quick" { p.quick } else { p.thorough };
    let n = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let cap = if tier == "quick" { 150 } else { 600 };
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let dir = root.join(format!("scratch/{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("cannot create {}: {e}", dir.display());
        return 2;
    }
    let deadline = t0 + std::time::Duration::from_secs(cap);
    let ok = rt::workers(nw as usize, |w| worker(p, vseed, n, w as u64, nw, deadline, &dir));

    let mut t = Tally::default();
    let mut errors = vec![];
    let mut samples = vec![];
    let mut digests = BTreeSet::new();
    let mut viols: Vec<J> = vec![];
    if !ok {
        errors.push("a worker did not end normally".to_string());
    }
    for w in 0..nw {
        let j = std::fs::read_to_string(dir.join(format!("tally-{w}"))).ok();
        let Some(j) = j.and_then(|s| J::parse(&s)) else {
            errors.push(format!("worker {w} left no result"));
            continue;
        };
        let g = |k: &str| j.get(k).and_then(|v| v.n()).unwrap_or(0) as u64;
        t.runs += g("runs");
        t.execs += g("execs");
        t.nontrivial += g("nontrivial");
        t.ticks += g("ticks");
        t.allocs += g("allocs");
        t.draws += g("draws");
        t.repeats += g("repeats");
        if let Some(J::O(c)) = j.get("cnt") {
            for (k, v) in c {
                *t.cnt.entry(k.clone()).or_insert(0) += v.n().unwrap_or(0) as u64;
            }
        }
        if let Some(a) = j.get("samples").and_then(|a| a.a()) {
            if samples.len() < 3 {
                samples.extend(a.iter().take(1).cloned());
            }
        }
        if let Some(e) = j.get("error").and_then(|e| e.s()) {
            errors.push(e.to_string());
        }
        if let Ok(b) = std::fs::read(dir.join(format!("dig-{w}"))) {
            for c in b.chunks_exact(8) {
                digests.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Some(v) =
            std::fs::read_to_string(dir.join(format!("viol-{w}"))).ok().and_then(|s| J::parse(&s))
        {
            viols.push(v);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let explore_s = t0.elapsed().as_secs_f64();

    viols.sort_by_key(|v| v.get("index").and_then(|i| i.n()).unwrap_or(0));
    let mut code = 0;
    let mut vrec = vec![];
    if let Some(v) = viols.first() {
        code = 1;
        let text = v.get("violation").and_then(|s| s.s()).unwrap_or("").to_string();
        let class = text.split(':').next().unwrap_or("").to_string();
        let seed = v.get("seed").and_then(|s| s.n()).unwrap_or(0);
        let (min, tried, out) = minimise(p, v.get("case").unwrap().clone(), &class, 60);
        let path = root.join(format!("replays/{}-{}.json", p.id, seed));
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        let file = J::obj([
            ("prop", J::str(p.id)),
            ("seed", J::num(seed)),
            ("verif_seed", J::num(vseed as i64)),
            ("index", v.get("index").cloned().unwrap_or(J::Null)),
            ("violation", J::str(out.viol.clone().unwrap_or_default())),
            ("violation_before_minimising", J::str(text.clone())),
            ("minimisation_steps_tried", J::num(tried)),
            ("size_before", J::num(v.get("case").unwrap().size())),
            ("size_after", J::num(min.size())),
            ("readable", J::A(crate::describe(&min).into_iter().map(J::S).collect())),
            ("case", min),
        ]);
        let _ = std::fs::write(&path, file.print() + "\n");
        println!("seed {seed}: {}", out.viol.clone().unwrap_or(text));
        for l in crate::describe(file.get("case").unwrap()) {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        vrec.push(J::obj([
            ("seed", J::num(seed)),
            ("what", J::str(out.viol.unwrap_or_default())),
            ("replay", J::str(path.display().to_string())),
        ]));
    } else if !errors.is_empty() {
        code = 2;
        for e in &errors {
            eprintln!("check error: {e}");
        }
    }
    let faults: Vec<(String, J)> = t
        .cnt
        .iter()
        .filter(|(k, _)| k.starts_with("fault:"))
        .map(|(k, v)| (k[6..].to_string(), J::num(*v)))
        .collect();
    let fault_total: u64 =
        t.cnt.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(_, v)| *v).sum();
    let calls: Vec<(String, J)> = t
        .cnt
        .iter()
        .filter(|(k, v)| k.starts_with("calls:") && **v > 0)
        .map(|(k, v)| (k[6..].to_string(), J::num(*v)))
        .collect();
    let other: Vec<(String, J)> = t
        .cnt
        .iter()
        .filter(|(k, _)| !k.contains(':'))
        .map(|(k, v)| (k.clone(), J::num(*v)))
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = J::obj([
        ("property", J::str(p.id)),
        ("tier", J::str(tier)),
        ("seed", J::num(vseed as i64)),
        ("level", J::str(p.level)),
        (
            "coverage",
            J::obj([
                ("evaluations", J::num(t.runs)),
                ("distinct_nontrivial", J::num(digests.len())),
                ("rule", J::str(p.rule)),
                ("samples", J::A(samples)),
                ("planned_runs", J::num(n)),
                ("runs_per_hour", J::num((t.runs as f64 / explore_s * 3600.0) as i64)),
                ("nontrivial_runs", J::num(t.nontrivial)),
                ("simulated_steps", J::num(t.ticks + t.allocs)),
                ("caller_code_calls", J::num(t.ticks)),
                ("allocations", J::num(t.allocs)),
                ("hash_key_draws", J::num(t.draws)),
                ("runs_repeated_for_determinism", J::num(t.repeats)),
                ("faults_injected_total", J::num(fault_total)),
                ("faults_injected", J::O(faults)),
                ("calls_by_kind", J::O(calls)),
                ("observed", J::O(other)),
                (
                    "distinct_measure",
                    J::str("distinct 64-bit digests of the ordered trace of every allocation size, every call into caller-supplied code and every delivered result, over runs counted as non-trivial"),
                ),
                (
                    "real_components",
                    J::str("pango-lexer and pango-parser as in /repo, std collections, std hashing"),
                ),
                (
                    "simulated_components",
                    J::str("getrandom (hash keys), global allocator, caller-supplied terminal/variable types and token constructors, order of operations"),
                ),
            ]),
        ),
        ("wall_s", J::F(wall)),
        ("violations", J::num(vrec.len())),
        ("violation_details", J::A(vrec)),
        (
            "assumptions",
            J::A(vec![J::str(
                "the reference models (set-of-ends matcher, textbook SLR(1)) are correct; sizes are bounded as stated in DESIGN.md",
            )]),
        ),
    ]);
    if t.execs != t.runs {
        if let J::O(e) = &mut ev {
            for (k, v) in e.iter_mut() {
                if k == "coverage" {
                    v.set("isolated_executions", J::num(t.execs));
                }
            }
        }
    }
    let evp: PathBuf = root.join(format!("evidence/{}.json", p.id));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    let mut f = std::fs::File::create(&evp).expect("evidence file");
    let _ = f.write_all((ev.print() + "\n").as_bytes());
    println!(
        "{} {tier}: {} runs, {} distinct, {} faults, {:.1}s, exit {code}",
        p.id,
        t.runs,
        digests.len(),
        fault_total,
        wall
    );
    code
}
