mod bound;
mod cross;
mod decl;
mod deep;
mod driver;
mod gram;
mod json;
mod keep;
mod kinds;
mod lax;
mod lexw;
mod names;
mod out;
mod parw;
mod re;
mod rng;
mod rt;
mod sched;
mod shared;
mod tree;
mod wide;

use driver::Prop;
use json::J;
use std::path::Path;

#[global_allocator]
static ALLOC: rt::Alloc = rt::Alloc;

fn props() -> Vec<Prop> {
    let lex = |id, quick, thorough, rule| Prop {
        id,
        gen: lexw::gen,
        run: lexw::run,
        quick,
        thorough,
        rule,
        level: "exploration",
    };
    let par = |id, gen, run, quick, thorough, rule| Prop {
        id,
        gen,
        run,
        quick,
        thorough,
        rule,
        level: "exploration",
    };
    vec![
        lex("C01", 200_000, 1_500_000, "a run in which some lexer delivered at least two tokens"),
        lex("C02", 200_000, 1_500_000, "a run in which the pattern matched at least one text"),
        lex("C03", 200_000, 1_500_000, "a run in which some lexer delivered at least two tokens"),
        lex("C04", 200_000, 1_500_000, "a run in which some lexer delivered at least two tokens"),
        lex("C05", 200_000, 1_500_000, "a run in which at least one constructor panic was injected"),
        par("C06", cross::gen_c06, cross::run_c06, 40_000, 250_000, "a run in which at least two actors were used at least twice"),
        par("C07", parw::gen, parw::run, 120_000, 800_000, "a grammar the definition clearly accepts or refuses, built under one hash order and one declaration order"),
        par("C08", parw::gen, parw::run, 120_000, 800_000, "a run that parsed a non-empty token sequence"),
        par("C09", parw::gen, parw::run, 120_000, 800_000, "a run that returned a tree for a non-empty token sequence"),
        par("C10", parw::gen, parw::run, 120_000, 800_000, "a run with a token sequence that stops being the beginning of a sentence"),
        par("C11", parw::gen_c11, parw::run_c11, 60_000, 300_000, "a history of at least two parses, or with a nested or panicking parse, on one parser"),
        par("C12", parw::gen_c12, parw::run_c12, 80_000, 400_000, "a history in which a parser was moved, used or hit by a panic"),
        par("C13", parw::gen, parw::run, 120_000, 800_000, "a state machine with more than two states"),
        par("C14", cross::gen_c14, cross::run_c14, 40_000, 250_000, "a case with at least one tree or a token stream of at least one token"),
        par("C15", bound::gen, bound::run, 40_000, 250_000, "a run with at least two pulls, a parsed non-empty sentence or a refused grammar"),
        par("C16", parw::gen, parw::run, 120_000, 800_000, "a run with text no definition matches"),
        par("C19", decl::gen, decl::run, 120_000, 800_000, "a run in which at least one declaration was hit by a panic"),
        par("C20", lax::gen, lax::run, 120_000, 800_000, "a run in which a panic was injected or a completed operation was given wrong answers"),
        par("C21", deep::gen, deep::run, 3_000, 20_000, "a run with an input of at least 2000 tokens or a token of at least 2000 bytes"),
        par("C22", names::gen, names::run, 80_000, 500_000, "a diagram of symbols that print awkward texts, or drawn after an interrupted one"),
        par("C23", cross::gen_c23, cross::run_c23, 18_000, 200_000, "a run in which two threads did at least two things each and control changed in between"),
        par("C24", keep::gen, keep::run, 30_000, 400_000, "a run with at least 32 rounds of use, or at least 64 tokens from one lexer"),
    ]
}

/// Human-readable lines about a case.
pub fn describe(j: &J) -> Vec<String> {
    let mut v = vec![];
    for (i, s) in j.get("sets").and_then(|s| s.a()).unwrap_or(&[]).iter().enumerate() {
        if let Some(s) = lexw::set_from(s) {
            for (d, r) in s.res.iter().enumerate() {
                v.push(format!("set {i} definition {d}: {}", r.print()));
            }
        }
    }
    if let Some(s) = j.get("set").and_then(lexw::set_from) {
        for (d, r) in s.res.iter().enumerate() {
            v.push(format!("definition {d}: {}", r.print()));
        }
    }
    for (i, a) in j.get("actors").and_then(|s| s.a()).unwrap_or(&[]).iter().enumerate() {
        v.push(format!("actor {i}:"));
        v.extend(describe(a).into_iter().map(|l| format!("  {l}")));
    }
    for (i, a) in j.get("threads").and_then(|s| s.a()).unwrap_or(&[]).iter().enumerate() {
        v.push(format!("thread {i}:"));
        v.extend(describe(a).into_iter().map(|l| format!("  {l}")));
    }
    for k in ["text", "lexers", "ops", "gram", "plan", "inputs", "texts", "sched"] {
        if let Some(x) = j.get(k) {
            v.push(format!("{k}: {}", x.print()));
        }
    }
    v
}

fn main() {
    rt::init();
    shared::look();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let code = match cmd {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_default();
            let tier = match a.get(3).map(String::as_str) {
                Some(t) => t.to_string(),
                None if tier == "thorough" => tier,
                None => "quick".into(),
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok());
            driver::check(find(&a[2]), &tier, seed.unwrap_or(1) as u64 & (u64::MAX >> 1), Path::new(&root))
        }
        "replay" => {
            let j = std::fs::read_to_string(&a[2]).ok().and_then(|s| J::parse(&s)).expect("replay file");
            let p = find(j.get("prop").and_then(|s| s.s()).expect("prop"));
            let o = (p.run)(j.get("case").expect("case"), p.id).expect("case does not decode");
            for l in describe(j.get("case").unwrap()) {
                println!("{l}");
            }
            println!("digest {:016x} calls {} allocations {}", o.digest, o.ticks, o.allocs);
            match (&o.viol, &o.harness) {
                (Some(v), _) => {
                    println!("{v}");
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    1
                }
                (None, Some(h)) => {
                    println!("harness error: {h}");
                    2
                }
                _ => {
                    println!("held");
                    0
                }
            }
        }
        "seed" => {
            let p = find(&a[2]);
            let c = driver::case_of(p, a[3].parse().expect("seed"));
            println!("{}", c.print());
            for l in describe(&c) {
                println!("{l}");
            }
            println!("{:?}", (p.run)(&c, p.id));
            0
        }
        // the reference models against each other
        "selftest" => {
            let mut rng = rng::Rng::new(1);
            for k in 0..20_000 {
                let g = gram::gen_slr(&mut rng).norm();
                let mut w = parw::gen_word(&mut rng, &g, [0, 3, 10, 25][k % 4]);
                for _ in 0..k % 3 {
                    gram::damage(&mut rng, &mut w, g.nt());
                }
                let r = g.table_run(&w);
                assert_eq!(r, (g.derives(&w), g.viable(&w)), "{g:?} {w:?}");
                let (s, al) = lexw::gen_set(&mut rng);
                let t: Vec<char> = lexw::gen_text(&mut rng, &s, &al, 36, &mut vec![]).chars().collect();
                let long: Vec<char> = t.iter().copied().chain(['\u{2603}'; 128]).collect();
                for r in &s.res {
                    let n = re::ends_in::<re::Short>(r, &t);
                    assert_eq!(n, re::ends_in::<re::Long>(r, &t));
                    assert_eq!(n, re::ends_in::<re::Longest>(r, &t));
                    assert!(re::longest(r, &t) <= re::longest(r, &long));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: pango-sim check ID [tier] | replay FILE | seed ID SEED");
            2
        }
    };
    std::process::exit(code);
}
