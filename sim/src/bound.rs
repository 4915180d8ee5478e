//! C15: every operation finishes within a work budget that is polynomial in the
//! size of what it was given. Work = allocations + calls into caller code.

use crate::gram::{self, Gram, S};
use crate::json::J;
use crate::kinds::{self, Term};
use crate::lexw::{self, env_from, env_json, DefSet};
use crate::out::{exec, Out, R};
use crate::parw::{self, Input, Step};
use crate::re::{Re, INF};
use crate::rng::Rng;
use crate::rt;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Most states and items of the model's automaton a case may have.
const STATES: usize = 400;
const ITEMS: usize = 6_000;
/// Largest written-out definition set.
const SIZE: u64 = 2_500;
const TEXT: usize = 1_500;

/// Symbols of a pattern after writing out its counted repetitions.
fn expanded(r: &Re) -> u64 {
    match r {
        Re::Empty | Re::Ch(..) | Re::Class(_) => 1,
        Re::Set(_, i) => 1 + i.len() as u64,
        Re::Cat(v) | Re::Alt(v) => v.iter().map(expanded).fold(1, u64::saturating_add),
        Re::Grp(r) => expanded(r),
        Re::Rep(r, _, min, max) => {
            let n = if *max == INF { min + 1 } else { *max };
            (n as u64 + 1).saturating_mul(expanded(r) + 1)
        }
    }
}

fn set_size(s: &DefSet) -> u64 {
    s.res.iter().map(expanded).fold(1, u64::saturating_add)
}

/// Budget for one pull with `left` characters of text left.
fn pull_budget(size: u64, left: usize) -> u64 {
    30 * (size + 20) * (left as u64 + 5)
}

/// Budget for building a lexer.
fn lexer_budget(size: u64, text: usize) -> u64 {
    40 * (size + 20) + 10 * text as u64
}

struct Size {
    states: u64,
    items: u64,
    syms: u64,
    vars: u64,
    rules: u64,
}

fn gram_size(g: &Gram) -> Option<Size> {
    let n = g.norm();
    let a = n.augmented_automaton(STATES)?;
    let items: usize = a.states.iter().map(|s| s.len()).sum();
    if items > ITEMS {
        return None;
    }
    let mut vars = 1u128 << g.start;
    for (h, b) in &g.rules {
        vars |= 1 << h;
        for s in b {
            if let S::N(v) = s {
                vars |= 1 << v;
            }
        }
    }
    Some(Size {
        states: a.states.len() as u64,
        items: items as u64,
        syms: g.rules.iter().map(|(_, b)| b.len() as u64 + 1).sum(),
        vars: vars.count_ones() as u64,
        rules: g.rules.len() as u64,
    })
}

/// Budget for building a parser; colliding hashes make lookups linear.
fn build_budget(z: &Size, hm: u8) -> u64 {
    let syms = z.syms + 5;
    let f = if hm == 0 { 30 } else { 90 };
    f * (2 * (z.items + 5) * (z.states + 5) + syms * syms * (z.vars + z.rules))
}

/// Budget for one parse of `toks` tokens of `kinds` kinds out of a text of `len` characters.
fn parse_budget(z: &Size, toks: usize, kinds: usize, len: usize) -> u64 {
    40 * (toks as u64 + 5) * (z.vars + z.rules + 20) + 50 * (kinds as u64 + 5) * (len as u64 + 5)
}

fn usage(r: &mut R, used: u64, budget: u64) {
    r.add(
        match used * 100 / budget {
            0 => "work below 1% of budget",
            1..=2 => "work 1-3% of budget",
            3..=9 => "work 3-10% of budget",
            10..=29 => "work 10-30% of budget",
            _ => "work 30-100% of budget",
        },
        1,
    );
}

enum Case {
    Lex(DefSet, String),
    Par(Gram, Vec<Step>, usize, Vec<Input>),
}

fn decode(j: &J) -> Option<Case> {
    if let Some(s) = j.get("set") {
        let s = lexw::set_from(s)?;
        let t = j.get("text")?.s()?.to_string();
        (set_size(&s) <= SIZE && t.chars().count() <= TEXT).then_some(())?;
        return Some(Case::Lex(s, t));
    }
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() {
        return None;
    }
    let plan = parw::steps_from(j.get("plan")?, &g)?;
    let inputs = j
        .get("inputs")?
        .a()?
        .iter()
        .map(|i| {
            let c = i.s().filter(|c| c.chars().count() <= TEXT)?;
            let ok = c.chars().all(|c| kinds::kind_of(c).is_some());
            ok.then(|| Input { pre: 0, code: c.to_string() })
        })
        .collect::<Option<Vec<_>>>()?;
    Some(Case::Par(g, plan, j.get("style")?.us().filter(|s| *s < 3)?, inputs))
}

/// Runs `f` under a work budget; the process ends if it does not suffice.
fn within<O>(r: &mut R, what: &'static str, budget: u64, f: impl FnOnce() -> O) -> O {
    let before = rt::work();
    rt::limit_work(budget);
    let o = f();
    let used = rt::work() - before;
    rt::limit_work(u64::MAX / 4);
    if used > budget {
        r.fail(format!("work: {what} did {used} steps, its budget is {budget}"));
    }
    usage(r, used, budget);
    r.add(what, 1);
    o
}

fn run_in<X: Term>(c: &Case, z: Option<&Size>, hm: u8) -> R {
    kinds::HASH_MODE.set(hm);
    let mut r = R::default();
    match c {
        Case::Lex(s, text) => {
            let ds = lexw::defs_of(s);
            let size = set_size(s);
            let mut left = text.chars().count();
            let b = lexer_budget(size, left);
            let Some(mut lx) =
                within(&mut r, "lexers built", b, || parw::lexer::<X>(&ds, kinds::leak(text)))
            else {
                r.add("refused", 1);
                return r;
            };
            let mut pulls = 0;
            loop {
                let b = pull_budget(size, left);
                let t = within(&mut r, "pulls", b, || {
                    catch_unwind(AssertUnwindSafe(|| lx.next().map(|t| t.source.chars().count())))
                });
                pulls += 1;
                match t {
                    Ok(Some(n)) if n > 0 && n <= left => left -= n,
                    // anything else is for other properties to judge
                    _ => break,
                }
            }
            r.nontrivial = pulls > 1;
        }
        Case::Par(g, plan, style, inputs) => {
            let z = z.unwrap();
            let b = build_budget(z, hm);
            match within(&mut r, "parsers built", b, || parw::build::<X>(g, plan, false)) {
                Ok(p) => {
                    let nt = parw::kinds_used(g, inputs);
                    let ds = parw::defs(nt, *style);
                    for i in inputs {
                        let t = parw::compose(&i.code, *style);
                        let b = parse_budget(z, i.code.len(), nt, t.text.len());
                        let res = within(&mut r, "parses", b, || parw::parse_bare::<X>(&p, &ds, &t));
                        r.add(if res == Some(true) { "sentences" } else { "rejected" }, 1);
                        r.nontrivial |= res == Some(true) && !i.code.is_empty();
                    }
                }
                Err(_) => {
                    r.add("refused", 1);
                    r.nontrivial = true;
                }
            }
        }
    }
    r
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    let c = decode(j)?;
    let mut env = env_from(j, u64::MAX / 4)?;
    env.reuse = true;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let copy = j.get("copy")?.n()? != 0;
    let z = match &c {
        Case::Par(g, ..) => Some(gram_size(g)?),
        _ => None,
    };
    let mut o = exec(&env, || {
        if copy {
            run_in::<kinds::K>(&c, z.as_ref(), hm)
        } else {
            run_in::<kinds::T>(&c, z.as_ref(), hm)
        }
    });
    o.add("fault:hash-keys-chosen", 1);
    if hm > 0 {
        o.add("fault:colliding-hashes", 1);
    }
    for f in j.get("faults").and_then(|f| f.a()).unwrap_or(&[]) {
        o.add(&format!("fault:{}", f.s()?), 1);
    }
    Some(o)
}

// ---------------------------------------------------------------- generation

fn rep(r: Re, min: usize, max: usize) -> Re {
    let style = match (min, max) {
        (0, 1) | (0, INF) | (1, INF) => 0,
        _ => 1,
    };
    Re::Rep(Box::new(r), style, min, max)
}

fn some_rep(rng: &mut Rng, r: Re) -> Re {
    match rng.below(7) {
        0 => rep(r, 0, 1),
        1 | 2 => rep(r, 0, INF),
        3 => rep(r, 1, INF),
        4 => {
            let n = rng.range(1, 4);
            rep(r, n, n)
        }
        5 => {
            let n = rng.range(0, 2);
            rep(r, n, n + rng.range(1, 4))
        }
        _ => rep(r, rng.range(0, 3), INF),
    }
}

/// Patterns on which careless engines explode.
fn hard(rng: &mut Rng, a: char, depth: usize) -> Re {
    let leaf = |rng: &mut Rng| {
        if rng.chance(20) {
            Re::Class(0)
        } else {
            Re::Ch(a, 0)
        }
    };
    if depth == 0 {
        return leaf(rng);
    }
    match rng.below(8) {
        // tower of repetitions
        0 | 1 => {
            let r = hard(rng, a, depth - 1);
            some_rep(rng, r)
        }
        // alternatives that overlap, repeated
        2 => {
            let n = rng.range(2, 4);
            let v = (0..n).map(|_| hard(rng, a, depth - 1)).collect();
            some_rep(rng, Re::Grp(Box::new(Re::Alt(v))))
        }
        // sequence of optional parts
        3 | 4 => {
            let n = rng.range(2, 8);
            let v = (0..n)
                .map(|_| {
                    let l = leaf(rng);
                    some_rep(rng, l)
                })
                .collect();
            Re::Cat(v)
        }
        // optional parts repeated as a whole
        5 => {
            let n = rng.range(2, 4);
            let v = (0..n)
                .map(|_| {
                    let l = hard(rng, a, depth.saturating_sub(2));
                    some_rep(rng, l)
                })
                .collect();
            some_rep(rng, Re::Grp(Box::new(Re::Cat(v))))
        }
        6 => {
            let v = (0..2).map(|_| hard(rng, a, depth - 1)).collect();
            Re::Cat(v)
        }
        _ => {
            let v = (0..2).map(|_| hard(rng, a, depth - 1)).collect();
            Re::Grp(Box::new(Re::Alt(v)))
        }
    }
}

fn gen_lex(rng: &mut Rng, faults: &mut Vec<J>) -> (DefSet, String) {
    for _ in 0..20 {
        let (set, text) = match rng.below(4) {
            0 => {
                let (s, al) = lexw::gen_set(rng);
                let t = lexw::gen_text(rng, &s, &al, 100, faults);
                (s, t.repeat(rng.range(1, 8)))
            }
            _ => {
                let a = *rng.pick(&['a', 'b', '1']);
                let n = rng.range(1, 3);
                let res = (0..n)
                    .map(|_| {
                        let d = rng.range(1, 5);
                        hard(rng, a, d)
                    })
                    .collect::<Vec<_>>();
                let decls = (0..n).map(|_| rng.below(3)).collect();
                let len = [3, 12, 30, 80, 300][rng.below(5)];
                let mut t: String = std::iter::repeat(a).take(rng.range(1, len)).collect();
                if rng.chance(60) {
                    t.push('#');
                    faults.push(J::str("foreign-character"));
                }
                (DefSet { res, decls }, t)
            }
        };
        let z = set_size(&set);
        let n = text.chars().count();
        if z <= SIZE && n <= TEXT && z * n as u64 * n as u64 <= 30_000_000 {
            return (set, text);
        }
    }
    (DefSet { res: vec![Re::Ch('a', 0)], decls: vec![1] }, "aaa".into())
}

fn g_of(start: u8, rules: Vec<(u8, Vec<S>)>) -> Gram {
    let mut g = Gram { start, rules };
    gram::dedup(&mut g);
    g
}

/// Grammar families whose construction is easily done too often.
pub fn gen_big(rng: &mut Rng) -> Gram {
    use S::{E, N, T};
    let nt = 12u8;
    match rng.below(10) {
        // S -> X1 .. Xn, every Xi optional
        0 => {
            let n = rng.range(2, 24) as u8;
            let share = rng.chance(50);
            let mut rules = vec![(0, (1..=n).map(N).collect::<Vec<_>>())];
            for i in 1..=n {
                rules.push((i, vec![T(if share { 0 } else { i % nt })]));
                rules.push((i, vec![E]));
            }
            if rng.chance(50) {
                rules[0].1.push(T(rng.below(nt as usize) as u8));
            }
            g_of(0, rules)
        }
        // chain B(i) -> x B(i+1) | y B(i+1)
        1 => {
            let n = rng.range(3, 30) as u8;
            let w = rng.range(2, 3) as u8;
            let mut rules = vec![];
            for i in 0..n {
                for k in 0..w {
                    rules.push((i, vec![T(k), N(i + 1)]));
                }
            }
            rules.push((n, vec![T(w)]));
            g_of(0, rules)
        }
        // layers: A(i) -> A(i+1) op A(i) or A(i) op A(i+1) | A(i+1)
        2 => {
            let n = rng.range(2, 11) as u8;
            let left = rng.chance(50);
            let mut rules = vec![];
            for i in 0..n - 1 {
                rules.push((
                    i,
                    if left {
                        vec![N(i), T(i), N(i + 1)]
                    } else {
                        vec![N(i + 1), T(i), N(i)]
                    },
                ));
                rules.push((i, vec![N(i + 1)]));
            }
            rules.push((n - 1, vec![T(10)]));
            if rng.chance(50) {
                rules.push((n - 1, vec![T(9), N(0), T(11)]));
            }
            g_of(0, rules)
        }
        // long unit chain with optional parts in front
        3 => {
            let n = rng.range(3, 30) as u8;
            let o = n + 1;
            let mut rules = vec![];
            for i in 0..n {
                rules.push((i, if rng.chance(50) { vec![N(o), N(i + 1)] } else { vec![N(i + 1)] }));
            }
            rules.push((n, vec![T(1)]));
            rules.push((o, vec![E]));
            if rng.chance(50) {
                rules.push((o, vec![T(0)]));
            }
            g_of(0, rules)
        }
        // ladder: every variable refers to the next two
        4 => {
            let n = rng.range(3, 20) as u8;
            let mut rules = vec![];
            for i in 0..n {
                rules.push((i, vec![N(i + 1), N((i + 2).min(n))]));
                if rng.chance(50) {
                    rules.push((i, vec![E]));
                }
            }
            rules.push((n, vec![T(0)]));
            if rng.chance(60) {
                rules.push((n, vec![E]));
            }
            g_of(0, rules)
        }
        // cycles of optional variables
        5 => {
            let n = rng.range(2, 16) as u8;
            let mut rules = vec![];
            for i in 0..n {
                let len = rng.range(1, 5);
                rules.push((i, (0..len).map(|_| N(rng.below(n as usize) as u8)).collect()));
                match rng.below(3) {
                    0 => rules.push((i, vec![E])),
                    1 => rules.push((i, vec![T(i % nt)])),
                    _ => {
                        rules.push((i, vec![E]));
                        rules.push((i, vec![T(rng.below(nt as usize) as u8), N(i)]));
                    }
                }
            }
            g_of(0, rules)
        }
        // one variable, many alternatives with shared beginnings
        6 => {
            let n = rng.range(4, 30);
            let mut rules = vec![];
            for _ in 0..n {
                let l = rng.range(1, 6);
                rules.push((0, (0..l).map(|_| T(rng.below(3) as u8)).collect()));
            }
            if rng.chance(50) {
                rules.push((0, vec![T(3), N(0), N(0)]));
            }
            g_of(0, rules)
        }
        // optional variables whose first sets grow one terminal at a time
        7 => {
            let n = rng.range(2, 16) as u8;
            let d = rng.range(2, 12) as u8;
            let mut rules = vec![(0, (1..=n).map(N).collect::<Vec<_>>())];
            for i in 1..=n {
                rules.push((i, vec![N(n + 1)]));
                rules.push((i, vec![E]));
            }
            for k in 0..d {
                rules.push((n + 1 + k, vec![T(k)]));
                if k + 1 < d {
                    rules.push((n + 1 + k, vec![N(n + 2 + k)]));
                }
            }
            g_of(0, rules)
        }
        8 => gram::gen_gram(rng),
        _ => gram::gen_slr(rng),
    }
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let (keys, gaps) = env_json(rng);
    let mut j = J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
    ]);
    if rng.chance(50) {
        let (s, t) = gen_lex(rng, &mut faults);
        j.set("set", lexw::set_json(&s));
        j.set("text", J::S(t));
    } else {
        let mut g = gram::gen_slr(rng);
        for _ in 0..10 {
            let h = gen_big(rng);
            if gram_size(&h).is_some() {
                g = h;
                break;
            }
        }
        let n = g.norm().reduce();
        let inputs = (0..rng.range(1, 3))
            .map(|_| {
                let target = [0, 5, 40, 200, 600][rng.below(5)];
                let mut w = n.sentence_up_to(rng, target, TEXT / 2).unwrap_or_default();
                if rng.chance(30) {
                    faults.push(J::str(gram::damage(rng, &mut w, g.nt())));
                }
                w.truncate(TEXT / 2);
                J::S(parw::code(&w))
            })
            .collect();
        j.set("gram", g.to_json());
        j.set("plan", parw::gen_plan(rng, &g));
        j.set("style", J::num([0, 1, 2][rng.below(3)]));
        j.set("inputs", J::A(inputs));
    }
    j.set("faults", J::A(faults));
    j
}

