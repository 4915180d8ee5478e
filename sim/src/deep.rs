//! Long texts on a small stack (C21): sentences pumped to thousands of tokens,
//! so that trees get as deep as the text is long, parsed, cut short, interrupted
//! by panics and thrown away on a thread with little stack.

use crate::gram::{self, Gram, S};
use crate::json::J;
use crate::kinds::{self, Term};
use crate::lexw::{self, env_from, env_json, DefSet};
use crate::out::{exec, Out, R};
use crate::parw::{self, Step};
use crate::rng::Rng;
use crate::rt;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Stack of the simulated thread.
const STACK: usize = 128 << 10;
/// Most tokens of an input.
const TOKENS: usize = 16_000;
/// Most tokens of an input whose verdict is judged.
const HUGE: usize = 70_000;

/// Tokens `x u^n w v^n z`.
struct Pump {
    parts: [String; 5],
    n: usize,
    /// Tokens left of it.
    cut: usize,
    /// Constructor call that panics; 0 for none.
    panic: u64,
}

impl Pump {
    fn from(j: &J, most: usize) -> Option<Pump> {
        let a = j.a().filter(|a| a.len() == 8)?;
        let s = |k: usize| {
            let s = a[k].s()?;
            s.chars().all(|c| kinds::kind_of(c).is_some()).then(|| s.to_string())
        };
        let p = Pump {
            parts: [s(0)?, s(1)?, s(2)?, s(3)?, s(4)?],
            n: a[5].us()?,
            cut: a[6].us()?,
            panic: u64::try_from(a[7].n()?).ok()?,
        };
        let l: Vec<usize> = p.parts.iter().map(|s| s.chars().count()).collect();
        let total = l[0] + l[2] + l[4] + (l[1] + l[3]).saturating_mul(p.n);
        (p.n <= most && total <= most).then_some(p)
    }
    fn code(&self) -> String {
        let [x, u, w, v, z] = &self.parts;
        let s = format!("{x}{}{w}{}{z}", u.repeat(self.n), v.repeat(self.n));
        s.chars().take(self.cut).collect()
    }
}

/// Parses; with `want`, whether the sequences are sentences is judged.
fn go<X: Term>(g: &Gram, plan: &[Step], style: usize, hm: u8, ins: &[Pump], want: Option<&[bool]>) -> R {
    kinds::HASH_MODE.set(hm);
    let mut r = R::default();
    let Ok(p) = parw::build::<X>(g, plan, false) else {
        r.add("skipped: grammar refused", 1);
        return r;
    };
    let nt = ins.iter().flat_map(|p| p.parts.iter().flat_map(|s| s.chars()));
    let nt = nt.filter_map(|c| kinds::kind_of(c).map(|k| k as usize + 1)).max().unwrap_or(1).max(g.nt());
    let ds = parw::defs(nt, style);
    for (k, i) in ins.iter().enumerate() {
        let t = parw::compose(&i.code(), style);
        let Some(lx) = parw::lexer::<X>(&ds, t.text) else { continue };
        if i.panic > 0 {
            rt::arm(rt::MASK_CTOR, i.panic);
        }
        let res = catch_unwind(AssertUnwindSafe(|| p.parse(lx)));
        let fired = i.panic > 0 && rt::disarm();
        kinds::take_calls();
        rt::note(match &res {
            Ok(Ok(_)) => 1,
            Ok(Err(())) => 2,
            Err(_) => 3,
        });
        match &res {
            Ok(Ok(_)) => r.add("outcome: tree", 1),
            Ok(Err(())) => r.add("outcome: error", 1),
            Err(_) if fired => r.add("fault:constructor-panic", 1),
            Err(_) => r.add("outcome: panic", 1),
        }
        if let Some(w) = want {
            let class = match (&res, w[k]) {
                (Ok(Ok(_)), false) => Some("accepted-non-sentence"),
                (Ok(Err(())), true) => Some("rejected-sentence"),
                (Err(_), _) => Some("panic"),
                _ => None,
            };
            if let Some(c) = class {
                r.fail(format!("{c}: a sequence of {} tokens", t.toks.len()));
            }
        }
        r.add("tokens", t.toks.len() as u64);
        r.nontrivial |= t.toks.len() >= 2000;
        drop(res);
    }
    r
}

/// One long token: pulled a few times, possibly with the constructor panicking.
fn lex<X: Term>(s: &DefSet, text: &str, panic: bool) -> R {
    let mut r = R::default();
    let Ok(Ok(mut lx)) = catch_unwind(AssertUnwindSafe(|| X::lexer(&lexw::defs_of(s), kinds::leak(text)))) else {
        r.add("skipped: definitions refused", 1);
        return r;
    };
    for k in 0..3 {
        let armed = panic && k == 0;
        if armed {
            rt::arm(rt::MASK_CTOR, 1);
        }
        let res = catch_unwind(AssertUnwindSafe(|| lx.next()));
        let fired = armed && rt::disarm();
        kinds::take_calls();
        match &res {
            Ok(Some(t)) => {
                rt::note(t.source.len() as u64);
                r.add("outcome: token", 1);
                r.nontrivial |= t.source.len() >= 2000;
            }
            Ok(None) => r.add("outcome: no token", 1),
            Err(_) if fired => r.add("fault:constructor-panic", 1),
            Err(_) => r.add("outcome: panic", 1),
        }
        if res.is_err() && !fired {
            break;
        }
    }
    r
}

/// `["definitions", unit, how often, tail, panic]`.
fn run_lex(j: &J, l: &J) -> Option<Out> {
    let a = l.a().filter(|a| a.len() == 5)?;
    let s = lexw::set_from(&a[0])?;
    let (unit, n, tail) = (a[1].s()?, a[2].us()?, a[3].s()?);
    if unit.len().saturating_mul(n) + tail.len() > 4 * TOKENS {
        return None;
    }
    let text = unit.repeat(n) + tail;
    let panic = a[4].n()? != 0;
    let mut env = env_from(j, 20 * lexw::WORK)?;
    env.stack = STACK;
    env.reuse = true;
    let mut o = exec(&env, || match j.get("copy").and_then(J::n) {
        Some(0) => lex::<kinds::T>(&s, &text, panic),
        _ => lex::<kinds::K>(&s, &text, panic),
    });
    o.add("fault:small-stack", 1);
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

fn gen_lex(rng: &mut Rng) -> J {
    let (s, unit, n, tail) = lexw::gen_long(rng);
    J::A(vec![lexw::set_json(&s), J::S(unit), J::num(n), J::S(tail), J::num(rng.chance(25) as u8)])
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    if let Some(l) = j.get("lex") {
        return run_lex(j, l);
    }
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() {
        return None;
    }
    let plan = parw::steps_from(j.get("plan")?, &g)?;
    let ins = j.get("inputs")?.a()?.iter().map(|p| Pump::from(p, TOKENS)).collect::<Option<Vec<_>>>()?;
    let style = j.get("style")?.us().filter(|s| *s < 3)?;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let mut env = env_from(j, parw::work(j))?;
    env.stack = STACK;
    let copy = j.get("copy")?.n()? != 0;
    let mut o = exec(&env, || {
        if copy {
            go::<kinds::K>(&g, &plan, style, hm, &ins, None)
        } else {
            go::<kinds::T>(&g, &plan, style, hm, &ins, None)
        }
    });
    o.add("fault:small-stack", 1);
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

/// Judges the verdict on very long sequences (C08).
pub fn run_huge(j: &J) -> Option<Out> {
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() || gram::verdict(&g) != gram::Verdict::Accept {
        return None;
    }
    let n = g.norm();
    n.slr()?.ok()?;
    let plan = parw::steps_from(j.get("plan")?, &g)?;
    let ins = j.get("huge")?.a()?.iter().map(|p| Pump::from(p, HUGE)).collect::<Option<Vec<_>>>()?;
    let want: Vec<bool> = ins
        .iter()
        .map(|p| {
            let w: Vec<u8> = p.code().chars().filter_map(kinds::kind_of).collect();
            p.panic == 0 && n.table_run(&w).0
        })
        .collect();
    if ins.iter().any(|p| p.panic > 0) {
        return None;
    }
    let style = j.get("style")?.us().filter(|s| *s < 3)?;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let mut env = env_from(j, 10 * parw::work(j))?;
    env.reuse = true;
    let copy = j.get("copy")?.n()? != 0;
    let mut o = exec(&env, || match copy {
        true => go::<kinds::K>(&g, &plan, style, hm, &ins, Some(&want)),
        false => go::<kinds::T>(&g, &plan, style, hm, &ins, Some(&want)),
    });
    o.add("very long sequences", ins.len() as u64);
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

/// A walk from a variable back to itself: what stands left and right of it.
fn walk(rng: &mut Rng, n: &Gram, from: u8, to: u8, least: &[Option<Vec<u8>>]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut l, mut r) = (vec![], vec![]);
    let mut at = from;
    for step in 0..8 {
        if at == to && step > 0 {
            return Some((l, r));
        }
        let bodies: Vec<&Vec<S>> = n
            .rules
            .iter()
            .filter(|x| x.0 == at && x.1.iter().any(|s| matches!(s, S::N(_))))
            .map(|x| &x.1)
            .collect();
        if bodies.is_empty() {
            return None;
        }
        let b = *rng.pick(&bodies);
        let vars: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i], S::N(_))).collect();
        let k = *rng.pick(&vars);
        let word = |b: &[S]| {
            let mut w = vec![];
            for s in b {
                match s {
                    S::T(t) => w.push(*t),
                    S::N(v) => w.extend(least[*v as usize].as_ref()?),
                    S::E => {}
                }
            }
            Some(w)
        };
        l.extend(word(&b[..k])?);
        let mut right = word(&b[k + 1..])?;
        right.extend(r);
        r = right;
        let S::N(v) = b[k] else { unreachable!() };
        at = v;
    }
    None
}

/// A short word per variable of a normalised grammar.
fn least(n: &Gram) -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Option<Vec<u8>>> = vec![None; 128];
    loop {
        let mut changed = false;
        for (h, b) in &n.rules {
            let w = b.iter().try_fold(vec![], |mut w, s| {
                match s {
                    S::T(t) => w.push(*t),
                    S::N(x) => w.extend(v[*x as usize].as_ref()?),
                    S::E => {}
                }
                Some(w)
            });
            if let Some(w) = w {
                let old = &mut v[*h as usize];
                if old.as_ref().map_or(true, |o| w.len() < o.len()) {
                    *old = Some(w);
                    changed = true;
                }
            }
        }
        if !changed {
            return v;
        }
    }
}

/// Words `x u w v z` such that `x u^n w v^n z` is a sentence for every n, for a
/// normalised grammar of useful symbols.
pub fn split(rng: &mut Rng, n: &Gram) -> Option<[Vec<u8>; 5]> {
    let least = least(n);
    for _ in 0..60 {
        let h = n.rules.get(rng.below(n.rules.len().max(1)))?.0;
        let Some((u, v)) = walk(rng, n, h, h, &least) else { continue };
        let out = if h == n.start { Some((vec![], vec![])) } else { walk(rng, n, n.start, h, &least) };
        let (Some((x, z)), Some(w)) = (out, &least[h as usize]) else { continue };
        if !u.is_empty() || !v.is_empty() {
            return Some([x, u, w.clone(), v, z]);
        }
    }
    None
}

fn pump(rng: &mut Rng, n: &Gram, faults: &mut Vec<J>, huge: bool) -> Option<J> {
    for _ in 0..20 {
        let parts = split(rng, n)?;
        let rest: usize = [0, 2, 4].iter().map(|k| parts[*k].len()).sum();
        let per = parts[1].len() + parts[3].len();
        let most = if huge { HUGE } else { TOKENS }.saturating_sub(rest) / per;
        if most < 4500 {
            continue;
        }
        let c = if huge { rng.range(65_540 / per + 1, most) } else { rng.range(4000, most.min(8000)) };
        let total = rest + per * c;
        let mut cut = total;
        if rng.chance(25) {
            cut = rng.range(total / 2, total);
            faults.push(J::str("text-cut"));
        }
        let panic = if !huge && rng.chance(20) { rng.range(total / 2, total) } else { 0 };
        let mut a: Vec<J> = parts.iter().map(|s| J::S(parw::code(s))).collect();
        a.extend([J::num(c), J::num(cut), J::num(panic)]);
        return Some(J::A(a));
    }
    None
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    if rng.chance(20) {
        let l = gen_lex(rng);
        let (keys, gaps) = env_json(rng);
        return J::obj([
            ("keys", keys),
            ("gaps", gaps),
            ("copy", J::num(rng.chance(50) as u8)),
            ("lex", l),
            ("faults", J::A(vec![])),
        ]);
    }
    gen_pumped(rng, "inputs")
}

/// A case whose very long inputs are in `huge`, or whose long ones are in `inputs`.
pub fn gen_pumped(rng: &mut Rng, what: &str) -> J {
    let mut faults = vec![];
    let (mut g, mut inputs) = (gram::gen_slr(rng), vec![]);
    for _ in 0..20 {
        let n = g.norm().reduce();
        if !n.rules.is_empty() {
            for _ in 0..if what == "huge" { 1 } else { rng.range(1, 2) } {
                inputs.extend(pump(rng, &n, &mut faults, what == "huge"));
            }
        }
        if !inputs.is_empty() {
            break;
        }
        g = gram::gen_slr(rng);
    }
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("hm", J::num([0, 0, 0, 0, 1][rng.below(5)])),
        ("gram", g.to_json()),
        ("plan", parw::gen_plan(rng, &g)),
        ("style", J::num([0, 1, 2, 2][rng.below(4)])),
        (what, J::A(inputs)),
        ("faults", J::A(faults)),
    ])
}
