//! Memory over long use (C24): the same round of uses, repeated, must not hold
//! more and more memory.

use crate::cross::{spec_from, Spec};
use crate::gram;
use crate::json::J;
use crate::kinds::{self, Def, Lx, Term, V};
use crate::lexw::{self, env_from, env_json};
use crate::out::{exec, Out, R};
use crate::parw::{self, Text};
use crate::rng::Rng;
use crate::rt;
use pango_parser::Slr;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Longest text of one lexer.
const LONGEST: usize = 1500;
/// Work of a whole run, and of one round.
const WORK: u64 = 150_000_000;
const ROUND: u64 = 200_000;
const ROUNDS: usize = 64;
/// Bytes a lexer may hold per character of its text.
const PER_CHAR: u64 = 400;

#[derive(Clone, Debug)]
enum Act {
    Use(usize),
    /// Panic at the n-th call of some kind of caller code.
    Fault(usize, u64, u32),
    Drop(usize),
}

fn masks(k: usize) -> Option<u32> {
    [rt::MASK_CTOR, rt::MASK_CMP, rt::MASK_CLONE, rt::MASK_CTOR | rt::MASK_CMP].get(k).copied()
}

fn acts_from(j: &J, n: usize) -> Option<Vec<Act>> {
    j.a()?
        .iter()
        .map(|o| {
            let o = o.a()?;
            let a = o.get(1)?.us().filter(|a| *a < n)?;
            Some(match (o[0].s()?, o.len()) {
                ("u", 2) => Act::Use(a),
                ("x", 2) => Act::Drop(a),
                ("f", 4) => Act::Fault(a, o[2].us()? as u64 + 1, masks(o[3].us()?)?),
                _ => return None,
            })
        })
        .collect()
}

enum Live<X: Term> {
    None,
    Lex(Box<Lx<X>>),
    Par(Box<Slr<V, X>>, usize),
}

struct Actor<'a, X: Term> {
    spec: &'a Spec,
    ds: Vec<Def>,
    texts: Vec<(Text, usize)>,
    live: Live<X>,
}

impl<'a, X: Term> Actor<'a, X> {
    fn new(spec: &'a Spec) -> Self {
        let (ds, texts) = match spec {
            Spec::Lex(set, t) => {
                (lexw::defs_of(set), vec![(Text { text: kinds::leak(t), toks: vec![], clean: true }, 0)])
            }
            Spec::Par(g, _, style, inputs) => (
                parw::defs(parw::kinds_used(g, inputs), *style),
                inputs.iter().map(|i| (parw::compose(&i.code, *style), i.pre)).collect(),
            ),
        };
        Actor { spec, ds, texts, live: Live::None }
    }
    fn step(&mut self) {
        match (&mut self.live, self.spec) {
            (Live::None, Spec::Lex(..)) => {
                if let Some(l) = parw::lexer::<X>(&self.ds, self.texts[0].0.text) {
                    self.live = Live::Lex(Box::new(l));
                }
            }
            (Live::None, Spec::Par(g, plan, ..)) => {
                if let Ok(p) = parw::build::<X>(g, plan, false) {
                    self.live = Live::Par(p, 0);
                }
            }
            (Live::Lex(l), _) => {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(l.next())));
            }
            (Live::Par(p, k), _) => {
                let (t, pre) = &self.texts[*k % self.texts.len()];
                let _ = parw::parse::<X>(p, &self.ds, t, *pre);
                *k += 1;
            }
        }
        kinds::take_calls();
    }
}

/// Whether the amounts held at 1/8, 1/4, 1/2 and all of the time only ever grow,
/// by at least `least` altogether.
fn grows(at: [u64; 4], least: u64) -> bool {
    at.windows(2).all(|w| w[0] < w[1]) && at[3] - at[0] >= least
}

fn rounds<X: Term>(specs: &[Spec], acts: &[Act], keep: bool, hm: u8) -> R {
    kinds::HASH_MODE.set(hm);
    let mut r = R::default();
    let mut actors: Vec<Actor<X>> = specs.iter().map(Actor::new).collect();
    let mut held: Vec<u64> = Vec::with_capacity(ROUNDS);
    let mut panics = 0;
    let mut dropped = 0;
    let mut n = ROUNDS;
    while held.len() < n {
        let before = rt::work();
        for act in acts {
            match act {
                Act::Use(a) => actors[*a].step(),
                Act::Fault(a, k, mask) => {
                    rt::arm(*mask, *k);
                    actors[*a].step();
                    panics += rt::disarm() as u64;
                }
                Act::Drop(a) => {
                    actors[*a].live = Live::None;
                    dropped += 1;
                }
            }
        }
        for a in &mut actors {
            if !keep || matches!(a.live, Live::Lex(_)) {
                a.live = Live::None;
            }
        }
        if held.is_empty() {
            let w = rt::work() - before;
            if w > ROUND {
                r.add("skipped: round too long", 1);
                return r;
            }
            if w > ROUND / 4 {
                n = ROUNDS / 2;
            }
        }
        held.push(rt::held());
    }
    r.add("fault:panic-in-caller-code", panics);
    r.add("fault:abandoned", dropped);
    r.add("rounds of use", n as u64);
    r.nontrivial = true;
    let at = [n / 8, n / 4, n / 2, n].map(|k| held[k - 1]);
    if grows(at, (n - n / 8) as u64 * 8) {
        r.fail(format!(
            "accumulates: {} bytes held after {} rounds of the same uses, {} after {}, {} after {}, {} after {}",
            at[0],
            n / 8,
            at[1],
            n / 4,
            at[2],
            n / 2,
            at[3],
            n
        ));
    }
    r
}

fn stream<X: Term>(set: &lexw::DefSet, unit: &str, n: usize, panics: &[u64]) -> R {
    let mut r = R::default();
    let text = kinds::leak(&unit.repeat(n));
    let ds = lexw::defs_of(set);
    let mut held: Vec<u64> = Vec::with_capacity(2 * LONGEST + 8);
    let Some(mut l) = parw::lexer::<X>(&ds, text) else { return r };
    let mut hit = 0;
    for k in 0..held.capacity() as u64 {
        if panics.contains(&(k % 16)) {
            rt::arm(rt::MASK_CTOR, 1);
        }
        let more = !matches!(catch_unwind(AssertUnwindSafe(|| l.next().is_some())), Ok(false));
        hit += rt::disarm() as u64;
        kinds::take_calls();
        if !more {
            break;
        }
        held.push(rt::held());
    }
    let n = held.len();
    r.add("fault:panic-in-caller-code", hit);
    r.add("tokens of one lexer", n as u64);
    if n < 64 {
        return r;
    }
    r.nontrivial = true;
    // as much as a lexer that remembers all characters and tokens may need; what
    // it learns while it reads the first repetitions does not count
    let chars = text.chars().count() as u64;
    let at = [n / 4, n / 2, n].map(|k| held[k - 1]);
    if at[1] > at[0] + PER_CHAR * (chars / 4 + 32) && at[2] > at[1] + PER_CHAR * (chars / 2 + 64) {
        r.fail(format!(
            "accumulates: a lexer holds {} bytes after {} tokens of a text of {chars} characters, {} after {}, {} after {n}",
            at[0],
            n / 4,
            at[1],
            n / 2,
            at[2]
        ));
    }
    r
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    let env = env_from(j, WORK)?;
    let copy = j.get("copy")?.n()? != 0;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let mut o = if let Some(set) = j.get("set") {
        let set = lexw::set_from(set)?;
        let unit = j.get("unit")?.s()?;
        let n = j.get("times")?.us()?;
        if unit.is_empty() || unit.chars().count() * n > LONGEST {
            return None;
        }
        let panics: Vec<u64> = j.get("panics")?.a()?.iter().filter_map(|p| p.us().map(|p| p as u64)).collect();
        exec(&env, || match copy {
            true => stream::<kinds::K>(&set, unit, n, &panics),
            false => stream::<kinds::T>(&set, unit, n, &panics),
        })
    } else {
        let actors = j.get("actors")?.a()?;
        let specs = actors.iter().map(spec_from).collect::<Option<Vec<_>>>()?;
        let acts = acts_from(j.get("ops")?, specs.len())?;
        let keep = j.get("keep")?.n()? != 0;
        exec(&env, || match copy {
            true => rounds::<kinds::K>(&specs, &acts, keep, hm),
            false => rounds::<kinds::T>(&specs, &acts, keep, hm),
        })
    };
    if o.class() == Some("stuck") {
        // other properties judge the amount of work
        o.viol = None;
        o.add("skipped: too much work", 1);
    }
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let (keys, gaps) = env_json(rng);
    let mut j = J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
    ]);
    if rng.chance(25) {
        let (s, al) = lexw::gen_set(rng);
        let mut unit = lexw::gen_text(rng, &s, &al, 20, &mut faults);
        if unit.is_empty() {
            unit.push('a');
        }
        let most = LONGEST / unit.chars().count();
        j.set("set", lexw::set_json(&s));
        j.set("times", J::num(rng.range(most / 4, most)));
        j.set("unit", J::S(unit));
        let k = [0, 0, 1, 3][rng.below(4)];
        j.set("panics", J::A((0..k).map(|_| J::num(rng.below(16))).collect()));
    } else {
        let mut actors = vec![];
        for _ in 0..[1, 1, 2][rng.below(3)] {
            let a = if rng.chance(40) {
                let (s, al) = lexw::gen_set(rng);
                let t = lexw::gen_text(rng, &s, &al, 20, &mut faults);
                J::obj([("set", lexw::set_json(&s)), ("text", J::S(t))])
            } else {
                // some are refused every time
                let g = if rng.chance(20) { gram::gen_gram(rng) } else { gram::gen_slr(rng) };
                let n = g.norm();
                let inputs = (0..rng.range(1, 3))
                    .map(|_| parw::gen_input("C24", rng, &n, g.nt(), &mut faults))
                    .collect();
                J::obj([
                    ("plan", parw::gen_plan(rng, &g)),
                    ("gram", g.to_json()),
                    ("style", J::num(rng.below(3))),
                    ("inputs", J::A(inputs)),
                ])
            };
            actors.push(a);
        }
        let mut ops = vec![];
        for _ in 0..rng.range(2, 8) {
            let a = J::num(rng.below(actors.len()));
            ops.push(J::A(match rng.below(10) {
                0 => vec![J::str("x"), a],
                1..=3 => {
                    let at = if rng.chance(50) { rng.below(4) } else { rng.below(300) };
                    vec![J::str("f"), a, J::num(at), J::num(rng.below(4))]
                }
                _ => vec![J::str("u"), a],
            }));
        }
        j.set("actors", J::A(actors));
        j.set("keep", J::num(rng.chance(60) as u8));
        j.set("ops", J::A(ops));
    }
    j.set("faults", J::A(faults));
    j
}
