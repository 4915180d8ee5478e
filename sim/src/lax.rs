//! Caller code without manners (C20): comparisons and hashes that answer
//! wrongly now and then, panics in comparing, hashing, cloning, dropping,
//! printing, constructing and supplying. Wrong results, panics and endless work
//! are the caller's own fault; touching memory that is gone never is.

use crate::gram;
use crate::json::J;
use crate::kinds::{self, Def, Term, V};
use crate::out::{exec, Out, R};
use crate::parw::{self, Case, Text};
use crate::rng::Rng;
use crate::rt;
use pango_parser::{Cfsm, Grammar, Slr};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

const WORK: u64 = 400_000;

struct World<'a, X: Term> {
    c: &'a Case,
    ds: Vec<Def>,
    texts: Vec<Text>,
    gs: Vec<Grammar<V, X>>,
    ps: Vec<Box<Slr<V, X>>>,
    ms: Vec<Pin<Box<Cfsm<V, X>>>>,
    trees: Vec<Box<dyn std::fmt::Debug>>,
}

fn nth<T>(v: &[T], k: usize) -> Option<&T> {
    (!v.is_empty()).then(|| &v[k % v.len()])
}

fn take<T>(v: &mut Vec<T>, k: usize) -> Option<T> {
    (!v.is_empty()).then(|| v.swap_remove(k % v.len()))
}

fn act<X: Term>(w: &mut World<X>, name: &str, k: usize, i: usize) -> Option<()> {
    match name {
        "grammar" => w.gs.push(parw::declare::<X>(&w.c.g, &w.c.plan, false)),
        "clone" => {
            let g = nth(&w.gs, k)?.clone();
            w.gs.push(g);
        }
        "clone-machine" => {
            let g = nth(&w.ms, k)?.as_ref().get_grammar().clone();
            w.gs.push(g);
        }
        "parser" => {
            let g = take(&mut w.gs, k)?;
            w.ps.push(Box::new(Slr::new(g)));
        }
        "machine" => {
            let g = take(&mut w.gs, k)?;
            w.ms.push(Cfsm::from_grammar(g));
        }
        "move" => {
            let p = take(&mut w.ps, k)?;
            w.ps.push(Box::new(*p));
        }
        "print" => drop(format!("{:?}", nth(&w.ps, k)?)),
        "diagram" if i % 2 == 0 => drop(nth(&w.ms, k)?.to_dot()),
        "diagram" => drop(format!("{:?}", nth(&w.ms, k)?)),
        "parse" => {
            let t = nth(&w.texts, i)?;
            let p = nth(&w.ps, k)?;
            let lx = X::lexer(&w.ds, t.text).ok()?;
            if let Ok(t) = p.parse(lx) {
                w.trees.push(Box::new(t));
            }
        }
        "tree" => drop(format!("{:?}", nth(&w.trees, k)?)),
        "drop" => match i % 4 {
            0 => drop(take(&mut w.gs, k)?),
            1 => drop(take(&mut w.ps, k)?),
            2 => drop(take(&mut w.ms, k)?),
            _ => drop(take(&mut w.trees, k)?),
        },
        _ => {}
    }
    Some(())
}

fn all<X: Term>(c: &Case, lie: u64, rate: u32) -> R {
    kinds::HASH_MODE.set(c.hm);
    kinds::VALS.set(c.vals);
    let mut r = R::default();
    let texts: Vec<Text> = c.inputs.iter().map(|i| parw::compose(&i.code, c.style)).collect();
    let mut w = World::<X> {
        c,
        ds: parw::defs(c.nt(), c.style),
        texts,
        gs: vec![],
        ps: vec![],
        ms: vec![],
        trees: vec![],
    };
    for op in &c.ops {
        if rt::VIOL.with(|v| v.borrow().is_some()) {
            break;
        }
        let num = |k: usize| op.get(k).and_then(|x| x.us()).unwrap_or(0);
        let name = op.first().and_then(|o| o.s()).unwrap_or("");
        if num(3) > 0 {
            rt::arm(num(4) as u32, num(3) as u64);
        }
        if num(5) > 0 {
            kinds::lie(lie ^ num(5) as u64, rate);
        }
        let k = catch_unwind(AssertUnwindSafe(|| act(&mut w, name, num(1), num(2))));
        kinds::lie(0, 0);
        r.add("fault:panic-in-caller-code", rt::disarm() as u64);
        r.add("fault:lying-comparisons", (num(5) > 0) as u64);
        match k {
            Ok(Some(())) => r.add("operations", 1),
            Ok(None) => {}
            Err(_) => r.add("operations that panicked", 1),
        }
        r.nontrivial |= num(5) > 0 && k.is_ok_and(|k| k.is_some());
    }
    r.nontrivial |= r.cnt.contains_key("fault:panic-in-caller-code");
    drop(w);
    kinds::take_calls();
    r
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    let mut c = parw::decode(j)?;
    c.env.work = WORK;
    let lie = j.get("lie")?.n()? as u64;
    let rate = u32::try_from(j.get("rate")?.n()?).ok().filter(|r| *r <= 1000)?;
    let mut o = exec(&c.env, || {
        if c.copy {
            all::<kinds::K>(&c, lie, rate)
        } else {
            all::<kinds::T>(&c, lie, rate)
        }
    });
    let over = o.viol.as_deref().is_some_and(|v| v.starts_with("stuck") || v.ends_with("signal 6"));
    if over {
        o.viol = None;
        o.add("ran without end", 1);
    }
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let g = if rng.chance(80) { gram::gen_slr(rng) } else { gram::gen_gram(rng) };
    let n = g.norm().reduce();
    let inputs = (0..rng.range(1, 3))
        .map(|_| parw::gen_input("C12", rng, &n, g.nt(), &mut faults))
        .collect();
    let mut ops = vec![];
    let mut op = |rng: &mut Rng, s: &str, tame: bool| {
        let (mut at, mut mask, mut lie) = (0, 0, 0);
        if !tame && rng.chance(30) {
            at = if rng.chance(50) { rng.range(1, 12) } else { rng.range(1, 400) };
            mask = match s {
                "drop" => rt::MASK_DROP,
                "clone" | "clone-machine" => [rt::MASK_CLONE, rt::MASK_CMP, rt::MASK_CLONE | rt::MASK_CMP][rng.below(3)],
                "print" | "diagram" | "tree" => rt::MASK_DEBUG,
                "parse" => [rt::MASK_DROP, rt::MASK_CTOR, rt::MASK_CMP, 0x7ff][rng.below(4)],
                _ => [rt::MASK_CMP, rt::MASK_DROP, 0x7ff][rng.below(3)],
            };
        }
        if !tame && rng.chance(40) {
            lie = rng.range(1, 1000);
        }
        ops.push(J::A(vec![
            J::str(s),
            J::num(rng.below(4)),
            J::num(rng.below(4)),
            J::num(at),
            J::num(mask),
            J::num(lie),
        ]));
    };
    op(rng, "grammar", true);
    let tame = rng.chance(60);
    let first = if rng.chance(75) { "parser" } else { "machine" };
    op(rng, first, tame);
    for _ in 0..rng.range(4, 20) {
        let s = [
            "grammar", "grammar", "clone", "clone-machine", "parser", "machine", "move", "print", "diagram", "parse",
            "parse", "parse", "parse", "tree", "drop", "drop",
        ][rng.below(16)];
        op(rng, s, false);
    }
    let style = [0, 0, 0, 1, 2][rng.below(5)];
    let mut j = parw::case_json(rng, &g, false, style, inputs, ops, faults);
    j.set("lie", J::num(rng.below(1 << 30)));
    j.set("rate", J::num([2, 10, 50, 200, 500][rng.below(5)]));
    if rng.chance(70) {
        j.set("copy", J::num(0));
    }
    j
}
