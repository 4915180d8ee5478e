//! Declaring a grammar while caller code misbehaves (C19): rules are supplied by
//! iterators and conversions, compared and hashed by caller code, any of which
//! can panic in the middle of a declaration.

use crate::gram::{self, Gram};
use crate::json::J;
use crate::kinds::{self, Term, V};
use crate::lexw::{env_from, env_json};
use crate::out::{exec, Out, R};
use crate::parw;
use crate::rng::Rng;
use crate::rt::{self, Env, Site};
use crate::tree;
use pango_parser::{Cfsm, Grammar, Symbol};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Undecided rules a case may end with; each doubles the grammars allowed.
const OPEN: usize = 4;

/// A body that is only converted when the library asks for it.
struct Late<X>(Vec<Symbol<V, X>>);

impl<X> From<Late<X>> for Vec<Symbol<V, X>> {
    fn from(l: Late<X>) -> Self {
        rt::tick(Site::Supply, 1);
        l.0
    }
}

struct Supply<'a> {
    g: &'a Gram,
    left: &'a [usize],
}

impl Supply<'_> {
    fn pull<X: Term>(&mut self) -> Option<Late<X>> {
        rt::tick(Site::Supply, 2);
        let (i, rest) = self.left.split_first()?;
        self.left = rest;
        Some(Late(parw::body::<X>(&self.g.rules[*i].1)))
    }
}

#[derive(Clone, Debug)]
enum Op {
    Start(u8),
    /// Rule, call at which a panic is injected (0 = none).
    Add(usize, u64),
    With(usize, u64),
    AddMany(Vec<usize>, u64),
    WithMany(Vec<usize>, u64),
    Move,
}

fn ops_from(j: &J, g: &Gram) -> Option<Vec<Op>> {
    let idx = |x: &J| x.us().filter(|i| *i < g.rules.len());
    let many = |x: &J| {
        let v = x.a()?.iter().map(idx).collect::<Option<Vec<_>>>()?;
        let h = v.first().map(|i| g.rules[*i].0)?;
        v.iter().all(|i| g.rules[*i].0 == h).then_some(v)
    };
    j.a()?
        .iter()
        .map(|o| {
            let o = o.a()?;
            let at = |k: usize| o.get(k).and_then(|x| x.us()).map(|x| x as u64);
            Some(match o.first()?.s()? {
                "start" => Op::Start(u8::try_from(o.get(1)?.n()?).ok().filter(|v| *v < kinds::MAX_V)?),
                "add" => Op::Add(idx(o.get(1)?)?, at(2)?),
                "with" => Op::With(idx(o.get(1)?)?, at(2)?),
                "adds" => Op::AddMany(many(o.get(1)?)?, at(2)?),
                "withs" => Op::WithMany(many(o.get(1)?)?, at(2)?),
                "move" => Op::Move,
                _ => return None,
            })
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Has {
    No,
    Yes,
    Maybe,
}

fn declare<X: Term>(g: &Gram, ops: &[Op], hm: u8) -> R {
    kinds::HASH_MODE.set(hm);
    let mut r = R::default();
    inner::<X>(g, ops, &mut r);
    let live = kinds::live_terminals();
    if live != 0 {
        r.fail(format!("leak: {live} terminals were never dropped"));
    }
    r
}

fn inner<X: Term>(g: &Gram, ops: &[Op], r: &mut R) {
    let mut b = Box::new(Grammar::<V, X>::builder());
    let mut has = vec![Has::No; g.rules.len()];
    let mut start = None;
    let mask = rt::MASK_CMP | rt::MASK_SUPPLY;
    let mut hit = 0;
    for op in ops {
        let (rules, at): (&[usize], u64) = match op {
            Op::Add(i, at) | Op::With(i, at) => (std::slice::from_ref(i), *at),
            Op::AddMany(v, at) | Op::WithMany(v, at) => (v, *at),
            _ => (&[], 0),
        };
        let late = |i: usize| (V(g.rules[i].0), Late(parw::body::<X>(&g.rules[i].1)));
        if at > 0 {
            rt::arm(mask, at);
        }
        let mut new = None;
        let ok = match op {
            Op::Start(v) => {
                b.set_start_variable(V(*v));
                start = Some(*v);
                true
            }
            Op::Move => {
                b = Box::new(*b);
                r.add("fault:relocated", 1);
                true
            }
            Op::Add(i, _) => {
                let (v, l) = late(*i);
                let k = catch_unwind(AssertUnwindSafe(|| b.add_rule(v, l)));
                new = k.as_ref().ok().copied();
                k.is_ok()
            }
            Op::AddMany(v, _) => {
                let mut s = Supply { g, left: v };
                let h = V(g.rules[v[0]].0);
                let it = std::iter::from_fn(move || s.pull::<X>());
                catch_unwind(AssertUnwindSafe(|| b.add_rules(h, it))).is_ok()
            }
            Op::With(..) | Op::WithMany(..) => {
                let old = std::mem::replace(&mut b, Box::new(Grammar::<V, X>::builder()));
                let k = catch_unwind(AssertUnwindSafe(|| {
                    if let Op::With(i, _) = op {
                        let (v, l) = late(*i);
                        old.with_rule(v, l)
                    } else {
                        let mut s = Supply { g, left: rules };
                        old.with_rules(V(g.rules[rules[0]].0), std::iter::from_fn(move || s.pull::<X>()))
                    }
                }));
                match k {
                    Ok(k) => {
                        b = Box::new(k);
                        true
                    }
                    Err(_) => {
                        // the builder went with the panic; a new one was put in its place
                        has.fill(Has::No);
                        start = None;
                        false
                    }
                }
            }
        };
        let fired = rt::disarm();
        if fired {
            hit += 1;
            r.add("fault:panic-in-caller-code", 1);
        }
        if !ok && !fired {
            r.fail(format!("panic: {op:?} panicked: {}", rt::last_panic()));
            return;
        }
        if let Some(new) = new {
            let was = has[rules[0]];
            if (was == Has::Yes && new) || (was == Has::No && !new) {
                r.fail(format!(
                    "untruthful: adding a rule that was {} says {new}",
                    if new { "already there" } else { "not there yet" }
                ));
                return;
            }
        }
        let gone = matches!(op, Op::With(..) | Op::WithMany(..)) && !ok;
        for i in rules {
            if ok {
                has[*i] = Has::Yes;
            } else if !gone && has[*i] == Has::No {
                has[*i] = Has::Maybe;
            }
        }
        r.add("declarations", 1);
    }
    let open: Vec<usize> = (0..has.len()).filter(|i| has[*i] == Has::Maybe).collect();
    if open.len() > OPEN {
        r.add("skipped: too many undecided rules", 1);
        return;
    }
    let built = catch_unwind(AssertUnwindSafe(|| b.build()));
    let refused = built.is_err();
    let why = rt::last_panic();
    let dot = match built {
        Err(_) => None,
        Ok(m) => match catch_unwind(AssertUnwindSafe(|| Cfsm::from_grammar(m).to_dot())) {
            Ok(d) => match tree::read_dot(&d) {
                Some(d) => Some(d),
                None => {
                    r.fail(format!("unreadable: the diagram does not show states of items with one position each: {d:?}"));
                    return;
                }
            },
            Err(_) => {
                r.fail(format!("panic: the state machine of a finished grammar panicked: {}", rt::last_panic()));
                return;
            }
        },
    };
    r.nontrivial = hit > 0;
    r.add(if refused { "refused" } else { "accepted" }, 1);
    r.add("undecided rules", open.len() as u64);
    let mut last = String::new();
    for pick in 0..1usize << open.len() {
        let rules = (0..has.len())
            .filter(|i| has[*i] == Has::Yes || open.iter().position(|o| o == i).is_some_and(|k| pick >> k & 1 == 1))
            .map(|i| g.rules[i].clone())
            .collect();
        let h = Gram { start: start.unwrap_or(0), rules };
        let whole = start.is_some() && h.complete();
        match &dot {
            None if !whole => return,
            None => last = format!("refused: a complete grammar was refused: {why}"),
            Some(_) if !whole => last = "accepted: an incomplete grammar was accepted".into(),
            Some(d) => match tree::check_dot(d, &h.norm()) {
                Ok(_) => return,
                Err(e) => last = e,
            },
        }
    }
    r.fail(format!("{last}{}", if hit > 0 { " (after a panic in caller code)" } else { "" }));
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() {
        return None;
    }
    let ops = ops_from(j.get("ops")?, &g)?;
    let env: Env = env_from(j, parw::work(j))?;
    let copy = j.get("copy")?.n()? != 0;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let mut o = exec(&env, || {
        if copy {
            declare::<kinds::K>(&g, &ops, hm)
        } else {
            declare::<kinds::T>(&g, &ops, hm)
        }
    });
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    let g = if rng.chance(60) { gram::gen_slr(rng) } else { gram::gen_gram(rng) };
    let n = g.rules.len();
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let mut ops: Vec<J> = vec![];
    let mut open = 0;
    let mut k = 0;
    let one = |s: &str, i: usize, at: usize| J::A(vec![J::str(s), J::num(i), J::num(at)]);
    while k < n {
        let i = order[k];
        let mut m = vec![i];
        for j in 0..n {
            if j != i && g.rules[j].0 == g.rules[i].0 && rng.chance(40) {
                m.push(j);
            }
        }
        let group = rng.chance(40);
        let fault = rng.chance(25);
        let at = if !fault {
            0
        } else if rng.chance(70) {
            rng.range(1, 4)
        } else {
            rng.range(1, 30)
        };
        // a panic in a consuming call costs the builder: only early
        let keep = rng.chance(70) || (fault && (k > 2 || rng.chance(70)));
        let name = match (group, keep) {
            (false, true) => "add",
            (false, false) => "with",
            (true, true) => "adds",
            (true, false) => "withs",
        };
        if group {
            ops.push(J::A(vec![
                J::str(name),
                J::A(m.iter().map(|x| J::num(*x)).collect()),
                J::num(at),
            ]));
        } else {
            ops.push(one(name, i, at));
        }
        let cost = if group { m.len() } else { 1 };
        if fault && (open + cost > OPEN || rng.chance(50)) {
            // tried again
            for x in if group { &m[..] } else { &m[..1] } {
                ops.push(one("add", *x, 0));
            }
        } else if fault {
            open += cost;
        }
        if rng.chance(15) {
            let again = order[rng.range(0, k)];
            ops.push(one("add", again, if rng.chance(20) { rng.range(1, 3) } else { 0 }));
        }
        if rng.chance(8) {
            ops.push(J::A(vec![J::str("move")]));
        }
        if !rng.chance(4) {
            k += 1;
        }
    }
    if rng.chance(97) {
        let at = rng.range(ops.len() / 2, ops.len());
        ops.insert(at, J::A(vec![J::str("start"), J::num(g.start)]));
        if rng.chance(15) {
            let at = rng.range(0, at);
            let other = g.rules[rng.below(n)].0;
            ops.insert(at, J::A(vec![J::str("start"), J::num(other)]));
        }
    }
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(40) as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
        ("gram", g.to_json()),
        ("ops", J::A(ops)),
        ("faults", J::A(vec![])),
    ])
}
