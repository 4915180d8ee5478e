//! Simulated world of parsers: grammars declared in any order, parsers built
//! under chosen hash keys, fed from real lexers, with damaged inputs, panicking
//! caller code, nested parses, relocation and abandonment.

use crate::gram::{self, Gram, Verdict, S};
use crate::json::J;
use crate::kinds::{self, Decl, Def, Lx, Term, V};
use crate::lexw::{env_from, env_json};
use crate::out::{exec, Out, R};
use crate::rng::Rng;
use crate::rt::{self, Env};
use crate::tree;
use pango_parser::{Cfsm, Grammar, Slr, Symbol};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;

const WORK: u64 = 60_000_000;

/// Work allowed to one run of a case.
pub fn work(j: &J) -> u64 {
    WORK * (1 + j.print().len() as u64 / 500).min(10)
}

/// Longest token sequence, written out and pumped.
const LONGEST: usize = 500;
const PUMPED: usize = 6000;

/// One step of declaring a grammar.
#[derive(Clone, Debug)]
pub enum Step {
    Start(u8),
    With(usize),
    Add(usize),
    WithMany(Vec<usize>),
    AddMany(Vec<usize>),
    /// Adds no rules.
    None(u8),
}

pub fn steps_from(j: &J, g: &Gram) -> Option<Vec<Step>> {
    let idx = |x: &J| x.us().filter(|i| *i < g.rules.len());
    j.a()?
        .iter()
        .map(|s| {
            let s = s.a()?;
            let many = || {
                let v = s[1..].iter().map(idx).collect::<Option<Vec<_>>>()?;
                let h = g.rules[*v.first()?].0;
                v.iter().all(|i| g.rules[*i].0 == h).then_some(v)
            };
            Some(match (s.first()?.s()?, s.len()) {
                ("s", 2) => Step::Start(u8::try_from(s[1].n()?).ok().filter(|v| *v < kinds::MAX_V)?),
                ("w", 2) => Step::With(idx(&s[1])?),
                ("a", 2) => Step::Add(idx(&s[1])?),
                ("W", _) => Step::WithMany(many()?),
                ("A", _) => Step::AddMany(many()?),
                ("N", 2) => Step::None(u8::try_from(s[1].n()?).ok().filter(|v| *v < kinds::MAX_V)?),
                _ => return None,
            })
        })
        .collect()
}

pub fn body<X: Term>(b: &[S]) -> Vec<Symbol<V, X>> {
    let vals = kinds::VALS.get();
    b.iter()
        .enumerate()
        .map(|(i, s)| match s {
            S::T(t) => Symbol::Terminal(X::mk(*t, gram::value(vals, b, i) as u32)),
            S::N(n) => Symbol::Variable(V(*n)),
            S::E => Symbol::Epsilon,
        })
        .collect()
}

/// Declares the grammar by the given steps; whatever they leave out follows.
pub fn declare<X: Term>(g: &Gram, plan: &[Step], nostart: bool) -> Grammar<V, X> {
    let mut b = Grammar::<V, X>::builder();
    let mut done = vec![false; g.rules.len()];
    let mut start = None;
    for s in plan {
        match s {
            Step::Start(v) => {
                if !nostart {
                    b.set_start_variable(V(*v));
                    start = Some(*v);
                }
            }
            Step::With(i) => {
                b = b.with_rule(V(g.rules[*i].0), body::<X>(&g.rules[*i].1));
                done[*i] = true;
            }
            Step::Add(i) => {
                b.add_rule(V(g.rules[*i].0), body::<X>(&g.rules[*i].1));
                done[*i] = true;
            }
            Step::WithMany(v) => {
                b = b.with_rules(V(g.rules[v[0]].0), v.iter().map(|i| body::<X>(&g.rules[*i].1)));
                v.iter().for_each(|i| done[*i] = true);
            }
            Step::None(v) => b.add_rules(V(*v), std::iter::empty::<Vec<Symbol<V, X>>>()),
            Step::AddMany(v) => {
                b.add_rules(V(g.rules[v[0]].0), v.iter().map(|i| body::<X>(&g.rules[*i].1)));
                v.iter().for_each(|i| done[*i] = true);
            }
        }
    }
    for (i, d) in done.iter().enumerate() {
        if !d {
            b = b.with_rule(V(g.rules[i].0), body::<X>(&g.rules[i].1));
        }
    }
    if !nostart && start != Some(g.start) {
        b = b.with_start_variable(V(g.start));
    }
    b.build()
}

pub fn gen_plan(rng: &mut Rng, g: &Gram) -> J {
    let mut v: Vec<J> = vec![];
    let mut order: Vec<usize> = (0..g.rules.len()).collect();
    if rng.chance(80) {
        rng.shuffle(&mut order);
    }
    let mut k = 0;
    while k < order.len() {
        let i = order[k];
        k += 1;
        if rng.chance(40) {
            // this rule together with some others of its head
            let mut m = vec![i];
            for j in 0..g.rules.len() {
                if j != i && g.rules[j].0 == g.rules[i].0 && rng.chance(50) {
                    m.push(j);
                }
            }
            let mut s = vec![J::str(if rng.chance(50) { "W" } else { "A" })];
            s.extend(m.iter().map(|x| J::num(*x)));
            v.push(J::A(s));
        } else {
            v.push(J::A(vec![J::str(if rng.chance(50) { "w" } else { "a" }), J::num(i)]));
        }
        if rng.chance(10) {
            let again = order[rng.below(k)];
            v.push(J::A(vec![J::str("a"), J::num(again)]));
        }
    }
    if rng.chance(80) {
        let at = rng.range(0, v.len());
        v.insert(at, J::A(vec![J::str("s"), J::num(g.start)]));
        if rng.chance(15) {
            let at = rng.range(0, at);
            let other = g.rules[rng.below(g.rules.len())].0;
            v.insert(at, J::A(vec![J::str("s"), J::num(other)]));
        }
    }
    if rng.chance(5) {
        // no rules at all, of a variable that may have none
        let at = rng.range(0, v.len());
        let mut of = vec![kinds::MAX_V - 1];
        of.extend(g.rules.iter().map(|r| r.0));
        of.extend(g.rules.iter().flat_map(|r| &r.1).filter_map(|s| match s {
            S::N(n) => Some(*n),
            _ => None,
        }));
        v.insert(at, J::A(vec![J::str("N"), J::num(*rng.pick(&of))]));
    }
    J::A(v)
}

// ---------------------------------------------------------------- inputs

/// Characters no definition matches.
const FOREIGN: [char; 16] = [
    '!', '?', ' ', '\n', '\t', '\r', '\u{b}', '\0', '\u{7f}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{3000}', 'é',
    '\u{2603}', '\u{1f600}',
];

/// An input: letters are tokens of that kind, characters of `FOREIGN` stand for
/// themselves, `~` is a token cut off in the middle.
#[derive(Clone, Debug)]
pub struct Input {
    pub pre: usize,
    pub code: String,
}

pub struct Text {
    pub text: &'static str,
    /// Intended tokens up to the first unmatched place.
    pub toks: Vec<(u8, u32)>,
    pub clean: bool,
}

pub fn compose(code: &str, style: usize) -> Text {
    let mut t = String::new();
    let mut toks = vec![];
    let mut clean = true;
    for (i, c) in code.chars().enumerate() {
        match c {
            c if FOREIGN.contains(&c) => {
                t.push(c);
                clean = false;
            }
            '~' => {
                t.push_str(if style == 1 { "a7" } else { "~" });
                clean = false;
            }
            _ => {
                let k = kinds::kind_of(c).unwrap();
                let v = match style {
                    0 => {
                        t.push_str(&format!("{c}{}", i + 1));
                        i as u32 + 1
                    }
                    1 => {
                        t.push_str(&format!("{c}{};", i + 1));
                        kinds::text_val(&format!("{c}{};", i + 1))
                    }
                    _ => {
                        t.push(c);
                        0
                    }
                };
                if clean {
                    toks.push((k, v));
                }
            }
        }
    }
    Text { text: kinds::leak(&t), toks, clean }
}

pub fn defs(nt: usize, style: usize) -> Vec<Def> {
    (0..nt.clamp(1, kinds::MAX_T))
        .map(|k| {
            let c = kinds::letter(k as u8);
            Def {
                pattern: match style {
                    0 => format!("{c}\\d*"),
                    1 => format!("{c}\\d+;"),
                    _ => format!("{c}"),
                },
                decl: Decl::Map,
            }
        })
        .collect()
}

pub fn codes_from(j: &J) -> Option<Input> {
    let a = j.a()?;
    if !matches!(a.len(), 2 | 7) {
        return None;
    }
    let mut code = a[1].s()?.to_string();
    if a.len() == 7 {
        // x u^n w v^n z
        let n = a[6].us().filter(|n| *n <= PUMPED)?;
        let (u, w, v, z) = (a[2].s()?, a[3].s()?, a[4].s()?, a[5].s()?);
        if (u.len() + v.len()).saturating_mul(n) > 2 * PUMPED {
            return None;
        }
        code = format!("{code}{}{w}{}{z}", u.repeat(n), v.repeat(n));
    }
    let ok = code.chars().count() <= if a.len() == 7 { PUMPED + LONGEST } else { LONGEST }
        && code.chars().all(|c| FOREIGN.contains(&c) || c == '~' || kinds::kind_of(c).is_some());
    ok.then_some(Input { pre: a[0].us()?, code })
}

pub fn lexer<X: Term>(ds: &[Def], text: &'static str) -> Option<Lx<X>> {
    catch_unwind(AssertUnwindSafe(|| X::lexer(ds, text))).ok()?.ok()
}

/// Constructor calls made by the time each token is delivered; None if the
/// lexer does not deliver the intended tokens (another property's business).
pub fn twin<X: Term>(ds: &[Def], t: &Text) -> Option<Vec<usize>> {
    let outer = kinds::take_calls();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut lx = X::lexer(ds, t.text).ok()?;
        let mut at = vec![];
        for (k, v) in &t.toks {
            let tok = lx.next()?;
            if (tok.kind.kind(), tok.kind.val()) != (*k, *v) {
                return None;
            }
            at.push(kinds::CALLS.with(|c| c.borrow().len()));
        }
        if lx.next().is_some() {
            return None;
        }
        Some(at)
    }));
    kinds::put_calls(outer);
    r.ok().flatten()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(String),
    Err,
    Panic(String),
}

impl Res {
    pub fn show(&self) -> String {
        match self {
            Res::Ok(t) => format!("a tree {t}"),
            Res::Err => "an error".into(),
            Res::Panic(m) => format!("a panic ({m})"),
        }
    }
    /// Comparable form: a panic message says where, which is not behaviour.
    pub fn key(&self) -> String {
        match self {
            Res::Ok(t) => format!("ok {t}"),
            Res::Err => "err".into(),
            Res::Panic(_) => "panic".into(),
        }
    }
}

/// Parses `t` after `pre` pulls; None if there is no lexer to parse.
/// The second value is the number of constructor calls during the parse.
pub fn parse<X: Term>(p: &Slr<V, X>, ds: &[Def], t: &Text, pre: usize) -> Option<(Res, usize)> {
    let mut lx = lexer::<X>(ds, t.text)?;
    for _ in 0..pre {
        if catch_unwind(AssertUnwindSafe(|| lx.next())).is_err() {
            return None;
        }
    }
    let outer = kinds::take_calls();
    let r = catch_unwind(AssertUnwindSafe(|| p.parse(lx).map(|c| format!("{c:?}"))));
    let calls = kinds::take_calls().len();
    kinds::put_calls(outer);
    let r = match r {
        Ok(Ok(s)) => Res::Ok(s),
        Ok(Err(())) => Res::Err,
        Err(_) => Res::Panic(rt::last_panic()),
    };
    rt::note(match &r {
        Res::Ok(s) => s.len() as u64,
        Res::Err => 0xE1,
        Res::Panic(_) => 0xFA,
    });
    Some((r, calls))
}

/// Parses without looking at the tree; None if there is no lexer to parse.
pub fn parse_bare<X: Term>(p: &Slr<V, X>, ds: &[Def], t: &Text) -> Option<bool> {
    let lx = lexer::<X>(ds, t.text)?;
    Some(matches!(catch_unwind(AssertUnwindSafe(|| p.parse(lx).is_ok())), Ok(true)))
}

pub fn build<X: Term>(g: &Gram, plan: &[Step], nostart: bool) -> Result<Box<Slr<V, X>>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| Slr::new(declare::<X>(g, plan, nostart))));
    rt::note(r.is_ok() as u64);
    r.map(Box::new).map_err(|_| rt::last_panic())
}

// ---------------------------------------------------------------- case

pub struct Case {
    pub env: Env,
    pub copy: bool,
    pub hm: u8,
    pub g: Gram,
    pub vals: u64,
    pub nostart: bool,
    pub plan: Vec<Step>,
    pub style: usize,
    pub inputs: Vec<Input>,
    pub ops: Vec<Vec<J>>,
}

pub fn decode(j: &J) -> Option<Case> {
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() || g.rules.iter().any(|r| r.1.len() > 400) {
        return None;
    }
    let plan = steps_from(j.get("plan")?, &g)?;
    let inputs =
        j.get("inputs")?.a()?.iter().map(codes_from).collect::<Option<Vec<_>>>()?;
    let ops = j
        .get("ops")?
        .a()?
        .iter()
        .map(|o| o.a().map(|a| a.to_vec()))
        .collect::<Option<Vec<_>>>()?;
    let vals = match j.get("vals") {
        Some(v) => u64::try_from(v.n()?).ok().filter(|v| gram::values_clear(&g, *v)).unwrap_or(0),
        None => 0,
    };
    Some(Case {
        env: env_from(j, work(j))?,
        vals,
        copy: j.get("copy")?.n()? != 0,
        hm: u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?,
        nostart: j.get("nostart")?.n()? != 0,
        plan,
        style: j.get("style")?.us().filter(|s| *s < 3)?,
        inputs,
        ops,
        g,
    })
}

/// Token kinds a grammar and its inputs use.
pub fn kinds_used(g: &Gram, inputs: &[Input]) -> usize {
    let used = inputs
        .iter()
        .flat_map(|i| i.code.chars())
        .filter_map(|c| kinds::kind_of(c).map(|k| k as usize + 1))
        .max()
        .unwrap_or(1);
    used.max(g.nt()).max(1)
}

impl Case {
    pub fn nt(&self) -> usize {
        kinds_used(&self.g, &self.inputs)
    }
}

pub fn tally_faults(j: &J, o: &mut Out) -> Option<()> {
    o.add("fault:hash-keys-chosen", 1);
    if j.get("vals").and_then(|h| h.n()).unwrap_or(0) > 0 {
        o.add("fault:unequal-terminals-of-one-kind", 1);
    }
    if j.get("hm").and_then(|h| h.n()).unwrap_or(0) > 0 {
        o.add("fault:colliding-hashes", 1);
    }
    for f in j.get("faults").and_then(|f| f.a()).unwrap_or(&[]) {
        o.add(&format!("fault:{}", f.s()?), 1);
    }
    Some(())
}

fn kinds_of(t: &Text) -> Vec<u8> {
    t.toks.iter().map(|t| t.0).collect()
}

// ---------------------------------------------------------------- single runs

fn run_one<X: Term>(c: &Case, prop: &str) -> R {
    kinds::HASH_MODE.set(c.hm);
    kinds::VALS.set(c.vals);
    let mut r = R::default();
    if prop == "C07" {
        run_verdict::<X>(c, &mut r);
        return r;
    }
    if prop == "C13" {
        if gram::verdict(&c.g) != Verdict::Accept {
            kinds::VALS.set(0);
        }
        run_machine::<X>(c, &mut r);
        return r;
    }
    let g = c.g.norm();
    let p = match build::<X>(&c.g, &c.plan, false) {
        Ok(p) => p,
        Err(_) => {
            r.add("skipped: grammar refused", 1);
            return r;
        }
    };
    let ds = defs(c.nt(), c.style);
    for i in &c.inputs {
        let t = compose(&i.code, c.style);
        let at = match twin::<X>(&ds, &t) {
            Some(at) => at,
            // a lexer that reads on behind unmatched text is no excuse for accepting it
            None if prop == "C16" && !t.clean => vec![],
            None => {
                r.add("skipped: lexer disagrees", 1);
                continue;
            }
        };
        let pre = i.pre.min(t.toks.len());
        let w = kinds_of(&t);
        let rest = &w[pre..];
        let pulls = if prop == "C16" { i.pre.min(pre + 2) } else { pre };
        let Some((res, calls)) = parse::<X>(&p, &ds, &t, pulls) else {
            r.add("skipped: no lexer", 1);
            continue;
        };
        r.add("parses", 1);
        match prop {
            "C08" => {
                let want = g.derives(rest);
                r.add(if want { "sentences" } else { "non-sentences" }, 1);
                let ok = match &res {
                    Res::Ok(_) => want,
                    Res::Err => !want,
                    Res::Panic(_) => false,
                };
                if !ok {
                    let class = match &res {
                        Res::Ok(_) => "accepted-non-sentence",
                        Res::Err => "rejected-sentence",
                        Res::Panic(_) => "panic",
                    };
                    r.fail(format!(
                        "{class}: parsing {:?} gives {}, but the grammar {} it",
                        t.text,
                        res.show(),
                        if want { "derives" } else { "does not derive" }
                    ));
                }
                r.nontrivial |= !rest.is_empty();
            }
            "C09" => {
                if let Res::Ok(s) = &res {
                    let Some(n) = tree::read_debug(s).as_ref().and_then(tree::node_of) else {
                        r.fail(format!("unreadable: the printed tree does not show nodes of symbols: {s}"));
                        break;
                    };
                    r.add("trees", 1);
                    r.nontrivial |= !rest.is_empty();
                    if let Err(e) = tree::check_tree(&n, &g, &t.toks[pre..]) {
                        r.fail(format!("wrong-tree: parsing {:?} gives {s}: {e}", t.text));
                    }
                }
            }
            "C10" => {
                let v = g.viable(rest);
                let want = (v + 1).min(rest.len());
                let before = if pre == 0 { 0 } else { at[pre - 1] };
                let want_calls = if want == 0 { 0 } else { at[pre + want - 1] - before };
                r.add(if v < rest.len() { "stopped early" } else { "ran to the end" }, 1);
                r.nontrivial |= v < rest.len();
                if matches!(res, Res::Panic(_)) {
                    r.fail(format!("panic: parsing {:?} gives {}", t.text, res.show()));
                } else if v < rest.len() && matches!(res, Res::Ok(_)) {
                    r.add("skipped: accepted a non-sentence", 1);
                } else if calls != want_calls {
                    r.fail(format!(
                        "{}: parsing {:?} after {pre} pulls made {calls} constructor calls, but its first {v} tokens can begin a sentence{}, which takes {want_calls}",
                        if calls > want_calls { "drew-too-much" } else { "stopped-too-soon" },
                        t.text,
                        if v < rest.len() { " and the next one cannot continue it" } else { "" },
                    ));
                }
            }
            "C16" => {
                r.nontrivial |= !t.clean;
                r.add(if t.clean { "whole texts" } else { "unmatched texts" }, 1);
                if !t.clean {
                    r.add("unmatched after a sentence", g.derives(rest) as u64);
                    match &res {
                        Res::Ok(_) => r.fail(format!(
                            "unread-text: parsing {:?} succeeds although only {} tokens can be read from it",
                            t.text,
                            t.toks.len()
                        )),
                        Res::Panic(m) => {
                            r.fail(format!("panic: parsing {:?} panicked: {m}", t.text))
                        }
                        Res::Err => {}
                    }
                } else if g.derives(rest) && res == Res::Err && pre == 0 {
                    // the other half: text that was turned into tokens completely is not refused
                    // for being unread; whether sentences are accepted is decided by C08
                    r.add("clean sentences refused", 1);
                }
            }
            _ => unreachable!(),
        }
        if r.viol.is_some() {
            break;
        }
    }
    r
}

fn run_verdict<X: Term>(c: &Case, r: &mut R) {
    let want = if c.nostart { Verdict::Refuse("no start".into()) } else { gram::verdict(&c.g) };
    let got = build::<X>(&c.g, &c.plan, c.nostart);
    match (&want, &got) {
        (Verdict::Unclear, _) => r.add("unclear", 1),
        (Verdict::Accept, Ok(_)) => {
            r.add("accepted", 1);
            r.nontrivial = true;
        }
        (Verdict::Refuse(_), Err(_)) => {
            r.add("refused", 1);
            r.nontrivial = true;
        }
        (Verdict::Accept, Err(m)) => r.fail(format!(
            "refused: a complete SLR(1) grammar was refused: {m}"
        )),
        (Verdict::Refuse(why), Ok(_)) => {
            r.fail(format!("accepted: a grammar was accepted that should be refused ({why})"))
        }
    }
}

fn run_machine<X: Term>(c: &Case, r: &mut R) {
    let d = catch_unwind(AssertUnwindSafe(|| {
        Cfsm::from_grammar(declare::<X>(&c.g, &c.plan, false)).to_dot()
    }));
    let d = match d {
        Ok(d) => d,
        Err(_) if !c.g.complete() => {
            r.add("incomplete", 1);
            return;
        }
        Err(_) => {
            r.fail(format!("panic: building the state machine panicked: {}", rt::last_panic()));
            return;
        }
    };
    if !c.g.complete() {
        r.add("incomplete", 1);
        return;
    }
    let Some(dot) = tree::read_dot(&d) else {
        r.fail(format!("unreadable: the diagram does not show states of items with one position each: {d:?}"));
        return;
    };
    match tree::check_dot(&dot, &c.g.norm()) {
        Ok(n) => {
            r.add("states", n as u64);
            r.nontrivial = n > 2;
        }
        Err(e) => r.fail(e),
    }
}

pub fn run(j: &J, prop: &str) -> Option<Out> {
    if j.get("huge").is_some() {
        return crate::deep::run_huge(j);
    }
    if j.get("wide").is_some() {
        return crate::wide::run(j, prop);
    }
    let c = decode(j)?;
    let mut o = exec(&c.env, || {
        if c.copy {
            run_one::<kinds::K>(&c, prop)
        } else {
            run_one::<kinds::T>(&c, prop)
        }
    });
    if o.class() == Some("stuck") && c.g.complete() && c.g.norm().augmented_automaton(400).is_none() {
        // the automaton is exponential in the size of the grammar; C15 judges the amount of work
        o.viol = None;
        o.add("skipped: too many states", 1);
    }
    tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen(prop: &str, rng: &mut Rng) -> J {
    if prop == "C08" && rng.below(5000) == 0 {
        return crate::deep::gen_pumped(rng, "huge");
    }
    if matches!(prop, "C07" | "C08") && rng.below(500) == 0 {
        return crate::wide::gen(prop, rng);
    }
    let mut faults: Vec<J> = vec![];
    let free = matches!(prop, "C07" | "C13");
    let mut g = if free { gram::gen_gram(rng) } else { gram::gen_slr(rng) };
    if prop == "C07" && rng.chance(40) {
        g = gram::gen_slr(rng);
        if rng.chance(30) {
            gram::mutate(rng, &mut g);
            gram::dedup(&mut g);
        }
    }
    if !free && rng.chance(20) {
        gram::add_eps(rng, &mut g, 30);
    }
    let mut inputs = vec![];
    if !free {
        let n = g.norm();
        let nt = g.nt();
        for _ in 0..rng.range(2, 6) {
            inputs.push(gen_input(prop, rng, &n, nt, &mut faults));
        }
    }
    let style = match prop {
        "C16" => rng.below(3),
        _ => [0, 0, 0, 1, 2][rng.below(5)],
    };
    let nostart = prop == "C07" && rng.chance(2);
    case_json(rng, &g, nostart, style, inputs, vec![], faults)
}

pub fn case_json(
    rng: &mut Rng,
    g: &Gram,
    nostart: bool,
    style: usize,
    inputs: Vec<J>,
    ops: Vec<J>,
    faults: Vec<J>,
) -> J {
    let (keys, gaps) = env_json(rng);
    let plan = gen_plan(rng, g);
    let mut vals = 0;
    if rng.chance(12) {
        for _ in 0..4 {
            let v = rng.range(1, 1 << 20) as u64;
            if gram::values_clear(g, v) {
                vals = v;
                break;
            }
        }
    }
    J::obj([
        ("vals", J::num(vals)),
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(40) as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
        ("gram", g.to_json()),
        ("nostart", J::num(nostart as u8)),
        ("plan", plan),
        ("style", J::num(style)),
        ("inputs", J::A(inputs)),
        ("ops", J::A(ops)),
        ("faults", J::A(faults)),
    ])
}

/// Letters for a token sequence.
pub fn code(w: &[u8]) -> String {
    w.iter().map(|k| kinds::letter(*k)).collect()
}

pub fn gen_word(rng: &mut Rng, n: &Gram, target: usize) -> Vec<u8> {
    let body = n.rules.iter().map(|r| r.1.len()).max().unwrap_or(0);
    let max = (2 * target).max(60).max((body + body / 4).min(LONGEST - 10));
    for _ in 0..6 {
        if let Some(w) = n.sentence_up_to(rng, target, max) {
            return w;
        }
    }
    vec![]
}

pub fn gen_input(prop: &str, rng: &mut Rng, n: &Gram, nt: usize, faults: &mut Vec<J>) -> J {
    if rng.below(1200) == 0 {
        if let Some(i) = gen_pumped(rng, n, nt, faults) {
            return i;
        }
    }
    let target = match rng.below(100) {
        0 => 90,
        1 => 200,
        _ => [0, 1, 2, 4, 8, 14, 24][rng.below(7)],
    };
    let mut w = gen_word(rng, n, target);
    let dam = match prop {
        "C09" => 10,
        "C16" => 10,
        "C10" => 75,
        _ => 55,
    };
    if rng.chance(dam) {
        loop {
            faults.push(J::str(gram::damage(rng, &mut w, (nt + 1).min(kinds::MAX_T))));
            if rng.chance(70) {
                break;
            }
        }
    }
    w.truncate(LONGEST - 10);
    let mut pre = 0;
    if prop == "C10" && rng.chance(40) && !w.is_empty() {
        // tokens the caller takes first, in front of the sentence or part of it
        let k = rng.range(1, 3);
        if rng.chance(60) {
            for _ in 0..k {
                w.insert(0, rng.below(nt.max(1)) as u8);
            }
        }
        pre = k.min(w.len());
        faults.push(J::str("tokens-taken-first"));
    }
    let mut s: Vec<char> = code(&w).chars().collect();
    if prop == "C16" && rng.chance(85) {
        let i = if rng.chance(60) { s.len() } else { rng.range(0, s.len()) };
        for _ in 0..if rng.chance(80) { 1 } else { 2 } {
            s.insert(i, if rng.chance(60) { *rng.pick(&FOREIGN) } else { '~' });
        }
        faults.push(J::str("foreign-text"));
        if rng.chance(15) {
            // the caller has pulled some tokens, all of them, or has seen the end already
            pre = [i, i, i + 1, i + 2, rng.range(0, i)][rng.below(5)];
            faults.push(J::str("tokens-taken-first"));
        }
    }
    J::A(vec![J::num(pre), J::S(s.into_iter().collect())])
}

/// Thousands of tokens, damaged in one place or not at all.
fn gen_pumped(rng: &mut Rng, n: &Gram, nt: usize, faults: &mut Vec<J>) -> Option<J> {
    let mut parts = crate::deep::split(rng, &n.reduce())?;
    let rest: usize = [0, 2, 4].iter().map(|k| parts[*k].len()).sum();
    let most = PUMPED / (parts[1].len() + parts[3].len());
    if rest > LONGEST - 10 || most < 8 {
        return None;
    }
    let c = rng.range(most / 4, most);
    if rng.chance(40) {
        let place = &mut parts[[0, 2, 4][rng.below(3)]];
        faults.push(J::str(gram::damage(rng, place, (nt + 1).min(kinds::MAX_T))));
    }
    let mut a = vec![J::num(0)];
    a.extend(parts.iter().map(|w| J::S(code(w))));
    a.push(J::num(c));
    Some(J::A(a))
}

// ---------------------------------------------------------------- histories

/// Result of each input on a fresh parser, each in a process of its own.
fn fresh_results<X: Term>(c: &Case, env: &Env) -> Option<Vec<Out>> {
    let mut v = vec![];
    for i in &c.inputs {
        let o = exec(env, || {
            kinds::HASH_MODE.set(c.hm);
            kinds::VALS.set(c.vals);
            let mut r = R::default();
            let ds = defs(c.nt(), c.style);
            match build::<X>(&c.g, &c.plan, false) {
                Ok(p) => match parse::<X>(&p, &ds, &compose(&i.code, c.style), i.pre) {
                    Some((res, _)) => r.obs.push(res.key()),
                    None => r.obs.push("no lexer".into()),
                },
                Err(_) => r.obs.push("refused".into()),
            }
            r
        });
        v.push(o);
    }
    Some(v)
}

struct Hist<X: Term> {
    c: Case,
    ds: Vec<Def>,
    texts: Vec<Text>,
    p: RefCell<Option<Rc<Slr<V, X>>>>,
    want: Vec<String>,
    r: RefCell<R>,
}

impl<X: Term> Hist<X> {
    fn check(&self, i: usize, res: &Res, how: &str) {
        let mut r = self.r.borrow_mut();
        r.add("parses", 1);
        if res.key() != self.want[i] {
            r.fail(format!(
                "remembers: {how} {:?} gives {}, but a fresh parser gives {}",
                self.texts[i].text,
                res.show(),
                self.want[i]
            ));
        }
    }
}

fn mask(n: usize) -> u32 {
    [rt::MASK_CMP, rt::MASK_CTOR, rt::MASK_CMP | rt::MASK_CTOR][n % 3]
}

fn run_hist<X: Term>(c: Case, want: Vec<String>) -> R {
    kinds::HASH_MODE.set(c.hm);
    kinds::VALS.set(c.vals);
    let mut r = R::default();
    let p = match build::<X>(&c.g, &c.plan, false) {
        Ok(p) => p,
        Err(_) => {
            r.add("skipped: grammar refused", 1);
            return r;
        }
    };
    let ds = defs(c.nt(), c.style);
    let texts = c.inputs.iter().map(|i| compose(&i.code, c.style)).collect();
    let h = Rc::new(Hist::<X> {
        ds,
        texts,
        p: RefCell::new(Some(Rc::new(*p))),
        want,
        r: RefCell::new(r),
        c,
    });
    let n = h.c.inputs.len();
    let ops = h.c.ops.clone();
    for op in &ops {
        if h.r.borrow().viol.is_some() {
            break;
        }
        let num = |k: usize| op.get(k).and_then(|x| x.us()).unwrap_or(0);
        match op.first().and_then(|o| o.s()).unwrap_or("") {
            "p" => {
                let i = num(1) % n;
                let p = h.p.borrow().clone().unwrap();
                if let Some((res, _)) = parse::<X>(&p, &h.ds, &h.texts[i], h.c.inputs[i].pre) {
                    h.check(i, &res, "parsing");
                }
            }
            "f" => {
                let i = num(1) % n;
                let p = h.p.borrow().clone().unwrap();
                rt::arm(mask(num(2)), num(3) as u64 + 1);
                let res = parse::<X>(&p, &h.ds, &h.texts[i], h.c.inputs[i].pre);
                let fired = rt::disarm();
                let Some((res, _)) = res else { continue };
                if fired {
                    h.r.borrow_mut().add("fault:panic-in-caller-code", 1);
                    h.r.borrow_mut().nontrivial = true;
                    if !matches!(res, Res::Panic(_)) {
                        // someone swallowed the panic: the parse must still be right
                        h.r.borrow_mut().add("panics swallowed", 1);
                    }
                } else {
                    h.check(i, &res, "parsing");
                }
            }
            "n" => {
                let (i, k) = (num(1) % n, num(2) % n);
                let p = h.p.borrow().clone().unwrap();
                let hh = h.clone();
                let done = Rc::new(RefCell::new(None));
                let d = done.clone();
                let inner = p.clone();
                rt::nest(
                    if num(4) > 0 { rt::MASK_CTOR | rt::MASK_CMP } else { rt::MASK_CTOR },
                    num(3) as u64 + 1,
                    Box::new(move || {
                        let r = parse::<X>(&inner, &hh.ds, &hh.texts[k], hh.c.inputs[k].pre);
                        *d.borrow_mut() = r;
                    }),
                );
                let res = parse::<X>(&p, &h.ds, &h.texts[i], h.c.inputs[i].pre);
                rt::unnest();
                if let Some((res, _)) = done.borrow_mut().take() {
                    h.r.borrow_mut().add("fault:nested-parse", 1);
                    h.r.borrow_mut().nontrivial = true;
                    h.check(k, &res, "parsing (inside another parse)");
                }
                if let Some((res, _)) = res {
                    h.check(i, &res, "parsing (with another parse inside)");
                }
            }
            "m" => {
                let p = h.p.borrow_mut().take().unwrap();
                match Rc::try_unwrap(p) {
                    Ok(p) => {
                        let mut v = vec![p];
                        v.reserve(4);
                        let p = v.pop().unwrap();
                        h.r.borrow_mut().add("fault:relocated", 1);
                        *h.p.borrow_mut() = Some(Rc::new(p));
                    }
                    Err(p) => *h.p.borrow_mut() = Some(p),
                }
            }
            _ => {}
        }
    }
    let mut r = std::mem::take(&mut *h.r.borrow_mut());
    r.nontrivial |= r.cnt.get("parses").copied().unwrap_or(0) > 1;
    r
}

pub fn run_c11(j: &J, _prop: &str) -> Option<Out> {
    let c = decode(j)?;
    if c.inputs.is_empty() {
        return None;
    }
    let fresh = if c.copy {
        fresh_results::<kinds::K>(&c, &c.env)?
    } else {
        fresh_results::<kinds::T>(&c, &c.env)?
    };
    let mut o = Out::default();
    let mut want = vec![];
    for f in fresh {
        o.merge(&f);
        want.push(f.obs.first().cloned().unwrap_or_default());
    }
    if o.viol.is_none() && o.harness.is_none() {
        let copy = c.copy;
        let env = c.env.clone();
        let h = exec(&env, || {
            if copy {
                run_hist::<kinds::K>(c, want)
            } else {
                run_hist::<kinds::T>(c, want)
            }
        });
        o.nontrivial = false;
        o.merge(&h);
    }
    tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen_c11(_prop: &str, rng: &mut Rng) -> J {
    let mut faults: Vec<J> = vec![];
    let g = gram::gen_slr(rng);
    let n = g.norm();
    let mut inputs = vec![];
    let k = rng.range(1, 4);
    for _ in 0..k {
        inputs.push(gen_input("C11", rng, &n, g.nt(), &mut faults));
    }
    let mut ops = vec![];
    for _ in 0..rng.range(2, 10) {
        let i = rng.below(k);
        ops.push(match rng.below(10) {
            0..=2 => {
                let site = rng.below(3);
                let at = if rng.chance(60) { rng.below(8) } else { rng.below(60) };
                J::A(vec![J::str("f"), J::num(i), J::num(site), J::num(at)])
            }
            3..=4 => {
                let cmp = rng.chance(40);
                let at = if cmp { rng.below(40) } else { rng.below(4) };
                J::A(vec![J::str("n"), J::num(i), J::num(rng.below(k)), J::num(at), J::num(cmp as u8)])
            }
            5 => J::A(vec![J::str("m")]),
            _ => J::A(vec![J::str("p"), J::num(i)]),
        });
    }
    for i in 0..k {
        ops.push(J::A(vec![J::str("p"), J::num(i)]));
    }
    let style = [0, 0, 0, 1, 2][rng.below(5)];
    case_json(rng, &g, false, style, inputs, ops, faults)
}

// ---------------------------------------------------------------- ownership

struct Kept<X: Term> {
    p: Option<Box<Slr<V, X>>>,
}

struct Machine<X: Term> {
    m: Option<Pin<Box<Cfsm<V, X>>>>,
    dot: Option<Vec<u8>>,
}

fn run_own<X: Term>(c: &Case) -> R {
    kinds::HASH_MODE.set(c.hm);
    kinds::VALS.set(c.vals);
    let r = own_inner::<X>(c);
    // everything is gone by now
    let mut r = r;
    let live = kinds::live_terminals();
    if live != 0 {
        r.fail(format!("leak: {live} terminals were never dropped"));
    }
    kinds::take_calls();
    r
}

fn own_inner<X: Term>(c: &Case) -> R {
    let mut r = R::default();
    let ds = defs(c.nt(), c.style);
    let texts: Vec<Text> = c.inputs.iter().map(|i| compose(&i.code, c.style)).collect();
    let n = texts.len();
    // what an undisturbed parser says
    let mut want: Vec<Option<String>> = vec![];
    {
        let Ok(p) = build::<X>(&c.g, &c.plan, false) else {
            r.add("skipped: grammar refused", 1);
            return r;
        };
        for (t, i) in texts.iter().zip(&c.inputs) {
            want.push(parse::<X>(&p, &ds, t, i.pre).map(|(res, _)| res.key()));
        }
    }
    let mut gs: Vec<Grammar<V, X>> = vec![];
    let mut ps: Vec<Kept<X>> = vec![];
    let mut ms: Vec<Machine<X>> = vec![];
    let mut trees = vec![];
    for op in &c.ops {
        if r.viol.is_some() || rt::VIOL.with(|v| v.borrow().is_some()) {
            break;
        }
        let num = |k: usize| op.get(k).and_then(|x| x.us()).unwrap_or(0);
        let name = op.first().and_then(|o| o.s()).unwrap_or("");
        let unexpected =
            |r: &mut R| r.fail(format!("panic: {name} panicked: {}", rt::last_panic()));
        match name {
            "grammar" => match catch_unwind(|| declare::<X>(&c.g, &c.plan, false)) {
                Ok(g) => gs.push(g),
                Err(_) => unexpected(&mut r),
            },
            "clone" => {
                if let Some(g) = gs.last() {
                    let g = g.clone();
                    gs.push(g);
                }
            }
            "clone-machine" => {
                if let Some(m) = ms.iter().find_map(|m| m.m.as_ref()) {
                    let g = m.as_ref().get_grammar().clone();
                    gs.push(g);
                }
            }
            "clone-panic" => {
                if let Some(g) = gs.last() {
                    rt::arm(rt::MASK_CLONE | rt::MASK_CMP, num(1) as u64 + 1);
                    let k = catch_unwind(AssertUnwindSafe(|| g.clone()));
                    if rt::disarm() {
                        r.add("fault:panic-in-caller-code", 1);
                    }
                    if let Ok(k) = k {
                        gs.push(k);
                    }
                }
            }
            "drop-grammar" => {
                if !gs.is_empty() {
                    gs.remove(num(1) % gs.len());
                }
            }
            "parser" | "machine" => {
                let g = if gs.is_empty() || num(1) % 2 == 0 {
                    catch_unwind(|| declare::<X>(&c.g, &c.plan, false)).ok()
                } else {
                    gs.pop()
                };
                let Some(g) = g else { continue };
                if num(2) > 0 {
                    rt::arm(rt::MASK_CMP, num(2) as u64);
                }
                if name == "parser" {
                    let p = catch_unwind(AssertUnwindSafe(|| Slr::new(g)));
                    let fired = rt::disarm();
                    match p {
                        Ok(p) => ps.push(Kept { p: Some(Box::new(p)) }),
                        Err(_) if fired => {}
                        Err(_) => unexpected(&mut r),
                    }
                    r.add("fault:panic-in-caller-code", fired as u64);
                } else {
                    let m = catch_unwind(AssertUnwindSafe(|| Cfsm::from_grammar(g)));
                    let fired = rt::disarm();
                    match m {
                        Ok(m) => ms.push(Machine { m: Some(m), dot: None }),
                        Err(_) if fired => {}
                        Err(_) => unexpected(&mut r),
                    }
                    r.add("fault:panic-in-caller-code", fired as u64);
                }
            }
            "move" => {
                if !ps.is_empty() {
                    let i = num(1) % ps.len();
                    if let Some(p) = ps[i].p.take() {
                        ps[i].p = Some(Box::new(*p));
                        r.add("fault:relocated", 1);
                        r.nontrivial = true;
                    }
                }
            }
            "move-machine" => {
                if !ms.is_empty() {
                    let i = num(1) % ms.len();
                    let m = ms.remove(i);
                    ms.insert(0, m);
                    ms.reserve(8);
                    ms.shrink_to_fit();
                    r.add("fault:relocated", 1);
                }
            }
            "print" => {
                if !ps.is_empty() {
                    let i = num(1) % ps.len();
                    if let Some(p) = &ps[i].p {
                        if num(2) > 0 {
                            rt::arm(rt::MASK_DEBUG, num(2) as u64);
                        }
                        let s = catch_unwind(AssertUnwindSafe(|| format!("{p:?}")));
                        if rt::disarm() {
                            r.add("fault:panic-in-caller-code", 1);
                            continue;
                        }
                        match s {
                            // what it looks like is its own business
                            Ok(s) => rt::note(s.len() as u64),
                            Err(_) => unexpected(&mut r),
                        }
                    }
                }
            }
            "diagram" => {
                if !ms.is_empty() {
                    let i = num(1) % ms.len();
                    if let Some(m) = &ms[i].m {
                        let k = num(2) % 2;
                        if num(3) > 0 {
                            rt::arm(rt::MASK_DEBUG, num(3) as u64);
                        }
                        let s = catch_unwind(AssertUnwindSafe(|| {
                            if k == 0 { m.to_dot() } else { format!("{m:?}") }
                        }));
                        if rt::disarm() {
                            r.add("fault:panic-in-caller-code", 1);
                            continue;
                        }
                        match s {
                            Ok(s) if k == 0 => {
                                // in any order
                                let mut s = s.into_bytes();
                                s.sort_unstable();
                                if ms[i].dot.as_ref().is_some_and(|d| *d != s) {
                                    r.fail("changed: a state machine is drawn differently after it was moved".into());
                                }
                                ms[i].dot = Some(s);
                            }
                            Ok(s) => rt::note(s.len() as u64),
                            Err(_) => unexpected(&mut r),
                        }
                    }
                }
            }
            "drop" => {
                if !ps.is_empty() {
                    let i = num(1) % ps.len();
                    ps[i].p = None;
                    r.add("fault:abandoned", 1);
                }
            }
            "drop-machine" => {
                if !ms.is_empty() {
                    let i = num(1) % ms.len();
                    ms[i].m = None;
                    r.add("fault:abandoned", 1);
                }
            }
            "p" | "f" => {
                if ps.is_empty() || n == 0 {
                    continue;
                }
                let k = num(1) % ps.len();
                let i = num(2) % n;
                let Some(p) = &ps[k].p else { continue };
                let Some(mut lx) = lexer::<X>(&ds, texts[i].text) else { continue };
                for _ in 0..c.inputs[i].pre {
                    let _ = catch_unwind(AssertUnwindSafe(|| lx.next()));
                }
                if name == "f" {
                    rt::arm(mask(num(3)), num(4) as u64 + 1);
                }
                let res = catch_unwind(AssertUnwindSafe(|| p.parse(lx)));
                let fired = rt::disarm();
                r.add("parses", 1);
                let key = match &res {
                    Ok(Ok(t)) => format!("ok {t:?}"),
                    Ok(Err(())) => "err".into(),
                    Err(_) => "panic".into(),
                };
                if fired {
                    r.add("fault:panic-in-caller-code", 1);
                    r.nontrivial = true;
                } else if want[i].as_ref().is_some_and(|w| *w != key) {
                    r.fail(format!(
                        "changed: parsing {:?} gives {key}, an undisturbed parser gives {:?}",
                        texts[i].text, want[i]
                    ));
                }
                if let Ok(Ok(t)) = res {
                    trees.push((t, key));
                }
            }
            "trees" => {
                for (t, k) in &trees {
                    if format!("ok {t:?}") != *k {
                        r.fail("changed: a tree prints differently later on".into());
                    }
                }
                if num(1) % 2 == 1 {
                    trees.clear();
                }
            }
            _ => {}
        }
    }
    r.nontrivial |= r.cnt.contains_key("parses");
    r
}

pub fn run_c12(j: &J, _prop: &str) -> Option<Out> {
    let c = decode(j)?;
    let mut o = exec(&c.env, || {
        if c.copy {
            run_own::<kinds::K>(&c)
        } else {
            run_own::<kinds::T>(&c)
        }
    });
    tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen_c12(_prop: &str, rng: &mut Rng) -> J {
    let mut faults: Vec<J> = vec![];
    let g = gram::gen_slr(rng);
    let n = g.norm();
    let mut inputs = vec![];
    for _ in 0..rng.range(1, 3) {
        inputs.push(gen_input("C12", rng, &n, g.nt(), &mut faults));
    }
    let mut ops = vec![];
    let op = |s: &str, a: &[usize]| {
        let mut v = vec![J::str(s)];
        v.extend(a.iter().map(|x| J::num(*x)));
        J::A(v)
    };
    ops.push(op("grammar", &[]));
    ops.push(op("parser", &[rng.below(2), 0]));
    for _ in 0..rng.range(4, 22) {
        let k = rng.below(3);
        let far = if rng.chance(50) { rng.below(12) } else { rng.below(400) };
        let fault = if rng.chance(25) { far + 1 } else { 0 };
        ops.push(match rng.below(25) {
            24 => op("clone-machine", &[]),
            0 => op("grammar", &[]),
            1 => op("clone", &[]),
            2 => op("clone-panic", &[far]),
            3 => op("drop-grammar", &[k]),
            4 => op("parser", &[rng.below(2), 0]),
            5 => op("parser", &[rng.below(2), far + 1]),
            6 => op("machine", &[rng.below(2), 0]),
            7 => op("machine", &[rng.below(2), far + 1]),
            8..=9 => op("move", &[k]),
            10 => op("move-machine", &[k]),
            11..=12 => op("print", &[k, fault]),
            13..=14 => op("diagram", &[k, rng.below(2), fault]),
            15 => op("drop", &[k]),
            16 => op("drop-machine", &[k]),
            17..=19 => op("f", &[k, rng.below(3), rng.below(3), rng.below(12)]),
            20 => op("trees", &[rng.below(2)]),
            _ => op("p", &[k, rng.below(3)]),
        });
    }
    let style = [0, 0, 0, 1, 2][rng.below(5)];
    let mut j = case_json(rng, &g, false, style, inputs, ops, faults);
    if rng.chance(70) {
        j.set("copy", J::num(0));
    }
    j
}
