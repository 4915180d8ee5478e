//! Grammars of many symbols (C07, C08): families with hundreds of terminals,
//! variables, rules or symbols of a body, for which the answer is known in closed form.

use crate::json::J;
use crate::lexw::{env_from, env_json};
use crate::out::{exec, Out, R};
use crate::parw;
use crate::rng::Rng;
use crate::rt;
use pango_lexer::Lexer;
use pango_parser::{Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Largest width.
const WIDEST: usize = 330;
/// Longest token sequence.
const LONGEST: usize = 1000;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct W(u16);

impl TerminalEq for W {
    fn terminal_eq(&self, o: &W) -> bool {
        self == o
    }
}

impl TerminalHash for W {
    fn terminal_hash<H: Hasher>(&self, h: &mut H) {
        self.hash(h)
    }
}

type Sym = Symbol<u16, W>;
type Rule = (u16, Vec<Sym>);

const FAMILIES: usize = 6;

/// What is wrong with the grammar.
#[derive(Clone, Copy, PartialEq)]
enum Flaw {
    None,
    /// A variable without rules.
    Undefined,
    /// Two rules for the same text in the same place.
    Conflict,
}

fn rules(family: usize, n: usize, flaw: Flaw) -> Vec<Rule> {
    let t = |k: usize| Symbol::Terminal(W(k as u16));
    let v = |k: usize| Symbol::Variable(k as u16);
    let mut r: Vec<Rule> = vec![];
    match family {
        // a list of anything
        0 => {
            r.push((0, vec![v(0), v(1)]));
            r.push((0, vec![v(1)]));
            r.extend((0..n).map(|k| (1, vec![t(k)])));
        }
        // one of n pairs
        1 => {
            r.extend((0..n).map(|k| (0, vec![v(k + 1)])));
            r.extend((0..n).map(|k| (k as u16 + 1, vec![t(k), t((k + 1) % n)])));
        }
        // 0, 1, 2 and so on
        2 => {
            r.extend((0..n).map(|k| (k as u16, vec![t(k)])));
            r.extend((0..n - 1).map(|k| (k as u16, vec![t(k), v(k + 1)])));
        }
        // each of n tokens or not, in order
        3 => {
            r.push((0, (1..=n).map(v).collect()));
            r.extend((0..n).map(|k| (k as u16 + 1, vec![t(k)])));
            r.extend((0..n).map(|k| (k as u16 + 1, vec![])));
        }
        // one token through n variables
        4 => {
            r.extend((0..n - 1).map(|k| (k as u16, vec![v(k + 1)])));
            r.push((n as u16 - 1, vec![t(0)]));
        }
        // n kinds of brackets around a list
        _ => {
            r.extend((0..n).map(|k| (0, vec![t(2 * k), v(1), t(2 * k + 1)])));
            r.push((1, vec![t(2 * n)]));
            r.push((1, vec![v(1), t(2 * n)]));
        }
    }
    let last = r.iter().map(|x| x.0).max().unwrap_or(0);
    match flaw {
        Flaw::None => {}
        Flaw::Undefined => r.push((0, vec![t(0), t(0), t(0), v(last as usize + 1)])),
        Flaw::Conflict => {
            // the last rule once more, through one more variable
            let (h, b) = r[r.len() - 1].clone();
            r.push((h, vec![v(last as usize + 1)]));
            r.push((last + 1, b));
        }
    }
    r
}

fn sentence(family: usize, n: usize, w: &[usize]) -> bool {
    match family {
        0 => !w.is_empty() && w.iter().all(|k| *k < n),
        1 => w.len() == 2 && w[0] < n && w[1] == (w[0] + 1) % n,
        2 => !w.is_empty() && w.len() <= n && w.iter().enumerate().all(|(i, k)| i == *k),
        3 => w.windows(2).all(|p| p[0] < p[1]) && w.last().map_or(true, |k| *k < n),
        4 => w == [0],
        _ => {
            let last = w.len().saturating_sub(1);
            last > 1
                && w[0] < 2 * n
                && w[0] % 2 == 0
                && w[last] == w[0] + 1
                && w[1..last].iter().all(|k| *k == 2 * n)
        }
    }
}

fn gen_word(rng: &mut Rng, family: usize, n: usize) -> Vec<usize> {
    let mut w: Vec<usize> = match family {
        0 => (0..rng.range(1, 40)).map(|_| rng.below(n)).collect(),
        1 => {
            let k = rng.below(n);
            vec![k, (k + 1) % n]
        }
        2 => (0..rng.range(1, n)).collect(),
        3 => {
            let p = [3, 30, 97, 100][rng.below(4)];
            (0..n).filter(|_| rng.chance(p)).collect()
        }
        4 => vec![0],
        _ => {
            let k = 2 * rng.below(n);
            let mut w = vec![2 * n; rng.range(1, 5)];
            w.insert(0, k);
            w.push(k + 1);
            w
        }
    };
    if rng.chance(40) {
        // around what a byte or seven bits would make of it
        let k = rng.below(w.len() + 1);
        match rng.below(4) {
            0 => w.insert(k, rng.below(2 * n + 2)),
            _ if k == w.len() => w.truncate(k.saturating_sub(1)),
            1 => drop(w.remove(k)),
            2 => w[k] = (w[k] + [128, 256, n, 1][rng.below(4)]) % (2 * n + 2),
            _ => w[k] = w[k].saturating_sub([128, 256, n, 1][rng.below(4)]),
        }
    }
    w
}

fn go(prop: &str, family: usize, n: usize, flaw: Flaw, order: u64, ins: &[Vec<usize>]) -> R {
    let mut r = R::default();
    let mut rules = rules(family, n, flaw);
    Rng::new(order).shuffle(&mut rules);
    let built = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Grammar::builder().with_start_variable(0u16);
        for (h, body) in rules {
            b.add_rule(h, body);
        }
        Slr::new(b.build())
    }));
    rt::note(built.is_ok() as u64);
    r.add("wide grammars", 1);
    r.nontrivial = true;
    if prop == "C07" {
        if built.is_ok() != (flaw == Flaw::None) {
            r.fail(match flaw {
                Flaw::None => format!("refused: an SLR(1) grammar of {n} parts is refused: {}", rt::last_panic()),
                Flaw::Undefined => format!("accepted: a grammar of {n} parts with a variable that has no rules is accepted"),
                Flaw::Conflict => format!("accepted: a grammar of {n} parts with a conflict is accepted"),
            });
        }
        return r;
    }
    let Ok(p) = built else {
        r.add("skipped: grammar refused", 1);
        return r;
    };
    for w in ins {
        let text: String = w.iter().map(|k| format!("t{k};")).collect();
        let text = crate::kinds::leak(&text);
        let Ok(lx) = Lexer::builder().with_token_map("t\\d+;", |s| {
            W(s[1..s.len() - 1].parse().unwrap_or(u16::MAX))
        }) else {
            r.add("skipped: lexer refused", 1);
            continue;
        };
        let res = catch_unwind(AssertUnwindSafe(|| p.parse(lx.tokenize(text)).is_ok()));
        let want = sentence(family, n, w);
        rt::note(matches!(res, Ok(true)) as u64);
        r.add("parses", 1);
        let class = match (&res, want) {
            (Ok(true), false) => "accepted-non-sentence",
            (Ok(false), true) => "rejected-sentence",
            (Err(_), _) => "panic",
            _ => continue,
        };
        r.fail(format!("{class}: {} tokens, grammar of {n} parts", w.len()));
    }
    r
}

/// `"wide": [family, width, flaw, order]`.
pub fn run(j: &J, prop: &str) -> Option<Out> {
    let a = j.get("wide")?.a().filter(|a| a.len() == 4)?;
    let family = a[0].us().filter(|f| *f < FAMILIES)?;
    let n = a[1].us().filter(|n| (1..=WIDEST).contains(n))?;
    let flaw = match a[2].us()? {
        0 => Flaw::None,
        1 => Flaw::Undefined,
        2 if family < 3 => Flaw::Conflict,
        _ => return None,
    };
    let order = u64::try_from(a[3].n()?).ok()?;
    let ins = j
        .get("inputs")?
        .a()?
        .iter()
        .map(|w| w.a()?.iter().map(|k| k.us().filter(|k| *k < 60_000)).collect::<Option<Vec<_>>>())
        .collect::<Option<Vec<_>>>()?;
    if ins.iter().any(|w| w.len() > LONGEST) {
        return None;
    }
    let mut env = env_from(j, 400 * crate::lexw::WORK)?;
    env.reuse = true;
    let mut o = exec(&env, || go(prop, family, n, flaw, order, &ins));
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen(prop: &str, rng: &mut Rng) -> J {
    let family = rng.below(FAMILIES);
    let n = match rng.below(4) {
        0 => rng.range(120, 136),
        1 => rng.range(250, 262),
        _ => rng.range(60, WIDEST),
    };
    let flaw = match prop {
        "C07" if family < 3 => rng.below(3),
        "C07" => rng.below(2),
        _ => 0,
    };
    let mut ins = vec![];
    if prop != "C07" {
        for _ in 0..rng.range(3, 8) {
            ins.push(J::A(gen_word(rng, family, n).iter().map(|k| J::num(*k)).collect()));
        }
    }
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("wide", J::A(vec![J::num(family), J::num(n), J::num(flaw), J::num((rng.next() >> 2) as i64)])),
        ("inputs", J::A(ins)),
        ("faults", J::A(vec![])),
    ])
}
