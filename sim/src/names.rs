//! Diagrams of state machines whose symbols print awkward texts, drawn
//! repeatedly, with printing code that panics or fails in between.

use crate::gram;
use crate::json::J;
use crate::kinds::{self, Term};
use crate::out::{exec, Out, R};
use crate::parw::{self, Case};
use crate::rng::Rng;
use crate::rt;
use crate::tree::{self, Dot};
use pango_parser::Cfsm;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    /// Contents between the quotes, escapes untouched.
    Str(String),
    P(char),
    Arrow,
}

/// The words of the dot language.
fn toks(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let at = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        match c[i] {
            x if x.is_whitespace() => i += 1,
            '#' => i += c[i..].iter().take_while(|x| **x != '\n').count(),
            '/' if at(1) == '/' => i += c[i..].iter().take_while(|x| **x != '\n').count(),
            '/' if at(1) == '*' => {
                let end = c[i + 2..].windows(2).position(|w| w == ['*', '/']).ok_or("a comment without end")?;
                i += end + 4;
            }
            '"' => {
                let a = i + 1;
                i = a;
                loop {
                    match c.get(i) {
                        None => return Err("a quoted text without end".into()),
                        Some('"') => break,
                        Some('\\') => i += 2,
                        Some(_) => i += 1,
                    }
                }
                v.push(Tok::Str(c[a..i].iter().collect()));
                i += 1;
            }
            '-' if at(1) == '>' => {
                v.push(Tok::Arrow);
                i += 2;
            }
            x @ ('{' | '}' | '[' | ']' | ';' | ',' | '=') => {
                v.push(Tok::P(x));
                i += 1;
            }
            x if word(x) || (x == '-' && at(1).is_ascii_digit()) => {
                let n = 1 + c[i + 1..].iter().take_while(|x| word(**x)).count();
                v.push(Tok::Id(c[i..i + n].iter().collect()));
                i += n;
            }
            x => return Err(format!("{x:?} outside a quoted text")),
        }
    }
    Ok(v)
}

/// How a label is shown: its lines.
fn shown(raw: &str, node: &str) -> Vec<String> {
    let mut lines = vec![String::new()];
    let mut c = raw.chars();
    while let Some(x) = c.next() {
        if x == '\n' {
            lines.push(String::new());
            continue;
        }
        let l = lines.last_mut().unwrap();
        if x != '\\' {
            l.push(x);
            continue;
        }
        match c.next() {
            Some('n' | 'l' | 'r') => lines.push(String::new()),
            Some('N') => l.push_str(node),
            Some('G') => l.push_str("graph"),
            Some(x) => l.push(x),
            None => {}
        }
    }
    for l in &mut lines {
        for (e, x) in [("&quot;", "\""), ("&#34;", "\""), ("&#92;", "\\"), ("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&")] {
            *l = l.replace(e, x);
        }
    }
    lines
}

/// The symbols, in their decorated form, and other words of a line.
fn words(l: &str) -> Vec<Option<gram::S>> {
    let (pre, suf) = kinds::names();
    let mut v = vec![];
    let mut l = l.trim();
    while !l.is_empty() {
        let hit = l.strip_prefix(pre).and_then(|r| {
            let n = r.bytes().take_while(|b| b.is_ascii_alphanumeric()).count();
            let s = tree::plain(&r[..n]).filter(|s| *s != gram::S::E)?;
            let rest = r[n..].strip_prefix(suf)?;
            (rest.is_empty() || rest.starts_with(char::is_whitespace)).then_some((s, rest))
        });
        l = match hit {
            Some((s, rest)) => {
                v.push(Some(s));
                rest
            }
            None => {
                let n = l.find(char::is_whitespace).unwrap_or(l.len());
                v.push((&l[..n] == "Epsilon").then_some(gram::S::E));
                &l[n..]
            }
        }
        .trim_start();
    }
    v
}

/// Reads a diagram by the rules of the dot language.
fn read(s: &str) -> Result<Dot, String> {
    let t = toks(s)?;
    let mut d = Dot { states: BTreeMap::new(), edges: BTreeMap::new() };
    let body = t.iter().position(|x| *x == Tok::P('{')).ok_or("no graph")?;
    if t[..body].iter().any(|x| matches!(x, Tok::P(_) | Tok::Arrow)) || t[..body].first() != Some(&Tok::Id("digraph".into())) {
        return Err("no directed graph".into());
    }
    if t.last() != Some(&Tok::P('}')) {
        return Err("the graph does not end".into());
    }
    let t = &t[body + 1..t.len() - 1];
    let mut i = 0;
    let name = |i: usize| match t.get(i) {
        Some(Tok::Id(s) | Tok::Str(s)) => Ok(s.clone()),
        x => Err(format!("{x:?} where a name belongs")),
    };
    while i < t.len() {
        if t[i] == Tok::P(';') {
            i += 1;
            continue;
        }
        let from = name(i)?;
        i += 1;
        if t.get(i) == Some(&Tok::P('=')) {
            name(i + 1)?;
            i += 2;
            continue;
        }
        let mut to = None;
        if t.get(i) == Some(&Tok::Arrow) {
            to = Some(name(i + 1)?);
            i += 2;
        }
        let mut label = None;
        while t.get(i) == Some(&Tok::P('[')) {
            i += 1;
            while t.get(i) != Some(&Tok::P(']')) {
                if matches!(t.get(i), Some(Tok::P(';' | ','))) {
                    i += 1;
                    continue;
                }
                let (k, v) = (name(i)?, name(i + 2)?);
                if t.get(i + 1) != Some(&Tok::P('=')) {
                    return Err(format!("attribute {k:?} without a value"));
                }
                if k == "label" {
                    label = Some(v);
                }
                i += 3;
            }
            i += 1;
        }
        let Ok(id) = from.parse::<u64>() else { continue };
        let label = label.ok_or_else(|| format!("{from} has no label"))?;
        let lines: Vec<_> = shown(&label, &from).iter().map(|l| words(l)).filter(|w| !w.is_empty()).collect();
        if let Some(to) = to {
            let to = to.parse().map_err(|_| format!("an edge to {to:?}"))?;
            match lines.as_slice() {
                [w] => match w.as_slice() {
                    [Some(s)] => d.edges.entry(id).or_default().push((*s, to)),
                    _ => return Err(format!("edge label {label:?} is not a symbol")),
                },
                _ => return Err(format!("edge label {label:?} is not a symbol")),
            }
            continue;
        }
        let mut items = vec![];
        for w in &lines {
            let bad = || format!("{label:?} does not show items with one position each");
            let Some(Some(gram::S::N(h))) = w.first() else { return Err(bad()) };
            let (mut body, mut dot, mut marks) = (vec![], 0, 0);
            for x in &w[1..] {
                match x {
                    Some(gram::S::E) => {}
                    Some(s) => body.push(*s),
                    None => {
                        marks += 1;
                        dot = body.len();
                    }
                }
            }
            // the arrow and the position
            if marks != 2 {
                return Err(bad());
            }
            items.push((*h, body, dot));
        }
        if d.states.insert(id, items).is_some() {
            return Err(format!("state {id} is drawn twice"));
        }
    }
    Ok(d)
}

fn draw<X: Term>(c: &Case, names: usize) -> R {
    kinds::HASH_MODE.set(c.hm);
    kinds::NAMES.set(names);
    let mut r = R::default();
    let m = catch_unwind(AssertUnwindSafe(|| Cfsm::from_grammar(parw::declare::<X>(&c.g, &c.plan, false))));
    let mut m = match m {
        Ok(m) => m,
        Err(_) => {
            r.add("skipped: grammar refused", 1);
            return r;
        }
    };
    let g = c.g.norm();
    let mut hit = false;
    for op in &c.ops {
        let num = |k: usize| op.get(k).and_then(|x| x.us()).unwrap_or(0) as u64;
        let name = op.first().and_then(|o| o.s()).unwrap_or("");
        match name {
            "panic" => rt::arm(rt::MASK_DEBUG, num(1).max(1)),
            "fail" => kinds::DEBUG_ERR.set(num(1).max(1)),
            "again" => {
                let k = catch_unwind(AssertUnwindSafe(|| Cfsm::from_grammar(m.as_ref().get_grammar().clone())));
                match k {
                    Ok(k) => m = k,
                    Err(_) => {
                        r.fail(format!("panic: building the state machine again panicked: {}", rt::last_panic()));
                        return r;
                    }
                }
                continue;
            }
            _ => {}
        }
        let d = catch_unwind(AssertUnwindSafe(|| m.to_dot()));
        let panicked = rt::disarm();
        let failed = name == "fail" && kinds::DEBUG_ERR.replace(0) == 0;
        r.add("fault:panic-in-caller-code", panicked as u64);
        r.add("fault:failing-print", failed as u64);
        hit |= panicked || failed;
        let d = match d {
            _ if panicked || failed => continue,
            Ok(d) => d,
            Err(_) => {
                r.fail(format!("panic: drawing the diagram panicked: {}", rt::last_panic()));
                return r;
            }
        };
        r.add("diagrams", 1);
        r.nontrivial |= hit || names > 0;
        let after = if hit { " (after an interrupted diagram)" } else { "" };
        match read(&d) {
            Err(e) => {
                r.fail(format!("unreadable: {e}{after}: {d:?}"));
                return r;
            }
            Ok(k) => match tree::check_dot(&k, &g) {
                Ok(n) => r.add("states", n as u64),
                Err(e) => {
                    r.fail(format!("{e}{after}"));
                    return r;
                }
            },
        }
    }
    r
}

pub fn run(j: &J, _prop: &str) -> Option<Out> {
    let c = parw::decode(j)?;
    let names = j.get("names")?.us().filter(|n| *n < kinds::STYLES.len())?;
    let mut o = exec(&c.env, || {
        if c.copy {
            draw::<kinds::K>(&c, names)
        } else {
            draw::<kinds::T>(&c, names)
        }
    });
    parw::tally_faults(j, &mut o)?;
    if names > 0 {
        o.add("fault:awkward-names", 1);
    }
    Some(o)
}

pub fn gen(_prop: &str, rng: &mut Rng) -> J {
    let g = if rng.chance(50) { gram::gen_slr(rng) } else { gram::gen_gram(rng) };
    let mut ops = vec![];
    for _ in 0..rng.range(1, 5) {
        let s = ["draw", "draw", "panic", "fail", "again"][rng.below(5)];
        let at = if rng.chance(50) { rng.range(1, 12) } else { rng.range(1, 300) };
        ops.push(J::A(vec![J::str(s), J::num(at)]));
    }
    ops.push(J::A(vec![J::str("draw")]));
    let mut j = parw::case_json(rng, &g, false, 0, vec![], ops, vec![]);
    j.set("vals", J::num(0));
    j.set("names", J::num(rng.below(kinds::STYLES.len())));
    j
}
