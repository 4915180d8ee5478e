//! Readers for what the library prints: the Debug form of a tree and the
//! diagram of a state machine. They go by structure, not by field names.

use crate::gram::{Gram, S};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    /// `Name`, `Name(..)` or `Name { a: .. }`, with the values in order.
    Item(String, Vec<D>),
    List(Vec<D>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_whitespace()) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn seq(&mut self, end: u8, named: bool) -> Option<Vec<D>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Some(v);
            }
            if named {
                if self.word().is_empty() || !self.eat(b':') {
                    return None;
                }
            }
            v.push(self.val()?);
            if !self.eat(b',') {
                return self.eat(end).then_some(v);
            }
        }
    }
    fn val(&mut self) -> Option<D> {
        self.ws();
        if self.eat(b'[') {
            return Some(D::List(self.seq(b']', false)?));
        }
        if self.eat(b'(') {
            return Some(D::Item(String::new(), self.seq(b')', false)?));
        }
        let w = self.word();
        if w.is_empty() {
            return None;
        }
        if self.eat(b'(') {
            return Some(D::Item(w, self.seq(b')', false)?));
        }
        if self.eat(b'{') {
            return Some(D::Item(w, self.seq(b'}', true)?));
        }
        Some(D::Item(w, vec![]))
    }
}

pub fn read_debug(s: &str) -> Option<D> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    (p.i == p.s.len()).then_some(v)
}

/// A symbol as printed, with the value of a terminal.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sy {
    N(u8),
    T(u8, u32),
    E,
}

pub fn read_sym(w: &str) -> Option<Sy> {
    if w == "Epsilon" {
        return Some(Sy::E);
    }
    if let Some(n) = w.strip_prefix('n') {
        return n.parse().ok().map(Sy::N);
    }
    let (k, v) = w.strip_prefix('t')?.split_once('v')?;
    Some(Sy::T(k.parse().ok()?, v.parse().ok()?))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub sym: Sy,
    /// As printed (last to first).
    pub kids: Vec<Node>,
}

fn sym_of(d: &D) -> Option<Sy> {
    match d {
        D::Item(n, a) if n == "Epsilon" && a.is_empty() => Some(Sy::E),
        D::Item(n, a) if (n == "Variable" || n == "Terminal") && a.len() == 1 => match &a[0] {
            D::Item(w, b) if b.is_empty() => read_sym(w),
            _ => None,
        },
        _ => None,
    }
}

pub fn node_of(d: &D) -> Option<Node> {
    if let Some(sym) = sym_of(d) {
        return Some(Node { sym, kids: vec![] });
    }
    let D::Item(_, a) = d else { return None };
    if let Some(sym) = a.iter().find_map(sym_of) {
        let kids = a.iter().find_map(|x| match x {
            D::List(l) => Some(l.as_slice()),
            _ => None,
        });
        let kids = kids.unwrap_or(&[]).iter().map(node_of).collect::<Option<Vec<_>>>()?;
        return Some(Node { sym, kids });
    }
    match a.as_slice() {
        [x] => node_of(x),
        _ => None,
    }
}

/// Checks that the tree derives exactly `toks` from the start of `g` (normalised).
pub fn check_tree(root: &Node, g: &Gram, toks: &[(u8, u32)]) -> Result<(), String> {
    if root.sym != Sy::N(g.start) {
        return Err(format!("the root is {:?}, not the start variable", root.sym));
    }
    let mut leaves = vec![];
    walk(root, g, &mut leaves)?;
    if leaves != toks {
        return Err(format!("the leaves are {leaves:?}, the tokens were {toks:?}"));
    }
    Ok(())
}

fn walk(n: &Node, g: &Gram, leaves: &mut Vec<(u8, u32)>) -> Result<(), String> {
    match n.sym {
        Sy::E => {
            if !n.kids.is_empty() {
                return Err("an empty symbol has children".into());
            }
        }
        Sy::T(k, v) => {
            if !n.kids.is_empty() {
                return Err(format!("terminal t{k}v{v} has children"));
            }
            leaves.push((k, v));
        }
        Sy::N(h) => {
            let body: Vec<S> = n
                .kids
                .iter()
                .rev()
                .filter_map(|c| match c.sym {
                    Sy::N(v) => Some(S::N(v)),
                    Sy::T(k, _) => Some(S::T(k)),
                    Sy::E => None,
                })
                .collect();
            if !g.rules.iter().any(|(rh, b)| *rh == h && *b == body) {
                return Err(format!("n{h} -> {body:?} is not a rule of the grammar"));
            }
            for c in n.kids.iter().rev() {
                walk(c, g, leaves)?;
            }
        }
    }
    Ok(())
}

/// An item with empty symbols left out: head, body, position of the bullet.
pub type Item = (u8, Vec<S>, usize);

#[derive(Debug)]
pub struct Dot {
    pub states: BTreeMap<u64, Vec<Item>>,
    pub edges: BTreeMap<u64, Vec<(S, u64)>>,
}

fn label(l: &str) -> Option<&str> {
    let at = l.find("label")?;
    let a = at + l[at..].find('"')? + 1;
    let b = l.rfind('"')?;
    (b >= a).then(|| &l[a..b])
}

pub fn plain(w: &str) -> Option<S> {
    match read_sym(w)? {
        Sy::N(n) => Some(S::N(n)),
        Sy::T(k, _) => Some(S::T(k)),
        Sy::E => Some(S::E),
    }
}

pub fn read_dot(s: &str) -> Option<Dot> {
    let mut d = Dot { states: BTreeMap::new(), edges: BTreeMap::new() };
    for l in s.lines() {
        let t = l.trim();
        let num: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
        let Ok(id) = num.parse::<u64>() else { continue };
        let rest = t[num.len()..].trim_start();
        if let Some(r) = rest.strip_prefix("->") {
            let r = r.trim_start();
            let to: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
            let sym = plain(label(r)?.trim())?;
            d.edges.entry(id).or_default().push((sym, to.parse().ok()?));
        } else {
            let mut items = vec![];
            for it in label(rest)?.split("\\n").flat_map(|x| x.split("\\l")) {
                let ws: Vec<&str> = it.split_whitespace().collect();
                if ws.is_empty() {
                    continue;
                }
                let Some(Sy::N(h)) = read_sym(ws[0]) else { return None };
                let mut body = vec![];
                let mut dot = None;
                let mut marks = 0;
                // head, arrow, then symbols and exactly one bullet
                for w in &ws[1..] {
                    match plain(w) {
                        Some(S::E) => {}
                        Some(x) => body.push(x),
                        None => {
                            marks += 1;
                            if marks == 2 {
                                dot = Some(body.len());
                            }
                        }
                    }
                }
                if marks != 2 {
                    return None;
                }
                items.push((h, body, dot?));
            }
            if d.states.insert(id, items).is_some() {
                return None;
            }
        }
    }
    Some(d)
}

/// Compares a diagram with the canonical LR(0) automaton of `g` (normalised)
/// that starts from all rules of the start variable.
pub fn check_dot(d: &Dot, g: &Gram) -> Result<usize, String> {
    let kernel: BTreeSet<(usize, usize)> = g
        .rules
        .iter()
        .enumerate()
        .filter(|(_, r)| r.0 == g.start)
        .map(|(k, _)| (k, 0))
        .collect();
    let Some(a) = g.automaton(kernel, 2000) else { return Ok(0) };
    let name = |s: &BTreeSet<(usize, usize)>| -> BTreeSet<Item> {
        s.iter().map(|(r, p)| (g.rules[*r].0, g.rules[*r].1.clone(), *p)).collect()
    };
    let want: BTreeMap<BTreeSet<Item>, usize> =
        a.states.iter().enumerate().map(|(i, s)| (name(s), i)).collect();
    let mut of: BTreeMap<u64, usize> = BTreeMap::new();
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    for (id, items) in &d.states {
        let set: BTreeSet<Item> = items.iter().cloned().collect();
        if set.len() != items.len() {
            return Err(format!("repeated-item: state {id} lists an item twice: {items:?}"));
        }
        let Some(k) = want.get(&set) else {
            return Err(format!("wrong-state: state {id} {items:?} is not a state of the LR(0) automaton"));
        };
        if let Some(o) = seen.insert(*k, *id) {
            return Err(format!("repeated-state: states {o} and {id} have the same items {items:?}"));
        }
        of.insert(*id, *k);
    }
    if of.len() != a.states.len() {
        return Err(format!(
            "missing-state: {} states instead of {}",
            of.len(),
            a.states.len()
        ));
    }
    for (id, k) in &of {
        let mut got: BTreeMap<S, usize> = BTreeMap::new();
        for (s, to) in d.edges.get(id).map(|v| v.as_slice()).unwrap_or(&[]) {
            let Some(t) = of.get(to) else {
                return Err(format!("wrong-edge: edge of state {id} to {to}, which does not exist"));
            };
            if got.insert(*s, *t).is_some() {
                return Err(format!("wrong-edge: state {id} has two edges for {s:?}"));
            }
        }
        if got != a.edges[*k] {
            return Err(format!(
                "wrong-edge: state {id} has edges {got:?} instead of {:?}",
                a.edges[*k]
            ));
        }
    }
    if let Some(id) = d.edges.keys().find(|id| !of.contains_key(id)) {
        return Err(format!("wrong-edge: edges of state {id}, which does not exist"));
    }
    Ok(of.len())
}
