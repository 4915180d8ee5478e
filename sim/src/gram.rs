//! Grammars: generator and reference constructions (nullable, FIRST, FOLLOW,
//! canonical LR(0) automaton of the augmented grammar, SLR(1) conflicts,
//! derivability, viable prefixes). Written from the definitions, with naive
//! fixpoints over bit sets; shares nothing with the library.

use crate::json::J;
use crate::kinds::{self, MAX_T};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum S {
    T(u8),
    N(u8),
    E,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gram {
    pub start: u8,
    pub rules: Vec<(u8, Vec<S>)>,
}

pub const EOF: u128 = 1 << 127;

/// Variable of the rule added in front of a grammar.
const ADDED: u8 = 127;
/// Terminals of one kind with different values are this far apart.
const STRIDE: usize = 40;

/// Longest token sequence judged span by span; longer ones run through the textbook tables.
const SPANS: usize = 110;

impl Gram {
    pub fn to_json(&self) -> J {
        J::obj([
            ("start", J::num(self.start)),
            (
                "rules",
                J::A(self
                    .rules
                    .iter()
                    .map(|(h, b)| {
                        J::A(vec![
                            J::num(*h),
                            J::A(b
                                .iter()
                                .map(|s| match s {
                                    S::T(t) => J::S(kinds::letter(*t).to_string()),
                                    S::N(n) => J::num(*n),
                                    S::E => J::str("_"),
                                })
                                .collect()),
                        ])
                    })
                    .collect()),
            ),
        ])
    }
    pub fn from_json(j: &J) -> Option<Gram> {
        let u = |j: &J| u8::try_from(j.n()?).ok().filter(|v| *v < kinds::MAX_V);
        let rules = j
            .get("rules")?
            .a()?
            .iter()
            .map(|r| {
                let r = r.a()?;
                if r.len() != 2 {
                    return None;
                }
                let body = r[1]
                    .a()?
                    .iter()
                    .map(|s| match s {
                        J::N(_) => Some(S::N(u(s)?)),
                        J::S(x) if x == "_" => Some(S::E),
                        J::S(x) if x.chars().count() == 1 => Some(S::T(kinds::kind_of(x.chars().next()?)?)),
                        _ => None,
                    })
                    .collect::<Option<Vec<_>>>()?;
                Some((u(&r[0])?, body))
            })
            .collect::<Option<Vec<_>>>()?;
        let g = Gram { start: u(j.get("start")?)?, rules };
        if g.nt() > MAX_T {
            return None;
        }
        // two bodies that differ only in empty symbols are not distinguishable rules
        let n = g.norm();
        let set: BTreeSet<_> = n.rules.iter().collect();
        (set.len() == n.rules.len()).then_some(g)
    }
    pub fn nt(&self) -> usize {
        self.rules
            .iter()
            .flat_map(|(_, b)| b)
            .filter_map(|s| if let S::T(t) = s { Some(*t as usize + 1) } else { None })
            .max()
            .unwrap_or(0)
    }
    /// Empty symbols removed.
    pub fn norm(&self) -> Gram {
        Gram {
            start: self.start,
            rules: self
                .rules
                .iter()
                .map(|(h, b)| (*h, b.iter().copied().filter(|s| *s != S::E).collect()))
                .collect(),
        }
    }
    pub fn complete(&self) -> bool {
        let heads: BTreeSet<u8> = self.rules.iter().map(|r| r.0).collect();
        heads.contains(&self.start)
            && self
                .rules
                .iter()
                .flat_map(|r| &r.1)
                .all(|s| !matches!(s, S::N(n) if !heads.contains(n)))
    }
    pub fn size(&self) -> usize {
        self.rules.iter().map(|r| r.1.len() + 1).sum()
    }

    // The functions below expect a normalised grammar.

    pub fn productive(&self) -> u128 {
        let mut p = 0u128;
        loop {
            let o = p;
            for (h, b) in &self.rules {
                if b.iter().all(|s| match s {
                    S::N(n) => p >> n & 1 == 1,
                    _ => true,
                }) {
                    p |= 1 << h;
                }
            }
            if p == o {
                return p;
            }
        }
    }
    pub fn reachable(&self) -> u128 {
        let mut r = 1u128 << self.start;
        loop {
            let o = r;
            for (h, b) in &self.rules {
                if r >> h & 1 == 1 {
                    for s in b {
                        if let S::N(n) = s {
                            r |= 1 << n;
                        }
                    }
                }
            }
            if r == o {
                return r;
            }
        }
    }
    pub fn reduced(&self) -> bool {
        let heads = self.rules.iter().fold(0u128, |a, r| a | 1 << r.0);
        self.productive() & heads == heads && self.reachable() & heads == heads
    }
    /// Only rules made of productive, then reachable symbols.
    pub fn reduce(&self) -> Gram {
        let p = self.productive();
        let mut g = self.clone();
        g.rules.retain(|(h, b)| {
            p >> h & 1 == 1 && b.iter().all(|s| !matches!(s, S::N(n) if p >> n & 1 == 0))
        });
        let r = g.reachable();
        g.rules.retain(|(h, _)| r >> h & 1 == 1);
        g
    }
    pub fn nullable(&self) -> u128 {
        let mut p = 0u128;
        loop {
            let o = p;
            for (h, b) in &self.rules {
                if b.iter().all(|s| matches!(s, S::N(n) if p >> n & 1 == 1)) {
                    p |= 1 << h;
                }
            }
            if p == o {
                return p;
            }
        }
    }
    pub fn first(&self, nul: u128) -> Vec<u128> {
        let mut f = vec![0u128; 128];
        loop {
            let o = f.clone();
            for (h, b) in &self.rules {
                for s in b {
                    match s {
                        S::T(t) => {
                            f[*h as usize] |= 1 << t;
                            break;
                        }
                        S::N(n) => {
                            f[*h as usize] |= f[*n as usize];
                            if nul >> n & 1 == 0 {
                                break;
                            }
                        }
                        S::E => {}
                    }
                }
            }
            if f == o {
                return f;
            }
        }
    }
    pub fn follow(&self) -> Vec<u128> {
        let nul = self.nullable();
        let first = self.first(nul);
        let mut f = vec![0u128; 128];
        f[self.start as usize] |= EOF;
        loop {
            let o = f.clone();
            for (h, b) in &self.rules {
                let mut tail = f[*h as usize];
                for s in b.iter().rev() {
                    match s {
                        S::T(t) => tail = 1 << t,
                        S::N(n) => {
                            f[*n as usize] |= tail;
                            if nul >> n & 1 == 1 {
                                tail |= first[*n as usize];
                            } else {
                                tail = first[*n as usize];
                            }
                        }
                        S::E => {}
                    }
                }
            }
            if f == o {
                return f;
            }
        }
    }

    pub fn closure(&self, mut i: BTreeSet<(usize, usize)>) -> BTreeSet<(usize, usize)> {
        let mut todo: Vec<_> = i.iter().copied().collect();
        while let Some((r, d)) = todo.pop() {
            if let Some(S::N(n)) = self.rules[r].1.get(d) {
                for (k, (h, _)) in self.rules.iter().enumerate() {
                    if h == n && i.insert((k, 0)) {
                        todo.push((k, 0));
                    }
                }
            }
        }
        i
    }
    pub fn goto(&self, i: &BTreeSet<(usize, usize)>) -> BTreeMap<S, BTreeSet<(usize, usize)>> {
        let mut m: BTreeMap<S, BTreeSet<(usize, usize)>> = BTreeMap::new();
        for (r, d) in i {
            if let Some(s) = self.rules[*r].1.get(*d) {
                m.entry(*s).or_default().insert((*r, d + 1));
            }
        }
        m.into_iter().map(|(s, i)| (s, self.closure(i))).collect()
    }
    /// Canonical collection from the given kernel; None if more than `cap` states.
    pub fn automaton(&self, kernel: BTreeSet<(usize, usize)>, cap: usize) -> Option<Auto> {
        let s0 = self.closure(kernel);
        let mut ids = BTreeMap::from([(s0.clone(), 0usize)]);
        let mut states = vec![s0];
        let mut edges = vec![];
        let mut i = 0;
        while i < states.len() {
            let mut e = BTreeMap::new();
            for (s, n) in self.goto(&states[i].clone()) {
                let id = match ids.get(&n) {
                    Some(id) => *id,
                    None => {
                        let id = states.len();
                        ids.insert(n.clone(), id);
                        states.push(n);
                        id
                    }
                };
                e.insert(s, id);
            }
            edges.push(e);
            i += 1;
            if states.len() > cap {
                return None;
            }
        }
        Some(Auto { states, edges })
    }
    pub fn augmented_automaton(&self, cap: usize) -> Option<Auto> {
        let g = self.augmented();
        g.automaton(BTreeSet::from([(g.rules.len() - 1, 0)]), cap)
    }
    fn augmented(&self) -> Gram {
        let mut g = self.clone();
        g.rules.push((ADDED, vec![S::N(self.start)]));
        g
    }
    /// SLR(1) tables of the augmented grammar; Err = conflict, None = too big.
    pub fn slr(&self) -> Option<Result<Table, String>> {
        self.slr_by(128)
    }
    /// Terminals whose difference is a multiple of `stride` are the same to the tables.
    fn slr_by(&self, stride: usize) -> Option<Result<Table, String>> {
        let g = self.augmented();
        let fin = g.rules.len() - 1;
        let mut follow = self.follow();
        follow[ADDED as usize] = EOF;
        let a = g.automaton(BTreeSet::from([(fin, 0)]), 500)?;
        let mut act: Vec<BTreeMap<u128, Act>> = vec![];
        for (i, st) in a.states.iter().enumerate() {
            let mut m: BTreeMap<u128, Act> = BTreeMap::new();
            for (s, d) in &a.edges[i] {
                if let S::T(t) = s {
                    let new = Act::Shift(*d);
                    if let Some(old) = m.insert(1 << (*t as usize % stride), new) {
                        return Some(Err(format!("state {i}: {old:?} against {new:?} on terminal {t}")));
                    }
                }
            }
            for (r, d) in st {
                if *d == g.rules[*r].1.len() {
                    for b in 0..128 {
                        if follow[g.rules[*r].0 as usize] >> b & 1 != 0 {
                            let bit = 1u128 << if b == 127 { b } else { b % stride };
                            let new = if *r == fin { Act::Accept } else { Act::Reduce(*r) };
                            if let Some(old) = m.insert(bit, new).filter(|old| *old != new) {
                                return Some(Err(format!(
                                    "state {i}: {old:?} against {new:?} on {}",
                                    if b == 127 { "end".into() } else { format!("terminal {b}") }
                                )));
                            }
                        }
                    }
                }
            }
            act.push(m);
        }
        Some(Ok(Table { act, edges: a.edges }))
    }

    /// Runs the textbook tables over `w`: accepted, and tokens shifted. Needs
    /// an SLR(1) grammar.
    pub fn table_run(&self, w: &[u8]) -> (bool, usize) {
        let Some(Ok(t)) = self.slr() else { panic!("not an SLR(1) grammar of bounded size") };
        let mut stack = vec![0usize];
        let mut i = 0;
        loop {
            let look = w.get(i).map_or(EOF, |k| 1 << k);
            let top = *stack.last().unwrap();
            match t.act[top].get(&look) {
                Some(Act::Shift(s)) => {
                    stack.push(*s);
                    i += 1;
                }
                Some(Act::Reduce(r)) => {
                    stack.truncate(stack.len() - self.rules[*r].1.len());
                    let top = *stack.last().unwrap();
                    stack.push(t.edges[top][&S::N(self.rules[*r].0)]);
                }
                Some(Act::Accept) => return (true, i),
                None => return (false, i),
            }
        }
    }

    /// Does the start variable derive exactly `w`?
    pub fn derives(&self, w: &[u8]) -> bool {
        if w.len() > SPANS {
            return self.table_run(w).0;
        }
        let n = w.len();
        // d[v][i] = bit set of ends j with v =>* w[i..j]
        let vars = self.rules.iter().flat_map(|(h, b)| {
            b.iter().filter_map(|s| if let S::N(v) = s { Some(*v) } else { None }).chain([*h])
        });
        let vars = vars.max().unwrap_or(0).max(self.start) as usize + 1;
        let mut d = vec![vec![0u128; n + 1]; vars];
        loop {
            let o = d.clone();
            for (h, b) in &self.rules {
                for i in 0..=n {
                    let mut cur = 1u128 << i;
                    for s in b {
                        let mut nx = 0u128;
                        for k in 0..=n {
                            if cur >> k & 1 == 1 {
                                match s {
                                    S::T(t) => {
                                        if k < n && w[k] == *t {
                                            nx |= 1 << (k + 1);
                                        }
                                    }
                                    S::N(v) => nx |= d[*v as usize][k],
                                    S::E => nx |= 1 << k,
                                }
                            }
                        }
                        cur = nx;
                    }
                    d[*h as usize][i] |= cur;
                }
            }
            if d == o {
                return d[self.start as usize][0] >> n & 1 == 1;
            }
        }
    }

    /// Length of the longest prefix of `w` that some sentence starts with.
    /// Requires a grammar whose symbols are all productive.
    pub fn viable(&self, w: &[u8]) -> usize {
        if w.len() > SPANS {
            return self.table_run(w).1;
        }
        // Earley recogniser: a non-empty item set after k tokens means the
        // first k tokens are a viable prefix (all symbols productive).
        let nul = self.nullable();
        let close = |sets: &[BTreeSet<(usize, usize, usize)>],
                     mut cur: BTreeSet<(usize, usize, usize)>,
                     at: usize| {
            loop {
                let mut add = vec![];
                for (r, d, o) in &cur {
                    match self.rules[*r].1.get(*d) {
                        Some(S::N(v)) => {
                            for (k, (h, _)) in self.rules.iter().enumerate() {
                                if h == v {
                                    add.push((k, 0, at));
                                }
                            }
                            if nul >> v & 1 == 1 {
                                add.push((*r, d + 1, *o));
                            }
                        }
                        Some(_) => {}
                        None => {
                            let h = self.rules[*r].0;
                            let from = if *o == at { &cur } else { &sets[*o] };
                            for (r2, d2, o2) in from {
                                if self.rules[*r2].1.get(*d2) == Some(&S::N(h)) {
                                    add.push((*r2, d2 + 1, *o2));
                                }
                            }
                        }
                    }
                }
                let n = cur.len();
                cur.extend(add);
                if cur.len() == n {
                    return cur;
                }
            }
        };
        let mut sets: Vec<BTreeSet<(usize, usize, usize)>> = vec![];
        let init = self
            .rules
            .iter()
            .enumerate()
            .filter(|(_, r)| r.0 == self.start)
            .map(|(k, _)| (k, 0, 0))
            .collect();
        sets.push(close(&sets, init, 0));
        for (i, t) in w.iter().enumerate() {
            let next: BTreeSet<_> = sets[i]
                .iter()
                .filter(|(r, d, _)| self.rules[*r].1.get(*d) == Some(&S::T(*t)))
                .map(|(r, d, o)| (*r, d + 1, *o))
                .collect();
            if next.is_empty() {
                return i;
            }
            let c = close(&sets, next, i + 1);
            sets.push(c);
        }
        w.len()
    }

    /// A random sentence (normalised, all symbols productive); None if too long.
    pub fn sentence(&self, rng: &mut Rng, target: usize) -> Option<Vec<u8>> {
        self.sentence_up_to(rng, target, 110)
    }
    pub fn sentence_up_to(&self, rng: &mut Rng, target: usize, max: usize) -> Option<Vec<u8>> {
        // cheapest derivation depth per rule, to be able to finish
        let mut h = vec![usize::MAX; 128];
        let cost = |h: &Vec<usize>, b: &Vec<S>| {
            b.iter().try_fold(1usize, |a, s| match s {
                S::N(n) if h[*n as usize] == usize::MAX => None,
                S::N(n) => Some(a.max(1 + h[*n as usize])),
                _ => Some(a),
            })
        };
        loop {
            let mut ch = false;
            for (v, b) in &self.rules {
                if let Some(c) = cost(&h, b) {
                    if c < h[*v as usize] {
                        h[*v as usize] = c;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out = vec![];
        let mut stack = vec![S::N(self.start)];
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            match s {
                S::T(t) => out.push(t),
                S::E => {}
                S::N(v) => {
                    steps += 1;
                    let cands: Vec<_> = self
                        .rules
                        .iter()
                        .filter(|r| r.0 == v && cost(&h, &r.1).is_some())
                        .collect();
                    if cands.is_empty() || steps > 18 * max || out.len() > max {
                        return None;
                    }
                    let pick = if out.len() + stack.len() >= target || steps > 3 * max {
                        cands.iter().min_by_key(|r| cost(&h, &r.1)).unwrap()
                    } else {
                        rng.pick(&cands)
                    };
                    stack.extend(pick.1.iter().rev());
                }
            }
        }
        (out.len() <= max).then_some(out)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

pub struct Auto {
    pub states: Vec<BTreeSet<(usize, usize)>>,
    pub edges: Vec<BTreeMap<S, usize>>,
}

pub struct Table {
    pub act: Vec<BTreeMap<u128, Act>>,
    pub edges: Vec<BTreeMap<S, usize>>,
}

/// Value of the terminal at place `i` of a body.
pub fn value(vals: u64, body: &[S], i: usize) -> u8 {
    if vals == 0 {
        return 0;
    }
    let mut h = vals;
    for s in body {
        h = crate::rng::mix(h ^ match s {
            S::T(t) => *t as u64,
            S::N(n) => 200 + *n as u64,
            S::E => continue,
        });
    }
    (crate::rng::mix(h ^ i as u64) % 3) as u8
}

/// Does it make no difference to the verdict whether terminals of one kind with
/// different values count as different symbols or as the same?
pub fn values_clear(g: &Gram, vals: u64) -> bool {
    if vals == 0 {
        return true;
    }
    if g.nt() > STRIDE {
        return false;
    }
    let mut v = g.clone();
    for (r, (_, b)) in g.rules.iter().zip(&mut v.rules) {
        for i in 0..b.len() {
            if let S::T(t) = &mut b[i] {
                *t += STRIDE as u8 * value(vals, &r.1, i);
            }
        }
    }
    matches!(
        (verdict(g), verdict_by(&v, STRIDE)),
        (Verdict::Accept, Verdict::Accept) | (Verdict::Refuse(_), Verdict::Refuse(_))
    )
}

/// What the definition says about a grammar.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Refuse(String),
    /// Useless symbols make the textbook constructions disagree, or too large.
    Unclear,
}

pub fn verdict(g: &Gram) -> Verdict {
    verdict_by(g, 128)
}

fn verdict_by(g: &Gram, stride: usize) -> Verdict {
    if !g.complete() {
        return Verdict::Refuse("incomplete".into());
    }
    let n = g.norm();
    let full = n.slr_by(stride);
    if n.reduced() {
        return match full {
            None => Verdict::Unclear,
            Some(Ok(_)) => Verdict::Accept,
            Some(Err(e)) => Verdict::Refuse(e),
        };
    }
    let red = n.reduce();
    if !red.complete() {
        return Verdict::Unclear;
    }
    // unreachable rules only add to FOLLOW; non-productive ones add items
    match (full, red.slr_by(stride)) {
        (Some(Ok(_)), Some(Ok(_))) => Verdict::Accept,
        (Some(Err(e)), Some(Err(_))) => Verdict::Refuse(e),
        _ => Verdict::Unclear,
    }
}

// ---------------------------------------------------------------- generation

/// Hand-written grammars covering the shapes the parser has to deal with.
/// Upper case = variables (start first), lower case = terminals, `_` = empty.
pub const TEMPLATES: &[&str] = &[
    "S=aSb|_",
    "S=aS|b",
    "S=Sa|b",
    "S=aSa|b",
    "S=A;A=a",
    "S=A;A=B;B=a|_",
    "S=dSe|x",
    "E=EpT|T;T=TmF|F;F=lEr|i",
    "E=TR;R=pTR|_;T=FQ;Q=mFQ|_;F=lEr|i",
    "S=AB;A=a|_;B=b|_",
    "S=ABC;A=a|_;B=b|_;C=c",
    "S=ABCD;A=a|_;B=b|_;C=c|_;D=d|_",
    "S=aA|bB;A=c|cA;B=d|_",
    "S=ab|ac",
    "S=aB|aC;B=b;C=c",
    "S=Aa|Bb;A=c;B=d",
    "S=SS|a",
    "S=aSb|ab",
    "L=LcI|I;I=i|lLr",
    "L=I|IcL;I=i|lLr|lr",
    "S=iSeS|iS|a",
    "S=_",
    "S=_a_b_",
    "S=A_a;A=_|b_A",
    "S=aAd|bBd;A=e;B=e",
    "S=aAd|bBd|aBe|bAe;A=c;B=c",
    "S=LqR|R;L=sR|i;R=L",
    "S=AaAb|BbBa;A=_;B=_",
    "S=xS|A;A=yA|z",
    "S=ACB|Cbb|Ba;A=da|BC;B=g|_;C=h|_",
    "S=aBDh;B=cC;C=bC|_;D=EF;E=g|_;F=f|_",
    "S=Sab|c|_",
    "S=AS|a;A=b",
    "S=aSc|B;B=bB|_",
    "S=D;D=Dd|E;E=e|lDr|lr",
    "S=S",
    "S=Sa",
    "S=A|a;A=A",
    "S=aA;A=S|_",
    "S=A;A=Ba|c;B=Ab|d",
    "S=BA;A=aB|_;B=bA|c",
    "S=xAy|xBz;A=a;B=a",
    "S=AA;A=aA|b",
    "S=EE;E=e|_",
    "S=aa|a",
    "S=A|B;A=a;B=a",
    "S=TU;T=t|_;U=uT|_",
    "S=kSk|_",
    "P=SP|_;S=ivE|wE;E=n|lEr",
    "J=oMc|bVd|n;M=_|R;R=P|PkR;P=sJ;V=_|L;L=J|JkL",
];

pub fn parse_template(t: &str) -> Gram {
    let mut names: Vec<char> = vec![];
    let mut terms: Vec<char> = vec![];
    let mut rules = vec![];
    let vid = |c: char, names: &mut Vec<char>| match names.iter().position(|x| *x == c) {
        Some(i) => i as u8,
        None => {
            names.push(c);
            names.len() as u8 - 1
        }
    };
    for r in t.split(';') {
        let (h, alts) = r.split_once('=').unwrap();
        let h = vid(h.chars().next().unwrap(), &mut names);
        for a in alts.split('|') {
            let body = a
                .chars()
                .map(|c| match c {
                    '_' => S::E,
                    c if c.is_ascii_uppercase() => S::N(vid(c, &mut names)),
                    c => S::T(match terms.iter().position(|x| *x == c) {
                        Some(i) => i as u8,
                        None => {
                            terms.push(c);
                            terms.len() as u8 - 1
                        }
                    }),
                })
                .collect();
            rules.push((h, body));
        }
    }
    Gram { start: 0, rules }
}

pub fn dedup(g: &mut Gram) {
    let mut seen = BTreeSet::new();
    g.rules.retain(|(h, b)| {
        seen.insert((*h, b.iter().copied().filter(|s| *s != S::E).collect::<Vec<_>>()))
    });
}

fn rand_sym(rng: &mut Rng, nv: usize, nt: usize) -> S {
    if rng.chance(50) {
        S::T(rng.below(nt) as u8)
    } else {
        S::N(rng.below(nv) as u8)
    }
}

/// Sprinkle explicit empty symbols into bodies.
pub fn add_eps(rng: &mut Rng, g: &mut Gram, percent: usize) {
    for (_, b) in g.rules.iter_mut() {
        while rng.chance(percent) && b.len() < 9 {
            let i = rng.range(0, b.len());
            b.insert(i, S::E);
        }
    }
}

/// More than 256 states, from many or from very long bodies.
fn gen_wide(rng: &mut Rng) -> Gram {
    let mut rules: Vec<(u8, Vec<S>)> = vec![];
    let total = rng.range(258, 330);
    let long = rng.chance(40);
    let vars = rng.range(1, 3) as u8;
    let mut n = 0;
    while n < total {
        let l = if long { rng.range(80, 280) } else { rng.range(5, 30) };
        let mut b: Vec<S> = vec![];
        if rng.chance(30) && !rules.is_empty() {
            // a beginning shared with an earlier body
            let (_, o) = &rules[rng.below(rules.len())];
            b.extend(&o[..rng.range(1, o.len())]);
        }
        while b.len() < l {
            b.push(match rng.below(40) {
                0 => S::N(rng.below(vars as usize) as u8),
                _ => S::T(rng.below(19) as u8),
            });
        }
        let rule = (rng.below(vars as usize) as u8, b);
        if rule.1.len() <= 300 && !rules.contains(&rule) {
            n += l;
            rules.push(rule);
        }
    }
    for v in 0..vars {
        rules.push((v, vec![S::T(19); v as usize + 1]));
    }
    Gram { start: 0, rules }
}

/// More symbols than a word has bits: statements told apart by their first
/// token, each with parts of its own.
fn gen_many(rng: &mut Rng) -> Gram {
    let mut rules: Vec<(u8, Vec<S>)> = vec![];
    // 0 is the list, 1 the statement, 2 the expression
    let (vars, terms) = match rng.below(3) {
        0 => (rng.range(4, 12), rng.range(66, MAX_T - 1)),
        1 => (rng.range(66, kinds::MAX_V as usize - 1), rng.range(20, 60)),
        _ => (rng.range(30, 110), rng.range(30, MAX_T - 1)),
    };
    rules.push((0, if rng.chance(50) { vec![S::N(0), S::N(1)] } else { vec![S::N(1), S::N(0)] }));
    rules.push((0, vec![]));
    rules.push((2, vec![S::T(0)]));
    rules.push((2, vec![S::T(1), S::N(2), S::T(2)]));
    // the first few terminals begin no statement
    let inner = rng.range(5, 12) as u8;
    for t in inner..terms as u8 {
        let mut b = vec![S::T(t)];
        if rng.chance(50) {
            b.push(S::T(rng.below(terms) as u8));
        }
        if rng.chance(60) {
            b.push(S::N(if rng.chance(40) { 2 } else { rng.range(2, vars - 1) as u8 }));
        }
        rules.push((1, b));
    }
    for v in 3..vars as u8 {
        let t = match rng.below(200) {
            0 => rng.below(terms),
            1..=99 => rng.below(3),
            _ => rng.range(4, inner as usize - 1),
        };
        let mut b = vec![S::T(t as u8)];
        if v + 1 < vars as u8 {
            b.push(S::N(v + 1));
        }
        rules.push((v, b));
        if rng.chance(40) {
            rules.push((v, vec![]));
        }
    }
    rules.push((1, vec![S::T(3), S::N(3)]));
    let mut g = Gram { start: 0, rules };
    dedup(&mut g);
    g
}

/// A few rules, one or two of them with bodies of hundreds of symbols.
fn gen_long_body(rng: &mut Rng) -> Gram {
    let mut rules = vec![(1, vec![S::T(1)]), (2, vec![S::T(2), S::N(1)]), (3, vec![])];
    if rng.chance(50) {
        rules.push((2, vec![S::T(3)]));
    }
    if rng.chance(40) {
        rules.push((1, vec![S::T(4), S::N(0), S::T(5)]));
    }
    let mut body = vec![S::T(0)];
    let n = if rng.chance(70) { rng.range(250, 270) } else { rng.range(60, 330) };
    let period: Vec<S> = (0..rng.range(1, 4))
        .map(|_| if rng.chance(80) { S::T(rng.range(1, 4) as u8) } else { S::N(rng.range(1, 2) as u8) })
        .collect();
    while body.len() < n {
        let s = period[body.len() % period.len()];
        body.push(match rng.below(100) {
            0 => S::N(rng.range(1, 3) as u8),
            1 | 2 => S::T(rng.range(1, 4) as u8),
            _ => s,
        });
    }
    if rng.chance(30) {
        let mut b = body[..rng.range(1, body.len())].to_vec();
        b.push(S::T(6));
        rules.push((0, b));
    }
    rules.push((0, body));
    if rng.chance(50) {
        rules.push((0, vec![S::T(7), S::N(0)]));
    }
    rng.shuffle(&mut rules);
    let mut g = Gram { start: 0, rules };
    dedup(&mut g);
    g
}

pub fn gen_gram(rng: &mut Rng) -> Gram {
    loop {
        let g = gen_any(rng);
        // Automata can be exponential in the grammar; what such a grammar costs is C15's matter.
        if g.rules.len() <= 8 || !g.complete() || g.norm().augmented_automaton(500).is_some() {
            return g;
        }
    }
}

fn gen_any(rng: &mut Rng) -> Gram {
    if rng.below(700) == 0 {
        let g = gen_long_body(rng);
        if g.norm().augmented_automaton(480).is_some() {
            return g;
        }
    }
    if rng.below(500) == 0 {
        let g = gen_many(rng);
        if g.norm().augmented_automaton(500).is_some() {
            return g;
        }
    }
    if rng.below(400) == 0 {
        let g = gen_wide(rng);
        if g.norm().augmented_automaton(500).is_some() {
            return g;
        }
    }
    if rng.chance(4) {
        let g = crate::bound::gen_big(rng);
        let small = |a: Auto| a.states.iter().map(|s| s.len()).sum::<usize>() <= 1500;
        if g.norm().augmented_automaton(150).is_some_and(small) {
            return g;
        }
    }
    let mut g = match rng.below(10) {
        0..=3 => {
            let mut g = parse_template(rng.pick(TEMPLATES));
            // mutate
            for _ in 0..[0, 0, 1, 1, 2, 3][rng.below(6)] {
                mutate(rng, &mut g);
            }
            g
        }
        4..=6 => {
            // LL-like: alternatives start with distinct terminals
            let (nv, nt) =
                if rng.chance(10) { (rng.range(4, 10), 18) } else { (rng.range(1, 5), 9) };
            let mut rules = vec![];
            let mut next = 0u8;
            for v in 0..nv {
                for _ in 0..rng.range(1, 3) {
                    let t = next % nt;
                    next += 1;
                    let mut b = vec![S::T(t)];
                    for _ in 0..rng.range(0, 3) {
                        b.push(rand_sym(rng, nv, next.min(nt) as usize));
                    }
                    rules.push((v as u8, b));
                }
                if rng.chance(40) {
                    rules.push((v as u8, vec![]));
                }
            }
            Gram { start: 0, rules }
        }
        7 => {
            // layered operators
            let n = rng.range(1, 4);
            let mut rules = vec![];
            let mut t = 0u8;
            for l in 0..n {
                let (this, up) = (l as u8, l as u8 + 1);
                let op = t;
                t += 1;
                match rng.below(5) {
                    0 => rules.push((this, vec![S::N(this), S::T(op), S::N(up)])),
                    1 => rules.push((this, vec![S::N(up), S::T(op), S::N(this)])),
                    2 => rules.push((this, vec![S::N(this), S::N(up)])),
                    3 => rules.push((this, vec![S::T(op), S::N(this)])),
                    _ => rules.push((this, vec![S::N(up), S::T(op)])),
                }
                rules.push((this, vec![S::N(up)]));
            }
            let leaf = n as u8;
            rules.push((leaf, vec![S::T(t)]));
            if rng.chance(70) {
                rules.push((leaf, vec![S::T(t + 1), S::N(0), S::T(t + 2)]));
            }
            if rng.chance(20) {
                rules.push((leaf, vec![]));
            }
            Gram { start: 0, rules }
        }
        _ => {
            let nv = rng.range(1, 4);
            let nt = rng.range(1, 4);
            let mut rules = vec![];
            for v in 0..nv {
                for _ in 0..rng.range(1, 3) {
                    let b = (0..rng.range(0, 3)).map(|_| rand_sym(rng, nv, nt)).collect();
                    rules.push((v as u8, b));
                }
            }
            Gram { start: rng.below(nv) as u8, rules }
        }
    };
    if rng.chance(25) {
        add_eps(rng, &mut g, 25);
    }
    if rng.chance(8) {
        // a second explicit empty body for an existing empty rule is normalised away
        let k = rng.below(g.rules.len());
        if g.rules[k].1.is_empty() {
            g.rules[k].1 = vec![S::E; rng.range(1, 2)];
        }
    }
    dedup(&mut g);
    g
}

pub fn mutate(rng: &mut Rng, g: &mut Gram) {
    let nv = g.rules.iter().map(|r| r.0 as usize + 1).max().unwrap();
    let nt = g.nt().max(1);
    let k = rng.below(g.rules.len());
    match rng.below(7) {
        0 => {
            let h = rng.below(nv) as u8;
            let b = (0..rng.range(0, 3)).map(|_| rand_sym(rng, nv, nt + 1)).collect();
            g.rules.push((h, b));
        }
        1 if g.rules.len() > 1 => {
            g.rules.remove(k);
        }
        2 if !g.rules[k].1.is_empty() => {
            let i = rng.below(g.rules[k].1.len());
            g.rules[k].1[i] = rand_sym(rng, nv, nt + 1);
        }
        3 if g.rules[k].1.len() < 6 => {
            let i = rng.range(0, g.rules[k].1.len());
            g.rules[k].1.insert(i, rand_sym(rng, nv, nt + 1));
        }
        4 if !g.rules[k].1.is_empty() => {
            let i = rng.below(g.rules[k].1.len());
            g.rules[k].1.remove(i);
        }
        5 => g.start = g.rules[k].0,
        _ => {
            // a fresh variable standing for one symbol
            if !g.rules[k].1.is_empty() && nv < 12 {
                let i = rng.below(g.rules[k].1.len());
                let old = g.rules[k].1[i];
                g.rules[k].1[i] = S::N(nv as u8);
                g.rules.push((nv as u8, vec![old]));
                if rng.chance(40) {
                    g.rules.push((nv as u8, vec![]));
                }
            }
        }
    }
}

/// A grammar the definition accepts, with useful symbols only.
pub fn gen_slr(rng: &mut Rng) -> Gram {
    for _ in 0..60 {
        let g = gen_gram(rng);
        if g.complete() && g.norm().reduced() && g.nt() < MAX_T && verdict(&g) == Verdict::Accept {
            return g;
        }
    }
    parse_template("S=aSb|_")
}

/// Damage a token sequence; returns the kind of damage.
pub fn damage(rng: &mut Rng, w: &mut Vec<u8>, nt: usize) -> &'static str {
    let n = w.len();
    match rng.below(6) {
        0 if n > 0 => {
            w.remove(rng.below(n));
            "token-lost"
        }
        1 if n > 0 => {
            let i = rng.below(n);
            w.insert(i, w[i]);
            "token-duplicated"
        }
        2 if n > 1 => {
            let (i, j) = (rng.below(n), rng.below(n));
            w.swap(i, j);
            "tokens-exchanged"
        }
        3 if n > 0 => {
            w.truncate(rng.below(n));
            "input-truncated"
        }
        4 if n > 0 => {
            let i = rng.below(n);
            w[i] = rng.below(nt.max(1)) as u8;
            "token-replaced"
        }
        _ => {
            let i = rng.range(0, n);
            w.insert(i, rng.below(nt.max(1)) as u8);
            "token-inserted"
        }
    }
}
