//! Simulated world of lexers: several live lexers, pulled in a scheduled order,
//! with abandonment, restarts, relocation, re-entrant pulls, pulls past the end
//! and panicking constructors.

use crate::json::J;
use crate::kinds::{self, Decl, Def, Lx, Term};
use crate::out::{exec, Out, R};
use crate::re::{self, Re};
use crate::rng::Rng;
use crate::rt::{self, Env};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct DefSet {
    pub res: Vec<Re>,
    pub decls: Vec<usize>,
}

pub struct LexCase {
    pub env: Env,
    pub copy: bool,
    pub sets: Vec<DefSet>,
    pub lexers: Vec<(usize, String)>,
    pub ops: Vec<Op>,
    pub extra: usize,
    /// Way of asking for the next token.
    pub way: usize,
}

#[derive(Clone, Debug)]
pub enum Op {
    Pull(usize),
    /// Pull with the constructor panicking.
    Panic(usize),
    /// Pull the first; inside its constructor pull the second.
    Nest(usize, usize),
    Drop(usize),
    New(usize),
    Move(usize),
}

pub fn set_json(s: &DefSet) -> J {
    J::A(s.res
        .iter()
        .zip(&s.decls)
        .map(|(r, d)| J::A(vec![r.to_json(), J::num(*d)]))
        .collect())
}

pub fn set_from(j: &J) -> Option<DefSet> {
    let a = j.a()?;
    if a.is_empty() || a.len() > kinds::MAX_DEFS {
        return None;
    }
    let mut s = DefSet { res: vec![], decls: vec![] };
    for d in a {
        let d = d.a()?;
        if d.len() != 2 {
            return None;
        }
        s.res.push(Re::from_json(&d[0])?);
        s.decls.push(d[1].us()?);
    }
    Some(s)
}

pub fn defs_of(s: &DefSet) -> Vec<Def> {
    s.res
        .iter()
        .zip(&s.decls)
        .map(|(r, d)| Def { pattern: r.print(), decl: Decl::from_n(*d) })
        .collect()
}

pub fn env_json(rng: &mut Rng) -> (J, J) {
    (J::num((rng.next() >> 2) as i64), J::num((rng.next() >> 44) as i64))
}

pub fn env_from(j: &J, work: u64) -> Option<Env> {
    Some(Env {
        keys: j.get("keys")?.n()? as u64,
        gaps: j.get("gaps")?.n()? as u64,
        reuse: j.get("gaps")?.n()? & 7 == 7,
        work,
        stack: 64 << 20,
    })
}

pub const WORK: u64 = 6_000_000;

/// Longest text of a lexer that is only asked where its tokens are, in
/// characters of four bytes.
pub const HUGE: usize = 80_000;

pub fn decode(j: &J, prop: &str) -> Option<LexCase> {
    let sets = j.get("sets")?.a()?.iter().map(set_from).collect::<Option<Vec<_>>>()?;
    let lexers = j
        .get("lexers")?
        .a()?
        .iter()
        .map(|l| {
            let l = l.a()?;
            let mut t = l.get(1)?.s()?.to_string();
            if let Some(n) = l.get(2) {
                // the text over and over, something behind it, something in front of it
                let n = n.us().filter(|n| n.saturating_mul(t.len()) <= 4 * HUGE)?;
                t = t.repeat(n);
                if let Some(tail) = l.get(3) {
                    t.push_str(tail.s()?);
                }
                if let Some(head) = l.get(4) {
                    t.insert_str(0, head.s()?);
                }
            }
            // C03 needs no matcher
            let k = l[0].us().filter(|k| *k < sets.len())?;
            let most = match prop {
                "C03" => usize::MAX,
                "C02" if sets[k].res.iter().all(Re::counted) => re::COUNTED,
                _ => re::LONGEST,
            };
            (t.chars().count() <= most).then_some(())?;
            Some((k, t))
        })
        .collect::<Option<Vec<_>>>()?;
    let n = lexers.len();
    let ops = j
        .get("ops")?
        .a()?
        .iter()
        .map(|o| {
            let o = o.a()?;
            let i = o.get(1)?.us().filter(|i| *i < n)?;
            Some(match (o[0].s()?, o.len()) {
                ("p", 2) => Op::Pull(i),
                ("panic", 2) => Op::Panic(i),
                ("nest", 3) => Op::Nest(i, o[2].us().filter(|i| *i < n)?),
                ("drop", 2) => Op::Drop(i),
                ("new", 2) => Op::New(i),
                ("move", 2) => Op::Move(i),
                _ => return None,
            })
        })
        .collect::<Option<Vec<_>>>()?;
    // lookahead over a long text is quadratic
    let long = lexers.iter().any(|(_, t)| t.len() > 500);
    let mut env = env_from(j, if long { 20 * WORK } else { WORK })?;
    // a huge one would not fit into memory that is never reused
    env.reuse |= lexers.iter().any(|(_, t)| t.len() > 4 * re::LONG);
    Some(LexCase {
        env,
        copy: j.get("copy")?.n()? != 0,
        sets,
        lexers,
        ops,
        extra: j.get("extra")?.us()?,
        way: j.get("way").and_then(|w| w.us()).filter(|w| *w <= WAYS).unwrap_or(0),
    })
}

// ---------------------------------------------------------------- model

/// Ways of asking an iterator for its next element.
const WAYS: usize = 5;

fn ask<I: Iterator>(it: &mut I, way: usize) -> Option<I::Item> {
    match way {
        1 => it.nth(0),
        2 => it.find(|_| true),
        3 => it.try_for_each(Err).err(),
        4 => it.by_ref().take(1).last(),
        _ => it.next(),
    }
}

/// Longest non-empty match at `pos`: (definition, length).
pub fn model_next(res: &[Re], t: &[char], pos: usize) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for (d, r) in res.iter().enumerate() {
        if let Some(len) = re::longest(r, &t[pos.min(t.len())..]) {
            if best.map_or(true, |(_, l)| len > l) {
                best = Some((d, len));
            }
        }
    }
    best
}

// ---------------------------------------------------------------- world

struct Tok {
    kind: u8,
    src: String,
    pos: (usize, usize),
}

struct Slot<X: Term> {
    id: usize,
    set: usize,
    text: &'static str,
    chars: Vec<char>,
    lx: Option<Box<Lx<X>>>,
    /// Characters delivered so far, going by the texts of the tokens.
    at: usize,
    /// Position of the last token's end as reported.
    end: usize,
    ended: bool,
    broken: bool,
    count: usize,
    /// C04: tokens delivered, and the fewest and most announced then.
    hints: Vec<(usize, usize, Option<usize>)>,
    /// C05: possible indices into the undisturbed stream.
    cand: Vec<usize>,
}

type Shared<X> = Rc<RefCell<Slot<X>>>;

struct World<X: Term> {
    prop: String,
    sets: Vec<Vec<Re>>,
    decls: Vec<Vec<usize>>,
    defs: Vec<Vec<Def>>,
    slots: Vec<Shared<X>>,
    /// C05: undisturbed stream per slot.
    twin: RefCell<Vec<Vec<Tok>>>,
    way: usize,
    r: RefCell<R>,
}

fn say(t: &[char], pos: usize) -> String {
    t[pos.min(t.len())..].iter().take(12).collect()
}

fn brief(t: &str) -> String {
    match t.chars().count() {
        0..=1000 => t.to_string(),
        n => format!("{}... ({n} characters)", t.chars().take(30).collect::<String>()),
    }
}

impl<X: Term> World<X> {
    fn fresh(&self, set: usize, text: &'static str) -> Option<Box<Lx<X>>> {
        match catch_unwind(AssertUnwindSafe(|| X::lexer(&self.defs[set], text))) {
            Ok(Ok(l)) => Some(Box::new(l)),
            // C01 and C02 say what valid definitions mean; the others start from a lexer
            Ok(Err(e)) => {
                // a count that is too large may be refused
                if !self.sets[set].iter().any(Re::vast) && matches!(self.prop.as_str(), "C01" | "C02") {
                    self.r.borrow_mut().fail(format!(
                        "refused: valid definitions {:?} refused: {e}",
                        self.defs[set].iter().map(|d| d.pattern.clone()).collect::<Vec<_>>()
                    ));
                }
                None
            }
            Err(_) => {
                if matches!(self.prop.as_str(), "C01" | "C02") {
                    self.r.borrow_mut().fail(format!(
                        "panic: building definitions {:?} panicked: {}",
                        self.defs[set].iter().map(|d| d.pattern.clone()).collect::<Vec<_>>(),
                        rt::last_panic()
                    ));
                }
                None
            }
        }
    }

    fn restart(&self, s: &mut Slot<X>) {
        s.lx = self.fresh(s.set, s.text);
        s.at = 0;
        s.end = 0;
        s.ended = false;
        s.broken = false;
        s.count = 0;
        s.hints.clear();
        s.cand = vec![0];
    }

    /// One pull of slot `i`, judged. `fault`: the constructor panics.
    fn pull(self: &Rc<Self>, i: usize, fault: bool, nested: Option<usize>) {
        let slot = self.slots[i].clone();
        let Some(mut lx) = slot.borrow_mut().lx.take() else { return };
        let outer_calls = kinds::take_calls();
        let nest_done = Rc::new(RefCell::new(false));
        if let Some(j) = nested {
            let w = self.clone();
            let d = nest_done.clone();
            rt::nest(
                rt::MASK_CTOR,
                1,
                Box::new(move || {
                    *d.borrow_mut() = true;
                    w.pull(j, false, None);
                }),
            );
        }
        if fault {
            rt::arm(rt::MASK_CTOR, 1);
        }
        let w0 = rt::work();
        let way = match self.way {
            WAYS => (slot.borrow().count + i) % WAYS,
            w => w,
        };
        if self.prop == "C04" {
            let (lo, hi) = lx.size_hint();
            let mut s = slot.borrow_mut();
            let n = s.count;
            s.hints.push((n, lo, hi));
        }
        let res = catch_unwind(AssertUnwindSafe(|| ask(&mut *lx, way)));
        rt::note(rt::work() - w0);
        let fired = fault && rt::disarm();
        if nested.is_some() {
            rt::unnest();
        }
        let calls = kinds::take_calls();
        kinds::put_calls(outer_calls);
        let mut s = slot.borrow_mut();
        s.lx = Some(lx);
        let mut r = self.r.borrow_mut();
        r.add("pulls", 1);
        if fired {
            r.add("fault:constructor-panic", 1);
        }
        if *nest_done.borrow() {
            r.add("fault:reentrant-pull", 1);
        }
        if s.ended {
            r.add("fault:pull-past-end", 1);
        }
        if s.broken {
            return;
        }
        match res {
            Err(_) if fired => {
                if self.prop == "C05" {
                    self.judge_panic(&mut s, &mut r, &calls);
                }
                rt::note(0xFA);
            }
            Err(_) => {
                r.fail(format!(
                    "panic: pulling lexer {} over {:?} panicked at {:?}: {}",
                    s.id, brief(s.text), say(&s.chars, s.at), rt::last_panic()
                ));
                s.broken = true;
            }
            Ok(t) => {
                let t = t.map(|t| Tok { kind: t.kind.kind(), src: t.source, pos: t.pos });
                rt::note(match &t {
                    Some(t) => (t.kind as u64) << 32 | (t.pos.0 as u64) << 16 | t.pos.1 as u64,
                    None => 0xEE,
                });
                self.judge(&mut s, &mut r, t, &calls);
            }
        }
    }

    fn judge(&self, s: &mut Slot<X>, r: &mut R, t: Option<Tok>, calls: &[(usize, Option<String>)]) {
        let n = s.chars.len();
        match self.prop.as_str() {
            "C01" | "C02" => {
                let first_only = self.prop == "C02";
                if !s.ended && !(first_only && s.count > 0) {
                    let want = model_next(&self.sets[s.set], &s.chars, s.at);
                    let got = t.as_ref().map(|t| (t.kind as usize, t.src.chars().count()));
                    let texts_ok = match (&t, want) {
                        (Some(t), Some((_, l))) => {
                            t.src.chars().eq(s.chars[s.at..s.at + l].iter().copied())
                        }
                        _ => true,
                    };
                    if got != want || !texts_ok {
                        let show = |x: Option<(usize, usize)>| match x {
                            Some((d, l)) => format!(
                                "definition {d} ({}) with {l} characters",
                                self.defs[s.set][d].pattern
                            ),
                            None => "end of stream".into(),
                        };
                        r.fail(format!(
                            "wrong-token: at character {} of {:?}: expected {}, got {}{}",
                            s.at,
                            brief(s.text),
                            show(want),
                            show(got),
                            t.as_ref().map(|t| format!(" text {:?}", t.src)).unwrap_or_default()
                        ));
                        s.broken = true;
                    }
                }
            }
            "C03" => {
                if let Some(t) = &t {
                    let l = t.src.chars().count();
                    let ok = l > 0
                        && s.at + l <= n
                        && t.src.chars().eq(s.chars[s.at..s.at + l].iter().copied());
                    if !ok {
                        r.fail(format!(
                            "lost-text: after {} characters of {:?} the next token is {:?}, but the text goes on with {:?}",
                            s.at, brief(s.text), t.src, say(&s.chars, s.at)
                        ));
                        s.broken = true;
                    } else if t.pos.0 != s.end || t.pos.1 != s.end + l {
                        r.fail(format!(
                            "wrong-position: token {:?} after character {} of {:?} has position {:?}",
                            t.src, s.end, brief(s.text), t.pos
                        ));
                        s.broken = true;
                    }
                }
            }
            "C04" => match &t {
                Some(t) => {
                    if s.ended {
                        r.fail(format!(
                            "not-final: lexer over {:?} delivered {:?} after it had reported the end",
                            s.text, t.src
                        ));
                        s.broken = true;
                    } else if s.at > n
                        || s.chars[s.at..].len() < t.src.chars().count()
                        || !t.src.chars().eq(s.chars[s.at..].iter().copied().take(t.src.chars().count()))
                    {
                        // text was lost: the rest of this stream says nothing about its end
                        s.broken = true;
                    }
                }
                None => {
                    if !s.ended {
                        if let Some((d, l)) = model_next(&self.sets[s.set], &s.chars, s.at) {
                            r.fail(format!(
                                "early-end: end reported at character {} of {:?} although definition {d} ({}) matches the next {l} characters",
                                s.at, brief(s.text), self.defs[s.set][d].pattern
                            ));
                            s.broken = true;
                        }
                    }
                    let wrong = s.hints.iter().find(|(k, lo, hi)| {
                        s.count - k < *lo || hi.is_some_and(|hi| s.count - k > hi)
                    });
                    if let (Some((k, lo, hi)), false) = (wrong, s.broken) {
                        r.fail(format!(
                            "wrong-hint: after {k} tokens of {:?} at least {lo} and at most {hi:?} more were announced, there are {}",
                            brief(s.text), s.count - k
                        ));
                        s.broken = true;
                    }
                }
            },
            "C05" => self.judge_ctor(s, r, &t, calls),
            _ => {}
        }
        match &t {
            Some(t) => {
                s.count += 1;
                s.at += t.src.chars().count();
                s.end = t.pos.1;
                r.add("tokens", 1);
            }
            None => s.ended = true,
        }
    }

    fn expected_calls(&self, set: usize, kind: usize, src: &str) -> Vec<(usize, Option<String>)> {
        match Decl::from_n(self.decls[set][kind]) {
            Decl::Map => vec![(kind, Some(src.to_string()))],
            Decl::Unit if X::COPY => vec![],
            _ => vec![(kind, None)],
        }
    }

    fn judge_ctor(&self, s: &mut Slot<X>, r: &mut R, t: &Option<Tok>, calls: &[(usize, Option<String>)]) {
        let want = match t {
            Some(t) => self.expected_calls(s.set, t.kind as usize, &t.src),
            None => vec![],
        };
        if calls != want.as_slice() {
            r.fail(format!(
                "constructor-calls: a pull of {:?} delivering {:?} made the constructor calls {:?}",
                s.text,
                t.as_ref().map(|t| t.src.clone()),
                calls
            ));
            s.broken = true;
            return;
        }
        let twin = self.twin.borrow();
        let Some(twin) = twin.get(s.id) else { return };
        let keep: Vec<usize> = s
            .cand
            .iter()
            .copied()
            .filter(|i| match (twin.get(*i), t) {
                (Some(a), Some(b)) => a.kind == b.kind && a.src == b.src && a.pos == b.pos,
                (None, None) => true,
                _ => false,
            })
            .collect();
        if keep.is_empty() {
            r.fail(format!(
                "after-panic: lexer over {:?} delivered {:?} at {:?} where token number {:?} of the undisturbed stream was due",
                s.text,
                t.as_ref().map(|t| t.src.clone()),
                t.as_ref().map(|t| t.pos),
                s.cand
            ));
            s.broken = true;
            return;
        }
        s.cand = if t.is_some() { keep.iter().map(|i| i + 1).collect() } else { keep };
    }

    fn judge_panic(&self, s: &mut Slot<X>, r: &mut R, calls: &[(usize, Option<String>)]) {
        let twin = self.twin.borrow();
        let twin = &twin[s.id];
        let keep: Vec<usize> = s
            .cand
            .iter()
            .copied()
            .filter(|i| match twin.get(*i) {
                Some(t) => calls == self.expected_calls(s.set, t.kind as usize, &t.src).as_slice(),
                None => false,
            })
            .collect();
        if keep.is_empty() {
            r.fail(format!(
                "constructor-calls: the panicking pull of {:?} made the constructor calls {:?}, which is not the construction of the token that was due (number {:?})",
                s.text, calls, s.cand
            ));
            s.broken = true;
            return;
        }
        s.cand = keep.iter().flat_map(|i| [*i, *i + 1]).collect();
        s.cand.dedup();
    }
}

fn run_world<X: Term>(c: &LexCase, prop: &str) -> R {
    let w: Rc<World<X>> = Rc::new(World {
        prop: prop.to_string(),
        sets: c.sets.iter().map(|s| s.res.clone()).collect(),
        decls: c.sets.iter().map(|s| s.decls.clone()).collect(),
        defs: c.sets.iter().map(defs_of).collect(),
        slots: c
            .lexers
            .iter()
            .enumerate()
            .map(|(id, (set, text))| {
                Rc::new(RefCell::new(Slot {
                    id,
                    set: *set,
                    text: kinds::leak(text),
                    chars: text.chars().collect(),
                    lx: None,
                    at: 0,
                    end: 0,
                    ended: false,
                    broken: false,
                    count: 0,
                    hints: vec![],
                    cand: vec![0],
                }))
            })
            .collect(),
        twin: RefCell::new(vec![]),
        way: c.way,
        r: RefCell::new(R::default()),
    });
    let failed = |w: &World<X>| w.r.borrow().viol.is_some();
    if prop == "C05" {
        // the undisturbed streams
        for sl in &w.slots {
            let (set, text) = (sl.borrow().set, sl.borrow().text);
            let mut v = vec![];
            if let Some(mut lx) = w.fresh(set, text) {
                loop {
                    match catch_unwind(AssertUnwindSafe(|| lx.next())) {
                        Ok(Some(t)) if v.len() <= text.len() => {
                            v.push(Tok { kind: t.kind.kind(), src: t.source, pos: t.pos })
                        }
                        Ok(None) => break,
                        _ => {
                            w.r.borrow_mut().fail(format!(
                                "panic: undisturbed pull of {text:?} failed: {}",
                                rt::last_panic()
                            ));
                            break;
                        }
                    }
                }
            }
            w.twin.borrow_mut().push(v);
        }
        kinds::take_calls();
    }
    for sl in &w.slots {
        w.restart(&mut sl.borrow_mut());
    }
    for op in &c.ops {
        if failed(&w) {
            break;
        }
        match *op {
            Op::Pull(i) => w.pull(i, false, None),
            Op::Panic(i) => w.pull(i, true, None),
            Op::Nest(i, j) => w.pull(i, false, Some(j)),
            Op::Drop(i) => {
                w.r.borrow_mut().add("fault:abandoned", 1);
                w.slots[i].borrow_mut().lx = None;
            }
            Op::New(i) => {
                w.r.borrow_mut().add("fault:restarted", 1);
                w.restart(&mut w.slots[i].borrow_mut());
            }
            Op::Move(i) => {
                let mut s = w.slots[i].borrow_mut();
                if let Some(lx) = s.lx.take() {
                    w.r.borrow_mut().add("fault:relocated", 1);
                    s.lx = Some(Box::new(*lx));
                }
            }
        }
    }
    for (i, sl) in w.slots.iter().enumerate() {
        let max = sl.borrow().chars.len() + 2;
        for _ in 0..max {
            if failed(&w) || sl.borrow().ended || sl.borrow().broken {
                break;
            }
            w.pull(i, false, None);
        }
        for _ in 0..c.extra {
            if failed(&w) {
                break;
            }
            w.pull(i, false, None);
        }
    }
    for sl in &w.slots {
        sl.borrow_mut().lx = None;
    }
    let mut r = std::mem::take(&mut *w.r.borrow_mut());
    r.nontrivial = match prop {
        "C02" => w.slots.iter().any(|s| s.borrow().count > 0),
        "C05" => r.cnt.contains_key("fault:constructor-panic"),
        _ => w.slots.iter().any(|s| s.borrow().count > 1),
    };
    r
}

pub fn run(j: &J, prop: &str) -> Option<Out> {
    let c = decode(j, prop)?;
    let mut o = exec(&c.env, || {
        if c.copy {
            run_world::<kinds::K>(&c, prop)
        } else {
            run_world::<kinds::T>(&c, prop)
        }
    });
    // an engine that writes counted repetitions out takes its time over large counts
    let large = c.sets.iter().any(|s| s.res.iter().any(|r| r.counted() && r.most() > re::LONG));
    if large && o.class() == Some("stuck") {
        o.viol = None;
        o.add("skipped: large count takes too long", 1);
    }
    o.add("fault:hash-keys-chosen", 1);
    for f in j.get("faults").and_then(|f| f.a()).unwrap_or(&[]) {
        o.add(&format!("fault:{}", f.s()?), 1);
    }
    Some(o)
}

// ---------------------------------------------------------------- generation

/// A set of definitions and its alphabet.
pub fn gen_set(rng: &mut Rng) -> (DefSet, Vec<char>) {
    let al = re::alphabet(rng);
    let mut res = vec![];
    match rng.below(10) {
        0..=3 => {
            // words, many of them prefixes or continuations of each other
            let n = match rng.below(200) {
                0 => rng.range(20, kinds::MAX_DEFS - 1),
                1..=16 => rng.range(7, 19),
                _ => rng.range(2, 6),
            };
            // words long enough for hundreds of automaton states
            let most = if rng.chance(3) { 40 } else { 3 };
            let mut base: Vec<Vec<char>> = vec![];
            for _ in 0..n {
                let w = if !base.is_empty() && rng.chance(55) {
                    let mut w = base[rng.below(base.len())].clone();
                    if rng.chance(50) {
                        let k = rng.range(1, w.len());
                        w.truncate(k);
                    } else {
                        for _ in 0..rng.range(1, 4) {
                            w.push(*rng.pick(&al));
                        }
                    }
                    w
                } else {
                    (0..rng.range(1, most)).map(|_| *rng.pick(&al)).collect()
                };
                base.push(w);
            }
            for w in &base {
                res.push(re::word(w));
            }
            if rng.chance(40) {
                let d = rng.range(1, 2);
                res.push(re::gen_re(rng, &al, d, 1));
            }
        }
        4..=5 => {
            // a short token with an optional long continuation
            let a = *rng.pick(&al);
            let long: Vec<char> = (0..rng.range(2, 6)).map(|_| *rng.pick(&al)).collect();
            res.push(Re::Cat(vec![
                Re::Ch(a, 0),
                Re::Rep(Box::new(re::word(&long)), 0, 0, if rng.chance(50) { 1 } else { re::INF }),
            ]));
            for c in &al {
                if rng.chance(80) {
                    res.push(Re::Ch(*c, 0));
                }
            }
            if rng.chance(50) {
                let k = rng.range(1, long.len());
                res.push(re::word(&long[..k]));
            }
            rng.shuffle(&mut res);
        }
        _ => {
            for _ in 0..rng.range(1, 4) {
                let d = rng.range(0, 3);
                let nest = if rng.chance(25) { 2 } else { 1 };
                res.push(re::gen_re(rng, &al, d, nest));
            }
            if rng.chance(4) {
                res.push(Re::Empty);
            }
        }
    }
    let decls = res.iter().map(|_| if rng.chance(50) { 0 } else { rng.below(3) }).collect();
    (DefSet { res, decls }, al)
}

/// A text made from pieces of the definitions, then damaged; records the faults.
pub fn gen_text(rng: &mut Rng, s: &DefSet, al: &[char], max: usize, faults: &mut Vec<J>) -> String {
    let mut t = String::new();
    let want = if max > 100 { rng.range(20, max / 2) } else { rng.range(1, 8) };
    // sometimes the same token over and over
    let one = rng.below(s.res.len());
    let only = rng.chance(if max > 100 { 50 } else { 5 });
    for _ in 0..want {
        if rng.chance(85) || only {
            let k = rng.below(s.res.len());
            s.res[if only { one } else { k }].sample(rng, al, 4 * max, &mut t);
        } else {
            t.push(*rng.pick(al));
        }
        if t.len() > 4 * max {
            break;
        }
    }
    let mut cs: Vec<char> = t.chars().take(max).collect();
    if rng.chance(30) && !cs.is_empty() {
        let k = rng.below(cs.len());
        cs.truncate(k);
        faults.push(J::str("text-cut"));
    }
    while rng.chance(25) {
        let i = rng.range(0, cs.len());
        match rng.below(3) {
            0 if i < cs.len() => {
                cs.remove(i);
                faults.push(J::str("character-lost"));
            }
            1 => {
                cs.insert(i, *rng.pick(al));
                faults.push(J::str("character-inserted"));
            }
            _ => {
                let c = match cs.get(i) {
                    Some(c) if rng.chance(50) => re::relative(rng, *c),
                    _ => *rng.pick(re::POOL),
                };
                if i < cs.len() && rng.chance(50) {
                    cs[i] = c;
                } else {
                    cs.insert(i, c);
                }
                faults.push(J::str("foreign-character"));
            }
        }
    }
    cs.truncate(max);
    cs.into_iter().collect()
}

/// A definition that matches a text of any length, perhaps one that matches its
/// beginning, and a text: a unit, how often, and a tail.
pub fn gen_long(rng: &mut Rng) -> (DefSet, String, usize, String) {
    let al = re::alphabet(rng);
    let unit: String = (0..rng.range(1, 3)).map(|_| *rng.pick(&al)).collect();
    let cs: Vec<char> = unit.chars().collect();
    let w = || Re::Grp(Box::new(re::word(&cs)));
    let body = match rng.below(4) {
        0 | 1 => w(),
        2 => Re::Grp(Box::new(Re::Alt(vec![w(), Re::Ch(*rng.pick(&al), 0)]))),
        _ => Re::Set(true, vec![re::Item::Ch('#', 0)]),
    };
    let (a, style) = if rng.chance(50) { (rng.below(2), 0) } else { (rng.range(2, 6), 1) };
    let rep = Re::Rep(Box::new(body), style, a, re::INF);
    let closed = rng.chance(33);
    let mut res = vec![if closed { Re::Cat(vec![rep, Re::Ch('#', 0)]) } else { rep }];
    let short = rng.chance(60);
    if short {
        res.push(re::word(&cs[..1]));
    }
    if rng.chance(50) {
        res.reverse();
    }
    let decls = res.iter().map(|_| rng.below(3)).collect();
    let tail = match rng.below(3) {
        0 => String::new(),
        1 => "#".to_string(),
        _ => cs[..cs.len() / 2].iter().collect(),
    };
    // reading ahead to the end again for every short token is quadratic
    let n = if closed && short && tail != "#" { rng.range(200, 500) } else { rng.range(4000, 7900) };
    (DefSet { res, decls }, unit, n / cs.len(), tail)
}

pub fn gen(prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let nsets = if prop == "C02" { 1 } else { rng.range(1, 2) };
    let mut sets = vec![];
    let mut big = 0;
    let mut large = 0;
    let mut long = None;
    if rng.below(400) == 0 {
        let (mut s, unit, n, tail) = gen_long(rng);
        let mut l = vec![J::num(0), J::S(unit), J::num(n), J::S(tail)];
        if rng.chance(30) {
            // far ahead, once, and back
            let u = l[1].s().unwrap().chars().next().unwrap();
            s.res = vec![
                re::word(&['@', 'x', '#']),
                Re::Cat(vec![Re::Ch('@', 0), Re::Rep(Box::new(Re::Ch(u, 0)), 0, 0, re::INF), Re::Ch('#', 0)]),
                re::word(&['@', u]),
                Re::Ch(u, 0),
            ];
            s.decls = vec![0, 1, 2, 0];
            let n = rng.range(1000, 7900);
            l = vec![J::num(0), J::S(u.to_string()), J::num(n), J::str(["", "!", "#"][rng.below(3)]), J::str("@")];
        }
        sets.push((s, vec!['#']));
        long = Some(l);
    }
    for _ in sets.len()..nsets {
        if prop == "C02" {
            let mut al = re::alphabet(rng);
            let d = rng.range(0, 4);
            let nest = rng.range(1, 3);
            let mut r = re::gen_re(rng, &al, d, nest);
            if rng.chance(1) {
                // counts beyond one byte
                let n = match rng.below(25) {
                    // and beyond two
                    0 => [65_535, 65_536, 65_537, rng.range(65_400, 66_000)][rng.below(4)],
                    k => [rng.range(60, 140), 255, 256, 257, rng.range(250, 300)][k % 5],
                };
                let (a, b) = [(n, n), (n, re::INF), (n, n + rng.range(0, 3)), (rng.range(0, 3), n)]
                    [rng.below(4)];
                r = Re::Rep(Box::new(re::gen_lit(rng, &al)), rng.range(1, 2) as u8, a, b);
                if rng.chance(30) {
                    r = Re::Cat(vec![r, re::gen_lit(rng, &al)]);
                }
                big = n;
            } else if rng.chance(1) {
                (r, large) = re::gen_large(rng, &mut al);
            } else if rng.below(200) == 0 {
                r = Re::Cat(vec![r, re::gen_vast(rng, &al)]);
                if rng.chance(50) {
                    r = re::gen_vast(rng, &al);
                }
            } else if rng.chance(35) {
                // a quantified group at the very front
                let (s, a, b) = re::gen_quant(rng);
                r = Re::Rep(Box::new(r), s, a, b);
                if rng.chance(30) {
                    r = Re::Cat(vec![r, re::gen_lit(rng, &al)]);
                }
            }
            let decls = vec![rng.below(3)];
            sets.push((DefSet { res: vec![r], decls }, al));
        } else {
            sets.push(gen_set(rng));
        }
    }
    // positions beyond two bytes; words only, as lookahead is quadratic
    let huge = prop == "C03"
        && rng.below(400) == 0
        && sets.iter().all(|s| s.0.res.iter().all(Re::plain));
    let nlex = if huge || big > 1000 { 1 } else if prop == "C02" { rng.range(2, 6) } else { rng.range(1, 3) };
    let mut lexers = vec![];
    for _ in 0..nlex {
        if let Some(l) = long.take() {
            lexers.push(J::A(l));
            continue;
        }
        let k = rng.below(sets.len());
        let max = match prop {
            "C02" if large > 10 => large + 5,
            "C02" => [14, 14, 30][rng.below(3)],
            _ if rng.chance(2) => [150, 300, 600][rng.below(3)],
            _ => 36,
        };
        let mut t = gen_text(rng, &sets[k].0, &sets[k].1, max, &mut faults);
        if big > 0 {
            // around the count, and around what is left of it in one byte
            t.clear();
            let n = match big {
                0..=1000 => [big, big, 2 * big, big % 256][rng.below(4)],
                _ => [big, big, big % 65_536][rng.below(3)],
            };
            let n = (n + rng.below(3)).saturating_sub(1);
            let mut one = String::new();
            sets[k].0.res[0].unit().sample(rng, &sets[k].1, 1000, &mut one);
            if big > 1000 {
                let tail = if rng.chance(50) { rng.pick(&sets[k].1).to_string() } else { String::new() };
                lexers.push(J::A(vec![J::num(k), J::S(one), J::num(n), J::S(tail)]));
                continue;
            }
            t = one.repeat(n);
            if rng.chance(50) {
                t.push(*rng.pick(&sets[k].1));
            }
        }
        let mut l = vec![J::num(k), J::S(t)];
        if huge && l[1].s().is_some_and(|t| !t.is_empty()) {
            let n = rng.range(65_400, 66_000) / l[1].s().map_or(1, |t| t.chars().count());
            l.push(J::num(n));
        }
        lexers.push(J::A(l));
    }
    let mut ops = vec![];
    let op = |n: &str, a: &[usize]| {
        let mut v = vec![J::str(n)];
        v.extend(a.iter().map(|x| J::num(*x)));
        J::A(v)
    };
    if prop != "C02" {
        for _ in 0..rng.range(0, 16) {
            let i = rng.below(nlex);
            ops.push(match rng.below(20) {
                0 => op("drop", &[i]),
                1 => op("new", &[i]),
                2 | 3 => op("move", &[i]),
                4 | 5 if nlex > 1 => op("nest", &[i, (i + 1) % nlex]),
                6..=12 if prop == "C05" => op("panic", &[i]),
                _ => op("p", &[i]),
            });
        }
    }
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("sets", J::A(sets.iter().map(|s| set_json(&s.0)).collect())),
        ("lexers", J::A(lexers)),
        ("ops", J::A(ops)),
        ("extra", J::num(if prop == "C02" { 0 } else { rng.below(4) })),
        ("way", J::num(if rng.chance(25) { rng.range(1, WAYS) } else { 0 })),
        ("faults", J::A(faults)),
    ])
}
