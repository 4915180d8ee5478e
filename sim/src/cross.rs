//! Properties decided by comparing several executions: independence of live
//! instances (C06) and independence of hash order and declaration history (C14).

use crate::gram::{self, Gram};
use crate::json::J;
use crate::kinds::{self, Def, Lx, Term, V};
use crate::lexw::{self, env_from, env_json};
use crate::out::{exec, Out, R};
use crate::parw::{self, Input, Step, Text};
use crate::rng::Rng;
use crate::rt::{self, Env};
use crate::sched::{self, Switch};
use pango_parser::Slr;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ---------------------------------------------------------------- C06

pub enum Spec {
    Lex(lexw::DefSet, String),
    Par(Gram, Vec<Step>, usize, Vec<Input>),
}

pub fn spec_from(j: &J) -> Option<Spec> {
    if let Some(s) = j.get("set") {
        let t = j.get("text")?.s()?.to_string();
        (t.chars().count() <= 120).then_some(())?;
        return Some(Spec::Lex(lexw::set_from(s)?, t));
    }
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() {
        return None;
    }
    let plan = parw::steps_from(j.get("plan")?, &g)?;
    let inputs =
        j.get("inputs")?.a()?.iter().map(parw::codes_from).collect::<Option<Vec<_>>>()?;
    if inputs.is_empty() {
        return None;
    }
    Some(Spec::Par(g, plan, j.get("style")?.us().filter(|s| *s < 3)?, inputs))
}

#[derive(Clone, Debug)]
enum Act {
    Use(usize),
    /// The second is used inside a call made by the first.
    Nest(usize, usize, u64, u32),
    Fault(usize, u64),
    /// A comparison or hash panics.
    Upset(usize, u64),
    Drop(usize),
}

fn acts_from(j: &J, n: usize) -> Option<Vec<Act>> {
    j.a()?
        .iter()
        .map(|o| {
            let o = o.a()?;
            let a = o.get(1)?.us().filter(|a| *a < n)?;
            Some(match (o[0].s()?, o.len()) {
                ("u", 2) => Act::Use(a),
                ("x", 2) => Act::Drop(a),
                ("f", 3) => Act::Fault(a, o[2].us()? as u64 + 1),
                ("c", 3) => Act::Upset(a, o[2].us()? as u64 + 1),
                ("n", k @ (4 | 5)) => {
                    let b = o[2].us().filter(|b| *b < n && *b != a)?;
                    let mask = if k == 5 { rt::MASK_CMP | rt::MASK_CTOR } else { rt::MASK_CTOR };
                    Act::Nest(a, b, o[3].us()? as u64 + 1, mask)
                }
                _ => return None,
            })
        })
        .collect()
}

enum Live<X: Term> {
    None,
    Lex(Box<Lx<X>>),
    Par(Rc<Slr<V, X>>, usize),
    Refused,
}

struct Actor<X: Term> {
    ds: Vec<Def>,
    texts: Vec<(Text, usize)>,
    live: RefCell<Live<X>>,
    busy: RefCell<bool>,
    events: RefCell<Vec<String>>,
}

struct Stage<X: Term> {
    specs: Vec<Spec>,
    actors: Vec<Actor<X>>,
}

impl<X: Term> Stage<X> {
    fn new(specs: Vec<Spec>) -> Self {
        let actors = specs
            .iter()
            .map(|s| {
                let (ds, texts) = match s {
                    Spec::Lex(set, t) => (
                        lexw::defs_of(set),
                        vec![(Text { text: kinds::leak(t), toks: vec![], clean: true }, 0)],
                    ),
                    Spec::Par(g, _, style, inputs) => (
                        parw::defs(parw::kinds_used(g, inputs), *style),
                        inputs.iter().map(|i| (parw::compose(&i.code, *style), i.pre)).collect(),
                    ),
                };
                Actor {
                    ds,
                    texts,
                    live: RefCell::new(Live::None),
                    busy: RefCell::new(false),
                    events: RefCell::new(vec![]),
                }
            })
            .collect();
        Stage { specs, actors }
    }

    fn say(&self, a: usize, e: String) {
        self.actors[a].events.borrow_mut().push(e);
    }

    /// One use of an actor: build it if it does not exist, else one pull or parse.
    fn step(&self, a: usize) {
        let ac = &self.actors[a];
        *ac.busy.borrow_mut() = true;
        let live = std::mem::replace(&mut *ac.live.borrow_mut(), Live::None);
        let next = match (live, &self.specs[a]) {
            (Live::None, Spec::Lex(..)) => match parw::lexer::<X>(&ac.ds, ac.texts[0].0.text) {
                Some(l) => {
                    self.say(a, "built".into());
                    Live::Lex(Box::new(l))
                }
                None => {
                    self.say(a, "refused".into());
                    Live::Refused
                }
            },
            (Live::None, Spec::Par(g, plan, ..)) => match parw::build::<X>(g, plan, false) {
                Ok(p) => {
                    self.say(a, "built".into());
                    Live::Par(Rc::new(*p), 0)
                }
                Err(_) => {
                    self.say(a, "refused".into());
                    Live::Refused
                }
            },
            (Live::Lex(mut l), _) => {
                let e = match catch_unwind(AssertUnwindSafe(|| l.next())) {
                    Ok(Some(t)) => format!("{:?} {:?} {:?}", t.kind, t.source, t.pos),
                    Ok(None) => "end".into(),
                    Err(_) => "panic".into(),
                };
                self.say(a, e);
                Live::Lex(l)
            }
            (Live::Par(p, k), _) => {
                let (t, pre) = &ac.texts[k % ac.texts.len()];
                let e = match parw::parse::<X>(&p, &ac.ds, t, *pre) {
                    Some((r, _)) => r.key(),
                    None => "no lexer".into(),
                };
                self.say(a, e);
                Live::Par(p, k + 1)
            }
            (Live::Refused, _) => Live::Refused,
        };
        *ac.live.borrow_mut() = next;
        *ac.busy.borrow_mut() = false;
    }
}

fn act_all<X: Term>(specs: Vec<Spec>, acts: &[Act], only: Option<usize>, hm: u8) -> R {
    kinds::HASH_MODE.set(hm);
    let st = Rc::new(Stage::<X>::new(specs));
    let mut r = R::default();
    let on = |a: usize| only.map_or(true, |o| o == a);
    for act in acts {
        match act {
            Act::Use(a) if on(*a) => st.step(*a),
            Act::Fault(a, k) if on(*a) => {
                rt::arm(rt::MASK_CTOR, *k);
                st.step(*a);
                if rt::disarm() {
                    r.add("fault:constructor-panic", 1);
                }
            }
            Act::Upset(a, k) if on(*a) => {
                // when the panic comes depends on the order of hash tables
                let ac = &st.actors[*a];
                let told = ac.events.borrow().len();
                let fresh = matches!(*ac.live.borrow(), Live::None);
                rt::arm(rt::MASK_CMP, *k);
                st.step(*a);
                r.add("fault:comparison-panic", rt::disarm() as u64);
                ac.events.borrow_mut().truncate(told);
                if fresh {
                    *ac.live.borrow_mut() = Live::None;
                }
            }
            Act::Drop(a) if on(*a) => {
                *st.actors[*a].live.borrow_mut() = Live::None;
                st.say(*a, "dropped".into());
                r.add("fault:abandoned", 1);
            }
            Act::Nest(a, b, k, mask) => match only {
                Some(o) if o == *a || o == *b => st.step(o),
                Some(_) => {}
                None => {
                    let s2 = st.clone();
                    let b2 = *b;
                    let done = Rc::new(RefCell::new(false));
                    let d2 = done.clone();
                    rt::nest(
                        *mask,
                        *k,
                        Box::new(move || {
                            *d2.borrow_mut() = true;
                            s2.step(b2);
                        }),
                    );
                    st.step(*a);
                    rt::unnest();
                    if *done.borrow() {
                        r.add("fault:reentrant-use", 1);
                    } else {
                        st.step(*b);
                    }
                }
            },
            _ => {}
        }
    }
    for (i, a) in st.actors.iter().enumerate() {
        for e in a.events.borrow().iter() {
            r.obs.push(format!("{i}:{e}"));
        }
    }
    kinds::take_calls();
    r
}

pub fn run_c06(j: &J, _prop: &str) -> Option<Out> {
    let actors = j.get("actors")?.a()?;
    if actors.is_empty() {
        return None;
    }
    let specs = || actors.iter().map(spec_from).collect::<Option<Vec<_>>>();
    specs()?;
    let acts = acts_from(j.get("ops")?, actors.len())?;
    let env = env_from(j, parw::work(j))?;
    let copy = j.get("copy")?.n()? != 0;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let go = |only: Option<usize>| {
        let sp = specs().unwrap();
        exec(&env, || {
            if copy {
                act_all::<kinds::K>(sp, &acts, only, hm)
            } else {
                act_all::<kinds::T>(sp, &acts, only, hm)
            }
        })
    };
    let mut o = go(None);
    let all = std::mem::take(&mut o.obs);
    if o.harness.is_some() {
        return Some(o);
    }
    let mut busy = 0;
    let mut alone_bad = false;
    for i in 0..actors.len() {
        let mut s = go(Some(i));
        let tag = format!("{i}:");
        let got: Vec<&String> = all.iter().filter(|e| e.starts_with(&tag)).collect();
        busy += (got.len() > 1) as usize;
        if s.viol.take().is_some() {
            // broken on its own: nothing to compare
            alone_bad = true;
        } else if o.viol.is_none() && got.iter().map(|s| s.as_str()).ne(s.obs.iter().map(|s| s.as_str())) {
            let k = got.iter().zip(&s.obs).take_while(|(a, b)| **a == *b).count();
            o.viol = Some(format!(
                "influenced: use number {k} of actor {i} gives {:?} next to the others, {:?} alone",
                got.get(k),
                s.obs.get(k)
            ));
        }
        s.cnt.retain(|k, _| k.starts_with("calls:"));
        o.merge(&s);
    }
    if alone_bad {
        o.viol = None;
        o.add("skipped: broken alone", 1);
    }
    o.nontrivial = busy > 1;
    o.add("actors", actors.len() as u64);
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

// ---------------------------------------------------------------- C23

/// Counts hand-overs the schedule did not decide; such a run need not repeat exactly.
pub const UNSCHEDULED: &str = "unscheduled hand-overs";

/// Most instructions to execute one at a time before a hand-over.
const STEPS: usize = 4000;

/// What one thread does: its actors and their uses.
fn thread_from(j: &J) -> Option<(Vec<Spec>, Vec<Act>)> {
    let actors = j.get("actors")?.a()?;
    let acts = acts_from(j.get("ops")?, actors.len())?;
    Some((actors.iter().map(spec_from).collect::<Option<Vec<_>>>()?, acts))
}

fn threads<X: Term>(js: &[J], env: &Env, sched: &[Switch], by_writes: bool, hm: u8) -> R {
    let bodies: Vec<Box<dyn FnOnce() -> R + Send + '_>> = js
        .iter()
        .map(|j| {
            let f = move || {
                let (specs, acts) = thread_from(j).unwrap();
                act_all::<X>(specs, &acts, None, hm)
            };
            Box::new(f) as Box<dyn FnOnce() -> R + Send + '_>
        })
        .collect();
    let (rs, ran) = sched::run(env, sched, by_writes, bodies);
    let mut r = R::default();
    r.add("fault:thread-switch", ran.switches);
    r.add("waits of a thread for another", ran.waits);
    r.add("writes to static data", ran.writes);
    r.add(UNSCHEDULED, ran.blocked);
    for (i, t) in rs.into_iter().enumerate() {
        for (k, n) in t.cnt {
            r.add(k, n);
        }
        r.obs.extend(t.obs.iter().map(|e| format!("{i}/{e}")));
    }
    r
}

pub fn run_c23(j: &J, _prop: &str) -> Option<Out> {
    let js = j.get("threads")?.a()?;
    if js.is_empty() || js.len() > sched::MOST {
        return None;
    }
    for t in js {
        thread_from(t)?;
    }
    let sw = j
        .get("sched")?
        .a()?
        .iter()
        .map(|s| {
            let s = s.a()?;
            Some(Switch {
                places: s.first()?.us()? as u64,
                to: s.get(1)?.us()?,
                steps: s.get(2).and_then(|s| s.us()).filter(|s| *s <= STEPS).unwrap_or(0) as u64,
            })
        })
        .collect::<Option<Vec<_>>>()?;
    let env = env_from(j, parw::work(j))?;
    let copy = j.get("copy")?.n()? != 0;
    let hm = u8::try_from(j.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
    let by_writes = j.get("by_writes").is_some_and(|b| b.n() == Some(1));
    let go = |js: &[J], env: &Env| {
        exec(env, || {
            if copy {
                threads::<kinds::K>(js, env, &sw, by_writes, hm)
            } else {
                threads::<kinds::T>(js, env, &sw, by_writes, hm)
            }
        })
    };
    let mut o = go(js, &env);
    let all = std::mem::take(&mut o.obs);
    if o.harness.is_some() {
        return Some(o);
    }
    let mut busy = 0;
    let mut alone_bad = false;
    for (i, t) in js.iter().enumerate() {
        let mut s = go(std::slice::from_ref(t), &env);
        let tag = format!("{i}/");
        let got: Vec<&str> = all.iter().filter_map(|e| e.strip_prefix(&tag)).collect();
        let want: Vec<&str> = s.obs.iter().filter_map(|e| e.strip_prefix("0/")).collect();
        busy += (got.len() > 1) as usize;
        if s.viol.take().is_some() {
            alone_bad = true;
        } else if o.viol.is_none() && got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| **a == **b).count();
            o.viol = Some(format!(
                "influenced: event {k} of thread {i} is {:?} next to the others, {:?} alone",
                got.get(k),
                want.get(k)
            ));
        }
        s.cnt.retain(|k, _| k.starts_with("calls:"));
        o.merge(&s);
    }
    if alone_bad {
        o.viol = None;
        o.add("skipped: broken alone", 1);
    }
    o.nontrivial = busy > 1 && o.cnt.get("fault:thread-switch").copied().unwrap_or(0) > js.len() as u64;
    o.add("threads", js.len() as u64);
    parw::tally_faults(j, &mut o)?;
    Some(o)
}

pub fn gen_c23(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let n = rng.range(2, 4);
    // matters only if the library has static data
    let by_writes = rng.chance(25);
    let mut prev: Vec<J> = vec![];
    let mut ths = vec![];
    for _ in 0..n {
        let k = [1, 1, 1, 2][rng.below(4)];
        let mut actors = vec![];
        for _ in 0..k {
            let a = match prev.last() {
                Some(p) if rng.chance(if by_writes { 40 } else { 20 }) => p.clone(),
                _ => gen_actor(rng, &mut faults, &prev),
            };
            prev.push(a.clone());
            actors.push(a);
        }
        let mut ops = vec![];
        for _ in 0..rng.range(2, 10) {
            let a = rng.below(k);
            let mut v = vec![J::str(["u", "u", "u", "u", "u", "u", "u", "u", "x", "f", "c"][rng.below(11)]), J::num(a)];
            match v[0].s() {
                Some("f") => v.push(J::num(rng.below(3))),
                Some("c") => v.push(J::num(rng.below(400))),
                _ => {}
            }
            ops.push(J::A(v));
        }
        ths.push(J::obj([("actors", J::A(actors)), ("ops", J::A(ops))]));
    }
    let span = if by_writes { [2, 4, 20, 100][rng.below(4)] } else { [4, 20, 100, 500, 3000][rng.below(5)] };
    let mut fine = [0, 0, 3, 12][rng.below(4)];
    let mut steps = 0;
    let mut sched = vec![];
    for _ in 0..rng.range(1, 60) {
        let m = if rng.chance(20) { 3000 } else { span };
        let mut s = vec![J::num(rng.range(1, m)), J::num(rng.below(n))];
        if fine > 0 && rng.chance(30) {
            fine -= 1;
            let most = [30, 300, 1500][rng.below(3)];
            s.push(J::num(rng.range(1, most)));
            steps += 1;
        }
        sched.push(J::A(s));
    }
    faults.extend((0..steps).map(|_| J::str("switch-between-instructions")));
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("by_writes", J::num(by_writes as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
        ("threads", J::A(ths)),
        ("sched", J::A(sched)),
        ("faults", J::A(faults)),
    ])
}

fn gen_actor(rng: &mut Rng, faults: &mut Vec<J>, prev: &[J]) -> J {
    if rng.chance(50) {
        // often the same definitions as another actor, or a related text
        if let Some(p) = prev.iter().find(|p| p.get("set").is_some()) {
            if rng.chance(50) {
                let mut q = p.clone();
                let s = lexw::set_from(p.get("set").unwrap()).unwrap();
                let t = lexw::gen_text(rng, &s, &['a', 'b', '1'], 30, faults);
                q.set("text", J::S(t));
                return q;
            }
        }
        let (s, al) = lexw::gen_set(rng);
        let t = lexw::gen_text(rng, &s, &al, 30, faults);
        return J::obj([("set", lexw::set_json(&s)), ("text", J::S(t))]);
    }
    let g = match prev.iter().find(|p| p.get("gram").is_some()) {
        Some(p) if rng.chance(40) => {
            // a variation of the other actor's grammar
            let mut g = Gram::from_json(p.get("gram").unwrap()).unwrap();
            for _ in 0..8 {
                let mut h = g.clone();
                gram::mutate(rng, &mut h);
                gram::dedup(&mut h);
                if h.complete() && h.norm().reduced() && gram::verdict(&h) == gram::Verdict::Accept {
                    g = h;
                    break;
                }
            }
            g
        }
        _ => gram::gen_slr(rng),
    };
    let n = g.norm();
    let inputs = (0..rng.range(1, 3))
        .map(|_| parw::gen_input("C06", rng, &n, g.nt(), faults))
        .collect();
    let plan = parw::gen_plan(rng, &g);
    J::obj([
        ("gram", g.to_json()),
        ("plan", plan),
        ("style", J::num([0, 0, 1, 2][rng.below(4)])),
        ("inputs", J::A(inputs)),
    ])
}

pub fn gen_c06(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let n = rng.range(2, 4);
    let mut actors: Vec<J> = vec![];
    for _ in 0..n {
        let a = gen_actor(rng, &mut faults, &actors);
        actors.push(a);
    }
    let mut ops = vec![];
    let op = |s: &str, a: &[usize]| {
        let mut v = vec![J::str(s)];
        v.extend(a.iter().map(|x| J::num(*x)));
        J::A(v)
    };
    for _ in 0..rng.range(4, 24) {
        let a = rng.below(n);
        ops.push(match rng.below(16) {
            0 => op("x", &[a]),
            1 => op("f", &[a, rng.below(3)]),
            2..=4 => op("n", &[a, (a + rng.range(1, n - 1)) % n, rng.below(3)]),
            5 => {
                let at = [3, 60, 1000][rng.below(3)];
                op("n", &[a, (a + rng.range(1, n - 1)) % n, rng.below(at), 1])
            }
            6 => op("c", &[a, rng.below(400)]),
            _ => op("u", &[a]),
        });
    }
    let (keys, gaps) = env_json(rng);
    J::obj([
        ("keys", keys),
        ("gaps", gaps),
        ("copy", J::num(rng.chance(50) as u8)),
        ("hm", J::num([0, 0, 0, 1, 2][rng.below(5)])),
        ("actors", J::A(actors)),
        ("ops", J::A(ops)),
        ("faults", J::A(faults)),
    ])
}

// ---------------------------------------------------------------- C14

struct Same {
    g: Gram,
    style: usize,
    inputs: Vec<Input>,
    set: lexw::DefSet,
    texts: Vec<String>,
}

fn run_same<X: Term>(c: &Same, plan: &[Step], hm: u8) -> R {
    kinds::HASH_MODE.set(hm);
    let mut r = R::default();
    match parw::build::<X>(&c.g, plan, false) {
        Ok(p) => {
            r.obs.push("accepted".into());
            let ds = parw::defs(parw::kinds_used(&c.g, &c.inputs), c.style);
            for i in &c.inputs {
                let t = parw::compose(&i.code, c.style);
                let k = match parw::parse::<X>(&p, &ds, &t, i.pre) {
                    Some((res, _)) => {
                        r.add("parses", 1);
                        res.key()
                    }
                    None => "no lexer".into(),
                };
                r.obs.push(k);
            }
        }
        Err(_) => r.obs.push("refused".into()),
    }
    let ds = lexw::defs_of(&c.set);
    for t in &c.texts {
        let mut s = String::new();
        match parw::lexer::<X>(&ds, kinds::leak(t)) {
            Some(mut lx) => loop {
                match catch_unwind(AssertUnwindSafe(|| lx.next())) {
                    Ok(Some(t)) if s.len() < 10_000 => {
                        r.add("tokens", 1);
                        s.push_str(&format!("{:?}{:?}{:?} ", t.kind, t.source, t.pos))
                    }
                    Ok(_) => break,
                    Err(_) => {
                        s.push_str("panic");
                        break;
                    }
                }
            },
            None => s.push_str("refused"),
        }
        r.obs.push(s);
    }
    kinds::take_calls();
    r
}

pub fn run_c14(j: &J, _prop: &str) -> Option<Out> {
    let g = Gram::from_json(j.get("gram")?)?;
    if g.rules.is_empty() {
        return None;
    }
    let c = Same {
        style: j.get("style")?.us().filter(|s| *s < 3)?,
        inputs: j.get("inputs")?.a()?.iter().map(parw::codes_from).collect::<Option<Vec<_>>>()?,
        set: lexw::set_from(j.get("set")?)?,
        texts: j
            .get("texts")?
            .a()?
            .iter()
            .map(|t| t.s().filter(|t| t.chars().count() <= 120).map(str::to_owned))
            .collect::<Option<Vec<_>>>()?,
        g,
    };
    let copy = j.get("copy")?.n()? != 0;
    let vars = j.get("variants")?.a()?;
    if vars.len() < 2 {
        return None;
    }
    let mut o = Out::default();
    let mut first: Option<Vec<String>> = None;
    for (k, v) in vars.iter().enumerate() {
        let env = env_from(v, parw::work(j))?;
        let hm = u8::try_from(v.get("hm")?.n()?).ok().filter(|h| *h < 3)?;
        let plan = parw::steps_from(v.get("plan")?, &c.g)?;
        let mut e = exec(&env, || {
            if copy {
                run_same::<kinds::K>(&c, &plan, hm)
            } else {
                run_same::<kinds::T>(&c, &plan, hm)
            }
        });
        if e.harness.is_some() {
            return Some(e);
        }
        // an execution that does not finish is an outcome like any other here
        let mut obs = std::mem::take(&mut e.obs);
        if let Some(v) = e.viol.take() {
            obs = vec![v.split(':').next().unwrap_or("").to_string()];
        }
        match &first {
            None => first = Some(obs),
            Some(f) => {
                if *f != obs && o.viol.is_none() {
                    let at = f.iter().zip(&obs).take_while(|(a, b)| a == b).count();
                    o.viol = Some(format!(
                        "differs: outcome {at} is {:?} in the first execution and {:?} in execution {k}",
                        f.get(at),
                        obs.get(at)
                    ));
                }
            }
        }
        o.merge(&e);
        o.add("fault:hash-keys-chosen", 1);
        o.add("fault:declaration-order-changed", 1);
        if hm > 0 {
            o.add("fault:colliding-hashes", 1);
        }
    }
    let f = first.unwrap_or_default();
    o.add(if f.first().is_some_and(|s| s == "accepted") { "accepted" } else { "refused" }, 1);
    o.nontrivial = f.iter().any(|s| s.starts_with("ok") || s.len() > 20);
    for f in j.get("faults").and_then(|f| f.a()).unwrap_or(&[]) {
        o.add(&format!("fault:{}", f.s()?), 1);
    }
    Some(o)
}

pub fn gen_c14(_prop: &str, rng: &mut Rng) -> J {
    let mut faults = vec![];
    let g = if rng.chance(60) { gram::gen_slr(rng) } else { gram::gen_gram(rng) };
    let n = g.norm().reduce();
    let inputs = (0..rng.range(1, 4))
        .map(|_| parw::gen_input("C14", rng, &n, g.nt(), &mut faults))
        .collect();
    let (set, al) = lexw::gen_set(rng);
    let texts = (0..rng.range(1, 2))
        .map(|_| J::S(lexw::gen_text(rng, &set, &al, 30, &mut faults)))
        .collect();
    let mut variants = vec![];
    for k in 0..rng.range(3, 4) {
        let (keys, gaps) = env_json(rng);
        let plan = parw::gen_plan(rng, &g);
        variants.push(J::obj([
            ("keys", keys),
            ("gaps", gaps),
            ("hm", J::num(if k == 0 { 0 } else { [0, 0, 1, 2][rng.below(4)] })),
            ("plan", plan),
        ]));
    }
    J::obj([
        ("copy", J::num(rng.chance(50) as u8)),
        ("gram", g.to_json()),
        ("style", J::num([0, 0, 1, 2][rng.below(4)])),
        ("inputs", J::A(inputs)),
        ("set", lexw::set_json(&set)),
        ("texts", J::A(texts)),
        ("variants", J::A(variants)),
        ("faults", J::A(faults)),
    ])
}
