//! Patterns: syntax tree, printer, generator, sampler and reference matcher.
//!
//! The matcher computes, for a set of start positions, the set of positions at
//! which a match can end. It shares nothing with the library's automaton.

use crate::json::J;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty,
    Ch(char, u8),
    Class(u8),
    Set(bool, Vec<Item>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u8, usize, usize),
    Grp(Box<Re>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Ch(char, u8),
    Class(u8),
    Range(char, u8, char, u8),
}

pub const INF: usize = 1_000_000;
pub const CLASSES: [&str; 7] = [".", r"\w", r"\W", r"\d", r"\D", r"\s", r"\S"];

pub fn class_has(k: u8, c: char) -> bool {
    match k {
        0 => true,
        1 => c.is_alphabetic(),
        2 => !c.is_alphabetic(),
        3 => c.is_ascii_digit(),
        4 => !c.is_ascii_digit(),
        5 => c.is_whitespace(),
        _ => !c.is_whitespace(),
    }
}

fn lit_has(r: &Re, c: char) -> bool {
    match r {
        Re::Ch(x, _) => *x == c,
        Re::Class(k) => class_has(*k, c),
        Re::Set(neg, items) => {
            *neg != items.iter().any(|i| match i {
                Item::Ch(x, _) => *x == c,
                Item::Class(k) => class_has(*k, c),
                Item::Range(a, _, b, _) => *a <= c && c <= *b,
            })
        }
        _ => unreachable!(),
    }
}

/// A set of positions in a text.
pub trait Bits: Copy + PartialEq {
    const NONE: Self;
    fn put(&mut self, i: usize);
    fn join(&mut self, o: &Self);
    fn without(self, o: &Self) -> Self;
    fn each(&self, f: impl FnMut(usize));
    fn top(&self) -> Option<usize>;
}

impl Bits for u128 {
    const NONE: u128 = 0;
    fn put(&mut self, i: usize) {
        *self |= 1 << i;
    }
    fn join(&mut self, o: &u128) {
        *self |= o;
    }
    fn without(mut self, o: &u128) -> u128 {
        self &= !o;
        self
    }
    fn each(&self, mut f: impl FnMut(usize)) {
        let mut b = *self;
        while b != 0 {
            f(b.trailing_zeros() as usize);
            b &= b - 1;
        }
    }
    fn top(&self) -> Option<usize> {
        (*self != 0).then(|| 127 - self.leading_zeros() as usize)
    }
}

/// For texts of up to 127, 1023, 8191 and 131071 characters.
pub type Short = u128;
pub type Long = [u128; 8];
pub type Longest = [u128; 64];
pub type Counted = [u128; 1024];
pub const LONG: usize = 1000;
pub const LONGEST: usize = 8000;
/// Styles of a quantifier from which on its counts are more than four bytes hold.
const VAST: u8 = 8;
/// Longest text for a counted literal.
pub const COUNTED: usize = 70_000;

impl<const N: usize> Bits for [u128; N] {
    const NONE: Self = [0; N];
    fn put(&mut self, i: usize) {
        self[i / 128].put(i % 128);
    }
    fn join(&mut self, o: &Self) {
        for (a, b) in self.iter_mut().zip(o) {
            *a |= b;
        }
    }
    fn without(mut self, o: &Self) -> Self {
        for (a, b) in self.iter_mut().zip(o) {
            *a &= !b;
        }
        self
    }
    fn each(&self, mut f: impl FnMut(usize)) {
        for (k, b) in self.iter().enumerate() {
            b.each(|i| f(128 * k + i));
        }
    }
    fn top(&self) -> Option<usize> {
        (0..N).rev().find_map(|k| self[k].top().map(|t| t + 128 * k))
    }
}

/// Ends of matches of `r` in `t` that start at a position in `from`.
pub fn ends<B: Bits>(r: &Re, t: &[char], from: B) -> B {
    match r {
        Re::Empty => from,
        Re::Ch(..) | Re::Class(_) | Re::Set(..) => {
            let mut out = B::NONE;
            from.each(|i| {
                if t.get(i).is_some_and(|c| lit_has(r, *c)) {
                    out.put(i + 1);
                }
            });
            out
        }
        Re::Cat(v) => v.iter().fold(from, |f, r| ends(r, t, f)),
        Re::Alt(v) => {
            let mut out = B::NONE;
            for r in v {
                out.join(&ends(r, t, from));
            }
            out
        }
        Re::Grp(r) => ends(r, t, from),
        // more characters than any text has
        Re::Rep(_, style, ..) if *style >= VAST && *style < VAST + 6 => B::NONE,
        Re::Rep(r, style, min, max) if t.len() > LONGEST && r.single() => {
            let mut out = B::NONE;
            from.each(|i| {
                let max = if *style >= VAST { INF } else { *max };
                let run = t[i..].iter().take(max).take_while(|c| lit_has(r, **c)).count();
                (*min..=run).for_each(|n| out.put(i + n));
            });
            out
        }
        Re::Rep(r, style, min, max) => {
            let max = if *style >= VAST { &INF } else { max };
            let mut cur = from;
            for _ in 0..*min {
                if cur == B::NONE {
                    break;
                }
                cur = ends(r, t, cur);
            }
            let mut out = cur;
            if *max == INF {
                while cur != B::NONE {
                    cur = ends(r, t, cur).without(&out);
                    out.join(&cur);
                }
            } else {
                for _ in *min..*max {
                    if cur == B::NONE {
                        break;
                    }
                    cur = ends(r, t, cur);
                    out.join(&cur);
                }
            }
            out
        }
    }
}

/// Ends of matches of `r` at the start of `t`.
pub fn ends_in<B: Bits>(r: &Re, t: &[char]) -> Vec<usize> {
    let mut from = B::NONE;
    from.put(0);
    let mut v = vec![];
    ends(r, t, from).each(|i| v.push(i));
    v
}

/// Length of the longest match of `r` at the start of `t`, not counting the empty one.
pub fn longest(r: &Re, t: &[char]) -> Option<usize> {
    fn of<B: Bits>(r: &Re, t: &[char]) -> Option<usize> {
        let mut from = B::NONE;
        from.put(0);
        ends(r, t, from).top().filter(|n| *n > 0)
    }
    match t.len() {
        0..=127 => of::<Short>(r, t),
        128..=1023 => of::<Long>(r, t),
        1024..=8191 => of::<Longest>(r, t),
        _ => of::<Counted>(r, t),
    }
}

fn put_char(o: &mut String, c: char, style: u8) {
    let cp = c as u32;
    match style {
        1 if cp <= 0xff => o.push_str(&format!("\\x{cp:02x}")),
        5 if cp <= 0xff => o.push_str(&format!("\\x{cp:02X}")),
        6 if cp <= 0xffff => o.push_str(&format!("\\u{cp:04x}")),
        7 if cp <= 0xfffff => o.push_str(&format!("\\u{{{cp:05X}}}")),
        8 if (1..=26).contains(&cp) => {
            o.push_str(&format!("\\c{}", char::from_u32(cp + 96).unwrap()))
        }
        2 if cp <= 0xffff => o.push_str(&format!("\\u{cp:04X}")),
        3 if cp <= 0xfffff => o.push_str(&format!("\\u{{{cp:04x}}}")),
        4 if (1..=26).contains(&cp) => {
            o.push_str(&format!("\\c{}", char::from_u32(cp + 64).unwrap()))
        }
        _ => match c {
            '\u{c}' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{b}' => o.push_str("\\v"),
            '\0' => o.push_str("\\0"),
            c => {
                if "^$\\.*+?()[]|/{}-".contains(c) {
                    o.push('\\');
                }
                o.push(c)
            }
        },
    }
}

impl Re {
    pub fn print(&self) -> String {
        let mut s = String::new();
        self.p(&mut s, 0);
        s
    }
    /// ctx 0: anything; 1: inside a concatenation; 2: operand of a quantifier.
    fn p(&self, o: &mut String, ctx: u8) {
        let paren = match self {
            Re::Cat(_) => ctx == 2,
            Re::Alt(_) => ctx >= 1,
            Re::Rep(..) => ctx == 2,
            _ => false,
        };
        if paren {
            o.push('(');
        }
        match self {
            Re::Empty => {}
            Re::Ch(c, st) => put_char(o, *c, *st),
            Re::Class(k) => o.push_str(CLASSES[*k as usize % 7]),
            Re::Set(neg, items) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for i in items {
                    match i {
                        Item::Ch(c, st) => put_char(o, *c, *st),
                        Item::Class(k) => o.push_str(CLASSES[*k as usize % 7]),
                        Item::Range(a, s, b, u) => {
                            put_char(o, *a, *s);
                            o.push('-');
                            put_char(o, *b, *u);
                        }
                    }
                }
                o.push(']');
            }
            Re::Cat(v) => {
                for r in v {
                    r.p(o, 1);
                }
            }
            Re::Alt(v) => {
                for (i, r) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    r.p(o, if matches!(r, Re::Alt(_)) { 1 } else { 0 });
                }
            }
            Re::Grp(r) => {
                o.push('(');
                r.p(o, 0);
                o.push(')');
            }
            Re::Rep(r, style, min, max) => {
                match r.as_ref() {
                    Re::Grp(_) => r.p(o, 0),
                    _ => r.p(o, 2),
                }
                let short = *style == 0;
                // leading zeros
                let zeros = if matches!(style, 4 | 6) { "00" } else { "" };
                match (*min, *max) {
                    _ if *style >= VAST => {
                        let v = if style % 2 == 0 { 1 << 32 } else { 1 << 64 };
                        let (n, m) = (*min as u128, *max as u128);
                        o.push_str(&match (style - VAST) / 2 {
                            0 => format!("{{{}}}", n + v),
                            1 => format!("{{{},}}", n + v),
                            2 => format!("{{{},{}}}", n + v, m + v),
                            _ => format!("{{{n},{}}}", m + v),
                        })
                    }
                    (0, 1) if short => o.push('?'),
                    (0, INF) if short => o.push('*'),
                    (1, INF) if short => o.push('+'),
                    (n, INF) => o.push_str(&format!("{{{zeros}{n},}}")),
                    (n, m) if n == m && style % 4 != 2 => o.push_str(&format!("{{{zeros}{n}}}")),
                    (n, m) => o.push_str(&format!("{{{zeros}{n},{zeros}{m}}}")),
                }
            }
        }
        if paren {
            o.push(')');
        }
    }

    pub fn to_json(&self) -> J {
        let tag = |t: &str, mut v: Vec<J>| {
            v.insert(0, J::str(t));
            J::A(v)
        };
        match self {
            Re::Empty => tag("e", vec![]),
            Re::Ch(c, s) => tag("c", vec![J::num(*c as u32), J::num(*s)]),
            Re::Class(k) => tag("k", vec![J::num(*k)]),
            Re::Set(n, items) => {
                let mut v = vec![J::num(*n as u8)];
                for i in items {
                    v.push(match i {
                        Item::Ch(c, s) => tag("c", vec![J::num(*c as u32), J::num(*s)]),
                        Item::Class(k) => tag("k", vec![J::num(*k)]),
                        Item::Range(a, s, b, u) => tag(
                            "r",
                            vec![J::num(*a as u32), J::num(*s), J::num(*b as u32), J::num(*u)],
                        ),
                    });
                }
                tag("s", v)
            }
            Re::Cat(v) => tag("cat", v.iter().map(Re::to_json).collect()),
            Re::Alt(v) => tag("alt", v.iter().map(Re::to_json).collect()),
            Re::Grp(r) => tag("grp", vec![r.to_json()]),
            Re::Rep(r, s, a, b) => {
                tag("rep", vec![r.to_json(), J::num(*s), J::num(*a), J::num(*b)])
            }
        }
    }

    pub fn from_json(j: &J) -> Option<Re> {
        Re::fj(j, true)
    }

    fn fj(j: &J, top: bool) -> Option<Re> {
        let a = j.a()?;
        let ch = |j: &J| char::from_u32(u32::try_from(j.n()?).ok()?);
        let u8_ = |j: &J| u8::try_from(j.n()?).ok();
        let many = |a: &[J]| a.iter().map(|j| Re::fj(j, false)).collect::<Option<Vec<_>>>();
        let r = match (a.first()?.s()?, a.len() - 1) {
            ("e", 0) if top => Re::Empty,
            ("c", 2) => Re::Ch(ch(&a[1])?, u8_(&a[2])?),
            ("k", 1) => Re::Class(u8_(&a[1]).filter(|k| *k < 7)?),
            ("s", n) if n >= 1 => {
                let neg = a[1].n()? != 0;
                let items = a[2..]
                    .iter()
                    .map(|j| {
                        let b = j.a()?;
                        Some(match (b.first()?.s()?, b.len() - 1) {
                            ("c", 2) => Item::Ch(ch(&b[1])?, u8_(&b[2])?),
                            ("k", 1) => Item::Class(u8_(&b[1]).filter(|k| *k < 7)?),
                            ("r", 4) => {
                                Item::Range(ch(&b[1])?, u8_(&b[2])?, ch(&b[3])?, u8_(&b[4])?)
                            }
                            _ => return None,
                        })
                    })
                    .collect::<Option<Vec<_>>>()?;
                Re::Set(neg, items)
            }
            ("cat", n) if n >= 1 => Re::Cat(many(&a[1..])?),
            ("alt", n) if n >= 1 => Re::Alt(many(&a[1..])?),
            ("grp", 1) => Re::Grp(Box::new(Re::fj(&a[1], false)?)),
            ("rep", 4) => {
                let (min, max) = (a[3].us()?, a[4].us()?);
                let r = Re::fj(&a[1], false)?;
                let style = u8_(&a[2])?;
                let most = if r.single() { COUNTED } else { 400 };
                if style >= VAST && (style >= VAST + 8 || max == INF || !r.single()) {
                    return None;
                }
                if min > max || (max != INF && max > most) || min > most {
                    return None;
                }
                Re::Rep(Box::new(r), style, min, max)
            }
            _ => return None,
        };
        Some(r)
    }

    /// What a quantifier at the front repeats.
    pub fn unit(&self) -> &Re {
        match self {
            Re::Rep(r, ..) => r,
            Re::Cat(v) => v[0].unit(),
            r => r,
        }
    }

    /// Whether it matches single characters only.
    fn single(&self) -> bool {
        matches!(self, Re::Ch(..) | Re::Class(_) | Re::Set(..))
    }

    /// Whether a count in it exceeds four bytes.
    pub fn vast(&self) -> bool {
        match self {
            Re::Cat(v) | Re::Alt(v) => v.iter().any(Re::vast),
            Re::Grp(r) => r.vast(),
            Re::Rep(r, style, ..) => *style >= VAST || r.vast(),
            _ => false,
        }
    }

    /// Whether it is a counted literal, with at most a literal behind it.
    pub fn counted(&self) -> bool {
        match self {
            Re::Rep(r, ..) => r.single(),
            Re::Cat(v) => v.len() == 2 && !v[0].single() && v[0].counted() && v[1].single(),
            _ => false,
        }
    }

    /// The largest count of a counted literal.
    pub fn most(&self) -> usize {
        match self {
            Re::Rep(_, _, min, INF) => *min,
            Re::Rep(_, _, _, max) => *max,
            Re::Cat(v) => v[0].most(),
            _ => 0,
        }
    }

    /// Whether nothing in it is quantified.
    pub fn plain(&self) -> bool {
        match self {
            Re::Cat(v) | Re::Alt(v) => v.iter().all(Re::plain),
            Re::Grp(r) => r.plain(),
            Re::Rep(..) => false,
            _ => true,
        }
    }

    /// Appends a string the pattern denotes, cut off at `max` bytes or so.
    pub fn sample(&self, rng: &mut Rng, alpha: &[char], max: usize, o: &mut String) {
        if o.len() > max {
            return;
        }
        match self {
            Re::Empty => {}
            Re::Ch(c, _) => o.push(*c),
            Re::Class(_) | Re::Set(..) => {
                let cand: Vec<char> = alpha.iter().copied().filter(|c| lit_has(self, *c)).collect();
                if !cand.is_empty() {
                    o.push(*rng.pick(&cand));
                } else if let Re::Set(false, items) = self {
                    if let Some(Item::Ch(c, _) | Item::Range(c, ..)) = items.first() {
                        o.push(*c);
                    }
                }
            }
            Re::Cat(v) => v.iter().for_each(|r| r.sample(rng, alpha, max, o)),
            Re::Alt(v) => rng.pick(v).clone().sample(rng, alpha, max, o),
            Re::Grp(r) => r.sample(rng, alpha, max, o),
            Re::Rep(r, _, min, hi) => {
                let more = if max > 500 && rng.chance(20) { 200 } else { 3 };
                let hi = (*hi).min(min + more);
                for _ in 0..rng.range(*min, hi) {
                    r.sample(rng, alpha, max, o);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- generation

pub const POOL: &[char] = &[
    'a', 'b', 'c', 'd', 'x', 'y', '0', '1', '9', ' ', '\n', '\t', 'é', 'ß', '日', '🌕', '*', '-',
    '.', '(', '}', '$', '\\', '^', '|', '/', '_', 'A', 'F', '\u{1}', '\u{301}', '\r', 'Ω', '²',
    '\u{b}', '\u{c}', '\0', '"', '٣', '\u{a0}', 'Ⅷ',
    '𝔸', '\u{2003}', '\u{feff}', '\u{10ffff}', '\u{7f}', '\u{85}',
];

/// A character that is easily taken for the other: next to it, of the other
/// case, or the same in its lower bits.
pub fn relative(rng: &mut Rng, c: char) -> char {
    let cp = c as u32;
    let bits = [7, 8, 8, 16, 16, 16][rng.below(6)];
    let like = (cp & ((1 << bits) - 1)) + ((rng.range(0, 16) as u32) << bits);
    let r = match rng.below(8) {
        0 => Some(cp + 1),
        1 => cp.checked_sub(1),
        2 => c.to_uppercase().next().filter(|u| *u != c).or(c.to_lowercase().next()).map(u32::from),
        _ => Some(like),
    };
    r.and_then(char::from_u32).unwrap_or(c)
}

pub fn alphabet(rng: &mut Rng) -> Vec<char> {
    let n = rng.range(2, 4);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match v.last() {
            Some(c) if rng.chance(8) => relative(rng, *c),
            _ if rng.chance(60) => *rng.pick(&['a', 'b', 'c']),
            _ if rng.chance(5) => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('e'),
            _ => *rng.pick(POOL),
        });
    }
    v.dedup();
    v
}

fn style(rng: &mut Rng) -> u8 {
    if rng.chance(80) {
        0
    } else {
        rng.range(1, 8) as u8
    }
}

pub fn gen_lit(rng: &mut Rng, al: &[char]) -> Re {
    match rng.below(20) {
        0 => Re::Class(rng.below(7) as u8),
        1 | 2 => {
            let neg = rng.chance(35);
            let mut items = vec![];
            let lo = if rng.chance(5) { 0 } else { 1 };
            for _ in 0..rng.range(lo, 3) {
                items.push(match rng.below(6) {
                    0 => Item::Class(rng.below(7) as u8),
                    1 | 2 => {
                        let (mut a, mut b) = (*rng.pick(al), *rng.pick(al));
                        if a > b && rng.chance(90) {
                            std::mem::swap(&mut a, &mut b);
                        }
                        Item::Range(a, style(rng), b, style(rng))
                    }
                    _ => Item::Ch(*rng.pick(al), style(rng)),
                });
            }
            Re::Set(neg, items)
        }
        _ => Re::Ch(*rng.pick(al), style(rng)),
    }
}

pub fn gen_quant(rng: &mut Rng) -> (u8, usize, usize) {
    if rng.chance(5) {
        // counts of more than one digit
        let n = rng.range(9, 13);
        return match rng.below(4) {
            0 => (1, n, n),
            1 => (1, n, INF),
            2 => (2, n, n + rng.range(0, 3)),
            _ => (2, rng.range(0, 3), n),
        };
    }
    match rng.below(8) {
        0 if rng.chance(20) => {
            let n = rng.range(0, 3);
            ([4, 6][rng.below(2)], n, [n, n + 1, INF][rng.below(3)])
        }
        0 => (0, 0, 1),
        1 => (0, 0, INF),
        2 => (0, 1, INF),
        3 => {
            let n = rng.range(0, 4);
            (1, n, n)
        }
        4 => (1, rng.range(0, 3), INF),
        5 => {
            let n = rng.range(0, 3);
            (2, n, n + rng.range(0, 3))
        }
        6 => (1, 2, 3),
        _ => (0, 0, INF),
    }
}

/// A literal with a count that four bytes, or eight, do not hold.
pub fn gen_vast(rng: &mut Rng, al: &[char]) -> Re {
    let n = rng.below(6);
    Re::Rep(Box::new(gen_lit(rng, al)), VAST + rng.below(8) as u8, n, n + rng.below(3))
}

/// Many items in a group, many alternatives, many parts or many brackets; and
/// how long the matched texts are.
pub fn gen_large(rng: &mut Rng, al: &mut Vec<char>) -> (Re, usize) {
    let n = match rng.below(4) {
        0 => rng.range(4, 9),
        1 => rng.range(10, 40),
        2 => rng.range(41, 140),
        _ => rng.range(250, 300),
    };
    let from = [0x100, 0x4e00, 0x1f300][rng.below(3)];
    let other = |k: usize| char::from_u32(from + 2 * k as u32).unwrap();
    let more = [other(0), other(n / 2), other(n - 1), other(n), other(rng.below(n))];
    match rng.below(5) {
        0 | 1 => {
            let mut items = vec![];
            for k in 0..n {
                items.push(match rng.below(12) {
                    0 => Item::Range(other(k), style(rng), other(k + 1), 0),
                    1 => Item::Ch(*rng.pick(al), style(rng)),
                    _ => Item::Ch(other(k), 0),
                });
            }
            items.push(Item::Ch(*rng.pick(al), 0));
            al.extend(more);
            if rng.chance(30) {
                rng.shuffle(&mut items);
            }
            (Re::Set(rng.chance(30), items), 1)
        }
        2 => {
            let alt = (0..n).map(|k| word(&[*rng.pick(al), other(k)][rng.below(2)..])).collect();
            (Re::Alt(alt), 2)
        }
        3 => (Re::Cat((0..n).map(|_| gen_lit(rng, al)).collect()), n),
        _ => {
            let mut r = gen_lit(rng, al);
            let mut m = 1;
            for _ in 0..n.min(60) {
                if rng.chance(20) {
                    r = Re::Cat(vec![r, gen_lit(rng, al)]);
                    m += 1;
                }
                r = Re::Grp(Box::new(r));
            }
            (r, m)
        }
    }
}

/// `nest` limits how deep quantified groups may be nested.
pub fn gen_re(rng: &mut Rng, al: &[char], depth: usize, nest: usize) -> Re {
    if depth == 0 {
        return gen_lit(rng, al);
    }
    match rng.below(10) {
        0..=1 => gen_lit(rng, al),
        2..=4 => {
            let n = rng.range(2, 4);
            Re::Cat((0..n).map(|_| gen_re(rng, al, depth - 1, nest)).collect())
        }
        5..=6 => {
            let n = rng.range(2, 3);
            Re::Alt((0..n).map(|_| gen_re(rng, al, depth - 1, nest)).collect())
        }
        7 => Re::Grp(Box::new(gen_re(rng, al, depth - 1, nest))),
        _ => {
            let (s, a, b) = gen_quant(rng);
            let inner = if nest == 0 || a.max(b % INF) > 8 && rng.chance(70) {
                gen_lit(rng, al)
            } else {
                gen_re(rng, al, depth - 1, nest - 1)
            };
            Re::Rep(Box::new(inner), s, a, b)
        }
    }
}

pub fn word(cs: &[char]) -> Re {
    match cs.len() {
        0 => Re::Empty,
        1 => Re::Ch(cs[0], 0),
        _ => Re::Cat(cs.iter().map(|c| Re::Ch(*c, 0)).collect()),
    }
}
