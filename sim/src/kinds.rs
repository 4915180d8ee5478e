//! Caller-supplied types with instrumented trait implementations, and the token
//! constructors.

use crate::rt::{self, note, tick, violation, Site};
use pango_lexer::Lexer;
use pango_parser::{TerminalEq, TerminalHash};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};

pub const MAX_V: u8 = 120;
const MAGIC: u32 = 0x7e57_0a17;

thread_local! {
    /// 0 = honest, 1 = everything collides, 2 = two buckets.
    pub static HASH_MODE: Cell<u8> = const { Cell::new(0) };
    /// How terminals of a grammar get their values; 0 for no values.
    pub static VALS: Cell<u64> = const { Cell::new(0) };
    /// How symbols print: a number of `STYLES`.
    pub static NAMES: Cell<usize> = const { Cell::new(0) };
    /// The n-th next print returns an error.
    pub static DEBUG_ERR: Cell<u64> = const { Cell::new(0) };
    /// Generator state and rate (per mille) of wrong answers given by comparisons and hashes.
    static LIES: Cell<(u64, u32)> = const { Cell::new((0, 0)) };
    static LEDGER: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    /// Constructor invocations: (definition, text or None for text-less).
    pub static CALLS: RefCell<Vec<(usize, Option<String>)>> = const { RefCell::new(Vec::new()) };
}

/// What symbols print in front of and behind their names.
pub const STYLES: [(&str, &str); 14] = [
    ("", ""),
    ("\"", "\""),
    ("Text(\"", "\")"),
    ("", "\\"),
    ("\\", ""),
    ("\\\\", "\\\\"),
    ("\\\"", "\"\\"),
    ("'\\'", "'"),
    ("\"", ""),
    ("", "\""),
    ("[label=\"", "\"];"),
    ("\"; ", " } //"),
    ("\"\\n", "\\l\""),
    ("{•➞|<", ">}"),
];

pub fn names() -> (&'static str, &'static str) {
    STYLES[NAMES.get()]
}

fn print(f: &mut fmt::Formatter<'_>, name: fmt::Arguments<'_>) -> fmt::Result {
    let n = DEBUG_ERR.get();
    if n > 0 {
        DEBUG_ERR.set(n - 1);
        if n == 1 {
            return Err(fmt::Error);
        }
    }
    let (pre, suf) = names();
    write!(f, "{pre}{name}{suf}")
}

/// From here on comparisons and hashes answer wrongly now and then.
pub fn lie(seed: u64, rate: u32) {
    LIES.set((seed, rate));
}

fn lying() -> Option<u64> {
    let (s, rate) = LIES.get();
    if rate == 0 {
        return None;
    }
    let s = crate::rng::mix(s);
    LIES.set((s, rate));
    (s % 1000 < rate as u64).then_some(s >> 32)
}

fn answer(b: bool) -> bool {
    b ^ lying().is_some()
}

fn hash_val<H: Hasher>(v: u32, h: &mut H) {
    if let Some(x) = lying() {
        x.hash(h);
        return;
    }
    match HASH_MODE.get() {
        0 => v.hash(h),
        1 => {}
        _ => (v & 1).hash(h),
    }
}

// ---------------------------------------------------------------- variables

#[derive(Clone, Copy)]
pub struct V(pub u8);

fn ckv(v: &V) {
    if v.0 >= MAX_V {
        violation(format!("dead-variable: a variable was read from freed memory ({:#x})", v.0));
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        ckv(self);
        ckv(o);
        tick(Site::VEq, (self.0 as u64) << 8 | o.0 as u64);
        answer(self.0 == o.0)
    }
}
impl Eq for V {}
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        ckv(self);
        tick(Site::VHash, self.0 as u64);
        hash_val(self.0 as u32, h);
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        ckv(self);
        tick(Site::Debug, self.0 as u64);
        print(f, format_args!("n{}", self.0))
    }
}

// ---------------------------------------------------------------- terminals

/// Owned terminal: every live value is registered in a ledger.
pub struct T {
    magic: u32,
    kind: u8,
    val: u32,
    id: u32,
}

/// Plain `Copy` terminal.
#[derive(Clone, Copy)]
pub struct K {
    magic: u32,
    kind: u8,
    val: u32,
}

impl T {
    fn ck(&self, what: &str) {
        if self.magic != MAGIC {
            violation(format!("dead-terminal: {what} on a terminal in freed memory"));
            return;
        }
        let live = LEDGER.with(|l| l.borrow().get(self.id as usize).copied());
        if live != Some(1) {
            violation(format!(
                "dead-terminal: {what} on terminal t{}v{} after it was dropped",
                self.kind, self.val
            ));
        }
    }
    fn fresh(kind: u8, val: u32) -> T {
        let id = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            rt::outside(|| l.push(1));
            l.len() as u32 - 1
        });
        T { magic: MAGIC, kind, val, id }
    }
}

impl K {
    fn ck(&self, what: &str) {
        if self.magic != MAGIC {
            violation(format!("dead-terminal: {what} on a terminal in freed memory"));
        }
    }
}

impl Clone for T {
    fn clone(&self) -> T {
        self.ck("clone");
        tick(Site::Clone, self.kind as u64);
        T::fresh(self.kind, self.val)
    }
}

impl Drop for T {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            violation("double-drop: drop of a terminal in freed memory".to_string());
            return;
        }
        let id = self.id as usize;
        let was = LEDGER.with(|l| match l.borrow_mut().get_mut(id) {
            Some(e) => std::mem::replace(e, 2),
            None => 3,
        });
        if was != 1 {
            violation(format!("double-drop: terminal t{}v{} dropped twice", self.kind, self.val));
        }
        tick(Site::Drop, self.kind as u64);
    }
}

/// Terminals created but never dropped so far.
pub fn live_terminals() -> usize {
    LEDGER.with(|l| l.borrow().iter().filter(|e| **e == 1).count())
}

macro_rules! term_impl {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.ck("eq");
                o.ck("eq");
                tick(Site::TEq, (self.kind as u64) << 8 | o.kind as u64);
                answer(self.kind == o.kind && self.val == o.val)
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.ck("hash");
                tick(Site::THash, self.kind as u64);
                hash_val((self.kind as u32) << 16 ^ self.val, h);
            }
        }
        impl TerminalEq for $t {
            fn terminal_eq(&self, o: &Self) -> bool {
                self.ck("terminal_eq");
                o.ck("terminal_eq");
                tick(Site::KEq, (self.kind as u64) << 8 | o.kind as u64);
                answer(self.kind == o.kind)
            }
        }
        impl TerminalHash for $t {
            fn terminal_hash<H: Hasher>(&self, h: &mut H) {
                self.ck("terminal_hash");
                tick(Site::KHash, self.kind as u64);
                hash_val(self.kind as u32, h);
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.ck("debug");
                tick(Site::Debug, self.kind as u64);
                print(f, format_args!("t{}v{}", self.kind, self.val))
            }
        }
    };
}
term_impl!(T);
term_impl!(K);

/// How a definition's constructor is declared.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Decl {
    Map,
    Fn,
    Unit,
}

impl Decl {
    pub fn from_n(n: usize) -> Decl {
        [Decl::Map, Decl::Fn, Decl::Unit][n % 3]
    }
}

pub struct Def {
    pub pattern: String,
    pub decl: Decl,
}

pub type Lx<X> = Lexer<'static, X>;

pub trait Term:
    Sized + TerminalEq + TerminalHash + Eq + Hash + fmt::Debug + Clone + 'static
{
    const COPY: bool;
    fn mk(kind: u8, val: u32) -> Self;
    fn kind(&self) -> u8;
    fn val(&self) -> u32;
    fn lexer(defs: &[Def], text: &'static str) -> Result<Lx<Self>, String>;
}

/// Most definitions of a lexer.
pub const MAX_DEFS: usize = 150;
/// Most terminals of a grammar.
pub const MAX_T: usize = 120;

/// How a token kind is written in a case.
pub fn letter(k: u8) -> char {
    match k {
        0..=25 => (b'a' + k) as char,
        _ => char::from_u32(0x100 + k as u32).unwrap(),
    }
}

pub fn kind_of(c: char) -> Option<u8> {
    let k = match c {
        'a'..='z' => c as u32 - 'a' as u32,
        _ => (c as u32).checked_sub(0x100).filter(|k| *k > 25)?,
    };
    u8::try_from(k).ok().filter(|k| (*k as usize) < MAX_T)
}


/// Value a map constructor gives to a text: its decimal tail, or a hash.
pub fn text_val(s: &str) -> u32 {
    let mut cs = s.chars();
    cs.next();
    let rest = cs.as_str();
    if !rest.is_empty() && rest.len() < 9 && rest.bytes().all(|b| b.is_ascii_digit()) {
        return rest.parse().unwrap();
    }
    if rest.is_empty() {
        return 0;
    }
    let mut h: u32 = 0x811c_9dc5;
    for b in s.bytes() {
        h = (h ^ b as u32).wrapping_mul(0x0100_0193);
    }
    h | 0x8000_0000
}

fn called(def: usize, text: Option<&str>) {
    note(0xC0 << 48 | def as u64);
    CALLS.with(|c| c.borrow_mut().push((def, text.map(str::to_owned))));
    tick(Site::Ctor, def as u64);
}

pub fn take_calls() -> Vec<(usize, Option<String>)> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

pub fn put_calls(v: Vec<(usize, Option<String>)>) {
    CALLS.with(|c| *c.borrow_mut() = v);
}

fn mk_fn<X: Term, const I: usize>() -> X {
    called(I, None);
    X::mk(I as u8, 0)
}

fn mk_map<X: Term, const I: usize>(s: &str) -> X {
    called(I, Some(s));
    X::mk(I as u8, text_val(s))
}

/// The constructors that differ only in a number below 150.
macro_rules! numbered {
    ($f:ident) => {
        numbered!($f 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14)
    };
    ($f:ident $($t:literal)*) => {
        [$($f::<X, { $t * 10 }>, $f::<X, { $t * 10 + 1 }>, $f::<X, { $t * 10 + 2 }>, $f::<X, { $t * 10 + 3 }>,
           $f::<X, { $t * 10 + 4 }>, $f::<X, { $t * 10 + 5 }>, $f::<X, { $t * 10 + 6 }>, $f::<X, { $t * 10 + 7 }>,
           $f::<X, { $t * 10 + 8 }>, $f::<X, { $t * 10 + 9 }>,)*]
    };
}

fn fns<X: Term>(i: usize) -> fn() -> X {
    let t: [fn() -> X; MAX_DEFS] = numbered!(mk_fn);
    t[i]
}

fn maps<X: Term>(i: usize) -> fn(&str) -> X {
    let t: [fn(&str) -> X; MAX_DEFS] = numbered!(mk_map);
    t[i]
}

impl Term for T {
    const COPY: bool = false;
    fn mk(kind: u8, val: u32) -> T {
        T::fresh(kind, val)
    }
    fn kind(&self) -> u8 {
        self.ck("read");
        self.kind
    }
    fn val(&self) -> u32 {
        self.val
    }
    fn lexer(defs: &[Def], text: &'static str) -> Result<Lx<T>, String> {
        let mut b = Lexer::<T>::builder();
        for (i, d) in defs.iter().enumerate() {
            b = match d.decl {
                Decl::Map => b.with_token_map(&d.pattern, maps::<T>(i)),
                _ => b.with_token(&d.pattern, fns::<T>(i)),
            }
            .map_err(|e| format!("{e}"))?;
        }
        Ok(b.tokenize(text))
    }
}

impl Term for K {
    const COPY: bool = true;
    fn mk(kind: u8, val: u32) -> K {
        K { magic: MAGIC, kind, val }
    }
    fn kind(&self) -> u8 {
        self.ck("read");
        self.kind
    }
    fn val(&self) -> u32 {
        self.val
    }
    fn lexer(defs: &[Def], text: &'static str) -> Result<Lx<K>, String> {
        let mut b = Lexer::<K>::builder();
        for (i, d) in defs.iter().enumerate() {
            b = match d.decl {
                Decl::Map => b.with_token_map(&d.pattern, maps::<K>(i)),
                Decl::Fn => b.with_token(&d.pattern, fns::<K>(i)),
                Decl::Unit => b.with_token_unit(&d.pattern, K::mk(i as u8, 0)),
            }
            .map_err(|e| format!("{e}"))?;
        }
        Ok(b.tokenize(text))
    }
}

/// Input text with the lifetime lexers need; it lives in the arena.
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}
