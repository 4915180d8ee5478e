//! Where the library keeps static data that can change, found in the symbol
//! table of this program, and catching what writes there. The library as it is
//! has none, and then nothing here happens.

use std::ops::Range;
use std::sync::OnceLock;

const PAGE: u64 = 4096;
/// Writes caught in a run; later ones go unnoticed.
pub const MOST: u64 = 20_000;

struct Statics {
    places: Vec<Range<u64>>,
    pages: Vec<u64>,
}

static STATICS: OnceLock<Statics> = OnceLock::new();

/// Has to be called before the first run.
pub fn look() {
    STATICS.get_or_init(|| {
        let places = find().unwrap_or_default();
        let mut pages: Vec<u64> = places.iter().flat_map(|r| (r.start / PAGE)..=((r.end - 1) / PAGE)).collect();
        pages.sort_unstable();
        pages.dedup();
        Statics { places, pages }
    });
}

pub fn any() -> bool {
    cfg!(target_arch = "x86_64") && STATICS.get().is_some_and(|s| !s.places.is_empty())
}

pub fn is_place(at: u64) -> bool {
    STATICS.get().is_some_and(|s| s.places.iter().any(|r| r.contains(&at)))
}

pub fn is_caught(at: u64) -> bool {
    STATICS.get().is_some_and(|s| s.pages.contains(&(at / PAGE)))
}

/// Makes writes fail, or lets them pass.
pub fn catch(on: bool) {
    extern "C" {
        fn mprotect(at: *mut u8, len: usize, how: i32) -> i32;
    }
    for p in STATICS.get().iter().flat_map(|s| &s.pages) {
        unsafe { mprotect((p * PAGE) as *mut u8, PAGE as usize, if on { 1 } else { 3 }) };
    }
}

fn find() -> Option<Vec<Range<u64>>> {
    extern "C" {
        static __executable_start: u8;
    }
    let f = std::fs::read("/proc/self/exe").ok()?;
    let num = |at: u64, n: u64| -> Option<u64> {
        let b = f.get(at as usize..(at + n) as usize)?;
        Some(b.iter().rev().fold(0, |a, b| a << 8 | u64::from(*b)))
    };
    let text = |at: u64| -> Option<&str> {
        let b = f.get(at as usize..)?;
        std::str::from_utf8(&b[..b.iter().position(|b| *b == 0)?]).ok()
    };
    let base = if num(16, 2)? == 3 { &raw const __executable_start as u64 } else { 0 };
    // the section headers: name, flags, place in the file, size, link
    let (table, size, count, names) = (num(40, 8)?, num(58, 2)?, num(60, 2)?, num(62, 2)?);
    let head = |k: u64| table + k * size;
    let names = num(head(names) + 24, 8)?;
    let mut out = vec![];
    for k in 0..count {
        if num(head(k) + 4, 4)? != 2 {
            continue;
        }
        let (at, len, link) = (num(head(k) + 24, 8)?, num(head(k) + 32, 8)?, num(head(k) + 40, 4)?);
        let strings = num(head(link) + 24, 8)?;
        for s in (at..at + len).step_by(24) {
            let name = text(strings + num(s, 4)?).unwrap_or("");
            let ours = name.contains("pango_lexer") || name.contains("pango_parser");
            let section = num(s + 6, 2)?;
            if num(s + 4, 1)? & 15 != 1 || !ours || name.contains("pango_sim") || section == 0 || section >= count {
                continue;
            }
            let of = text(names + num(head(section), 4)?)?;
            let (value, size) = (num(s + 8, 8)?, num(s + 16, 8)?);
            if size > 0 && matches!(of, ".bss" | ".data") {
                out.push(base + value..base + value + size);
            }
        }
    }
    Some(out)
}
