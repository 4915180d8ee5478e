//! Minimal JSON: cases, replay files and evidence are plain JSON values, and
//! minimisation works on them generically.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, val: J) {
        if let J::O(v) = self {
            if let Some(e) = v.iter_mut().find(|(n, _)| n == k) {
                e.1 = val;
            } else {
                v.push((k.to_string(), val));
            }
        }
    }
    pub fn n(&self) -> Option<i64> {
        match self {
            J::N(n) => Some(*n),
            _ => None,
        }
    }
    pub fn us(&self) -> Option<usize> {
        self.n().and_then(|n| usize::try_from(n).ok())
    }
    pub fn s(&self) -> Option<&str> {
        match self {
            J::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn a(&self) -> Option<&[J]> {
        match self {
            J::A(a) => Some(a),
            _ => None,
        }
    }
    pub fn str(s: impl Into<String>) -> J {
        J::S(s.into())
    }
    pub fn num(n: impl TryInto<i64>) -> J {
        J::N(n.try_into().unwrap_or(i64::MAX))
    }
    pub fn obj<const N: usize>(f: [(&str, J); N]) -> J {
        J::O(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn size(&self) -> usize {
        match self {
            J::A(a) => 1 + a.iter().map(J::size).sum::<usize>(),
            J::O(o) => 1 + o.iter().map(|(_, j)| j.size()).sum::<usize>(),
            J::S(s) => 1 + s.chars().count(),
            J::N(n) => 1 + (64 - n.unsigned_abs().leading_zeros() as usize) / 8,
            _ => 1,
        }
    }
    pub fn print(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => write!(o, "{b}").unwrap(),
            J::N(n) => write!(o, "{n}").unwrap(),
            J::F(f) => write!(o, "{f:.6}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                            write!(o, "\\u{:04x}", c as u32).unwrap()
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(a) => {
                o.push('[');
                for (i, j) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    j.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    j.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let cs: Vec<char> = s.chars().collect();
        let mut p = 0;
        let j = val(&cs, &mut p)?;
        ws(&cs, &mut p);
        (p == cs.len()).then_some(j)
    }
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}

fn val(c: &[char], p: &mut usize) -> Option<J> {
    ws(c, p);
    match *c.get(*p)? {
        '[' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&']') {
                *p += 1;
                return Some(J::A(v));
            }
            loop {
                v.push(val(c, p)?);
                ws(c, p);
                match *c.get(*p)? {
                    ',' => *p += 1,
                    ']' => {
                        *p += 1;
                        return Some(J::A(v));
                    }
                    _ => return None,
                }
            }
        }
        '{' => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                return Some(J::O(v));
            }
            loop {
                ws(c, p);
                let J::S(k) = val(c, p)? else { return None };
                ws(c, p);
                if *c.get(*p)? != ':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(c, p)?));
                ws(c, p);
                match *c.get(*p)? {
                    ',' => *p += 1,
                    '}' => {
                        *p += 1;
                        return Some(J::O(v));
                    }
                    _ => return None,
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let ch = *c.get(*p)?;
                *p += 1;
                match ch {
                    '"' => return Some(J::S(s)),
                    '\\' => {
                        let e = *c.get(*p)?;
                        *p += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = c.get(*p..*p + 4)?.iter().collect();
                                *p += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => s.push(e),
                        }
                    }
                    ch => s.push(ch),
                }
            }
        }
        't' => {
            *p += 4;
            Some(J::B(true))
        }
        'f' => {
            *p += 5;
            Some(J::B(false))
        }
        'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < c.len() && (c[*p].is_ascii_digit() || "+-.eE".contains(c[*p])) {
                *p += 1;
            }
            let t: String = c[st..*p].iter().collect();
            t.parse::<i64>().map(J::N).ok().or_else(|| t.parse::<f64>().map(J::F).ok())
        }
    }
}

/// Generic one-step simplifications of a JSON value, biggest first.
pub fn shrinks(j: &J) -> Vec<J> {
    let mut out = vec![];
    match j {
        J::A(a) => {
            // drop chunks
            let mut chunk = a.len() / 2;
            while chunk >= 1 {
                let mut i = 0;
                while i < a.len() {
                    let mut b = a.clone();
                    b.drain(i..(i + chunk).min(a.len()));
                    out.push(J::A(b));
                    i += chunk;
                }
                chunk /= 2;
            }
            // hoist a child of the same shape
            for c in a {
                if matches!(c, J::A(_)) {
                    out.push(c.clone());
                }
            }
            for (i, c) in a.iter().enumerate() {
                for s in shrinks(c) {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(J::A(b));
                }
            }
        }
        J::O(o) => {
            for (i, (k, c)) in o.iter().enumerate() {
                // hash keys and the like are not "smaller" when smaller
                if k == "prop" || k == "seed" || k == "fam" {
                    continue;
                }
                for s in shrinks(c) {
                    let mut b = o.clone();
                    b[i].1 = s;
                    out.push(J::O(b));
                }
            }
        }
        J::S(s) => {
            let cs: Vec<char> = s.chars().collect();
            let mut chunk = cs.len() / 2;
            while chunk >= 1 {
                let mut i = 0;
                while i < cs.len() {
                    let mut b = cs.clone();
                    b.drain(i..(i + chunk).min(cs.len()));
                    out.push(J::S(b.into_iter().collect()));
                    i += chunk;
                }
                chunk /= 2;
            }
            if cs.len() == 1 {
                out.push(J::S(String::new()));
            }
        }
        J::N(n) => {
            for c in [0, 1, n / 2, n - n.signum()] {
                if c.unsigned_abs() < n.unsigned_abs() && !out.contains(&J::N(c)) {
                    out.push(J::N(c));
                }
            }
        }
        _ => {}
    }
    out
}
