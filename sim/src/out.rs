//! What one simulated run produced.

use crate::json::J;
use crate::rt::{self, Env, Exit, NSITES, SITE_NAMES};
use std::collections::BTreeMap;

/// Filled in by the code running inside the simulated environment.
#[derive(Default)]
pub struct R {
    pub viol: Option<String>,
    pub cnt: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub obs: Vec<String>,
}

impl R {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.cnt.entry(k).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, m: String) {
        if self.viol.is_none() {
            self.viol = Some(m);
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    pub viol: Option<String>,
    pub harness: Option<String>,
    pub cnt: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub obs: Vec<String>,
    pub ticks: u64,
    pub allocs: u64,
    pub digest: u64,
    pub draws: u64,
    pub execs: u64,
}

impl Out {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.cnt.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&mut self, o: &Out) {
        if self.viol.is_none() {
            self.viol = o.viol.clone();
        }
        if self.harness.is_none() {
            self.harness = o.harness.clone();
        }
        for (k, v) in &o.cnt {
            *self.cnt.entry(k.clone()).or_insert(0) += v;
        }
        self.nontrivial |= o.nontrivial;
        self.ticks += o.ticks;
        self.allocs += o.allocs;
        self.draws += o.draws;
        self.execs += o.execs;
        self.digest = crate::rng::mix(self.digest ^ o.digest);
    }
    /// First word of the violation: its class.
    pub fn class(&self) -> Option<&str> {
        self.viol.as_deref().map(|v| v.split(':').next().unwrap_or(v))
    }
}

/// One execution: forks, runs `f` in the environment, decodes the result.
pub fn exec<F: FnOnce() -> R + Send>(env: &Env, f: F) -> Out {
    let e = rt::isolate(env, || {
        let mut r = f();
        let m = rt::meter();
        let v = rt::VIOL.with(|v| v.borrow_mut().take());
        if let Some(v) = v {
            r.viol = Some(v);
        }
        let cnt = r.cnt.iter().map(|(k, v)| (k.to_string(), J::num(*v))).collect();
        let mut cnt = J::O(cnt);
        for i in 0..NSITES {
            cnt.set(&format!("calls:{}", SITE_NAMES[i]), J::num(m.sites[i]));
        }
        J::obj([
            ("v", r.viol.map(J::S).unwrap_or(J::Null)),
            ("c", cnt),
            ("nt", J::B(r.nontrivial)),
            ("obs", J::A(r.obs.into_iter().map(J::S).collect())),
            ("m", J::A(vec![
                J::num(m.ticks),
                J::num(m.allocs),
                J::str(format!("{:016x}", m.digest)),
                J::num(m.draws),
            ])),
        ])
        .print()
    });
    let mut o = Out { execs: 1, ..Out::default() };
    match e {
        Exit::Ok(s) => {
            let Some(j) = J::parse(&s) else {
                o.harness = Some(format!("undecodable result: {s}"));
                return o;
            };
            o.viol = j.get("v").and_then(|v| v.s()).map(str::to_owned);
            if let Some(J::O(c)) = j.get("c") {
                for (k, v) in c {
                    o.add(k, v.n().unwrap_or(0) as u64);
                }
            }
            o.nontrivial = j.get("nt") == Some(&J::B(true));
            if let Some(a) = j.get("obs").and_then(|a| a.a()) {
                o.obs = a.iter().filter_map(|s| s.s().map(str::to_owned)).collect();
            }
            let m = j.get("m").and_then(|m| m.a()).unwrap_or(&[]);
            o.ticks = m[0].n().unwrap_or(0) as u64;
            o.allocs = m[1].n().unwrap_or(0) as u64;
            o.digest = u64::from_str_radix(m[2].s().unwrap_or("0"), 16).unwrap_or(0);
            o.draws = m[3].n().unwrap_or(0) as u64;
        }
        Exit::Budget => o.viol = Some("stuck: the work budget of the run was exhausted".into()),
        Exit::Hang => o.viol = Some("stuck: no progress, the run had to be ended".into()),
        Exit::Undefined => o.viol = Some("crash: an unsafe operation was used against its conditions".into()),
        Exit::Signal(s) => o.viol = Some(format!("crash: the process died with signal {s}")),
        Exit::Harness(m) => o.harness = Some(m),
    }
    o
}
