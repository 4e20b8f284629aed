//! C29: the effort is in proportion to the text. The requests of the parser are counted; the
//! processor time of tokenizer and parser is bounded on large texts.

use crate::jobs::*;
use crate::lexcheck;
use crate::runimpl::{self, Verdict};
use crate::work::{self, Ctl};
use std::time::Duration;

/// Requests of the parser for each token of the text, and for any text.
const EACH: usize = 16;
const BASE: usize = 256;

/// After a run: whether it asked for tokens far more often than the text has any.
pub fn excess(v: &Verdict) -> Option<String> {
    let r = runimpl::last();
    if let Verdict::Internal(m) = v {
        if m.starts_with("runaway:") {
            return Some(format!("{} requests, of which {} read on in the text, and still no end", r.calls, r.fresh));
        }
    }
    if r.calls > EACH * r.fresh + BASE {
        return Some(format!("{} requests, of which only {} read on in the text", r.calls, r.fresh));
    }
    None
}

/// Every part, and every two parts, of every sentence, many times over.
pub struct Count {
    pub what: &'static str,
    pub sents: Vec<Vec<String>>,
    pub part: usize,
    pub n: usize,
}
impl Count {
    fn one(&self, s: &[String], p: [usize; 4], ctl: &mut Ctl) {
        let mut t = String::new();
        let mut add = |r: std::ops::Range<usize>, n: usize| {
            for _ in 0..n {
                for x in &s[r.clone()] {
                    t.push_str(x);
                    t.push(' ');
                }
            }
        };
        add(0..p[0], 1);
        add(p[0]..p[1], self.n);
        add(p[1]..p[2], 1);
        add(p[2]..p[3], if p[2] < p[3] { self.n } else { 0 });
        add(p[3]..s.len(), 1);
        count(&t, ctl);
    }
}
/// One run on a text, its requests counted.
fn count(t: &str, ctl: &mut Ctl) {
    let me = ctl.me();
    Ctl::add(&me.states, 1);
    ctl.sample(t);
    ctl.enter(t);
    let v = runimpl::parse(t);
    ctl.leave();
    Ctl::add(&me.runs, 1);
    Ctl::add(if v == Verdict::Accept { &me.accepted } else { &me.rejected }, 1);
    Ctl::add(&me.transitions, runimpl::last().calls as u64);
    if let Some(w) = excess(&v) {
        ctl.violation(t, &w);
    }
}
impl Job for Count {
    fn desc(&self) -> String {
        format!("parser, requests counted: every part of up to {} tokens of {} sentences, and every two such parts together, {} times ({})", self.part, self.sents.len(), self.n, self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let s = &self.sents[u as usize];
        let n = s.len();
        for a in 0..n {
            for b in a + 1..=n.min(a + self.part) {
                self.one(s, [a, b, b, b], ctl);
                for c in b..n {
                    for d in c + 1..=n.min(c + self.part) {
                        self.one(s, [a, b, c, d], ctl);
                        if ctl.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Texts, with the requests counted.
pub struct CountTexts {
    pub what: &'static str,
    pub texts: Vec<String>,
}
impl Job for CountTexts {
    fn desc(&self) -> String {
        format!("parser, requests counted: {} texts: {}", self.texts.len(), self.what)
    }
    fn units(&self) -> u64 {
        (self.texts.len() as u64 + 15) / 16
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        for t in self.texts.iter().skip(u as usize * 16).take(16) {
            count(t, ctl);
            if ctl.stopped() {
                return;
            }
        }
    }
}

/// Texts of `size` bytes of one or two repeated parts, each in a process with a limited
/// processor time.
pub struct Bulk {
    pub what: &'static str,
    pub parts: Vec<(String, String, String)>,
    pub size: usize,
    /// what the reference needs is less than a tenth of this
    pub seconds: u64,
    pub parse: bool,
    pub stack: usize,
}
impl Bulk {
    fn family(&self, u: u64) -> Family {
        let (a, b, c) = &self.parts[u as usize];
        Family { n: self.size / (a.len() + c.len()).max(1), a: a.clone(), b: b.clone(), c: c.clone() }
    }
}
/// `seconds` of processor time for the tokenizer under constant hints, or for the parser.
fn limited(f: &Family, seconds: u64, parse: bool, stack: usize) -> Result<i32, String> {
    let t = f.text(f.n);
    work::isolated(Duration::from_secs(200), stack, move || {
        let l = libc::rlimit { rlim_cur: seconds, rlim_max: seconds };
        unsafe {
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        if parse {
            let v = runimpl::parse(&t);
            return if excess(&v).is_some() { 7 } else { 0 };
        }
        for h in 0..4 {
            lexcheck::pass(&t, h);
        }
        0
    })
}
impl Job for Bulk {
    fn desc(&self) -> String {
        format!("{}: {} texts of {} bytes in {} s of processor time each ({})", if self.parse { "parser" } else { "tokenizer" }, self.parts.len(), self.size, self.seconds, self.what)
    }
    fn units(&self) -> u64 {
        self.parts.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let f = self.family(u);
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        Ctl::add(&me.transitions, f.n as u64);
        Ctl::add(&me.runs, 1);
        let r = limited(&f, self.seconds, self.parse, self.stack);
        match r {
            Ok(7) => ctl.violation(&f.name(), "far more requests than the text has tokens"),
            Err(e) if e.ends_with(&format!("signal {}", libc::SIGXCPU)) || e.ends_with(&format!("signal {}", libc::SIGKILL)) => ctl.violation(&f.name(), &format!("{} bytes are not read in {} s of processor time", self.size, self.seconds)),
            Err(e) if e == "does not end" => ctl.violation(&f.name(), "does not end"),
            // how deep the nesting may be is a matter for C24
            _ => {}
        }
    }
}
