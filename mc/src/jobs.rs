//! The kinds of exhaustive exploration a check is built from. A job is a finite space cut
//! into units; workers take units until all are done.

use crate::core::*;
use crate::glr::*;
use crate::kinds::*;
use crate::lexcheck::*;
use crate::pda::Config;
use crate::runimpl::{self, Verdict};
use crate::work::Ctl;

pub struct St {
    pub pw: PW,
}

pub trait Job: Sync {
    fn desc(&self) -> String;
    fn units(&self) -> u64;
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St);
}

fn report(v: Option<(String, String)>, ctl: &mut Ctl) {
    if let Some((what, text)) = v {
        ctl.violation(&text, &what);
    }
}

// ------------------------------------------------------------------ texts

/// All sequences of lo..=hi chunks, between each prefix and suffix.
pub struct Strings {
    pub pre: Vec<String>,
    pub chunks: Vec<String>,
    pub lo: usize,
    pub hi: usize,
    pub suf: Vec<String>,
}
const BLOCK: u64 = 2048;
impl Strings {
    pub fn total(&self) -> u64 {
        let c = self.chunks.len() as u64;
        (self.lo..=self.hi).map(|n| c.pow(n as u32)).sum::<u64>() * (self.pre.len() * self.suf.len()) as u64
    }
    pub fn units(&self) -> u64 {
        (self.total() + BLOCK - 1) / BLOCK
    }
    pub fn each(&self, unit: u64, f: &mut dyn FnMut(&str) -> bool) {
        let mut buf = String::new();
        let c = self.chunks.len() as u64;
        for i in unit * BLOCK..((unit + 1) * BLOCK).min(self.total()) {
            let mut x = i;
            let p = (x % self.pre.len() as u64) as usize;
            x /= self.pre.len() as u64;
            let s = (x % self.suf.len() as u64) as usize;
            x /= self.suf.len() as u64;
            let mut n = self.lo;
            while x >= c.pow(n as u32) {
                x -= c.pow(n as u32);
                n += 1;
            }
            buf.clear();
            buf.push_str(&self.pre[p]);
            for _ in 0..n {
                buf.push_str(&self.chunks[(x % c) as usize]);
                x /= c;
            }
            buf.push_str(&self.suf[s]);
            if !f(&buf) {
                return;
            }
        }
    }
    pub fn desc(&self) -> String {
        format!("{} texts: {}..={} of {} chunks between {} prefixes and {} suffixes", self.total(), self.lo, self.hi, self.chunks.len(), self.pre.len(), self.suf.len())
    }
}

pub struct Lex {
    pub prop: LexProp,
    pub hints: Hints,
    pub s: Strings,
}
impl Job for Lex {
    fn desc(&self) -> String {
        format!("tokenizer, hints {:?}: {}", self.hints, self.s.desc())
    }
    fn units(&self) -> u64 {
        self.s.units()
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let mut ck = LexCk::new(self.prop, self.hints);
        self.s.each(u, &mut |t| {
            if let Some(w) = ck.text(t, ctl) {
                ctl.violation(t, &w);
            }
            !ctl.stopped()
        });
    }
}

pub struct LexList {
    pub what: &'static str,
    pub prop: LexProp,
    pub hints: Hints,
    pub texts: Vec<String>,
}
impl Job for LexList {
    fn desc(&self) -> String {
        format!("tokenizer, hints {:?}: {} texts: {}", self.hints, self.texts.len(), self.what)
    }
    fn units(&self) -> u64 {
        (self.texts.len() as u64 + 255) / 256
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let mut ck = LexCk::new(self.prop, self.hints);
        for t in self.texts.iter().skip(u as usize * 256).take(256) {
            if let Some(w) = ck.text(t, ctl) {
                ctl.violation(t, &w);
            }
            if ctl.stopped() {
                return;
            }
        }
    }
}

pub struct TextSeq {
    pub s: Strings,
}
impl Job for TextSeq {
    fn desc(&self) -> String {
        format!("parser: {}", self.s.desc())
    }
    fn units(&self) -> u64 {
        self.s.units()
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        self.s.each(u, &mut |t| {
            if let Some(w) = st.pw.check_text(t, ctl) {
                ctl.violation(t, &w);
            }
            !ctl.stopped()
        });
    }
}

/// Names and literals exchanged for others of their kind.
pub struct Subst {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    /// names, numbers, strings, regular expressions, templates without substitutions, heads,
    /// middles, tails
    pub vals: [Vec<String>; 8],
    /// all at once; if not: each name (everywhere) and each literal alone
    pub all: bool,
    /// with every token taken away
    pub cut: bool,
}
impl Subst {
    fn class(k: &Kinds, t: Kind) -> Option<usize> {
        if t >= k.num && t <= k.tail {
            return Some((t - k.num) as usize + 1);
        }
        if ["a", "b", "c", "d", "e"].contains(&k.text[t as usize]) {
            return Some(0);
        }
        None
    }
    fn render(k: &Kinds, s: &[Tok], val: &mut dyn FnMut(usize, usize) -> Option<String>) -> String {
        let mut o = String::new();
        for (i, t) in s.iter().enumerate() {
            if t.nl {
                o.push('\n');
            } else if i > 0 {
                o.push(' ');
            }
            match Self::class(k, t.k).and_then(|c| val(i, c)) {
                Some(v) => o.push_str(&v),
                None => o.push_str(k.text[t.k as usize]),
            }
        }
        o
    }
    fn sentence(&self, k: &Kinds, s: &[Tok], ctl: &mut Ctl, st: &mut St) {
        let mut check = |t: String, ctl: &mut Ctl| {
            if let Some(w) = st.pw.check_text(&t, ctl) {
                ctl.violation(&t, &w);
            }
        };
        let mut places: Vec<(usize, usize)> = vec![];
        for (i, t) in s.iter().enumerate() {
            match Self::class(k, t.k) {
                Some(0) if s[..i].iter().any(|u| u.k == t.k) => {}
                Some(c) => places.push((i, c)),
                None => {}
            }
        }
        if self.all {
            let n = places.iter().map(|&(_, c)| self.vals[c].len()).max().unwrap_or(0);
            for r in 0..n {
                let t = Self::render(k, s, &mut |i, c| {
                    // the same name for the same name
                    let f = s.iter().position(|t| t.k == s[i].k).unwrap();
                    let nth = places.iter().position(|&(j, _)| if c == 0 { j == f } else { j == i }).unwrap();
                    let v = &self.vals[c];
                    Some(v[(r + nth) % v.len()].clone())
                });
                check(t, ctl);
            }
        } else {
            for &(p, c) in &places {
                for v in &self.vals[c] {
                    let t = Self::render(k, s, &mut |i, _| if i == p || c == 0 && s[i].k == s[p].k { Some(v.clone()) } else { None });
                    check(t, ctl);
                }
            }
        }
    }
}
impl Job for Subst {
    fn desc(&self) -> String {
        format!(
            "parser: {} sentences ({}){}, {} for others of {} names, {} numbers, {} strings, {} regular expressions, {} parts of templates",
            self.sents.len(),
            self.what,
            if self.cut { ", and without any one token" } else { "" },
            if self.all { "all names and literals at once exchanged" } else { "each name and each literal exchanged" },
            self.vals[0].len(),
            self.vals[1].len(),
            self.vals[2].len(),
            self.vals[3].len(),
            self.vals[4..].iter().map(|v| v.len()).sum::<usize>()
        )
    }
    fn units(&self) -> u64 {
        (self.sents.len() as u64 + 3) / 4
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let k = st.pw.k;
        for s in self.sents.iter().skip(u as usize * 4).take(4) {
            if self.cut {
                for i in 0..s.len() {
                    let mut c = s.clone();
                    c.remove(i);
                    self.sentence(k, &c, ctl, st);
                    if ctl.stopped() {
                        return;
                    }
                }
            } else {
                self.sentence(k, s, ctl, st);
            }
            if ctl.stopped() {
                return;
            }
        }
    }
}

/// Every name of some length, and every word near a word of the language, in the places of
/// some texts.
pub struct Names {
    pub texts: Vec<String>,
    pub first: Vec<char>,
    pub rest: Vec<char>,
    pub len: usize,
    /// words, of which all at the distance of one change (or two replaced letters) are taken
    pub near: Vec<String>,
    pub two: bool,
}
impl Names {
    fn changed(&self, w: &str) -> Vec<String> {
        let c: Vec<char> = w.chars().collect();
        let mut o = std::collections::BTreeSet::new();
        let mut put = |v: Vec<char>| {
            if !v.is_empty() && self.first.contains(&v[0]) {
                o.insert(v.into_iter().collect::<String>());
            }
        };
        put(c.clone());
        for i in 0..=c.len() {
            for &x in &self.rest {
                let mut d = c.clone();
                d.insert(i, x);
                put(d);
                if i < c.len() {
                    let mut d = c.clone();
                    d[i] = x;
                    put(d.clone());
                    if self.two {
                        for j in i + 1..c.len() {
                            for &y in &self.rest {
                                let mut e = d.clone();
                                e[j] = y;
                                put(e);
                            }
                        }
                    }
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                put(d);
            }
            for j in i + 1..c.len() {
                let mut d = c.clone();
                d.swap(i, j);
                put(d);
            }
            if i > 0 {
                put(c[..i].to_vec());
                put(c[i.min(c.len() - 1)..].to_vec());
            }
        }
        for a in [w.to_uppercase(), format!("{}{}", w, w)] {
            put(a.chars().collect());
        }
        o.into_iter().collect()
    }
}
impl Job for Names {
    fn desc(&self) -> String {
        format!("parser: {} texts with every name of up to {} of {} characters, and every word one change{} away from {} words", self.texts.len(), self.len, self.rest.len(), if self.two { " (or two letters)" } else { "" }, self.near.len())
    }
    fn units(&self) -> u64 {
        (self.first.len() * self.rest.len() + self.near.len()) as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let u = u as usize;
        let f = self.first.len() * self.rest.len();
        let mut names = vec![];
        if u < f {
            let a = self.first[u / self.rest.len()];
            let b = self.rest[u % self.rest.len()];
            if u % self.rest.len() == 0 {
                names.push(a.to_string());
            }
            let mut at = vec![format!("{}{}", a, b)];
            for n in 2..=self.len {
                names.extend(at.iter().cloned());
                if n < self.len {
                    at = at.iter().flat_map(|x| self.rest.iter().map(move |y| format!("{}{}", x, y))).collect();
                }
            }
        } else {
            names = self.changed(&self.near[u - f]);
        }
        for n in &names {
            // (these are restricted as names of methods)
            if n == "constructor" || n == "prototype" {
                continue;
            }
            for t in &self.texts {
                let t = t.replace('@', n);
                if let Some(w) = st.pw.check_text(&t, ctl) {
                    ctl.violation(&t, &w);
                }
            }
            if ctl.stopped() {
                return;
            }
        }
    }
}

pub struct Texts {
    pub what: &'static str,
    pub texts: Vec<String>,
    /// run twice, with another text in between
    pub twice: bool,
}
impl Job for Texts {
    fn desc(&self) -> String {
        format!("parser: {} texts: {}", self.texts.len(), self.what)
    }
    fn units(&self) -> u64 {
        (self.texts.len() as u64 + 127) / 128
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let mut prev: Option<Verdict> = None;
        for t in self.texts.iter().skip(u as usize * 128).take(128) {
            if let Some(w) = st.pw.check_text(t, ctl) {
                ctl.violation(t, &w);
            }
            if self.twice {
                let a = st.pw.run(t, ctl);
                let calls = runimpl::last().calls;
                st.pw.run("function * a ( ) { yield `${", ctl);
                let b = st.pw.run(t, ctl);
                if a != b || calls != runimpl::last().calls {
                    ctl.violation(t, &format!("two runs differ: {:?} and {:?}", a, b));
                }
                prev = Some(a);
            }
            if ctl.stopped() {
                break;
            }
        }
        let _ = prev;
    }
}

// ------------------------------------------------------------------ depth

/// `a` n times, `b`, `c` n times
#[derive(Clone)]
pub struct Family {
    pub n: usize,
    pub a: String,
    pub b: String,
    pub c: String,
}
impl Family {
    pub fn text(&self, n: usize) -> String {
        format!("{}{}{}", self.a.repeat(n), self.b, self.c.repeat(n))
    }
    /// how it is written in reports and in the known-findings file
    pub fn name(&self) -> String {
        format!("DEEP {} times\u{a6}{}\u{a6}{}\u{a6}{}", self.n, self.a, self.b, self.c).replace('\n', "\\u{a}")
    }
}
pub fn deep_of(name: &str) -> Option<Family> {
    let r = name.strip_prefix("DEEP ")?.replace("\\u{a}", "\n");
    let (n, r) = r.split_once(" times\u{a6}")?;
    let v: Vec<&str> = r.split('\u{a6}').collect();
    if v.len() != 3 {
        return None;
    }
    Some(Family { n: n.parse().ok()?, a: v[0].into(), b: v[1].into(), c: v[2].into() })
}
/// A run in a process of its own, on a stack as large as that of a main thread.
pub fn deep_run(f: &Family) -> Result<i32, String> {
    let t = f.text(f.n);
    crate::work::isolated(std::time::Duration::from_secs(if f.n > 100_000 { 60 } else { 8 }), 8 << 20, move || match runimpl::parse(&t) {
        Verdict::Accept => 0,
        Verdict::Reject(_) => 1,
        Verdict::Internal(_) => 2,
    })
}
pub struct Deep {
    pub families: Vec<Family>,
}
impl Job for Deep {
    fn desc(&self) -> String {
        let mut d: Vec<usize> = self.families.iter().map(|f| f.n).collect();
        d.sort();
        d.dedup();
        format!("parser: {} texts: repetitions and nestings of depth {:?} on a stack of 8 MB, each in a process of its own", self.families.len(), d)
    }
    fn units(&self) -> u64 {
        self.families.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let f = &self.families[u as usize];
        let me = ctl.me();
        // what recurses has been found to with less
        if f.n > 100_000 && ctl.known.contains(&Family { n: 100_000, ..f.clone() }.name()) {
            return;
        }
        Ctl::add(&me.states, 1);
        Ctl::add(&me.transitions, f.n as u64);
        Ctl::add(&me.runs, 1);
        // a family is valid at every depth or at none
        let want = st.pw.strict(&f.text(3));
        let name = f.name();
        ctl.enter(&name);
        let got = deep_run(f);
        ctl.leave();
        match (want, got) {
            (_, Err(e)) => ctl.violation(&name, &format!("the code under test is {} here", e)),
            (_, Ok(0)) if want != Tri::Rej => Ctl::add(&me.accepted, 1),
            (_, Ok(1)) if want != Tri::Acc => Ctl::add(&me.rejected, 1),
            (_, Ok(c)) => ctl.violation(&name, &format!("{} expected, but {}", if want == Tri::Acc { "valid program, success" } else { "failure" }, ["accepted", "rejected", "an internal error"].get(c as usize).unwrap_or(&"the run failed"))),
        }
    }
}

/// Each sentence inside or after many copies of something: what comes of it does not depend
/// on how many, so the reference reads the text with three.
pub struct Scaled {
    pub what: &'static str,
    pub around: Vec<(String, String)>,
    pub ns: Vec<usize>,
    pub sents: Vec<String>,
}
impl Scaled {
    pub fn one(&self, a: &str, c: &str, s: &str, ctl: &mut Ctl, st: &mut St) {
        let me = ctl.me();
        let fam = |n: usize| Family { n, a: a.into(), b: s.into(), c: c.into() };
        let t3 = fam(3).text(3);
        let want = st.pw.strict(&t3);
        let part = |v: &[(u32, u32)], n: usize| -> Vec<(u32, u32)> {
            let o = (a.len() * n) as u32;
            v.iter().filter(|x| x.0 >= o && x.1 <= o + s.len() as u32).map(|x| (x.0 - o, x.1 - o)).collect()
        };
        let offs = part(&st.pw.offs, 3);
        for &n in &self.ns {
            Ctl::add(&me.states, 1);
            Ctl::add(&me.transitions, (n + offs.len()) as u64);
            let f = fam(n);
            let name = f.name();
            let text = f.text(n);
            ctl.enter(&name);
            let got = runimpl::parse(&text);
            ctl.leave();
            Ctl::add(&me.runs, 1);
            Ctl::add(if got == Verdict::Accept { &me.accepted } else { &me.rejected }, 1);
            let toks = part(&runimpl::last().toks, n);
            st.pw.compare_tokens = false;
            let r = st.pw.compare(&t3, want, &got, ctl);
            st.pw.compare_tokens = true;
            if let Some(w) = r {
                ctl.violation(&name, &w);
            } else if want == Tri::Acc && got == Verdict::Accept && toks != offs {
                ctl.violation(&name, "accepted, but other tokens were read");
            }
        }
    }
}
impl Job for Scaled {
    fn desc(&self) -> String {
        format!("parser: {} sentences within or after each of {} constructs {:?} times ({})", self.sents.len(), self.around.len(), self.ns, self.what)
    }
    fn units(&self) -> u64 {
        (self.sents.len() as u64 + 15) / 16 * self.around.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let (a, c) = &self.around[(u % self.around.len() as u64) as usize];
        for s in self.sents.iter().skip((u / self.around.len() as u64) as usize * 16).take(16) {
            self.one(a, c, s, ctl, st);
            if ctl.stopped() {
                return;
            }
        }
    }
}

/// Every part of every sentence repeated, and every two parts repeated equally often.
pub struct Pump {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub part: usize,
    pub ns: Vec<usize>,
}
impl Pump {
    fn text(q: &mut Vec<Tok>, s: &[Tok], p: [usize; 4], n: usize) {
        q.clear();
        q.extend(&s[..p[0]]);
        for _ in 0..n {
            q.extend(&s[p[0]..p[1]]);
        }
        q.extend(&s[p[1]..p[2]]);
        for _ in 0..n {
            q.extend(&s[p[2]..p[3]]);
        }
        q.extend(&s[p[3]..]);
    }
    fn all(&self, s: &[Tok], p: [usize; 4], ctl: &mut Ctl, st: &mut St) {
        let mut q = vec![];
        Self::text(&mut q, s, p, 2);
        let acc = st.pw.s.run(&q).1;
        // pairs that do not belong together are a matter for the edits
        if !acc && p[2] != p[3] {
            return;
        }
        report(st.pw.check_tokens(&q, ctl), ctl);
        for &n in if acc { &self.ns[..] } else { &self.ns[self.ns.len() - 1..] } {
            if ctl.stopped() {
                return;
            }
            Self::text(&mut q, s, p, n);
            report(st.pw.check_tokens(&q, ctl), ctl);
        }
    }
}
impl Job for Pump {
    fn desc(&self) -> String {
        format!("parser: every part of {} sentences of up to {} tokens, and every two such parts together, {:?} times ({})", self.sents.len(), self.part, self.ns, self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let s = &self.sents[u as usize];
        let n = s.len();
        for a in 0..n {
            for b in a + 1..=n.min(a + self.part) {
                self.all(s, [a, b, b, b], ctl, st);
                for c in b..n {
                    for d in c + 1..=n.min(c + self.part) {
                        self.all(s, [a, b, c, d], ctl, st);
                        if ctl.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Parts of sentences repeated very often, for the verdict alone.
pub struct Many {
    pub what: &'static str,
    /// text in front, part, text behind
    pub parts: Vec<(String, String, String)>,
    pub ns: Vec<usize>,
}
fn many_name(n: usize, p: &(String, String, String)) -> String {
    format!("MANY {} times\u{a6}{}\u{a6}{}\u{a6}{}", n, p.0, p.1, p.2).replace('\n', "\\u{a}")
}
fn many_run(n: usize, p: &(String, String, String)) -> Result<i32, String> {
    let t = format!("{}{}{}", p.0, p.1.repeat(n), p.2);
    crate::work::isolated(std::time::Duration::from_secs(60), 1 << 30, move || match runimpl::parse(&t) {
        Verdict::Accept => 0,
        Verdict::Reject(_) => 1,
        Verdict::Internal(_) => 2,
    })
}
pub fn many_again(name: &str) -> Option<Result<i32, String>> {
    let r = name.strip_prefix("MANY ")?.replace("\\u{a}", "\n");
    let (n, r) = r.split_once(" times\u{a6}")?;
    let v: Vec<String> = r.split('\u{a6}').map(|x| x.to_string()).collect();
    if v.len() != 3 {
        return None;
    }
    Some(many_run(n.parse().ok()?, &(v[0].clone(), v[1].clone(), v[2].clone())))
}
impl Job for Many {
    fn desc(&self) -> String {
        format!("parser: {} parts of sentences {:?} times ({})", self.parts.len(), self.ns, self.what)
    }
    fn units(&self) -> u64 {
        self.parts.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let p = &self.parts[u as usize];
        // what is valid three, four and five times is valid any number of times
        for n in 3..6 {
            let t = format!("{}{}{}", p.0, p.1.repeat(n), p.2);
            if st.pw.strict(&t) != Tri::Acc || deletes_name(&t, &st.pw.offs) != Tri::Acc {
                return;
            }
        }
        let me = ctl.me();
        for &n in &self.ns {
            Ctl::add(&me.states, 1);
            Ctl::add(&me.transitions, n as u64);
            Ctl::add(&me.runs, 1);
            let name = many_name(n, p);
            ctl.enter(&name);
            let got = many_run(n, p);
            ctl.leave();
            match got {
                Ok(0) => Ctl::add(&me.accepted, 1),
                Ok(1) => ctl.violation(&name, "valid program, but rejected"),
                Ok(2) => ctl.violation(&name, "valid program, but an internal error"),
                Ok(_) => ctl.violation(&name, "the run failed"),
                Err(e) if e == "does not end" => ctl.violation(&name, "does not end"),
                // how deep nestings may be is a matter for the families
                Err(_) => {}
            }
            if ctl.stopped() {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ single steps

impl PW {
    fn front(&mut self, p: &[Tok]) -> Option<Front> {
        let mut f = self.s.start();
        for &t in p {
            f = self.s.step(&f, t)?;
        }
        Some(f)
    }
    /// A completed program must be accepted, with its tokens.
    fn must_accept(&mut self, toks: &[Tok], ctl: &mut Ctl) -> Option<(String, String)> {
        self.render(toks);
        let buf = std::mem::take(&mut self.buf);
        let got = self.run(&buf, ctl);
        let r = self.compare(&buf, Tri::Acc, &got, ctl).map(|w| (w, buf.clone()));
        self.buf = buf;
        r
    }
    /// `p` ends with a token the reference read with the result `fs` (None: not viable).
    /// `back` is the completion of the configuration before that token.
    pub fn probe(&mut self, p: &[Tok], fs: Option<&Front>, back: &[Tok], ctl: &mut Ctl) -> (bool, Option<(String, String)>) {
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        Ctl::add(&me.transitions, 1);
        self.render(p);
        let buf = std::mem::take(&mut self.buf);
        let got = self.run(&buf, ctl);
        let alive = runimpl::last().eof;
        let acc = fs.map_or(false, |f| self.s.accepts(f));
        let want = if acc {
            Tri::Acc
        } else if got == Verdict::Accept {
            self.strict(&buf)
        } else {
            Tri::Rej
        };
        let mut v = self.compare(&buf, want, &got, ctl).map(|w| (w, buf.clone()));
        self.buf = buf;
        if v.is_some() {
            return (alive, v);
        }
        match fs {
            Some(f) => {
                if !acc {
                    match self.s.finish(f) {
                        Some(c) => {
                            let mut full = p.to_vec();
                            full.extend(c);
                            v = self.must_accept(&full, ctl);
                        }
                        None => Ctl::add(&me.open, 1),
                    }
                }
            }
            None => {
                if alive {
                    v = self.over(p, back, ctl);
                }
            }
        }
        (alive, v)
    }
    /// The implementation read past a token the strict grammar forbids: look for an accepted
    /// program of this shape that no form of the grammar allows.
    fn over(&mut self, p: &[Tok], back: &[Tok], ctl: &mut Ctl) -> Option<(String, String)> {
        const MIDS: &[&str] = &["", ";", "a", ", a", ": a", "= a", "( ) { }", "{ }", ") { }", "a ( ) { }", "a }", "a )", "a ]", "a ) { }", "=> a", "from STR ;", "as a", "TAIL", "a TAIL", "in a", "of a"];
        let k = self.k;
        for m in MIDS {
            let mut q = p.to_vec();
            q.extend(k.seq(m));
            // without and with what the configuration before the token needed
            for b in 0..2 {
                if b == 1 {
                    if back.is_empty() {
                        break;
                    }
                    q.extend(back);
                }
                self.render(&q);
                let buf = std::mem::take(&mut self.buf);
                let got = self.run(&buf, ctl);
                let mut r = None;
                if let Verdict::Internal(_) = got {
                    r = self.compare(&buf, Tri::Rej, &got, ctl).map(|w| (w, buf.clone()));
                } else if got == Verdict::Accept {
                    let want = self.strict(&buf);
                    r = self.compare(&buf, want, &got, ctl).map(|w| (w, buf.clone()));
                }
                self.buf = buf;
                if r.is_some() {
                    return r;
                }
            }
        }
        None
    }
}

fn over_tokens(k: &Kinds, sel: &[Kind], nl: bool) -> Vec<Tok> {
    let mut v: Vec<Tok> = sel.iter().map(|&k| Tok { k, nl: false }).collect();
    if nl {
        v.extend(sel.iter().map(|&k| Tok { k, nl: true }));
    }
    let _ = k;
    v
}
pub fn all_toks(k: &Kinds, nl: bool) -> Vec<Tok> {
    let sel: Vec<Kind> = (0..k.eof).filter(|&x| !["c", "d", "e"].contains(&k.text[x as usize])).collect();
    over_tokens(k, &sel, nl)
}
pub fn toks(k: &Kinds, s: &str, nl: bool) -> Vec<Tok> {
    let sel: Vec<Kind> = k.seq(s).iter().map(|t| t.k).collect();
    over_tokens(k, &sel, nl)
}

/// Every token after every configuration of the reference automaton.
pub struct Pda {
    pub what: &'static str,
    pub configs: &'static [Config],
    pub sel: Vec<u32>,
    pub toks: Vec<Tok>,
    /// also reach each configuration through all its last transitions
    pub alternates: bool,
    /// also after all pairs of tokens
    pub second: Vec<Tok>,
}
const CB: usize = 4;
impl Pda {
    fn one(&self, p: &[Tok], ctl: &mut Ctl, st: &mut St) {
        let pw = &mut st.pw;
        let f = match pw.front(p) {
            Some(f) => f,
            None => return,
        };
        let back = pw.s.finish(&f).unwrap_or_default();
        let mut q = p.to_vec();
        for &t in &self.toks {
            let m = pw.s.mark();
            let fs = pw.s.step(&f, t);
            q.push(t);
            let (alive, v) = pw.probe(&q, fs.as_ref(), &back, ctl);
            report(v, ctl);
            if !self.second.is_empty() && (alive || fs.is_some()) {
                let back2 = match &fs {
                    Some(f2) => pw.s.finish(f2).unwrap_or_default(),
                    None => back.clone(),
                };
                for &t2 in &self.second {
                    let m2 = pw.s.mark();
                    let fs2 = match &fs {
                        Some(f2) => pw.s.step(f2, t2),
                        None => None,
                    };
                    q.push(t2);
                    let (_, v) = pw.probe(&q, fs2.as_ref(), &back2, ctl);
                    report(v, ctl);
                    q.pop();
                    pw.s.undo(&m2);
                    if ctl.stopped() {
                        return;
                    }
                }
            }
            q.pop();
            pw.s.undo(&m);
            if ctl.stopped() {
                return;
            }
        }
    }
}
impl Job for Pda {
    fn desc(&self) -> String {
        format!(
            "parser: {} tokens{} after {} of {} automaton configurations ({}){}",
            self.toks.len(),
            if self.second.is_empty() { String::new() } else { format!(" and {} tokens after those", self.second.len()) },
            self.sel.len(),
            self.configs.len(),
            self.what,
            if self.alternates { ", each reached by all its last transitions" } else { "" }
        )
    }
    fn units(&self) -> u64 {
        ((self.sel.len() + CB - 1) / CB) as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        for &c in self.sel.iter().skip(u as usize * CB).take(CB) {
            let m = st.pw.s.mark();
            let cf = &self.configs[c as usize];
            if self.alternates {
                let mut p = cf.prefix.clone();
                for &(t, to) in &cf.next {
                    p.push(Tok { k: t, nl: false });
                    // the shortest way was the configuration's own
                    if self.configs[to as usize].prefix != p {
                        self.one(&p, ctl, st);
                        st.pw.s.undo(&m);
                    }
                    p.pop();
                    if ctl.stopped() {
                        return;
                    }
                }
            } else {
                self.one(&cf.prefix, ctl, st);
            }
            st.pw.s.undo(&m);
            if ctl.stopped() {
                return;
            }
        }
    }
}

/// The tree of all token sequences between a prefix and a suffix, cut where both the
/// reference and the implementation have failed.
pub struct Dfs {
    pub what: &'static str,
    pub pre: Vec<Tok>,
    pub suf: Vec<Tok>,
    pub toks: Vec<Tok>,
    pub depth: usize,
}
impl Dfs {
    fn rec(&self, p: &mut Vec<Tok>, f: Option<&Front>, left: usize, ctl: &mut Ctl, st: &mut St, top: Option<u64>) {
        let n = self.toks.len() as u64;
        let back: Vec<Tok> = match f {
            Some(_) => self.suf.clone(),
            None => self.suf.clone(),
        };
        for (i, &t) in self.toks.iter().enumerate() {
            if let Some(u) = top {
                if u % n != i as u64 {
                    continue;
                }
            }
            let m = st.pw.s.mark();
            let fs = match f {
                Some(f) => st.pw.s.step(f, t),
                None => None,
            };
            p.push(t);
            let (alive, v) = st.pw.probe(p, fs.as_ref(), &back, ctl);
            report(v, ctl);
            if !self.suf.is_empty() && (alive || fs.is_some()) {
                let mut q = p.clone();
                q.extend(&self.suf);
                let v = st.pw.check_tokens(&q, ctl).map(|(a, b)| (a, b));
                report(v, ctl);
            }
            if left > 1 && (alive || fs.is_some()) && !ctl.stopped() {
                let top2 = top.map(|u| u / n);
                self.rec(p, fs.as_ref(), left - 1, ctl, st, if self.depth - left == 0 { top2 } else { None });
            }
            p.pop();
            st.pw.s.undo(&m);
            if ctl.stopped() {
                return;
            }
        }
    }
}
impl Job for Dfs {
    fn desc(&self) -> String {
        format!("parser: all sequences of up to {} of {} tokens ({})", self.depth, self.toks.len(), self.what)
    }
    fn units(&self) -> u64 {
        let n = self.toks.len() as u64;
        if self.depth >= 2 {
            n * n
        } else {
            n
        }
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let m = st.pw.s.mark();
        let f = st.pw.front(&self.pre);
        let mut p = self.pre.clone();
        self.rec(&mut p, f.as_ref(), self.depth, ctl, st, Some(u));
        st.pw.s.undo(&m);
    }
}

// ------------------------------------------------------------------ templates

pub type Tmpl = Vec<Result<Tok, (u8, bool)>>;
pub fn tmpl(k: &Kinds, s: &str) -> Tmpl {
    let mut v = vec![];
    let mut nl = false;
    for w in s.split_whitespace() {
        match w {
            "NL" => {
                nl = true;
                continue;
            }
            "@" => v.push(Err((0, nl))),
            "#" => v.push(Err((1, nl))),
            w => v.push(Ok(Tok { k: k.find(w).unwrap_or_else(|| panic!("unknown token {:?} in {:?}", w, s)), nl })),
        }
        nl = false;
    }
    v
}
pub fn tmpls(k: &Kinds, l: &[&str]) -> Vec<Tmpl> {
    l.iter().map(|s| tmpl(k, s)).collect()
}
fn fill(t: &Tmpl, a: &[Tmpl]) -> Tmpl {
    let mut o = vec![];
    for x in t {
        match x {
            Ok(t) => o.push(Ok(*t)),
            Err((h, nl)) => match a.get(*h as usize) {
                Some(f) => {
                    let n = o.len();
                    o.extend(f.iter().cloned());
                    if *nl && o.len() > n {
                        match &mut o[n] {
                            Ok(t) => t.nl = true,
                            Err((_, b)) => *b = true,
                        }
                    }
                }
                None => o.push(Err((*h, *nl))),
            },
        }
    }
    o
}
pub fn flat(t: &Tmpl) -> Option<Vec<Tok>> {
    t.iter().map(|x| x.ok()).collect()
}

/// Contexts filled with contexts filled with fragments; the second hole by another list.
pub struct Nest {
    pub what: &'static str,
    pub levels: Vec<Vec<Tmpl>>,
    pub second: Vec<Tmpl>,
}
impl Nest {
    pub fn total(&self) -> u64 {
        self.levels.iter().map(|l| l.len() as u64).product::<u64>() * self.second.len().max(1) as u64
    }
    pub fn expand(&self) -> Vec<Vec<Tok>> {
        let mut o = vec![];
        for u in 0..self.units() {
            self.each(u, &mut |t| {
                o.push(t.to_vec());
                true
            });
        }
        o
    }
    fn each(&self, mut u: u64, f: &mut dyn FnMut(&[Tok]) -> bool) {
        let n = self.levels.len();
        let mut t: Tmpl = vec![Err((0, false))];
        for l in &self.levels[..n - 1] {
            t = fill(&t, &[l[(u % l.len() as u64) as usize].clone()]);
            u /= l.len() as u64;
        }
        for leaf in &self.levels[n - 1] {
            let x = fill(&t, &[leaf.clone()]);
            if self.second.is_empty() {
                if let Some(toks) = flat(&x) {
                    if !f(&toks) {
                        return;
                    }
                }
            } else {
                for s in &self.second {
                    let y: Tmpl = x
                        .iter()
                        .flat_map(|e| match e {
                            Err((1, _)) => s.clone(),
                            e => vec![*e],
                        })
                        .collect();
                    if let Some(toks) = flat(&y) {
                        if !f(&toks) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
impl Job for Nest {
    fn desc(&self) -> String {
        format!(
            "parser: {} programs, the full product of {} ({})",
            self.total(),
            self.levels.iter().map(|l| l.len().to_string()).chain(if self.second.is_empty() { None } else { Some(self.second.len().to_string()) }).collect::<Vec<_>>().join(" x "),
            self.what
        )
    }
    fn units(&self) -> u64 {
        self.levels[..self.levels.len() - 1].iter().map(|l| l.len() as u64).product()
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        self.each(u, &mut |t| {
            report(st.pw.check_tokens(t, ctl), ctl);
            !ctl.stopped()
        });
    }
}

// ------------------------------------------------------------------ edits

/// Every single edit of every sentence.
pub struct Edits {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub toks: Vec<Tok>,
    pub double: bool,
}
impl Edits {
    fn edits(&self, s: &[Tok], toks: &[Tok], f: &mut dyn FnMut(&[Tok]) -> bool) -> bool {
        let mut q: Vec<Tok> = Vec::with_capacity(s.len() + 2);
        for i in 0..s.len() {
            // deletion, duplication, exchange, line break
            q.clear();
            q.extend(&s[..i]);
            q.extend(&s[i + 1..]);
            if !f(&q) {
                return false;
            }
            q.clear();
            q.extend(&s[..=i]);
            q.extend(&s[i..]);
            if !f(&q) {
                return false;
            }
            if i + 1 < s.len() {
                q.clear();
                q.extend(s);
                q.swap(i, i + 1);
                if !f(&q) {
                    return false;
                }
            }
            q.clear();
            q.extend(s);
            q[i].nl = !q[i].nl;
            if !f(&q) {
                return false;
            }
        }
        for i in 0..=s.len() {
            for &t in toks {
                q.clear();
                q.extend(&s[..i]);
                q.push(t);
                q.extend(&s[i..]);
                if !f(&q) {
                    return false;
                }
                if i < s.len() && s[i] != t {
                    q.clear();
                    q.extend(s);
                    q[i] = t;
                    if !f(&q) {
                        return false;
                    }
                }
            }
        }
        true
    }
}
impl Job for Edits {
    fn desc(&self) -> String {
        format!(
            "parser: {} edit{} of {} sentences (delete, duplicate, exchange, line break; insert and replace by {} tokens) ({})",
            if self.double { "all pairs of" } else { "every single" },
            if self.double { "s" } else { "" },
            self.sents.len(),
            self.toks.len(),
            self.what
        )
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let s = &self.sents[u as usize];
        report(st.pw.check_tokens(s, ctl), ctl);
        self.edits(s, &self.toks, &mut |q| {
            report(st.pw.check_tokens(q, ctl), ctl);
            if self.double {
                self.edits(q, &self.toks, &mut |r| {
                    report(st.pw.check_tokens(r, ctl), ctl);
                    !ctl.stopped()
                });
            }
            !ctl.stopped()
        });
    }
}

/// Every token (and its completion) at every gap of every sentence.
pub struct Gaps {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub seqs: Vec<Vec<Tok>>,
}
impl Job for Gaps {
    fn desc(&self) -> String {
        format!("parser: each of {} token sequences after every prefix of {} sentences, completed ({})", self.seqs.len(), self.sents.len(), self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let s = &self.sents[u as usize];
        let m0 = st.pw.s.mark();
        let mut f = st.pw.s.start();
        for i in 0..=s.len() {
            let back = st.pw.s.finish(&f).unwrap_or_default();
            for seq in &self.seqs {
                let m = st.pw.s.mark();
                let mut g = Some(f.clone());
                for &t in seq {
                    g = match &g {
                        Some(x) => st.pw.s.step(x, t),
                        None => None,
                    };
                }
                let mut p = s[..i].to_vec();
                p.extend(seq);
                let (_, v) = st.pw.probe(&p, g.as_ref(), &back, ctl);
                report(v, ctl);
                // and with the rest of the sentence, as it was and without its next token
                for skip in 0..2 {
                    if i + skip < s.len() {
                        let mut q = p.clone();
                        q.extend(&s[i + skip..]);
                        report(st.pw.check_tokens(&q, ctl), ctl);
                    }
                }
                st.pw.s.undo(&m);
                if ctl.stopped() {
                    return;
                }
            }
            if i < s.len() {
                match st.pw.s.step(&f, s[i]) {
                    Some(n) => f = n,
                    None => break,
                }
            }
        }
        st.pw.s.undo(&m0);
    }
}

/// All placements of line breaks, with every subset of the semicolons removed.
pub struct NlMask {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub max: usize,
}
impl Job for NlMask {
    fn desc(&self) -> String {
        format!("parser: all line break placements (up to {} gaps, single and paired ones beyond) and semicolon removals of {} sentences ({})", self.max, self.sents.len(), self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let semi = st.pw.k.semi;
        let s = &self.sents[u as usize];
        let idx: Vec<usize> = (0..s.len()).filter(|&i| s[i].k == semi).collect();
        let idx = &idx[..idx.len().min(4)];
        for m in 0..1u32 << idx.len() {
            let b: Vec<Tok> = s.iter().enumerate().filter(|(i, _)| !idx.iter().enumerate().any(|(j, x)| x == i && m >> j & 1 == 1)).map(|(_, t)| *t).collect();
            let n = b.len();
            if n == 0 {
                continue;
            }
            let mut q = b.clone();
            if n - 1 <= self.max {
                for mask in 0..1u64 << (n - 1) {
                    for i in 1..n {
                        q[i].nl = mask >> (i - 1) & 1 == 1;
                    }
                    report(st.pw.check_tokens(&q, ctl), ctl);
                    if ctl.stopped() {
                        return;
                    }
                }
            } else {
                for i in 1..n {
                    for j in i..n {
                        let mut q = b.clone();
                        q[i].nl = true;
                        q[j].nl = true;
                        report(st.pw.check_tokens(&q, ctl), ctl);
                    }
                    if ctl.stopped() {
                        return;
                    }
                }
                for t in &mut q {
                    t.nl = true;
                }
                q[0].nl = false;
                report(st.pw.check_tokens(&q, ctl), ctl);
            }
        }
    }
}

/// Every gap of every sentence written with each of the given separators, with all and with
/// none of the semicolons.
pub struct Breaks {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub seps: Vec<&'static str>,
}
impl Job for Breaks {
    fn desc(&self) -> String {
        format!("parser: each of {} separators at every gap of {} sentences, with and without each semicolon ({})", self.seps.len(), self.sents.len(), self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let s = &self.sents[u as usize];
        let semi = st.pw.k.semi;
        let mut vars: Vec<Vec<Tok>> = vec![s.clone()];
        for i in 0..s.len() {
            if s[i].k == semi {
                let mut q = s.clone();
                q.remove(i);
                vars.push(q);
            }
        }
        for q in vars {
            for gap in 1..q.len() {
                for sep in &self.seps {
                    let mut o = String::new();
                    for (i, t) in q.iter().enumerate() {
                        o.push_str(if i == 0 {
                            ""
                        } else if i == gap {
                            sep
                        } else if t.nl {
                            "\n"
                        } else {
                            " "
                        });
                        o.push_str(st.pw.k.text[t.k as usize]);
                    }
                    if let Some(w) = st.pw.check_text(&o, ctl) {
                        ctl.violation(&o, &w);
                    }
                }
                if ctl.stopped() {
                    return;
                }
            }
        }
    }
}

fn k_text(st: &St, k: u8) -> &str {
    st.pw.k.text[k as usize]
}

/// Separators exchanged for others with the same line break content.
pub struct Trivia {
    pub what: &'static str,
    pub sents: Vec<Vec<Tok>>,
    pub blanks: Vec<&'static str>,
    pub lines: Vec<&'static str>,
    pub pairs: bool,
}
impl Trivia {
    fn text(&self, k: &Kinds, s: &[Tok], seps: &[&str]) -> String {
        let mut o = String::new();
        for (i, t) in s.iter().enumerate() {
            o.push_str(seps[i]);
            o.push_str(k.text[t.k as usize]);
        }
        o.push_str(seps[s.len()]);
        o
    }
    fn check(&self, s: &[Tok], seps: &[&str], base: &Verdict, base_toks: &[String], ctl: &mut Ctl, st: &mut St) {
        let text = self.text(st.pw.k, s, seps);
        // the comparison is about the same tokens only
        let want = st.pw.strict(&text);
        let same = st.pw.offs.iter().map(|&(a, b)| &text[a as usize..b as usize]).eq(base_toks.iter().map(|s| &s[..]));
        // (these can make other tokens of it: none at all, or a slash and a comment)
        let risky = |i: usize| seps[i].is_empty() || (i > 0 && k_text(st, s[i - 1].k) == "/" && seps[i].starts_with('/'));
        if !same && (0..=s.len()).any(risky) {
            return;
        }
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        Ctl::add(&me.transitions, s.len() as u64);
        let got = st.pw.run(&text, ctl);
        if let Some(w) = st.pw.compare(&text, want, &got, ctl) {
            ctl.violation(&text, &w);
        } else if (got == Verdict::Accept) != (*base == Verdict::Accept) {
            ctl.violation(&text, &format!("verdict {:?}, but {:?} with plain separators", got, base));
        }
    }
}
impl Job for Trivia {
    fn desc(&self) -> String {
        format!("parser: each separator of {} sentences exchanged for {} blank and {} line-breaking ones{} ({})", self.sents.len(), self.blanks.len(), self.lines.len(), if self.pairs { ", also in pairs" } else { "" }, self.what)
    }
    fn units(&self) -> u64 {
        self.sents.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let s0 = &self.sents[u as usize];
        let n = s0.len();
        // the sentence with no line break, and with each single one
        for brk in 0..=n {
            let mut s = s0.clone();
            if brk > 0 && brk < n {
                s[brk].nl = !s[brk].nl;
            }
            let seps0: Vec<&str> = (0..=n).map(|i| if i == 0 || i == n { "" } else if s[i].nl { "\n" } else { " " }).collect();
            let text = self.text(st.pw.k, &s, &seps0);
            st.pw.strict(&text);
            let base_toks: Vec<String> = st.pw.offs.iter().map(|&(a, b)| text[a as usize..b as usize].to_string()).collect();
            let base = st.pw.run(&text, ctl);
            let alts = |i: usize| -> Vec<&'static str> {
                if i == 0 || i == n {
                    self.blanks.iter().chain(&self.lines).cloned().collect()
                } else if s[i].nl {
                    self.lines.clone()
                } else {
                    self.blanks.clone()
                }
            };
            let at: Vec<usize> = if brk == 0 { (0..=n).collect() } else { vec![brk] };
            for &i in &at {
                for x in alts(i) {
                    let mut seps = seps0.clone();
                    seps[i] = x;
                    self.check(&s, &seps, &base, &base_toks, ctl, st);
                    if self.pairs && brk == 0 && i < n {
                        for y in alts(i + 1) {
                            seps[i + 1] = y;
                            self.check(&s, &seps, &base, &base_toks, ctl, st);
                        }
                    }
                    if ctl.stopped() {
                        return;
                    }
                }
            }
            // all of them at once
            if brk == 0 {
                for x in &self.blanks {
                    let seps: Vec<&str> = (0..=n).map(|i| if i > 0 && i < n && s[i].nl { "\n" } else { *x }).collect();
                    self.check(&s, &seps, &base, &base_toks, ctl, st);
                }
            }
        }
    }
}

