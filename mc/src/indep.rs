//! C30: parses and tokenizers do not influence each other. Two parses run in two threads
//! that are switched, under control, wherever a token is requested; tokenizers and copies of
//! tokenizers are advanced in every order.

use crate::core::*;
use crate::jobs::*;
use crate::runimpl::{self, hint, panics, Got, Slice, Verdict};
use crate::work::{self, Ctl};
use jsparse::tokenizer::tokens::Token;
use jsparse::tokenizer::{IntoTokenizer, TokenRange, Tokenizer};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ threads

#[derive(Clone, Copy, PartialEq)]
enum At {
    Running,
    Request,
    End,
}
struct Gate {
    m: Mutex<(u32, At)>,
    c: Condvar,
}
thread_local! {
    static GATE: RefCell<Option<Arc<Gate>>> = RefCell::new(None);
}
/// Called at every request for a token.
pub fn request() {
    GATE.with(|g| {
        if let Some(g) = &*g.borrow() {
            g.wait();
        }
    })
}
impl Gate {
    fn new() -> Arc<Gate> {
        Arc::new(Gate { m: Mutex::new((0, At::Running)), c: Condvar::new() })
    }
    fn wait(&self) {
        let mut s = self.m.lock().unwrap();
        s.1 = At::Request;
        self.c.notify_all();
        while s.0 == 0 {
            s = self.c.wait(s).unwrap();
        }
        s.0 -= 1;
        s.1 = At::Running;
    }
    fn end(&self) {
        self.m.lock().unwrap().1 = At::End;
        self.c.notify_all();
    }
    /// Let the thread go through `n` requests; false if it has not come to the next one
    /// (it may wait for the other thread).
    fn grant(&self, n: u32, limit: Duration) -> bool {
        let mut s = self.m.lock().unwrap();
        s.0 += n;
        self.c.notify_all();
        let t0 = Instant::now();
        while !(s.1 == At::End || s.1 == At::Request && s.0 == 0) {
            let left = limit.checked_sub(t0.elapsed()).unwrap_or_default();
            if left.is_zero() {
                return false;
            }
            s = self.c.wait_timeout(s, left).unwrap().0;
        }
        true
    }
    fn ended(&self) -> bool {
        self.m.lock().unwrap().1 == At::End
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub v: Verdict,
    pub toks: Vec<(u32, u32)>,
    pub hints: Vec<(bool, bool)>,
    pub calls: usize,
}
fn alone(text: &str) -> Res {
    let v = runimpl::parse(text);
    let r = runimpl::last();
    Res { v, toks: r.toks.clone(), hints: r.hints.clone(), calls: r.calls }
}

/// Both parses under a schedule: the thread and how many requests, again and again; then
/// what is left, the first thread first.
fn together(texts: [&str; 2], sched: &[(usize, u32)]) -> Option<[Res; 2]> {
    let gates = [Gate::new(), Gate::new()];
    let hs: Vec<_> = (0..2)
        .map(|i| {
            let g = gates[i].clone();
            let t = texts[i].to_string();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    GATE.with(|x| *x.borrow_mut() = Some(g.clone()));
                    g.wait();
                    let r = alone(&t);
                    g.end();
                    r
                })
                .unwrap()
        })
        .collect();
    let short = Duration::from_millis(300);
    for &(i, n) in sched {
        // a thread that waits for the other is left to it
        if !gates[i].ended() && !gates[i].grant(n, short) {
            gates[1 - i].grant(1, Duration::from_millis(1));
        }
    }
    // to the end, together if one waits for the other
    let t0 = Instant::now();
    while !(gates[0].ended() && gates[1].ended()) {
        for g in &gates {
            if !g.ended() {
                g.grant(1000, Duration::from_millis(200));
            }
        }
        if t0.elapsed() > Duration::from_secs(8) {
            // (the threads are left behind)
            return None;
        }
    }
    let mut it = hs.into_iter().map(|h| h.join().unwrap());
    Some([it.next().unwrap(), it.next().unwrap()])
}

fn name(texts: [&str; 2], sched: &[(usize, u32)]) -> String {
    let s: Vec<String> = sched.iter().map(|(i, n)| format!("{}{}", if *i == 0 { 'A' } else { 'B' }, n)).collect();
    format!("TOGETHER {}\u{a6}{}\u{a6}{}", s.join(" "), texts[0], texts[1])
}
/// A reported schedule run again, in a process of its own.
pub fn rerun(n: &str) -> Option<Result<i32, String>> {
    let r = n.strip_prefix("TOGETHER ")?;
    let v: Vec<String> = r.split('\u{a6}').map(|s| s.to_string()).collect();
    if v.len() != 3 {
        return None;
    }
    let sched: Vec<(usize, u32)> = v[0].split_whitespace().map(|s| ((s.as_bytes()[0] == b'B') as usize, s[1..].parse().unwrap_or(1))).collect();
    Some(work::isolated(Duration::from_secs(30), work::STACK, move || {
        let solo = [alone(&v[1]), alone(&v[2])];
        match together([&v[1], &v[2]], &sched) {
            Some(r) if r == solo => 0,
            Some(_) => 1,
            None => 2,
        }
    }))
}

/// While it lives, this thread and those it starts stay on one processor: only one of them
/// ever runs, and handing over is faster there.
struct OneCpu(libc::cpu_set_t);
impl OneCpu {
    fn new(id: usize) -> OneCpu {
        unsafe {
            let mut old: libc::cpu_set_t = std::mem::zeroed();
            let size = std::mem::size_of::<libc::cpu_set_t>();
            libc::sched_getaffinity(0, size, &mut old);
            let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &old)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[id % cpus.len()], &mut one);
                libc::sched_setaffinity(0, size, &one);
            }
            OneCpu(old)
        }
    }
}
impl Drop for OneCpu {
    fn drop(&mut self) {
        unsafe {
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &self.0);
        }
    }
}

/// All schedules of two parses, or those with few changes from one to the other.
pub struct Together {
    pub texts: Vec<String>,
    /// schedules without a limit on the changes, if there are no more than this
    pub all: u64,
    pub switches: usize,
}
impl Together {
    fn pairs(&self) -> u64 {
        let n = self.texts.len() as u64;
        n * (n + 1) / 2
    }
}
fn binom(n: usize, k: usize) -> u64 {
    (0..k).fold(1u64, |b, i| (b.saturating_mul((n - i) as u64)) / (i as u64 + 1))
}
/// Every sequence of alternating runs of the two, with at most `sw` changes, that ends when
/// one of them has come to its end.
fn schedules(left: [u32; 2], last: usize, sw: usize, s: &mut Vec<(usize, u32)>, f: &mut dyn FnMut(&[(usize, u32)]) -> bool) -> bool {
    let i = 1 - last;
    if left[0] == 0 || left[1] == 0 || sw == 0 {
        return f(s);
    }
    for n in 1..=left[i] {
        let mut l = left;
        l[i] -= n;
        s.push((i, n));
        let go = schedules(l, i, sw - 1, s, f);
        s.pop();
        if !go {
            return false;
        }
    }
    true
}
impl Job for Together {
    fn desc(&self) -> String {
        format!("parser in two threads: {} pairs of {} texts, all orders of their requests (where these are more than {}: all with up to {} changes)", self.pairs(), self.texts.len(), self.all, self.switches)
    }
    fn units(&self) -> u64 {
        self.pairs() * 2
    }
    fn run(&self, u: u64, ctl: &mut Ctl, st: &mut St) {
        let _one = OneCpu::new(ctl.id);
        let mut p = u / 2;
        let mut a = 0;
        while p > a {
            p -= a + 1;
            a += 1;
        }
        let texts = [&self.texts[p as usize][..], &self.texts[a as usize][..]];
        let solo = [alone(texts[0]), alone(texts[1])];
        for (t, r) in texts.iter().zip(&solo) {
            let want = st.pw.strict(t);
            if (want == Tri::Acc && r.v != Verdict::Accept) || (want == Tri::Rej && r.v == Verdict::Accept) {
                ctl.violation(t, "the verdict is wrong already without another parse");
            }
        }
        let c = [solo[0].calls as u32 + 1, solo[1].calls as u32 + 1];
        let few = binom((c[0] + c[1]) as usize, c[0] as usize) > self.all;
        let sw = if few { self.switches } else { usize::MAX };
        let first = (u % 2) as usize;
        schedules(c, 1 - first, sw, &mut vec![], &mut |s| {
            let me = ctl.me();
            Ctl::add(&me.states, 1);
            Ctl::add(&me.transitions, (c[0] + c[1]) as u64);
            Ctl::add(&me.runs, 1);
            let nm = name(texts, s);
            ctl.sample(&nm);
            ctl.enter(&nm);
            let r = together(texts, s);
            ctl.leave();
            match r {
                None => ctl.violation(&nm, "the two parses do not end"),
                Some(r) => {
                    for i in 0..2 {
                        Ctl::add(if r[i].v == Verdict::Accept { &me.accepted } else { &me.rejected }, 1);
                        if r[i].v != solo[i].v {
                            ctl.violation(&nm, &format!("{:?} together with the other parse, but {:?} alone", r[i].v, solo[i].v));
                        } else if r[i] != solo[i] {
                            ctl.violation(&nm, "other tokens are read together with the other parse than alone");
                        }
                    }
                }
            }
            !ctl.stopped()
        });
    }
}

// ------------------------------------------------------------------ tokenizers

fn next<'c>(t: &mut Slice<'c>, h: u8) -> Result<Got<'c>, ()> {
    panics(|| {
        let mut tok = Token::default();
        let mut range = TokenRange::default();
        t.next_token(&hint(h), (&mut tok, &mut range));
        Got { tok, range }
    })
    .map_err(|_| ())
}
fn eq(a: &Result<Got, ()>, b: &Result<Got, ()>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.tok == b.tok && a.range == b.range,
        (Err(()), Err(())) => true,
        _ => false,
    }
}
fn show(a: &Result<Got, ()>) -> String {
    match a {
        Ok(g) => format!("{:?}", g.tok),
        Err(()) => "a failure".into(),
    }
}
/// Up to `n` requests, ending with a failure.
fn run<'c>(t: &mut Slice<'c>, h: u8, n: usize) -> Vec<Result<Got<'c>, ()>> {
    let mut o = vec![];
    for _ in 0..n {
        o.push(next(t, h));
        if o.last().unwrap().is_err() {
            break;
        }
    }
    o
}
/// Two tokenizers advanced in every order; what each returns has been seen before.
fn orders<'a, 'b>(x: &Slice<'a>, y: &Slice<'b>, h: [u8; 2], wx: &[Result<Got<'a>, ()>], wy: &[Result<Got<'b>, ()>], fresh: Option<(&'a str, &'b str)>) -> Option<String> {
    let n = [wx.len(), wy.len()];
    // a bit for each request: whose it is
    for m in 0u32..1 << (n[0] + n[1]) {
        if m.count_ones() as usize != n[1] {
            continue;
        }
        let (mut a, mut b) = match fresh {
            Some((s, t)) => (s.into_tokenizer(), t.into_tokenizer()),
            None => (x.clone(), y.clone()),
        };
        let mut at = [0, 0];
        for i in 0..n[0] + n[1] {
            let bad = if m >> i & 1 == 0 {
                let r = next(&mut a, h[0]);
                at[0] += 1;
                if eq(&r, &wx[at[0] - 1]) { None } else { Some(("first", show(&r), show(&wx[at[0] - 1]))) }
            } else {
                let r = next(&mut b, h[1]);
                at[1] += 1;
                if eq(&r, &wy[at[1] - 1]) { None } else { Some(("second", show(&r), show(&wy[at[1] - 1]))) }
            };
            if let Some((w, r, s)) = bad {
                return Some(format!("request {} is for the {}, which returns {}, but {} alone", i + 1, w, r, s));
            }
        }
    }
    None
}

/// Pairs of tokenizers, advanced in every order.
pub struct Pairs {
    pub texts: Vec<String>,
    pub n: usize,
}
impl Job for Pairs {
    fn desc(&self) -> String {
        format!("tokenizer: all pairs of {} texts with all pairs of 4 constant hints, all orders of up to {} requests each", self.texts.len(), self.n)
    }
    fn units(&self) -> u64 {
        self.texts.len() as u64
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let a = &self.texts[u as usize];
        for b in &self.texts {
            let nm = format!("{}\u{a6}{}", a, b);
            ctl.sample(&nm);
            let me = ctl.me();
            Ctl::add(&me.states, 1);
            ctl.enter(&nm);
            for h in 0..16u8 {
                let h = [h & 3, h >> 2];
                let wx = run(&mut a.as_str().into_tokenizer(), h[0], self.n);
                let wy = run(&mut b.as_str().into_tokenizer(), h[1], self.n);
                let o = binom(wx.len() + wy.len(), wx.len());
                Ctl::add(&me.runs, o);
                Ctl::add(&me.transitions, o * (wx.len() + wy.len()) as u64);
                let (x, y) = (a.as_str().into_tokenizer(), b.as_str().into_tokenizer());
                if let Some(w) = orders(&x, &y, h, &wx, &wy, Some((a, b))) {
                    ctl.violation(&nm, &w);
                }
            }
            ctl.leave();
            if ctl.stopped() {
                return;
            }
        }
    }
}

/// A copy taken after every prefix, advanced together with the original in every order.
pub struct Copies {
    pub s: Strings,
    pub n: usize,
}
impl Job for Copies {
    fn desc(&self) -> String {
        format!("tokenizer: a copy after every prefix of the tokens of {}, under 4 constant hints; original and copy, under all pairs of hints, in all orders of up to {} requests each", self.s.desc(), self.n)
    }
    fn units(&self) -> u64 {
        self.s.units()
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        self.s.each(u, &mut |t| {
            ctl.sample(t);
            let me = ctl.me();
            Ctl::add(&me.states, 1);
            ctl.enter(t);
            let mut bad = None;
            for h in 0..4u8 {
                let mut x = t.into_tokenizer();
                for p in 0.. {
                    // what follows, without any copy
                    let mut w: Vec<Vec<Result<Got, ()>>> = vec![];
                    for h2 in 0..4 {
                        let mut f = t.into_tokenizer();
                        for _ in 0..p {
                            let _ = next(&mut f, h);
                        }
                        w.push(run(&mut f, h2, self.n));
                    }
                    for hh in 0..16u8 {
                        let hh = [hh & 3, hh >> 2];
                        let (wx, wy) = (&w[hh[0] as usize], &w[hh[1] as usize]);
                        let o = binom(wx.len() + wy.len(), wx.len());
                        Ctl::add(&me.runs, o);
                        Ctl::add(&me.transitions, o * (wx.len() + wy.len()) as u64);
                        if let Some(e) = orders(&x, &x, hh, wx, wy, None) {
                            bad = bad.or(Some(format!("after {} tokens under hint {}, original and copy under hints {:?}: {}", p, h, hh, e)));
                        }
                    }
                    match next(&mut x, h) {
                        Ok(g) if !matches!(g.tok, Token::EOF(_)) && p < t.len() + 2 => {}
                        _ => break,
                    }
                }
            }
            ctl.leave();
            if let Some(e) = bad {
                ctl.violation(t, &e);
            }
            !ctl.stopped()
        });
    }
}

// ------------------------------------------------------------------ memory

/// A place in memory that holds one text after another.
struct Place(Vec<u8>);
impl Place {
    fn put<'a>(&'a mut self, t: &str) -> &'a str {
        // (the capacity is never exceeded, so the place stays the same)
        assert!(t.len() <= self.0.capacity());
        self.0.clear();
        self.0.extend_from_slice(t.as_bytes());
        std::str::from_utf8(&self.0).unwrap()
    }
}
/// A text at a place of its own, that nothing else is ever put in.
fn own(t: &str) -> &'static str {
    Box::leak(t.to_string().into_boxed_str())
}

/// One text after the other, in the same memory: what is read from the second does not
/// depend on the first.
pub struct Reuse {
    pub what: &'static str,
    pub texts: Vec<String>,
    /// all texts extended to the same length
    pub pad: bool,
    pub parse: bool,
}
impl Reuse {
    fn list(&self) -> Vec<String> {
        let n = self.texts.iter().map(|t| t.len()).max().unwrap_or(0);
        self.texts.iter().map(|t| if self.pad { format!("{}{}", t, " ".repeat(n - t.len())) } else { t.clone() }).collect()
    }
}
const REUSE: u64 = 16;
impl Job for Reuse {
    fn desc(&self) -> String {
        format!("{}: all ordered pairs of {} texts, one after the other in the same memory: {}{}", if self.parse { "parser" } else { "tokenizer, 4 constant hints" }, self.texts.len(), self.what, if self.pad { ", extended to the same length" } else { "" })
    }
    fn units(&self) -> u64 {
        (self.texts.len() as u64 + REUSE - 1) / REUSE
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let list = self.list();
        let n = list.iter().map(|t| t.len()).max().unwrap_or(0);
        let mut place = Place(Vec::with_capacity(n + 16));
        let seconds: Vec<&'static str> = list.iter().skip((u * REUSE) as usize).take(REUSE as usize).map(|t| own(t)).collect();
        for b in seconds {
            let me = ctl.me();
            ctl.sample(b);
            if self.parse {
                ctl.enter(b);
                let want = alone(b);
                ctl.leave();
                for a in &list {
                    let nm = format!("{}\u{a6}{}", a, b);
                    Ctl::add(&me.states, 1);
                    Ctl::add(&me.runs, 1);
                    Ctl::add(&me.transitions, want.calls as u64);
                    ctl.enter(&nm);
                    runimpl::parse(place.put(a));
                    let got = alone(place.put(b));
                    ctl.leave();
                    Ctl::add(if got.v == Verdict::Accept { &me.accepted } else { &me.rejected }, 1);
                    if got.v != want.v {
                        ctl.violation(&nm, &format!("{:?} for the second text after the first in the same memory, but {:?} at another place", got.v, want.v));
                    } else if got != want {
                        ctl.violation(&nm, "other tokens are read from the second text after the first in the same memory");
                    }
                    if ctl.stopped() {
                        return;
                    }
                }
            } else {
                let lim = b.len() + 2;
                for h in 0..4u8 {
                    ctl.enter(b);
                    let want = run(&mut b.into_tokenizer(), h, lim);
                    ctl.leave();
                    for a in &list {
                        Ctl::add(&me.states, 1);
                        Ctl::add(&me.runs, 1);
                        Ctl::add(&me.transitions, want.len() as u64);
                        ctl.enter(a);
                        {
                            let a = place.put(a);
                            run(&mut a.into_tokenizer(), h, a.len() + 2);
                        }
                        let got = run(&mut place.put(b).into_tokenizer(), h, lim);
                        ctl.leave();
                        if got.len() != want.len() || got.iter().zip(&want).any(|(x, y)| !eq(x, y)) {
                            let i = got.iter().zip(&want).take_while(|(x, y)| eq(x, y)).count();
                            ctl.violation(&format!("{}\u{a6}{}", a, b), &format!("token {} of the second text is {} after the first in the same memory, but {} at another place", i + 1, got.get(i).map_or("missing".into(), show), want.get(i).map_or("missing".into(), show)));
                        }
                        if ctl.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ what is filled in

/// What the token and the range that are filled in held before makes no difference.
pub struct Slots {
    pub s: Strings,
}
fn donors() -> Vec<(Token<'static>, TokenRange)> {
    let mut o = vec![];
    let mut odd = TokenRange::default();
    odd.start.offset = 100_000;
    odd.start.line = 77;
    odd.start.column = 9;
    odd.end.offset = 3;
    odd.end.line = 200;
    odd.end.column = 70;
    for (t, h) in [("'a b c'", 0), ("'\\x41\\n\u{e9}'", 0), ("\"\"", 0), ("`a`", 0), ("`a\\n${", 0), ("}a${", 2), ("}\\u{41}b`", 2), ("/a[/]b/gimuy", 1), ("/x/", 1), ("12.5e3", 0), ("0xff", 0), ("name", 0), ("\u{e9}\u{1F600}", 0), ("//comment\n", 0), ("/*com\nment*/", 0), ("\r\n", 0), (">>>=", 0), ("}", 0), ("", 0)] {
        if let Ok(g) = next(&mut t.into_tokenizer(), h) {
            o.push((g.tok, g.range));
        }
    }
    o.push((jsparse::tokenizer::tokens::WhitespaceToken {}.into(), odd));
    for i in [0, 7] {
        let d = o[i].0.clone();
        o.push((d, odd));
    }
    o
}
impl Job for Slots {
    fn desc(&self) -> String {
        format!("tokenizer: each request for a token of {}, under 4 constant hints, filling in a token and a range that held each of 22 others before", self.s.desc())
    }
    fn units(&self) -> u64 {
        self.s.units()
    }
    fn run(&self, u: u64, ctl: &mut Ctl, _st: &mut St) {
        let d = donors();
        self.s.each(u, &mut |t| {
            ctl.sample(t);
            let me = ctl.me();
            Ctl::add(&me.states, 1);
            ctl.enter(t);
            let mut bad = None;
            for h in 0..4u8 {
                let mut x = t.into_tokenizer();
                for n in 0..t.len() + 2 {
                    let mut y = x.clone();
                    let want = next(&mut y, h);
                    Ctl::add(&me.transitions, d.len() as u64);
                    Ctl::add(&me.runs, d.len() as u64);
                    for e in &d {
                        let mut y = x.clone();
                        let got = panics(|| {
                            let (mut tok, mut range) = (e.0.clone(), e.1);
                            y.next_token(&hint(h), (&mut tok, &mut range));
                            Got { tok, range }
                        })
                        .map_err(|_| ());
                        if !eq(&got, &want) {
                            bad = Some(format!("token {} under hint {} is {} where {:?} {:?} was before, but {} otherwise", n + 1, h, show(&got), e.0, e.1, show(&want)));
                        }
                    }
                    match want {
                        Ok(g) if !matches!(g.tok, Token::EOF(_)) => {}
                        _ => break,
                    }
                    x = y;
                }
            }
            ctl.leave();
            if let Some(e) = bad {
                ctl.violation(t, &e);
            }
            !ctl.stopped()
        });
    }
}
