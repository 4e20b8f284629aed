//! Grammar DSL, lazily built LR(0) automaton, and a GLR recognizer over a persistent
//! graph-structured stack. The grammar is epsilon-free (X? is expanded), so a reduction
//! never adds an edge inside the newest level and one pass over new edges is complete.

use crate::kinds::*;
use std::collections::HashMap;

const FI: u8 = 1;
const FY: u8 = 2;
const FA: u8 = 4;
const FR: u8 = 8;
const FO: u8 = 16;
const FF: u8 = 32;
const FN: u8 = 64;
const LEFT: u8 = FO | FF | FN;

fn flag(c: char) -> u8 {
    match c {
        'I' => FI,
        'Y' => FY,
        'A' => FA,
        'R' => FR,
        'O' => FO,
        'F' => FF,
        'N' => FN,
        c => panic!("bad flag {}", c),
    }
}

#[derive(Clone, Debug)]
enum DSym {
    T { mask: u128, nonl: bool, vs: bool, vd: bool },
    N { name: String, set: u8, clr: u8 },
}
#[derive(Clone, Debug)]
struct DAlt {
    need: u8,
    deny: u8,
    lenient: bool,
    syms: Vec<(DSym, bool)>, // (symbol, optional)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sym {
    T(u16),
    N(u16),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Term {
    mask: u128,
    nonl: bool,
    vs: bool,
    vd: bool,
}
struct Prod {
    lhs: u16,
    rhs: Vec<Sym>,
}

pub struct Auto {
    kinds: &'static Kinds,
    terms: Vec<Term>,
    prods: Vec<Prod>,
    nt_prods: Vec<Vec<u32>>,
    pub nt_names: Vec<String>,
    base: Vec<u16>,
    base_names: Vec<String>,
    yields: Vec<Option<Vec<Kind>>>,
    // lazily built LR(0)
    states: Vec<State>,
    index: HashMap<Vec<u32>, u32>,
    shift: Vec<Vec<u32>>, // [state][kind*2+nl] -> state+2, 0 unknown, 1 none
    goto_: HashMap<u64, u32>,
    accept_prod: Vec<bool>,
    prod_base: Vec<u32>,
    item_prod: Vec<u32>,
}
struct State {
    items: Vec<u32>, // closure; item id = prod_base + dot
    reduces: Vec<(u16, u8)>,
    accept: bool,
}

const NTOK: usize = 256;

impl Auto {
    pub fn new(kinds: &'static Kinds, src: &str, lenient: bool) -> Auto {
        let mut rules: HashMap<String, (u8, Vec<DAlt>)> = HashMap::new();
        let mut cur = String::new();
        for line in src.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let body = if line.starts_with("| ") {
                line.to_string()
            } else {
                let i = line.find(" : ").unwrap();
                let head = &line[..i];
                let j = head.find('/').unwrap();
                cur = head[..j].trim().to_string();
                let mask = head[j + 1..].trim().chars().fold(0, |m, c| m | flag(c));
                let old = rules.insert(cur.clone(), (mask, vec![]));
                assert!(old.is_none(), "duplicate rule {}", cur);
                format!("| {}", &line[i + 3..])
            };
            let words: Vec<&str> = body.split_whitespace().collect();
            let mut alt: Option<DAlt> = None;
            for w in words {
                if w == "|" {
                    if let Some(a) = alt.take() {
                        rules.get_mut(&cur).unwrap().1.push(a);
                    }
                    alt = Some(DAlt { need: 0, deny: 0, lenient: false, syms: vec![] });
                    continue;
                }
                let a = alt.as_mut().unwrap();
                if w.starts_with('<') && w.ends_with('>') && w.len() > 2 {
                    let mut neg = false;
                    for c in w[1..w.len() - 1].chars() {
                        match c {
                            '!' => neg = true,
                            'L' => a.lenient = true,
                            c => {
                                if neg {
                                    a.deny |= flag(c)
                                } else {
                                    a.need |= flag(c)
                                }
                                neg = false;
                            }
                        }
                    }
                    continue;
                }
                a.syms.push(Self::dsym(kinds, w));
            }
            if let Some(a) = alt.take() {
                rules.get_mut(&cur).unwrap().1.push(a);
            }
        }
        let mut me = Auto {
            kinds,
            terms: vec![],
            prods: vec![],
            nt_prods: vec![],
            nt_names: vec![],
            base: vec![],
            base_names: vec![],
            yields: vec![],
            states: vec![],
            index: HashMap::new(),
            shift: vec![],
            goto_: HashMap::new(),
            accept_prod: vec![],
            prod_base: vec![],
            item_prod: vec![],
        };
        // expand (name, flags) pairs on demand
        let mut ids: HashMap<(String, u8), u16> = HashMap::new();
        let mut todo: Vec<(String, u8)> = vec![];
        let mut tids: HashMap<Term, u16> = HashMap::new();
        ids.insert(("Module".into(), 0), 0);
        me.nt_prods.push(vec![]);
        me.nt_names.push("Module".into());
        me.base.push(0);
        me.base_names.push("Module".into());
        todo.push(("Module".into(), 0));
        while let Some((name, fl)) = todo.pop() {
            let id = ids[&(name.clone(), fl)];
            let (_, alts) = &rules[&name];
            for alt in alts {
                if alt.lenient && !lenient || alt.need & fl != alt.need || alt.deny & fl != 0 {
                    continue;
                }
                let opts: Vec<usize> = (0..alt.syms.len()).filter(|&i| alt.syms[i].1).collect();
                for m in 0..(1u32 << opts.len()) {
                    let mut rhs = vec![];
                    for (i, (s, o)) in alt.syms.iter().enumerate() {
                        if *o {
                            let b = opts.iter().position(|&x| x == i).unwrap();
                            if m & (1 << b) == 0 {
                                continue;
                            }
                        }
                        let first = rhs.is_empty();
                        match s {
                            DSym::T { mask, nonl, vs, vd } => {
                                let t = Term { mask: *mask, nonl: *nonl || (first && fl & FN != 0), vs: *vs, vd: *vd };
                                let n = me.terms.len() as u16;
                                let tid = *tids.entry(t).or_insert(n);
                                if tid == n {
                                    me.terms.push(t);
                                }
                                rhs.push(Sym::T(tid));
                            }
                            DSym::N { name: n2, set, clr } => {
                                let mut f = if first { fl } else { fl & !LEFT };
                                f = (f | set) & !clr;
                                let (mask2, _) = rules.get(n2).unwrap_or_else(|| panic!("no rule {}", n2));
                                f &= mask2;
                                let key = (n2.clone(), f);
                                let nid = match ids.get(&key) {
                                    Some(x) => *x,
                                    None => {
                                        let x = me.nt_prods.len() as u16;
                                        ids.insert(key.clone(), x);
                                        me.nt_prods.push(vec![]);
                                        me.nt_names.push(format!("{}{:x}", n2, f));
                                        let b = match me.base_names.iter().position(|x| x == n2) {
                                            Some(b) => b,
                                            None => {
                                                me.base_names.push(n2.clone());
                                                me.base_names.len() - 1
                                            }
                                        };
                                        me.base.push(b as u16);
                                        todo.push(key);
                                        x
                                    }
                                };
                                rhs.push(Sym::N(nid));
                            }
                        }
                    }
                    assert!(!rhs.is_empty(), "epsilon in {}", name);
                    if rhs.len() == 1 && rhs[0] == Sym::N(id) {
                        continue;
                    }
                    let dup = me.nt_prods[id as usize].iter().any(|&p| me.prods[p as usize].rhs == rhs);
                    if dup {
                        continue;
                    }
                    let pid = me.prods.len() as u32;
                    me.nt_prods[id as usize].push(pid);
                    me.prods.push(Prod { lhs: id, rhs });
                }
            }
        }
        let mut base = 0;
        for (i, p) in me.prods.iter().enumerate() {
            me.prod_base.push(base);
            base += p.rhs.len() as u32 + 1;
            for _ in 0..=p.rhs.len() {
                me.item_prod.push(i as u32);
            }
            me.accept_prod.push(p.lhs == 0);
        }
        let kernel: Vec<u32> = me.nt_prods[0].iter().map(|&p| me.prod_base[p as usize]).collect();
        me.state(kernel);
        me.min_yields();
        me
    }

    fn dsym(kinds: &Kinds, w: &str) -> (DSym, bool) {
        let (w, opt) = match w.strip_suffix('?') {
            Some(x) if x.len() > 0 && x != "'" => (x, true),
            _ => (w, false),
        };
        let one = |s: &str| 1u128 << kinds.find(s).unwrap_or_else(|| panic!("no kind {}", s));
        let t = |mask: u128, nonl: bool| DSym::T { mask, nonl, vs: false, vd: false };
        if w.starts_with('\'') {
            let (x, nonl) = match w.strip_suffix('^') {
                Some(x) if x.ends_with('\'') && x.len() > 2 => (x, true),
                _ => (w, false),
            };
            return (t(one(&x[1..x.len() - 1]), nonl), opt);
        }
        let (w, nonl) = match w.strip_suffix('^') {
            Some(x) => (x, true),
            None => (w, false),
        };
        let words: u128 = (0..kinds.n_words).fold(0, |m, i| m | 1u128 << i);
        let ids: u128 = (kinds.n_reserved..kinds.n_words).fold(0, |m, i| m | 1u128 << i);
        let d = match w {
            "ID" => t(ids, nonl),
            // names that can be bound and assigned to: not eval and arguments
            "BID" => t(ids & !one("eval"), nonl),
            // any but "async": later editions rule out "for (async of", which is ambiguous
            "BIDX" => t(ids & !one("async") & !one("eval"), nonl),
            "NAME" => t(words, nonl),
            "NUM" | "STR" | "RE" | "NOSUB" | "HEAD" | "MID" | "TAIL" => t(one(w), nonl),
            "EOF" => t(1u128 << kinds.eof, nonl),
            "SEMI" => DSym::T { mask: one(";") | 1u128 << kinds.vsemi, nonl: false, vs: true, vd: false },
            "SEMIDW" => DSym::T { mask: one(";") | 1u128 << kinds.vsemi | 1u128 << kinds.vdw, nonl: false, vs: true, vd: true },
            _ => {
                let (name, mods) = match w.find('{') {
                    Some(i) => (&w[..i], &w[i + 1..w.len() - 1]),
                    None => (w, ""),
                };
                let (mut set, mut clr) = (0, 0);
                let mut plus = true;
                for c in mods.chars() {
                    match c {
                        '+' => plus = true,
                        '-' => plus = false,
                        c => {
                            if plus {
                                set |= flag(c)
                            } else {
                                clr |= flag(c)
                            }
                        }
                    }
                }
                DSym::N { name: name.to_string(), set, clr }
            }
        };
        (d, opt)
    }

    /// Rule names (without parameters) of the kernel items of a state.
    pub fn kernel_rules(&self, s: u32, out: &mut Vec<u16>) {
        for &it in &self.states[s as usize].items {
            let p = self.item_prod[it as usize];
            if it > self.prod_base[p as usize] {
                let n = self.base[self.prods[p as usize].lhs as usize];
                if !out.contains(&n) {
                    out.push(n);
                }
            }
        }
    }
    pub fn rule_id(&self, name: &str) -> u16 {
        self.base_names.iter().position(|n| n == name).unwrap_or_else(|| panic!("no rule {}", name)) as u16
    }
    /// Shortest token sequence of every nonterminal.
    fn min_yields(&mut self) {
        self.yields = vec![None; self.nt_prods.len()];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let mut v = vec![];
                if !self.rep_into(&p.rhs, &mut v) {
                    continue;
                }
                let o = &self.yields[p.lhs as usize];
                if o.as_ref().map_or(true, |o| v.len() < o.len()) {
                    self.yields[p.lhs as usize] = Some(v);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
    }
    fn rep_into(&self, rhs: &[Sym], v: &mut Vec<Kind>) -> bool {
        for s in rhs {
            match s {
                Sym::T(t) => {
                    let m = self.terms[*t as usize].mask;
                    let k = self.kinds;
                    let a = k.find("a").unwrap();
                    v.push(if m >> a & 1 == 1 {
                        a
                    } else if m >> k.semi & 1 == 1 {
                        k.semi
                    } else {
                        m.trailing_zeros() as Kind
                    });
                }
                Sym::N(n) => match &self.yields[*n as usize] {
                    Some(y) => v.extend(y),
                    None => return false,
                },
            }
        }
        true
    }
    pub fn sizes(&self) -> (usize, usize, usize) {
        (self.nt_prods.len(), self.prods.len(), self.states.len())
    }

    fn state(&mut self, mut kernel: Vec<u32>) -> u32 {
        kernel.sort();
        kernel.dedup();
        if let Some(&s) = self.index.get(&kernel) {
            return s;
        }
        let id = self.states.len() as u32;
        let mut items = kernel.clone();
        let mut seen = vec![false; self.nt_prods.len()];
        let mut i = 0;
        let mut reduces = vec![];
        let mut accept = false;
        while i < items.len() {
            let it = items[i];
            i += 1;
            let p = self.item_prod[it as usize];
            let dot = (it - self.prod_base[p as usize]) as usize;
            let pr = &self.prods[p as usize];
            if dot == pr.rhs.len() {
                if pr.lhs == 0 {
                    accept = true;
                } else {
                    reduces.push((pr.lhs, pr.rhs.len() as u8));
                }
            } else if let Sym::N(n) = pr.rhs[dot] {
                if !seen[n as usize] {
                    seen[n as usize] = true;
                    for &q in &self.nt_prods[n as usize] {
                        items.push(self.prod_base[q as usize]);
                    }
                }
            }
        }
        self.index.insert(kernel, id);
        self.states.push(State { items, reduces, accept });
        self.shift.push(vec![0; NTOK]);
        id
    }

    fn shift_to(&mut self, s: u32, tok: usize) -> Option<u32> {
        let c = self.shift[s as usize][tok];
        if c != 0 {
            return if c == 1 { None } else { Some(c - 2) };
        }
        let (k, nl) = (tok >> 1, tok & 1 == 1);
        let mut kernel = vec![];
        for &it in &self.states[s as usize].items {
            let p = self.item_prod[it as usize];
            let dot = (it - self.prod_base[p as usize]) as usize;
            let pr = &self.prods[p as usize];
            if dot < pr.rhs.len() {
                if let Sym::T(t) = pr.rhs[dot] {
                    let t = self.terms[t as usize];
                    if t.mask >> k & 1 == 1 && !(nl && t.nonl) {
                        kernel.push(it + 1);
                    }
                }
            }
        }
        if kernel.is_empty() {
            self.shift[s as usize][tok] = 1;
            None
        } else {
            let n = self.state(kernel);
            self.shift[s as usize][tok] = n + 2;
            Some(n)
        }
    }

    fn goto(&mut self, s: u32, nt: u16) -> Option<u32> {
        let key = (s as u64) << 16 | nt as u64;
        if let Some(&g) = self.goto_.get(&key) {
            return if g == u32::MAX { None } else { Some(g) };
        }
        let mut kernel = vec![];
        for &it in &self.states[s as usize].items {
            let p = self.item_prod[it as usize];
            let dot = (it - self.prod_base[p as usize]) as usize;
            let pr = &self.prods[p as usize];
            if dot < pr.rhs.len() && pr.rhs[dot] == Sym::N(nt) {
                kernel.push(it + 1);
            }
        }
        let g = if kernel.is_empty() { u32::MAX } else { self.state(kernel) };
        self.goto_.insert(key, g);
        if g == u32::MAX {
            None
        } else {
            Some(g)
        }
    }
}

#[derive(Clone, Copy)]
struct Node {
    state: u32,
    edge: u32,
}
#[derive(Clone, Copy)]
struct Edge {
    to: u32,
    next: u32,
}
const NIL: u32 = u32::MAX;

/// The stack graph plus the automaton. `Front` values are snapshots that stay valid as long
/// as the arena is not truncated below them.
pub struct Glr {
    pub auto: Auto,
    nodes: Vec<Node>,
    edges: Vec<Edge>,
    pub steps: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Front {
    pub nodes: Vec<u32>,
}
pub struct Mark(usize, usize);

impl Glr {
    pub fn new(auto: Auto) -> Glr {
        Glr { auto, nodes: vec![], edges: vec![], steps: 0 }
    }
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.edges.clear();
    }
    pub fn mark(&self) -> Mark {
        Mark(self.nodes.len(), self.edges.len())
    }
    pub fn undo(&mut self, m: &Mark) {
        self.nodes.truncate(m.0);
        self.edges.truncate(m.1);
    }
    pub fn start(&mut self) -> Front {
        self.nodes.push(Node { state: 0, edge: NIL });
        Front { nodes: vec![self.nodes.len() as u32 - 1] }
    }

    fn add(&mut self, front: &mut Vec<u32>, work: &mut Vec<(u32, u32)>, state: u32, to: u32) {
        let n = match front.iter().find(|&&n| self.nodes[n as usize].state == state) {
            Some(&n) => n,
            None => {
                let n = self.nodes.len() as u32;
                self.nodes.push(Node { state, edge: NIL });
                front.push(n);
                n
            }
        };
        let mut e = self.nodes[n as usize].edge;
        while e != NIL {
            if self.edges[e as usize].to == to {
                return;
            }
            e = self.edges[e as usize].next;
        }
        let e = self.edges.len() as u32;
        self.edges.push(Edge { to, next: self.nodes[n as usize].edge });
        self.nodes[n as usize].edge = e;
        work.push((n, e));
    }

    fn shift_tok(&mut self, f: &Front, tok: usize) -> Option<Front> {
        let mut front: Vec<u32> = vec![];
        let mut work: Vec<(u32, u32)> = vec![];
        for &n in &f.nodes {
            let s = self.nodes[n as usize].state;
            if let Some(t) = self.auto.shift_to(s, tok) {
                self.add(&mut front, &mut work, t, n);
            }
        }
        if front.is_empty() {
            return None;
        }
        let mut ends: Vec<u32> = vec![];
        while let Some((n, e)) = work.pop() {
            let s = self.nodes[n as usize].state as usize;
            for r in 0..self.auto.states[s].reduces.len() {
                let (lhs, len) = self.auto.states[s].reduces[r];
                ends.clear();
                self.paths(self.edges[e as usize].to, len - 1, &mut ends);
                for i in 0..ends.len() {
                    let m = ends[i];
                    let ms = self.nodes[m as usize].state;
                    if let Some(g) = self.auto.goto(ms, lhs) {
                        self.add(&mut front, &mut work, g, m);
                    }
                }
            }
        }
        self.steps += 1;
        Some(Front { nodes: front })
    }
    fn paths(&self, n: u32, len: u8, out: &mut Vec<u32>) {
        if len == 0 {
            if !out.contains(&n) {
                out.push(n);
            }
            return;
        }
        let mut e = self.nodes[n as usize].edge;
        while e != NIL {
            let ed = self.edges[e as usize];
            self.paths(ed.to, len - 1, out);
            e = ed.next;
        }
    }
    fn can_shift(&mut self, f: &Front, tok: usize) -> bool {
        f.nodes.iter().any(|&n| {
            let s = self.nodes[n as usize].state;
            self.auto.shift_to(s, tok).is_some()
        })
    }
    /// Is a division operator permitted next?
    pub fn div_ok(&mut self, f: &Front, nl: bool) -> bool {
        let k = self.auto.kinds;
        self.can_shift(f, (k.div as usize) << 1 | nl as usize) || self.can_shift(f, (k.diveq as usize) << 1 | nl as usize)
    }
    /// Is a template continuation permitted next?
    pub fn tail_ok(&mut self, f: &Front, nl: bool) -> bool {
        let k = self.auto.kinds;
        self.can_shift(f, (k.mid as usize) << 1 | nl as usize) || self.can_shift(f, (k.tail as usize) << 1 | nl as usize)
    }
    /// One token, with automatic semicolon insertion before it where the language inserts one.
    pub fn step(&mut self, f: &Front, t: Tok) -> Option<Front> {
        let k = self.auto.kinds;
        if t.k == k.re && self.div_ok(f, t.nl) {
            return None; // the text would be read as a division here
        }
        if t.k == k.rcurly && self.tail_ok(f, t.nl) {
            return None; // the text would be read as a template continuation here
        }
        self.step_any(f, t)
    }
    /// The same for a token that is known to have been read with the right goal.
    pub fn step_any(&mut self, f: &Front, t: Tok) -> Option<Front> {
        let k = self.auto.kinds;
        let tok = (t.k as usize) << 1 | t.nl as usize;
        if let Some(n) = self.shift_tok(f, tok) {
            return Some(n);
        }
        let mut cur = f.clone();
        loop {
            let v = if t.nl || t.k == k.rcurly || t.k == k.eof { k.vsemi } else { k.vdw };
            match self.shift_tok(&cur, (v as usize) << 1) {
                None => return None,
                Some(n) => {
                    if let Some(m) = self.shift_tok(&n, tok) {
                        return Some(m);
                    }
                    cur = n;
                }
            }
        }
    }
    pub fn accepts(&mut self, f: &Front) -> bool {
        let m = self.mark();
        let k = self.auto.kinds;
        let r = match self.step(f, Tok { k: k.eof, nl: false }) {
            Some(g) => g.nodes.iter().any(|&n| self.auto.states[self.nodes[n as usize].state as usize].accept),
            None => false,
        };
        self.undo(&m);
        r
    }
    /// Whole sequence: (length of the viable prefix, accepted)
    pub fn run(&mut self, toks: &[Tok]) -> (usize, bool) {
        let m = self.mark();
        let mut f = self.start();
        for (i, &t) in toks.iter().enumerate() {
            match self.step(&f, t) {
                Some(g) => f = g,
                None => {
                    self.undo(&m);
                    return (i, false);
                }
            }
        }
        let a = self.accepts(&f);
        self.undo(&m);
        (toks.len(), a)
    }
    /// A key for the continuation behaviour of a front: the multiset of stack states reachable.
    pub fn key(&self, f: &Front) -> Vec<u32> {
        let mut v: Vec<u32> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<u32> = f.nodes.clone();
        while let Some(n) = st.pop() {
            if !seen.insert(n) {
                continue;
            }
            v.push(self.nodes[n as usize].state);
            let mut e = self.nodes[n as usize].edge;
            while e != NIL {
                st.push(self.edges[e as usize].to);
                e = self.edges[e as usize].next;
            }
        }
        v.sort();
        v
    }
    /// All stacks of top-k states, as a set.
    pub fn top(&self, f: &Front, k: usize) -> Vec<u32> {
        let mut v: Vec<Vec<u32>> = vec![];
        let mut cur = vec![];
        for &n in &f.nodes {
            self.top_rec(n, k, &mut cur, &mut v);
        }
        v.sort();
        v.dedup();
        let mut o = vec![];
        for x in v {
            o.extend(x);
            o.push(u32::MAX);
        }
        o
    }
    fn top_rec(&self, n: u32, k: usize, cur: &mut Vec<u32>, v: &mut Vec<Vec<u32>>) {
        cur.push(self.nodes[n as usize].state);
        let mut e = self.nodes[n as usize].edge;
        if k == 1 || e == NIL {
            v.push(cur.clone());
        } else {
            while e != NIL {
                let ed = self.edges[e as usize];
                self.top_rec(ed.to, k - 1, cur, v);
                e = ed.next;
            }
        }
        cur.pop();
    }
    pub fn top_states(&self, f: &Front) -> Vec<u32> {
        let mut v: Vec<u32> = f.nodes.iter().map(|&n| self.nodes[n as usize].state).collect();
        v.sort();
        v
    }

    /// An accepted completion built from shortest yields along one stack of the front.
    pub fn finish(&mut self, f: &Front) -> Option<Vec<Tok>> {
        if self.accepts(f) {
            return Some(vec![]);
        }
        let mut best: Option<Vec<Tok>> = None;
        for &top in f.nodes.iter() {
            for pick in 0..3 {
                let mut stack = vec![];
                let mut n = top;
                loop {
                    stack.push(self.nodes[n as usize].state);
                    let e = self.nodes[n as usize].edge;
                    if e == NIL {
                        break;
                    }
                    n = self.edges[e as usize].to;
                }
                stack.reverse();
                let mut out: Vec<Kind> = vec![];
                let mut ok = false;
                for _ in 0..400 {
                    let s = *stack.last().unwrap();
                    // the best item: complete, then not left-recursive, then short
                    let mut cands: Vec<(usize, u32)> = vec![];
                    for &it in &self.auto.states[s as usize].items {
                        let p = self.auto.item_prod[it as usize];
                        let dot = (it - self.auto.prod_base[p as usize]) as usize;
                        if dot == 0 && stack.len() > 1 {
                            continue;
                        }
                        let pr = &self.auto.prods[p as usize];
                        let mut v = vec![];
                        if !self.auto.rep_into(&pr.rhs[dot..], &mut v) {
                            continue;
                        }
                        let lrec = pr.rhs[0] == Sym::N(pr.lhs) || match pr.rhs[0] { Sym::N(x) => self.auto.base[x as usize] == self.auto.base[pr.lhs as usize], _ => false };
                        let c = v.len() * 2 + if dot < pr.rhs.len() && lrec { 100 } else { 0 };
                        cands.push((c, it));
                    }
                    cands.sort();
                    if cands.is_empty() {
                        break;
                    }
                    let i = if out.is_empty() { pick.min(cands.len() - 1) } else { 0 };
                    let it = cands[i].1;
                    let p = self.auto.item_prod[it as usize];
                    let dot = (it - self.auto.prod_base[p as usize]) as usize;
                    let (lhs, rest) = {
                        let pr = &self.auto.prods[p as usize];
                        let mut v = vec![];
                        self.auto.rep_into(&pr.rhs[dot..], &mut v);
                        (pr.lhs, v)
                    };
                    out.extend(rest);
                    if lhs == 0 {
                        ok = true;
                        break;
                    }
                    let l = stack.len() - dot;
                    stack.truncate(l);
                    match self.auto.goto(*stack.last().unwrap(), lhs) {
                        Some(g) => stack.push(g),
                        None => break,
                    }
                }
                if !ok {
                    continue;
                }
                out.pop(); // end of input
                let toks: Vec<Tok> = out.iter().map(|&k| Tok { k, nl: false }).collect();
                let m = self.mark();
                let mut g = f.clone();
                let good = toks.iter().all(|&t| match self.step(&g, t) {
                    Some(x) => {
                        g = x;
                        true
                    }
                    None => false,
                }) && self.accepts(&g);
                self.undo(&m);
                if good && best.as_ref().map_or(true, |b| toks.len() < b.len()) {
                    best = Some(toks);
                }
            }
        }
        best
    }
    /// Shortest accepted completion, by breadth-first search.
    pub fn complete(&mut self, f: &Front, alphabet: &[Tok], max_len: usize, cap: usize) -> Option<Vec<Tok>> {
        let m = self.mark();
        let mut seen = std::collections::HashSet::new();
        let mut q: std::collections::VecDeque<(Front, Vec<Tok>)> = Default::default();
        q.push_back((f.clone(), vec![]));
        let mut n = 0;
        let mut res = None;
        while let Some((f, p)) = q.pop_front() {
            if self.accepts(&f) {
                res = Some(p);
                break;
            }
            if p.len() >= max_len || n > cap {
                continue;
            }
            for &t in alphabet {
                n += 1;
                if let Some(g) = self.step(&f, t) {
                    if seen.insert(self.key(&g)) {
                        let mut p2 = p.clone();
                        p2.push(t);
                        q.push_back((g, p2));
                    }
                }
            }
        }
        self.undo(&m);
        res
    }
}
