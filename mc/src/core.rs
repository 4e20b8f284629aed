//! Checks of the parser: one text, or one token sequence, judged by the reference grammar
//! and by the implementation.

use crate::glr::*;
use crate::kinds::*;
use crate::lexref::{self, lex, Fmt, R, T};
use crate::runimpl::{self, Verdict};
use crate::work::Ctl;

pub const GRAMMAR: &str = include_str!("grammar.txt");

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tri {
    Acc,
    Rej,
    Open,
}

pub struct PW {
    pub k: &'static Kinds,
    pub s: Glr,
    l: Option<Glr>,
    pub buf: String,
    pub offs: Vec<(u32, u32)>,
    pub compare_tokens: bool,
}

/// The reference verdict on a text: the lexer is driven by the goal symbols the grammar
/// gives. In the lenient language every possible goal is tried.
pub fn judge(g: &mut Glr, k: &Kinds, text: &str, lenient: bool, toks: Option<&mut Vec<(u32, u32)>>) -> Tri {
    let m = g.mark();
    let f = g.start();
    let mut t = vec![];
    let r = go(g, k, text, 0, f, false, lenient, &mut t);
    g.undo(&m);
    if let Some(o) = toks {
        *o = t;
    }
    r
}
fn go(g: &mut Glr, k: &Kinds, text: &str, mut pos: usize, mut f: Front, mut nl: bool, lenient: bool, out: &mut Vec<(u32, u32)>) -> Tri {
    loop {
        let p = lexref::skip_ws(text, pos);
        let rest = &text[p..];
        let div = g.div_ok(&f, nl);
        let tail = g.tail_ok(&f, nl);
        if lenient && div && rest.starts_with('/') && !rest.starts_with("//") && !rest.starts_with("/*") {
            // both goals may be possible: try the regular expression first
            if let R::Tok(T::Regex { .. }, _, e) = lex(text, pos, true, tail) {
                let n = out.len();
                let mark = g.mark();
                if let Some(f2) = g.step_any(&f, Tok { k: k.re, nl }) {
                    if go(g, k, text, e, f2, false, lenient, out) != Tri::Rej {
                        return Tri::Acc;
                    }
                }
                out.truncate(n);
                g.undo(&mark);
            }
        }
        let (t, s, e) = match lex(text, pos, !div, tail) {
            R::Open(_) => return Tri::Open,
            R::Fail(_) => return Tri::Rej,
            R::Tok(t, s, e) => (t, s, e),
        };
        pos = e;
        let kind = match t {
            T::Line => {
                nl = true;
                continue;
            }
            T::Comment { text, .. } => {
                if text.contains(lexref::is_lt) {
                    nl = true;
                }
                continue;
            }
            T::Eof => return if g.accepts(&f) { Tri::Acc } else { Tri::Rej },
            T::Punct(p) => k.find(p).unwrap(),
            T::Regex { .. } => k.re,
            T::Num(..) => k.num,
            T::Str(_) => k.str_,
            T::Template { fmt, .. } => match fmt {
                Fmt::NoSub => k.nosub,
                Fmt::Head => k.head,
                Fmt::Middle => k.mid,
                Fmt::Tail => k.tail,
            },
            // the other name with the same restrictions
            T::Ident("arguments") => k.find("eval").unwrap(),
            T::Ident(n) => match k.find(n) {
                Some(x) if k.is_word(x) => x,
                _ => k.n_reserved as Kind,
            },
        };
        out.push((s as u32, e as u32));
        match g.step_any(&f, Tok { k: kind, nl }) {
            Some(n) => f = n,
            None => return Tri::Rej,
        }
        nl = false;
    }
}

/// Whether the tokens of a valid text have a `delete` with nothing but a name, possibly in
/// parentheses, for its operand. (Open: some shapes this does not tell from methods and
/// renamed imports.)
pub fn deletes_name(text: &str, offs: &[(u32, u32)]) -> Tri {
    if !text.contains("delete") {
        return Tri::Acc;
    }
    let mut res = Tri::Acc;
    let tok = |i: usize| offs.get(i).map_or("", |&(a, b)| &text[a as usize..b as usize]);
    let nl = |i: usize| i > 0 && i < offs.len() && text[offs[i - 1].1 as usize..offs[i].0 as usize].contains(lexref::is_lt);
    for i in 0..offs.len() {
        // not a property or method name
        if tok(i) != "delete" || i > 0 && tok(i - 1) == "." {
            continue;
        }
        let mut n = 0;
        while tok(i + 1 + n) == "(" {
            n += 1;
        }
        let name = tok(i + 1 + n);
        let c = name.chars().next().unwrap_or(' ');
        if !(c == '$' || c == '_' || lexref::id_start(c) == Some(true)) || RESERVED.contains(&name) {
            continue;
        }
        if (0..n).any(|j| tok(i + 2 + n + j) != ")") {
            continue;
        }
        let j = i + 2 + 2 * n;
        let next = tok(j);
        let member = matches!(next, "." | "[" | "(") || next.starts_with('`');
        let update = matches!(next, "++" | "--") && !nl(j);
        let function = n == 0 && name == "async" && next == "function" && !nl(j);
        // a method of this name, "delete ( a ) { }", and "{ delete as a } from"
        let method = n == 1 && next == "{";
        let renamed = n == 0 && name == "as" && next.chars().next().map_or(false, |c| c == '$' || c == '_' || lexref::id_start(c) == Some(true))
            && (!matches!(next, "in" | "instanceof") || matches!(tok(j + 1), "}" | ","));
        if member || update || function {
        } else if method || renamed {
            if nl(j) {
                res = Tri::Open;
            }
        } else {
            return Tri::Rej;
        }
    }
    res
}

impl PW {
    pub fn new(k: &'static Kinds) -> PW {
        PW { k, s: Glr::new(Auto::new(k, GRAMMAR, false)), l: None, buf: String::new(), offs: vec![], compare_tokens: true }
    }
    pub fn lenient(&mut self, text: &str) -> Tri {
        let k = self.k;
        let l = self.l.get_or_insert_with(|| Glr::new(Auto::new(k, GRAMMAR, true)));
        judge(l, k, text, true, None)
    }
    pub fn strict(&mut self, text: &str) -> Tri {
        let mut o = std::mem::take(&mut self.offs);
        let r = judge(&mut self.s, self.k, text, false, Some(&mut o));
        self.offs = o;
        r
    }

    /// One run of the implementation.
    pub fn run(&mut self, text: &str, ctl: &mut Ctl) -> Verdict {
        ctl.sample(text);
        ctl.enter(text);
        let v = runimpl::parse(text);
        ctl.leave();
        let me = ctl.me();
        Ctl::add(&me.runs, 1);
        match v {
            Verdict::Accept => Ctl::add(&me.accepted, 1),
            _ => Ctl::add(&me.rejected, 1),
        }
        v
    }

    /// Compare the verdicts on a text the reference judges with `want` (tokens in self.offs
    /// when accepted). Returns a description of a violation.
    pub fn compare(&mut self, text: &str, want: Tri, got: &Verdict, ctl: &mut Ctl) -> Option<String> {
        if let Verdict::Internal(m) = got {
            return Some(format!("internal error: {}", m));
        }
        // the one restriction that is not in the grammar
        if want == Tri::Acc {
            match deletes_name(text, &self.offs) {
                Tri::Acc => {}
                Tri::Rej if *got == Verdict::Accept => return Some("accepted, but deletes a variable".into()),
                _ => return None,
            }
        }
        match (want, got) {
            (Tri::Open, _) => {
                Ctl::add(&ctl.me().open, 1);
                None
            }
            (Tri::Acc, Verdict::Accept) => {
                let r = runimpl::last();
                if self.compare_tokens && r.toks != self.offs {
                    let i = (0..).find(|&i| r.toks.get(i) != self.offs.get(i)).unwrap();
                    let show = |o: Option<&(u32, u32)>| o.map(|&(a, b)| text.get(a as usize..b as usize).unwrap_or("?").to_string());
                    return Some(format!("accepted, but token {} was read as {:?}, is {:?}", i, show(r.toks.get(i)), show(self.offs.get(i))));
                }
                None
            }
            (Tri::Rej, Verdict::Accept) => match self.lenient(text) {
                Tri::Rej => Some("accepted, but matches no form of the grammar".into()),
                Tri::Acc => {
                    Ctl::add(&ctl.me().open, 1);
                    None
                }
                Tri::Open => None,
            },
            (Tri::Acc, Verdict::Reject(m)) => {
                let r = runimpl::last();
                Some(format!("valid program rejected after {} tokens ({})", r.toks.len(), m))
            }
            _ => None,
        }
    }

    /// what the text deletes, for a text `strict` has just read
    pub fn deletes(&self, text: &str) -> Tri {
        deletes_name(text, &self.offs)
    }

    pub fn check_text(&mut self, text: &str, ctl: &mut Ctl) -> Option<String> {
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        let want = self.strict(text);
        Ctl::add(&me.transitions, self.offs.len() as u64);
        let got = self.run(text, ctl);
        self.compare(text, want, &got, ctl)
    }

    /// Renders into self.buf and self.offs.
    pub fn render(&mut self, toks: &[Tok]) {
        self.buf.clear();
        self.offs.clear();
        for (i, t) in toks.iter().enumerate() {
            if t.nl {
                self.buf.push('\n');
            } else if i > 0 {
                self.buf.push(' ');
            }
            let a = self.buf.len() as u32;
            self.buf.push_str(self.k.text[t.k as usize]);
            self.offs.push((a, self.buf.len() as u32));
        }
    }

    /// A token sequence judged on the token level; sequences whose text has other tokens
    /// (a slash or brace read differently) are judged as text.
    pub fn check_tokens(&mut self, toks: &[Tok], ctl: &mut Ctl) -> Option<(String, String)> {
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        let (n, acc) = self.s.run(toks);
        Ctl::add(&me.transitions, n as u64);
        self.render(toks);
        let buf = std::mem::take(&mut self.buf);
        let got = self.run(&buf, ctl);
        let want = if acc {
            Tri::Acc
        } else if got == Verdict::Accept {
            self.strict(&buf)
        } else {
            Tri::Rej
        };
        let r = self.compare(&buf, want, &got, ctl).map(|w| (w, buf.clone()));
        self.buf = buf;
        r
    }
}
