//! Checks of the tokenizer (C01-C11): every text of a bounded space, under every relevant
//! history of hints, against the reference lexer.

use crate::lexref::{self, lex, Lines, R, T};
use crate::runimpl::*;
use crate::work::Ctl;
use jsparse::tokenizer::tokens::Token;
use jsparse::tokenizer::{IntoTokenizer, TokenRange, Tokenizer};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LexProp {
    Progress,
    Tiling,
    Pos,
    Punct,
    Num,
    Str,
    Templ,
    Regex,
    Trivia,
    Ident,
    Local,
}
use LexProp::*;

/// How hints are enumerated.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hints {
    /// both values of a hint wherever the next character is one it matters for
    Rel,
    /// all 4 (or 8, with strict) values at every request
    Full(u8),
    /// the same value for all requests
    Const(u8),
}

fn cls_want(t: &T) -> Option<LexProp> {
    Some(match t {
        T::Punct(_) => Punct,
        T::Comment { .. } | T::Line => Trivia,
        T::Regex { .. } => Regex,
        T::Ident(_) => Ident,
        T::Num(..) => Num,
        T::Str(_) => Str,
        T::Template { .. } => Templ,
        T::Eof => return None,
    })
}
fn cls_got(t: &Token) -> Option<LexProp> {
    Some(match t {
        Token::Punctuator(_) => Punct,
        Token::Comment(_) | Token::LineTerminator(_) | Token::Whitespace(_) => Trivia,
        Token::RegularExpressionLiteral(_) => Regex,
        Token::IdentifierName(_) => Ident,
        Token::NumericLiteral(_) => Num,
        Token::StringLiteral(_) => Str,
        Token::Template(_) => Templ,
        Token::EOF(_) => return None,
    })
}
/// The class of literal a failing text begins.
fn cls_fail(s: &str, h: u8) -> LexProp {
    let mut it = s.chars();
    match it.next() {
        Some('\'') | Some('"') => Str,
        Some('`') => Templ,
        Some('}') => Templ,
        Some('.') | Some('0'..='9') => Num,
        Some('/') => {
            if s.starts_with("/*") || s.starts_with("//") || h & 1 == 0 {
                Trivia
            } else {
                Regex
            }
        }
        _ => Ident,
    }
}

pub struct LexCk {
    pub prop: LexProp,
    pub hints: Hints,
    lines: Lines,
    plans: Vec<Vec<u8>>,
    max_histories: usize,
    iso: Vec<Option<Result<(String, usize, usize), ()>>>,
}

impl LexCk {
    pub fn new(prop: LexProp, hints: Hints) -> LexCk {
        LexCk { prop, hints, lines: Lines::new(), plans: vec![], max_histories: 0, iso: vec![] }
    }

    /// Explore all hint histories of one text. Returns the first violation.
    pub fn text(&mut self, text: &str, ctl: &mut Ctl) -> Option<String> {
        let me = ctl.me();
        Ctl::add(&me.states, 1);
        if self.prop == Pos {
            self.lines.fill(text);
        }
        if self.prop == Local {
            self.iso.clear();
            self.iso.resize((text.len() + 1) * 8, None);
        }
        let mut plans = std::mem::take(&mut self.plans);
        plans.clear();
        match self.hints {
            Hints::Const(h) => plans.push(vec![h; text.len() + 4]),
            _ => plans.push(vec![]),
        }
        let mut n = 0;
        let mut res = None;
        while let Some(plan) = plans.pop() {
            n += 1;
            ctl.sample(text);
            let (got, end) = {
                ctl.enter(text);
                let r = drive(text, &plan);
                ctl.leave();
                r
            };
            Ctl::add(&me.runs, 1);
            Ctl::add(&me.transitions, got.len() as u64 + end.is_some() as u64);
            if let Some(w) = self.judge(text, &plan, &got, &end, ctl) {
                res = Some(format!("{} [hints {:?}]", w, plan));
                break;
            }
            // branch
            let calls = got.len() + matches!(end, Some(Verdict::Reject(_)) | Some(Verdict::Internal(_))) as usize;
            for i in plan.len()..calls {
                if i > 0 && matches!(got[i - 1].tok, Token::EOF(_)) {
                    break;
                }
                match self.hints {
                    Hints::Const(_) => break,
                    Hints::Full(k) => {
                        for h in 1..k {
                            let mut p = plan.clone();
                            p.resize(i, 0);
                            p.push(h);
                            plans.push(p);
                        }
                    }
                    Hints::Rel => {
                        let p = if i == 0 { 0 } else { got[i - 1].range.end.offset };
                        if !text.is_char_boundary(p) {
                            break;
                        }
                        let s = &text[lexref::skip_ws(text, p)..];
                        let alt = if s.starts_with('/') {
                            1
                        } else if s.starts_with('}') {
                            2
                        } else {
                            0
                        };
                        if alt > 0 {
                            let mut p = plan.clone();
                            p.resize(i, 0);
                            p.push(alt);
                            plans.push(p);
                        }
                    }
                }
            }
        }
        self.max_histories = self.max_histories.max(n);
        if res.is_none() {
            Ctl::add(&me.accepted, 1);
        }
        self.plans = plans;
        res
    }

    fn judge(&mut self, text: &str, plan: &[u8], got: &[Got], end: &Option<Verdict>, ctl: &mut Ctl) -> Option<String> {
        let mut pos = 0;
        let mut eof = false;
        for i in 0..=got.len() {
            let h = plan.get(i).copied().unwrap_or(0);
            let g = got.get(i);
            if g.is_none() && end.is_none() {
                return None;
            }
            if let (None, Some(Verdict::Internal(m))) = (g, end) {
                if m.starts_with("runaway") {
                    return if self.prop == Progress { Some("tokenizing does not end".into()) } else { None };
                }
            }
            // the token requested at `pos`
            if let Some(g) = g {
                let (s, e) = (g.range.start.offset, g.range.end.offset);
                let bad = s < pos || e < s || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e);
                if self.prop == Tiling {
                    if bad {
                        return Some(format!("token {} has the impossible range {}..{} after {}", i, s, e, pos));
                    }
                    if !is_trivia_ws(&text[pos..s]) {
                        return Some(format!("token {} starts at {} and skips {:?}", i, s, &text[pos..s]));
                    }
                    if matches!(g.tok, Token::EOF(_)) && (s != e || e != text.len()) {
                        return Some(format!("end of input reported at {}..{} of {}", s, e, text.len()));
                    }
                    if let Token::Whitespace(_) = g.tok {
                        if !is_trivia_ws(&text[s..e]) {
                            return Some(format!("white space token {} covers {:?}", i, &text[s..e]));
                        }
                    }
                }
                if self.prop == Progress {
                    if let Token::EOF(_) = g.tok {
                        if e > text.len() || !text.is_char_boundary(pos) || lexref::skip_ws(text, pos) != text.len() {
                            return Some(format!("end of input reported at {} of {}", s, text.len()));
                        }
                    } else {
                        if eof {
                            return Some("a token is reported after the end of input".into());
                        }
                        if e <= s || e <= pos {
                            return Some(format!("token {} at {} consumes nothing: {:?}", i, s, g.tok));
                        }
                    }
                }
                if bad {
                    return None;
                }
                if self.prop == Pos {
                    for (p, what) in [(g.range.start, "start"), (g.range.end, "end")] {
                        let (l, c) = self.lines.at[p.offset];
                        if l != 0 && (p.line as u32 != l || p.column as u32 != c) {
                            return Some(format!(
                                "{} of token {} at offset {} reported as line {} column {}, is line {} column {}",
                                what, i, p.offset, p.line, p.column, l, c
                            ));
                        }
                    }
                }
            }
            let want = lex(text, pos, h & 1 != 0, h & 2 != 0);
            match (self.prop, &want, g) {
                (_, R::Open(_), _) => {
                    Ctl::add(&ctl.me().open, 1);
                    return None;
                }
                (Tiling, _, _) => {}
                (Progress, R::Fail(p), Some(g)) => {
                    return Some(format!("malformed text at {} became the token {:?}", p, g.tok));
                }
                (Progress, _, None) => {
                    if let Some(Verdict::Internal(m)) = end {
                        return Some(format!("internal error at {}: {}", pos, m));
                    }
                }
                (Progress, _, _) => {}
                (Pos, R::Tok(_, s, _), Some(g)) => {
                    if g.range.start.offset != *s {
                        return Some(format!("start of token {} reported as offset {}, is {}", i, g.range.start.offset, s));
                    }
                }
                (Pos, _, _) => {}
                (Local, _, _) => {
                    if let Some(w) = self.local(text, pos, h, g) {
                        return Some(w);
                    }
                }
                (prop, R::Tok(t, s, e), Some(g)) => {
                    let rel = cls_want(t) == Some(prop) || cls_got(&g.tok) == Some(prop) || (prop == Trivia && *t == T::Eof);
                    let rel = rel || prop == Regex && text[*s..].starts_with('/');
                    let ok = same(&g.tok, t) && g.range.start.offset == *s && g.range.end.offset == *e;
                    let crlf = *t == T::Line && matches!(g.tok, Token::LineTerminator(_)) && g.range.end.offset + 1 == *e;
                    let ws = matches!(g.tok, Token::Whitespace(_));
                    if !ok && !crlf && !ws {
                        return if rel {
                            Some(format!(
                                "at {} expected {:?} up to {}, got {:?} at {}..{}",
                                pos, t, e, g.tok, g.range.start.offset, g.range.end.offset
                            ))
                        } else {
                            None
                        };
                    }
                }
                (prop, R::Fail(p), Some(g)) => {
                    return if cls_fail(&text[*p..], h) == prop || cls_got(&g.tok) == Some(prop) {
                        Some(format!("at {} a malformed literal was accepted as {:?}", p, g.tok))
                    } else {
                        None
                    };
                }
                (prop, R::Tok(t, s, _), None) => {
                    let rel = cls_want(t) == Some(prop) || prop == Trivia && *t == T::Eof || prop == Regex && text[*s..].starts_with('/');
                    // white space that is not recognised makes the next token fail
                    let rel = rel || prop == Trivia && *s > pos;
                    return if rel { Some(format!("at {} expected {:?}, got {:?}", pos, t, end)) } else { None };
                }
                (prop, R::Fail(p), None) => {
                    if let Some(Verdict::Internal(m)) = end {
                        if cls_fail(&text[*p..], h) == prop {
                            return Some(format!("at {} internal error: {}", p, m));
                        }
                    }
                    Ctl::add(&ctl.me().rejected, 1);
                }
                _ => {}
            }
            if let Some(g) = g {
                pos = g.range.end.offset;
                if let Token::EOF(_) = g.tok {
                    eof = true;
                }
                if self.prop != Progress && eof {
                    return None;
                }
            } else {
                return None;
            }
        }
        None
    }

    fn alone(&mut self, text: &str, pos: usize, h: u8) -> Result<(String, usize, usize), ()> {
        let k = pos * 8 + h as usize;
        if self.iso[k].is_none() {
            let r = panics(|| {
                let mut t = (&text[pos..]).into_tokenizer();
                let mut tok = Token::default();
                let mut range = TokenRange::default();
                t.next_token(&hint(h), (&mut tok, &mut range));
                (format!("{:?}", tok), range.start.offset, range.end.offset)
            });
            self.iso[k] = Some(r.map_err(|_| ()));
        }
        self.iso[k].clone().unwrap()
    }

    fn local(&mut self, text: &str, pos: usize, h: u8, g: Option<&Got>) -> Option<String> {
        let fresh = self.alone(text, pos, h);
        let got = g.map(|g| (format!("{:?}", g.tok), g.range.start.offset.wrapping_sub(pos), g.range.end.offset.wrapping_sub(pos)));
        let differs = match (&fresh, &got) {
            (Ok(a), Some(b)) => a != b,
            (Err(()), None) => false,
            _ => true,
        };
        if differs {
            return Some(format!("the token at {} is {:?} after this prefix but {:?} on its own", pos, got, fresh));
        }
        let s = &text[lexref::skip_ws(text, pos)..];
        let slash = s.starts_with('/') && !s.starts_with("//") && !s.starts_with("/*");
        let curly = s.starts_with('}');
        let mut keep = 0;
        if slash {
            keep |= 1;
        }
        if curly {
            keep |= 2;
        }
        for h2 in 0..8 {
            let a = self.alone(text, pos, h2);
            let b = self.alone(text, pos, h2 & keep);
            if a != b {
                return Some(format!("the token at {} is {:?} under hint {} but {:?} under hint {}", pos, a, h2, b, h2 & keep));
            }
        }
        None
    }
}

/// Requests tokens with the given hints (0 beyond the plan) until failure, the third end of
/// input, or more requests than there is text.
fn drive<'c>(text: &'c str, plan: &[u8]) -> (Vec<Got<'c>>, Option<Verdict>) {
    let mut got: Vec<Got> = Vec::with_capacity(8);
    let r = panics(|| {
        let mut t = text.into_tokenizer();
        let mut eofs = 0;
        let mut i = 0;
        loop {
            let h = plan.get(i).copied().unwrap_or(0);
            let mut tok = Token::default();
            let mut range = TokenRange::default();
            t.next_token(&hint(h), (&mut tok, &mut range));
            let e = matches!(tok, Token::EOF(_));
            got.push(Got { tok, range });
            i += 1;
            if e {
                eofs += 1;
                if eofs == 3 {
                    return;
                }
            }
            if i > text.len() + 8 {
                panic!("runaway: {} tokens requested", i);
            }
        }
    });
    (got, r.err())
}

pub fn drive_const(text: &str, h: u8) {
    drive(text, &vec![h; text.len() + 10]);
}

/// All tokens up to a failure or the end, kept nowhere.
pub fn pass(text: &str, h: u8) {
    let _ = panics(|| {
        let mut t = text.into_tokenizer();
        let mut tok = Token::default();
        let mut range = TokenRange::default();
        for _ in 0..text.len() + 8 {
            t.next_token(&hint(h), (&mut tok, &mut range));
            if let Token::EOF(_) = tok {
                return;
            }
        }
        panic!("runaway: more tokens than text");
    });
}
