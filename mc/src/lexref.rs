//! Reference lexer, written from the lexical grammar of ECMAScript 2017 (strict/module code),
//! independently of the implementation under test.

use crate::kinds::PUNCT;
use crate::utab::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    NoSub,
    Head,
    Middle,
    Tail,
}
#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Punct(&'static str),
    Comment { block: bool, text: &'a str },
    Line,
    Regex { pat: &'a str, flags: &'a str },
    Ident(&'a str),
    /// value, and whether it must be met exactly
    Num(f64, bool),
    /// None: contains a lone surrogate, which a Rust string cannot hold
    Str(Option<String>),
    Template { fmt: Fmt, raw: String, cooked: Option<String> },
    Eof,
}
#[derive(Clone, Debug, PartialEq)]
pub enum R<'a> {
    /// token, start and end offset
    Tok(T<'a>, usize, usize),
    /// must be a reported failure
    Fail(usize),
    /// not decided by the property (identifier escapes, characters of later Unicode versions)
    Open(usize),
}

fn in_tab(t: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    let i = t.partition_point(|r| r.1 < c);
    i < t.len() && t[i].0 <= c
}
/// Some(definitely), None: left open
pub fn id_start(c: char) -> Option<bool> {
    if (c as u32) < 0x80 {
        return Some(c.is_ascii_alphabetic() || c == '$' || c == '_');
    }
    if in_tab(MUST_START, c) {
        Some(true)
    } else if in_tab(MAY_START, c) {
        None
    } else {
        Some(false)
    }
}
pub fn id_cont(c: char) -> Option<bool> {
    if (c as u32) < 0x80 {
        return Some(c.is_ascii_alphanumeric() || c == '$' || c == '_');
    }
    if in_tab(MUST_CONT, c) {
        Some(true)
    } else if in_tab(MAY_CONT, c) {
        None
    } else {
        Some(false)
    }
}
pub fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}'
        | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
/// Length of the line terminator sequence at the start of s.
fn lt_len(s: &str) -> usize {
    if s.starts_with("\r\n") {
        2
    } else {
        match s.chars().next() {
            Some(c) if is_lt(c) => c.len_utf8(),
            _ => 0,
        }
    }
}

pub fn skip_ws(code: &str, mut p: usize) -> usize {
    for c in code[p..].chars() {
        if !is_ws(c) {
            break;
        }
        p += c.len_utf8();
    }
    p
}

/// The token at or after `from` (white space is skipped first).
pub fn lex(code: &str, from: usize, expression: bool, template: bool) -> R<'_> {
    let p = skip_ws(code, from);
    let s = &code[p..];
    let c = match s.chars().next() {
        None => return R::Tok(T::Eof, p, p),
        Some(c) => c,
    };
    let tok = |t, n: usize| R::Tok(t, p, p + n);
    let n = lt_len(s);
    if n > 0 {
        return tok(T::Line, n);
    }
    match c {
        '\'' | '"' => return string(s, c, p),
        '`' => return templ(s, p, true),
        '}' if template => return templ(s, p, false),
        '0'..='9' => return number(s, p),
        '.' if s[1..].starts_with(|c: char| c.is_ascii_digit()) => return number(s, p),
        '/' => {
            if s.starts_with("//") {
                let e = s.find(is_lt).unwrap_or(s.len());
                return tok(T::Comment { block: false, text: &s[2..e] }, e);
            }
            if s.starts_with("/*") {
                return match s[2..].find("*/") {
                    Some(i) => tok(T::Comment { block: true, text: &s[2..2 + i] }, i + 4),
                    None => R::Fail(p),
                };
            }
            if expression {
                return regex(s, p);
            }
        }
        _ => {}
    }
    if c == '\\' {
        return R::Open(p);
    }
    match id_start(c) {
        Some(true) => {
            let mut e = 0;
            for d in s.chars() {
                match id_cont(d) {
                    Some(true) => e += d.len_utf8(),
                    Some(false) if d == '\\' => return R::Open(p),
                    Some(false) => break,
                    None => return R::Open(p),
                }
            }
            return tok(T::Ident(&s[..e]), e);
        }
        None => return R::Open(p),
        Some(false) => {}
    }
    let mut best = "";
    for q in PUNCT {
        if q.len() > best.len() && s.starts_with(q) {
            best = q;
        }
    }
    if best.is_empty() {
        return R::Fail(p);
    }
    tok(T::Punct(best), best.len())
}

fn number(s: &str, p: usize) -> R<'_> {
    let b = s.as_bytes();
    let digits = |mut i: usize| {
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let (val, exact, end);
    let radix = if b[0] == b'0' && b.len() > 1 {
        match b[1] {
            b'x' | b'X' => 16,
            b'o' | b'O' => 8,
            b'b' | b'B' => 2,
            _ => 0,
        }
    } else {
        0
    };
    if radix > 0 {
        let mut i = 2;
        let mut v = 0f64;
        let mut big: u128 = 0;
        let mut of = false;
        while i < b.len() && (b[i] as char).is_digit(radix) {
            let d = (b[i] as char).to_digit(radix).unwrap();
            v = v * radix as f64 + d as f64;
            if big >> 100 != 0 {
                of = true;
            } else {
                big = big * radix as u128 + d as u128;
            }
            i += 1;
        }
        if i == 2 {
            return R::Fail(p);
        }
        val = if of { v } else { big as f64 };
        exact = !of && big < 1 << 53;
        end = i;
    } else {
        let mut i = digits(0);
        if i > 1 && b[0] == b'0' {
            return R::Fail(p); // legacy octal and decimal with leading zero: not in strict code
        }
        let mut int = true;
        if i < b.len() && b[i] == b'.' {
            int = false;
            i = digits(i + 1);
        }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            int = false;
            let mut j = i + 1;
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                j += 1;
            }
            let k = digits(j);
            if k == j {
                return R::Fail(p);
            }
            i = k;
        }
        val = s[..i].parse::<f64>().unwrap_or_else(|_| format!("0{}", &s[..i]).replace(".e", ".0e").replace(".E", ".0e").parse().unwrap());
        exact = int && val < 9007199254740992.0;
        end = i;
    }
    if let Some(c) = s[end..].chars().next() {
        if c.is_ascii_digit() {
            return R::Fail(p);
        }
        if c == '\\' {
            return R::Open(p);
        }
        match id_start(c) {
            Some(true) => return R::Fail(p),
            None => return R::Open(p),
            Some(false) => {}
        }
    }
    R::Tok(T::Num(val, exact), p, p + end)
}

/// Decoder for the escape after a backslash; s starts after the backslash.
/// Ok((code units to append, bytes used)) or Err.
fn escape(s: &str) -> Result<(Option<u32>, usize), ()> {
    let n = lt_len(s);
    if n > 0 {
        return Ok((None, n));
    }
    let c = s.chars().next().ok_or(())?;
    let hex = |t: &str| -> Result<u32, ()> {
        if !t.is_empty() && t.bytes().all(|b| b.is_ascii_hexdigit()) {
            let mut v: u32 = 0;
            for b in t.bytes() {
                v = v.saturating_mul(16).saturating_add((b as char).to_digit(16).unwrap());
            }
            Ok(v)
        } else {
            Err(())
        }
    };
    Ok(match c {
        'b' => (Some(8), 1),
        't' => (Some(9), 1),
        'n' => (Some(10), 1),
        'v' => (Some(11), 1),
        'f' => (Some(12), 1),
        'r' => (Some(13), 1),
        '0' => {
            if s[1..].starts_with(|c: char| c.is_ascii_digit()) {
                return Err(());
            }
            (Some(0), 1)
        }
        '1'..='9' => return Err(()),
        'x' => (Some(hex(s.get(1..3).ok_or(())?)?), 3),
        'u' => {
            if s[1..].starts_with('{') {
                let e = s.find('}').ok_or(())?;
                let v = hex(&s[2..e])?;
                if v > 0x10ffff {
                    return Err(());
                }
                (Some(v), e + 1)
            } else {
                (Some(hex(s.get(1..5).ok_or(())?)?), 5)
            }
        }
        c => (Some(c as u32), c.len_utf8()),
    })
}

/// Accumulates code points and UTF-16 code units into a string.
struct Acc {
    s: String,
    lone: bool,
    hi: Option<u32>,
}
impl Acc {
    fn new() -> Acc {
        Acc { s: String::new(), lone: false, hi: None }
    }
    fn put(&mut self, u: u32) {
        if let Some(h) = self.hi.take() {
            if (0xdc00..0xe000).contains(&u) {
                self.s.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (u - 0xdc00)).unwrap());
                return;
            }
            self.lone = true;
        }
        if (0xd800..0xdc00).contains(&u) {
            self.hi = Some(u);
        } else {
            match char::from_u32(u) {
                Some(c) => self.s.push(c),
                None => self.lone = true,
            }
        }
    }
    fn done(mut self) -> Option<String> {
        if self.hi.take().is_some() {
            self.lone = true;
        }
        if self.lone {
            None
        } else {
            Some(self.s)
        }
    }
}

fn string(s: &str, q: char, p: usize) -> R<'_> {
    let mut acc = Acc::new();
    let mut i = 1;
    loop {
        let c = match s[i..].chars().next() {
            None => return R::Fail(p),
            Some(c) => c,
        };
        if c == q {
            return R::Tok(T::Str(acc.done()), p, p + i + 1);
        }
        if is_lt(c) {
            return R::Fail(p);
        }
        if c == '\\' {
            match escape(&s[i + 1..]) {
                Err(()) => return R::Fail(p),
                Ok((u, n)) => {
                    if let Some(u) = u {
                        acc.put(u);
                    }
                    i += 1 + n;
                }
            }
        } else {
            acc.put(c as u32);
            i += c.len_utf8();
        }
    }
}

fn templ(s: &str, p: usize, first: bool) -> R<'_> {
    let mut acc = Acc::new();
    let mut raw = String::new();
    let mut i = 1;
    loop {
        let r = &s[i..];
        let c = match r.chars().next() {
            None => return R::Fail(p),
            Some(c) => c,
        };
        if c == '`' {
            let fmt = if first { Fmt::NoSub } else { Fmt::Tail };
            return R::Tok(T::Template { fmt, raw, cooked: acc.done() }, p, p + i + 1);
        }
        if r.starts_with("${") {
            let fmt = if first { Fmt::Head } else { Fmt::Middle };
            return R::Tok(T::Template { fmt, raw, cooked: acc.done() }, p, p + i + 2);
        }
        if c == '\\' {
            match escape(&s[i + 1..]) {
                Err(()) => return R::Fail(p),
                Ok((u, n)) => {
                    if let Some(u) = u {
                        acc.put(u);
                    }
                    raw.push_str(&s[i..i + 1 + n].replace("\r\n", "\n").replace('\r', "\n"));
                    i += 1 + n;
                }
            }
        } else if c == '\r' {
            acc.put(10);
            raw.push('\n');
            i += if r.starts_with("\r\n") { 2 } else { 1 };
        } else {
            acc.put(c as u32);
            raw.push(c);
            i += c.len_utf8();
        }
    }
}

fn regex(s: &str, p: usize) -> R<'_> {
    let mut class = false;
    let mut esc = false;
    for (i, c) in s.char_indices().skip(1) {
        if is_lt(c) {
            return R::Fail(p);
        }
        if esc {
            esc = false;
            continue;
        }
        match c {
            '\\' => esc = true,
            '[' => class = true,
            ']' => class = false,
            '/' if !class => {
                let mut e = i + 1;
                for d in s[e..].chars() {
                    match id_cont(d) {
                        Some(true) => e += d.len_utf8(),
                        Some(false) => break,
                        None => return R::Open(p),
                    }
                }
                return R::Tok(T::Regex { pat: &s[1..i], flags: &s[i + 1..e] }, p, p + e);
            }
            _ => {}
        }
    }
    R::Fail(p)
}

/// Line (1-based) and column (0-based, code points) at every character boundary of the text.
/// The boundary between CR and LF has no defined position and holds (0, 0).
pub struct Lines {
    pub at: Vec<(u32, u32)>,
}
impl Lines {
    pub fn new() -> Lines {
        Lines { at: vec![] }
    }
    pub fn fill(&mut self, s: &str) {
        self.at.clear();
        self.at.resize(s.len() + 1, (0, 0));
        let (mut line, mut col) = (1, 0);
        let b = s.as_bytes();
        for (i, c) in s.char_indices() {
            if c == '\n' && i > 0 && b[i - 1] == b'\r' {
                self.at[i] = (0, 0);
            } else {
                self.at[i] = (line, col);
            }
            match c {
                '\r' if b.get(i + 1) == Some(&b'\n') => {}
                c if is_lt(c) => {
                    line += 1;
                    col = 0;
                }
                _ => col += 1,
            }
        }
        self.at[s.len()] = (line, col);
    }
}
