//! The code under test: one run of the parser through a recording tokenizer, and single
//! tokenizer calls.

use crate::lexref::{self, Fmt, T};
use jsparse::tokenizer::tokens::{CommentFormat, PunctuatorToken, TemplateFormat, Token};
use jsparse::tokenizer::{Hint, IntoTokenizer, TokenRange, Tokenizer};
use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Slice<'c> = <&'c str as IntoTokenizer<'c>>::Item;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    /// an internal error: arithmetic, indexing, runaway reading, unreachable code
    Internal(String),
}

#[derive(Default)]
pub struct Rec {
    pub calls: usize,
    pub cap: usize,
    /// calls that read text no call had read before, and how far that was
    pub fresh: usize,
    pub far: usize,
    pub eof: bool,
    /// offsets (start, end) of the tokens given to the parser, without trivia
    pub toks: Vec<(u32, u32)>,
    /// expression/template hint of the call that read each token
    pub hints: Vec<(bool, bool)>,
    /// the last token was inside of the reader when the run ended
    pub in_lexer: bool,
}

thread_local! {
    static REC: UnsafeCell<Rec> = UnsafeCell::new(Rec::default());
}
fn rec<'a>() -> &'a mut Rec {
    REC.with(|r| unsafe { &mut *r.get() })
}
pub fn last<'a>() -> &'a Rec {
    rec()
}

struct Wrap<'c>(&'c str);
#[derive(Debug)]
struct RecTok<'c>(Slice<'c>);
impl<'c> Clone for RecTok<'c> {
    fn clone(&self) -> Self {
        RecTok(self.0.clone())
    }
}
impl<'c> IntoTokenizer<'c> for Wrap<'c> {
    type Item = RecTok<'c>;
    fn into_tokenizer(self) -> RecTok<'c> {
        RecTok(self.0.into_tokenizer())
    }
}
impl<'c> Tokenizer<'c> for RecTok<'c> {
    fn next_token(&mut self, hint: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        crate::indep::request();
        let r = rec();
        r.calls += 1;
        if r.calls > r.cap {
            panic!("runaway: {} tokens requested", r.calls);
        }
        r.in_lexer = true;
        let (tok, range) = out;
        self.0.next_token(hint, (&mut *tok, &mut *range));
        r.in_lexer = false;
        if range.end.offset > r.far {
            r.far = range.end.offset;
            r.fresh += 1;
        }
        match *tok {
            Token::Comment(_) | Token::Whitespace(_) | Token::LineTerminator(_) => {}
            Token::EOF(_) => r.eof = true,
            _ => {
                // a text read again, from a copy of the tokenizer: the last reading counts
                while r.toks.last().map_or(false, |t| t.0 as usize >= range.start.offset) {
                    r.toks.pop();
                    r.hints.pop();
                }
                r.toks.push((range.start.offset as u32, range.end.offset as u32));
                let e = hint.expression(true) == *hint;
                let t = hint.template(true) == *hint;
                r.hints.push((e, t));
            }
        }
    }
}

pub fn payload(p: &Box<dyn Any + Send>) -> &str {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s
    } else if let Some(s) = p.downcast_ref::<String>() {
        s
    } else {
        "?"
    }
}
pub fn is_internal(m: &str) -> bool {
    // the exact wording of the standard library, so that a deliberate failure with a
    // message of its own is never mistaken for one
    const START: &[&str] = &[
        "runaway:",
        "attempt to ",
        "index out of bounds: the len is ",
        "range start index ",
        "range end index ",
        "slice index starts at ",
        "start byte index ",
        "end byte index ",
        "byte index ",
        "byte range starts at ",
        "called `Option::unwrap()` on a `None` value",
        "internal error: entered unreachable code",
        "already borrowed",
        "already mutably borrowed",
        "capacity overflow",
        "assertion failed: ",
        "assertion `",
        "removal index (is ",
        "insertion index (is ",
        "from_digit: radix",
        "to_digit: ",
    ];
    const ERR: &[&str] = &["Utf8Error", "ParseFloatError", "ParseIntError", "TryFromIntError", "ParseCharError"];
    START.iter().any(|b| m.starts_with(b)) || m.starts_with("called `Result::unwrap()` on an `Err` value: ") && ERR.iter().any(|b| m.contains(b))
}
pub fn classify(p: Box<dyn Any + Send>) -> Verdict {
    let m = payload(&p);
    if is_internal(m) {
        Verdict::Internal(m.to_string())
    } else {
        Verdict::Reject(m.lines().next().unwrap_or("").chars().take(80).collect())
    }
}

/// One complete run of the module parser.
pub fn parse(text: &str) -> Verdict {
    let r = rec();
    r.calls = 0;
    // (how much is too much is a matter for C29)
    r.cap = text.len() * 64 + 4096;
    r.fresh = 0;
    r.far = 0;
    r.eof = false;
    r.toks.clear();
    r.hints.clear();
    r.in_lexer = false;
    match catch_unwind(AssertUnwindSafe(|| jsparse::parser::parse_root::<_, ()>(Wrap(text)))) {
        Ok(()) => Verdict::Accept,
        Err(p) => classify(p),
    }
}

pub fn hint(h: u8) -> Hint {
    Hint::default().expression(h & 1 != 0).template(h & 2 != 0).strict(h & 4 != 0)
}

/// What a tokenizer returned for one request.
pub struct Got<'c> {
    pub tok: Token<'c>,
    pub range: TokenRange,
}

pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, Verdict> {
    catch_unwind(AssertUnwindSafe(f)).map_err(classify)
}

pub fn punct_text(p: PunctuatorToken) -> &'static str {
    use PunctuatorToken::*;
    match p {
        CurlyOpen => "{",
        CurlyClose => "}",
        ParenOpen => "(",
        ParenClose => ")",
        SquareOpen => "[",
        SquareClose => "]",
        Semicolon => ";",
        Comma => ",",
        Tilde => "~",
        Question => "?",
        Colon => ":",
        Period => ".",
        Ellipsis => "...",
        LAngle => "<",
        LAngleEq => "<=",
        LAngleAngle => "<<",
        LAngleAngleEq => "<<=",
        RAngle => ">",
        RAngleEq => ">=",
        RAngleAngle => ">>",
        RAngleAngleEq => ">>=",
        RAngleAngleAngle => ">>>",
        RAngleAngleAngleEq => ">>>=",
        Exclam => "!",
        ExclamEq => "!=",
        ExclamEqEq => "!==",
        Eq => "=",
        Arrow => "=>",
        EqEq => "==",
        EqEqEq => "===",
        Plus => "+",
        PlusEq => "+=",
        PlusPlus => "++",
        Minus => "-",
        MinusEq => "-=",
        MinusMinus => "--",
        Percent => "%",
        PercentEq => "%=",
        Star => "*",
        StarEq => "*=",
        StarStar => "**",
        StarStarEq => "**=",
        Slash => "/",
        SlashEq => "/=",
        Amp => "&",
        AmpAmp => "&&",
        AmpEq => "&=",
        Bar => "|",
        BarBar => "||",
        BarEq => "|=",
        Caret => "^",
        CaretEq => "^=",
        _ => "?other",
    }
}

fn num_ok(got: f64, want: f64, exact: bool) -> bool {
    if got == want {
        return true;
    }
    if exact || !want.is_finite() || !got.is_finite() {
        // the largest finite numbers may round either way
        return !exact && want.is_finite() != got.is_finite() && want.abs().max(1e308) == want.abs() && got > 0.0;
    }
    (got - want).abs() <= want.abs() * 1e-12 + 1e-323
}

/// Does the implementation's token equal the reference token?
pub fn same(got: &Token, want: &T) -> bool {
    match (got, want) {
        (Token::Punctuator(p), T::Punct(w)) => punct_text(*p) == *w,
        (Token::Comment(c), T::Comment { block, text }) => {
            c.value == *text && c.format == if *block { CommentFormat::Block } else { CommentFormat::Line }
        }
        (Token::LineTerminator(_), T::Line) => true,
        (Token::RegularExpressionLiteral(r), T::Regex { pat, flags }) => r.pattern == *pat && r.flags == *flags,
        (Token::IdentifierName(i), T::Ident(n)) => i.name == *n,
        (Token::NumericLiteral(n), T::Num(v, e)) => num_ok(n.value, *v, *e),
        (Token::StringLiteral(s), T::Str(v)) => v.as_ref().map_or(true, |v| s.value == *v),
        (Token::Template(t), T::Template { fmt, raw, cooked }) => {
            t.raw == *raw
                && cooked.as_ref().map_or(true, |v| t.cooked == *v)
                && match t.format {
                    TemplateFormat::NoSubstitution => *fmt == Fmt::NoSub,
                    TemplateFormat::Head => *fmt == Fmt::Head,
                    TemplateFormat::Middle => *fmt == Fmt::Middle,
                    TemplateFormat::Tail => *fmt == Fmt::Tail,
                }
        }
        (Token::EOF(_), T::Eof) => true,
        _ => false,
    }
}
pub fn is_trivia_ws(s: &str) -> bool {
    s.chars().all(lexref::is_ws)
}
