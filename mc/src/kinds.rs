//! Token kinds shared by the reference automaton, the generators and the renderer.
//!
//! A kind is a small integer; each kind has one rendering. A token is a kind plus
//! "is there a line break between it and the previous token".

pub type Kind = u8;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Tok {
    pub k: Kind,
    pub nl: bool,
}

/// Words that are reserved in module code.
pub const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
    "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import",
    "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try",
    "typeof", "var", "void", "while", "with", "yield", "let", "static", "implements", "package",
    "protected", "interface", "private", "public", "await",
];
/// Contextual words and ordinary names.
pub const NAMES: &[&str] = &["a", "b", "c", "d", "e", "async", "of", "get", "set", "from", "as", "target", "constructor", "undefined", "meta", "eval"];
pub const PUNCT: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", ">",
    ">=", ">>", ">>=", ">>>", ">>>=", "!", "!=", "!==", "=", "=>", "==", "===", "+", "+=", "++",
    "-", "-=", "--", "%", "%=", "*", "*=", "**", "**=", "/", "/=", "&", "&&", "&=", "|", "||",
    "|=", "^", "^=",
];
pub const LITS: &[&str] = &["1", "'s'", "/r/g", "`t`", "`h${", "}m${", "}t`"];

pub struct Kinds {
    pub text: Vec<&'static str>,
    pub n_reserved: usize,
    pub n_words: usize,
    pub punct0: usize,
    pub lit0: usize,
    pub eof: Kind,
    pub vsemi: Kind,
    pub vdw: Kind,
    pub num: Kind,
    pub str_: Kind,
    pub re: Kind,
    pub nosub: Kind,
    pub head: Kind,
    pub mid: Kind,
    pub tail: Kind,
    pub div: Kind,
    pub diveq: Kind,
    pub rcurly: Kind,
    pub semi: Kind,
}

impl Kinds {
    pub fn new() -> Kinds {
        let mut text: Vec<&'static str> = vec![];
        text.extend(RESERVED);
        let n_reserved = text.len();
        text.extend(NAMES);
        let n_words = text.len();
        let punct0 = text.len();
        text.extend(PUNCT);
        let lit0 = text.len();
        text.extend(LITS);
        let eof = text.len() as Kind;
        text.push("<eof>");
        text.push("<vsemi>");
        text.push("<vdw>");
        assert!(text.len() < 128);
        let f = |s: &str| text.iter().position(|t| *t == s).unwrap() as Kind;
        Kinds {
            n_reserved,
            n_words,
            punct0,
            lit0,
            eof,
            vsemi: eof + 1,
            vdw: eof + 2,
            num: lit0 as Kind,
            str_: lit0 as Kind + 1,
            re: lit0 as Kind + 2,
            nosub: lit0 as Kind + 3,
            head: lit0 as Kind + 4,
            mid: lit0 as Kind + 5,
            tail: lit0 as Kind + 6,
            div: f("/"),
            diveq: f("/="),
            rcurly: f("}"),
            semi: f(";"),
            text,
        }
    }
    pub fn find(&self, s: &str) -> Option<Kind> {
        let s = match s {
            "NUM" => "1",
            "STR" => "'s'",
            "RE" => "/r/g",
            "NOSUB" => "`t`",
            "HEAD" => "`h${",
            "MID" => "}m${",
            "TAIL" => "}t`",
            s => s,
        };
        self.text.iter().position(|t| *t == s).map(|i| i as Kind)
    }
    pub fn is_word(&self, k: Kind) -> bool {
        (k as usize) < self.n_words
    }
    pub fn is_ident(&self, k: Kind) -> bool {
        self.is_word(k) && (k as usize) >= self.n_reserved
    }
    /// Whitespace-separated spellings; a `\n` word marks a line break before the next token.
    pub fn seq(&self, s: &str) -> Vec<Tok> {
        let mut nl = false;
        let mut v = vec![];
        for line in s.split('\u{1}') {
            for w in line.split(' ').filter(|w| !w.is_empty()) {
                if w == "\n" || w == "NL" {
                    nl = true;
                    continue;
                }
                let k = self.find(w).unwrap_or_else(|| panic!("unknown token {:?} in {:?}", w, s));
                v.push(Tok { k, nl });
                nl = false;
            }
        }
        v
    }
    pub fn render_into(&self, toks: &[Tok], out: &mut String) {
        out.clear();
        for (i, t) in toks.iter().enumerate() {
            if t.nl {
                out.push('\n');
            } else if i > 0 {
                out.push(' ');
            }
            out.push_str(self.text[t.k as usize]);
        }
    }
    pub fn render(&self, toks: &[Tok]) -> String {
        let mut s = String::new();
        self.render_into(toks, &mut s);
        s
    }
}
