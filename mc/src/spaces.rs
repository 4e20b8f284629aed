//! The bounded space of every property.

use crate::corpus::*;
use crate::effort::*;
use crate::glr::*;
use crate::jobs::*;
use crate::kinds::*;
use crate::lexcheck::{Hints, LexProp};
use crate::pda::{self, Config};

fn v(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}
fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

pub struct Ctx {
    pub k: &'static Kinds,
    pub thorough: bool,
    g: Option<Glr>,
    configs: [Option<&'static [Config]>; 4],
}
type Jobs = Vec<Box<dyn Job>>;

impl Ctx {
    pub fn new(k: &'static Kinds, thorough: bool) -> Ctx {
        Ctx { k, thorough, g: None, configs: [None; 4] }
    }
    fn glr(&mut self) -> &mut Glr {
        let k = self.k;
        self.g.get_or_insert_with(|| Glr::new(Auto::new(k, crate::core::GRAMMAR, false)))
    }
    fn configs(&mut self, depth: usize) -> &'static [Config] {
        if self.configs[depth].is_none() {
            let k = self.k;
            let g = self.glr();
            let c = pda::configs(g, k, depth, 200, 3_000_000);
            g.reset();
            self.configs[depth] = Some(Box::leak(c.into_boxed_slice()));
        }
        self.configs[depth].unwrap()
    }
    fn select(&mut self, depth: usize, rules: &[&str]) -> (&'static [Config], Vec<u32>) {
        let c = self.configs(depth);
        let g = self.glr();
        let ids: Vec<u16> = rules.iter().map(|r| g.auto.rule_id(r)).collect();
        let sel = (0..c.len() as u32).filter(|&i| rules.is_empty() || c[i as usize].rules.iter().any(|r| ids.contains(r))).collect();
        (c, sel)
    }
    fn pda(&mut self, depth: usize, what: &'static str, rules: &[&str], toks: Vec<Tok>) -> Box<dyn Job> {
        let (configs, sel) = self.select(depth, rules);
        Box::new(Pda { what, configs, sel, toks, alternates: false, second: vec![] })
    }
    /// Shortest programs through every configuration.
    fn programs(&mut self, depth: usize, rules: &[&str]) -> Vec<Vec<Tok>> {
        let (c, sel) = self.select(depth, rules);
        let g = self.glr();
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        for i in sel {
            let m = g.mark();
            let mut f = g.start();
            for &t in &c[i as usize].prefix {
                f = g.step(&f, t).unwrap();
            }
            if let Some(e) = g.finish(&f) {
                let mut p = c[i as usize].prefix.clone();
                p.extend(e);
                if !p.is_empty() && seen.insert(p.clone()) {
                    out.push(p);
                }
            }
            g.undo(&m);
        }
        out
    }
    fn seqs(&self, l: &[&str]) -> Vec<Vec<Tok>> {
        l.iter().map(|s| self.k.seq(s)).collect()
    }
    fn nest(&self, what: &'static str, levels: &[&[&str]], second: &[&str]) -> Nest {
        Nest { what, levels: levels.iter().map(|l| tmpls(self.k, l)).collect(), second: tmpls(self.k, second) }
    }
    /// All sequences of up to `n` elements between a prefix and a suffix, as texts.
    fn chains(&self, j: &mut Jobs, n: usize, l: &[(&str, &[&str], &str)]) {
        for (a, el, b) in l {
            let r = |s: &str| self.k.render(&self.k.seq(&s.split(' ').map(|w| if ["f", "g", "h", "i", "j", "k"].contains(&w) { "a" } else { w }).collect::<Vec<_>>().join(" ")));
            // a budget, so that long alphabets get short chains
            let mut hi = 1;
            while hi < n + 3 && (el.len() as u64).pow(hi as u32 + 1) <= if self.thorough { 3_000_000 } else { 150_000 } {
                hi += 1;
            }
            j.push(Box::new(TextSeq { s: Strings { pre: vec![r(a) + " "], chunks: el.iter().map(|e| r(e) + " ").collect(), lo: 0, hi, suf: vec![r(b)] } }));
        }
    }
    /// parts of the valid ones repeated
    fn pump(&mut self, j: &mut Jobs, what: &'static str, s: Vec<Vec<Tok>>) {
        let (max, part) = if self.thorough { (24, 8) } else { (14, 5) };
        let s: Vec<_> = self.valid(s).into_iter().filter(|x| x.len() <= max).collect();
        j.push(Box::new(Pump { what, sents: s, part, ns: vec![3, 17, 65, 129, 257] }));
    }
    fn all_sentences(&self) -> Vec<Vec<Tok>> {
        let mut o = vec![];
        for l in [EXPR, STMT, MODULE] {
            o.extend(self.seqs(l));
        }
        o.extend(self.nest("", &[STMT_EXPR, &["a", "yield", "{ }", "RE"]], &[]).expand());
        o.extend(self.nest("", &[EXPR_CTX, &["a"]], &[]).expand());
        o.extend(self.nest("", &[PAT_CTX, &["{ a }", "[ a ]"]], &[]).expand());
        o.extend(self.nest("", &[MEMBER_CTX, &["a ( ) { }", "get a ( ) { }", "[ a ] ( ) { }"]], &[]).expand());
        o.extend(self.nest("", &[FN, &["( )"]], &["", "yield", "await a"]).expand());
        o
    }
    /// those the strict grammar accepts
    fn valid(&mut self, s: Vec<Vec<Tok>>) -> Vec<Vec<Tok>> {
        let g = self.glr();
        let mut o: Vec<Vec<Tok>> = vec![];
        let mut seen = std::collections::HashSet::new();
        for x in s {
            if g.run(&x).1 && seen.insert(x.clone()) {
                o.push(x);
            }
        }
        o
    }
}

const EXPR_RULES: &[&str] = &["Expr", "Assign", "AssignOp", "Cond", "Bin", "BinOp", "Pow", "Unary", "Update", "LHS", "New", "Member", "SuperProp", "Call", "Target", "Args", "ArgList", "Primary", "Tpl", "TplSpan", "Array", "ArrElems", "ArrElem", "Elision"];
const STMT_RULES: &[&str] = &["Module", "ModuleItems", "ModuleItem", "Items", "Item", "Decl", "Stmt", "Block", "Catch", "Finally", "CaseBlock", "Cases", "Case", "Default", "VarStmt", "VarList", "VarDecl", "LexDecl", "ConstList", "ConstDecl", "Init"];
const FOR_RULES: &[&str] = &["ForHead", "ForTarget", "ForBind"];
const FN_RULES: &[&str] = &["FnDecl", "FnForm", "FnExpr", "FnBody", "Params", "ParamList", "Rest", "Concise", "Assign", "DefaultFn", "Method", "Unary"];
const CLASS_RULES: &[&str] = &["ClassDecl", "ClassExpr", "ClassTail", "ClassBody", "ClassElem", "Method", "PropName", "Object", "Props", "Prop"];
const TARGET_RULES: &[&str] = &["Target", "AssignPat", "ObjAPat", "APProps", "APProp", "APElem", "APTarget", "ArrAPat", "APElems", "ForTarget", "Assign", "AssignOp", "Update", "Params", "ParamList", "Rest", "BindElem", "SuperProp"];
const PAT_RULES: &[&str] = &["BindPat", "ObjPat", "PropPats", "PropPat", "ArrPat", "PatElems", "BindElem", "Rest", "Init", "AssignPat", "ObjAPat", "APProps", "APProp", "APElem", "APTarget", "ArrAPat", "APElems", "Elision", "VarDecl", "ConstDecl", "Catch"];
const MOD_RULES: &[&str] = &["Module", "ModuleItems", "ModuleItem", "ImportDecl", "ImportClause", "NsImport", "NamedImports", "ImportSpecs", "ImportSpec", "ExportDecl", "ExportClause", "ExportSpecs", "ExportSpec", "LocalClause", "LocalSpecs", "LocalSpec", "DefaultFn"];

const PUNCT_CHARS: &str = "{}()[];,~?:.<>!=+-%*/&|^";
/// A bit of everything a tokenizer treats specially.
const MIX: &[&str] = &["a", "0", "7", ".", "e", "x", "/", "*", "\n", "\r", "\u{2028}", "'", "`", "\\", "$", "{", "}", " ", "\u{a0}", "\u{e9}", "\u{1F600}", "<", "-", "[", "u"];

fn scaled<S: AsRef<str>>(what: &'static str, around: &[(&str, &str)], ns: &[usize], sents: Vec<S>) -> Box<dyn Job> {
    Box::new(Scaled { what, around: around.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), ns: ns.to_vec(), sents: sents.iter().map(|s| s.as_ref().to_string()).collect() })
}
/// Whole statements, and what a statement or an expression can be nested in.
const AFTER: &[(&str, &str)] = &[("a;", ""), ("a\n", ""), ("{a}", ""), ("function*g(){yield a}", ""), ("async function g(){await a}", ""), ("`${a}`;", ""), ("class c{*m(){yield}}", ""), ("for(a in b);", ""), ("a=>{};", ""), ("if(a){}else{}", ""), ("a=/b/;", ""), ("({a}=b);", ""), ("(a,b)=>c;", ""), ("async(a)=>await a;", ""), ("x:for(;;){break x}", ""), ("export{};", ""), ("import'a';", ""), ("switch(a){case b:}", ""), ("try{}catch(a){}", ""), ("a/b/c;", ""), ("do;while(a)", ""), ("({get a(){}});", ""), ("function f(a=b){return}", "")];
const WITHIN: &[(&str, &str)] = &[
    ("{", "}"), ("(", ")"), ("[", "]"), ("`${", "}`"), ("a(", ")"), ("a[", "]"), ("({a:", "})"), ("function a(){", "}"), ("function*a(){", "}"), ("async function a(){", "}"), ("()=>{", "}"), ("async()=>{", "}"), ("({a(){", "}})"), ("({*a(){", "}})"), ("({async a(){", "}})"), ("class a{b(){", "}}"), ("class a{*b(){", "}}"), ("class a{static async b(){", "}}"), ("if(a){", "}"), ("if(a)", ""), ("if(a);else ", ""), ("for(;;){", "}"), ("for(a in b)", ""), ("while(a)", ""), ("do ", "\nwhile(a)"), ("a=>", ""), ("async a=>", ""), ("(a=", ")=>b"), ("async(a=", ")=>b"), ("switch(a){case b:", "}"), ("try{", "}finally{}"), ("try{}catch(a){", "}"), ("[a=", "]=b"), ("({a=", "}=b)"), ("({[", "]:a})"), ("-", ""), ("a=", ""), ("a?b:", ""), ("a?", ":b"), ("new a(", ")"), ("a,", ""), ("a,(", ")"), ("...", ""), ("a:", ""), ("yield ", ""), ("await ", ""), ("class a extends(", "){}"), ("function a(b=(", ")){}"), ("`${a}${", "}`"), ("a`${", "}`"), ("for(a of[", "]);"), ("for(", ";;);"), ("for(var a=", ";;);"), ("for(let a=(", ");;);"),
    ("function*a(){async()=>{", "}}"), ("async function a(){function*b(){", "}}"), ("{(a=>{", "})}"), ("`${{a:", "}}`"), ("`${()=>{", "}}`"), ("function*a(){yield[", "]}"), ("async function a(){await(", ")}"),
];
/// Declarations of up to `n` names and patterns, with and without values.
fn decl_lists(o: &mut Vec<String>, n: usize) {
    let parts = ["a", "a = b", "{ a }", "{ a } = b", "[ a ]", "[ a ] = b", "a = b in c", "a = b => c"];
    for kw in ["var", "let", "const"] {
        let mut l = vec![kw.to_string()];
        for i in 0..n {
            l = l.iter().flat_map(|x| parts.iter().map(move |p| format!("{}{} {}", x, if i > 0 { " ," } else { "" }, p))).collect();
            o.extend(l.iter().cloned());
            o.extend(l.iter().map(|x| format!("{} ,", x)));
        }
    }
}
fn lex(prop: LexProp, hints: Hints, pre: &[&str], chunks: &[String], lo: usize, hi: usize, suf: &[&str]) -> Box<dyn Job> {
    Box::new(Lex { prop, hints, s: Strings { pre: v(pre), chunks: chunks.to_vec(), lo, hi, suf: v(suf) } })
}
fn list(what: &'static str, prop: LexProp, hints: Hints, texts: Vec<String>) -> Box<dyn Job> {
    Box::new(LexList { what, prop, hints, texts })
}
fn all_chars() -> impl Iterator<Item = char> {
    (0..0x110000u32).filter_map(char::from_u32)
}

fn numbers(thorough: bool) -> Vec<String> {
    let mut o = vec![];
    let ints = ["", "0", "1", "9", "10", "12345", "9007199254740993", "123456789012345678901234567890", "00", "01", "08", "4294967296", "255"];
    let fracs = ["", ".", ".0", ".5", ".25", ".000001", ".123456789012345678", ".999999999999999999999"];
    for i in ints {
        for f in fracs {
            o.push(format!("{}{}", i, f));
            for e in ["e", "E", "e+", "e-", "e++1", "e1.5", "e1e1", "e_", "e 1"] {
                o.push(format!("{}{}{}", i, f, e));
            }
            let r = if thorough { 420 } else { 340 };
            for x in -r..=r {
                o.push(format!("{}{}e{}", i, f, x));
                if x >= 0 {
                    o.push(format!("{}{}E+{}", i, f, x));
                }
            }
            for x in ["e00", "e007", "e-00", "e99999", "e-99999", "e2147483647", "e2147483648", "e-2147483649", "e4294967296", "e18446744073709551616", "e-99999999999999999999"] {
                o.push(format!("{}{}{}", i, f, x));
            }
        }
    }
    for (p, digits) in [("0x", "0123456789abcdefABCDEF"), ("0X", "0123456789abcdefABCDEF"), ("0o", "01234567"), ("0O", "01234567"), ("0b", "01"), ("0B", "01")] {
        for n in 1..=70 {
            for d in digits.chars() {
                o.push(format!("{}{}", p, d.to_string().repeat(n)));
                o.push(format!("{}1{}", p, d.to_string().repeat(n)));
            }
        }
        for d in digits.chars() {
            for e in digits.chars() {
                o.push(format!("{}{}{}", p, d, e));
                o.push(format!("{}{}{}{}", p, e, d, d));
            }
        }
        for c in (0..0x250u32).filter_map(char::from_u32) {
            o.push(format!("{}{}", p, c));
            o.push(format!("{}1{}", p, c));
            o.push(format!("{}1{}1", p, c));
        }
    }
    for c in (0..0x250u32).filter_map(char::from_u32) {
        for n in ["0", "1", "1.", ".1", "1e1", "1.5", "1e", "10"] {
            o.push(format!("{}{}", n, c));
            o.push(format!("{}{}1", n, c));
        }
    }
    if thorough {
        for i in 0..100000u32 {
            o.push(format!("{}", i));
            o.push(format!("{}.{}", i / 1000, i % 1000));
            o.push(format!("0x{:x}", i));
            o.push(format!("0o{:o}", i));
            o.push(format!("0b{:b}", i));
        }
    } else {
        for i in 0..2000u32 {
            o.push(format!("{}", i));
            o.push(format!("0x{:X}", i));
            o.push(format!("0o{:o}", i));
            o.push(format!("0b{:b}", i));
        }
    }
    o
}

/// Escape sequences of all kinds, put between the given delimiters.
fn escapes(open: &str, close: &str, thorough: bool) -> Vec<String> {
    let mut o = vec![];
    let mut p = |s: String| o.push(format!("{}{}{}", open, s, close));
    for i in 0..256u32 {
        p(format!("\\x{:02x}", i));
        p(format!("\\x{:02X}", i));
        p(format!("a\\x{:02x}b", i));
    }
    for i in (0..0x10000u32) {
        p(format!("\\u{:04x}", i));
        p(format!("\\u{{{:X}}}", i));
    }
    for hi in [0xd800u32, 0xd83d, 0xdbff] {
        for lo in [0xdc00u32, 0xde00, 0xdfff] {
            p(format!("\\u{:04x}\\u{:04x}", hi, lo));
            p(format!("\\u{:04x}\\u{:04x}", lo, hi));
            p(format!("\\u{:04x}a\\u{:04x}", hi, lo));
        }
    }
    for x in ["0", "00", "41", "041", "0000041", "1F600", "10FFFF", "10ffff", "110000", "FFFFFFFF", "100000000", "FFFFFFFFFFFFFFFFF", "000000000000000000000041", "", " 41", "4 1", "g", "4g", "-1", "_"] {
        p(format!("\\u{{{}}}", x));
        p(format!("a\\u{{{}}}b", x));
        p(format!("\\u{{{}", x));
        p(format!("\\u{}", x));
        p(format!("\\x{}", x));
    }
    // every character in place of, before and after every digit
    for c in all_chars().filter(|c| (*c as u32) < 0x180 || (*c as u32) >= 0xff10 && (*c as u32) < 0xff47 || "\u{660}\u{966}\u{2028}\u{1D7CE}".contains(*c)) {
        for d in ["\\x41", "\\u0041", "\\u{41}", "\\u{000041}", "\\u{1F600}"] {
            for i in 1..d.len() {
                p(format!("{}{}{}", &d[..i], c, &d[i + 1..]));
                p(format!("{}{}{}", &d[..i], c, &d[i..]));
            }
        }
    }
    for c in all_chars().filter(|c| (*c as u32) < 0x3100 || *c as u32 > 0x1F5F0 && (*c as u32) < 0x1F610 || *c as u32 == 0xfeff) {
        p(format!("\\{}", c));
        p(format!("\\{}1", c));
        p(format!("{}", c));
        p(format!("\\\\{}", c));
    }
    for d in 0..=9 {
        for e in "0178a9\\'".chars() {
            p(format!("\\{}{}", d, e));
            p(format!("\\x{}{}", d, e));
            p(format!("\\x{}{}", e, d));
            p(format!("\\u00{}{}", d, e));
            p(format!("\\u{}00{}", e, d));
            p(format!("\\u{}0{}0", d, e));
        }
    }
    o
}
fn pumps(parts: &[(&str, &str, &str)], ns: &[usize]) -> Vec<String> {
    let mut o = vec![];
    for (a, b, c) in parts {
        for &n in ns {
            o.push(format!("{}{}{}", a, b.repeat(n), c));
        }
    }
    o
}

const LEX_PROGRAMS: &[&str] = &[
    "a = /[/]\\//gi; // c\r\nb = `x${ a }y\r\nz${ {} }` /* \u{2028} */ + 'q\\\r\nr';",
    "var \u{e9}\u{4e2d}\u{1D400} = 0x1F + .5e-3 >>>= 1; \u{feff}\u{3000}\t",
    "a\r\nb\rc\nd\u{2028}e\u{2029}f /*\r\n*/ g /*\r*/ h //\u{2029}i",
    "'a\\\nb' \"c\\\rd\" 'e\\\u{2028}f' 'g\\\r\nh' x",
    "`a\r\nb\rc\nd\u{2028}e` x `f${1}\r\n${2}\r${3}\n` y",
    "'\u{1F600}' \u{1D400} `\u{1F600}${'\u{e9}'}\u{1F600}` /\u{1F600}/ \u{a0}\u{2003}x /*\u{1F600}*/ y //\u{e9}\nz",
];

/// Lengths around the sizes of machine integers and buffers.
const LONG: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000];

fn lex_jobs(id: &str, t: bool) -> Option<Jobs> {
    use LexProp::*;
    let mut j: Jobs = vec![];
    let mix = v(MIX);
    let every_char = |p: &mut Jobs, prop: LexProp| {
        let mut o = vec![];
        for c in all_chars() {
            for (a, b) in [("", ""), ("a", "b"), ("1 ", "+"), ("/*", "*/x"), ("//", "\nx"), ("'", "'x"), ("`", "`x"), ("/", "/x"), ("", "\nx")] {
                o.push(format!("{}{}{}", a, c, b));
            }
        }
        p.push(list("every Unicode character in nine contexts", prop, Hints::Rel, o));
    };
    let progs = |prop: LexProp| {
        let mut o: Vec<String> = vec![];
        for p in LEX_PROGRAMS {
            for (i, _) in p.char_indices() {
                o.push(p[i..].to_string());
                o.push(p[..i].to_string());
            }
            o.push(p.to_string());
        }
        list("all prefixes and suffixes of mixed programs", prop, Hints::Const(0), o)
    };
    match id {
        "C01" | "C02" | "C03" | "C11" => {
            let prop = match id {
                "C01" => Progress,
                "C02" => Tiling,
                "C03" => Pos,
                _ => Local,
            };
            j.push(lex(prop, Hints::Full(if prop == Local { 8 } else { 4 }), &[""], &mix, 0, 3, &[""]));
            j.push(lex(prop, Hints::Rel, &[""], &mix, 4, if t && prop != Local { 6 } else if t { 5 } else { 4 }, &[""]));
            j.push(progs(prop));
            every_char(&mut j, prop);
            if prop == Pos {
                let nl = v(&["\n", "\r", "\u{2028}", "\u{2029}", "a", "\u{e9}", "\u{1F600}", " "]);
                for (a, b) in [("", "x"), ("/*", "*/x"), ("`", "`x"), ("`${", "}`x"), ("'\\", "'x"), ("//", "\nx"), ("/* *", "*/ y"), ("a `", "${b}`c")] {
                    j.push(lex(prop, Hints::Rel, &[a], &nl, 0, if t { 6 } else { 5 }, &[b]));
                }
                let cont = v(&["\\\n", "\\\r", "\\\r\n", "\\\u{2028}", "\\\u{2029}", "\u{2028}", "\u{2029}", "a", "\u{1F600}", "\\n"]);
                j.push(lex(prop, Hints::Rel, &["'", "\"", "`"], &cont, 0, if t { 5 } else { 4 }, &["'x", "\"x", "`x"]));
            }
            if prop == Local || prop == Tiling || prop == Progress {
                let ex = v(&["/", "*", "}", "`", "${", "a", "1", "'", "\n", "=", "[", " ", "."]);
                j.push(lex(prop, Hints::Full(4), &[""], &ex, 0, if t && prop != Local { 4 } else { 3 }, &["", "/", "}`"]));
                j.push(lex(prop, Hints::Rel, &[""], &ex, 4, if t { 5 } else { 4 }, &["", "/", "}`"]));
            }
            if prop == Local {
                j.push(lex(prop, Hints::Rel, &["'\\\n' ", "'\\\u{2028}a' ", "`\\` `", "/[/]/ ", "`a${", "0x1 ", "/**/", "//\n", "'\\x41'", "1e5 ", "a "], &mix, 1, if t { 4 } else { 3 }, &["", " 'a'", "\n'"]));
            }
            {
                // every token next to every token, and between two
                let inv: Vec<&str> = RESERVED.iter().chain(NAMES).chain(PUNCT).cloned().collect();
                let lits = ["1", "1.", ".5", "0x1", "1e5", "'s'", "\"s\"", "''", "'\\\n'", "/r/g", "/[/]/", "`t`", "`h${", "}m${", "}t`", "``", "//c\n", "//c", "/**/", "/*\n*/", " ", "\n", "\r\n", "\r", "\u{2028}", "\u{feff}", "\u{e9}", "$", "_", "#", "@", "\\", "<!--", "-->", "#!", "\\u0061", "\u{1F600}", "\u{0}", "0"];
                let all: Vec<&str> = inv.iter().chain(lits.iter()).cloned().collect();
                let mut o = vec![];
                for a in &all {
                    for b in &all {
                        for s in ["", " ", "\n"] {
                            o.push(format!("{}{}{}", a, s, b));
                        }
                    }
                }
                j.push(list("every token next to every token", prop, Hints::Full(3), o));
                let mut o = vec![];
                for a in &all {
                    o.push(format!("\n{} x", a));
                    let n = if a.contains('/') || a.contains('}') { 5 } else { 17 };
                    for r in 2..=n {
                        o.push(a.repeat(r));
                    }
                }
                j.push(list("every token repeated", prop, Hints::Rel, o));
                let ps: Vec<String> = PUNCT.iter().chain(lits.iter()).map(|s| s.to_string()).collect();
                j.push(lex(prop, Hints::Rel, &[""], &ps, 3, 3, if t { &["", " x", "\nx"] } else { &["", " x"] }));
                if t {
                    let two: Vec<String> = lits.iter().map(|s| s.to_string()).collect();
                    j.push(lex(prop, Hints::Rel, &[""], &two, 4, 4, &["", "x"]));
                }
                j.push(lex(prop, Hints::Rel, &["", "a"], &v(&["-", ">", "<", "!", "\n", " ", "*", "/", "#", "a", "=", "\r"]), 3, if t { 6 } else { 5 }, &["", "a"]));
            }
            if prop != Local {
                let long = pumps(
                    &[("'", "a", "'"), ("'", "a", ""), ("'", "\\\n", "'"), ("`", "\\`", "`"), ("`", "\u{1F600}", "` x"), ("`", "\r\n", "${ x"), ("/*", "*", "*/"), ("/*", "*", ""), ("/*", "\n", "*/ x"), ("/*", "\u{e9}", "*/ x"), ("/", "[/]", "/"), ("", "a", ""), ("", "1", ""), ("", "(", ""), ("", "\u{a0}", ""), ("", " ", "x"), ("", "\n", "x"), ("", "\r\n", "x"), ("", "\n", ""), ("//", "/", ""), ("//", "/", "\nx"), ("//", "\u{1F600}", "\nx"), ("", "}", ""), ("", "\u{e9}", ""), ("", "a ", ""), ("", "'a' ", "")],
                    LONG,
                );
                for h in 0..4 {
                    j.push(list("long tokens", prop, Hints::Const(h), long.clone()));
                }
            }
        }
        "C04" => {
            let mut c = chars(PUNCT_CHARS);
            j.push(lex(Punct, Hints::Rel, &[""], &c, 0, if t { 6 } else { 5 }, &[""]));
            c.extend(v(&[" ", "\n", "1", "a"]));
            j.push(lex(Punct, Hints::Rel, &[""], &c, 0, 4, &["", "a", "=", ">"]));
            let all = v(&["{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", ">", ">=", ">>", ">>=", ">>>", ">>>=", "!", "!=", "!==", "=", "=>", "==", "===", "+", "+=", "++", "-", "-=", "--", "%", "%=", "*", "*=", "**", "**=", "/=", "&", "&&", "&=", "|", "||", "|=", "^", "^=", " "]);
            j.push(lex(Punct, Hints::Rel, &[""], &all, 1, if t { 4 } else { 3 }, &["", "x"]));
            let ops = chars("<>=!-+.*&|");
            j.push(lex(Punct, Hints::Rel, &[""], &ops, 6, if t { 7 } else { 6 }, &[""]));
        }
        "C05" => {
            let c = chars("01789.eExXoObBafFg_+-$n\u{e9}");
            j.push(lex(Num, Hints::Rel, &[""], &c, 1, 4, &["", " "]));
            j.push(lex(Num, Hints::Rel, &["0", "1", ".", "0x", "0o", "0b", "1e"], &c, 4, if t { 5 } else { 4 }, &[""]));
            j.push(lex(Num, Hints::Rel, &[""], &chars("019.eE+-x"), 5, if t { 8 } else { 6 }, &[""]));
            j.push(list("structured numeric literals", Num, Hints::Rel, numbers(t)));
            let mut o = pumps(&[("", "1", ""), ("", "9", ""), ("1", "0", ""), ("1", "0", "."), ("0.", "0", "1"), (".", "0", "1"), ("0.", "9", ""), ("1.", "3", ""), ("1.", "0", "e1"), ("0x", "f", ""), ("0x", "0", "1"), ("0b", "1", ""), ("0b", "0", "1"), ("0o", "7", ""), ("0O", "0", "7"), ("1e", "0", "1"), ("1e-", "0", "1"), ("1e", "9", ""), ("1e-", "9", ""), ("0e", "9", ""), ("0.", "0", ""), ("1", "0", "x"), ("0x", "1", "g"), ("0b", "1", "2"), ("1e+", "0", "1a")], LONG);
            for n in LONG.iter().filter(|n| **n <= 4097) {
                // far exponents brought back by as many digits
                o.push(format!("0.{}1e{}", "0".repeat(*n), n));
                o.push(format!(".{}1e+{}", "0".repeat(*n), n + 1));
                o.push(format!("1{}e-{}", "0".repeat(*n), n));
                o.push(format!("1{}.5e-{}", "0".repeat(*n), n + 300));
            }
            j.push(list("long numeric literals", Num, Hints::Const(0), o));
            let n = numbers(false).into_iter().filter(|s| s.len() < 8).flat_map(|s| vec![format!("{}+{}", s, s), format!("a={};", s), format!("({}).x", s), format!("{}..x", s), format!("-{}\n", s), format!("{}/2", s)]).collect();
            j.push(list("numeric literals in context", Num, Hints::Rel, n));
        }
        "C06" => {
            let c = chars("'\"\\nxu0189{}a41\u{e9}\u{1F600}\n\r\u{2028} ");
            j.push(lex(Str, Hints::Rel, &["'", "\""], &c, 0, if t { 5 } else { 4 }, &["", "'", "\""]));
            j.push(lex(Str, Hints::Rel, &["'\\x", "'\\u", "'\\u{", "'\\", "'\\0", "'\\\r"], &c, 0, if t { 5 } else { 4 }, &["", "'", "}'"]));
            j.push(lex(Str, Hints::Rel, &["'", "\""], &chars("'\"\\\n\r\u{2028}a"), 5, if t { 8 } else { 6 }, &["", "'"]));
            let mut o = escapes("'", "'", t);
            o.extend(escapes("\"", "\"", false));
            o.extend(escapes("'x\\\n", "y' 'z'", false));
            j.push(list("every escape sequence", Str, Hints::Rel, o));
            let mut o = vec![];
            for c in all_chars() {
                o.push(format!("'{}'", c));
                o.push(format!("\"a{}\\n\" 'b'", c));
            }
            j.push(list("every Unicode character in a string", Str, Hints::Rel, o));
            j.push(list("long strings", Str, Hints::Const(0), pumps(&[("'", "a", "'"), ("'", "\\n", "'"), ("'", "\\'", "'"), ("\"", "\u{1F600}", "\""), ("'", "\\\n", "'"), ("'", "\\x41", "'"), ("'", "a", "")], LONG)));
        }
        "C07" => {
            let c = chars("`${}\\nxu0189a41\u{e9}\u{1F600}\n\r\u{2028}");
            j.push(lex(Templ, Hints::Const(2), &["`", "}"], &c, 0, if t { 5 } else { 4 }, &["", "`", "${"]));
            j.push(lex(Templ, Hints::Rel, &["`"], &c, 0, if t { 5 } else { 4 }, &["`", ""]));
            j.push(lex(Templ, Hints::Const(2), &["`\\x", "}\\u", "`\\u{", "`\\", "}\\0", "`\\\r"], &c, 0, if t { 5 } else { 4 }, &["", "`", "}`"]));
            j.push(lex(Templ, Hints::Const(2), &["`", "}"], &chars("`${}\\\n\ra"), 5, if t { 7 } else { 6 }, &["", "`"]));
            let mut o = escapes("`", "`", t);
            o.extend(escapes("}", "${", false));
            o.extend(escapes("`a\\\r\n", "${x", false));
            j.push(list("every escape sequence", Templ, Hints::Const(2), o));
            let mut o = vec![];
            for c in all_chars() {
                o.push(format!("`{}`", c));
                o.push(format!("}}a{}${{", c));
            }
            j.push(list("every Unicode character in a template", Templ, Hints::Const(2), o));
            j.push(list("long templates", Templ, Hints::Const(2), pumps(&[("`", "a", "`"), ("`", "$", "`"), ("`", "$", "${"), ("}", "\r\n", "`"), ("`", "\\`", "`"), ("`", "{", "`"), ("`", "\u{1F600}", "`"), ("`", "a", "")], LONG)));
        }
        "C08" => {
            let c = chars("/\\[]*agZ0$_\u{e9}\n\r\u{2028}=(");
            j.push(lex(Regex, Hints::Rel, &["/"], &c, 0, if t { 6 } else { 5 }, &[""]));
            j.push(lex(Regex, Hints::Const(1), &["/a", "/[", "/\\", "/[\\", "/="], &c, 0, if t { 5 } else { 4 }, &["/", "]/g", ""]));
            j.push(lex(Regex, Hints::Full(2), &["a ", "1", ""], &chars("/\\[]a*\n ="), 0, if t { 6 } else { 5 }, &["", "/"]));
            let mut o = vec![];
            for c in all_chars() {
                for (a, b) in [("/", "/"), ("/a", "/g"), ("/[", "]/"), ("/\\", "/"), ("/a/", ""), ("/a/g", "i"), ("/[\\", "]/ x"), ("/", "")] {
                    o.push(format!("{}{}{}", a, c, b));
                }
            }
            j.push(list("every Unicode character in and after a regular expression", Regex, Hints::Rel, o));
            j.push(list("long regular expressions", Regex, Hints::Const(1), pumps(&[("/", "a", "/"), ("/", "[/]", "/g"), ("/", "\\/", "/"), ("/a/", "g", ""), ("/[", "/", "]/"), ("/", "[", "/"), ("/", "\u{1F600}", "/")], LONG)));
        }
        "C09" => {
            let c = v(&[" ", "\t", "\u{b}", "\u{a0}", "\u{feff}", "\u{3000}", "\n", "\r", "\u{2028}", "\u{2029}", "/", "*", "a", "\u{e9}", "-", "<"]);
            j.push(lex(Trivia, Hints::Rel, &[""], &c, 0, if t { 6 } else { 5 }, &[""]));
            j.push(lex(Trivia, Hints::Rel, &["/*", "//"], &v(&["*", "/", "\n", "\r", "\u{2028}", "a", "\u{e9}", " ", "\\"]), 0, if t { 6 } else { 5 }, &["", "*/", "\nx", "*/x"]));
            let mut o = vec![];
            for c in all_chars() {
                for (a, b) in [("", ""), ("", "a"), ("a", "a"), ("+", "+"), (" ", " 1"), ("/*", "*/"), ("/**", "*/a"), ("//", ""), ("//a", "a\n"), ("//", "\r\nx"), ("\n", "\n"), ("'x'", "'y'")] {
                    o.push(format!("{}{}{}", a, c, b));
                }
            }
            j.push(list("every Unicode character between tokens and in comments", Trivia, Hints::Rel, o));
            let ws: Vec<String> = all_chars().filter(|&c| crate::lexref::is_ws(c) || crate::lexref::is_lt(c)).map(|c| c.to_string()).collect();
            j.push(lex(Trivia, Hints::Rel, &["", "a"], &ws, 1, if t { 4 } else { 3 }, &["", "a"]));
            j.push(list("long comments", Trivia, Hints::Const(0), pumps(&[("/*", "*", "*/"), ("/*", "a", "*/"), ("//", "a", "\n"), ("//", "/", ""), ("/*", "/", "*/"), ("", " ", "a"), ("/*", "\r\n", "*/"), ("", "/**/", "a"), ("", "\u{a0}", "")], LONG)));
        }
        "C10" => {
            let c = chars("aZ09$_\u{e9}\u{aa}\u{4e2d}\u{1D400}\u{200d}\u{200c}\u{301}- .@#\u{203f}");
            j.push(lex(Ident, Hints::Rel, &[""], &c, 0, if t { 6 } else { 5 }, &[""]));
            let mut o = vec![];
            for c in all_chars() {
                for (a, b) in [("", ""), ("", "a"), ("a", ""), ("a", "1"), ("$", "_"), (" ", " "), ("+", ";"), ("\u{4e2d}", "\u{e9}")] {
                    o.push(format!("{}{}{}", a, c, b));
                }
            }
            j.push(list("every Unicode character in and around names", Ident, Hints::Rel, o));
            let mut o = vec![];
            for a in all_chars().filter(|c| (*c as u32) < 0x250) {
                for b in all_chars().filter(|c| (*c as u32) < 0x250) {
                    o.push(format!("{}{}", a, b));
                }
            }
            j.push(list("every pair of characters below U+0250", Ident, Hints::Rel, o));
            j.push(list("long names", Ident, Hints::Const(0), pumps(&[("", "a", ""), ("", "\u{e9}", "+"), ("$", "_", " "), ("a", "1", ""), ("", "\u{1D400}", "")], LONG)));
        }
        _ => return None,
    }
    Some(j)
}

/// Statements that end without their semicolon, for the left side of insertion.
const ASI_LEFT: &[&str] = &[
    "a", "a + b", "a = b", "a ++", "a --", "a . b", "a ( )", "a [ b ]", "NUM", "STR", "RE", "NOSUB", "HEAD a TAIL", "this", "null", "( a )", "[ a ]", "new a", "typeof a", "! a", "a ? b : c", "a , b", "a => b", "a => { }", "( ) => a", "async a => b", "async", "async ( )", "of", "get", "let a", "let a = b", "var a", "var a = b", "var a , b", "const a = b", "var { a } = b", "throw a", "debugger", "import a from STR", "import STR", "import { a } from STR", "export * from STR", "export { a }", "export { a } from STR", "export default a", "export var a", "export let a = b", "export const a = b", "do ; while ( a )", "do { } while ( a )", "if ( a ) b", "while ( a ) b", "for ( ; ; ) a", "a : b", "if ( a ) b ; else c", "a = function ( ) { }", "a = class { }", "a = { }", "a = ( ) => { }", "{ }", "function a ( ) { }", "class a { }", "if ( a )", "else", "for ( ; ; )", "while ( a )", "a =", "a +", "!", "a ,", "a ?", "a ? b :", "a .", "new", "var", "let", "var a =", "throw", "import", "export", "export default", "a =>", "async function", "function", "class", "do", "switch ( a ) { case b :", "super . a", "++", "--", "delete a", "a ** b", "a in b", "export default function ( ) { }", "export default class { }", "export default ( ) => { }",
];
const ASI_RIGHT: &[&str] = &[
    "a", "b = c", "++ a", "-- a", "++", "+ a", "- a", "* a", "/ a", "/ a / b", "/ a /", "RE", "RE . a", "( a )", "( a ) . b", "[ a ]", "NOSUB", "HEAD a TAIL", ". a", ", a", "= a", "? a : b", "=> a", "in a", "instanceof a", "of", "STR", "NUM", "{ }", "{ a }", "}", ";", "; a", "if ( a ) b", "else a", "while ( a ) ;", "function b ( ) { }", "async function b ( ) { }", "class b { }", "var b", "let b", "const b = c", "return", "this", "! a", "~ a", "typeof a", "new a", "import STR", "export { }", "break", "throw a", "as b", "from STR", "async", "get", "case c :", "default :", "do ; while ( a )", "super . a", "...", ":", ")", "]", "TAIL", "=> { }", "&& a", "** a", "< a", "yield", "await a",
];
const ASI_CTX: &[&str] = &["@", "{ @ }", "function d ( ) { @ }", "( ) => { @ }", "HEAD function ( ) { @ } TAIL", "if ( d ) { @ } else { }", "switch ( d ) { default : @ }", "class d { e ( ) { @ } }", "try { @ } finally { }", "d = { e ( ) { @ } }"];
const ASI_JUMP: &[&str] = &["return", "return a", "break", "break a", "continue", "continue a", "throw", "throw a", "yield", "yield a", "yield *", "await", "await a"];
const ASI_JUMP_CTX: &[&str] = &["function d ( ) { @ }", "function d ( ) { { @ } }", "function * d ( ) { @ }", "async function d ( ) { @ }", "a : for ( ; ; ) { @ }", "function d ( ) { for ( ; ; ) { @ } }", "function d ( ) { if ( e ) @ }", "( { * d ( ) { @ } } )", "async ( ) => { @ }", "switch ( d ) { case e : @ }", "@"];

const NAME_POS: &[&str] = &[
    "@ ;", "@", "var @ ;", "var a , @ ;", "var @ = a ;", "let @ ;", "let @ = a ;", "const @ = a ;", "const a = b , @ = c ;", "var { @ } = a ;", "var { @ = b } = a ;", "var { a : @ } = b ;", "var { a : @ = b } = c ;", "var { @ : a } = b ;", "var [ @ ] = a ;", "var [ ... @ ] = a ;", "var [ a , @ = b ] = c ;", "let { @ } = a ;", "const [ @ ] = a ;", "for ( var @ of a ) ;", "for ( let @ in a ) ;", "for ( const @ of a ) ;", "for ( let @ ; ; ) ;", "for ( @ of a ) ;", "for ( @ in a ) ;", "for ( @ ; ; ) ;",
    "function @ ( ) { }", "function * @ ( ) { }", "async function @ ( ) { }", "( function @ ( ) { } ) ;", "( function * @ ( ) { } ) ;", "( async function @ ( ) { } ) ;", "class @ { }", "( class @ { } ) ;", "class @ extends a { }", "class a extends @ { }", "function a ( @ ) { }", "function a ( b , @ ) { }", "function a ( @ = b ) { }", "function a ( ... @ ) { }", "function a ( { @ } ) { }", "function a ( [ @ ] ) { }", "( @ ) => a", "@ => a", "async @ => a", "async ( @ ) => a", "( a , @ ) => b", "( ... @ ) => b", "( { @ } ) => b", "( [ @ ] ) => b", "( @ = a ) => b", "try { } catch ( @ ) { }", "try { } catch ( { @ } ) { }",
    "@ : ;", "@ : a ;", "@ : for ( ; ; ) break @ ;", "a : for ( ; ; ) { continue @ ; }", "for ( ; ; ) break @ ;", "import @ from STR ;", "import * as @ from STR ;", "import { @ } from STR ;", "import { a as @ } from STR ;", "import { @ as a } from STR ;", "import { @ as @ } from STR ;", "import a , { @ } from STR ;", "import a , * as @ from STR ;", "export { @ } ;", "export { @ as a } ;", "export { a as @ } ;", "export { @ } from STR ;", "export { @ as @ } from STR ;", "export { @ as a } from STR ;", "export default @ ;", "export var @ ;", "export let @ ;", "export const @ = a ;", "export function @ ( ) { }", "export class @ { }", "export default function @ ( ) { }", "export default class @ { }", "export default async function @ ( ) { }", "export function * @ ( ) { }",
    "a . @ ;", "a . @ ( ) ;", "a . @ = b ;", "a . @ . @ ;", "a ( ) . @ ;", "new a . @ ;", "this . @ / a ;", "a . @ NOSUB ;", "super . @ ;", "( { @ : a } ) ;", "( { @ ( ) { } } ) ;", "( { @ } ) ;", "( { a , @ } ) ;", "( { @ , } ) ;", "( { get @ ( ) { } } ) ;", "( { set @ ( a ) { } } ) ;", "( { async @ ( ) { } } ) ;", "( { * @ ( ) { } } ) ;", "( { @ = a } = b ) ;", "( { @ } = b ) ;", "( { @ : a } = b ) ;", "( { a : @ } = b ) ;", "[ @ ] = a ;", "class a { @ ( ) { } }", "class a { static @ ( ) { } }", "class a { get @ ( ) { } }", "class a { set @ ( a ) { } }", "class a { * @ ( ) { } }", "class a { async @ ( ) { } }", "class a { static get @ ( ) { } }", "class a { static async @ ( ) { } }", "class a { static * @ ( ) { } }",
    "@ = a ;", "a = @ ;", "@ + a ;", "a + @ ;", "a ( @ ) ;", "@ ( ) ;", "@ ( a ) ;", "@ [ a ] ;", "@ . a ;", "@ ++ ;", "++ @ ;", "[ @ ] ;", "( @ ) ;", "HEAD @ TAIL ;", "new @ ;", "new @ ( ) ;", "a ? @ : b ;", "typeof @ ;", "( { a : @ } ) ;", "( { ... @ } ) ;", "( { [ @ ] : a } ) ;", "a => @", "@ NOSUB ;", "@ / a ;", "if ( @ ) ;", "throw @ ;", "switch ( @ ) { case @ : }", "new . @ ;", "function a ( ) { new . @ ; }", "function a ( ) { @ ; }", "function a ( ) { var @ ; }", "function * a ( ) { @ ; }", "function * a ( ) { var @ ; }", "function * a ( ) { @ : ; }", "async function a ( ) { @ ; }", "async function a ( ) { var @ ; }", "async function a ( ) { @ : ; }", "async ( ) => { var @ ; }", "function * a ( ) { function @ ( ) { } }", "async function a ( ) { function @ ( ) { } }", "function * a ( ) { class @ { } }", "( { * a ( @ ) { } } ) ;", "( { async a ( @ ) { } } ) ;", "function * a ( ) { ( @ ) => b }", "async function a ( ) { @ => b }", "async function a ( ) { ( { @ } ) ; }", "function * a ( ) { a . @ ; ( { @ : a } ) ; }",
    "@ a ;", "a @ ;", "@ a => b ;", "@ ( a ) => b ;", "@ function a ( ) { }", "{ @ }", "@ NL a ;", "a NL @ ;", "a @ b ;", "for ( a @ b ) ;", "import a @ STR ;", "import * @ a from STR ;", "import { a @ b } from STR ;", "export { a @ b } ;", "export * @ STR ;", "export @ a ;", "@ a ( ) { }", "( { @ a ( ) { } } ) ;", "( { @ a ( b ) { } } ) ;", "class a { @ b ( ) { } }", "class a { @ b ( c ) { } }", "try { } @ ( a ) { }", "try { } @ { }", "if ( a ) ; @ ;", "do ; @ ( a ) ;", "switch ( a ) { @ b : }", "switch ( a ) { @ : }", "class a @ b { }", "@ ( a ) { }", "@ ( ; ; ) ;", "@ a = b ;", "@ { } finally { }",
];
fn words(k: &Kinds) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let mut add = |s: String| {
        if !s.is_empty() && !o.contains(&s) {
            o.push(s)
        }
    };
    let extra = ["eval", "arguments", "NaN", "Infinity", "abstract", "boolean", "byte", "char", "double", "final", "float", "goto", "int", "long", "native", "short", "synchronized", "throws", "transient", "volatile", "using", "type", "declare", "require", "module", "exports", "print", "global", "window", "self", "in_", "$", "_", "x1", "\u{e9}", "prototype", "then", "each", "accessor", "assert", "defer", "source"];
    for w in RESERVED.iter().chain(NAMES).chain(extra.iter()) {
        add(w.to_string());
    }
    for w in RESERVED.iter().chain(&["async", "of", "get", "set", "from", "as", "target"]) {
        add(w[..w.len() - 1].to_string());
        add(format!("{}s", w));
        add(format!("{}1", w));
        add(format!("{}$", w));
        add(format!("_{}", w));
        add(format!("{}{}", w[..1].to_uppercase(), &w[1..]));
        add(w.to_uppercase());
        add(format!("{}\u{e9}", w));
        add(w[1..].to_string());
    }
    let _ = k;
    o.retain(|w| !(w.as_bytes()[0] as char).is_ascii_digit());
    o
}
fn put(k: &Kinds, t: &str, w: &str, w2: &str) -> String {
    let mut o = String::new();
    let mut nl = false;
    for x in t.split_whitespace() {
        if x == "NL" {
            nl = true;
            continue;
        }
        if nl {
            o.push('\n');
        } else if !o.is_empty() {
            o.push(' ');
        }
        nl = false;
        match x {
            "@" => o.push_str(w),
            "#" => o.push_str(w2),
            x => o.push_str(k.text[k.find(x).unwrap() as usize]),
        }
    }
    o
}

pub fn jobs(id: &str, cx: &mut Ctx) -> Option<Jobs> {
    let t = cx.thorough;
    if let Some(j) = lex_jobs(id, t) {
        return Some(j);
    }
    let k = cx.k;
    let d = if t { 2 } else { 1 };
    let every = all_toks(k, true);
    let flat_every = all_toks(k, false);
    let mut j: Jobs = vec![];
    match id {
        "C12" => {
            let sl = toks(k, "/ /= RE", true);
            j.push(cx.pda(2, "every configuration", &[], sl.clone()));
            let seqs = cx.seqs(&["RE", "NL RE", "/ a", "NL / a", "/= a", "RE . b", "RE / a", "/ RE", "/ a / b", "RE ;", "NL RE ;", "; RE ;", "; NL RE", "a / b", "a RE", "NL a / b", "NL RE . b ( )", ", RE", "+ RE", "= RE", "( RE )", "[ RE ]", "{ } RE", ") RE", ") / a", "] / a", "} RE", "} / a", ": RE", "=> RE", "TAIL / a", "HEAD RE TAIL"]);
            let s = cx.all_sentences();
            let s = cx.valid(s);
            j.push(Box::new(Gaps { what: "slashes after every prefix", sents: s.clone(), seqs }));
            cx.pump(&mut j, "slashes", s.iter().filter(|x| x.iter().any(|t| ["/", "/=", "RE"].contains(&k.text[t.k as usize]))).cloned().collect());
            let mut o = cx.nest("", &[&["@ / b", "@ / b / c", "RE . @", "{ @ } / a", "( @ ) / a", "( @ ) RE", "[ @ ] / a", "HEAD @ TAIL / a", "{ @ } RE", "a ( @ ) / b", "function a ( ) { @ } RE", "b = function ( ) { @ } / c", "if ( @ ) RE", "{ a : @ / b }", "a ++ / @"], &["a", "{ }", "RE", "a / b", "( a )", "HEAD { } TAIL", ""]], &[]).expand();
            o = cx.valid(o);
            cx.pump(&mut j, "slashes in brackets", o);
            j.push(Box::new(cx.nest("expression contexts in statements", &[STMT_EXPR, EXPR_CTX, &["RE", "RE . a", "RE / a", "a / RE", "a / b / c", "- RE", "RE , RE", "a ( RE ) / b", "[ RE ] / a", "{ } / a", "function ( ) { } / a", "a => { } / b", "a ++ / b", "this / a", "( a ) RE"]], &[])));
            if t {
                j.push(Box::new(cx.nest("nested expression contexts", &[EXPR_CTX, EXPR_CTX, EXPR_CTX, &["RE", "a / b", "a ( ) / RE"]], &[])));
                let p = cx.programs(1, &[]);
                let seqs = cx.seqs(&["RE", "NL RE", "/ a", "RE / a", "; RE ;", "} RE", ") / a", ") RE"]);
                j.push(Box::new(Gaps { what: "slashes in the shortest program of every configuration", sents: p, seqs }));
            }
            j.push(Box::new(Dfs { what: "short programs with slashes", pre: vec![], suf: vec![], toks: toks(k, "a / RE ( ) { } ; = ++ function class return typeof if", true), depth: if t { 5 } else { 4 } }));
            j.push(Box::new(Dfs { what: "slashes in a generator", pre: k.seq("function * a ( ) {"), suf: k.seq("}"), toks: toks(k, "a / RE yield return } ) ( => ; async of in", true), depth: if t { 5 } else { 4 } }));
        }
        "C13" => {
            j.push(cx.pda(2, "every configuration", &[], toks(k, "} MID TAIL", true)));
            // statement and expression constructs inside of substitutions
            let inner = &["{ }", "{ a }", "{ a : { } }", "{ a ( ) { } }", "{ get a ( ) { } }", "{ [ { } ] : { } }", "function ( ) { }", "function ( ) { { } }", "function ( { a } ) { }", "function ( a = { } ) { }", "function ( ) { switch ( a ) { case { } : { } } }", "function ( ) { class a { } }", "function ( ) { var { a } = { } ; }", "function ( ) { if ( a ) { } else { } }", "function ( ) { try { } catch ( { a } ) { } finally { } }", "function ( ) { for ( { } ; ; ) { } }", "function ( ) { do { } while ( { } ) }", "function ( ) { a : { } }", "function ( ) { function b ( ) { } }", "class { }", "class { a ( ) { } }", "class extends { } { }", "class { static a ( ) { { } } }", "class { [ { } ] ( ) { } }", "( ) => { }", "a => { { } }", "( { a } ) => { }", "( { a } ) => ( { } )", "async ( ) => { }", "async function ( ) { await { } }", "function * ( ) { yield { } }", "{ a } = { }", "[ { } ]", "( { } )", "a ( { } )", "a [ { } ]", "a ? { } : { }", "a , { }", "a = { }", "new class { }", "new a ( { } )", "{ ... { } }", "[ ... { } ]", "a", "a + b", "HEAD a TAIL", "HEAD { } TAIL", "HEAD a MID { } TAIL", "NOSUB", "{ a : HEAD { } TAIL }", "function ( ) { HEAD { } TAIL }", "a HEAD { } TAIL", "( { a = { } } = { } )", "( { a = { } } ) => { }", "function ( ) { return { } }", "function ( ) { return }", "function ( ) { yield }", "HEAD HEAD { } TAIL TAIL", "", "a }", "{", "}", "{ } }", "a ;", "{ a ; }", "MID", "HEAD", "HEAD a", "{ TAIL"];
            let hole = &["( { a : @ } )", "( { a ( ) { @ } } )", "function ( ) { @ }", "function ( ) { { @ } }", "class { a ( ) { @ } }", "class { [ @ ] ( ) { } }", "class extends @ { }", "a => { @ }", "a => @", "( a = @ ) => b", "{ a : @ }", "{ [ @ ] : a }", "[ @ ]", "( @ )", "a ( @ )", "HEAD @ TAIL", "HEAD a MID @ TAIL", "HEAD @ MID @ TAIL", "a , @", "@ , a", "@ . a", "@ ? a : b", "a ? @ : b", "function ( ) { switch ( @ ) { case @ : @ } }", "function ( ) { if ( @ ) { @ } }", "function ( a = @ ) { }", "function ( { a = @ } ) { @ }", "@"];
            let st = &["HEAD @ TAIL", "HEAD @ MID @ TAIL", "HEAD a MID @ TAIL ;", "a HEAD @ TAIL", "( HEAD @ TAIL )", "{ HEAD @ TAIL }", "function a ( ) { HEAD @ TAIL ; { } }", "a = { b : HEAD @ TAIL }", "HEAD @ TAIL HEAD @ TAIL", "@", "var { a = HEAD @ TAIL } = b ;", "class a { [ HEAD @ TAIL ] ( ) { } }", "if ( HEAD @ TAIL ) { } else { }", "`t` "];
            let st: Vec<&str> = st.iter().cloned().filter(|s| !s.contains('`')).collect();
            j.push(Box::new(cx.nest("constructs inside of substitutions", &[&st, hole, inner], &[])));
            if t {
                j.push(Box::new(cx.nest("constructs inside of substitutions", &[&st, hole, hole, inner], &[])));
            }
            let mut s = cx.nest("", &[&st, inner], &[]).expand();
            s.extend(cx.nest("", &[&["HEAD @ TAIL"], hole, &["a", "{ }"]], &[]).expand());
            let s = cx.valid(s);
            j.push(Box::new(Gaps { what: "braces after every prefix", sents: s.clone(), seqs: cx.seqs(&["}", "TAIL", "MID", "} TAIL", "} }", "{ }", "{ } TAIL", "HEAD { } TAIL", "NL }", "NL TAIL", "TAIL }", "MID a TAIL"]) }));
            cx.pump(&mut j, "substitutions", s.clone());
            j.push(Box::new(Dfs { what: "inside of a substitution", pre: k.seq("HEAD"), suf: k.seq("TAIL"), toks: toks(k, "a { } ( ) => : , HEAD MID TAIL function class ; =", false), depth: if t { 6 } else { 5 } }));
            j.push(Box::new(Dfs { what: "after a substitution", pre: k.seq("{ HEAD { } TAIL"), suf: k.seq("}"), toks: toks(k, "a { } ( ) => HEAD MID TAIL function ; .", true), depth: if t { 5 } else { 4 } }));
            cx.chains(&mut j, 8, &[
                ("HEAD a", &["MID a", "MID", "MID { }", "MID HEAD a TAIL", "+ b"], "TAIL ;"),
                ("a =", &["HEAD", "a", "MID", "TAIL", "{", "}"], ";"),
                ("HEAD", &["{ }", "a", "( ) => {", "}", ",", "MID", "( { a :"], "TAIL"),
                ("a", &["NOSUB", "HEAD a TAIL", ". b", "( { } )", "HEAD a MID { } TAIL", "[ { } ]"], ";"),
            ]);
        }
        "C14" => {
            let brk: Vec<Tok> = every.iter().cloned().filter(|x| x.nl || [";", "}"].contains(&k.text[x.k as usize])).collect();
            j.push(cx.pda(d, "every configuration, every token on a new line", &[], brk));
            let mut l2 = vec![];
            for a in ASI_LEFT {
                l2.push(format!("{} #", a));
                l2.push(format!("{} NL #", a));
            }
            let l2: Vec<&str> = l2.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("pairs of statements with and without a line break", &[ASI_CTX, &l2], ASI_RIGHT)));
            let mut l3 = vec![];
            for a in ASI_JUMP {
                l3.push(format!("{} #", a));
                l3.push(format!("{} NL #", a));
            }
            let l3: Vec<&str> = l3.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("jumps and yields followed by anything", &[ASI_JUMP_CTX, &l3], ASI_RIGHT)));
            let s = cx.all_sentences();
            let s = cx.valid(s);
            j.push(Box::new(NlMask { what: "corpus", sents: s.clone(), max: if t { 12 } else { 9 } }));
            let seps = ["\r", "\r\n", "\u{2028}", "\u{2029}", "//\n", "// a\r", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "/*\n                                                            */", "/*                                                            \n*/", "/*\n\n*/ /**/", "/**/ /*\r\n*/ ", "/* \n a */\n", "/**/", " /* a b */\t"];
            j.push(Box::new(Breaks { what: "corpus", sents: s.clone(), seps: seps.to_vec() }));
            if t {
                let p = cx.programs(2, &[]);
                j.push(Box::new(NlMask { what: "shortest programs of all configurations", sents: p, max: 6 }));
            } else {
                let p = cx.programs(1, &[]);
                j.push(Box::new(NlMask { what: "shortest programs of all configurations", sents: p, max: 5 }));
            }
            // without semicolons, many times
            let semi = k.semi;
            let mut o: Vec<Vec<Tok>> = vec![];
            for x in &s {
                let mut q: Vec<Tok> = vec![];
                let mut cut = false;
                for &y in x {
                    if y.k == semi {
                        cut = true;
                    } else {
                        q.push(Tok { k: y.k, nl: y.nl || cut });
                        cut = false;
                    }
                }
                o.push(q.clone());
                // twice, on two lines
                if q.len() <= 6 {
                    let mut r = q.clone();
                    r.extend(q.iter().enumerate().map(|(i, y)| Tok { k: y.k, nl: y.nl || i == 0 }));
                    o.push(r);
                }
            }
            cx.pump(&mut j, "without semicolons", o);
            let short: Vec<Vec<Tok>> = cx.nest("", &[&l2], ASI_RIGHT).expand();
            let jumps: Vec<Vec<Tok>> = cx.nest("", &[&["function d ( ) { @ }", "function * d ( ) { @ }", "a : for ( ; ; ) { @ }"], &l3], &["a", "++ a", "( a )", "RE", "}", "=> a"]).expand();
            let mut texts: Vec<String> = short.iter().chain(&jumps).map(|x| k.render(x)).collect();
            texts.sort();
            texts.dedup();
            j.push(scaled("lines and columns before", &[("\n", ""), ("a\n", ""), (" ", ""), ("/*\n*/", ""), ("//\r", ""), ("a;", ""), ("\u{e9};", ""), ("\r\n", "")], &[255, 257], texts));
            let few: Vec<String> = jumps.iter().map(|x| k.render(x)).chain(v(&["a\nb", "a b", "a\n++b", "a ++\nb", "a\n=>b", "async\na=>b", "throw\na", "throw a\nb", "do;while(a)b", "{a}b", "a\n(b)", "let a\nlet b", "let a let b"])).collect();
            j.push(scaled("many lines and columns before", &[("\n", ""), ("a\n", ""), (" ", ""), ("/*\n*/", ""), ("a;", ""), ("`\n`;", ""), ("'\\\n';", "")], if t { &[1000, 65534, 65535, 65536, 65537] } else { &[65536, 65537] }, few.clone()));
            // far line breaks
            let mut far: Vec<Vec<Tok>> = cx.seqs(&["a b", "a ++ b", "function a ( ) { return b }", "a : for ( ; ; ) { break a }", "function * a ( ) { yield b }", "throw a", "a => b", "async a => b", "async function a ( ) { }", "a ( b )", "a HEAD b TAIL", "var a var b", "import STR import STR", "do ; while ( a ) b", "{ a } b", "( { get a ( ) { } } ) ;", "class a { static b ( ) { } }", "a -- ; b"]);
            for x in &mut far {
                for y in x.iter_mut() {
                    y.nl = false;
                }
            }
            let mut seps: Vec<&'static str> = vec![];
            for n in [127, 128, 255, 256, 257, 4096, 65535, 65536, 65537] {
                for x in [format!("{}\n", " ".repeat(n)), "\n".repeat(n), format!("/*{}\n*/", " ".repeat(n)), format!("/*\n{}*/", "a".repeat(n)), format!("{}//\r", "/**/".repeat(n)), format!("\n{}", "/**/".repeat(n)), " ".repeat(n), format!("//{}\u{2028}", "\u{e9}".repeat(n)), "/**/".repeat(n)] {
                    seps.push(Box::leak(x.into_boxed_str()));
                }
            }
            j.push(Box::new(Breaks { what: "long separators", sents: far, seps }));
            let pre = ["", "for (", "function a ( ) {", "function * a ( ) {", "async function a ( ) {", "do a", "if ( a )", "class a {"];
            let suf = ["", ") ;", "}", "}", "}", "", "", "}"];
            for i in 0..pre.len() {
                j.push(Box::new(Dfs { what: "line breaks and semicolons", pre: k.seq(pre[i]), suf: k.seq(suf[i]), toks: toks(k, "a ; ++ ( } { => async return while break else", true), depth: if t { 5 } else { 4 } }));
            }
            cx.chains(&mut j, 8, &[
                ("", &["a", "NL b", "NL ++", ";", "NL ( c )", "{", "}"], ""),
                ("function a ( ) {", &["return", "NL b", "c", ";", "NL }", "{"], "}"),
                ("function * a ( ) {", &["yield", "NL b", "c", ";", "NL * d", "++"], "}"),
                ("", &["do", "NL ;", "while ( a )", "NL b", "c", "NL while ( d )"], ""),
                ("", &["async", "NL async", "function a ( ) { }", "NL function b ( ) { }", "a", "NL =>", "=> c"], ""),
                ("", &["let a", "NL let b", "= c", "NL = d", ", e", "NL , f", ";"], ""),
                ("class a {", &["get", "NL get", "b ( ) { }", "NL c ( ) { }", "static", "NL static", "async", "NL async"], "}"),
                ("a : for ( ; ; ) {", &["break", "continue", "a", "NL a", ";", "NL ;"], "}"),
            ]);
        }
        "C15" => {
            j.push(cx.pda(d, "expressions", EXPR_RULES, every.clone()));
            let all: Vec<&str> = EXPR.to_vec();
            j.push(Box::new(cx.nest("expressions in expression contexts", &[EXPR_CTX, &all], &[])));
            j.push(Box::new(cx.nest("expressions in statements", &[STMT_EXPR, &all], &[])));
            j.push(Box::new(cx.nest("expressions in nested expression contexts", &[EXPR_CTX, EXPR_CTX, &["a", "a , b", "a = b", "a => b", "- a", "a ? b : c", "{ }", "a in b", "new a", "a ( )", "RE", "HEAD a TAIL", "( a )", "function ( ) { }", "class { }", "async a => b", "[ a ]", "a . b"]], &[])));
            let s = cx.seqs(EXPR);
            j.push(Box::new(Edits { what: "expressions", sents: s.clone(), toks: if t { every.clone() } else { flat_every.clone() }, double: false }));
            cx.pump(&mut j, "expressions", s.clone());
            let mut c = cx.nest("", &[EXPR_CTX, &["a"]], &[]).expand();
            c = cx.valid(c);
            cx.pump(&mut j, "expression contexts", c.clone());
            j.push(Box::new(Edits { what: "expression contexts", sents: c, toks: flat_every.clone(), double: false }));
            let bin = ["**", "*", "/", "%", "+", "-", "<<", ">>", ">>>", "<", ">", "<=", ">=", "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "=", "+=", "**=", ",", "? b :", "=>"];
            let mut l = vec![];
            for x in bin {
                l.push(format!("a {} @", x));
                l.push(format!("- a {} @", x));
                l.push(format!("a ++ {} @", x));
                l.push(format!("a . b {} @", x));
                l.push(format!("( a ) {} @", x));
            }
            let l: Vec<&str> = l.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("chains of three operators", &[&l, &l, &["a", "- a", "a ++", "{ }", "a => b", "( a , b )", "", "* a", "typeof a", "new a ( )"]], &[])));
            j.push(Box::new(Dfs { what: "short expressions", pre: k.seq("("), suf: k.seq(")"), toks: toks(k, "a NUM RE NOSUB ( ) [ ] { } , . ... + ++ ** = => ? : new typeof in async function this", false), depth: if t { 5 } else { 4 } }));
            j.push(Box::new(Dfs { what: "short expressions", pre: k.seq("a = ["), suf: k.seq("] ;"), toks: toks(k, "a , ... ( ) [ ] . = => ? : + - ++ new", false), depth: if t { 6 } else { 4 } }));
            j.push(Box::new(Dfs { what: "after new", pre: k.seq("new"), suf: k.seq(";"), toks: toks(k, "a new ( ) [ ] . target NOSUB class { } this super", false), depth: if t { 6 } else { 5 } }));
            if t {
                j.push(Box::new(Edits { what: "pairs of edits of short expressions", sents: s.iter().filter(|x| x.len() <= 5).cloned().collect(), toks: toks(k, "a ( ) [ ] { } , . ... + ++ = => ? : new async NOSUB", false), double: true }));
                j.push(Box::new(cx.nest("expressions in two contexts", &[EXPR_CTX, EXPR_CTX, &all], &[])));
            }
            cx.chains(&mut j, 8, &[
                ("a (", &["a", ",", "... a", "b => c"], ") ;"),
                ("new a (", &["a", ",", "... a", "{ }"], ") ;"),
                ("[", &["a", ",", "... a", "[ ]"], "] ;"),
                ("( a", &[", a", ", b = c", ", ( d )", ", ... e", ","], ") ;"),
                ("a =", &["b =", "c +=", "d =>", "( ) =>", "e ?", ": f", "g ,"], "a ;"),
                ("a", &[". b", "[ b ]", "( )", "( b )", "NOSUB", "HEAD b TAIL"], ";"),
                ("new", &["new", "a", ". b", "[ b ]", "( )", "NOSUB", ". target"], ";"),
                ("", &["-", "!", "typeof", "++", "await", "new", "("], "a ;"),
                ("a", &["++", "--", "+ b", "** b", "- - b", "! b"], ";"),
                ("a", &["? b", ": c", "? d = e", ": f , g", "&& h"], ";"),
                ("a", &["+ b", "* b", "** b", "< b", "== b", "&& b", "| b"], ";"),
            ]);
        }
        "C16" => {
            j.push(cx.pda(d, "statements", STMT_RULES, every.clone()));
            let ctx = &["@", "{ @ }", "if ( a ) @", "if ( a ) @ else @", "if ( a ) ; else @", "while ( a ) @", "do @ while ( a )", "for ( ; ; ) @", "for ( a in b ) @", "for ( a of b ) @", "for ( let a ; ; ) @", "a : @", "a : b : @", "try { @ } catch ( a ) { @ } finally { @ }", "switch ( a ) { case b : @ }", "switch ( a ) { default : @ }", "switch ( a ) { case b : @ default : @ case c : @ }", "function a ( ) { @ }", "( ) => { @ }", "class a { b ( ) { @ } }", "( { get a ( ) { @ } } ) ;", "@ @", "a ; @", "@ a ;", "function * a ( ) { @ }", "async function a ( ) { @ }", "HEAD function ( ) { @ } TAIL", "( function ( ) { @ } ( ) )", "export function a ( ) { @ }", "export default function ( ) { @ }", "try { @ } finally { }", "try { } catch ( a ) { @ }"];
            let mut frag: Vec<&str> = STMT.to_vec();
            frag.extend(["", "a", "var a", "return ;", "return a", "break", "continue a ;", "import STR ;", "export { } ;", "else ;", "case a :", "default :", "catch ( a ) { }", "finally { }", "try { }", "if ( a )", "if a ;", "while a ;", "do ;", "do a while ( b )", "for ( ) ;", "switch ( a ) ;", "switch ( a ) { a }", "switch ( a ) { default : default : }", "switch a { }", "try ; catch ( a ) { }", "try { } catch { }", "try { } catch ( ) { }", "try { } catch ( a , b ) { }", "try { } catch ( a = b ) { }", "try { } finally ;", "throw ;", "throw NL a ;", "var ;", "var a b ;", "var a = ;", "var a , ;", "let ;", "const a ;", "const a , b = c ;", "const { a } ;", "let { a } ;", "let [ a ] ;", "var { a } ;", "let a = b c ;", "a : function b ( ) { }", "a : class b { }", "a : let b ;", "if : ;", "debugger a ;", "with ( a ) ;", "else", "function ( ) { }", "class { }", "function a ( ) ;", "function a { }", "{ ", "}", "break 1", "a b", "if ( a , b ) ;", "if ( ) ;", "while ( ) ;", "do ; while ( ) ;", "do ; while a ;", "enum a { }", "let let = a ;", "const let = a ;", "async function a ( ) { }", "async NL function a ( ) { }", "function * a ( ) { }", "{ function a ( ) { } }", "let a ; let b ;"].iter().filter(|s| !s.contains(" 1") && !s.ends_with("{ ")));
            j.push(Box::new(cx.nest("statements in statement contexts", &[ctx, &frag], &[])));
            j.push(Box::new(cx.nest("statements in nested statement contexts", &[ctx, ctx, if t { &frag } else { &[";", "a", "let a ;", "function a ( ) { }", "class a { }", "{ }", "if ( a ) b", "break", "a : b", "var a", "throw a", "else ;", "", "try { } catch ( a ) { }", "return", "case a :", "switch ( a ) { }", "do ; while ( a )", "async function a ( ) { }", "const a = b"] }], &[])));
            let s = cx.seqs(STMT);
            j.push(Box::new(Edits { what: "statements", sents: s.clone(), toks: if t { every.clone() } else { flat_every.clone() }, double: false }));
            cx.pump(&mut j, "statements", s.clone());
            j.push(Box::new(cx.nest("pairs of statements", &[&["@ #"], &frag], &frag)));
            let mut lists = vec![];
            decl_lists(&mut lists, if t { 4 } else { 3 });
            let lists: Vec<&str> = lists.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("every declaration list", &[&["@", "@ ;", "@ NL a ;", "{ @ }", "export @ ;", "if ( a ) @ ;", "switch ( a ) { case b : @ ; }", "function * a ( ) { @ }", "async ( ) => { @ }"], &lists], &[])));
            let alpha = "a ; { } ( ) if else while do for switch case default : try catch finally throw var let const = function class";
            j.push(Box::new(Dfs { what: "short statements", pre: vec![], suf: vec![], toks: toks(k, alpha, false), depth: if t { 5 } else { 4 } }));
            j.push(Box::new(Dfs { what: "switch bodies", pre: k.seq("switch ( a ) {"), suf: k.seq("}"), toks: toks(k, "case default : a ; { } break let", false), depth: if t { 7 } else { 6 } }));
            j.push(Box::new(Dfs { what: "if and loops", pre: k.seq("if ( a )"), suf: vec![], toks: toks(k, "a ; else if ( ) { } while do let", true), depth: if t { 6 } else { 4 } }));
            j.push(Box::new(Dfs { what: "try", pre: k.seq("try {"), suf: vec![], toks: toks(k, "} { catch ( a ) finally ; =", false), depth: if t { 9 } else { 8 } }));
            j.push(Box::new(Dfs { what: "declarations", pre: vec![], suf: vec![], toks: toks(k, "var let const a = , ; NUM", true), depth: if t { 6 } else { 5 } }));
            cx.chains(&mut j, 8, &[
                ("switch ( a ) {", &["case b :", "default :", "c ;", "break ;"], "}"),
                ("switch ( a ) {", &["case b :", "default :", "case c : d", "{ }", "let e ;", "case ( f ) : ;"], "}"),
                ("", &["a ;", "let a ;", "{ }", "function a ( ) { }", ";", "var a = b ;"], ""),
                ("{", &["a ;", "const a = b ;", "{ }", "class a { }", "b", "NL c"], "}"),
                ("", &["if ( a )", "else", ";", "{ }", "while ( a )", "do"], ""),
                ("if ( a ) b ;", &["else if ( a ) b ;", "else c ;", "else { }", "if ( a ) ;", "d"], ""),
                ("", &["a :", "b :", "for ( ; ; )", ";", "break a ;", "{ }", "}"], ""),
                ("var a", &[", b", "= c", ", { d } = e", ", [ f ] = g", ", NL h"], ";"),
                ("let a", &[", b", "= c", ", { d } = e", ", [ f ] = g", ", { h }"], ";"),
                ("const a = b", &[", b", "= c", ", { d } = e", ", f = g", ", [ h ]"], ";"),
                ("try { }", &["catch ( a ) { }", "finally { }", "catch ( { a } ) { b }", ";", "try { }"], ""),
                ("", &["try {", "} catch ( a ) {", "} finally {", "}", "a ;", "{"], ""),
            ]);
        }
        "C17" => {
            j.push(cx.pda(if t { 3 } else { 2 }, "loop heads", FOR_RULES, every.clone()));
            let heads = &["for ( @ ; ; ) ;", "for ( ; @ ; ) ;", "for ( ; ; @ ) ;", "for ( @ in a ) ;", "for ( @ of a ) ;", "for ( a in @ ) ;", "for ( a of @ ) ;", "for ( var a = @ ; ; ) ;", "for ( let a = @ ; ; ) ;", "for ( const a = @ , b = c ; ; ) ;", "for ( var a , b = @ ; ; ) ;", "for ( let { a = @ } of b ) ;", "for ( var [ a = @ ] = b ; ; ) ;", "for ( let { [ @ ] : a } in b ) ;", "for ( [ a = @ ] of b ) ;", "for ( { a = @ } in b ) ;", "for ( var a in @ ) ;", "for ( let a of @ ) ;", "for ( ; ; ) @ ;", "for ( a = b ; ; ) @ ;", "for ( let a = b ; ; ) { @ }", "for ( a in b ) @ ;", "@ ;", "if ( @ ) ;", "while ( @ ) ;", "var a = @ ;", "let a = @ , b = @ ;", "function a ( b = @ ) { @ }", "a => { for ( @ ; ; ) ; @ ; }", "for ( @ ; @ ; @ ) @ ;", "for ( var a = @ in b ) ;", "for ( let a = @ of b ) ;"];
            let inner = &["a in b", "a", "( a in b )", "[ a in b ]", "{ a : b in c }", "{ [ a in b ] : c }", "a [ b in c ]", "a ( b in c )", "a ( ... b in c )", "new a ( b in c )", "HEAD a in b TAIL", "HEAD a MID b in c TAIL", "a HEAD b in c TAIL", "function ( ) { a in b }", "function ( a = b in c ) { }", "function * ( ) { yield a in b }", "async function ( ) { await a in b }", "class { a ( ) { b in c } }", "class { [ a in b ] ( ) { } }", "class extends ( a in b ) { }", "( ) => { a in b }", "( a = b in c ) => d", "( { a = b in c } ) => d", "a => b in c", "async a => b in c", "async ( ) => { a in b }", "a ? b in c : d", "a ? b : c in d", "a = b in c", "- a in b", "a + b in c", "a in b in c", "a && b in c", "a , b in c", "a in b , c", "typeof a in b", "{ a ( ) { b in c } }", "{ get a ( ) { b in c } }", "[ ... a in b ]", "{ ... a in b }", "{ a = b in c } = d", "[ a = b in c ] = d", "! ( a in b ) in c", "a . in", "{ in : a }", "function ( ) { for ( a in b ) ; }", "function ( ) { for ( var a = b in c ; ; ) ; }", "( ) => { for ( a = b ; ; ) c in d }", "( a in b ) in c", "[ a ] in b", "( a ) => b in c", "a = ( b in c )", "new a in b", "a instanceof b in c", "function ( ) { } in a", "{ a } in b", "a of b", "a ( ) in b", "a ++ in b", "NUM in a", "class { } in a", "RE in a", "a = b => c in d", "a = { b : c in d } , e = [ a in b ]", "( ( a in b ) )"];
            j.push(Box::new(cx.nest("`in` in loop heads and elsewhere", &[heads, inner], &[])));
            let wrap = &["( @ )", "[ @ ]", "{ a : @ }", "{ [ @ ] : a }", "a [ @ ]", "a ( @ )", "HEAD @ TAIL", "function ( ) { @ }", "function ( a = @ ) { }", "class { [ @ ] ( ) { } }", "class { a ( ) { @ } }", "( ) => { @ }", "( a = @ ) => b", "a => @", "async a => @", "a ? @ : b", "a ? b : @", "a = @", "a , @", "@ , a", "- @", "a + @", "@ + a", "@ . a", "@ ? a : b", "new a ( @ )", "@", "function ( ) { for ( @ ; ; ) @ }", "( { a = @ } ) => b", "{ a ( b = @ ) { @ } }", "yield @", "await @"];
            j.push(Box::new(cx.nest("nested", &[heads, wrap, inner], &[])));
            if t {
                j.push(Box::new(cx.nest("nested twice", &[heads, wrap, wrap, inner], &[])));
            }
            let fors: Vec<&str> = STMT.iter().cloned().filter(|s| s.starts_with("for")).collect();
            let s = cx.seqs(&fors);
            j.push(Box::new(Edits { what: "loops", sents: s.clone(), toks: every.clone(), double: false }));
            cx.pump(&mut j, "loops", s.clone());
            for (a, b) in [("for (", ") ;"), ("for ( var", ") ;"), ("for ( let", ") ;"), ("for ( const", ") ;")] {
                j.push(Box::new(Dfs { what: "loop heads", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a in of ; , = ( ) [ ] { } : async", false), depth: if t { 6 } else { 5 } }));
            }
            j.push(Box::new(Dfs { what: "loop heads", pre: k.seq("for ("), suf: k.seq(") ;"), toks: toks(k, "a b in of ; , = var let const => + . async ++ NL", false).into_iter().collect(), depth: if t { 5 } else { 4 } }));
            let parts = &["", "a", "a in b", "a = b", "a , b", "a ( )", "{ }", "var a", "let a", "RE"];
            let l = &["for ( @ ; # ; # ) ;", "for ( @ ; # ; ) ;", "for ( @ NL ; # NL ; ) ;", "for ( @ # ) ;", "for ( @ NL # ; ) ;", "for ( @ ; # ) ;", "for ( @ in # ) ;", "for ( @ of # ) ;", "for ( var @ = # ; ; ) ;", "for ( ; @ ; # ) { }", "for ( let a = @ , b = # ; ; ) ;", "for await ( @ of # ) ;", "for ( @ : # ) ;"];
            let mut parts2: Vec<&str> = inner.to_vec();
            parts2.extend(parts.iter());
            j.push(Box::new(cx.nest("three-part heads", &[l, &parts2], &parts2)));
            let mut lists = vec![];
            decl_lists(&mut lists, if t { 4 } else { 3 });
            let lists: Vec<&str> = lists.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("every declaration list in a head", &[&["for ( @ ; ; ) ;", "for ( @ ; a ; b ) { }", "for ( @ in a ) ;", "for ( @ of a ) ;", "for ( @ ) ;", "for ( @ NL ; ; ) ;", "for ( a ; @ ; ) ;", "function * a ( ) { for ( @ ; ; ) ; }"], &lists], &[])));
            cx.chains(&mut j, 8, &[
                ("for (", &["var", "let", "const", "a", "= b", ",", ";", "in", "of"], ") ;"),
                ("for ( var a", &[", b", "= c", ", { d } = e", "in f", "of g", ";"], ") ;"),
                ("for ( let a", &[", b", "= c", ", [ d ] = e", "in f", "of g", ";"], ") ;"),
                ("for ( const a = b", &[", b", "= c", ", [ d ] = e", "in f", ";", "( g in h )"], ") ;"),
                ("for (", &["a", "( a in b )", "in", ";", ",", "=", "[ c in d ]"], ") ;"),
                ("", &["for ( ; ; )", "for ( a in b )", "for ( let a of b )", "for ( var a = b in c ; ; )", "for ( a = b ; c in d ; )", ";", "a in b ;"], ";"),
            ]);
        }
        "C18" => {
            j.push(cx.pda(d, "functions", FN_RULES, every.clone()));
            j.push(Box::new(cx.nest("function forms with parameters", &[FN, PARAMS], &["", "a ;", "return", "yield a", "await a"])));
            j.push(Box::new(cx.nest("function forms with bodies", &[FN, &["( )", "( a )"]], BODY)));
            let inn = &["#", "{ # }", "if ( a ) { # }", "function b ( ) { # }", "function * b ( ) { # }", "async function b ( ) { # }", "a = ( ) => { # }", "a = async ( ) => { # }", "a = function ( ) { # } ;", "a = function * ( ) { # } ;", "a = async function ( ) { # } ;", "( { b ( ) { # } } ) ;", "( { * b ( ) { # } } ) ;", "( { async b ( ) { # } } ) ;", "( { get b ( ) { # } } ) ;", "( { set b ( c ) { # } } ) ;", "class b { c ( ) { # } }", "class b { * c ( ) { # } }", "class b { async c ( ) { # } }", "class b { static get c ( ) { # } }", "class b { set c ( d ) { # } }", "class b { constructor ( ) { # } }", "try { # } finally { }", "switch ( a ) { case b : # }", "a : for ( ; ; ) { # }", "function b ( ) { } #", "function * b ( ) { } #", "async function b ( ) { } #", "a = ( ) => { } ; #", "a = async ( ) => { } ; #", "class b { * c ( ) { } async d ( ) { } } #", "( { * b ( ) { yield } , async c ( ) { await a } } ) ; #", "( { get b ( ) { } , set c ( d ) { } } ) ; #", "a = b => c ; #", "a = async b => await c ; #", "class b { constructor ( ) { } } #", "a = [ async ( ) => await b , # ]", "a = ( async ( ) => { await b } , # )", "( # )", "a ( b => c , # )", "a ( async b => c , # )", "a ( function ( ) { } , # )", "a = { b ( ) { } , c : # }", "HEAD function ( ) { } MID # TAIL"];
            let outer = &["@", "function a ( ) { @ }", "function * a ( ) { @ }", "async function a ( ) { @ }", "( ) => { @ }", "async ( ) => { @ }", "( { a ( ) { @ } } ) ;", "( { * a ( ) { @ } } ) ;", "( { async a ( ) { @ } } ) ;", "class a { get b ( ) { @ } }", "class a { * b ( ) { @ } }", "class a { async b ( ) { @ } }", "export default function * ( ) { @ }", "export default async function ( ) { @ }", "export function a ( ) { @ }"];
            let leaf = &["yield", "yield a", "yield * a", "await a", "await", "return", "return a", "a = yield", "a = await b", "a", "yield ;", "( yield )", "( await a )", "[ yield a ]", "- await a", "yield RE", "await RE", "return RE", "function yield ( ) { }", "var yield", "var await", "yield : a", "await : a", "yield => a", "async await => a", "( { yield } )", "( { await } )", "new . target", "yield / a", "yield NL a", "await NL a"];
            let mut lv: Vec<Tmpl> = vec![];
            for i in inn {
                lv.push(tmpl(k, i));
            }
            j.push(Box::new(Nest { what: "nested function kinds", levels: vec![tmpls(k, outer), lv.clone()], second: tmpls(k, if t { BODY } else { leaf }) }));
            {
                // three levels
                let hole: Vec<String> = inn.iter().map(|s| s.replace('#', "@")).collect();
                let hole: Vec<&str> = hole.iter().map(|s| &s[..]).collect();
                j.push(Box::new(Nest { what: "nested function kinds, three deep", levels: vec![tmpls(k, outer), tmpls(k, &hole), lv], second: tmpls(k, if t { leaf } else { &["yield a", "await a", "return a", "yield", "var await"] }) }));
            }
            let fns: Vec<&str> = STMT.iter().chain(EXPR).cloned().filter(|s| s.contains("function") || s.contains("=>") || s.contains("yield") || s.contains("await")).collect();
            j.push(Box::new(Edits { what: "functions", sents: cx.seqs(&fns), toks: if t { every.clone() } else { flat_every.clone() }, double: false }));
            let o = cx.seqs(&fns);
            cx.pump(&mut j, "functions", o);
            let pre = ["function a (", "( ", "async (", "function * a ( ) {", "async function a ( ) {", "function * a ( b =", "async", "( {", "async function a ( b ,", "class a { * b ( ) {"];
            let suf = [") { }", ") => a", ") => a", "}", "}", ") { }", "", "} ) ;", ") { }", "} }"];
            for i in 0..pre.len() {
                j.push(Box::new(Dfs { what: "functions", pre: k.seq(pre[i]), suf: k.seq(suf[i]), toks: toks(k, "a , = ... ( ) { } [ ] => yield await * async function", false), depth: if t { 5 } else { 4 } }));
            }
            j.push(Box::new(Dfs { what: "yield", pre: k.seq("function * a ( ) {"), suf: k.seq("}"), toks: toks(k, "yield * a , ; + ( ) = ? : in", true), depth: if t { 5 } else { 4 } }));
            cx.chains(&mut j, 8, &[
                ("function a (", &["a", ",", "= b", "... a", "{ c }"], ") { }"),
                ("(", &["a", ",", "= b", "... a", "{ c }", "[ d ]"], ") => e ;"),
                ("async (", &["a", ",", "= b", "... a", "{ c }"], ") => d ;"),
                ("", &["a =>", "( ) =>", "async b =>", "async ( c ) =>", "( d = e ) =>", "{", "}", "("], "f"),
                ("function * a ( ) {", &["yield", "a", "* b", ",", ";", "yield c", "( yield )"], "}"),
                ("async function a ( ) {", &["await", "a", "b ;", "await c ;", "+ d", "- await e"], "}"),
                ("", &["function a ( ) {", "function * a ( ) {", "async function a ( ) {", "}", "yield b ;", "await c ;", "return ;"], ""),
                ("", &["a = ( ) => {", "a = async ( ) => {", "a = function * ( ) {", "a = { * b ( ) {", "} } ;", "} ;", "await c ;", "yield d ;"], ""),
            ]);
        }
        "C19" => {
            j.push(cx.pda(if t { 2 } else { 1 }, "classes and objects", CLASS_RULES, every.clone()));
            j.push(Box::new(cx.nest("members in contexts", &[MEMBER_CTX, MEMBER], &[])));
            j.push(Box::new(cx.nest("pairs of members", &[&["( { @ , # } ) ;", "class a { @ # }", "( class { @ ; # } ) ;", "( { @ # } ) ;", "class a { @ , # }", "class a { @ NL # }"], MEMBER], MEMBER)));
            let cls: Vec<&str> = STMT.iter().chain(EXPR).chain(MODULE).cloned().filter(|s| s.contains("class") || s.contains("( {")).collect();
            j.push(Box::new(Edits { what: "classes and objects", sents: cx.seqs(&cls), toks: if t { every.clone() } else { flat_every.clone() }, double: false }));
            let o = cx.seqs(&cls);
            cx.pump(&mut j, "classes and objects", o);
            j.push(Box::new(Edits { what: "members", sents: cx.nest("", &[&["( { @ } ) ;", "class a { @ }"], MEMBER], &[]).expand(), toks: flat_every.clone(), double: false }));
            for (a, b) in [("( {", "} ) ;"), ("class a {", "}"), ("class a { static", "}"), ("( { get", "} ) ;"), ("( { async", "} ) ;"), ("class a { set", "}"), ("class a { async", "}"), ("class a { *", "}")] {
                j.push(Box::new(Dfs { what: "members", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a ( ) { } [ ] , : ; get set static async * STR = ...", false), depth: if t { 6 } else { 5 } }));
            }
            j.push(Box::new(Dfs { what: "class heads", pre: k.seq("class"), suf: k.seq("{ }"), toks: toks(k, "a extends { } ( ) . [ ] class new , = => this", false), depth: if t { 5 } else { 4 } }));
            j.push(Box::new(Dfs { what: "class heads", pre: k.seq("( class"), suf: k.seq("{ } )"), toks: toks(k, "a extends { } ( ) . [ ] class new , = => this", false), depth: if t { 5 } else { 4 } }));
            let names = &["a", "if", "get", "set", "static", "async", "constructor", "STR", "NUM", "[ a ]", "of", "yield", "await", "let", "[ a , b ]", "[ ]", "NOSUB", "RE", "this", "[ a in b ]", "( a )"];
            let mods = &["@ ( ) { }", "get @ ( ) { }", "set @ ( a ) { }", "async @ ( ) { }", "* @ ( ) { }", "static @ ( ) { }", "static get @ ( ) { }", "static set @ ( a ) { }", "static async @ ( ) { }", "static * @ ( ) { }", "@ : a", "@", "get @", "async * @ ( ) { }", "get async @ ( ) { }", "async get @ ( ) { }", "@ = a", "get NL @ ( ) { }", "set NL @ ( a ) { }", "async NL @ ( ) { }", "static NL @ ( ) { }", "* NL @ ( ) { }", "get set @ ( ) { }"];
            j.push(Box::new(cx.nest("modifiers and names", &[MEMBER_CTX, mods, names], &[])));
            cx.chains(&mut j, 8, &[
                ("( {", &["a", ",", "b : c", "d ( ) { }", "get e ( ) { }"], "} ) ;"),
                ("( {", &["a ,", "STR : b ,", "[ c ] : d ,", "* e ( ) { } ,", "... f ,", "get ,"], "g } ) ;"),
                ("class a {", &["b ( ) { }", ";", "static c ( ) { }", "get d ( ) { }", "* e ( ) { }", ","], "}"),
                ("class a {", &["static", "async", "get", "set", "*", "b ( ) { }", "c"], "}"),
                ("( {", &["async", "get", "set", "*", "b ( ) { }", ",", ": c"], "} ) ;"),
                ("class a {", &["constructor ( ) { }", "async b ( ) { }", "set c ( d ) { }", "[ e ] ( ) { }", "static * STR ( ) { }", "get get ( ) { }"], "}"),
            ]);
        }
        "C20" => {
            j.push(cx.pda(d, "patterns", PAT_RULES, every.clone()));
            j.push(Box::new(cx.nest("patterns in contexts", &[PAT_CTX, PAT], &[])));
            let pw = &["{ a : @ }", "[ @ ]", "{ a : @ = b }", "[ @ = b ]", "[ ... @ ]", "{ a , b : @ , c }", "[ a , , @ ]", "{ [ a ] : @ }", "{ STR : @ , }", "[ a = @ ]", "{ a = @ }", "@"];
            j.push(Box::new(cx.nest("nested patterns", &[PAT_CTX, pw, PAT], &[])));
            if t {
                j.push(Box::new(cx.nest("twice nested patterns", &[PAT_CTX, pw, pw, PAT], &[])));
            }
            let bad = &["{ a b }", "{ a : }", "{ : a }", "{ a , , b }", "{ , }", "{ , a }", "{ a = }", "{ STR }", "{ NUM }", "{ [ a ] }", "{ [ ] : a }", "{ if }", "{ if = a }", "{ a : if }", "{ a : STR }", "{ a : NUM }", "{ a . b }", "{ a : b . c }", "{ a ( ) { } }", "{ get a ( ) { } }", "{ a : b ( ) }", "{ ... a }", "{ a : ( b ) }", "{ ( a ) }", "[ a b ]", "[ ... a , ]", "[ ... a , b ]", "[ ... a = b ]", "[ ... ]", "[ a = ]", "[ NUM ]", "[ STR ]", "[ a . b ]", "[ ( a ) ]", "[ if ]", "[ this ]", "[ a ( ) ]", "[ a + b ]", "[ yield ]", "{ a : yield }", "{ yield }", "[ await ]", "[ ... a . b ]", "[ a => b ]", "{ async a }", "{ * a }", "[ { a b } ]", "{ a : [ ... b , c ] }", "{ STR = a }", "[", "{", "{ a : b : c }", "[ a : b ]", "{ a ; b }", "[ a ; b ]", "{ let }", "[ let ]", "{ static }"];
            j.push(Box::new(cx.nest("malformed patterns in contexts", &[PAT_CTX, bad], &[])));
            j.push(Box::new(cx.nest("malformed nested patterns", &[PAT_CTX, pw, bad], &[])));
            let pats: Vec<Vec<Tok>> = cx.nest("", &[&["var @ = a ;", "( @ = a ) ;", "( @ ) => a", "function a ( @ ) { }", "for ( let @ of a ) ;"], PAT], &[]).expand();
            cx.pump(&mut j, "patterns", pats.clone());
            j.push(Box::new(Edits { what: "patterns", sents: pats, toks: toks(k, "a , : = ... [ ] { } ( ) . STR NUM if ; in of => * async", false), double: false }));
            for (a, b) in [("var {", "} = a ;"), ("var [", "] = a ;"), ("( {", "} = a ) ;"), ("[", "] = a ;"), ("( {", "} ) => a"), ("( [", "] ) => a"), ("function a ( {", "} ) { }"), ("function a ( [", "] ) { }"), ("try { } catch ( {", "} ) { }"), ("for ( let [", "] of a ) ;"), ("for ( const {", "} in a ) ;"), ("async ( {", "} ) => a"), ("export let {", "} = a ;"), ("let [ a , ", "] = b ;")] {
                j.push(Box::new(Dfs { what: "pattern elements", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a , : = ... [ ] { } STR .", false), depth: if t { 6 } else { 5 } }));
            }
            cx.chains(&mut j, 8, &[
                ("var {", &["a", ",", ": b", "= c", "STR"], "} = d ;"),
                ("let [", &["a", ",", "= b", "... c", "[ ]"], "] = d ;"),
                ("( {", &["a", ",", ": b", "= c", "[ d ]", ": e . f"], "} = g ) ;"),
                ("[", &["a", ",", "= b", "... c", "[ ]", "d . e"], "] = f ;"),
                ("function a (", &["a ,", "{ b } ,", "[ c ] = d ,", "... e ,", "{ f : g = h } ,"], "i ) { }"),
                ("( {", &["a ,", "b : c ,", "d = e ,", "[ f ] : g ,", "STR : h ,", "i : { j } ,"], "} ) => k ;"),
                ("var", &["{ a }", "[ b ]", "= c", ",", "d"], ";"),
                ("const {", &["a :", "{", "[", "b", "]", "}", "= c"], "} = d ;"),
                ("for ( let [", &["a ,", "... b", "[ c ] ,", "{ d } = e ,", ",", "f = g ,"], "] of h ) ;"),
            ]);
        }
        "C21" => {
            j.push(cx.pda(2, "modules", MOD_RULES, every.clone()));
            let s = cx.seqs(MODULE);
            j.push(Box::new(Edits { what: "imports and exports", sents: s.clone(), toks: every.clone(), double: false }));
            cx.pump(&mut j, "imports and exports", s.clone());
            j.push(Box::new(Edits { what: "pairs of edits of imports and exports", sents: s.iter().filter(|x| x.len() <= if t { 9 } else { 6 }).cloned().collect(), toks: toks(k, "a , { } * as from STR ; default if import export ( ) class function async = let", false), double: true }));
            for (a, b) in [("import", "from STR ;"), ("import {", "} from STR ;"), ("export", ";"), ("export {", "} ;"), ("export {", "} from STR ;"), ("import", "")] {
                j.push(Box::new(Dfs { what: "imports and exports", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a , { } * as from STR default if ;", false), depth: if t { 6 } else { 5 } }));
            }
            j.push(Box::new(Dfs { what: "exported declarations", pre: k.seq("export"), suf: vec![], toks: toks(k, "default function * async class a ( ) { } ; var let const = extends", false), depth: if t { 7 } else { 6 } }));
            j.push(Box::new(Dfs { what: "module items", pre: vec![], suf: vec![], toks: toks(k, "import export a STR ; default from { } * as var function", true), depth: if t { 5 } else { 4 } }));
            let nestings = &["@", "{ @ }", "if ( a ) @", "function a ( ) { @ }", "( ) => { @ }", "a : @", "try { @ } finally { }", "switch ( a ) { case b : @ }", "class a { b ( ) { @ } }", "for ( ; ; ) @", "do @ while ( a ) ;", "HEAD function ( ) { @ } TAIL", "@ @", "a ; @", "@ ; a", "@ NL a ;", "@ RE . a ;", "@ ( a ) ;", "@ a", "( @ )", "a = @", "export @", "import @", "export default @", "@ / a / b"];
            j.push(Box::new(cx.nest("module items elsewhere", &[nestings, MODULE], &[])));
            j.push(Box::new(cx.nest("pairs of module items", &[&["@ #", "@ NL #"], MODULE], MODULE)));
            let mut de = vec![];
            for e in EXPR {
                de.push(format!("export default {} ;", e));
                de.push(format!("export default {}", e));
            }
            let de: Vec<&str> = de.iter().map(|s| &s[..]).collect();
            j.push(Box::new(cx.nest("default exports of expressions", &[&["@", "@ a ;", "@ NL a ;"], &de], &[])));
            j.push(Box::new(cx.nest("default exports in expression contexts", &[&["export default @ ;"], EXPR_CTX, &["a", "a , b", "{ }", "function ( ) { }", "class { }", "async function ( ) { }"]], &[])));
            j.push(Box::new(cx.nest("exported statements", &[&["export @", "export default @"], STMT], &[])));
            j.push(Box::new(cx.nest("exported functions", &[&["export @", "export default @"], FN, PARAMS], &["", "yield", "await a", "return"])));
            cx.chains(&mut j, 8, &[
                ("import {", &["a", ",", "a as b", "if as c", "as"], "} from STR ;"),
                ("export {", &["a", ",", "a as b", "b as if", "as"], "} ;"),
                ("export {", &["a", ",", "if as b", "b as if", "default"], "} from STR ;"),
                ("", &["import STR ;", "export { } ;", "a ;", "import a from STR ;", "export default b ;", "export * from STR ;"], ""),
                ("", &["import", "a", "STR", "from", ";", "export", "default"], ""),
                ("export", &["var a", ", b", "= c", ";", "let d", "NL e"], ""),
            ]);
        }
        "C22" => {
            let w = words(k);
            let mut o = vec![];
            for p in NAME_POS {
                for x in &w {
                    o.push(put(k, p, x, ""));
                }
            }
            j.push(Box::new(Texts { what: "every word in every name position", texts: o, twice: false }));
            let two = &["import { @ as # } from STR ;", "export { @ as # } ;", "export { @ as # } from STR ;", "@ : # ;", "@ # ;", "@ NL # ;", "@ # => a", "( @ , # ) => a", "@ . # ;", "var @ , # ;", "var { @ : # } = a ;", "( { @ , # } ) ;", "( { @ : # } ) ;", "( { @ # ( ) { } } ) ;", "class a { @ # ( ) { } }", "class a { static @ # ( ) { } }", "class @ extends # { }", "function @ ( # ) { }", "for ( @ of # ) ;", "for ( let @ of # ) ;", "for ( var @ in # ) ;", "import @ , * as # from STR ;", "import @ from STR ; # ;", "@ ( # ) ;", "@ = # ;", "@ ( # ) => a", "@ = # => a", "a ? @ : # ;", "@ + # ;", "try { } catch ( @ ) { # ; }", "function a ( ) { @ # ; }", "function * a ( ) { @ # ; }", "async function a ( ) { @ # ; }", "@ function # ( ) { }", "class @ { # ( ) { } }", "for ( @ # of a ) ;", "@ # = a ;", "export @ # ;", "export default @ # ;", "new @ . # ;", "@ [ # ] ;", "import { @ , # } from STR ;", "( { @ = # } = a ) ;"];
            let mut base: Vec<&str> = RESERVED.iter().chain(NAMES).cloned().collect();
            base.extend(["STR", "NUM", "eval", "arguments", "lets", "yields"].iter().skip(2));
            let mut o = vec![];
            for p in two {
                for x in &base {
                    for y in &base {
                        o.push(put(k, p, x, y));
                    }
                }
            }
            j.push(Box::new(Texts { what: "every pair of words in every pair of positions", texts: o, twice: false }));
            let wt: Vec<Tok> = (0..k.n_words as Kind).flat_map(|x| [Tok { k: x, nl: false }, Tok { k: x, nl: true }]).collect();
            j.push(cx.pda(2, "every configuration, every word", &[], if t { wt.clone() } else { toks(k, "a let static yield await async of get set from as target if in enum public null this implements default super", false) }));
            j.push(cx.pda(1, "every configuration, every word", &[], wt));
            let ctx: Vec<String> = ["@", "{ @ }", "function d ( ) { @ }", "function * d ( ) { @ }", "async function d ( ) { @ }", "class d { e ( ) { @ } }", "( ) => { @ }", "async ( ) => { @ }", "HEAD function ( ) { @ } TAIL", "if ( d ) { @ }"].iter().map(|s| s.to_string()).collect();
            let mut o = vec![];
            for c in &ctx[1..] {
                for p in NAME_POS {
                    if p.contains("import") || p.contains("export") {
                        continue;
                    }
                    let q = c.replace('@', p);
                    for x in &base {
                        o.push(put(k, &q, x, ""));
                    }
                }
            }
            j.push(Box::new(Texts { what: "every word in every name position in nested contexts", texts: o, twice: false }));
        }
        "C23" => {
            let blanks = vec![" ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{1680}", "\u{2003}\u{202f}", "/**/", " /* a */ ", "/*/*/", "/***/", "/*//*/", "/* ' ` \" */", "/*é😀*/\u{a0}", " /**/ /* */\t", ""];
            let lines = vec!["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "//\n", " // a\r\n", "//é 😀 /*\r", "// '`\u{2028}", "/*\n*/", "/*\r*/", "/* a \r\n b */", "/*\u{2028}*/", "/*\u{2029}*/", "/**/\n", "\n/**/", "\n\n \t\r", "/*\n*/ /**/ ", "/* */ /*\n*/\u{a0}", "/*\n                                                            */", "/*                                                            \n*/"];
            let s = cx.all_sentences();
            j.push(Box::new(Trivia { what: "corpus", sents: s, blanks: blanks.clone(), lines: lines.clone(), pairs: t }));
            let p = cx.programs(if t { 2 } else { 1 }, &[]);
            j.push(Box::new(Trivia { what: "shortest programs of all configurations", sents: p, blanks: if t { blanks.clone() } else { vec!["/*a*/", "\u{a0}", ""] }, lines: if t { lines.clone() } else { vec!["/*\n*/", "\r\n", "//\u{2028}"] }, pairs: false }));
            let bad: Vec<Vec<Tok>> = cx.seqs(&["a b", "a NL b", "return", "( ) NL => a", "a NL => b", "async NL a => b", "throw NL a", "a ++ b", "a NL ++ b", "if ( a ) else", "for ( a NL ; ; NL ) ;", "var a b", "function * a ( ) { yield NL * b }", "function a ( ) { return NL b }", "a : for ( ; ; ) { break NL a }", "a : for ( ; ; ) { continue NL a }", "async NL function a ( ) { }", "do ; while ( a ) b", "a NL ( b )", "a NL [ b ]", "a NL NOSUB", "a NL / b / c", "{ a } b", "{ a NL } b", "let NL a", "import a NL from STR", "export NL default NL a", "class a { get NL b ( ) { } }", "class a { async NL b ( ) { } }", "class a { static NL b ( ) { } }", "new NL a", "new . NL target", "a NL . b", "async NL ( a )", "async ( a ) NL => b"]);
            j.push(Box::new(Trivia { what: "restricted productions", sents: bad, blanks, lines, pairs: true }));
        }
        "C24" => {
            j.push(Box::new(TextSeq { s: Strings { pre: v(&[""]), chunks: v(&["a", "0", ".", "/", "*", "\n", "\r", "'", "`", "\\", "$", "{", "}", "(", ")", "[", "]", ";", ",", ":", "?", "=", ">", "+", "-", " ", "\u{e9}", "\u{2028}", "x", "\u{1F600}", "#", "<", "!", "e"]), lo: 0, hi: if t { 5 } else { 4 }, suf: v(&[""]) } }));
            j.push(Box::new(Dfs { what: "every token sequence", pre: vec![], suf: vec![], toks: every.clone(), depth: if t { 3 } else { 2 } }));
            if !t {
                j.push(Box::new(Dfs { what: "every token sequence", pre: vec![], suf: vec![], toks: flat_every.clone(), depth: 3 }));
            } else {
                j.push(Box::new(Dfs { what: "token sequences", pre: vec![], suf: vec![], toks: toks(k, "a ( ) [ ] { } , ; = => . ... : ? + ++ / RE HEAD TAIL function class async await yield let in of new return", false), depth: 4 }));
            }
            // truncations and single-character damage of programs
            let s = cx.all_sentences();
            let mut o = vec![];
            for x in &s {
                let r = k.render(x);
                for (i, c) in r.char_indices() {
                    o.push(r[..i].to_string());
                    let rest = &r[i + c.len_utf8()..];
                    o.push(format!("{}{}", &r[..i], rest));
                    if t {
                        for z in ["'", "`", "\\", "/", "}", "#", "\u{e9}", "\n", "/*", "0", "\u{0}", "${"] {
                            o.push(format!("{}{}{}", &r[..i], z, &r[i..]));
                        }
                    }
                }
                o.push(r);
            }
            j.push(Box::new(Texts { what: "truncations and character damage of the corpus, run twice", texts: o, twice: true }));
            let mut o = vec![];
            let nests: &[(&str, &str, &str)] = &[("(", "a", ")"), ("[", "a", "]"), ("{", "a", "}"), ("a(", "b", ")"), ("a[", "b", "]"), ("`${", "a", "}`"), ("({a:", "b", "})"), ("function a(){", "b", "}"), ("a=>", "b", ""), ("()=>{", "a", "}"), ("class a{b(){", "c", "}}"), ("if(a)", "b", ""), ("if(a){}else ", "b", ""), ("-", "a", ""), ("!", "a", ""), ("new ", "a", ""), ("a?", "b", ":c"), ("a?b:", "c", ""), ("a=", "b", ""), ("a**", "b", ""), ("a,", "b", ""), ("a+", "b", ""), ("var [", "a", "]"), ("[", "a", "]=b"), ("for(;;)", "a", ""), ("a:", "b", ""), ("do ", "a", " while(b)"), ("switch(a){case b:", "c", "}"), ("try{", "a", "}catch(b){}"), ("while(a)", "b", ""), ("(function(){", "a", "})()"), ("async()=>{", "await a", "}"), ("a.", "b", ""), ("a;", "b", ""), ("++", "a", ""), ("typeof ", "a", ""), ("{", "", ""), ("(", "", ""), ("`${", "", ""), ("[", "", ""), ("}", "", ""), (")", "", ""), ("a ", "", ""), ("/", "", ""), ("/a/", "", ""), ("a\n", "", ""), ("\n", "", ""), (";", "", ""), ("//\n", "", ""), ("/**/", "", ""), ("a/", "b", ""), ("=>", "", ""), ("...", "", "")];
            for (a, b, c) in nests {
                for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200] {
                    o.push(format!("{}{}{}", a.repeat(n), b, c.repeat(n)));
                    o.push(format!("{}{}{}", a.repeat(n), b, c.repeat(n + 1)));
                    o.push(format!("{}{}{}", a.repeat(n + 1), b, c.repeat(n)));
                    o.push(format!("{}{}{};x", a.repeat(n), b, c.repeat(n)));
                }
            }
            j.push(Box::new(Texts { what: "deep and long repetitions, run twice", texts: o, twice: true }));
            let more: &[(&str, &str, &str)] = &[("a()", "", ""), ("a\n()\n", "", ""), ("(a)", "", ""), ("[a]", "", ""), ("a`", "", ""), ("`a`", "", ""), ("a`${b}`", "", ""), ("var a;", "", ""), ("var a,", "b", ""), ("[,", "", "]"), ("f(a,", "b", ")"), ("[a,", "b", "]"), ("import 'a';", "", ""), ("export {};", "", ""), ("function a(){}", "", ""), ("class a{}", "", ""), ("class a extends (", "b", "){}"), ("(class extends ", "a", "{})"), ("({a(){", "b", "}})"), ("({[", "b", "]:c})"), ("({a:", "b", "}=c)"), ("({a=", "b", "}=c)"), ("([a]=", "b", ")"), ("(a=", "b", ")=>c"), ("async(a=", "b", ")=>c"), ("async a=>", "b", ""), ("async function a(){await ", "b", "}"), ("function*a(){yield ", "b", "}"), ("function a(b=", "c", "){}"), ("var{a:", "b", "}=c"), ("a||", "b", ""), ("a in ", "b", ""), ("new new a", "", ""), ("new(", "a", ")"), ("new a(", "b", ")"), ("super.a", "", ""), ("with(a)", "b", ""), ("label:{", "", "}"), ("if(a){", "", "}"), ("if(a)b;else ", "c", ""), ("switch(a){default:", "", "}"), ("try{}finally{", "", "}"), ("try{}catch(a){", "", "}"), ("for(a of ", "b", ");"), ("for(a of b)", "c", ""), ("for(;;){", "", "}"), ("do{", "", "}while(a)"), ("while(a){", "", "}"), ("(", "", ")"), ("[...", "a", "]"), ("a(...", "b", ")"), ("`${{a:", "b", "}}`"), ("void ", "a", ""), ("delete ", "a.b", ""), ("await ", "b", ""), ("--", "a", ""), ("a.b=", "c", ""), ("a[b]=", "c", ""), ("a=>{", "b", "}"), ("a=>({b:", "c", "})"), ("\n{", "a\n", "\n}"), ("a?b:", "c", ";"), ("a?(", "b", "):c"), ("/a/.b", "", ""), ("'a'+", "b", ""), ("1,", "2", ""), ("a.b.c\n", "", ""), ("a++\n", "", ""), ("a\n++", "b", "")];
            let mut fam = vec![];
            for (a, b, c) in nests.iter().chain(more) {
                for n in [500, 1000, 100000, 1000000] {
                    fam.push(Family { n, a: a.to_string(), b: b.to_string(), c: c.to_string() });
                }
            }
            j.push(Box::new(Deep { families: fam }));
            // parts of the corpus very many times, once for each part and its neighbours
            let max = if t { 24 } else { 14 };
            let part = if t { 5 } else { 3 };
            let mut seen = std::collections::HashSet::new();
            let mut parts = vec![];
            let mut valid = cx.valid(s.clone());
            valid.sort_by_key(|x| x.len());
            for x in valid.iter().filter(|x| x.len() <= max) {
                for a in 0..x.len() {
                    for b in a + 1..=x.len().min(a + part) {
                        let key: Vec<(Kind, bool)> = x[a.saturating_sub(if t { 2 } else { 1 })..(b + 1).min(x.len())].iter().map(|y| (y.k, y.nl)).collect();
                        if seen.insert((key, a == 0, b == x.len(), b - a)) {
                            let r = |y: &[Tok]| if y.is_empty() { String::new() } else { k.render(y) + " " };
                            parts.push((r(&x[..a]), r(&x[a..b]), r(&x[b..])));
                        }
                    }
                }
            }
            j.push(Box::new(Many { what: "the corpus", parts, ns: if t { vec![300, 5000, 33000, 66000, 200000] } else { vec![300, 66000] } }));
            let ends = v(&["", "}", ")", "]", "'", "`", "\\", "/*", "//", "#", "1a", "}`", "@", "...", "=>", "/", "(", "[", "{", "a b", "a", "a;", "1..", "..", "0x", "'\n'", "\u{feff}", "\u{2028}", "var", "a=", "if(", "`${", "export", "import", "a?b", "/*/", "/**/", "new", "\u{0}", "catch", "=", "*", ",", ":", "\u{1F600}"]);
            j.push(scaled("ends after very many statements", AFTER, if t { &[100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537] } else { &[128, 255, 256, 257, 1000, 65536, 65537] }, ends.clone()));
            j.push(scaled("ends within many constructs", WITHIN, &[32, 64, 128, 256, 300], ends));
            // trailing material
            let tails = ["", ";", " ", "\n", "}", ")", "a", "\na", "\n)", "'", "`", "\\", "/*", "//", "#", "\u{0}", "1", " 1", "\n1a", "`${", "}`", "\u{feff}", "@", "...", "=>", "\u{2028}", "\n/", "/**/", "export", "import"];
            let mut o = vec![];
            for x in &s {
                let r = k.render(x);
                for e in tails {
                    o.push(format!("{}{}", r, e));
                    o.push(format!("{}{}", e, r));
                }
            }
            j.push(Box::new(Texts { what: "the corpus followed or preceded by other material", texts: o, twice: false }));
        }
        "C25" => {
            // after and within very much
            let mut texts: Vec<String> = vec![];
            for l in [EXPR, STMT, MODULE] {
                texts.extend(l.iter().map(|x| k.render(&k.seq(x))));
            }
            let probes = ["yield a", "await a", "return", "return a", "a in b", "/a/", "/a/g.b", "a/b/c", "yield", "await", "var yield", "var await", "break", "continue", "a=>b", "async a=>await b", "function*a(){yield b}", "for(a in b);", "for(var a=b in c;;);", "for(a in b;;);", "`${{}}`", "({})", "{}", "super.a", "new.target", "()=>{return}", "({*a(){yield b}})", "({async a(){await b}})", "a=b", "{a=b}", "({a=b})", "({a=b}=c)", "[a]=b", "...a", "a,b", "import'a'", "export{}", "let a", "const a=b", "class a{}", "throw a", "a b", "a\nb", "a\n++b", "}", ")", "]", "}`", "(", "{", "eval=a", "delete a", "if(a)b\nelse c", "else", "a:b", "case a:", "catch(a){}"];
            texts.extend(v(&probes));
            texts.sort();
            texts.dedup();
            j.push(scaled("the corpus after many statements", AFTER, &[65, 300], texts.clone()));
            j.push(scaled("the corpus within many constructs", WITHIN, &[4, 7, 17, 33], texts));
            j.push(scaled("probes within many constructs", WITHIN, if t { &[8, 9, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 400, 500] } else { &[9, 16, 32, 64, 65, 127, 128, 129, 255, 256, 257, 300] }, v(&probes)));
            j.push(scaled("probes after very many statements", AFTER, if t { &[127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000, 32767, 32768, 65534, 65535, 65536, 65537] } else { &[127, 128, 255, 256, 257, 1000, 65536, 65537] }, v(&probes)));
            let (configs, sel) = cx.select(1, &[]);
            let leak = toks(k, "yield await in return RE / } TAIL super default => , ;", false);
            j.push(Box::new(Pda { what: "leaks", configs, sel, toks: if t { all_toks(k, true) } else { leak }, alternates: true, second: vec![] }));
            if t {
                let (configs, sel) = cx.select(2, &[]);
                j.push(Box::new(Pda { what: "leaks", configs, sel, toks: toks(k, "yield await in RE / } TAIL => NL", false), alternates: true, second: vec![] }));
            }
            // every function kind in every function kind
            let kinds = &["{ @ }", "function b ( ) { @ }", "function * b ( ) { @ }", "async function b ( ) { @ }", "a = ( ) => { @ } ;", "a = async ( ) => { @ } ;", "a = b => ( @ ) ;", "a = async b => ( @ ) ;", "a = function ( ) { @ } ;", "a = function * ( ) { @ } ;", "a = async function ( ) { @ } ;", "( { b ( ) { @ } } ) ;", "( { * b ( ) { @ } } ) ;", "( { async b ( ) { @ } } ) ;", "( { get b ( ) { @ } } ) ;", "( { set b ( c ) { @ } } ) ;", "class b { c ( ) { @ } }", "class b { * c ( ) { @ } }", "class b { async c ( ) { @ } }", "class b { get c ( ) { @ } }", "class b { set c ( d ) { @ } }", "class b { static * c ( ) { @ } }", "class b { static async c ( ) { @ } }", "class b { constructor ( ) { @ } }", "( { [ @ ] : c } ) ;", "( { [ @ ] ( ) { } } ) ;", "class b { [ @ ] ( ) { } }", "class b { * [ @ ] ( ) { } }", "class b { async [ @ ] ( ) { } }", "class b extends ( @ ) { }", "a = HEAD @ TAIL ;", "function b ( c = ( @ ) ) { }", "a = ( b = @ ) => c ;", "( { b ( c = @ ) { } } ) ;", "for ( @ ; ; ) ;", "for ( a of [ @ ] ) ;", "if ( @ ) ;", "switch ( a ) { case b : @ }", "export default function * ( ) { @ }", "export default async function ( ) { @ }", "var { b = @ } = c ;", "( { b = @ } = c ) ;", "a : @"];
            let after: Vec<String> = kinds.iter().map(|s| s.replace('@', "") + " @").filter(|s| !s.contains("( )  ;") && !s.starts_with("a :")).collect();
            let mut kinds2: Vec<&str> = kinds.to_vec();
            kinds2.extend(after.iter().map(|s| &s[..]));
            let probe = &["yield a", "await a", "return", "a in b", "yield", "await", "var await", "var yield", "yield : a", "await : a", "RE", "new . target", "super . a"];
            j.push(Box::new(cx.nest("function kinds in function kinds", &[kinds, &kinds2, probe], &[])));
            if t {
                j.push(Box::new(cx.nest("function kinds three deep", &[kinds, kinds, &kinds2, probe], &[])));
            } else {
                j.push(Box::new(cx.nest("function kinds three deep", &[kinds, kinds, kinds, &["yield a", "await a", "return", "a in b"]], &[])));
            }
            // constructs in sequence
            let mut c: Vec<&str> = STMT.to_vec();
            c.extend(MODULE);
            let probes = &["yield a ;", "await a ;", "return ;", "a in b ;", "RE . a ;", "for ( a in b ) ;", "for ( var a = b in c ; ; ) ;", "HEAD { } TAIL ;", "( { } ) ;", "{ }", "a = function ( ) { } ;", "class b { }", "function ( ) { }", "class { }", "let a = b ;", "yield : a ;", "new . target", "export { } ;", "import STR ;", "a => b ;", "async ( ) => await a ;", "function * a ( ) { yield }", "var yield ;", "var await ;", "super . a ;", "break ;", "TAIL", "MID", "}", "NL ( a ) ;", "NL RE . a ;", "a / b / c ;", "{ a / b / c }", "const a ;", "else ;", "( a , ) ;"];
            j.push(Box::new(cx.nest("every construct followed by a probe", &[&["@ #", "{ @ # }", "function d ( ) { @ # }", "function * d ( ) { @ # }", "async function d ( ) { @ # }", "switch ( d ) { case e : @ # }", "( ) => { @ # }", "class d { e ( ) { @ # } }", "HEAD function ( ) { @ # } TAIL"], &c], probes)));
            let eprobes = &["yield a", "await a", "a in b", "RE", "{ }", "function ( ) { }", "class { }", "HEAD { } TAIL", "a => b", "( ) => { }", "async a => b", "yield", "a = b", "a ? b : c", "( a in b )", "[ a in b ]", "- a", "new . target", "super . a", "( a , )", "a / b"];
            let ectx = &["( @ , # )", "[ @ , # ]", "a ( @ , # )", "HEAD @ MID # TAIL", "( { a : @ , b : # } )", "@ , #", "for ( @ , # ; ; ) ;", "for ( a = @ , b = # ; ; ) ;", "for ( var a = @ , b = # ; ; ) ;", "var a = @ , b = # ;", "function * d ( ) { ( @ , # ) }", "async function d ( ) { ( @ , # ) }", "function d ( a = @ , b = # ) { }", "( a = @ , b = # ) => c", "a ? ( @ ) : #", "( @ ) + #", "a = ( @ ) || #", "class a { [ @ ] ( ) { # } }", "( { [ @ ] ( ) { # } } )", "function * d ( ) { a = [ @ ] ; # }", "for ( let { a = @ } of # ) ;", "for ( [ @ ] in # ) ;", "( a = @ ) => #", "( { a = @ } = # )", "if ( @ ) # ;", "while ( @ ) { # }", "switch ( @ ) { case # : }", "return @ , #", "throw ( @ ) , # ;", "export default [ @ , # ] ;"];
            let all: Vec<&str> = EXPR.to_vec();
            j.push(Box::new(cx.nest("every expression followed by a probe", &[ectx, &all], eprobes)));
            if t {
                j.push(Box::new(cx.nest("every statement context followed by a probe", &[&["@ #", "function * d ( ) { @ # }", "async function d ( ) { @ # }"], STMT_EXPR, &["a", "function * ( ) { yield }", "async ( ) => await a", "a in b", "HEAD { } TAIL", "b => { }"]], probes)));
                j.push(Box::new(cx.nest("every expression context followed by a probe", &[ectx, EXPR_CTX, &["a", "function * ( ) { yield }", "async ( ) => await a", "( a in b )", "HEAD { } TAIL", "b => { }"]], eprobes)));
                j.push(Box::new(cx.nest("three constructs", &[&["@ #", "function * d ( ) { @ # }"], &c.iter().map(|s| format!("{} @", s)).collect::<Vec<_>>().iter().map(|s| &s[..]).collect::<Vec<_>>(), &c], &["yield a ;", "await a ;", "return ;", "a in b ;", "RE . a ;"])));
            }
        }
        "C28" => {
            j.push(cx.pda(d, "targets and arrow heads", TARGET_RULES, every.clone()));
            let all: Vec<&str> = EXPR.iter().chain(PAT).cloned().collect();
            let cover = COVER_CTX;
            let deep = &["a", "a . b", "a [ b ]", "a ( )", "( a )", "( a . b )", "{ a }", "[ a ]", "{ a = b }", "[ a = b ]", "a = b", "a += b", "( { a } )", "( [ a ] )", "( a = b )", "this", "NUM", "{ a : b . c }", "[ a . b ]", "[ ( a ) ]", "{ a : ( b ) }", "... a", "( )", "( a , b )", "a => b", "{ a ( ) { } }", "- a", "a ++", "new . target", "new a", "NOSUB", "if", "super . a", "super", "async", "async ( a )", "function ( ) { }", "yield", "await a", "a ? b : c", "a , b", "", "{ STR : a }", "{ [ a ] : b }", "{ a , ... b }", "[ a , ... b ]", "[ , a , ]", "{ }", "[ ]", "eval", "( eval )", "{ eval }", "[ eval ]", "{ eval = a }", "{ a : eval }", "[ ... eval ]", "{ eval : a }", "eval . a", "eval ( )", "eval = a"];
            j.push(Box::new(cx.nest("every expression as a target and as a head", &[&["@", "@ NL a", "function * b ( ) { @ }", "async function b ( ) { @ }"], cover, &all], &[])));
            j.push(Box::new(cx.nest("nested covers", &[&["@", "function * b ( ) { @ }", "async function b ( ) { @ }"], cover, cover, deep], &[])));
            if t {
                j.push(Box::new(cx.nest("nested covers, three deep", &[cover, cover, cover, deep], &[])));
            } else {
                j.push(Box::new(cx.nest("nested covers, three deep", &[cover, cover, cover, &["a", "a . b", "( a )", "{ a = b }", "[ a ]", "a = b"]], &[])));
            }
            // yield and await in what becomes the parameters
            let sus = &["yield", "yield a", "await a", "a = yield", "a = await b", "{ a = yield b }", "{ [ yield ] : a }", "{ [ await a ] : b }", "[ a = await b ]", "a = ( ) => yield", "a = async ( ) => await b", "a = async ( ) => { await b }", "a = async b => await c", "a = function * ( ) { yield }", "a = async function ( ) { await b }", "a = { * b ( ) { yield } }", "a = { async b ( ) { await c } }", "a = { [ yield ] ( ) { } }", "a = { [ await b ] ( ) { } }", "a = class { * b ( ) { yield } }", "a = class { [ yield ] ( ) { } }", "a = class extends ( yield ) { }", "a = class extends ( await b ) { }", "a = class { async b ( ) { await c } }", "a = HEAD yield TAIL", "a = HEAD await b TAIL", "a = b => { yield }", "a = ( b = yield ) => c", "a = [ async b => await c , yield ]", "a = [ yield , async b => await c ]", "a = [ function * ( ) { yield } , await b ]", "a = ( async ( b = c ) => await b ) ( await c )", "a"];
            let heads = &["( @ ) => a ;", "async ( @ ) => a ;", "( @ , b ) => { }", "( b , @ ) => a ;", "( b , ... [ @ ] ) => a ;", "( ... { c : @ } ) => a ;", "async ( ... [ @ ] ) => a ;", "async ( b , @ ) => { }", "( @ ) ;", "async ( @ ) ;", "[ @ ] = b ;", "( { c : @ } ) => a ;", "( { c : @ } = b ) ;", "b = ( @ ) => a ;", "yield ( @ ) => a ;", "yield , ( @ ) => a ;", "await b , ( @ ) => a ;", "b ( yield , await c , ( @ ) => a ) ;", "( @ ) => yield ;", "( @ ) => await b ;", "async ( @ ) => await b ;", "( b = ( @ ) ) => a ;", "( b = ( @ ) => c ) => a ;", "( b = async ( @ ) => await c ) => a ;", "[ ( @ ) => a , yield ] ;", "[ yield , ( @ ) => a ] ;", "b ? yield : ( @ ) => a ;", "function c ( ) { ( @ ) => a ; }", "HEAD yield MID ( @ ) => a TAIL ;", "for ( ( @ ) => a ; ; ) ;", "for ( [ @ ] of b ) ;"];
            j.push(Box::new(cx.nest("yield and await in heads", &[&["function * d ( ) { @ }", "async function d ( ) { @ }", "@", "( ) => { @ }", "async ( ) => { @ }", "( { * d ( ) { @ } } ) ;", "class d { async e ( ) { @ } }", "function * d ( ) { yield ; @ yield ; }", "async function d ( ) { await e ; @ await e ; }"], heads, sus], &[])));
            for (a, b) in [("(", ") = b ;"), ("(", ") => b ;"), ("[", "] = b ;"), ("( {", "} = b ) ;"), ("async (", ") => b ;"), ("for (", "of b ) ;"), ("for (", "in b ) ;"), ("", "++ ;"), ("++", ";"), ("", "+= b ;"), ("", "=> b ;"), ("(", ") ;"), ("a = ( {", "} ) ;"), ("b ( [", "] ) ;"), ("async ( [", "] ) ;")] {
                j.push(Box::new(Dfs { what: "covers", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a ( ) [ ] { } , : = ... . =>", false), depth: if t { 6 } else { 5 } }));
            }
            for (a, b) in [("function * a ( ) { (", ") => b ; }"), ("async function a ( ) { (", ") => b ; }"), ("function * a ( ) { async (", ") => b ; }"), ("async function a ( ) { async (", ") => b ; }"), ("async function a ( ) { ( b = ", ") => b ; }")] {
                j.push(Box::new(Dfs { what: "covers in generators and async functions", pre: k.seq(a), suf: k.seq(b), toks: toks(k, "a yield await = ( ) { } [ ] , => async", false), depth: if t { 6 } else { 5 } }));
            }
            let mut s = cx.nest("", &[cover, &["a", "{ a = b }", "[ a , ... b ]", "{ a : b . c }"]], &[]).expand();
            s = cx.valid(s);
            cx.pump(&mut j, "covers", s.clone());
            j.push(Box::new(Edits { what: "covers", sents: s, toks: if t { every.clone() } else { flat_every.clone() }, double: false }));
            cx.chains(&mut j, 8, &[
                ("", &["a", "( a )", "a . b", "[ a ]", "=", "+=", "=>"], "a ;"),
                ("", &["a =", "[ b ] =", "( { c } =", ") ,", "( d ) =>", "e . f =", "( g . h ) +="], "a ;"),
                ("( {", &["a", "= b", ",", "c : d", ": {", "}", "... e"], "} ) => f ;"),
                ("( {", &["a", "= b", ",", "c : d", ": {", "}", "... e"], "} = f ) ;"),
                ("( {", &["a", "= b", ",", "c : d", ": {", "}", "... e"], "} ) ;"),
                ("[ {", &["a = b", "} , {", "} . c , {", "} = d , {", "e", ","], "} ] = f ;"),
                ("(", &["a ,", "{ b = c } ,", "[ d . e ] ,", "( f ) ,", "g = h ,", "... i ,"], "j ) => k ;"),
                ("async (", &["a ,", "{ b = c } ,", "[ d . e ] ,", "( f ) ,", "g = h ,", "... i ,"], "j ) => k ;"),
                ("(", &["(", ")", "a", ", b", "=> c", "= d"], ";"),
                ("function * f ( ) { (", &["a", "= yield", "= function * ( ) { yield }", ",", "= async ( ) => {", "}", "[ b ]"], ") => c }"),
                ("async function f ( ) { (", &["a", "= await b", "= async function ( ) { await b }", ",", "= async ( ) => {", "}", "await b"], ") => c }"),
            ]);
        }
        "C29" => {
            let r = |s: &[Vec<Tok>]| -> Vec<Vec<String>> { s.iter().map(|x| x.iter().map(|t| k.text[t.k as usize].to_string()).collect()).collect() };
            let s = cx.all_sentences();
            let max = if t { 24 } else { 14 };
            let s: Vec<Vec<Tok>> = cx.valid(s).into_iter().filter(|x| x.len() <= max).collect();
            j.push(Box::new(Count { what: "the corpus", sents: r(&s), part: if t { 8 } else { 5 }, n: 40 }));
            j.push(Box::new(Count { what: "the corpus", sents: r(&s), part: if t { 3 } else { 2 }, n: 400 }));
            // (every pair, and every three, of the tokens alone)
            let all: Vec<String> = (0..k.eof).map(|x| k.text[x as usize].to_string()).collect();
            let mut o = vec![];
            for a in &all {
                for b in &all {
                    o.push(format!("{} {} ", a, b).repeat(300));
                    o.push(format!("{}{}", format!("{} ", a).repeat(300), format!("{} ", b).repeat(300)));
                    if t {
                        for c in &all {
                            o.push(format!("{} {} {} ", a, b, c).repeat(200));
                        }
                    }
                }
            }
            j.push(Box::new(CountTexts { what: "every pair of tokens many times", texts: o }));
            // contexts in contexts, many times
            let mut o = vec![];
            let ctx: Vec<(String, String)> = WITHIN.iter().map(|(a, b)| (a.to_string(), b.to_string())).chain(EXPR_CTX.iter().filter_map(|c| c.split_once('@').map(|(a, b)| (a.to_string(), b.to_string())))).collect();
            let ctx: Vec<(String, String)> = ctx.into_iter().map(|(a, b)| { let r = |s: &str| s.replace("HEAD", "`${").replace("TAIL", "}`").replace("MID", "}${").replace("NL", "\n").replace("RE", "/a/").replace("STR", "'a'").replace("NUM", "1"); (r(&a), r(&b)) }).collect();
            for (a, c) in &ctx {
                for (b, d) in &ctx {
                    for n in if t { &[12, 40, 300][..] } else { &[40][..] } {
                        for e in ["a", "", "yield", "/a/"] {
                            o.push(format!("{}{}{}", format!("{}{}", a, b).repeat(*n), e, format!("{}{}", d, c).repeat(*n)));
                        }
                    }
                }
            }
            j.push(Box::new(CountTexts { what: "two contexts within each other, many times", texts: o }));
            // large texts against the clock
            let chunks: &[&str] = &["a", "a ", "\u{e9}", "\u{e9} ", "0", "0 ", "1.5e3 ", "0x1f ", ".", "/", "/ ", "/a/g ", "/[/]/ ", "*", "/**/", "/*\n*/", "//\n", "\n", "\r", "\r\n", "\u{2028}", "' '", "'", "'\\n'", "'\\\n'", "\"\u{1F600}\"", "`", "`a`", "`${", "}`", "}${", "\\", "\\n", "\\u{61}", "\\\n", "$", "$ ", "{", "}", "{}", " ", "\t", "\u{a0}", "\u{feff}", "\u{3000}", "\u{1F600}", "<", "<<", ">", ">>>=", "-", "--", "=", "=>", "...", "..", "(", "[", "]", ";", ",", "a;", "a\n", "u", "x", "e", "[^]", "\\/", "/=", "<!--", "-->", "#", "@", "\0"];
            let one: Vec<(String, String, String)> = chunks.iter().map(|c| (c.to_string(), String::new(), String::new())).chain(["'", "\"", "`", "/", "//", "/*", "/[", "`${", "a", "1", "'\n", "/a"].iter().flat_map(|a| chunks.iter().map(move |c| (c.to_string(), String::new(), a)).flat_map(|(c, e, a)| vec![(c.clone(), a.to_string(), e.clone())]))).collect();
            // (an opening part comes first: the repeated part follows it)
            let one: Vec<(String, String, String)> = one.into_iter().map(|(a, b, _)| if b.is_empty() { (a, b, String::new()) } else { (String::new(), b, a) }).collect();
            let (big, secs) = (if t { 16 << 20 } else { 2 << 20 }, if t { 20 } else { 4 });
            j.push(Box::new(Bulk { what: "one part, and one part after an opening", parts: one, size: big, seconds: secs, parse: false, stack: crate::work::STACK }));
            let mut two = vec![];
            for a in chunks {
                for b in chunks {
                    two.push((format!("{}{}", a, b), String::new(), String::new()));
                    two.push((a.to_string(), String::new(), b.to_string()));
                }
            }
            j.push(Box::new(Bulk { what: "two parts in turn, and one part after the other", parts: two, size: if t { 2 << 20 } else { 1 << 18 }, seconds: if t { 5 } else { 2 }, parse: false, stack: crate::work::STACK }));
            let fams: Vec<(String, String, String)> = AFTER.iter().map(|(a, _)| (a.to_string(), String::new(), String::new())).chain(["a,", "a+", "a.b.", "a||", "a\n", ";", "a;", "'a'+", "`a`+", "{}", "a()\n", "a()", "a[b]", ".a", "`a`", "1,", "/a/,", "var a;", "var a=b,", "let a;", "const a=b;", "case a:", "@", "//\n", "/**/", "a/", "(a);", "[a];", "({a});", "x:;", "import a from 'b';", "export*from'a';", "\u{e9}\u{1F600}", "\u{e9}.", "'\u{e9}',"].iter().flat_map(|a| vec![(a.to_string(), "a".to_string(), String::new()), (String::new(), "a".to_string(), a.to_string()), (String::new(), "[".to_string(), a.to_string()), (String::new(), "f(".to_string(), a.to_string()), (String::new(), "{".to_string(), a.to_string()), (String::new(), "({".to_string(), a.to_string()), (String::new(), "`${".to_string(), a.to_string()), (String::new(), "class a{".to_string(), a.to_string()), (String::new(), "function*f(){".to_string(), a.to_string()), (String::new(), "switch(a){".to_string(), a.to_string()), (String::new(), "()=>{".to_string(), a.to_string()), (String::new(), "(".to_string(), a.to_string()), (String::new(), "for(".to_string(), a.to_string())])).collect();
            j.push(Box::new(Bulk { what: "statements, lists and chains", parts: fams, size: big, seconds: secs, parse: true, stack: crate::work::STACK }));
            // nested
            let nests: Vec<(String, String, String)> = ctx.iter().flat_map(|(a, c)| vec![(a.clone(), "a".to_string(), c.clone()), (a.clone(), String::new(), String::new())]).collect();
            j.push(Box::new(Bulk { what: "nested, on a stack of 2 GB", parts: nests, size: if t { 1 << 20 } else { 1 << 18 }, seconds: if t { 10 } else { 4 }, parse: true, stack: 2 << 30 }));
        }
        "C30" => {
            let l = ["a", "yield", "'a", "a/b", "/a/g", "`a${b}`", "a=>{}", "x=>y/z", "{}/a/", "a\n++b", "(a,b)=>c", "async a=>b", "async(a)", "({a=b})", "[a]=b", "({a=b}=c)", "'\\x41'", "`\\n`", "1.5e3", "/*\n*/a", "a\u{2028}b", "return", "for(a in b);", "function*a(){yield}", "(yield)", "async()=>await a", "super.a", "import'a'", "class a{}"];
            j.push(Box::new(crate::indep::Together { texts: l.iter().map(|s| s.to_string()).collect(), all: if t { 200_000 } else { 4_000 }, switches: if t { 6 } else { 4 } }));
            let long: Vec<String> = STMT.iter().chain(MODULE).map(|x| k.render(&k.seq(x))).filter(|x| x.len() < 60).collect();
            j.push(Box::new(crate::indep::Together { texts: long, all: 0, switches: if t { 2 } else { 1 } }));
            let toks = v(&["", "a b", "'a' 'b'", "\"\\x41\\u{62}\"", "'a", "`a${b}c`", "`\\n`", "`a", "} a", "}`", "}${a}`", "1 2.5e3 0x1f", "0x", "/a/g", "/[/]/ /", "/*a*/b//c", "/*\n*/", "\n\r\n\u{2028}a", "\u{e9} \u{1F600}", "\u{e9}a\u{e8}", "<<= >>>= =>", "...a.b", "a;b", "\\", "#", "\u{a0}a\u{feff}b", "{ } }", "a\r\nb", "'\\\n'", "/a", "a/b/c", "if else"]);
            j.push(Box::new(crate::indep::Pairs { texts: toks, n: if t { 5 } else { 4 } }));
            j.push(Box::new(crate::indep::Copies { s: Strings { pre: v(&[""]), chunks: v(MIX), lo: 0, hi: if t { 4 } else { 3 }, suf: v(&[""]) }, n: 3 }));
            let all = |chunks: &[&str], hi: usize| {
                let s = Strings { pre: v(&[""]), chunks: v(chunks), lo: 0, hi, suf: v(&[""]) };
                let mut o = vec![];
                for u in 0..s.units() {
                    s.each(u, &mut |x| {
                        o.push(x.to_string());
                        true
                    });
                }
                o.sort();
                o.dedup();
                o
            };
            j.push(Box::new(crate::indep::Reuse { what: "mixed parts", texts: all(MIX, 2), pad: false, parse: false }));
            j.push(Box::new(crate::indep::Reuse { what: "mixed parts", texts: all(MIX, 2), pad: true, parse: false }));
            j.push(Box::new(crate::indep::Reuse { what: "fewer parts, longer", texts: all(if t { &MIX[..15] } else { &["a", "0", "/", "\n", "'", "`", "\\", "}", " ", "\u{e9}"][..] }, 3), pad: true, parse: false }));
            let mut progs: Vec<String> = vec![];
            for x in STMT.iter().chain(MODULE) {
                let x = k.render(&k.seq(x));
                // a failure may come after part of it
                let c = (x.len() / 2..x.len()).find(|&i| x.is_char_boundary(i)).unwrap_or(0);
                progs.push(x[..c].to_string());
                progs.push(x);
            }
            progs.extend(l.iter().map(|s| s.to_string()));
            progs.sort();
            progs.dedup();
            j.push(Box::new(crate::indep::Reuse { what: "programs and parts of them", texts: progs.clone(), pad: false, parse: true }));
            j.push(Box::new(crate::indep::Reuse { what: "programs and parts of them", texts: progs, pad: true, parse: true }));
            j.push(Box::new(crate::indep::Slots { s: Strings { pre: v(&[""]), chunks: v(MIX), lo: 0, hi: if t { 4 } else { 3 }, suf: v(&[""]) } }));
            j.push(Box::new(crate::indep::Slots { s: Strings { pre: v(&["", "'\\x41", "`\\n", "/[a]/gi ", "}\\x41${", "0x1f "]), chunks: v(&["a", "\\x41", "'", "`", "${", "/", "g", "\n", "\u{e9}", "7"]), lo: 0, hi: if t { 4 } else { 3 }, suf: v(&["", "'", "`", "${", "/g"]) } }));
        }
        "C31" => {
            let long = |n: usize| "n".repeat(n);
            let mut names: Vec<String> = v(&["x1", "$", "_", "$_1", "\u{e9}", "\u{fc}n\u{ef}", "\u{3b1}", "\u{5d0}", "\u{4e2d}\u{6587}", "\u{20bb7}", "\u{2118}", "a\u{200c}", "a\u{200d}b", "a\u{301}", "a\u{b7}", "A", "If", "IF", "iff", "i", "f", "fi", "In", "inn", "ofx", "of_", "o", "asyn", "asyncs", "async_", "Async", "awai", "awaits", "Await", "yiel", "yields", "Yield", "le", "lets", "Let", "stati", "statics", "Static", "ge", "gets", "Get", "se", "sets", "Set", "fro", "froms", "From", "asx", "As", "targe", "targets", "Target", "ne", "news", "New", "thi", "thiss", "This", "nul", "nulls", "Null", "tru", "trues", "True", "fals", "falses", "False", "supe", "supers", "Super", "clas", "classs", "Class", "functio", "functions", "Function", "typeo", "typeofs", "delet", "deletes", "voi", "voids", "instanceo", "instanceofs", "impor", "imports", "expor", "exports", "defaul", "defaults", "extend", "extendss", "argument", "eva", "evals", "Eval", "enums", "constructors", "undefine", "undefineds", "Infinity", "NaN", "prototyp", "hasOwnProperty", "toString", "valueOf", "use", "strict", "goal", "mets", "type", "declare", "abstract", "namespace", "module", "require", "global", "native", "is", "infer", "keyof", "readonly", "override", "satisfies", "accessor", "using", "defer", "assert", "int", "goto", "byte", "char", "boolean", "final", "float", "long", "short", "synchronized", "throws", "transient", "volatile", "double", "jsx", "h", "s", "t", "r", "g", "m", "u", "n", "e", "E1", "x", "xF", "b1", "o7", "eof"]);
            names.extend([64, 255, 256, 1000].iter().map(|&n| long(n)));
            let mut one = names.clone();
            one.push("__proto__".into());
            let nums = v(&["0", "0.", ".0", "1.", ".5", "0.5", "10", "1e3", "1E+3", "1e-3", "1.5e300", "1e400", "1e-400", "5e-324", "9007199254740993", "4294967296", "0x0", "0XfF", "0xdeadbeefcafe", "0b1", "0B10", "0o7", "0O17", "123456789012345678901234567890", "3.141592653589793", "0.1e1", "2147483648"]);
            let text = ["", "a", "0", "use strict", "use asm", "__proto__", "get", "set", "if", "async", "yield", "let", "=>", "eval", "arguments", "default", "\u{e9}", "\u{1F600}", "/", "//", "/*", "*/", "/* */", "<!--", "-->", "${", "}", "${a}", "(", ")", "{", "[", "]", ";", ",", "=", "++", "\\n", "\\\n", "\\\r\n", "\\\u{2028}", "\\0", "\\'", "\\\"", "\\`", "\\\\", "\\x41", "\\u0041", "\\u{1F600}", "\\u2028", "\\a", "#", "@", "\0", "\t", "\u{a0}", "\u{feff}"];
            let mut strs: Vec<String> = vec![];
            for q in ["'", "\""] {
                strs.extend(text.iter().map(|t| format!("{}{}{}", q, t, q)));
                strs.push(format!("{}{}{}", q, long(300), q));
            }
            strs.extend(v(&["'\"'", "\"'\"", "'`'", "\"`\""]));
            let res = v(&["/a/", "/(?:)/", "/[/]/", "/[\\]/]/", "/\\//", "/a/gimuy", "/=/", "/=a/i", "/ /", "/\u{e9}/", "/\u{1F600}/u", "/'/", "/\"/", "/`/", "/\\{/", "/}/", "/\\)/", "/]/", "/./", "/[*]/", "/a*/", "/\\/*/", "/a\\/\\/b/", "/^$/", "/[^]/", "/[(]/", "/=>/", "/;/", "/,/", "/\\n/", "/a|b/", "/[\\/\\]]/"]);
            let tpl: Vec<String> = text.iter().filter(|t| !t.contains("${")).map(|t| t.to_string()).chain(v(&["$", "$$", "\\${", "$\\{", "\n", "\r\n", "\r", "\u{2028}", "'", "\"", "a\n\nb", "{}", "$}"])).collect();
            // (a backslash is never the last, and what is before a substitution does not end with a dollar that starts another)
            let vals = |names: Vec<String>| {
                [
                    names,
                    nums.clone(),
                    strs.clone(),
                    res.clone(),
                    tpl.iter().map(|t| format!("`{}`", t)).collect(),
                    tpl.iter().map(|t| format!("`{}${{", t)).collect(),
                    tpl.iter().map(|t| format!("}}{}${{", t)).collect(),
                    tpl.iter().map(|t| format!("}}{}`", t)).collect(),
                ]
            };
            let s = cx.all_sentences();
            j.push(Box::new(Subst { what: "the corpus", sents: s.clone(), vals: vals(one.clone()), all: false, cut: false }));
            j.push(Box::new(Subst { what: "the corpus", sents: s.clone(), vals: vals(names.clone()), all: true, cut: t }));
            let p = cx.programs(if t { 2 } else { 1 }, &[]);
            j.push(Box::new(Subst { what: "the shortest programs of all configurations", sents: p, vals: vals(names.clone()), all: true, cut: t }));
            // what cannot be told from a division, a brace or a name without its kind
            let pair: Vec<Vec<Tok>> = cx.seqs(&["STR ;", "STR ; STR", "STR NL STR NL a", "a ; STR", "function a ( ) { STR }", "function a ( ) { STR ; STR ; return b }", "function a ( b ) { STR NL return b }", "( ) => { STR }", "( { a ( ) { STR } } )", "( { STR ( ) { STR } } )", "class a { STR ( ) { STR } }", "class a { NUM ( ) { } static STR ( ) { } }", "( { STR : NUM , NUM : STR } )", "( { STR : a , NUM : b } = a )", "var { STR : a , NUM : b } = a", "import STR", "import a from STR", "export { a } from STR", "export * from STR", "NUM NL NUM", "NUM . a", "NUM [ a ]", "STR . a", "STR NOSUB", "NOSUB NOSUB", "RE NOSUB", "RE . a", "RE NL a", "a = RE NL b", "HEAD STR TAIL", "HEAD RE TAIL", "HEAD NOSUB TAIL", "HEAD NUM MID a TAIL", "a NOSUB NL b", "throw NOSUB", "NOSUB NL ++ a", "STR NL ++ a", "NUM NL - NUM", "a NL NOSUB", "switch ( a ) { case STR : STR default : STR }", "STR STR", "NUM NUM", "RE RE", "a STR", "a NUM", "STR a", "NUM a", "STR = a", "NUM ++", "NOSUB = a", "RE = a", "STR => a", "NUM => a", "( STR ) => a", "( NUM ) => a", "[ STR ] = a", "( { STR } )", "( { NUM } )", "( { a = STR } )", "function STR ( ) { }", "class STR { }", "import STR from STR", "import { STR as a } from STR", "export STR", "STR : a", "for ( STR of a ) ;", "for ( STR in a ) ;", "for ( NUM of a ) ;", "new STR", "new NUM ( )", "delete STR", "delete NUM", "delete RE . a", "( { a : b , a } )", "( { a : b , a ( ) { } , get a ( ) { } } )", "( { a : b , a : c } = d )", "( { a : b , a : c } ) => d", "( { STR : a , STR : b } = c )", "( { STR : a , [ STR ] : b } )", "async STR", "async NUM"]);
            j.push(Box::new(Subst { what: "literals in special places", sents: pair.clone(), vals: vals(one.clone()), all: false, cut: false }));
            j.push(Box::new(Subst { what: "literals in special places", sents: pair, vals: vals(names), all: true, cut: true }));
            let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain("$_".chars()).collect();
            let all: Vec<char> = letters.iter().cloned().chain('0'..='9').collect();
            let low: Vec<char> = ('a'..='z').chain("$_".chars()).collect();
            let texts = v(&[
                "@ ; @ \n @ ; @ / 2 / 3 ; @ ( ) ; @ [ 0 ] ; @ `t` ; @ => 1 ; ( @ ) => 2 ; ( { @ } ) ; ( { @ : 1 , [ @ ] : @ } ) ; ( { @ ( ) { } } ) ; x . @ ; @ : ; @ = 1 ; @ ++ ; ++ @ ; new @ ; typeof @ ; ( class { @ ( ) { } static @ ( ) { } get @ ( ) { } set @ ( x ) { } * @ ( ) { } async @ ( ) { } } ) ; ( { get @ ( ) { } , async @ ( ) { } , * @ ( ) { } } ) ; async ( @ ) ; async @ => 3 ; for ( @ in x ) ; for ( @ ; ; ) { break } ; ( { @ } = { } ) ; ( { x : @ } = { } ) ; [ @ ] = [ ] ; @ ? @ : @ ; @ . x ; `${ @ }` ; ( @ , @ ) ; @ in x ; @ instanceof x ; do @ ; while ( @ ) if ( @ ) @ ; else @",
                "{ let @ ; } { const @ = 1 ; } { var @ ; } { class @ { } } { function @ ( ) { } } ( function @ ( ) { } ) ; ( class @ { } ) ; try { } catch ( @ ) { } function f1 ( @ , [ y = @ ] ) { } { let { @ } = x , { z : w = @ } = x , { @ : v } = x , [ u = @ , ... s ] = x ; } function * g1 ( ) { yield @ ; yield * @ ; } async function h1 ( ) { await @ ; } @ : for ( ; ; ) { break @ ; continue @ ; } switch ( @ ) { case @ : @ ; default : @ } for ( let @ of @ ) ; for ( const @ in @ ) ; for ( var @ ; ; ) break ; throw @",
                "import @ from 'm' ; export { @ } ; export { @ as x } ; export { @ as default } ; export { y as @ } from 'n' ; export { @ as z } from 'n' ; import { @ as z1 } from 'k' ; import { z2 as @ } from 'k'",
                "import { @ } from 'm' ; export default @",
                "import * as @ from 'm' ; export class @ { } export function @ ( ) { } export let @ ; export var @ = 1",
                "import x1 , { @ } from 'm' ; export default class @ { }",
                "import x1 , * as @ from 'm' ; export default function @ ( ) { }",
            ]);
            let near: Vec<String> = RESERVED.iter().chain(NAMES).filter(|w| w.len() > 1).map(|w| w.to_string()).chain(v(&["arguments"])).collect();
            j.push(Box::new(Names { texts: texts.clone(), first: if t { letters.clone() } else { low.clone() }, rest: if t { all.clone() } else { low.clone() }, len: 3, near: near.clone(), two: t }));
            j.push(Box::new(Names { texts: texts[..2].to_vec(), first: letters, rest: all, len: 2, near, two: false }));
            if t {
                j.push(Box::new(Names { texts: texts[..2].to_vec(), first: low.clone(), rest: low, len: 4, near: vec![], two: false }));
            }
        }
        "C26" => return crate::cli::jobs(cx).into(),
        _ => return None,
    }
    Some(j)
}
impl Ctx {
    pub fn corpus(&mut self) -> (Vec<Vec<Tok>>, Vec<Vec<Tok>>) {
        let a = self.all_sentences();
        let p = self.programs(1, &[]);
        (a, p)
    }
}
