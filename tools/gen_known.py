#!/usr/bin/env python3
"""Writes /verif/known-findings.txt from the fix commits (subject -> property, failing input)."""
import subprocess
F=[
("read CRLF as one line terminator","C03","\"\\r\\n\" between tokens was reported as two line terminators, each ending a line"),
("number lines from one","C03","the first token of every text was reported on line 0, documented as 1-indexed"),
("skip all white space","C09","U+2003, U+1680, U+FEFF between tokens were not skipped, or skipped in half"),
("read --> as","C04","\"-->\" was taken for a comment, although HTML-like comments do not exist in modules"),
("values and first digit of hexadecimal","C05","\"0x1F\" had a wrong value, \"0x\" was accepted"),
("read the exponent of 0e5","C05","\"0e5\" ended after the 0; \"1e\" was accepted"),
("values of decimal literals","C05","1e400, 1e-400 and long digit strings overflowed or had wrong values"),
("read non-ASCII identifiers","C10","\"é\" was not an identifier; an unknown character such as \"#\" was an endless loop or a wrong token"),
("reject identifiers and digits directly","C05","\"3in x\", \"0b12\" and \"08\" were accepted"),
("reject regular expressions with line","C08","a line terminator inside of \"/a\\nb/\" was accepted"),
("read all identifier characters after","C08","flags other than a few letters ended the token"),
("decode string escapes","C06","escapes were kept as they were written, \"'\\x4'\" and unterminated strings were accepted"),
("decode templates","C07","template escapes were not decoded, CRLF was kept in the raw text"),
("do not keep the expression hint","C12","a hint given for a token already read applied to a later one: \"a = b\\n/c/d\""),
("read a slash after this and literal","C12","\"this / a / b\" was read with a regular expression"),
("read a slash at the start of a statement","C12","\";/r/\" at the start of a statement was read as division"),
("read a slash at the start of an expression","C12","\"[/r/]\" was read as division"),
("read a slash after an arrow function body","C12","\"a => {}\\n/r/g\" was read as division"),
("allow the in operator everywhere","C17","\"(a in b)\" in parentheses, initializers and bodies was rejected in places"),
("reserve yield and await","C22","\"yield\" and \"let\" were names in modules, \"yield\" was reserved inside of no generator only"),
("parse yield only in generators","C18","\"yield\" outside of a generator was an expression; \"yield *\" needed no operand"),
("do not allow yield and await in getters","C18","\"function* a() { ({ get b() { yield } }) }\" was accepted"),
("allow await but not yield in the body of async","C18","\"async (a) => { await a }\" was rejected"),
("end throw statements","C14","\"throw a b\" and \"throw\\na\" were accepted"),
("require a catch or finally","C16","\"try {}\" was accepted"),
("do not take reserved words as labels","C22","\"default: a\" was a labelled statement, so switch bodies with one after a case were rejected"),
("parse several spread arguments","C15","\"f(...a, ...b)\" was rejected"),
("parse new.target","C15","\"new.target\" was rejected"),
("parse the name, heritage and body of class","C19","\"(class {})\" was rejected"),
("require a single expression and names in nested","C21","\"export default a, b\" and a nameless function inside of an exported one were accepted"),
("parse exported classes","C21","\"export class a {}\" was rejected, \"export var a\" wanted two semicolons"),
("parse async functions","C18","\"async function a() {}\" and \"a\\nfunction b() {}\" were rejected"),
("tell methods named async","C19","\"({ async() { await 1 } })\" was accepted, and \"({ get *a() {} })\""),
("parse the properties of object literals","C19","\"({,})\", \"({ 1 })\" and \"({ get a: 1 })\" were accepted, \"({ a = 1 } = b)\" rejected"),
("do not allow a line break in front of an arrow","C14","\"a\\n=> b\" was accepted"),
("parse a trailing comma in arrow parameters","C18","\"(a,) => b\" was rejected, \"()\" accepted"),
("require an expression in computed","C19","\"({ []: 1 })\" was accepted"),
("accept only identifiers as shorthand binding","C20","\"var { 'a' } = b\" was accepted"),
("reject reserved words as the local names","C21","\"import { if } from 'm'\" was accepted"),
("parse default values of setter","C19","\"({ set a(b = 1) {} })\" was rejected"),
("accept and reject the heads","C17","\"for (let a, b;;);\" was rejected, \"for (in a);\" accepted"),
("reject function and class declarations as the body","C16","\"if (a) class b {}\" was accepted"),
("reject return outside","C16","\"return\" at the top level and \"with\" in a module were accepted"),
("reject a unary operator in the base","C15","\"-a ** b\" was accepted"),
("read a slash after an export clause","C12","\"export {}\\n/r/g\" was rejected"),
("do not take the end of a substitution","C13","\"function* a() { `${yield}` }\" was rejected"),
("do not allow yield and await in the parameters","C18","\"function* a(b = yield) {}\" and \"async function a(b = await c) {}\" were accepted"),
("require a property or call after super","C15","\"super\" alone, as in \"a = super;\", was accepted"),
("give the first arguments to the innermost","C28","\"new new a().b = c\" was accepted"),
("reject invalid arrow function heads","C28","\"a.b => c\" and \"(a + b) => c\" were accepted"),
("do not allow eval and arguments","C22","\"eval = 1\" and \"var arguments;\" were accepted, although modules are strict"),
("do not allow variables to be deleted","C28","\"delete a;\" was accepted, although modules are strict"),
("do not fail on file names","C26","a valid file with the name \"\\xff\" could not be parsed"),
("let tokenizers be copied","C30","Clone of the tokenizer, which the Tokenizer trait requires, always failed with \"not implemented\""),
("reject invalid assignment targets","C28","\"1 = 2\", \"a + b = c\" and \"++ ++ a\" were accepted"),
]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=["# One line per finding. \"fixed\" entries suppress nothing; a \"known\" entry is",
"#   known: property=<id> text=<the failing text, with \\n, \\r and \\s> -- <what fails>",
"# and makes the check of that property report that very text as KNOWN-FINDING.",""]
used=set()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    m=[(i,f) for i,f in enumerate(F) if s[5:].startswith(f[0])]
    assert len(m)==1,(s,m)
    i,(pre,pid,what)=m[0]; used.add(i)
    out.append(f"fixed: property={pid} {h} {what}")
for l in open("/verif/tools/known_deep.txt").read().splitlines():
    out.append("known: property=C24 text="+l+" -- the parser recurses once per nesting level without a limit and overflows the stack")
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
print(len(out), [F[i][0] for i in range(len(F)) if i not in used])
