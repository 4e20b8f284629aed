//! Token-level building blocks. Words are separated by blanks, `@` is a hole.

/// Complete expressions.
pub const EXPR: &[&str] = &[
    "a", "this", "null", "true", "NUM", "STR", "RE", "NOSUB", "HEAD a TAIL", "HEAD a MID b TAIL",
    "[ ]", "[ a ]", "[ , ]", "[ a , , b ]", "[ a , ]", "[ ... a ]", "[ ... a , b , ]", "( a )", "( a , b )",
    "( { } )", "( { a } )", "( { a : b } )", "( { a , b , } )", "( { STR : a , NUM : b } )", "( { [ a ] : b } )",
    "( { ... a , b } )", "( { a ( ) { } } )", "( { get a ( ) { } , set a ( b ) { } } )", "( { * a ( ) { yield } } )",
    "( { async a ( ) { await b } } )", "( { get , set , async , a } )", "( { get : a , set : a , static : a , async : a } )",
    "( { get ( ) { } , set ( ) { } , async ( ) { } , static ( ) { } } )", "( { if : a , in : a , new ( ) { } } )",
    "( { get if ( ) { } , async in ( ) { } , * for ( ) { } , get [ a ] ( ) { } , get STR ( ) { } , async NUM ( ) { } } )",
    "( function ( ) { } )", "( function a ( ) { } )", "( function * ( ) { yield a } )", "( function * a ( ) { yield * a ; yield } )",
    "( async function ( ) { await a } )", "( async function a ( ) { } )", "( class { } )", "( class a { } )",
    "( class extends b { } )", "( class a extends b { a ( ) { super . a ; super [ a ] ; super ( ) } } )",
    "a . b", "a . if", "a [ b ]", "a [ b , a ]", "a NOSUB", "a HEAD b TAIL", "a ( )", "a ( b )", "a ( b , a )", "a ( b , )",
    "a ( ... b )", "a ( ... b , a )", "a ( ... b , ... a , )", "a ( ) ( ) . b [ a ] NOSUB", "new a", "new a ( )", "new a ( b , ... a )",
    "new a . b ( )", "new a [ b ]", "new new a ( ) ( )", "new a NOSUB", "new ( a ( ) ) ( )", "new a ( ) . b", "new . target", "new new . target",
    "a ++", "a --", "++ a", "-- a", "++ a . b", "a [ b ] ++", "( a ) ++", "delete a . b", "delete a ( )", "delete ( a , b )", "delete ( a . b )", "delete - a", "eval ( a )", "eval . a = b", "void NUM", "typeof a", "+ a", "- a", "~ a", "! a",
    "- - a", "+ + a", "! ! a", "typeof typeof a", "- ++ a", "- a ++",
    "a ** b", "a ** b ** a", "a ++ ** b", "( - a ) ** b", "a ** - b", "a * b", "a / b", "a % b", "a + b", "a - b", "a << b", "a >> b", "a >>> b",
    "a < b", "a > b", "a <= b", "a >= b", "a instanceof b", "a in b", "a == b", "a != b", "a === b", "a !== b", "a & b", "a ^ b",
    "a | b", "a && b", "a || b", "a + b * a - b / a", "a || b && a | b ^ a & b == a < b << a + b * a ** b",
    "a ** b * a + b << a < b == a & b ^ a | b && a || b", "a ? b : a", "a ? b : a ? b : a", "a ? b ? a : b : a", 
    "a = b", "a = b = a", "a . b = a", "a [ b ] = a", "a *= b", "a /= b", "a %= b", "a += b", "a -= b", "a <<= b", "a >>= b", "a >>>= b", "a &= b",
    "a ^= b", "a |= b", "a **= b", "a ( ) . b = a", "( a ) = b", "a = b ? a : b", "a = b , b = a",
    "[ a ] = b", "[ a , b ] = a", "[ a , , ... b ] = a", "[ a = b ] = a", "[ [ a ] , { b } ] = a", "[ a . b , a [ b ] ] = a", "[ ... [ a ] ] = b",
    "( { a } = b )", "( { a = b } = a )", "( { a : b = a } = b )", "( { a : [ b ] , b : { a } } = b )", "( { a : b . a } = b )", "( { [ a ] : b } = a )", "( { } = a )", "[ ] = a",
    "( { a , } = b )", "( { a , b = a , STR : a , NUM : b } = a )", "[ { a = b } ] = a", "( { a : { b = a } } = b )",
    "a => b", "( ) => a", "( a ) => b", "( a , b ) => a", "( a , ) => b", "( ... a ) => b", "( a , ... b ) => a", "( a , ... [ b ] ) => a",
    "( a = b ) => a", "( { a } ) => b", "( { a = b } ) => b", "( { a : b = a } = { } ) => b", "( [ a , b = a , ... a ] ) => b", "( [ a ] = [ ] ) => b",
    "a => { }", "( ) => { }", "a => { return b }", "a => b => a", "( ) => ( { } )", "a => [ ]", "( ) => ( ) => { }", "a => b ? a : b", "a => b = a",
    "async a => b", "async ( ) => a", "async ( a ) => await a", "async a => await a", "async ( a , b ) => { await a }", "async ( a , ... b ) => a",
    "async ( { a } ) => a", "async ( a = b ) => a", "async a => { await b }", "async => a", "async ( )", "async ( a )", "async", "async . a", "async + a", "async [ a ]", "async = a", "async ++", "async NOSUB", "async ? a : b", "async ( ) ( )", "async ( ) . a",
    "async => { }", "async of => a", "of", "get", "set", "from", "as", "target", "of => a", "get = a", "undefined", "constructor",
    "( a => b )", "( a => b ) ( )", "( ( a ) )", "( a = b )", "( a ) . b", "( a ) [ b ]", "( a ) ( b )", "( [ a ] )", "( async a => b )",
    "( function ( ) { } ( ) )", "( function ( ) { } ) ( )", "( class { } ) . a", "[ a ] . b", "[ a ] [ b ]", "STR . a", "RE . a", "RE / a", "a / RE . b", "NOSUB . a", "this . a", "this / a", "null / a", "true / a", "false / a", "( a ) / b", "[ a ] / b", "a ( ) / b", "a [ b ] / a", "a . b / a", "a ++ / b", "NOSUB / a", "HEAD a TAIL / b", "( { } ) / a", "NUM / a", "STR / a", "( function ( ) { } ) / a", "( function ( ) { } / a )", "( { } / a )", "( class { } / a )", "new . target / a", "async / a", "a . if / b", "a . return / b", "a /= RE",
    "- RE", "! RE . a", "typeof RE", "a + RE", "a ? RE : RE", "a = RE", "a , RE", "( RE )", "[ RE ]", "[ RE , RE ]", "[ ... RE ]", "a ( RE )", "a ( RE , RE )", "a ( ... RE )", "a [ RE ]", "HEAD RE TAIL", "HEAD RE MID RE TAIL", "HEAD a / b TAIL", "( { a : RE } )", "( { [ RE ] : RE } )", "( { ... RE } )", "a => RE", "( ) => RE", "( a = RE ) => b", "async a => RE", "async ( ) => RE", "( { a = RE } = b )", "[ a = RE ] = b", "new ( RE )", "a && RE", "a in RE", "a instanceof RE", "delete RE", "void RE", "a ** RE", "new RE . a",
    "HEAD HEAD a TAIL TAIL", "HEAD ( { } ) TAIL", "HEAD { } TAIL", "HEAD { a : { } } TAIL", "HEAD function ( ) { } TAIL", "HEAD function ( ) { { } } TAIL", "HEAD class { a ( ) { } } TAIL", "HEAD a => { } TAIL", "HEAD ( ) => { { } } MID a TAIL", "HEAD { a ( ) { } , b } MID { } TAIL", "HEAD a , b TAIL", "HEAD a = b TAIL", "HEAD a ? b : a TAIL", "HEAD { a } = b TAIL", "HEAD ( { a } ) => b TAIL", "HEAD function ( { a } ) { switch ( a ) { } } TAIL", "HEAD a in b TAIL", "HEAD async function ( ) { await a } TAIL",
    "HEAD NOSUB TAIL", "HEAD HEAD { } MID { } TAIL MID { } TAIL",
];

/// Expression contexts: an expression with an expression hole.
pub const EXPR_CTX: &[&str] = &[
    "( @ )", "( a , @ )", "( @ , a )", "[ @ ]", "[ a , @ , ]", "[ ... @ ]", "a ( @ )", "a ( b , @ )", "a ( ... @ )", "a ( ... @ , b )", "a [ @ ]", "a [ @ ] . b", "HEAD @ TAIL", "HEAD @ MID a TAIL", "HEAD a MID @ TAIL", "a HEAD @ TAIL",
    "( { a : @ } )", "( { a : @ , b } )", "( { [ @ ] : a } )", "( { [ @ ] ( ) { } } )", "( { ... @ } )", "( { a = @ } = b )", "( { a : b = @ } = a )", "[ a = @ ] = b",
    "( { a ( b = @ ) { } } )", "( { a ( ) { @ } } )", "( { get a ( ) { return @ } } )", "( { set a ( b = @ ) { } } )", "( { * a ( ) { @ } } )", "( { async a ( ) { @ } } )",
    "( function ( ) { @ } )", "( function ( a = @ ) { } )", "( function * ( ) { @ } )", "( function * ( ) { yield @ } )", "( function * ( ) { yield * @ } )", "( async function ( ) { @ } )", "( async function ( ) { await @ } )",
    "( function ( ) { return @ } )", "( function ( ) { return @ ; } )", "( class extends @ { } )", "( class { a ( ) { @ } } )", "( class { [ @ ] ( ) { } } )", "( class { static a ( b = @ ) { @ } } )", "( class { get [ @ ] ( ) { } } )",
    "a => @", "( ) => @", "( a = @ ) => b", "( { a = @ } ) => b", "( [ a = @ ] ) => b", "( { [ @ ] : a } ) => b", "a => { @ }", "a => { return @ ; }", "async a => @", "async ( ) => @", "async a => { @ }", "async a => await @", "async ( a = @ ) => b",
    "a = @", "a += @", "a ? @ : b", "a ? b : @", "@ ? a : b", "a + @", "@ + a", "a && @", "@ || a", "a in @", "@ in a", "a instanceof @", "a ** @", "@ ** a", "- @", "! @", "typeof @", "delete @", "void @", "++ @", "@ ++", "@ . a", "@ [ a ]", "@ ( )", "@ ( a )", "@ NOSUB", "@ HEAD a TAIL", "@ = a", "@ => a", "new @", "new @ ( )", "new ( @ )", "@ / a", "a / @", "@ , a", "a , @", "yield @", "await @",
];

/// Statement contexts with an expression hole.
pub const STMT_EXPR: &[&str] = &[
    "@ ;", "a = @ ;", "if ( @ ) ;", "while ( @ ) ;", "do ; while ( @ )", "for ( @ ; ; ) ;", "for ( ; @ ; ) ;", "for ( ; ; @ ) ;", "for ( a in @ ) ;", "for ( a of @ ) ;", "for ( var a of @ ) ;", "for ( let a in @ ) ;", "for ( var a = @ ; ; ) ;", "for ( let a = @ , b ; ; ) ;", "for ( let a , b = @ ; ; ) ;", "for ( const a = @ ; ; ) ;", "for ( let { a = @ } of b ) ;", "for ( let [ a = @ ] = b ; ; ) ;", "for ( @ in a ) ;", "for ( @ of a ) ;",
    "switch ( @ ) { }", "switch ( a ) { case @ : }", "switch ( a ) { default : @ }", "throw @ ;", "var a = @ ;", "let a = @ ;", "const a = @ , b = @ ;", "var { a = @ } = b ;", "let [ a = @ ] = b ;", "let { [ @ ] : a } = b ;", "let { a : b = @ } = a ;",
    "function a ( ) { return @ ; }", "function a ( b = @ ) { }", "function a ( { b = @ } ) { }", "function * a ( ) { @ ; }", "function * a ( ) { yield @ ; }", "async function a ( ) { @ ; }", "async function a ( ) { await @ ; }", "function a ( ) { @ }", "class a extends @ { }", "class a { [ @ ] ( ) { } }", "class a { b ( ) { @ ; } }", "class a { b ( a = @ ) { } }", "class a { * b ( ) { @ } }", "class a { async b ( ) { @ } }", "class a { static get b ( ) { return @ } }", "class a { set b ( a = @ ) { @ } }", "export default @ ;", "export var a = @ ;", "export let a = @ ;", "export const a = @ ;", "export function a ( ) { @ }", "export default function ( ) { @ }", "export default class { a ( ) { @ } }", "export default async function ( ) { @ }", "export default function * ( ) { @ }", "{ @ }", "{ @ ; }", "a : @ ;", "try { @ } catch ( a ) { @ } finally { @ }", "try { } catch ( { a = @ } ) { }", "if ( a ) @ ; else @ ;", "do @ ; while ( a )", "for ( a of b ) @ ;", "while ( a ) @ ;",
];

/// Complete statements and declarations.
pub const STMT: &[&str] = &[
    ";", "{ }", "{ a }", "{ a ; }", "{ { } }", "a ;", "var a ;", "var a = b ;", "var a , b = a ;", "var { a } = b ;", "var [ a ] = b , a ;", "let a ;", "let a = b , b ;", "let { a } = b ;", "let [ a , b ] = a ;", "const a = b ;", "const { a } = b , b = a ;",
    "if ( a ) ;", "if ( a ) b ;", "if ( a ) b ; else a ;", "if ( a ) { } else { }", "if ( a ) if ( b ) ; else ; else ;", "if ( a ) { } else if ( b ) { } else { }", "do ; while ( a ) ;", "do { } while ( a )", "do a ; while ( b ) ;", "while ( a ) ;", "while ( a ) { }",
    "for ( ; ; ) ;", "for ( a ; b ; a ) ;", "for ( var a ; ; ) ;", "for ( var a = b , b ; a ; b ) { }", "for ( let a ; ; ) ;", "for ( let a , b ; ; ) ;", "for ( let a = b , b ; ; ) ;", "for ( const a = b ; ; ) ;", "for ( a in b ) ;", "for ( var a in b ) ;", "for ( let a in b ) ;", "for ( const a in b ) ;", "for ( a of b ) ;", "for ( var a of b ) ;", "for ( let a of b ) ;", "for ( const a of b ) ;", "for ( let { a } of b ) ;", "for ( let [ a ] in b ) ;", "for ( var { a } in b ) ;", "for ( const [ a ] of b ) ;", "for ( [ a ] of b ) ;", "for ( { a } of b ) ;", "for ( a . b in a ) ;", "for ( a [ b ] of a ) ;", "for ( a in b , a ) ;", "for ( let of of of ) ;", "for ( let { a } = b , b ; ; ) ;", "for ( var [ a ] = b ; ; ) ;", "for ( a = b ; ; ) ;", "for ( a = b , b = a ; ; ) ;", "for ( a ( ) ; b ( ) ; a ++ ) ;", "for ( ( a in b ) ; ; ) ;", "for ( [ a in b ] ; ; ) ;", "for ( a [ a in b ] ; ; ) ;", "for ( a ( a in b ) ; ; ) ;", "for ( HEAD a in b TAIL ; ; ) ;", "for ( var a = ( a in b ) ; ; ) ;", "for ( var a = function ( ) { a in b } ; ; ) ;", "for ( var a = ( ) => { a in b } ; ; ) ;", "for ( a = class { b ( ) { a in b } } ; ; ) ;", "for ( a = { b : a in b } ; ; ) ;", "for ( a = { [ a in b ] : b } ; ; ) ;", "for ( a = b ? a in b : a ; ; ) ;", "for ( var a = [ a in b ] , b = { a : a in b } ; a in b ; a in b ) a in b ;", "for ( let a = ( a = b in a ) => b ; ; ) ;", "for ( let { a = b in a } = b ; ; ) ;", "for ( let { [ a in b ] : a } of b ) ;", "for ( a of b in a ) ;", "for ( a in b in a ) ;", "for ( var a of [ b in a ] ) ;", "for ( a . in of a ) ;", "for ( let a of ( b , a ) ) ;", "for ( let async of b ) ;", "for ( let [ a ] = b ; ; ) ;",  "for ( this . a of b ) ;", "for ( ( a ) of b ) ;", "for ( ( a . b ) in b ) ;", "for ( a ( ) . b of b ) ;", "for ( var a of b ) for ( var b in a ) ;",
    "switch ( a ) { }", "switch ( a ) { case b : }", "switch ( a ) { case b : case a : a ; default : b }", "switch ( a ) { default : case b : break ; }", "switch ( a ) { default : }", "switch ( a ) { case a , b : { } }", "switch ( a ) { case b : let a ; function b ( ) { } class c { } }",
    "for ( ; ; ) break ;", "for ( ; ; ) continue ;", "a : for ( ; ; ) break a ;", "a : for ( ; ; ) continue a ;", "a : b : ;", "a : { break a ; }", "async : ;", "get : ;", "of : ;",
    "throw a ;", "throw a , b ;", "throw new a ( ) ;", "try { } catch ( a ) { }", "try { } finally { }", "try { } catch ( a ) { } finally { }", "try { } catch ( { a } ) { }", "try { } catch ( [ a ] ) { }", "debugger ;",
    "function a ( ) { }", "function a ( b ) { return b ; }", "function a ( a , b = a , ... c ) { }", "function a ( { a } , [ b ] ) { }", "function a ( b , ) { }", "function a ( ... [ b ] ) { }", "function a ( { a : b = a } = { } , [ b ] = [ ] ) { }", "function a ( ) { return }", "function a ( ) { return ; }", "function a ( ) { return b }", "function * a ( ) { yield }", "function * a ( ) { yield a }", "function * a ( ) { yield * a ; }", "function * a ( ) { a = yield b ; }", "function * a ( ) { a ( yield , yield b ) }", "function * a ( ) { [ yield ] ; ( yield ) ; a [ yield b ] ; }",  "async function a ( ) { await b ; }", "async function a ( ) { a = await b + await a ; }", "async function a ( ) { await await a }", "async function a ( b , c = a ) { }", "async function a ( ) { function b ( ) { } await a }", "function * a ( ) { function b ( ) { } yield a }", "function * a ( ) { a => b ; yield a }", "function * a ( ) { ( { a ( ) { } } ) ; yield a }", "function * a ( ) { class b { a ( ) { } * b ( ) { yield } } yield a }", "async function a ( ) { ( { async b ( ) { await a } , c ( ) { } } ) ; await a }", "async function a ( ) { ( ) => { } ; await a }", "async function a ( ) { for ( a of await b ) ; }", "async function a ( ) { - await b ; ! await b ; typeof await a }", "async function a ( ) { await RE ; await ( a ) ; await [ a ] ; await a ( ) }", "function * a ( ) { yield RE ; yield ( a ) ; yield [ a ] , b ; yield - a ; yield { } ; yield function ( ) { } }", "function a ( ) { new . target }", "function a ( ) { async ( ) ; async => a ; async }",
    "class a { }", "class a extends b { }", "class a extends b . a { }", "class a extends b ( ) { }", "class a extends ( a , b ) { }", "class a extends class { } { }", "class a { ; }", "class a { b ( ) { } }", "class a { b ( ) { } ; b ( ) { } }", "class a { constructor ( ) { super ( ) ; } }", "class a { static b ( ) { } }", "class a { static static ( ) { } }", "class a { static ( ) { } }", "class a { get b ( ) { } set b ( a ) { } }", "class a { static get b ( ) { } static set b ( a ) { } }", "class a { get ( ) { } set ( ) { } async ( ) { } }", "class a { static get ( ) { } static set ( ) { } static async ( ) { } }", "class a { * b ( ) { yield } }", "class a { static * b ( ) { yield } }", "class a { async b ( ) { await a } }", "class a { static async b ( ) { await a } }", "class a { [ a ] ( ) { } STR ( ) { } NUM ( ) { } if ( ) { } }", "class a { get [ a ] ( ) { } set STR ( b ) { } get NUM ( ) { } get if ( ) { } }", "class a { * [ a ] ( ) { } * STR ( ) { } async [ a ] ( ) { } async STR ( ) { } async NUM ( ) { } async if ( ) { } }", "class a { get get ( ) { } set set ( a ) { } get set ( ) { } set get ( a ) { } async get ( ) { } async set ( ) { } async async ( ) { } async static ( ) { } get static ( ) { } get async ( ) { } * get ( ) { } * async ( ) { } * static ( ) { } }", "class a { static get static ( ) { } static async async ( ) { } static * static ( ) { } static [ a ] ( ) { } static STR ( ) { } static if ( ) { } }", "class a { set b ( { a } ) { } set c ( [ a ] = [ ] ) { } set a ( b = a ) { } }", "class a { b ( a , b = a , ... a ) { } c ( { a } , [ b ] ) { } }",
];


/// Module items.
pub const MODULE: &[&str] = &[
    "import a from STR ;", "import * as a from STR ;", "import { } from STR ;", "import { a } from STR ;", "import { a , b } from STR ;", "import { a , } from STR ;", "import { a as b } from STR ;", "import { if as a , default as b , a as c , } from STR ;", "import a , * as b from STR ;", "import a , { b } from STR ;", "import a , { } from STR ;", "import STR ;", "import { as , from , of } from STR ;", "import { as as as } from STR ;", "import from from STR ;", "import * as as from STR ;", "import as , { a } from STR ;", "import async from STR ;", "import { get as set } from STR ;",
    "export * from STR ;", "export { } ;", "export { a } ;", "export { a , b } ;", "export { a , } ;", "export { a as b } ;", "export { a as if , b as default , c as in , } ;", "export { } from STR ;", "export { a } from STR ;", "export { if } from STR ;", "export { if as for , default } from STR ;", "export { default as a , } from STR ;", "export { as as as } ;", "export { from , as , of , get } ;", "export { a as from } from STR ;",
    "export var a ;", "export var a = b , b ;", "export let a ;", "export let a = b , { b } = a ;", "export const a = b ;", "export const [ a ] = b ;", "export var { a } = b ;",
    "export function a ( ) { }", "export function * a ( ) { yield }", "export async function a ( ) { await b }", "export class a { }", "export class a extends b { c ( ) { } }",
    "export default a ;", "export default a = b ;", "export default ( a , b ) ;", "export default function ( ) { }", "export default function a ( ) { }", "export default function * ( ) { yield }", "export default function * a ( ) { yield a }", "export default async function ( ) { await a }", "export default async function a ( ) { await a }", "export default class { }", "export default class a { }", "export default class extends a { }", "export default class a extends b { }", "export default ( function ( ) { } ) ( ) ;", "export default a => b ;", "export default ( ) => { } ;", "export default async ( ) => { } ;", "export default async a => b ;", "export default async ( a ) ;", "export default async ;", "export default [ a ] ;", "export default { a } ;", "export default { } ;", "export default RE ;", "export default NOSUB ;", "export default ( class { } ) . a ;", "export default HEAD a TAIL ;", "export default new a ( ) ;", "export default typeof a ;", "export default a ? b : c ;", "export default from ;", "export default get ;",
    "export default function ( ) { } RE . a ;", "export default class { } RE . a ;", "export function a ( ) { } RE . a ;", "export { a } ; RE . a ;", "import STR ; RE . a ;", "import { a } from STR NL RE . a ;", "export * from STR NL RE . a ;", "export default a / b / c ;", "export default function ( ) { } ( a ) ;", "export default function ( ) { } NUM", "export default class { } [ a ]",
];

/// Binding patterns.
pub const PAT: &[&str] = &[
    "{ }", "{ a }", "{ a , b }", "{ a , }", "{ a = b }", "{ a = b , c = a , }", "{ a : b }", "{ a : b = c }", "{ a : b , c }", "{ STR : a }", "{ NUM : a = b }", "{ [ a ] : b }", "{ [ a + b ] : b = c }", "{ if : a }", "{ if : a = b , in : b }", "{ get , set , async , of }", "{ get : a , set : b , static : c }", "{ async = a }", "{ a : { b } }", "{ a : [ b ] }", "{ a : { b } = c }", "{ a : [ b ] = c , }", "{ a : { b : { c } } }",
    "[ ]", "[ , ]", "[ , , ]", "[ a ]", "[ a , ]", "[ a , b ]", "[ a , , b ]", "[ , a ]", "[ , , a , , ]", "[ a = b ]", "[ a = b , c = a ]", "[ ... a ]", "[ a , ... b ]", "[ , ... a ]", "[ a , , ... b ]", "[ ... [ a ] ]", "[ ... { a } ]", "[ { a } ]", "[ { a } = b ]", "[ [ a ] ]", "[ [ a ] = b , { c } = a ]", "[ [ ] , { } ]", "[ get , set , async ]",
];
/// Where a binding pattern stands.
pub const PAT_CTX: &[&str] = &[
    "var @ = a ;", "let @ = a ;", "const @ = a ;", "var b , @ = a , c ;", "let @ = a , @ = b ;", "for ( var @ = a ; ; ) ;", "for ( let @ = a ; ; ) ;", "for ( const @ = a , b = c ; ; ) ;", "for ( var @ in a ) ;", "for ( let @ in a ) ;", "for ( const @ in a ) ;", "for ( var @ of a ) ;", "for ( let @ of a ) ;", "for ( const @ of a ) ;", "try { } catch ( @ ) { }", "try { } catch ( @ ) { } finally { }",
    "function a ( @ ) { }", "function a ( @ = b ) { }", "function a ( b , @ , c ) { }", "function a ( ... @ ) { }", "function a ( b , ... @ ) { }", "function a ( @ , ) { }", "function * a ( @ ) { }", "async function a ( @ ) { }", "( function ( @ ) { } )", "( @ ) => a", "( @ = b ) => a", "( b , @ ) => { }", "( ... @ ) => a", "( b , ... @ ) => a", "async ( @ ) => a", "async ( ... @ ) => a", "async ( @ = b ) => a", "( { a ( @ ) { } } )", "( { set a ( @ ) { } } )", "class a { b ( @ ) { } }", "class a { set b ( @ ) { } }", "class a { set b ( @ = c ) { } }", "class a { constructor ( b , ... @ ) { } }", "export var @ = a ;", "export let @ = a ;", "export const @ = a ;", "export function a ( @ ) { }", "export default function ( @ ) { }", "( { * a ( @ ) { } } )", "( { async a ( @ ) { } } )",
    "@ = a ;", "( @ = a ) ;", "a = @ = b ;", "for ( @ in a ) ;", "for ( @ of a ) ;", "[ @ ] = a ;", "[ @ = a ] = b ;", "( { a : @ } = b ) ;", "( { a : @ = b } = c ) ;", "[ ... @ ] = a ;", "[ a , ... @ ] = b ;", "for ( @ = a ; ; ) ;", "a = @ ;", "( @ ) ;", "var @ ;", "let @ ;", "const @ ;", "@ ;", "for ( @ ; ; ) ;", "a ( @ ) ;", "@ => a", "class @ { }", "import @ from STR ;", "export @ ;", "for ( let @ ; ; ) ;", "@ += a ;", "[ ... @ , a ] = b ;", "function a ( ... @ , b ) { }", "function a ( ... @ = b ) { }", "( { ... @ } ) ;", "( ... @ , a ) => b", "( ... @ ) ;",
];

/// Object literal members, and (those that are methods) class members; then near misses.
pub const MEMBER: &[&str] = &[
    "a", "a : b", "STR : a", "NUM : a", "[ a ] : b", "if : a", "... a", "a ( ) { }", "STR ( ) { }", "NUM ( a ) { }", "[ a ] ( ) { }", "if ( ) { }", "get a ( ) { }", "set a ( b ) { }", "get STR ( ) { }", "set NUM ( a ) { }", "get [ a ] ( ) { }", "set [ a ] ( { b } ) { }", "get if ( ) { }", "set in ( a = b ) { }", "* a ( ) { }", "* STR ( ) { yield }", "* [ a ] ( ) { yield * a }", "* if ( ) { }", "async a ( ) { await b }", "async STR ( ) { }", "async [ a ] ( ) { }", "async NUM ( ) { }", "async if ( ) { }", "get", "set", "async", "of", "get : a", "set : a", "async : a", "static : a", "get ( ) { }", "set ( ) { }", "async ( ) { }", "static ( ) { }", "get get ( ) { }", "set set ( a ) { }", "async async ( ) { }", "get set ( ) { }", "set get ( a ) { }", "async get ( ) { }", "get async ( ) { }", "get static ( ) { }", "async static ( ) { }", "* get ( ) { }", "* set ( ) { }", "* async ( ) { }", "* static ( ) { }", "a ( b , c = d , ... e ) { return super . a }", "constructor ( ) { }", "get constructor ( ) { }", "static a ( ) { }", "static get a ( ) { }", "static set a ( b ) { }", "static * a ( ) { }", "static async a ( ) { }", "static static ( ) { }", "static [ a ] ( ) { }", "static get ( ) { }", "static async ( ) { }", "static STR ( ) { }", "static get [ a ] ( ) { }", "static async [ a ] ( ) { await a }", ";", "",
    "a ( )", "a { }", "get a ( b ) { }", "set a ( ) { }", "set a ( b , c ) { }", "set a ( ... b ) { }", "get a", "* a", "async a", "async * a", "a :", "[ ] : a", "[ ] ( ) { }", ": a", "* get a ( ) { }", "get * a ( ) { }", "static static a ( ) { }", "static ;", "a b", "a , , b", "STR", "NUM", "[ a ]", "a = b", "STR = b", "if", "if = b", "async a : b", "get a : b", "* a : b", "( ) { }", "a ( ) ;", "a ( ) => { }", "a . b", "+ a", "...", "a ( ) { } b ( ) { }", "a , b", "a ; b", "static a", "static a : b", "get NL a ( ) { }", "static NL a ( ) { }", "async NL a ( ) { }", "a NL ( ) { }", "* NL a ( ) { }", "set NL a ( b ) { }",
];
pub const MEMBER_CTX: &[&str] = &[
    "( { @ } ) ;", "( { @ , } ) ;", "( { a , @ } ) ;", "( { @ , b } ) ;", "( { @ , @ } ) ;", "a = { @ } ;", "a ( { @ } ) ;", "class a { @ }", "class a { @ @ }", "class a { c ( ) { } @ }", "class a { @ c ( ) { } }", "class a { ; @ ; }", "( class { @ } ) ;", "class a extends b { @ }", "export default class { @ }", "for ( a = { @ } ; ; ) ;", "HEAD { @ } TAIL ;", "( ) => ( { @ } ) ;", "function * a ( ) { ( { @ } ) ; }", "async function a ( ) { class b { @ } }", "class a { static @ }", "a ? { @ } : b ;", "[ { @ } ] ;",
];

/// Function forms with a parameter hole `@` and a body hole `#`.
pub const FN: &[&str] = &[
    "function a @ { # }", "function * a @ { # }", "async function a @ { # }", "( function @ { # } ) ;", "( function a @ { # } ) ;", "( function * @ { # } ) ;", "( async function @ { # } ) ;", "( async function a @ { # } ) ;", "@ => { # }", "async @ => { # }", "( @ => { # } ) ;", "a = async @ => { # } ;", "( { a @ { # } } ) ;", "( { * a @ { # } } ) ;", "( { async a @ { # } } ) ;", "( { get a @ { # } } ) ;", "( { set a @ { # } } ) ;", "class a { b @ { # } }", "class a { * b @ { # } }", "class a { async b @ { # } }", "class a { get b @ { # } }", "class a { set b @ { # } }", "class a { static b @ { # } }", "class a { static * b @ { # } }", "class a { static async b @ { # } }", "class a { constructor @ { # } }", "export function a @ { # }", "export default function @ { # }", "export default function * @ { # }", "export default async function @ { # }", "export async function a @ { # }", "export function * a @ { # }", "( { [ a ] @ { # } } ) ;", "( { async [ a ] @ { # } } ) ;", "( { * [ a ] @ { # } } ) ;", "( { get @ { # } } ) ;", "( { async @ { # } } ) ;", "( { STR @ { # } } ) ;", "{ # }", "class a { [ b ] @ { # } }",
];
pub const PARAMS: &[&str] = &[
    "( )", "( a )", "( a , b )", "( a , )", "( a = b )", "( { a } )", "( [ a ] = b , c )", "( ... a )", "( a , ... b )", "( a , ... { b } )", "( { a = b } , [ c ] = d )", "( ... a , )", "( ... a , b )", "( , )", "( , a )", "( a , , b )", "( a b )", "( ... )", "( ... a = b )", "( NUM )", "( a . b )", "( this )", "( if )", "( a = )", "( yield )", "( await )", "( a = yield )", "( a = await b )", "( a = ( yield ) )", "a", "( ( a ) )", "( a = function ( ) { yield a } )", "( a = b => await c )", "( a = async b => await c )", "( a = function * ( ) { yield } )",
];
/// Body parts.
pub const BODY: &[&str] = &[
    "", "a", "a ;", "return", "return a", "return ; a", "yield", "yield a", "yield * a", "yield ;", "a = yield", "a = yield b", "( yield )", "a ( yield , yield a )", "[ yield ]", "yield yield a", "yield NL a", "await a", "await await a", "a = await b", "( await a )", "- await a", "await a + b", "await a . b", "await a ** b", "a + yield", "yield + a", "yield ? a : b", "- yield", "await", "await ;", "yield : a", "await : a", "var yield", "var await", "let yield = a", "a . yield", "a . await", "( { yield : a , await : b } )", "( { yield } )", "( { await } )", "( { yield ( ) { } , await ( ) { } } )", "function yield ( ) { }", "function await ( ) { }", "for ( a of yield ) ;", "for ( a of await b ) ;", "for ( yield of a ) ;", "if ( yield ) ;", "if ( await a ) ; else yield", "while ( yield a ) await b", "switch ( yield ) { case yield : case await a : }", "throw yield", "throw await a", "return yield", "return yield a", "return await a", "return await a ;",
    "function b ( ) { yield }", "function b ( ) { yield a }", "function b ( ) { await a }", "function b ( ) { } yield", "function b ( ) { } await a", "function * b ( ) { yield }", "function * b ( ) { await a }", "function * b ( ) { } yield", "function * b ( ) { yield } await a", "function * b ( ) { yield } yield a", "async function b ( ) { await a }", "async function b ( ) { yield }", "async function b ( ) { await a } await a", "async function b ( ) { } yield a", "a = ( ) => yield", "a = ( ) => { yield }", "a = ( ) => await b", "a = ( ) => { await b }", "a = b => { } ; yield", "a = b => { } ; await c", "a = async ( ) => await b", "a = async ( ) => yield", "a = async ( ) => { await b } ; await c", "a = async ( ) => { } ; yield", "a = async b => { yield }", "a = b => c , yield", "a = async b => c , await a", "( { b ( ) { yield } } )", "( { b ( ) { await a } } )", "( { * b ( ) { yield } } ) ; yield", "( { async b ( ) { await a } } ) ; await a", "( { get b ( ) { yield } } )", "( { get b ( ) { await a } } )", "( { set b ( c ) { yield } } )", "( { set b ( c ) { await a } } )", "( { set b ( c = yield ) { } } )", "( { [ yield ] : a } )", "( { [ await a ] ( ) { } } )", "class b { c ( ) { yield } }", "class b { c ( ) { await a } }", "class b { * c ( ) { yield } } yield", "class b { async c ( ) { await a } } await a", "class b { [ yield ] ( ) { } }", "class b { [ await a ] ( ) { } }", "class b extends ( yield ) { }", "class b extends ( await a ) { }", "HEAD yield TAIL", "HEAD await a TAIL", "var { a = yield } = b", "let [ a = await b ] = c", "try { yield } catch ( a ) { await b }", "a : yield", "{ yield }", "{ await a }", "do yield ; while ( await a )", "new . target", "super . a", "super ( )", "break", "a => { return }", "yield RE", "await RE", "yield / a", "yield { }", "yield [ ]", "yield ( )", "await { }", "await [ ]", "await ( a )", "yield in a", "a in yield", "yield of", "yield => a", "await => a", "async yield => a", "async await => a", "( yield ) => a", "async ( yield ) => a", "async ( a = await b ) => c", "( a = await b ) => c", "( a = yield ) => c",
];

/// What may turn an expression into a target, a pattern or the head of an arrow function, or keep it from being one.
pub const COVER_CTX: &[&str] = &[
    "@ ;", "@ = a ;", "@ += a ;", "@ **= a ;", "@ ++ ;", "-- @ ;", "for ( @ in a ) ;", "for ( @ of a ) ;", "for ( @ ; ; ) ;", "for ( @ = a ; ; ) ;", "for ( @ = a of b ) ;", "@ => a ;", "async @ => a ;",
    "( @ )", "( @ ) = a", "( @ ) => a", "async ( @ ) => a", "async ( @ )", "( a , @ ) => b", "( @ , a ) => b", "( @ , ) => a", "( a , ... @ ) => b", "( ... @ ) => a", "async ( ... @ ) => a", "async ( a , @ , ) => b", "async ( ... @ , ) => a", "( @ = a ) => b", "( ... @ = a ) => b", "async ( ... @ = a ) => b",
    "[ @ ]", "[ @ ] = a", "[ @ = a ] = b", "[ ... @ ] = a", "[ ... @ , ] = a", "[ a , @ ] = b", "( [ @ ] ) => a", "( [ ... @ ] ) => a", "( [ @ = a ] ) => b",
    "( { a : @ } )", "( { a : @ } = b )", "( { a : @ = b } = c )", "( { a : @ } ) => b", "( { a : @ = b } ) => c", "( { ... @ } = a )", "( { ... @ } ) => a", "( { ... @ , } = a )", "( { b , [ @ ] : a } = c )", "( { @ } = a )", "( { @ } ) => a", "( { @ = a } ) => b", "( { @ = a } )",
    "@ . a = b", "@ [ a ] = b", "@ ( ) = a", "@ NOSUB = a", "new @ = a", "- @ = a", "@ ++ = a", "a + @ = b", "a ? b : @ = c", "a , @ = b", "a = @ = b", "@ . a => b", "a + @ => b", "a ( @ )", "a ( @ ) => b", "a . async ( @ ) => b", "async ( @ ) ( ) => b", "async NL ( @ ) => b", "( @ ) NL => b", "HEAD @ TAIL", "a [ @ ] = b", "typeof @ => a", "new @ => a", "( async ( @ ) ) => a", "async ( @ ) . a => b", "a [ @ ]", "@ ? a : b", "@ , a", "throw @ ;", "var a = @ ;", "class a extends @ { }", "export default @ ;", "yield @", "await @", "a in @ = b", "@ in a", "delete @", "delete ( @ )", "delete ( ( @ ) ) . a", "typeof delete @", "delete @ . a", "delete @ ++", "delete @ = a", "void ( delete ( @ ) )",
];
