//! Small pieces, good and bad, under nested contexts and after long prefixes: a rule that is dropped
//! only in some state of the parser (inside a substitution, below a loop head, late in the text)
//! shows only if that piece is put exactly there.
use crate::case::*;
use crate::engine::Gen;
use crate::refparse::{check, Verdict};
use crate::tape::G;

/// What a hole takes: an assignment expression, statements, class members, properties, something to bind.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    X,
    S,
    M,
    O,
    P,
}
use Kind::*;

/// (what it is, what its hole `@` takes, text). `#` is a small good expression, `§` a fresh name.
/// Tokens stand apart.
pub const FRAMES: &[(Kind, Kind, &str)] = &[
    (X, X, "( @ )"),
    (X, X, "[ @ ]"),
    (X, X, "[ , # , @ , ]"),
    (X, X, "[ ... @ ]"),
    (X, X, "[ ... # , @ ]"),
    (X, X, "( # , @ )"),
    (X, X, "( @ , # )"),
    (X, X, "( { a : @ } )"),
    (X, X, "( { a : # , b : @ , c } )"),
    (X, X, "( { ... @ } )"),
    (X, X, "( { [ @ ] : a } )"),
    (X, X, "( { [ @ ] ( ) { } } )"),
    (X, X, "( { get [ @ ] ( ) { } } )"),
    (X, X, "( { m ( a = @ ) { } } )"),
    (X, X, "( { set m ( a = @ ) { } } )"),
    (X, X, "a ( @ )"),
    (X, X, "a ( # , @ , )"),
    (X, X, "a ( ... @ )"),
    (X, X, "a ( ) ( @ ) . b"),
    (X, X, "new a ( @ )"),
    (X, X, "new ( @ )"),
    (X, X, "new a [ @ ]"),
    (X, X, "a [ @ ]"),
    (X, X, "a . b [ # ] [ @ ]"),
    (X, X, "( @ ) . a"),
    (X, X, "( @ ) ( # )"),
    (X, X, "( @ ) `a`"),
    (X, X, "`a${ @ }`"),
    (X, X, "`${ # }b${ @ }c`"),
    (X, X, "`${ @ }${ # }`"),
    (X, X, "a `${ @ }b`"),
    (X, X, "`${ `${ @ }` }`"),
    (X, X, "a ? @ : #"),
    (X, X, "a ? # : @"),
    (X, X, "( @ ) ? a : b"),
    (X, X, "a = @"),
    (X, X, "a += @"),
    (X, X, "a . b = @"),
    (X, X, "[ a , b = @ ] = c"),
    (X, X, "{ a = @ } = c"),
    (X, X, "{ a : b [ @ ] } = c"),
    (X, X, "a + ( @ )"),
    (X, X, "( @ ) * a"),
    (X, X, "! ( @ )"),
    (X, X, "typeof ( @ )"),
    (X, X, "( @ ) ** a"),
    (X, X, "a => @"),
    (X, X, "( ) => @"),
    (X, X, "( a , b ) => @"),
    (X, X, "async a => @"),
    (X, X, "async ( a ) => @"),
    (X, X, "( a = @ ) => b"),
    (X, X, "( a , { b = @ } ) => b"),
    (X, X, "( [ a = @ ] , ... b ) => b"),
    (X, X, "async ( a = @ ) => b"),
    (X, X, "async ( @ )"),
    (X, X, "async ( # , @ ) . a"),
    (X, X, "function ( a = @ ) { }"),
    (X, X, "function ( { a , [ @ ] : b } ) { }"),
    (X, X, "function ( ... [ a = @ ] ) { }"),
    (X, X, "class { [ @ ] ( ) { } }"),
    (X, X, "class extends ( @ ) { }"),
    (X, X, "class extends a ( @ ) { m ( ) { } }"),
    (X, X, "class { static async [ @ ] ( ) { } }"),
    (X, X, "function * ( ) { yield @ ; }"),
    (X, X, "function * ( ) { a = yield * @ ; }"),
    (X, X, "async function ( ) { await ( @ ) ; }"),
    (X, X, "async ( ) => await ( @ )"),
    (X, X, "function ( ) { return @ ; }"),
    (X, O, "( { @ } )"),
    (X, O, "( { a , @ } )"),
    (X, O, "( { @ , a : b } )"),
    (X, O, "( { m ( ) { } , @ , ... c } )"),
    (X, O, "a ( { @ } )"),
    (X, M, "class { @ }"),
    (X, M, "class a extends b { c ( ) { } @ }"),
    (X, M, "( class { ; @ ; get d ( ) { } } )"),
    (X, S, "function ( ) { @ }"),
    (X, S, "function § ( ) { @ }"),
    (X, S, "function * ( a ) { @ }"),
    (X, S, "async function ( ) { @ }"),
    (X, S, "( ) => { @ }"),
    (X, S, "a => { @ }"),
    (X, S, "async ( ) => { @ }"),
    (X, S, "async a => { @ }"),
    (O, X, "a : @"),
    (O, X, "'a' : @"),
    (O, X, "[ @ ] : b"),
    (O, X, "... @"),
    (O, S, "m ( ) { @ }"),
    (O, S, "get m ( ) { @ }"),
    (O, S, "set m ( a ) { @ }"),
    (O, S, "* m ( ) { @ }"),
    (O, S, "async m ( ) { @ }"),
    (M, X, "[ @ ] ( ) { }"),
    (M, X, "static m ( a = @ ) { }"),
    (M, S, "m ( ) { @ }"),
    (M, S, "static m ( ) { @ }"),
    (M, S, "constructor ( a ) { @ }"),
    (M, S, "get m ( ) { @ }"),
    (M, S, "static set m ( a ) { @ }"),
    (M, S, "* m ( ) { @ }"),
    (M, S, "static async m ( ) { @ }"),
    (S, X, "z = @ ;"),
    (S, X, "( @ ) ;"),
    (S, X, "z , # , @ ;"),
    (S, X, "var § = @ ;"),
    (S, X, "let § , § = # , § = @ ;"),
    (S, X, "const § = @ , § = # ;"),
    (S, X, "let { § = @ } = a ;"),
    (S, X, "var [ § , [ § ] = @ ] = a ;"),
    (S, X, "if ( @ ) a ; else b ;"),
    (S, X, "if ( a ) z = @ ; else z = # ;"),
    (S, X, "if ( a ) z = # ; else z = @ ;"),
    (S, X, "while ( @ ) a ;"),
    (S, X, "do a ; while ( @ ) ;"),
    (S, X, "for ( z = @ ; ; ) a ;"),
    (S, X, "for ( let § = @ ; # ; # ) a ;"),
    (S, X, "for ( var § , § = @ ; ; ) a ;"),
    (S, X, "for ( ; @ ; ) a ;"),
    (S, X, "for ( ; ; @ ) a ;"),
    (S, X, "for ( z in @ ) a ;"),
    (S, X, "for ( z of @ ) a ;"),
    (S, X, "for ( let § of @ ) a ;"),
    (S, X, "for ( const { § = @ } of a ) b ;"),
    (S, X, "for ( a [ @ ] in b ) c ;"),
    (S, X, "for ( var § of a ) z = @ ;"),
    (S, X, "switch ( @ ) { case # : a ; default : }"),
    (S, X, "switch ( a ) { case @ : b ; }"),
    (S, X, "throw @ ;"),
    (S, X, "§ : z = @ ;"),
    (S, X, "class § extends ( @ ) { }"),
    (S, X, "class § { [ @ ] ( ) { } }"),
    (S, X, "function § ( a = @ ) { }"),
    (S, X, "function * § ( ) { z = yield @ ; }"),
    (S, X, "async function § ( ) { for ( z = @ ; ; ) a ; }"),
    (S, M, "class § { @ }"),
    (S, S, "{ @ }"),
    (S, S, "if ( a ) { @ } else b ;"),
    (S, S, "if ( a ) b ; else { @ }"),
    (S, S, "while ( a ) { @ }"),
    (S, S, "do { @ } while ( a )"),
    (S, S, "for ( ; ; ) { @ }"),
    (S, S, "for ( const § of a ) { @ }"),
    (S, S, "switch ( a ) { case # : b ; @ case # : }"),
    (S, S, "switch ( a ) { default : @ }"),
    (S, S, "try { @ } catch ( § ) { }"),
    (S, S, "try { } catch ( { § } ) { @ } finally { }"),
    (S, S, "function § ( ) { @ }"),
    (S, S, "async function § ( ) { @ }"),
    (S, S, "§ : § : { a ; @ }"),
    (X, P, "function ( @ ) { }"),
    (X, P, "function * ( § , @ = # ) { }"),
    (X, P, "async function § ( ... @ ) { }"),
    (X, P, "( @ ) => a"),
    (X, P, "( § , @ ) => { }"),
    (X, P, "( ... @ ) => a"),
    (X, P, "async ( @ ) => a"),
    (X, P, "async ( § , @ = # ) => a"),
    (O, P, "m ( @ , § ) { }"),
    (O, P, "set m ( @ ) { }"),
    (O, P, "async m ( @ ) { }"),
    (M, P, "constructor ( @ = # ) { }"),
    (M, P, "static set m ( @ ) { }"),
    (M, P, "* m ( § , ... @ ) { }"),
    (S, P, "var @ = # ;"),
    (S, P, "let § , @ = # , § ;"),
    (S, P, "const @ = # ;"),
    (S, P, "for ( var @ = # ; ; ) a ;"),
    (S, P, "for ( let @ = # ; ; ) a ;"),
    (S, P, "for ( const @ of # ) a ;"),
    (S, P, "for ( let @ in # ) a ;"),
    (S, P, "for ( var @ of # ) a ;"),
    (S, P, "try { } catch ( @ ) { }"),
    (S, P, "function § ( @ ) { }"),
    (S, P, "async function § ( § = # , @ = # ) { }"),
    (P, P, "[ @ ]"),
    (P, P, "[ , @ = # , § ]"),
    (P, P, "[ § , ... @ ]"),
    (P, P, "{ a : @ }"),
    (P, P, "{ § , 'a' : @ = # , }"),
    (P, P, "{ [ # ] : @ , § = # }"),
    (P, X, "[ § = @ ]"),
    (P, X, "{ § = @ }"),
    (P, X, "{ a : § = @ , § }"),
    (P, X, "{ [ @ ] : § }"),
];

/// Contexts for something wrong only: what is good may not be good there.
const LOOSE: &[(Kind, Kind, &str)] = &[
    (X, X, "a + @"),
    (X, X, "a ** @"),
    (X, X, "- @"),
    (X, X, "typeof @"),
    (X, X, "@ + a"),
    (X, X, "@ ? a : b"),
    (X, X, "@ . a"),
    (X, X, "@ ( )"),
    (X, X, "@ [ a ]"),
    (X, X, "new @"),
    (X, X, "new @ ( )"),
    (X, X, "++ @"),
    (X, X, "@ ++"),
    (X, X, "@ = a"),
    (X, X, "@ => a"),
    (X, X, "( @ ) => a"),
    (X, X, "async @"),
    (X, X, "async ( @ ) => a"),
    (X, X, "[ @ ] = a"),
    (X, X, "{ @ }"),
    (X, X, "{ @ } = a"),
    (X, X, "class extends @ { }"),
    (X, X, "@ `a`"),
    (X, X, "async ( ) => await @"),
    (X, X, "function ( @ ) { }"),
    (S, X, "@"),
    (S, X, "@ ;"),
    (S, X, "var @ = a ;"),
    (S, X, "for ( @ of a ) b ;"),
    (S, X, "for ( let @ in a ) b ;"),
    (S, X, "try { } catch ( @ ) { }"),
    (S, S, "if ( a ) @ else b ;"),
    (S, S, "if ( a ) b ; else @"),
    (S, S, "while ( a ) @"),
    (S, S, "for ( ; ; ) @"),
    (S, S, "do @ while ( a )"),
    (S, X, "for ( @ in a ; ; ) b ;"),
    (S, X, "for ( z = @ in a ; ; ) b ;"),
    (S, X, "for ( var § = @ in a ; ; ) b ;"),
    (S, X, "for ( let § , § = @ in a ; b ; c ) d ;"),
    (S, X, "for ( const § = @ in a ; ; ) b ;"),
    (S, X, "for ( @ , a in b ; ; ) c ;"),
    (S, X, "for ( a + @ of b ) c ;"),
    (S, X, "for ( a of @ , b ) c ;"),
    (S, X, "for ( var § , § of @ ) a ;"),
    (S, X, "for ( let § = @ of a ) b ;"),
    (S, X, "for ( const § = @ , § ; ; ) b ;"),
    (S, X, "const § = @ , § ;"),
    (S, X, "throw\n@ ;"),
    (S, X, "if ( a ) z = @ else b ;"),
    (S, X, "if @ a ;"),
    (S, X, "do z = @ while ( a )"),
    (S, X, "z = @ a ;"),
    (S, X, "switch ( a ) { case @ b }"),
    (S, X, "switch ( a ) { default : default : z = @ ; }"),
    (S, X, "switch ( a ) { default : z = @ ; case # : default : }"),
    (X, X, "async\n( a ) => @"),
    (X, X, "async ( a )\n=> @"),
    (X, X, "async a\n=> @"),
    (X, X, "a\n=> @"),
    (X, X, "( )\n=> @"),
    (X, X, "( @ ,"),
    (X, X, "( @ , )"),
    (X, X, "a ( @"),
    (X, X, "a ( , @ )"),
    (X, X, "a ( @ , , b )"),
    (X, X, "a ( ... @ => )"),
    (X, X, "a [ @ , ]"),
    (X, X, "a ? @"),
    (X, X, "a ? @ , b : c"),
    (X, X, "[ @ b ]"),
    (X, X, "`a${ @"),
    (X, X, "`a${ @ b }c`"),
    (X, X, "`a${ @ , }c`"),
    (X, X, "( { a : @ b } )"),
    (X, X, "( { [ @ ] } )"),
    (X, X, "( { [ @ ] = b } )"),
    (X, X, "( { get [ @ ] ( a ) { } } )"),
    (X, X, "( { get [ @ ] : a } )"),
    (X, X, "( { * [ @ ] : a } )"),
    (X, X, "class { [ @ ] }"),
    (X, X, "class { [ @ ] : a }"),
    (X, X, "class { a = @ }"),
    (X, X, "new . target => @"),
    (X, X, "new super ( @ )"),
    (X, X, "super => @"),
    (X, X, "a . b => @"),
    (X, X, "a ( b ) => @"),
    (X, X, "function ( a = @ , , b ) { }"),
    (X, X, "function ( ... a = @ ) { }"),
    (X, X, "function ( a = @"),
    (X, X, "- @ ** a"),
    (X, X, "typeof @ ** a"),
    (X, X, "await @ ** a"),
    (P, P, "[ ... @ = a ]"),
    (P, P, "[ ... @ , ]"),
    (P, P, "[ ... @ , § ]"),
    (P, P, "[ @ § ]"),
    (P, P, "{ @ : § }"),
    (P, P, "{ a = @ }"),
    (P, P, "{ [ a ] @ }"),
    (P, P, "{ a : ( @ ) }"),
    (P, P, "( @ )"),
    (P, P, "@ §"),
    (P, P, "@ . a"),
    (P, X, "{ 'a' = @ }"),
    (P, X, "{ if = @ }"),
    (P, X, "[ ... § = @ ]"),
    (P, X, "[ ... [ § ] = @ ]"),
    (P, X, "{ [ @ ] }"),
    (S, P, "try { } catch ( @ = a ) { }"),
    (S, P, "try { } catch ( @ , § ) { }"),
    (S, P, "try { } catch ( ... @ ) { }"),
    (S, P, "try { } catch @ { }"),
    (S, P, "for ( const @ ; ; ) b ;"),
    (S, P, "for ( let @ , § of b ) c ;"),
    (S, P, "for ( var § , @ in b ) c ;"),
    (S, P, "for ( let @ = a of b ) c ;"),
    (S, P, "for ( const @ = a in b ) c ;"),
    (S, P, "for ( let @ of b , c ) d ;"),
    (S, P, "var @ += a ;"),
    (S, P, "const § = a , @ ;"),
    (S, P, "let @ = a b ;"),
    (S, P, "function § ( ... @ = a ) { }"),
    (S, P, "function § ( ... @ , ) { }"),
    (S, P, "function § ( @ § ) { }"),
    (S, P, "function § ( § , , @ ) { }"),
    (S, P, "function @ ( ) { }"),
    (S, P, "class @ { a }"),
    (X, P, "function ( ... @ , § ) { }"),
    (X, P, "( ... @ = a ) => b"),
    (X, P, "( ... @ , § ) => b"),
    (X, P, "( @ )"),
    (X, P, "( ... @ )"),
    (X, P, "( § , ... @ )"),
    (X, P, "async ( @ )\n=> a"),
    (X, P, "( @ ) = a"),
    (X, P, "@ => a"),
    (O, P, "get m ( @ ) { }"),
    (O, P, "set m ( ... @ ) { }"),
    (O, P, "set m ( @ , § ) { }"),
    (O, P, "set m ( @ , ) { }"),
    (O, P, "m ( ... @ , ) { }"),
    (M, P, "get m ( @ ) { }"),
    (M, P, "static set m ( ... @ ) { }"),
    (M, P, "set m ( @ , § ) { }"),
    (M, P, "m ( @"),
];

/// Good or wrong depending on where they stand.
const SOME_X: &[&str] = &[
    "yield", "yield a", "yield * a", "yield\na", "yield\n* a", "yield * yield", "yield , yield", "yield ? yield : yield", "yield => a", "( yield )", "[ yield ]", "yield [ a ]", "yield / a /", "yield / a", "await", "await a", "await await a", "- await a", "await a ** b",
    "( await a ) ** b", "await => a", "await ( a )", "await / a /", "a in b", "! a in b", "a => b in c", "a = b in c", "a ? b : c in d", "( a in b ) in c", "a ? b in c : d", "yield a in b", "yield * a in b", "await a in b", "( a , b in c )", "a [ b in c ]", "super ( )", "super . a", "new super . a", "new . target", "new . target . a",
    "async a => await a", "async ( ) => { for ( await a in b ; ; ) ; }", "function * ( ) { for ( yield a in b ; ; ) ; }", "a => yield", "( a = yield ) => b", "( a = await b ) => c", "async ( a = await b ) => c", "a ++\n", "a\n++ b", "a\n++",
];
const SOME_S: &[&str] = &[
    "return ;", "return a ;", "return\na ;", "return", "break ;", "continue ;", "yield ;", "yield a ;", "yield\na", "await a ;", "for ( yield a in b ; ; ) c ;", "for ( z = yield * a in b ; ; ) c ;", "for ( var § = yield a in b ; ; ) c ;", "for ( await a in b ; ; ) c ;",
    "for ( z = await a in b ; ; ) c ;", "for ( const § of yield a ) b ;", "for ( const § of yield a , b ) c ;", "for ( z = a => b in c ; ; ) d ;", "a\n++\nb", "a ++\nb", "a\n=> b", "import a from 'b' ;", "export { a } ;", "export default a ;", "export var § ;", "import 'a'", "super ( ) ;", "var yield ;", "var await ;", "yield : a ;", "await : a ;",
    "function yield ( ) { }", "async function await ( ) { }", "class yield { }", "a /* \n */ ++ b", "throw /* \n */ a", "return /* \n */ a", "throw a\nb", "var § = a\n§ : b", "let § = a\n( b )", "if ( a ) b\nelse c", "do a\nwhile ( b ) c", "do a ; while ( b ) c", "a /* */ b", "a /* \n */ b",
];
const SOME_M: &[&str] = &["m ( a = yield ) { }", "* m ( ) { yield a }", "async m ( ) { await a }", "async m ( a = await b ) { }", "m ( ) { yield a }", "m ( ) { await a }", "[ yield a ] ( ) { }", "[ await a ] ( ) { }", "yield ( ) { }", "await ( ) { }", "get yield ( ) { }", "async await ( ) { }", "static\nm ( ) { }", "get\nm ( ) { }", "async\nm ( ) { }", "static async\nm ( ) { }", "* m ( a = yield ) { }"];
const SOME_O: &[&str] = &["yield", "await", "yield : a", "await : a", "a : yield", "a : await b", "[ yield ] : a", "[ await b ] : a", "m ( ) { yield a }", "* m ( ) { yield a }", "async m ( ) { await a }", "async\nm ( ) { }", "get\nm ( ) { }", "a = yield", "yield = a", "... yield", "... await a", "a : b in c", "[ a in b ] : c"];
const SOME_P: &[&str] = &["yield", "await", "{ yield }", "{ await }", "[ yield ]", "{ a : yield }", "{ § = yield }", "[ § = await a ]", "{ [ yield ] : § }", "{ § = a in b }", "[ § = a in b ]", "{ [ a in b ] : § }", "async", "of", "let", "static", "{ let }", "{ yield : § }"];
pub const GOOD_P: &[&str] = &[
    "§", "[ ]", "{ }", "[ § ]", "{ § }", "[ , ]", "[ , , § ]", "[ § , ]", "[ § , § ]", "[ § = a ]", "[ ... § ]", "[ § , ... § ]", "[ ... [ § ] ]", "[ ... { § } ]", "{ § , }", "{ § , § }", "{ § = a }", "{ a : § }", "{ a : § = b }", "{ 'a' : § }", "{ 1 : § }", "{ [ a ] : § }", "{ if : § }", "{ a : { § } }", "{ a : [ § ] = b }", "[ { § } = a ]",
    "[ [ [ § ] ] ]", "{ get : § , set : § }", "[ § = ( a , b ) ]", "{ § = a => b }", "{ a : § = b , § }",
];
const BAD_P: &[&str] = &[
    "", "1", "'a'", "if", "this", "null", "a . b", "a [ b ]", "a ( )", "( a )", "a b", "[ a b ]", "[ ... a = b ]", "[ ... [ a ] = b ]", "[ ... { a } = b ]", "[ ... a , ]", "[ ... a , b ]", "[ ... ]", "[ a . b ]", "[ ( a ) ]", "[ 1 ]", "[ if ]", "[ a += 1 ]", "[ a ; ]", "[ a", "{ a", "{ if }", "{ this }", "{ 'a' }", "{ 1 }", "{ [ a ] }", "{ 'a' = b }", "{ [ a ] = b }", "{ if = b }",
    "{ a b }", "{ a . b }", "{ a : b . c }", "{ a : ( b ) }", "{ a : 1 }", "{ a : if }", "{ a : }", "{ : a }", "{ a ; }", "{ , }", "{ a , , b }", "{ a ( ) { } }", "{ get a ( ) { } }", "{ async a }", "{ * a }", "{ a += b }", "{ a : b += c }", "{ [ ] : a }", "{ [ a , ] : b }", "{ a = b c }", "{ a = }", "{ a => b }", "[ a => b ]", "{ ... [ a ] , b : }", "function a ( ) { }", "... ...", "async a",
];

pub const GOOD_X: &[&str] = &[
    "a", "1", "'s'", "`t`", "/r/g", "this", "null", "true", "false", "[ ]", "{ }", "( a )", "a . b", "a . if", "a [ b ]", "a ( )", "a ( b , )", "a ( ... b )",
    "a `t`", "new a", "new a ( )", "new a . b ( ) . c", "new new a ( ) ( )", "a ++", "-- a", "! a", "typeof a", "void a", "delete a . b", "- a", "+ + a", "~ a",
    "a ** b", "( - a ) ** b", "- ( a ** b )", "- a * b", "a ++ ** b", "a ** - b", "a * b + c", "a / b / c", "a << b >>> c", "a < b", "a instanceof b", "a === b", "a & b | c ^ d",
    "a && b || c", "a ? b : c", "a ? b : c ? d : e", "a = b", "a = b = c", "a >>>= b", "a **= b", "[ a , b ] = c", "{ a , b : c } = d", "[ , ... a ] = b",
    "{ a = 1 } = b", "[ a = 1 , { b } ] = c", "( a ) = b", "a => b", "( ) => a", "( a , b ) => c", "( ... a ) => b", "( a , ... b ) => c", "( { a } , [ b ] = c ) => d",
    "( { a = 1 } ) => b", "a => { }", "( ) => { }", "( ) => ( { } )", "a => b => c", "async a => b", "async ( ) => a", "async ( a , b ) => { }", "async ( ... a ) => b", "async ( { a = 1 } ) => b",
    "async ( )", "async ( a , b )", "async", "async . a", "async => a", "async = a", "function ( ) { }", "function a ( b , c = 1 ) { }", "function * ( ) { }", "function * a ( ) { yield ; }",
    "function ( ... a ) { }", "function ( { a } , [ b ] ) { }", "async function ( ) { }", "async function a ( b ) { await b ; }", "class { }", "class a extends b { }", "class { m ( ) { } }",
    "class { static get a ( ) { } }", "{ a }", "{ a , b }", "{ a : b }", "{ a : b , }", "{ 'a' : b , 1 : c }", "{ [ a ] : b }", "{ m ( ) { } }", "{ get a ( ) { } , set a ( b ) { } }", "{ async m ( ) { } , * n ( ) { } }",
    "{ get , set , async }", "{ get : a , async ( ) { } }", "{ ... a , b }", "{ if : a }", "[ a , b ]", "[ , , a ]", "[ a , , ]", "[ ... a , b ]", "`a${ b }c`", "`${ a }${ `${ b }` }`", "a `b${ c }`",
    "( a , b )", "( a in b )", "of", "function ( ) { return new . target ; }", "( function ( ) { } ) ( )",
];
pub const GOOD_S: &[&str] = &[
    "a ;", ";", "{ }", "{ a ; b }", "var § ;", "var § = a , § ;", "let § ;", "let § = a ;", "const § = a ;", "var { § } = a ;", "let [ § , ... § ] = a ;", "const { a : § , b : { § = c } } = d ;", "var { } = a ;",
    "let [ ] = a ;", "let { [ a ] : § = b } = c ;", "if ( a ) b ;", "if ( a ) b ; else c ;", "if ( a ) { } else if ( b ) { } else { }", "if ( a ) ; else ;", "while ( a ) b ;", "while ( a ) ;", "do a ; while ( b ) ;", "do { } while ( a )", "do ; while ( a ) b ;",
    "for ( ; ; ) ;", "for ( a ; b ; c ) d ;", "for ( var § = a ; b ; c ) { }", "for ( let § = a , § = b ; ; ) ;", "for ( const § = a ; ; ) ;", "for ( let [ § ] = a ; ; ) ;", "for ( a in b ) ;", "for ( var § in a ) ;", "for ( let § in a , b ) ;", "for ( const { § } in a ) ;",
    "for ( a of b ) ;", "for ( var § of a ) ;", "for ( let § of a ) ;", "for ( const [ § , { b : § } ] of a ) ;", "for ( a . b of c ) ;", "for ( a [ b ] in c ) ;", "for ( [ a , b ] of c ) ;", "for ( { a , b } of c ) ;", "for ( ( a ) of b ) ;", "for ( a , b ; ; ) ;",
    "for ( ( a in b ) ; ; ) ;", "while ( a ) { break ; }", "while ( a ) { continue ; }", "§1 : while ( a ) { break §1 ; }", "§1 : for ( ; ; ) { continue §1 ; }", "while ( a ) if ( b ) break ; else continue ;", "switch ( a ) { }", "switch ( a ) { case b : }", "switch ( a ) { case b : c ; break ; default : d ; }",
    "switch ( a ) { default : case b : case c : d }", "throw a ;", "throw a , b ;", "try { } catch ( § ) { }", "try { } finally { }", "try { a ; } catch ( { § , b : [ § ] } ) { } finally { b ; }", "debugger ;", "§ : a ;", "§ : § : { }",
    "function § ( ) { }", "function § ( a , b = c , ... d ) { return a ; }", "function * § ( ) { yield a ; yield * b ; yield ; }", "async function § ( ) { await a ; }", "function § ( ) { return }", "class § { }", "class § extends a { }", "class § extends a . b ( c ) { }",
    "class § { constructor ( ) { } }", "class § { m ( ) { } static m ( ) { } ; get a ( ) { } set a ( b ) { } * c ( ) { } async d ( ) { } [ e ] ( ) { } 'f' ( ) { } 1 ( ) { } }", "class § { get ( ) { } set ( ) { } static ( ) { } async ( ) { } }", "class § { static static ( ) { } get get ( ) { } static async get ( ) { } }",
    "class § extends a { constructor ( ) { super ( b ) ; } m ( ) { super . m ( ) ; super [ a ] ; } }", "a\nb ;", "a ++\nb ;", "a\n++ b ;", "var § \nvar § \n", "do ; while ( a )\nb ;", "async ( a , b ) ;", "async\nfunction § ( ) { }", "a = b\n( c ) ;", "/r/ . test ( a ) ;", "a\n/ b / c ;", "( { } ) ;", "[ ] ;", "`a` ;",
    "function § ( ) { if ( a ) return ; else return b ; }",
];
pub const GOOD_M: &[&str] = &[
    "m ( ) { }", "m ( a , b = c , ... d ) { }", "static m ( ) { }", "get a ( ) { }", "set a ( b ) { }", "set a ( { b } = c ) { }", "static get a ( ) { }", "static set a ( b ) { }", "* m ( ) { }", "static * m ( ) { }", "async m ( ) { }",
    "static async m ( ) { }", "[ a ] ( ) { }", "'a' ( ) { }", "1 ( ) { }", "if ( ) { }", "get [ a ] ( ) { }", "get 'a' ( ) { }", "set 1 ( a ) { }", "* [ a ] ( ) { }", "async 'a' ( ) { }", "get ( ) { }", "set ( ) { }", "static ( ) { }", "async ( ) { }",
    "static get ( ) { }", "static static ( ) { }", ";", "* get ( ) { }", "async set ( ) { }",
];
pub const GOOD_O: &[&str] = &[
    "a", "a : b", "'a' : b", "1 : b", "[ a ] : b", "if : a", "... a", "... a ( b )", "m ( ) { }", "m ( a , b = c ) { }", "get a ( ) { }", "set a ( b ) { }", "set a ( [ b ] ) { }", "* m ( ) { }", "async m ( ) { }", "[ a ] ( ) { }", "'a' ( ) { }", "1 ( ) { }",
    "if ( ) { }", "get [ a ] ( ) { }", "get 'a' ( ) { }", "get if ( ) { }", "* [ a ] ( ) { }", "async 'a' ( ) { }", "get", "set", "async", "get : a", "async : a", "get ( ) { }", "async ( ) { }",
];

/// Pieces wrong in themselves.
const BAD_X: &[&str] = &[
    "- a ** b", "! a ** b", "typeof a ** b", "void a ** b", "delete a ** b", "~ a ** b", "+ a ** b", "- a ++ ** b", "a ? b", "a ? b :", "a ? : b", "a ? b , c : d", "a : b", "( a , )", "( )", "( , a )", "( a", "( ... a )", "( a , ... b )",
    "( a , ... b , ) => c", "( ... a , b ) => c", "( a b ) => c", "( a , , b ) => c", "( a ; b )", "( a ) b", "async a b", "async a", "async a\n=> b", "a\n=> b", "( )\n=> a", "( a )\n=> a", "async ( a )\n=> b", "async a => ", "a =>", "( ) =>",
    "( ) => { } ( )", "a => { } . b", "a => { } ? b : c", "a => { } + b", "a => { } `t`", "( ) => { } ++", "a => { a", "a . b => c", "a ( ) => b", "a ( b ) => c", "( a . b => c )", "1 => a", "'a' => b", "this => a", "null => a", "[ a ] => b",
    "{ a } => b", "a + b => c", "! a => b", "a ? b : c => d => ", "async function", "async function ( )", "async function ( ) {", "async function 1 ( ) { }", "function", "function a", "function ( )", "function ( ) a", "function ( ) => a",
    "function ( a b ) { }", "function ( a , , b ) { }", "function ( , ) { }", "function ( , a ) { }", "function ( ... a , b ) { }", "function ( ... a , ) { }", "function ( ... a = b ) { }", "function ( ... ) { }", "function ( a . b ) { }", "function ( a ( ) ) { }", "function ( 1 ) { }",
    "function ( this ) { }", "function ( a = ) { }", "function ( { a . b } ) { }", "function ( { a : 1 } ) { }", "function ( { 1 } ) { }", "function ( { 'a' } ) { }", "function ( { [ a ] } ) { }", "function ( [ a . b ] ) { }", "function ( [ ( a ) ] ) { }",
    "function ( [ ... a , b ] ) { }", "function ( [ ... a , ] ) { }", "function ( { a } { b } ) { }", "function ( { a b } ) { }", "function ( { if } ) { }", "function * ( ) { yield\n* a ; }", "function * ( ) { yield + ; }", "function * ( ) { a + yield b ; }",
    "function * ( ) { yield * ; }", "function * * ( ) { }", "function a b ( ) { }", "function if ( ) { }", "function ( ) { } }", "async function ( ) { await ; }", "async ( ) => await", "async ( ) => { await }", "class", "class a", "class a b { }", "class extends { }",
    "class extends a , b { }", "class extends a => b { }", "class extends - a { }", "class extends a + b { }", "class { ", "class { a }", "class { a : b }", "class { a , b ( ) { } }", "class { a = 1 }", "class if { }", "class 1 { }", "{", "{ a", "{ a b }", "{ a . b }", "{ a : }", "{ : a }",
    "{ a : b c }", "{ a ; }", "{ a ; b }", "{ , }", "{ , a }", "{ a , , b }", "{ 1 }", "{ 'a' }", "{ [ a ] }", "{ if }", "{ this }", "{ a ( ) }", "{ a ( ) { } b }", "{ get a }", "{ get a : b }", "{ get a , b }", "{ async a }", "{ async a : b }", "{ * a }", "{ * a : b }", "{ a => b }",
    "{ a : b => }", "{ ... }", "{ ... a b }", "{ a : b , c d }", "{ [ a ] b }", "{ [ ] : a }", "{ [ a , ] : b }", "{ [ a b ] : c }", "{ 'a' = 1 }", "{ 1 = 1 }", "{ [ a ] = 1 }", "{ if = 1 }", "{ a . b = 1 }", "[", "[ a", "[ a b ]", "[ a ; b ]", "[ ... ]", "[ a , ... ]", "[ a : b ]", "[ ... a b ]",
    "a .", "a . 1", "a . 'b'", "a . [ b ]", "a . ( b )", "a . . b", ". a", "a [ ]", "a [ b", "a [ b c ]", "a [ b , ]", "a (", "a ( ,", "a ( , )", "a ( , b )", "a ( b , , c )", "a ( b c )", "a ( ... )", "a ( b ; )", "a ( b", "new", "new . a", "new . ", "new . target . ", "new a . ", "new a (", "new - a", "new a => b", "new async function",
    "super", "super ;", "super . ", "super => a", "super `a`", "super ++", "super + a", "new super", "`a${ }`", "`a${ b c }`", "`a${ b ; }`", "`a${ b`", "`a${ b , }`", "`a", "a ++ b", "a ++ ++ . b", "++", "++ ;", "a ** ", "a *", "a * * b", "a + * b", "a && ", "a && & b", "a ||", "a = ", "a += ", "= a", "a == = b", "a + b = c", "a ++ = b", "- a = b",
    "a b", "a 1", "1 a", "'a' 'b'", "a 'b'", "a { }",
];
const BAD_S: &[&str] = &[
    "if", "if a", "if a b ;", "if ( ) a ;", "if ( a", "if ( a b ) c ;", "if ( a )", "if ( a ) else b ;", "if ( a ) b ; else", "if ( a ) b else c ;", "if ( a ; ) b ;", "if ( a , ) b ;", "if ( a ) b ; ; else c ;", "if ( a ) let b = 1 ;", "if ( a ) const b = 1 ;", "if ( a ) class b { }",
    "if ( a ) ; else class b { }", "if ( a ) async function b ( ) { }", "while ( a ) function * b ( ) { }", "else a ;", "while", "while ( ) a ;", "while a b ;", "while ( a", "while ( a )", "while ( a ; ) b ;", "while ( a ) class b { }", "while ( a ) const b = 1 ;", "do", "do a ;",
    "do a ; ( b ) ;", "do a while ( b ) ;", "do a ; while", "do a ; while b ;", "do a ; while ( ) ;", "do a ; while ( b", "do { }", "do { } ( a ) ;", "do class a { } while ( b ) ;", "do a ; b ; while ( c ) ;", "for", "for a ;", "for ( ) a ;", "for ( a ) b ;", "for ( a ; ) b ;", "for ( a ; b ) c ;", "for ( a ; b ; c ; d ) e ;",
    "for ( ; ; )", "for ( ; ; ", "for ( a b ; ; ) c ;", "for ( a , ; ; ) b ;", "for ( ; a , ; ) b ;", "for ( ; ; a , ) b ;", "for ( var ; ; ) a ;", "for ( let a = b c ; ; ) d ;", "for ( const a ; ; ) b ;", "for ( const a = 1 , b ; ; ) c ;", "for ( let { a } ; ; ) b ;", "for ( var [ a ] ; ; ) b ;", "for ( let { a } = b , { c } ; ; ) d ;",
    "for ( a of b , c ) d ;", "for ( a of ) b ;", "for ( of of ) b ; )", "for ( a in ) b ;", "for ( var a , b of c ) d ;", "for ( var a , b in c ) d ;", "for ( let a , b of c ) d ;", "for ( var a = 1 of b ) c ;", "for ( let a = 1 of b ) c ;", "for ( let a = 1 in b ) c ;", "for ( const a = 1 of b ) c ;", "for ( let { a } = 1 of b ) c ;", "for ( var of a ) b ;",
    "for ( a + b of c ) d ;", "for ( a ( ) => b of c ) d ;", "for ( a = 1 of b ) c ;", "for ( a of b ; c ) d ;", "for ( a of b ) class c { }", "for ( ; ; ) let a = 1 , b ;", "for ( a in b ; c ; d ) e ;", "for ( let a of b , c ) d ;", "for ( a ? b : c of d ) e ;", "for ( 1 , a of b ) c ;", "break a b ;", "break 1 ;", "break if ;", "break . a ;", "continue a b ;", "continue 1 ;", "continue ( a ) ;",
    "switch", "switch ( )", "switch ( a )", "switch ( ) { }", "switch a { }", "switch ( a ) { b }", "switch ( a ) { b ; }", "switch ( a ) { case }", "switch ( a ) { case : }", "switch ( a ) { case b }", "switch ( a ) { case b c : }", "switch ( a ) { case b ; c }", "switch ( a ) { default }", "switch ( a ) { default b : }", "switch ( a ) { default : default : }", "switch ( a ) { case b : default : case c : default : }", "switch ( a ) { ; }", "switch ( a ) case b :",
    "throw", "throw ;", "throw\na ;", "throw a b ;", "throw a , ;", "try", "try a ;", "try { }", "try { } a ;", "try catch ( a ) { }", "try { } catch ( ) { }", "try { } catch ( a ) b ;", "try { } catch a { }", "try { } catch ( a . b ) { }", "try { } catch ( a = 1 ) { }", "try { } catch ( a , b ) { }", "try { } catch { } catch { }", "try { } finally a ;", "try { } finally { } catch { }", "try { } finally ( ) { }", "catch { }", "finally { }",
    "debugger a ;", "debugger ( )", "a b ;", "a : : b ;", "if : a ;", "a : ", "1 : a ;", "a . b : c ;", "a : let b ;", "a : class b { }", "a : const b = 1 ;", "} a ; {", "case a :", "default :",
];
const BAD_D: &[&str] = &[
    "var", "var ;", "var 1 ;", "var a b ;", "var a . b ;", "var a , ;", "var a , , b ;", "var a = ;", "var a = b c ;", "var a = b , ;", "var { a } ;", "var [ a ] ;", "var a += b ;", "var if ;", "var this ;", "var ( a ) ;", "var { a . b } = c ;", "var { a : b . c } = d ;", "var { a : ( b ) } = c ;", "var { 'a' } = b ;", "var { 1 } = b ;", "var { [ a ] } = b ;",
    "var { if } = a ;", "var { a b } = c ;", "var { a ; } = b ;", "var { a , , b } = c ;", "var { a ( ) { } } = b ;", "var { get a ( ) { } } = b ;", "var [ a b ] = c ;", "var [ ... a , b ] = c ;", "var [ ... a , ] = b ;", "var [ ... ] = a ;", "var [ a . b ] = c ;", "var [ 1 ] = a ;", "var [ a ; ] = b ;", "var [ a += 1 ] = b ;", "let 1 ;", "let a b ;", "let a , ;", "let { a } ;",
    "let a = ;", "const a ;", "const a , b = 1 ;", "const a = 1 , b ;", "const { a } ;", "const ;", "const a = ;", "class { }", "class a ", "class a { b }", "class a { b ( ) }", "class a extends { }", "class if { }", "function ( ) { }", "function a", "function a ( )", "function a ( ) ;", "function a ( b", "function 1 ( ) { }", "async function ( ) { }", "async function a ( ) ;", "function * ( ) { }",
];
const BAD_MODULE: &[&str] = &[
    "import", "import ;", "import a ;", "import a , ;", "import a , from 'b' ;", "import a b from 'c' ;", "import a from b ;", "import a from ;", "import a 'b' ;", "import { a } ;", "import { a from 'b' ;", "import { a b } from 'c' ;", "import { a as } from 'b' ;", "import { a as if } from 'b' ;", "import { if } from 'a' ;", "import { , } from 'a' ;", "import { a , , b } from 'c' ;",
    "import { 'a' } from 'b' ;", "import { 1 as a } from 'b' ;", "import { a . b } from 'c' ;", "import { * as a } from 'b' ;", "import * from 'a' ;", "import * as from ;", "import * a from 'b' ;", "import * as a , b from 'c' ;", "import { a } , b from 'c' ;", "import a , b from 'c' ;", "import a , { b } , * as c from 'd' ;", "import 'a' b ;", "import 'a' from 'b' ;", "import ( 'a' ) ;", "import if from 'a' ;", "import { a } from 'b' c ;",
    "import { default } from 'a' ;", "import { a as b . c } from 'd' ;", "export", "export ;", "export a ;", "export a = 1 ;", "export ( a ) ;", "export { a b } ;", "export { a as } ;", "export { a . b } ;", "export { , } ;", "export { a , , b } ;", "export { 'a' } ;", "export { 1 } ;", "export { a } b ;", "export { a } from b ;", "export { a } from ;", "export * ;", "export * from a ;", "export * as from 'a' ;",
    "export default ;", "export default var a ;", "export default const a = 1 ;", "export default a b ;", "export if ( a ) b ;",
];
const BAD_M: &[&str] = &[
    "a", "a ;", "a = 1 ;", "a : b", "a ,", ",", "a b ( ) { }", "a ( )", "a ( ) ;", "a ( ) => b", "a ( b", "a ( b c ) { }", "a ( , ) { }", "a ( , b ) { }", "a ( b , , c ) { }", "a ( ... b , c ) { }", "a ( ... b , ) { }", "a ( b . c ) { }", "a ( 1 ) { }", "a ( ( b ) ) { }", "a ( { b . c } ) { }", "get a ( b ) { }", "get a ( ... b ) { }", "get a ( , ) { }", "get a", "get a ( )", "get a ( ) ;", "get ( a ) b { }", "get get a ( ) { }", "get set a ( b ) { }", "get * a ( ) { }", "get async a ( ) { }",
    "get static a ( ) { }", "set a ( ) { }", "set a ( b , c ) { }", "set a ( b , ) { }", "set a ( ... b ) { }", "set a", "set * a ( b ) { }", "set async a ( b ) { }", "* get a ( ) { }", "* async a ( ) { }", "* * a ( ) { }", "* a", "* a : b", "* ( ) { }", "* static a ( ) { }", "async\na ( ) { }", "async get a ( ) { }", "async set a ( b ) { }", "async async a ( ) { }", "async static a ( ) { }", "async a", "async a => b", "async function a ( ) { }", "static", "static a", "static ;", "static static a ( ) { }", "static a = 1",
    "function a ( ) { }", "var a ;", "a . b ( ) { }", "[ a ]", "[ ] ( ) { }", "[ a , ] ( ) { }", "[ a b ] ( ) { }", "'a'", "1", "... a",
];
const BAD_O: &[&str] = &[
    "a b", "a . b", "a :", ": a", "a : b c", "a ;", "a : b ; c", ",", ", a", "a , , b", "1", "'a'", "[ a ]", "if", "this", "null", "a ( )", "a ( ) ;", "a ( ) b", "a ( b c ) { }", "a ( , ) { }", "a ( ... b , c ) { }", "a ( b . c ) { }", "get a", "get a : b", "get a ( b ) { }", "get a ( ... b ) { }", "get a ( ) ;", "get get a ( ) { }", "get * a ( ) { }", "get async a ( ) { }", "set a ( ) { }", "set a ( b , c ) { }", "set a ( b , ) { }",
    "set a ( ... b ) { }", "set a : b", "set * a ( b ) { }", "* a", "* a : b", "* get a ( ) { }", "* async a ( ) { }", "* * a ( ) { }", "* ( ) { }", "async a", "async a : b", "async\na ( ) { }", "async get a ( ) { }", "async async a ( ) { }", "static a ( ) { }", "static a", "function a ( ) { }", "a => b", "( a )", "...", "... a b", "... a : b", "[ a , ] : b", "[ ] : b", "[ a b ] : c", "a += 1", "'a' = 1", "a ? b : c",
];

pub const GOOD_I: &[&str] = &[
    "import 'a' ;", "import § from 'a' ;", "import * as § from 'a' ;", "import { } from 'a' ;", "import { § } from 'a' ;", "import { § , } from 'a' ;", "import { § , § } from 'a' ;", "import { a as § } from 'b' ;", "import { if as § } from 'b' ;", "import { default as § } from 'a' ;", "import { as as § , from as § , } from 'a' ;",
    "import § , { } from 'a' ;", "import § , { a as § , § } from 'b' ;", "import § , * as § from 'a' ;", "export { } ;", "export { } from 'a' ;", "export * from 'a' ;", "export { a as § } from 'b' ;", "export { if as § } from 'b' ;", "export { default as § } from 'a' ;", "export { a as § , b as § , } from 'c' ;", "export { § } from 'a' ;",
    "var §1 ; export { §1 } ;", "let §1 ; export { §1 , } ;", "const §1 = a ; export { §1 as § } ;", "var §1 ; export { §1 as § , §1 } ;", "export { §1 } ; var §1 ;", "export var § ;", "export var § = a , § ;", "export let § ;", "export let { § , a : [ § ] } = b ;", "export const § = a ;", "export const [ § ] = a , § = b ;",
    "export function § ( ) { }", "export function * § ( ) { }", "export async function § ( ) { }", "export class § { }", "export class § extends a { m ( ) { } }",
];
const GOOD_DEFAULT: &[&str] = &[
    "a ;", "a = b ;", "( a , b ) ;", "a => b ;", "async a => b ;", "async ( a , b ) => c ;", "async ( a ) ;", "async ;", "function ( ) { }", "function § ( ) { }", "function * ( a ) { }", "function * § ( a ) { }", "async function ( ) { }", "async function § ( ) { }", "class { }", "class § { }", "class extends a { }", "class § extends a { m ( ) { } }",
    "[ a , b ] ;", "{ } ;", "{ a , b : c } ;", "`a${ b }` ;", "/a/g ;", "new a ;", "( function ( ) { } ) ( ) ;", "( class { } ) . a ;", "a ? b : c ;", "! function ( ) { } ( ) ;", "typeof a ;", "- a ;", "a ( b ) ;", "this ;", "null ;", "1 ;", "'a' ;", "from ;", "of ;", "a in b ;", "( a in b ) ;",
];
const MORE_BAD_MODULE: &[&str] = &[
    "export default a , b ;", "export default function ( ) { } ( )", "export default class { } . a", "export default function ( ) { } , a", "export default let a ;", "export default { } { }", "export default ( a , b ) c ;", "export default import 'a' ;", "export default export a ;", "export default if ( a ) b ;", "export default return ;", "export default a = ;", "export default * from 'a' ;",
    "export default { a } from 'b' ;", "export default async function * ;", "export default class extends { }", "export default function a b ( ) { }", "export default function * * ( ) { }", "export default => a ;", "export default ( ) ;", "export default yield a ;", "export default await a ;", "export function ( ) { }", "export class { }", "export async function ( ) { }", "export function * ( ) { }", "export async a => b ;", "export async ;",
    "export let ;", "export const ;", "export const a ;", "export var ;", "export var a b ;", "export let { a } ;", "export { a } as b ;", "export { a , b as } ;", "export { a as b c } ;", "export { a as b as c } ;", "export { as a } ;", "export { * } from 'a' ;", "export { a } 'b' ;", "export { a } from 'b' , 'c' ;", "export { a : b } ;", "export { a = b } ;", "export { ( a ) } ;", "export { ... a } ;", "export [ a ] ;", "export 'a' ;", "export 1 ;",
    "export * , { a } from 'b' ;", "export a from 'b' ;", "export a , { b } from 'c' ;", "export * 'a' ;", "export * from ;", "export export a ;", "export import 'a' ;", "export { a } { b }", "export ; a", "import { a : b } from 'c' ;", "import { a = b } from 'c' ;", "import { ... a } from 'b' ;", "import [ a ] from 'b' ;", "import { a } 'b' ;", "import { a } from 'b' from 'c' ;", "import { a as b as c } from 'd' ;", "import { as a } from 'b' ;",
    "import { a as this } from 'b' ;", "import { true } from 'a' ;", "import * as if from 'a' ;", "import * as { a } from 'b' ;", "import * as a from b ;", "import * as a 'b' ;", "import * , a from 'b' ;", "import , { a } from 'b' ;", "import , from 'a' ;", "import { a } , { b } from 'c' ;", "import { a } , * as b from 'c' ;", "import * as a , { b } from 'c' ;", "import a , 'b' ;", "import a , b , { c } from 'd' ;", "import a as b from 'c' ;", "import a . b from 'c' ;",
    "import from 'a' b", "import default from 'a' ;", "import import from 'a' ;", "import ( ) ;", "import . meta ;", "import = a ;", "import a = b ;", "import `a` ;", "import 1 ;", "import 'a' , 'b' ;", "import var a from 'b' ;", "import function from 'a' ;", "import { a , b , , } from 'c' ;", "import { a ; } from 'b' ;", "import { await } from 'a' ;", "import yield from 'a' ;",
];

fn fresh(t: &str, n: &mut u32) -> String {
    // §1: one name throughout the piece
    let mut t = t.to_string();
    if t.contains("§1") {
        *n += 1;
        t = t.replace("§1", &format!("n{}", n));
    }
    while t.contains('§') {
        *n += 1;
        t = t.replacen('§', &format!("n{}", n), 1);
    }
    t
}

fn good<'a>(g: &mut G, k: Kind) -> &'a str {
    match k {
        X => *g.pick(GOOD_X),
        S => *g.pick(GOOD_S),
        M => *g.pick(GOOD_M),
        O => *g.pick(GOOD_O),
        P => *g.pick(GOOD_P),
    }
}
fn some<'a>(g: &mut G, k: Kind) -> &'a str {
    match k {
        X => *g.pick(SOME_X),
        S => *g.pick(SOME_S),
        M => *g.pick(SOME_M),
        O => *g.pick(SOME_O),
        P => *g.pick(SOME_P),
    }
}
fn bad_module<'a>(g: &mut G) -> &'a str {
    if g.pct(50) {
        *g.pick(BAD_MODULE)
    } else {
        *g.pick(MORE_BAD_MODULE)
    }
}
fn bad<'a>(g: &mut G, k: Kind, top: bool) -> &'a str {
    match k {
        X => *g.pick(BAD_X),
        S if top && g.pct(40) => bad_module(g),
        S => {
            if g.pct(65) {
                *g.pick(BAD_S)
            } else {
                *g.pick(BAD_D)
            }
        }
        M => *g.pick(BAD_M),
        O => *g.pick(BAD_O),
        P => *g.pick(BAD_P),
    }
}
/// One or two token edits.
fn edited(g: &mut G, t: &str) -> String {
    const WORDS: &str = "a 1 's' ( ) [ ] { } , ; : . ... = => ? + ++ ** - ! * in of new async await yield get set static function class extends let var if else while default case `t` /r/ this super";
    let pool: Vec<&str> = WORDS.split(' ').collect();
    let mut v: Vec<&str> = t.split(' ').collect();
    for _ in 0..1 + (g.below(5) / 4) {
        if v.is_empty() {
            break;
        }
        let i = g.below(v.len() as u32) as usize;
        match g.below(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, *g.pick(&pool)),
            2 => v[i] = *g.pick(&pool),
            3 => v.insert(i, v[i]),
            _ => {
                let j = g.below(v.len() as u32) as usize;
                v.swap(i, j);
            }
        }
    }
    v.join(" ")
}

fn starts_badly(t: &str) -> bool {
    ["{", "function", "class", "let", "async function"].iter().any(|w| t.starts_with(w))
}

/// Contexts from the outermost in, and what the innermost hole takes.
fn path(g: &mut G, want: Option<Kind>, loose: u32) -> (Vec<&'static str>, Kind) {
    let mut frames = Vec::new();
    let mut k = S;
    let n = match g.below(100) {
        0..=14 => 0,
        15..=97 => 1 + g.count(5),
        _ => 6 + g.below(30),
    };
    let mut i = 0;
    while i < n || want.map_or(false, |w| w != k) {
        i += 1;
        if i > n + 12 {
            break;
        }
        // no retries: a shrunk tape answers the same for ever
        let from = if loose > 0 && g.pct(loose) { LOOSE } else { FRAMES };
        let fit = |hole: Kind| i <= n || want.map_or(true, |w| w == hole || hole == X || hole == S && k != S);
        let mut v: Vec<_> = from.iter().filter(|f| f.0 == k && fit(f.1)).collect();
        if v.is_empty() {
            v = FRAMES.iter().filter(|f| f.0 == k && fit(f.1)).collect();
        }
        let f = *g.pick(&v);
        let f = (f.1, f.2);
        frames.push(f.1);
        k = f.0;
    }
    (frames, k)
}

fn wrap(g: &mut G, frames: &[&str], piece: &str, n: &mut u32) -> String {
    let mut body = piece.to_string();
    for f in frames.iter().rev() {
        let mut t = fresh(f, n);
        while t.contains('#') {
            let x = *g.pick(GOOD_X);
            let arrow = x.contains("=>") || x.contains(" = ") || x.contains("?") || x.contains("=");
            let x = if arrow && g.pct(30) { format!("( {} )", x) } else { x.to_string() };
            t = t.replacen('#', &x, 1);
        }
        // an arrow's body, or a statement, may not begin with a brace
        let at = t.find('@').unwrap();
        let before = t[..at].trim_end();
        if before.ends_with("=>") && body.starts_with('{') {
            body = format!("( {} )", body);
        }
        body = t.replacen('@', &body, 1);
    }
    if starts_badly(&body) && frames.first().map_or(false, |f| f.starts_with('@')) {
        body = format!("z = {}", body);
    }
    body
}

fn prefix(g: &mut G, n: &mut u32) -> (String, bool) {
    let k = match g.below(100) {
        0..=54 => 0,
        55..=84 => 1 + g.count(8),
        85..=97 => 10 + g.below(150),
        _ => 300 + g.below(1500),
    };
    let mut s = String::new();
    if k > 9 && g.pct(40) {
        let one = *g.pick(GOOD_S);
        for _ in 0..k {
            s.push_str(&fresh(one, n));
            s.push_str("\n;\n");
        }
    } else {
        for _ in 0..k {
            let one = *g.pick(GOOD_S);
            s.push_str(&fresh(one, n));
            s.push_str("\n;\n");
        }
    }
    (s, k > 9)
}

const DEPTHS: [&str; 4] = ["at the top", "one or two contexts", "more contexts", "many contexts"];

/// A wrong piece in nested contexts.
pub fn reject(g: &mut G) -> Gen {
    let mut last = String::new();
    for _ in 0..5 {
        let mut n = 0;
        let what = g.below(100);
        let (frames, k) = path(g, None, if what < 70 { 15 } else { 35 });
        let piece = match what {
            0..=49 => fresh(bad(g, k, frames.is_empty()), &mut n),
            50..=69 => {
                let t = fresh(good(g, k), &mut n);
                edited(g, &t)
            }
            // wrong where it stands
            70..=84 => fresh(some(g, k), &mut n),
            _ => fresh(good(g, k), &mut n),
        };
        let body = wrap(g, &frames, &piece, &mut n);
        let (mut src, long) = prefix(g, &mut n);
        src.push_str(&body);
        if g.pct(25) {
            src.push('\n');
            src.push_str(&fresh(*g.pick(GOOD_S), &mut n));
        }
        if let Verdict::Reject(off) = check(&src) {
            let mut classes = vec!["wrong piece in context", DEPTHS[depth(frames.len())]];
            if long {
                classes.push("after a long prefix");
            }
            return Gen { case: Case::Reject { src, why: format!("no derivation past byte {}", off) }, nontrivial: true, classes };
        }
        last = src;
    }
    Gen { case: Case::Robust { src: last }, nontrivial: false, classes: vec!["still well-formed"] }
}
fn depth(n: usize) -> usize {
    match n {
        0 => 0,
        1..=2 => 1,
        3..=6 => 2,
        _ => 3,
    }
}

/// A good piece in nested contexts.
pub fn accept(g: &mut G, want: Kind) -> Gen {
    let mut n = 0;
    let (frames, k) = path(g, Some(want), 0);
    let mut piece = fresh(good(g, k), &mut n);
    if frames.is_empty() && k == X && starts_badly(&piece) {
        piece = format!("z = {}", piece);
    }
    let body = wrap(g, &frames, &piece, &mut n);
    let (mut src, long) = prefix(g, &mut n);
    src.push_str(&body);
    if g.pct(25) {
        src.push_str("\n;\n");
        src.push_str(&fresh(*g.pick(GOOD_S), &mut n));
    }
    let mut classes = vec!["good piece in context", DEPTHS[depth(frames.len())]];
    if long {
        classes.push("after a long prefix");
    }
    Gen { case: Case::Accept { src }, nontrivial: true, classes }
}

/// Imports and exports: good, wrong, with a token or two changed, among others of their kind.
pub fn module(g: &mut G) -> Gen {
    let mut n = 0;
    let mut items = Vec::new();
    let mut default = g.pct(25);
    let mut item = |g: &mut G, n: &mut u32| match g.below(10) {
        0..=4 => fresh(*g.pick(GOOD_I), n),
        5..=6 if default => {
            default = false;
            format!("export default {}", fresh(*g.pick(GOOD_DEFAULT), n))
        }
        _ => fresh(*g.pick(GOOD_S), n),
    };
    let k = match g.below(100) {
        0..=29 => 0,
        30..=89 => 1 + g.count(6),
        90..=97 => 8 + g.below(60),
        _ => 100 + g.below(600),
    };
    for _ in 0..k {
        items.push(item(g, &mut n));
    }
    let one = match g.below(4) {
        0 => format!("export default {}", *g.pick(GOOD_DEFAULT)),
        _ => g.pick(GOOD_I).to_string(),
    };
    if g.pct(30) {
        let mut src = String::new();
        for t in &items {
            src.push_str(t);
            src.push_str(if t.ends_with(';') || t.ends_with('}') && !t.contains("while") && g.pct(50) { " " } else { "\n;\n" });
        }
        if g.pct(70) {
            let t = item(g, &mut n);
            src.push_str(&t);
        }
        return Gen { case: Case::Accept { src }, nontrivial: k > 0, classes: vec!["imports and exports"] };
    }
    let (mut piece, what) = match g.below(3) {
        0 => (bad_module(g).to_string(), "wrong import or export"),
        1 => (edited(g, &one), "edited import or export"),
        _ => (one, "import or export in a context"),
    };
    piece = fresh(&piece, &mut n);
    if what == "import or export in a context" {
        let (mut frames, mut kind) = path(g, None, 10);
        if kind != S {
            frames.push(match kind {
                X => "function ( ) { @ }",
                M => "m ( ) { @ }",
                O => "m ( ) { @ }",
                _ => "{ a = ( ) => { @ } }",
            });
            kind = S;
        }
        if frames.is_empty() {
            frames.push("{ @ }");
        }
        let _ = kind;
        piece = wrap(g, &frames, &piece, &mut n);
    }
    let at = g.below(items.len() as u32 + 1) as usize;
    items.insert(at, piece);
    let src = items.join(*g.pick(&["\n;\n", "\n"]));
    if let Verdict::Reject(off) = check(&src) {
        return Gen { case: Case::Reject { src, why: format!("no derivation past byte {}", off) }, nontrivial: true, classes: vec![what] };
    }
    Gen { case: Case::Robust { src }, nontrivial: false, classes: vec!["still well-formed"] }
}

/// Every curated wrong piece is wrong on its own, every good one is good.
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn pieces() {
        let mut out = vec![];
        let mut try_ = |k: Kind, ts: &[&str], good: bool| {
            for t in ts {
                let mut n = 0;
                let t = fresh(t, &mut n);
                let src = match k {
                    X => format!("z = {} ;", t),
                    S => t.clone(),
                    M => format!("class c {{ {} }}", t),
                    O => format!("z = {{ {} }} ;", t),
                    P => format!("var {} = a ;", t),
                };
                let ok = check(&src) == Verdict::Maybe;
                if ok != good {
                    out.push(src);
                }
            }
        };
        try_(X, GOOD_X, true);
        try_(S, GOOD_S, true);
        try_(M, GOOD_M, true);
        try_(O, GOOD_O, true);
        try_(P, GOOD_P, true);
        try_(P, BAD_P, false);
        try_(X, BAD_X, false);
        try_(S, BAD_S, false);
        try_(S, BAD_D, false);
        try_(S, BAD_MODULE, false);
        try_(S, MORE_BAD_MODULE, false);
        try_(S, GOOD_I, true);
        let d: Vec<String> = GOOD_DEFAULT.iter().map(|t| format!("export default {}", t)).collect();
        try_(S, &d.iter().map(|t| &t[..]).collect::<Vec<_>>(), true);
        try_(M, BAD_M, false);
        try_(O, BAD_O, false);
        assert!(out.is_empty(), "{:#?}", out);
    }
}
