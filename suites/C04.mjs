// Parser acceptance: all short token strings, all single-token edits of a set of seed programs, and products of
// grammar positions with every kind of fragment; parsed as script and as module.
import { product, seqs } from '../lib/prelude.mjs';
import { parse } from '../lib/third_party/acorn.mjs';
// --- alphabet of tokens
const TOK = ['a', 'b', '1', '"s"', '`t`', '/r/', '(', ')', '[', ']', '{', '}', ',', ';', ':', '.', '...', '?', '?.', '=>', '=', '+=', '&&=', '+', '-', '*', '**', '/', '!', '++', '&&', '||', '??', '<', 'in', 'of', 'instanceof', 'let', 'var', 'const', 'function', 'class', 'async', 'await', 'yield', 'new', 'delete', 'typeof', 'return', 'if', 'else', 'for', 'while', 'do', 'break', 'continue', 'switch', 'case', 'default', 'try', 'catch', 'finally', 'throw', 'super', 'this', 'null', 'extends', 'static', 'get', 'set', 'import', 'export', 'from', 'as', 'eval', 'arguments', '#p', 'enum', 'with', 'debugger', 'target', 'meta', '\n', '"use strict"', 'void', '~', '1n', 'true', '0x1', '010', '.5', '1_0', '\\u0061', 'l\\u0065t', '`${', '}`', '<!--', '-->', '/*\n*/', '//\n', 'x\\u{62}'];
// those tried in every position of an edited seed
const EDIT = ['a', '1', '"s"', '/r/', '(', ')', '[', ']', '{', '}', ',', ';', ':', '.', '...', '?', '?.', '=>', '=', '+=', '-', '**', '!', '++', '&&', '??', 'in', 'of', 'let', 'var', 'const', 'function', 'class', 'async', 'await', 'yield', 'new', 'delete', 'return', 'if', 'break', 'continue', 'default', 'super', 'extends', 'static', 'get', 'eval', 'arguments', '#p', 'import', '\n', '*', 'this'];
const SEEDS = [
  'for ( let x of y ) { break ; }', 'for ( const [ a , b ] of c ) ;', 'for ( var i = 0 , j ; i < 1 ; i ++ ) { continue }', 'for ( let in o ) ;', 'for ( a . b in o ) ;', 'for ( { a , b : [ c ] } of d ) ;', 'for ( async of => 1 ; ; ) break',
  'async function f ( ) { for await ( const x of y ) ; await 1 }', 'function * g ( a , b = 1 , ... c ) { yield ; yield * a ; yield 1 }', 'async function * h ( ) { yield await 1 ; for await ( x of y ) ; }', 'async ( a ) => { await a }', 'async a => a', '( a , b ) => a', '( { a , b = 1 } , [ c ] ) => { }', '( ) => { } \n a', 'a => ( { } )', 'async ( a , b )', 'async \n ( a )', '( a , ... b ) => a',
  'class A extends B { constructor ( ) { super ( ) } m ( ) { super . x } }', 'class A { static x = 1 ; # p = 2 ; get a ( ) { return this . # p } set a ( v ) { } }', 'class A { static { await ; } }', 'class A { static async * [ a ] ( ) { } }', 'class A { # p ; m ( o ) { return # p in o } }', 'class A { "constructor" ( ) { } }', 'class A { get ; set ; static ; async ; x }', 'class A { get \n x ( ) { } }', 'class { }', '( class { } )', 'class A { static # p ( ) { } }', 'class A { x = arguments }',
  '( { get a ( ) { } , set a ( v ) { } , async b ( ) { } , * c ( ) { } , async * d ( ) { } , e , f : 1 , [ g ] : 2 , ... h } )', '( { a = 1 } )', '( { a = 1 } = { } )', '[ a , , b = 1 , ... c ] = d', '[ ... a , b ] = c', '( { a : b . c , ... d } = e )', '( { __proto__ : a , __proto__ : b } )', '( [ a ] ) = 1', '( a ) = 1', '( a , b ) = 1', '( { get , set , async , await } )',
  'let a = 1 , b ; const c = 2', 'let [ a ] = b', 'let { a , b : c = 1 , ... d } = e', 'const { } = a', 'let \n a', 'var let = 1', 'let let', 'var [ ] = a', 'let a ; { let a ; var b }', 'let a ; var a', '{ function f ( ) { } let g }', 'try { } catch ( e ) { let e }', 'try { } catch ( [ a ] ) { } finally { }', 'try { } catch { }',
  'function f ( a , a ) { }', 'function f ( a ) { "use strict" }', 'function f ( a = 1 ) { "use strict" }', '"use strict" ; function f ( eval ) { }', '"use strict" ; with ( a ) b', '"use strict" ; delete a', '"use strict" ; a = 010', '"use strict" ; "\\01"', '"\\01" ; "use strict"', 'function f ( ) { return new . target }', 'new a . b ( c ) . d', 'new a', 'new new a ( ) ( )', 'new ( a ( ) )', 'new a ?. b', 'a ?. b ( )', 'a ?. [ b ]', 'a ?. b = 1', 'a ?. `t`', 'a . b `t`', 'a . # p', 'import ( a )', 'import . meta', 'new import ( a )', 'super . a', 'a ?. 5 : 1', 'a ? . 5 : 1',
  'if ( a ) b ; else c', 'if ( a ) { } else if ( b ) ; else d', 'do a ; while ( b ) c', 'while ( a ) b', 'x : while ( 1 ) { continue x ; break x }', 'x : { break x }', 'x : { continue x }', 'x : x : a', 'x : { x : a }', 'switch ( a ) { case 1 : b ; default : c ; case 2 : break }', 'switch ( a ) { case 1 : let b ; default : let b }', 'throw a', 'throw \n a', 'with ( a ) b', 'debugger ;', 'return a', 'function f ( ) { return \n a }', 'break', 'continue',
  'a \n ++ b', 'a ++ \n b', 'a \n ( b )', 'a \n / b / c', 'a = b \n / c / d', '{ } / a /', '( { } / a / b )', 'a = function ( ) { } / b / c', 'x = a ? b : c ? d : e', 'a ** b', '- a ** b', '( - a ) ** b', 'a ?? b || c', 'a ?? ( b || c )', 'a && b ?? c', 'typeof a . b', 'delete a . b', 'void 0 , a', '! a instanceof b', '# p in a', 'a in b in c', 'for ( let i = ( "a" in b ) ; ; ) ;', 'for ( var i = 1 in a ) ;', 'yield', 'await', 'await a', 'let yield', 'var await', 'var async', 'async = 1', 'async ( )', 'async ( ) . a', 'let ( a )', 'l\\u0065t a', 'var v\\u0061r', '`a ${ b } c ${ d }`', '`a ${ `b` }`', 'f `a ${ b }`', '`\\u`', 'f `\\u`', 'a = /[/]/ . b', '/a/g . b', '/a/gg', '/(/ ',
  'import a from "b"', 'import { a as b , c } from "d"', 'import * as a from "b"', 'import a , { b } from "c"', 'import a , * as b from "c"', 'import "a"', 'import { default as a } from "b"', 'import { "s" as a } from "b"', 'export { a } ; var a', 'export { a as default , b as c } ; let a , b', 'export { a as "s" } ; var a', 'export * from "a"', 'export * as b from "a"', 'export { a } from "b"', 'export { "s" as "t" } from "b"', 'export default a', 'export default function ( ) { }', 'export default class { }', 'export default async function ( ) { }', 'export default async ( ) => a', 'export default function * f ( ) { }', 'export var a = 1', 'export let { a , b } = c', 'export const a = 1', 'export function f ( ) { }', 'export class A { }', 'export async function f ( ) { }', 'await a ; export { }', 'export { a } ', 'export { a , a } ; var a', 'export var a ; export { a }', 'import { a , a } from "b"', 'import a from "b" ; let a', 'import . meta . a', 'await import ( "a" )', 'for await ( a of b ) ;', 'export default a , b', 'import { eval } from "a"', 'import await from "a"',
];
// --- words in identifier positions
const STR = ['({"\\01":1})', '({"\\01":a}={})', 'let {"\\01":a}={}', 'class A{"\\01"(){}}', 'class A{"\\08"=1}', '({get "\\07"(){}})', '"\\8"', '"\\0"', '"\\00"', '`\\01`', 'a`\\01`', '010', '08', '08.5', '1_0', '01_0', '010n', '0b1', '0b2', '0o7', '0o8', '0xg', '0x1n', '1n', '1.n', '.1n', '1e1n', '1__0', '1_', '1_.0', '0_1', '1e_1', '1.e1', '1..a', '1.a', '3in []', '3.in []', '0b1in []'];
const WORDS = ['a', 'eval', 'arguments', 'let', 'static', 'yield', 'await', 'async', 'of', 'get', 'set', 'implements', 'interface', 'package', 'private', 'protected', 'public', 'enum', 'null', 'true', 'this', 'super', 'class', 'function', 'typeof', 'default', 'in', 'new', 'target', 'from', 'as', 'meta', 'constructor', 'prototype', 'l\\u0065t', 'yi\\u0065ld', '\\u0061wait', 'st\\u{61}tic', 'cl\\u0061ss', 'n\\u0075ll', '\\u0061sync', 'undefined', 'NaN', '\u00e9', '\ud83d\ude00', '\ud835\udc9c', '$', '_', 'a\u200d', '\u2118', '\\u{1d49c}', '\\u0030', '\u00b7a', 'a\u00b7', '\u30fb'];
const IDPOS = ['var %', 'let %', 'const % = 1', 'class % {}', 'function %(){}', 'function f(%){}', 'function f(){ % }', '(%) => 1', '% => 1', 'async % => 1', 'async (%) => 1', '%: 1', 'while(1){ %: break % }', 'a = %', '% = 1', '% += 1', '%++', '--%', '({%})', '({% = 1} = {})', '({a: %} = {})', '[%] = []', '({%: 1})', '({%(){}})', '({get %(){}})', '({async %(){}})', '({*%(){}})', 'a.%', 'a?.%', 'class A { % }', 'class A { % = 1 }', 'class A { %(){} }', 'class A { static % }', 'class A { static %(){} }', 'class A { get %(){} }', 'class A { #%; }', 'class A { async %(){} }', 'class A { *%(){} }', 'class A { static async *%(){} }', 'try{}catch(%){}', 'try{}catch({%}){}', 'for(% of []);', 'for(% in {});', 'for(var % of []);', 'for(let % of []);', 'for(const % in {});', 'for(%;;) break', 'let [%] = []', 'let {%} = {}', 'let {a:%} = {}', 'let {...%} = {}', 'function f(...%){}', 'function f({%}){}', '(function %(){})', '(class % {})', '(function* %(){})', '(async function %(){})', 'function* %(){}', 'async function %(){}', 'async function* %(){}', '(async function* %(){})', 'delete %', 'typeof %', 'new %', 'new.%', 'import.%', '`${%}`', 'if(%);', 'return %', '%\n=> 1', 'async %\n=> 1', '...%', '%`t`', 'import %', 'import % from "m"', 'import {%} from "m"', 'import {% as x} from "m"', 'import {x as %} from "m"', 'import * as % from "m"', 'export {%}', 'var %; export {%}', 'var x; export {x as %}', 'export {%} from "m"', 'export * as % from "m"', 'export default %', 'export % x', 'function f(){ %; var a }', 'class A extends % {}'];
const CTX = { glob: s => s, strict: s => `"use strict";${s}`, fn: s => `function F(){${s}}`, gen: s => `function* F(){${s}}`, afn: s => `async function F(){${s}}`, agen: s => `async function* F(){${s}}`, meth: s => `({m(){${s}}})`, clsm: s => `class C extends D{m(){${s}}}`, ctor: s => `class C extends D{constructor(){${s}}}`, stat: s => `class C{static{${s}}}`, arrow: s => `()=>{${s}}`, aarrow: s => `async()=>{${s}}`, blk: s => `{${s}}`, loop: s => `while(1){${s}}`, sw: s => `switch(1){case 1:${s}}`, lab: s => `L:{${s}}`, ifb: s => `if(1){${s}}`, catchp: s => `try{}catch(q){${s}}` };
// --- expression fragments in expression positions (cover grammars, early errors)
const FRAG = ['a', '(a)', 'a.b', 'a[b]', 'a?.b', 'a()', 'new a', 'new a()', 'new.target', 'super.x', 'super()', 'super[a]', 'import("m")', 'import.meta', '[a]', '[a,...b]', '[a,...b,]', '[...a=1]', '[[a]]', '[(a)]', '[([a])]', '[a()]', '[a.b=1]', '{a}', '{a=1}', '{a:b}', '{a:b=1}', '{a:(b)}', '{a:({b})}', '{a:{b=1}}', '{...a}', '{...a,}', '{...{a}}', '{...a.b}', '{a(){}}', '{get a(){}}', '{eval}', '{eval=1}', '{"a":b}', '{"a"}', '{1:a}', '{[a]:b}', '{a:1}', '{yield}', '{await}', '{a,a}', '{__proto__:a,__proto__:b}', '{__proto__:a,"__proto__":b}', '{__proto__:a,__proto__}', 'function(){}', 'class{}', 'async()=>1', '()=>1', '(a,b)', '(a,)', '()', '(...a)', '(a,...b)', 'a=1', '(a=1)', 'a+=1', 'yield', 'yield a', 'yield*a', 'yield\na', 'await a', 'await', 'async', 'async a', 'async(a)', 'a?b:c', 'a,b', '-a', '-a**b', 'a**b', 'a??b', 'a??b||c', 'a in b', '#p in a', 'this', 'this.#p', 'a?.#p', '`t`', '`${a}`', '/r/', '1', '1.a', '1..a', '01', '08', '09.5', '1n', '01n', '1e', '0b2', '0o8', '1_', '1__0', '0_1', '.1', '1a', '"a\\\nb"', '"\\x"', '"\\u{110000}"', '"\\8"', '"\\07"', '"\u2028"', '"a', 'eval', 'arguments', 'let', 'typeof a', 'delete a', 'delete (a)', 'delete a.#p', 'delete this.#p', 'delete ((a))', '++a', 'a++', '++a++', 'a\n++', '--(a.b)', '!a', 'null', 'true', 'undefined', 'a=>{}', '(a)=>{}', '(a,a)=>{}', '(a=yield)=>{}', '(a=await b)=>{}', 'async(a=await b)=>{}', '({a})=>{}', '([a,a])=>{}', '(a)\n=>{}', 'a=>{}()', 'a=>{}.b', 'a=>{}||b', 'b||a=>{}', '(a)=>{"use strict"}', '({a})=>{"use strict"}', '(eval)=>{"use strict"}', '(a.b)=>{}', '((a))=>{}', '(a+b)=>{}', 'function f(){super.x}', '{m(){super.x}}', '{m(){super()}}', '{m:function(){super.x}}', 'class extends a{constructor(){super()}}', 'class{constructor(){super()}}', 'class{constructor(){}constructor(){}}', 'class{get constructor(){}}', 'class{static prototype(){}}', 'class{static prototype=1}', 'class{static "prototype"=1}', 'class{constructor=1}', 'class{"constructor"=1}', 'class{static constructor(){}}', 'class{#constructor}', 'class{#a;#a}', 'class{get #a(){}set #a(v){}}', 'class{get #a(){}get #a(){}}', 'class{static get #a(){}set #a(v){}}', 'class{#a(){}m(){this.#a}}', 'class{m(){this.#b}}', 'class{m(){class B{#b;n(){this.#b}}}}', 'class{#a;m(){return class{n(){this.#a}}}}', 'class{a=await}', 'class{a=yield}', 'class{static{await}}', 'class{static{return}}', 'class{static{arguments}}', 'class{static{let a;var a}}', 'class{static{super.x}}', 'class{static{super()}}', 'class{a=arguments}', 'class{a=super.x}', 'class{a=super()}', 'class{a=()=>arguments}', 'class{[arguments]=1}', 'class{async\na(){}}', 'class{static\na(){}}', 'class{get\na(){}}', 'class{a\nb}', 'class{a b}', 'class{a=1\nb}', 'class{a=1 b}', 'class{get\n*a(){}}', 'class{static async *#a(){}}', 'class{set a(){}}', 'class{get a(b){}}', 'class{set a(...b){}}', 'class{set a(b,c){}}'];
const FPOS = ['%', '(%)', 'x=%', 'x=(%)', '(%)=x', '% = x', '[%]=x', '[...%]=x', '({a:%}=x)', '({...%}=x)', '({[%]:x})', '(%)=>1', 'async(%)=>1', 'async %=>1', '(a,%)=>1', '([%])=>1', '(a=%)=>1', 'function f(a=%){}', 'function* f(a=%){}', 'async function f(a=%){}', 'for(% of x);', 'for(% in x);', 'for(%;;)break', 'for(var a of %);', 'for(var a=% in x);', 'for(let a of %);', 'for(let [%] of x);', 'let [%]=x', 'let {a:%}=x', 'let {...%}=x', 'var %=x', 'const a=%', '(% , x)', '(x, %)', 'f(%)', 'f(...%)', 'new %', 'new (%)', '%.x', '% `t`', '%?.x', '(%)++', '%++', '++%', 'delete %', 'typeof %', '-%', '%**x', 'x**%', '% in x', 'x in %', '%??x', 'x||%', '%=>1', 'x?%:y', 'if(%);', 'while(%)break', 'do;while(%)x', 'switch(%){}', 'switch(1){case %:}', 'throw %', 'function f(){return %}', 'function* f(){yield %}', 'async function f(){await %}', 'function* f(){%}', 'async function f(){%}', 'async function* f(){yield* %}', 'class A{m(){%}}', 'class A extends B{constructor(){%}}', 'class A{x=%}', 'class A{static x=%}', 'class A{static{%}}', 'class A{[%]=1}', 'class A{[%](){}}', 'class A extends % {}', 'class A{#p;m(){%}}', '({m(){%}})', '({get a(){%}})', '({a:%})', '({...%})', '[%]', '[...%]', '`${%}`', 'x`${%}`', 'try{}catch(%){}', 'export default %', 'import(%)', '%\nx', 'x\n%', '{%}', 'L:%', 'if(1)%', 'if(1)%;else x', '"use strict";%', '"use strict";(%)=x', '"use strict";[%]=x', '"use strict";({a:%}=x)', '()=>%', '()=>{%}', 'async()=>%', 'new.target?.%'];
// --- statements in statement positions
const STM = ['a', ';', 'let a', 'let\na', 'let [a]=b', 'let\n[a]=b', 'let\n{a}=b', 'const a=1', 'const a', 'var a', 'class A{}', 'function* g(){}', 'async function f(){}', 'async\nfunction f(){}', 'break', 'continue', 'break L', 'continue L', 'break M', 'return', 'return a', 'throw a', 'throw\na', 'M:a', 'L:a', 'M:function* g(){}', 'M:class A{}', 'M:let a', 'M:async function f(){}', '{}', '{let a;var a}', '{let a;let a}', '{let a}var a', 'if(1)let a', 'if(1)let\n[a]=b', 'if(1)let\na', 'if(1)class A{}', 'if(1)const a=1', 'if(1)var a', 'if(1)function* g(){}', 'while(1)let a', 'while(1)let\na', 'while(1)function f(){}', 'while(1)class A{}', 'for(;;)let a', 'for(;;)const a=1', 'do let a\nwhile(1)', 'do function f(){}while(1)', 'with(a)let b', 'with(a)b', 'with(a)function f(){}', 'for(let let of a);', 'for(let of of a);', 'for(let of a);', 'for(let of,a;;)break', 'for(let of=1;;)break', 'for(let.a of b);', 'for(let.a in b);', 'for(let in a);', 'for(let=1;;)break', 'for(let[a]=b;;)break', 'for(let[a] of b);', 'for(async of b);', 'for(async of=>1;;)break', 'for(async.a of b);', 'for(var of of b);', 'for(var a of b,c);', 'for(a of b,c);', 'for(a in b,c);', 'for(let a,b of c);', 'for(let a=1 of b);', 'for(let a=1 in b);', 'for(var a=1 of b);', 'for(const a;;)break', 'for(const a=1;;)break', 'for(let a;;){var a}', 'for(let a of b){var a}', 'for(let a of b){let a}', 'for(let [a,a] of b);', 'for(var [a,a] of b);', 'for(let a in a);', 'for await(a of b);', 'for await(let a of b);', 'for await(let a in b);', 'for await(;;);', 'for await(async of b);', 'for(a=1 of b);', 'for((a) of b);', 'for((a.b) in c);', 'for((a,b) of c);', 'for([a]=1 of c);', 'for(([a]) of c);', 'for(f() of c);', 'for(f() in c);', 'for("a" of c);', 'for(this of c);', 'for(a?.b of c);', 'try{}', 'try{}catch(e){}', 'try{}finally{}', 'try{}catch{}finally{}', 'try{}catch(){}', 'try{}catch(e){let e}', 'try{}catch([e]){let e}', 'try{}catch([e,e]){}', 'try{}catch({e}){var e}', 'try{}catch(e){function e(){}}', 'try{}catch(e=1){}', 'switch(a){}', 'switch(a){case 1:default:case 2:}', 'switch(a){default:default:}', 'switch(a){case 1:let b;case 2:let b}', 'switch(a){case 1:let b;case 2:var b}', 'switch(a){b}', 'switch(a){case 1:class A{};case 2:class A{}}', 'debugger', 'debugger\na', 'do a;while(b)c', 'do a\nwhile(b)c', 'do{}while(b)c', 'do a while(b)', 'a b', 'a\nb', 'a;b', '}', '{', 'if(a)b else c', 'if(a)b;else c', 'if(a){}else c', 'if(a)b\nelse c', 'yield\na', 'yield:1', 'await:1', 'let:1', 'async:1', 'static:1', 'yield=1', 'import("m")', 'import("m").a', 'import.meta', 'import a from "m"', 'export var a', 'export default 1', 'export {a}', 'import "m"', '"use strict";with(a)b', '"use strict"', '<!--x', '-->x', 'a\n-->x', 'a-->x', '/*a*/-->x', '/*\n*/-->x', 'a/*\n*/b', 'a/**/b', '//x', '#!x', 'x=1 //\ny', 'var a;function* a(){}', 'let a;function* a(){}', 'function* a(){}function* a(){}', 'class a{}var a', 'var a;let a', 'let a;{var a}', 'let undefined', 'var undefined', 'let a=a', 'const [a]=1,{b}=2', 'let [a]', 'let {a}', 'var [a]', 'var {a}', 'let let', 'const let=1', 'var let', 'let [let]=1', 'let yield', 'let await', 'let static', 'let async', 'let eval', 'let a,', 'var a,', 'var', 'let', 'const', 'a?.b`t`', 'a?.`t`', 'a\n?.b', 'a?.\nb', 'a?.5:1', 'new a?.b()', 'a?.b=1', 'a?.b++', '[a?.b]=1', 'new.target', 'new\n.\ntarget', 'n\\u0065w.target', 'new.t\\u0061rget', 'async()\n=>1', 'async\n()=>1', 'async a\n=>1', '\\u0061sync a=>1', '\\u0061sync function f(){}', '({g\\u0065t a(){}})', '({\\u0061sync a(){}})', 'class A{st\\u0061tic m(){}}', 'for(a \\u006ff b);', 'a=>{}\n/b/', 'x=a\n/b/g', 'x={}/a/b', '{}/a/b', '{}/a/', 'function f(){}/a/', 'x=function(){}/a/b', 'if(a)/b/', '(a)/b/c', 'a++/b/c', 'a=b++/c/d', ')/a/', ']/a/', 'a[0]/b/c', 'return/a/', 'typeof/a/', 'x=yield/a/b', 'x=yield/a/', '/=/', '/=/=1', 'a/=b', 'a/ =b', '/[/]/', '/[\\]/]/', '/[/', '/a\nb/', '/*/', '//*\n', '/a/u.b', '/a/gimsuyd', '/a/gg', '/a/x', '/(/', '/[b-a]/', '/a{2,1}/', '/\\1(a)/', '/(?<a>b)\\k<a>/', '/(?<a>b)\\k<c>/', '/\\k<a>/', '/\\k<a>/u', '/(?<a>.)(?<a>.)/', '/(?<!a)b/', '/\\u{61}/u', '/\\u{110000}/u', '/{/', '/{/u', '/a{1/', '/a{1/u', '/]/', '/]/u', '/\\c/', '/\\c/u', '/(?=a)*/', '/(?=a)*/u', '/(?<=a)*/', '/\\p{L}/u', '/\\p{Foo}/u', '/\\p{Script=Greek}/u', '/\\p/', '/\\-/', '/\\-/u', '/[\\-]/u', '/[\\d-a]/', '/[\\d-a]/u', '/\\00/u', '/\\0/u', '/\\01/', '/(?:/', '/a**/', '/a*?/', '/a+??/', '/^*/', '/\\b*/', '/(?a)/', '/(?<1>a)/', '/(?<a\\u0062>a)/', '/(?<\\u{61}>a)/', '/x{0}{1}/', '/(?i:a)/'.replace('?i:', '?:')];
// --- declaration pairs in one scope
const DECL = ['var a', 'let a', 'const a=1', 'class a{}', 'function a(){}', 'function* a(){}', 'async function a(){}', '{var a}', 'for(var a;;)break', 'let [a]=1', 'var {a}=1', 'try{}catch(a){}', 'a:1', '{let a}'];
const DCTX = ['%', '"use strict";%', '{%}', '"use strict";{%}', 'function f(){%}', 'function f(){"use strict";%}', 'function f(a){%}', 'function f([a]){%}', '(a)=>{%}', 'function f(){{%}}', 'switch(1){case 1:%}', '"use strict";switch(1){case 1:%}', 'class C{static{%}}', 'class C{static{{%}}}', 'for(let a;;){%}', 'for(let a of b){%}', 'for(const a in b){%}', 'try{}catch([a]){%}', 'try{}catch(b){let c;{%}}', 'function a(){%}', '(function a(){%})', '({a(a){%}})', 'function* f(a){%}', 'async function f(a){%}'];
const hasSloppyFn = (ctx, d) => !/strict|class/.test(ctx) && (/\{\{%|^\{|switch|for\(|try/.test(ctx)) && d.some(x => x === 'function a(){}');
const K = (src, mod) => ({ kind: mod ? 'P' : 'p', src });
// Annex B.3 function statements (in sloppy blocks, as if bodies, labelled) are an optional legacy part the engine leaves out
function* gen(tier) {
  const deep = tier === 'thorough';
  const T1 = TOK.length;
  for (let n = 1; n <= 2; n++) for (const s of seqs(TOK, n)) for (const m of [0, 1]) yield K(s.join(' '), m);
  const T3 = deep ? TOK : TOK.filter((t, i) => !['b', '1n', 'true', '0x1', '.5', '1_0', 'x\\u{62}', '~', 'void', '+', '-', '||', 'instanceof', 'debugger', 'continue', '/', 'as', 'from', 'target', 'meta', 'finally', 'else', 'while', 'null', 'set', 'enum', 'export', 'import', '&&', '}`', '//\n', '010', 'with', 'do', 'arguments', 'const', 'throw', 'switch', 'try', 'catch', 'case', 'default', 'typeof', 'if', '"s"', '<', 'this', '!'].includes(t));
  for (const s of seqs(T3, 3)) yield K(s.join(' '), 0);
  if (deep) for (const s of seqs(T3.filter(t => /^(a|1|\(|\)|\[|\]|\{|\}|,|;|:|\.|\.\.\.|=>|=|\?|in|of|let|async|await|yield|function|class|\n|new|\/r\/|`t`|get|static|#p|\*)$/.test(t)), 4)) yield K(s.join(' '), 0);
  for (const seed of SEEDS) {
    const ts = seed.split(' '), mods = /import|export|await/.test(seed) ? [1, 0] : deep ? [0, 1] : [0];
    for (const m of mods) {
      yield K(seed, m);
      for (let i = 0; i <= ts.length; i++) {
        if (i < ts.length) { yield K([...ts.slice(0, i), ...ts.slice(i + 1)].join(' '), m); yield K([...ts.slice(0, i), ts[i], ...ts.slice(i)].join(' '), m); if (i + 1 < ts.length) yield K([...ts.slice(0, i), ts[i + 1], ts[i], ...ts.slice(i + 2)].join(' '), m); }
        for (const e of EDIT) { yield K([...ts.slice(0, i), e, ...ts.slice(i)].join(' '), m); if (i < ts.length && (deep || e.length < 2 || /^[(\[{a]/.test(ts[i]))) yield K([...ts.slice(0, i), e, ...ts.slice(i + 1)].join(' '), m); }
        if (deep && i < ts.length) for (let j = i + 2; j <= ts.length; j++) yield K([...ts.slice(0, i), ...ts.slice(j)].join(' '), m);
      }
    }
  }
  for (const p of IDPOS) for (const w of WORDS) for (const c of Object.keys(CTX)) { const mod = /import|export/.test(p); if (mod && c !== 'glob') continue; for (const m of mod ? [1] : c === 'glob' ? [0, 1] : [0]) yield K(CTX[c](p.replaceAll('%', () => w)), m); }
  for (const p of FPOS) for (const f of FRAG) { const mod = /^export/.test(p); yield K(p.replace('%', () => f), mod); if (/await|yield|let|arguments|import|010|eval/.test(f + p) && !mod) yield K(p.replace('%', () => f), 1); }
  for (const s of STR) for (const c of Object.keys(CTX)) for (const p of ['%', '(%)', 'x=%', 'f(%)', '"a";%', '`${%}`', '"use strict";%', '"use strict"\n%', '%;"use strict"', '%\n"use strict"']) { yield K(CTX[c](p.replace('%', () => s)), 0); if (c === 'glob') yield K(p.replace('%', () => s), 1); }
  for (const s of STM) for (const c of Object.keys(CTX)) { yield K(CTX[c](s), 0); if (c === 'glob' || c === 'fn' || deep) yield K(CTX[c](s), 1); }
  for (const s of STM) for (const t of deep ? STM : STM.filter(x => /^(let|var|a|\/|if|do|yield|async|for\(let a of b\)|\(|<|-|\{|\})/.test(x) && x.length < 9)) for (const j of [' ', '\n', ';']) yield K(s + j + t, 0);
  for (const c of DCTX) for (const d of product(DECL, DECL)) { if (hasSloppyFn(c, d)) continue; yield K(c.replace('%', () => d.join('\n')), 0); if (deep || c === '%') yield K(c.replace('%', () => d.join('\n')), 1); }
}
// what is left to the implementation, or where the reference itself departs from ECMAScript
// a text on which the two reference parsers differ is not judged
const acorn = c => { try { parse(c.src, { ecmaVersion: 2023, sourceType: c.kind === 'P' ? 'module' : 'script' }); return 'ok'; } catch (e) { return 'E'; } };
// optional legacy syntax the engine leaves out: HTML-like comments, var with initializer in for-in, patterns only the
// lenient grammar of Annex B takes
const legacyRe = s => /\/(\(\?=a\)\*|[\]{}]|a\{1|\[\\d-a\])\//.test(s.replace(/ /g, '')) || /\/ *[a]? *[\]{}] *a? *\//.test(s);
const annexB = s => /catch *\( *\w+ *\) *\{ *var|x\\u\{62\}|`/.test(s) && /catch|^\/ /.test(s) || /<!--|-->/.test(s) || /for\s*\(\s*var\s+\w+\s*=.*\bin\b/s.test(s) || legacyRe(s);
const same = (c, g, w) => !g.startsWith('!') && (acorn(c) !== w || (g === 'ok' && /\n\/=\//.test(c.src)) || (g === 'ok' && /catch\s*\(\s*[{[]\s*l(et|\\u0065t)/.test(c.src)) || (g === "E" && w === "ok" && annexB(c.src)));
const skip = (s, k) => k === 'P' && /[\n\r\u2028\u2029]/.test(s);
export default {
  id: 'C04', level: 'exploration', variants: ['plain'], reset: 4000, timeoutMs: 1000, confirmMax: 60,
  rule: 'one case = one source text as script or as module, accepted or rejected; distinct texts; trivial: texts rejected by both sides',
  trivial: (c, w) => w !== 'ok', same,
  bounds: { quick: 'all token strings of length 1-2 (and 3 over a reduced alphabet), all single-token edits of the seeds, all products of position x fragment', thorough: 'as quick; length 3 over the full alphabet and 4 over 32 tokens, deletions of every interval' },
  *gen(tier) { const seen = new Set(); for (const c of gen(tier)) { const k = c.kind + c.src; if (seen.has(k)) continue; if (tier !== 'thorough' || c.src.length < 60) seen.add(k); if (skip(c.src, c.kind)) continue; yield c; } },
};
