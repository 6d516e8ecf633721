----------------------------- MODULE JsExamples -----------------------------
(* Texts that are ECMAScript 2018 modules, texts that are not, and texts that *)
(* the specification leaves open, by property.  Written from the standard,    *)
(* not from the machines: JsProgram must agree with them (MCExamples), and so *)
(* must the parser.                                                           *)
EXTENDS Sequences

Yes == [
  P01 |-> <<
    "a = b / c / d;",
    "a = b\n/ c / d;",
    "if (a) /b/.c();",
    "while (a) /b/g;",
    "x = a ? /b/ : /c/;",
    "(/a/);",
    "[/a/, /b/];",
    "f(/a/, /b/);",
    "a = {b: /c/};",
    "`${/a/}`;",
    "return_ / 2 / 3;",
    "a++ / 2;",
    "!/a/;",
    "a = b\n/c/g.d;",
    "typeof /a/;",
    "function f() { return /a/; }",
    "function f() { return\n/a/; }",
    "function f() {} /a/;",
    "class A {} /a/;",
    "{} /a/;",
    "a = {} / 1;",
    "a = function () {} / 1;",
    "a = class {} / 1;",
    "(a) / b / c;",
    "a[b] / c / d;",
    "`a` / b / c;",
    "this / a / b;",
    "null / a;",
    "a = b => {}\n/c/;",
    "do ; while (a) /b/;",
    "for (a of /b/) ;",
    "for (;; /a/) ;",
    "switch (a) { case /b/: /c/; default: /d/ }",
    "import 'a'; /b/;",
    "export default /a/;",
    "x /= y;",
    "a = b /= c;",
    "/=/;",
    "/[/]/;",
    "/\\//g;",
    "throw /a/;",
    "function* f() { yield /a/; }",
    "function* f() { yield\n/a/; }",
    "async function f() { await /a/; }",
    "case_ / 1;",
    "new a / b;",
    "new a() / b;",
    "a.return / b;",
    "({return: /a/});",
    "a = yield_ / b;",
    "let a = /b/, c = /d/;",
    "var f\n/a/g"
  >>,
  P02 |-> <<
    "`a`;",
    "`${a}`;",
    "`${a}b${c}`;",
    "`${`${a}`}`;",
    "`${{}}`;",
    "`${{a: {}}}`;",
    "`${function () { {} }}`;",
    "`${class { a() {} }}`;",
    "`${a => { `${b}` }}`;",
    "{ `${a}` }",
    "`}`;",
    "`${'}'}`;",
    "`${/}/}`;",
    "a`b${c}d`;",
    "`${a}${b}`;",
    "function f() { return `${a}` }",
    "`$${a}$`;",
    "`\\${a}`;",
    "`${a, b}`;",
    "`${[`${{}}`]}`;",
    "switch (a) { case `${b}`: }",
    "`${{[`${a}`]: b}}`;",
    "`${({a} = b)}`;"
  >>,
  P03 |-> <<
    "a\nb",
    "a\n;",
    "a = b\nc = d",
    "var a\nvar b",
    "{ a }",
    "{ a; b }",
    "a\n++b",
    "do ; while (a) b",
    "do ; while (a)\nb",
    "function f() { return }",
    "function f() { return a }",
    "while (a) { break }",
    "while (a) { continue }",
    "throw_\na",
    "debugger\na",
    "import 'a'\nimport 'b'",
    "export {}\na",
    "export default a\nb",
    "let a\nlet b",
    "a /*\n*/ b",
    "a // b\nc",
    "if (a) b\nelse c",
    "if (a) { b } else c",
    "for (;;) ;",
    "var a = 1\n, b",
    "a\n(b)",
    "a\n[b]",
    "a\n.b",
    "a\n`b`",
    "a\n? b : c",
    "const a = 1\nconst b = 2",
    "export var a\nexport var b",
    "class A { a() {} ; ; }",
    "for (a\n; b\n; c\n) ;",
    "() => {}\na"
  >>,
  P04 |-> <<
    "a\n++\nb",
    "a\n--\nb",
    "function f() { return\na }",
    "while (a) { break\na }",
    "while (a) { continue\na }",
    "throw a",
    "async\nfunction f() {}",
    "async\n(a)",
    "a = async\nb => c",
    "function* f() { yield\na }",
    "function* f() { yield a }",
    "(a) =>\nb",
    "async (a\n) => b",
    "async a =>\n{}",
    "a: while (b) break a",
    "({async\n: a})",
    "({get\na() {}})",
    "({set\na(b) {}})",
    "({static\n: a})",
    "class A { static\na() {} }",
    "class A { get\na() {} }",
    "throw a\nb"
  >>,
  P05 |-> <<
    "for ((a) of b) ;",
    "for ((a) in b) ;",
    "for (((a.b)) of c) ;",
    "for ((a) = b; ;) ;",
    "for ({a: 1}.b in c) ;",
    "for ([a].b of c) ;",
    "for (function () {}.a in b) ;",
    "for (new a(b).c[d] of e) ;",
    "for (a.b.c in d) ;",
    "for (a(b).c of d) ;",
    "for (new a().b in c) ;",
    "for (new a(b)(c)[d] of e) ;",
    "for (this.a in b) ;",
    "for (a[b][c] of d) ;",
    "for (async.a of b) ;",
    "for (async[a].b of c) ;",
    "for (async().a of b) ;",
    "for (`a`.b in c) ;",
    "for ((a).b of c) ;",
    "try { a } catch ({b}) { c } finally { d }",
    "const a = 1, b = 2, c = 3;",
    "for (const a = 1, b = 2, c = 3; ; ) ;",
    "let a, b, c = 1, d;",
    "class A extends B { c() { for (super.d in e) ; for (super[f] of g) ; for (super.a.b(c).d in e) ; } }",
    "",
    "; ;",
    "{}",
    "{ ; }",
    "var a;",
    "var a = 1, b, c = 2;",
    "let a;",
    "const a = 1, b = 2;",
    "if (a) ;",
    "if (a) ; else ;",
    "if (a) if (b) ; else ; else ;",
    "do ; while (a);",
    "while (a) ;",
    "for (;;) ;",
    "for (a; b; c) ;",
    "for (var a; ;) ;",
    "for (var a = 1, b; ;) ;",
    "for (let a; b; c) ;",
    "for (let a = 1, b; ;) ;",
    "for (const a = 1; ;) ;",
    "for (a in b) ;",
    "for (var a in b) ;",
    "for (let a in b) ;",
    "for (const a in b) ;",
    "for (a of b) ;",
    "for (var a of b) ;",
    "for (let a of b) ;",
    "for (const a of b) ;",
    "for (var [a] of b) ;",
    "for (let {a} in b) ;",
    "for ([a] of b) ;",
    "for ({a} in b) ;",
    "for (a.b of c) ;",
    "for (a[b] in c, d) ;",
    "while (a) { continue; break; }",
    "a: b: ;",
    "a: while (b) { continue a; break a; }",
    "switch (a) {}",
    "switch (a) { case b: }",
    "switch (a) { default: }",
    "switch (a) { case b: c; case d: default: e; case f: }",
    "throw a;",
    "try {} catch (a) {}",
    "try {} finally {}",
    "try {} catch (a) {} finally {}",
    "try {} catch ({a}) {}",
    "try {} catch ([a]) {}",
    "debugger;",
    "with (a) ;",
    "function f() { return; return a; }",
    "for (a of (b, c)) ;",
    "for (var a of b => c) ;",
    "let [a] = b, {c} = d;",
    "var {a} = b, [c] = d;",
    "for (var [a] = b; ;) ;",
    "for (let {a} = b, c; ;) ;",
    "a: { break a; }",
    "if (a) { } else if (b) { } else { }",
    "for (of of of) ;",
    "for (var of of of) ;",
    "for (of in of) ;",
    "for (of; of; of) ;"
  >>,
  P06 |-> <<
    "(a) = b;",
    "((a)) = b;",
    "(a.b) = c;",
    "(a)++;",
    "++(a);",
    "--((a.b));",
    "(a) += b;",
    "((a.b)) **= c;",
    "(this.a) = b;",
    "a = (b) = c;",
    "-(a)++;",
    "a + (b.c)--;",
    "(a)\n++b;",
    "((((((a)))))) = b;",
    "(a) = (b) => c;",
    "++this.a;",
    "++a(b).c;",
    "--(a).b;",
    "++new a().b;",
    "--new a(b)(c).d;",
    "++[a].b;",
    "a.b[c].d++;",
    "a[b]++;",
    "(a).b++;",
    "a`b`.c++;",
    "-a.b++;",
    "!a[b](c).d--;",
    "-a[b]--;",
    "-a++;",
    "-a`b`.c++;",
    "-a`b`[c]++;",
    "-a(b)(c).d.e++;",
    "-new a.b().c++;",
    "-new a(b)`c`[d]--;",
    "class A extends B { c() { ++super.d; --super[e].f; ++super.g(h)[i]; super.h++; -super.j--; } }",
    "-a in b;",
    "a * -b in c;",
    "a + -b * c;",
    "a - !b / c % +d;",
    "false;",
    "a = false || b;",
    "++a`b`(c)`d`.e;",
    "new new a;",
    "new new a.b`c`;",
    "new new new a()();",
    "(a, ...b) => c;",
    "(a, ...[b]) => c;",
    "(a, {b}, ...{c}) => d;",
    "async(a)(b)(c);",
    "async(a)(b).c = d;",
    "async(a).b[c](d)`e`;",
    "async(a)`b`(c)[d]++;",
    "a;",
    "1;",
    "'a';",
    "/a/;",
    "`a`;",
    "this;",
    "null;",
    "true;",
    "(a);",
    "(a, b);",
    "[];",
    "[,];",
    "[,,];",
    "[a];",
    "[a,];",
    "[a,,b];",
    "[...a];",
    "[...a, b];",
    "({});",
    "({a});",
    "({a, b});",
    "({a,});",
    "({a: b});",
    "({'a': b, 1: c, [d]: e});",
    "({...a});",
    "({...a, b});",
    "(function () {});",
    "(class {});",
    "a.b;",
    "a.b.c[d].e;",
    "a[b];",
    "a[b, c];",
    "a();",
    "a(b);",
    "a(b,);",
    "a(...b);",
    "a(...b, c);",
    "a(b, ...c, d);",
    "a()()();",
    "a`b`;",
    "a`b``c`;",
    "new a;",
    "new a();",
    "new a.b();",
    "new a.b.c;",
    "new (a())();",
    "new new a();",
    "new new a()();",
    "new a()`b`;",
    "new a`b`();",
    "function f() { new.target; }",
    "super_();",
    "class A extends B { constructor() { super(); super.a; super[b]; super.a(); } }",
    "class A extends B { a() { new super.b; new super.b(); } }",
    "delete a.b;",
    "void a;",
    "typeof a;",
    "+a;",
    "-a;",
    "~a;",
    "!a;",
    "!!a;",
    "- -a;",
    "+ +a;",
    "- +a;",
    "a++;",
    "a--;",
    "++a;",
    "--a;",
    "a.b++;",
    "++a[b];",
    "a ** b;",
    "a ** b ** c;",
    "(-a) ** b;",
    "a ** -b;",
    "++a ** b;",
    "a++ ** b;",
    "a * b ** c;",
    "a + b - c * d / e % f;",
    "a << b >> c >>> d;",
    "a < b;",
    "a > b;",
    "a <= b;",
    "a >= b;",
    "a instanceof b;",
    "a in b;",
    "a == b;",
    "a != b;",
    "a === b;",
    "a !== b;",
    "a & b ^ c | d;",
    "a && b || c;",
    "a ? b : c;",
    "a ? b : c ? d : e;",
    "a ? b ? c : d : e;",
    "a = b;",
    "a = b = c;",
    "a += b;",
    "a -= b;",
    "a *= b;",
    "a /= b;",
    "a %= b;",
    "a <<= b;",
    "a >>= b;",
    "a >>>= b;",
    "a &= b;",
    "a ^= b;",
    "a |= b;",
    "a **= b;",
    "a.b = c;",
    "a[b] += c;",
    "[a] = b;",
    "({a} = b);",
    "a => b;",
    "a => {};",
    "() => a;",
    "(a) => b;",
    "(a, b) => c;",
    "(a, b,) => c;",
    "(...a) => b;",
    "(a, ...b) => c;",
    "([a]) => b;",
    "({a}) => b;",
    "(a = b) => c;",
    "({a = b}) => c;",
    "([a = b]) => c;",
    "async a => b;",
    "async () => a;",
    "async (a, b) => c;",
    "async (...a) => b;",
    "async();",
    "async(a, b);",
    "async;",
    "async.a;",
    "a => b => c;",
    "a = b => c;",
    "a ? b => c : d => e;",
    "a => ({});",
    "(a => b)();",
    "a, b, c;",
    "a = (b, c);",
    "(a = b).c;",
    "(a ? b : c) ? d : e;",
    "a[b => c];",
    "f(a => b, c => d);",
    "typeof void delete a;",
    "new a(b)(c);",
    "new (a);",
    "new class {};",
    "new function () {};",
    "new this;",
    "new [a][0];",
    "x = a ? (b, c) : d;",
    "a\n.b\n(c);",
    "(a).b = c;",
    "[a.b, c[d]] = e;",
    "({a: b.c} = d);",
    "({a: [b]} = c);"
  >>,
  P07 |-> <<
    "({set a(b) { return; }});",
    "class A { set b(c) { return c; } }",
    "class A { static set b([c]) { return d; } }",
    "function f() {}",
    "function f(a) {}",
    "function f(a, b,) {}",
    "function f(a = 1, {b}, [c], ...d) {}",
    "function* f() {}",
    "async function f() {}",
    "(function () {});",
    "(function f() {});",
    "(function* () {});",
    "(async function () {});",
    "(async function f() {});",
    "class A {}",
    "class A extends B {}",
    "class A extends (a, b) {}",
    "class A extends f() {}",
    "class A extends class {} {}",
    "(class {});",
    "(class A {});",
    "(class extends B {});",
    "class A { ; }",
    "class A { a() {} b() {} }",
    "class A { a() {}; b() {} }",
    "class A { static a() {} }",
    "class A { get a() {} set a(b) {} }",
    "class A { static get a() {} static set a(b) {} }",
    "class A { *a() {} static *b() {} }",
    "class A { async a() {} static async b() {} }",
    "class A { 'a'() {} 1() {} [b]() {} if() {} }",
    "class A { get() {} set() {} static() {} async() {} of() {} }",
    "class A { static static() {} static get() {} static set() {} static async() {} }",
    "class A { get get() {} set set(a) {} }",
    "class A { get static() {} static get static() {} }",
    "class A { get 'a'() {} set 1(b) {} get [c]() {} }",
    "class A { async get() {} *set() {} async static() {} }",
    "class A { constructor() {} }",
    "class A { set a({b}) {} set c([d]) {} set e(f = 1) {} }",
    "({a() {}});",
    "({get a() {}, set a(b) {}});",
    "({*a() {}, async b() {}});",
    "({get() {}, set() {}, async() {}, static() {}});",
    "({get: a, set: b, async: c, static: d});",
    "({get, set, async, of});",
    "({get 'a'() {}, set [b](c) {}, get 1() {}});",
    "({'a'() {}, 1() {}, [b]() {}});",
    "({async 'a'() {}, *[b]() {}, async [c]() {}});",
    "({async: function () {}});",
    "({get if() {}, set in(a) {}});",
    "(function yield_() {});",
    "export default function () {}",
    "export default class {}",
    "export default function* () {}",
    "export default async function () {}",
    "export default async function f() {}"
  >>,
  P08 |-> <<
    "[(a)] = b;",
    "({a: (b)} = c);",
    "[(a.b) = c, ...(d)] = e;",
    "({a: ((b)) = c} = d);",
    "({...(a)} = b);",
    "[[a].b] = c;",
    "[{a: 1}.b] = c;",
    "({a: [b].c} = d);",
    "({a: {b: 1}[c]} = d);",
    "[new a().b] = c;",
    "[`a`.b, ...'c'.d] = e;",
    "[function () {}.a = b] = c;",
    "[new a(b)(c).d] = e;",
    "({a: 1..b} = c);",
    "[a(b)(c).d] = e;",
    "[a`b`(c)[d]] = e;",
    "({a: b(c)(d).e} = f);",
    "let [] = a;",
    "let {} = a;",
    "let [a, b] = c;",
    "let [, a] = b;",
    "let [a, , b] = c;",
    "let [a,] = b;",
    "let [...a] = b;",
    "let [a, ...b] = c;",
    "let [a = 1] = b;",
    "let [[a]] = b;",
    "let [{a}] = b;",
    "let [[a] = b, {c} = d] = e;",
    "let [...[a, b]] = c;",
    "let [...{a}] = b;",
    "let {a} = b;",
    "let {a, b} = c;",
    "let {a,} = b;",
    "let {a = 1} = b;",
    "let {a: b} = c;",
    "let {a: b = 1} = c;",
    "let {a: {b}} = c;",
    "let {a: [b] = []} = c;",
    "let {'a': b, 1: c, [d]: e} = f;",
    "let {if: a} = b;",
    "let {...a} = b;",
    "let {a, ...b} = c;",
    "const {a} = b, [c] = d;",
    "var {a} = b;",
    "function f({a}, [b]) {}",
    "function f({a} = {}, [b] = []) {}",
    "try {} catch ({a, b: [c]}) {}",
    "for (const {a, b} of c) ;",
    "for (let [a, b] in c) ;",
    "[a, b] = c;",
    "[a.b, c[d]] = e;",
    "[...a.b] = c;",
    "[...[a]] = b;",
    "[a = 1] = b;",
    "({a, b} = c);",
    "({a = 1} = b);",
    "({a: b.c} = d);",
    "({a: b = 1} = c);",
    "({...a} = b);",
    "({...a.b} = c);",
    "[{a}] = b;",
    "({a: [b]} = c);",
    "[, , a] = b;",
    "[] = a;",
    "({} = a);",
    "({a}) => b;",
    "([a]) => b;",
    "({a: {b: [c]}}) => d;",
    "({a = 1}, [b = 2] = []) => c;",
    "([...a]) => b;",
    "({...a}) => b;",
    "async ({a}) => b;",
    "async ([a], {b}) => c;",
    "({[a]: b}) => c;",
    "for ([a, b] of c) ;",
    "for ({a, b} of c) ;",
    "for ([a.b] of c) ;",
    "let [a = b => c] = d;",
    "let {a = {}} = b;"
  >>,
  P09 |-> <<
    "import 'a';",
    "import a from 'b';",
    "import * as a from 'b';",
    "import {} from 'a';",
    "import {a} from 'b';",
    "import {a, b} from 'c';",
    "import {a,} from 'b';",
    "import {a as b} from 'c';",
    "import {if as a} from 'b';",
    "import {default as a} from 'b';",
    "import {as} from 'a';",
    "import {as as as} from 'a';",
    "import {as as a, a as as} from 'b';",
    "import a, {b} from 'c';",
    "import a, * as b from 'c';",
    "import a, {} from 'b';",
    "import from from 'a';",
    "import as from 'a';",
    "import as, * as from from 'a';",
    "export {};",
    "export {a};",
    "export {a, b};",
    "export {a,};",
    "export {a as b};",
    "export {a as if};",
    "export {a as default};",
    "export {as as as};",
    "export * from 'a';",
    "export {} from 'a';",
    "export {a} from 'b';",
    "export {a as b, c} from 'd';",
    "export {if} from 'a';",
    "export {if as else} from 'a';",
    "export {default} from 'a';",
    "export {default as a} from 'b';",
    "export var a;",
    "export let a = 1;",
    "export const a = 1;",
    "export var {a} = b;",
    "export function f() {}",
    "export function* f() {}",
    "export async function f() {}",
    "export class A {}",
    "export default a;",
    "export default a = b;",
    "export default a => b;",
    "export default async a => b;",
    "export default function () {}",
    "export default function f() {}",
    "export default function* () {}",
    "export default async function () {}",
    "export default class {}",
    "export default class A {}",
    "export default class extends A {}",
    "export default {};",
    "export default [];",
    "export default (a, b);",
    "export default async;",
    "export default async();",
    "import 'a'\nimport 'b'",
    "export default a\nexport {b}",
    "import {\na\n,\nb\n}\nfrom\n'c'"
  >>,
  P10 |-> <<
    "for (a = new b[c in d]; ;) ;",
    "class A extends B { c() { for (d = super[e in f]; ;) ; } }",
    "for ({a = b in c} of d) ;",
    "for ({a = b in c} = d; ;) ;",
    "for (a = (b in c); ;) ;",
    "for (a = async(b in c); ;) ;",
    "a in b;",
    "a in b in c;",
    "for (a in b) ;",
    "for (a in b in c) ;",
    "for (a in b, c) ;",
    "for ((a in b); ;) ;",
    "for (var a = (b in c); ;) ;",
    "for (a = [b in c]; ;) ;",
    "for (a = {b: c in d}; ;) ;",
    "for (a = f(b in c); ;) ;",
    "for (a = b[c in d]; ;) ;",
    "for (a = `${b in c}`; ;) ;",
    "for (a = function () { b in c; }; ;) ;",
    "for (a = () => { b in c; }; ;) ;",
    "for (a = (b = c in d) => e; ;) ;",
    "for (a = class { [b in c]() {} }; ;) ;",
    "for (a = class extends (b in c) {}; ;) ;",
    "for (; a in b; c in d) ;",
    "for (let a = 1; b in c; d in e) ;",
    "for (a of b in c) ;",
    "for (var a = b ? c in d : e; ;) ;",
    "for (a ? b in c : d; ;) ;",
    "let a = b in c;",
    "const a = b in c, d = e in f;",
    "for (let {a = b in c} = d; ;) ;",
    "for (let [a = b in c] = d; ;) ;",
    "for (var {[a in b]: c} of d) ;",
    "if (a in b) ;",
    "while (a in b) ;",
    "switch (a in b) { case c in d: }",
    "a ? b in c : d in e;",
    "for (new (a in b)(c in d); ;) ;",
    "for (a = function (b = c in d) {}; ;) ;",
    "for (a = async b => { c in d }; ;) ;",
    "for (a.in in b) ;",
    "for (a in b) { c in d; }",
    "for (let a = () => { for (b in c) d in e; }; ;) ;"
  >>,
  P11 |-> <<
    "function* f() { yield; }",
    "function* f() { yield a; }",
    "function* f() { yield* a; }",
    "function* f() { a = yield; }",
    "function* f() { a = yield b; }",
    "function* f() { (yield); }",
    "function* f() { [yield, yield a]; }",
    "function* f() { f(yield, yield); }",
    "function* f() { yield yield a; }",
    "function* f() { yield a ? b : c; }",
    "function* f() { a ? yield : yield b; }",
    "function* f() { `${yield}`; }",
    "function* f() { yield, yield; }",
    "function* f() { return yield a; }",
    "function* f() { if (yield) ; }",
    "function* f() { for (yield; yield; yield) ; }",
    "function* f() { ({a: yield, [yield]: b}); }",
    "function* f() { ({* a() { yield; }}); }",
    "function* f() { class A extends (yield) {} }",
    "function* f() { (a = yield) ; }",
    "({*a() { yield; }});",
    "class A { *a() { yield; } static *b() { yield; } }",
    "(function* () { yield; });",
    "async function f() { await a; }",
    "async function f() { await await a; }",
    "async function f() { await a + await b; }",
    "async function f() { (await a)(); }",
    "async function f() { -await a; }",
    "async function f() { return await a; }",
    "async function f() { for (a of await b) ; }",
    "async function f() { if (await a) ; }",
    "async () => await a;",
    "async a => await a;",
    "async (a) => { await a; };",
    "({async a() { await b; }});",
    "class A { async a() { await b; } static async b() { await c; } }",
    "(async function () { await a; });",
    "async function f() { async () => await a; }",
    "async function f() { function g() {} await a; }",
    "function* f() { function g() {} yield; }",
    "function* f() { a => b; yield; }",
    "async function f() { a => b; await c; }",
    "function* f() { class A { a() {} } yield; }",
    "function f() { return; }",
    "function f() { if (a) return; }",
    "function f() { return a; }",
    "() => { return; };",
    "() => { return a; };",
    "({a() { return; }, get b() { return c; }});",
    "class A { a() { return; } }",
    "function f() { function g() { return; } return; }",
    "function f() { a => b; return; }",
    "a.yield;",
    "a.await;",
    "({yield: a, await: b});",
    "({yield() {}, await() {}});",
    "class A { yield() {} await() {} }",
    "export default function* () { yield; }",
    "export default async function () { await a; }"
  >>,
  P12 |-> <<
    "a.if;",
    "a.class.function;",
    "a.this;",
    "a.null.true.false;",
    "a.enum;",
    "({if: a});",
    "({if() {}});",
    "({get if() {}, set else(a) {}});",
    "({async if() {}, *for() {}});",
    "class A { if() {} static for() {} get while() {} }",
    "import {if as a} from 'b';",
    "export {a as if};",
    "export {if as for} from 'a';",
    "let {if: a} = b;",
    "({if: a} = b);",
    "({if: a}) => b;",
    "as = a;",
    "async = a;",
    "from = a;",
    "get = set;",
    "of = target;",
    "var as, async, from, get, of, set, target;",
    "let as = 1, of = 2;",
    "function as(async, from, get) {}",
    "class of {}",
    "as: of: ;",
    "({as, async, from, get, of, set, target});",
    "a.as.async.from;",
    "(as) => of;",
    "of => as;",
    "async => a;",
    "async of => a;",
    "try {} catch (of) {}",
    "import of from 'a';",
    "import {of} from 'a';",
    "import * as as from 'a';",
    "export {of as as};",
    "function get() {}",
    "function set() {}",
    "function of() {}",
    "class get extends set {}",
    "new target;",
    "new of();",
    "`${as}`;",
    "for (as of of) ;",
    "for (var as of of) ;",
    "for (async in a) ;"
  >>,
  P13 |-> <<
    "a",
    "a ",
    "  a  ",
    "\ta",
    "a\t;",
    "a/**/;",
    "/**/a",
    "/***/a",
    "a//",
    "//",
    "//\na",
    "/*\n*/a",
    "a /* */ = /* */ b /* */ ;",
    "a\n=\nb\n;",
    "a // b\n= c",
    "a /* \n */ + b",
    "a+/**/+b",
    "a/**//b",
    "a/**//b/c",
    "(/**/)=>a",
    "a(/**/)",
    "[/**/]",
    "`${/**/a/**/}`",
    "a/*/*/;",
    "a/**/\nb",
    "import/**/'a'",
    "export/**/{}",
    "x=/**//a/",
    "a\r\n;",
    "a\r;",
    "function/**/f(/**/)/**/{/**/}",
    "class/**/A/**/{/**/}",
    "async/**/a=>b",
    "async/*\n*/a=>b",
    "new/**/a",
    "typeof/**/a",
    "a/**/++",
    "a/**/=>b",
    "throw/**/a"
  >>,
  P15 |-> <<
    "a;",
    "{ [(a)]; }",
    "`${[(`${{}}`)]}`;",
    "f(g(h(i[j[k]])));",
    "({a: {b: {c: [d]}}});",
    "'(';",
    "/[(]/;",
    "`(`;",
    "// (",
    "/* ( */"
  >>,
  P16 |-> <<
    "a; a;",
    "{} {}",
    "if (a) ; if (b) ;",
    "function* f() {} function g() {}",
    "async function f() {} function g() {} a;",
    "function* f() { yield; } a;",
    "for (a in b) ; a in b;",
    "for (var a = 1; ;) ; a in b;",
    "switch (a) { default: } switch (b) { default: }",
    "switch (a) { default: switch (b) { default: } }",
    "switch (a) { case b: switch (c) { default: } default: }",
    "a => b; c => d;",
    "class A { *a() { yield; } b() {} }",
    "class A { async a() { await b; } c() {} }",
    "[a => b, c => d, e];",
    "f(a => b, async c => await d, e in f);",
    "`${a => b}${c in d}`;",
    "({a() {}, *b() { yield; }, async c() { await d; }, e: f});",
    "function f() { return; } function g() { return; }",
    "let a; let b; const c = 1;",
    "try {} finally {} try {} finally {}",
    "for (;;) for (;;) a in b;",
    "do ; while (a); do ; while (b);",
    "a: ; a: ;"
  >>,
  P17 |-> <<
    "'\\\\1';",
    "'\\\\\\\\9';",
    "'\\0';",
    "'\\x41\\u0041\\u{41}1';",
    "'\\u0041{';",
    "'\\\n1';",
    "'\\\r\n9';",
    "",
    "\n",
    "// a",
    "/* a */",
    "a//b",
    "a/**/;",
    "a\r\nb",
    "a=1",
    "a=.1",
    "a=1.",
    "a=1..b",
    "a=0x1f",
    "a=0b1",
    "a=0o7",
    "a=1e1",
    "a=1e+1",
    "a=1.e-1",
    "'\\\n'",
    "'\\u{41}'",
    "\"'\"",
    "`\\``",
    "`$`",
    "`$$`",
    "`{`",
    "`}`",
    "a.b",
    "[...a]",
    "a-->b",
    "a>>>=b",
    "a**=b",
    "a=>b",
    "a<!b",
    "a-- >b",
    "a+ +b",
    "a+++b",
    "a---b",
    "a?1:b",
    "$;_;$_1a",
    "/a/g",
    "a=/[/]/",
    "a=/\\//",
    "x=y/z/w",
    "!function(){}()",
    "({}).a",
    "1..a",
    "1.5.a",
    "a?b:c",
    "a\n/b/c",
    "a=b\n++c"
  >>
]

No == [
  P01 |-> <<
    "a = b / ;",
    "a / / b;",
    "a = /b;",
    "/a\nb/;",
    "a = b /c/ d e;",
    "(a) /b/;",
    "a++ /b/;",
    "1 /2/;",
    "`a` /b/;",
    "/a/ /b/;",
    "var f /a/;",
    "function f() {} / 1;"
  >>,
  P02 |-> <<
    "`${}`;",
    "`${a`;",
    "`${a}",
    "`${a;}`;",
    "`${a}}`;}",
    "`${{}`;",
    "`${a b}`;",
    "`${",
    "}`;",
    "{ `${a} }"
  >>,
  P03 |-> <<
    "a b",
    "a = b c",
    "var a var b",
    "do ; while (a) ; else",
    "for (a; b\n) ;",
    "for (a\nb\nc) ;",
    "if (a)",
    "if (a) else b",
    "while (a)",
    "a /**/ b",
    "let a let b",
    "return_ a",
    "import 'a' import 'b'",
    "export {} a",
    "debugger a",
    "if (a) b else c",
    "{ a b }",
    "a\n) ",
    "for (;) ;",
    "throw a b",
    "() => {} a",
    "a++ b",
    "a ++\nb c",
    "import a from 'b' c",
    "import 'a' b",
    "import * as a from 'b' c",
    "import {a} from 'b' c",
    "export {a} b",
    "export {a} from 'b' c",
    "export * from 'a' b",
    "export default a b",
    "export var a b",
    "export let a b",
    "export const a = 1 b",
    "let a = 1 b",
    "const a = 1 b",
    "var a = 1 b",
    "while (a) { continue b c }",
    "while (a) { break b c }",
    "function f() { return a b }",
    "function f() { return a var b }",
    "continue_ a",
    "async a => b c",
    "class A {} class B {} a b",
    "export default () => {} a",
    "do a while (b)",
    "do ; while (a) b c"
  >>,
  P04 |-> <<
    "a()\n++;",
    "async\n(a) => b;",
    "a: while (b) { if (c) continue\na; else d; }",
    "a: while (b) { if (c) break\na; else d; }",
    "function f() { if (a) return\nb; else c; }",
    "function* f() { yield\n* a; }",
    "function* f() { if (a) yield\nb; else c; }",
    "if (a) throw\nb; else c;",
    "if (a) b\n++; else c;",
    "-a\n++;",
    "-a()\n++;",
    "throw\na",
    "a\n=> b",
    "(a)\n=> b",
    "async (a)\n=> b",
    "async a\n=> b",
    "({async\na() {}})",
    "class A { async\na() {} }",
    "class A { static async\na() {} }",
    "(async\nfunction () {})",
    "(async\na => b)",
    "export default async\nfunction f() {} a\n=> b",
    "a ++ b",
    "f(async\na => a)",
    "[a\n=> b]"
  >>,
  P05 |-> <<
    "if a ;",
    "if (a ;",
    "if () ;",
    "if (a) ; else",
    "do ; (a)",
    "do while (a)",
    "do ; while ()",
    "while () ;",
    "while a ;",
    "for () ;",
    "for (;) ;",
    "for (a) ;",
    "for (a; b) ;",
    "for (a; b; c; d) ;",
    "for (var a, b of c) ;",
    "for (var a, b in c) ;",
    "for (let a, b of c) ;",
    "for (const a, b in c) ;",
    "for (var a, b, c of d) ;",
    "for (const a; ;) ;",
    "for (const a = 1, b; ;) ;",
    "for (let [a]; ;) ;",
    "for (var {a}; ;) ;",
    "for (a of b, c) ;",
    "for (a + b of c) ;",
    "for (a, b of c) ;",
    "for (a = b of c) ;",
    "for (var a = b of c) ;",
    "for (let a = b of c) ;",
    "for (let a = b in c) ;",
    "for (a of b; ;) ;",
    "for (a in b; ;) ;",
    "for (in a) ;",
    "for (of a) ;",
    "for (var of a) ;",
    "const a;",
    "const a = 1, b;",
    "let [a];",
    "var {a};",
    "var [a], b;",
    "let a, ;",
    "var ;",
    "let a = ;",
    "switch (a) { default: default: }",
    "switch (a) { default: case b: default: }",
    "switch (a) { b; }",
    "switch (a) { case: }",
    "switch (a) case b:",
    "switch () {}",
    "switch (a)",
    "try {}",
    "try ;",
    "try {} catch {} finally",
    "try {} catch (a) ;",
    "try {} catch () {}",
    "try {} finally",
    "try {} catch (a, b) {}",
    "try {} finally {} catch (a) {}",
    "catch (a) {}",
    "finally {}",
    "else ;",
    "case a: ;",
    "default: ;",
    "throw ;",
    "{ ",
    "}",
    "with a ;",
    "with () ;",
    "a:",
    "break a b;",
    "while (a) { break 1; }",
    "while (a) continue (a);",
    "return_;:",
    "var a b;",
    "debugger a;",
    "for (var a = 1; ; ;) ;",
    "for (;;",
    "for (;;)",
    "if (a) ; else ; else ;",
    "do ; while (a) while"
  >>,
  P06 |-> <<
    "(a) = ;",
    "(a) ++ b;",
    "(a b) = c;",
    "(a.) = b;",
    ".a;",
    "a = .b;",
    "a +;",
    "a + + ;",
    "* a;",
    "a * ;",
    "a b;",
    "(a;",
    "a);",
    "();",
    "(a,);",
    "(,a);",
    "(...a);",
    "(...a)",
    "(a, ...b);",
    "[a b];",
    "[a;",
    "[...];",
    "[..., a];",
    "({a b});",
    "({a:});",
    "({a: b c});",
    "({a;});",
    "({,});",
    "({a,,b});",
    "({1});",
    "({'a'});",
    "({[a]});",
    "({if});",
    "({...});",
    "a.;",
    "a.1;",
    "a.'b';",
    "a..b;",
    "a[];",
    "a[b;",
    "a(b c);",
    "a(,);",
    "a(b,,c);",
    "a(,b);",
    "a(;",
    "a(...);",
    "new;",
    "new ;",
    "new.a;",
    "new a.;",
    "super;",
    "super = a;",
    "new super();",
    "new super;",
    "a ? b;",
    "a ? : b;",
    "a ? b : ;",
    "a ? b, c : d;",
    "a =;",
    "= a;",
    "a + b = c;",
    "a++ = b;",
    "!a = b;",
    "-a = b;",
    "a && b = c;",
    "a ? b : c = ;",
    "a ** ;",
    "-a ** b;",
    "!a ** b;",
    "typeof a ** b;",
    "void a ** b;",
    "delete a ** b;",
    "+a ** b;",
    "~a ** b;",
    "a ++ ++;",
    "a++++;",
    "+;",
    "!;",
    "typeof;",
    "delete;",
    "a in;",
    "a instanceof;",
    "in a;",
    "instanceof a;",
    "a ==;",
    "a == = b;",
    "a => ;",
    "=> a;",
    "() => ;",
    "(a, b) =>;",
    "() ;",
    "() + a;",
    "(a) => b + => c;",
    "a => {} + b;",
    "a => {}();",
    "a => {} ? b : c;",
    "a => {}.b;",
    "a => {}, ;",
    "(...a, b) => c;",
    "(...a,) => c;",
    "[a] => b;",
    "{a} => b;",
    "async a;",
    "async a b => c;",
    "async (a) b;",
    "async => ;",
    "async () =>;",
    "a, ;",
    ", a;",
    "a,, b;",
    "`${a}`b;",
    "f(a;",
    "x = {a: b;",
    "x = [a;",
    "a ? (b : c);",
    "new a(;",
    "a = > b;",
    "a & & b;",
    "a | ;",
    "a..b.c;",
    "...a;",
    "a = ...b;",
    "a ? ...b : c;",
    "a = b +;",
    "a[b] c;"
  >>,
  P07 |-> <<
    "function () {}",
    "function f {}",
    "function f(",
    "function f() ;",
    "function f( {}",
    "function f(a b) {}",
    "function f(,) {}",
    "function f(a,,b) {}",
    "function f(...a, b) {}",
    "function f(...a,) {}",
    "function f(...) {}",
    "function f(...a = b) {}",
    "function f(a.b) {}",
    "function f(1) {}",
    "function f(a) b",
    "function* () {}",
    "function *f {}",
    "async function () {}",
    "async function f {}",
    "(function);",
    "(function f);",
    "(function 1() {});",
    "class {}",
    "class A",
    "class A {",
    "class A extends {}",
    "class A extends B",
    "class A { a }",
    "class A { a( }",
    "class A { a() }",
    "class A { a(), b() {} }",
    "class A { a: b }",
    "class A { get a }",
    "class A { get a(b) {} }",
    "class A { set a() {} }",
    "class A { set a(b, c) {} }",
    "class A { set a(...b) {} }",
    "class A { get *a() {} }",
    "class A { * }",
    "class A { *() {} }",
    "class A { static }",
    "class A { async *a }",
    "class A { get async a() {} }",
    "class A { [] () {} }",
    "class A { [a, b] }",
    "class A { static static a() {} }",
    "class A extends B, C {}",
    "class A extends a => b {}",
    "class A extends a + b {}",
    "class A extends -a {}",
    "class A extends a = b {}",
    "({get a(b) {}});",
    "({set a() {}});",
    "({set a(b, c) {}});",
    "({set a(...b) {}});",
    "({get a});",
    "({set a});",
    "({get a: b});",
    "({a() });",
    "({a( {}});",
    "({*a: b});",
    "({*a});",
    "({async a});",
    "({async a: b});",
    "({get *a() {}});",
    "({*get a() {}});",
    "({static a() {}});",
    "({a() {} b() {}});",
    "({[] () {}});",
    "({a(...b, c) {}});",
    "class A { a(b c) {} }",
    "class A { constructor }",
    "class 1 {}",
    "class A.b {}",
    "function f.a() {}"
  >>,
  P08 |-> <<
    "[[a] b] = c;",
    "[new a().b c] = d;",
    "[{a: 1}.b c] = d;",
    "[a b] = c;",
    "[a = 1 b] = c;",
    "[{a} {b}] = c;",
    "[a, ...b c] = d;",
    "let [...a, b] = c;",
    "let [...a,] = b;",
    "let [... = a] = b;",
    "let [...a = b] = c;",
    "let {...a, b} = c;",
    "let {...a,} = b;",
    "let {...{a}} = b;",
    "let {...[a]} = b;",
    "let {'a'} = b;",
    "let {1} = a;",
    "let {[a]} = b;",
    "let {if} = a;",
    "let {null} = a;",
    "let {this} = a;",
    "let {a b} = c;",
    "let {a: } = b;",
    "let {a: 1} = b;",
    "let {a: b.c} = d;",
    "let {a.b} = c;",
    "let [a b] = c;",
    "let [a.b] = c;",
    "let [1] = a;",
    "let [a = ] = b;",
    "let [a = 1 b] = c;",
    "let [a = b = ] = c;",
    "let [a;",
    "let {a;",
    "let {: a} = b;",
    "let {,} = a;",
    "let {a,,b} = c;",
    "let {a = } = b;",
    "let {a += 1} = b;",
    "let {get a() {}} = b;",
    "let {a() {}} = b;",
    "let {(a)} = b;",
    "let [(a)] = b;",
    "let (a) = b;",
    "function f({'a'}) {}",
    "function f([...a, b]) {}",
    "function f({a.b}) {}",
    "function f({...a, b}) {}",
    "try {} catch ({a: }) {}",
    "try {} catch ({1}) {}",
    "try {} catch (a = 1) {}",
    "for (let {a of b) ;",
    "for (let {'a'} of b) ;",
    "for (let [a b] of c) ;",
    "({'a'} = b);",
    "({1}) => a;",
    "({'a'}) => b;",
    "async ({'a'}) => b;"
  >>,
  P09 |-> <<
    "import;",
    "import a;",
    "import {a};",
    "import * as a;",
    "import * from 'a';",
    "import * a from 'b';",
    "import a from b;",
    "import a 'b';",
    "import a, from 'b';",
    "import a, b from 'c';",
    "import a, {b};",
    "import {a}, b from 'c';",
    "import {a}, {b} from 'c';",
    "import * as a, b from 'c';",
    "import {a b} from 'c';",
    "import {if} from 'a';",
    "import {default} from 'a';",
    "import {a as if} from 'b';",
    "import {a as} from 'b';",
    "import {as a} from 'b';",
    "import {,} from 'a';",
    "import {a,,b} from 'c';",
    "import {*} from 'a';",
    "import {a as b as c} from 'd';",
    "import {'a' as b} from 'c';",
    "import if from 'a';",
    "import * as if from 'a';",
    "import {a} 'b';",
    "import {a} from;",
    "import 'a' from 'b';",
    "import 1;",
    "import `a`;",
    "export;",
    "export a;",
    "export {a b};",
    "export {if};",
    "export {if as a};",
    "export {default};",
    "export {a as};",
    "export {a as b as c};",
    "export {,};",
    "export {a} from;",
    "export {a} from b;",
    "export {a} 'b';",
    "export *;",
    "export * 'a';",
    "export * from a;",
    "export * as;",
    "export * from;",
    "export a from 'b';",
    "export default;",
    "export default a, b;",
    "export default var a;",
    "export default let a = 1;",
    "export default const a = 1;",
    "export function () {}",
    "export class {}",
    "export async function () {}",
    "export 1;",
    "export a = 1;",
    "export (a);",
    "export if (a) ;",
    "export default from;;:",
    "{ import 'a'; }",
    "{ export {}; }",
    "function f() { import 'a'; }",
    "function f() { export default a; }",
    "if (a) import 'b';",
    "if (a) export {};",
    "for (;;) export {};",
    "a: import 'b';",
    "a => { import 'b'; };",
    "class A { a() { export {}; } }",
    "(export {});",
    "export export {};",
    "export import 'a';",
    "export default export {};",
    "export default import 'a';",
    "try { export {}; } finally {}",
    "switch (a) { case b: export {}; }",
    "export default function () {} ()",
    "export var a export var b"
  >>,
  P10 |-> <<
    "for (a in b; ;) ;",
    "for (var a = b in c; ;) ;",
    "for (let a = b in c; ;) ;",
    "for (const a = b in c; ;) ;",
    "for (a = b in c; ;) ;",
    "for (a + b in c; ;) ;",
    "for (var a = b, c = d in e; ;) ;",
    "for (a = b => c in d; ;) ;",
    "for (a ? b : c in d; ;) ;",
    "for (!a in b; ;) ;",
    "for (let a = 1, b = c in d; ;) ;",
    "for (a, b in c; ;) ;",
    "for (var {a} = b in c; ;) ;",
    "for (let [a] = b in c; ;) ;",
    "for (a = function () {} in b; ;) ;",
    "for (a = [] in b; ;) ;",
    "for (a = (b in c) in d; ;) ;",
    "for (a = b => { } in c; ;) ;",
    "for (a = b ? c in d : e in f; ;) ;",
    "for (typeof a in b; ;) ;",
    "for (let a = b, c in d) ;",
    "for (const a = b, c = d in e; ;) ;",
    "for (a = async b => c in d; ;) ;"
  >>,
  P11 |-> <<
    "async function f() { async function g(a = await b) {} }",
    "function* f() { async function g(a = yield b) {} }",
    "function* f() { function* g(a = yield) {} }",
    "function* f() { function g(a = yield b) {} }",
    "async function f() { function* g(a = await b) {} }",
    "function f() { ({set a(b = await c) {}}); }",
    "(function (a = await b) {});",
    "(function* (a = await b) {});",
    "({a(b = await c) {}});",
    "class A { a(b = await c) {} }",
    "(function (a = yield b) {});",
    "async function f() { (function (a = await b) {}); }",
    "yield;",
    "yield a;",
    "await a;",
    "await;",
    "a = yield;",
    "a = await b;",
    "function f() { yield; }",
    "function f() { yield a; }",
    "function f() { await a; }",
    "() => await a;",
    "() => { await a; };",
    "a => yield;",
    "a => { yield b; };",
    "function* f() { function g() { yield; } }",
    "function* f() { () => yield; }",
    "function* f() { () => { yield a; }; }",
    "function* f() { await a; }",
    "async function f() { yield; }",
    "async function f() { function g() { await a; } }",
    "async function f() { () => await a; }",
    "async function f() { () => { await a; }; }",
    "async function f() { ({a() { await b; }}); }",
    "function* f() { ({a() { yield; }}); }",
    "function* f() { class A { a() { yield; } } }",
    "function* f() { 1 + yield a; }",
    "function* f() { !yield; }",
    "function* f() { typeof yield; }",
    "function* f() { yield.a; }",
    "function* f() { yield* ; }",
    "async function f() { await ; }",
    "async function f() { await; }",
    "async function f() { await = a; }",
    "function* f() { yield = a; }",
    "function* f(a = yield) {}",
    "async function f(a = await b) {}",
    "var yield;",
    "var await;",
    "let await = a;",
    "function yield() {}",
    "function await() {}",
    "class yield {}",
    "class await {}",
    "await: ;",
    "yield: ;",
    "(yield) => a;",
    "(await) => a;",
    "yield => a;",
    "await => a;",
    "async await => a;",
    "function f(yield) {}",
    "function f(await) {}",
    "import yield from 'a';",
    "import {await} from 'a';",
    "return;",
    "return a;",
    "{ return; }",
    "if (a) return;",
    "() => return;",
    "for (;;) { return; }",
    "class A { [return a]() {} }",
    "a => b; return;",
    "function f() {} return;",
    "function f(a = return) {}",
    "({get a() { yield; }});",
    "({set a(b) { await b; }});",
    "class A { get a() { await b; } }",
    "class A { constructor() { yield; } }",
    "function* f() {} yield a;",
    "async function f() {} await a;"
  >>,
  P12 |-> <<
    "var if;",
    "let class = 1;",
    "const null = 1;",
    "var this;",
    "var true;",
    "var enum;",
    "var a, if;",
    "function if() {}",
    "function f(if) {}",
    "function f(a, class) {}",
    "function f(...if) {}",
    "class if {}",
    "(class if {});",
    "(function if() {});",
    "let {a: if} = b;",
    "let {if} = a;",
    "let [if] = a;",
    "let [...if] = a;",
    "let {...if} = a;",
    "try {} catch (if) {}",
    "try {} catch (null) {}",
    "for (var if of a) ;",
    "for (let this in a) ;",
    "for (const class = 1; ;) ;",
    "import if from 'a';",
    "import * as if from 'a';",
    "import {a as if} from 'b';",
    "import {if} from 'a';",
    "export {if};",
    "export {if as a};",
    "if: ;",
    "null: ;",
    "this: ;",
    "true: ;",
    "while (a) break if;",
    "while (a) continue null;",
    "(if) => a;",
    "if => a;",
    "async if => a;",
    "(a, if) => b;",
    "({if});",
    "({null});",
    "({a, this});",
    "({if} = a);",
    "({if}) => a;",
    "enum;",
    "enum = 1;",
    "a = if;",
    "class = 1;",
    "f(if);",
    "[class];",
    "export default if;",
    "typeof if;",
    "new if;",
    "a + if;",
    "if.a;",
    "if();",
    "case;",
    "default;",
    "with;",
    "in;",
    "instanceof;",
    "extends;",
    "else;",
    "catch;",
    "finally;",
    "import;",
    "let yield = 1;",
    "let {yield} = a;",
    "let {await} = a;",
    "(a, ...if) => b;",
    "class A extends if {}",
    "({a: if});"
  >>,
  P13 |-> <<
    "a/**/b",
    "a /* */ b",
    "/*",
    "a/*",
    "a/* *",
    "a/*/",
    "function/**/",
    "(/*)*/",
    "`${/**/}`",
    "a<!--b c",
    "--> a",
    "a/*\n*/=>b",
    "throw/*\n*/a",
    "f unction",
    "a= =b",
    "= >",
    "a + / b"
  >>,
  P15 |-> <<
    "(",
    "[",
    "{",
    "`",
    "`${",
    "`${a",
    "f(",
    "f(a",
    "a[",
    "a[b",
    "({",
    "({a",
    "({a:",
    "({a: b",
    "[a",
    "[a,",
    "(a",
    "(a,",
    "(a)}",
    "[a)",
    "(a]",
    "{a)",
    "f(a]",
    "f(a}",
    "a[b)",
    "a[b}",
    "({a)}",
    "{ (a }",
    "{ [a }",
    "`${(a}`",
    "`${[a}`",
    "`${a)}`",
    "function f(",
    "function f() {",
    "function f() }",
    "function f( }",
    "class A {",
    "class A { a(",
    "class A { a() {",
    "class A { a() { }",
    "if (a",
    "if (a) {",
    "for (;;",
    "for (;;) {",
    "while (a",
    "switch (a",
    "switch (a) {",
    "switch (a) { default:",
    "try {",
    "try {} catch (",
    "try {} catch (a",
    "try {} catch (a) {",
    "try {} finally {",
    "do {",
    "do {} while (",
    "do {} while (a",
    "import {",
    "import {a",
    "export {",
    "export {a",
    "let [",
    "let [a",
    "let {",
    "let {a",
    "(a) => {",
    "async (a",
    "async (a) => {",
    "a => {",
    "a)",
    "a]",
    "a}",
    "a;)",
    "a;]",
    "a;}",
    "{})",
    "{}}",
    "function f() {}}",
    "class A {}}",
    "() => {}}",
    "`a`}",
    "f())",
    "a[b]]",
    "import {a} from 'b'}",
    "export {}}",
    "((a)",
    "(a))",
    "[[a]",
    "[a]]",
    "{{}"
  >>,
  P16 |-> <<
    "function* f() {} yield a;",
    "async function f() {} await a;",
    "function f() {} return;",
    "a => { return; }; return;",
    "async a => await a; await b;",
    "class A { *a() { yield; } b() { yield; } }",
    "class A { async a() {} b() { await c; } }",
    "({*a() { yield; }, b() { yield; }});",
    "[async a => await a, await b];",
    "f(async () => await a, await b);",
    "`${async a => await a}${await b}`;",
    "function* f() { function g() {} } yield a;",
    "switch (a) { default: switch (b) { default: } default: }",
    "a; b c",
    "{ a; } }",
    "for (a in b) ; for (var c = d in e; ;) ;",
    "async function f() { for (;;) { } } await a;",
    "if (a) ; else ; else ;"
  >>,
  P17 |-> <<
    "'\\1';",
    "\"\\9\";",
    "a = '\\\\\\7';",
    "({'a\\8': b});",
    "import '\\4';",
    "'\\\n\\2';",
    "@",
    "#",
    "a#b",
    "'a",
    "\"a",
    "`a",
    "/a",
    "/* a",
    "'a\nb'",
    "'a\rb'",
    "0x",
    "0b2",
    "0o8",
    "0b",
    "0o",
    "1e",
    "1e+",
    "1.e",
    "0xg",
    "a = 0b12",
    "a = 0o78",
    "a = 0b",
    "/a\n/",
    "a..b",
    "a.",
    "1.a",
    "a=/[/",
    "a=/[a/;",
    "a=/\\",
    "=",
    "*/",
    "a */",
    "a =/= b",
    "a === = b",
    "a+*b",
    "a!b",
    "a~b",
    "a b",
    "a 1",
    "1 a",
    "'a' b",
    "/a/ b",
    "a = 'b' 'c'",
    "}",
    "a )",
    "a ? b",
    "a ?? b",
    "a?.b",
    "a &&= b",
    "a => => b"
  >>
]

Open == [
  P01 |-> <<
  >>,
  P02 |-> <<
  >>,
  P03 |-> <<
  >>,
  P04 |-> <<
  >>,
  P05 |-> <<
    "for (async of a) ;",
    "for (let; ;) ;",
    "for (let in a) ;",
    "if (a) function f() {}",
    "if (a) class A {}",
    "try {} catch {}"
  >>,
  P06 |-> <<
    "(1) => a;",
    "(a + b) => c;",
    "(a()) => b;",
    "(a, 1) => b;",
    "(a.b) => c;",
    "async (...a, b) => c;",
    "async (a + b) => c;",
    "f() = a;",
    "f()++;",
    "1 = 2;",
    "++ ++a;"
  >>,
  P07 |-> <<
    "async function* f() {}",
    "({async *a() {}});",
    "class A { async *a() {} }"
  >>,
  P08 |-> <<
    "(({a})) => b;",
    "([(a)]) => b;",
    "([...a, b]) => c;",
    "([a.b]) => c;",
    "({...a, b} = c);",
    "({a() {}} = b);",
    "({a() {}}) => b;",
    "({a: 1 + b} = c);",
    "({a: b()+c} = d);",
    "({a: b.c}) => d;",
    "({get a() {}} = b);",
    "[...a, b] = c;",
    "[a + b] = c;",
    "async ([a.b]) => c;"
  >>,
  P09 |-> <<
  >>,
  P10 |-> <<
  >>,
  P11 |-> <<
  >>,
  P12 |-> <<
    "var let;",
    "var static;",
    "let implements = 1;",
    "interface = a;"
  >>,
  P13 |-> <<
  >>,
  P15 |-> <<
  >>,
  P16 |-> <<
  >>,
  P17 |-> <<
    "\\u0061",
    "var \\u{62} = 1"
  >>
]

=============================================================================
