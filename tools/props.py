"""What each check explores: bounds for TLC, focus for the conformance harness."""

# ------------------------------------------------------------------ tokenizer
# alpha/len: every text over these characters up to this length, in TLC (mc) and natively (all).
# classes/frags: what random texts prefer.
def cps(s): return sorted(set(ord(c) for c in s))
SEP = "\u2028"
LEX = {
 "L01": dict(inv=["TypeOK", "L01_Tiles"],
   mc=[(" \u00a0\ufeff a\n'/*1\U0001F600", 4), (" \u00a0\u00a1\u202a\uff08\ue0a0\u3000a'", 3)], mc2=[(" \u00a0\ufeff a\n'/*1\U0001F600", 5), (" \u00a0\u00a1\u202a\uff08\ue0a0\u3000\u0085\u200ba'\\", 4)],
   all=[(" \u00a0\ufeffa\n'/*1\U0001F600", 5), (" \u00a0\u00a1\u202a\uff08\ue0a0\u0085\u200b\ufefea'\\", 4)], all2=[(" \u00a0\ufeffa\n'/*1\U0001F600", 7), (" \u00a0\u00a1\u202a\uff08\ue0a0\u0085\u200b\ufefea'\\", 5)],
   classes="WS LF CR uni ubad zs bs low 0 1 . / * sq bq", frags=["\\u00a0", "\\ufeff", "\\u00a0\\ufeff", "\U0001F600", "/*\\u00a0*/", "''", "//", "\\t\\u000b\\u000c"], memory=0),
 "L02": dict(inv=["TypeOK", "L01_Tiles", "L02_Positions"],
   mc=[("\n\r\u2028a/*`", 5), ("\n\r\u2029'\\ \U0001F600", 5)], mc2=[("\n\r\u2028a/*`", 6), ("\n\r\u2029'\\ \U0001F600", 6)],
   all=[("\n\r\u2028a/*`", 6), ("\n\r\u2029'\\ \U0001F600", 6)], all2=[("\n\r\u2028a/*`\\", 8), ("\n\r\u2029'\\ \U0001F600", 8)],
   classes="LF CR LS WS low / * bq sq bs uni $ {", frags=["\\r\\n", "\\\\\\r\\n", "\\n\\r", "/*\\r\\n*/", "`\\r\\n`", "'\\\\\\r\\n'", "/*\\u2028*/", "\U0001F600", "/*\U0001F600*/", "\\r\\r\\n"]),
 "L03": dict(inv=["TypeOK", "L03_PunctWord"],
   mc=[(".<>=!+-*&", 4), ("{}()[];,.<>=!+-*/%&|^~?:a1$_ ", 2)], mc2=[(".<>=!+-*&|a", 5), ("{}()[];,.<>=!+-*/%&|^~?:a1$_ ", 3)],
   all=[(".<>=!+-*&|", 5), ("{}()[];,.<>=!+-*/%&|^~?:a1$_ Zz", 4)], all2=[(".<>=!+-*&|a", 7), ("{}()[];,.<>=!+-*/%&|^~?:a1$_ Zz@", 5)],
   classes="< > = ! + - * / % & | ^ ~ ? : . , ; ( ) [ ] { } low up $ _ 0 1", frags=[">>>=", "<!--", "-->", "...", "**=", "===", "!==", "=>", "instanceof", "a1", "$_", "&&", "||", "..", ">>>>="]),
 "L04": dict(inv=["TypeOK", "L04_Numbers"],
   mc=[("018xbe.+", 5), ("01Xof_ E-", 4)], mc2=[("0178xboe.+-a", 6), ("019XBOFE.-_ ", 6)],
   all=[("0178xbe.+", 6), ("019XOFE.-a ", 6)], all2=[("0178xbeo.+-a", 7), ("019XBOFE.-_ ", 7)],
   classes="0 1 27 89 x X b B o O e E hexl hexu . + - low", frags=["0x", "0X", "0b", "0B", "0o", "0O", "e+", "E-", "e", "9007199254740991", "9007199254740992", "4294967295", "4294967296", "18446744073709551616", "1e290", "e308", "e-308", "00", "0.", ".0", "123456789", "0xFFFFFFFF", "0b11111111111111111111111111111111", "0o377777777777"], long=6),
 "L05": dict(inv=["TypeOK", "L05_Strings"],
   mc=[("'\"\\a\n\r\u2028", 5), ("'\\xu{4}a", 5)], mc2=[("'\"\\a\n\r\u2028", 6), ("'\"\\xu{4}a", 6)],
   all=[("'\"\\a\n\r\u2028", 6), ("'\\xu{4}", 6)], all2=[("'\"\\a\n\r\u2028", 8), ("'\"\\xu{4}", 7)],
   classes="sq dq bs low LF CR LS uni u x { } hexl 1", frags=["\\\\'", '\\\\"', "\\\\\\\\", "\\\\\\n", "\\\\\\r\\n", "\\\\\\u2028", "\\\\x41", "\\\\u0041", "\\\\u{1F600}", "\\\\u{0}", "\\\\a", "''", '""', "\U0001F600"]),
 "L06": dict(inv=["TypeOK", "L06_Templates"],
   mc=[("`${}\\a\n", 5)], mc2=[("`${}\\a\n", 7)], all=[("`${}\\a\n", 6)], all2=[("`${}\\a\n\r", 8)],
   classes="bq $ { } bs low LF CR LS uni", frags=["${", "$$", "$${", "\\\\$", "\\\\`", "\\\\${", "}", "{}", "`", "``", "\\\\\\\\", "\\r\\n", "$\\\\{", "}${", "\U0001F600"]),
 "L07": dict(inv=["TypeOK", "L07_Comments"],
   mc=[("/*\n\r\u2028a", 5), ("/*\n !<->", 4)], mc2=[("/*\n\r\u2028a", 7), ("/*\n !<->", 6)],
   all=[("/*\n\r\u2028a", 7), ("/* \u2029!->", 6)], all2=[("/*\n\r\u2028a", 9), ("/* \u2029!<->", 7)],
   classes="/ * LF CR LS low WS ! - > uni sq", frags=["/*", "*/", "//", "/*/", "**/", "/**/", "/***/", "\\r\\n", "\\n\\r", "<!--", "-->", "*\\n/", "/*\\r\\n*/", "//\\u2028", "//\U0001F600"]),
 "L08": dict(inv=["TypeOK", "L08_Slash"],
   mc=[("/[]\\a=*", 5), ("/ \ngA1[", 4)], mc2=[("/[]\\a=*", 7), ("/ \ngA1[\\", 6)],
   all=[("/[]\\a=*", 6), ("/ \ngA1[", 6)], all2=[("/[]\\a=*", 8), ("/ \ngA1[\u2028", 7)],
   classes="/ [ ] bs low up = * LF LS uni WS 1", frags=["[/]", "\\\\/", "[\\\\]]", "/=", "[[]", "\\\\[", "/g", "/gimuy", "\U0001F600", "(?:a|b)", "[^/]", "\\\\\\\\", "]", "\\\\]"]),
 "L09": dict(inv=["TypeOK", "L09_Memoryless", "L09_Requests"],
   mc=[("/}`a'\n ", 4), ("/*[]1.=<", 4)], mc2=[("/}`a'\n ${", 5), ("/*[]1.=<-", 5)],
   all=[("/}`a'\n ", 5), ("/*[]1.=<", 5)], all2=[("/}`a'\n $", 7), ("/*[]1.=<-", 6)],
   classes="/ } { bq sq low LF WS . 1 < - > = ! uni bs", frags=["<!--", "-->", "/*\\n*/-->", "\\n-->", "/a/g", "}a`", "}a${", "\\u2028", "\U0001F600", "'use strict'", "0x1", "1.."], memory=1),
 "L10": dict(inv=["TypeOK", "L10_Refused"],
   mc=[("'\\189a", 5), ("'\"`/*\\\n", 4), ("018xbe'#", 4), ("/[]\\\ra@\uff08", 4)], mc2=[("'\"`/*\\\n", 6), ("0189xboe'#", 6), ("/[]\\\ra@\u2028", 6)],
   all=[("'\\0189\"", 5), ("'\"`/*\\\n", 6), ("018xbe'#", 5), ("/[]\\\ra@", 6)], all2=[("'\"`/*\\\n$", 7), ("0189xboe'#", 6), ("/[]\\\ra@\u2028", 7)],
   classes="sq dq bq / * bs LF CR LS [ ] 0 1 89 x b o e . low bad ubad", frags=["\\\\1", "\\\\9", "0x", "0b", "0o", "1e", "1e+", "0xg", "0b2", "0o8", "'\\n", '"\\r', "/a\\n", "/[a\\u2028", "`", "/*", "#", "@", "1.e", "\\u2029'", "${"]),
}
for _k in LEX: LEX[_k].setdefault("memory", 0)

# --------------------------------------------------------------------- parser
FN, GEN, ASY = "function id ( ) {", "function * id ( ) {", "async function id ( ) {"
def ps(*l): return [x.split() for x in l]
def mc(alpha, prefixes, depth, depth2=None, nl=(False,)): return dict(alphabet=alpha.split(), prefixes=[p.split() for p in prefixes], depth=depth, depth2=depth2 or depth + 1, nl=list(nl))
PARSE = {
 "P01": dict(inv=["OneGoal"], act=[],
   mc=[mc("id num re / /= ( ) [ ] { } ; , = + ++ ! ? : => . this return tplN", ["", "id", "("], 3, 4),
       mc("re / id ( ) { } ; else while if do function class case : => yield await", ["function id ( ) {", "class id {", "id = {", "function * id ( ) {", "async function id ( ) {", "if ( id )", "do ;", "switch ( id ) {", "export default", "id = id =>"], 3, 4)],
   goals="Assign BinRhs CondTail Args Arr Obj ArrowBody Stmt ForHead Tpl YieldTail Export Cases LhsExpr", alpha="/ /= re ) ] } ( [ { ; id num + ++ => tplH tplM tplT : ? , else", ops="program dead mutate newline graft graft cross loop", nl=25),
 "P02": dict(inv=["TemplateGoal"], act=[],
   mc=[mc("tplN tplH tplM tplT id { } ( ) [ ] ; , = : =>", ["", "id", "id ="], 4, 5),
       mc("tplH tplM tplT } { id ( ) =>", ["tplH function ( ) {", "tplH class {", "tplH {", "tplH ( ) => {", "tplH tplH", "function id ( ) { tplH", "tplH { id : tplH", "tplH async ( ) => {", "tplH class { id ( ) {", "{ tplH", "switch ( id ) { case tplH"], 4, 5)],
   goals="Tpl TplMore Block Obj ClassBody FnRest ArrowBody BObj Cases Method", alpha="tplH tplM tplT tplN } { ( ) id ; ,", ops="program dead bracket mutate graft graft cross loop", seq=25),
 "P03": dict(inv=[], act=["P03"],
   mc=[mc("id ; } ( ) { = ++ num for while do if else in of", ["", "{", "function id ( ) {"], 3, 4, (False, True)),
       mc("id num ; } ( ) eof : , = + ++ /", ["id = num", "var id", "for ( id", "for ( ; id", "do ; while ( id", "if ( id ) id", "break", "throw id", "import str", "export { }", "const id = num", "debugger", "{ id", "function id ( ) { return", "while ( id )", "if ( id ) ; else", "export default id", "export * from str", "let id", "do id"], 3, 4, (False, True))],
   goals="Stmt VarStmt Decl Import Export ForHead DSEMI ".replace("DSEMI ", ""), alpha="; } { ) ( id num ++ -- + / [ tplN eof in else while", ops="newline dead newline mutate program graft graft cross loop", nl=70),
 "P04": dict(inv=[], act=["P04"],
   mc=[mc("id num ; ( ) { } = ++ => async function yield return throw break", ["", "function id ( ) {"], 3, 4, (False, True)),
       mc("id num ; } ( ) => function * get : = ++ -- , { . [", ["function id ( ) { return", "while ( id ) break", "while ( id ) continue", "throw", "function * id ( ) { yield", "id", "( id )", "async", "async id", "async ( id )", "( )", "class id { async", "id = { async", "export default async", "id [ id ]", "id . id", "( async", "async ( )", "class id { static async", "class id { get"], 3, 4, (False, True))],
   goals="Stmt Assign ArrowBody YieldTail Method FnDecl AfterT UpdateLed FnExpr DefFn", alpha="async => ++ -- return throw break continue yield id ( ) ; function", ops="newline dead newline mutate program graft graft cross loop", nl=70),
 "P05": dict(inv=["CanComplete"], act=[],
   mc=[mc("id num ; ( ) { } = var let const if else while do for in of try catch finally", [""], 3, 4),
       mc("id num ; ( ) { } = , : in of case default else while catch finally [ ] var let", ["for (", "for ( var id", "for ( let id", "for ( const id =", "for ( id", "for ( ;", "switch ( id ) {", "switch ( id ) { default : ;", "switch ( id ) { case id :", "try { }", "try { } catch ( id ) { }", "if ( id ) ;", "do ;", "do { } while ( id )", "id :", "with ( id )", "const id", "let [ id ]", "var { id }", "for ( var [ id ]", "for ( let { id } =", "for ( const id = id ,", "for ( const [ id ] = id ,", "for ( let id = id ,", "for ( let id ,", "for ( var id ,", "for ( var { id } = id ,", "for ( id ,", "for ( id in", "for ( id of", "for ( id ; id"], 3, 4)],
   goals="Stmt VarStmt Decl ForHead Cases CatchFin ElseOpt Block SubStmt FinOpt ForX FVarBid FConst CasesD Cond ExprOpt LetMore ConstMore", alpha="; ( ) { } id var let const for in of if else while do switch case default try catch finally : = , return throw break continue with debugger", ops="program dead mutate graft graft cross loop", seq=15),
 "P06": dict(inv=["CanComplete"], act=[],
   mc=[mc("id num ( ) [ ] { } , . ... = => ? : + ** ++ ! new", ["", "id"], 3, 4),
       mc("id num ( ) [ ] , . ... = += => ? : * ** ++ - new super this target tplN", ["(", "( id ,", "[", "id = {", "id (", "new", "new id", "new new id", "super", "super .", "id ?", "id ? id :", "!", "++", "id **", "- id", "async (", "( [ id ] ) =>", "id = id =>", "new .", "( ...", "id instanceof", ASY + " await", "id = ("], 3, 4)],
   goals="Assign Expr PrimN Arr Obj Args Callee NewTail CondTail BinRhs UnaryLed UpdateLed Operand ArrowBody FnExpr SuperMember Tpl AfterT CommaMore ArrMore", alpha="id num ( ) [ ] { } , . ... = += => ? : + - ** ++ ! typeof new super this target async instanceof in tplN str", ops="program dead mutate graft graft cross loop"),
 "P07": dict(inv=["CanComplete"], act=[],
   mc=[mc("id str num [ ] ( ) { } , ; : = ... * get set static async", ["class id {", "id = {", "( class {", "class id { static", "class id { get", "class id { set", "class id { async", "class id { *", "id = { get", "id = { async", "id = { *"], 3, 4),
       mc("function * async id ( ) { } , = ... class extends yield await get if static", ["", "(", "export default", "function id (", "function * id (", "async function", "class id extends", "class", "id = class", "( async function"], 3, 4)],
   goals="FnDecl FnRest GenRest AsyncRest FnExpr ClassTail ClassBody Method Formals DefFn HeritageOpt PropName Prop", alpha="function * async class extends static get set id str num [ ] ( ) { } , ; ... = : constructor".replace(" constructor", "") + " if yield await new", ops="program dead mutate words graft graft cross loop", seq=25),
 "P08": dict(inv=["CanComplete"], act=[],
   mc=[mc("id [ ] { } , ... = : str num if", ["let [", "var {", "function id ( {", "function id ( [", "try { } catch ( {", "for ( var [", "for ( const {", "( { ", "[", "( [", "const { id :", "let [ ...", "let { ...", "id = ( {", "( {", "async ( {", "let { [ id ]", "var [ id ,", "function id ( ..."], 3, 5),
       mc("id [ ] { } , ... = : ( ) => ; . of", ["[ id", "( { id", "( { id }", "[ id ]", "( [ id ]", "for ( [ id ]", "for ( { id }", "( { id : id", "[ ... id", "( id , ...", "( ... id", "( { ... id", "( { id = id"], 3, 4)],
   goals="BPat BArr BObj BProp BElem BTarget Formals APat AArr AObj AProp ATarget ArrowBody CatchFin FVarPat FTarget BObjMore BArrMore AElem", alpha="id [ ] { } , ... = : str num ( ) => if class . of in", ops="program dead mutate words graft graft cross loop", seq=20),
 "P09": dict(inv=["CanComplete"], act=["P09"],
   mc=[mc("import export default from as * { } id str , ; = if", [""], 4, 5),
       mc("as from * { } id str , ; default if ( = eof", ["import", "import id", "import id ,", "import {", "import { id", "import *", "import * as id", "import { if", "export", "export {", "export { id", "export { if as", "export *", "export { }", "export { id as if", "import { id as", "import { if as id", "export { if }", "export { id , if"], 4, 5),
       mc("import export default function class async id = ; ( ) { } let const var * str", ["export", "export default", "{", "function id ( ) {", "if ( id )", "id =>", "( function ( ) {", "id :", "class id { id ( ) {", "switch ( id ) { default :"], 3, 4)],
   goals="Import Export ImpClause ImpNames ImpList ExpAny ExpLoc ExpAs DefFn ImpMoreOpt ImpSpec ExpLocMore ExpAnyMore", alpha="import export default from as * { } id str , ; function class async const let var =", ops="program dead mutate words newline graft graft cross loop", seq=20),
 "P10": dict(inv=[], act=["P10"],
   mc=[mc("id in of ; ( ) [ ] { } = , + => ? :", ["for (", "for ( var id =", "for ( let id =", "for ( id =", "for ( ; ", "for ( ; ;"], 4, 5),
       mc("id in of ; ( ) } ] : , tplT tplM => {", ["for ( id = (", "for ( id (", "for ( id [", "for ( [", "for ( id = {  id :", "for ( tplH", "for ( id = function ( ) {", "for ( id = function ( id =", "for ( id = ( ) => {", "for ( id = id =>", "for ( id ? ", "for ( id ? id :", "for ( class {", "for ( class extends", "for ( let { id =", "for ( var [ id =", "for ( ( id =", "for ( ! ", "for ( new id (", "for ( id = async id =>", "for ( const [ id ] =", "for ( id , ", "for ( var id = [ id , ", "for ( var id , id =", "if (", "while (", "for ( id in", "for ( id of", "for ( id = ( id ,", "for ( id = { id"], 3, 4),
       mc("id in of ; ) , =", [w + " for ( " + h for w in ("id = function ( ) {", "( ( ) => {") for h in ("", "var id =", "let id =", "const id =", "var [ id ] =", "let { id } =", "const [ id ] =", "var id , id =", "let id = id , id =", "const id = id , id =", "id =", "id ,")], 2, 3)],
   goals="ForHead ForTail ForX FVarBid FConst FLetMore ArrowBody Args Obj Arr FnRest Tpl InitOpt CondTail", alpha="in of ; id ( ) [ ] { } = , for var let const => ? :", ops="program dead mutate graft graft cross loop"),
 "P11": dict(inv=[], act=["P11"],
   mc=[mc("yield await id ( ) { } ; = * function", ["", FN, GEN, ASY], 3, 5),
       mc("yield await id num ( ) { } ; , => = + *", [GEN + " function id ( ) {", ASY + " function id ( ) {", GEN + " id =>", ASY + " id =>", "async id =>", "async id => {", GEN + " ( ) => {", ASY + " ( id ) => {", "class id { * id ( ) {", "class id { async id ( ) {", "id = { * id ( ) {", "id = { async id ( ) {", "class id { id ( ) {", "id = { get id ( ) {", GEN + " class id {", GEN + " class id { id ( ) {", GEN + " id (", ASY + " [", GEN + " function id ( id =", "( function * ( ) {", "( async function ( ) {", "export default function * ( ) {", "export default async function ( ) {", GEN + " yield", ASY + " await", GEN + " function id ( ) { }", ASY + " class id { id ( ) { } }", GEN + " async id => { }", GEN + " id = async id =>", ASY + " id = function * ( ) {", GEN + " id = async function ( ) {", GEN + " ( id =", ASY + " ( id =", GEN + " for (", ASY + " for ( ;", GEN + " tplH", GEN + " if ( id ) {", ASY + " while ("], 3, 4)],
   goals="GenRest AsyncRest FnRest YieldTail UnaryLed AsyncBody ArrowBody Method FnExpr FnDecl", alpha="yield await function * async => ( ) { } id ; = , class", ops="program dead mutate words graft graft cross loop", seq=30),
 "P12": dict(inv=[], act=["P12"],
   mc=[mc("id if yield await enum null this true async of get set from as target default ; = ,", ["", "var", "let", "const", "class", "function", "id .", "( {", "let {", "let [", "function id (", "try { } catch (", "import", "import {", "import * as", "export {", "import { if as", "export { id as", "break", "continue", "( function", "class id {", "id = {", "for ( var", "for ( let", "id :", "async", "class id extends", "[ ...", "let { ..."], 2, 3),
       mc("id if else yield null as from ( ) { } : ; , = =>", ["(", "id = { get", "class id { static", "class id { async", "export { if", "import { if", "let { if", "new id .", "super .", "( {  if", "var id ,", "function id ( id ,", "function * ", "async function"], 3, 4)],
   goals="Bid PropName BTarget Method Prop ImpSpec ExpAny ExpLoc FnDecl ClassTail Formals BProp ASimple Callee SuperMember Stmt", alpha="id if yield await enum null this true async of get set from as target let static sres default . : , = ( {", ops="words words dead mutate program graft graft cross loop"),
 "P13": dict(inv=[], act=[], pull=True,
   mc=[mc("id num ; ( ) { } = ++ + / re", [""], 3, 4, (False, True))],
   goals="Items Stmt Assign ClassBody Obj FnRest Import Export ForHead", alpha="id ; ( ) { } ++ / re tplH tplM tplT => async", ops="trivia trivia newline graft graft cross loop", nl=40),
 "P14": dict(inv=[], act=[], pull=True, over=1,
   mc=[mc("id num str re tplN tplH tplM tplT ( ) [ ] { } ; , . ... = => + ++ / ? : * in of eof", [""], 2, 3, (False, True)),
       mc("eof } ) ; id", ["function", "class", "import", "export", "for (", "if (", "switch", "try", "async", "new", "super", "( id", "[", "{", "tplH", "id =", "id ?", "let {", "function id ( ) { return", "throw", "do", "class id { static", "id = { get", "import {", "export {", "export default", "( id ) =>", "function * id ( ) { yield", "async function id ( ) { await", "id .", "++", "id : "], 2, 3, (False, True))],
   goals="", alpha="", ops="stub stub stub mutate dead graft loop", depth=14, cap=90),
 "P15": dict(inv=["Balanced"], act=[],
   mc=[mc("( ) [ ] { } tplH tplM tplT id ; , : => eof", ["", "id", "id ="], 4, 5),
       mc("( ) [ ] { } tplT ; eof id ,", ["id ( [", "id = { id : [", "function id ( ) { ( ", "class id { id ( ) { [", "if ( id ) { (", "( id ) => { [", "tplH (", "tplH [ {", "for ( ; ; ) {", "switch ( id ) { default : {", "try {", "import {", "export {", "let { id : [", "( [ {", "do {"], 3, 4)],
   goals="Block Args Arr Obj Tpl FnRest ClassTail Cases ForHead Cond BPat ImpNames Export ArrowBody", alpha="( ) [ ] { } tplH tplM tplT id ; eof", ops="bracket bracket dead mutate program graft graft cross loop", nl=25),
 "P16": dict(inv=[], act=["P16"],
   mc=[mc("id num ; ( ) { } = yield await in / re ++ return => tplH tplT", ["", FN, GEN, ASY, "{"], 3, 4),
       mc("id ; } ) yield await in / re = , eof", ["for ( ; ; ) {", GEN + " { ", ASY + " if ( id ) {", "function id ( ) { tplH id tplT ;", GEN + " function id ( ) { } ", "for ( id in id ) ;", "( ) => { } ;", GEN + " class id { }", ASY + " ( function ( ) { } ) ;", "for ( var id = ( id in id ) ; ; ) ;", GEN + " id = async id => await id ;", GEN + " for ( id = function ( ) { } ; ; ) {", "async id => { } ;", "id = { * id ( ) { yield ; } } ;", "switch ( id ) { case id : ", "try { } finally {", "tplH id tplT ;", GEN + " ( yield ) ; ", ASY + " id => id ; "], 3, 4)],
   goals="Stmt SItem Method Assign Prop BElem Tpl ForHead FnRest ClassBody", alpha="id ; { } ( ) yield await in / re = , return =>", ops="program dead mutate graft graft cross loop", seq=85),
 "P17": dict(inv=[], act=[], mc=[],
   goals="", alpha="/ re id } { ( ) tplH tplT ; = ++", ops="program dead mutate newline trivia bracket graft cross loop", nl=30),
}
# Texts, character by character: pieces, what they come after, how many, and how many when thorough.
def pr(pieces, prefixes, depth, depth2=None): return dict(pieces=pieces, prefixes=prefixes, depth=depth, depth2=depth2 or depth + 1)
PROG = {
 "P01": [pr(["a", "/", "(", ")", "`", "${", "}", "\n", ";", "+", "{", "=", "++", "=>"], ["", "a", "x="], 4),
         pr(["a", "/", ")", "}", "]", "/g", "\n", "=", "*", ";", "(", "`", "++", ":"], ["({", "`${", "if(a)", "for(;;)", "(a)=>", "function f(){", "a?", "(a", "[", "!", "return_=", "function f(){return ", "class a{", "({a:", "typeof ", "a++", "do;while(a)", "x=>{}", "function* f(){yield", "this", "(class{}", "``", "switch(a){case ", "for(a of", "/a/"], 3)],
 "P02": [pr(["`", "${", "}", "{", "a", "(", ")", "/", ";", "$"], ["", "`", "`${"], 5),
         pr(["`", "${", "}", "{", "a", "$", "\\", ")", "/*", "*/"], ["`${{", "`${{}", "`${function(){", "`${class{", "`${`${", "`${a=>{", "{`${", "({a:`", "`${'}'", "`${/}/", "`${({a(){`${", "switch(a){case`${", "for(;;){`${", "`${a}", "`${a}$", "`\\${", "`${//}\n"], 4)],
 "P03": [pr(["a", "1", "\n", ";", "}", "{", "++", "(", ")", "=", "/*\n*/", "/**/", "//"], ["", "{", "a"], 4),
         pr(["a", "\n", ";", "}", "\u2028", "\r\n", "/*\r*/", "/**/", "//", "/", "(", "++", " "], ["do ;while(a)", "var a", "a=1", "for(a", "for(;a", "function f(){return", "while(a)break", "throw a", "import'a'", "export{}", "debugger", "{a", "if(a)b", "let a", "do a"], 3)],
 "P04": [pr(["a", "\n", " ", "/*\n*/", "/**/", "=>", "(", ")", "function ", "++", ";", "{", "}"], ["async", "async a", "async(a)", "(a)", "a", "a "], 4),
         pr(["a", "\n", " ", "/*\r*/", "//", "/**/", "(", "){}", "}", "*", "[", "++", "\u2029", ";"], ["function f(){return", "while(a)break", "while(a)continue", "throw", "function*f(){yield", "class A{async", "({async", "({get", "export default async", "class A{static async", "x=async", "a:while(a)continue"], 3)],
 "P13": [pr(["a", " ", "\u00a0", "\ufeff", "\t", "/**/", "/*\n*/", "//", "\n", "+", "/", "(", ")", ";"], ["", "a", "("], 4),
         pr([" ", "\u000b", "\u000c", "/***/", "/*/", "//", "\r", "\u2028", "-->", "<!--", "a", ")", ";", "1"], ["a", "a(", "return_", "1", "`${", "x={", "a.", "'a'", "/a/", "a?b:", "for(", "var", "class A", "import a from"], 3)],
 "P15": [pr(["(", ")", "[", "]", "{", "}", "`", "${", "a", ";", ","], ["", "a", "a="], 4),
         pr(["(", ")", "[", "]", "{", "}", "`", "'", "/", "//", "\n", "a"], ["a([", "x={a:[", "function f(){(", "class A{a(){[", "if(a){(", "(a)=>{[", "`${(", "for(;;){", "switch(a){default:{", "try{", "import{", "export{", "let{a:[", "'('", "/(/", "`(`", "/*(*/"], 3)],
 "L10": [pr(["'", "\"", "`", "/", "*", "\\", "\n", "a", "1", "e", "0", "x", "#", ";", "{"], ["", "a", "a=", "`${"], 3),
         pr(["'", "`", "/", "*", "\\", "\n", "}", "a", "9", "8", ".", "e", "+", "@", "\u2028"], ["a='", "a=`", "a=/", "a=/[", "/*", "a=0x", "a=0b", "a=0o", "a=1e", "a=1.", "a=`${`", "a={b:'", "a\n/", "import'", "f(/", "//"], 3)],
 "P17": [pr([chr(k) for k in range(33, 127) if not chr(k).isalnum() or chr(k) in "a0"] + ["\n", " "], ["", "a", "(", "`${", "{", "x={", "/a", "a=>"], 2, 3),
         pr([chr(k) for k in range(33, 127) if not chr(k).isalnum() or chr(k) in "a1"] + ["\n", "\u2028", "\r"], ["", "a=", "/", "`", "'", "/*", "a/", "1", "a++", "a,", "{", "{}", "a\n", "for(a ", "(a)=", "a?", "if(a)", "`a${a}", "class A{", "[", "function f(){"], 2, 3),
         pr(["a", "/", "}", "`", "${", "\n", "(", ")", "{", "=", "'", "*", "1", ".", "\\"], ["", "a"], 4)],
}
for _v in PARSE.values():
    for _k, _d in dict(over=0, nl=15, seq=10, depth=9, cap=60, pull=False).items(): _v.setdefault(_k, _d)
ALL = sorted(LEX) + sorted(PARSE)
# Sequences of answers, trivia included.
PULL = {
 "P13": dict(inv=["TriviaErased", "TriviaIdle", "BreaksIdle", "Counted"],
   **{k: v for k, v in mc("id ++ ; ( ) } eof ws lt lcom bcom bcomL", ["", "return", "( id", "{ id", "async", "id = id =>", "throw", "function * id ( ) { yield", "do ; while ( id )"], 5, 6).items() if k != "nl"}),
 "P14": dict(inv=["OneEnd", "NotEarly", "Counted"],
   **{k: v for k, v in mc("id num str ( ) { } [ ] ; , = + => function class import lt bcomL eof", ["", "for (", "class id {", "async", "import {"], 3, 4).items() if k != "nl"}),
}

# properties with examples in spec/JsExamples.tla
EXAMPLES = {"P01","P02","P03","P04","P05","P06","P07","P08","P09","P10","P11","P12","P13","P15","P16","P17"}
