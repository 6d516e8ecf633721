----------------------------- MODULE JsGrammar -----------------------------
(* The ECMAScript 2018 module grammar, as data.                             *)
(*                                                                          *)
(* A symbol of the stack of the parsing machine (JsParse) is <<name, ctx>>. *)
(* A production is [b: body, l: loose, g: guard]; a body is a sequence of   *)
(* <<name, mod>> where mod says how the context of the left-hand side       *)
(* becomes that of the symbol.  The context is <<In, Yield, Await, Return>>,*)
(* the grammar parameters of the standard.                                  *)
(*                                                                          *)
(* A loose production is one whose acceptance this specification leaves     *)
(* open (early errors, strict-mode names, syntax the parser only covers or  *)
(* does not implement): a program that needs one is "unspecified", neither  *)
(* required to be accepted nor to be rejected.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Keywords == {"break","case","catch","class","const","continue","debugger",
  "default","delete","do","else","export","extends","finally","for",
  "function","if","import","in","instanceof","new","return","super","switch",
  "this","throw","try","typeof","var","void","while","with","yield","await",
  "enum","null","true","false"}
Contextual == {"id","async","of","get","set","from","as","target"}
StrictOnly == {"let","static","sres"}   \* sres: implements, interface, ...

Puncts == {"{","}","(",")","[","]",".","...",";",",","<",">","<=",">=","==",
  "!=","===","!==","+","-","*","/","%","**","++","--","<<",">>",">>>","&",
  "|","^","!","~","&&","||","?",":","=","+=","-=","*=","/=","%=","**=","<<=",
  ">>=",">>>=","&=","|=","^=","=>"}
Literals == {"num","str","re","tplN","tplH","tplM","tplT"}
Tokens == Keywords \cup Contextual \cup StrictOnly \cup Puncts \cup Literals \cup {"eof"}

TermSets ==
  [ BID   |-> Contextual,                      \* binding / reference names
    LBID  |-> StrictOnly,
    WORD  |-> Keywords \cup Contextual \cup StrictOnly,
    LIT   |-> {"this","null","true","false","num","str","re"},
    AOP   |-> {"=","+=","-=","*=","/=","%=","**=","<<=",">>=",">>>=","&=","|=","^="},
    BOP   |-> {"||","&&","|","^","&","==","===","!=","!==","<",">","<=",">=","<<",
               ">>",">>>","+","-","*","%","/","instanceof"},
    UNOP  |-> {"+","-","~","!","delete","void","typeof"},
    INC   |-> {"++","--"} ]

\* Negative and positive lookahead on the next token.
NotSets ==
  [ NEXPR  |-> {"{","function","class","let"},
    NBRACE |-> {"{"},
    NDEF   |-> {"function","class"},
    NASYNC |-> {"async"},
    NOF    |-> {"of"},
    NLET   |-> {"let"},
    NBRK   |-> {"["},
    NPAREN |-> {"("} ]
PosSets == [ PSUB |-> {"function","class","async","let"} ]

\* NOLT: no line terminator before the next token.  SEMI: `;' or automatic
\* insertion.  DSEMI: `;' or nothing (after do-while).
\* NAF/NFN: not `async function'.
Specials == {"NOLT","SEMI","DSEMI","NAF","NFN"}
            \cup DOMAIN NotSets \cup DOMAIN PosSets

--------------------------------------------------------------------------
\* Context modifiers
Ctx0 == <<TRUE, FALSE, FALSE, FALSE>>
ApplyMod(c, m) ==
  CASE m = "="  -> c
    [] m = "I"  -> <<TRUE,  c[2], c[3], c[4]>>       \* +In
    [] m = "X"  -> <<FALSE, c[2], c[3], c[4]>>       \* -In
    [] m = "F"  -> <<TRUE, FALSE, FALSE, TRUE>>      \* function code
    [] m = "G"  -> <<TRUE, TRUE,  FALSE, TRUE>>      \* generator code
    [] m = "A"  -> <<TRUE, FALSE, TRUE,  TRUE>>      \* async code
    [] m = "B"  -> <<TRUE, TRUE,  TRUE,  TRUE>>      \* async generator code
    [] m = "W"  -> <<c[1], FALSE, FALSE, c[4]>>      \* arrow expression body
    [] m = "V"  -> <<c[1], FALSE, TRUE,  c[4]>>      \* async arrow expression body

\* Constructors
S(n)  == <<n, "=">>      NI(n) == <<n, "I">>     NX(n) == <<n, "X">>
M(n,m) == <<n, m>>
RECURSIVE Syms(_)
\* In bodies a plain string is the symbol with the context inherited.
Syms(b) == b
P(b) == [b |-> b, l |-> FALSE, g |-> "-"]
L(b) == [b |-> b, l |-> TRUE,  g |-> "-"]
PY(b) == [b |-> b, l |-> FALSE, g |-> "y"]
PA(b) == [b |-> b, l |-> FALSE, g |-> "a"]
PI(b) == [b |-> b, l |-> FALSE, g |-> "i"]
PR(b) == [b |-> b, l |-> FALSE, g |-> "r"]
Eps == P(<<>>)

Guard(g, c) == CASE g = "-" -> TRUE [] g = "i" -> c[1] [] g = "y" -> c[2]
                 [] g = "a" -> c[3] [] g = "r" -> c[4]

--------------------------------------------------------------------------
(* Names *)
RulesNames ==
  "Bid" :> << P(<<S("BID")>>), L(<<S("LBID")>>) >>
@@ "BidOpt" :> << Eps, P(<<S("Bid")>>) >>
@@ "PropName" :> << P(<<S("WORD")>>), P(<<S("str")>>), P(<<S("num")>>),
                    P(<<S("["), NI("Assign"), S("]")>>) >>

(* Modules *)
RulesModule ==
  "Items" :> << Eps, P(<<S("Item"), S("Items")>>) >>
@@ "Item" :> << P(<<S("SItem")>>), P(<<S("Import")>>), P(<<S("Export")>>) >>
@@ "Import" :> << P(<<S("import"), S("str"), S("SEMI")>>),
                  P(<<S("import"), S("ImpClause"), S("from"), S("str"), S("SEMI")>>) >>
@@ "ImpClause" :> << P(<<S("Bid"), S("ImpMoreOpt")>>), P(<<S("ImpNames")>>) >>
@@ "ImpMoreOpt" :> << Eps, P(<<S(","), S("ImpNames")>>) >>
@@ "ImpNames" :> << P(<<S("*"), S("as"), S("Bid")>>), P(<<S("{"), S("ImpList"), S("}")>>) >>
@@ "ImpList" :> << Eps, P(<<S("ImpSpec"), S("ImpMore")>>) >>
@@ "ImpMore" :> << Eps, P(<<S(","), S("ImpList")>>) >>
@@ "ImpSpec" :> << P(<<S("Bid")>>), P(<<S("WORD"), S("as"), S("Bid")>>) >>
@@ "Export" :> << P(<<S("export"), S("*"), S("from"), S("str"), S("SEMI")>>),
                  P(<<S("export"), S("{"), S("ExpAny"), S("}"), S("from"), S("str"), S("SEMI")>>),
                  P(<<S("export"), S("{"), S("ExpLoc"), S("}"), S("SEMI")>>),
                  P(<<S("export"), S("VarStmt")>>),
                  P(<<S("export"), S("Decl")>>),
                  P(<<S("export"), S("default"), S("DefFn")>>),
                  P(<<S("export"), S("default"), S("class"), S("BidOpt"), S("ClassTail")>>),
                  P(<<S("export"), S("default"), S("NDEF"), S("NAF"), NI("Assign"), S("SEMI")>>) >>
@@ "ExpAny" :> << Eps, P(<<S("WORD"), S("ExpAs"), S("ExpAnyMore")>>) >>
@@ "ExpAnyMore" :> << Eps, P(<<S(","), S("ExpAny")>>) >>
@@ "ExpLoc" :> << Eps, P(<<S("Bid"), S("ExpAs"), S("ExpLocMore")>>) >>
@@ "ExpLocMore" :> << Eps, P(<<S(","), S("ExpLoc")>>) >>
@@ "ExpAs" :> << Eps, P(<<S("as"), S("WORD")>>) >>
@@ "DefFn" :> << P(<<S("function"), S("BidOpt"), S("FnRest")>>),
                 P(<<S("function"), S("*"), S("BidOpt"), S("GenRest")>>),
                 P(<<S("async"), S("NOLT"), S("function"), S("BidOpt"), S("AsyncRest")>>),
                 L(<<S("async"), S("NOLT"), S("function"), S("*"), S("BidOpt"), S("AGenRest")>>) >>

(* Declarations, functions, classes *)
RulesDecl ==
  "Decl" :> << P(<<S("FnDecl")>>), P(<<S("class"), S("Bid"), S("ClassTail")>>),
               P(<<S("let"), NI("LetBind"), S("LetMore"), S("SEMI")>>),
               P(<<S("const"), NI("ConstBind"), S("ConstMore"), S("SEMI")>>) >>
@@ "LetBind" :> << P(<<S("Bid"), S("InitOpt")>>), P(<<S("BPat"), S("Init")>>) >>
@@ "LetMore" :> << Eps, P(<<S(","), NI("LetBind"), S("LetMore")>>) >>
@@ "ConstBind" :> << P(<<S("Bid"), S("Init")>>), P(<<S("BPat"), S("Init")>>) >>
@@ "ConstMore" :> << Eps, P(<<S(","), NI("ConstBind"), S("ConstMore")>>) >>
@@ "Init" :> << P(<<S("="), S("Assign")>>) >>
@@ "InitOpt" :> << Eps, P(<<S("="), S("Assign")>>) >>
@@ "FnDecl" :> << P(<<S("function"), S("Bid"), S("FnRest")>>),
                  P(<<S("function"), S("*"), S("Bid"), S("GenRest")>>),
                  P(<<S("async"), S("NOLT"), S("function"), S("Bid"), S("AsyncRest")>>),
                  L(<<S("async"), S("NOLT"), S("function"), S("*"), S("Bid"), S("AGenRest")>>) >>
@@ "FnRest" :> << P(<<S("("), M("Formals","F"), S(")"), S("{"), M("StmtList","F"), S("}")>>) >>
@@ "GenRest" :> << P(<<S("("), M("Formals","F"), S(")"), S("{"), M("StmtList","G"), S("}")>>) >>
@@ "AsyncRest" :> << P(<<S("("), M("Formals","F"), S(")"), S("{"), M("StmtList","A"), S("}")>>) >>
@@ "AGenRest" :> << P(<<S("("), M("Formals","F"), S(")"), S("{"), M("StmtList","B"), S("}")>>) >>
@@ "Formals" :> << Eps, P(<<S("BElem"), S("FormalsMore")>>), P(<<S("..."), S("BTarget")>>) >>
@@ "FormalsMore" :> << Eps, P(<<S(","), S("Formals")>>) >>
@@ "ClassTail" :> << P(<<S("HeritageOpt"), S("{"), S("ClassBody"), S("}")>>) >>
@@ "HeritageOpt" :> << Eps, P(<<S("extends"), S("LhsExpr")>>) >>
@@ "ClassBody" :> << Eps, P(<<S(";"), S("ClassBody")>>),
                     P(<<S("Method"), S("ClassBody")>>),
                     P(<<S("static"), S("Method"), S("ClassBody")>>) >>
@@ "Method" :> << P(<<S("PropName"), S("FnRest")>>),
                  P(<<S("get"), S("PropName"), S("("), S(")"), S("{"), M("StmtList","F"), S("}")>>),
                  P(<<S("set"), S("PropName"), S("("), M("BElem","F"), S(")"), S("{"), M("StmtList","F"), S("}")>>),
                  P(<<S("*"), S("PropName"), S("GenRest")>>),
                  P(<<S("async"), S("NOLT"), S("PropName"), S("AsyncRest")>>),
                  L(<<S("async"), S("NOLT"), S("*"), S("PropName"), S("AGenRest")>>) >>

(* Binding patterns *)
RulesPattern ==
  "BTarget" :> << P(<<S("Bid")>>), P(<<S("BPat")>>) >>
@@ "BElem" :> << P(<<S("BTarget"), NI("InitOpt")>>) >>
@@ "BPat" :> << P(<<S("["), S("BArr")>>), P(<<S("{"), S("BObj")>>) >>
@@ "BArr" :> << P(<<S("]")>>), P(<<S(","), S("BArr")>>),
                P(<<S("BElem"), S("BArrMore")>>), P(<<S("..."), S("BTarget"), S("]")>>) >>
@@ "BArrMore" :> << P(<<S("]")>>), P(<<S(","), S("BArr")>>) >>
@@ "BObj" :> << P(<<S("}")>>), P(<<S("BProp"), S("BObjMore")>>), P(<<S("..."), S("Bid"), S("}")>>) >>
@@ "BObjMore" :> << P(<<S("}")>>), P(<<S(","), S("BObj")>>) >>
@@ "BProp" :> << P(<<S("Bid"), NI("InitOpt")>>), P(<<S("PropName"), S(":"), S("BElem")>>) >>
\* Assignment patterns (the literal alternative covers the rest, loosely)
@@ "APat" :> << P(<<S("["), S("AArr")>>), P(<<S("{"), S("AObj")>>) >>
@@ "AArr" :> << P(<<S("]")>>), P(<<S(","), S("AArr")>>),
                P(<<S("AElem"), S("AArrMore")>>), P(<<S("..."), S("ATarget"), S("]")>>) >>
@@ "AArrMore" :> << P(<<S("]")>>), P(<<S(","), S("AArr")>>) >>
@@ "AObj" :> << P(<<S("}")>>), P(<<S("AProp"), S("AObjMore")>>), P(<<S("..."), S("ASimple"), S("}")>>) >>
@@ "AObjMore" :> << P(<<S("}")>>), P(<<S(","), S("AObj")>>) >>
@@ "AProp" :> << P(<<S("Bid"), NI("InitOpt")>>), P(<<S("PropName"), S(":"), S("AElem")>>) >>
@@ "AElem" :> << P(<<S("ATarget"), NI("InitOpt")>>) >>
@@ "ATarget" :> << P(<<S("ASimple")>>), P(<<S("APat")>>) >>
@@ "ASimple" :> << P(<<S("Bid"), S("GTailT")>>), P(<<S("this"), S("GTailN")>>),
                   P(<<S("("), NI("Expr"), S(")"), S("GTailN")>>),
                   P(<<S("SuperMember"), S("GTailT")>>), P(<<S("Paren")>>),
                   P(<<S("PrimC"), S("GTailE")>>), P(<<S("new"), S("Callee"), S("Args"), S("GTailE")>>) >>
\* A name or its members in parentheses is a target as well; other targets in
\* parentheses are left open, which keeps the machine small on nested ones.
@@ "Paren" :> << P(<<S("("), S("ParenIn"), S(")")>>) >>
@@ "ParenIn" :> << P(<<S("Bid"), S("Dots")>>), P(<<S("this"), S("."), S("WORD"), S("Dots")>>), P(<<S("Paren")>>) >>
@@ "Dots" :> << Eps, P(<<S("."), S("WORD"), S("Dots")>>) >>
\* What makes a target of anything: a tail that ends in a member.
@@ "GTailE" :> << P(<<S("."), S("WORD"), S("GTailT")>>), P(<<S("["), NI("Expr"), S("]"), S("GTailT")>>),
                  P(<<S("Args"), S("GTailE")>>), P(<<S("Tpl"), S("GTailE")>>) >>

(* Statements *)
RulesStmt ==
  "StmtList" :> << Eps, P(<<S("SItem"), S("StmtList")>>) >>
@@ "SItem" :> << P(<<S("Decl")>>), P(<<S("Stmt")>>) >>
@@ "Block" :> << P(<<S("{"), S("StmtList"), S("}")>>) >>
@@ "SubStmt" :> << P(<<S("Stmt")>>), L(<<S("PSUB"), NI("Expr"), S("SEMI")>>) >>
@@ "VarStmt" :> << P(<<S("var"), NI("LetBind"), S("LetMore"), S("SEMI")>>) >>
@@ "Cond" :> << P(<<S("("), NI("Expr"), S(")")>>) >>
@@ "Stmt" :> <<
     P(<<S("Block")>>),
     P(<<S("VarStmt")>>),
     P(<<S(";")>>),
     P(<<S("NEXPR"), S("NAF"), NI("Expr"), S("SEMI")>>),
     P(<<S("if"), S("Cond"), S("SubStmt"), S("ElseOpt")>>),
     P(<<S("do"), S("SubStmt"), S("while"), S("Cond"), S("DSEMI")>>),
     P(<<S("while"), S("Cond"), S("SubStmt")>>),
     P(<<S("for"), S("("), S("ForHead"), S(")"), S("SubStmt")>>),
     P(<<S("continue"), S("SEMI")>>),
     P(<<S("continue"), S("NOLT"), S("Bid"), S("SEMI")>>),
     P(<<S("break"), S("SEMI")>>),
     P(<<S("break"), S("NOLT"), S("Bid"), S("SEMI")>>),
     PR(<<S("return"), S("SEMI")>>),
     PR(<<S("return"), S("NOLT"), NI("Expr"), S("SEMI")>>),
     P(<<S("with"), S("Cond"), S("SubStmt")>>),
     P(<<S("switch"), S("Cond"), S("{"), S("Cases"), S("}")>>),
     P(<<S("Bid"), S(":"), S("SubStmt")>>),
     P(<<S("throw"), S("NOLT"), NI("Expr"), S("SEMI")>>),
     P(<<S("try"), S("Block"), S("CatchFin")>>),
     P(<<S("debugger"), S("SEMI")>>) >>
@@ "ElseOpt" :> << Eps, P(<<S("else"), S("SubStmt")>>) >>
@@ "Cases" :> << Eps, P(<<S("case"), NI("Expr"), S(":"), S("StmtList"), S("Cases")>>),
                 P(<<S("default"), S(":"), S("StmtList"), S("CasesD")>>) >>
@@ "CasesD" :> << Eps, P(<<S("case"), NI("Expr"), S(":"), S("StmtList"), S("CasesD")>>) >>
@@ "CatchFin" :> << P(<<S("catch"), S("("), S("BTarget"), S(")"), S("Block"), S("FinOpt")>>),
                    P(<<S("finally"), S("Block")>>),
                    L(<<S("catch"), S("Block"), S("FinOpt")>>) >>
@@ "FinOpt" :> << Eps, P(<<S("finally"), S("Block")>>) >>
@@ "ForHead" :> << P(<<S("var"), S("Bid"), S("FVarBid")>>), P(<<S("var"), S("BPat"), S("FVarPat")>>),
                   P(<<S("let"), S("NOF"), S("Bid"), S("FVarBid")>>),
                   L(<<S("let"), S("of"), S("FVarBid")>>),
                   P(<<S("let"), S("BPat"), S("FVarPat")>>),
                   P(<<S("const"), S("Bid"), S("FConst")>>), P(<<S("const"), S("BPat"), S("FConst")>>),
                   P(<<S("ForTail")>>),
                   P(<<S("NLET"), NX("Expr"), S("ForTail")>>),
                   L(<<S("let"), S("NBRK"), NX("AfterBid"), NX("CommaMore"), S("ForTail")>>),
                   P(<<S("NLET"), NX("FTarget"), S("in"), NI("Expr")>>),
                   P(<<S("NASYNC"), S("NLET"), NX("FTarget"), S("of"), NI("Assign")>>),
                   P(<<S("async"), S("NOF"), NX("GTailT"), S("of"), NI("Assign")>>),
                   L(<<S("NLET"), NX("LhsExpr"), S("ForX")>>),
                   L(<<S("let"), S("NBRK"), NX("HTail"), S("ForX")>>) >>
@@ "FVarBid" :> << P(<<S("ForX")>>), P(<<NX("InitOpt"), S("FLetMore"), S("ForTail")>>) >>
@@ "FVarPat" :> << P(<<S("ForX")>>), P(<<NX("Init"), S("FLetMore"), S("ForTail")>>) >>
@@ "FConst" :> << P(<<S("ForX")>>), P(<<NX("Init"), S("FConstMore"), S("ForTail")>>) >>
@@ "FLetMore" :> << Eps, P(<<S(","), NX("LetBind"), S("FLetMore")>>) >>
@@ "FConstMore" :> << Eps, P(<<S(","), NX("ConstBind"), S("FConstMore")>>) >>
@@ "FTarget" :> << P(<<S("ASimple")>>), P(<<S("APat")>>) >>
@@ "ForX" :> << P(<<S("in"), NI("Expr")>>), P(<<S("of"), NI("Assign")>>) >>
@@ "ForTail" :> << P(<<S(";"), NI("ExprOpt"), S(";"), NI("ExprOpt")>>) >>
@@ "ExprOpt" :> << Eps, P(<<S("Expr")>>) >>

(* Expressions.  The tails after a primary are split by whether what has been
   read is a valid assignment target (T) or not (N), and by where it stands:
   at the start of an assignment expression (Tail), as an operand (OTail), as
   a target or left-hand side (GTail, HTail) or as callee of new (MTail).     *)
RulesExpr ==
  "Expr" :> << P(<<S("Assign"), S("CommaMore")>>) >>
@@ "CommaMore" :> << Eps, P(<<S(","), S("Assign"), S("CommaMore")>>) >>
@@ "Assign" :> <<
     PY(<<S("yield"), S("YieldTail")>>),
     P(<<S("Bid"), S("AfterBid")>>),
     P(<<S("async"), S("NOLT"), S("Bid"), S("NOLT"), S("=>"), S("AsyncBody")>>),
     P(<<S("async"), S("NOLT"), S("("), M("Formals","F"), S(")"), S("NOLT"), S("=>"), S("AsyncBody")>>),
     L(<<S("async"), S("NOLT"), S("Args"), S("NOLT"), S("=>"), S("AsyncBody")>>),
     P(<<S("("), M("Formals","W"), S(")"), S("NOLT"), S("=>"), S("ArrowBody")>>),
     L(<<S("("), S("Cover"), S(")"), S("NOLT"), S("=>"), S("ArrowBody")>>),
     P(<<S("APat"), S("="), S("Assign")>>),
     P(<<S("PrimC"), S("TailN")>>),
     P(<<S("Paren"), S("AOP"), S("Assign")>>),
     P(<<S("Paren"), S("NOLT"), S("INC"), S("BinTail"), S("CondTail")>>),
     P(<<S("SuperMember"), S("TailT")>>),
     P(<<S("new"), S("Callee"), S("NewTail")>>),
     P(<<S("UnaryLed"), S("BinTailU"), S("CondTail")>>),
     P(<<S("UpdateLed"), S("BinTail"), S("CondTail")>>) >>
@@ "YieldTail" :> << Eps, P(<<S("NOLT"), S("Assign")>>),
                     P(<<S("NOLT"), S("*"), S("Assign")>>) >>
@@ "ArrowBody" :> << P(<<S("{"), M("StmtList","F"), S("}")>>),
                     P(<<S("NBRACE"), M("Assign","W")>>) >>
@@ "AsyncBody" :> << P(<<S("{"), M("StmtList","A"), S("}")>>),
                     P(<<S("NBRACE"), M("Assign","V")>>) >>
@@ "AfterBid" :> << P(<<S("NOLT"), S("=>"), S("ArrowBody")>>), P(<<S("TailT")>>) >>
@@ "TailT" :> << P(<<S("."), S("WORD"), S("TailT")>>),
                 P(<<S("["), NI("Expr"), S("]"), S("TailT")>>),
                 P(<<S("Args"), S("TailN")>>), P(<<S("Tpl"), S("TailN")>>), P(<<S("AfterT")>>) >>
@@ "TailN" :> << P(<<S("."), S("WORD"), S("TailT")>>),
                 P(<<S("["), NI("Expr"), S("]"), S("TailT")>>),
                 P(<<S("Args"), S("TailN")>>), P(<<S("Tpl"), S("TailN")>>), P(<<S("AfterN")>>) >>
@@ "NewTail" :> << P(<<S("Args"), S("TailN")>>), P(<<S("AfterN")>>) >>
@@ "AfterT" :> << P(<<S("AOP"), S("Assign")>>),
                  P(<<S("NOLT"), S("INC"), S("BinTail"), S("CondTail")>>),
                  P(<<S("BinTail"), S("CondTail")>>) >>
@@ "AfterN" :> << L(<<S("AOP"), S("Assign")>>),
                  L(<<S("NOLT"), S("INC"), S("BinTail"), S("CondTail")>>),
                  P(<<S("BinTail"), S("CondTail")>>) >>
@@ "BinTail" :> << Eps, P(<<S("BOP"), S("BinRhs")>>), P(<<S("**"), S("BinRhs")>>),
                   PI(<<S("in"), S("BinRhs")>>) >>
@@ "BinTailU" :> << Eps, P(<<S("BOP"), S("BinRhs")>>),
                    PI(<<S("in"), S("BinRhs")>>) >>
@@ "BinRhs" :> << P(<<S("UnaryLed"), S("BinTailU")>>), P(<<S("UpdateLed"), S("BinTail")>>),
                  P(<<S("Operand"), S("BinTail")>>) >>
@@ "CondTail" :> << Eps, P(<<S("?"), NI("Assign"), S(":"), S("Assign")>>) >>
@@ "Unary" :> << P(<<S("UnaryLed")>>), P(<<S("UpdateLed")>>), P(<<S("Operand")>>) >>
@@ "UnaryLed" :> << P(<<S("UNOP"), S("Unary")>>), PA(<<S("await"), S("Unary")>>) >>
@@ "UpdateLed" :> << P(<<S("INC"), S("IncTarget"), S("IncAfter")>>), L(<<S("INC"), S("UpdateLed")>>) >>
@@ "IncTarget" :> << P(<<S("Paren")>>), P(<<S("Bid"), S("GTailT")>>), P(<<S("PrimC"), S("GTailN")>>),
                     P(<<S("SuperMember"), S("GTailT")>>), P(<<S("new"), S("Callee"), S("GNewTail")>>) >>
@@ "IncAfter" :> << Eps, L(<<S("NOLT"), S("INC")>>) >>
@@ "Operand" :> << P(<<S("Paren"), S("NOLT"), S("INC")>>), P(<<S("Bid"), S("OTailT")>>), P(<<S("PrimC"), S("OTailN")>>),
                   P(<<S("SuperMember"), S("OTailT")>>), P(<<S("new"), S("Callee"), S("ONewTail")>>) >>
@@ "OTailT" :> << P(<<S("."), S("WORD"), S("OTailT")>>),
                  P(<<S("["), NI("Expr"), S("]"), S("OTailT")>>),
                  P(<<S("Args"), S("OTailN")>>), P(<<S("Tpl"), S("OTailN")>>),
                  P(<<S("NOLT"), S("INC")>>), Eps >>
@@ "OTailN" :> << P(<<S("."), S("WORD"), S("OTailT")>>),
                  P(<<S("["), NI("Expr"), S("]"), S("OTailT")>>),
                  P(<<S("Args"), S("OTailN")>>), P(<<S("Tpl"), S("OTailN")>>),
                  L(<<S("NOLT"), S("INC")>>), Eps >>
@@ "ONewTail" :> << P(<<S("Args"), S("OTailN")>>), L(<<S("NOLT"), S("INC")>>), Eps >>
@@ "GTailT" :> << P(<<S("."), S("WORD"), S("GTailT")>>),
                  P(<<S("["), NI("Expr"), S("]"), S("GTailT")>>),
                  P(<<S("Args"), S("GTailN")>>), P(<<S("Tpl"), S("GTailN")>>), Eps >>
@@ "GTailN" :> << P(<<S("."), S("WORD"), S("GTailT")>>),
                  P(<<S("["), NI("Expr"), S("]"), S("GTailT")>>),
                  P(<<S("Args"), S("GTailN")>>), P(<<S("Tpl"), S("GTailN")>>), L(<<>>) >>
@@ "GNewTail" :> << P(<<S("Args"), S("GTailN")>>), L(<<>>) >>
@@ "LhsExpr" :> << P(<<S("Bid"), S("HTail")>>), P(<<S("PrimC"), S("HTail")>>),
                   P(<<S("SuperMember"), S("HTail")>>), P(<<S("new"), S("Callee"), S("HNewTail")>>) >>
@@ "HTail" :> << P(<<S("."), S("WORD"), S("HTail")>>), P(<<S("["), NI("Expr"), S("]"), S("HTail")>>),
                 P(<<S("Args"), S("HTail")>>), P(<<S("Tpl"), S("HTail")>>), Eps >>
@@ "HNewTail" :> << P(<<S("Args"), S("HTail")>>), Eps >>
@@ "Callee" :> << P(<<S("Bid"), S("MTail")>>), P(<<S("PrimN"), S("MTail")>>),
                  P(<<S("SuperMember"), S("MTail")>>),
                  P(<<S("new"), S("Callee"), S("CalleeArgs")>>) >>
@@ "CalleeArgs" :> << P(<<S("NPAREN")>>), P(<<S("Args"), S("MTail")>>) >>
@@ "MTail" :> << P(<<S("."), S("WORD"), S("MTail")>>), P(<<S("["), NI("Expr"), S("]"), S("MTail")>>),
                 P(<<S("Tpl"), S("MTail")>>), Eps >>
@@ "SuperMember" :> << P(<<S("super"), S("."), S("WORD")>>), P(<<S("super"), S("["), NI("Expr"), S("]")>>) >>
@@ "PrimC" :> << P(<<S("PrimN")>>), P(<<S("super"), S("Args")>>) >>
@@ "PrimN" :> << P(<<S("LIT")>>), P(<<S("Tpl")>>),
                 P(<<S("["), S("Arr")>>), P(<<S("{"), S("Obj")>>),
                 P(<<S("("), NI("Expr"), S(")")>>),
                 P(<<S("new"), S("."), S("target")>>),
                 P(<<S("FnExpr")>>),
                 P(<<S("class"), S("BidOpt"), S("ClassTail")>>) >>
@@ "Cover" :> << P(<<NI("Expr")>>), P(<<NI("Expr"), S(","), S("CoverRest")>>), P(<<S("..."), S("BTarget")>>) >>
@@ "CoverRest" :> << Eps, P(<<S("..."), S("BTarget")>>) >>
@@ "FnExpr" :> << P(<<S("function"), S("BidOpt"), S("FnRest")>>),
                  P(<<S("function"), S("*"), S("BidOpt"), S("GenRest")>>),
                  P(<<S("async"), S("NOLT"), S("function"), S("BidOpt"), S("AsyncRest")>>),
                  L(<<S("async"), S("NOLT"), S("function"), S("*"), S("BidOpt"), S("AGenRest")>>) >>
@@ "Tpl" :> << P(<<S("tplN")>>), P(<<S("tplH"), NI("Expr"), S("TplMore")>>) >>
@@ "TplMore" :> << P(<<S("tplT")>>), P(<<S("tplM"), NI("Expr"), S("TplMore")>>) >>
@@ "Args" :> << P(<<S("("), NI("ArgList"), S(")")>>) >>
@@ "ArgList" :> << Eps, P(<<S("Arg"), S("ArgMore")>>) >>
@@ "ArgMore" :> << Eps, P(<<S(","), S("ArgList")>>) >>
@@ "Arg" :> << P(<<S("Assign")>>), P(<<S("..."), S("Assign")>>) >>
@@ "Arr" :> << P(<<S("]")>>), P(<<S(","), S("Arr")>>), P(<<NI("Arg"), S("ArrMore")>>) >>
@@ "ArrMore" :> << P(<<S("]")>>), P(<<S(","), S("Arr")>>) >>
@@ "Obj" :> << P(<<S("}")>>), P(<<S("Prop"), S("ObjMore")>>) >>
@@ "ObjMore" :> << P(<<S("}")>>), P(<<S(","), S("Obj")>>) >>
@@ "Prop" :> << P(<<S("Bid")>>), P(<<S("PropName"), S(":"), NI("Assign")>>), P(<<S("Method")>>),
                P(<<S("..."), NI("Assign")>>), L(<<S("Bid"), S("="), NI("Assign")>>) >>

Rules == RulesNames @@ RulesModule @@ RulesDecl @@ RulesPattern @@ RulesStmt @@ RulesExpr
NTs == DOMAIN Rules
Start == << <<"Items", Ctx0>>, <<"eof", Ctx0>> >>

\* Every symbol used in a production is defined.
WellFormed ==
  \A n \in NTs : \A k \in 1..Len(Rules[n]) : \A j \in 1..Len(Rules[n][k].b) :
     LET s == Rules[n][k].b[j] IN
       /\ s[1] \in NTs \cup Tokens \cup DOMAIN TermSets \cup Specials
       /\ s[2] \in {"=","I","X","F","G","A","B","W","V"}
=============================================================================
