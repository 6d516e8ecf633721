----------------------------- MODULE JsHistory -----------------------------
(* Facts about a sequence of token events, said without the grammar machine: *)
(* open brackets, the enclosing function, whether a for header's first       *)
(* clause is open.  h is a sequence of [c, nl].                              *)
EXTENDS JsParse

Openers == {"(", "[", "{", "tplH"}
Closes(c) == CASE c = ")" -> {"("} [] c = "]" -> {"["} [] c = "}" -> {"{"}
               [] c \in {"tplM", "tplT"} -> {"tplH", "tplM"} [] OTHER -> {}
\* The places of the brackets that are open, innermost last; <<0>> when they do not match.
Bad == <<0>>
PushBr(br, h, i) ==
  LET c == h[i].c IN
  IF br = Bad THEN Bad
  ELSE IF c \in Openers THEN Append(br, i)
  ELSE IF Closes(c) = {} THEN br
  ELSE IF br = <<>> \/ h[br[Len(br)]].c \notin Closes(c) THEN Bad
  ELSE IF c = "tplM" THEN Append(SubSeq(br, 1, Len(br) - 1), i)
  ELSE SubSeq(br, 1, Len(br) - 1)
RECURSIVE BracketsTo(_,_)
BracketsTo(h, n) == IF n = 0 THEN <<>> ELSE PushBr(TLCEval(BracketsTo(h, n - 1)), h, n)
Brackets(h) == TLCEval(BracketsTo(h, Len(h)))
Tok(h, i) == IF i \in 1..Len(h) THEN h[i].c ELSE ""
Innermost(h, br) == IF br = <<>> \/ br = Bad THEN "" ELSE h[br[Len(br)]].c

\* After these, `of' is not an operand.
OperandLast == {"id", "num", "str", ")", "]", "}", "of", "this", "tplN", "tplT"}
\* In the first clause of a for header, at its outermost bracket level and not between ? and :.
ForInit(h, br) ==
  /\ br /= <<>> /\ br /= Bad
  /\ LET j == br[Len(br)] IN
       /\ h[j].c = "(" /\ Tok(h, j - 1) = "for" /\ Tok(h, j - 2) /= "."
       /\ LET At(cs) == { i \in (j + 1)..Len(h) : h[i].c \in cs /\ BracketsTo(h, i) = br }
          IN At({";", "in"}) = {} /\ (\A i \in At({"of"}) : Tok(h, i - 1) \notin OperandLast) /\ Cardinality(At({"?"})) = Cardinality(At({":"}))

\* The opening bracket that the closing one at place i closes.
Opener(h, i) == LET b == BracketsTo(h, i - 1) IN IF b = <<>> \/ b = Bad THEN 0 ELSE b[Len(b)]
\* What kind of function the `{' or `(' at place j belongs to: gen, async, fn or none.
HeadKind(h, p) ==     \* p: place of the `(' of the parameters
  CASE Tok(h, p - 1) = "function" -> IF Tok(h, p - 2) = "async" /\ ~h[p - 1].nl THEN "async" ELSE "fn"
    [] Tok(h, p - 1) = "*" -> IF Tok(h, p - 2) = "function" THEN "gen" ELSE "none"
    [] Tok(h, p - 2) = "function" -> IF Tok(h, p - 3) = "async" /\ ~h[p - 2].nl THEN "async" ELSE "fn"
    [] Tok(h, p - 2) = "*" -> "gen"
    [] Tok(h, p - 1) \in {"if", "while", "for", "with", "switch", "catch"} -> "none"
    [] Tok(h, p - 2) = "async" -> "async"
    [] OTHER -> "fn"        \* a method or an accessor
BraceKind(h, j) ==
  IF Tok(h, j - 1) = ")" THEN HeadKind(h, Opener(h, j - 1))
  ELSE IF Tok(h, j - 1) = "=>"
  THEN IF Tok(h, j - 3) = "async" THEN "async" ELSE "fn"
  ELSE "none"
\* Is the brace at place k the body of a class or an object literal (with what is before it)?
ClassBrace(h, k) == Tok(h, k) = "{" /\ \E i \in 1..(k - 1) : h[i].c = "class" /\ BracketsTo(h, i) = BracketsTo(h, k - 1)
                                          /\ \A m \in (i + 1)..(k - 1) : (h[m].c \notin {"{", ";"} \/ BracketsTo(h, m - 1) /= BracketsTo(h, k - 1))
ObjBrace(h, k) == Tok(h, k) = "{" /\ Tok(h, k - 1) \in {"=", "(", ",", "[", "?"}
\* Is the parenthesis at place j that of a parameter list?
ParamsParen(h, j, br) ==
  /\ Tok(h, j) = "("
  /\ \/ Tok(h, j - 1) = "function" \/ (Tok(h, j - 2) = "function" /\ Tok(h, j - 3) /= ".")
     \/ (Tok(h, j - 1) = "*" /\ Tok(h, j - 2) = "function")
     \/ (Tok(h, j - 2) = "*" /\ Tok(h, j - 3) = "function")
     \/ /\ Len(br) > 1 /\ LET k == br[Len(br) - 1] IN
           \/ ClassBrace(h, k)
           \/ (ObjBrace(h, k) /\ Tok(h, j - 2) \in {"{", ",", "get", "set", "async", "*"})
\* The innermost function that we are in: its kind, or top if there is none.  Parameters are read
\* as those of a plain function, whatever the function.
RECURSIVE KindFrom(_,_)
KindFrom(h, br) ==
  IF br = <<>> \/ br = Bad THEN "top"
  ELSE LET j == br[Len(br)]
           k == IF h[j].c = "{" THEN BraceKind(h, j) ELSE IF ParamsParen(h, j, br) THEN "fn" ELSE "none"
       IN IF k /= "none" THEN k ELSE KindFrom(h, SubSeq(br, 1, Len(br) - 1))
FnKind(h, br) == KindFrom(h, br)
=============================================================================
