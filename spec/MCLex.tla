------------------------------- MODULE MCLex --------------------------------
(* Every text over Alphabet up to MaxLen characters, read one character at a *)
(* time, with every choice of hint where a token starts that may look at it. *)
(* Checked: what LexProps says of each token.  Each complete text is written *)
(* to the output, to be replayed in the tokenizer.                           *)
EXTENDS LexProps, Json, IOUtils

CONSTANTS Alphabet, MaxLen, Dump
VARIABLES text, hs, x       \* hs[i]: the hint in force at character i
vars == <<text, hs, x>>

\* Hints are only looked at by a token that starts with `/' or `}'.
HintsAt(c) == CASE c = 47  -> {Hint(FALSE, FALSE), Hint(TRUE, FALSE)}
                [] c = 125 -> {Hint(FALSE, FALSE), Hint(FALSE, TRUE)}
                [] OTHER   -> {Hint(FALSE, FALSE)}
Init == text = <<>> /\ hs = <<>> /\ x = Lex0
Read(c) == /\ x.st = "run" /\ Len(text) < MaxLen
           /\ \E h \in HintsAt(c) :
                LET y == Step(x, c, h) IN
                \* a hint other than the default only where a token starts with this character
                /\ h /= Hint(FALSE, FALSE) => y.s >= Len(text)
                /\ text' = Append(text, c) /\ hs' = Append(hs, h) /\ x' = y
Finish == /\ x.st = "run"
          /\ x' = Step(x, EndOfText, Hint(FALSE, FALSE))
          /\ UNCHANGED <<text, hs>>
Next == (\E c \in Alphabet : Read(c)) \/ Finish
Spec == Init /\ [][Next]_vars

Final == x.st /= "run"
HintOf(s) == IF s + 1 <= Len(hs) THEN hs[s + 1] ELSE Hint(FALSE, FALSE)
TokHints == [ i \in 1..Len(x.toks) |-> HintOf(x.toks[i].s) ]
ReqHints == Append(TokHints, HintOf(x.s))

TypeOK == x.st \in {"run","err","open","done"} /\ x.n <= Len(text) /\ Len(hs) = Len(text)
L01_Tiles == Final => Tiles(text, x.toks, x.st = "done")
L02_Positions == Final => PositionsRight(text, x.toks)
Every(K) == Final => \A i \in 1..Len(x.toks) : x.toks[i].k \in K => TokenRight(text, x.toks[i], TokHints[i])
TplKinds == {"tplN", "tplH", "tplM", "tplT"}
L03_PunctWord == Every((Punctuators \ {"}"}) \cup {"}", "word"})
L04_Numbers == Every({"num"})
L05_Strings == Every({"str"})
L06_Templates == Every(TplKinds \cup {"}"})
L07_Comments == Every({"lcom", "bcom", "lt"})
L08_Slash == Every({"re", "/", "/="})
\* A token depends on nothing but the text after the one before, and the hint.
\* (Position and offset are those of its place; here only kind and extent.)
RECURSIVE FreshFrom(_,_)
FreshFrom(i, from) ==
  IF i > Len(x.toks) THEN TRUE
  ELSE LET rest == SubSeq(text, from + 1, Len(text))
           y == Request(rest, Lex0, TokHints[i])
           t == x.toks[i]
       IN /\ Len(y.toks) = 1
          /\ y.toks[1].k = t.k /\ y.toks[1].s + from = t.s /\ y.toks[1].e + from = t.e
          /\ (t.k = "eof" \/ text[t.s + 1] \notin {47, 125}) =>
                \A h \in Hints : LET z == Request(rest, Lex0, h) IN z.toks = y.toks
          /\ FreshFrom(i + 1, t.e)
L09_Memoryless == Final => FreshFrom(1, 0)
L09_Requests == Final => LET r == LexAll(text, ReqHints) IN r.toks = x.toks /\ r.st = x.st
L10_Refused == Final /\ x.st \in {"err", "done"} =>
   /\ x.st = "err" => Malformed(text, x.s, HintOf(x.s))
   /\ \A i \in 1..Len(x.toks) : x.toks[i].k /= "eof" => ~Malformed(text, x.toks[i].s, TokHints[i])

Out == [text |-> text, hs |-> [ i \in 1..Len(ReqHints) |-> <<ReqHints[i].expr, ReqHints[i].tpl>> ],
        toks |-> [ i \in 1..Len(x.toks) |->
                     LET t == x.toks[i] IN <<t.k, t.s, t.e, t.sp.off, t.sp.line, t.sp.col, t.ep.off, t.ep.line, t.ep.col,
                                            Payload(text, t)[1], Payload(text, t)[2], IF t.k = "num" THEN IntVal(text, t) ELSE -1>> ],
        st |-> x.st]
\* No character after a refusal or an open answer changes anything, so those texts end there.
Written == (Dump /\ Final) => PrintT("T@" \o ToJson(Out))
=============================================================================
