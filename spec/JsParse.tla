------------------------------ MODULE JsParse ------------------------------
(* The parsing machine: a pushdown machine for JsGrammar, determinised on    *)
(* the fly.  A configuration set is the set of <<stack, loose>> pairs that   *)
(* are still possible; Feed gives the set after one token event              *)
(* [c: token class, nl: was there a line terminator before it].              *)
EXTENDS JsGrammar

Conc(n) == IF n \in DOMAIN TermSets THEN TermSets[n] ELSE {n}

--------------------------------------------------------------------------
(* Nullable, First and CanSemi, as least fixed points over the grammar.      *)
AllProds == { <<n, k>> : n \in NTs, k \in 1..40 }
ProdOf(n) == { Rules[n][k] : k \in 1..Len(Rules[n]) }

RECURSIVE FixNullable(_)
FixNullable(X) ==
  LET Y == { n \in NTs : \E q \in ProdOf(n) :
               \A j \in 1..Len(q.b) : q.b[j][1] \in X \cup (Specials \ {"SEMI"}) }
  IN IF Y = X THEN X ELSE FixNullable(Y)
Nullable == FixNullable({})
NullSym(n) == n \in Nullable \/ (n \in Specials /\ n /= "SEMI")

BodyFirst(b, F) ==
  UNION { IF \A i \in 1..(j-1) : NullSym(b[i][1])
          THEN IF b[j][1] \in NTs THEN F[b[j][1]]
               ELSE IF b[j][1] \in {"SEMI","DSEMI"} THEN {";"}
               ELSE IF b[j][1] \in Specials THEN {}
               ELSE Conc(b[j][1])
          ELSE {} : j \in 1..Len(b) }
RECURSIVE FixFirst(_)
FixFirst(F) ==
  LET G == [ n \in NTs |-> UNION { BodyFirst(q.b, F) : q \in ProdOf(n) } ]
  IN IF G = F THEN F ELSE FixFirst(G)
First == FixFirst([ n \in NTs |-> {} ])

\* Names from which SEMI can be reached without consuming a token.
BodySemi(b, X) ==
  \E j \in 1..Len(b) : /\ b[j][1] = "SEMI" \/ b[j][1] \in X
                       /\ \A i \in 1..(j-1) : NullSym(b[i][1])
RECURSIVE FixSemi(_)
FixSemi(X) ==
  LET Y == { n \in NTs : \E q \in ProdOf(n) : BodySemi(q.b, X) }
  IN IF Y = X THEN X ELSE FixSemi(Y)
CanSemi == FixSemi({})

\* The productions with these facts attached.
Prods ==
  [ n \in NTs |->
     { [ b |-> q.b, l |-> q.l, g |-> q.g,
         first |-> BodyFirst(q.b, First),
         null  |-> \A j \in 1..Len(q.b) : NullSym(q.b[j][1]),
         semi  |-> BodySemi(q.b, CanSemi) ] : q \in ProdOf(n) } ]

Inst(b, c) == [ j \in 1..Len(b) |-> <<b[j][1], ApplyMod(c, b[j][2])>> ]

--------------------------------------------------------------------------
(* Derive(stk, t, l): the stacks left after consuming t.                     *)
RECURSIVE Derive(_,_,_)
Derive(stk, t, l) ==
  IF stk = <<>> THEN {} ELSE
  LET n == Head(stk)[1]  c == Head(stk)[2]  rest == Tail(stk) IN
  IF n \in NTs
  THEN UNION { Derive(Inst(q.b, c) \o rest, t, l \/ q.l) :
                 q \in { q \in Prods[n] : (t.c \in q.first \/ q.null) /\ Guard(q.g, c) } }
  ELSE IF n \in Specials
  THEN CASE n = "NOLT"   -> IF t.nl THEN {} ELSE Derive(rest, t, l)
         [] n = "SEMI"   -> IF t.c = ";" THEN {<<rest, l>>} ELSE {}
         [] n = "DSEMI"  -> IF t.c = ";" THEN {<<rest, l>>} ELSE Derive(rest, t, l)
         [] n = "NAF"    -> IF t.c = "async"
                            THEN { << << <<"NFN", c>> >> \o x[1], x[2] >> : x \in Derive(rest, t, l) }
                            ELSE Derive(rest, t, l)
         [] n = "NFN"    -> IF t.c = "function" /\ ~t.nl THEN {} ELSE Derive(rest, t, l)
         [] n \in DOMAIN NotSets -> IF t.c \in NotSets[n] THEN {} ELSE Derive(rest, t, l)
         [] n \in DOMAIN PosSets -> IF t.c \notin PosSets[n] THEN {} ELSE Derive(rest, t, l)
  ELSE IF t.c \in Conc(n) THEN {<<rest, l>>} ELSE {}

(* Insert(stk, t, l): the stacks left after inserting a semicolon before t.  *)
RECURSIVE Insert(_,_,_)
Insert(stk, t, l) ==
  IF stk = <<>> THEN {} ELSE
  LET n == Head(stk)[1]  c == Head(stk)[2]  rest == Tail(stk) IN
  IF n \in NTs
  THEN UNION { Insert(Inst(q.b, c) \o rest, t, l \/ q.l) :
                 q \in { q \in Prods[n] : (q.semi \/ q.null) /\ Guard(q.g, c) } }
  ELSE IF n = "SEMI" THEN {<<rest, l>>}
  ELSE IF n = "NFN" THEN IF t.c = "function" /\ ~t.nl THEN {} ELSE Insert(rest, t, l)
  ELSE IF n \in {"NOLT", "DSEMI"} \cup DOMAIN NotSets THEN Insert(rest, t, l)
  ELSE {}

Prune(X) == { x \in X : ~x[2] \/ <<x[1], FALSE>> \notin X }
DeriveAll(X, t) == UNION { Derive(x[1], t, x[2]) : x \in X }
InsertAll(X, t) == UNION { Insert(x[1], t, x[2]) : x \in X }
Strict(X) == { x \in X : ~x[2] }
Loose(X)  == { x \in X : x[2] }

(* The standard inserts a semicolon before an offending token: one that no   *)
(* (strict) configuration allows, if a line terminator is before it, or it   *)
(* is `}', or it is the end of input.                                        *)
MayInsert(t) == t.nl \/ t.c \in {"}", "eof"}
Feed(X, t) ==
  LET direct == DeriveAll(X, t)
      viaS == IF MayInsert(t) /\ Strict(direct) = {}
              THEN DeriveAll(InsertAll(Strict(X), t), t) ELSE {}
      viaL == IF MayInsert(t) THEN DeriveAll(InsertAll(Loose(X), t), t) ELSE {}
  IN Prune(direct \cup viaS \cup viaL)

InitSet == { <<Start, FALSE>> }
RECURSIVE Run(_,_)
Run(X, w) == IF w = <<>> THEN X ELSE Run(TLCEval(Feed(X, Head(w))), Tail(w))

(* live: some way on is a program; loose: only ways left open; dead: none.   *)
Status(X) == IF X = {} THEN "dead" ELSE IF Strict(X) = {} THEN "loose" ELSE "live"
(* After the end of input has been fed.                                      *)
Verdict(X) == IF <<<<>>, FALSE>> \in X THEN "accept"
              ELSE IF X = {} THEN "reject" ELSE "open"

--------------------------------------------------------------------------
(* The lexical goal at the next token.                                       *)
DivViable(X) == \E c \in {"/", "/="} : DeriveAll(X, [c |-> c, nl |-> FALSE]) /= {}
ReViable(X, nl) == Feed(X, [c |-> "re", nl |-> nl]) /= {}
TplViable(X) == \E c \in {"tplM", "tplT"} : DeriveAll(X, [c |-> c, nl |-> FALSE]) /= {}
\* What a slash at this place starts.
Slash(X) == IF DivViable(X) THEN "div" ELSE "re"
Brace(X) == IF TplViable(X) THEN "template" ELSE "brace"
\* One of the ways left open would have a slash (or brace) read in another way than the rest.
GoalOpen(X, slash) ==
  LET Viable(Y) == IF slash THEN DivViable(Y) ELSE TplViable(Y)
      other == [c |-> IF slash THEN "re" ELSE "}", nl |-> TRUE]
      want == Viable(IF Strict(X) = {} THEN X ELSE Strict(X))
  IN \E k \in Loose(X) : Viable({k}) /= want /\ (want => Feed({k}, other) /= {})
\* Token events that a text can produce here.
Possible(X, t) == /\ t.c \in {"/", "/="} => Slash(X) = "div"
                  /\ t.c = "re" => Slash(X) = "re"
                  /\ t.c \in {"tplM", "tplT"} => TplViable(X)
                  /\ t.c = "}" => ~TplViable(X)

--------------------------------------------------------------------------
(* A shortest sentence of each symbol, without loose or guarded productions. *)
SymMin(n, m) ==
  IF n \in NTs THEN m[n]
  ELSE IF n \in {"SEMI","DSEMI"} THEN << <<";">>, TRUE >>
  ELSE IF n \in Specials THEN << <<>>, TRUE >>
  ELSE << << IF n = "BID" \/ n = "WORD" THEN "id" ELSE IF n = "LIT" THEN "num"
             ELSE IF n = "AOP" THEN "=" ELSE IF n = "BOP" THEN "+" ELSE IF n = "UNOP" THEN "!"
             ELSE IF n = "INC" THEN "++" ELSE n >>, TRUE >>
RECURSIVE BodyMin(_,_)
BodyMin(b, m) ==
  IF b = <<>> THEN << <<>>, TRUE >>
  ELSE LET x == SymMin(Head(b)[1], m)  y == BodyMin(Tail(b), m)
       IN << x[1] \o y[1], x[2] /\ y[2] >>
RECURSIVE FixMin(_)
FixMin(m) ==
  LET Cands(n) == { BodyMin(q.b, m)[1] : q \in { q \in ProdOf(n) : ~q.l /\ q.g \in {"-"} /\ q.b /= << <<"NPAREN", "=">> >> /\ BodyMin(q.b, m)[2] } }
      Best(C) == CHOOSE x \in C : \A y \in C : Len(x) <= Len(y)
      m2 == [ n \in NTs |-> IF m[n][2] /\ (\A y \in Cands(n) : Len(y) >= Len(m[n][1])) THEN m[n]
                            ELSE IF Cands(n) = {} THEN m[n] ELSE << Best(Cands(n)), TRUE >> ]
  IN IF m2 = m THEN m ELSE FixMin(m2)
Min == FixMin([ n \in NTs |-> << <<>>, FALSE >> ])

RECURSIVE CompleteStack(_)
CompleteStack(stk) ==
  IF stk = <<>> THEN <<>> ELSE SymMin(Head(stk)[1], Min)[1] \o CompleteStack(Tail(stk))
\* A way to complete a live set: the shortest completion of its strict stacks.
Complete(X) ==
  LET C == { CompleteStack(x[1]) : x \in Strict(X) }
  IN CHOOSE w \in C : \A v \in C : Len(w) <= Len(v)
Ev(w) == [ j \in 1..Len(w) |-> [c |-> w[j], nl |-> FALSE] ]
=============================================================================
