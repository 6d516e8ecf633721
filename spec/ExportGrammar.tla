--------------------------- MODULE ExportGrammar ---------------------------
(* Writes the grammar, with the facts JsParse derives from it, as the table  *)
(* that the conformance harness interprets.                                  *)
EXTENDS JsParse, Json, IOUtils, SequencesExt

ProdSeq(n) ==
  [ k \in 1..Len(Rules[n]) |->
     LET q == Rules[n][k] IN
     [ b |-> [ j \in 1..Len(q.b) |-> q.b[j][1] ],
       m |-> [ j \in 1..Len(q.b) |-> q.b[j][2] ],
       l |-> q.l, g |-> q.g,
       first |-> SetToSeq(BodyFirst(q.b, First)),
       null  |-> \A j \in 1..Len(q.b) : NullSym(q.b[j][1]),
       semi  |-> BodySemi(q.b, CanSemi) ] ]

Table ==
  [ tokens |-> SetToSeq(Tokens),
    termsets |-> [ n \in DOMAIN TermSets |-> SetToSeq(TermSets[n]) ],
    notsets |-> [ n \in DOMAIN NotSets |-> SetToSeq(NotSets[n]) ],
    possets |-> [ n \in DOMAIN PosSets |-> SetToSeq(PosSets[n]) ],
    rules |-> [ n \in NTs |-> ProdSeq(n) ],
    min |-> [ n \in NTs |-> Min[n][1] ] ]

ASSUME WellFormed
ASSUME \A n \in NTs : Min[n][2]
ASSUME JsonSerialize(IOEnv.OUT, Table)
=============================================================================
