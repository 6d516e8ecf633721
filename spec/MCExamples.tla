----------------------------- MODULE MCExamples -----------------------------
(* The examples of a property (IOEnv.FOR, or "all"), read by JsProgram.  Each *)
(* is one state; the verdict must be the one meant.  Written out like the     *)
(* texts of MCProgram, to be replayed in the parser.                          *)
EXTENDS JsProgram, JsExamples, Json, IOUtils

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ c \in { SubSeq(Printable, i, i) : i \in 1..95 } |-> 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c ]
       @@ ("\n" :> 10) @@ ("\t" :> 9) @@ ("\r" :> 13)
Codes(s) == [ i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)] ]

VARIABLES what, whose, which, meant
vars == <<what, whose, which, meant>>
Whose == IF IOEnv.FOR = "all" THEN DOMAIN Yes ELSE {IOEnv.FOR}
Group(m) == CASE m = "accept" -> Yes [] m = "reject" -> No [] m = "open" -> Open
Init == /\ meant \in {"accept", "reject", "open"} /\ whose \in Whose
        /\ \E i \in 1..Len(Group(meant)[whose]) :
             which = i /\ what = Ended(ReadAll(Prog0, Codes(Group(meant)[whose][i])))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Text == Group(meant)[whose][which]

RECURSIVE Nums(_)
Nums(w) == IF w = <<>> THEN "" ELSE (IF Len(w) = 1 THEN "" ELSE Nums(SubSeq(w, 1, Len(w) - 1)) \o " ") \o ToString(w[Len(w)])
RECURSIVE Toks(_)
Toks(g) == IF g = <<>> THEN "" ELSE (IF Len(g) = 1 THEN "" ELSE Toks(SubSeq(g, 1, Len(g) - 1)) \o " ")
             \o g[Len(g)][1] \o ":" \o ToString(g[Len(g)][2]) \o "-" \o ToString(g[Len(g)][3])
\* The verdict is the one meant.
AsMeant == Outcome(what) = meant \/ ~PrintT("WRONG@" \o whose \o " " \o Text \o "@" \o Outcome(what))
Written == PrintT("P@" \o Nums(Codes(Text)) \o "@" \o Outcome(what) \o "@" \o Toks(what.got))
=============================================================================
