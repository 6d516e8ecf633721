----------------------------- MODULE ExportLex -----------------------------
(* Writes the transition table of JsLex for the conformance harness, after   *)
(* checking that it is total and closed.                                     *)
EXTENDS JsLex, Json, IOUtils, SequencesExt

Reps == (0..127) \cup {160, 233, 215, 8232, 8233, 8594, 8239, 65279, 128512, 65, 5760, 12288, 8200}
\* The classes and how every character maps to them.
ASSUME \A c \in Reps \cup {EndOfText} : Class(c) \in Classes
ASSUME Classes = { Class(c) : c \in Reps \cup {EndOfText} }
\* Delta is total and stays within Modes; it never waits for more at the end.
ASSUME \A m \in Modes, k \in Classes, h \in Hints :
         LET d == Delta(m, k, h) IN
           /\ d.op = "go" => d.to \in Modes
           /\ k = "end" => d.op \in {"tok", "back", "eof", "err", "open"}
           /\ d.op \in {"tok", "may"} => m /= "S"
\* Only the start on a slash or a brace looks at the hint.
ASSUME \A m \in Modes, k \in Classes, h, g \in Hints :
         Delta(m, k, h) /= Delta(m, k, g) =>
            m = "S" /\ ((k = "/" /\ h.expr /= g.expr) \/ (k = "}" /\ h.tpl /= g.tpl))
\* Every mode can be reached.
RECURSIVE Reach(_)
Reach(X) == LET Y == X \cup ({ Delta(m, k, h).to : m \in X, k \in Classes, h \in Hints } \cap Modes)
            IN IF Y = X THEN X ELSE Reach(Y)
ASSUME Reach({"S"}) = Modes

Row(m, k, h) == LET d == Delta(m, k, h)
                IN [m |-> m, k |-> k, e |-> h.expr, t |-> h.tpl, op |-> d.op, to |-> d.to, kind |-> d.kind]
Rows == { Row(m, k, Hint(FALSE, FALSE)) : m \in Modes, k \in Classes }
        \cup { Row("S", k, h) : k \in Classes, h \in Hints }
ASSUME JsonSerialize(IOEnv.OUT,
   [rows |-> SetToSeq(Rows), modes |-> SetToSeq(Modes), classes |-> SetToSeq(Classes),
    ascii |-> [c \in 1..128 |-> Class(c - 1)],
    other |-> SetToSeq({ <<c, Class(c)>> : c \in (128..255) \cup (8192..8303) \cup {5760, 12288, 65279} \cup NeverStart })])
=============================================================================
