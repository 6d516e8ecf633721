------------------------------ MODULE MCProgram -----------------------------
(* Every text made of up to Depth pieces from Alphabet (each a sequence of   *)
(* code points) after each prefix, with the verdict of JsProgram.            *)
EXTENDS JsProgram, Json, IOUtils

RangeOf(s) == { s[i] : i \in 1..Len(s) }
Bounds == JsonDeserialize(IOEnv.BOUNDS)
Alphabet == RangeOf(Bounds.pieces)
Prefixes == RangeOf(Bounds.prefixes)
Depth == Bounds.depth
Dump == Bounds.dump
VARIABLES prog, steps
vars == <<prog, steps>>

Init == \E p \in Prefixes : prog = ReadAll(Prog0, p) /\ steps = 0
Next == \E w \in Alphabet :
  /\ prog.st = "run" /\ steps < Depth
  /\ prog' = ReadAll(prog, w) /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
\* Texts with the same way on are explored once for each of their last two characters.
Last(n) == IF Len(prog.text) >= n THEN prog.text[Len(prog.text) - n + 1] ELSE 0
Pending == IF prog.lx.m = "W" THEN SubSeq(prog.text, prog.lx.s + 1, prog.lx.n) ELSE <<prog.lx.s = prog.lx.n>>
PendingBreak == Breaking(prog.text, prog.lx.s, prog.lx.n)
View == <<prog.lx.m, Pending, PendingBreak, prog.x.cfgs, prog.x.nl, prog.soft, prog.st, Last(1), Last(2)>>

Whole == Ended(prog)
Ver == Outcome(Whole)
Plain == \A j \in 1..Len(prog.text) : prog.text[j] \notin {34, 39, 47, 92, 96}
Count(c) == Cardinality({ j \in 1..Len(prog.text) : prog.text[j] = c })
(* ------------------------------ invariants -------------------------------- *)
PrefixOK == steps = 0 => prog.st = "run"
\* P01, P02: the goal in force was the one JsPull wants, at every token.
GoalsRight == Whole.right
\* L01: the tokens given to the parser are in order and do not overlap; white space aside they are the text.
InOrder == \A k \in 1..Len(Whole.got) : Whole.got[k][2] <= Whole.got[k][3] /\ (k > 1 => Whole.got[k - 1][3] <= Whole.got[k][2])
\* P15: in a text without quotes, slashes and escapes, acceptance needs as many closing as opening brackets.
TextBalanced == Ver = "accept" /\ Plain =>
  Count(40) = Count(41) /\ Count(91) = Count(93) /\ Count(123) = Count(125)
\* P13: a space where a token has just ended, or before the text goes on, changes nothing.
Spaced == Go([prog EXCEPT !.text = Append(@, 32)], 32)
SpaceIdle == prog.st = "run" /\ prog.lx.m = "S" => Spaced.x = prog.x /\ Spaced.lx.m = "S" /\ Spaced.st = "run"
\* and one at the very end never changes the verdict, unless a lexeme is unfinished.
EndSpace == prog.st = "run" /\ prog.lx.m = "S" => Outcome(Ended(Spaced)) = Ver
\* P03, P13: a line comment at the end changes nothing; nor does a block comment between tokens,
\* unless it is read as part of a regular expression or division by being put after a slash.
CommentIdle == prog.st = "run" /\ prog.lx.m = "S" /\ ~prog.soft =>
  LET C == ReadAll(prog, <<47, 42, 97, 42, 47>>) IN C.st = "run" => C.x.cfgs = prog.x.cfgs /\ C.x.nl = prog.x.nl
\* L10: what was refused is never accepted, and there is a reason to refuse it.
RefusedRight == Whole.st = "refused" => Ver = "reject" /\ Lx!Malformed(Whole.text, Whole.lx.s, GoalAt(Whole.x.cfgs))

RECURSIVE Nums(_)
Nums(w) == IF w = <<>> THEN "" ELSE (IF Len(w) = 1 THEN "" ELSE Nums(SubSeq(w, 1, Len(w) - 1)) \o " ") \o ToString(w[Len(w)])
RECURSIVE Toks(_)
Toks(g) == IF g = <<>> THEN "" ELSE (IF Len(g) = 1 THEN "" ELSE Toks(SubSeq(g, 1, Len(g) - 1)) \o " ")
             \o g[Len(g)][1] \o ":" \o ToString(g[Len(g)][2]) \o "-" \o ToString(g[Len(g)][3])
Edge == ~Dump \/ LET f == Ended(prog') IN PrintT("P@" \o Nums(prog'.text) \o "@" \o Outcome(f) \o "@" \o Toks(f.got))
=============================================================================
