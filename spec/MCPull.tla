------------------------------- MODULE MCPull -------------------------------
(* Every sequence of answers, trivia included, up to Depth after each        *)
(* prefix.  Checked: what the parser makes of them is a matter of the        *)
(* significant tokens and the line breaks before them (P13), and every way   *)
(* on leads to exactly one kind of end (P14).  Every step is written out, to *)
(* be replayed through a stand-in for the tokenizer.                         *)
EXTENDS JsPull, Json, IOUtils

RangeOf(s) == { s[i] : i \in 1..Len(s) }
Bounds == JsonDeserialize(IOEnv.BOUNDS)
Alphabet == RangeOf(Bounds.alphabet)
Prefixes == RangeOf(Bounds.prefixes)
Depth == Bounds.depth
Dump == Bounds.dump
VARIABLES st, raw, txt, steps
vars == <<st, raw, txt, steps>>

\* bcomL: a block comment with a line terminator in it.
Answer(w) == [c |-> IF w = "bcomL" THEN "bcom" ELSE w, ml |-> w \in {"lt", "bcomL"}]
RECURSIVE RunRaw(_,_)
RunRaw(y, w) == IF w = <<>> THEN y ELSE RunRaw(TLCEval(Step(y, Answer(Head(w)))), Tail(w))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE (IF Len(s) = 1 THEN "" ELSE Join(SubSeq(s, 1, Len(s) - 1)) \o " ") \o s[Len(s)]

Init == \E p \in Prefixes : raw = p /\ txt = Join(p) /\ steps = 0 /\ st = RunRaw(PullInit, p)
Get(w) == LET a == Answer(w) IN
  /\ Asks(st) /\ st.cfgs /= {} /\ steps < Depth /\ GoalRight(st, a)
  /\ st' = Step(st, a) /\ raw' = Append(raw, w) /\ steps' = steps + 1
  /\ txt' = (IF txt = "" THEN "" ELSE txt \o " ") \o w
Next == \E w \in Alphabet : Get(w)
Spec == Init /\ [][Next]_vars
View == <<st.cfgs, st.nl, st.over, steps>>

\* P13, said of the whole sequence of answers.
Breaks(w) == w \in {"lt", "bcomL"}
Blank(w) == w \in {"ws", "lt", "lcom", "bcom", "bcomL"}
Places == { k \in 1..Len(raw) : ~Blank(raw[k]) }
Nth(k) == CHOOSE p \in Places : Cardinality({ q \in Places : q <= p }) = k
Before(p) == { q \in 1..(p - 1) : \A m \in q..(p - 1) : Blank(raw[m]) }
Erased == [ k \in 1..Cardinality(Places) |-> LET p == Nth(k) IN [c |-> raw[p], nl |-> \E q \in Before(p) : Breaks(raw[q])] ]
TriviaErased == st.cfgs = Run(InitSet, Erased)
\* Any more white space changes nothing; any more line breaks after the first change nothing.
TriviaIdle == \A w \in {"ws", "bcom", "lcom"} : LET y == Step(st, Answer(w)) IN y.cfgs = st.cfgs /\ y.nl = st.nl
BreaksIdle == st.nl => \A w \in {"lt", "bcomL"} : LET y == Step(st, Answer(w)) IN y.cfgs = st.cfgs /\ y.nl = st.nl
\* P14: the end is asked for once; then the parse may end, in one way if strictly described.
OneEnd == st.over =>
  /\ raw[Len(raw)] = "eof" /\ \A k \in 1..(Len(raw) - 1) : raw[k] /= "eof"
  /\ EndRight(st, "accept") \/ EndRight(st, "reject")
  /\ Verdict(st.cfgs) /= "open" => ~(EndRight(st, "accept") /\ EndRight(st, "reject"))
\* It may be accepted only at the end, and given up early only when nothing is left.
NotEarly == ~st.over => ~EndRight(st, "accept") /\ (EndRight(st, "reject") <=> Status(st.cfgs) /= "live")
Counted == st.n = Len(raw)

Edge == ~Dump \/ PrintT("E@" \o txt' \o "@" \o Status(st'.cfgs) \o "@" \o Verdict(st'.cfgs))
=============================================================================
