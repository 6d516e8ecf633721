---------------------------- MODULE TraceProgram ----------------------------
(* Is what tokenizer and parser did with a text a behaviour of JsLex and     *)
(* JsPull together?  Each line of the trace file is one parse: the text, and *)
(* the requests made, each with its goal, the kind of token that was the     *)
(* answer and its range.  Nothing is taken over from the recording but the   *)
(* goals: what each answer must have been, and what it means to the grammar, *)
(* follows from the text.  One step consumes one request.                    *)
EXTENDS JsProgram, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr,    \* the trace being read
          rq,    \* the next request of it
          lxs,   \* state of the lexer
          pst,   \* state of the protocol
          bad    \* what does not fit, or ""
vars == <<tr, rq, lxs, pst, bad>>

Txt == Traces[tr].text
Reqs == Traces[tr].r
Kind == Reqs[rq][1]
From == Reqs[rq][2]
To == Reqs[rq][3]
Goal == [re |-> Reqs[rq][4], tpl |-> Reqs[rq][5]]
Init == tr = 1 /\ rq = 1 /\ lxs = Lx!Lex0 /\ pst = PullInit /\ bad = ""
More == bad = "" /\ tr <= Len(Traces)
Advance == tr' = tr + 1 /\ TLCSet(1, tr + 1) /\ rq' = 1 /\ lxs' = Lx!Lex0 /\ pst' = PullInit
Flaw(m) == /\ PrintT("MISMATCH@" \o ToJson([trace |-> tr, request |-> rq, what |-> m, end |-> Traces[tr].v, text |-> Txt]))
           /\ bad' = m /\ UNCHANGED <<tr, rq, lxs, pst>>
Answered(e, t) == Lx!Request(Txt, lxs, Lx!Hint(e, t))
Consume ==
  /\ More /\ rq <= Len(Reqs)
  /\ LET y == Answered(Goal.re, Goal.tpl) IN
     IF y.st = "open" THEN Advance /\ UNCHANGED bad        \* not described from here on
     ELSE IF ~Asks(pst) THEN Flaw("asked for a token after end of input")
     ELSE IF y.st = "err" THEN Flaw("a malformed lexeme was made a token")
     ELSE LET t == y.toks[1]  a == AnswerOf(Txt, t) IN
          IF Kind /= t.k \/ From /= t.sp.off \/ To /= t.ep.off THEN Flaw("the answer is not the next token of the text")
          ELSE IF ~AnswerRight(a, Goal) THEN Flaw("the answer does not fit the goal")
          ELSE IF ~GoalRight(pst, a) THEN Flaw("the wrong lexical goal")
          ELSE pst' = Step(pst, a) /\ lxs' = y /\ rq' = rq + 1 /\ UNCHANGED <<tr, bad>>
\* Where it was refused there must be something to refuse, for one of the goals that may have been asked.
Refusable == \E e, t \in BOOLEAN :
  LET y == Answered(e, t) IN y.st \in {"err", "open"} \/ (y.st = "run" /\ y.toks[1].may)
Finish ==
  /\ More /\ rq > Len(Reqs)
  /\ IF Traces[tr].v = "refused" /\ ~(Asks(pst) /\ Refusable) THEN Flaw("nothing here is malformed")
     ELSE IF EndRight(pst, Traces[tr].v) THEN Advance /\ UNCHANGED bad ELSE Flaw("it may not end like this")
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
TraceAccepted == PrintT(<<"TRACES", Len(Traces), TLCGet("stats").diameter>>)
                 /\ Len(Traces) > 0 /\ TLCGet(1) = Len(Traces) + 1
=============================================================================
