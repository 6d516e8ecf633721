----------------------------- MODULE TraceParse -----------------------------
(* Is what the real parser did a behaviour of JsPull?  Each line of the      *)
(* trace file is one parse: the requests it made, each with its goal and its *)
(* answer, and how it ended.  One step consumes one request.                 *)
EXTENDS JsPull, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr,    \* the trace being read
          rq,    \* the next request of it
          st,    \* state of the protocol
          bad    \* what does not fit, or ""
vars == <<tr, rq, st, bad>>

Reqs == Traces[tr].r
Ans == [c |-> Reqs[rq][1], ml |-> Reqs[rq][2]]
Goal == [re |-> Reqs[rq][3], tpl |-> Reqs[rq][4]]
Init == tr = 1 /\ rq = 1 /\ st = PullInit /\ bad = ""
More == bad = "" /\ tr <= Len(Traces)
Advance == tr' = tr + 1 /\ TLCSet(1, tr + 1) /\ rq' = 1 /\ st' = PullInit
Flaw(m) == /\ PrintT("MISMATCH@" \o ToJson([trace |-> tr, request |-> rq, what |-> m, end |-> Traces[tr].v, text |-> Traces[tr].t]))
           /\ bad' = m /\ UNCHANGED <<tr, rq, st>>
Consume ==
  /\ More /\ rq <= Len(Reqs)
  /\ IF ~Asks(st) THEN Flaw("asked for a token after end of input")
     ELSE IF ~AnswerRight(Ans, Goal) THEN Flaw("the answer does not fit the goal")
     ELSE IF ~GoalRight(st, Ans) THEN Flaw("the wrong lexical goal")
     ELSE st' = Step(st, Ans) /\ rq' = rq + 1 /\ UNCHANGED <<tr, bad>>
Finish ==
  /\ More /\ rq > Len(Reqs)
  /\ IF EndRight(st, Traces[tr].v) THEN Advance /\ UNCHANGED bad ELSE Flaw("it may not end like this")
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
TraceAccepted == PrintT(<<"TRACES", Len(Traces), TLCGet("stats").diameter>>)
                 /\ Len(Traces) > 0 /\ TLCGet(1) = Len(Traces) + 1
=============================================================================
