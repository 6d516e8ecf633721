------------------------------ MODULE TraceLex ------------------------------
(* Is what the real tokenizer did a behaviour of JsLex?  Each line of the    *)
(* trace file is a text and the requests made for it, each with its hint and *)
(* the answer.  One step consumes one request; a request that JsLex answers  *)
(* otherwise stops the trace and is reported.                                *)
EXTENDS LexProps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i,     \* the trace being read
          r,     \* the next request of it
          x,     \* lexer state after the requests before
          bad    \* what does not fit, or ""
vars == <<i, r, x, bad>>

T == Traces[i].text
Q == Traces[i].reqs[r]
QHint == Hint(Q.e, Q.t)
Slice(s, e) == SubSeq(T, s + 1, e)
Sp(q) == [off |-> q.so, line |-> q.sl, col |-> q.sc]
Ep(q) == [off |-> q.eo, line |-> q.el, col |-> q.ec]

\* What holds of every answer, also where JsLex leaves the token open: the range starts
\* where the token before ended, after white space, and its positions are those of its places.
Tidy(y) ==
  Q.k = "refused" \/
  /\ Q.so <= Q.eo
  /\ \E n, m \in x.n..Len(T) :
       /\ Bytes(T, n) = Q.so /\ Bytes(T, m) = Q.eo /\ n <= m
       /\ \A j \in (x.n + 1)..n : T[j] \in WhiteSpace \cup OtherSpace
       /\ Q.k /= "eof" => n < m
       /\ Q.k = "eof" => n = Len(T)
       /\ Sp(Q) = PosAt(T, n) /\ Ep(Q) = PosAt(T, m)
\* The answer of the specification is the recorded one, and is right.
Fits(y) ==
  CASE y.st = "open" -> Tidy(y)
    [] y.st = "run" /\ y.toks[1].may /\ Q.k = "refused" -> TRUE
    [] y.st = "err" -> Q.k = "refused" /\ Malformed(T, y.s, QHint)
    [] OTHER ->
         LET t == y.toks[1]  v == IF t.k = "num" THEN IntVal(T, t) ELSE -1 IN
         /\ Q.k = t.k /\ Sp(Q) = t.sp /\ Ep(Q) = t.ep
         /\ Q.a = Slice(Payload(T, t)[1], Payload(T, t)[2])
         /\ Q.b = Slice(Flags(T, t)[1], Flags(T, t)[2])
         /\ v /= -1 => Q.v = v
         /\ t.sp = PosAt(T, t.s) /\ t.ep = PosAt(T, t.e)
         /\ TokenRight(T, t, QHint)

Init == i = 1 /\ r = 1 /\ x = Lex0 /\ bad = ""
\* After end of input the same answer comes again.
Answer == IF x.st = "done" THEN [x EXCEPT !.toks = <<Token("eof", x.n, x.n, x.p, x.p)>>]
          ELSE Request(T, x, QHint)
Advance == i' = i + 1 /\ TLCSet(1, i + 1)
More == bad = "" /\ i <= Len(Traces)
Consume ==
  /\ More /\ r <= Len(Traces[i].reqs)
  /\ LET y == Answer IN
       IF ~Fits(y) THEN /\ PrintT("MISMATCH@" \o ToJson([trace |-> i, request |-> r, text |-> T, got |-> Q, want |-> y]))
                        /\ bad' = "request does not fit" /\ UNCHANGED <<i, r, x>>
       ELSE IF y.st \in {"open", "err"} \/ Q.k = "refused" THEN Advance /\ r' = 1 /\ x' = Lex0 /\ UNCHANGED bad
       ELSE r' = r + 1 /\ x' = y /\ UNCHANGED <<i, bad>>
NextText ==
  /\ More /\ r > Len(Traces[i].reqs)
  /\ Advance /\ r' = 1 /\ x' = Lex0 /\ UNCHANGED bad
Next == Consume \/ NextText
Spec == Init /\ [][Next]_vars

Conforms == bad = ""
\* All traces were read to their end (register 1 holds the trace reached; one worker).
TraceAccepted == PrintT(<<"TRACES", Len(Traces), TLCGet("stats").diameter>>)
                 /\ Len(Traces) > 0 /\ TLCGet(1) = Len(Traces) + 1
=============================================================================
