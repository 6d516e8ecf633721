------------------------------- MODULE JsPull -------------------------------
(* The protocol between the parser and its tokenizer.  The parser asks for   *)
(* one token at a time, with the lexical goal it wants; the tokenizer        *)
(* answers in the order of the text.  White space, comments and line         *)
(* terminators are answers that reach the grammar only as "there was a line  *)
(* terminator before this token".  After end of input nothing is asked.      *)
EXTENDS JsParse

Trivia == {"ws", "lt", "lcom", "bcom"}
\* cfgs: configuration set; nl: a line terminator since the last significant token;
\* over: end of input was answered.
PullInit == [cfgs |-> InitSet, nl |-> FALSE, over |-> FALSE, n |-> 0]

\* An answer [c: class, ml: it contains a line terminator] to a request for the goal
\* [re: a slash is a regular expression, tpl: a brace continues a template].
Ev1(x, a) == [c |-> a.c, nl |-> x.nl]
Asks(x) == ~x.over
\* The request has the right goal for the slash or brace it was answered with.  Where neither
\* reading can go on, the text is rejected either way and both goals are right.
GoalRight(x, a) ==
  LET Y == Strict(x.cfgs)  Then(c) == Strict(Feed(x.cfgs, [c |-> c, nl |-> x.nl])) IN
  /\ a.c = "re" => ~DivViable(Y)
  /\ a.c \in {"/", "/="} => DivViable(x.cfgs) \/ Then("re") = {}
  /\ a.c = "}" => ~TplViable(Y)
  /\ a.c \in {"tplM", "tplT"} => TplViable(x.cfgs) \/ Then("}") = {}
\* The answer is one the tokenizer may give to this request.
AnswerRight(a, g) ==
  /\ a.c \in {"/", "/="} => ~g.re
  /\ a.c = "re" => g.re
  /\ a.c = "}" => ~g.tpl
  /\ a.c \in {"tplM", "tplT"} => g.tpl
Step(x, a) ==
  IF a.c \in Trivia THEN [x EXCEPT !.nl = @ \/ a.c = "lt" \/ a.ml, !.n = @ + 1]
  ELSE [cfgs |-> TLCEval(Feed(x.cfgs, Ev1(x, a))), nl |-> FALSE, over |-> a.c = "eof", n |-> x.n + 1]

\* How a parse that has asked for all this may end.
EndRight(x, v) ==
  CASE v = "accept" -> /\ x.over
                       /\ Verdict(x.cfgs) /= "reject"
    [] v = "reject" -> IF x.over THEN Verdict(x.cfgs) /= "accept" ELSE Status(x.cfgs) /= "live"
    [] v = "refused" -> ~x.over        \* the tokenizer refused the text
    [] OTHER -> FALSE                  \* crash, over-read, hang
=============================================================================
