----------------------------- MODULE JsProgram ------------------------------
(* Tokenizer and parser together, reading a text one character at a time:    *)
(* JsLex says where tokens end, JsPull what they mean to the parser, and the *)
(* configuration set of JsParse which lexical goal is in force at a slash or *)
(* brace.  The result is a verdict for every text, not just for token        *)
(* sequences: which characters are comments, divisions, regular expressions  *)
(* and template chunks is decided here, while parsing.                       *)
EXTENDS JsPull
Lx == INSTANCE LexProps

(* ------------------------- from lexeme to token class --------------------- *)
Chars == << "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" >>
CharName(c) == IF c \in 97..122 THEN Chars[c - 96] ELSE "?"
RECURSIVE Spelling(_,_,_)
Spelling(T, s, e) == IF e <= s THEN "" ELSE Spelling(T, s, e - 1) \o CharName(T[e])
Reserved == {"implements", "interface", "package", "private", "protected", "public"}
WordClass(T, s, e) ==
  LET w == IF e - s > 10 THEN "" ELSE Spelling(T, s, e) IN
  IF w \in Keywords \cup Contextual \cup {"let", "static"} THEN w
  ELSE IF w \in Reserved THEN "sres" ELSE "id"
TokClass(T, t) == IF t.k = "word" THEN WordClass(T, t.s, t.e) ELSE t.k
Breaking(T, s, e) == \E j \in (s + 1)..e : T[j] \in Lx!LineTerm
AnswerOf(T, t) == [c |-> TokClass(T, t), ml |-> Breaking(T, t.s, t.e)]

(* ------------------------------- the machine ------------------------------ *)
(* lx: the lexer, with its registers (JsLex); x: the protocol (JsPull);      *)
(* text: the characters read; got: the significant tokens so far; soft: a    *)
(* token was taken that may be refused as well; st: "run", "done" (the end   *)
(* was read), "dead" (no program starts like this), "refused" (a malformed   *)
(* lexeme), "open" (this specification does not say).                        *)
Prog0 == [lx |-> Lx!Lex0, x |-> PullInit, text |-> <<>>, got |-> <<>>, soft |-> FALSE, st |-> "run", right |-> TRUE]

GoalAt(X) == Lx!Hint(Slash(X) = "re", Brace(X) = "template")
\* Both readings of this slash or brace go on, one of them only in ways left open.
Unclear(X, c) == c \in {47, 125} /\ GoalOpen(X, c = 47)

\* The lexer has finished a token (the last of lx.toks): give it to the parser.
Give(q, lx) ==
  LET t == lx.toks[Len(lx.toks)]
      a == AnswerOf(q.text, t)
      y == Step(q.x, a)
  IN [q EXCEPT !.lx = [lx EXCEPT !.toks = <<>>], !.x = y,
               !.soft = @ \/ t.may,
               !.right = @ /\ GoalRight(q.x, a) /\ AnswerRight(a, [re |-> GoalAt(q.x.cfgs).expr, tpl |-> GoalAt(q.x.cfgs).tpl]),
               !.got = IF t.k \in Trivia THEN @ ELSE Append(@, <<t.k, t.sp.off, t.ep.off>>),
               !.st = IF y.cfgs = {} THEN "dead" ELSE IF y.over THEN "done" ELSE @]

RECURSIVE Go(_,_)
\* One character (already appended to the text unless it is the end).
Go(q, c) ==
  IF q.st /= "run" THEN q ELSE
  LET lx == q.lx
      h == GoalAt(q.x.cfgs)
      d == Lx!Delta(lx.m, Lx!Class(c), h)
  IN IF lx.m = "S" /\ Unclear(q.x.cfgs, c) THEN [q EXCEPT !.st = "open"] ELSE
     CASE d.op = "tok"  -> Go(TLCEval(Give(q, Lx!Emit(lx, d.kind))), c)
       [] d.op = "may" /\ d.kind = "word" -> [q EXCEPT !.st = "open"]   \* perhaps a longer identifier
       [] d.op = "may"  -> Go(TLCEval(Give(q, Lx!EmitMay(lx, d.kind))), c)
       [] d.op = "back" -> LET y == Give(q, [lx EXCEPT !.toks = <<Lx!Token(".", lx.s, lx.n - 1, lx.sp, lx.pp)>>])
                           IN Go([y EXCEPT !.lx = [lx EXCEPT !.toks = <<>>, !.m = ".", !.s = lx.n - 1, !.sp = lx.pp]], c)
       [] d.op = "inc"  -> Give(q, Lx!Emit(Lx!Eat(lx, c), d.kind))
       [] d.op = "eof"  -> Give(q, Lx!Emit(lx, "eof"))
       [] d.op = "err"  -> [q EXCEPT !.st = "refused"]
       [] d.op = "open" -> [q EXCEPT !.st = "open"]
       [] OTHER         -> [q EXCEPT !.lx = Lx!Step(lx, c, h)]
Read(q, c) == IF q.st /= "run" THEN q ELSE TLCEval(Go([q EXCEPT !.text = Append(@, c)], c))
RECURSIVE ReadAll(_,_)
ReadAll(q, w) == IF w = <<>> THEN q ELSE ReadAll(TLCEval(Read(q, Head(w))), Tail(w))

\* The verdict on the text read so far, taken as the whole.
Ended(q) == Go(q, Lx!EndOfText)
Outcome(f) ==
  CASE f.st \in {"dead", "refused"} -> "reject"
    [] f.st = "done" -> (LET v == Verdict(f.x.cfgs) IN IF v = "accept" /\ f.soft THEN "open" ELSE v)
    [] OTHER -> "open"
TextVerdict(T) == Outcome(Ended(ReadAll(Prog0, T)))
=============================================================================
