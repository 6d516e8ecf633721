-------------------------------- MODULE JsLex --------------------------------
(* The tokenizer: a machine that reads a text one code point at a time.       *)
(*                                                                            *)
(* Characters are code points; EndOfText stands for the end.  Delta is the    *)
(* transition table on character classes; Step runs it on a lexer state and   *)
(* keeps the position registers.  The lexical goal (the caller's hint) only   *)
(* matters in the transition out of "S" on `/' and `}'.                       *)
(*                                                                            *)
(* The answer "open" means this specification does not say what happens:      *)
(* non-ASCII identifiers and spaces, escapes in identifiers, malformed hex and*)
(* Unicode escapes, an escaped 0 before a digit, digit escapes in templates.  *)
(* A token marked "may" may also be refused, but not read otherwise: a number *)
(* that a word or digit follows directly, a regular expression that an odd    *)
(* flag follows, a word that a backslash or non-ASCII character follows.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EndOfText == -1
LF == 10   CR == 13   LS == 8232   PS == 8233

(* ------------------------------ characters -------------------------------- *)
Low  == 97..122
Up   == 65..90
PunctChar ==
  (40 :> "(") @@ (41 :> ")") @@ (91 :> "[") @@ (93 :> "]") @@ (123 :> "{") @@ (125 :> "}")
  @@ (59 :> ";") @@ (44 :> ",") @@ (46 :> ".") @@ (60 :> "<") @@ (62 :> ">") @@ (61 :> "=")
  @@ (33 :> "!") @@ (43 :> "+") @@ (45 :> "-") @@ (42 :> "*") @@ (47 :> "/") @@ (37 :> "%")
  @@ (38 :> "&") @@ (124 :> "|") @@ (94 :> "^") @@ (126 :> "~") @@ (63 :> "?") @@ (58 :> ":")
Letter ==
  (101 :> "e") @@ (69 :> "E") @@ (120 :> "x") @@ (88 :> "X") @@ (111 :> "o") @@ (79 :> "O")
  @@ (98 :> "b") @@ (66 :> "B") @@ (117 :> "u")
WhiteSpace == {9, 11, 12, 32, 160, 65279}
OtherSpace == {5760, 8239, 8287, 12288} \cup 8192..8202
\* Non-ASCII characters that are neither space nor part of a word: they start no token.
\* Many share bytes with characters that mean something (NBSP, LS, PS, ZWNBSP).
NeverStart == {133, 161, 171, 191, 215, 6158, 8203, 8230, 8231, 8234, 8235, 8288, 8360, 8594, 65288, 65307, 65278, 65533, 128512}

Class(c) ==
  CASE c = EndOfText -> "end"
    [] c \in DOMAIN PunctChar -> PunctChar[c]
    [] c \in DOMAIN Letter -> Letter[c]
    [] c \in {97, 99, 100, 102} -> "hexl"
    [] c \in {65, 67, 68, 70} -> "hexu"
    [] c \in Low -> "low"
    [] c \in Up -> "up"
    [] c = 48 -> "0"
    [] c = 49 -> "1"
    [] c \in 50..55 -> "27"
    [] c \in {56, 57} -> "89"
    [] c = 36 -> "$"
    [] c = 95 -> "_"
    [] c = 34 -> "dq"
    [] c = 39 -> "sq"
    [] c = 96 -> "bq"
    [] c = 92 -> "bs"
    [] c = LF -> "LF"
    [] c = CR -> "CR"
    [] c \in {LS, PS} -> "LS"
    [] c \in WhiteSpace -> "WS"
    [] c \in OtherSpace -> "zs"
    [] c \in NeverStart -> "ubad"
    [] c > 127 -> "uni"
    [] OTHER -> "bad"

PunctClasses == { PunctChar[c] : c \in DOMAIN PunctChar }
LetterClasses == {"e","E","x","X","o","O","b","B","u","hexl","hexu","low","up"}
LowerClasses == {"e","x","o","b","u","hexl","low"}
Digits == {"0","1","27","89"}
HexDigits == Digits \cup {"e","E","b","B","hexl","hexu"}
IdStart == LetterClasses \cup {"$","_"}
IdPart == IdStart \cup Digits
\* Characters that may make a longer word, in a way left open.
OpenId == {"bs", "uni"}
LineEnd == {"LF","CR","LS"}
Classes == PunctClasses \cup LetterClasses \cup Digits
           \cup {"$","_","dq","sq","bq","bs","LF","CR","LS","WS","zs","ubad","uni","bad","end"}

Punctuators == {"{","(",")","[","]",".","...",";",",","<",">","<=",">=","==",
  "!=","===","!==","+","-","*","%","**","++","--","<<",">>",">>>","&",
  "|","^","!","~","&&","||","?",":","=","+=","-=","*=","%=","**=","<<=",
  ">>=",">>>=","&=","|=","^=","=>"}
\* What is on the way to a punctuator.
PPrefix == Punctuators \cup {".."}

(* --------------------------- transition table ----------------------------- *)
Go(m)   == [op |-> "go",   to |-> m,   kind |-> ""]   \* consume, continue in m
Tok(k)  == [op |-> "tok",  to |-> "S", kind |-> k]    \* the token ended before this character
May(k)  == [op |-> "may",  to |-> "S", kind |-> k]    \* the same, but it may be refused instead
Inc(k)  == [op |-> "inc",  to |-> "S", kind |-> k]    \* the token ends with this character
Back    == [op |-> "back", to |-> "S", kind |-> "."]  \* `..x': the first dot alone is a token
Skip    == [op |-> "skip", to |-> "S", kind |-> ""]
Err     == [op |-> "err",  to |-> "E", kind |-> ""]
Open    == [op |-> "open", to |-> "O", kind |-> ""]
Eof     == [op |-> "eof",  to |-> "F", kind |-> "eof"]

Hint(e, t) == [expr |-> e, tpl |-> t]
Hints == { Hint(e, t) : e \in BOOLEAN, t \in BOOLEAN }

DeltaStart(k, h) ==
  CASE k = "end" -> Eof
    [] k = "WS" -> Skip
    [] k \in {"LF","LS"} -> Inc("lt")
    [] k = "CR" -> Go("CR")
    [] k \in IdStart -> Go("W")
    [] k = "0" -> Go("N0")
    [] k \in {"1","27","89"} -> Go("NI")
    [] k = "dq" -> Go("Dq")
    [] k = "sq" -> Go("Sq")
    [] k = "bq" -> Go("Th")
    [] k = "/" -> IF h.expr THEN Go("R0") ELSE Go("/")
    [] k = "}" -> IF h.tpl THEN Go("Tc") ELSE Inc("}")
    [] k \in PPrefix -> Go(k)
    [] k \in {"bad","ubad"} -> Err
    [] OTHER -> Open

\* After a number: what directly follows must not be a word or digit.
EndNum(k) == IF k \in IdPart \cup OpenId THEN May("num") ELSE Tok("num")

\* Inside a string or template with close class q and body mode m.
Hex(k, m) == IF k \in HexDigits THEN Go(m) ELSE Open

DeltaStr(m, k, q, b) ==   \* b: body mode; m: current mode, b \o suffix
  LET In(s) == b \o s IN
  CASE m = b -> (CASE k = q -> Inc("str")
                   [] k = "bs" -> Go(In("\\"))
                   [] k \in LineEnd \cup {"end"} -> Err
                   [] OTHER -> Go(b))
    [] m = In("\\") -> (CASE k = "end" -> Err
                   [] k = "CR" -> Go(In("\r"))
                   [] k = "x" -> Go(In("x2"))
                   [] k = "u" -> Go(In("u"))
                   [] k = "0" -> Go(In("0"))
                   [] k \in {"1","27","89"} -> Err
                   [] OTHER -> Go(b))
    [] m = In("\r") -> (CASE k = "LF" -> Go(b)
                   [] k = q -> Inc("str")
                   [] k = "bs" -> Go(In("\\"))
                   [] k \in {"CR","LS","end"} -> Err
                   [] OTHER -> Go(b))
    [] m = In("0") -> (CASE k \in Digits -> Open
                   [] k = q -> Inc("str")
                   [] k = "bs" -> Go(In("\\"))
                   [] k \in LineEnd \cup {"end"} -> Err
                   [] OTHER -> Go(b))
    [] m = In("x2") -> Hex(k, In("x1"))
    [] m = In("x1") -> Hex(k, b)
    [] m = In("u") -> IF k = "{" THEN Go(In("u{0")) ELSE Hex(k, In("u3"))
    [] m = In("u3") -> Hex(k, In("u2"))
    [] m = In("u2") -> Hex(k, In("u1"))
    [] m = In("u1") -> Hex(k, b)
    [] m = In("u{0") -> Hex(k, In("u{1"))
    [] m = In("u{1") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{2"))
    [] m = In("u{2") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{3"))
    [] m = In("u{3") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{4"))
    [] m = In("u{4") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{5"))
    [] m = In("u{5") -> IF k = "}" THEN Go(b) ELSE Open

StrModes(b) == { b \o s : s \in {"", "\\", "\r", "0", "x2", "x1", "u", "u3", "u2", "u1",
                                 "u{0", "u{1", "u{2", "u{3", "u{4", "u{5"} }

\* Template chunks: b is "Th" (from a backquote) or "Tc" (from a brace).
TplEnd(b) == IF b = "Th" THEN "tplN" ELSE "tplT"
TplSub(b) == IF b = "Th" THEN "tplH" ELSE "tplM"
TplBody(k, b) == CASE k = "bq" -> Inc(TplEnd(b))
                   [] k = "bs" -> Go(b \o "\\")
                   [] k = "$" -> Go(b \o "$")
                   [] k = "end" -> Err
                   [] OTHER -> Go(b)
DeltaTpl(m, k, b) ==
  LET In(s) == b \o s IN
  CASE m = b -> TplBody(k, b)
    [] m = In("$") -> IF k = "{" THEN Inc(TplSub(b)) ELSE TplBody(k, b)
    [] m = In("\\") -> (CASE k = "end" -> Err
                   [] k = "x" -> Go(In("x2"))
                   [] k = "u" -> Go(In("u"))
                   [] k = "0" -> Go(In("0"))
                   [] k \in {"1","27","89"} -> Open
                   [] OTHER -> Go(b))
    [] m = In("0") -> IF k \in Digits THEN Open ELSE TplBody(k, b)
    [] m = In("x2") -> Hex(k, In("x1"))
    [] m = In("x1") -> Hex(k, b)
    [] m = In("u") -> IF k = "{" THEN Go(In("u{0")) ELSE Hex(k, In("u3"))
    [] m = In("u3") -> Hex(k, In("u2"))
    [] m = In("u2") -> Hex(k, In("u1"))
    [] m = In("u1") -> Hex(k, b)
    [] m = In("u{0") -> Hex(k, In("u{1"))
    [] m = In("u{1") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{2"))
    [] m = In("u{2") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{3"))
    [] m = In("u{3") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{4"))
    [] m = In("u{4") -> IF k = "}" THEN Go(b) ELSE Hex(k, In("u{5"))
    [] m = In("u{5") -> IF k = "}" THEN Go(b) ELSE Open
TplModes(b) == { b \o s : s \in {"", "$", "\\", "0", "x2", "x1", "u", "u3", "u2", "u1",
                                 "u{0", "u{1", "u{2", "u{3", "u{4", "u{5"} }

ReBody(k) == CASE k \in LineEnd \cup {"end"} -> Err
               [] k = "bs" -> Go("R\\")
               [] k = "[" -> Go("R[")
               [] k = "/" -> Go("Rf")
               [] OTHER -> Go("R")

DqModes == StrModes("Dq")
SqModes == StrModes("Sq")
ThModes == TplModes("Th")
TcModes == TplModes("Tc")

Delta(m, k, h) ==
  CASE m = "S" -> DeltaStart(k, h)
    [] m = "CR" -> IF k = "LF" THEN Inc("lt") ELSE Tok("lt")
    [] m = "W" -> IF k \in IdPart THEN Go("W") ELSE IF k \in OpenId THEN May("word") ELSE Tok("word")
    \* numbers
    [] m = "N0" -> (CASE k \in {"x","X"} -> Go("Nx0") [] k \in {"o","O"} -> Go("No0")
                      [] k \in {"b","B"} -> Go("Nb0") [] k \in {"e","E"} -> Go("Ne")
                      [] k = "." -> Go("NF") [] OTHER -> EndNum(k))
    [] m = "NI" -> (CASE k \in Digits -> Go("NI") [] k = "." -> Go("NF")
                      [] k \in {"e","E"} -> Go("Ne") [] OTHER -> EndNum(k))
    [] m = "NF" -> (CASE k \in Digits -> Go("NF") [] k \in {"e","E"} -> Go("Ne")
                      [] OTHER -> EndNum(k))
    [] m = "Ne" -> (CASE k \in Digits -> Go("NE") [] k \in {"+","-"} -> Go("Ns") [] OTHER -> Err)
    [] m = "Ns" -> IF k \in Digits THEN Go("NE") ELSE Err
    [] m = "NE" -> IF k \in Digits THEN Go("NE") ELSE EndNum(k)
    [] m = "Nx0" -> IF k \in HexDigits THEN Go("Nx") ELSE Err
    [] m = "Nx" -> IF k \in HexDigits THEN Go("Nx") ELSE EndNum(k)
    [] m = "No0" -> IF k \in {"0","1","27"} THEN Go("No") ELSE Err
    [] m = "No" -> IF k \in {"0","1","27"} THEN Go("No") ELSE IF k = "89" THEN Err ELSE EndNum(k)
    [] m = "Nb0" -> IF k \in {"0","1"} THEN Go("Nb") ELSE Err
    [] m = "Nb" -> IF k \in {"0","1"} THEN Go("Nb") ELSE IF k \in {"27","89"} THEN Err ELSE EndNum(k)
    \* strings and templates
    [] m \in DqModes -> DeltaStr(m, k, "dq", "Dq")
    [] m \in SqModes -> DeltaStr(m, k, "sq", "Sq")
    [] m \in ThModes -> DeltaTpl(m, k, "Th")
    [] m \in TcModes -> DeltaTpl(m, k, "Tc")
    \* slash: comments, division, regular expressions
    [] m = "/" -> (CASE k = "/" -> Go("CL") [] k = "*" -> Go("CB") [] k = "=" -> Inc("/=")
                     [] OTHER -> Tok("/"))
    [] m = "CL" -> IF k \in LineEnd \cup {"end"} THEN Tok("lcom") ELSE Go("CL")
    [] m = "CB" -> (CASE k = "end" -> Err [] k = "*" -> Go("CB*") [] OTHER -> Go("CB"))
    [] m = "CB*" -> (CASE k = "end" -> Err [] k = "*" -> Go("CB*") [] k = "/" -> Inc("bcom")
                       [] OTHER -> Go("CB"))
    [] m = "R0" -> (CASE k = "/" -> Go("CL") [] k = "*" -> Go("CB") [] OTHER -> ReBody(k))
    [] m = "R" -> ReBody(k)
    [] m = "R\\" -> IF k \in LineEnd \cup {"end"} THEN Err ELSE Go("R")
    [] m = "R[" -> (CASE k \in LineEnd \cup {"end"} -> Err [] k = "bs" -> Go("R[\\")
                      [] k = "]" -> Go("R") [] OTHER -> Go("R["))
    [] m = "R[\\" -> IF k \in LineEnd \cup {"end"} THEN Err ELSE Go("R[")
    [] m = "Rf" -> (CASE k \in LowerClasses -> Go("Rf") [] k \in IdPart \cup OpenId -> May("re")
                      [] OTHER -> Tok("re"))
    \* other punctuators: the longest that is spelled here
    [] m \in PPrefix ->
         IF m = "." /\ k \in Digits THEN Go("NF")
         ELSE IF m = ".." /\ k /= "." THEN Back
         ELSE IF (m \o k) \in PPrefix THEN Go(m \o k) ELSE Tok(m)

Modes == {"S","CR","W","N0","NI","NF","Ne","Ns","NE","Nx0","Nx","No0","No","Nb0","Nb",
          "/","CL","CB","CB*","R0","R","R\\","R[","R[\\","Rf"}
         \cup StrModes("Dq") \cup StrModes("Sq") \cup TplModes("Th") \cup TplModes("Tc")
         \cup (PPrefix \ {"lt"})

(* ------------------------------- positions -------------------------------- *)
Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Origin == [off |-> 0, line |-> 1, col |-> 0]
\* The position after c, when the character before c was prev.
Adv(p, c, prev) ==
  CASE c = LF /\ prev = CR -> [p EXCEPT !.off = @ + 1]
    [] c \in {LF, CR, LS, PS} -> [off |-> p.off + Utf8(c), line |-> p.line + 1, col |-> 0]
    [] OTHER -> [p EXCEPT !.off = @ + Utf8(c), !.col = @ + 1]

(* ------------------------------- the machine ------------------------------ *)
(* m: mode; n: characters read; p: position after them; prev: last of them;   *)
(* s, sp: characters read, and position, at the start of the token; pp: the   *)
(* position before the last character; toks: tokens so far; st: run/err/open/ *)
(* done.  A token is [k: kind, s, e: characters before its start and end,     *)
(* sp, ep: these as positions, may: it may be refused instead].               *)
Lex0 == [m |-> "S", n |-> 0, p |-> Origin, pp |-> Origin, prev |-> 0, s |-> 0, sp |-> Origin,
         toks |-> <<>>, st |-> "run"]
Token(k, s, e, sp, ep) == [k |-> k, s |-> s, e |-> e, sp |-> sp, ep |-> ep, may |-> FALSE]
\* The token ends here; the next one starts here.
Emit(x, k) == [x EXCEPT !.toks = Append(@, Token(k, x.s, x.n, x.sp, x.p)),
                        !.m = "S", !.s = x.n, !.sp = x.p]
EmitMay(x, k) == LET y == Emit(x, k) IN [y EXCEPT !.toks[Len(y.toks)].may = TRUE]
Eat(x, c) == [x EXCEPT !.n = @ + 1, !.p = Adv(x.p, c, x.prev), !.pp = x.p, !.prev = c]

RECURSIVE Step(_,_,_)
Step(x, c, h) ==
  LET d == Delta(x.m, Class(c), h) IN
  CASE d.op = "go"   -> [Eat(x, c) EXCEPT !.m = d.to]
    [] d.op = "inc"  -> Emit(Eat(x, c), d.kind)
    [] d.op = "skip" -> LET y == Eat(x, c) IN [y EXCEPT !.s = y.n, !.sp = y.p]
    [] d.op = "tok"  -> Step(Emit(x, d.kind), c, h)
    [] d.op = "may"  -> Step(EmitMay(x, d.kind), c, h)
    [] d.op = "back" -> Step([x EXCEPT !.toks = Append(@, Token(".", x.s, x.n - 1, x.sp, x.pp)),
                                       !.m = ".", !.s = x.n - 1, !.sp = x.pp], c, h)
    [] d.op = "eof"  -> [Emit(x, "eof") EXCEPT !.st = "done"]
    [] d.op = "err"  -> [x EXCEPT !.st = "err"]
    [] d.op = "open" -> [x EXCEPT !.st = "open"]

(* The text a token carries, by kind, as <<from, to>> (characters before).    *)
LastSlash(text, t) == CHOOSE j \in (t.s + 2)..t.e :
                        text[j] = 47 /\ \A i \in (j + 1)..t.e : text[i] /= 47
Payload(text, t) ==
  CASE t.k = "word" -> <<t.s, t.e>>
    [] t.k = "str" -> <<t.s + 1, t.e - 1>>
    [] t.k \in {"tplN","tplT"} -> <<t.s + 1, t.e - 1>>
    [] t.k \in {"tplH","tplM"} -> <<t.s + 1, t.e - 2>>
    [] t.k = "lcom" -> <<t.s + 2, t.e>>
    [] t.k = "bcom" -> <<t.s + 2, t.e - 2>>
    [] t.k = "re" -> <<t.s + 1, LastSlash(text, t) - 1>>
    [] OTHER -> <<t.s, t.s>>
Flags(text, t) == IF t.k = "re" THEN <<LastSlash(text, t), t.e>> ELSE <<t.s, t.s>>

(* The value of an integer literal below 2^31, else -1.                       *)
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87
               ELSE IF c \in 65..70 THEN c - 55 ELSE -1
RECURSIVE Eval(_,_,_,_)
Eval(text, i, e, b) == IF e < i THEN 0 ELSE b * Eval(text, i, e - 1, b) + DigitVal(text[e])
IntVal(text, t) ==
  LET len == t.e - t.s
      pre == IF len >= 2 THEN text[t.s + 2] ELSE 0
  IN CASE pre \in {120, 88} -> IF len <= 9  THEN Eval(text, t.s + 3, t.e, 16) ELSE -1
       [] pre \in {111, 79} -> IF len <= 12 THEN Eval(text, t.s + 3, t.e, 8) ELSE -1
       [] pre \in {98, 66}  -> IF len <= 32 THEN Eval(text, t.s + 3, t.e, 2) ELSE -1
       [] \A i \in (t.s + 1)..t.e : text[i] \in 48..57 ->
            IF len <= 9 THEN Eval(text, t.s + 1, t.e, 10) ELSE -1
       [] OTHER -> -1

\* One request: from state x (in mode "S"), the characters of text after x.n, with hint h,
\* up to and including the first token.  Characters after the token are not consumed.
RECURSIVE RunReq(_,_,_)
RunReq(text, x, h) ==
  IF x.st /= "run" \/ Len(x.toks) > 0 THEN x
  ELSE LET c == IF x.n < Len(text) THEN text[x.n + 1] ELSE EndOfText
           d == Delta(x.m, Class(c), h)
       IN CASE d.op = "tok"  -> Emit(x, d.kind)
            [] d.op = "may"  -> EmitMay(x, d.kind)
            [] d.op = "back" -> [x EXCEPT !.toks = <<Token(".", x.s, x.n - 1, x.sp, x.pp)>>,
                                          !.m = "S", !.n = x.n - 1, !.p = x.pp, !.prev = 46,
                                          !.s = x.n - 1, !.sp = x.pp]
            [] OTHER -> RunReq(text, Step(x, c, h), h)
Request(text, x, h) == RunReq(text, [x EXCEPT !.toks = <<>>], h)

\* All tokens of a text when hs[i] is the hint of request i.
RECURSIVE Requests(_,_,_,_)
Requests(text, hs, x, out) ==
  IF x.st /= "run" THEN [toks |-> out, st |-> x.st]
  ELSE LET r == Len(out) + 1
           y == Request(text, x, IF r <= Len(hs) THEN hs[r] ELSE Hint(FALSE, FALSE))
       IN Requests(text, hs, y, out \o y.toks)
LexAll(text, hs) == Requests(text, hs, Lex0, <<>>)
=============================================================================
