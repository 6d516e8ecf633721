------------------------------ MODULE LexProps ------------------------------
(* What the tokens of a text must be, said without reference to the machine  *)
(* of JsLex: by their text, the text around them, and the caller's hint.     *)
(* T is a text, t a token record of JsLex (from t.s, to t.e, 0-based), h the *)
(* hint of the request that returned it.                                     *)
EXTENDS JsLex

LineTerm == {LF, CR, LS, PS}
At(T, i) == IF i \in 1..Len(T) THEN T[i] ELSE EndOfText
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ------------------------------- L01, L02 --------------------------------- *)
Tiles(T, toks, done) ==
  /\ \A i \in 1..Len(toks) :
       LET from == IF i = 1 THEN 0 ELSE toks[i - 1].e IN
         /\ from <= toks[i].s /\ toks[i].e <= Len(T)
         /\ \A j \in (from + 1)..toks[i].s : T[j] \in WhiteSpace
         /\ IF toks[i].k = "eof" THEN i = Len(toks) /\ done ELSE toks[i].s < toks[i].e
  /\ done => /\ Len(toks) > 0
             /\ LET z == toks[Len(toks)] IN z.k = "eof" /\ z.s = Len(T) /\ z.e = Len(T)

RECURSIVE Bytes(_,_)
Bytes(T, n) == IF n = 0 THEN 0 ELSE Bytes(T, n - 1) + Utf8(T[n])
PosAt(T, n) ==
  [ off  |-> Bytes(T, n),
    line |-> 1 + Cardinality({ j \in 1..n : T[j] \in LineTerm /\ ~(T[j] = LF /\ At(T, j - 1) = CR) }),
    col  |-> n - MaxOf({0} \cup { j \in 1..n : T[j] \in LineTerm }) ]
PositionsRight(T, toks) == \A i \in 1..Len(toks) : toks[i].sp = PosAt(T, toks[i].s) /\ toks[i].ep = PosAt(T, toks[i].e)

(* --------------------------------- L03 ------------------------------------ *)
RECURSIVE Spell(_,_,_)
Spell(T, s, e) == IF e <= s THEN "" ELSE Spell(T, s, e - 1) \o (IF T[e] \in DOMAIN PunctChar THEN PunctChar[T[e]] ELSE "?!")
AllPunct == Punctuators \cup {"/", "/=", "}"}
IsIdStart(c) == c \in Low \cup Up \cup {36, 95}
IsIdPart(c) == IsIdStart(c) \/ c \in 48..57
PunctRight(T, t) ==
  /\ Spell(T, t.s, t.e) = t.k
  /\ \A p \in AllPunct : t.s + Len(p) <= Len(T) /\ Spell(T, t.s, t.s + Len(p)) = p => Len(p) <= t.e - t.s
  /\ ~(t.k = "." /\ At(T, t.e + 1) \in 48..57)      \* that would be a number
WordRight(T, t) ==
  /\ IsIdStart(T[t.s + 1])
  /\ \A j \in (t.s + 1)..t.e : IsIdPart(T[j])
  /\ ~IsIdPart(At(T, t.e + 1))

(* --------------------------------- L04 ------------------------------------ *)
IsDig(c) == c \in 48..57
AllIn(T, s, e, S) == \A j \in (s + 1)..e : T[j] \in S
HexSet == (48..57) \cup (65..70) \cup (97..102)
IsRadix(T, s, e) ==
  /\ e - s >= 3 /\ T[s + 1] = 48
  /\ \/ T[s + 2] \in {120, 88} /\ AllIn(T, s + 2, e, HexSet)
     \/ T[s + 2] \in {111, 79} /\ AllIn(T, s + 2, e, 48..55)
     \/ T[s + 2] \in {98, 66}  /\ AllIn(T, s + 2, e, 48..49)
IsExp(T, s, e) ==
  \/ s = e
  \/ /\ T[s + 1] \in {101, 69}
     /\ LET d == IF At(T, s + 2) \in {43, 45} THEN s + 2 ELSE s + 1
        IN d < e /\ AllIn(T, d, e, 48..57)
IsInt(T, s, e) == e > s /\ AllIn(T, s, e, 48..57) /\ (e = s + 1 \/ T[s + 1] /= 48)
IsDecimal(T, s, e) ==
  \E i \in s..e : \E f \in i..e :
    /\ IsExp(T, f, e)
    /\ \/ IsInt(T, s, i) /\ f = i
       \/ IsInt(T, s, i) /\ f > i /\ T[i + 1] = 46 /\ AllIn(T, i + 1, f, 48..57)
       \/ s = i /\ f > i + 1 /\ T[i + 1] = 46 /\ AllIn(T, i + 1, f, 48..57)
IsNum(T, s, e) == e > s /\ (IsRadix(T, s, e) \/ IsDecimal(T, s, e))
NumRight(T, t) == IsNum(T, t.s, t.e) /\ \A e \in (t.e + 1)..Len(T) : ~IsNum(T, t.s, e)

(* ------------------------------- L05, L06 --------------------------------- *)
\* How many backslashes stand directly before place j (1-based), after place s.
RECURSIVE Slashes(_,_,_)
Slashes(T, s, j) == IF j - 1 <= s \/ T[j - 1] /= 92 THEN 0 ELSE 1 + Slashes(T, s, j - 1)
Escaped(T, s, j) == Slashes(T, s, j) % 2 = 1
StrRight(T, t) ==
  LET q == T[t.s + 1] IN
  /\ q \in {34, 39} /\ t.e >= t.s + 2 /\ T[t.e] = q /\ ~Escaped(T, t.s + 1, t.e)
  /\ \A j \in (t.s + 2)..(t.e - 1) :
       /\ T[j] = q => Escaped(T, t.s + 1, j)
       /\ T[j] \in 49..57 => ~Escaped(T, t.s + 1, j)
       /\ T[j] \in LineTerm => Escaped(T, t.s + 1, j) \/ (T[j] = LF /\ T[j - 1] = CR /\ Escaped(T, t.s + 1, j - 1))
TplRight(T, t, h) ==
  LET tail == t.k \in {"tplN", "tplT"}
      last == IF tail THEN t.e - 1 ELSE t.e - 2     \* the text is t.s + 2 .. last
  IN /\ T[t.s + 1] = (IF t.k \in {"tplN", "tplH"} THEN 96 ELSE 125)
     /\ t.k \in {"tplM", "tplT"} => h.tpl
     /\ last >= t.s + 1
     /\ IF tail THEN T[t.e] = 96 /\ ~Escaped(T, t.s + 1, t.e)
        ELSE T[t.e] = 123 /\ T[t.e - 1] = 36 /\ ~Escaped(T, t.s + 1, t.e - 1)
     /\ \A j \in (t.s + 2)..last :
          /\ T[j] = 96 => Escaped(T, t.s + 1, j)
          /\ (T[j] = 36 /\ T[j + 1] = 123 /\ j + 1 <= last) => Escaped(T, t.s + 1, j)
BraceRight(T, t, h) == t.k = "}" => ~h.tpl /\ t.e = t.s + 1

(* --------------------------------- L07 ------------------------------------ *)
LineComRight(T, t) ==
  /\ T[t.s + 1] = 47 /\ T[t.s + 2] = 47
  /\ \A j \in (t.s + 1)..t.e : T[j] \notin LineTerm
  /\ At(T, t.e + 1) \in LineTerm \cup {EndOfText}
BlockComRight(T, t) ==
  /\ t.e - t.s >= 4 /\ T[t.s + 1] = 47 /\ T[t.s + 2] = 42 /\ T[t.e - 1] = 42 /\ T[t.e] = 47
  /\ \A j \in (t.s + 3)..(t.e - 2) : ~(T[j] = 42 /\ T[j + 1] = 47)
LtRight(T, t) ==
  \/ t.e = t.s + 1 /\ T[t.e] \in LineTerm /\ ~(T[t.e] = CR /\ At(T, t.e + 1) = LF)
                   /\ ~(T[t.e] = LF /\ At(T, t.s) = CR)
  \/ t.e = t.s + 2 /\ T[t.s + 1] = CR /\ T[t.e] = LF

(* --------------------------------- L08 ------------------------------------ *)
\* In a class after reading s + 2 .. j of a regular expression that starts at s.
RECURSIVE InSet(_,_,_)
InSet(T, s, j) ==
  IF j <= s + 1 THEN FALSE
  ELSE IF Escaped(T, s + 1, j) THEN InSet(T, s, j - 1)
  ELSE IF T[j] = 91 THEN TRUE ELSE IF T[j] = 93 THEN FALSE ELSE InSet(T, s, j - 1)
Closes(T, s, j) == T[j] = 47 /\ ~Escaped(T, s + 1, j) /\ ~InSet(T, s, j - 1)
ReRight(T, t, h) ==
  /\ h.expr /\ T[t.s + 1] = 47 /\ T[t.s + 2] \notin {47, 42}
  /\ \E j \in (t.s + 3)..t.e :
       /\ Closes(T, t.s, j)
       /\ \A i \in (t.s + 2)..(j - 1) : ~Closes(T, t.s, i) /\ T[i] \notin LineTerm
       /\ AllIn(T, j, t.e, Low) /\ At(T, t.e + 1) \notin Low
SlashRight(T, t, h) == t.k \in {"/", "/="} => ~h.expr

(* ------------------------------ one token --------------------------------- *)
TokenRight(T, t, h) ==
  CASE t.k = "word" -> WordRight(T, t)
    [] t.k = "num" -> NumRight(T, t)
    [] t.k = "str" -> StrRight(T, t)
    [] t.k \in {"tplN", "tplH", "tplM", "tplT"} -> TplRight(T, t, h)
    [] t.k = "lcom" -> LineComRight(T, t)
    [] t.k = "bcom" -> BlockComRight(T, t)
    [] t.k = "lt" -> LtRight(T, t)
    [] t.k = "re" -> ReRight(T, t, h)
    [] t.k = "eof" -> TRUE
    [] OTHER -> PunctRight(T, t) /\ BraceRight(T, t, h) /\ SlashRight(T, t, h)

(* --------------------------------- L10 ------------------------------------ *)
\* What stands at s (0-based, not white space) is malformed when asked for with hint h.
Unclosed(T, s, q) == ~\E j \in (s + 2)..Len(T) : T[j] = q /\ ~Escaped(T, s + 1, j)
BadLine(T, s, to) == \E j \in (s + 2)..to : T[j] \in LineTerm /\ ~Escaped(T, s + 1, j)
                        /\ ~(T[j] = LF /\ T[j - 1] = CR /\ Escaped(T, s + 1, j - 1))
DigitEscape(T, s, to) == \E j \in (s + 2)..to : T[j] \in 49..57 /\ Escaped(T, s + 1, j)
Malformed(T, s, h) ==
  LET c == At(T, s + 1)  d == At(T, s + 2) IN
  CASE c \in {34, 39} ->
         Unclosed(T, s, c) \/ LET z == CHOOSE j \in (s + 2)..Len(T) : T[j] = c /\ ~Escaped(T, s + 1, j)
                                          /\ \A i \in (s + 2)..(j - 1) : T[i] = c => Escaped(T, s + 1, i)
                              IN BadLine(T, s, z) \/ DigitEscape(T, s, z)
    [] c = 96 \/ (c = 125 /\ h.tpl) ->
         ~\E j \in (s + 2)..Len(T) : ~Escaped(T, s + 1, j) /\ (T[j] = 96 \/ (T[j] = 36 /\ At(T, j + 1) = 123))
    [] c = 47 /\ d = 42 -> ~\E j \in (s + 3)..(Len(T) - 1) : T[j] = 42 /\ T[j + 1] = 47
    [] c = 47 /\ d = 47 -> FALSE
    [] c = 47 /\ h.expr ->
         ~\E j \in (s + 2)..Len(T) : Closes(T, s, j) /\ \A i \in (s + 2)..(j - 1) : T[i] \notin LineTerm
    [] c = 48 /\ d \in {120, 88} -> At(T, s + 3) \notin HexSet
    [] c = 48 /\ d \in {111, 79} -> At(T, s + 3) \notin 48..55 \/
         LET z == MaxOf({ e \in (s + 3)..Len(T) : IsRadix(T, s, e) }) IN At(T, z + 1) \in 56..57
    [] c = 48 /\ d \in {98, 66} -> At(T, s + 3) \notin 48..49 \/
         LET z == MaxOf({ e \in (s + 3)..Len(T) : IsRadix(T, s, e) }) IN At(T, z + 1) \in 50..57
    [] IsDig(c) \/ (c = 46 /\ IsDig(d)) ->
         \* the longest part without an exponent is followed by an exponent mark without digits
         LET z == MaxOf({ e \in (s + 1)..Len(T) : IsNum(T, s, e) /\ \A j \in (s + 1)..e : T[j] \notin {101, 69} })
         IN At(T, z + 1) \in {101, 69} /\ ~\E e \in (z + 1)..Len(T) : IsNum(T, s, e)
    [] OTHER -> Class(c) \in {"bad", "ubad"}
=============================================================================
