------------------------------ MODULE MCParse -------------------------------
(* Every sequence of token events over Alphabet, up to Depth of them after   *)
(* each prefix in Prefixes, explored once per configuration set.  Checked:   *)
(* what the properties say in terms of the history.  Every edge is written   *)
(* to the output, to be replayed in the parser.                              *)
EXTENDS JsHistory, Json, IOUtils

RangeOf(s) == { s[i] : i \in 1..Len(s) }
\* The bounds: alphabet and prefixes (sequences of token classes), see bounds.json.
Bounds == JsonDeserialize(IOEnv.BOUNDS)
Alphabet == RangeOf(Bounds.alphabet)
Prefixes == RangeOf(Bounds.prefixes)
Depth == Bounds.depth
NLs == RangeOf(Bounds.nl)
Dump == Bounds.dump
VARIABLES cfgs,    \* the configuration set
          hist,    \* the token events so far
          txt,    \* the same, spelled
          steps,    \* how many of them are after the prefix
          cfgs0,   \* the set after the prefix
          depth0,   \* its number of open brackets
        pre       \* the prefix
vars == <<cfgs, hist, txt, steps, cfgs0, depth0, pre>>
\* Histories that leave the same way on are explored once for each prefix and last event: an
\* implementation may tell them apart.
View == <<cfgs, pre, IF hist = <<>> THEN "" ELSE hist[Len(hist)].c>>

Spelled(t) == (IF t.nl THEN "\\n" ELSE "") \o t.c
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE (IF Len(s) = 1 THEN "" ELSE Join(SubSeq(s, 1, Len(s) - 1)) \o " ") \o s[Len(s)]
Events(p) == Ev(p)
Init == \E p \in Prefixes :
          /\ hist = Events(p) /\ txt = Join(p) /\ steps = 0 /\ pre = p
          /\ cfgs = Run(InitSet, Events(p)) /\ cfgs0 = cfgs /\ depth0 = Len(Brackets(Events(p)))
Take(t) ==
  /\ cfgs /= {} /\ steps < Depth /\ Possible(cfgs, t)
  /\ cfgs' = Feed(cfgs, t) /\ hist' = Append(hist, t) /\ steps' = steps + 1
  /\ txt' = (IF txt = "" THEN "" ELSE txt \o " ") \o Spelled(t)
  /\ UNCHANGED <<cfgs0, depth0, pre>>
Next == \E c \in Alphabet, b \in NLs : Take([c |-> c, nl |-> b])
Spec == Init /\ [][Next]_vars

T == hist'[Len(hist')]                      \* the event of this step
Br == Brackets(hist)
LastC == Tok(hist, Len(hist))
Semi == [c |-> ";", nl |-> FALSE]
StatusAfter == Status(cfgs')

(* ------------------------------ every state ------------------------------- *)
PrefixOK == cfgs0 /= {} /\ Strict(cfgs0) /= {}
\* P05..P09: whatever is live can be completed to a program.
CanComplete == Strict(cfgs) /= {} /\ Tok(hist, Len(hist)) /= "eof" =>
                 Verdict(Run(Strict(cfgs), Ev(Complete(cfgs)))) = "accept"
\* P15: what is not dead has matching brackets; an accepted program has closed them all.
Balanced == cfgs /= {} => Br /= Bad /\ (Verdict(cfgs) = "accept" => Br = <<>> /\ LastC = "eof")
\* P01: a slash never has two readings, and never the wrong one.
OperandEnds == {"num", "str", "re", "tplN", "tplT", "]", "null", "true", "false"}
OperandStarts == {"(", "[", ",", ";", "{", "=", "+=", "+", "-", "*", "**", "!", "~", "?", ":", "&&", "||", "<", "=>", "tplH", "tplM",
                  "...", "==", "%", "/", "/=", "<<", "&"}
OneGoal == LET SX == Strict(cfgs) IN
  /\ ~(DivViable(SX) /\ DeriveAll(SX, [c |-> "re", nl |-> FALSE]) /= {})
  /\ LastC \in OperandEnds => DeriveAll(SX, [c |-> "re", nl |-> FALSE]) = {}
  /\ LastC \in OperandStarts => ~DivViable(SX)
\* P02: a template goes on exactly in an innermost substitution whose expression is complete.
TemplateGoal ==
  /\ TplViable(cfgs) => Innermost(hist, Br) \in {"tplH", "tplM"}
  /\ Innermost(hist, Br) \in {"tplH", "tplM"} => DeriveAll(cfgs, [c |-> "}", nl |-> FALSE]) = {}
  /\ (Innermost(hist, Br) \in {"tplH", "tplM"} /\ DivViable(Strict(cfgs))) => TplViable(Strict(cfgs))

(* ------------------------------ every step -------------------------------- *)
\* P03: what an inserted semicolon leads to is what a written one leads to; none in a for header,
\* none as an empty statement, and none before a token on the same line.
Direct == DeriveAll(Strict(cfgs), T)
Inserted == Strict(cfgs') /= {} /\ Strict(Direct) = {}
InsertionRight ==
  Inserted => /\ T.nl \/ T.c \in {"}", "eof"}
              /\ Strict(cfgs') \subseteq Feed(Feed(cfgs, Semi), T)
              /\ ~(Innermost(hist, Br) \in {"(", "[", "tplH", "tplM"})
              /\ LastC \notin {";", "{", "else", "do", ":", "=>", ",", "(", "."} \/ T.c = ""
\* and it is inserted wherever that helps, except in those places
InsertionComplete ==
  (T.nl \/ T.c \in {"}", "eof"}) /\ Strict(Direct) = {} /\ Strict(cfgs') = {} /\ Strict(cfgs) /= {} =>
    \/ Strict(InsertAll(Strict(cfgs), T)) = {}
    \/ DeriveAll(InsertAll(Strict(cfgs), T), T) = {} \/ Loose(cfgs') /= {}
\* P04: restricted productions.
NlMatters == {"return", "break", "continue", "throw", "yield", "async", "=>"}
LinesRight ==
  /\ T.nl /\ T.c = "=>" => cfgs' = {}
  /\ T.nl /\ LastC = "throw" /\ Tok(hist, Len(hist) - 1) \in {"", ";", "{"} /\ T.c \notin {":", "(", ",", "}", "="} => Strict(cfgs') = {}
  /\ T.nl /\ LastC \in {"return", "break", "continue"} /\ Tok(hist, Len(hist) - 1) = ";" /\ Strict(cfgs') /= {} /\ T.c \notin {";", ":", "("} =>
       Strict(cfgs') \subseteq Feed(Feed(cfgs, Semi), T)
  /\ T.nl /\ T.c \in {"++", "--"} /\ DivViable(Strict(cfgs)) /\ Strict(cfgs') /= {} =>
       Strict(cfgs') \subseteq Feed(Feed(cfgs, Semi), T)
  \* elsewhere a line terminator changes nothing for a token that could follow on the same line
  /\ T.nl /\ LastC \notin NlMatters /\ T.c \notin {"=>", "++", "--"} /\ Strict(DeriveAll(Strict(cfgs), [T EXCEPT !.nl = FALSE])) /= {} =>
       Strict(cfgs') = Strict(Feed(cfgs, [T EXCEPT !.nl = FALSE]))
\* P09: module items only at the top level (names of members and keys aside).
TopOnly ==
  T.c \in {"import", "export"} /\ Br /= <<>> /\ Strict(cfgs') /= {} =>
    LastC \in {".", "{", ",", "*", "get", "set", "async", "static", "as", ";", "}"} /\ Innermost(hist, Br) = "{"
\* P10: `in' directly in the first clause of a for header is never the operator; elsewhere it always is.
InRight ==
  T.c = "in" /\ Strict(DeriveAll(Strict(cfgs), [c |-> "%", nl |-> FALSE])) /= {} =>
    IF ForInit(hist, Br)
    THEN \A x \in Strict(cfgs') : Head(x[1])[1] /= "BinRhs"
    ELSE \E x \in Strict(cfgs') : Head(x[1])[1] = "BinRhs"
\* P11: yield and await where an expression may begin, by the innermost function (no arrows around).
Arrowless == \A i \in 1..Len(hist) : hist[i].c /= "=>"
\* (yield is an assignment expression, so it may not follow an operator)
AssignStarts == {";", "(", "[", "=", "+=", "return", "throw", "tplH", "tplM", "=>", "else", "do", "case"}
YieldAwait ==
  T.c \in {"yield", "await"} /\ Arrowless /\ DeriveAll(Strict(cfgs), [c |-> "!", nl |-> T.nl]) /= {} =>
    LET mine == FnKind(hist, Br) = (IF T.c = "yield" THEN "gen" ELSE "async") IN
    /\ Strict(cfgs') /= {} => mine
    /\ mine /\ (T.c = "await" \/ LastC \in AssignStarts) => Strict(cfgs') /= {}
\* P12: reserved words as names.
NameRight ==
  /\ T.c \in Keywords /\ LastC = "." => Strict(cfgs') = Strict(Feed(cfgs, [T EXCEPT !.c = "id"]))
  /\ T.c \in Keywords /\ LastC \in {"var", "const", "class"} /\ Tok(hist, Len(hist) - 1) \in {"", ";", "{"}
       /\ ~(LastC = "class" /\ T.c = "extends") => cfgs' = {}
  /\ T.c \in Contextual /\ Strict(Direct) = {} /\ Strict(cfgs) /= {} =>
       \/ DeriveAll(Strict(cfgs), [T EXCEPT !.c = "id"]) = {} \/ T.c \in {"async", "of"}
\* P16: a finished statement leaves what may follow as it was after the prefix.
Closer == IF depth0 = 0 THEN "eof" ELSE "}"
Finished == /\ LastC = ";" /\ Br /= Bad /\ Len(Br) = depth0 /\ steps > 0
            /\ DeriveAll(Strict(cfgs), [c |-> Closer, nl |-> FALSE]) /= {}
            /\ DeriveAll(Strict(cfgs0), [c |-> Closer, nl |-> FALSE]) /= {}
            /\ DeriveAll(Strict(cfgs0), [c |-> ";", nl |-> FALSE]) /= {}
Restored == Finished /\ T.c /= "else" => Strict(cfgs') = Strict(Feed(cfgs0, T))

P03 == [][InsertionRight /\ InsertionComplete]_vars
P04 == [][LinesRight]_vars
P09 == [][TopOnly]_vars
P10 == [][InRight]_vars
P11 == [][YieldAwait]_vars
P12 == [][NameRight]_vars
P16 == [][Restored]_vars

(* ------------------------------ output ------------------------------------ *)
Edge == ~Dump \/ PrintT("E@" \o txt' \o "@" \o StatusAfter \o "@" \o Verdict(cfgs'))
=============================================================================
