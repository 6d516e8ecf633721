----------------------------- MODULE MCLexEdges -----------------------------
(* Every transition of the tokenizer's table: one shortest text into each    *)
(* mode, followed by one character of each class, with each hint.  Written   *)
(* out, to be replayed in the tokenizer with several continuations.          *)
EXTENDS MCLex, SequencesExt

\* One character of every class.
Rep == [ k \in Classes \ {"end"} |-> IF k = "zs" THEN 8239 ELSE IF k = "ubad" THEN 8594 ELSE IF k = "uni" THEN 233
            ELSE CHOOSE c \in (0..127) \cup {8232} : Class(c) = k /\ (k = "WS" => c = 32) /\ (k = "bad" => c = 35) ]
RepChars == { Rep[k] : k \in DOMAIN Rep }
\* A mode is known by its name, and by whether the hint got us there.
ModeView == <<x.m, x.st, Len(x.toks) > 0, Len(text) = 0>>
EdgeNext == \E c \in RepChars : Len(x.toks) = 0 /\ Read(c)
EdgeSpec == Init /\ [][EdgeNext]_vars
Edge == PrintT("E@" \o ToJson([text |-> text', hs |-> [ i \in 1..Len(hs') |-> <<hs'[i].expr, hs'[i].tpl>> ], m |-> x.m, to |-> x'.m, st |-> x'.st]))
\* Modes with a nonempty way in: checked by the number of distinct states.
=============================================================================
