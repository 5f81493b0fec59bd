--------------------------------- MODULE MCRaw ---------------------------------
(* A string of any bytes is read character by character.  Its memory is the  *)
(* bytes and the zero which ends them: nothing beyond may be looked at.      *)
EXTENDS Spell
CONSTANTS Alphabet, MaxLen
VARIABLES text, pos, seen, out, st
vars == <<text, pos, seen, out, st>>
Memory == text \o <<0>>
Init == text = <<>> /\ pos = 1 /\ seen = 0 /\ out = <<>> /\ st = "write"
Write == st = "write" /\ Len(text) < MaxLen /\ \E b \in Alphabet : text' = Append(text, b) /\ UNCHANGED <<pos, seen, out, st>>
Begin == st = "write" /\ st' = "first" /\ UNCHANGED <<text, pos, seen, out>>
\* look at the first byte of a character
First ==
    /\ st = "first"
    /\ seen' = Max({seen, pos})
    /\ LET b == Memory[pos]
       IN  IF b = 0 \/ Stray(b) THEN st' = "done" /\ UNCHANGED <<out, pos>>
           ELSE /\ pos' = pos + 1
                /\ out' = Append(out, <<b>>)
                /\ st' = IF CharLen(b) = 1 THEN "first" ELSE "next"
    /\ UNCHANGED text
\* look at another byte of the character
Next ==
    /\ st = "next"
    /\ seen' = Max({seen, pos})
    /\ LET b == Memory[pos]
           c == Append(out[Len(out)], b)
       IN  IF b = 0 THEN out' = SubSeq(out, 1, Len(out) - 1) /\ st' = "done" /\ UNCHANGED pos
           ELSE /\ out' = [out EXCEPT ![Len(out)] = c]
                /\ pos' = pos + 1
                /\ st' = IF Len(c) = CharLen(c[1]) THEN "first" ELSE "next"
    /\ UNCHANGED text
Step == First \/ Next
Spec == Init /\ [][Write \/ Begin \/ Step]_vars /\ WF_vars(Step)

Inside  == seen <= Len(text) + 1
Agrees  == st = "done" => out = RawChars(text)
Kept    == st = "done" => LET r == Readable(text) IN HasPrefix(text, r) /\ RawChars(r) = out
\* a word which is UTF-8 is all read, and its characters are those of Spell
Good    == st = "done" /\ IsUtf8(text) => out = Chars(text)
\* a valid start stays what it is whatever comes after
Stable  == st = "done" =>
    \A n \in 0..Len(text) : IsUtf8(SubSeq(text, 1, n)) =>
        SubSeq(out, 1, Len(Chars(SubSeq(text, 1, n)))) = Chars(SubSeq(text, 1, n))
Ends    == st = "first" ~> st = "done"
=============================================================================
