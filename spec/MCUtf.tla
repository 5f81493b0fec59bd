--------------------------------- MODULE MCUtf ---------------------------------
(* A text grows character by character, each written by the rules of UTF-8;  *)
(* walking the text gives the characters back.                               *)
EXTENDS Spell
CONSTANTS Points, MaxChars
Encode(cp) ==
    IF cp < 128 THEN <<cp>>
    ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
    ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
VARIABLES chars, text
Init == chars = <<>> /\ text = <<>>
Type == Len(chars) < MaxChars /\ \E cp \in Points : chars' = Append(chars, cp) /\ text' = text \o Encode(cp)
Spec == Init /\ [][Type]_<<chars, text>>
Walked == [i \in 1..Len(Chars(text)) |-> CodePoint(Chars(text)[i])] = chars
Whole  == Flatten(Chars(text)) = text
\* the order of the bytes is the order of the characters
Order  == \A a, b \in Points : (a < b) <=> LtSeq(Encode(a), Encode(b))
=============================================================================
