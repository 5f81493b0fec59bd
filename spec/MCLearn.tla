-------------------------------- MODULE MCLearn --------------------------------
(* The learning of the fonts as the script does it, a program at a time,     *)
(* each stage only when the one before has succeeded.  Files are sequences   *)
(* of drawings; a font may have an image which does not go with its text.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Drawings, MaxImages
VARIABLES fonts,      \* [latin, cyrillic -> sequence of images: a drawing, or 0 when it does not go with its text]
          todo, raw, glyphs, datas, stage, status
vars == <<fonts, todo, raw, glyphs, datas, stage, status>>
Old == [old |-> TRUE, s |-> {}]
New(s) == [old |-> FALSE, s |-> s]
Alphabets == {"latin", "cyrillic"}
Bases == Alphabets \cup {"both"}
Good(a) == \A i \in 1..Len(fonts[a]) : fonts[a][i] # 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Stages == <<"label latin", "label cyrillic", "normalize latin", "normalize cyrillic", "normalize both",
            "measure latin", "measure cyrillic", "measure both", "clean">>

Init == /\ fonts \in [Alphabets -> UNION {[1..n -> Drawings \cup {0}] : n \in 1..MaxImages}]
        /\ todo = fonts /\ raw = [a \in {} |-> <<>>] /\ glyphs = [b \in Bases |-> Old] /\ datas = [b \in Bases |-> Old]
        /\ stage = 1 /\ status = "running"
Running == status = "running" /\ stage <= Len(Stages)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* one image of the alphabet; a bad one ends all
LabelOne(a, name) ==
    /\ Running /\ Stages[stage] = name
    /\ LET so == IF a \in DOMAIN raw THEN raw[a] ELSE <<>>
       IN  IF todo[a] = <<>> THEN stage' = stage + 1 /\ raw' = Put(raw, a, so) /\ UNCHANGED <<todo, status>>
           ELSE IF todo[a][1] = 0 THEN status' = "failed" /\ raw' = Put(raw, a, so) /\ UNCHANGED <<todo, stage>>
           ELSE /\ raw' = Put(raw, a, Append(so, todo[a][1])) /\ todo' = [todo EXCEPT ![a] = Tail(@)]
                /\ UNCHANGED <<stage, status>>
    /\ UNCHANGED <<fonts, glyphs, datas>>
Parts(b) == IF b = "both" THEN Alphabets ELSE {b}
Normalize(b, name) == /\ Running /\ Stages[stage] = name
                      /\ glyphs' = [glyphs EXCEPT ![b] = New(UNION {SetOf(raw[a]) : a \in Parts(b)})]
                      /\ stage' = stage + 1 /\ UNCHANGED <<fonts, todo, raw, datas, status>>
Measure(b, name) == /\ Running /\ Stages[stage] = name
                    /\ datas' = [datas EXCEPT ![b] = New(glyphs[b].s)]
                    /\ stage' = stage + 1 /\ UNCHANGED <<fonts, todo, raw, glyphs, status>>
Clean == /\ Running /\ Stages[stage] = "clean" /\ raw' = [a \in {} |-> <<>>] /\ status' = "done"
         /\ UNCHANGED <<fonts, todo, glyphs, datas, stage>>
Next == \/ LabelOne("latin", "label latin") \/ LabelOne("cyrillic", "label cyrillic")
        \/ \E b \in Bases : Normalize(b, "normalize " \o b) \/ Measure(b, "measure " \o b)
        \/ Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* all the fonts, or nothing
Complete == status = "done" => \A b \in Bases :
    /\ glyphs[b] = New(UNION {SetOf(fonts[a]) : a \in Parts(b)}) /\ datas[b].s = glyphs[b].s /\ ~datas[b].old
Untouched == status = "failed" => \A b \in Bases : glyphs[b] = Old /\ datas[b] = Old
Honest == status = "done" => Good("latin") /\ Good("cyrillic")
\* the feature files are never of other glyphs than the ones written just before
Correspond == \A b \in Bases : ~datas[b].old => ~glyphs[b].old /\ datas[b].s = glyphs[b].s
Ends == <>(status # "running")
=============================================================================
