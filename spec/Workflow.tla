------------------------------- MODULE Workflow -------------------------------
(* The programs as a user runs them: each takes files and writes one.  What  *)
(* may be written is said as a predicate on the contents of the files taken  *)
(* and on the output.                                                        *)
EXTENDS Pnm, Segment, GlyphFile, FeatureFile, Universe, Lines, Assemble, Damage

NoLines == -1
DefaultLuminance == 128

Cut(d) ==     \* the drawings of the characters of a decoded image, from left to right
    LET img == [w |-> d.w, h |-> d.h, p |-> d.p]
        bs  == Boxes(img)
    IN  [boxes |-> bs, drawings |-> [i \in 1..Len(bs) |-> Section(img, bs[i][1], bs[i][2], bs[i][3], bs[i][4])]]

-----------------------------------------------------------------------------
(* write_glyphs: images, texts and fonts -> a glyph per character            *)
Labelled(img, text, font, lum) ==
    LET d == Decode(img, lum)
        c == Cut(d)
        w == Tokens(text)
    IN  IF ~d.ok THEN Refused
        ELSE IF Len(c.drawings) # Len(w) THEN Refused
        ELSE [ok |-> TRUE, glyphs |-> [i \in 1..Len(w) |-> [img |-> c.drawings[i], views |-> <<<<w[i], font, NoLines>>>>]]]
\* triples: sequence of <<image, text, font>>
LabelOk(triples, lum, rc, out) ==
    LET ls == [i \in 1..Len(triples) |-> Labelled(triples[i][1], triples[i][2], triples[i][3], lum)]
    IN  IF \A i \in 1..Len(ls) : ls[i].ok
        THEN rc = 0 /\ Tokens(out) = FileTokens(Flatten([i \in 1..Len(ls) |-> ls[i].glyphs]))
        ELSE rc # 0

\* the value of the option -l: not a number (-1), or the number; above 999999999 (which no pixel
\* reaches) they are all alike
LumOf(t) == IF t = <<>> \/ \E i \in 1..Len(t) : ~Digit(t[i]) THEN -1
            ELSE LET z == {i \in 1..Len(t) : t[i] # 48}
                     v == IF z = {} THEN <<48>> ELSE SubSeq(t, Min(z), Len(t))
                 IN  IF Len(v) > 9 THEN 999999999 ELSE ToNum(v)
\* a luminance which is not a number is an error; one too large for the machine may be refused
WithOption(t, rc, Ok(_)) ==
    LET l == LumOf(t) IN IF l = -1 THEN rc # 0 ELSE Ok(l) \/ (l = 999999999 /\ rc # 0)

(* show_glyphs                                                               *)
ShowOk(imgs, lum, rc, out) ==
    LET ds == [i \in 1..Len(imgs) |-> Decode(imgs[i], lum)]
    IN  IF \A i \in 1..Len(ds) : ds[i].ok
        THEN rc = 0 /\ out = Flatten([i \in 1..Len(ds) |->
                 LET c == Cut(ds[i]).drawings IN Flatten([k \in 1..Len(c) |-> Draw(c[k]) \o <<NL>>])])
        ELSE rc # 0

(* normalize_glyphs                                                          *)
NormalizeOk(ins, rc, out) ==
    LET rs == [i \in 1..Len(ins) |-> StrictGlyphs(ins[i])]
    IN  IF \A i \in 1..Len(rs) : rs[i].ok
        THEN rc = 0 /\ StrictGlyphs(out).ok /\ IsNormalOf(Flatten([i \in 1..Len(ins) |-> rs[i].v]), StrictGlyphs(out).v)
        ELSE rc # 0                                 \* one of the files is damaged

(* write_datas                                                               *)
NumLines(b) == LET ls == Lines(b) IN [i \in 1..Len(ls) |-> LET t == Tokens(ls[i]) IN [k \in 1..Len(t) |-> ToNum(t[k])]]
DatasOk(in, rc, out) ==
    LET ds == DrawingsOnly(in)
    IN  IF rc = 0 THEN ds.ok /\ NumLines(out) = FileLines([i \in 1..Len(ds.v) |-> Row(ds.v[i])])
        ELSE ~(ds.ok /\ StrictGlyphs(in).ok)        \* damaged

(* make_trie_dictionary                                                      *)
TrieOk(ins, rc, out) ==
    LET ls == Flatten([i \in 1..Len(ins) |-> Lines(ins[i])])
        D == NonEmpty([i \in 1..Len(ls) |-> Readable(ls[i])])
        nodes == NodesOf(out)
    IN  rc = 0 /\ FlatSound(nodes) /\ Language(nodes) = {RawChars(w) : w \in D}
DictOf(trie) == {Flatten(w) : w \in Language(NodesOf(trie))}

-----------------------------------------------------------------------------
(* learning: directories of fonts -> a glyph file and a feature file for     *)
(* each alphabet and for both.  An alphabet is the sequence of its labelled  *)
(* images <<image, text, font>>; a text which is not there is <<0>>.         *)
LearningLuminance == 100
NoText == <<0>>
LabelledAll(alphabet) ==
    LET ls == [i \in 1..Len(alphabet) |->
                  IF alphabet[i][2] = NoText THEN Refused
                  ELSE Labelled(alphabet[i][1], alphabet[i][2], alphabet[i][3], LearningLuminance)]
    IN  IF \A i \in 1..Len(ls) : ls[i].ok THEN [ok |-> TRUE, glyphs |-> Flatten([i \in 1..Len(ls) |-> ls[i].glyphs])]
        ELSE Refused
\* before, after: the six files [latin, cyrillic, both -> glyphs, datas], each [have, b]
DatabaseOf(gs, glyphs, datas) ==
    /\ glyphs.have /\ IsNormalOf(gs, GlyphsOf(glyphs.b))
    /\ datas.have /\ DatasOk(glyphs.b, 0, datas.b)
LearnOk(latin, cyrillic, before, after, rc) ==
    LET l == LabelledAll(latin)
        c == LabelledAll(cyrillic)
    IN  IF l.ok /\ c.ok
        THEN /\ rc = 0
             /\ DatabaseOf(l.glyphs, after[1], after[4])
             /\ DatabaseOf(c.glyphs, after[2], after[5])
             /\ DatabaseOf(l.glyphs \o c.glyphs, after[3], after[6])
        ELSE rc # 0 /\ after = before             \* what was learned before stays

-----------------------------------------------------------------------------
(* Faults: an output which has room for so many bytes only, or none at all;  *)
(* a file which is not there or cannot be read.                              *)
\* the same run with all the room ended with rc0 and wrote full
LimitedOk(rc0, full, room, rc, out) ==
    IF rc0 # 0 THEN rc # 0
    ELSE IF Len(full) > room THEN rc # 0 /\ Len(out) <= room /\ SubSeq(full, 1, Len(out)) = out
    ELSE rc = 0 /\ out = full
\* learning when no file can have more than room bytes; free: the files it makes when they can
RawSize(gs) == LET t == FileTokens(gs) IN Sum(Len(t), LAMBDA i : Len(t[i]) + 1) - 1    \* at least
LearnLimitedOk(latin, cyrillic, before, after, rc, free, room) ==
    LET l == LabelledAll(latin)
        c == LabelledAll(cyrillic)
    IN  IF ~l.ok \/ ~c.ok THEN rc # 0 /\ after = before
        ELSE /\ rc = 0 => LearnOk(latin, cyrillic, before, after, rc)
             /\ (\E i \in 1..6 : Len(free[i].b) > room) => rc # 0
             /\ RawSize(l.glyphs) > room \/ RawSize(c.glyphs) > room => rc # 0 /\ after = before

-----------------------------------------------------------------------------
(* ocr2_extract_text: glyphs, features, image, line information, dictionary  *)
MinGap == 4
Gaps(bs) == {i \in 2..Len(bs) : bs[i - 1][1] + bs[i - 1][3] + MinGap < bs[i][1]}

\* "true", "false" and the fixed parts of the output
STrue == <<116, 114, 117, 101>>
SFalse == <<102, 97, 108, 115, 101>>
SDict == <<32, 35, 35, 32, 100, 105, 99, 116, 32, 63, 32>>                    \* " ## dict ? "
SDatas == <<32, 35, 35, 32, 100, 97, 116, 97, 115, 46, 115, 105, 122, 101, 40, 41, 58, 32>>       \* " ## datas.size(): "
SGlyphs == <<32, 35, 35, 32, 103, 108, 121, 112, 104, 115, 46, 115, 105, 122, 101, 40, 41, 58, 32>>
SGo == <<32, 35, 35, 32, 103, 111, 10>>
SResult == <<32, 35, 35, 32, 114, 101, 115, 117, 108, 116, 58, 32>>           \* " ## result: "
SUnrec == <<117, 110, 114, 101, 99, 111, 103, 110, 105, 122, 101, 100, 95>>   \* "unrecognized_"
SCount == <<99, 111, 117, 110, 116, 58, 32>>                                  \* "count: "
SRate == <<114, 97, 116, 101, 58, 32>>                                        \* "rate: "

At(out, pos, s) == pos + Len(s) - 1 <= Len(out) /\ SubSeq(out, pos, pos + Len(s) - 1) = s
EndOfLine(out, pos) == LET e == {j \in pos..Len(out) : out[j] = NL} IN IF e = {} THEN 0 ELSE Min(e)
\* the words shown after each new drawing: [ok, pos, words]
RECURSIVE ShownFrom(_, _, _, _)
ShownFrom(out, pos, ds, words) ==
    IF Len(words) = Len(ds) THEN [ok |-> TRUE, pos |-> pos, words |-> words]
    ELSE LET d == Draw(ds[Len(words) + 1])
             e == EndOfLine(out, pos + Len(d))
         IN  IF ~At(out, pos, d) \/ e = 0 THEN Refused
             ELSE ShownFrom(out, e + 1, ds, Append(words, Tokens(SubSeq(out, pos + Len(d), e - 1))))

\* the rate is written with a few decimals; four are looked at
RateOk(t, u, n) ==
    LET dot == {i \in 1..Len(t) : t[i] = 46}
        ip  == IF dot = {} THEN t ELSE SubSeq(t, 1, Min(dot) - 1)
        fp  == (IF dot = {} THEN <<>> ELSE SubSeq(t, Min(dot) + 1, Len(t))) \o <<48, 48, 48, 48>>
        v   == ToNum(ip) * 10000 + ToNum(SubSeq(fp, 1, 4))
    IN  /\ IsNum(ip) /\ \A i \in 1..Len(fp) : Digit(fp[i])
        /\ IF n = 0 THEN v = 0 ELSE Abs(v * n - u * 1000000) <= 2 * n

RECURSIVE ProductSize(_)
ProductSize(S) == IF S = <<>> THEN 1 ELSE IF Cardinality(S[1]) > 1000 THEN 1001
                  ELSE Min2(1001, Cardinality(S[1]) * ProductSize(Tail(S)))

\* what the end of the output says of the lists L of the characters
EndOk(out, pos, D, L, boxes, info(_)) ==
    LET lines == FilterByLines(L, boxes, info)
        final == FilterByFont(lines)
        n     == Len(L)
        u     == Unrecognized(final)
        head  == SResult \o LineText(D, final, Gaps(boxes)) \o <<NL>> \o SUnrec \o SCount \o NumText(u) \o <<NL>>
                 \o SCount \o NumText(n) \o <<NL>> \o SUnrec \o SRate
        p     == pos + Len(head)
    IN  /\ At(out, pos, head) /\ EndOfLine(out, p) = Len(out)
        /\ RateOk(SubSeq(out, p, Len(out) - 1), u, n)
\* the choices of views which the words shown allow
RECURSIVE Selections(_)
Selections(S) == IF S = <<>> THEN {<<>>} ELSE {<<x>> \o t : x \in S[1], t \in Selections(Tail(S))}

(* files: [glyphs, datas, img, infos, dict], the last two as [have, b]       *)
ExtractSound(in, rc, out) ==
    LET gs   == GlyphsOf(in.glyphs)
        nums == NumLines(in.datas)
        rows == RowsOf(nums)
        d    == Decode(in.img, DefaultLuminance)
        db   == [rows |-> rows, views |-> DbOf(gs)]
        D    == IF in.dict.have THEN DictOf(in.dict.b) ELSE {}
        en   == IF in.infos.have THEN InfoEntries(in.infos.b) ELSE <<>>
        info(w) == CHOOSE x \in Infos(en, w) : TRUE
        c    == Cut(d)
        n    == Len(c.drawings)
        ds   == Distinct(c.drawings)
        rank == [i \in 1..n |-> CHOOSE k \in 1..Len(ds) : ds[k] = c.drawings[i]]
        head == (IF in.dict.have THEN SDict \o (IF D = {} THEN SFalse ELSE STrue) \o <<NL>> ELSE <<>>)
                \o SDatas \o NumText(Len(rows)) \o <<NL>> \o SGlyphs \o NumText(Len(gs)) \o <<NL>> \o SGo
        sh   == ShownFrom(out, Len(head) + 1, ds, <<>>)
        outcomes == [k \in 1..Len(ds) |-> Outcomes(db, Row(ds[k]), sh.words[k])]
    IN  IF Len(rows) # Len(gs) \/ ~d.ok THEN rc # 0
        ELSE /\ rc = 0 /\ At(out, 1, head) /\ sh.ok
             /\ \A k \in 1..Len(ds) : outcomes[k] # {}
             /\ ProductSize(outcomes) <= 1000 =>
                    \E choice \in Selections(outcomes) :
                         EndOk(out, sh.pos, D, [i \in 1..n |-> choice[rank[i]]], c.boxes, info)
\* a file which is damaged is refused
Sound(in) == /\ StrictGlyphs(in.glyphs).ok /\ ViewsOnly(in.glyphs).ok /\ StrictRows(in.datas).ok
             /\ in.dict.have => DictWritten(in.dict.b)
             /\ in.infos.have => StrictInfos(in.infos.b).ok
Unusable(in) == \/ ~ViewsOnly(in.glyphs).ok \/ ~StrictRows(in.datas).ok
                \/ (in.dict.have /\ DictRefused(in.dict.b)) \/ (in.infos.have /\ ~StrictInfos(in.infos.b).ok)
ExtractOk(in, rc, out) == IF Unusable(in) THEN rc # 0 ELSE Sound(in) => ExtractSound(in, rc, out)
=============================================================================
