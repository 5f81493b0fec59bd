------------------------------- MODULE TraceOcr -------------------------------
(* Conformance of the glyph databases, of the recognition and of the making  *)
(* of a text.  The databases of the recognitions are in the file DBS: each   *)
(* has images (or rows already measured) and views.                          *)
EXTENDS Universe, GlyphFile, Lines, Assemble, Damage, Replay

B(p) == IF p THEN 1 ELSE 0
Dbs == IF "DBS" \in DOMAIN IOEnv
       THEN LET raw == JsonDeserialize(IOEnv.DBS)
            IN  [i \in 1..Len(raw) |->
                    [views |-> raw[i].views,
                     rows  |-> IF raw[i].images = <<>> THEN raw[i].rows
                               ELSE [k \in 1..Len(raw[i].images) |-> Row(raw[i].images[k])]]]
       ELSE <<>>
InfoOf(entries, w) == CHOOSE x \in Infos(entries, w) : TRUE

(* Files which may be damaged: taken (what is given is all that they hold)   *)
(* or refused.                                                               *)
Loaded(e) ==
    LET taken == e.st = "ok"
        strict == StrictGlyphs(e.file)
        views == ViewsOnly(e.file)
        rows == StrictRows(e.file)
        infos == StrictInfos(e.file)
    IN  CASE e.op = "gload" -> taken = strict.ok /\ (taken => e.out = strict.v)
          [] e.op = "oload" -> IF taken THEN views.ok /\ e.out = FontsNumbered(views.v)
                               ELSE ~(views.ok /\ strict.ok)
          [] e.op = "fload" -> taken = rows.ok /\ (taken => e.out = rows.v)
          [] e.op = "dload" -> IF taken
                               THEN ~DictRefused(e.file)
                                    /\ (DictWritten(e.file) =>
                                        LET D == Language(NodesOf(e.file))
                                        IN  \A k \in 1..Len(e.queries) : e.out[k] = B(Chars(e.queries[k]) \in D))
                               ELSE ~DictWritten(e.file)
          [] e.op = "iload" ->      \* the lines of a word are three flags
                IF taken THEN infos.ok /\ e.out = [i \in 1..Len(infos.v) |-> <<infos.v[i][1], [k \in 1..4 |-> infos.v[i][2][k] % 8]>>]
                ELSE infos.ok => \E i \in 1..Len(infos.v), k \in 1..4 : infos.v[i][2][k] \notin 0..7
Loads == {"gload", "oload", "fload", "dload", "iload"}

Explains(e) ==
    CASE e.op \in Loads -> e.st \in {"ok", "exc"} /\ Loaded(e)
      [] e.st # "ok" -> FALSE
      [] e.op = "gio" ->        \* glyphs written, read back, at once and one by one
            /\ Tokens(e.out.text) = FileTokens(e.glyphs)
            /\ e.out.back = e.glyphs /\ e.out.one = e.glyphs
            /\ e.out.eof = 1 /\ e.out.good = 1 /\ e.out.eq = 1
      [] e.op = "gread" ->      \* a file written by another program
            e.out.back = GlyphsOf(e.text) /\ e.out.eof = 1
      [] e.op = "words" ->      \* what is loaded of a database: its words and fonts
            LET gs == GlyphsOf(e.text)
                ws == UNION {{gs[i].views[k][1] : k \in 1..Len(gs[i].views)} : i \in 1..Len(gs)}
            IN  /\ e.out.views = DbOf(gs)
                /\ \A k \in 1..Len(e.out.own) : e.out.own[k] = 1
                /\ Len(e.out.q) = Len(e.queries)
                /\ \A k \in 1..Len(e.queries) :
                       e.out.q[k] = IF e.queries[k] \in ws THEN <<1, e.queries[k]>> ELSE <<0>>
      [] e.op = "infos" ->      \* the line information of the words
            LET V == DbOf(GlyphsOf(e.text))
                en == InfoEntries(e.infos)
            IN  /\ Len(e.out.infos) = Len(V)
                /\ \A i \in 1..Len(V) : Len(e.out.infos[i]) = Len(V[i])
                      /\ \A k \in 1..Len(V[i]) : e.out.infos[i][k] \in Infos(en, V[i][k][1])
      [] e.op = "bigdb" ->      \* a large database given by its rule: view k has word k % w and font k % f
            LET word(k) == e.pre \o Digits(k % e.w)
                known(q) == /\ Len(q) > Len(e.pre) /\ SubSeq(q, 1, Len(e.pre)) = e.pre
                            /\ LET s == SubSeq(q, Len(e.pre) + 1, Len(q))
                               IN  Len(s) <= 6 /\ (\A i \in 1..Len(s) : s[i] \in 48..57) /\ (s[1] = 48 => Len(s) = 1)
                                   /\ ToNum(s) < Min2(e.w, e.n)
                en == InfoEntries(e.infos)
                glyphs == IF e.one = 1 THEN 1 ELSE e.n
                m == Len(e.asked)
            IN  /\ e.out.n = <<glyphs, glyphs, glyphs, glyphs>>
                /\ e.out.views = [i \in 1..m |-> <<word(e.asked[i]), e.asked[i] % e.f>>]
                /\ e.out.loaded = [i \in 1..m |->
                        LET k == e.asked[i]
                        IN  <<IF e.one = 1 THEN e.n ELSE 1, IF e.one = 1 THEN 1 ELSE (k % 3) + 1,
                              word(k), <<102>> \o Digits(k % e.f), k % 5>>]
                /\ Len(e.out.q) = Len(e.queries)
                /\ \A i \in 1..Len(e.queries) :
                       e.out.q[i] = IF known(e.queries[i]) THEN <<1, e.queries[i]>> ELSE <<0>>
                /\ Len(e.out.infos) = m
                /\ \A i \in 1..m : e.out.infos[i] \in Infos(en, word(e.asked[i]))
                /\ Len(e.out.ids) = m /\ Len(e.out.sib) = m
                /\ \A i \in 1..m : \A j \in 1..m :
                       (e.out.ids[i] = e.out.ids[j]) <=> (e.one = 1 \/ e.asked[i] % e.w = e.asked[j] % e.w)
                /\ \A i \in 1..m :
                       LET k == e.asked[i]
                           sib == IF e.one = 1 THEN {} ELSE {(k % e.w) + e.w * q : q \in 0..((e.n - 1 - (k % e.w)) \div e.w)} \ {k}
                       IN  {e.out.sib[i][x] : x \in 1..Len(e.out.sib[i])} = sib /\ Len(e.out.sib[i]) = Cardinality(sib)
      [] e.op = "classes" ->    \* the indexes on it
            LET V == DbOf(GlyphsOf(e.text))
                n == Len(V)
            IN  /\ Len(e.out.ids) = n /\ Len(e.out.sib) = n
                /\ \A i \in 1..n : \A j \in 1..n :
                       (e.out.ids[i] = e.out.ids[j]) <=> SameClass(V, i, j)
                /\ \A i \in 1..n :
                       /\ {e.out.sib[i][k] + 1 : k \in 1..Len(e.out.sib[i])} = Siblings(V, i)
                       /\ Len(e.out.sib[i]) = Cardinality(Siblings(V, i))
      [] e.op = "range" ->      \* the rows whose value is near
            /\ Len(e.out) = Len(e.queries)
            /\ \A k \in 1..Len(e.queries) :
                  LET near == {i \in 1..Len(e.values) : Abs(e.values[i] - e.queries[k][1]) <= e.queries[k][2]}
                  IN  {e.out[k][m] + 1 : m \in 1..Len(e.out[k])} = near /\ Len(e.out[k]) = Cardinality(near)
      [] e.op = "lines" ->
            LET en == InfoEntries(e.infos)
            IN  e.out = FilterByLines(e.lists, e.boxes, LAMBDA w : InfoOf(en, w))
      [] e.op = "font" ->
            e.out = [font |-> MainFont(e.lists), lists |-> FilterByFont(e.lists)]
      [] e.op = "text" ->       \* spaces: numbers of the characters (from 0) which follow a gap
            LET gaps == {e.spaces[k] + 1 : k \in 1..Len(e.spaces)}
            IN  e.out = [text |-> LineText(NonEmpty([i \in 1..Len(e.words) |-> Readable(e.words[i])]), e.lists, gaps), n |-> Unrecognized(e.lists)]
      [] e.op = "rec" ->        \* candidates of images, one after the other with the same database
            /\ Len(e.out) = Len(e.imgs)
            /\ \A k \in 1..Len(e.imgs) : Candidates(Dbs[e.db], Row(e.imgs[k]), e.out[k])
      [] e.op = "bigrec" ->     \* the database lost among thousands of copies of a glyph which is no candidate
            LET q == Row(e.imgs[1])
            IN  /\ ~Perfect(e.pad, q) /\ ~(Near(e.pad, q) /\ SameBars(e.pad, q))
                /\ \A i \in 1..Len(Dbs[e.db].views) : \A w \in Range(WordsOf(Dbs[e.db].views[i])) :
                       Len(w) < 3 \/ SubSeq(w, 1, 3) # e.padview
                /\ Len(e.out) = 1 /\ Candidates(Dbs[e.db], q, e.out[1])
      [] e.op = "self" ->       \* glyphs of the database are recognised: their words are among the candidates
            LET db == Dbs[e.db]
            IN  /\ Len(e.out) = Len(e.which)
                /\ \A k \in 1..Len(e.which) :
                      LET ws == WordsOf(db.views[e.which[k]])
                          got == WordsOf(e.out[k])
                      IN  \E s \in 0..(Len(got) - Len(ws)) : SubSeq(got, s + 1, s + Len(ws)) = ws

TraceNext == More /\ Consume /\ (IF Explains(Ev) THEN TRUE ELSE Reject)
TraceSpec == ReplayInit /\ [][TraceNext]_<<shard, at>>
=============================================================================
