------------------------------ MODULE TraceSpell ------------------------------
(* Conformance of the dictionary, the tries, the disambiguation, the UTF-8   *)
(* iterator and the replacements.                                            *)
EXTENDS Reindex, Spell, Replay

B(p) == IF p THEN 1 ELSE 0
InDict(D, q) == q \in D

\* the words made of pre, of a character lo..hi (but no surrogate) and of a suffix
ByRule(lo, hi, pre, suf, q) ==
    /\ Len(q) > Len(pre) /\ SubSeq(q, 1, Len(pre)) = pre
    /\ LET s == Len(pre)
           n == CharLen(q[s + 1])
           c == CodePoint(SubSeq(q, s + 1, s + n))
       IN  /\ s + n <= Len(q)
           /\ c \in lo..hi /\ c \notin 55296..57343
           /\ \E k \in 1..Len(suf) : suf[k] = SubSeq(q, s + n + 1, Len(q))

Explains(e) ==
    CASE e.st # "ok" -> FALSE
      [] e.op = "dict" ->       \* words, queries -> q: four answers for each, text of the file
            LET D == NonEmpty(e.words)
            IN  /\ Len(e.out.q) = Len(e.queries)
                /\ \A i \in 1..Len(e.queries) : \A k \in 1..4 : e.out.q[i][k] = B(e.queries[i] \in D)
                /\ \A k \in 1..2 : e.out.empty[k] = B(D = {})
                /\ e.out.same = 1
                /\ LET nodes == NodesOf(e.out.text)
                    IN  FlatSound(nodes) /\ Language(nodes) = {Chars(w) : w \in D}
      [] e.op = "bigdict" ->    \* a large dictionary given by its rule: D is what ByRule says
            /\ Len(e.out.q) = Len(e.queries)
            /\ \A i \in 1..Len(e.queries) : \A k \in 1..4 :
                   e.out.q[i][k] = B(ByRule(e.lo, e.hi, e.pre, e.suffixes, e.queries[i]))
            /\ e.out.same = 1
      [] e.op = "dictf" ->      \* a dictionary written by the tool from words
            LET D == NonEmpty(e.words)
            IN  /\ \A i \in 1..Len(e.queries) : \A k \in 1..2 : e.out.q[i][k] = B(e.queries[i] \in D)
                /\ LET nodes == NodesOf(e.text)
                   IN  FlatSound(nodes) /\ Language(nodes) = {Chars(w) : w \in D}
      [] e.op = "mktrie" ->     \* the tool, on files with a word per line, then queries on what it wrote
            LET D == NonEmpty(Flatten([i \in 1..Len(e.files) |-> Lines(e.files[i])]))
            IN  /\ e.rc = 0
                /\ Len(e.out.q) = Len(e.queries)
                /\ \A i \in 1..Len(e.queries) : \A k \in 1..2 : e.out.q[i][k] = B(e.queries[i] \in D)
                /\ LET nodes == NodesOf(e.text)
                   IN  FlatSound(nodes) /\ Language(nodes) = {Chars(w) : w \in D}
      [] e.op = "trie" ->
            LET D == NonEmpty(e.words)
            IN  \A i \in 1..Len(e.queries) :
                    LET w == Walk(D, e.queries[i])
                    IN  e.out[i] = <<w, w>>
      [] e.op = "ridx" -> e.out.s = Reordered(e.idx, e.items) /\ e.out.same = 1
      [] e.op = "bigridx" ->
            e.out = [size |-> e.n, at |-> [q \in 1..Len(e.at) |-> ByStep(e.n, e.m, e.k, e.at[q])]]
      [] e.op = "trieall" ->
            LET D == NonEmpty(e.words)
                al == Range(e.al)
            IN  \A i \in 1..Len(e.queries) :
                    LET w == WalkAll(al, e.n, D, e.queries[i])
                    IN  e.out[i] = <<w, w>>
      [] e.op = "dis" ->
            LET D == NonEmpty(e.words)
                p == Pick(D, e.pos)
            IN  IF p = NoWord THEN e.out = [ok |-> 0, out |-> e.prefix]
                ELSE e.out = [ok |-> 1, out |-> e.prefix \o p]
      [] e.op = "utf" ->
            LET cs == Chars(e.text)
                end(i) == Sum(i, LAMBDA k : Len(cs[k]))
            IN  /\ e.out.it = [i \in 1..Len(cs) |-> cs[i] \o <<-1, end(i), 1>>]
                /\ e.out.uni = [i \in 1..Len(cs) |-> <<CodePoint(cs[i]), end(i)>>]
      [] e.op = "rawdict" ->    \* words of any bytes
            LET D == NonEmpty([i \in 1..Len(e.words) |-> Readable(e.words[i])])
            IN  /\ \A i \in 1..Len(e.queries) : \A k \in {1, 3} : e.out.q[i][k] = B(e.queries[i] \in D)
                /\ e.out.same = 1
                /\ LET nodes == NodesOf(e.out.text)
                    IN  FlatSound(nodes) /\ Language(nodes) = {RawChars(w) : w \in D}
      [] e.op = "rawmktrie" ->
            LET ws == Flatten([i \in 1..Len(e.files) |-> Lines(e.files[i])])
                D == NonEmpty([i \in 1..Len(ws) |-> Readable(ws[i])])
                nodes == NodesOf(e.text)
            IN  e.rc = 0 /\ FlatSound(nodes) /\ Language(nodes) = {RawChars(w) : w \in D}
      [] e.op = "rawdis" ->
            LET D == NonEmpty([i \in 1..Len(e.words) |-> Readable(e.words[i])])
                p == PickRead(D, e.pos)
            IN  IF p = NoWord THEN e.out = [ok |-> 0, out |-> e.prefix]
                ELSE e.out = [ok |-> 1, out |-> e.prefix \o p]
      [] e.op = "rawutf" ->
            LET cs == RawChars(e.text)
                points == [i \in 1..Len(cs) |-> CodePoint(cs[i])]
                stop == Min({i \in 1..Len(cs) : points[i] = 0} \cup {Len(cs) + 1})    \* an overlong zero
                end(i) == Sum(i, LAMBDA k : Len(cs[k]))
            IN  /\ e.out.it = [i \in 1..Len(cs) |-> cs[i] \o <<-1, end(i), 1>>]
                /\ e.out.uni = [i \in 1..(stop - 1) |-> <<points[i], end(i)>>]
      [] e.op = "repl" -> e.out = Rewrite(e.text, e.reps)
      [] e.op = "replf" -> e.out = ReplacementsOf(e.text)

TraceNext == More /\ Consume /\ (IF Explains(Ev) THEN TRUE ELSE Reject)
TraceSpec == ReplayInit /\ [][TraceNext]_<<shard, at>>
=============================================================================
