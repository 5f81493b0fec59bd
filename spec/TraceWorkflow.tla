----------------------------- MODULE TraceWorkflow -----------------------------
(* Conformance of the programs: sessions of a user who writes files and runs *)
(* programs on them.  The state is what the files contain.                   *)
EXTENDS Workflow, Replay
VARIABLE files
NoFiles == [n \in {} |-> <<>>]
Maybe(n) == IF n = "" THEN [have |-> FALSE, b |-> <<>>] ELSE [have |-> TRUE, b |-> files[n]]
Of(ns) == [i \in 1..Len(ns) |-> files[ns[i]]]

Explains(e) ==
    CASE e.op \in {"start", "file"} -> TRUE
      [] e.st # "ok" -> FALSE                       \* it crashed or did not end
      [] e.op = "label" ->
            WithOption(e.lum, e.rc, LAMBDA l : LabelOk([i \in 1..Len(e.args) |-> <<files[e.args[i].img], files[e.args[i].text], e.args[i].font>>], l, e.rc, e.out))
      [] e.op = "show"      -> WithOption(e.lum, e.rc, LAMBDA l : ShowOk(Of(e.args), l, e.rc, e.out))
      [] e.op = "normalize" -> NormalizeOk(Of(e.args), e.rc, e.out)
      [] e.op = "datas"     -> DatasOk(files[e.args[1]], e.rc, e.out)
      [] e.op = "trie"      -> TrieOk(Of(e.args), e.rc, e.out)
      [] e.op = "extract"   ->
            ExtractOk([glyphs |-> files[e.args.glyphs], datas |-> files[e.args.datas], img |-> files[e.args.img],
                       infos |-> Maybe(e.args.infos), dict |-> Maybe(e.args.dict)], e.rc, e.out)
      [] e.op = "learn"     -> LearnOk(e.latin, e.cyrillic, e.before, e.after, e.rc)
      [] e.op = "limited"   -> LimitedOk(e.rc0, e.full, e.room, e.rc, e.out)
      [] e.op = "learnlimited" -> LearnLimitedOk(e.latin, e.cyrillic, e.before, e.after, e.rc, e.free, e.room)
      [] e.op = "unreadable" -> (\E i \in 1..Len(e.names) : e.names[i] \notin DOMAIN files) => e.rc # 0
      [] e.op = "usage"     -> e.rc # 0             \* not the arguments it takes
      \* two outputs which must be the same
      [] e.op = "same"      -> files[e.args[1]] = files[e.args[2]]
      [] e.op = "samepairs" -> Pairs(GlyphsOf(files[e.args[1]])) = Pairs(GlyphsOf(files[e.args[2]]))

Content(e) == IF e.op = "file" THEN e.bytes ELSE e.out
TraceNext == /\ More /\ Consume
             /\ files' = (IF Ev.op = "start" THEN NoFiles
                          ELSE IF Ev.to = "" THEN files ELSE (Ev.to :> Content(Ev)) @@ files)
             /\ (IF Explains(Ev) THEN TRUE ELSE Reject)
TraceSpec == (ReplayInit /\ files = NoFiles) /\ [][TraceNext]_<<shard, at, files>>
=============================================================================
