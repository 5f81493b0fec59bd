------------------------------- MODULE MCFaults -------------------------------
(* A chain of programs, each of which writes a file of its own through a     *)
(* buffer, on a device which may be full at any byte; a program starts when  *)
(* the one before it has succeeded.  The first Raw of them write files of    *)
(* work, the others the databases, which are there from before.  A program   *)
(* notes a write which fails and looks at the note when it ends.             *)
EXTENDS Naturals, Sequences
CONSTANTS Programs, Raw, MaxSize, MaxRoom, MaxBuffer
VARIABLES size,      \* what each program has to write
          room,      \* what the device still takes
          bsize,     \* of the buffer
          stage, made, buffered, bad, file, status
vars == <<size, room, bsize, stage, made, buffered, bad, file, status>>
Old == [old |-> TRUE, n |-> 0]

Init == /\ size \in [1..Programs -> 0..MaxSize] /\ room \in 0..MaxRoom /\ bsize \in 1..MaxBuffer
        /\ stage = 1 /\ made = 0 /\ buffered = 0 /\ bad = FALSE
        /\ file = [p \in 1..Programs |-> IF p = 1 THEN [old |-> FALSE, n |-> 0] ELSE Old] /\ status = "running"
Running == status = "running"
\* the buffer goes to the file, as much of it as the device takes
Empty == LET n == IF buffered <= room THEN buffered ELSE room
         IN  /\ room' = room - n /\ file' = [file EXCEPT ![stage].n = @ + n]
             /\ bad' = (bad \/ n < buffered)
Put == /\ Running /\ made < size[stage] /\ buffered < bsize
       /\ made' = made + 1 /\ buffered' = IF bad THEN 0 ELSE buffered + 1     \* once it failed it writes no more
       /\ UNCHANGED <<size, room, bsize, stage, bad, file, status>>
Flush == /\ Running /\ buffered = bsize /\ made < size[stage] /\ Empty /\ buffered' = 0
         /\ UNCHANGED <<size, bsize, stage, made, status>>
End == /\ Running /\ made = size[stage]
       /\ LET n == IF buffered <= room THEN buffered ELSE room
              failed == bad \/ n < buffered
              done == [file EXCEPT ![stage].n = @ + n]
          IN  /\ room' = room - n
              /\ IF failed THEN status' = "failed" /\ file' = done /\ stage' = stage
                 ELSE IF stage = Programs THEN status' = "done" /\ file' = done /\ stage' = stage
                 ELSE status' = status /\ stage' = stage + 1 /\ file' = [done EXCEPT ![stage + 1] = [old |-> FALSE, n |-> 0]]
       /\ made' = 0 /\ buffered' = 0 /\ bad' = FALSE
       /\ UNCHANGED <<size, bsize>>
Next == Put \/ Flush \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a success is a success
Honest == status = "done" => \A p \in 1..Programs : ~file[p].old /\ file[p].n = size[p]
\* no file of before is lost when a file of work has not been written
Kept == status = "failed" /\ stage <= Raw => \A p \in (Raw + 1)..Programs : file[p] = Old
\* a program which starts reads whole files
Whole == \A p \in 1..(stage - 1) : file[p].n = size[p]
\* nothing is refused when there is room for all
Enough == status = "failed" => room = 0
Ends == <>(status # "running")
=============================================================================
