------------------------------- MODULE Replay -------------------------------
(* Replays recorded runs of the implementation.  TRACE names a JSON file: an *)
(* array of shards, each an array of events; the shards are independent and  *)
(* are walked in parallel by TLC's workers.  An event which no action of the *)
(* specification explains is printed as REJECTED and skipped, so that the    *)
(* rest of the trace is examined too; the caller also compares the number of *)
(* states with the number of events.                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Shards == JsonDeserialize(IOEnv.TRACE)

VARIABLES shard, at            \* which shard, number of events consumed

More      == at < Len(Shards[shard])
Ev        == Shards[shard][at + 1]
Consume   == at' = at + 1 /\ shard' = shard
ReplayInit == shard \in 1..Len(Shards) /\ at = 0
Reject    == PrintT(<<"REJECTED", Ev.id>>)
=============================================================================
