--------------------------- MODULE StorageProtocol ---------------------------
(* The protocol of AtomicStorage at the level of file operations, with killed processes, power
   failures that lose unsynced operations, and failing operations; the ghost variable `cand` is the
   contract of StorageContract. A value occupies Blocks checksummed blocks; the checksum of a block
   does not depend on its position, so a mix of blocks of two values reads as garbage, not as damage:
   the protocol has to make sure that a load never reads a mix. *)
EXTENDS StorageContract, TLC
CONSTANTS MaxSaves, MaxFaults, MaxCrashes, Blocks
ASSUME Blocks \in 1..3
Files == {"m", "b"}
VARIABLES durable,   \* [Files -> sequence of blocks <<v, i>>, <<0, 0>>: damaged]
          pending,   \* [Files -> operations since the last fsync]
          pc, cur,   \* what the process does, and the value it saves or has read from the backup
          ready,     \* m_backupReady
          loaded,    \* the process has done a load that could read the backup (a save without that: known finding)
          faulted,   \* an operation of the current call failed
          cand, saves, faults, crashes
vars == <<durable, pending, pc, cur, ready, loaded, faulted, cand, saves, faults, crashes>>
Torn == <<0, 0>>
Garbage == 99

Put(s, i, x) == [k \in 1..(IF Len(s) < i THEN i ELSE Len(s)) |-> IF k = i THEN x ELSE IF k <= Len(s) THEN s[k] ELSE Torn]
Do(s, op) == IF op[1] = "t" THEN SubSeq(s, 1, op[2]) ELSE Put(s, op[2], op[3])
TornOp(s, op) == IF op[1] = "t" THEN s ELSE Put(s, op[2], Torn)
RECURSIVE DoAll(_, _)
DoAll(s, ops) == IF ops = <<>> THEN s ELSE DoAll(Do(s, Head(ops)), Tail(ops))
Cached(f) == DoAll(durable[f], pending[f])
FileImagesOf(f) == {DoAll(durable[f], SubSeq(pending[f], 1, n)) : n \in 0..Len(pending[f])}
                   \cup {TornOp(DoAll(durable[f], SubSeq(pending[f], 1, n)), pending[f][n + 1]) : n \in 0..(Len(pending[f]) - 1)}
\* the value read from a file: 0 if it is rejected
Parse(s) == IF Len(s) = Blocks /\ (\E v \in 1..MaxSaves : \A i \in 1..Blocks : s[i] = <<v, i>>) THEN s[1][1]
            ELSE IF Len(s) = Blocks /\ Torn \notin {s[i] : i \in 1..Blocks} THEN Garbage
            ELSE 0

Init == /\ durable = [f \in Files |-> <<>>] /\ pending = [f \in Files |-> <<>>]
        /\ pc = <<"down">> /\ cur = 0 /\ ready = FALSE /\ loaded = FALSE /\ faulted = FALSE
        /\ cand = {0} /\ saves = 0 /\ faults = 0 /\ crashes = 0

Rest == UNCHANGED <<durable, pending, cand, saves, faults, crashes>>
\* a file operation: done, or failed (a write may be half done), which ends the call in the way `fail`
Op(f, op, next, fail) ==
    \/ /\ pending' = [pending EXCEPT ![f] = IF op[1] = "s" THEN <<>> ELSE Append(@, op)]
       /\ durable' = [durable EXCEPT ![f] = IF op[1] = "s" THEN Cached(f) ELSE @]
       /\ pc' = next /\ UNCHANGED <<faulted, faults>>
    \/ /\ faults < MaxFaults /\ faults' = faults + 1 /\ faulted' = TRUE
       /\ pc' = fail
       /\ UNCHANGED durable
       /\ \/ UNCHANGED pending
          \/ op[1] = "w" /\ pending' = [pending EXCEPT ![f] = Append(@, <<"w", op[2], Torn>>)]

Up == pc[1] \notin {"down", "up"}
Open == /\ pc = <<"down">> /\ pc' = <<"up">> /\ ready' = FALSE /\ loaded' = FALSE /\ faulted' = FALSE /\ cur' = 0 /\ Rest
Finish(call) == /\ cand' = After(cand, call) /\ pc' = <<"up">> /\ UNCHANGED <<durable, pending, saves, faults, crashes>>

StartLoad == /\ pc = <<"up">> /\ pc' = <<"load">> /\ faulted' = FALSE /\ UNCHANGED <<cur, ready, loaded>> /\ Rest
\* reading the backup can fail, then the master is read; that can fail as well
Load ==
    /\ pc = <<"load">>
    /\ \E bf \in BOOLEAN, mf \in BOOLEAN :
       /\ (bf \/ mf) => faults < MaxFaults
       /\ faults' = IF bf \/ mf THEN faults + 1 ELSE faults
       /\ faulted' = (bf \/ mf)
       /\ LET b == IF bf THEN 0 ELSE Parse(Cached("b")) m == IF mf THEN 0 ELSE Parse(Cached("m")) IN
          \/ /\ b # 0 /\ cur' = b /\ ready' = TRUE /\ pc' = <<"repair", "flush", 0>> /\ ~mf /\ UNCHANGED <<loaded, cand>>
          \* it is unknown what the backup contains, so the master cannot be trusted
          \/ /\ bf /\ ~mf /\ pc' = <<"up">> /\ cur' = 0 /\ UNCHANGED <<loaded, ready, cand>>
          \/ /\ ~bf /\ b = 0 /\ m # 0 /\ cur' = m /\ ready' = FALSE /\ pc' = <<"repair", "flushm", 0>> /\ UNCHANGED <<loaded, cand>>
          \/ /\ ~bf /\ b = 0 /\ m = 0 /\ pc' = <<"up">> /\ cur' = 0 /\ loaded' = TRUE /\ UNCHANGED <<ready, cand>>
    /\ UNCHANGED <<durable, pending, saves, crashes>>
LoadDone == /\ pc = <<"loaded">> /\ loaded' = TRUE /\ UNCHANGED <<cur, ready, faulted>> /\ Finish(<<"load", cur, IF faulted THEN 1 ELSE 0>>)

StartSave == /\ pc = <<"up">> /\ loaded /\ saves < MaxSaves /\ saves' = saves + 1 /\ cur' = saves + 1 /\ faulted' = FALSE
             /\ pc' = IF ready THEN <<"save", "flush", 0>> ELSE IF Cached("b") # <<>> THEN <<"save", "clear0", 0>> ELSE <<"save", "wb", 1>>
             /\ UNCHANGED <<durable, pending, cand, faults, crashes, ready, loaded>>
\* the steps of a call: where, the operation on the file, the next place
Steps(w, k, load) ==
    CASE w = "clear0" -> <<"b", <<"t", 0>>, <<"clear0s", 0>>>>
      [] w = "clear0s" -> <<"b", <<"s">>, <<"wb", 1>>>>
      [] w = "wb" -> <<"b", <<"w", k, <<cur, k>>>>, IF k = Blocks THEN <<"tb", 0>> ELSE <<"wb", k + 1>>>>
      [] w = "tb" -> <<"b", <<"t", Blocks>>, <<"sb", 0>>>>
      [] w \in {"sb", "flush"} -> <<"b", <<"s">>, <<"wm", 1>>>>
      [] w = "wm" -> <<"m", <<"w", k, <<cur, k>>>>, IF k = Blocks THEN <<"tm", 0>> ELSE <<"wm", k + 1>>>>
      [] w = "tm" -> <<"m", <<"t", Blocks>>, <<"sm", 0>>>>
      [] w \in {"sm", "flushm"} -> <<"m", <<"s">>, <<"clear", 0>>>>
      [] w = "clear" -> <<"b", <<"t", 0>>, <<"clears", 0>>>>
      [] w = "clears" -> <<"b", <<"s">>, <<"end", 0>>>>
Step == /\ pc[1] \in {"save", "repair"} /\ pc[2] # "end"
        /\ LET st == Steps(pc[2], pc[3], pc[1] = "repair") IN
           /\ Op(st[1], st[2], <<pc[1]>> \o st[3], IF pc[1] = "save" THEN <<"failed">> ELSE <<"loaded">>)
           /\ ready' = IF pc[2] = "clear" THEN FALSE
                       ELSE IF pc[2] = "sb" /\ pc'[1] # "failed" THEN TRUE ELSE ready
        /\ UNCHANGED <<cur, loaded, cand, saves, crashes>>
SaveDone == /\ pc[1] = "save" /\ pc[2] = "end" /\ UNCHANGED <<cur, ready, loaded, faulted>> /\ Finish(<<"save", cur, 0, "ok">>)
RepairDone == /\ pc[1] = "repair" /\ pc[2] = "end" /\ pc' = <<"loaded">> /\ UNCHANGED <<cur, ready, loaded, faulted>> /\ Rest
SaveFailed == /\ pc = <<"failed">> /\ UNCHANGED <<cur, ready, loaded, faulted>> /\ Finish(<<"save", cur, 1, "fail">>)

CutCand == IF pc[1] \in {"save", "failed"} THEN cand \cup {cur} ELSE cand
Down == /\ pc # <<"down">> /\ crashes < MaxCrashes /\ crashes' = crashes + 1
        /\ pc' = <<"down">> /\ cur' = 0 /\ ready' = FALSE /\ loaded' = FALSE /\ faulted' = FALSE /\ cand' = CutCand
        /\ UNCHANGED <<saves, faults>>
Kill == Down /\ UNCHANGED <<durable, pending>>
PowerLoss == /\ Down /\ \E m \in FileImagesOf("m"), b \in FileImagesOf("b") : durable' = [f \in Files |-> IF f = "m" THEN m ELSE b]
             /\ pending' = [f \in Files |-> <<>>]
Next == Open \/ StartLoad \/ Load \/ LoadDone \/ StartSave \/ Step \/ SaveDone \/ RepairDone \/ SaveFailed \/ Kill \/ PowerLoss
Spec == Init /\ [][Next]_vars

\* what a load of the files yields when nothing fails
LoadOf(m, b) == IF Parse(b) # 0 THEN Parse(b) ELSE Parse(m)
\* C01, C02: at every instant, whatever a power failure or a kill leaves loads as a value of the contract
Recoverable == \A m \in FileImagesOf("m"), b \in FileImagesOf("b") : LoadOf(m, b) \in CutCand
\* a load hands out only values of the contract
LoadsOk == pc = <<"loaded">> => cur \in cand
NeverMixed == cur # Garbage
=============================================================================
