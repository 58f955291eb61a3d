----------------------------- MODULE SnapshotTrace -----------------------------
(* A save that is given the mutex of the value, interleaved with threads that change the value under
   that mutex (property C04). The events were recorded in the order in which they happened:
     <<"start">>           a save begins                  <<"end", ok>>    it returned (ok = 0: reported a failure)
     <<"lock", t>> <<"unlock", t>>                        t = 0: the saving thread, 1..: the others
     <<"set", t, f, x>>    thread t changes field f       <<"call">>       the saving thread calls the file system
     <<"loaded", x>>       what the files contain afterwards, <<>>: no value                                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT NF
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES val,      \* the value in memory: a sequence of NF fields
          holder,   \* of the mutex, -1: free
          saving,
          cand,     \* the values that the running save may store
          stored,   \* the values that the files may contain, <<>>: nothing
          l
vars == <<val, holder, saving, cand, stored, l>>
Zero == [i \in 1..NF |-> 0]
TInit == val = Zero /\ holder = -1 /\ saving = FALSE /\ cand = {} /\ stored = {<<>>} /\ l = 1
\* the value is consistent at every instant at which no other thread holds the mutex
Consistent(v, h) == IF h \in {-1, 0} THEN {v} ELSE {}
Step(o) ==
    CASE o[1] = "reset" -> val' = Zero /\ holder' = -1 /\ saving' = FALSE /\ cand' = {} /\ stored' = {<<>>}
      [] o[1] = "start" -> ~saving /\ saving' = TRUE /\ cand' = Consistent(val, holder) /\ UNCHANGED <<val, holder, stored>>
      [] o[1] = "lock" -> /\ holder = -1 /\ holder' = o[2]
                          /\ o[2] = 0 => saving
                          /\ cand' = IF saving THEN cand \cup Consistent(val, holder) ELSE {}
                          /\ UNCHANGED <<val, saving, stored>>
      [] o[1] = "unlock" -> /\ holder = o[2] /\ holder' = -1
                            /\ cand' = IF saving THEN cand \cup {val} ELSE {}
                            /\ UNCHANGED <<val, saving, stored>>
      [] o[1] = "set" -> /\ holder = o[2] /\ o[2] > 0 /\ val' = [val EXCEPT ![o[3]] = o[4]]
                         /\ UNCHANGED <<holder, saving, cand, stored>>
      [] o[1] = "call" -> saving /\ holder # 0 /\ UNCHANGED <<val, holder, saving, cand, stored>>
      [] o[1] = "end" -> /\ saving /\ holder # 0 /\ saving' = FALSE /\ cand' = {}
                         /\ stored' = IF o[2] = 1 THEN cand ELSE stored \cup cand
                         /\ UNCHANGED <<val, holder>>
      [] o[1] = "loaded" -> /\ ~saving
                            /\ IF o[2] \in stored THEN TRUE ELSE PrintT(<<"REJECT", l, stored>>) /\ FALSE
                            /\ stored' = {o[2]}
                            /\ UNCHANGED <<val, holder, saving, cand>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l].o)
TSpec == TInit /\ [][TNext]_vars
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
