---- MODULE TimeQueueMC ----
(* Exhaustive exploration of TimeQueue: each delay ends once, not before its deadline and not after a *)
(* later deadline, and when the time allows it everybody who waits is resumed.                      *)
EXTENDS TimeQueue
CONSTANTS N, T
VARIABLES done, begun, ended
mcvars == <<vars, done, begun, ended>>
K == 1..N
MCInit == Init /\ done = {} /\ begun = 0 /\ ended = 0
MCNext == \E t \in now..T :
    \/ \E k \in K \ done : Start(k, t) /\ UNCHANGED <<done, begun, ended>>
    \/ begun < N + 2 /\ \E k \in K, d \in -1..2, w \in 0..1 : Delay(k, d, t, w) /\ begun' = begun + 1 /\ UNCHANGED <<done, ended>>
    \/ \E k \in K : Resumed(k, t) /\ ended' = ended + 1 /\ UNCHANGED <<done, begun>>
    \/ \E k \in K : Done(k, t) /\ done' = done \cup {k} /\ UNCHANGED <<begun, ended>>
    \/ (Loop(t) \/ Looped(t)) /\ UNCHANGED <<done, begun, ended>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Once == begun = ended + Cardinality(DOMAIN pend) + (IF ready THEN 1 ELSE 0)
Served == \A k \in DOMAIN pend : (loop /\ run = <<>> /\ \A x \in DOMAIN pend : pend[x] <= T) => \E x \in DOMAIN pend, t \in now..T : ENABLED Resumed(x, t)
Ordered == [][\A k \in DOMAIN pend \ DOMAIN pend' : pend[k] <= now' /\ \A x \in DOMAIN pend' : pend[k] <= pend[x]]_mcvars
====
