----------------------------- MODULE UpdateQueueMC ----------------------------
(* All histories of NT threads and NU updates; what the statement says about whole histories is     *)
(* checked with the help of a clock that counts events.                                             *)
EXTENDS UpdateQueue
CONSTANTS NT, NU, MaxA
VARIABLES now, begun, ended, at, applies, cleared   \* when the push of u began and returned, when u was run, begin of every application, clears
mvars == <<vars, now, begun, ended, at, applies, cleared>>
Threads == 1..NT
U == 1..NU
Kind(u) == u % 3                                      \* 0 throws, 1 plain, 2 clears when it runs
Tick == now' = now + 1
Keep == UNCHANGED <<begun, ended, at, applies, cleared>>
MInit == Init /\ now = 1 /\ begun = [u \in U |-> 0] /\ ended = [u \in U |-> 0] /\ at = [u \in U |-> 0] /\ applies = <<>> /\ cleared = 0
Begun == {u \in U : begun[u] > 0}
MNext ==
    \/ \E t \in Threads, u \in U : u \notin Begun /\ (\A x \in U : x < u => x \in Begun) /\ Push(t, u)
          /\ (app # <<>> /\ app[1] = t => running # 0)
          /\ begun' = [begun EXCEPT ![u] = now] /\ Tick /\ UNCHANGED <<ended, at, applies, cleared>>
    \/ \E t \in Threads, u \in U : Pushed(t, u) /\ ended' = [ended EXCEPT ![u] = now] /\ Tick /\ UNCHANGED <<begun, at, applies, cleared>>
    \/ \E t \in Threads : cleared < 1 /\ Clear(t) /\ (app # <<>> /\ app[1] = t => running # 0) /\ cleared' = now /\ Tick /\ UNCHANGED <<begun, ended, at, applies>>
    \/ \E t \in Threads : Cleared(t) /\ Tick /\ Keep
    \/ \E t \in Threads : Len(applies) < MaxA /\ Apply(t, Len(applies)) /\ applies' = Append(applies, <<now, 0>>) /\ Tick /\ UNCHANGED <<begun, ended, at, cleared>>
    \/ \E t \in Threads, u \in U : app # <<>> /\ Run(t, u, app[2], app[2]) /\ at' = [at EXCEPT ![u] = Len(applies)] /\ Tick /\ UNCHANGED <<begun, ended, applies, cleared>>
    \/ \E t \in Threads : running # 0 /\ app # <<>> /\ Ran(t, running, Kind(running) # 0) /\ Tick /\ Keep
    \/ \E t \in Threads, ok \in BOOLEAN : Applied(t, ok) /\ applies' = [applies EXCEPT ![Len(applies)] = <<@[1], now>>] /\ Tick /\ UNCHANGED <<begun, ended, at, cleared>>
    \/ Hidden /\ UNCHANGED <<now, begun, ended, at, applies, cleared>>
MSpec == MInit /\ [][MNext]_mvars
\* Without clearing and throwing updates: an update whose push returned before an application began has been run
\* when that application has returned, and in the order of the pushes
Delivered == \A u \in U : \A k \in 1..Len(applies) :
    (ended[u] > 0 /\ ended[u] < applies[k][1] /\ applies[k][2] > 0 /\ cleared = 0 /\ (\A x \in U : Kind(x) # 0)) => (at[u] > 0 /\ at[u] <= k)
\* An update is never run by an application that returned before the push began
NotBefore == \A u \in U : at[u] > 0 => (applies[at[u]][2] = 0 \/ begun[u] < applies[at[u]][2])
Ordered == \A u, v \in U : (ended[u] > 0 /\ begun[v] > ended[u] /\ at[u] > 0 /\ at[v] > 0) => at[u] <= at[v]
MInv == Inv /\ Delivered /\ NotBefore /\ Ordered
=============================================================================
