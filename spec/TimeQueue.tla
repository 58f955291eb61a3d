----------------------------- MODULE TimeQueue -----------------------------
(* C33. Coroutines suspended on a time queue. Time is virtual, in nanoseconds. pend[k] is the deadline *)
(* of the coroutine k suspended on the queue; run is the stack of those who have control above the    *)
(* loop or the program; ready are those whose non-positive delay must not suspend them.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES now, pend, run, loop, ready
vars == <<now, pend, run, loop, ready>>
None == <<>>
Init == now = 0 /\ pend = None /\ run = <<>> /\ loop = FALSE /\ ready = FALSE
Reset == now' = 0 /\ pend' = None /\ run' = <<>> /\ loop' = FALSE /\ ready' = FALSE
Top == run[Len(run)]
Front == SubSeq(run, 1, Len(run) - 1)
Add(k, t) == pend' = [x \in DOMAIN pend \cup {k} |-> IF x = k THEN t ELSE pend[x]]
Time(t) == t >= now /\ now' = t
\* k is a new coroutine and has control
Start(k, t) == /\ Time(t) /\ ~ready /\ k \notin DOMAIN pend /\ \A i \in 1..Len(run) : run[i] # k
               /\ run' = Append(run, k) /\ UNCHANGED <<pend, loop, ready>>
\* Who has control awaits a delay at the time t; direct: it was put into the queue whatever the delay is
Delay(k, d, t, direct) ==
    /\ Time(t) /\ ~ready /\ run # <<>> /\ Top = k
    /\ IF d > 0 \/ direct = 1 THEN Add(k, t + d) /\ run' = Front /\ ready' = FALSE
       ELSE ready' = TRUE /\ UNCHANGED <<pend, run>>
    /\ UNCHANGED loop
\* It goes on at the time t
Resumed(k, t) ==
    /\ Time(t)
    /\ IF ready THEN run # <<>> /\ Top = k /\ t = now /\ ready' = FALSE /\ UNCHANGED <<pend, run>>
       ELSE /\ loop /\ run = <<>>
            /\ k \in DOMAIN pend /\ pend[k] <= t /\ \A x \in DOMAIN pend : pend[k] <= pend[x]
            /\ pend' = [x \in DOMAIN pend \ {k} |-> pend[x]] /\ run' = <<k>> /\ UNCHANGED ready
    /\ UNCHANGED loop
Done(k, t) == Time(t) /\ ~ready /\ run # <<>> /\ Top = k /\ run' = Front /\ UNCHANGED <<pend, loop, ready>>
Loop(t) == Time(t) /\ ~loop /\ run = <<>> /\ loop' = TRUE /\ UNCHANGED <<pend, run, ready>>
Looped(t) == Time(t) /\ loop /\ run = <<>> /\ pend = None /\ loop' = FALSE /\ UNCHANGED <<pend, run, ready>>
Step(o) == LET k == o[1] IN
    CASE k = "start" -> Start(o[2], o[3])
      [] k = "delay" -> Delay(o[2], o[3], o[4], o[5])
      [] k = "resumed" -> Resumed(o[2], o[3])
      [] k = "done" -> Done(o[2], o[3])
      [] k = "loop" -> Loop(o[2])
      [] k = "looped" -> Looped(o[2])
      [] OTHER -> FALSE
\* A coroutine is in one place
Inv == /\ \A i \in 1..Len(run) : run[i] \notin DOMAIN pend
       /\ ready => run # <<>>
=============================================================================
