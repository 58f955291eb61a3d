-------------------------------- MODULE Sleep --------------------------------
(* C24. Interruptible sleeps on one stop state. Times are in microseconds of virtual time. When time *)
(* passes only while nobody can go on (strict), a sleep ends exactly at its deadline or at the moment *)
(* of the stop; otherwise it ends later, but nobody is asleep when nothing more can happen.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES strict,  \* time passes only when nobody can go on
          asleep,  \* thread -> its deadline
          begun,   \* when the first stop was requested, -1 if it was not
          stopped  \* when a request of a stop returned
vars == <<strict, asleep, begun, stopped>>
Never == 2000000000
Init == strict = FALSE /\ asleep = <<>> /\ begun = Never /\ stopped = Never
Reset == strict' = FALSE /\ asleep' = <<>> /\ begun' = Never /\ stopped' = Never
Least(a, b) == IF a < b THEN a ELSE b

Sleep(t, d, n) == /\ t \notin DOMAIN asleep
                  /\ asleep' = [x \in DOMAIN asleep \cup {t} |-> IF x = t THEN n + (IF d > 0 THEN d ELSE 0) ELSE asleep[x]]
                  /\ UNCHANGED <<strict, begun, stopped>>
Slept(t, n) == /\ t \in DOMAIN asleep
               /\ n >= asleep[t] \/ begun <= n
               /\ strict => (n <= asleep[t])
               /\ asleep' = [x \in DOMAIN asleep \ {t} |-> asleep[x]]
               /\ UNCHANGED <<strict, begun, stopped>>
Stop(n) == begun' = Least(begun, n) /\ UNCHANGED <<strict, asleep, stopped>>
Stopped(n) == begun <= n /\ stopped' = Least(stopped, n) /\ UNCHANGED <<strict, asleep, begun>>
\* Nothing more happens without the passage of time
Idle(n) == /\ \A t \in DOMAIN asleep : n < asleep[t] /\ stopped = Never
           /\ UNCHANGED vars
Mode(b) == strict' = b /\ UNCHANGED <<asleep, begun, stopped>>
Finished == asleep = <<>> /\ UNCHANGED vars
Hidden == FALSE /\ UNCHANGED vars
Step(o) == LET k == o[1] IN
    CASE k = "mode" -> Mode(o[2] = 1)
      [] k = "sleep" -> Sleep(o[2], o[3], o[4])
      [] k = "slept" -> Slept(o[2], o[3])
      [] k = "stop" -> Stop(o[2])
      [] k = "stopped" -> Stopped(o[2])
      [] k = "idle" -> Idle(o[2])
      [] k = "finished" -> Finished
      [] OTHER -> FALSE
Inv == (stopped < Never) => (begun <= stopped)
=============================================================================
