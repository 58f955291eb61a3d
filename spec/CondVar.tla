------------------------------- MODULE CondVar --------------------------------
(* C22. A condition variable with interruptible waits: one user lock, flags that are set under it,  *)
(* waiting, notifying and stopping threads; one stop state. Times are virtual; time passes only      *)
(* when no thread can go on.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES owner,    \* the thread that has the user lock, -1: nobody
          flags,    \* flags that have been set
          stopped,  \* stop has been requested
          call,     \* thread -> its call: a wait <<"wait", flag, interruptible, deadline, phase, checked>>, a notification or a stop
          res       \* unused: observations are in the events
vars == <<owner, flags, stopped, call, res>>
None == <<"none">>
Init == owner = -1 /\ flags = {} /\ stopped = FALSE /\ call = <<>> /\ res = 0
Reset == owner' = -1 /\ flags' = {} /\ stopped' = FALSE /\ call' = <<>> /\ res' = 0
Call(t) == IF t \in DOMAIN call THEN call[t] ELSE None
Put(t, c) == call' = [x \in DOMAIN call \cup {t} |-> IF x = t THEN c ELSE call[x]]
Waiting(t) == Call(t)[1] = "wait"
Phase(t) == Call(t)[5]
To(t, phase, checked) == Put(t, [call[t] EXCEPT ![5] = phase, ![6] = checked])
\* flag 0: a wait without a predicate
HasFlag(t) == Call(t)[2] # 0
True(t) == Call(t)[2] \in flags
Late(t, now) == Call(t)[4] >= 0 /\ now >= Call(t)[4]

Lock(t) == /\ owner = -1 /\ owner' = t
           /\ IF Waiting(t) THEN Phase(t) \in {"sleeping", "woken"} /\ To(t, "awake", FALSE) ELSE UNCHANGED call
           /\ UNCHANGED <<flags, stopped, res>>
\* the release of the lock and the beginning of the wait are one step: that is why no notification is lost
Unlock(t) == /\ owner = t /\ owner' = -1
             /\ IF Waiting(t)
                THEN /\ Phase(t) \in {"called", "awake"}
                     /\ IF HasFlag(t) THEN Call(t)[6] /\ ~True(t) ELSE Phase(t) = "called"
                     /\ To(t, "sleeping", FALSE)
                ELSE UNCHANGED call
             /\ UNCHANGED <<flags, stopped, res>>
Set(t, f) == owner = t /\ flags' = flags \cup {f} /\ UNCHANGED <<owner, stopped, call, res>>
Wait(t, f, tok, dl) == owner = t /\ Call(t) = None /\ Put(t, <<"wait", f, tok, dl, "called", FALSE>>) /\ UNCHANGED <<owner, flags, stopped, res>>
Pred(t, v) == Waiting(t) /\ owner = t /\ Phase(t) \in {"called", "awake"} /\ v = True(t) /\ To(t, Phase(t), TRUE) /\ UNCHANGED <<owner, flags, stopped, res>>
\* A wait returns the value of the predicate and the lock is held; false only when stopped or too late
Return(t, v, now) ==
    /\ Waiting(t) /\ owner = t
    /\ IF HasFlag(t)
       THEN /\ Call(t)[6] /\ v = True(t)
            /\ v \/ (Call(t)[3] /\ stopped) \/ Late(t, now)
       ELSE Phase(t) = "awake" /\ (v \/ Late(t, now))
    /\ Put(t, None) /\ UNCHANGED <<owner, flags, stopped, res>>
\* ---- notifications ----
Notify(t, all) == Call(t) = None /\ Put(t, <<"notify", all, FALSE>>) /\ UNCHANGED <<owner, flags, stopped, res>>
Notified(t) == Call(t)[1] = "notify" /\ Call(t)[3] /\ Put(t, None) /\ UNCHANGED <<owner, flags, stopped, res>>
Sleeping == {x \in DOMAIN call : call[x][1] = "wait" /\ call[x][5] = "sleeping"}
DoNotify(t) ==
    /\ Call(t)[1] = "notify" /\ ~Call(t)[3]
    /\ LET wake(w) == call' = [x \in DOMAIN call |-> IF x = t THEN <<"notify", call[t][2], TRUE>>
                                                     ELSE IF x \in w THEN [call[x] EXCEPT ![5] = "woken"] ELSE call[x]] IN
       IF call[t][2] \/ Sleeping = {} THEN wake(Sleeping) ELSE \E x \in Sleeping : wake({x})
    /\ UNCHANGED <<owner, flags, stopped, res>>
Stop(t) == Call(t) = None /\ Put(t, <<"stop", FALSE>>) /\ UNCHANGED <<owner, flags, stopped, res>>
DoStop(t) ==
    /\ Call(t) = <<"stop", FALSE>> /\ stopped' = TRUE
    /\ call' = [x \in DOMAIN call |-> IF x = t THEN <<"stop", TRUE>>
                                      ELSE IF x \in Sleeping /\ call[x][3] THEN [call[x] EXCEPT ![5] = "woken"] ELSE call[x]]
    /\ UNCHANGED <<owner, flags, res>>
Stopped(t, first) == Call(t) = <<"stop", TRUE>> /\ Put(t, None) /\ UNCHANGED <<owner, flags, stopped, res>>
\* No thread can go on: who waits has not been woken, and nobody waits who should stop or whose time has come
Idle(now) == /\ owner = -1
             /\ \A t \in DOMAIN call : call[t] # None =>
                   /\ call[t][1] = "wait" /\ call[t][5] = "sleeping"
                   /\ ~(call[t][3] /\ stopped)
                   /\ ~Late(t, now)
             /\ UNCHANGED vars
Finished == owner = -1 /\ (\A t \in DOMAIN call : call[t] = None) /\ UNCHANGED vars
Hidden == \E t \in DOMAIN call : DoNotify(t) \/ DoStop(t)
Step(o) == LET k == o[1] IN
    CASE k = "lock" -> Lock(o[2])
      [] k = "unlock" -> Unlock(o[2])
      [] k = "set" -> Set(o[2], o[3])
      [] k = "wait" -> Wait(o[2], o[3], o[4] = 1, o[5])
      [] k = "pred" -> Pred(o[2], o[3] = 1)
      [] k = "ret" -> Return(o[2], o[3] = 1, o[4])
      [] k = "notify" -> Notify(o[2], o[3] = 1)
      [] k = "notified" -> Notified(o[2])
      [] k = "stop" -> Stop(o[2])
      [] k = "stopped" -> Stopped(o[2], o[3] = 1)
      [] k = "idle" -> Idle(o[2])
      [] k = "finished" -> Finished
      [] OTHER -> FALSE
Inv == owner # -1 => Call(owner)[1] # "wait" \/ Phase(owner) \in {"called", "awake"}
=============================================================================
