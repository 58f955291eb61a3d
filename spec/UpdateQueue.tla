----------------------------- MODULE UpdateQueue ------------------------------
(* C20. Threads push updates and clear the pending ones, one thread at a time applies them.         *)
(* A call begins, takes effect at one moment (an internal step) and returns.                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pend,      \* updates that wait for the next batch
          call,      \* the unfinished push or clear of every thread: <<"push", u, done>>, <<"clear", done>>
          app,       \* the unfinished application: <<thread, argument, "called" | "taken" | "failed">>
          batch,     \* what it still has to run
          running,   \* the update that is running, 0: none
          ran        \* updates that have been run
vars == <<pend, call, app, batch, running, ran>>

Init == pend = <<>> /\ call = <<>> /\ app = <<>> /\ batch = <<>> /\ running = 0 /\ ran = {}
Reset == pend' = <<>> /\ call' = <<>> /\ app' = <<>> /\ batch' = <<>> /\ running' = 0 /\ ran' = {}

\* call is a function of the threads that are in a call
Busy(t) == t \in DOMAIN call
Put(t, c) == call' = [x \in DOMAIN call \cup {t} |-> IF x = t THEN c ELSE call[x]]
Drop(t) == call' = [x \in DOMAIN call \ {t} |-> call[x]]

\* ---- calls ----
Push(t, u) == ~Busy(t) /\ Put(t, <<"push", u, FALSE>>) /\ UNCHANGED <<pend, app, batch, running, ran>>
Pushed(t, u) == Busy(t) /\ call[t] = <<"push", u, TRUE>> /\ Drop(t) /\ UNCHANGED <<pend, app, batch, running, ran>>
Clear(t) == ~Busy(t) /\ Put(t, <<"clear", 0, FALSE>>) /\ UNCHANGED <<pend, app, batch, running, ran>>
Cleared(t) == Busy(t) /\ call[t] = <<"clear", 0, TRUE>> /\ Drop(t) /\ UNCHANGED <<pend, app, batch, running, ran>>
Apply(t, a) == app = <<>> /\ ~Busy(t) /\ app' = <<t, a, "called">> /\ UNCHANGED <<pend, call, batch, running, ran>>
\* The updates of the batch run one after another with the arguments of the call
Run(t, u, a, b) == /\ app = <<t, a, "taken">> /\ b = a /\ running = 0 /\ batch # <<>> /\ Head(batch) = u
                   /\ running' = u /\ ran' = ran \cup {u} /\ UNCHANGED <<pend, call, app, batch>>
Ran(t, u, ok) == /\ app # <<>> /\ app[1] = t /\ app[3] = "taken" /\ running = u /\ ~Busy(t)
                 /\ running' = 0
                 /\ batch' = IF ok THEN Tail(batch) ELSE <<>>
                 /\ app' = IF ok THEN app ELSE <<t, app[2], "failed">>
                 /\ UNCHANGED <<pend, call, ran>>
Applied(t, ok) == /\ app # <<>> /\ app[1] = t /\ app[3] = (IF ok THEN "taken" ELSE "failed") /\ batch = <<>> /\ running = 0
                  /\ app' = <<>> /\ UNCHANGED <<pend, call, batch, running, ran>>
\* ---- the moments at which calls take effect ----
DoPush(t) == /\ Busy(t) /\ call[t][1] = "push" /\ ~call[t][3]
             /\ pend' = Append(pend, call[t][2]) /\ Put(t, <<"push", call[t][2], TRUE>>) /\ UNCHANGED <<app, batch, running, ran>>
DoClear(t) == /\ Busy(t) /\ call[t][1] = "clear" /\ ~call[t][3]
              /\ pend' = <<>> /\ Put(t, <<"clear", 0, TRUE>>) /\ UNCHANGED <<app, batch, running, ran>>
DoTake == /\ app # <<>> /\ app[3] = "called"
          /\ batch' = pend /\ pend' = <<>> /\ app' = <<app[1], app[2], "taken">> /\ UNCHANGED <<call, running, ran>>
Hidden == DoTake \/ \E t \in DOMAIN call : DoPush(t) \/ DoClear(t)

Step(o) == LET k == o[1] IN
    CASE k = "push" -> Push(o[2], o[3])
      [] k = "pushed" -> Pushed(o[2], o[3])
      [] k = "clear" -> Clear(o[2])
      [] k = "cleared" -> Cleared(o[2])
      [] k = "apply" -> Apply(o[2], o[3])
      [] k = "run" -> Run(o[2], o[3], o[4], o[5])
      [] k = "ran" -> Ran(o[2], o[3], o[4] = 1)
      [] k = "applied" -> Applied(o[2], o[3] = 1)
      [] OTHER -> FALSE

Range(s) == {s[i] : i \in DOMAIN s}
\* An update is in at most one place and is never run a second time
Once == /\ Cardinality(Range(pend)) = Len(pend)
        /\ Cardinality(Range(batch)) = Len(batch)
        /\ Range(pend) \cap Range(batch) = {}
        /\ Range(pend) \cap ran = {}
        /\ Range(batch) \cap ran \subseteq {running}
Inv == Once
=============================================================================
