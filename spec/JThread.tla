------------------------------- MODULE JThread -------------------------------
(* C23. Handles of threads. A handle owns a thread that has to be joined and a stop state; both go  *)
(* along when the handle is moved or swapped. Thread 0 works with the handles, others only request  *)
(* stops and look at tokens of the stop states.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES own,     \* handle -> the function it has to join, 0 if none; a handle that does not exist is not in the domain
          src,     \* handle -> its stop state (named by the function it was made for), 0 if none
          fn,      \* function -> "new", "running", "ended"
          stop,    \* stop state -> a stop was requested
          st       \* thread -> its unfinished call
vars == <<own, src, fn, stop, st>>
Init == own = <<>> /\ src = <<>> /\ fn = <<>> /\ stop = <<>> /\ st = <<>>
Reset == own' = <<>> /\ src' = <<>> /\ fn' = <<>> /\ stop' = <<>> /\ st' = <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Call(t) == IF t \in DOMAIN st THEN st[t] ELSE <<"none">>
Enter(t, c) == Call(t) = <<"none">> /\ st' = Set(st, t, c)
Leave(t) == st' = Drop(st, t)
\* ---- the handles ----
New(h, k) == h \notin DOMAIN own /\ k \notin DOMAIN fn /\ own' = Set(own, h, k) /\ src' = Set(src, h, k) /\ fn' = Set(fn, k, "new")
             /\ stop' = Set(stop, k, FALSE) /\ UNCHANGED st
Empty(h) == h \notin DOMAIN own /\ own' = Set(own, h, 0) /\ src' = Set(src, h, 0) /\ UNCHANGED <<fn, stop, st>>
Move(h, g) == h \notin DOMAIN own /\ g \in DOMAIN own /\ own' = Set(Set(own, h, own[g]), g, 0) /\ src' = Set(Set(src, h, src[g]), g, 0) /\ UNCHANGED <<fn, stop, st>>
Swap(h, g) == own' = [own EXCEPT ![h] = own[g], ![g] = own[h]] /\ src' = [src EXCEPT ![h] = src[g], ![g] = src[h]] /\ UNCHANGED <<fn, stop, st>>
\* Assigning and destroying: a thread that is owned gets a stop request, then its end is awaited
Begin(what, h, g) == Enter(0, <<what, h, g, IF own[h] = 0 THEN "free" ELSE "owned">>) /\ UNCHANGED <<own, src, fn, stop>>
DoStop == /\ Call(0)[1] \in {"assign", "del"} /\ Call(0)[4] = "owned"
          /\ stop' = Set(stop, src[Call(0)[2]], TRUE) /\ st' = Set(st, 0, [Call(0) EXCEPT ![4] = "stopped"]) /\ UNCHANGED <<own, src, fn>>
Over == Call(0)[4] = "free" \/ (Call(0)[4] = "stopped" /\ fn[own[Call(0)[2]]] = "ended")
Assigned(h, g) == /\ Call(0)[1] = "assign" /\ Call(0)[2] = h /\ Call(0)[3] = g /\ Over /\ Leave(0)
                  /\ own' = [own EXCEPT ![h] = own[g], ![g] = 0] /\ src' = [src EXCEPT ![h] = src[g], ![g] = 0] /\ UNCHANGED <<fn, stop>>
Deleted(h) == /\ Call(0)[1] = "del" /\ Call(0)[2] = h /\ Over /\ Leave(0)
              /\ own' = Drop(own, h) /\ src' = Drop(src, h) /\ UNCHANGED <<fn, stop>>
Join(h) == own[h] # 0 /\ Enter(0, <<"join", h>>) /\ UNCHANGED <<own, src, fn, stop>>
Joined(h) == Call(0) = <<"join", h>> /\ fn[own[h]] = "ended" /\ Leave(0) /\ own' = [own EXCEPT ![h] = 0] /\ UNCHANGED <<src, fn, stop>>
Detach(h) == own[h] # 0 /\ own' = [own EXCEPT ![h] = 0] /\ UNCHANGED <<src, fn, stop, st>>
\* joinable, and whether there is a stop state and it is stopped
Look(h, j, p, r) == /\ j = (own[h] # 0) /\ p = (src[h] # 0) /\ (r => src[h] # 0 /\ stop[src[h]])
                    /\ UNCHANGED vars
\* ---- the functions ----
Start(k, token, same) == fn[k] = "new" /\ fn' = [fn EXCEPT ![k] = "running"] /\ UNCHANGED <<own, src, stop, st>>
End(k) == fn[k] = "running" /\ fn' = [fn EXCEPT ![k] = "ended"] /\ UNCHANGED <<own, src, stop, st>>
\* ---- requests and queries of stop state k (0 if there is none) ----
Req(t, k) == Enter(t, <<"req", k, "called">>) /\ UNCHANGED <<own, src, fn, stop>>
DoReq(t) == /\ Call(t)[1] = "req" /\ Call(t)[3] = "called" /\ Call(t)[2] # 0
            /\ LET k == Call(t)[2] IN st' = Set(st, t, <<"req", k, IF stop[k] THEN "lost" ELSE "won">>) /\ stop' = [stop EXCEPT ![k] = TRUE]
            /\ UNCHANGED <<own, src, fn>>
Reqd(t, b) == /\ Call(t)[1] = "req" /\ Call(t)[3] = (IF b THEN "won" ELSE IF Call(t)[2] = 0 THEN "called" ELSE "lost")
              /\ Leave(t) /\ UNCHANGED <<own, src, fn, stop>>
Ask(t, k) == Enter(t, <<"ask", k, stop[k]>>) /\ UNCHANGED <<own, src, fn, stop>>
Asked(t, b) == Call(t)[1] = "ask" /\ (IF b THEN stop[Call(t)[2]] ELSE ~Call(t)[3]) /\ Leave(t) /\ UNCHANGED <<own, src, fn, stop>>
Finished == own = <<>> /\ st = <<>> /\ (\A k \in DOMAIN fn : fn[k] = "ended") /\ UNCHANGED vars
Hidden == (0 \in DOMAIN st /\ DoStop) \/ \E t \in DOMAIN st : DoReq(t)
Step(o) == LET k == o[1] IN
    CASE k = "new" -> New(o[2], o[3])
      [] k = "empty" -> Empty(o[2])
      [] k = "move" -> Move(o[2], o[3])
      [] k = "swap" -> Swap(o[2], o[3])
      [] k = "assign" -> Begin("assign", o[2], o[3])
      [] k = "assigned" -> Assigned(o[2], o[3])
      [] k = "del" -> Begin("del", o[2], 0)
      [] k = "deleted" -> Deleted(o[2])
      [] k = "join" -> Join(o[2])
      [] k = "joined" -> Joined(o[2])
      [] k = "detach" -> Detach(o[2])
      [] k = "look" -> Look(o[2], o[3] = 1, o[4] = 1, o[5] = 1)
      [] k = "start" -> Start(o[2], o[3], o[4])
      [] k = "end" -> End(o[2])
      [] k = "req" -> Req(o[2], IF o[2] = 0 /\ o[4] # 0 THEN src[o[4]] ELSE o[3])
      [] k = "reqd" -> Reqd(o[2], o[3] = 1)
      [] k = "ask" -> Ask(o[2], o[3])
      [] k = "asked" -> Asked(o[2], o[3] = 1)
      [] k = "finished" -> Finished
      [] OTHER -> FALSE
\* A thread is owned by one handle, a stop state by one handle, and the owner of a thread has its stop state
Inv == /\ \A h, g \in DOMAIN own : h # g => ((own[h] # 0 => own[h] # own[g]) /\ (src[h] # 0 => src[h] # src[g]))
       /\ \A h \in DOMAIN own : own[h] # 0 => src[h] = own[h]
\* No started function outlives its handle (unless it was detached): the owner of a function that runs exists
=============================================================================
