------------------------------ MODULE StopToken -------------------------------
(* C21. One stop state with its sources, tokens and callbacks. A call begins, takes effect at one   *)
(* moment and returns; callbacks are called in between. Calls nest: a callback may call.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES req,     \* a stop was requested
          src,     \* number of sources
          cbs,     \* callback -> "making", "reg", "inert", "running", "done", "gone"
          st       \* thread -> its unfinished calls, the innermost one is the last
vars == <<req, src, cbs, st>>

Init == req = FALSE /\ src = 1 /\ cbs = <<>> /\ st = <<>>
Reset == req' = FALSE /\ src' = 1 /\ cbs' = <<>> /\ st' = <<>>

Stack(t) == IF t \in DOMAIN st THEN st[t] ELSE <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Top(t) == LET s == Stack(t) IN IF s = <<>> THEN <<"none">> ELSE s[Len(s)]
Down(t, fr) == st' = Set(st, t, Append(Stack(t), fr))
Up(t) == LET s == Stack(t) IN st' = Set(st, t, SubSeq(s, 1, Len(s) - 1))
Turn(t, fr) == LET s == Stack(t) IN st' = Set(st, t, [s EXCEPT ![Len(s)] = fr])
Turned(t, fr, fr2) == LET s == Stack(t) IN st' = Set(st, t, Append([s EXCEPT ![Len(s)] = fr], fr2))
State(c) == IF c \in DOMAIN cbs THEN cbs[c] ELSE "none"
Registered == {c \in DOMAIN cbs : cbs[c] = "reg"}
Possible == req \/ src > 0

\* ---- requesting ----
Req(t) == Down(t, <<"req", "called">>) /\ UNCHANGED <<req, src, cbs>>
DoReq(t) == /\ Top(t) = <<"req", "called">>
            /\ Turn(t, <<"req", IF req THEN "lost" ELSE "won">>) /\ req' = TRUE /\ UNCHANGED <<src, cbs>>
\* The one that succeeded returns when no callback is left
Reqd(t, b) == /\ Top(t) = <<"req", IF b THEN "won" ELSE "lost">>
              /\ b => Registered = {}
              /\ Up(t) /\ UNCHANGED <<req, src, cbs>>
\* ---- callbacks ----
Reg(t, c) == State(c) = "none" /\ Down(t, <<"reg", c, "called">>) /\ cbs' = Set(cbs, c, "making") /\ UNCHANGED <<req, src>>
DoReg(t) == /\ Top(t)[1] = "reg" /\ Top(t)[3] = "called"
            /\ LET c == Top(t)[2] IN
               IF req THEN Turn(t, <<"reg", c, "must">>) /\ UNCHANGED cbs
               ELSE Turn(t, <<"reg", c, "in">>) /\ cbs' = Set(cbs, c, IF src > 0 THEN "reg" ELSE "inert")
            /\ UNCHANGED <<req, src>>
Regd(t, c) == Top(t) \in {<<"reg", c, "in">>, <<"reg", c, "run">>} /\ Up(t) /\ UNCHANGED <<req, src, cbs>>
Begin(t, c) == /\ \/ Top(t) = <<"reg", c, "must">> /\ Turned(t, <<"reg", c, "run">>, <<"cb", c>>)
                  \/ Top(t) = <<"req", "won">> /\ State(c) = "reg" /\ Down(t, <<"cb", c>>)
               /\ cbs' = Set(cbs, c, "running") /\ UNCHANGED <<req, src>>
End(t, c) == /\ Top(t) = <<"cb", c>> /\ Up(t)
             /\ cbs' = IF cbs[c] = "running" THEN Set(cbs, c, "done") ELSE cbs
             /\ UNCHANGED <<req, src>>
Dereg(t, c) == State(c) \notin {"none", "making", "gone"} /\ Down(t, <<"dereg", c, "called">>) /\ UNCHANGED <<req, src, cbs>>
DoDereg(t) == /\ Top(t)[1] = "dereg" /\ Top(t)[3] = "called" /\ State(Top(t)[2]) = "reg"
              /\ Turn(t, <<"dereg", Top(t)[2], "out">>) /\ cbs' = Set(cbs, Top(t)[2], "gone") /\ UNCHANGED <<req, src>>
Inside(t, c) == \E i \in DOMAIN Stack(t) : Stack(t)[i] = <<"cb", c>>
\* The destructor returns when the callback is not executed, except by the same thread
Deregd(t, c) == /\ \/ Top(t) = <<"dereg", c, "out">>
                   \/ Top(t) = <<"dereg", c, "called">> /\ (State(c) \in {"done", "inert"} \/ (State(c) = "running" /\ Inside(t, c)))
                /\ Up(t) /\ cbs' = Set(cbs, c, "gone") /\ UNCHANGED <<req, src>>
\* ---- sources ----
Drop(t) == Down(t, <<"drop", "called">>) /\ UNCHANGED <<req, src, cbs>>
DoDrop(t) == Top(t) = <<"drop", "called">> /\ Turn(t, <<"drop", "done">>) /\ src' = src - 1 /\ UNCHANGED <<req, cbs>>
Dropd(t) == Top(t) = <<"drop", "done">> /\ Up(t) /\ UNCHANGED <<req, src, cbs>>
Copy(t) == src' = src + 1 /\ UNCHANGED <<req, cbs, st>>         \* the one that is copied exists
\* ---- queries ---- (stop_requested can only become true, stop_possible can only become false)
Ask(t) == Down(t, <<"ask", req, Possible>>) /\ UNCHANGED <<req, src, cbs>>
Asked(t, b, p) == /\ Top(t)[1] = "ask"
                  /\ IF b THEN req ELSE ~Top(t)[2]
                  /\ IF p THEN Top(t)[3] ELSE ~Possible
                  /\ Up(t) /\ UNCHANGED <<req, src, cbs>>
\* Everything is done: nothing has been forgotten
Finished == /\ \A t \in DOMAIN st : st[t] = <<>>
            /\ \A c \in DOMAIN cbs : cbs[c] \in {"inert", "done", "gone"}
            /\ UNCHANGED vars
Hidden == \E t \in DOMAIN st : DoReq(t) \/ DoReg(t) \/ DoDereg(t) \/ DoDrop(t)
Step(o) == LET k == o[1] IN
    CASE k = "req" -> Req(o[2])
      [] k = "reqd" -> Reqd(o[2], o[3] = 1)
      [] k = "reg" -> Reg(o[2], o[3])
      [] k = "regd" -> Regd(o[2], o[3])
      [] k = "cb" -> Begin(o[2], o[3])
      [] k = "cbend" -> End(o[2], o[3])
      [] k = "dereg" -> Dereg(o[2], o[3])
      [] k = "deregd" -> Deregd(o[2], o[3])
      [] k = "drop" -> Drop(o[2])
      [] k = "dropd" -> Dropd(o[2])
      [] k = "copy" -> Copy(o[2])
      [] k = "ask" -> Ask(o[2])
      [] k = "asked" -> Asked(o[2], o[3] = 1, o[4] = 1)
      [] k = "finished" -> Finished
      [] OTHER -> FALSE
\* At most one request succeeds; a callback that waits to be run is there only before or during the successful request
Winners == {t \in DOMAIN st : \E i \in DOMAIN st[t] : st[t][i] = <<"req", "won">>}
Inv == /\ Cardinality(Winners) <= 1
       /\ (req /\ Registered # {}) => Winners # {}
       /\ src >= 0
=============================================================================
