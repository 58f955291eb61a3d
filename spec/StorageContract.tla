--------------------------- MODULE StorageContract ---------------------------
(* What a user of the atomic storage relies on (properties C01 and C02), as operators on
   `cand`, the set of values that a load may yield; 0 stands for "nothing was ever saved".
   A call is one of
     <<"load", x, f>>     a load that returned the value x (0: it returned false), f = 1: a file operation failed in it
     <<"save", v, f, r>>  a save of v: r = "ok" or "fail" (an I/O exception, or a logged warning of the optional storage)
     <<"open", f, r>>     opening the files
     <<"cutsave", v>>, <<"cutload">>, <<"cutopen">>   the process stopped during the call *)
EXTENDS Integers, Sequences, FiniteSets

\* may the call have this outcome?
Allowed(cand, call) ==
    CASE call[1] = "load" -> \/ call[2] \in cand
                             \/ call[3] = 1 /\ call[2] = 0          \* a failed operation: nothing loaded, nothing lost
      [] call[1] = "save" -> call[4] = "ok" \/ (call[4] = "fail" /\ call[3] = 1)
      [] call[1] = "open" -> call[3] = "ok" \/ (call[3] = "fail" /\ call[2] = 1)
      [] OTHER -> TRUE

\* what a later load may yield after the call
After(cand, call) ==
    CASE call[1] = "load" -> IF call[2] = 0 \/ call[3] = 1 THEN cand ELSE {call[2]}   \* after a failure the value may not be safe on the disk yet
      [] call[1] = "save" -> IF call[4] = "ok" THEN {call[2]} ELSE cand \cup {call[2]}
      [] call[1] = "cutsave" -> cand \cup {call[2]}
      [] OTHER -> cand

RECURSIVE AfterAll(_, _)
AfterAll(cand, calls) == IF calls = <<>> THEN cand ELSE AfterAll(After(cand, calls[1]), SubSeq(calls, 2, Len(calls)))
RECURSIVE AllAllowed(_, _)
AllAllowed(cand, calls) == IF calls = <<>> THEN TRUE ELSE Allowed(cand, calls[1]) /\ AllAllowed(After(cand, calls[1]), SubSeq(calls, 2, Len(calls)))

(* The disk: since its last fsync a file has received the operations 1..n; torn[k] is the number of ways
   in which operation k can be found half done. After a crash the first a of them have been done and the
   next one is torn in the way t (0: not at all). *)
FileImages(torn) == UNION {{<<a, t>> : t \in 0..(IF a < Len(torn) THEN torn[a + 1] ELSE 0)} : a \in 0..Len(torn)}
Images(tm, tb) == {<<m[1], m[2], b[1], b[2]>> : m \in FileImages(tm), b \in FileImages(tb)}
=============================================================================
