------------------------------- MODULE Coro -------------------------------
(* C31, C32. Coroutines 1..N and the program 0 that drives them. A coroutine is of the kind 1        *)
(* ProcessTask<T>, 2 UpdateTask, 3 async_generator<T> or 4 ProcessTask<void> (0: there is none); its *)
(* state st is "fresh" (a generator nobody began), "run" (on the native stack), "event", "task" (it   *)
(* waits for the one whose wt it is), "yield", "done" or "stuck" (what it waited for was destroyed).  *)
(* own is who has its object: 0 the program, j a local variable of the coroutine j, -1 nobody (it was *)
(* released), -2 it is being made. ret is the result <<code, value>> and taken whether it was moved   *)
(* out. stack has <<i, m>> for each activation, the last one being in control; when it suspends, the  *)
(* activation below gets control and, if m # 0, the object of m, whose creation has just returned.    *)
(* Codes: 0 an ordinary return, 1 a value, 2 an exception, 3 the end of a generator, 4 no value.      *)
(* res: who is in control, what it got, and the numbers of frames and of bodies with live locals.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, KP, KU, KG, KV, V
VARIABLES c, stack, res
vars == <<c, stack, res>>
View == <<c, stack>>
K == 1..N
Limit == <<KP, KU, KG, KV>>
Dead == [kind |-> 0, st |-> "none", wt |-> 0, own |-> -1, ret |-> <<0, 0>>, taken |-> 0]
Init == c = [k \in K |-> Dead] /\ stack = <<>> /\ res = <<>>
Reset == c' = [k \in K |-> Dead] /\ stack' = <<>> /\ res' = <<>>

Top(s) == IF s = <<>> THEN 0 ELSE s[Len(s)][1]
Front(s) == SubSeq(s, 1, Len(s) - 1)
a == Top(stack)
Frames(h) == Cardinality({k \in K : h[k].kind # 0})
Bodies(h) == Cardinality({k \in K : h[k].st \in {"run", "event", "task", "yield", "stuck"}})
To(h, s, code, v) == c' = h /\ stack' = s /\ res' = <<Top(s), code, v, Frames(h), Bodies(h)>>
Stay(h, code, v) == To(h, stack, code, v)
\* The activation on top suspends or ends, the one below goes on
Pop(h) == LET s == Front(stack)  m == stack[Len(stack)][2] IN
          To(IF m = 0 THEN h ELSE [h EXCEPT ![m].own = Top(s)], s, 0, 0)
\* Control goes from the coroutine on top to the coroutine w
Switch(h, w, code, v) == To([h EXCEPT ![w].st = "run"], Append(Front(stack), <<w, stack[Len(stack)][2]>>), code, v)
Push(h, k, m) == To([h EXCEPT ![k].st = "run"], Append(stack, <<k, m>>), 0, 0)

Has(k) == c[k].kind # 0 /\ (c[k].own = 0 \/ (a # 0 /\ c[k].own = a))
Pending(j) == c[j].st \in {"run", "event", "task", "stuck"}
RECURSIVE Closure(_)
Closure(D) == LET E == D \cup {j \in K : c[j].own \in D} IN IF E = D THEN D ELSE Closure(E)
OnStack == {stack[i][1] : i \in 1..Len(stack)}
Stuck == {k \in K : c[k].st = "stuck"}
Released == {k \in K : c[k].kind # 0 /\ c[k].own = -1}
Left(D) == {i \in K \ D : \E j \in D : Pending(j) /\ c[j].wt = i}     \* those who wait for one of D
\* Destroying them is not a misuse: nobody runs in them and nobody will resume them
Can(D) == /\ D \cap OnStack = {}
          /\ \A j \in K \ D : Pending(j) => c[j].wt \notin D
          /\ (Left(D) = {} \/ Released = {})
Kill(D) == [k \in K |-> IF k \in D THEN Dead ELSE IF k \in Left(D) THEN [c[k] EXCEPT !.st = "stuck"] ELSE c[k]]
\* Those x waits for, one after another
RECURSIVE Chain(_)
Chain(x) == LET J == {j \in K : Pending(j) /\ c[j].wt = x} IN
            IF J = {} THEN {x} ELSE {x} \cup Chain(CHOOSE j \in J : TRUE)

Start(k, kind) ==
    /\ c[k].kind = 0 /\ \A j \in 1..(k - 1) : c[j].kind # 0
    /\ Cardinality({j \in K : c[j].kind = kind}) < Limit[kind]
    /\ IF kind = 3 THEN Stay([c EXCEPT ![k] = [Dead EXCEPT !.kind = 3, !.st = "fresh", !.own = a]], 0, 0)
       ELSE Push([c EXCEPT ![k] = [Dead EXCEPT !.kind = kind, !.own = -2]], k, k)
Wait == a # 0 /\ Pop([c EXCEPT ![a].st = "event"])
Fire(k) == c[k].st = "event" /\ Push(c, k, 0)
Result(k) == IF c[k].kind \in {2, 4} /\ c[k].ret[1] = 1 THEN <<4, 0>> ELSE c[k].ret
Await(k) ==
    /\ a # 0 /\ Has(k) /\ c[k].kind # 3 /\ k # a /\ c[k].wt = 0
    /\ IF c[k].st = "done"
       THEN /\ c[k].taken = 0
            /\ Stay(IF Result(k)[1] = 1 THEN [c EXCEPT ![k].taken = 1] ELSE c, Result(k)[1], Result(k)[2])
       ELSE a \notin Chain(k) /\ Pop([c EXCEPT ![a].st = "task", ![k].wt = a])
Advance(g) == Switch([c EXCEPT ![a].st = "task", ![g].wt = a], g, 0, 0)
Begin(g) == a # 0 /\ Has(g) /\ g # a /\ c[g].kind = 3 /\ c[g].st \in {"fresh", "yield"} /\ Advance(g)
Next(g) == a # 0 /\ Has(g) /\ g # a /\ c[g].kind = 3 /\ c[g].st = "yield" /\ Advance(g)
Look(g) == Has(g) /\ c[g].st = "yield" /\ Stay(c, 1, c[g].ret[2])
Yield(v) ==
    /\ a # 0 /\ c[a].kind = 3
    /\ Switch([c EXCEPT ![a].st = "yield", ![a].ret = <<1, v>>, ![a].wt = 0], c[a].wt, 1, v)
Complete(code, v) ==
    LET D == Closure({k \in K : c[k].own = a})
        w == c[a].wt
        free == c[a].own = -1
        out == IF code = 2 THEN <<2, v>> ELSE IF c[a].kind = 1 THEN <<1, v>> ELSE IF c[a].kind = 3 THEN <<3, 0>> ELSE <<4, 0>>
        h == [Kill(D) EXCEPT ![a] = IF free THEN Dead ELSE
                 [@ EXCEPT !.st = "done", !.wt = IF w = 0 THEN 0 ELSE -1, !.ret = <<code, v>>,
                           !.taken = IF w > 0 /\ out[1] = 1 THEN 1 ELSE 0]]
    IN  a # 0 /\ Can(D) /\ (IF w > 0 THEN Switch(h, w, out[1], out[2]) ELSE Pop(h))
Finish(v) == a # 0 /\ (c[a].kind # 1 => v = 1) /\ Complete(1, v)
Throw(v) == a # 0 /\ c[a].kind # 2 /\ Complete(2, v)

Drop(k) == Has(k) /\ Can(Closure({k})) /\ Stay(Kill(Closure({k})), 0, 0)
Give(k) == a # 0 /\ c[k].kind # 0 /\ c[k].own = a /\ Stay([c EXCEPT ![k].own = 0], 0, 0)
Take(k) == a # 0 /\ c[k].kind # 0 /\ c[k].own = 0 /\ Closure({k}) \cap OnStack = {} /\ Stay([c EXCEPT ![k].own = a], 0, 0)
Move(k) == Has(k) /\ Stay(c, 0, 0)
\* the object of k is assigned to the object of j
Assign(j, k) == /\ j # k /\ Has(j) /\ Has(k) /\ c[j].own = c[k].own /\ c[j].kind = c[k].kind
                /\ Can(Closure({j})) /\ k \notin Closure({j})
                /\ Stay(Kill(Closure({j})), 0, 0)
Release(k) == /\ Has(k) /\ c[k].kind = 2
              /\ IF c[k].st = "done" THEN Stay(Kill({k}), 0, 0)
                 ELSE Stuck = {} /\ Stay([c EXCEPT ![k].own = -1], 0, 0)
Ready(k) == /\ Has(k) /\ c[k].kind \in {1, 2}
            /\ IF c[k].st # "done" THEN Stay(c, 1, 0)
               ELSE IF c[k].ret[1] = 2 THEN Stay(c, 2, c[k].ret[2]) ELSE Stay(c, 1, 1)
Get(k) == /\ Has(k) /\ c[k].kind = 1 /\ c[k].st = "done" /\ c[k].taken = 0
          /\ Stay(IF c[k].ret[1] = 1 THEN [c EXCEPT ![k].taken = 1] ELSE c, c[k].ret[1], c[k].ret[2])
Empty == a # 0 /\ KG > 0 /\ Stay(c, 3, 0)
Ops == UNION {
    {<<"start", k, kind>> : k \in K, kind \in 1..4},
    {<<n, k>> : n \in {"fire", "await", "begin", "next", "look", "drop", "give", "take", "move", "release", "ready", "get"}, k \in K},
    {<<n, v>> : n \in {"yield", "finish", "throw"}, v \in 1..V},
    {<<"assign", j, k>> : j \in K, k \in K},
    {<<"wait">>, <<"empty">>}}
Step(o) ==
    CASE o[1] = "start" -> Start(o[2], o[3])
      [] o[1] = "fire" -> Fire(o[2])
      [] o[1] = "wait" -> Wait
      [] o[1] = "empty" -> Empty
      [] o[1] = "await" -> Await(o[2])
      [] o[1] = "begin" -> Begin(o[2])
      [] o[1] = "next" -> Next(o[2])
      [] o[1] = "look" -> Look(o[2])
      [] o[1] = "yield" -> Yield(o[2])
      [] o[1] = "finish" -> Finish(o[2])
      [] o[1] = "throw" -> Throw(o[2])
      [] o[1] = "drop" -> Drop(o[2])
      [] o[1] = "give" -> Give(o[2])
      [] o[1] = "take" -> Take(o[2])
      [] o[1] = "move" -> Move(o[2])
      [] o[1] = "assign" -> Assign(o[2], o[3])
      [] o[1] = "release" -> Release(o[2])
      [] o[1] = "ready" -> Ready(o[2])
      [] o[1] = "get" -> Get(o[2])
\* Whoever waits is waited upon by exactly one that has not completed, so it is resumed exactly once
Inv == /\ \A i \in K : Cardinality({j \in K : Pending(j) /\ c[j].wt = i}) = (IF c[i].st \in {"task"} THEN 1 ELSE 0)
       /\ \A i \in K : c[i].st = "run" <=> i \in OnStack
       /\ Cardinality(OnStack) = Len(stack)
       /\ \A i \in K : c[i].st = "done" => c[i].kind # 0 /\ \A j \in K : c[j].own # i
       /\ \A i \in K : c[i].own > 0 => c[c[i].own].kind # 0
       /\ \A i \in K : c[i].st = "yield" => c[i].kind = 3 /\ c[i].ret[1] = 1
=============================================================================
