------------------------------ MODULE Generator ------------------------------
(* C30. Generators in the slots 1..NS (0: an empty one). A generator is <<n, e, b, pos, cur, m, t,  *)
(* shown>>: its body yields n values and then ends (e = 0) or throws (e = 1); b: 0 not begun, 1 at a *)
(* value, 2 at the end; pos values have been yielded, the last one was cur (the consumer can change  *)
(* it through the reference, the body continues from it); it was mapped m times, the outermost       *)
(* function throws for its t-th value (0: never); shown is what the consumer sees.                   *)
(* res: what happened, the number of steps bodies made, of calls of mapping functions, of frames     *)
(* (one for the body, one for each mapping) and of bodies that have begun and not ended.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NS, MaxN, MaxM, Poke
VARIABLES g, res
vars == <<g, res>>
View == <<g>>
S == 1..NS
Nothing == <<>>
Init == g = [s \in S |-> Nothing] /\ res = <<>>
Reset == g' = [s \in S |-> Nothing] /\ res' = <<>>
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Frames(h) == Sum([s \in S |-> IF h[s] = Nothing THEN 0 ELSE 1 + h[s][6]], NS)
\* the body has begun and neither ended nor thrown: also when a mapping function threw
InBody(x) == x # Nothing /\ x[3] # 0 /\ x[4] <= x[1]
Bodies(h) == Cardinality({s \in S : InBody(h[s])})
To(h, what, steps, calls) == g' = h /\ res' = <<what, steps, calls, Frames(h), Bodies(h)>>
RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m - 1)

Make(s, n, e) == To([g EXCEPT ![s] = <<n, e, 0, 0, 0, 0, 0, 0>>], <<"ok">>, 0, 0)
\* The body runs to its next value, to its end or to its exception
Advance(s) ==
    LET x == g[s]  n == x[1]  p == x[4] + 1  c == x[5] + 1  m == x[6] IN
    IF p <= n
    THEN IF x[7] = p
         THEN To([g EXCEPT ![s] = <<n, x[2], 2, p, c, m, x[7], 0>>], <<"throw">>, 1, m)
         ELSE To([g EXCEPT ![s] = <<n, x[2], 1, p, c, m, x[7], c * Pow2(m)>>], <<"value", c * Pow2(m)>>, 1, m)
    ELSE To([g EXCEPT ![s] = <<n, x[2], 2, n + 1, 0, m, x[7], 0>>], <<IF x[2] = 1 THEN "throw" ELSE "end">>, 1, 0)
Begin(s) == IF g[s] = Nothing THEN To(g, <<"end">>, 0, 0) ELSE g[s][3] = 0 /\ Advance(s)
Next(s) == g[s] # Nothing /\ g[s][3] = 1 /\ Advance(s)
Look(s) == g[s] # Nothing /\ g[s][3] = 1 /\ To(g, <<"value", g[s][8]>>, 0, 0)
\* The consumer changes the value; the body of a generator that is not mapped sees it
Change(s, v) == /\ Poke = 1 /\ g[s] # Nothing /\ g[s][3] = 1
                /\ To([g EXCEPT ![s] = [@ EXCEPT ![8] = v, ![5] = IF @ = 0 \/ g[s][6] > 0 THEN @ ELSE v]], <<"value", v>>, 0, 0)
Move(s, t) == g[s] = Nothing /\ s # t /\ To([g EXCEPT ![s] = g[t], ![t] = Nothing], <<"ok">>, 0, 0)
Assign(s, t) == To(IF s = t THEN g ELSE [g EXCEPT ![s] = g[t], ![t] = Nothing], <<"ok">>, 0, 0)
Swap(s, t) == To([g EXCEPT ![s] = g[t], ![t] = g[s]], <<"ok">>, 0, 0)
Drop(s) == To([g EXCEPT ![s] = Nothing], <<"ok">>, 0, 0)
Map(s, t) == g[s] # Nothing /\ g[s][3] = 0 /\ g[s][6] < MaxM /\ g[s][7] = 0
             /\ To([g EXCEPT ![s] = <<@[1], @[2], 0, 0, 0, @[6] + 1, t, 0>>], <<"ok">>, 0, 0)
Ops == UNION {
    {<<"make", s, n, e>> : s \in S, n \in 0..MaxN, e \in 0..1},
    {<<n, s>> : n \in {"begin", "next", "look", "drop"}, s \in S},
    {<<"change", s, v>> : s \in S, v \in {5}},
    {<<n, s, t>> : n \in {"move", "assign", "swap"}, s \in S, t \in S},
    {<<"map", s, t>> : s \in S, t \in 0..2}}
Step(o) ==
    CASE o[1] = "make" -> Make(o[2], o[3], o[4])
      [] o[1] = "begin" -> Begin(o[2])
      [] o[1] = "next" -> Next(o[2])
      [] o[1] = "look" -> Look(o[2])
      [] o[1] = "change" -> Change(o[2], o[3])
      [] o[1] = "move" -> Move(o[2], o[3])
      [] o[1] = "assign" -> Assign(o[2], o[3])
      [] o[1] = "swap" -> Swap(o[2], o[3])
      [] o[1] = "drop" -> Drop(o[2])
      [] o[1] = "map" -> Map(o[2], o[3])
\* Values come in order, and a generator is at its end only after its last value or an exception
Inv == \A s \in S : g[s] # Nothing =>
          /\ g[s][3] = 1 => (g[s][4] \in 1..g[s][1])
          /\ g[s][3] = 2 => (g[s][4] = g[s][1] + 1 \/ (g[s][7] # 0 /\ g[s][4] = g[s][7]))
          /\ (Poke = 0 /\ g[s][3] = 1) => (g[s][8] = g[s][4] * Pow2(g[s][6]))
=============================================================================
