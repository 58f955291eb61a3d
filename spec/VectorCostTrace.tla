--------------------------- MODULE VectorCostTrace ---------------------------
(* C11: every recorded event carries the number of key comparisons the operation
   took and the greatest number any lookup takes afterwards. Both must stay within
   the red-black bound for the number of elements, or, once elements were erased,
   within the cost in the (known to be imperfect) tree of the specification.
   "bulk" events describe big sets made by insertions only: strict bound. *)
EXTENDS VectorTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Larger(a, b) == IF a > b THEN a ELSE b
Within(n, c, model) == c <= Larger(RbBound(n), model)
\* besides the lookup an insertion compares the key with its parent and neighbours
Extra == 6
Event(e) ==
    CASE e.o[1] = "insert" -> Insert(e.o[2])
                              /\ Within(Cardinality(t.in) + 1, e.o[3] - Extra, Cost(t, t.root, e.o[2]))
                              /\ Within(Cardinality(t'.in), e.o[4], MaxCost(t', t'.root))
      [] e.o[1] = "erase" -> Erase(e.o[2])
                              /\ Within(Cardinality(t.in), e.o[3], Cost(t, t.root, e.o[2]))
                              /\ Within(Cardinality(t'.in), e.o[4], MaxCost(t', t'.root))
      [] e.o[1] = "bulk" -> UNCHANGED <<t, res>> /\ e.o[3] <= RbBound(e.o[2]) + Extra /\ e.o[4] <= RbBound(e.o[2])
      [] e.o[1] = "position" -> UNCHANGED <<t, res>> /\ e.o[3] = 1 /\ e.o[4] = 1
      [] e.o[1] = "reset" -> Reset
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Event(Trace[l])
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
