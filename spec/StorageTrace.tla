---------------------------- MODULE StorageTrace ----------------------------
(* Validation of everything the exploration of the real storage observed. node[n] is the set of
   values that a load of the disk contents number n may yield.
     ["node", n]                        the empty disk
     ["run", n, calls]                  a process started with the contents n performed the calls
     ["kill", n, calls, m, c]           ... and was killed, the system runs on: the contents m have the unsynced operations
     ["crash", n, calls, tm, tb, imgs]  ... and stopped after or in the last of them; imgs are all the contents
                                        that can be found then: <<am, tm, ab, tb, number, candidates>>        *)
EXTENDS StorageContract, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES node, l
vars == <<node>>
Elems(q) == {q[i] : i \in 1..Len(q)}
TInit == node = <<>> /\ l = 1
Reject(why) == PrintT(<<"REJECT", l, why>>) /\ FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l].o IN
            CASE e[1] = "reset" -> node' = <<>>
              [] e[1] = "node" -> e[2] = Len(node) + 1 /\ node' = Append(node, {0})
              [] e[1] = "run" -> /\ IF AllAllowed(node[e[2]], e[3]) THEN TRUE ELSE Reject(<<"a load may yield one of", node[e[2]]>>)
                                 /\ UNCHANGED node
              [] e[1] = "crash" ->
                 LET c == AfterAll(node[e[2]], e[3])
                     imgs == e[6]
                     new == SelectSeq(imgs, LAMBDA x : x[5] > Len(node))
                 IN /\ IF AllAllowed(node[e[2]], e[3]) THEN TRUE ELSE Reject(<<"a load may yield one of", node[e[2]]>>)
                    \* every possible content was explored, and nothing else
                    /\ {<<x[1], x[2], x[3], x[4]>> : x \in Elems(imgs)} = Images(e[4], e[5])
                    \* new contents are numbered in order; known ones have the same candidates
                    /\ \A x \in Elems(imgs) : Elems(x[6]) = c
                    /\ \A x \in Elems(imgs) : x[5] <= Len(node) => node[x[5]] = c
                    /\ LET ids == {x[5] : x \in Elems(new)} IN
                       /\ ids = (Len(node) + 1)..(Len(node) + Cardinality(ids))
                       /\ node' = node \o [i \in 1..Cardinality(ids) |-> c]
              [] e[1] = "kill" ->
                 LET c == AfterAll(node[e[2]], e[3]) IN
                 /\ Elems(e[5]) = c
                 /\ IF e[4] <= Len(node) THEN node[e[4]] = c /\ UNCHANGED node
                    ELSE e[4] = Len(node) + 1 /\ node' = Append(node, c)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
