-------------------------------- MODULE Ring --------------------------------
(* Awl/Ring.h: rings 1..NR of values 1..NV with capacities up to NC; capacity 0
   is a ring without a buffer (default constructed or moved from). `h` is the place
   of the first element in the buffer; it is not visible, but when Track is 1 it is
   part of the explored state, so that every wrap-around is replayed. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

CONSTANTS NR, NV, NC, Track
VARIABLES r, h, res
vars == <<r, h, res>>
View == <<r, h>>

R == 1..NR
V == 1..NV
B(b) == IF b THEN 1 ELSE 0
None == <<0, <<>>>>
Total(x) == FoldFunction(LAMBDA a, b : Len(a[2]) + b, 0, x)
\* capacity, content, empty, full; whether every view agrees; number of living elements
Obs(v, x) == <<v, [i \in R |-> <<x[i][1], x[i][2], B(x[i][2] = <<>>), B(Len(x[i][2]) = x[i][1])>>], TRUE, Total(x)>>
To(x, v) == r' = x /\ res' = Obs(v, x)
Head0(i, n) == h' = IF Track = 1 THEN [h EXCEPT ![i] = n] ELSE h
Mod(a, c) == ((a % c) + c) % c

Init == r = [i \in R |-> None] /\ h = [i \in R |-> 0] /\ res = <<>>
Reset == r' = [i \in R |-> None] /\ h' = [i \in R |-> 0] /\ res' = <<>>

PushBack(i, v) ==
    LET c == r[i][1] s == r[i][2] IN
    /\ c > 0
    /\ IF Len(s) = c THEN Head0(i, Mod(h[i] + 1, c)) /\ To([r EXCEPT ![i][2] = Append(Tail(s), v)], <<>>)
                     ELSE UNCHANGED h /\ To([r EXCEPT ![i][2] = Append(s, v)], <<>>)
PushFront(i, v) ==
    LET c == r[i][1] s == r[i][2] IN
    /\ c > 0
    /\ Head0(i, Mod(h[i] - 1, c))
    /\ To([r EXCEPT ![i][2] = <<v>> \o (IF Len(s) = c THEN Front(s) ELSE s)], <<>>)
\* an element of the ring itself
PushOwn(i, p, back) == p <= Len(r[i][2]) /\ IF back THEN PushBack(i, r[i][2][p]) ELSE PushFront(i, r[i][2][p])
PopFront(i) == r[i][2] # <<>> /\ Head0(i, Mod(h[i] + 1, r[i][1])) /\ To([r EXCEPT ![i][2] = Tail(@)], <<>>)
PopBack(i) == r[i][2] # <<>> /\ UNCHANGED h /\ To([r EXCEPT ![i][2] = Front(@)], <<>>)
Clear(i) == Head0(i, 0) /\ To([r EXCEPT ![i][2] = <<>>], <<>>)
\* the last elements that fit are kept
Reserve(i, c) == LET s == r[i][2] n == Len(s) IN
    Head0(i, 0) /\ To([r EXCEPT ![i] = <<c, IF n <= c THEN s ELSE SubSeq(s, n - c + 1, n)>>], <<>>)
New(i, c) == Head0(i, 0) /\ To([r EXCEPT ![i] = <<c, <<>>>>], <<>>)
Copy(i, j) == (IF i = j THEN UNCHANGED h ELSE Head0(i, 0)) /\ To([r EXCEPT ![i] = r[j]], <<>>)
CopyNew(i, j) == i # j /\ Copy(i, j)
Move(i, j) == i # j /\ (h' = [h EXCEPT ![i] = h[j], ![j] = 0]) /\ To([r EXCEPT ![i] = r[j], ![j] = None], <<>>)
Set(i, p, v) == p <= Len(r[i][2]) /\ UNCHANGED h /\ To([r EXCEPT ![i][2][p] = v], <<>>)
\* checked access: the value or 0 for an exception
At(i, p) == UNCHANGED <<r, h>> /\ res' = <<IF p < Len(r[i][2]) THEN r[i][2][p + 1] ELSE 0>>
Equal(i, j) == UNCHANGED <<r, h>> /\ res' = <<B(r[i][2] = r[j][2]), B(r[i][2] # r[j][2])>>

Ops == UNION {
    {<<n, i, v>> : n \in {"pushback", "pushfront", "pushbackm", "pushfrontm"}, i \in R, v \in V},
    {<<n, i, p>> : n \in {"ownback", "ownfront"}, i \in R, p \in 1..NC},
    {<<n, i>> : n \in {"popfront", "popback", "clear"}, i \in R},
    {<<"reserve", i, c>> : i \in R, c \in 1..NC},
    {<<"new", i, c>> : i \in R, c \in 0..NC},
    {<<n, i, j>> : n \in {"copynew", "assign", "movenew", "massign", "equal"}, i \in R, j \in R},
    {<<"set", i, p, v>> : i \in R, p \in 1..NC, v \in {1}},
    {<<"at", i, p>> : i \in R, p \in 0..(NC + 1)}}

Step(o) ==
    CASE o[1] \in {"pushback", "pushbackm"} -> PushBack(o[2], o[3])
      [] o[1] \in {"pushfront", "pushfrontm"} -> PushFront(o[2], o[3])
      [] o[1] = "ownback" -> PushOwn(o[2], o[3], TRUE)
      [] o[1] = "ownfront" -> PushOwn(o[2], o[3], FALSE)
      [] o[1] = "popfront" -> PopFront(o[2])
      [] o[1] = "popback" -> PopBack(o[2])
      [] o[1] = "clear" -> Clear(o[2])
      [] o[1] = "reserve" -> Reserve(o[2], o[3])
      [] o[1] = "new" -> New(o[2], o[3])
      [] o[1] = "copynew" -> CopyNew(o[2], o[3])
      [] o[1] = "assign" -> Copy(o[2], o[3])
      [] o[1] = "movenew" -> Move(o[2], o[3])
      [] o[1] = "massign" -> IF o[2] = o[3] THEN Copy(o[2], o[3]) ELSE Move(o[2], o[3])
      [] o[1] = "set" -> Set(o[2], o[3], o[4])
      [] o[1] = "at" -> At(o[2], o[3])
      [] o[1] = "equal" -> Equal(o[2], o[3])

Inv == \A i \in R : Len(r[i][2]) <= r[i][1]
=============================================================================
