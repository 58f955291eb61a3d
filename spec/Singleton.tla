----------------------------- MODULE Singleton -----------------------------
(* C41. One type accessed through shared_singleton (kind 1) and one through ondemand_singleton (kind  *)
(* 2); the holders 1..H have what was returned. t[kind] is <<the instance alive or 0, how many were   *)
(* created, whether there ever was one>>; h[i] is <<kind, instance>> (instance 0: null) or empty.     *)
(* A creation can throw (1), throw after the object was constructed (2) or return null (3).           *)
(* res: what happened, the instance returned, how many are alive and were created.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, MaxI, Null
VARIABLES t, h, res
vars == <<t, h, res>>
View == <<t, h>>
Nobody == <<0, 0>>
Init == t = [k \in 1..2 |-> <<0, 0, 0>>] /\ h = [i \in 1..H |-> Nobody] /\ res = <<>>
Reset == t' = [k \in 1..2 |-> <<0, 0, 0>>] /\ h' = [i \in 1..H |-> Nobody] /\ res' = <<>>
\* The instances that nobody holds are destroyed
Alive(tt, hh) == [k \in 1..2 |-> IF \E i \in 1..H : hh[i] = <<k, tt[k][1]>> THEN tt[k] ELSE <<0, tt[k][2], tt[k][3]>>]
To(tt, hh, what, p) ==
    LET x == Alive(tt, hh) IN
    /\ t' = x /\ h' = hh
    /\ res' = <<what, p, Cardinality({k \in 1..2 : x[k][1] # 0}), x[1][2], x[2][2]>>
Get(k, i, fail) ==
    /\ h[i] = Nobody
    /\ IF t[k][1] # 0 THEN fail = 0 /\ To(t, [h EXCEPT ![i] = <<k, t[k][1]>>], "ok", t[k][1])
       ELSE IF k = 1 /\ t[k][3] = 1 THEN fail = 0 /\ To(t, h, "null", 0)
       ELSE IF fail = 1 THEN To(t, h, "thrown", 0)
       ELSE IF fail = 3 THEN To(t, h, "null", 0)
       ELSE /\ t[k][2] < MaxI
            /\ IF fail = 2 THEN To([t EXCEPT ![k][2] = @ + 1], h, "thrown", 0)
               ELSE To([t EXCEPT ![k] = <<@[2] + 1, @[2] + 1, 1>>], [h EXCEPT ![i] = <<k, t[k][2] + 1>>], "ok", t[k][2] + 1)
Release(i) == h[i] # Nobody /\ To(t, [h EXCEPT ![i] = Nobody], "ok", 0)
Share(i, j) == h[i] # Nobody /\ h[j] = Nobody /\ To(t, [h EXCEPT ![j] = h[i]], "ok", h[i][2])
Ops == UNION {
    {<<"get", k, i, f>> : k \in 1..2, i \in 1..H, f \in 0..(2 + Null)},
    {<<"release", i>> : i \in 1..H},
    {<<"share", i, j>> : i \in 1..H, j \in 1..H}}
Step(o) ==
    CASE o[1] = "get" -> Get(o[2], o[3], o[4])
      [] o[1] = "release" -> Release(o[2])
      [] o[1] = "share" -> Share(o[2], o[3])
\* All holders have the same instance, which is alive
Inv == \A i \in 1..H : h[i] # Nobody => h[i][2] = t[h[i][1]][1]
=============================================================================
