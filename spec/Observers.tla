----------------------------- MODULE Observers -----------------------------
(* Awl/Observable.h: observables 1..NO with their subscribers in order, observers
   1..NB. An observer is subscribed to at most one observable. During a
   notification some observers react: 1 unsubscribe themselves, 2 destroy
   themselves, 3 unsubscribe the first subscriber, 4 refuse to go on (only
   NotifyWhileTrue listens to that). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NO, NB
VARIABLES subs, res
vars == <<subs, res>>
View == subs

O == 1..NO
B == 1..NB
Elems(s) == {s[i] : i \in 1..Len(s)}
All(x) == UNION {Elems(x[o]) : o \in O}
Bit(b) == IF b THEN 1 ELSE 0
Without(x, b) == [o \in O |-> SelectSeq(x[o], LAMBDA y : y # b)]
Replace(x, b, c) == [o \in O |-> [i \in 1..Len(x[o]) |-> IF x[o][i] = b THEN c ELSE x[o][i]]]
Obs(r, x) == <<r, [o \in O |-> <<Len(x[o]), Bit(x[o] = <<>>)>>], [b \in B |-> Bit(b \in All(x))]>>
To(x, r) == subs' = x /\ res' = Obs(r, x)

Init == subs = [o \in O |-> <<>>] /\ res = <<>>
Reset == subs' = [o \in O |-> <<>>] /\ res' = <<>>

Subscribe(o, b) == b \notin All(subs) /\ To([subs EXCEPT ![o] = Append(@, b)], <<>>)
Unsubscribe(o, b) == b \in Elems(subs[o]) /\ To(Without(subs, b), <<>>)
UnsubscribeSafe(b) == To(Without(subs, b), <<>>)

\* who is called, in which order, and the subscriptions afterwards; re[b]: reaction of observer b
RECURSIVE Run(_, _, _, _, _)
Run(o, rest, x, re, while) ==
    IF rest = <<>> THEN <<<<>>, x, 1>>
    ELSE LET b == Head(rest)
             x1 == IF re[b] \in {1, 2} THEN Without(x, b)
                   ELSE IF re[b] = 3 /\ x[o] # <<>> THEN Without(x, Head(x[o])) ELSE x
             stop == while /\ re[b] = 4
             t == Run(o, Tail(rest), x1, re, while)
         IN IF stop THEN <<<<b>>, x1, 0>> ELSE <<<<b>> \o t[1], t[2], t[3]>>
Notify(o, b, r, c, s, while) ==
    b # c /\ LET re == [y \in B |-> IF y = b THEN r ELSE IF y = c THEN s ELSE 0]
                 n == Run(o, subs[o], subs, re, while)
             IN To(n[2], <<n[1], n[3]>>)

Destroy(b) == To(Without(subs, b), <<>>)             \* and a new observer in its place
\* observer c is replaced by one moved from b, or assigned from it
MoveObserver(c, b) == b # c /\ To(Replace(Without(subs, c), b, c), <<>>)
DestroyObservable(o) == To([subs EXCEPT ![o] = <<>>], <<>>)
\* observable p is replaced by one moved from o, or assigned from it
MoveObservable(p, o) == p # o /\ To([subs EXCEPT ![p] = subs[o], ![o] = <<>>], <<>>)

Ops == UNION {
    {<<n, o, b>> : n \in {"sub", "unsub", "unsubself"}, o \in O, b \in B},
    {<<n, b>> : n \in {"unsubsafe", "destroy"}, b \in B},
    {<<n, o, b, r, c, s>> : n \in {"notify", "while"}, o \in O, b \in B, r \in 0..4, c \in B, s \in 0..4},
    {<<n, c, b>> : n \in {"moveobs", "assignobs"}, c \in B, b \in B},
    {<<"destroyo", o>> : o \in O},
    {<<n, p, o>> : n \in {"moveo", "assigno"}, p \in O, o \in O}}

Step(o) ==
    CASE o[1] = "sub" -> Subscribe(o[2], o[3])
      [] o[1] \in {"unsub", "unsubself"} -> Unsubscribe(o[2], o[3])
      [] o[1] = "unsubsafe" -> UnsubscribeSafe(o[2])
      [] o[1] = "notify" -> Notify(o[2], o[3], o[4], o[5], o[6], FALSE)
      [] o[1] = "while" -> Notify(o[2], o[3], o[4], o[5], o[6], TRUE)
      [] o[1] = "destroy" -> Destroy(o[2])
      [] o[1] \in {"moveobs", "assignobs"} -> MoveObserver(o[2], o[3])
      [] o[1] = "destroyo" -> DestroyObservable(o[2])
      [] o[1] \in {"moveo", "assigno"} -> MoveObservable(o[2], o[3])

Inv == \A o \in O : /\ Cardinality(Elems(subs[o])) = Len(subs[o])
                    /\ \A p \in O : o # p => Elems(subs[o]) \cap Elems(subs[p]) = {}
=============================================================================
