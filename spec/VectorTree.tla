----------------------------- MODULE VectorTree -----------------------------
(* The search tree inside Awl/VectorSet.h, transcribed: red-black insertion and
   the deletion the code performs (which skips the rebalancing when the removed
   position has no child, a known finding, see DESIGN.md C11). A node is named
   by its key, 0 is the null pointer. The model gives the set of reachable tree
   shapes (the histories replayed for C10) and the number of key comparisons of
   every lookup (C11). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS NK, Big
Keys == 1..NK
Black == 1
Red == 0

VARIABLES t, res
vars == <<t, res>>

Null == [k \in Keys |-> 0]
EmptyTree == [root |-> 0, l |-> Null, r |-> Null, p |-> Null, c |-> Null, in |-> {}]

\* only what describes the tree; stale links of removed nodes are cleared
View == <<t.root, t.l, t.r, t.c>>

IsBlack(s, x) == x = 0 \/ s.c[x] = Black

RotateLeft(s, x) ==
    LET y == s.r[x]
        b == s.l[y]
        px == s.p[x]
        s1 == [s EXCEPT !.r[x] = b, !.p[y] = px]
        s2 == IF b # 0 THEN [s1 EXCEPT !.p[b] = x] ELSE s1
        s3 == IF px = 0 THEN [s2 EXCEPT !.root = y]
              ELSE IF x = s2.l[px] THEN [s2 EXCEPT !.l[px] = y] ELSE [s2 EXCEPT !.r[px] = y]
    IN [s3 EXCEPT !.l[y] = x, !.p[x] = y]

RotateRight(s, y) ==
    LET x == s.l[y]
        b == s.r[x]
        py == s.p[y]
        s1 == [s EXCEPT !.l[y] = b, !.p[x] = py]
        s2 == IF b # 0 THEN [s1 EXCEPT !.p[b] = y] ELSE s1
        s3 == IF py = 0 THEN [s2 EXCEPT !.root = x]
              ELSE IF y = s2.l[py] THEN [s2 EXCEPT !.l[py] = x] ELSE [s2 EXCEPT !.r[py] = x]
    IN [s3 EXCEPT !.r[x] = y, !.p[y] = x]

Rotate(s, x, left) == IF left THEN RotateLeft(s, x) ELSE RotateRight(s, x)

RECURSIVE FixInsert(_, _)
FixInsert(s, x) ==
    IF x = s.root \/ s.c[s.p[x]] = Black THEN [s EXCEPT !.c[s.root] = Black]
    ELSE LET pp == s.p[x]
             g == s.p[pp]
             left == pp = s.l[g]
             u == IF left THEN s.r[g] ELSE s.l[g]
         IN IF u # 0 /\ s.c[u] = Red
            THEN FixInsert([s EXCEPT !.c[pp] = Black, !.c[u] = Black, !.c[g] = Red], g)
            ELSE LET inner == IF left THEN x = s.r[pp] ELSE x = s.l[pp]
                     s1 == IF inner THEN Rotate(s, pp, left) ELSE s
                     x1 == IF inner THEN pp ELSE x
                     p1 == s1.p[x1]
                     g1 == s1.p[p1]
                     s2 == [s1 EXCEPT !.c[p1] = Black, !.c[g1] = Red]
                 IN FixInsert(Rotate(s2, g1, ~left), x1)

\* the parent a new key is attached to
RECURSIVE Parent(_, _, _, _)
Parent(s, x, par, k) == IF x = 0 THEN par ELSE Parent(s, IF k < x THEN s.l[x] ELSE s.r[x], x, k)

InsertTree(s, k) ==
    LET par == Parent(s, s.root, 0, k)
        s0 == [s EXCEPT !.p[k] = par, !.c[k] = Red, !.l[k] = 0, !.r[k] = 0, !.in = @ \cup {k}]
        s1 == IF par = 0 THEN [s0 EXCEPT !.root = k]
              ELSE IF k < par THEN [s0 EXCEPT !.l[par] = k] ELSE [s0 EXCEPT !.r[par] = k]
    IN FixInsert(s1, k)

RECURSIVE FixRemove(_, _)
FixRemove(s, x) ==
    IF x = s.root \/ s.c[x] = Red THEN [s EXCEPT !.c[x] = Black]
    ELSE LET px == s.p[x]
             left == x = s.l[px]
             Near(q, n) == IF left THEN q.l[n] ELSE q.r[n]
             Far(q, n) == IF left THEN q.r[n] ELSE q.l[n]
             w0 == Far(s, px)
         IN IF w0 = 0 THEN FixRemove(s, px)
            ELSE LET red == s.c[w0] = Red
                     s1 == IF red THEN Rotate([s EXCEPT !.c[w0] = Black, !.c[px] = Red], px, left) ELSE s
                     w == Far(s1, s1.p[x])
                 IN IF w = 0 THEN FixRemove(s1, s1.p[x])
                    ELSE IF IsBlack(s1, s1.l[w]) /\ IsBlack(s1, s1.r[w])
                    THEN FixRemove([s1 EXCEPT !.c[w] = Red], s1.p[x])
                    ELSE LET turn == IsBlack(s1, Far(s1, w))
                             n == Near(s1, w)
                             s2 == IF turn
                                   THEN Rotate(IF n # 0 THEN [s1 EXCEPT !.c[n] = Black, !.c[w] = Red] ELSE [s1 EXCEPT !.c[w] = Red], w, ~left)
                                   ELSE s1
                             p2 == s2.p[x]
                             w2 == Far(s2, p2)
                             f == Far(s2, w2)
                             s3 == [s2 EXCEPT !.c[w2] = s2.c[p2]]
                             s4 == [s3 EXCEPT !.c[p2] = Black]
                             s5 == IF f # 0 THEN [s4 EXCEPT !.c[f] = Black] ELSE s4
                             s6 == Rotate(s5, p2, left)
                         IN [s6 EXCEPT !.c[s6.root] = Black]

RECURSIVE Leftmost(_, _)
Leftmost(s, x) == IF s.l[x] = 0 THEN x ELSE Leftmost(s, s.l[x])

RemoveTree(s, z) ==
    LET y == IF s.l[z] = 0 \/ s.r[z] = 0 THEN z ELSE Leftmost(s, s.r[z])
        x == IF s.l[y] # 0 THEN s.l[y] ELSE s.r[y]
        py == s.p[y]
        s1 == IF x # 0 THEN [s EXCEPT !.p[x] = py] ELSE s
        s2 == IF py = 0 THEN [s1 EXCEPT !.root = x]
              ELSE IF y = s1.l[py] THEN [s1 EXCEPT !.l[py] = x] ELSE [s1 EXCEPT !.r[py] = x]
        \* y takes the place of z
        zl == s2.l[z]
        zr == s2.r[z]
        zp == s2.p[z]
        a == IF zl # 0 THEN [s2 EXCEPT !.p[zl] = y] ELSE s2
        b == [a EXCEPT !.l[y] = zl]
        c == IF zr # 0 THEN [b EXCEPT !.p[zr] = y] ELSE b
        d == [c EXCEPT !.r[y] = zr]
        e == IF zp # 0 THEN (IF d.l[zp] = z THEN [d EXCEPT !.l[zp] = y] ELSE [d EXCEPT !.r[zp] = y]) ELSE d
        f == [e EXCEPT !.c[y] = s2.c[z], !.p[y] = zp]
        g == IF s2.root = z THEN [f EXCEPT !.root = y] ELSE f
        s3 == IF y # z THEN g ELSE s2
        s4 == IF s3.c[y] = Black /\ x # 0 THEN FixRemove(s3, x) ELSE s3
    IN [s4 EXCEPT !.l[z] = 0, !.r[z] = 0, !.p[z] = 0, !.c[z] = 0, !.in = @ \ {z}]

\* key comparisons of the lookup of k: one per step to the left, two per other step
RECURSIVE Cost(_, _, _)
Cost(s, x, k) == IF x = 0 THEN 0 ELSE IF k < x THEN 1 + Cost(s, s.l[x], k)
                 ELSE IF k > x THEN 2 + Cost(s, s.r[x], k) ELSE 2
RECURSIVE MaxCost(_, _)
MaxCost(s, x) == IF x = 0 THEN 0
                 ELSE LET a == 1 + MaxCost(s, s.l[x]) b == 2 + MaxCost(s, s.r[x]) IN IF a > b THEN a ELSE b
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
\* a red-black tree of n nodes is at most 2 log2(n + 1) deep; two comparisons per level
RbBound(n) == 4 * CeilLog2(n + 1)

Init == t = EmptyTree /\ res = <<>>
Reset == t' = EmptyTree /\ res' = <<>>

Elems(s) == LET q == SetToSortSeq(s.in, <) IN [i \in 1..Len(q) |-> <<q[i], 1>>]
Obs(r, s) == <<r, <<Elems(s)>>, TRUE>>

Insert(k) ==
    IF k \in t.in THEN UNCHANGED t /\ res' = Obs(<<0, k, 1>>, t)
    ELSE t' = InsertTree(t, k) /\ res' = Obs(<<1, k, 1>>, t')
Erase(k) ==
    IF k \notin t.in THEN UNCHANGED t /\ res' = Obs(<<0>>, t)
    ELSE t' = RemoveTree(t, k) /\ res' = Obs(<<1>>, t')

Ops == {<<"insert", 1, k, 1>> : k \in Keys} \cup {<<"erase", 1, k>> : k \in Keys}
Step(o) == CASE o[1] = "insert" -> Insert(o[3])
             [] o[1] = "erase" -> Erase(o[3])

\* the links are those of a binary search tree holding exactly the inserted keys
RECURSIVE Nodes(_, _, _, _)
Nodes(s, x, lo, hi) == IF x = 0 THEN {} ELSE IF lo < x /\ x < hi THEN
    Nodes(s, s.l[x], lo, x) \cup {x} \cup Nodes(s, s.r[x], x, hi) ELSE {-1}
RECURSIVE BlackHeight(_, _)
BlackHeight(s, x) == IF x = 0 THEN 0 ELSE
    LET a == BlackHeight(s, s.l[x]) b == BlackHeight(s, s.r[x]) IN
    IF a = -1 \/ a # b \/ (s.c[x] = Red /\ ~(IsBlack(s, s.l[x]) /\ IsBlack(s, s.r[x]))) THEN -1 ELSE a + s.c[x]
Inv == /\ Nodes(t, t.root, 0, NK + 1) = t.in
       /\ t.root # 0 => t.p[t.root] = 0 /\ t.c[t.root] = Black
       /\ \A k \in t.in : \A m \in {t.l[k], t.r[k]} : m # 0 => t.p[m] = k
\* only for histories without erasures
RedBlack == BlackHeight(t, t.root) # -1 /\ MaxCost(t, t.root) <= RbBound(Cardinality(t.in))
Next == \E o \in Ops : Step(o)
InsertNext == \E k \in Keys : Insert(k)
=============================================================================
