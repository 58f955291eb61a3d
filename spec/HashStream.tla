----------------------------- MODULE HashStream -----------------------------
(* Awl/Io/HashStream.h, BufferedStream.h: a byte stream cut into blocks of B stored bytes, the last H
   of which are the checksum of the block (H = 0: a buffering stream). Bytes 0, 1, 2 ... of a known
   pattern are written, so reading n bytes from r is observed as n if they are bytes r .. r + n - 1.
   With H > 0 one stored byte can be changed or the file can be truncated before it is read. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, H, W, N,    \* W: the most bytes written, N: the most bytes read or written at once
          All            \* 1: every damage, 0: (large parameters) damage of some places only
VARIABLES ph, w, len, bad, r, stuck, res
vars == <<ph, w, len, bad, r, stuck, res>>
View == <<ph, w, len, bad, r, stuck>>
P == B - H
Stored(x) == (x \div P) * B + (IF x % P = 0 THEN 0 ELSE (x % P) + H)
None == 1000000            \* the number of the damaged block
\* the payload of the first b bytes that are stored
Payload(b) == (b \div B) * P + (IF b % B <= H THEN 0 ELSE (b % B) - H)
Min2(a, b) == IF a < b THEN a ELSE b

Init == ph = "write" /\ w = 0 /\ len = 0 /\ bad = None /\ r = 0 /\ stuck = FALSE /\ res = <<>>
Reset == ph' = "write" /\ w' = 0 /\ len' = 0 /\ bad' = None /\ r' = 0 /\ stuck' = FALSE /\ res' = <<>>

Write(n) == ph = "write" /\ w + n <= W /\ w' = w + n /\ res' = <<>> /\ UNCHANGED <<ph, len, bad, r, stuck>>
\* the output stream is finished (flushed and destroyed, or only destroyed)
Close == ph = "write" /\ ph' = "stored" /\ len' = Stored(w) /\ res' = <<Stored(w)>> /\ UNCHANGED <<w, bad, r, stuck>>
Change(p) == ph = "stored" /\ H > 0 /\ p < len /\ ph' = "damaged" /\ bad' = p \div B /\ res' = <<>> /\ UNCHANGED <<w, len, r, stuck>>
Truncate(p) == /\ ph = "stored" /\ H > 0 /\ p < len /\ ph' = "damaged" /\ len' = p /\ res' = <<>>
               /\ bad' = IF p % B = 0 THEN None ELSE p \div B
               /\ UNCHANGED <<w, r, stuck>>
Open == ph \in {"stored", "damaged"} /\ ph' = "read" /\ res' = <<>> /\ UNCHANGED <<w, len, bad, r, stuck>>

Good == IF bad = None THEN Payload(len) ELSE bad * P       \* bytes that can be handed out
Read(n) == /\ ph = "read"
           /\ IF n > 0 /\ bad # None /\ (stuck \/ r + n > Good)
              THEN stuck' = TRUE /\ res' = <<"corrupt">> /\ r' = Good
              ELSE LET k == Min2(n, Good - r) IN r' = r + k /\ res' = <<k>> /\ UNCHANGED stuck
           /\ UNCHANGED <<ph, w, len, bad>>
End == /\ ph = "read"
       /\ IF bad # None /\ r = Good THEN stuck' = TRUE /\ res' = <<"corrupt">>
          ELSE res' = <<r = Good>> /\ UNCHANGED stuck
       /\ UNCHANGED <<ph, w, len, bad, r>>

Ops == UNION {
    {<<"write", n>> : n \in 0..N}, {<<"close", k>> : k \in 0..1}, {<<"open">>}, {<<"read", n>> : n \in 0..N}, {<<"end">>},
    IF ph = "stored" /\ len > 0 THEN {<<"change", p>> : p \in 0..(len - 1)} \cup {<<"truncate", p>> : p \in 0..(len - 1)} ELSE {}}
Step(o) == CASE o[1] = "write" -> Write(o[2])
             [] o[1] = "close" -> Close
             [] o[1] = "open" -> Open
             [] o[1] = "read" -> Read(o[2])
             [] o[1] = "end" -> End
             [] o[1] = "change" -> Change(o[2])
             [] o[1] = "truncate" -> Truncate(o[2])
\* without damage everything is there; with damage what can be handed out is a prefix without the damaged block
Inv == /\ Good <= w /\ r <= Good
       /\ ph = "stored" => Good = w
       /\ bad # None => Good <= bad * P
=============================================================================
