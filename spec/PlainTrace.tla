------------------------------ MODULE PlainTrace ------------------------------
(* C07. A stream that values are written to with plain serialization is a queue of values, each  *)
(* with its length in bytes. Reading from the beginning takes the values one by one, consuming   *)
(* the length of each; when only a prefix of the bytes is there, the values that lie in it are    *)
(* read and the first that does not is an end-of-file error.                                     *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* the next event
          q,        \* the values written: [type, text, len]
          next,     \* the next value to be read
          pos,      \* bytes read
          avail,    \* bytes stored
          total     \* bytes written
vars == <<l, q, next, pos, avail, total>>

E == Trace[l]
Init == l = 1 /\ q = <<>> /\ next = 1 /\ pos = 0 /\ avail = 0 /\ total = 0

Check(cond, x) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, x>>) /\ FALSE

Reset == /\ E.o[1] = "reset"
         /\ q' = <<>> /\ next' = 1 /\ pos' = 0 /\ avail' = 0 /\ total' = 0

\* Writing appends; measuring gives the same length
Write == /\ E.o[1] = "write"
         /\ Check(E.r = "ok", <<"the length of the value is", E.o[4]>>)
         /\ q' = Append(q, [type |-> E.o[2], text |-> E.o[3], len |-> E.o[4]])
         /\ total' = total + E.o[4] /\ avail' = avail + E.o[4]
         /\ UNCHANGED <<next, pos>>

\* Only the first bytes are there; reading begins anew
Cut == /\ E.o[1] = "cut"
       /\ avail' = E.o[2] /\ pos' = 0 /\ next' = 1
       /\ UNCHANGED <<q, total>>

Read == /\ E.o[1] = "read"
        /\ next <= Len(q)
        /\ LET v == q[next] IN
           IF pos + v.len <= avail
           THEN /\ Check(E.r = v.text /\ E.o[3] = v.len /\ E.o[2] = v.type, <<"the value is", v>>)
                /\ pos' = pos + v.len /\ next' = next + 1
           ELSE /\ Check(E.r = "eof", "the end of the file is inside the value")
                /\ pos' = avail /\ next' = Len(q) + 1
        /\ UNCHANGED <<q, avail, total>>

End == /\ E.o[1] = "end"
       /\ Check(E.r = (IF pos = avail THEN "true" ELSE "false"), <<pos, avail>>)
       /\ UNCHANGED <<q, next, pos, avail, total>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Write \/ Cut \/ Read \/ End)
TSpec == Init /\ [][Next]_vars
Inv == pos <= avail /\ avail <= total
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
