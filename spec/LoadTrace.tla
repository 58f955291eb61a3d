------------------------------ MODULE LoadTrace ------------------------------
(* Every load of a headered, checksummed value that the harness did. The state is the value of the
   caller's object. A file is <<format, version, value, damage>> or <<>> (an empty file); it was written by
   the code with that header and value and then damaged: <<"none">>, <<"change", pos, mask>>, <<"truncate", length>>,
   <<"append", n>> (behind a last block that is not full), <<"garbage">> (nothing of it was written by the code).
     <<"read", file, h>>           reading from a stream, h = 1: the old version handler returns normally, 0: default
     <<"load", master, backup>>    through the atomic storage (the default handler)
   Observed: <<outcome, value of the object, version passed to the handler or 0>>                   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Format, Version
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES obj, l
Whole(f) == f # <<>> /\ f[4][1] = "none"
Good(f) == Whole(f) /\ f[1] = Format /\ f[2] = Version
Old(f) == Whole(f) /\ f[1] = Format /\ f[2] < Version
\* the outcome, the value afterwards, the version given to the handler
Read(f, h) == IF Good(f) THEN <<"ok", f[3], 0>>
              ELSE IF Old(f) THEN <<IF h = 1 THEN "ok" ELSE "rejected", obj, f[2]>>
              ELSE <<"rejected", obj, 0>>
Load(m, b) == IF Good(b) THEN <<"ok", b[3]>> ELSE IF Good(m) THEN <<"ok", m[3]>> ELSE <<"rejected", obj>>
TInit == obj = 0 /\ l = 1
Says(r, e) == IF e = r THEN obj' = r[2] ELSE PrintT(<<"REJECT", l, r>>) /\ FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET o == Trace[l].o r == Trace[l].r IN
            CASE o[1] = "reset" -> obj' = o[2]
              [] o[1] = "read" -> Says(Read(o[2], o[3]), r)
              [] o[1] = "load" -> Says(Load(o[2], o[3]), r)
TSpec == TInit /\ [][TNext]_<<obj, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
