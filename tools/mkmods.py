#!/usr/bin/env python3
"""Writes the driver modules of a specification X: XMC.tla (graph of all transitions, for replay)
and XTrace.tla (validation of a recorded history). usage: mkmods.py X..."""
import os, sys
SPEC = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/spec"
MC = """---- MODULE {X}MC ----
(* Exhaustive exploration of {X}; every transition is printed for the replay into the code. *)
EXTENDS {X}, Json
VARIABLE act
MCInit == Init /\\ act = <<>>
MCNext == \\E o \\in Ops : Step(o) /\\ act' = o
Emit == PrintT(ToJson(<<"EDGE", View, act', ToJson(res'), View'>>))
====
"""
TR = """---- MODULE {X}Trace ----
(* Is a history recorded from the code a behaviour of {X}? *)
EXTENDS {X}, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == Init /\\ l = 1
TNext == /\\ l <= Len(Trace)
         /\\ l' = l + 1
         /\\ LET e == Trace[l] IN
            IF e.o[1] = "reset" THEN Reset
            ELSE Step(e.o) /\\ (ToJson(res') = e.r \\/ (PrintT(<<"REJECT", l, ToJson(res')>>) /\\ FALSE))
TSpec == TInit /\\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"DIAM", TLCGet("stats").diameter>>) /\\ TLCGet("stats").diameter - 1 = Len(Trace)
====
"""
SIM = """---- MODULE {X}Sim ----
(* Random behaviours of {X} (tlc -simulate), printed for the replay into the code. *)
EXTENDS {X}, Json
CONSTANT Depth
VARIABLE hist
SInit == Init /\\ hist = <<>>
SNext == \\E o \\in Ops : Step(o) /\\ hist' = Append(hist, <<ToJson(o), ToJson(res')>>)
Emit == Len(hist) # Depth \\/ PrintT(ToJson(<<"SIM", hist>>))
====
"""
sim = "--sim" in sys.argv
for x in sys.argv[1:]:
    if x == "--sim":
        continue
    if sim:
        open(f"{SPEC}/{x}Sim.tla", "w").write(SIM.format(X=x))
    open(f"{SPEC}/{x}MC.tla", "w").write(MC.format(X=x))
    open(f"{SPEC}/{x}Trace.tla", "w").write(TR.format(X=x))
