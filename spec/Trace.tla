------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks a recorded trace of the real code, one event a state, against    *)
(* ImgProc.  Environment: TRACE (ndjson file), PROP (property).            *)
(***************************************************************************)
EXTENDS ImgProc, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Paths == {Log[i].path : i \in {j \in 1..Len(Log) : Log[j].s = "F" /\ Log[j].op # "reset"}} \cup {"dir.png"}
NoFiles == [p \in Paths |-> IF p = "dir.png" THEN Nothing("dir") ELSE Nothing("absent")]

VARIABLES l, regs, files, listing
vars == <<l, regs, files, listing>>

Init == l = 1 /\ regs = NoRegs /\ files = NoFiles /\ listing = <<>>

Report(e, ok) == IF ok THEN TRUE ELSE PrintT(<<"BAD", e.i>>)

PureStep(e) ==
    /\ e.s = ""
    /\ Report(e, Pure(Prop, e))
    /\ UNCHANGED <<regs, files, listing>>
RegStep(e) ==
    /\ e.s = "C"
    /\ LET ok == RegVerdict(regs, e) IN
       /\ Report(e, ok)
       /\ regs' = (IF ok THEN RegsAfter(regs, e) ELSE RegsResync(regs, e))
    /\ UNCHANGED <<files, listing>>
FileStep(e) ==
    /\ e.s = "F"
    /\ Report(e, FileVerdict(files, e, listing))
    /\ files' = (IF e.op = "reset" THEN NoFiles ELSE AfterFile(files, e))
    /\ listing' = e.st
    /\ UNCHANGED regs
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN PureStep(e) \/ RegStep(e) \/ FileStep(e)
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
