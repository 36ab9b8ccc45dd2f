------------------------------- MODULE ImgProc -------------------------------
(***************************************************************************)
(* The system: image registers (the container state machine), image files  *)
(* (the file store) and the pure operations on images.  Step(e) is the     *)
(* next-state relation for one public call e together with its recorded    *)
(* outcome; Good(prop, e) says that the outcome is one the specification   *)
(* allows, as far as property prop is concerned.                           *)
(***************************************************************************)
EXTENDS PropMisc, Container, FileStore

Pure(prop, e) ==
    CASE prop \in {"C17", "C18", "C19", "C20", "C22", "C23", "C24"} /\ "far" \in DOMAIN e.p -> FarOk(e)
      [] prop = "C02" -> C02(e) [] prop = "C04" -> C04(e) [] prop = "C05" -> C05(e) [] prop = "C06" -> C06(e)
      [] prop = "C07" -> C07(e) [] prop = "C08" -> C08(e) [] prop = "C09" -> C09(e) [] prop = "C10" -> C10(e)
      [] prop = "C11" -> C11(e) [] prop = "C12" -> C12(e) [] prop = "C13" -> C13(e) [] prop = "C14" -> C14(e)
      [] prop = "C15" -> C15(e) [] prop = "C16" -> C16(e) [] prop = "C17" -> C17(e) [] prop = "C18" -> C18(e)
      [] prop = "C19" -> C19(e) [] prop = "C20" -> C20(e) [] prop = "C21" -> C21(e) [] prop = "C22" -> C22(e)
      [] prop = "C23" -> C23(e) [] prop = "C24" -> C24(e) [] prop = "C25" -> C25(e) [] prop = "C26" -> C26(e)
      [] prop = "C27" -> C27(e) [] prop = "C28" -> C28(e) [] prop = "C29" -> C29(e) [] prop = "C30" -> C30(e)
      [] prop = "C31" -> C31(e) [] prop = "C32" -> C32(e) [] prop = "C33" -> C33(e) [] prop = "C35" -> C35(e)
      [] prop = "C36" -> C36(e)

------------------------------------------------------------------------------
(* Registers.  Events: reset, new, clone, eq, and those of Container. *)
RegNames == {"a", "b", "c", "d"}
NoRegs == [n \in RegNames |-> Null]

RegsAfter(regs, e) ==
    CASE e.op = "reset" -> NoRegs
      [] e.op = "clone" -> [regs EXCEPT ![e.reg] = [regs[e.from] EXCEPT !.it = -1]]
      [] e.op = "eq" -> regs
      [] OTHER -> [regs EXCEPT ![e.reg] = After(regs[e.reg], e)]

SameStore(m, st) ==
    /\ st.w = m.w /\ st.h = m.h /\ st.c = m.c /\ st.a = m.a
    /\ Len(st.d) = (IF m.filled THEN m.w * m.h * m.c ELSE 0)
    /\ m.filled => st.d = Linear(m)
RegVerdict(regs, e) ==
    CASE e.op \in {"reset", "clone"} -> e.r = "ok"
      [] e.op = "eq" ->
            LET a == regs[e.reg] b == regs[e.from] IN
            e.r = "ok" /\ (e.o = ([a EXCEPT !.it = -1] = [b EXCEPT !.it = -1]))
      [] OTHER ->
            LET m == regs[e.reg] IN
            /\ IF Legal(m, e) THEN e.r = "ok" /\ Returns(m, e) ELSE e.r = "panic"
            /\ SameStore(After(m, e), e.st)
(* After a wrong outcome the register continues from what the code actually holds. *)
FromStore(st, it) ==
    IF Len(st.d) = st.w * st.h * st.c
    THEN [FromLinear(st.w, st.h, st.c, st.a, st.d) EXCEPT !.it = it] ELSE [Null EXCEPT !.w = st.w, !.h = st.h, !.c = st.c, !.a = st.a]
RegsResync(regs, e) ==
    IF e.op \in {"reset", "eq", "clone"} THEN RegsAfter(regs, e)
    ELSE [regs EXCEPT ![e.reg] = FromStore(e.st, After(regs[e.reg], e).it)]
=============================================================================
