---------------------------- MODULE MC_Container ----------------------------
(***************************************************************************)
(* Exhaustive exploration of the container machine on small images, next   *)
(* to a machine that works the way the library stores images: one linear   *)
(* sequence of samples, and an iterator that is a pair of coordinates.     *)
(* Invariant Refines: the two always agree.  Every transition taken is     *)
(* also printed, with the shortest history leading to it, as a session     *)
(* for the real code: together these cover every (state, operation) pair   *)
(* of the machine.  Environment: PROP (C01 or C03), TIER, SEED.            *)
(***************************************************************************)
EXTENDS ImgProc, Json, IOUtils

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)

VARIABLES regs, lin, cur, hist, n
vars == <<regs, lin, cur, hist, n>>

Shapes == IF Prop = "C03"
          THEN {<<1,1,1,FALSE>>, <<3,1,1,FALSE>>, <<1,3,1,FALSE>>, <<2,2,2,TRUE>>, <<0,2,1,FALSE>>, <<2,0,1,FALSE>>}
                 \cup (IF Deep THEN {<<3,3,1,FALSE>>, <<4,2,1,FALSE>>, <<2,4,3,FALSE>>} ELSE {})
          ELSE {<<1,1,2,TRUE>>, <<2,1,1,FALSE>>, <<1,2,1,FALSE>>} \cup (IF Deep THEN {<<2,2,1,FALSE>>, <<1,2,2,TRUE>>} ELSE {})
Vals == IF Prop = "C03" THEN {7} ELSE {0, 1}
New(s, d) == [op |-> "new", reg |-> "a", ty |-> "u8", ctor |-> "slice", w |-> s[1], h |-> s[2], c |-> s[3], a |-> s[4], d |-> d]
Start(s) == [i \in 1..(s[1] * s[2] * s[3]) |-> IF Prop = "C03" THEN i ELSE 0]

------------------------------------------------------------------------------
(* The implementation's view.  cur is the iterator on register a: [on, x, y, xm, ym]. *)
Idle == [on |-> FALSE, x |-> 0, y |-> 0, xm |-> 0, ym |-> 0]
Addr(m, x, y) == (y * m.w + x) * m.c
Slice(m, l, x, y) == SubSeq(l, Addr(m, x, y) + 1, Addr(m, x, y) + m.c)
Splice(l, at, px) == [i \in 1..Len(l) |-> IF i > at /\ i <= at + Len(px) THEN px[i - at] ELSE l[i]]
LinAfter(m, l, e) ==                    \* l: the samples of the register e writes to
    CASE ~Legal(m, e) -> l
      [] e.op = "put" -> Splice(l, IF ByXY(e) THEN Addr(m, e.x, e.y) ELSE e.x * m.c, e.px)
      [] e.op = "poke" -> Splice(l, IF e.how = "data" THEN e.x ELSE (IF ByXY(e) THEN Addr(m, e.x, e.y) ELSE e.x * m.c) + e.k, <<e.val>>)
      [] e.op = "edit" -> [i \in 1..Len(l) |-> IF (i - 1) % m.c = e.k THEN l[i] + e.val ELSE l[i]]
      [] OTHER -> l
CurStart(m) == [on |-> TRUE, x |-> 0, y |-> 0, xm |-> IF m.w * m.h = 0 THEN 0 ELSE m.w, ym |-> IF m.w * m.h = 0 THEN 0 ELSE m.h]
CurWrap(k) == IF k.x >= k.xm /\ ~(k.y + 1 >= k.ym) THEN [k EXCEPT !.x = 0, !.y = k.y + 1] ELSE k
CurDone(k) == k.x >= k.xm /\ k.y + 1 >= k.ym
CurNext(k) == IF CurDone(k) THEN k ELSE [CurWrap(k) EXCEPT !.x = CurWrap(k).x + 1]
RECURSIVE CurNth(_, _)
CurNth(k, j) == IF j = 0 THEN k ELSE CurNth(CurNext(k), j - 1)
CurLeft(k) == (k.xm * k.ym) - ((k.y * k.xm) + k.x)

------------------------------------------------------------------------------
(* Events offered in a state. *)
Reads(r) == LET m == regs[r] IN
    {[op |-> "get", reg |-> r, how |-> hw, x |-> x, y |-> y] : hw \in {"xy", "mut"}, x \in 0..m.w, y \in 0..m.h}
    \cup {[op |-> "get", reg |-> r, how |-> hw, x |-> x, y |-> y] : hw \in {"xy_un", "mut_un"}, x \in 0..(m.w - 1), y \in 0..(m.h - 1)}
    \cup {[op |-> "get", reg |-> r, how |-> hw, x |-> x, y |-> 0] : hw \in {"idx", "idx_mut", "data"}, x \in 0..(m.w * m.h)}
Puts(r) == LET m == regs[r] IN
    {[op |-> "put", reg |-> r, how |-> hw, x |-> x, y |-> y, px |-> px] :
        hw \in {"xy", "mut"}, x \in 0..m.w, y \in 0..m.h, px \in {[i \in 1..k |-> v] : k \in {m.c, m.c + 1}, v \in Vals}}
    \cup {[op |-> "put", reg |-> r, how |-> hw, x |-> x, y |-> 0, px |-> [i \in 1..m.c |-> v]] : hw \in {"set_idx", "idx"}, x \in 0..(m.w * m.h), v \in Vals}
Pokes(r) == LET m == regs[r] IN
    {[op |-> "poke", reg |-> r, how |-> "data", x |-> x, y |-> 0, k |-> 0, val |-> v] : x \in 0..(m.w * m.h * m.c), v \in Vals}
    \cup {[op |-> "poke", reg |-> r, how |-> "mut", x |-> x, y |-> y, k |-> k, val |-> v] : x \in 0..m.w, y \in 0..m.h, k \in 0..m.c, v \in Vals}
    \cup {[op |-> "poke", reg |-> r, how |-> "idx", x |-> x, y |-> 0, k |-> k, val |-> v] : x \in 0..(m.w * m.h), k \in 0..m.c, v \in Vals}
Flip(r) == LET m == regs[r] IN                 \* a channel edit that keeps samples small
    IF \A i \in 1..Len(lin[r]) : lin[r][i] = 0 THEN {[op |-> "edit", reg |-> r, k |-> k, val |-> 1] : k \in 0..(m.c - 1)} ELSE {}
IterEvents == IF ~regs["a"].filled THEN {} ELSE
    {[op |-> "iter", reg |-> "a", how |-> hw] : hw \in {"new", "into"}}
    \cup (IF cur.on THEN {[op |-> "next", reg |-> "a"], [op |-> "drain", reg |-> "a", how |-> "fold"], [op |-> "drain", reg |-> "a", how |-> "for"], [op |-> "tail", reg |-> "a"]}
                            \cup {[op |-> "nth", reg |-> "a", k |-> k] : k \in 0..2} ELSE {})
Used(r) == regs[r].filled
Clones == {[op |-> "clone", reg |-> "b", from |-> "a"]} \cup (IF Used("b") THEN {[op |-> "clone", reg |-> "a", from |-> "b"]} ELSE {})
Eqs == IF Used("b") THEN {[op |-> "eq", reg |-> "a", from |-> "b"], [op |-> "eq", reg |-> "b", from |-> "a"]} ELSE {}
Events == IF Prop = "C03" THEN IterEvents \cup {[op |-> "info", reg |-> "a"]}
          ELSE Reads("a") \cup Puts("a") \cup Pokes("a") \cup Flip("a") \cup Clones \cup Eqs \cup {[op |-> "info", reg |-> "a"]}
               \cup (IF Used("b") THEN Reads("b") \cup Puts("b") \cup Flip("b") ELSE {})

Init == \E s \in Shapes :
    LET d == TLCEval(Start(s)) e == New(s, d) IN
    /\ regs = RegsAfter(NoRegs, e)
    /\ lin = [r \in RegNames |-> IF r = "a" THEN d ELSE <<>>]
    /\ cur = Idle /\ n = 0
    /\ hist = <<[op |-> "reset", reg |-> "a"], e>>
WriteOps == {"put", "poke", "edit"}
Next == \E e \in Events :
    /\ regs' = RegsAfter(regs, e)
    /\ lin' = (IF e.op = "clone" THEN [lin EXCEPT ![e.reg] = lin[e.from]]
               ELSE IF e.op = "eq" THEN lin
               ELSE [lin EXCEPT ![e.reg] = TLCEval(LinAfter(regs[e.reg], lin[e.reg], e))])
    /\ cur' = (IF e.reg # "a" THEN cur
               ELSE IF e.op = "iter" THEN CurStart(regs["a"])
               ELSE IF e.op = "next" THEN CurNext(cur)
               ELSE IF e.op = "nth" THEN CurNth(cur, e.k + 1)
               ELSE IF (e.op \in WriteOps /\ Legal(regs["a"], e)) \/ e.op = "clone" THEN Idle
               ELSE cur)
    /\ hist' = Append(hist, e)
    /\ n' = n + 1
Spec == Init /\ [][Next]_vars

View == <<regs, lin, cur>>
(* every transition is a scenario; in the quick tier one in a few *)
Thin == IF Prop = "C03" THEN 1 ELSE 9
Emit == (IF Deep \/ (TLCGet("generated") + Seed) % Thin = 0 THEN PrintT("CASE " \o ToJson([s |-> "C", calls |-> hist'])) ELSE TRUE)

------------------------------------------------------------------------------
Refines ==
    /\ \A r \in RegNames : regs[r].filled =>
         LET m == regs[r] IN
         /\ Linear(m) = lin[r]
         /\ FromLinear(m.w, m.h, m.c, m.a, lin[r]).v = m.v
         /\ \A x \in 0..(m.w - 1) : \A y \in 0..(m.h - 1) :
               /\ Slice(m, lin[r], x, y) = PixelAt(m, x, y)
               /\ PixelNo(m, y * m.w + x) = PixelAt(m, x, y)
    /\ LET m == regs["a"] IN
       /\ cur.on = (m.it >= 0)
       /\ cur.on =>
             /\ CurLeft(cur) = (m.w * m.h) - m.it
             /\ CurDone(cur) = (m.it = m.w * m.h)
             /\ ~CurDone(cur) => /\ CurWrap(cur).x = m.it % m.w /\ CurWrap(cur).y = m.it \div m.w
(* Equality of images is equality of their samples, and a clone is independent. *)
EqIsSamples == (Used("a") /\ Used("b")) =>
    (([regs["a"] EXCEPT !.it = -1] = [regs["b"] EXCEPT !.it = -1]) <=> (lin["a"] = lin["b"]))
=============================================================================
