----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* The image container as a state machine (properties C01, C02, C03).      *)
(*                                                                         *)
(* A store maps register names to images.  An image is abstract here: a    *)
(* function of row, column and channel to samples, with no addresses.      *)
(* Events are records; Verdict gives the outcome the specification allows  *)
(* for an event, After the store it leads to.  MC_Container explores the   *)
(* machine exhaustively and checks that the linear row-major layout of the *)
(* code refines it; Trace replays recorded histories of the real code.     *)
(***************************************************************************)
EXTENDS ImgBase

Null == [w |-> 0, h |-> 0, c |-> 0, a |-> FALSE, filled |-> FALSE, v |-> <<>>, it |-> -1]

(* Linear (row-major, interleaved) view of an abstract image and back. *)
LinAt(m, i) == LET p == (i - 1) \div m.c IN m.v[p \div m.w][p % m.w][(i - 1) % m.c]
Linear(m) == IF m.filled THEN [i \in 1..(m.w * m.h * m.c) |-> LinAt(m, i)] ELSE <<>>
FromLinear(w, h, c, a, d) ==
    [w |-> w, h |-> h, c |-> c, a |-> a, filled |-> TRUE, it |-> -1,
     v |-> TLCEval([y \in 0..(h-1) |-> TLCEval([x \in 0..(w-1) |->
              TLCEval([k \in 0..(c-1) |-> d[((y * w + x) * c) + k + 1]])])])]

InXY(m, x, y) == x >= 0 /\ y >= 0 /\ x < m.w /\ y < m.h
InIdx(m, i) == i >= 0 /\ i < m.w * m.h
PixelAt(m, x, y) == [k \in 1..m.c |-> m.v[y][x][k-1]]
PixelNo(m, i) == PixelAt(m, i % m.w, i \div m.w)
PutPixel(m, x, y, px) ==
    [m EXCEPT !.it = -1, !.v[y][x] = [k \in 0..(m.c-1) |-> px[k+1]]]
PutSample(m, x, y, k, val) == [m EXCEPT !.it = -1, !.v[y][x][k] = val]
(* (a write ends an iteration: the iterator borrows the image) *)

(* Pixel coordinates an access names: by (x, y) or by linear index. *)
ByXY(e) == e.how \in {"xy", "xy_un", "mut", "mut_un"}
Legal(m, e) ==
    CASE e.op = "new" -> TRUE
      [] e.op = "get" -> m.filled /\ IF ByXY(e) THEN InXY(m, e.x, e.y) ELSE InIdx(m, e.x)
      [] e.op = "put" -> /\ m.filled /\ Len(e.px) = m.c
                         /\ IF ByXY(e) THEN InXY(m, e.x, e.y) ELSE InIdx(m, e.x)
      [] e.op = "poke" -> m.filled /\ IF e.how = "data" THEN e.x >= 0 /\ e.x < m.w * m.h * m.c
                          ELSE /\ e.k >= 0 /\ e.k < m.c
                               /\ IF ByXY(e) THEN InXY(m, e.x, e.y) ELSE InIdx(m, e.x)
      [] OTHER -> TRUE

XOf(m, e) == IF ByXY(e) THEN e.x ELSE e.x % m.w
YOf(m, e) == IF ByXY(e) THEN e.y ELSE e.x \div m.w

(* The store after event e. *)
After(m, e) ==
    CASE e.op = "new" ->
            IF e.ctor = "empty"
            THEN [Null EXCEPT !.w = e.w, !.h = e.h, !.c = e.c, !.a = e.a]
            ELSE FromLinear(e.w, e.h, e.c, e.a,
                            IF e.ctor = "blank" THEN [i \in 1..(e.w * e.h * e.c) |-> 0] ELSE e.d)
      [] ~Legal(m, e) -> m
      [] e.op = "put" -> PutPixel(m, XOf(m, e), YOf(m, e), e.px)
      [] e.op = "poke" ->
            IF e.how = "data"
            THEN LET p == e.x \div m.c IN PutSample(m, p % m.w, p \div m.w, e.x % m.c, e.val)
            ELSE PutSample(m, XOf(m, e), YOf(m, e), e.k, e.val)
      [] e.op = "edit" ->
            [m EXCEPT !.it = -1, !.v = TLCEval([y \in 0..(m.h-1) |-> TLCEval([x \in 0..(m.w-1) |->
                 [k \in 0..(m.c-1) |-> IF k = e.k THEN m.v[y][x][k] + e.val ELSE m.v[y][x][k]]])])]
      [] e.op = "iter" -> [m EXCEPT !.it = 0]
      [] e.op = "next" -> [m EXCEPT !.it = Min2(m.it + 1, m.w * m.h)]
      [] e.op = "nth" -> [m EXCEPT !.it = Min2(m.it + e.k + 1, m.w * m.h)]
      [] OTHER -> m

(* What event e must return from store m (its field o), given it is legal. *)
Returns(m, e) ==
    CASE e.op = "get" -> e.o = PixelAt(m, XOf(m, e), YOf(m, e))
      [] e.op = "index" -> e.o = (e.y * m.w + e.x) * m.c
      [] e.op = "info" ->
            /\ e.o.w = m.w /\ e.o.h = m.h /\ e.o.c = m.c /\ e.o.a = m.a
            /\ e.o.wh = <<m.w, m.h>> /\ e.o.whc = <<m.w, m.h, m.c>>
            /\ e.o.whca = <<m.w, m.h, m.c>> /\ e.o.whca_a = m.a
            /\ e.o.nc = (IF m.a THEN m.c - 1 ELSE m.c)
            /\ e.o.size = m.w * m.h /\ e.o.full = m.w * m.h * m.c
            /\ e.o.disp = <<m.w, m.h, m.c>> /\ e.o.disp_a = m.a
      [] e.op = "iter" -> e.o.rem = m.w * m.h /\ e.o.remhi = m.w * m.h
      [] e.op \in {"next", "nth"} ->    \* nth passes over e.k pixels first
            LET k == IF e.op = "nth" THEN e.k ELSE 0
                left == m.w * m.h - m.it t == m.it + k IN
            /\ e.o.rem = left /\ e.o.remhi = left
            /\ IF k >= left THEN e.o.some = FALSE /\ e.o.remafter = 0
               ELSE /\ e.o.some = TRUE
                    /\ e.o.x = t % m.w /\ e.o.y = t \div m.w
                    /\ e.o.px = PixelNo(m, t)
                    /\ e.o.remafter = (left - k) - 1
      [] e.op = "tail" ->            \* how many are left, and the last of them
            LET left == m.w * m.h - m.it IN
            /\ e.o.count = left /\ e.o.some = (left > 0)
            /\ left > 0 => /\ e.o.x = m.w - 1 /\ e.o.y = m.h - 1
                           /\ e.o.px = PixelAt(m, m.w - 1, m.h - 1)
      [] e.op = "drain" ->           \* the rest of the iteration, collected through a clone
            LET left == m.w * m.h - m.it IN
            /\ Len(e.o) = left
            /\ \A j \in 1..left :
                  LET p == m.it + j - 1 IN
                  /\ e.o[j][1] = p % m.w /\ e.o[j][2] = p \div m.w
                  /\ \A k \in 1..m.c : e.o[j][k+2] = m.v[p \div m.w][p % m.w][k-1]
      [] OTHER -> TRUE
=============================================================================
