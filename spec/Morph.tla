-------------------------------- MODULE Morph --------------------------------
(***************************************************************************)
(* Binary morphology (C25, C26) and summed-area tables (C27).              *)
(* Pixels outside the image are black.                                     *)
(***************************************************************************)
EXTENDS ImgBase

WhiteCount(im, r, x, y) ==
    LET x0 == Max2(x - r, 0) x1 == Min2(x + r, im.w - 1)
        y0 == Max2(y - r, 0) y1 == Min2(y + r, im.h - 1)
        n == x1 - x0 + 1
        F(t) == At(im, x0 + (t % n), y0 + (t \div n), 0) = 255
    IN CountRange(F, 0, n * (y1 - y0 + 1) - 1)
FullWin(r) == (2 * r + 1) * (2 * r + 1)

(* The same counts for all pixels, row by row first (Laws: equal to WhiteCount). *)
Counts(im, r) ==
    LET row == TLCEval([t \in 0..(Size(im) - 1) |->
                  LET x == t % im.w y == t \div im.w F(u) == At(im, u, y, 0) = 255
                  IN CountRange(F, Max2(x - r, 0), Min2(x + r, im.w - 1))])
    IN [t \in 0..(Size(im) - 1) |->
          LET x == t % im.w y == t \div im.w F(v) == row[(v * im.w) + x]
          IN SumRange(F, Max2(y - r, 0), Min2(y + r, im.h - 1))]

Eroded(n, r) == n = FullWin(r)
Dilated(n, r) == n > 0
Major(n, r) == 2 * n > FullWin(r)
Edge(n, r) == Dilated(n, r) /\ ~Eroded(n, r)

Binary(im, r, P(_, _)) ==
    LET n == TLCEval(Counts(im, r))
        F(x, y, k) == IF im.a /\ k = im.c - 1 THEN At(im, x, y, k) ELSE IF P(n[(y * im.w) + x], r) THEN 255 ELSE 0
    IN Build(im.w, im.h, im.c, im.a, 0, F)
Erode(im, r) == Binary(im, r, Eroded)
Dilate(im, r) == Binary(im, r, Dilated)
Majority(im, r) == Binary(im, r, Major)
Gradient(im, r) == Binary(im, r, Edge)

Leq(f, g) == \A i \in 1..Len(f.d) : f.d[i] <= g.d[i]       \* f's white set is inside g's

------------------------------------------------------------------------------
(* Summed-area tables *)
RectSum(im, k, x0, y0, x1, y1) ==
    LET n == x1 - x0 + 1 F(t) == At(im, x0 + (t % n), y0 + (t \div n), k) IN SumRange(F, 0, (n * (y1 - y0 + 1)) - 1)

(* A table is right iff it satisfies the defining recurrence everywhere. *)
SatAt(t, x, y, k) == IF x < 0 \/ y < 0 THEN 0 ELSE At(t, x, y, k)
IsSat(t, im) ==
    /\ LikeShape(t, im)
    /\ \A y \in 0..(im.h-1), x \in 0..(im.w-1), k \in 0..(im.c-1) :
          At(t, x, y, k) + SatAt(t, x-1, y-1, k) = SatAt(t, x-1, y, k) + SatAt(t, x, y-1, k) + At(im, x, y, k)
=============================================================================
