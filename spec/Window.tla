------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* Sub-images and neighbourhoods (C02) and everything computed from a      *)
(* window: linear filters (C17-C20), order statistics (C22, C23).          *)
(***************************************************************************)
EXTENDS FixMath, TLC

(* --- C02 ------------------------------------------------------------- *)
(* Pixel t (0-based) of the row, column or square of length n around (x, y). *)
Nbr1X(im, x, n, t, vert) == IF vert THEN x ELSE Clamp((x - (n \div 2)) + t, 0, im.w - 1)
Nbr1Y(im, y, n, t, vert) == IF vert THEN Clamp((y - (n \div 2)) + t, 0, im.h - 1) ELSE y

SubOk(e) ==
    LET im == e.in p == e.p IN
    CASE e.op = "subimage" ->
            IF ~Inside(im, p.x, p.y) \/ p.x + p.w > im.w \/ p.y + p.h > im.h
            THEN e.r = "panic" \/ (p.w = 0 \/ p.h = 0)
            ELSE /\ e.r = "ok"
                 /\ e.o.w = p.w /\ e.o.h = p.h /\ e.o.c = im.c /\ e.o.a = im.a
                 /\ Len(e.o.d) = p.w * p.h * im.c
                 /\ \A j \in 0..(p.h-1), i \in 0..(p.w-1), k \in 0..(im.c-1) :
                       LET s == At(im, p.x + i, p.y + j, k) pos == (j * p.w + i) * im.c + k + 1 IN
                       /\ e.o.d[pos] = s       \* to_vec
                       /\ e.o.xy[pos] = s      \* get_pixel(i, j)
                       /\ e.o.ix[pos] = s      \* [j * w + i] and data()
      [] e.op = "nbr1" ->
            IF ~Inside(im, p.x, p.y) THEN e.r = "panic"
            ELSE /\ e.r = "ok"
                 /\ e.o.w = (IF p.v THEN 1 ELSE p.n) /\ e.o.h = (IF p.v THEN p.n ELSE 1)
                 /\ e.o.c = im.c /\ e.o.a = im.a /\ Len(e.o.d) = p.n * im.c
                 /\ \A t \in 0..(p.n-1), k \in 0..(im.c-1) :
                       LET s == At(im, Nbr1X(im, p.x, p.n, t, p.v), Nbr1Y(im, p.y, p.n, t, p.v), k) IN
                       e.o.d[t * im.c + k + 1] = s /\ e.o.xy[t * im.c + k + 1] = s /\ e.o.ix[t * im.c + k + 1] = s
      [] e.op = "nbr2" ->
            IF ~Inside(im, p.x, p.y) THEN e.r = "panic"
            ELSE /\ e.r = "ok"
                 /\ e.o.w = p.n /\ e.o.h = p.n /\ e.o.c = im.c /\ e.o.a = im.a
                 /\ Len(e.o.d) = p.n * p.n * im.c
                 /\ \A j \in 0..(p.n-1), i \in 0..(p.n-1), k \in 0..(im.c-1) :
                       LET s == AtC(im, (p.x - (p.n \div 2)) + i, (p.y - (p.n \div 2)) + j, k)
                           pos == (j * p.n + i) * im.c + k + 1 IN
                       e.o.d[pos] = s /\ e.o.xy[pos] = s /\ e.o.ix[pos] = s
      [] OTHER -> FALSE

(* --- linear filters -------------------------------------------------- *)
(* Kernels are integer sequences; a kernel entry stands for ker[i] / 2^kq. *)
RowSum(im, ker, x, y, k) ==
    LET n == Len(ker) F(t) == ker[t+1] * AtC(im, (x - (n \div 2)) + t, y, k) IN SumRange(F, 0, n - 1)
ColSum(im, ker, x, y, k) ==
    LET n == Len(ker) F(t) == ker[t+1] * AtC(im, x, (y - (n \div 2)) + t, k) IN SumRange(F, 0, n - 1)
SquareSum(im, ker, n, x, y, k) ==
    LET F(t) == ker[t+1] * AtC(im, (x - (n \div 2)) + (t % n), (y - (n \div 2)) + (t \div n), k)
    IN SumRange(F, 0, n * n - 1)
Outer(v, h) == [t \in 1..(Len(v) * Len(h)) |-> v[((t - 1) \div Len(h)) + 1] * h[((t - 1) % Len(h)) + 1]]
SideOf(ker) == Isqrt(Len(ker))

Filter1D(im, ker, kq, vert) ==
    LET F(x, y, k) == IF vert THEN ColSum(im, ker, x, y, k) ELSE RowSum(im, ker, x, y, k)
    IN Build(im.w, im.h, im.c, im.a, im.q + kq, F)
Filter2D(im, ker, kq) ==
    LET n == SideOf(ker) F(x, y, k) == SquareSum(im, ker, n, x, y, k)
    IN Build(im.w, im.h, im.c, im.a, im.q + kq, F)
FilterSep(im, v, h, kq) ==
    LET n == Len(v) ker == TLCEval(Outer(v, h)) F(x, y, k) == SquareSum(im, ker, n, x, y, k)
    IN Build(im.w, im.h, im.c, im.a, im.q + 2 * kq, F)

(* --- order statistics ------------------------------------------------ *)
(* How many of the coordinates x-r .. x+r fall on u once they are clamped to 0 .. w-1. *)
Mult(x, r, w, u) ==
    (IF Abs(u - x) <= r THEN 1 ELSE 0) + (IF u = 0 THEN Max2(0, r - x) ELSE 0)
        + (IF u = w - 1 THEN Max2(0, (x + r) - (w - 1)) ELSE 0)
(* A window much larger than the image is a weighted sum over the image's pixels. *)
ByPixels(im, r) == ((2 * r) + 1) * ((2 * r) + 1) > 2 * im.w * im.h
WinSum(im, G(_, _)) ==            \* sum of G over all pixels of the image
    LET F(t) == G(t % im.w, t \div im.w) IN SumRange(F, 0, (im.w * im.h) - 1)
WinLess(im, r, x, y, k, m) ==        \* samples of the window below m
    IF ByPixels(im, r)
    THEN WinSum(im, LAMBDA u, v : IF At(im, u, v, k) < m THEN Mult(x, r, im.w, u) * Mult(y, r, im.h, v) ELSE 0)
    ELSE LET n == 2 * r + 1
             F(t) == AtC(im, (x - r) + (t % n), (y - r) + (t \div n), k) < m
         IN CountRange(F, 0, n * n - 1)
IsMedian(im, r, x, y, k, m) ==
    LET half == ((2*r+1) * (2*r+1) + 1) \div 2 IN
    WinLess(im, r, x, y, k, m) < half /\ WinLess(im, r, x, y, k, m + 1) >= half
WinSeq(im, r, x, y, k) ==
    LET n == 2 * r + 1 IN [t \in 1..(n*n) |-> AtC(im, (x - r) + ((t-1) % n), (y - r) + ((t-1) \div n), k)]
(* With many samples: count copies of each value instead of sorting.  The copies of value m
   occupy the positions below(m) .. below(m+1) - 1 of the sorted window. *)
TrimmedByCount(im, r, trim, x, y, k) ==
    LET n == (2*r+1) * (2*r+1)
        vals == {At(im, u, v, k) : u \in 0..(im.w-1), v \in 0..(im.h-1)}
        part(m) == LET a == Max2(WinLess(im, r, x, y, k, m), trim)
                       b == Min2(WinLess(im, r, x, y, k, m + 1), n - trim)
                   IN IF b > a THEN (b - a) * m ELSE 0
        F(m) == IF m \in vals THEN part(m) ELSE 0
    IN SumRange(F, 0, 255)
TrimmedSum(im, r, trim, x, y, k) ==
    IF ByPixels(im, r) THEN TrimmedByCount(im, r, trim, x, y, k) ELSE
    LET s == SortSeq(WinSeq(im, r, x, y, k), <) F(t) == s[t] IN SumRange(F, trim + 1, Len(s) - trim)
TrimmedMean(im, r, alpha, x, y, k) ==
    LET n == (2*r+1) * (2*r+1) IN
    IF alpha = 0 /\ ByPixels(im, r)
    THEN RDiv(WinSum(im, LAMBDA u, v : At(im, u, v, k) * Mult(x, r, im.w, u) * Mult(y, r, im.h, v)), n)
    ELSE IF alpha = 0
    THEN LET F(t) == AtC(im, (x - r) + (t % (2*r+1)), (y - r) + (t \div (2*r+1)), k)
         IN RDiv(SumRange(F, 0, n - 1), n)
    ELSE RDiv(TrimmedSum(im, r, alpha \div 2, x, y, k), n - alpha)
=============================================================================
