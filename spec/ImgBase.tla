------------------------------ MODULE ImgBase ------------------------------
(***************************************************************************)
(* The abstract image of imgproc-rs and fixed-point arithmetic on it.      *)
(*                                                                         *)
(* An image is a record [w, h, c, a, q, d]: width, height, channels, alpha *)
(* flag, and the samples d in row-major order with interleaved channels;   *)
(* sample value = d[i] / 2^q.  Images recorded from the code additionally  *)
(* carry x (every sample was exactly representable at scale q) and n (how  *)
(* many samples were not finite).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(v) == IF v < 0 THEN -v ELSE v
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Min3(a, b, c) == Min2(a, Min2(b, c))
Max3(a, b, c) == Max2(a, Max2(b, c))
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Sq(v) == v * v
P2(n) == 2 ^ n

(* Truncating division, as the code's integer types do it. *)
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))

(* a / b to the nearest integer, halves away from zero (b > 0). *)
RDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -(((-a) + b \div 2) \div b)

(* Change a fixed-point value from scale 2^q to scale 2^r. *)
Rescale(v, q, r) == IF r >= q THEN v * P2(r - q) ELSE RDiv(v, P2(q - r))

(* Sums and counts over lo..hi, split in halves so that the recursion stays shallow. *)
RECURSIVE SumRange(_, _, _)
SumRange(F(_), lo, hi) ==
    IF lo > hi THEN 0 ELSE IF lo = hi THEN F(lo)
    ELSE LET m == TLCEval((lo + hi) \div 2) IN SumRange(F, lo, m) + SumRange(F, m + 1, hi)

RECURSIVE CountRange(_, _, _)
CountRange(F(_), lo, hi) ==
    IF lo > hi THEN 0 ELSE IF lo = hi THEN (IF F(lo) THEN 1 ELSE 0)
    ELSE LET m == TLCEval((lo + hi) \div 2) IN CountRange(F, lo, m) + CountRange(F, m + 1, hi)

(* Sum of F(i, j) for i in 0..m-1, j in 0..n-1. *)
Sum2(F(_, _), m, n) ==
    IF n <= 0 THEN 0 ELSE SumRange(LAMBDA t : F(t \div n, t % n), 0, m * n - 1)

------------------------------------------------------------------------------
(* Layout *)
Size(im) == im.w * im.h
FullSize(im) == im.w * im.h * im.c
NC(im) == IF im.a THEN im.c - 1 ELSE im.c          \* colour channels
WellFormed(im) == Len(im.d) = FullSize(im)
Off(im, x, y, k) == (y * im.w + x) * im.c + k + 1   \* position in d of channel k of pixel (x, y)
At(im, x, y, k) == im.d[(y * im.w + x) * im.c + k + 1]
AtC(im, x, y, k) == At(im, Clamp(x, 0, im.w - 1), Clamp(y, 0, im.h - 1), k)   \* nearest-edge padding
Inside(im, x, y) == x >= 0 /\ y >= 0 /\ x < im.w /\ y < im.h
Pix(im, x, y) == [k \in 1..im.c |-> At(im, x, y, k - 1)]
PixI(im, p) == [k \in 1..im.c |-> im.d[p * im.c + k]]
ChanOf(im, i) == (i - 1) % im.c
PixOf(im, i) == (i - 1) \div im.c
IsAlphaIdx(im, i) == im.a /\ (i - 1) % im.c = im.c - 1
IsGray(im) == (im.a /\ im.c = 2) \/ (~im.a /\ im.c = 1)

SameShape(o, w, h, c, a) == o.w = w /\ o.h = h /\ o.c = c /\ o.a = a /\ Len(o.d) = w * h * c
LikeShape(o, im) == SameShape(o, im.w, im.h, im.c, im.a)

(* Build an image from a function of (x, y, channel). *)
Build(w, h, c, a, q, F(_, _, _)) ==
    [w |-> w, h |-> h, c |-> c, a |-> a, q |-> q,
     d |-> [i \in 1..(w * h * c) |->
              LET p == (i - 1) \div c IN F(p % w, p \div w, (i - 1) % c)]]

(* Sample-by-sample requirement on a recorded image. *)
AllSamples(o, w, h, c, a, P(_, _, _, _)) ==
    /\ SameShape(o, w, h, c, a)
    /\ o.n = 0
    /\ \A i \in 1..(w * h * c) :
          LET p == (i - 1) \div c IN P(p % w, p \div w, (i - 1) % c, o.d[i])

(* A recorded image equals a specified one, exactly or within tol units of its own scale. *)
Exactly(o, im) == LikeShape(o, im) /\ o.n = 0 /\ o.x /\ o.q = im.q /\ \A i \in 1..Len(o.d) : o.d[i] = im.d[i]
Near(o, im, tol) == LikeShape(o, im) /\ o.n = 0 /\ \A i \in 1..Len(o.d) : Abs(o.d[i] - im.d[i]) <= tol

SameSamples(o, im) == LikeShape(o, im) /\ o.n = 0 /\ o.q = im.q /\ \A i \in 1..Len(o.d) : o.d[i] = im.d[i]
=============================================================================
