----------------------------- MODULE PropPoint -----------------------------
(***************************************************************************)
(* Verdicts on recorded calls of the point operations:                     *)
(* C04 C06 C07 C08 C10 C11 C12 C14 C21.                                    *)
(*                                                                         *)
(* An event is a record with the operation op, its arguments p, the input  *)
(* image in, the outcome r ("ok", "err", "panic", "crash", "hang") and,    *)
(* for "ok", the result o.  A paired event (two calls that differ in one   *)
(* respect) carries the second call as in2, r2, o2.                        *)
(***************************************************************************)
EXTENDS Color

Range(s) == {s[i] : i \in 1..Len(s)}
SameBag(s, t) ==                                  \* equal up to order, counting repetitions
    /\ Len(s) = Len(t) /\ Range(s) = Range(t)
    /\ \/ Cardinality(Range(t)) = Len(t)
       \/ \A v \in Range(t) : Cardinality({i \in 1..Len(s) : s[i] = v}) = Cardinality({i \in 1..Len(t) : t[i] = v})

------------------------------------------------------------------------------
(* C04: the map/apply family.  The functions applied are f(v) = 2v+1 on    *)
(* colour and g(v) = 3v+2 on alpha; pixel functions reverse the channels   *)
(* they get and emit p.extra more (or fewer) than they got.                *)
FV(v) == (2 * v) + 1
GV(v) == (3 * v) + 2
PixelHow(h) == h \in {"map_pixels", "map_pixels_if_alpha", "apply_pixels", "apply_pixels_if_alpha"}
AlphaHow(h) == h \in {"map_pixels_if_alpha", "map_channels_if_alpha", "apply_pixels_if_alpha", "apply_channels_if_alpha"}
CopyHow(h) == h \in {"map_pixels", "map_pixels_if_alpha", "map_channels", "map_channels_if_alpha"}

C04map(e) ==
    LET im == e.in h == e.p.how
        alpha == AlphaHow(h) /\ im.a                  \* alpha treated apart
        nf == IF alpha THEN im.c - 1 ELSE im.c        \* channels the colour function sees
        part(t) == [k \in 1..nf |-> im.d[(t - 1) * im.c + k]]
        n == Size(im)
        outc == IF PixelHow(h) THEN nf + e.p.extra + (IF alpha THEN 1 ELSE 0) ELSE im.c
        val(t, k) ==                                  \* channel k (from 1) of output pixel t
            IF alpha /\ k = outc THEN GV(im.d[t * im.c])
            ELSE IF PixelHow(h) THEN FV(part(t)[nf - ((k - 1) % nf)])
            ELSE IF h = "edit_channel" /\ k # e.p.k + 1 THEN im.d[(t - 1) * im.c + k]
            ELSE FV(im.d[(t - 1) * im.c + k])
        exp == [i \in 1..(n * outc) |-> val(((i - 1) \div outc) + 1, ((i - 1) % outc) + 1)]
        same == <<im.w, im.h, im.c, im.a>>
        calls ==                                      \* what the colour function must be called with
            IF PixelHow(h) THEN [t \in 1..n |-> part(t)]
            ELSE IF h = "edit_channel" THEN [t \in 1..n |-> <<im.d[(t - 1) * im.c + e.p.k + 1]>>]
            ELSE [i \in 1..(n * nf) |-> <<im.d[(((i - 1) \div nf) * im.c) + ((i - 1) % nf) + 1]>>]
    IN /\ e.r = "ok"
       /\ SameShape(e.o.im, im.w, im.h, outc, im.a) /\ e.o.im.n = 0 /\ e.o.im.x
       /\ e.o.im.d = exp
       /\ <<e.o.src.w, e.o.src.h, e.o.src.c, e.o.src.a>> = same
       /\ e.o.src.d = (IF CopyHow(h) THEN im.d ELSE exp)
       /\ SameBag(e.o.f, calls)
       /\ SameBag(e.o.g, IF alpha THEN [t \in 1..n |-> im.d[t * im.c]] ELSE <<>>)

C04pixel(e) ==
    LET px == e.in.d h == e.p.how n == e.in.c
        zero(m) == \A k \in 1..m : px[k] = 0
    IN /\ e.r = "ok"
       /\ e.o = CASE h = "alpha" -> <<px[n]>>
                  [] h = "channels_without_alpha" -> [k \in 1..(n-1) |-> px[k]]
                  [] h \in {"map_all", "apply"} -> [k \in 1..n |-> FV(px[k])]
                  [] h \in {"map_alpha", "apply_alpha"} -> [k \in 1..n |-> IF k = n THEN GV(px[k]) ELSE FV(px[k])]
                  [] h = "is_black" -> <<IF zero(n) THEN 1 ELSE 0>>
                  [] h = "is_black_alpha" -> <<IF zero(n - 1) THEN 1 ELSE 0>>
C04(e) == IF e.op = "map" THEN C04map(e) ELSE C04pixel(e)

------------------------------------------------------------------------------
(* C06: alpha is carried over and never influences colour.  in and in2     *)
(* differ in alpha only.                                                   *)
AlphaOk(op, v, q, o, oq) ==
    CASE op = "hsvf" -> Abs((255 * o) - (v * P2(oq))) <= 255
      [] op = "unhsvf" -> Abs((2 * o * P2(q)) - (2 * 255 * v)) <= P2(q) + 1
      [] op \in {"unlin", "xyz2srgb", "lab2srgb"} -> o = RDiv(v, P2(q))
      [] OTHER -> o = Rescale(v, q, oq)
C06one(op, im, r, o) ==
    /\ r = "ok"
    /\ o.a /\ o.w = im.w /\ o.h = im.h /\ o.n = 0 /\ WellFormed(o)
    /\ \A t \in 1..Size(im) : AlphaOk(op, im.d[t * im.c], im.q, o.d[t * o.c], o.q)
C06(e) ==
    /\ C06one(e.op, e.in, e.r, e.o)
    /\ C06one(e.op, e.in2, e.r2, e.o2)
    /\ e.o.c = e.o2.c
    /\ \A i \in 1..Len(e.o.d) : (i % e.o.c = 0) \/ e.o.d[i] = e.o2.d[i]

------------------------------------------------------------------------------
C07(e) == e.r = "ok" /\ Exactly(e.o, Brightness(e.in, e.p.b))

------------------------------------------------------------------------------
(* C08: vector primitives *)
AddsN(im, val, n) ==
    LET F(x, y, k) == IF n >= im.c \/ k = n THEN BrightV(At(im, x, y, k), val) ELSE At(im, x, y, k)
    IN Build(im.w, im.h, im.c, im.a, 0, F)
C08(e) ==
    /\ e.r = "ok"
    /\ CASE e.op = "adds" -> Exactly(e.o, Brightness(e.in, e.p.val))
         [] e.op = "addsn" -> Exactly(e.o, AddsN(e.in, e.p.val, e.p.n))
         [] e.op \in {"avg", "avg3", "avg4"} -> Exactly(e.o, Grayscale(e.in))
         [] e.op = "deint" ->
               e.o.d = [i \in 1..(32 * e.in.c) |->
                          e.in.d[e.p.off + (((i - 1) % 32) * e.in.c) + ((i - 1) \div 32) + 1]]

------------------------------------------------------------------------------
(* C10: grayscale *)
MeanOf(im, x, y) == LET F(k) == At(im, x, y, k) IN SumRange(F, 0, NC(im) - 1)
C10u8(im, o) ==
    /\ SameShape(o, im.w, im.h, IF im.a THEN 2 ELSE 1, im.a) /\ o.n = 0
    /\ \A x \in 0..(im.w-1), y \in 0..(im.h-1) :
          /\ At(o, x, y, 0) = MeanOf(im, x, y) \div NC(im)
          /\ im.a => At(o, x, y, 1) = At(im, x, y, im.c - 1)
C10f(im, o) ==
    /\ SameShape(o, im.w, im.h, IF im.a THEN 2 ELSE 1, im.a) /\ o.n = 0
    /\ \A x \in 0..(im.w-1), y \in 0..(im.h-1) :
          /\ Abs((NC(im) * At(o, x, y, 0)) - Rescale(MeanOf(im, x, y), im.q, o.q)) <= NC(im)
          /\ im.a => At(o, x, y, 1) = Rescale(At(im, x, y, im.c - 1), im.q, o.q)
C10(e) == e.r = "ok" /\ IF e.op = "gray" THEN C10u8(e.in, e.o) ELSE C10f(e.in, e.o)

------------------------------------------------------------------------------
(* C11: HSV *)
(* Float HSV to RGB; h, s, v at scale 2^7, so h = 128 is the full turn. *)
NearByte(o, x) == Abs((o * P2(21)) - x) <= P2(20) + P2(11)
UnHsvFOk(h, s, v, o) ==
    LET h6 == (6 * h) % 768 sector == h6 \div 128 f == h6 % 128
        top == v * 255 * P2(14)
        lo == v * (128 - s) * 255 * 128
        dn == v * (16384 - (s * f)) * 255
        up == v * (16384 - (s * (128 - f))) * 255
        ex == CASE sector = 0 -> <<top, up, lo>> [] sector = 1 -> <<dn, top, lo>>
                [] sector = 2 -> <<lo, top, up>> [] sector = 3 -> <<lo, dn, top>>
                [] sector = 4 -> <<up, lo, top>> [] OTHER -> <<top, lo, dn>>
    IN \A k \in 1..3 : NearByte(o[k], ex[k])
SameAlpha(im, o) == im.a => \A t \in 1..Size(im) : o.d[t * o.c] = im.d[t * im.c]
C11(e) ==
    /\ e.r = "ok"
    /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ CASE e.op = "hsv" -> Exactly(e.o, RgbToHsvImg(e.in))
         [] e.op = "unhsv" -> Exactly(e.o, HsvToRgbImg(e.in))
         [] e.op = "hsvf" -> \A t \in 0..(Size(e.in)-1) :
               LET p == PixI(e.in, t) q == PixI(e.o, t) IN
               /\ HsvFOk(p, q[1], q[2], q[3])
               /\ \A k \in 1..3 : q[k] >= 0 /\ q[k] <= P2(e.o.q)     \* the documented range
         [] e.op = "unhsvf" -> \A t \in 0..(Size(e.in)-1) :
               LET p == PixI(e.in, t) q == PixI(e.o, t) IN UnHsvFOk(p[1], p[2], p[3], q)
         [] e.op = "rt_hsvf" -> Exactly(e.o, e.in)
         [] e.op = "rt_hsv" ->
               /\ SameAlpha(e.in, e.o)
               /\ \A t \in 0..(Size(e.in)-1) :
                  LET p == PixI(e.in, t) q == PixI(e.o, t) mx == Max3(p[1], p[2], p[3]) IN
                  /\ Max3(q[1], q[2], q[3]) = mx
                  /\ \A k \in 1..3 : Abs(p[k] - q[k]) <= 20

------------------------------------------------------------------------------
(* C12: saturation *)
C12(e) ==
    /\ e.r = "ok"
    /\ Exactly(e.o, Saturate(e.in, e.p.s))
    /\ \A t \in 0..(Size(e.in)-1) :
          LET p == PixI(e.in, t) q == PixI(e.o, t) IN Max3(p[1], p[2], p[3]) = Max3(q[1], q[2], q[3])

------------------------------------------------------------------------------
(* C14: contrast and gamma *)
\* pixel t of the input holds t - 1 in every colour channel: larger input, not smaller output,
\* and the same output in every channel
MonotoneImg(im, o) ==
    /\ \A t \in 1..Size(im) : \A k \in 2..NC(im) : o.d[((t - 1) * o.c) + k] = o.d[((t - 1) * o.c) + 1]
    /\ \A t \in 1..(Size(im) - 1) : o.d[((t - 1) * o.c) + 1] <= o.d[(t * o.c) + 1]
(* (the per-sample rules below imply "same input, same output" only up to rounding, so it is stated) *)
C14(e) ==
    /\ e.r = "ok"
    /\ LikeShape(e.o, e.in) /\ e.o.n = 0 /\ e.o.x
    /\ SameAlpha(e.in, e.o)
    /\ \A i \in 1..Len(e.in.d) : IsAlphaIdx(e.in, i) \/
          LET v == e.in.d[i] o == e.o.d[i] IN
          CASE e.op = "contrast" -> o = ContrastV(v, e.p.g, e.p.gq) /\ (e.p.g = P2(e.p.gq) => o = v)
            [] e.op = "gamma" -> /\ GammaOk(v, o, e.p.m, e.p.e, e.p.eq)
                                 /\ (v = 0 /\ e.p.e > 0) => o = 0
                                 /\ o >= 0 /\ o <= 255
    /\ (e.p.mono => MonotoneImg(e.in, e.o))

------------------------------------------------------------------------------
(* C21: thresholds; image, threshold and maximum at one scale *)
Threshold(im, t, mx, method) ==
    LET F(x, y, k) == IF im.a /\ k = im.c - 1 THEN At(im, x, y, k) ELSE ThreshV(At(im, x, y, k), t, mx, method)
    IN Build(im.w, im.h, im.c, im.a, im.q, F)
C21(e) ==
    IF ~IsGray(e.in) THEN e.r = "err" /\ e.ek = "arg"
    ELSE e.r = "ok" /\ Exactly(e.o, Threshold(e.in, e.p.t, e.p.max, e.p.method))
=============================================================================
