----------------------------- MODULE PropFilter -----------------------------
(***************************************************************************)
(* Verdicts on recorded calls of the filters: C17 C18 C19 C20 C22 C23 C24. *)
(***************************************************************************)
EXTENDS PropColor, Window

(* Exactly, but the alpha channel is left out of account. *)
ExactlyColour(o, im) ==
    /\ LikeShape(o, im) /\ o.n = 0 /\ o.q = im.q
    /\ \A i \in 1..Len(o.d) : IsAlphaIdx(im, i) \/ o.d[i] = im.d[i]

------------------------------------------------------------------------------
(* C17 *)
KernelVec(e) ==           \* apply_1d_kernel and apply_2d_kernel on a neighbourhood
    LET im == e.in p == e.p IN
    /\ e.r = "ok" /\ Len(e.o.d) = im.c /\ e.o.n = 0 /\ e.o.x
    /\ \A k \in 0..(im.c-1) :
          e.o.d[k+1] = IF e.op = "kernel2" THEN SquareSum(im, p.ker, p.n, p.x, p.y, k)
                       ELSE IF p.v THEN ColSum(im, p.ker, p.x, p.y, k) ELSE RowSum(im, p.ker, p.x, p.y, k)
C17(e) ==
    CASE e.op = "filter1d" -> e.r = "ok" /\ Exactly(e.o, Filter1D(e.in, e.p.ker, e.p.kerq, e.p.v))
      [] e.op = "unsep" -> e.r = "ok" /\ Exactly(e.o, Filter2D(e.in, e.p.ker, e.p.kerq))
      [] e.op = "sep" -> e.r = "ok" /\ Exactly(e.o, FilterSep(e.in, e.p.vk, e.p.hk, e.p.vkq))
      [] e.op \in {"kernel1", "kernel2"} -> KernelVec(e)

------------------------------------------------------------------------------
(* C18 *)
(* A square kernel of integers is an outer product iff all minors through  *)
(* an entry of largest magnitude vanish.                                   *)
IsOuter(ker, n) ==
    \/ \A i \in 1..(n*n) : ker[i] = 0
    \/ LET t == CHOOSE i \in 1..(n*n) : ker[i] # 0
           a == (t - 1) \div n b == (t - 1) % n
       IN \A i \in 0..(n-1) : \A j \in 0..(n-1) :
             ker[(i*n)+j+1] * ker[t] = ker[(i*n)+b+1] * ker[(a*n)+j+1]
C18sep(e) ==
    LET ker == e.p.ker n == SideOf(ker) IN
    /\ e.r = "ok"
    /\ e.o.some =>
         /\ n * n = Len(ker)
         /\ IsOuter(ker, n)
         /\ Len(e.o.v.d) = n /\ Len(e.o.h.d) = n /\ e.o.v.n = 0 /\ e.o.h.n = 0
         /\ \A i \in 1..n : \A j \in 1..n :
               LET v == e.o.v.d[i] h == e.o.h.d[j] IN
               Abs((v * h) - (ker[((i-1)*n)+j] * P2((2 * e.oq) - e.p.kerq))) <= Abs(v) + Abs(h) + 2
C18lin(e) ==
    LET n == SideOf(e.p.ker)
        up == P2(e.o.q - (e.in.q + e.p.kerq)) IN
    /\ e.r = "ok"
    /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
          LET s == up * SquareSum(e.in, e.p.ker, n, x, y, k) IN
          Abs(At(e.o, x, y, k) - s) <= 2 + (Abs(s) \div 32768) + e.p.tol
C18(e) == IF e.op = "sepker" THEN C18sep(e) ELSE C18lin(e)

------------------------------------------------------------------------------
(* C19 *)
WinMinMax(im, r, x, y, k) ==
    LET s == Range(WinSeq(im, r, x, y, k)) IN
    <<CHOOSE v \in s : \A u \in s : v <= u, CHOOSE v \in s : \A u \in s : v >= u>>
\* units of the record's scale that single-precision sums over n * n samples may be off
Slack(n) == 1 + ((n * n) \div 800)
InWindow(e, r) ==        \* no output outside the range of its window
    \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
        LET m == WinMinMax(e.in, r, x, y, k) up == P2(e.o.q - e.in.q) v == At(e.o, x, y, k) IN
        v >= (m[1] * up) - Slack(e.p.n) /\ v <= (m[2] * up) + Slack(e.p.n)
BoxOk(e, n, wc) ==       \* weight 1 everywhere, wc in the centre
    LET tot == (n * n) - 1 + wc up == P2(e.o.q - e.in.q) IN
    \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
        LET F(t) == AtC(e.in, (x - (n \div 2)) + (t % n), (y - (n \div 2)) + (t \div n), k)
            win == IF ByPixels(e.in, n \div 2)
                   THEN WinSum(e.in, LAMBDA u, v : At(e.in, u, v, k) * Mult(x, n \div 2, e.in.w, u) * Mult(y, n \div 2, e.in.h, v))
                   ELSE SumRange(F, 0, (n * n) - 1)
            s == win + ((wc - 1) * At(e.in, x, y, k)) IN
        Abs((At(e.o, x, y, k) * tot) - (s * up)) <= tot * Slack(n)
(* Gaussian weight at squared distance d2, sigma = sg / 2^sgq, at scale 2^15 *)
GaussU(d2, sg, sgq) == RDiv(d2 * 512 * P2(2 * sgq), sg * sg)
GaussW(n, sg, sgq) ==
    LET m == n \div 2 IN
    [t \in 1..(n*n) |-> ExpNeg(GaussU(Sq(((t-1) % n) - m) + Sq(((t-1) \div n) - m), sg, sgq))]
GaussOk(e, n, tol) ==
    LET w == TLCEval(GaussW(n, e.p.sg, e.p.sgq))
        W == LET F(t) == w[t] IN SumRange(F, 1, n * n)
        up == P2(e.o.q - e.in.q) IN
    \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
        LET F(t) == w[t] * AtC(e.in, (x - (n \div 2)) + ((t-1) % n), (y - (n \div 2)) + ((t-1) \div n), k)
            S == SumRange(F, 1, n * n)
            want == (up * (S \div W)) + ((up * (S % W)) \div W) IN
        Abs(At(e.o, x, y, k) - want) <= tol
KernelOk(e, n) ==        \* the kernel itself, at scale 2^15
    LET w == TLCEval(GaussW(n, e.p.sg, e.p.sgq))
        W == LET F(t) == w[t] IN SumRange(F, 1, n * n)
        g == e.o.d
        T == LET F(t) == g[t] IN SumRange(F, 1, n * n)
        D(t) == Sq(((t-1) % n) - (n \div 2)) + Sq(((t-1) \div n) - (n \div 2)) IN
    /\ Len(g) = n * n /\ e.o.n = 0 /\ e.o.q = 15
    /\ Abs(T - 32768) <= n * n
    /\ \A t \in 1..(n*n) :
          /\ g[t] >= 0
          /\ Abs(g[t] - ((w[t] * 32768) \div W)) <= 4 + (g[t] \div 400)
          /\ \A s \in 1..(n*n) : (D(s) = D(t) => Abs(g[s] - g[t]) <= 1) /\ (D(s) <= D(t) => g[s] + 1 >= g[t])
IsConst(im) == \A k \in 1..im.c : \A t \in 0..(Size(im)-1) : im.d[(t * im.c) + k] = im.d[k]
Unchanged(e) == \A i \in 1..Len(e.in.d) : Abs(e.o.d[i] - (e.in.d[i] * P2(e.o.q - e.in.q))) <= Slack(e.p.n)
C19(e) ==
    /\ e.r = "ok"
    /\ IF e.op = "gkern" THEN KernelOk(e, e.p.n)
       ELSE /\ LikeShape(e.o, e.in) /\ e.o.n = 0
            /\ (IsConst(e.in) => Unchanged(e))
            /\ InWindow(e, e.p.n \div 2)
            /\ CASE e.op = "box" -> BoxOk(e, e.p.n, 1)
                 [] e.op = "wavg" -> BoxOk(e, e.p.n, e.p.wt)
                 [] e.op = "gauss" -> GaussOk(e, e.p.n, 4)

------------------------------------------------------------------------------
(* C20 *)
KSharpen == <<0, -1, 0, -1, 5, -1, 0, -1, 0>>
KLaplace == <<0, -1, 0, -1, 4, -1, 0, -1, 0>>
KUnsharp == <<-1, -4, -6, -4, -1, -4, -16, -24, -16, -4, -6, -24, 476, -24, -6, -4, -16, -24, -16, -4, -1, -4, -6, -4, -1>>

GradOk(e, smooth, diff) ==
    LET im == e.in n == Len(smooth) kx == TLCEval(Outer(smooth, diff)) ky == TLCEval(Outer(diff, smooth)) IN
    /\ LikeShape(e.o, im) /\ e.o.n = 0 /\ e.o.q = im.q + 4
    /\ \A x \in 0..(im.w-1), y \in 0..(im.h-1) :
          LET gx == SquareSum(im, kx, n, x, y, 0) gy == SquareSum(im, ky, n, x, y, 0)
              s == 256 * ((gx * gx) + (gy * gy)) v == At(e.o, x, y, 0) IN
          /\ v >= 0 /\ Sq(Max2(v - 1, 0)) <= s /\ s <= Sq(v + 1)
          /\ im.a => At(e.o, x, y, 1) = 16 * At(im, x, y, 1)

(* Laplacian of Gaussian; sigma = sn / 4, kernel -(81.487 / sn^4) g. *)
LogU(d2, sn) == Min2(RDiv(d2 * 8192, sn * sn), 32768)
LogG(d2, sn) == LET u == LogU(d2, sn) IN
                IF u >= 32768 THEN 0 ELSE RDiv((1024 - u) * ExpNeg(u), 1024)      \* 2^15
LogTab(n, sn) ==
    LET m == n \div 2 IN [t \in 1..(n*n) |-> LogG(Sq(((t-1) % n) - m) + Sq(((t-1) \div n) - m), sn)]
Sn4(sn) == sn * sn * sn * sn
LogOk(e) ==              \* recorded at scale 2^8
    LET im == e.in n == e.p.n g == TLCEval(LogTab(n, e.p.sg)) IN
    /\ LikeShape(e.o, im) /\ e.o.n = 0 /\ e.o.q = im.q + 8
    /\ \A x \in 0..(im.w-1), y \in 0..(im.h-1), k \in 0..(im.c-1) :
          LET V(t) == AtC(im, (x - (n \div 2)) + ((t-1) % n), (y - (n \div 2)) + ((t-1) \div n), k)
              F(t) == g[t] * V(t)
              A(t) == Abs(g[t]) * Abs(V(t))
              S == SumRange(F, 1, n * n) \div 128
              T == SumRange(A, 1, n * n) \div 128
              \* what the oracle's own rounding of exp() can add up to
              E(t) == Abs(V(t)) * (2 + (LogU(Sq(((t-1) % n) - (n \div 2)) + Sq(((t-1) \div n) - (n \div 2)), e.p.sg) \div 512))
              B == SumRange(E, 1, n * n) \div 128
              want == -RDiv(S * 163, 2 * Sn4(e.p.sg))
              tol == 4 + RDiv(((T \div 512) + B) * 163, 2 * Sn4(e.p.sg)) IN
          Abs(At(e.o, x, y, k) - want) <= tol
LogKernOk(e) ==          \* recorded at scale 2^15
    LET n == e.p.n sn == e.p.sg m == n \div 2
        D(t) == Sq(((t-1) % n) - m) + Sq(((t-1) \div n) - m) IN
    /\ Len(e.o.d) = n * n /\ e.o.n = 0 /\ e.o.q = 15
    /\ \A t \in 1..(n*n) :
          LET g == LogG(D(t), sn) want == -RDiv(g * 163, 2 * Sn4(sn)) v == e.o.d[t] IN
          /\ Abs(v - want) <= 4 + (Abs(want) \div 500) + RDiv(40 * 163, 2 * Sn4(sn))
          \* sign: negative inside the circle d^2 = 2 sigma^2, positive outside, zero on it
          /\ (D(t) * 8 < sn * sn => v <= 0) /\ (D(t) * 8 > sn * sn => v >= 0) /\ (D(t) * 8 = sn * sn => v = 0)

NormLapOk(e) ==
    LET im == e.in s == Range(im.d)
        lo == CHOOSE v \in s : \A u \in s : v <= u
        hi == CHOOSE v \in s : \A u \in s : v >= u IN
    /\ LikeShape(e.o, im) /\ e.o.n = 0
    /\ lo < hi => \A i \in 1..Len(im.d) :
          /\ Abs((2 * e.o.d[i] * (hi - lo)) - (2 * 255 * (im.d[i] - lo))) <= (hi - lo) + ((hi - lo) \div 500) + 1
          /\ (im.d[i] = lo => e.o.d[i] = 0) /\ (im.d[i] = hi => e.o.d[i] = 255)

C20(e) ==
    /\ e.r = "ok"
    /\ CASE e.op = "prewitt" -> GradOk(e, <<1, 1, 1>>, <<-1, 0, 1>>)
         [] e.op = "sobel" -> GradOk(e, <<1, 2, 1>>, <<-1, 0, 1>>)
         [] e.op = "sobelw" -> GradOk(e, <<1, e.p.wt, 1>>, <<-1, 0, 1>>)
         [] e.op = "deriv" -> GradOk(e, e.p.vk, e.p.hk)
         [] e.op = "laplacian" -> ExactlyColour(e.o, Filter2D(e.in, KLaplace, 0))
         [] e.op = "sharpen" -> ExactlyColour(e.o, Filter2D(e.in, KSharpen, 0))
         [] e.op = "unsharp" -> ExactlyColour(e.o, Filter2D(e.in, KUnsharp, 8))
         [] e.op = "log" -> LogOk(e)
         [] e.op = "logkern" -> LogKernOk(e)
         [] e.op = "normlap" -> NormLapOk(e)

------------------------------------------------------------------------------
(* C22, C23 *)
C22(e) ==
    /\ e.r = "ok" /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ IF e.p.r = 0 THEN e.o.d = e.in.d
       ELSE \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
               IsMedian(e.in, e.p.r, x, y, k, At(e.o, x, y, k))
C23(e) ==
    /\ e.r = "ok" /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1), k \in 0..(e.in.c-1) :
          IF e.p.al = (((2 * e.p.r) + 1) * ((2 * e.p.r) + 1)) - 1 THEN IsMedian(e.in, e.p.r, x, y, k, At(e.o, x, y, k))
          ELSE At(e.o, x, y, k) = TrimmedMean(e.in, e.p.r, e.p.al, x, y, k)

------------------------------------------------------------------------------
(* C24: bilateral filter.  spatial = sp / 2^spq, range = rn / 4.           *)
BilSide(sp, spq) == (2 * sp) \div P2(spq)                  \* window radius
BilAt(lab, im, e, x, y) ==                                 \* filtered CIELAB (2^12) at (x, y)
    LET r == BilSide(e.p.sp, e.p.spq) n == (2 * r) + 1
        P(u, v) == lab[(Clamp(v, 0, im.h - 1) * im.w) + Clamp(u, 0, im.w - 1) + 1]
        c == P(x, y)
        one(k) ==
            LET D(t) == P((x - r) + (t % n), (y - r) + (t \div n))[k] - c[k]      \* 2^12
                W(t) == LET d == RDiv(D(t), 64)
                            u == GaussU(Sq((t % n) - r) + Sq((t \div n) - r), e.p.sp, e.p.spq)
                        IN IF Abs(d) > 30000 THEN 0
                           ELSE LET ur == RDiv(d * d, e.p.range * e.p.range) * 2 IN
                                IF ur >= 32768 \/ u >= 32768 THEN 0 ELSE ExpNeg(u + ur)
                S(t) == RDiv(W(t) * RDiv(D(t), 128), 32)
            IN c[k] + ((SumRange(S, 0, (n * n) - 1) \div (SumRange(W, 0, (n * n) - 1) \div 32)) * 128)
    IN <<one(1), one(2), one(3)>>
LevelBounds(im, r, x, y) ==
    LET s == UNION {Range(WinSeq(im, r, x, y, k)) : k \in 0..(im.c-1)} IN
    <<CHOOSE v \in s : \A u \in s : v <= u, CHOOSE v \in s : \A u \in s : v >= u>>
MirrorAt(o, sym, x, y, k) ==
    CASE sym = "h" -> At(o, (o.w - 1) - x, y, k)
      [] sym = "v" -> At(o, x, (o.h - 1) - y, k)
      [] sym = "t" -> At(o, y, x, k)
C24(e) ==
    /\ e.r = "ok" /\ LikeShape(e.o, e.in) /\ e.o.n = 0
    /\ (IsConst(e.in) => e.o.d = e.in.d)
    /\ (e.p.gray =>               \* gray images: levels stay within the window
          \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1) :
             LET m == LevelBounds(e.in, BilSide(e.p.sp, e.p.spq), x, y) IN
             \A k \in 0..2 : At(e.o, x, y, k) >= m[1] - 1 /\ At(e.o, x, y, k) <= m[2] + 1)
    /\ (e.p.exact =>
          LET lab == TLCEval([t \in 1..Size(e.in) |-> LabOf(Px3(e.in, t), "D65")]) IN
          \A x \in 0..(e.in.w-1), y \in 0..(e.in.h-1) :
             LET q == TLCEval(BilAt(lab, e.in, e, x, y)) IN
             RendersLab(Pix(e.o, x, y), q[1], q[2], q[3], "D65", 220, 1))
    /\ (e.p.sym # "none" =>
          /\ e.r2 = "ok" /\ LikeShape(e.o2, e.in2) /\ e.o2.n = 0
          /\ \A x \in 0..(e.in2.w-1), y \in 0..(e.in2.h-1), k \in 0..(e.in2.c-1) :
                Abs(At(e.o2, x, y, k) - MirrorAt(e.o, e.p.sym, x, y, k)) <= 1)

------------------------------------------------------------------------------
(* Locality (C17-C20, C22-C24): an output sample depends on the samples of   *)
(* its window only.  The second call of the pair has the same parameters and *)
(* an image that differs, possibly vastly, in a few samples.                 *)
WinReach(e) ==           \* how far the window extends, across and down
    LET p == e.p IN
    CASE e.op = "filter1d" -> IF p.v THEN <<0, Len(p.ker) \div 2>> ELSE <<Len(p.ker) \div 2, 0>>
      [] e.op \in {"unsep", "linear"} -> <<SideOf(p.ker) \div 2, SideOf(p.ker) \div 2>>
      [] e.op = "sep" -> <<Len(p.hk) \div 2, Len(p.vk) \div 2>>
      [] e.op \in {"box", "wavg", "gauss", "log"} -> <<p.n \div 2, p.n \div 2>>
      [] e.op = "deriv" -> <<Len(p.vk) \div 2, Len(p.vk) \div 2>>
      [] e.op = "unsharp" -> <<2, 2>>
      [] e.op \in {"prewitt", "sobel", "sobelw", "laplacian", "sharpen"} -> <<1, 1>>
      [] e.op \in {"median", "trimmed"} -> <<p.r, p.r>>
      [] e.op = "bilateral" -> <<BilSide(p.sp, p.spq), BilSide(p.sp, p.spq)>>
FarOk(e) ==
    LET im == e.in r == WinReach(e)
        diff == {i \in 1..Len(im.d) : im.d[i] # e.in2.d[i]}
        place == {<<((i - 1) \div im.c) % im.w, (i - 1) \div (im.c * im.w), (i - 1) % im.c>> : i \in diff}
        Touched(x, y, k) == \E s \in place : /\ Abs(s[1] - x) <= r[1] /\ Abs(s[2] - y) <= r[2]
                                          /\ (s[3] = k \/ e.op = "bilateral") IN
    /\ e.r = "ok" /\ e.r2 = "ok" /\ LikeShape(e.in2, im)
    /\ LikeShape(e.o, im) /\ LikeShape(e.o2, im) /\ e.o.q = e.o2.q
    /\ \A x \in 0..(im.w-1), y \in 0..(im.h-1), k \in 0..(im.c-1) :
          Touched(x, y, k) \/ Abs(At(e.o, x, y, k) - At(e.o2, x, y, k)) <= 1
=============================================================================
