------------------------------ MODULE MC_Median ------------------------------
(***************************************************************************)
(* The partial-histogram median (Weiss) as a state machine, refined        *)
(* against the window definition.  A block of NC columns slides down the   *)
(* image; only the histogram of its middle column is complete, the others  *)
(* are differences to it.  Every step adds the row entering the windows,   *)
(* removes the row leaving them, and moves each column's median from the   *)
(* last one (the pivot) using the number of samples below it.              *)
(*                                                                         *)
(* Invariants:                                                             *)
(*   Whole   middle + partial = histogram of that column's window          *)
(*   Sums    the tracked count is the number of window samples < pivot     *)
(*   Right   the value produced is the median by definition (Window.tla),  *)
(*           and trimming the summed histogram gives the trimmed mean      *)
(* Every finished image is printed as a call for the real code.            *)
(***************************************************************************)
EXTENDS Window, Json, IOUtils

Prop == IOEnv.PROP                      \* C22 or C23
Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
Levels == 3
Keys == 0..(Levels - 1)

VARIABLES im, r, nc, x, y, hist, pivot, sum, out
vars == <<im, r, nc, x, y, hist, pivot, sum, out>>

Half == nc \div 2
SizeW == (2 * r) + 1
Centre == ((SizeW * SizeW) \div 2) + 1
Row(j) == [t \in 0..(nc + (2 * r) - 1) |-> AtC(im, (x - r) + t, j, 0)]       \* samples a block needs of row j

(* One row added to (inc = 1) or removed from (inc = -1) the histograms. *)
Hits(row, i, v) == IF row[i] = v THEN 1 ELSE 0
UpdN(h, row, inc) ==
    [n \in 0..(nc - 1) |-> [v \in Keys |->
        IF n = Half
        THEN LET F(i) == Hits(row, i, v) IN h[n][v] + (inc * SumRange(F, Half, (Half + SizeW) - 1))
        ELSE IF n < Half
        THEN LET F(i) == Hits(row, i, v) - Hits(row, i + SizeW, v) IN h[n][v] + (inc * SumRange(F, n, Half - 1))
        ELSE LET m == (nc - n) - 1
                 up(i) == ((nc + (2 * r)) - i) - 1
                 F(i) == Hits(row, up(i), v) - Hits(row, up(i) - SizeW, v)
             IN h[n][v] + (inc * SumRange(F, m, Half - 1))]]
Below(row, n, p) == LET F(i) == IF row[i] < p THEN 1 ELSE 0 IN SumRange(F, n, (n + SizeW) - 1)
Count(h, n, v) == IF n = Half THEN h[Half][v] ELSE h[Half][v] + h[n][v]

(* From a start (key, samples below it) upwards to the median; downwards likewise. *)
RECURSIVE Up(_, _, _, _), Down(_, _, _, _)
Up(h, n, v, s) == IF v > Levels - 1 THEN <<-1, s>> ELSE IF s + Count(h, n, v) >= Centre THEN <<v, s>> ELSE Up(h, n, v + 1, s + Count(h, n, v))
Down(h, n, v, s) ==                     \* v: the pivot; looks at v-1, v-2, ...
    IF v = 0 THEN <<-1, s>> ELSE LET t == s - Count(h, n, v - 1) IN IF t < Centre THEN <<v - 1, t>> ELSE Down(h, n, v - 1, t)
Live(n) == x + n < im.w

Zero == [n \in 0..(nc - 1) |-> [v \in Keys |-> 0]]
RECURSIVE AddRows(_, _, _)
AddRows(h, j, last) == IF j > last THEN h ELSE AddRows(TLCEval(UpdN(h, TLCEval(Row(Clamp(j, 0, im.h - 1))), 1)), j + 1, last)

(* All images of the given size by number, thinned. *)
Sizes == IF Deep THEN {<<1,1>>, <<2,2>>, <<3,2>>, <<2,3>>, <<5,1>>, <<1,5>>, <<3,3>>, <<7,1>>, <<1,7>>} ELSE {<<1,1>>, <<2,2>>, <<3,2>>, <<2,3>>, <<4,1>>, <<1,4>>}
ThinBy(n) == IF n <= 81 THEN IF Deep THEN 2 ELSE 7 ELSE IF n <= 729 THEN IF Deep THEN 11 ELSE 97 ELSE IF Deep THEN 499 ELSE 2003
Digit(i, k) == (i \div (Levels ^ (k - 1))) % Levels
Begin(iim, rr, n) ==
    /\ im = iim /\ r = rr /\ nc = n
    /\ x = 0 /\ y = -1
    /\ hist = [t \in 0..(n - 1) |-> [v \in Keys |-> 0]]
    /\ pivot = [t \in 0..(n - 1) |-> 0] /\ sum = [t \in 0..(n - 1) |-> 0]
    /\ out = <<>>
Pic(s, i) == [w |-> s[1], h |-> s[2], c |-> 1, a |-> FALSE, q |-> 0, d |-> TLCEval([k \in 1..(s[1] * s[2]) |-> Digit(i, k)])]
(* larger images, one per seed and number *)
Wide(w, h, t) == [w |-> w, h |-> h, c |-> 1, a |-> FALSE, q |-> 0,
                  d |-> TLCEval([k \in 1..(w * h) |-> ((((k + t) * (k + t) * (Seed + 5)) + ((k * 7) + t)) \div 3) % Levels])]
Init ==
    \/ \E s \in Sizes : \E i \in 0..((Levels ^ (s[1] * s[2])) - 1) : \E rr \in 0..2 : \E n \in {1, 3, 5} :
          /\ (i + rr + n + Seed) % (ThinBy(Levels ^ (s[1] * s[2])) * (IF Deep THEN 1 ELSE 2)) = 0
          /\ Begin(Pic(s, i), rr, n)
    \/ \E w \in {6, 11} : \E h \in (IF Deep THEN {3, 6} ELSE {3}) : \E t \in 1..(IF Deep THEN 3 ELSE 1) : \E rr \in 0..3 : \E n \in {1, 5, 7, 9} :
          /\ Deep \/ (w = 11 /\ (n + rr + h + Seed) % (IF Prop = "C23" THEN 7 ELSE 5) = 0)
          /\ Begin(Wide(w, h, t), rr, n)

Put(vals) == out' = out \o vals
First ==                                    \* the block's first row
    /\ y = -1 /\ x < im.w
    /\ LET h == TLCEval(AddRows(Zero, -r, r))
           med == TLCEval([n \in 0..(nc - 1) |-> IF Live(n) THEN Up(h, n, 0, 0) ELSE <<0, 0>>])
       IN /\ hist' = h
          /\ pivot' = [n \in 0..(nc - 1) |-> med[n][1]]
          /\ sum' = [n \in 0..(nc - 1) |-> med[n][2]]
          /\ Put([n \in 1..Min2(nc, im.w - x) |-> <<(x + n) - 1, 0, med[n - 1][1]>>])
    /\ y' = 0 /\ UNCHANGED <<im, r, nc, x>>
Slide ==                                    \* the block moves down one row
    /\ y >= 0 /\ y + 1 < im.h
    /\ LET ri == TLCEval(Row(Clamp(y + 1 + r, 0, im.h - 1)))
           ro == TLCEval(Row(Clamp(y - r, 0, im.h - 1)))
           h == TLCEval(UpdN(TLCEval(UpdN(hist, ri, 1)), ro, -1))
           s == TLCEval([n \in 0..(nc - 1) |-> (sum[n] + Below(ri, n, pivot[n])) - Below(ro, n, pivot[n])])
           med == TLCEval([n \in 0..(nc - 1) |->
                    IF ~Live(n) THEN <<pivot[n], s[n]>>
                    ELSE IF s[n] < Centre THEN Up(h, n, pivot[n], s[n]) ELSE Down(h, n, pivot[n], s[n])])
       IN /\ hist' = h
          /\ pivot' = [n \in 0..(nc - 1) |-> med[n][1]]
          /\ sum' = [n \in 0..(nc - 1) |-> med[n][2]]
          /\ Put([n \in 1..Min2(nc, im.w - x) |-> <<(x + n) - 1, y + 1, med[n - 1][1]>>])
    /\ y' = y + 1 /\ UNCHANGED <<im, r, nc, x>>
NextBlock ==
    /\ y >= 0 /\ y + 1 >= im.h /\ x < im.w
    /\ x' = x + nc /\ y' = -1
    /\ UNCHANGED <<im, r, nc, hist, pivot, sum, out>>
Next == First \/ Slide \/ NextBlock
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == x >= im.w

------------------------------------------------------------------------------
InWin(n, v) == WinLess(im, r, x + n, y, 0, v + 1) - WinLess(im, r, x + n, y, 0, v)
Whole == (y >= 0 /\ ~Done) => \A n \in 0..(nc - 1) : Live(n) => \A v \in Keys : Count(hist, n, v) = InWin(n, v)
Sums == (y >= 0 /\ ~Done) => \A n \in 0..(nc - 1) : Live(n) => sum[n] = WinLess(im, r, x + n, y, 0, pivot[n])
(* The mean of what is left after trimming: the copies of v occupy positions below(v) .. below(v+1) - 1. *)
TrimSum(n, trim) ==
    LET total == SizeW * SizeW
        cum(v) == LET F(t) == Count(hist, n, t) IN SumRange(F, 0, v - 1)
        part(v) == LET a == Max2(cum(v), trim) b == Min2(cum(v + 1), total - trim) IN IF b > a THEN (b - a) * v ELSE 0
    IN SumRange(part, 0, Levels - 1)
Trims == (IF Deep THEN {0, 1, SizeW, (SizeW * SizeW) \div 2} ELSE {1, SizeW}) \cap 0..((SizeW * SizeW) \div 2)
Right == (y >= 0 /\ ~Done) => \A n \in 0..(nc - 1) : Live(n) =>
            IF Prop = "C22" THEN IsMedian(im, r, x + n, y, 0, pivot[n])
            ELSE \A t \in Trims : TrimSum(n, t) = TrimmedSum(im, r, t, x + n, y, 0)
(* With everything trimmed but one sample the mean is the median. *)
MedianIsTrim == (y >= 0 /\ ~Done) => \A n \in 0..(nc - 1) : Live(n) => TrimSum(n, (SizeW * SizeW) \div 2) = pivot[n]
AllThere == Done => (Len(out) = im.w * im.h /\ {<<out[t][1], out[t][2]>> : t \in 1..Len(out)} = (0..(im.w - 1)) \X (0..(im.h - 1)))
Ends == <>Done

------------------------------------------------------------------------------
Shade == <<0, 100 + (Seed % 50), 255>>
Real == [im EXCEPT !.d = [k \in 1..Len(@) |-> Shade[@[k] + 1]]]
Call == IF Prop = "C22" THEN [op |-> "median", p |-> [r |-> r], in |-> Real]
        ELSE [op |-> "trimmed", p |-> [r |-> r, al |-> 2 * ((nc + im.h) % ((SizeW * SizeW + 1) \div 2))], in |-> Real]
Emit == (Done /\ (Prop = "C23" \/ nc # 3)) => PrintT("CASE " \o ToJson(Call))
=============================================================================
