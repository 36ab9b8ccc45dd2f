------------------------------- MODULE MC_Par -------------------------------
(***************************************************************************)
(* Data-parallel evaluation of an image operation (C09): the output pixels *)
(* 0..N-1 are a range that workers take, split (leaving one half for       *)
(* others to steal) and evaluate pixel by pixel, each into its own slot;   *)
(* the slots are gathered in order when all are filled.  Pixel values come *)
(* from the shared, unchanging input alone: here each is a window sum with *)
(* nearest-edge padding, so neighbouring outputs read the same samples.    *)
(*                                                                         *)
(* Invariants, over every interleaving, number of workers and way of       *)
(* splitting: no pixel is evaluated twice or lost (Disjoint), a slot       *)
(* always holds the sequential value (Slots), and what is gathered is the  *)
(* sequential result (Same).  The dimensions actually explored, with the   *)
(* thread counts of the runner, are printed as calls for the real code.    *)
(***************************************************************************)
EXTENDS ImgBase, Json, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
MaxW == IF Deep THEN 3 ELSE 2
Empty == <<0, 0>>                              \* a range is <<lo, hi>>, hi exclusive

VARIABLES n, nw, pool, busy, slot, gathered, evals
vars == <<n, nw, pool, busy, slot, gathered, evals>>
Workers == 1..nw
Input == [i \in 0..(n - 1) |-> ((i * i * 3) + i) % 7]
Value(i) == LET F(t) == Input[Clamp((i - 1) + t, 0, n - 1)] * (t + 1) IN SumRange(F, 0, 2)
None == -1

Init == /\ n \in 0..(IF Deep THEN 6 ELSE 5) /\ nw \in 1..MaxW
        /\ pool = (IF n = 0 THEN {} ELSE {<<0, n>>})
        /\ busy = [w \in Workers |-> Empty]
        /\ slot = [i \in 0..(n - 1) |-> None]
        /\ evals = [i \in 0..(n - 1) |-> 0]
        /\ gathered = <<"no">>
Idle(w) == busy[w][1] = busy[w][2]
Take(w) == \E g \in pool : Idle(w) /\ pool' = pool \ {g} /\ busy' = [busy EXCEPT ![w] = g] /\ UNCHANGED <<slot, gathered, evals, n, nw>>
Split(w) == \E m \in (busy[w][1] + 1)..(busy[w][2] - 1) :
            /\ pool' = pool \cup {<<m, busy[w][2]>>}
            /\ busy' = [busy EXCEPT ![w] = <<@[1], m>>]
            /\ UNCHANGED <<slot, gathered, evals, n, nw>>
Eval(w) == LET i == busy[w][1] IN
           /\ ~Idle(w)
           /\ slot' = [slot EXCEPT ![i] = Value(i)]
           /\ evals' = [evals EXCEPT ![i] = @ + 1]
           /\ busy' = [busy EXCEPT ![w] = <<i + 1, @[2]>>]
           /\ UNCHANGED <<pool, gathered, n, nw>>
Gather == /\ pool = {} /\ \A w \in Workers : Idle(w)
          /\ gathered = <<"no">>
          /\ gathered' = <<"yes", [i \in 1..n |-> slot[i - 1]]>>
          /\ UNCHANGED <<pool, busy, slot, evals, n, nw>>
Next == Gather \/ \E w \in Workers : Take(w) \/ Split(w) \/ Eval(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Cover == {<<g[1], g[2]>> : g \in pool} \cup {busy[w] : w \in {v \in Workers : ~Idle(v)}}
Disjoint == /\ \A i \in 0..(n - 1) : evals[i] <= 1
            /\ \A i \in 0..(n - 1) : (evals[i] = 0) = (Cardinality({g \in Cover : g[1] <= i /\ i < g[2]}) = 1)
            /\ \A i \in 0..(n - 1) : Cardinality({g \in Cover : g[1] <= i /\ i < g[2]}) <= 1
Slots == \A i \in 0..(n - 1) : slot[i] \in {None, Value(i)}
Same == gathered[1] = "yes" => gathered[2] = [i \in 1..n |-> Value(i - 1)]
Ends == <>(gathered[1] = "yes")

------------------------------------------------------------------------------
(* Pixel counts around multiples of the thread counts, as real calls. *)
Noise(m, s) == [i \in 1..m |-> (((i + s) * (i + s) * 37) + ((i + s) * 91) + (s * 53)) % 256]
Im(w, h, ch) == [w |-> w, h |-> h, c |-> ch, a |-> FALSE, q |-> 0, d |-> Noise(w * h * ch, w + Seed)]
Calls(w, h) ==
    {[op |-> "filter1d", p |-> [ker |-> <<1, -2, 3>>, kerq |-> 0, v |-> v], in |-> Im(w, h, 2), oq |-> 0] : v \in BOOLEAN}
    \cup {[op |-> "unsep", p |-> [ker |-> <<1, 0, 2, -3, 5, 1, 4, 0, -1>>, kerq |-> 0], in |-> Im(w, h, 1), oq |-> 0]}
    \cup {[op |-> "scale", p |-> [xf |-> 5, xfq |-> 2, yf |-> 3, yfq |-> 2, method |-> m], in |-> Im(w, h, 3), oq |-> 6] : m \in {"nn", "bilinear", "bicubic", "lanczos"}}
    \cup (IF w * h > 40 THEN {} ELSE
          {[op |-> "bilateral", p |-> [range |-> 60, rangeq |-> 2, sp |-> 1, spq |-> 0], in |-> Im(w, h, 3)]})
    \cup {[op |-> "rotate", p |-> [deg |-> 37, degq |-> 0], in |-> Im(w, h, 2), oq |-> 0]}
Counts == IF Deep THEN 1..33 ELSE {1, 2, 3, 4, 7, 8, 9, 15, 16, 17}
Emit == (gathered[1] = "yes" /\ nw = 1 /\ n = 0) =>
    \A k \in Counts : \A h \in {1, 2, 3} : \A e \in Calls(k, h) \cup Calls(h, k) : PrintT("CASE " \o ToJson(e))
=============================================================================
