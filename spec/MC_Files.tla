------------------------------ MODULE MC_Files ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the file store on a few paths and images.     *)
(* Every transition, with the shortest history leading to it and a final   *)
(* read of every path, is printed as a session for the real code.          *)
(***************************************************************************)
EXTENDS FileStore, Json, IOUtils, TLC

Deep == IOEnv.TIER = "thorough"
Seed == atoi(IOEnv.SEED)
VARIABLES fs, hist
Good2 == <<"a.png", "b.png">>
Paths == {"a.png", "b.png", "n.txt", "nodir/x.png", "dir.png"}

Im(w, h, c, a, d) == [w |-> w, h |-> h, c |-> c, a |-> a, q |-> 0, d |-> d]
Images == <<Im(2, 1, 1, FALSE, <<3, 250>>), Im(1, 2, 4, TRUE, <<1, 2, 3, 0, 255, 254, 253, 128>>),
            Im(1, 1, 3, FALSE, <<9, 8, 7>>), Im(1, 1, 2, TRUE, <<200, 0>>)>>
Bad == <<Im(1, 1, 2, FALSE, <<1, 2>>), Im(1, 1, 4, FALSE, <<1, 2, 3, 4>>), Im(2, 2, 1, FALSE, <<1, 2, 3>>), Im(1, 1, 3, TRUE, <<1, 2, 3>>),
         Im(1, 1, 5, FALSE, <<1, 2, 3, 4, 5>>), Im(1, 1, 1, TRUE, <<1>>), Im(2, 1, 4, TRUE, <<1, 2, 3, 4>>)>>
NoIm == Im(0, 0, 1, FALSE, <<>>)
NImg == IF Deep THEN 4 ELSE 2
Kinds == IF Deep THEN {"empty", "garbage", "trunc", "l16", "rgb16", "rgba16", "la16"} ELSE {"garbage", "rgb16"}

Ev(op, path, kind, from, im) ==
    [op |-> op, path |-> path, ext |-> IF path = "n.txt" THEN "none" ELSE "img", nodir |-> path = "nodir/x.png",
     kind |-> kind, from |-> from, in |-> im]
Init == /\ fs = [p \in Paths |-> IF p = "dir.png" THEN Nothing("dir") ELSE Nothing("absent")]
        /\ hist = <<[op |-> "reset", path |-> "-"]>>
Events ==
    {Ev("write", p, "", "", Images[i]) : p \in Paths, i \in 1..NImg}
    \cup {Ev("write", p, "", "", Bad[i]) : p \in Paths, i \in 1..Len(Bad)}
    \cup {Ev("read", p, "", "", NoIm) : p \in Paths}
    \cup {Ev("raw", Good2[i], k, "", NoIm) : i \in 1..2, k \in Kinds}
    \cup {Ev("del", Good2[i], "", "", NoIm) : i \in {j \in 1..2 : fs[Good2[j]].k # "absent"}}
    \cup {Ev("copy", Good2[3 - i], "", Good2[i], NoIm) : i \in {j \in 1..2 : fs[Good2[j]].k # "absent"}}
Next == \E e \in Events : fs' = AfterFile(fs, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<fs, hist>>
View == fs
ReadAll == <<Ev("read", "a.png", "", "", NoIm), Ev("read", "b.png", "", "", NoIm)>>
Emit == IF Deep \/ (TLCGet("generated") + Seed) % 4 = 0
        THEN PrintT("CASE " \o ToJson([s |-> "F", calls |-> hist' \o ReadAll])) ELSE TRUE

------------------------------------------------------------------------------
(* A path changes only when it is named; a refused write changes nothing. *)
OnlyNamed == [][\A p \in Paths : fs'[p] # fs[p] => p = hist'[Len(hist')].path]_<<fs, hist>>
RefusedIsNothing ==
    [][LET e == hist'[Len(hist')] IN
       (e.op = "write" /\ WriteOutcome(fs, e) \subseteq {"color", "write", "io"}) => fs' = fs]_<<fs, hist>>
ReadIsNothing == [][hist'[Len(hist')].op = "read" => fs' = fs]_<<fs, hist>>
(* What is written is what a read then gives. *)
WriteThenRead ==
    [][LET e == hist'[Len(hist')] IN
       (e.op = "write" /\ WriteOutcome(fs, e) = {"ok"}) => (fs'[e.path] = Picture(e.in) /\ ReadOutcome(fs', e) = {"ok"})]_<<fs, hist>>
=============================================================================
