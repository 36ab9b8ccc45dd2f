------------------------------ MODULE FileStore ------------------------------
(***************************************************************************)
(* Image files as a state machine (C34): a map from path names to what the *)
(* file holds.  A record [k, w, h, c, a, d]: k is "absent", "img" (an      *)
(* image the library can read back), "unsure" (nothing or not an image), "junk" (not an image), "deep" (an     *)
(* image of a sample type the library does not support) or "dir".          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Nothing(k) == [k |-> k, w |-> 0, h |-> 0, c |-> 0, a |-> FALSE, d |-> <<>>]
Picture(im) == [k |-> "img", w |-> im.w, h |-> im.h, c |-> im.c, a |-> im.a, d |-> im.d]

(* Layouts that can be written at all. *)
Writable(im) == <<im.c, im.a>> \in {<<1, FALSE>>, <<2, TRUE>>, <<3, FALSE>>, <<4, TRUE>>}
Enough(im) == Len(im.d) >= im.w * im.h * im.c

(* What a write to a path may do.  ext says whether the file name's        *)
(* extension names a lossless format ("img") or no image format ("none");  *)
(* nodir that its directory does not exist.                                *)
WriteOutcome(fs, e) ==
    CASE ~Writable(e.in) -> {"color"}
      [] ~Enough(e.in) -> {"write"}
      [] e.ext = "none" -> {"reader", "format"}
      [] e.nodir \/ fs[e.path].k = "dir" -> {"io", "reader"}
      [] OTHER -> {"ok"}
ReadOutcome(fs, e) ==
    CASE fs[e.path].k = "absent" -> {"io"}
      [] fs[e.path].k = "dir" -> {"io", "reader"}
      [] fs[e.path].k = "junk" -> {"reader", "format"}
      [] fs[e.path].k = "deep" -> {"color"}
      [] fs[e.path].k = "unsure" -> {"io", "reader", "format"}
      [] fs[e.path].k = "img" -> {"ok"}

AfterFile(fs, e) ==
    CASE e.op = "write" ->
            IF WriteOutcome(fs, e) = {"ok"} THEN [fs EXCEPT ![e.path] = Picture(e.in)]
            \* whether an empty file is left under a name of no image format is not specified
            ELSE IF WriteOutcome(fs, e) = {"reader", "format"} THEN [fs EXCEPT ![e.path] = Nothing("unsure")] ELSE fs
      [] e.op = "copy" -> [fs EXCEPT ![e.path] = fs[e.from]]
      [] e.op = "del" -> [fs EXCEPT ![e.path] = Nothing("absent")]
      [] e.op = "raw" -> [fs EXCEPT ![e.path] =
            Nothing(IF e.kind \in {"empty", "garbage", "trunc"} THEN "junk" ELSE "deep")]
      [] OTHER -> fs

(* Digest of a file in a recorded directory listing ("" if it is not there). *)
RECURSIVE DigestIn(_, _, _)
DigestIn(st, name, i) == IF i > Len(st) THEN "" ELSE IF st[i][1] = name THEN st[i][2] ELSE DigestIn(st, name, i + 1)
Digest(st, name) == DigestIn(st, name, 1)

(* e: recorded event; before, after: listings around it. *)
FileVerdict(fs, e, before) ==
    LET kind == IF e.r = "ok" THEN "ok" ELSE IF e.r = "err" THEN e.ek ELSE e.r IN
    CASE e.op = "write" ->
            /\ kind \in WriteOutcome(fs, e)
            \* a rejected layout (or too few samples) leaves every file as it was; any write leaves other files alone
            /\ IF kind \in {"color", "write"} THEN e.st = before
               ELSE \A i \in 1..Len(before) : before[i][1] = e.path \/ Digest(e.st, before[i][1]) = before[i][2]
      [] e.op = "read" ->
            /\ kind \in ReadOutcome(fs, e)
            /\ e.st = before
            /\ kind = "ok" =>
                  /\ e.o.n = 0
                  /\ Picture(e.o) = fs[e.path]
      [] OTHER -> e.r = "ok"
=============================================================================
