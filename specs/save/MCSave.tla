------------------------------- MODULE MCSave -------------------------------
(* A way of saving, with every failure and a kill at every step, any number of
   times, over two images: which ways keep the images?
   Design "replace": write another file, close it, rename it over the image; on
   failure remove it.  "inplace": remove the image, write it, on failure remove
   it.  "noclose": as replace, but not looking at what close answers.
   "overwrite": write over the image. *)
EXTENDS SaveFile
CONSTANTS Design, Sessions
VARIABLES st, pc, n, told
vars == <<st, pc, n, told>>
Init == st = [SaveInit EXCEPT !.cur = 1] /\ pc = "idle" /\ n = 0 /\ told = <<0, 0>>
W == IF Design \in {"replace", "noclose"} THEN 3 ELSE st.tgt
New == 1 + Cardinality(DOMAIN st.f)
Do(op, a, r, next) == /\ st' = Sys(st, op, a, r) /\ pc' = next /\ UNCHANGED <<n, told>>
Begin == /\ pc = "idle" /\ n < Sessions
         /\ n' = n + 1
         /\ \E t \in Images : st' = [st EXCEPT !.cur = n + 1, !.tgt = t, !.old = File(st, t), !.bad = FALSE]
         /\ pc' = IF Design = "inplace" THEN "unlink" ELSE "open"
         /\ UNCHANGED told
Unlink == pc = "unlink" /\ \E r \in {0, -1} : Do("unlink", <<st.tgt>>, r, "open")
Open == pc = "open" /\ \/ Do("open", <<W, 1, IF W \in DOMAIN st.nm THEN 0 ELSE 1>>, IF W \in DOMAIN st.nm THEN st.nm[W] ELSE New, "write1")
                       \/ Do("open", <<W, 1, 0>>, -1, "told")
Write1 == pc = "write1" /\ \/ Do("write", <<st.nm[W], 9, 0>>, 9, "write2") \/ Do("write", <<st.nm[W], 9, 0>>, -1, "undo")
Write2 == pc = "write2" /\ \/ Do("write", <<st.nm[W], 9, 0>>, 9, "close") \/ Do("write", <<st.nm[W], 9, 0>>, -1, "undo")
\* only closing tells whether the file is complete
Close == pc = "close" /\ LET next == IF Design \in {"replace", "noclose"} THEN "rename" ELSE "good" IN
         \/ Do("write", <<st.nm[W], 9, 1>>, 9, next)
         \/ Do("close", <<st.nm[W]>>, -1, IF Design = "noclose" THEN next ELSE "undo")
Rename == pc = "rename" /\ \/ Do("rename", <<3, st.tgt>>, 0, "good") \/ Do("rename", <<3, st.tgt>>, -1, "undo")
Undo == pc = "undo" /\ \E r \in {0, -1} : Do("unlink", <<W>>, r, "told")
Good == pc = "good" /\ told' = [told EXCEPT ![st.tgt] = st.cur] /\ pc' = "idle" /\ st' = [st EXCEPT !.tgt = 0] /\ UNCHANGED n
Told == pc = "told" /\ pc' = "idle" /\ st' = [st EXCEPT !.tgt = 0] /\ UNCHANGED <<n, told>>
Kill == pc # "idle" /\ pc' = "idle" /\ st' = [st EXCEPT !.tgt = 0] /\ UNCHANGED <<n, told>>
Next == Begin \/ Unlink \/ Open \/ Write1 \/ Write2 \/ Close \/ Rename \/ Undo \/ Good \/ Told \/ Kill
Spec == Init /\ [][Next]_vars
\* an image, once complete, is there for ever, as it was or as something newer
Keep == [][Kept(st, st')]_vars
\* and if the program was told that it was saved, it is there, as it was then or newer
Safe == \A t \in Images : told[t] # 0 => Whole(st, t) /\ st.f[st.nm[t]].v >= told[t]
=============================================================================
