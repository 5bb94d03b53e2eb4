------------------------------ MODULE MCImage -------------------------------
(* Every short history over World with saves and restarts, and the laws of images. *)
EXTENDS TraceImgWorldDefs
CONSTANT Depth
VARIABLES q, d
Ops ==
  { <<"glob", <<1, v>>>> : v \in {3, 4} } \cup { <<"cvar", <<2, 5>>>>, <<"sym", <<1>>>>, <<"obj", <<2>>>> } \cup
  { <<"spawn", x>> : x \in {<<2, 5, 1, 1>>, <<2, 5, 1, 3>>, <<1, 3, 3, 1>>, <<3, 5, 0, 4>>} } \cup
  { <<"sig", <<i, 1>>>> : i \in {1, 3} } \cup { <<"idle", << >>>>, <<"log", << >>>>, <<"next", <<1>>>>, <<"adddep", <<1, 2>>>>, <<"term", <<2>>>>, <<"sleep", << >>>> }
Saves == { <<"snap", <<k>>>> : k \in {1, 2} } \cup { <<"resume", <<k>>>> : k \in DOMAIN q.saved }
Asks == { <<"getglob", <<1>>>>, <<"getcvar", <<2>>>>, <<"symsame", <<1>>>>, <<"objok", <<2>>>>, <<"log", << >>>>, <<"next", <<1>>>>, <<"changed", <<1>>>>, <<"term", <<2>>>>, <<"sleep", << >>>> }
Init == q \in I!ImageInit(<<1>>) /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E x \in Ops \cup Saves : \E o \in I!ImageOutcomes(q, x[1], x[2], C0) : q' = o.st
Spec == Init /\ [][Next]_<<q, d>>
Answers(p, x) == { o.r : o \in I!ImageOutcomes(p, x[1], x[2], C0) }
Runs(p, x) == { o.st : o \in I!ImageOutcomes(p, x[1], x[2], C0) }
Laws ==
  \* saving changes no answer of the program that saves
  /\ \A k \in {1, 2} : \A p \in Runs(q, <<"snap", <<k>>>>) : \A x \in Asks : Answers(p, x) = Answers(q, x)
  \* a program restarted at once answers what the one that saved would
  /\ \A p \in Runs(q, <<"snap", <<1>>>>) : \A t \in Runs(p, <<"resume", <<1>>>>) :
       /\ \A x \in Asks : Answers(t, x) = Answers(q, x)
       /\ t.cur.om = Append(Append(q.cur.om, 1), 3)
  \* nothing the program does after a save changes what is saved; nor does restarting from it
  /\ \A k \in DOMAIN q.saved : \A x \in Ops \cup { <<"resume", <<j>>>> : j \in DOMAIN q.saved } \cup { <<"snap", <<3 - k>>>> } :
       \A p \in Runs(q, x) : p.saved[k] = q.saved[k] /\ Runs(p, <<"resume", <<k>>>>) = { [t EXCEPT !.saved = p.saved] : t \in Runs(q, <<"resume", <<k>>>>) }
=============================================================================
