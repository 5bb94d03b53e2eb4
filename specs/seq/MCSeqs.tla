------------------------------- MODULE MCSeqs -------------------------------
(* Every sequence reachable with the mutators below, up to length Max over the
   values Vals, and the laws that relate the messages to one another: none of
   them is how Do is defined. *)
EXTENDS Seqs
CONSTANTS Vals, Max
VARIABLE st
Ap(op, a) == Do(st, op, a)
R(op, a)  == Do(st, op, a).r
Init == st = SeqInit(1, << >>)
Step(op, a) == st' = [st EXCEPT !.s = Ap(op, a).s]
Next ==
  \/ /\ Len(st.s) < Max
     /\ \E v \in Vals : \/ Step("addFirst", <<v>>) \/ Step("addLast", <<v>>)
                        \/ \E i \in 0..Len(st.s) : Step("addAfterIndex", <<v, i>>)
                        \/ \E w \in Vals : Step("addBefore", <<v, w>>)
  \/ Step("removeFirst", << >>) \/ Step("removeLast", << >>)
  \/ \E i \in 1..Len(st.s) : Step("removeAtIndex", <<i>>)
  \/ \E v \in Vals : Step("removeIfAbsent", <<v>>)
  \/ Step("sort", << >>)
  \/ \E i, j \in 1..Len(st.s) : Step("swap", <<i, j>>)
Spec == Init /\ [][Next]_st

s == st.s
n == Len(s)
Bag(t) == [v \in Vals |-> Cardinality(Positions(t, v))]
Laws ==
  /\ R("reverse", << >>) = R("reverseDo", << >>)
  /\ Rev(Rev(s)) = s
  /\ Bag(Sort(s)) = Bag(s) /\ \A i \in 1..(n - 1) : Sort(s)[i] <= Sort(s)[i + 1]
  /\ \A i \in 0..n : /\ R("firstN", <<i>>) \o R("allButFirst", <<i>>) = s
                     /\ R("allButLast", <<i>>) \o R("lastN", <<i>>) = s
                     /\ R("copyReplaceFromTo", <<i + 1, i, 9>>) = Do(st, "addAfterIndex", <<9, i>>).s
  /\ \A v \in Vals :
       LET i == R("indexOf", <<v>>)[1] j == R("indexOfLast", <<v>>)[1] IN
       /\ (i = 0) = (j = 0) /\ (i = 0) = (R("includes", <<v>>)[1] = 0)
       /\ i # 0 => /\ R("copyUpTo", <<v>>) \o <<v>> \o R("copyAfter", <<v>>) = s
                   /\ R("copyUpToLast", <<v>>) \o <<v>> \o R("copyAfterLast", <<v>>) = s
                   /\ i <= j
       /\ Len(R("copyWithout", <<v>>)) = n - R("includes", <<v>>)[2]
       /\ \A w \in Vals : R("copyReplacing", <<v, w>>) = R("copyReplaceAll", <<1, v, w>>)
       /\ R("countSub", <<v>>)[1] = R("includes", <<v>>)[2]
       /\ Do([st EXCEPT !.s = Do(st, "addFirst", <<v>>).s], "removeFirst", << >>).s = s
       /\ Do([st EXCEPT !.s = Do(st, "addLast", <<v>>).s], "removeLast", << >>).s = s
  /\ R("startsWith", s) = <<1>> /\ R("endsWith", s) = <<1>>
  /\ Len(R("select", << >>)) + Len(R("reject", << >>)) = n
=============================================================================
