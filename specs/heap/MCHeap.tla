------------------------------- MODULE MCHeap -------------------------------
(* Exhaustive small histories of the object memory, with the laws that make
   the specification a meaningful oracle. *)
EXTENDS Heap
CONSTANT Depth

VARIABLES st, d, finalized
vars == <<st, d, finalized>>

V == 1..NR
Alphabet ==
  { <<"new", <<v, k, 2>>>> : v \in V, k \in {1, 3, 7, 10} } \cup
  { <<"put", <<v, w, 1>>>> : v \in V, w \in V } \cup
  { <<"drop", <<v>>>> : v \in V } \cup { <<"move", <<v, w>>>> : v \in V, w \in V } \cup
  { <<"neweph", <<v, w, x, 7>>>> : v \in V, w \in V, x \in V } \cup
  { <<"become", <<v, w>>>> : v \in V, w \in V } \cup { <<"forward", <<v, w>>>> : v \in V, w \in V } \cup
  { <<"register", <<v>>>> : v \in V } \cup { <<"gc", << >>>>, <<"scavenge", <<1>>>> }

Args(x) == x[2] \o <<1, 1, 1>>
Init == st = HeapInit /\ d = 0 /\ finalized = 0
Next == /\ d < Depth
        /\ \E x \in Alphabet :
             /\ x[1] \in {"put", "become", "forward", "register"} => IsRef(st.r[Args(x)[1]])
             /\ \E o \in HeapOutcomes(st, x[1], Args(x)) :
                  /\ st' = o.st
                  /\ finalized' = finalized + Cardinality(st.fin) - Cardinality(o.st.fin)
        /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Closed(s) == /\ RootSet(s) \subseteq DOMAIN s.n
             /\ \A x \in Live(s) : Refs(s.n[x]) \subseteq DOMAIN s.n \/ s.n[x].w
             /\ s.fin \subseteq DOMAIN s.n

Laws ==
  LET c == Collect3(st, {}, {}) IN
  /\ Closed(st)
  \* nothing a program can reach changes, and nothing it cannot reach stays
  /\ Dump(c) = Dump(st)
  /\ Live(st) \subseteq DOMAIN c.n
  /\ \A x \in Live(st) : ~st.n[x].w /\ ~st.n[x].e => c.n[x] = st.n[x]
  /\ LET c2 == Collect3(c, {}, {}) IN
     c.fin = st.fin /\ c.log = st.log => DOMAIN c2.n = DOMAIN c.n
  /\ Dump(Prune(st)) = Dump(st)
  \* what is reachable is never finalized; what is not is finalized by the next collection
  /\ (st.fin \cap Live(st)) \subseteq c.fin /\ c.fin \subseteq Live(st)
  \* swaps are involutions; redirection leaves no reference
  /\ \A v \in V, w \in V : IsRef(st.r[v]) /\ IsRef(st.r[w]) =>
       \A o \in HeapOutcomes(st, "become", <<v, w>>) : \A p \in HeapOutcomes(o.st, "become", <<v, w>>) : p.st = st
  /\ \A v \in V, w \in V : IsRef(st.r[v]) /\ IsRef(st.r[w]) /\ st.r[v] # st.r[w] /\ st.r[v] \notin st.fin =>
       \A o \in HeapOutcomes(st, "forward", <<v, w>>) :
          LET x == st.r[v] IN x \notin RootSet(o.st) /\ \A y \in DOMAIN o.st.n : x \notin Refs(o.st.n[y])
=============================================================================
