-------------------------------- MODULE Heap --------------------------------
(* The object memory as a program sees it: objects with identity, class, size
   and contents; root variables; weak objects, ephemerons and registrations
   for finalization; collection as the closure under strong references.

   A value is 0 (nil, or the byte 0), n > 0 (the object n), or -1 - i (the
   number i).  Contents are partial: absent slots hold 0.

   State:
     n    object -> [k, z, s, ro, w, e]: kind, size, slots, read-only, weak, ephemeron
     r    the root variables
     nx   next identity
     fin  objects registered for finalization
     log  what has been mourned or finalized and not yet been reported
     reg  registers holding identity hashes: the object they were taken from
     fx   objects whose memory is fixed
   Kinds: 1 Array, 2 object of 4 named variables, 3 the same with a finalize
   method, 4 ByteArray, 5 String, 6 two named and some indexed variables,
   7 a block of two captured variables (slot 0: its dead home context may still hold what it answered, the block as it was created), 8 a waiting process with two
   temporaries, 9 ephemeron (key, value, serial number), 10 a weak object with indexed variables. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANT NR                     \* number of root variables

Nil == 0
IsRef(v) == v > 0
Num(i) == -1 - i
IntOf(v) == -1 - v
Upd(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Get(s, i) == IF i \in DOMAIN s THEN s[i] ELSE Nil

Refs(o) == { v \in { o.s[i] : i \in DOMAIN o.s } : IsRef(v) }
HeapInit == [n |-> << >>, r |-> [i \in 1..NR |-> Nil], nx |-> 1, fin |-> {}, log |-> << >>,
             reg |-> [i \in 1..4 |-> Nil], fx |-> {}]

RootSet(st) == { v \in { st.r[i] : i \in 1..NR } : IsRef(v) }

-----------------------------------------------------------------------------
(* Reachability. *)
KeyLive(st, o, R) == LET k == Get(o.s, 1) IN ~IsRef(k) \/ k \in R
Step(st, R) ==
  R \cup UNION { LET o == st.n[x] IN
                 IF o.w THEN {}
                 ELSE IF o.e /\ ~KeyLive(st, o, R) THEN {}
                 ELSE Refs(o) : x \in R }
RECURSIVE Close(_, _)
Close(st, R) == LET S == Step(st, R) IN IF S = R THEN R ELSE Close(st, S)

Live(st) == Close(st, RootSet(st))

(* A full collection: R is live; D the ephemerons to mourn, found in rounds.
   The objects that wait for finalization, and what the mourned ephemerons refer to, survive it. *)
RECURSIVE Mourn(_, _, _)
Mourn(st, R, D) ==
  LET d == { x \in R \ D : st.n[x].e /\ ~st.n[x].w /\ ~KeyLive(st, st.n[x], R) }
  IN IF d = {} THEN [keep |-> R, dead |-> D]
     ELSE Mourn(st, Close(st, R \cup UNION { Refs(st.n[x]) : x \in d }), D \cup d)

Serial(o) == CASE o.k = 9 -> 1000 + IntOf(Get(o.s, 3))
               [] o.k = 3 -> IF Get(o.s, 1) < 0 THEN IntOf(Get(o.s, 1)) ELSE 999
               [] OTHER -> -1

SortedLog(q) == SortSeq(q, LAMBDA a, b : a < b)

Collect3(st, X, E) ==                               \* X: unreachable objects that some dead context still holds
  LET L  == Close(st, RootSet(st) \cup X)
      F  == st.fin \ L                             \* to be finalized
      \* the dead ephemerons of the live objects and the objects to be finalized are found together
      d0 == { x \in L : st.n[x].e /\ ~st.n[x].w /\ ~KeyLive(st, st.n[x], L) }
      M  == Mourn(st, Close(st, L \cup F \cup UNION { Refs(st.n[x]) : x \in d0 }), d0)
      K  == M.keep
      n2 == [x \in K |->
               LET o == st.n[x] IN
               IF o.w THEN [o EXCEPT !.s = [i \in { j \in DOMAIN o.s : ~IsRef(o.s[j]) \/ o.s[j] \in K } |-> o.s[i]]]
               ELSE IF x \in M.dead \ E /\ o.k = 9
               THEN [o EXCEPT !.s = [i \in DOMAIN o.s \ {1, 2} |-> o.s[i]]]
               ELSE o]
      es == { x \in M.dead \ E : st.n[x].k = 9 }
      fs == { x \in F : st.n[x].k = 3 }
      lg == SetToSeq(es)
      lf == SetToSeq(fs)
  IN [st EXCEPT !.n = n2, !.fin = @ \ F, !.fx = @ \cap K,
        !.log = SortedLog(@ \o [i \in 1..Len(lg) |-> Serial(st.n[lg[i]])] \o [i \in 1..Len(lf) |-> Serial(st.n[lf[i]])]),
        !.reg = [i \in DOMAIN @ |-> IF @[i] \in K THEN @[i] ELSE Nil]]

(* Ephemerons that only something waiting for finalization refers to may be mourned at once or not. *)
Waiting(st, X) ==
  LET L == Close(st, RootSet(st) \cup X)
      dead(R) == { x \in R : st.n[x].e /\ ~st.n[x].w /\ ~KeyLive(st, st.n[x], R) }
      d0 == dead(L)
      F  == st.fin \ L
  IN IF F = {} THEN {}
     ELSE Mourn(st, Close(st, L \cup F \cup UNION { Refs(st.n[x]) : x \in d0 }), d0).dead
          \ Mourn(st, Close(st, L \cup UNION { Refs(st.n[x]) : x \in d0 }), d0).dead
Collects(st, X) == { Collect3(st, X, E) : E \in SUBSET Waiting(st, X) }
(* A process that nobody can signal any more may be found out later than other garbage. *)
Lingering(st) == SUBSET { x \in DOMAIN st.n : st.n[x].k = 8 }

(* Forgetting what no program can see any more; not observable. An unreachable ephemeron that is old
   may still be mourned by a scavenge that reclaims its key. *)
Prune(st) ==
  LET RECURSIVE Vis(_)
      Vis(R) == LET S == R \cup UNION { Refs(st.n[x]) : x \in R } IN IF S = R THEN R ELSE Vis(S)
      K == Vis(RootSet(st) \cup st.fin \cup { x \in DOMAIN st.n : st.n[x].k \in {8, 9} })
  IN [st EXCEPT !.n = [x \in K |-> st.n[x]], !.fx = @ \cap K]

-----------------------------------------------------------------------------
(* What a dump of the graph shows: a traversal in breadth from the roots, that
   numbers objects as it meets them; weak objects and ephemerons are shown but not followed. *)
RECURSIVE Walk(_, _, _, _)
SlotIdx(o) == SetToSortSeq({ i \in DOMAIN o.s : i > 0 /\ o.s[i] # Nil }, LAMBDA a, b : a < b)
PosIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Tok(v, ord) == IF IsRef(v) THEN 10000 + PosIn(ord, v) ELSE IF v = Nil THEN 0 ELSE IntOf(v)
RECURSIVE AddNew(_, _, _, _)
AddNew(o, ix, i, ord) ==
  IF i > Len(ix) THEN ord
  ELSE LET v == o.s[ix[i]] IN AddNew(o, ix, i + 1, IF IsRef(v) /\ ~Contains(ord, v) THEN Append(ord, v) ELSE ord)
Walk(st, ord, i, out) ==
  IF i > Len(ord) THEN out
  ELSE LET o == st.n[ord[i]]
           ix == SlotIdx(o)
       IN IF o.w \/ o.e THEN Walk(st, ord, i + 1, out \o <<-1, o.k, o.z, -2>>)
          ELSE LET ord2 == AddNew(o, ix, 1, ord)
               IN Walk(st, ord2, i + 1,
                       out \o <<-1, o.k, o.z>> \o FlattenSeq([j \in 1..Len(ix) |-> <<ix[j], Tok(o.s[ix[j]], ord2)>>]))
RECURSIVE RootOrd(_, _, _)
RootOrd(st, i, ord) ==
  IF i > NR THEN ord
  ELSE RootOrd(st, i + 1, IF IsRef(st.r[i]) /\ ~Contains(ord, st.r[i]) THEN Append(ord, st.r[i]) ELSE ord)
Dump(st) == LET ord == RootOrd(st, 1, << >>)
            IN Walk(st, ord, 1, [i \in 1..NR |-> IF st.r[i] = Nil THEN 0 ELSE 10000 + PosIn(ord, st.r[i])])

(* A value on its own: numbers, nil, or a tag telling what kind of object it is. *)
Tag(st, v) == IF v = Nil THEN 0 ELSE IF ~IsRef(v) THEN IntOf(v)
              ELSE LET o == st.n[v] IN 20000 + o.k * 1000 +
                   (IF o.k \in {1, 2, 3, 6} /\ Get(o.s, 1) < 0 THEN IntOf(Get(o.s, 1)) ELSE IF o.k = 9 THEN IntOf(Get(o.s, 3)) ELSE 999)

-----------------------------------------------------------------------------
Out(st, r) == { [st |-> st, r |-> r, c |-> << >>] }
Anyt(st) == { [st |-> st, r |-> << >>, c |-> << >>, any |-> TRUE] }
OK == <<1>>
Err == <<-9999>>
No == <<-1>>                  \* the driver refuses: no object there, or of the wrong kind

Put(st, x, i, v) == [st EXCEPT !.n[x].s = Upd(@, i, v)]
Fresh(st, v, o) == [st EXCEPT !.n = Upd(@, st.nx, o), !.r[v] = st.nx, !.nx = @ + 1]
Node(k, z, s) == [k |-> k, z |-> z, s |-> s, ro |-> FALSE, w |-> FALSE, e |-> FALSE]
Bytes(o) == o.k \in {4, 5}
Size(k, z) == CASE k \in {2, 3} -> 4 [] k \in {7, 8} -> 2 [] k = 9 -> 3 [] k = 6 -> 2 + z [] OTHER -> z

(* replacing every reference to a by one to b *)
Forward(st, a, b) ==
  LET f(v) == IF v = a THEN b ELSE v
  IN [st EXCEPT !.r = [i \in DOMAIN @ |-> f(@[i])],
        !.n = [x \in DOMAIN @ |-> [@[x] EXCEPT !.s = [i \in DOMAIN @ |-> f(@[i])]]],
        !.fin = { f(x) : x \in @ },
        !.reg = @]

Strip(st) == [st EXCEPT !.n = [x \in DOMAIN @ |-> IF @[x].k \in {7, 8} THEN [@[x] EXCEPT !.s = [i \in DOMAIN @ \ {0} |-> @[i]]] ELSE @[x]]]
(* A scavenge, or part of an incremental collection, may notice some of the dead and leave the others for later. *)
Dead(st) ==
  LET L  == Live(st)
      F  == st.fin \ L
      d0 == { x \in L : st.n[x].e /\ ~st.n[x].w /\ ~KeyLive(st, st.n[x], L) }
      M  == Mourn(st, Close(st, L \cup F \cup UNION { Refs(st.n[x]) : x \in d0 }), d0)
      U  == { x \in DOMAIN st.n \ L : st.n[x].e /\ st.n[x].k = 9 /\ ~KeyLive(st, st.n[x], L) }   \* held by a lingering process
  IN { x \in M.dead : st.n[x].k = 9 } \cup F \cup U
Notice(st, D) ==
  LET lg == SetToSeq({ x \in D : st.n[x].k \in {3, 9} })
      \* an object that is an ephemeron and registered too is reported by whichever way noticed it
  IN [st EXCEPT !.n = [x \in DOMAIN @ |-> IF x \in D /\ @[x].k = 9 THEN [@[x] EXCEPT !.s = [i \in DOMAIN @ \ {1, 2} |-> @[i]]] ELSE @[x]],
        !.fin = @ \ D,
        !.log = SortedLog(@ \o [i \in 1..Len(lg) |-> Serial(st.n[lg[i]])])]
May(st, r) == { [st |-> [s EXCEPT !.log = << >>], r |-> r \o s.log, c |-> << >>] : s \in { Notice(st, D) : D \in SUBSET Dead(Strip(st)) } }
(* An ephemeron that a dead context still holds is mourned although nothing else refers to it. *)
Held(st0) == LET st == Strip(st0)   L == Live(st)
                 U == { x \in DOMAIN st.n \ L : st.n[x].k = 9 /\ st.n[x].e /\ ~KeyLive(st, st.n[x], L) }
             IN { Notice(st0, D) : D \in SUBSET U }
Must(st0, r) == UNION { UNION { { [st |-> [s EXCEPT !.log = << >>], r |-> r \o s.log, c |-> << >>] : s \in Collects(st, X) } : X \in Lingering(st) } : st \in UNION { {h, Strip(h)} : h \in Held(st0) } }
Full(st0) ==      \* the second collection reclaims what the first one finalized
  LET cnt(t, k) == Cardinality({ x \in DOMAIN t.n : t.n[x].k = k })
      two(s) == { [st |-> [t EXCEPT !.log = << >>],
                   r |-> s.log \o <<-1>> \o t.log \o <<-1, cnt(t, 2), cnt(t, 3), cnt(t, 6), cnt(t, 9)>>, c |-> << >>]
                  : t \in Collects([s EXCEPT !.log = << >>], {}) }
  IN UNION { UNION { UNION { two(s) : s \in Collects(st, X) } : X \in Lingering(st) } : st \in UNION { {h, Strip(h)} : h \in Held(st0) } }

(* A read-only object refuses stores into its indexed variables. *)
Refuses(o, i) == o.ro /\ (o.k \in {1, 4, 5, 10} \/ (o.k = 6 /\ i > 2))

HeapOutcomes(st, op, a) ==
  LET x == st.r[a[1]]            \* the object the operation is about
      o == st.n[x]
      y == st.r[a[2]]
  IN
  CASE op = "new" -> \* variable, kind, size
         Out(Fresh(st, a[1], [Node(a[2], Size(a[2], a[3]), IF a[2] \in {7, 8} THEN (0 :> st.nx) ELSE << >>) EXCEPT !.w = (a[2] = 10)]), OK)
    [] op = "neweph" -> \* variable, key variable, value variable, serial
         LET s == [i \in 1..3 |-> CASE i = 1 -> st.r[a[2]] [] i = 2 -> st.r[a[3]] [] i = 3 -> Num(a[4])]
         IN Out(Fresh(st, a[1], [Node(9, 3, s) EXCEPT !.e = TRUE]), OK)
    [] op = "drop" -> Out([st EXCEPT !.r[a[1]] = Nil], OK)
    [] op = "move" -> Out([st EXCEPT !.r[a[1]] = st.r[a[2]]], OK)
    [] op = "dump" -> LET s == Prune(st) IN Out(s, Dump(s))
    [] op \in {"churn", "scavenge", "incstep", "fininc"} -> May(st, OK)
    [] op \in {"compact", "gc"} -> Must(st, OK)
    [] op = "fullgc" -> Full(st)
    [] x = Nil -> Out(st, No)
    [] op \in {"put", "become", "forward", "puteph"} /\ y = Nil -> Out(st, No)
    [] op = "put" -> \* variable, variable of the value, index
         IF Bytes(o) \/ o.k = 9 THEN Out(st, No)
         ELSE IF Refuses(o, a[3]) \/ a[3] \notin 1..o.z THEN Out(st, Err)
         ELSE Out(Put(st, x, a[3], y), OK)
    [] op = "putint" -> \* variable, index, number
         IF o.k = 9 THEN Out(st, No)
         ELSE IF Refuses(o, a[2]) \/ a[2] \notin 1..o.z THEN Out(st, Err)
         ELSE Out(Put(st, x, a[2], IF Bytes(o) /\ a[3] = 0 THEN Nil ELSE Num(a[3])), OK)
    [] op = "putnil" ->
         IF Bytes(o) \/ o.k = 9 THEN Out(st, No)
         ELSE IF Refuses(o, a[2]) \/ a[2] \notin 1..o.z THEN Out(st, Err)
         ELSE Out(Put(st, x, a[2], Nil), OK)
    [] op = "get" -> \* variable, index, variable for the result
         IF Bytes(o) \/ o.w \/ o.e THEN Out(st, No)
         ELSE IF a[2] \notin 1..o.z THEN Out(st, Err)
         ELSE LET v == Get(o.s, a[2]) IN
              IF IsRef(v) THEN Out([st EXCEPT !.r[a[3]] = v], OK) ELSE Out(st, <<Tag(st, v)>>)
    [] op = "same" -> Out(st, <<IF x = y THEN 1 ELSE 0>>)
    [] op = "size" -> Out(st, <<o.z>>)
    [] op = "become" ->
         IF o.ro \/ st.n[y].ro THEN Out(st, Err)
         ELSE Out([st EXCEPT !.n[x] = st.n[y], !.n[y] = o,
                     !.fx = { IF q = x THEN y ELSE IF q = y THEN x ELSE q : q \in @ }], OK)
    [] op = "forward" ->
         IF o.ro THEN Out(st, Err)
         ELSE IF x = y THEN Out(st, OK)
         ELSE IF x \in st.fin THEN Out(st, No)
         ELSE Out(Forward(st, x, y), OK)
    [] op = "class" -> \* kinds 2 and 3 have the same shape
         IF o.k \notin {2, 3} THEN Out(st, No) ELSE Out([st EXCEPT !.n[x].k = 5 - o.k], OK)
    [] op = "ro" -> IF o.k \in {7, 8, 9} THEN Out(st, No) ELSE Out([st EXCEPT !.n[x].ro = (a[2] = 1)], OK)
    [] op = "copy" -> \* variable, variable for the copy
         IF o.k \in {7, 8} \/ o.w \/ o.e THEN Out(st, No)
         ELSE Out(Fresh(st, a[2], Node(o.k, o.z, o.s)), OK)
    [] op \in {"tenure", "sweeproots"} -> Out(st, OK)
    [] op = "fix" -> IF o.k \in {7, 8} THEN Out(st, No) ELSE Out([st EXCEPT !.fx = @ \cup {x}], OK)
    [] op = "fixed" -> IF x \in st.fx THEN Out(st, OK) ELSE Out(st, OK) \cup Out(st, No) \cup Out(st, <<0>>)
    [] op = "hash" -> Out([st EXCEPT !.reg[a[2]] = x], OK)
    [] op = "samehash" -> IF st.reg[a[2]] = x THEN Out(st, OK)
                          ELSE IF st.reg[a[2]] = Nil THEN Out(st, OK) \cup Out(st, <<0>>)
                          ELSE IF st.reg[a[2]] \in Live(Strip(st)) THEN Out(st, <<0>>) ELSE Out(st, OK) \cup Out(st, <<0>>)
    [] op = "wdump" -> \* what a weak object shows: any unreachable object may have gone already
         IF ~o.w THEN Out(st, No)
         ELSE LET L == Live(Strip(st))
                  U == Refs(o) \ L
              IN { LET gone(s) == IF s.w THEN [s EXCEPT !.s = [i \in { j \in DOMAIN s.s : s.s[j] \notin D } |-> s.s[i]]] ELSE s
                       st2 == [st EXCEPT !.n = [q \in DOMAIN @ |-> gone(@[q])]]
                       s2 == st2.n[x].s
                   IN [st |-> st2, r |-> [i \in 1..o.z |-> Tag(st2, Get(s2, i))], c |-> << >>] : D \in SUBSET U }
    [] op = "wget" -> \* weak variable, index, variable for the result
         IF ~o.w THEN Out(st, No)
         ELSE IF a[2] \notin 1..o.z THEN Out(st, Err)
         ELSE LET v == Get(o.s, a[2]) IN
              IF IsRef(v)
              THEN Out([st EXCEPT !.r[a[3]] = v], OK) \cup
                   (IF v \in Live(Strip(st)) THEN {} ELSE
                      LET gone(s) == IF s.w THEN [s EXCEPT !.s = [i \in { j \in DOMAIN s.s : s.s[j] # v } |-> s.s[i]]] ELSE s
                      IN Out([st EXCEPT !.n = [q \in DOMAIN @ |-> gone(@[q])]], <<0>>))
              ELSE Out(st, <<Tag(st, v)>>)
    [] op = "eget" -> IF ~o.e THEN Out(st, No)
                      ELSE LET v == Get(o.s, a[2]) IN
                           IF IsRef(v) THEN Out([st EXCEPT !.r[a[3]] = v], OK) ELSE Out(st, <<Tag(st, v)>>)
    [] op = "puteph" -> IF ~o.e THEN Out(st, No) ELSE Out(Put(st, x, a[3], y), OK)
    [] op = "register" -> IF o.ro THEN Out(st, No) ELSE Out([st EXCEPT !.fin = @ \cup {x}], OK)
    [] op = "unregister" -> Out([st EXCEPT !.fin = @ \ {x}], OK)
    [] OTHER -> Out(st, <<-7777>>)
=============================================================================
