------------------------------- MODULE Hashed -------------------------------
(* Hashed collections as sets, bags and maps.
   An element is an integer x: value x \div 2, copy x % 2.  Two copies of one
   value are equal but not identical.  Kinds:
     1 Set  2 IdentitySet  3 Bag  4 Dictionary  5 LookupTable
     6 IdentityDictionary  7 WeakSet  8 WeakKeyDictionary
     9 WeakValueLookupTable  10 WeakIdentitySet  11 WeakKeyIdentityDictionary
     12 WeakValueIdentityDictionary
   The state is [k |-> kind, s |-> contents]: a set of elements, a set of
   <<key, value>> pairs, or (Bag) an ascending sequence of elements.
   Bags and dictionaries only promise to keep an element equal to the one
   that was stored: their contents are normalised. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

ERR == << -9999 >>
IsSet(k)  == k \in {1, 2, 7, 10}
IsBag(k)  == k = 3
IsDict(k) == k \in {4, 5, 6, 8, 9, 11, 12}
Ident(k)  == k \in {2, 6, 10, 11, 12}
Eq(k, x, y) == IF Ident(k) THEN x = y ELSE x \div 2 = y \div 2
Norm(k, x)  == IF Ident(k) THEN x ELSE x - (x % 2)
Store(k, x) == IF IsSet(k) THEN x ELSE Norm(k, x)

Lt(x, y)  == x < y
Asc(S)    == SetToSortSeq(S, Lt)
SortedSeq(q) == SortSeq(q, Lt)
Count(q, x)  == Cardinality({ i \in 1..Len(q) : q[i] = x })
RECURSIVE Flat(_)
Flat(q)   == IF q = << >> THEN << >> ELSE Head(q) \o Flat(Tail(q))
B(p)      == IF p THEN 1 ELSE 0
RECURSIVE Rep(_, _)
Rep(n, x) == IF n = 0 THEN << >> ELSE << x >> \o Rep(n - 1, x)
RECURSIVE Remove1(_, _)
Remove1(q, x) == IF q = << >> THEN q ELSE IF Head(q) = x THEN Tail(q) ELSE << Head(q) >> \o Remove1(Tail(q), x)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = << >> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Sub(q, i, j) == IF j < i THEN << >> ELSE SubSeq(q, i, j)

(* ---- abstract operations -------------------------------------------------- *)
Has(k, S, x)    == \E y \in S : Eq(k, x, y)
AddS(k, S, x)   == IF Has(k, S, x) THEN S ELSE S \cup {x}
DelS(k, S, x)   == { y \in S : ~Eq(k, x, y) }
RECURSIVE AddAllS(_, _, _)
AddAllS(k, S, q) == IF q = << >> THEN S ELSE AddAllS(k, AddS(k, S, Head(q)), Tail(q))
KeysOf(D)       == { p[1] : p \in D }
HasK(k, D, x)   == Norm(k, x) \in KeysOf(D)
AtK(k, D, x)    == (CHOOSE p \in D : p[1] = Norm(k, x))[2]
PutK(k, D, x, v) == { p \in D : p[1] # Norm(k, x) } \cup { << Norm(k, x), v >> }
DelK(k, D, x)   == { p \in D : p[1] # Norm(k, x) }
RECURSIVE PutAll(_, _, _)
PutAll(k, D, a) == IF Len(a) < 2 THEN D ELSE PutAll(k, PutK(k, D, a[1], a[2]), Tail(Tail(a)))
RECURSIVE DelAll(_, _, _)
DelAll(k, D, a) == IF a = << >> THEN D ELSE DelAll(k, DelK(k, D, Head(a)), Tail(a))
PairLt(p, q)    == p[1] < q[1]
Pairs(D)        == SetToSortSeq(D, PairLt)
Flatten(D)      == Flat(Pairs(D))
KeySeq(D)       == Asc(KeysOf(D))
ValueSeq(D)     == LET P == Pairs(D) IN SortedSeq([i \in 1..Len(P) |-> P[i][2]])
ValuesOf(D)     == { p[2] : p \in D }

Even(v)  == v % 2 = 0
EvenE(x) == (x \div 2) % 2 = 0
(* removeAll: removes one by one and fails at the first that is missing. *)
RECURSIVE RemAllS(_, _, _)
RemAllS(k, S, a) == IF a = << >> THEN << TRUE, S >>
                    ELSE IF Has(k, S, Head(a)) THEN RemAllS(k, DelS(k, S, Head(a)), Tail(a)) ELSE << FALSE, S >>
RECURSIVE RemAllB(_, _)
RemAllB(q, a) == IF a = << >> THEN << TRUE, q >>
                 ELSE IF Count(q, Head(a)) > 0 THEN RemAllB(Remove1(q, Head(a)), Tail(a)) ELSE << FALSE, q >>

NormSeq(k, a)   == [i \in 1..Len(a) |-> Norm(k, a[i])]

Project(st) == IF IsSet(st.k) THEN Asc(st.s) ELSE IF IsBag(st.k) THEN st.s ELSE Flatten(st.s)

(* The outcomes of a message to a set: a set of [s, r]. *)
DoSet(k, S, op, a) ==
  LET Q(r) == { [s |-> S, r |-> r] }
      M(T, r) == { [s |-> T, r |-> r] }
      x == a[1]
      Args == Range(a)
  IN CASE op = "add"         -> M(AddS(k, S, x), <<x>>)
       [] op = "addAll"      -> M(AddAllS(k, S, a), << >>)
       [] op = "new"         -> M(AddAllS(k, {}, a), << >>)
       [] op = "remove"      -> IF Has(k, S, x) THEN M(DelS(k, S, x), << x >>) ELSE Q(ERR)
       [] op = "removeIfAbsent" -> IF Has(k, S, x) THEN M(DelS(k, S, x), << x >>) ELSE Q(<< -1 >>)
       [] op = "removeAll"   -> LET z == RemAllS(k, S, a) IN IF z[1] THEN M(z[2], << >>) ELSE { [s |-> S, r |-> << >>, any |-> TRUE] }
       [] op = "removeAllIfAbsent" -> LET z == { y \in S : \A w \in Args : ~Eq(k, y, w) } IN M(z, << >>)
       [] op = "removeSuchThat" -> M({ y \in S : ~((y \div 2) % 3 = x) }, << >>)
       [] op = "empty"       -> M({}, << >>)
       [] op = "includes"    -> Q(<< B(Has(k, S, x)) >>)
       [] op = "identityIncludes" -> Q(<< B(x \in S) >>)
       [] op = "includesAll" -> { [s |-> S, r |-> << B(\A y \in Args : Has(k, S, y)), b >>] : b \in { B(\E y \in Args : Has(kk, S, y)) : kk \in {k, 1} } }
       [] op = "occurrencesOf" -> Q(<< B(Has(k, S, x)) >>)
       [] op = "size"        -> Q(<< Cardinality(S), B(S = {}), B(S # {}) >>)
       [] op = "anyOne"      -> IF S = {} THEN { [s |-> S, r |-> << >>, any |-> TRUE] } ELSE { [s |-> S, r |-> << y >>] : y \in S }
       [] op = "do"          -> Q(Asc(S))
       [] op = "select"      -> Q(Asc({ y \in S : EvenE(y) }))
       [] op = "reject"      -> Q(Asc({ y \in S : ~EvenE(y) }))
       [] op = "collect"     -> Q(Asc({ (y \div 2) % 3 : y \in S }))
       [] op = "detect"      -> LET T == { y \in S : y \div 2 > x } IN IF T = {} THEN Q(<< -1 >>) ELSE { [s |-> S, r |-> << y >>] : y \in T }
       [] op = "inject"      -> Q(<< SumSeq(Asc(S)) >>)
       [] op = "count"       -> Q(<< Cardinality({ y \in S : EvenE(y) }), B(\A y \in S : EvenE(y)), B(\E y \in S : EvenE(y)), B(\A y \in S : ~EvenE(y)) >>)
       [] op = "asArray"     -> Q(Asc(S))
       [] op = "asOC"        -> Q(Asc(S))
       [] op = "asBag"       -> Q(Asc(S))
       [] op = "asSet"       -> Q(Asc(S))
       [] op = "sortedV"     -> Q(LET q == Asc(S) IN SortedSeq([i \in 1..Len(q) |-> q[i] \div 2]))
       [] op = "copyWith"    -> Q(Asc(AddS(k, S, x)))
       [] op = "copyWithout" -> { [s |-> S, r |-> Asc(DelS(kk, S, x))] : kk \in {k, 1} }
       [] op = "equals"      -> LET T == AddAllS(k, {}, a)
                                IN Q(<< B(Cardinality(S) = Cardinality(T) /\ \A y \in S : Has(k, T, y)), 1 >>)
       [] op = "intersect"   -> LET T == { y \in S : \E w \in Args : Eq(k, y, w) }
                                IN Q([i \in 1..Cardinality(T) |-> Asc(T)[i] \div 2])
       [] op = "copyIndependent" -> Q(Asc(S))
       [] op = "deepCopySize" -> Q(<< Cardinality(S) >>)
       [] op = "rehash"      -> Q(<< >>)
       [] op = "addMany"     -> M(AddAllS(k, S, [i \in 1..a[2] |-> 2 * (x + (i - 1) * a[3])]), << >>)
       [] op = "removeMany"  -> M({ y \in S : ~\E i \in 1..a[2] : Eq(k, y, 2 * (x + (i - 1) * a[3])) }, << >>)

DoBag(k, q, op, a) ==
  LET Q(r) == { [s |-> q, r |-> r] }
      M(t, r) == { [s |-> t, r |-> r] }
      x == Norm(k, a[1])
      N == NormSeq(k, a)
  IN CASE op = "add"         -> M(SortedSeq(Append(q, x)), << a[1] >>)
       [] op = "addN"        -> M(SortedSeq(q \o Rep(a[2], x)), << a[1] >>)
       [] op = "addAll"      -> M(SortedSeq(q \o N), << >>)
       [] op = "new"         -> M(SortedSeq(N), << >>)
       [] op = "remove"      -> IF Count(q, x) > 0 THEN M(Remove1(q, x), << a[1] >>) ELSE Q(ERR)
       [] op = "removeIfAbsent" -> IF Count(q, x) > 0 THEN M(Remove1(q, x), << a[1] >>) ELSE Q(<< -1 >>)
       [] op = "removeAll"   -> LET z == RemAllB(q, N) IN IF z[1] THEN M(z[2], << >>) ELSE { [s |-> q, r |-> << >>, any |-> TRUE] }
       [] op = "empty"       -> M(<< >>, << >>)
       [] op = "includes"    -> Q(<< B(Count(q, x) > 0) >>)
       [] op = "includesAll" -> Q(<< B(\A i \in 1..Len(a) : Count(q, N[i]) > 0), B(\E i \in 1..Len(a) : Count(q, N[i]) > 0) >>)
       [] op = "occurrencesOf" -> Q(<< Count(q, x) >>)
       [] op = "size"        -> Q(<< Len(q), B(q = << >>), B(q # << >>) >>)
       [] op = "anyOne"      -> IF q = << >> THEN { [s |-> q, r |-> << >>, any |-> TRUE] } ELSE { [s |-> q, r |-> << y >>] : y \in {z \in UNION { {w, w + 1} : w \in Range(q)} : TRUE} }
       [] op = "do"          -> Q(q)
       [] op = "select"      -> Q(SelectSeq(q, EvenE))
       [] op = "reject"      -> Q(SelectSeq(q, LAMBDA y : ~EvenE(y)))
       [] op = "collect"     -> Q(SortedSeq([i \in 1..Len(q) |-> (q[i] \div 2) % 3]))
       [] op = "detect"      -> LET T == { y \in Range(q) : y \div 2 > a[1] } IN IF T = {} THEN Q(<< -1 >>) ELSE { [s |-> q, r |-> << y >>] : y \in T \cup { z + 1 : z \in T } }
       [] op = "count"       -> Q(<< Len(SelectSeq(q, EvenE)), B(\A y \in Range(q) : EvenE(y)), B(\E y \in Range(q) : EvenE(y)), B(\A y \in Range(q) : ~EvenE(y)) >>)
       [] op = "asArray"     -> Q(q)
       [] op = "asOC"        -> Q(q)
       [] op = "asBag"       -> Q(q)
       [] op = "asSet"       -> Q(Asc(Range(q)))
       [] op = "sortedV"     -> Q([i \in 1..Len(q) |-> q[i] \div 2])
       [] op = "copyWith"    -> Q(SortedSeq(Append(q, x)))
       [] op = "copyWithout" -> Q(SelectSeq(q, LAMBDA y : y # x))
       [] op = "equals"      -> Q(<< B(SortedSeq(N) = q), 1 >>)
       [] op = "copyIndependent" -> Q(q)
       [] op = "rehash"      -> Q(<< >>)
       [] op = "addMany"     -> M(SortedSeq(q \o [i \in 1..a[2] |-> 2 * (a[1] + (i - 1) * a[3])]), << >>)
       [] op = "sortedByCount" -> Q(LET S == Range(q)
                                     C == SortSeq([i \in 1..Cardinality(S) |-> Count(q, Asc(S)[i])], LAMBDA u, v : u > v) IN C)

DoDict(k, D, op, a) ==
  LET Q(r) == { [s |-> D, r |-> r] }
      M(T, r) == { [s |-> T, r |-> r] }
      x == a[1]
      has == HasK(k, D, x)
      val == AtK(k, D, x)
      ks == KeysOf(D)
  IN CASE op = "atPut"       -> M(PutK(k, D, x, a[2]), << a[2] >>)
       [] op = "addAssoc"    -> M(PutK(k, D, x, a[2]), << x, a[2] >>)
       [] op = "new"         -> M(PutAll(k, {}, a), << >>)
       [] op = "addAll"      -> M(PutAll(k, D, a), << >>)
       [] op = "at"          -> Q(IF has THEN << val >> ELSE ERR)
       [] op = "atIfAbsent"  -> Q(IF has THEN << val >> ELSE << -1 >>)
       [] op = "atIfAbsentPut" -> IF has THEN Q(<< val >>) ELSE M(PutK(k, D, x, a[2]), << a[2] >>)
       [] op = "atIfPresent" -> Q(IF has THEN << val + 100 >> ELSE << -9990 >>)
       [] op = "associationAt" -> Q(IF has THEN << Norm(k, x), val >> ELSE ERR)
       [] op = "includesKey" -> Q(<< B(has) >>)
       [] op = "includes"    -> Q(<< B(x \in ValuesOf(D)), Cardinality({ p \in D : p[2] = x }) >>)
       [] op = "includesAssoc" -> Q(<< B(<< Norm(k, x), a[2] >> \in D) >>)
       [] op = "keyAtValue"  -> LET T == { p[1] : p \in { q \in D : q[2] = x } } IN IF T = {} THEN Q(<< -9990 >>) ELSE { [s |-> D, r |-> << y >>] : y \in T }
       [] op = "keyAtValueIfAbsent" -> LET T == { p[1] : p \in { q \in D : q[2] = x } } IN IF T = {} THEN Q(<< -1 >>) ELSE { [s |-> D, r |-> << y >>] : y \in T }
       [] op = "removeKey"   -> IF has THEN M(DelK(k, D, x), << val >>) ELSE Q(ERR)
       [] op = "removeKeyIfAbsent" -> IF has THEN M(DelK(k, D, x), << val >>) ELSE Q(<< -1 >>)
       [] op = "removeAssoc" -> IF has THEN M(DelK(k, D, x), << >>) ELSE Q(ERR)
       [] op = "removeAllKeys" -> M(DelAll(k, D, a), << >>)
       [] op = "removeKeysSuchThat" -> M({ p \in D : (p[1] \div 2) % 3 # x }, << >>)
       [] op = "empty"       -> M({}, << >>)
       [] op = "size"        -> Q(<< Cardinality(D), B(D = {}), B(D # {}) >>)
       [] op = "anyOne"      -> IF D = {} THEN { [s |-> D, r |-> << >>, any |-> TRUE] } ELSE { [s |-> D, r |-> << y >>] : y \in ValuesOf(D) }
       [] op = "keys"        -> Q(KeySeq(D))
       [] op = "keysDo"      -> Q(KeySeq(D))
       [] op = "values"      -> Q(ValueSeq(D))
       [] op = "do"          -> Q(ValueSeq(D))
       [] op = "associations" -> Q(Flatten(D))
       [] op = "associationsDo" -> Q(Flatten(D))
       [] op = "select"      -> Q(Flatten({ p \in D : Even(p[2]) }))
       [] op = "reject"      -> Q(Flatten({ p \in D : ~Even(p[2]) }))
       [] op = "collect"     -> LET v == ValueSeq(D) IN Q(SortedSeq([i \in 1..Len(v) |-> v[i] % 5]))
       [] op = "detect"      -> LET T == { v \in ValuesOf(D) : v > x } IN IF T = {} THEN Q(<< -1 >>) ELSE { [s |-> D, r |-> << y >>] : y \in T }
       [] op = "inject"      -> Q(<< SumSeq(ValueSeq(D)) >>)
       [] op = "count"       -> Q(<< Cardinality({ p \in D : Even(p[2]) }), B(\A v \in ValuesOf(D) : Even(v)), B(\E v \in ValuesOf(D) : Even(v)), B(\A v \in ValuesOf(D) : ~Even(v)) >>)
       [] op = "asArray"     -> Q(ValueSeq(D))
       [] op = "asBag"       -> Q(ValueSeq(D))
       [] op = "asSet"       -> Q(Asc(ValuesOf(D)))
       [] op = "equals"      -> LET T == PutAll(k, {}, a) IN { [s |-> D, r |-> << B(T = D), h >>] : h \in IF k >= 7 THEN {0, 1} ELSE {1} }
       [] op = "copyIndependent" -> Q(Flatten(D))
       [] op = "rehash"      -> Q(<< >>)
       [] op = "addMany"     -> M(PutAll(k, D, Flat([i \in 1..a[2] |-> << 2 * (x + (i - 1) * a[3]), i >>])), << >>)
       [] op = "removeMany"  -> M(DelAll(k, D, [i \in 1..a[2] |-> 2 * (x + (i - 1) * a[3])]), << >>)

HashInit(k) == [k |-> k, s |-> IF IsBag(k) THEN << >> ELSE {}]
HashOutcomes(st, op, a) ==
  LET R == IF IsSet(st.k) THEN DoSet(st.k, st.s, op, a)
           ELSE IF IsBag(st.k) THEN DoBag(st.k, st.s, op, a) ELSE DoDict(st.k, st.s, op, a)
      Full(o) == LET n == [k |-> st.k, s |-> o.s] IN [st |-> n, r |-> o.r, c |-> Project(n)]
  IN { IF "any" \in DOMAIN o THEN Full(o) @@ [any |-> TRUE] ELSE Full(o) : o \in R }
=============================================================================
