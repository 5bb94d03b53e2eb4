-------------------------------- MODULE Seqs --------------------------------
(* Sequenceable collections as finite sequences.
   The abstract state is [k |-> kind, s |-> contents]; kinds:
     1 OrderedCollection  2 Array  3 RunArray  4 ByteArray  5 String
     6 Interval (immutable)
   Do(st, op, a) is the deterministic effect of a message: the new contents,
   the answer, and (ERR) a refused message that leaves the receiver alone. *)
EXTENDS Integers, Sequences, FiniteSets

ERR == << -9999 >>
NIL == -9990

Extensible(k) == k \in {1, 3}
Mutable(k)    == k # 6

(* ---- operators on sequences ------------------------------------------- *)
Sub(s, i, j)      == IF j < i THEN << >> ELSE SubSeq(s, i, j)
RECURSIVE Concat(_)
Concat(ss)        == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Rev(s)            == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, x)         == [i \in 1..n |-> x]
SetMin(S)         == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S)         == CHOOSE x \in S : \A y \in S : x >= y
Positions(s, x)   == { i \in 1..Len(s) : s[i] = x }
IndexFrom(s, x, f)== LET P == { i \in Positions(s, x) : i >= f } IN IF P = {} THEN 0 ELSE SetMin(P)
IndexOf(s, x)     == IndexFrom(s, x, 1)
LastIndexOf(s, x) == LET P == Positions(s, x) IN IF P = {} THEN 0 ELSE SetMax(P)
RemoveAt(s, i)    == Sub(s, 1, i - 1) \o Sub(s, i + 1, Len(s))
InsertAfter(s, i, t) == Sub(s, 1, i) \o t \o Sub(s, i + 1, Len(s))
Matches(s, t, i)  == i >= 1 /\ i + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : s[i + j - 1] = t[j]
SubIndex(s, t, f) == LET P == { i \in f..Len(s) : Matches(s, t, i) } IN IF P = {} THEN 0 ELSE SetMin(P)
RECURSIVE ReplaceAllSub(_, _, _)
ReplaceAllSub(s, old, new) ==
  LET i == SubIndex(s, old, 1)
  IN IF i = 0 THEN s
     ELSE Sub(s, 1, i - 1) \o new \o ReplaceAllSub(Sub(s, i + Len(old), Len(s)), old, new)
RECURSIVE CountSub(_, _)
CountSub(s, t) == LET i == SubIndex(s, t, 1)
                  IN IF i = 0 THEN 0 ELSE 1 + CountSub(Sub(s, i + Len(t), Len(s)), t)
RECURSIVE FoldL(_, _, _)
FoldL(F(_, _), acc, s) == IF s = << >> THEN acc ELSE FoldL(F, F(acc, Head(s)), Tail(s))
Select(s, T(_))   == SelectSeq(s, T)
RECURSIVE Interleave(_, _)
Interleave(s, sep) == IF Len(s) <= 1 THEN s ELSE << Head(s), sep >> \o Interleave(Tail(s), sep)
RECURSIVE Pairs(_, _)
Pairs(s, t) == IF s = << >> THEN << >> ELSE << Head(s), Head(t) >> \o Pairs(Tail(s), Tail(t))
Indexed(s)  == Concat([i \in 1..Len(s) |-> << i, s[i] >>])
RECURSIVE InsertSorted(_, _)
InsertSorted(s, x) == IF s = << >> THEN << x >>
                      ELSE IF x < Head(s) THEN << x >> \o s ELSE << Head(s) >> \o InsertSorted(Tail(s), x)
Sort(s) == FoldL(InsertSorted, << >>, s)
B(p) == IF p THEN << 1 >> ELSE << 0 >>
OrErr(i, v) == IF i THEN v ELSE ERR
Mod3(x) == x % 3
IsEven(x) == x % 2 = 0
RECURSIVE RemoveFirsts(_, _)
(* removeAll: t — one occurrence of each; answers <<ok, rest>> and stops at
   the first element that is missing. *)
RemoveFirsts(s, t) == IF t = << >> THEN << 1, s >>
                      ELSE LET i == IndexOf(s, Head(t))
                           IN IF i = 0 THEN << 0, s >> ELSE RemoveFirsts(RemoveAt(s, i), Tail(t))

(* ---- messages ----------------------------------------------------------- *)
Do(st, op, a) ==
  LET s == st.s
      n == Len(s)
      A(i) == a[i]
      rest(i) == Sub(a, i, Len(a))           \* a collection argument
      Q(r) == [s |-> s, r |-> r]             \* a query
      M(t, r) == [s |-> t, r |-> r]          \* a change
      E == Q(ERR)
      In(i) == i \in 1..n
      Free == [s |-> s, r |-> << >>, any |-> TRUE]
      Span(i, j) == i >= 1 /\ j >= i - 1 /\ j <= n
  IN CASE
     op = "new"          -> M(a, <<Len(a)>>)
  [] op = "newInterval"  -> LET m == IF A(3) > 0 THEN (IF A(2) < A(1) THEN 0 ELSE (A(2) - A(1)) \div A(3) + 1)
                                     ELSE (IF A(2) > A(1) THEN 0 ELSE (A(1) - A(2)) \div (-A(3)) + 1)
                            IN M([i \in 1..m |-> A(1) + (i - 1) * A(3)], <<m>>)
  [] op = "at"           -> Q(IF In(A(1)) THEN <<s[A(1)]>> ELSE ERR)
  [] op = "atIfAbsent"   -> Q(IF In(A(1)) THEN <<s[A(1)]>> ELSE <<0>>)
  [] op = "atPut"        -> IF In(A(1)) THEN M([s EXCEPT ![A(1)] = A(2)], <<A(2)>>) ELSE E
  [] op = "size"         -> Q(<<n>>)
  [] op = "isEmpty"      -> Q(<<IF n = 0 THEN 1 ELSE 0, IF n # 0 THEN 1 ELSE 0>>)
  [] op = "first"        -> Q(IF n = 0 THEN ERR ELSE <<s[1]>>)
  [] op = "last"         -> Q(IF n = 0 THEN ERR ELSE <<s[n]>>)
  [] op = "anyOne"       -> Q(IF n = 0 THEN ERR ELSE <<s[1]>>)
  [] op = "second"       -> Q(IF n < 2 THEN ERR ELSE <<s[2]>>)
  [] op = "indexOf"      -> Q(<<IndexOf(s, A(1)), IF IndexOf(s, A(1)) = 0 THEN -1 ELSE IndexOf(s, A(1))>>)
  [] op = "indexOfFrom"  -> IF A(2) \in 1..(n + 1) THEN Q(<<IndexFrom(s, A(1), A(2))>>) ELSE Free
  [] op = "indexOfLast"  -> Q(<<LastIndexOf(s, A(1))>>)
  [] op = "includes"     -> Q(<<IF A(1) \in {s[i] : i \in 1..n} THEN 1 ELSE 0,
                                Cardinality(Positions(s, A(1)))>>)
  [] op = "includesAll"  -> Q(<<IF \A x \in {a[i] : i \in 1..Len(a)} : Positions(s, x) # {} THEN 1 ELSE 0,
                                IF \E x \in {a[i] : i \in 1..Len(a)} : Positions(s, x) # {} THEN 1 ELSE 0>>)
  [] op = "after"        -> LET i == IndexOf(s, A(1)) IN Q(IF i = 0 \/ i = n THEN ERR ELSE <<s[i + 1]>>)
  [] op = "before"       -> LET i == IndexOf(s, A(1)) IN Q(IF i <= 1 THEN ERR ELSE <<s[i - 1]>>)
  [] op = "copyFromTo"   -> IF A(2) = A(1) - 1 /\ ~Span(A(1), A(2)) THEN Free
                            ELSE Q(IF Span(A(1), A(2)) THEN Sub(s, A(1), A(2)) ELSE ERR)
  [] op = "copyFrom"     -> Q(IF A(1) >= 1 /\ A(1) <= n + 1 THEN Sub(s, A(1), n) ELSE ERR)
  [] op = "allButFirst"  -> Q(IF A(1) <= n THEN Sub(s, A(1) + 1, n) ELSE ERR)
  [] op = "allButLast"   -> Q(IF A(1) <= n THEN Sub(s, 1, n - A(1)) ELSE ERR)
  [] op = "firstN"       -> Q(IF A(1) <= n THEN Sub(s, 1, A(1)) ELSE ERR)
  [] op = "lastN"        -> Q(IF A(1) <= n THEN Sub(s, n - A(1) + 1, n) ELSE ERR)
  [] op = "copyAfter"    -> LET i == IndexOf(s, A(1)) IN Q(IF i = 0 THEN << >> ELSE Sub(s, i + 1, n))
  [] op = "copyAfterLast"-> LET i == LastIndexOf(s, A(1)) IN Q(IF i = 0 THEN << >> ELSE Sub(s, i + 1, n))
  [] op = "copyUpTo"     -> LET i == IndexOf(s, A(1)) IN Q(IF i = 0 THEN s ELSE Sub(s, 1, i - 1))
  [] op = "copyUpToLast" -> LET i == LastIndexOf(s, A(1)) IN Q(IF i = 0 THEN s ELSE Sub(s, 1, i - 1))
  [] op = "copyWith"     -> Q(Append(s, A(1)))
  [] op = "copyWithFirst"-> Q(<<A(1)>> \o s)
  [] op = "copyWithout"  -> Q(Select(s, LAMBDA x : x # A(1)))
  [] op = "copyReplacing"-> Q([i \in 1..n |-> IF s[i] = A(1) THEN A(2) ELSE s[i]])
  [] op = "concat"       -> Q(s \o a)
  [] op = "copyReplaceAll" -> LET old == SubSeq(a, 2, A(1) + 1) new == rest(A(1) + 2)
                              IN Q(ReplaceAllSub(s, old, new))
  [] op = "copyReplaceFromTo" ->
        IF A(1) \in 1..(n + 1) /\ A(2) \in (A(1) - 1)..n
        THEN Q(Sub(s, 1, A(1) - 1) \o rest(3) \o Sub(s, A(2) + 1, n)) ELSE Free
  [] op = "copyReplaceFromToWithObject" ->
        IF A(1) \in 1..(n + 1) /\ A(2) \in (A(1) - 1)..n
        THEN Q(Sub(s, 1, A(1) - 1) \o Rep(IF A(2) < A(1) THEN 1 ELSE A(2) - A(1) + 1, A(3)) \o Sub(s, A(2) + 1, n)) ELSE Free
  [] op = "indexOfSub"   -> Q(<<SubIndex(s, rest(2), A(1))>>)
  [] op = "countSub"     -> Q(<<CountSub(s, a)>>)
  [] op = "startsWith"   -> Q(B(Len(a) <= n /\ Sub(s, 1, Len(a)) = a))
  [] op = "endsWith"     -> Q(B(Len(a) <= n /\ Sub(s, n - Len(a) + 1, n) = a))
  [] op = "equals"       -> Q(<<IF s = a THEN 1 ELSE 0, 1>>)
  [] op = "reverse"      -> Q(Rev(s))
  [] op = "do"           -> Q(s)
  [] op = "reverseDo"    -> Q(Rev(s))
  [] op = "doSeparatedBy"-> Q(Interleave(s, -7))
  [] op = "doWithIndex"  -> Q(Indexed(s))
  [] op = "keysAndValuesDo" -> Q(Indexed(s))
  [] op = "fromToDo"     -> IF Span(A(1), A(2)) THEN Q(Sub(s, A(1), A(2))) ELSE Free
  [] op = "withDo"       -> IF Len(a) = n THEN Q(Pairs(s, a)) ELSE E
  [] op = "withCollect"  -> IF Len(a) = n THEN Q([i \in 1..n |-> (s[i] + a[i]) % 100]) ELSE E
  [] op = "select"       -> Q(Select(s, IsEven))
  [] op = "reject"       -> Q(Select(s, LAMBDA x : ~IsEven(x)))
  [] op = "collect"      -> Q([i \in 1..n |-> (s[i] * 2) % 100])
  [] op = "detect"       -> LET t == Select(s, LAMBDA x : x > A(1)) IN Q(IF t = << >> THEN <<NIL>> ELSE <<t[1]>>)
  [] op = "detectFail"   -> LET t == Select(s, LAMBDA x : x > A(1)) IN Q(IF t = << >> THEN ERR ELSE <<t[1]>>)
  [] op = "inject"       -> Q(<<FoldL(LAMBDA x, y : (x * 7 + y) % 9973, 1, s)>>)
  [] op = "fold"         -> Q(IF n = 0 THEN ERR ELSE <<FoldL(LAMBDA x, y : (x * 7 + y) % 97, s[1], Tail(s))>>)
  [] op = "count"        -> Q(<<Len(Select(s, IsEven)),
                                IF \A i \in 1..n : IsEven(s[i]) THEN 1 ELSE 0,
                                IF \E i \in 1..n : IsEven(s[i]) THEN 1 ELSE 0,
                                IF \A i \in 1..n : ~IsEven(s[i]) THEN 1 ELSE 0>>)
  [] op = "findFirst"    -> LET P == {i \in 1..n : s[i] > A(1)} IN Q(<<IF P = {} THEN 0 ELSE SetMin(P)>>)
  [] op = "findLast"     -> LET P == {i \in 1..n : s[i] > A(1)} IN Q(<<IF P = {} THEN 0 ELSE SetMax(P)>>)
  [] op = "atAll"        -> IF \A i \in 1..Len(a) : In(a[i]) THEN Q([i \in 1..Len(a) |-> s[a[i]]]) ELSE E
  [] op = "keys"         -> Q([i \in 1..n |-> i])
  [] op = "asArray"      -> Q(s)
  [] op = "asOC"         -> Q(s)
  [] op = "asBag"        -> Q(Sort(s))
  [] op = "readStream"   -> Q(s)
  [] op = "copyIndependent" -> Q(s)
  [] op = "sorted"       -> Q(Sort(s))
  [] op = "sortedBy"     -> Q(Rev(Sort(s)))
  [] op = "join"         -> Q(IF n = 0 THEN << >> ELSE Concat([i \in 1..n |-> IF i = n THEN <<s[i]>> ELSE <<s[i]>> \o a]))
  [] op = "gather"       -> Q(Concat([i \in 1..n |-> <<s[i], s[i]>>]))
  \* in place, any mutable kind
  [] op = "sort"         -> M(Sort(s), << >>)
  [] op = "sortBy"       -> M(Rev(Sort(s)), << >>)
  [] op = "swap"         -> IF In(A(1)) /\ In(A(2))
                            THEN M([s EXCEPT ![A(1)] = s[A(2)], ![A(2)] = s[A(1)]], << >>) ELSE E
  [] op = "atAllPut"     -> M(Rep(n, A(1)), << >>)
  [] op = "atAllPutKeys" -> IF \E j \in 2..Len(a) : ~In(a[j]) THEN Free ELSE
                            M([i \in 1..n |-> IF i \in {a[j] : j \in 2..Len(a)} THEN A(1) ELSE s[i]], << >>)
  [] op = "replaceAll"   -> M([i \in 1..n |-> IF s[i] = A(1) THEN A(2) ELSE s[i]], << >>)
  [] op = "replaceFromToWithObject" ->
        IF ~Span(A(1), A(2)) THEN Free ELSE
        M([i \in 1..n |-> IF i \in A(1)..A(2) THEN A(3) ELSE s[i]], << >>)
  [] op = "replaceFromToWith" ->       \* the replacement fits exactly
        IF ~Span(A(1), A(2)) \/ Len(a) # 2 + A(2) - A(1) + 1 THEN Free ELSE
        M([i \in 1..n |-> IF i \in A(1)..A(2) THEN a[2 + i - A(1) + 1] ELSE s[i]], << >>)
  [] op = "replaceFromToWithStart" ->  \* start stop repStart replacement
        IF ~Span(A(1), A(2)) \/ Len(a) < 3 + A(3) + A(2) - A(1) THEN Free ELSE
        M([i \in 1..n |-> IF i \in A(1)..A(2) THEN a[3 + A(3) + i - A(1)] ELSE s[i]], << >>)
  [] op = "replaceFromSelf" ->         \* overlapping move inside the receiver
        IF ~Span(A(1), A(2)) \/ ~Span(A(3), A(3) + A(2) - A(1)) THEN Free ELSE
        M([i \in 1..n |-> IF i \in A(1)..A(2) THEN s[A(3) + i - A(1)] ELSE s[i]], << >>)
  \* extensible kinds
  [] op = "add"          -> M(Append(s, A(1)), <<A(1)>>)
  [] op = "addLast"      -> M(Append(s, A(1)), <<A(1)>>)
  [] op = "addFirst"     -> M(<<A(1)>> \o s, <<A(1)>>)
  [] op = "addAll"       -> M(s \o a, a)
  [] op = "addAllLast"   -> M(s \o a, a)
  [] op = "addAllFirst"  -> M(a \o s, a)
  [] op = "addAfterIndex"  -> IF A(2) \in 0..n THEN M(InsertAfter(s, A(2), <<A(1)>>), <<A(1)>>) ELSE E
  [] op = "addBeforeIndex" -> IF A(2) \in 1..(n + 1) THEN M(InsertAfter(s, A(2) - 1, <<A(1)>>), <<A(1)>>) ELSE E
  [] op = "addAfter"     -> LET i == IndexOf(s, A(2)) IN IF i = 0 THEN E ELSE M(InsertAfter(s, i, <<A(1)>>), <<A(1)>>)
  [] op = "addBefore"    -> LET i == IndexOf(s, A(2)) IN IF i = 0 THEN E ELSE M(InsertAfter(s, i - 1, <<A(1)>>), <<A(1)>>)
  [] op = "addAllAfterIndex"  -> IF A(1) \in 0..n THEN M(InsertAfter(s, A(1), rest(2)), rest(2)) ELSE E
  [] op = "addAllBeforeIndex" -> IF A(1) \in 1..(n + 1) THEN M(InsertAfter(s, A(1) - 1, rest(2)), rest(2)) ELSE E
  [] op = "addAllAfter"  -> LET i == IndexOf(s, A(1)) IN IF i = 0 THEN E ELSE M(InsertAfter(s, i, rest(2)), rest(2))
  [] op = "addAllBefore" -> LET i == IndexOf(s, A(1)) IN IF i = 0 THEN E ELSE M(InsertAfter(s, i - 1, rest(2)), rest(2))
  [] op = "removeFirst"  -> IF n = 0 THEN E ELSE M(Tail(s), <<s[1]>>)
  [] op = "removeLast"   -> IF n = 0 THEN E ELSE M(Sub(s, 1, n - 1), <<s[n]>>)
  [] op = "removeAtIndex"-> IF In(A(1)) THEN M(RemoveAt(s, A(1)), <<s[A(1)]>>) ELSE E
  [] op = "removeIndex"  -> IF In(A(1)) THEN M(RemoveAt(s, A(1)), <<s[A(1)]>>) ELSE E
  [] op = "remove"       -> LET i == IndexOf(s, A(1)) IN IF i = 0 THEN E ELSE M(RemoveAt(s, i), <<A(1)>>)
  [] op = "identityRemove" -> LET i == IndexOf(s, A(1)) IN IF i = 0 THEN E ELSE M(RemoveAt(s, i), <<A(1)>>)
  [] op = "removeIfAbsent" -> LET i == IndexOf(s, A(1)) IN IF i = 0 THEN Q(<<-1>>) ELSE M(RemoveAt(s, i), <<A(1)>>)
  [] op = "removeAll"    -> LET r == RemoveFirsts(s, a) IN IF r[1] = 1 THEN M(r[2], << >>) ELSE M(r[2], ERR)
  [] op = "removeAllSuchThat" -> M(Select(s, LAMBDA x : x % 3 # A(1)), << >>)
  [] op = "removeAtAll"  -> M(<< >>, << >>)
  [] op = "addMany"      -> M(s \o [i \in 1..A(1) |-> i % 5], << >>)
  [] op = "addManyFirst" -> M(Rev([i \in 1..A(1) |-> i % 5]) \o s, << >>)

SeqInit(k, s) == [k |-> k, s |-> s]
SeqOutcomes(st, op, a) ==
  LET o == Do(st, op, a) IN
  IF "any" \in DOMAIN o THEN { [any |-> TRUE] } ELSE { [st |-> [st EXCEPT !.s = o.s], r |-> o.r, c |-> o.s] }
=============================================================================
