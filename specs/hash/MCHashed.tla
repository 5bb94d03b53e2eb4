------------------------------ MODULE MCHashed ------------------------------
(* Every set, identity set, bag and map over N values with two copies each
   reachable with the mutators, and the laws relating the messages. *)
EXTENDS Hashed
CONSTANT N
E == 0..(2 * N - 1)
VARIABLE st
Init == \E k \in {1, 2, 3, 4, 6} : st = HashInit(k)
Small(s) == IF IsBag(s.k) THEN Len(s.s) <= N ELSE Cardinality(s.s) <= N
Ops == IF IsSet(st.k) THEN { << "add", <<x>> >> : x \in E } \cup { << "removeIfAbsent", <<x>> >> : x \in E }
       ELSE IF IsBag(st.k) THEN { << "add", <<x>> >> : x \in E } \cup { << "removeIfAbsent", <<x>> >> : x \in E }
       ELSE { << "atPut", <<x, v>> >> : x \in E, v \in {1, 2} } \cup { << "removeKeyIfAbsent", <<x>> >> : x \in E }
Next == \E o \in Ops : \E q \in HashOutcomes(st, o[1], o[2]) : st' = q.st /\ Small(q.st)
Spec == Init /\ [][Next]_st
R(op, a) == (CHOOSE o \in HashOutcomes(st, op, a) : TRUE).r
After(op, a) == (CHOOSE o \in HashOutcomes(st, op, a) : TRUE).st
In(s, op, a) == (CHOOSE o \in HashOutcomes(s, op, a) : TRUE).r
LawsSet == IsSet(st.k) =>
  /\ \A x, y \in st.s : x # y => ~Eq(st.k, x, y)
  /\ \A x \in E : /\ In(After("add", <<x>>), "includes", <<x>>) = <<1>>
                  /\ In(After("removeIfAbsent", <<x>>), "includes", <<x>>) = <<0>>
                  /\ After("add", <<x>>).s = IF R("includes", <<x>>) = <<1>> THEN st.s ELSE st.s \cup {x}
                  /\ R("size", << >>)[1] = In(After("add", <<x>>), "size", << >>)[1] - (1 - R("includes", <<x>>)[1])
  /\ R("equals", Project(st)) = <<1, 1>>
LawsBag == IsBag(st.k) =>
  /\ \A x \in E : /\ In(After("add", <<x>>), "occurrencesOf", <<x>>)[1] = R("occurrencesOf", <<x>>)[1] + 1
                  /\ After("add", <<x>>) = After("addN", <<x, 1>>)
                  /\ In(After("add", <<x>>), "size", << >>)[1] = R("size", << >>)[1] + 1
                  /\ (R("occurrencesOf", <<x>>)[1] > 0) = (R("includes", <<x>>)[1] = 1)
  /\ SumSeq(R("sortedByCount", << >>)) = R("size", << >>)[1]
LawsDict == IsDict(st.k) =>
  /\ Cardinality(KeysOf(st.s)) = Cardinality(st.s)
  /\ \A x \in E : /\ In(After("atPut", <<x, 2>>), "at", <<x>>) = <<2>>
                  /\ In(After("removeKeyIfAbsent", <<x>>), "at", <<x>>) = ERR
                  /\ \A y \in E : ~Eq(st.k, x, y) => /\ In(After("atPut", <<x, 2>>), "at", <<y>>) = R("at", <<y>>)
                                                     /\ In(After("removeKeyIfAbsent", <<x>>), "at", <<y>>) = R("at", <<y>>)
  /\ R("equals", Project(st)) = <<1, 1>>
  /\ \A v \in {1, 2} : R("includes", <<v>>)[2] = Cardinality({ o.r : o \in HashOutcomes(st, "keyAtValueIfAbsent", <<v>>) } \ {<<-1>>})
Laws == LawsSet /\ LawsBag /\ LawsDict
=============================================================================
