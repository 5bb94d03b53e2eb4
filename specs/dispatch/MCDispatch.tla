----------------------------- MODULE MCDispatch ------------------------------
(* Every short history of three classes and three selectors, with the laws of
   lookup. *)
EXTENDS Dispatch
CONSTANT Depth
VARIABLES st, d
C == {1, 2, 4}
S == {1, 4, 7}
Alphabet ==
  { <<"def", <<c, 0, s, k, 10 * c + s>>>> : c \in C, s \in S, k \in {1, 2, 3} } \cup
  { <<"rem", <<c, 0, s>>>> : c \in C, s \in S } \cup
  { <<"super", <<c, e>>>> : c \in C, e \in C \cup {0} } \cup
  { <<"cc", <<1, c>>>> : c \in C }
Init == st = DispInit /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E x \in Alphabet : \E o \in DispOutcomes(st, x[1], x[2]) : st' = o.st
Spec == Init /\ [][Next]_<<st, d>>

Args(s) == [j \in 1..Arity(s) |-> 5]
Ask(q, op, a) == (CHOOSE o \in DispOutcomes(q, op, a) : TRUE)
Send(q, i, s) == Ask(q, "send", <<1, i, s>> \o Args(s))

Laws ==
  \* the hierarchy has no cycles
  /\ \A c \in C : ~(st.sup[c] # 0 /\ Under(st.sup, st.sup[c], c))
  /\ \A c \in C, s \in S :
       LET w == Find(st, c, 0, s) IN
       \* what is found is defined there and nowhere nearer
       /\ w # 0 => <<w, 0, s>> \in DOMAIN st.m /\ Under(st.sup, c, w)
       /\ \A e \in C : Under(st.sup, c, e) /\ e # w /\ <<e, 0, s>> \in DOMAIN st.m => w # 0 /\ Under(st.sup, w, e)
       /\ (w = c) = (Ask(st, "includes", <<c, 0, s>>).r = <<1>>)
       \* defining in a class makes it answer; removing gives back what is inherited
       /\ LET q == Ask(st, "def", <<c, 0, s, 1, 99>>).st IN
          /\ Find(q, c, 0, s) = c
          /\ \A i \in 1..4 : st.i[i] = c => Send(q, i, s).r = <<99>> \o Args(s)
          \* and nothing outside the subtree changes
          /\ \A e \in C : ~Under(st.sup, e, c) => Find(q, e, 0, s) = Find(st, e, 0, s)
       /\ LET q == Ask(st, "rem", <<c, 0, s>>).st IN
          Find(q, c, 0, s) = IF st.sup[c] = 0 THEN 0 ELSE Find(st, st.sup[c], 0, s)
  \* a message sees only the class of its receiver at the time of the send
  /\ \A i \in 1..4, j \in 1..4, s \in S : st.i[i] = st.i[j] => Send(st, i, s).r = Send(st, j, s).r
  /\ \A i \in 1..4, s \in S : Send(st, i, s).st = st
=============================================================================
