------------------------------ MODULE MCBoolInt ------------------------------
(* BoolInt agrees with BoolFun.                                             *)
EXTENDS BoolInt, TLC
B == INSTANCE BoolFun
S(n, f) == B!FromInt(n, f)
SetOf(V) == {i \in 0..3 : (V \div P2[i]) % 2 = 1}
Two == \A f, g \in 0..15 : \A op \in B!BinOps :
         S(2, ApplyI(2, op, f, g)) = B!ApplyF(2, op, S(2, f), S(2, g))
Three == \A f, g, h \in 0..15 : S(2, IteI(2, f, g, h)) = B!IteF(2, S(2, f), S(2, g), S(2, h))
One == \A f \in 0..255 :
  /\ S(3, NotI(3, f)) = B!NotF(3, S(3, f))
  /\ CountI(f) = Cardinality(S(3, f))
  /\ SupportI(3, f) = B!Support(3, S(3, f))
  /\ \A i \in 0..2 : \A b \in 0..1 : S(3, CofI(3, f, i, b)) = B!CofF(3, S(3, f), i, b)
  /\ \A V \in 0..7 : S(3, ExistI(3, f, V)) = B!ExistF(3, S(3, f), SetOf(V))
Ren == \A f \in {1, 2, 37, 104, 150, 202, 232, 254} : \A a, b, c \in 0..2 :
  S(3, RenameI(3, f, <<a, b, c>>)) = B!RenameF(3, S(3, f), [i \in 0..2 |-> <<a, b, c>>[i+1]])
Four == \A f \in {0, 1, 65535, 1234, 43690, 52428, 61680, 65280, 27030, 4711} :
  /\ SupportI(4, f) = B!Support(4, S(4, f))
  /\ \A i \in 0..3 : \A b \in 0..1 : S(4, CofI(4, f, i, b)) = B!CofF(4, S(4, f), i, b)
  /\ \A g \in {0, 9, 65535, 33333, 21845} : \A op \in B!BinOps : S(4, ApplyI(4, op, f, g)) = B!ApplyF(4, op, S(4, f), S(4, g))
Cubes == \A p, n \in 0..7 : S(3, CubeI(3, p, n, 0)) = B!CubeF(3, SetOf(p), SetOf(n))
ASSUME Two /\ Three /\ One /\ Ren /\ Four /\ Cubes
VARIABLE x
Init == x = 0
Next == UNCHANGED x
==============================================================================
