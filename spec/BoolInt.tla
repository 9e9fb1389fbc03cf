------------------------------- MODULE BoolInt -------------------------------
(***************************************************************************)
(* Boolean functions of n <= 4 variables coded as natural numbers (bit m   *)
(* set iff assignment m satisfies the function), for exhaustive tables.    *)
(* MCBoolInt checks that these operators agree with those of BoolFun.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

P2 == [i \in 0..30 |-> 2^i]
Full(n) == P2[P2[n]] - 1                       \* n <= 4
NotI(n, f) == Full(n) - f

ApplyI(n, op, f, g) ==
  CASE op = "and" -> f & g
    [] op = "xor" -> f ^^ g
    [] op = "or" -> f | g
    [] op = "nand" -> Full(n) - (f & g)
    [] op = "nor" -> Full(n) - (f | g)
    [] op = "imp" -> (Full(n) - f) | g
    [] op = "biimp" -> Full(n) - (f ^^ g)
    [] op = "diff" -> f & (Full(n) - g)
    [] op = "less" -> (Full(n) - f) & g
    [] op = "invimp" -> f | (Full(n) - g)

IteI(n, f, g, h) == (f & g) | ((Full(n) - f) & h)

RECURSIVE MaskSum(_, _, _)
MaskSum(n, i, m) == IF m = P2[n] THEN 0
                    ELSE (IF (m \div P2[i]) % 2 = 1 THEN P2[m] ELSE 0) + MaskSum(n, i, m + 1)
VarTable == [n \in 0..4 |-> [i \in 0..3 |-> IF i < n THEN MaskSum(n, i, 0) ELSE 0]]
VarI(n, i) == VarTable[n][i]                   \* the function of variable i

(* cofactors: b = 0 or 1 *)
CofI(n, f, i, b) ==
  LET v == VarI(n, i) IN
  IF b = 1 THEN LET h == f & v IN h | (h \div P2[P2[i]])
  ELSE LET l == f & (Full(n) - v) IN l | (l * P2[P2[i]])
DependsI(n, f, i) == CofI(n, f, i, 0) # CofI(n, f, i, 1)
SupportI(n, f) == {i \in 0..(n-1) : DependsI(n, f, i)}
TopI(n, f) == CHOOSE i \in SupportI(n, f) : \A j \in SupportI(n, f) : i <= j

(* variable sets are coded as natural numbers too: bit i set iff i is in   *)
RECURSIVE ExI(_, _, _, _)
ExI(n, f, V, i) ==
  IF i = n THEN f
  ELSE ExI(n, IF (V \div P2[i]) % 2 = 1 THEN CofI(n, f, i, 0) | CofI(n, f, i, 1) ELSE f, V, i + 1)
ExistI(n, f, V) == ExI(n, f, V, 0)

(* renaming; img is a sequence, the image of i at i+1 *)
RECURSIVE PullI(_, _, _), RenI(_, _, _, _)
PullI(img, m, k) == IF k = 0 THEN 0 ELSE ((m \div P2[img[k]]) % 2) * P2[k-1] + PullI(img, m, k-1)
RenI(n, f, img, m) == IF m = P2[n] THEN 0
                      ELSE (IF (f \div P2[PullI(img, m, n)]) % 2 = 1 THEN P2[m] ELSE 0) + RenI(n, f, img, m + 1)
RenameI(n, f, img) == RenI(n, f, img, 0)

RECURSIVE CountI(_)
CountI(f) == IF f = 0 THEN 0 ELSE (f % 2) + CountI(f \div 2)

(* conjunction of literals *)
RECURSIVE CubeI(_, _, _, _)
CubeI(n, pos, neg, i) ==
  IF i = n THEN Full(n)
  ELSE LET r == CubeI(n, pos, neg, i + 1)
           a == IF (pos \div P2[i]) % 2 = 1 THEN r & VarI(n, i) ELSE r
       IN IF (neg \div P2[i]) % 2 = 1 THEN a & (Full(n) - VarI(n, i)) ELSE a
==============================================================================
