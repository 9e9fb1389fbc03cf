------------------------------- MODULE BoolFun -------------------------------
(***************************************************************************)
(* Boolean functions over n variables, the mathematical objects denoted by *)
(* BDD nodes.  Variables are 0..n-1.  An assignment is a natural number m  *)
(* in 0..2^n-1: variable i is true in m iff bit i of m is set.  A function *)
(* is the set of assignments that satisfy it.                              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

Pow2 == [i \in 0..30 |-> 2^i]

U(n) == 0..(Pow2[n] - 1)                       \* all the assignments
Vars(n) == 0..(n - 1)
Bit(m, i) == (m \div Pow2[i]) % 2
Tr(m, i) == Bit(m, i) = 1
Flip(m, i) == IF Tr(m, i) THEN m - Pow2[i] ELSE m + Pow2[i]
SetTo(m, i, b) == IF Bit(m, i) = b THEN m ELSE Flip(m, i)

FalseF == {}
TrueF(n) == U(n)
VarF(n, i) == {m \in U(n) : Tr(m, i)}
LitF(n, i, pol) == {m \in U(n) : Tr(m, i) = pol}
NotF(n, f) == U(n) \ f

(* The truth tables of the documentation of Apply, at [00, 01, 10, 11].    *)
TruthTable ==
  [ and    |-> <<0,0,0,1>>, xor  |-> <<0,1,1,0>>, or    |-> <<0,1,1,1>>,
    nand   |-> <<1,1,1,0>>, nor  |-> <<1,0,0,0>>, imp   |-> <<1,1,0,1>>,
    biimp  |-> <<1,0,0,1>>, diff |-> <<0,0,1,0>>, less  |-> <<0,1,0,0>>,
    invimp |-> <<1,0,1,1>> ]
BinOps == DOMAIN TruthTable
AppExOps == {"and", "xor", "or", "nand"}

Row(b, c) == (IF b THEN 2 ELSE 0) + (IF c THEN 1 ELSE 0) + 1
ApplyF(n, op, f, g) == {m \in U(n) : TruthTable[op][Row(m \in f, m \in g)] = 1}
IteF(n, f, g, h) == {m \in U(n) : IF m \in f THEN m \in g ELSE m \in h}

RECURSIVE AndAllF(_, _), OrAllF(_, _)
AndAllF(n, fs) == IF fs = <<>> THEN U(n) ELSE Head(fs) \cap AndAllF(n, Tail(fs))
OrAllF(n, fs)  == IF fs = <<>> THEN {} ELSE Head(fs) \cup OrAllF(n, Tail(fs))

(* Existential quantification: definition, and the faster form used on     *)
(* traces (their equality is checked in MCBoolFun).                        *)
ExistDef(n, f, V) ==
  {m \in U(n) : \E k \in f : \A i \in Vars(n) : i \in V \/ Bit(k, i) = Bit(m, i)}
RECURSIVE ExistF(_, _, _)
ExistF(n, f, V) ==
  IF V = {} THEN f
  ELSE LET i == CHOOSE j \in V : TRUE
       IN ExistF(n, f \cup {Flip(m, i) : m \in f}, V \ {i})

AppExF(n, op, f, g, V) == ExistF(n, ApplyF(n, op, f, g), V)

(* Cofactors, support                                                      *)
CofF(n, f, i, b) == {m \in U(n) : SetTo(m, i, b) \in f}
DependsOn(n, f, i) == \E m \in f : Flip(m, i) \notin f
Support(n, f) == {i \in Vars(n) : DependsOn(n, f, i)}
Top(n, f) == CHOOSE i \in Support(n, f) : \A j \in Support(n, f) : i <= j

(* Simultaneous renaming: img[v] is the variable that replaces v.          *)
RECURSIVE Pull(_, _, _)
Pull(img, m, k) ==                 \* the assignment that gives v the value of img[v] in m
  IF k = 0 THEN 0 ELSE Bit(m, img[k-1]) * Pow2[k-1] + Pull(img, m, k-1)
RenameF(n, f, img) == {m \in U(n) : Pull(img, m, n) \in f}

(* Cubes: a variable set is the conjunction of its variables.              *)
CubeF(n, pos, neg) == {m \in U(n) : (\A i \in pos : Tr(m, i)) /\ (\A i \in neg : ~Tr(m, i))}
SetF(n, V) == CubeF(n, V, {})
(* The variables of a node built by Makeset; {} for constants.             *)
VarsOf(n, f) == IF f = {} THEN {} ELSE Support(n, f)

(* A cube as passed to the callback of Allsat: a sequence of -1, 0, 1.     *)
CubeOf(n, c) == CubeF(n, {i \in Vars(n) : c[i+1] = 1}, {i \in Vars(n) : c[i+1] = 0})

(* A function from the truth value of its assignments in increasing order  *)
(* coded as a natural number (used for small n only).                      *)
FromInt(n, k) == {m \in U(n) : Bit(k, m) = 1}
==============================================================================
