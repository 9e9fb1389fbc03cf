------------------------------- MODULE DeepFun -------------------------------
(***************************************************************************)
(* Cubes, clauses and parities over any number of variables: see TraceDeep *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Rec(k, p, n) == [k |-> k, p |-> p, n |-> n]
TrueD == Rec("cube", {}, {})
FalseD == Rec("clause", {}, {})
NoneD == Rec("none", {}, {})                       \* not in the family
(* One form for each function: cubes for literals.                         *)
ClauseD(p, n) == IF p \cap n # {} THEN TrueD
                 ELSE IF Cardinality(p) + Cardinality(n) = 1 THEN Rec("cube", p, n) ELSE Rec("clause", p, n)
CubeD(p, n) == IF p \cap n # {} THEN FalseD ELSE Rec("cube", p, n)
ParityD(s, b) == IF s = {} THEN (IF b THEN TrueD ELSE FalseD)
                 ELSE IF Cardinality(s) = 1 THEN (IF b THEN Rec("cube", {}, s) ELSE Rec("cube", s, {}))
                 ELSE Rec("parity", s, IF b THEN {0} ELSE {})
LitD(i, pol) == IF pol THEN Rec("cube", {i}, {}) ELSE Rec("cube", {}, {i})

IsConst(f) == f \in {TrueD, FalseD}
IsLit(f) == f.k = "cube" /\ Cardinality(f.p) + Cardinality(f.n) = 1
SupportD(f) == IF f.k = "parity" THEN f.p ELSE f.p \cup f.n
TopD(f) == Min(SupportD(f))

NotD(f) == CASE f.k = "none" -> f
             [] f.k = "cube" -> ClauseD(f.n, f.p)
             [] f.k = "clause" -> CubeD(f.n, f.p)
             [] f.k = "parity" -> ParityD(f.p, f.n = {})

CC(c, d) == \* cube and clause
  IF d.p \cap c.p # {} \/ d.n \cap c.n # {} THEN c
  ELSE IF d.p \subseteq c.n /\ d.n \subseteq c.p THEN FalseD
  ELSE LET p == d.p \ c.n
           n == d.n \ c.p IN
       IF Cardinality(p) + Cardinality(n) = 1 THEN CubeD(c.p \cup p, c.n \cup n) ELSE NoneD
AndD(f, g) ==
  CASE f = g -> f
    [] f = FalseD \/ g = FalseD -> FalseD
    [] f = TrueD -> g
    [] g = TrueD -> f
    [] f.k = "none" \/ g.k = "none" -> NoneD
    [] f = NotD(g) -> FalseD
    [] f.k = "cube" /\ g.k = "cube" -> CubeD(f.p \cup g.p, f.n \cup g.n)
    [] f.k = "cube" /\ g.k = "clause" -> CC(f, g)
    [] f.k = "clause" /\ g.k = "cube" -> CC(g, f)
    [] f.k = "clause" /\ g.k = "clause" ->
         IF f.p \subseteq g.p /\ f.n \subseteq g.n THEN f
         ELSE IF g.p \subseteq f.p /\ g.n \subseteq f.n THEN g ELSE NoneD
    [] f.k = "cube" /\ g.k = "parity" ->
         IF g.p \subseteq SupportD(f)
         THEN IF (Cardinality(g.p \cap f.p) + Cardinality(g.n)) % 2 = 1 THEN f ELSE FalseD
         ELSE NoneD
    [] f.k = "parity" /\ g.k = "cube" ->
         IF f.p \subseteq SupportD(g)
         THEN IF (Cardinality(f.p \cap g.p) + Cardinality(f.n)) % 2 = 1 THEN g ELSE FalseD
         ELSE NoneD
    [] OTHER -> NoneD
OrD(f, g) == NotD(AndD(NotD(f), NotD(g)))
(* the parity of a constant or literal *)
IsPar(f) == f.k = "parity" \/ IsConst(f) \/ IsLit(f)
ParSet(f) == SupportD(f)
ParBit(f) == IF f.k = "parity" THEN f.n # {} ELSE f = TrueD \/ (IsLit(f) /\ f.n # {})
SymD(a, b) == (a \ b) \cup (b \ a)
XorD(f, g) ==
  CASE f.k = "none" \/ g.k = "none" -> NoneD
    [] f = g -> FalseD
    [] f = NotD(g) -> TrueD
    [] f = FalseD -> g
    [] g = FalseD -> f
    [] f = TrueD -> NotD(g)
    [] g = TrueD -> NotD(f)
    [] IsPar(f) /\ IsPar(g) -> ParityD(SymD(ParSet(f), ParSet(g)), ParBit(f) # ParBit(g))
    [] OTHER -> NoneD

ApplyD(op, f, g) ==
  CASE op = "and" -> AndD(f, g)
    [] op = "xor" -> XorD(f, g)
    [] op = "or" -> OrD(f, g)
    [] op = "nand" -> NotD(AndD(f, g))
    [] op = "nor" -> NotD(OrD(f, g))
    [] op = "imp" -> OrD(NotD(f), g)
    [] op = "biimp" -> NotD(XorD(f, g))
    [] op = "diff" -> AndD(f, NotD(g))
    [] op = "less" -> AndD(NotD(f), g)
    [] op = "invimp" -> OrD(f, NotD(g))

IteD(f, g, h) ==
  CASE f = TrueD -> g
    [] f = FalseD -> h
    [] g = h -> g
    [] h = FalseD -> AndD(f, g)
    [] g = FalseD -> AndD(NotD(f), h)
    [] g = TrueD -> OrD(f, h)
    [] h = TrueD -> OrD(NotD(f), g)
    [] g = NotD(h) -> NotD(XorD(f, g))
    [] OTHER -> LET x == AndD(f, g)
                    y == AndD(NotD(f), h) IN OrD(x, y)

ExistD(f, W) ==
  CASE f.k = "none" -> f
    [] f.k = "cube" -> Rec("cube", f.p \ W, f.n \ W)
    [] OTHER -> IF SupportD(f) \cap W = {} THEN f ELSE TrueD

(* old and new are sequences; targets not renamed must not be in f         *)
MapD(S, old, new) ==
  LET I == {i \in DOMAIN old : old[i] \in S} IN
  (S \ {old[i] : i \in I}) \cup {new[i] : i \in I}
ClashD(f, old, new) ==
  LET moved == {i \in DOMAIN old : old[i] # new[i]} IN
  SupportD(f) \cap {new[i] : i \in moved} # {}
RenameD(f, old, new) ==
  IF f.k = "none" \/ ClashD(f, old, new) THEN NoneD
  ELSE IF f.k = "parity" THEN Rec("parity", MapD(f.p, old, new), f.n)
  ELSE Rec(f.k, MapD(f.p, old, new), MapD(f.n, old, new))

CofD(f, b) ==
  IF IsConst(f) \/ f.k = "none" THEN f
  ELSE LET i == TopD(f) IN
       CASE f.k = "cube" -> IF (i \in f.p) = (b = 1) THEN Rec("cube", f.p \ {i}, f.n \ {i}) ELSE FalseD
         [] f.k = "clause" -> IF (i \in f.p) = (b = 1) THEN TrueD ELSE ClauseD(f.p \ {i}, f.n \ {i})
         [] f.k = "parity" -> ParityD(f.p \ {i}, (f.n # {}) # (b = 1))

(* The reduced ordered diagram: the nodes in preorder, low branches first, *)
(* as one sequence level, low, high, level, low, high...; a child is -1    *)
(* for False, -2 for True, or the position of a node (the root is 0).      *)
ShapeD(f) ==
  IF IsConst(f) THEN <<>>
  ELSE LET S == SupportD(f)
           k == Cardinality(S)
           L == SetToSortSeq(S, <) IN
  CASE f.k = "cube" ->
         [j \in 1..(3*k) |->
            LET i == (j - 1) \div 3
                next == IF i = k - 1 THEN -2 ELSE i + 1
                pos == L[i+1] \in f.p IN
            CASE (j - 1) % 3 = 0 -> L[i+1]
              [] (j - 1) % 3 = 1 -> IF pos THEN -1 ELSE next
              [] OTHER -> IF pos THEN next ELSE -1]
    [] f.k = "clause" ->
         [j \in 1..(3*k) |->
            LET i == (j - 1) \div 3
                next == IF i = k - 1 THEN -1 ELSE i + 1
                pos == L[i+1] \in f.p IN
            CASE (j - 1) % 3 = 0 -> L[i+1]
              [] (j - 1) % 3 = 1 -> IF pos THEN next ELSE -2
              [] OTHER -> IF pos THEN -2 ELSE next]
    [] f.k = "parity" ->
         \* first the nodes reached by low branches only, from the top, then the others from the bottom
         LET b == f.n # {}
             c0 == IF b THEN -2 ELSE -1                 \* value at the end of the low branches
             c1 == IF b THEN -1 ELSE -2
             other(i) == 2 * k - 1 - i IN               \* position of the other node of rank i, 1 <= i < k
         [j \in 1..(3*(2*k-1)) |->
            LET q == (j - 1) \div 3
                low == q < k
                i == IF low THEN q ELSE 2 * k - 1 - q IN
            CASE (j - 1) % 3 = 0 -> L[i+1]
              [] (j - 1) % 3 = 1 -> IF i = k - 1 THEN (IF low THEN c0 ELSE c1)
                                    ELSE IF low THEN i + 1 ELSE other(i + 1)
              [] OTHER -> IF i = k - 1 THEN (IF low THEN c1 ELSE c0)
                          ELSE IF low THEN other(i + 1) ELSE i + 1]
==============================================================================
