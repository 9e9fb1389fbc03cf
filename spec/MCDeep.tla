-------------------------------- MODULE MCDeep --------------------------------
(* DeepFun agrees with BoolFun, for all the functions of its family over    *)
(* the first N variables.                                                  *)
EXTENDS DeepFun, TLC
CONSTANT N
B == INSTANCE BoolFun

Cubes == {CubeD(p, n) : p \in SUBSET B!Vars(N), n \in SUBSET B!Vars(N)}
Clauses == {ClauseD(p, n) : p \in SUBSET B!Vars(N), n \in SUBSET B!Vars(N)}
Pars == {ParityD(s, b) : s \in SUBSET B!Vars(N), b \in BOOLEAN}
Fam == Cubes \cup Clauses \cup Pars

Den(f) ==
  CASE f.k = "cube" -> B!CubeF(N, f.p, f.n)
    [] f.k = "clause" -> {m \in B!U(N) : (\E i \in f.p : B!Tr(m, i)) \/ (\E i \in f.n : ~B!Tr(m, i))}
    [] f.k = "parity" -> {m \in B!U(N) : (Cardinality({i \in f.p : B!Tr(m, i)}) + Cardinality(f.n)) % 2 = 1}
Same(r, F) == r.k = "none" \/ (Den(r) = F /\ r \in Fam)

RECURSIVE Walk(_, _, _)
Walk(sh, q, m) == IF q = -1 THEN FALSE ELSE IF q = -2 THEN TRUE
                  ELSE Walk(sh, sh[3*q + (IF B!Tr(m, sh[3*q+1]) THEN 3 ELSE 2)], m)
(* number of nodes of the reduced diagram: the distinct cofactors with     *)
(* respect to the variables above, that depend on the variable at hand     *)
RECURSIVE Subs(_, _)
Subs(S, i) == IF i = N THEN {} ELSE
              LET next == S \cup {B!CofF(N, x, i, 0) : x \in S} \cup {B!CofF(N, x, i, 1) : x \in S}
                  below == {x \in next : ~B!DependsOn(N, x, i)} IN
              {x \in S : B!DependsOn(N, x, i)} \cup Subs(below, i + 1)
ShapeOK(f) ==
  LET sh == ShapeD(f)
      k == Len(sh) \div 3 IN
  IF IsConst(f) THEN sh = <<>>
  ELSE /\ \A m \in B!U(N) : Walk(sh, 0, m) <=> m \in Den(f)
       /\ k = Cardinality(Subs({Den(f)}, 0))
       /\ \A q \in 0..(k-1) : sh[3*q+2] # sh[3*q+3] /\ \A d \in {2, 3} :
             sh[3*q+d] >= 0 => sh[3*sh[3*q+d]+1] > sh[3*q+1]

Lists == {q \in [1..2 -> B!Vars(N)] : q[1] # q[2]}

VARIABLE f
Init == f \in Fam
Next == FALSE /\ f' = f
OneOK ==
  /\ \A g \in Fam : (Den(f) = Den(g)) => f = g
  /\ Same(NotD(f), B!NotF(N, Den(f))) /\ NotD(f).k # "none"
  /\ ShapeOK(f)
  /\ SupportD(f) = B!Support(N, Den(f))
  /\ ~IsConst(f) => /\ TopD(f) = B!Top(N, Den(f))
                    /\ \A b \in {0, 1} : Same(CofD(f, b), B!CofF(N, Den(f), TopD(f), b))
  /\ \A W \in SUBSET B!Vars(N) : Same(ExistD(f, W), B!ExistF(N, Den(f), W))
  /\ \A old, new \in Lists :
        (\A i, j \in {1, 2} : new[i] = old[j] => i = j) =>
           Same(RenameD(f, old, new),
                B!RenameF(N, Den(f), [v \in B!Vars(N) |-> IF v = old[1] THEN new[1] ELSE IF v = old[2] THEN new[2] ELSE v]))
TwoOK ==
  \A g \in Fam : \A op \in B!BinOps : Same(ApplyD(op, f, g), B!ApplyF(N, op, Den(f), Den(g)))
Small == Cubes \cup Pars
ThreeOK ==
  \A g \in Small : \A h \in Fam : Same(IteD(f, g, h), B!IteF(N, Den(f), Den(g), Den(h)))
==============================================================================
