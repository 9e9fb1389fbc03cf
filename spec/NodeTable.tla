------------------------------ MODULE NodeTable ------------------------------
(***************************************************************************)
(* The node table seen through the kernel functions: Makenode, Initref,    *)
(* Pushref, Popref and Retnode.  A node is an id (0 and 1 are the          *)
(* constants) with a triple <<level, low, high>>.  A table has a fixed     *)
(* number of slots, most nodes are protected by nothing, and a collection  *)
(* happens when a node is needed and no slot is free.                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES tab,    \* id of active node (> 1) -> <<level, low, high>>
          size,   \* number of slots, constants included
          stack,  \* the reference stack, a sequence of ids
          refs,   \* slot of the user -> id of the node it refers to, or -1
          zom,    \* ids of references dropped and maybe not finalized yet
          failed, \* error status
          prod,   \* number of nodes produced
          gcs,    \* number of collections
          opt     \* the options: V, minfree, maxinc, limit (0: none), roots
kvars == <<tab, size, stack, refs, zom, failed, prod, gcs, opt>>

Ids == DOMAIN tab
RangeOf(q) == {q[i] : i \in DOMAIN q}
LevelOf(n) == IF n < 2 THEN opt.V ELSE tab[n][1]
Kids(R) == UNION {{tab[x][2], tab[x][3]} : x \in R \cap Ids}
RECURSIVE Reach(_)
Reach(R) == LET N == R \cup Kids(R) IN IF N = R THEN R ELSE Reach(N)

Handles == {refs[s] : s \in DOMAIN refs} \ {-1}
Protected == opt.roots \cup RangeOf(stack) \cup Handles
MustKeep == Reach(Protected) \cap Ids          \* what a collection may not free
MayKeep == Reach(Protected \cup zom) \cap Ids  \* what it may leave
Free == size - Cardinality(Ids) - 2
FreeAfter(S, sz) == sz - Cardinality(S) - 2

Find(t) == {x \in Ids : tab[x] = t}
Usable(n) == n \in {0, 1} \cup MustKeep

(* Collection and growth *)
SurvivorsSafe(S) == MustKeep \subseteq S
SurvivorsTight(S) == S \subseteq MayKeep
SurvivorsClosed(S) == Kids(S) \subseteq S \cup {0, 1}
Smaller(a, b) == IF a < b THEN a ELSE b
CanGrow == opt.limit = 0 \/ size < opt.limit
GrowMax == LET d == IF opt.maxinc > 0 THEN Smaller(2 * size, size + opt.maxinc) ELSE 2 * size
           IN IF opt.limit > 0 THEN Smaller(d, opt.limit) ELSE d
(* the share of free slots, in percent, is rounded down by the library     *)
MayGrow(S) == 100 * FreeAfter(S, size) < (opt.minfree + 1) * size
MustGrow(S) == CanGrow /\ (FreeAfter(S, size) = 0 \/ 100 * FreeAfter(S, size) < opt.minfree * size)
GrowthOK(S, sz) == \/ sz = size /\ ~MustGrow(S)
                   \/ sz > size /\ sz <= GrowMax /\ CanGrow /\ MayGrow(S)

Restrict(f, S) == [x \in S |-> f[x]]

(* Makenode(lv, lo, hi) = r, after a collection that leaves S in sz slots, *)
(* if there is one.                                                        *)
MakePre(lv, lo, hi) == /\ Usable(lo) /\ Usable(hi)
                       /\ lv \in 0..(opt.V - 1) /\ lv < LevelOf(lo) /\ lv < LevelOf(hi)
Collects(lv, lo, hi) == lo # hi /\ Find(<<lv, lo, hi>>) = {} /\ Free = 0
Make(lv, lo, hi, r, S, sz) ==
  /\ MakePre(lv, lo, hi)
  /\ UNCHANGED <<stack, refs, opt>>
  /\ zom' = IF Collects(lv, lo, hi) THEN zom \cap S ELSE zom   \* what is freed has no reference left
  /\ IF lo = hi THEN r = lo /\ UNCHANGED <<tab, size, failed, prod, gcs>>
     ELSE IF Find(<<lv, lo, hi>>) # {}
          THEN r \in Find(<<lv, lo, hi>>) /\ UNCHANGED <<tab, size, failed, prod, gcs>>
     ELSE IF Free > 0
          THEN /\ r \in (2..(size - 1)) \ Ids
               /\ tab' = (r :> <<lv, lo, hi>>) @@ tab
               /\ prod' = prod + 1 /\ UNCHANGED <<size, failed, gcs>>
     ELSE /\ SurvivorsSafe(S) /\ SurvivorsTight(S) /\ SurvivorsClosed(S) /\ GrowthOK(S, sz)
          /\ gcs' = gcs + 1 /\ size' = sz
          /\ IF FreeAfter(S, sz) > 0
             THEN /\ r \in (2..(sz - 1)) \ S
                  /\ tab' = (r :> <<lv, lo, hi>>) @@ Restrict(tab, S)
                  /\ prod' = prod + 1 /\ UNCHANGED failed
             ELSE r = -1 /\ failed' = TRUE /\ tab' = Restrict(tab, S) /\ UNCHANGED prod

Push(n) == /\ n \in {0, 1} \cup Ids
           /\ stack' = Append(stack, n)
           /\ UNCHANGED <<tab, size, refs, zom, failed, prod, gcs, opt>>
Pop(k) ==  /\ k <= Len(stack)
           /\ stack' = SubSeq(stack, 1, Len(stack) - k)
           /\ UNCHANGED <<tab, size, refs, zom, failed, prod, gcs, opt>>
InitStack == stack' = <<>> /\ UNCHANGED <<tab, size, refs, zom, failed, prod, gcs, opt>>
Dropped(s) == IF refs[s] > 1 THEN zom \cup {refs[s]} ELSE zom
Ret(s, n) ==  /\ n \in {0, 1} \cup Ids
              /\ refs' = [refs EXCEPT ![s] = n] /\ zom' = Dropped(s)
              /\ UNCHANGED <<tab, size, stack, failed, prod, gcs, opt>>
DropRef(s) == /\ refs' = [refs EXCEPT ![s] = -1] /\ zom' = Dropped(s)
              /\ UNCHANGED <<tab, size, stack, failed, prod, gcs, opt>>
Finalize(Z) == /\ zom' = Z /\ Z \subseteq zom
               /\ UNCHANGED <<tab, size, stack, refs, failed, prod, gcs, opt>>

(* Invariants *)
Ordered == \A x \in Ids : \A k \in {2, 3} :
             tab[x][k] \in {0, 1} \cup Ids /\ tab[x][1] < LevelOf(tab[x][k])
Reduced == \A x \in Ids : tab[x][2] # tab[x][3]
Unique == \A x, y \in Ids : tab[x] = tab[y] => x = y
InTable == Ids \subseteq 2..(size - 1) /\ Free >= 0
ProtectedActive == Protected \subseteq {0, 1} \cup Ids
WithinLimit == opt.limit > 0 => size <= opt.limit
==============================================================================
