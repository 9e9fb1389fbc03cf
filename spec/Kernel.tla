-------------------------------- MODULE Kernel --------------------------------
(***************************************************************************)
(* A machine shaped like the implementation: a table of nodes with a free  *)
(* list, reference counts, a reference stack, operation caches, and the    *)
(* recursive algorithms of Not, Apply, Ite, Exist, AppEx, Replace and of   *)
(* the kernel functions, down to each node they make and each collection,  *)
(* growth or failure this causes.  A call of the user is one step; its     *)
(* recursion threads a record S, the memory, through the algorithm.        *)
(*                                                                         *)
(* The ghost variable want gives the function each slot should denote: the *)
(* machine refines Rudd when slots denote what is wanted in every state.   *)
(*                                                                         *)
(* The variable mut selects a variation of the design.  The programs that  *)
(* refute a variation (variable prog) are replayed on the real code.       *)
(***************************************************************************)
EXTENDS BoolFun, Integers, TLC

CONSTANTS nv,        \* number of variables
          NS,        \* number of slots of the user
          Size0,     \* initial number of slots of the table
          Limit,     \* 0: none
          MinFree, MaxInc,
          CacheMod,  \* number of entries of each cache
          MaxRef,    \* reference count that is never decremented
          MaxSize    \* exploration bound on the table

VARIABLES M,     \* memory, with no operation in progress
          hd,    \* slot -> [id, tr]: node held (-1: none) and whether its reference is counted
          want,  \* slot -> function wanted
          prog,  \* the calls so far
          dead,  \* the machine has shown a wrong behaviour
          mut    \* variation of the design, "" for none
vars == <<M, hd, want, prog, dead, mut>>

Mu(x) == mut = x
NoFun == {-1}

-----------------------------------------------------------------------------
(* Memory:                                                                 *)
(*  tab  id > 1 -> <<level, low, high>>  (active nodes)                    *)
(*  free list of the free ids; size; rc  id -> reference count             *)
(*  pend id -> references dropped, whose finalizer has not run             *)
(*  cch  <<cache, slot>> -> <<key, result>>; stk reference stack           *)
(*  gcs  collections; grew; fz  do finalizers run during this operation    *)
(*  r    result of the last function; fail  the operation failed           *)
(*  bad  an id that is not active was used                                 *)
(*  work subproblems solved by the operation; lost: a cache forgot one     *)
Active(S, n) == n \in {0, 1} \/ n \in DOMAIN S.tab
Lev(S, n) == IF n < 2 THEN nv ELSE S.tab[n][1]
Low(S, n) == S.tab[n][2]
High(S, n) == S.tab[n][3]
Ret(S, n) == [S EXCEPT !.r = n]
Broken(S) == [S EXCEPT !.r = -1, !.bad = TRUE]

Push(S, n) == [S EXCEPT !.stk = Append(@, n)]
PushUnless(m, S, n) == IF Mu(m) THEN S ELSE Push(S, n)
Unwind(S, stk) == [S EXCEPT !.stk = stk]

(* Caches: index of a key <<cache, x, y, z>>                               *)
Idx(k) == <<k[1], (k[2] + 3 * k[3] + 7 * k[4]) % CacheMod>>
Hit(S, k) == Idx(k) \in DOMAIN S.cch /\ S.cch[Idx(k)][1] = k /\ S.cch[Idx(k)][2] >= 0
Got(S, k) == [S EXCEPT !.r = S.cch[Idx(k)][2]]
Put(S, k) ==
  IF S.r < 0 THEN S
  ELSE IF Mu("memo-" \o k[1]) THEN [S EXCEPT !.work = @ + 1]
  ELSE [S EXCEPT !.cch = (Idx(k) :> <<k, S.r>>) @@ @,
                 !.work = @ + 1,
                 !.lost = @ \/ (Idx(k) \in DOMAIN S.cch /\ S.cch[Idx(k)][1] # k)]

-----------------------------------------------------------------------------
(* Collection, growth                                                      *)
Children(S, X) == IF Mu("mark-low") THEN {S.tab[x][2] : x \in X \cap DOMAIN S.tab}
                  ELSE UNION {{S.tab[x][2], S.tab[x][3]} : x \in X \cap DOMAIN S.tab}
RECURSIVE Marked(_, _)
Marked(S, X) == LET Y == X \cup Children(S, X) IN IF X = Y THEN X ELSE Marked(S, Y)
Range(q) == {q[i] : i \in DOMAIN q}

(* The finalizers run: a saturated count is left as it is                  *)
Finalized(S) == [S EXCEPT !.pend = [n \in {} |-> 0],
                          !.rc = [n \in DOMAIN @ |->
                             IF n \in DOMAIN S.pend /\ (@[n] < MaxRef \/ Mu("unsaturate"))
                             THEN @[n] - S.pend[n] ELSE @[n]]]
Counted(S) == {n \in DOMAIN S.rc : S.rc[n] > 0}

RECURSIVE Ascending(_)
Ascending(X) == IF X = {} THEN <<>>
                ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Ascending(X \ {m})

Collected(S0) ==
  LET S == IF S0.fz THEN Finalized(S0) ELSE S0
      roots == (IF Mu("gc-norefs") THEN Range(S.stk) ELSE Range(S.stk) \cup Counted(S))
      keep == (IF Mu("mark-flat") THEN roots ELSE Marked(S, roots)) \cap DOMAIN S.tab
      freed == DOMAIN S.tab \ keep
  IN [S EXCEPT !.tab = [x \in keep |-> S.tab[x]],
               !.free = Ascending((2..(S.size - 1)) \ keep),
               !.gcs = @ + 1,
               !.fr = freed]

Min(a, b) == IF a < b THEN a ELSE b
Target(sz) == LET d == IF MaxInc > 0 THEN Min(2 * sz, sz + MaxInc) ELSE 2 * sz
              IN IF Limit > 0 /\ ~Mu("over-limit") THEN Min(d, Limit) ELSE d
Grown(S) ==
  IF Limit > 0 /\ S.size >= Limit /\ ~Mu("over-limit") THEN S
  ELSE LET t == Target(S.size) IN
       [S EXCEPT !.size = t, !.grew = TRUE, !.free = [i \in 1..(t - S.size) |-> S.size + i - 1] \o @]

(* The caches are emptied; variations pre-a, pre-i, ... keep one of them.  *)
Caches == {"a", "i", "q", "x", "r"}
Reset(S, pre) ==
  LET kept == {x \in Caches : Mu(pre \o "-" \o x)} IN
  IF Mu(pre) THEN S ELSE [S EXCEPT !.cch = [i \in {k \in DOMAIN @ : @[k][1][1] \in kept} |-> @[i]]]

(* Makenode                                                                *)
Take(S, lv, lo, hi) ==
  LET n == Head(S.free) IN
  [S EXCEPT !.tab = (n :> <<lv, lo, hi>>) @@ @, !.free = Tail(@), !.r = n]
Mk(S, lv, lo, hi) ==
  IF lo < 0 \/ hi < 0 THEN Ret(S, -1)
  ELSE IF ~Active(S, lo) \/ ~Active(S, hi) THEN Broken(S)
  ELSE IF lo = hi /\ ~Mu("unreduced") THEN Ret(S, lo)
  ELSE LET same == {x \in DOMAIN S.tab : S.tab[x] = <<lv, lo, hi>>} IN
  IF same # {} /\ ~(Mu("twice") /\ S.gcs > 0) THEN Ret(S, CHOOSE x \in same : TRUE)
  ELSE IF S.free # <<>> THEN Take(S, lv, lo, hi)
  ELSE LET S1 == Collected(S)
           full == (Len(S1.free) * 100) \div S1.size <= MinFree
           S2 == IF full /\ ~Mu("nogrow") THEN Grown(S1) ELSE S1
           S3 == IF S2.size > S1.size
                 THEN Reset(S2, "keep-on-grow")
                 ELSE Reset(S2, IF S2.free = <<>> THEN "keep-on-fail" ELSE "keep-on-gc")
       IN IF S3.free = <<>> \/ (Mu("nofreed") /\ S2.size = S1.size)
          THEN [S3 EXCEPT !.r = -1, !.fail = TRUE]
          ELSE Take(S3, lv, lo, hi)

-----------------------------------------------------------------------------
(* The algorithms                                                          *)
Cof(S, n, lv, k) == IF n < 2 \/ Lev(S, n) > lv THEN n ELSE S.tab[n][k]

RECURSIVE NotR(_, _)
NotR(S, n) ==
  IF n < 2 THEN Ret(S, 1 - n)
  ELSE LET k == <<"a", n, -2, 10>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE IF ~Active(S, n) THEN Broken(S)
  ELSE LET lv == Lev(S, n)
           S1 == NotR(S, Low(S, n)) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, n) THEN Broken(S1)
  ELSE LET S2 == NotR(PushUnless("not-low", S1, S1.r), High(S1, n)) IN
  IF S2.r < 0 THEN S2
  ELSE LET S3 == Mk(PushUnless("not-high", S2, S2.r), lv, S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

OpNum == [and |-> 0, xor |-> 1, or |-> 2, nand |-> 3, diff |-> 7, imp |-> 5]
Bool(op, a, b) == TruthTable[op][2 * a + b + 1]
Shortcut(op, a, b) ==    \* -1 if none
  IF a < 2 /\ b < 2 THEN Bool(op, a, b)
  ELSE CASE op = "and" -> IF a = b THEN a ELSE IF a = 0 \/ b = 0 THEN 0
                          ELSE IF a = 1 THEN b ELSE IF b = 1 THEN a ELSE -1
         [] op = "or"  -> IF a = b THEN a ELSE IF a = 1 \/ b = 1 THEN 1
                          ELSE IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE -1
         [] op = "xor" -> IF a = b THEN 0 ELSE IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE -1
         [] op = "nand" -> IF a = 0 \/ b = 0 THEN 1 ELSE -1
         [] op = "diff" -> IF a = b \/ b = 1 \/ a = 0 THEN 0 ELSE -1
         [] op = "imp" -> IF a = 0 \/ b = 1 \/ a = b THEN 1 ELSE IF a = 1 THEN b ELSE -1

RECURSIVE ApplyR(_, _, _, _)
ApplyR(S, op, a, b) ==
  IF ~Active(S, a) \/ ~Active(S, b) THEN Broken(S)
  ELSE IF Shortcut(op, a, b) >= 0 THEN Ret(S, Shortcut(op, a, b))
  ELSE LET k == IF Mu("key-apply-op") THEN <<"a", a, b, 0>>
                ELSE IF Mu("key-apply-commutes") /\ b < a THEN <<"a", b, a, OpNum[op]>>
                ELSE <<"a", a, b, OpNum[op]>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE LET lv == Min(Lev(S, a), Lev(S, b))
           S1 == ApplyR(S, op, Cof(S, a, lv, 2), Cof(S, b, lv, 2)) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, a) \/ ~Active(S1, b) THEN Broken(S1)
  ELSE LET S2 == ApplyR(PushUnless("apply-low", S1, S1.r), op, Cof(S1, a, lv, 3), Cof(S1, b, lv, 3)) IN
  IF S2.r < 0 THEN S2
  ELSE LET S3 == Mk(PushUnless("apply-high", S2, S2.r), lv, S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

RECURSIVE IteR(_, _, _, _)
IteR(S, f, g, h) ==
  IF ~Active(S, f) \/ ~Active(S, g) \/ ~Active(S, h) THEN Broken(S)
  ELSE IF f = 1 THEN Ret(S, g)
  ELSE IF f = 0 THEN Ret(S, h)
  ELSE IF g = h THEN Ret(S, g)
  ELSE IF g = 1 /\ h = 0 THEN Ret(S, f)
  ELSE IF g = 0 /\ h = 1 THEN NotR(S, f)
  ELSE LET k == IF Mu("key-ite") THEN <<"i", f, g, 0>> ELSE <<"i", f, g, h>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE LET lv == Min(Lev(S, f), Min(Lev(S, g), Lev(S, h)))
           S1 == IteR(S, Cof(S, f, lv, 2), Cof(S, g, lv, 2), Cof(S, h, lv, 2)) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, f) \/ ~Active(S1, g) \/ ~Active(S1, h) THEN Broken(S1)
  ELSE LET S2 == IteR(PushUnless("ite-low", S1, S1.r), Cof(S1, f, lv, 3), Cof(S1, g, lv, 3), Cof(S1, h, lv, 3)) IN
  IF S2.r < 0 THEN S2
  ELSE LET S3 == Mk(PushUnless("ite-high", S2, S2.r), lv, S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

(* Quantification of the variables Q; vs is the node of the set, kind what *)
(* the quantification is done for.                                         *)
LastOf(Q) == CHOOSE i \in Q : \A j \in Q : j <= i
RECURSIVE QuantR(_, _, _, _, _)
QuantR(S, n, Q, vs, kind) ==
  IF ~Active(S, n) THEN Broken(S)
  ELSE IF n < 2 \/ Lev(S, n) > LastOf(Q) THEN Ret(S, n)
  ELSE LET k == <<"q", n, IF Mu("key-quant-set") THEN 0 ELSE vs, IF Mu("key-quant-kind") THEN 0 ELSE kind>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE LET lv == Lev(S, n)
           S1 == QuantR(S, Low(S, n), Q, vs, kind) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, n) THEN Broken(S1)
  ELSE LET S2 == QuantR(PushUnless("quant-low", S1, S1.r), High(S1, n), Q, vs, kind) IN
  IF S2.r < 0 THEN S2
  ELSE LET P == PushUnless("quant-high", S2, S2.r)
           S3 == IF lv \in Q THEN ApplyR(P, "or", S1.r, S2.r) ELSE Mk(P, lv, S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

RECURSIVE AppQ(_, _, _, _, _, _)
AppQ(S, op, a, b, Q, vs) ==
  LET kind == vs * 4 + OpNum[op] + 1 IN
  IF ~Active(S, a) \/ ~Active(S, b) THEN Broken(S)
  ELSE IF (a < 2 /\ b < 2) \/ Shortcut(op, a, b) \in {0, 1} THEN Ret(S, Shortcut(op, a, b))
  ELSE IF Shortcut(op, a, b) > 1 THEN QuantR(S, Shortcut(op, a, b), Q, vs, kind)
  ELSE IF Lev(S, a) > LastOf(Q) /\ Lev(S, b) > LastOf(Q) THEN ApplyR(S, op, a, b)
  ELSE LET k == <<"x", a, b, IF Mu("key-appex-set") THEN OpNum[op] ELSE IF Mu("key-appex-op") THEN vs * 4 ELSE kind>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE LET lv == Min(Lev(S, a), Lev(S, b))
           S1 == AppQ(S, op, Cof(S, a, lv, 2), Cof(S, b, lv, 2), Q, vs) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, a) \/ ~Active(S1, b) THEN Broken(S1)
  ELSE LET S2 == AppQ(PushUnless("appex-low", S1, S1.r), op, Cof(S1, a, lv, 3), Cof(S1, b, lv, 3), Q, vs) IN
  IF S2.r < 0 THEN S2
  ELSE LET P == PushUnless("appex-high", S2, S2.r)
           S3 == IF lv \in Q THEN ApplyR(P, "or", S1.r, S2.r) ELSE Mk(P, lv, S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

RECURSIVE CorrR(_, _, _, _)
CorrR(S, lv, lo, hi) ==
  IF ~Active(S, lo) \/ ~Active(S, hi) THEN Broken(S)
  ELSE LET m == Min(Lev(S, lo), Lev(S, hi)) IN
  IF lv < m THEN Mk(S, lv, lo, hi)
  ELSE IF lv = Lev(S, lo) \/ lv = Lev(S, hi) THEN [S EXCEPT !.r = -1, !.fail = TRUE]
  ELSE LET S1 == CorrR(S, lv, Cof(S, lo, m, 2), Cof(S, hi, m, 2)) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, lo) \/ ~Active(S1, hi) THEN Broken(S1)
  ELSE LET S2 == CorrR(PushUnless("corr-low", S1, S1.r), lv, Cof(S1, lo, m, 3), Cof(S1, hi, m, 3)) IN
  IF S2.r < 0 THEN S2
  ELSE LET S3 == Mk(PushUnless("corr-high", S2, S2.r), m, S1.r, S2.r)
       IN Unwind(S3, S.stk)

RECURSIVE ReplR(_, _, _, _)
ReplR(S, n, img, id) ==
  IF ~Active(S, n) THEN Broken(S)
  ELSE IF Lev(S, n) > LastOf({0} \cup {i \in DOMAIN img : img[i] # i}) THEN Ret(S, n)
  ELSE LET k == <<"r", n, 0, IF Mu("key-replace-id") THEN 0 ELSE id>> IN
  IF Hit(S, k) THEN Got(S, k)
  ELSE LET lv == Lev(S, n)
           S1 == ReplR(S, Low(S, n), img, id) IN
  IF S1.r < 0 THEN S1
  ELSE IF ~Active(S1, n) THEN Broken(S1)
  ELSE LET S2 == ReplR(PushUnless("replace-low", S1, S1.r), High(S1, n), img, id) IN
  IF S2.r < 0 THEN S2
  ELSE LET S3 == CorrR(PushUnless("replace-high", S2, S2.r), img[lv], S1.r, S2.r)
       IN Put(Unwind(S3, S.stk), k)

(* Makeset, built from the last variable                                   *)
RECURSIVE SetR(_, _, _)
SetR(S, Q, n) ==
  IF Q = {} THEN Ret(S, n)
  ELSE LET i == LastOf(Q)
           S1 == Mk(S, i, 0, n)
       IN IF S1.r < 0 THEN S1 ELSE SetR(PushUnless("set-push", S1, S1.r), Q \ {i}, S1.r)

-----------------------------------------------------------------------------
(* The user                                                                *)
(* An operand is a slot, 1..NS, or a literal: 10+i or 20+i (negated).      *)
LitId(i, pol) == 2 + 2 * i + (IF pol THEN 0 ELSE 1)
Lits == {10 + i : i \in Vars(nv)} \cup {20 + i : i \in Vars(nv)}
IdOf(x) == IF x <= NS THEN hd[x].id ELSE IF x < 20 THEN LitId(x - 10, TRUE) ELSE LitId(x - 20, FALSE)
FunOf(x) == IF x <= NS THEN want[x] ELSE IF x < 20 THEN LitF(nv, x - 10, TRUE) ELSE LitF(nv, x - 20, FALSE)
LiveSlots == {s \in 1..NS : hd[s].id >= 0}

RECURSIVE DropAll(_, _)
DropAll(S, X) ==   \* X: slots
  IF X = {} THEN S
  ELSE LET s == CHOOSE x \in X : TRUE
           n == hd[s].id
       IN DropAll(IF n > 1 /\ hd[s].tr
                  THEN [S EXCEPT !.pend = (n :> (IF n \in DOMAIN @ THEN @[n] + 1 ELSE 1)) @@ @] ELSE S, X \ {s})

(* A reference is counted if the count is not saturated                    *)
Counts(S, n) == n > 1 /\ (IF n \in DOMAIN S.rc THEN S.rc[n] ELSE 0) < MaxRef
Retained(S, n) ==
  IF Counts(S, n) /\ ~Mu("noref")
  THEN [S EXCEPT !.rc = (n :> (IF n \in DOMAIN @ THEN @[n] + 1 ELSE 1)) @@ @] ELSE S

(* c: call.  c.e name, c.as operands (slots and literals), c.r slot for    *)
(* the result, c.eat: the operands are dropped when the call is made,      *)
(* c.fz: finalizers run in the collections of the call.                    *)
Slots(c) == {c.as[i] : i \in DOMAIN c.as} \cap (1..NS)
Eaten(c) == IF c.eat THEN Slots(c) ELSE {}
Ops(c) == [i \in DOMAIN c.as |-> IdOf(c.as[i])]
Funs(c) == [i \in DOMAIN c.as |-> FunOf(c.as[i])]

RECURSIVE PushArgs(_, _)
PushArgs(S, q) == IF q = <<>> THEN S ELSE PushArgs(Push(S, Head(q)), Tail(q))

(* the node of a set of variables, made before the call that uses it and   *)
(* protected only by that call                                             *)
WithSet(c) == c.e \in {"Exist", "AppEx"}
Run(c) ==
  LET o == Ops(c)
      M0 == [M EXCEPT !.stk = <<>>, !.bad = FALSE, !.fail = FALSE, !.grew = FALSE, !.work = 0, !.lost = FALSE]
      V == IF WithSet(c) THEN SetR(M0, c.q, 1) ELSE Ret(M0, 1)
      vs == V.r
      S1 == DropAll([V EXCEPT !.stk = <<>>, !.fz = c.fz], Eaten(c))
      args == IF WithSet(c) THEN o \o <<vs>> ELSE o
      P == IF Mu("args-" \o c.e) THEN S1 ELSE PushArgs(S1, args)
      R == IF vs < 0 THEN V
           ELSE CASE c.e = "Not"   -> NotR(P, o[1])
             [] c.e = "Apply"   -> ApplyR(P, c.op, o[1], o[2])
             [] c.e = "Ite"     -> IteR(P, o[1], o[2], o[3])
             [] c.e = "Exist"   -> QuantR(P, o[1], c.q, vs, 0)
             [] c.e = "AppEx"   -> AppQ(P, c.op, o[1], o[2], c.q, vs)
             [] c.e = "Replace" -> ReplR(P, o[1], c.img, c.id)
             [] c.e = "Set"     -> SetR(S1, c.q, 1)
             [] c.e = "Low"     -> IF o[1] < 2 THEN Ret(S1, o[1]) ELSE Ret(S1, Low(S1, o[1]))
             [] c.e = "High"    -> IF o[1] < 2 THEN Ret(S1, o[1]) ELSE Ret(S1, High(S1, o[1]))
  IN [R EXCEPT !.stk = <<>>]

Wanted(c) ==
  LET f == Funs(c) IN
  CASE c.e = "Not"   -> NotF(nv, f[1])
    [] c.e = "Apply"   -> ApplyF(nv, c.op, f[1], f[2])
    [] c.e = "Ite"     -> IteF(nv, f[1], f[2], f[3])
    [] c.e = "Exist"   -> ExistF(nv, f[1], c.q)
    [] c.e = "AppEx"   -> AppExF(nv, c.op, f[1], f[2], c.q)
    [] c.e = "Replace" -> RenameF(nv, f[1], c.img)
    [] c.e = "Set"     -> SetF(nv, c.q)
    [] c.e = "Low"     -> IF Support(nv, f[1]) = {} THEN f[1] ELSE CofF(nv, f[1], Top(nv, f[1]), 0)
    [] c.e = "High"    -> IF Support(nv, f[1]) = {} THEN f[1] ELSE CofF(nv, f[1], Top(nv, f[1]), 1)

(* a renaming is defined if no new variable occurs in the function         *)
Allowed(c) == /\ Slots(c) \subseteq LiveSlots
              /\ c.e = "Replace" => Support(nv, FunOf(c.as[1])) \cap {c.img[i] : i \in {j \in DOMAIN c.img : c.img[j] # j}} = {}

-----------------------------------------------------------------------------
(* What a state must satisfy                                               *)
RECURSIVE Den(_, _)
Den(S, n) == IF n = 0 THEN {} ELSE IF n = 1 THEN U(nv)
             ELSE IF n \notin DOMAIN S.tab THEN NoFun
             ELSE IteF(nv, VarF(nv, S.tab[n][1]), Den(S, S.tab[n][3]), Den(S, S.tab[n][2]))
SlotsOK(S, h, w) == \A s \in 1..NS : h[s].id >= 0 => Den(S, h[s].id) = w[s]
Ordered(S) == \A x \in DOMAIN S.tab : \A k \in {2, 3} : Active(S, S.tab[x][k]) /\ S.tab[x][1] < Lev(S, S.tab[x][k])
Reduced(S) == \A x \in DOMAIN S.tab : S.tab[x][2] # S.tab[x][3]
UniqueT(S) == \A x, y \in DOMAIN S.tab : x < y => S.tab[x] # S.tab[y]
Fits(S) == /\ DOMAIN S.tab \cup Range(S.free) = 2..(S.size - 1)
           /\ DOMAIN S.tab \cap Range(S.free) = {} /\ Len(S.free) = S.size - 2 - Len(Ascending(DOMAIN S.tab))
           /\ Limit > 0 => S.size <= Limit
VarsKept(S) == \A i \in Vars(nv) : /\ Den(S, LitId(i, TRUE)) = LitF(nv, i, TRUE)
                                   /\ Den(S, LitId(i, FALSE)) = LitF(nv, i, FALSE)
(* what a user can observe                                                 *)
Observable(S, h, w) == ~S.bad /\ Ordered(S) /\ Reduced(S) /\ UniqueT(S) /\ Fits(S) /\ SlotsOK(S, h, w) /\ VarsKept(S)
(* A failure is right only at the limit, with nothing left to free but for *)
(* what the operation itself was using.                                    *)
FailureOK(S, c) == S.fail => /\ Limit > 0 /\ S.size = Limit
                             /\ S.gcs > M.gcs

(* Subproblems are solved once, unless a cache forgets some: the work is   *)
(* bounded by the sizes of the diagrams, not by their number of branches.  *)
Nodes(n) == Len(Ascending(Marked(M, {n}) \ {0, 1}))
WorkOK(S, c) ==
  LET o == Ops(c) IN
  (S.gcs = M.gcs /\ ~S.lost) =>
    CASE c.e \in {"Not", "Replace"} -> S.work <= Nodes(o[1])
      [] c.e = "Apply" -> S.work <= (Nodes(o[1]) + 2) * (Nodes(o[2]) + 2)
      [] c.e = "Ite" -> S.work <= (Nodes(o[1]) + 2) * (Nodes(o[2]) + 2) * (Nodes(o[3]) + 2)
      [] OTHER -> TRUE

(* Reference counts: the references of the user, and the pending ones,     *)
(* exactly, unless the count is saturated                                  *)
HeldBy(h, n) == {s \in 1..NS : h[s].id = n /\ h[s].tr}
Card(X) == Len(Ascending(X))
CountsOK == \A n \in DOMAIN M.rc : M.rc[n] < MaxRef =>
              M.rc[n] = Card(HeldBy(hd, n)) + (IF n \in DOMAIN M.pend THEN M.pend[n] ELSE 0)
(* Every entry of a cache is right, whatever has been collected since      *)
KeyFun(k) ==
  CASE k[1] = "a" /\ k[3] = -2 -> NotF(nv, Den(M, k[2]))
    [] k[1] = "a" /\ k[3] # -2 -> ApplyF(nv, CHOOSE op \in DOMAIN OpNum : OpNum[op] = k[4], Den(M, k[2]), Den(M, k[3]))
    [] k[1] = "i" -> IteF(nv, Den(M, k[2]), Den(M, k[3]), Den(M, k[4]))
    [] k[1] = "q" -> ExistF(nv, Den(M, k[2]), VarsOf(nv, Den(M, k[3])))
    [] k[1] = "x" -> AppExF(nv, CHOOSE op \in DOMAIN OpNum : OpNum[op] = (k[4] - 1) % 4, Den(M, k[2]), Den(M, k[3]),
                            VarsOf(nv, Den(M, (k[4] - 1) \div 4)))
KeyIds(k) == CASE k[1] = "a" /\ k[3] = -2 -> {k[2]}
               [] k[1] = "a" /\ k[3] # -2 -> {k[2], k[3]}
               [] k[1] = "i" -> {k[2], k[3], k[4]}
               [] k[1] = "q" -> {k[2], k[3]}
               [] k[1] = "x" -> {k[2], k[3], (k[4] - 1) \div 4}
               [] k[1] = "r" -> {k[2]}
CacheOK == \A i \in DOMAIN M.cch :
             LET k == M.cch[i][1] IN
             /\ \A x \in KeyIds(k) \cup {M.cch[i][2]} : Active(M, x)
             /\ k[1] # "r" => Den(M, M.cch[i][2]) = KeyFun(k)

-----------------------------------------------------------------------------
Init(muts) ==
  /\ mut \in muts
  /\ LET t == [n \in 2..(2 * nv + 1) |-> IF n % 2 = 0 THEN <<(n - 2) \div 2, 0, 1>> ELSE <<(n - 2) \div 2, 1, 0>>] IN
       /\ M = [tab |-> t, size |-> Size0, free |-> [i \in 1..(Size0 - 2 * nv - 2) |-> 2 * nv + 1 + i],
               rc |-> [n \in DOMAIN t |-> MaxRef], pend |-> [n \in {} |-> 0], cch |-> [k \in {} |-> 0],
               stk |-> <<>>, gcs |-> 0, grew |-> FALSE, fz |-> FALSE, r |-> 0, fail |-> FALSE, bad |-> FALSE, fr |-> {},
               work |-> 0, lost |-> FALSE]
       /\ hd = [s \in 1..NS |-> [id |-> -1, tr |-> FALSE]]
       /\ want = [s \in 1..NS |-> NoFun]
       /\ prog = <<>>
       /\ dead = FALSE

(* reference counts that are zero are not kept, nor is what is only used   *)
(* during a call                                                           *)
Tidy(S) == [S EXCEPT !.rc = [n \in {x \in DOMAIN @ : @[x] # 0} |-> @[n]], !.fz = FALSE, !.grew = FALSE, !.fr = {}, !.work = 0, !.lost = FALSE]

Do(c) ==
  /\ ~dead /\ Allowed(c)
  /\ LET R == Run(c)
         w == Wanted(c)
         old == (IF c.r \in LiveSlots /\ c.r \notin Eaten(c) THEN {c.r} ELSE {})
         S2 == IF R.r < 0 THEN R ELSE Retained(R, R.r)
         S3 == DropAll(S2, old)
         h == [s \in 1..NS |-> IF s = c.r THEN [id |-> R.r, tr |-> R.r >= 0 /\ Counts(R, R.r)]
                               ELSE IF s \in Eaten(c) THEN [id |-> -1, tr |-> FALSE] ELSE hd[s]]
         ww == [s \in 1..NS |-> IF s = c.r /\ R.r >= 0 THEN w ELSE IF h[s].id < 0 THEN NoFun ELSE want[s]]
     IN /\ M' = Tidy(S3)
        /\ hd' = h /\ want' = ww
        /\ prog' = Append(prog, c)
        /\ dead' = ~(Observable(S3, h, ww) /\ FailureOK(R, c) /\ WorkOK(R, c))
        /\ UNCHANGED mut
(* The Go runtime collects: all the finalizers run                         *)
GoGC == /\ ~dead /\ DOMAIN M.pend # {}
        /\ M' = Tidy(Finalized(M))
        /\ prog' = Append(prog, [e |-> "GoGC"])
        /\ UNCHANGED <<hd, want, dead, mut>>
DropOne(s) == /\ ~dead /\ s \in LiveSlots
              /\ M' = DropAll(M, {s})
              /\ hd' = [hd EXCEPT ![s] = [id |-> -1, tr |-> FALSE]]
              /\ want' = [want EXCEPT ![s] = NoFun]
              /\ prog' = Append(prog, [e |-> "Drop", r |-> s])
              /\ UNCHANGED <<dead, mut>>

Bounded == M.size <= MaxSize
NotDead == ~dead
==============================================================================
