----------------------------- MODULE MCNodeTable -----------------------------
(***************************************************************************)
(* NodeTable explored for a small table.  The function denoted by each id  *)
(* is recorded when it is produced, in a ghost variable: ids in use keep   *)
(* it, and as long as they are protected two ids denote two functions.     *)
(***************************************************************************)
EXTENDS NodeTable
CONSTANTS MaxSize, MaxStack, Slots, MaxInc, MinFree, Limit
B == INSTANCE BoolFun
VARIABLE den     \* id -> function it denoted when it was produced
V == 2
F(n) == IF n = 0 THEN {} ELSE IF n = 1 THEN B!U(V) ELSE den[n]
RECURSIVE Fun(_)
Fun(n) == IF n = 0 THEN {} ELSE IF n = 1 THEN B!U(V)
          ELSE B!IteF(V, B!VarF(V, tab[n][1]), Fun(tab[n][3]), Fun(tab[n][2]))

Init == /\ tab = (2 :> <<0, 0, 1>>) @@ (3 :> <<1, 0, 1>>)
        /\ size = 5
        /\ stack = <<>> /\ refs = [s \in 1..Slots |-> -1] /\ zom = {} /\ failed = FALSE /\ prod = 0 /\ gcs = 0
        /\ opt = [V |-> V, minfree |-> MinFree, maxinc |-> MaxInc, limit |-> Limit, roots |-> {2, 3}]
        /\ den = (2 :> B!VarF(V, 0)) @@ (3 :> B!VarF(V, 1))

Candidates == {0, 1} \cup MustKeep
NextMake ==
  \E lv \in 0..(V-1) : \E lo, hi \in Candidates :
    /\ MakePre(lv, lo, hi)
    /\ \E S \in (IF Collects(lv, lo, hi) THEN {Reach(Protected \cup Z) \cap Ids : Z \in SUBSET zom} ELSE {{}}) :
       \E sz \in (IF Collects(lv, lo, hi) THEN size..MaxSize ELSE {size}) :
       \* the lowest free id is enough, up to a renaming
       \E r \in {-1} \cup Candidates \cup Ids \cup
                (LET fr == IF Collects(lv, lo, hi) THEN (2..(sz-1)) \ S ELSE (2..(size-1)) \ Ids
                 IN IF fr = {} THEN {} ELSE {CHOOSE x \in fr : \A y \in fr : x <= y}) :
         /\ Make(lv, lo, hi, r, S, sz)
         /\ den' = IF r > 1 /\ (r \notin Ids \/ gcs' > gcs)
                   THEN [x \in DOMAIN tab' |-> IF x = r THEN B!IteF(V, B!VarF(V, lv), F(hi), F(lo)) ELSE den[x]]
                   ELSE [x \in DOMAIN tab' |-> den[x]]
Next == \/ NextMake
        \/ /\ \/ \E n \in Ids : Len(stack) < MaxStack /\ Push(n)
              \/ stack # <<>> /\ Pop(1)
              \/ stack # <<>> /\ InitStack
              \/ \E s \in DOMAIN refs : \E n \in Ids : Ret(s, n)
              \/ \E s \in DOMAIN refs : refs[s] # -1 /\ DropRef(s)
              \/ \E z \in zom : Finalize(zom \ {z})
           /\ UNCHANGED den
View == <<tab, size, stack, refs, zom, failed, den>>   \* without the counters
Spec == Init /\ [][Next]_<<kvars, den>>

Meaning == \A x \in Ids : den[x] = Fun(x)
Canonical == \A x, y \in Ids : Fun(x) = Fun(y) => x = y
Inv == Ordered /\ Reduced /\ Unique /\ InTable /\ ProtectedActive /\ WithinLimit /\ Meaning /\ Canonical
(* a protected id keeps its triple *)
Stable == [][\A x \in MustKeep : x \in DOMAIN tab' /\ tab'[x] = tab[x]]_<<kvars, den>>
NeverFailsWithoutLimit == opt.limit = 0 => (failed => size >= MaxSize)
==============================================================================
