-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Reference counts of the nodes, at the level of single reads and writes. *)
(* Thread main is the user of the BDD: it makes references (Retnode),      *)
(* drops them, collects the table (gbc) and makes it grow (noderesize).    *)
(* Thread fin is the Go runtime, that runs the finalizers of the dropped   *)
(* references one after the other.  The counts are in a table that a       *)
(* growth replaces by a copy.                                              *)
(*                                                                         *)
(* The variable mut selects a variation of the design: each one must be    *)
(* refuted, the design itself must satisfy Good in all states.  Executions *)
(* of the real code without data races (observed by the race builds) are   *)
(* behaviours of this machine, since all its reads and writes of counts    *)
(* are then between the acquisition and the release of the lock.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ids, MaxCount, MaxRefs
Muts == <<"none", "ret-nolock", "fin-nolock", "copy-nolock", "read-early", "dec-saturated", "stale-table", "no-count-gc", "sweep-first", "cap">>
VARIABLES mut,
  tabs,    \* tabs[t][n]: the count of node n in table t
  cur,     \* the table in use
  act,     \* the nodes that are not free
  live,    \* the number of references held by the user
  pend,    \* of references dropped, whose finalizer has not ended
  sat,     \* the nodes whose count was at its maximum one day
  owner,   \* of the lock
  m, f     \* the state of each thread: where it is, its node, its local values
vars == <<mut, tabs, cur, act, live, pend, sat, owner, m, f>>
Idle == [at |-> "idle", n |-> 0, v |-> 0, t |-> 0, todo |-> {}, marks |-> {}, dead |-> {}]
Cnt(n) == tabs[cur][n]

Init ==
  /\ mut \in {Muts[i] : i \in DOMAIN Muts}
  /\ tabs = [t \in 0..1 |-> [n \in Ids |-> 0]] /\ cur = 0
  /\ act = {} /\ sat = {} /\ owner = ""
  /\ live = [n \in Ids |-> 0] /\ pend = [n \in Ids |-> 0]
  /\ m = Idle /\ f = Idle

Lock(who, free) == IF free THEN UNCHANGED owner ELSE owner = "" /\ owner' = who
Unlock(who) == owner' = IF owner = who THEN "" ELSE owner

(* Retnode: lock, read the count, write it, unlock.  A node that was free  *)
(* is made first, with a count of 0.                                       *)
RetStart(n) ==
  /\ m.at = "idle" /\ live[n] + pend[n] < MaxRefs
  /\ act' = act \cup {n}
  /\ m' = [m EXCEPT !.at = "ret-lock", !.n = n, !.v = Cnt(n)]
  /\ UNCHANGED <<mut, tabs, cur, live, pend, sat, owner, f>>
RetLock ==
  /\ m.at = "ret-lock" /\ Lock("main", mut = "ret-nolock")
  /\ m' = [m EXCEPT !.at = "ret-read"]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, f>>
RetRead ==
  /\ m.at = "ret-read"
  /\ m' = [m EXCEPT !.at = "ret-write", !.v = IF mut = "read-early" THEN @ ELSE Cnt(m.n)]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, f>>
RetWrite ==
  /\ m.at = "ret-write"
  /\ IF m.v < MaxCount
     THEN /\ tabs' = [tabs EXCEPT ![cur][m.n] = m.v + 1]
          /\ sat' = IF m.v + 1 = MaxCount THEN sat \cup {m.n} ELSE sat
     ELSE UNCHANGED <<tabs, sat>>
  /\ live' = [live EXCEPT ![m.n] = @ + 1]
  /\ Unlock("main") /\ m' = Idle
  /\ UNCHANGED <<mut, cur, act, pend, f>>

(* a reference that was not counted has no finalizer: those that were made *)
(* after the count reached its maximum, which is never decremented         *)
DropRef(n) ==
  /\ m.at = "idle" /\ live[n] > 0
  /\ live' = [live EXCEPT ![n] = @ - 1]
  /\ pend' = [pend EXCEPT ![n] = IF mut = "cap" /\ Cnt(n) > 1 /\ n \notin sat THEN @ ELSE @ + 1]
  /\ UNCHANGED <<mut, tabs, cur, act, sat, owner, m, f>>

(* a finalizer: lock, read, write, unlock *)
FinStart(n) ==
  /\ f.at = "idle" /\ pend[n] > 0
  /\ f' = [f EXCEPT !.at = "fin-lock", !.n = n, !.t = cur]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, m>>
FinLock ==
  /\ f.at = "fin-lock" /\ Lock("fin", mut = "fin-nolock")
  /\ f' = [f EXCEPT !.at = "fin-read", !.t = IF mut = "stale-table" THEN @ ELSE cur]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, m>>
FinRead ==
  /\ f.at = "fin-read"
  /\ f' = [f EXCEPT !.at = "fin-write", !.v = tabs[f.t][f.n]]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, m>>
FinWrite ==
  /\ f.at = "fin-write"
  /\ tabs' = IF f.v > 0 /\ (f.v < MaxCount \/ mut = "dec-saturated") THEN [tabs EXCEPT ![f.t][f.n] = f.v - 1] ELSE tabs
  /\ pend' = [pend EXCEPT ![f.n] = @ - 1]
  /\ Unlock("fin") /\ f' = Idle
  /\ UNCHANGED <<mut, cur, act, live, sat, m>>

(* A collection reads the counts one by one, each under the lock, then     *)
(* frees the nodes that are not marked.  dead is a ghost: the nodes that   *)
(* must be freed.                                                          *)
GcStart ==
  /\ m.at = "idle" /\ act # {}
  /\ m' = [m EXCEPT !.at = IF mut = "sweep-first" THEN "gc-sweep" ELSE "gc-read", !.todo = act,
                    !.dead = {n \in act \ sat : live[n] = 0 /\ pend[n] = 0}]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, f>>
GcRead ==
  /\ m.at = "gc-read" /\ m.todo # {} /\ owner = ""
  /\ \E n \in m.todo :
       m' = [m EXCEPT !.todo = @ \ {n}, !.marks = IF Cnt(n) > 0 /\ mut # "no-count-gc" THEN @ \cup {n} ELSE @]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, f>>
GcSweep ==
  /\ m.at \in {"gc-read", "gc-sweep"} /\ (m.at = "gc-read" => m.todo = {})
  /\ act' = act \cap m.marks
  /\ m' = [m EXCEPT !.at = "gc-end"]
  /\ UNCHANGED <<mut, tabs, cur, live, pend, sat, owner, f>>
GcEnd == /\ m.at = "gc-end" /\ m' = Idle /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, owner, f>>

(* A growth: lock, copy the counts one by one, change the table, unlock.   *)
GrowStart ==
  /\ m.at = "idle" /\ act # {} /\ Lock("main", mut = "copy-nolock")
  /\ m' = [m EXCEPT !.at = "grow", !.todo = Ids]
  /\ UNCHANGED <<mut, tabs, cur, act, live, pend, sat, f>>
GrowCopy ==
  /\ m.at = "grow"
  /\ \E n \in m.todo :
       /\ tabs' = [tabs EXCEPT ![1 - cur][n] = tabs[cur][n]]
       /\ m' = [m EXCEPT !.todo = @ \ {n}]
  /\ UNCHANGED <<mut, cur, act, live, pend, sat, owner, f>>
GrowEnd ==
  /\ m.at = "grow" /\ m.todo = {}
  /\ cur' = 1 - cur /\ Unlock("main") /\ m' = Idle
  /\ UNCHANGED <<mut, tabs, act, live, pend, sat, f>>

(* Good states                                                             *)
Quiet == m.at = "idle" /\ f.at = "idle"
NoneLost == Quiet => \A n \in Ids \ sat : Cnt(n) = live[n] + pend[n]
NoneFreed == \A n \in Ids : live[n] > 0 => n \in act
AllFreed == m.at = "gc-end" => m.dead \cap act = {}
Kept == \A n \in sat : Cnt(n) = MaxCount
Good == NoneLost /\ NoneFreed /\ AllFreed /\ (Quiet => Kept)

Next == /\ Good
        /\ \/ \E n \in Ids : RetStart(n) \/ DropRef(n) \/ FinStart(n)
           \/ RetLock \/ RetRead \/ RetWrite \/ FinLock \/ FinRead \/ FinWrite
           \/ GcStart \/ GcRead \/ GcSweep \/ GcEnd \/ GrowStart \/ GrowCopy \/ GrowEnd
Spec == Init /\ [][Next]_vars

Nr(x) == CHOOSE i \in DOMAIN Muts : Muts[i] = x
Refute == Good \/ TLCSet(Nr(mut), TRUE)
Right == mut = "none" => Good
AllRefuted == \A i \in 2..Len(Muts) : TLCGet(i) \/ (PrintT(<<"NOT REFUTED", Muts[i]>>) /\ FALSE)
ASSUME \A i \in DOMAIN Muts : TLCSet(i, FALSE)
=============================================================================
