------------------------------- MODULE TraceCmp -------------------------------
(***************************************************************************)
(* Runs of the same programs that must be indistinguishable: under several *)
(* options and build variants (C06), or alone, interleaved with programs   *)
(* on other BDDs, and concurrently with them (C15).  The runs advance in   *)
(* lock step; at each step every run must show the same observation: what  *)
(* remains of an event when everything that belongs to the representation  *)
(* (ids, counters, sizes of tables) is hidden.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Gate == IOEnv.GATE
N == atoi(IOEnv.NTRACES)
Logs == [i \in 1..N |-> ndJsonDeserialize(IOEnv.TRACE \o "." \o ToString(i))]

VARIABLES l, ids    \* ids: run -> identities of the replacers created so far
vars == <<l, ids>>

Count == TLCSet(1, TLCGet(1) + 1)
Req(name, cond) == IF cond THEN Count ELSE PrintT(<<"REJECTED", l, name>>) /\ FALSE

Hidden == {"id", "gh", "gc", "al", "pr", "us", "fr", "gcs", "ref", "roots", "edges", "nodesize", "cachesize",
           "cacheratio", "minfree", "maxinc", "maxsize", "lim", "rid", "pan", "cubes", "nodes"}
RangeS(q) == {q[i] : i \in DOMAIN q}
Stopped(e) == e.fail > 0 /\ e.ret # "nil"
Levels(e) == {<<v, Cardinality({x \in RangeS(e.nodes) : x[1] > 1 /\ x[2] = v})>> : v \in {y[2] : y \in {x \in RangeS(e.nodes) : x[1] > 1}}}

(* What a user can see of an event. An enumeration is a set, whatever the  *)
(* order; the diagram of a node is known by its digest (sh), its size and  *)
(* the number of nodes of each level.                                      *)
View(e) ==
  [shown |-> [k \in DOMAIN e \ Hidden |-> e[k]],
   sat   |-> IF e.e # "Allsat" \/ "cubes" \notin DOMAIN e THEN <<{}, 0>>
             ELSE IF Stopped(e) THEN <<{}, Len(e.cubes)>> ELSE <<RangeS(e.cubes), Len(e.cubes)>>,
   graph |-> IF e.e \in {"Allnodes", "Print"} /\ e.as # <<>> /\ ~(e.e = "Allnodes" /\ Stopped(e)) THEN Levels(e) ELSE {}]

Line(i) == Logs[i][l]
Init == l = 1 /\ ids = [i \in 1..N |-> {}] /\ TLCSet(1, 0)

Next ==
  /\ \E i \in 1..N : l <= Len(Logs[i])
  /\ l' = l + 1
  /\ Req("every run goes on", \A i \in 1..N : l <= Len(Logs[i]))
  /\ Req("no crash, no race", \A i \in 1..N : Line(i).e \notin {"Crash", "Race", "Hang"})
  /\ Req("every run shows the same call", \A i \in 2..N : Line(i).e = Line(1).e)
  /\ LET v == View(Line(1)) IN
     Req("every run shows the same", \A i \in 2..N : View(Line(i)) = v)
  /\ IF Line(1).e = "NewRep" /\ Line(1).res = "ok"
     THEN /\ Req("replacers have distinct identities", Gate = "C06" \/ \A i \in 1..N : Line(i).rid \notin ids[i])
          /\ ids' = [i \in 1..N |-> ids[i] \cup {Line(i).rid}]
     ELSE IF Line(1).e = "Burst" /\ Line(1).res = "ok" /\ Gate = "C15"
     THEN \* many replacers, each one applied to the same diagram
          /\ Req("replacers have distinct identities",
                 \A i \in 1..N : Cardinality(RangeS(Line(i).rid)) = Len(Line(i).rid) /\ RangeS(Line(i).rid) \cap ids[i] = {})
          /\ Req("each replacer does its own substitution",
                 \A i \in 1..N : Line(i).er \/ Line(i).wrong = 0)
          /\ ids' = [i \in 1..N |-> ids[i] \cup RangeS(Line(i).rid)]
     ELSE UNCHANGED ids

Spec == Init /\ [][Next]_vars

Longest == CHOOSE n \in {Len(Logs[i]) : i \in 1..N} : \A i \in 1..N : Len(Logs[i]) <= n
Accepted ==
  /\ PrintT(<<"CHECKED", TLCGet(1)>>)
  /\ LET d == TLCGet("stats").diameter IN
     IF d - 1 = Longest THEN TRUE
     ELSE /\ PrintT(<<"FAILED-AT", d>>)
          /\ FALSE
==============================================================================
