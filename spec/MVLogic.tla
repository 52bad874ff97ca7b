------------------------------ MODULE MVLogic ------------------------------
(***************************************************************************)
(* Multi-valued propositional logic: the meaning of problems, literals,     *)
(* clauses and partial assignments.  Everything here is a pure definition.  *)
(*                                                                          *)
(* A problem has variables 1..n; dom is the sequence of domain sizes, so    *)
(* variable v ranges over 0 .. dom[v]-1.  A literal is a tuple              *)
(* <<v, S, form, d>>: "v takes a value in S", written v=d (form 1), v!=d    *)
(* (form 0) or as a set (form 2, the bitset solver).  Only v and S matter   *)
(* to the meaning; the written form matters to the heuristics, which count  *)
(* v=0 and v!=1 separately even when v has two values.  A clause is a       *)
(* sequence of literals (the order matters only to the lazy heuristic).     *)
(*                                                                          *)
(* A partial assignment is its "live" function: live[v] is the set of       *)
(* values still possible for v.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Values(dom, v) == 0 .. (dom[v] - 1)
Everything(dom) == [v \in DOMAIN dom |-> 0 .. (dom[v] - 1)]

Eq(v, d) == <<v, {d}, 1, d>>
Neq(dom, v, d) == <<v, Values(dom, v) \ {d}, 0, d>>
SetLit(v, S) == <<v, S, 2, 0>>
Negation(dom, l) == CASE l[3] = 1 -> Neq(dom, l[1], l[4])
                      [] l[3] = 0 -> Eq(l[1], l[4])
                      [] OTHER -> SetLit(l[1], Values(dom, l[1]) \ l[2])

(* The same statement, however written. *)
Same(l, m) == l[1] = m[1] /\ l[2] = m[2]
Lits(c) == { <<c[k][1], c[k][2]>> : k \in DOMAIN c }

(* Status of a literal under a partial assignment. *)
TrueIn(live, l)  == live[l[1]] \subseteq l[2]
FalseIn(live, l) == live[l[1]] \intersect l[2] = {}
UndefIn(live, l) == ~TrueIn(live, l) /\ ~FalseIn(live, l)

ClauseTrue(live, c)  == \E k \in DOMAIN c : TrueIn(live, c[k])
ClauseFalse(live, c) == \A k \in DOMAIN c : FalseIn(live, c[k])
NumUndef(live, c) == Cardinality({ k \in DOMAIN c : UndefIn(live, c[k]) })
(* Exactly one undecided literal and no true one. *)
ClauseUnit(live, c)  == ~ClauseTrue(live, c) /\ NumUndef(live, c) = 1

(* Nothing left to do by propagation on clause c. *)
ClauseQuiet(live, c) == ClauseTrue(live, c) \/ NumUndef(live, c) >= 2

Narrow(live, l) == [live EXCEPT ![l[1]] = @ \intersect l[2]]
Falsify(live, l) == [live EXCEPT ![l[1]] = @ \ l[2]]

(* Total assignments: functions v |-> value. *)
Satisfies(a, cs) ==
  \A i \in DOMAIN cs : \E k \in DOMAIN cs[i] : a[cs[i][k][1]] \in cs[i][k][2]
LegalAssignment(dom, a) ==
  /\ DOMAIN a = DOMAIN dom
  /\ \A v \in DOMAIN dom : a[v] \in Values(dom, v)

(* The definition of satisfiability; used as the oracle on small problems   *)
(* and to check the search procedure below against it.                      *)
RECURSIVE SomeModel(_, _, _, _)
SomeModel(dom, cs, v, a) ==
  IF v > Len(dom) THEN Satisfies(a, cs)
  ELSE \E d \in Values(dom, v) : SomeModel(dom, cs, v + 1, Append(a, d))
SatByDef(dom, cs) == SomeModel(dom, cs, 1, <<>>)

(* Propagation for the oracle: a clause whose non-false literals all speak   *)
(* about one variable narrows that variable.  An empty live set marks a      *)
(* contradiction.                                                            *)
Contradiction(live) == \E v \in DOMAIN live : live[v] = {}
NarrowBy(live, c) ==
  LET open == { k \in DOMAIN c : ~FalseIn(live, c[k]) }
      vs == { c[k][1] : k \in open }
  IN IF vs = {} THEN [v \in DOMAIN live |-> {}]
     ELSE IF Cardinality(vs) > 1 THEN live
     ELSE LET v == CHOOSE x \in vs : TRUE
          IN [live EXCEPT ![v] = @ \intersect UNION { c[k][2] : k \in open }]
OnePass(live, cs) == FoldLeft(LAMBDA acc, c : IF Contradiction(acc) THEN acc ELSE NarrowBy(acc, c), live, cs)
(* Passes until nothing changes; each pass but the last removes a value. *)
Propagated(live, cs) ==
  LET pass(acc) == LET next == OnePass(acc[1], cs) IN <<next, next = acc[1] \/ Contradiction(next)>>
      most == FoldLeft(LAMBDA n, x : n + Cardinality(x), 1, live)
  IN FoldLeft(LAMBDA acc, x : IF acc[2] THEN acc ELSE pass(acc), <<live, FALSE>>, [x \in 1 .. most |-> x])[1]

(* Decision procedure for the oracle (split on a value of a variable of an   *)
(* unsatisfied clause). *)
RECURSIVE SatFrom(_, _)
(* (Quantifying over singletons makes TLC evaluate these values once.) *)
SatFrom(live, cs) ==
  \E p \in { Propagated(live, cs) } :
    /\ ~Contradiction(p)
    /\ \E rest \in { SelectSeq(cs, LAMBDA c : ~ClauseTrue(p, c)) } :
         \/ rest = <<>>
         \/ LET c == rest[1]
                k == CHOOSE x \in DOMAIN c : ~FalseIn(p, c[x])
                v == c[k][1]
            IN \/ SatFrom([p EXCEPT ![v] = @ \intersect c[k][2]], rest)
               \/ SatFrom([p EXCEPT ![v] = @ \ c[k][2]], rest)

Satisfiable(dom, cs) == SatFrom(Everything(dom), cs)

(* c holds in every assignment satisfying cs. *)
Implies(dom, cs, c) ==
  LET live0 == FoldLeft(Falsify, Everything(dom), c)
  IN Contradiction(live0) \/ ~SatFrom(live0, cs)

(* Remove repeated literals, keeping first occurrences (what a clause of the *)
(* file means to the counter and watched-literal solver). *)
Repeats(c) == Cardinality({ c[k] : k \in DOMAIN c }) < Len(c)
Dedup(c) == IF ~Repeats(c) THEN c ELSE FoldLeft(LAMBDA acc, l : IF \E k \in DOMAIN acc : acc[k] = l THEN acc ELSE Append(acc, l), <<>>, c)

(* Merge literals over the same variable and drop unsatisfiable ones (what   *)
(* it means to the bitset solver). *)
MergeVars(c) ==
  IF Cardinality({ c[k][1] : k \in DOMAIN c }) = Len(c)
  THEN LET some == SelectSeq(c, LAMBDA l : l[2] # {})
       IN [k \in DOMAIN some |-> SetLit(some[k][1], some[k][2])]
  ELSE FoldLeft(LAMBDA acc, l :
      IF l[2] = {} THEN acc
      ELSE IF \E k \in DOMAIN acc : acc[k][1] = l[1]
      THEN LET k == CHOOSE x \in DOMAIN acc : acc[x][1] = l[1]
           IN [acc EXCEPT ![k] = SetLit(l[1], @[2] \union l[2])]
      ELSE Append(acc, SetLit(l[1], l[2])), <<>>, c)
=============================================================================
