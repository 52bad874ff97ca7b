----------------------------- MODULE MVAnalysis -----------------------------
(***************************************************************************)
(* Conflict analysis, as an algorithm: from a false clause, resolve away    *)
(* the literal falsified last until one literal of the current level is     *)
(* left (extended resolution over finite domains).  MVSearch states what a  *)
(* learned clause has to be; this module is one way to compute such a       *)
(* clause, the one the solvers use, and MVSearchMC checks that it does.     *)
(***************************************************************************)
EXTENDS MVSearch

VARIABLE why    \* why[ix]: what the ix-th narrowing was made for: a clause
                \* number, 0 for a choice, -1 for the only value left

(* The narrowing to blame for the false literal l.  In the src solver v!=d   *)
(* is falsified by the assignment of d to v, not by the exclusion of the     *)
(* last other value just before.                                             *)
Blame(l) ==
  LET h == hist[l[1]] IN
  IF l[3] = 0
  THEN LET js == { j \in DOMAIN h : h[j].eq } IN
       IF js = {} THEN FalseIx(l) ELSE h[CHOOSE j \in js : \A i \in js : j <= i].ix
  ELSE FalseIx(l)
NarrowingOf(v, ix) == LET h == hist[v] IN CHOOSE j \in DOMAIN h : h[j].ix = ix

(* The clause that forced narrowing ix of variable v, where lit is what was  *)
(* assigned.                                                                 *)
Reason(v, ix, lit) ==
  CASE why[ix] = 0  -> <<lit, Negation(dom, lit)>>
    [] why[ix] = -1 -> [k \in 1 .. dom[v] |-> Eq(v, k - 1)]
    [] OTHER        -> cls[why[ix]]

(* Resolution on literal l of c: literals of c that imply l go, and of the    *)
(* reason those remain that are compatible with l.                            *)
Resolve(c, l, r) ==
  IF IsBV
  THEN LET rest == SelectSeq(c, LAMBDA x : x[1] # l[1])
           add == SelectSeq([k \in DOMAIN r |-> IF r[k][1] = l[1] THEN SetLit(l[1], r[k][2] \intersect l[2]) ELSE r[k]],
                            LAMBDA x : x[2] # {})
       IN MergeVars(rest \o add)
  ELSE LET rest == SelectSeq(c, LAMBDA x : ~(x[1] = l[1] /\ x[2] \subseteq l[2]))
           add == SelectSeq(r, LAMBDA x : ~(x[1] = l[1] /\ x[2] \intersect l[2] = {}))
       IN Dedup(rest \o add)

(* given[ix]: the literal assigned by the ix-th narrowing.  The narrowings to  *)
(* blame go back in time; several literals may share one.                      *)
OneStep(c, given) ==
  IF Cardinality(FalsifiedNow(c)) <= 1 THEN c
  ELSE LET k == CHOOSE x \in DOMAIN c : \A y \in DOMAIN c : Blame(c[y]) <= Blame(c[x])
           ix == Blame(c[k])
       IN Resolve(c, c[k], Reason(c[k][1], ix, given[ix]))
Analyse(c, given) == FoldLeft(LAMBDA acc, x : OneStep(acc, given), c, 
                              [x \in 1 .. now + FoldLeft(LAMBDA a, b : a + b, 2, dom) |-> x])
=============================================================================
