------------------------------ MODULE MVGen ------------------------------
(***************************************************************************)
(* The benchmark generator.  A request is                                   *)
(*   [bool, var, clause, size, sat, domain, drand]                          *)
(* (bool FALSE: DIMACS CNF; TRUE: finite domains); Acceptable says which      *)
(* files answer it.                                                          *)
(***************************************************************************)
EXTENDS MVFormat, Json, IOUtils

VARIABLES made, i     \* made: what the last request produced
Enforced == { IOEnv.PROPERTY }
Trace == ndJsonDeserialize(IOEnv.TRACE)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE

Distinct(c) == \A j, k \in DOMAIN c : j # k => c[j] # c[k]
DistinctVars(c) == \A j, k \in DOMAIN c : j # k => c[j][1] # c[k][1]

FiniteShape(q, lines) ==
  /\ FWellFormed(lines)
  /\ Of(lines, "p")[1].a = q.var /\ Of(lines, "p")[1].b = q.clause
  /\ LET p == FRead(lines) IN
     /\ Len(p.dom) = q.var /\ Len(p.cls) = q.clause
     /\ \A v \in DOMAIN p.dom : IF q.drand THEN p.dom[v] \in 1 .. q.domain ELSE p.dom[v] = q.domain
     /\ \A k \in DOMAIN p.cls : Len(p.cls[k]) = q.size /\ DistinctVars(p.cls[k])
BooleanShape(q, lines) ==
  /\ BWellFormed(lines)
  /\ Of(lines, "p")[1].a = q.var /\ Of(lines, "p")[1].b = q.clause
  /\ LET cs == BClauses(lines) IN
     /\ Len(cs) = q.clause
     /\ \A k \in DOMAIN cs : Len(cs[k]) = q.size /\ Distinct(cs[k]) /\ \A m \in DOMAIN cs[k] : Abs(cs[k][m]) \in 1 .. q.var

Problem(q, lines) ==
  IF q.bool THEN FRead(lines) ELSE BProblem(q.var, BClauses(lines))

(* A witness, when one is offered, settles satisfiability. *)
IsSatisfiable(p, witness) ==
  IF LegalAssignment(p.dom, witness) /\ Satisfies(witness, p.cls) THEN TRUE ELSE Satisfiable(p.dom, p.cls)

Request(e) ==
  LET q == e.q
      shaped == TLCEval(IF q.bool THEN FiniteShape(q, e.lines) ELSE BooleanShape(q, e.lines))
      meaningful == IF q.bool THEN FMeaningful(e.lines)
                    ELSE BWellFormed(e.lines) /\ BUsed(BClauses(e.lines)) \subseteq 1 .. q.var
  IN
  IF q.size > (IF q.bool THEN q.var ELSE 2 * q.var)
  THEN \* no clause can have that many different variables, or literals
       /\ G({"C20"}, e.lines = <<>>)
       /\ made' = [q |-> q]
  ELSE /\ G({"C20"}, e.rc = 0 /\ shaped)
       /\ G({"C21"}, q.sat => e.rc = 0 /\ (meaningful => IsSatisfiable(Problem(q, e.lines), e.witness)))
       /\ made' = [q |-> q]

Ev(e) == CASE e.e = "new" -> UNCHANGED made
           [] e.e = "gen" -> Request(e)
Init == made = <<>> /\ i = 1
Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<made, i>>
View == i
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
