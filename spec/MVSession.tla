------------------------------ MODULE MVSession ------------------------------
(***************************************************************************)
(* Sessions with the solvers, seen from outside: a run is a program, a file  *)
(* and a command line; what is observed is the exit status, the verdict, the *)
(* model, the statistics and (with -verbose) the search.                     *)
(*                                                                          *)
(* The specification says what a run may depend on: the program, the problem *)
(* the file states and the meaning of the command line.  The state is the    *)
(* memory of what was observed for each such key; a run whose key was seen   *)
(* before must be observed to do the same again.                             *)
(***************************************************************************)
EXTENDS MVFormat, Json, IOUtils

VARIABLES seen,    \* sequence of [key, obs]
          i

Enforced == { IOEnv.PROPERTY }
Trace == ndJsonDeserialize(IOEnv.TRACE)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE

-----------------------------------------------------------------------------
(* The meaning of a command line: words is a sequence of <<option>> or       *)
(* <<option, argument>>.                                                     *)
Heuristics == [k \in {"-vsids", "-vsids_pos", "-lazy"} |->
                 IF k = "-vsids" THEN "vsids" ELSE IF k = "-lazy" THEN "lazy" ELSE "vsids_pos"]
LastOf(ws, names, default) ==
  LET m == SelectSeq(ws, LAMBDA w : w[1] \in names)
  IN IF m = <<>> THEN default ELSE m[Len(m)][Len(m[Len(m)])]
Given(ws, name) == \E k \in DOMAIN ws : ws[k][1] = name
Meaning(prog, ws) ==
  LET alg == ws[1][1]      \* -solvenc or -solvech comes first
      wl == prog = "src" /\ alg = "-solvenc" /\ Given(ws, "-wl")
      h == LastOf(ws, DOMAIN Heuristics, "")
  IN [alg |-> IF prog = "bitvec" THEN "bv" ELSE IF alg = "-solvech" THEN "ch" ELSE IF wl THEN "wl" ELSE "nc",
      heur |-> IF h # "" THEN Heuristics[h]
               ELSE IF prog = "bitvec" THEN "lazy" ELSE IF wl THEN "vsids" ELSE "bk",
      \* both spellings; no threshold is threshold 0
      k |-> IF alg = "-solvech" THEN "0" ELSE LastOf(ws, {"-restart", "-restarts"}, "0"),
      limit |-> LastOf(ws, {"-time"}, "none")]
(* -verbose, -model, -var, -clause and -clausesize mean nothing to the search. *)

(* A limit that the run did not come near means nothing either: the sessions  *)
(* use only such limits.                                                      *)
Key(e) == <<e.prog, Normal(e.prog, FRead(e.lines)), [Meaning(e.prog, e.words) EXCEPT !.limit = "none"]>>

(* Same observation; the search is seen only in verbose runs. *)
SameObs(a, b) ==
  /\ a.rc = b.rc /\ a.verdicts = b.verdicts /\ a.verified = b.verified
  /\ a.model = b.model /\ a.stats = b.stats
  /\ (a.search # "" /\ b.search # "") => a.search = b.search
(* What is remembered: once a search was seen, keep it. *)
Merge(a, b) == IF a.search = "" THEN b ELSE a

-----------------------------------------------------------------------------
(* The run takes the file for what it says. *)
ToSetOf(s) == { s[k] : k \in DOMAIN s }
Right(e) ==
  LET p == FRead(e.lines)
      v == e.obs.verdicts
      m == [k \in DOMAIN e.obs.model |-> <<e.obs.model[k][1], ToSetOf(e.obs.model[k][2])>>]
  IN
  /\ e.obs.rc = 0
  /\ v = <<"SAT">> \/ v = <<"UNSAT">>
  /\ v = <<"SAT">> =>
       /\ { m[k][1] : k \in DOMAIN m } \ {0} = DOMAIN p.dom
       /\ \A j, k \in DOMAIN m : j # k => m[j][1] # m[k][1]
       /\ LET val == [x \in DOMAIN p.dom |-> m[CHOOSE k \in DOMAIN m : m[k][1] = x][2]] IN
          /\ \A x \in DOMAIN p.dom : val[x] # {} /\ val[x] \subseteq Values(p.dom, x)
          /\ \A c \in ToSetOf(p.cls) : \E k \in DOMAIN c : val[c[k][1]] \subseteq c[k][2]
                                    \/ (e.prog = "bitvec" /\ val[c[k][1]] \subseteq UNION { l[2] : l \in { c[q] : q \in { y \in DOMAIN c : c[y][1] = c[k][1] } } })
  /\ e.decide => (v = <<"SAT">> <=> Satisfiable(p.dom, p.cls))
  /\ e.obs.stats.vars = Len(p.dom)
  /\ IF e.words[1][1] = "-solvech" THEN e.obs.stats.cls = Len(p.cls) ELSE e.obs.stats.cls >= Len(p.cls)

Run(e) ==
  LET key == TLCEval(Key(e))
      at == { k \in DOMAIN seen : seen[k].key = key }
  IN
  /\ Assert(FWellFormed(e.lines), "the session's file is not well-formed")
  /\ Assert(e.again => at # {}, "the session meant to repeat a run and did not")
  /\ G({"C14"}, e.obs.rc = 0)
  /\ G({"C14", "C15"}, \A k \in at : SameObs(seen[k].obs, e.obs))
  /\ G({"C15"}, Right(e))
  /\ seen' = TLCEval(IF at = {} THEN Append(seen, [key |-> key, obs |-> e.obs])
                     ELSE [k \in DOMAIN seen |-> IF k \in at THEN [seen[k] EXCEPT !.obs = Merge(@, e.obs)] ELSE seen[k]])

Ev(e) == CASE e.e = "new" -> seen' = <<>>
           [] e.e = "run" -> Run(e)

Init == seen = <<>> /\ i = 1
Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<seen, i>>
View == i
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
