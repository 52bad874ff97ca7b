------------------------------ MODULE MVSearch ------------------------------
(***************************************************************************)
(* The search of the finite-domain solvers, as a transition system.         *)
(*                                                                          *)
(* One module covers chronological search, non-chronological search with    *)
(* clause learning (with counters or with watched literals: the data        *)
(* structure is not observable) and the bitset solver, whose literals are   *)
(* arbitrary value sets.                                                    *)
(*                                                                          *)
(* Every action has a total effect.  What a correct solver must establish   *)
(* at an action is written as guards, each labelled with the property it    *)
(* belongs to; a guard binds only when its label is in Enforced.  The       *)
(* design is model-checked with all guards (MVSearchMC); traces of the real *)
(* solvers are checked with the guards of one property at a time (MVTrace), *)
(* so that a rejected trace names the property it breaks.                   *)
(***************************************************************************)
EXTENDS MVLogic, MVHeur

CONSTANT Enforced

VARIABLES
  mode,    \* [alg, heur, k, limit, log, oracle]: the configuration of the run
  dom,     \* domain sizes
  cls,     \* input clauses followed by learned clauses
  norig,   \* number of input clauses
  live,    \* live[v]: values still possible for v
  hist,    \* hist[v]: how live[v] came about: <<[ix, lev, live, eq]>>
  now,     \* number of narrowings so far in this run (orders them)
  lev,     \* current level
  opens,   \* opens[L]: the decision that opened level L
  expect,  \* what the next step has to be
  cnt,     \* step counters
  act,     \* activities of the heuristics
  clk,     \* clock readings
  phase    \* "idle" | "run"

vars == <<mode, dom, cls, norig, live, hist, now, lev, opens, expect, cnt, act, clk, phase>>

-----------------------------------------------------------------------------
(* Guards. *)
(* (The comparison with TRUE makes TLC evaluate a guard as a whole instead  *)
(* of splitting it into one successor per disjunct.)                        *)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE
IsBV == mode.alg = "bv"
Label(src, bv) == IF IsBV THEN bv ELSE src
(* Some obligations are also owed to backtracking and to restarts: once the *)
(* run has backtracked they depend on what was restored.                    *)
Back == (IF cnt.back > 0 THEN {"C08"} ELSE {}) \union (IF cnt.rest > 0 THEN {"C10"} ELSE {})
BackBV == IF cnt.rest > 0 THEN {"C25"} ELSE {}

-----------------------------------------------------------------------------
(* Derived notions. *)
ZeroCounts == [dec |-> 0, unit |-> 0, ent |-> 0, back |-> 0, rest |-> 0]

Base(d) == [v \in DOMAIN d |-> <<[ix |-> 0, lev |-> 0, live |-> Values(d, v), eq |-> FALSE]>>]

(* Index into hist[v] of the narrowing that made the false literal l false. *)
FalseAt(l) == LET h == hist[l[1]]
                  js == { j \in DOMAIN h : h[j].live \intersect l[2] = {} }
              IN CHOOSE j \in js : \A i \in js : j <= i
FalseLevel(l) == hist[l[1]][FalseAt(l)].lev
FalseIx(l)    == hist[l[1]][FalseAt(l)].ix

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* The level a false clause asks to return to: the highest level at which   *)
(* one of its literals became false, below the current level.               *)
LevelsBelow(c) == { FalseLevel(c[k]) : k \in DOMAIN c } \ {lev}
AssertingLevel(c) == IF LevelsBelow(c) = {} THEN 0 ELSE MaxOf(LevelsBelow(c))
(* The literals of a false clause that became false at the current level.   *)
FalsifiedNow(c) == { l \in Lits(c) : FalseLevel(l) = lev }

(* In the src solver a variable with one value left is assigned explicitly. *)
Assigned(v) == hist[v][Len(hist[v])].eq

(* No consequence is pending. *)
Complete ==
  /\ \A i \in DOMAIN cls : ClauseQuiet(live, cls[i])
  /\ ~IsBV => \A v \in DOMAIN dom : Cardinality(live[v]) = 1 => Assigned(v)

SomeClauseFalse == \E i \in DOMAIN cls : ClauseFalse(live, cls[i])

RestartDue(n) == mode.k > 0 /\ n % mode.k = 0

Learned == Len(cls) - norig

(* What a clause of the file means to the solver. *)
ReadClause(alg, c) == IF alg = "bv" THEN MergeVars(c) ELSE Dedup(c)

-----------------------------------------------------------------------------
(* Beginning of a run on problem (d, f) in configuration m. *)
Begin(m, d, f) ==
  /\ mode' = m /\ dom' = d /\ norig' = Len(f)
  /\ cls' = TLCEval([i \in DOMAIN f |-> ReadClause(m.alg, f[i])])
  /\ live' = TLCEval(Everything(d)) /\ hist' = TLCEval(Base(d))
  /\ now' = 0 /\ lev' = 0 /\ opens' = <<>> /\ expect' = [what |-> "any"]
  /\ cnt' = ZeroCounts
  /\ act' = (IF m.log THEN TLCEval(InitialActivity(m.heur, d, [i \in DOMAIN f |-> ReadClause(m.alg, f[i])]))
              ELSE NoActivity)      \* without the log no decision is seen
  /\ clk' = [start |-> -1, last |-> -1, fresh |-> FALSE, seen |-> FALSE]
  /\ phase' = "run"

-----------------------------------------------------------------------------
(* A decision on literal l. *)
Decide(l) ==
  /\ G(Label({"C08"}, {"C24"}), expect.what \in {"any", "assert", "only"})
  /\ G(Label({"C07"}, {"C24"}), expect.what # "assert")
  /\ G(Label({"C06"}, {"C24"}), expect.what # "only")
  /\ G(Label({"C13"} \union Back \union (IF mode.alg = "ch" THEN {"C09"} ELSE {}), {"C24"}), UndefIn(live, l))
  /\ G(Label({"C06"} \union Back, {"C24"} \union BackBV), Complete)
  /\ G(Label({"C13"}, {"C25"}), PreferredDecision(mode, dom, live, cls, norig, act, l))
  /\ G(Label({"C11"}, {"C25"}), clk.seen => clk.fresh /\ (mode.limit >= 0 => clk.last - clk.start <= mode.limit))
  /\ lev' = lev + 1
  /\ opens' = Append(opens, l)
  /\ expect' = [what |-> "dec", lit |-> l]
  /\ cnt' = [cnt EXCEPT !.dec = @ + 1]
  /\ clk' = [clk EXCEPT !.fresh = FALSE]
  /\ UNCHANGED <<mode, dom, cls, norig, live, hist, now, act, phase>>

(* The narrowing all assignments share. *)
NarrowTo(l, L, isEq) ==
  LET v == l[1] IN \E new \in { live[v] \intersect l[2] } :
     /\ live' = [live EXCEPT ![v] = new]
     /\ hist' = [hist EXCEPT ![v] = Append(@, [ix |-> now + 1, lev |-> L, live |-> new, eq |-> isEq])]
     /\ now' = now + 1

(* What must follow the assignment of l: in the src solver a variable whose *)
(* last other value was just excluded is assigned at once. *)
After(l, isEq) ==
  IF ~IsBV /\ ~isEq /\ Cardinality(live[l[1]] \intersect l[2]) = 1
  THEN [what |-> "only", var |-> l[1]] ELSE [what |-> "any"]

(* The assignment that carries out a decision or the flip of one. *)
AssignChosen(l, L, isEq) ==
  /\ G(Label({"C08"}, {"C24"}), L = lev)
  /\ G(Label({"C13", "C09"}, {"C24"}), expect.what \in {"dec", "flip"} /\ Same(l, expect.lit))
  /\ NarrowTo(l, lev, isEq)
  /\ expect' = After(l, isEq)
  /\ UNCHANGED <<mode, dom, cls, norig, lev, opens, cnt, act, clk, phase>>

(* The assignment of literal l forced by clause c, which the trace claims   *)
(* to be cls[rid]. *)
AssignUnit(l, L, isEq, c, rid) ==
  /\ G(Label({"C06"}, {"C24"}), expect.what # "only")
  /\ G(Label({"C07"}, {"C24"}), expect.what = "assert" => rid = Len(cls))
  /\ G(Label({"C08"}, {"C24"}), L = lev)
  /\ G(Label(Back, {"C24"}), UndefIn(live, l))
  /\ G(Label({"C05"} \union Back, {"C24"}),
        /\ rid \in DOMAIN cls
        /\ Lits(cls[rid]) = Lits(c)
        /\ \E x \in Lits(c) : Same(x, l)
        /\ UndefIn(live, l)
        /\ \A x \in Lits(c) : ~Same(x, l) => FalseIn(live, x))
  /\ NarrowTo(l, lev, isEq)
  /\ expect' = After(l, isEq)
  /\ cnt' = [cnt EXCEPT !.unit = @ + 1]
  /\ UNCHANGED <<mode, dom, cls, norig, lev, opens, act, clk, phase>>

(* The assignment of the only value left. *)
AssignOnly(l, L, isEq) ==
  /\ G(Label({"C06"}, {"C24"}), expect.what = "only" => expect.var = l[1])
  /\ G(Label({"C07"}, {"C24"}), expect.what # "assert")
  /\ G(Label({"C08"}, {"C24"}), L = lev)
  /\ G(Label({"C05"} \union Back, {"C24"}), isEq /\ live[l[1]] = l[2] /\ Cardinality(l[2]) = 1 /\ ~Assigned(l[1]))
  /\ NarrowTo(l, lev, isEq)
  /\ expect' = [what |-> "any"]
  /\ cnt' = [cnt EXCEPT !.ent = @ + 1]
  /\ UNCHANGED <<mode, dom, cls, norig, lev, opens, act, clk, phase>>

(* The announcement that only value d is left for v. *)
Announce(l) ==
  /\ G(Label({"C05"} \union Back, {"C24"}), live[l[1]] = l[2])
  /\ UNCHANGED vars

(* Clause c, claimed to be cls[rid], is reported as conflicting at level L. *)
Conflict(c, L, rid) ==
  /\ G(Label({"C06"}, {"C24"}), expect.what # "only")
  /\ G(Label({"C07"}, {"C24"}), expect.what # "assert")
  /\ G(Label({"C08"}, {"C24"}), L = lev)
  /\ G(Label({"C05"} \union Back, {"C24"}),
        rid \in DOMAIN cls /\ Lits(cls[rid]) = Lits(c) /\ ClauseFalse(live, c))
  /\ expect' = [what |-> "conflict"]
  /\ UNCHANGED <<mode, dom, cls, norig, live, hist, now, lev, opens, cnt, act, clk, phase>>

(* Clause c is learned. *)
Learn(c) ==
  /\ G(Label({"C07"}, {"C24"}),
        /\ expect.what = "conflict"
        /\ lev > 0
        /\ ClauseFalse(live, c)
        /\ Cardinality(FalsifiedNow(c)) = 1)
  /\ G(Label({"C04"} \union (IF mode.oracle = "cert" THEN {"C01"} ELSE {}),
             {"C24"} \union (IF mode.oracle = "cert" THEN {"C22"} ELSE {})), Implies(dom, cls, c))
  /\ cls' = Append(cls, TLCEval(c))
  /\ act' = TLCEval(LearnActivity(mode.heur, dom, act, c))
  /\ expect' = [what |-> "back"]
  /\ UNCHANGED <<mode, dom, norig, live, hist, now, lev, opens, cnt, clk, phase>>

(* Forget everything above level b. *)
UndoTo(b) ==
  \E h \in { [v \in DOMAIN hist |-> SelectSeq(hist[v], LAMBDA e : e.lev <= b)] } :
     /\ hist' = h
     /\ live' = [v \in DOMAIN hist |-> h[v][Len(h[v])].live]
     /\ lev' = b
     /\ opens' = SubSeq(opens, 1, IF b < Len(opens) THEN b ELSE Len(opens))

(* The search announces a return to level b as its n-th backtrack and goes  *)
(* on at level post. *)
Backjump(b, n, post) ==
  LET c == cls[Len(cls)]
      due == RestartDue(cnt.back + 1)
      clean == Learned > 0 /\ ClauseFalse(live, c)
      goal == IF due THEN 0 ELSE b
      at == IF post = -1 THEN goal ELSE post   \* -1: the log does not tell
  IN
  /\ G(Label({"C07"}, {"C24"}), expect.what = "back" /\ clean /\ b < lev /\ b = AssertingLevel(c))
  /\ G(Label({"C12"}, {"C25"}), n = cnt.back + 1)
  /\ G(Label({"C10"}, {"C25"}), at = goal)
  /\ G(Label({"C08"}, {"C24"}), at = b \/ (mode.k > 0 /\ at = 0))
  /\ UndoTo(at)
  /\ expect' = [what |-> IF at = b THEN "assert" ELSE "any"]
  /\ cnt' = [cnt EXCEPT !.back = @ + 1, !.rest = IF due THEN @ + 1 ELSE @]
  /\ UNCHANGED <<mode, dom, cls, norig, now, act, clk, phase>>

(* Chronological search gives up the open decision of the current level and *)
(* turns to its negation l. *)
Flip(l) ==
  /\ G({"C06"}, expect.what # "only" \/ SomeClauseFalse)
  /\ G({"C08", "C09"}, lev > 0 /\ Len(opens) = lev)
  /\ G({"C09"}, lev > 0 /\ Len(opens) = lev /\ SomeClauseFalse /\ Same(l, Negation(dom, opens[lev])))
  /\ UndoTo(IF lev > 0 THEN lev - 1 ELSE 0)
  /\ expect' = [what |-> "flip", lit |-> l]
  /\ cnt' = [cnt EXCEPT !.back = @ + 1]
  /\ UNCHANGED <<mode, dom, cls, norig, now, act, clk, phase>>

(* The clock is read and shows t. *)
Clock(t) ==
  /\ clk' = [start |-> IF clk.seen THEN clk.start ELSE t, last |-> t, fresh |-> TRUE, seen |-> TRUE]
  /\ UNCHANGED <<mode, dom, cls, norig, live, hist, now, lev, opens, expect, cnt, act, phase>>

-----------------------------------------------------------------------------
(* End of a run.  e.verdict is the answer, e.rc the exit status, e.model    *)
(* the printed model as a sequence of <<variable, set of values>> in the    *)
(* order printed, e.verified the self-check line, e.stats the statistics.   *)

(* Verdict and problem agree.  mode.oracle says how this is decided:         *)
(*   full - by the decision procedure of MVLogic                             *)
(*   cert - a refutation: the learned clauses were checked one by one as     *)
(*          consequences when they were learned, and together they propagate *)
(*          to a contradiction                                               *)
(*   sat  - the problem was built around a solution                          *)
Original == SubSeq(cls, 1, norig)
AnswerRight(verdict) ==
  CASE verdict = "UNSAT" ->
         (CASE mode.oracle = "full"  -> ~Satisfiable(dom, Original)
            [] mode.oracle = "cert"  -> Contradiction(Propagated(Everything(dom), cls))
            [] mode.oracle = "sat"   -> FALSE
            [] OTHER                 -> TRUE)
    [] verdict = "SAT" -> mode.oracle = "full" => Satisfiable(dom, Original)
    [] OTHER -> TRUE

(* The printed model, ordered by variable: every variable once, with values  *)
(* of its domain.                                                            *)
OfVariables(m) == SelectSeq(m, LAMBDA x : ~(IsBV /\ x[1] = 0))
ModelTotal(m) ==
  /\ Len(m) = Len(dom)
  /\ \A v \in DOMAIN dom : m[v][1] = v /\ m[v][2] # {} /\ m[v][2] \subseteq Values(dom, v)
(* Every choice of values from the printed sets satisfies clause c.  The     *)
(* variables are chosen independently, so one of them has to do it alone.    *)
AlwaysTrue(m, c) == 
  \/ \E k \in DOMAIN c : m[c[k][1]][2] \subseteq c[k][2]
  \/ \E v \in { c[k][1] : k \in DOMAIN c } :
        m[v][2] \subseteq UNION { c[k][2] : k \in { j \in DOMAIN c : c[j][1] = v } }
GoodModel(printed) ==
  \E m \in { OfVariables(printed) } :
     /\ ModelTotal(m)
     /\ \A i \in 1 .. norig : AlwaysTrue(m, cls[i])
     /\ (~IsBV \/ mode.heur = "vsids_set") => \A v \in DOMAIN dom : Cardinality(m[v][2]) = 1

StatsRight(verdict, s) ==
  /\ s.dec = cnt.dec
  /\ s.unit = cnt.unit
  /\ s.ent = cnt.ent
  /\ s.back = cnt.back + (IF mode.alg = "ch" /\ verdict = "UNSAT" THEN 1 ELSE 0)
  /\ s.rest = cnt.rest
  /\ s.vars = Len(dom)
  /\ s.cls = Len(cls)

Verdicts == IF mode.limit >= 0 THEN {"SAT", "UNSAT", "TIMEOUT"} ELSE {"SAT", "UNSAT"}

(* The bitset solver represents domains of at most 64 values. *)
TooLarge == IsBV /\ \E v \in DOMAIN dom : dom[v] > 64
Refused(e) == e.rc > 0 /\ e.rc < 126 /\ e.verdicts = <<>>

EndRefused(e) ==
  /\ G({"C22"}, Refused(e))
  /\ phase' = "idle"
  /\ UNCHANGED <<mode, dom, cls, norig, live, hist, now, lev, opens, expect, cnt, act, clk>>

EndSolved(e) ==
  /\ G(Label({"C03"}, {"C22"}), e.rc = 0 /\ Len(e.verdicts) = 1 /\ e.verdict \in Verdicts)
  /\ G(Label(IF e.verdict = "UNSAT" THEN {"C01"} ELSE {}, {"C22"}), AnswerRight(e.verdict))
  /\ G(Label({"C10"}, {"C25"}), mode.k > 0 => AnswerRight(e.verdict))
  /\ G(Label({"C11"}, {"C25"}), mode.limit >= 0 => AnswerRight(e.verdict))
  /\ e.verdict = "SAT" =>
        /\ G(Label({"C02"}, {"C23"}), GoodModel(e.model) /\ e.verified = "CORRECT")
        /\ e.log =>
            /\ G(Label({"C06"} \union Back, {"C24"}), expect.what # "only" /\ Complete)
            /\ G(Label({"C07"}, {"C24"}), expect.what # "assert")
            /\ G({"C08"}, ~IsBV /\ cnt.back > 0 /\ mode.heur \in {"bk", "vsids", "vsids_pos"} => \A v \in DOMAIN dom : Cardinality(live[v]) = 1)
            /\ G({"C09"}, mode.alg = "ch" => ~SomeClauseFalse)
  /\ (e.verdict = "UNSAT" /\ e.log) =>
        /\ G({"C09"}, mode.alg = "ch" => lev = 0 /\ SomeClauseFalse)
        /\ G(Label({"C05"}, {"C24"}), lev = 0 /\ SomeClauseFalse)
  /\ (e.log /\ e.hasstats) => G(Label({"C12"}, {"C25"}), StatsRight(e.verdict, e.stats))
  /\ ~e.hasstats => G(Label({"C12"}, {"C25"}), e.verdict \notin {"SAT", "UNSAT"})
  /\ (e.hasstats /\ mode.alg # "ch") =>
        G(Label({"C10"}, {"C25"}), e.stats.rest = (IF mode.k > 0 THEN e.stats.back \div mode.k ELSE 0))
  /\ G(Label({"C11"}, {"C25"}),
        /\ e.verdict = "TIMEOUT" => clk.seen /\ mode.limit >= 0 /\ clk.last - clk.start > mode.limit
        /\ (e.verdict = "SAT" /\ clk.seen /\ mode.limit >= 0) => clk.last - clk.start <= mode.limit)
  /\ phase' = "idle"
  /\ UNCHANGED <<mode, dom, cls, norig, live, hist, now, lev, opens, expect, cnt, act, clk>>

End(e) == IF TooLarge THEN EndRefused(e) ELSE EndSolved(e)
=============================================================================
