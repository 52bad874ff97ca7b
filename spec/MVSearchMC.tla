----------------------------- MODULE MVSearchMC -----------------------------
(***************************************************************************)
(* The search procedure itself, model-checked.  Propagation order, the      *)
(* clause reported at a conflict and every decision are left open; learning *)
(* is by MVAnalysis.  G is replaced by an assertion (see the .cfg), so that *)
(* every obligation of MVSearch, of every property, is checked at every     *)
(* step of every run on every problem considered, instead of restricting    *)
(* the steps.                                                               *)
(*                                                                          *)
(* The problems: all sets of at most Most clauses with at most Longest      *)
(* literals over the domains Dom, or those listed in the file PROBLEMS.     *)
(***************************************************************************)
EXTENDS MVAnalysis, Json, IOUtils, FiniteSetsExt

CONSTANTS Listed, Dom, Most, Longest,
          Sampling   \* when simulating: follow one of the equivalent choices at random

VARIABLES todo, given
mcvars == <<vars, why, todo, given>>

DomA == <<3, 2>>
DomB == <<2, 2, 2>>
DomC == <<1, 3>>
DomD == <<3, 3>>

Assertion(labels, cond) == IF cond THEN TRUE ELSE Assert(FALSE, <<"obligation broken", labels, todo>>)

-----------------------------------------------------------------------------
LiteralsOver(d) == UNION { { Eq(v, x) : x \in Values(d, v) }
                           \union (IF d[v] > 2 THEN { Neq(d, v, x) : x \in Values(d, v) } ELSE {}) : v \in DOMAIN d }
ClausesOver(d, len) == UNION { kSubset(n, LiteralsOver(d)) : n \in 1 .. len }
ProblemsOver(d, len, most) ==
  { [dom |-> d, cls |-> LET s == SetToSeq(f) IN [i \in DOMAIN s |-> SetToSeq(s[i])]] :
    f \in UNION { kSubset(n, ClausesOver(d, len)) : n \in 1 .. most } }

Lit(d, j) == IF j[2] = 1 THEN Eq(j[1], j[3]) ELSE Neq(d, j[1], j[3])
FromFile == LET t == ndJsonDeserialize(IOEnv.PROBLEMS) IN
  { [dom |-> t[i].dom, cls |-> [k \in DOMAIN t[i].cls |-> [x \in DOMAIN t[i].cls[k] |-> Lit(t[i].dom, t[i].cls[k][x])]]]
    : i \in DOMAIN t }
Considered == IF Listed THEN FromFile ELSE ProblemsOver(Dom, Longest, Most)

Mode(alg, heur, k) == [alg |-> alg, heur |-> heur, k |-> k, limit |-> -1, log |-> TRUE, oracle |-> "full"]
(* "free": decisions on any undecided literal of an open clause. *)
AllModes == [ free    |-> { Mode("nc", "free", 0), Mode("ch", "free", 0), Mode("bv", "free", 0) },
              restart |-> { Mode("nc", "free", 1), Mode("nc", "free", 2), Mode("bv", "free", 1) },
              heur    |-> { Mode("nc", "bk", 0), Mode("nc", "vsids", 2), Mode("wl", "vsids_pos", 0), Mode("nc", "lazy", 0),
                            Mode("ch", "bk", 0), Mode("ch", "lazy", 0), Mode("bv", "vsids_set", 0) } ]
Modes == AllModes[IOEnv.MODES]

Init ==
  /\ todo \in [problem : Considered, m : Modes]
  /\ mode = todo.m
  /\ dom = <<>> /\ cls = <<>> /\ norig = 0 /\ live = <<>> /\ hist = <<>> /\ now = 0 /\ lev = 0
  /\ opens = <<>> /\ expect = [what |-> "start"] /\ cnt = ZeroCounts
  /\ act = [n |-> 0, score |-> <<>>] /\ clk = [start |-> -1, last |-> -1, fresh |-> FALSE, seen |-> FALSE]
  /\ phase = "idle" /\ why = <<>> /\ given = <<>>

Start == /\ phase = "idle" /\ expect.what = "start"
         /\ Begin(todo.m, todo.problem.dom, todo.problem.cls)
         /\ UNCHANGED <<why, given, todo>>

-----------------------------------------------------------------------------
Pick(S) == IF Sampling /\ S # {} THEN { RandomElement(S) } ELSE S

(* Literals as the solver writes them: the src solver's carry out x by an     *)
(* assignment "eq" when x is an equality.                                     *)
IsEq(l) == l[3] = 1
Because(l, reason) == /\ why' = Append(why, reason) /\ given' = Append(given, l) /\ UNCHANGED todo
Same3 == UNCHANGED <<why, given, todo>>

CarryOut ==
  /\ phase = "run" /\ expect.what \in {"dec", "flip"}
  /\ AssignChosen(expect.lit, lev, IsEq(expect.lit))
  /\ Because(expect.lit, 0)

(* The variable whose last other value was just excluded. *)
TakeOnly ==
  /\ phase = "run" /\ expect.what = "only"
  /\ LET l == Eq(expect.var, CHOOSE x \in live[expect.var] : TRUE) IN AssignOnly(l, lev, TRUE) /\ Because(l, -1)

(* Variables with one value in their domain are assigned at the start. *)
TakeSingleton ==
  /\ phase = "run" /\ expect.what = "any" /\ ~IsBV /\ lev = 0
  /\ \E v \in DOMAIN dom : dom[v] = 1 /\ ~Assigned(v)
       /\ AssignOnly(Eq(v, 0), 0, TRUE) /\ Because(Eq(v, 0), -1)
SingletonsTaken == IsBV \/ \A v \in DOMAIN dom : dom[v] = 1 => Assigned(v)

Open(c) == { k \in DOMAIN c : UndefIn(live, c[k]) }
UnitsOf == { i \in DOMAIN cls : ClauseUnit(live, cls[i]) }
Assert1(i) ==
  LET l == cls[i][CHOOSE k \in Open(cls[i]) : TRUE]
  IN AssignUnit(l, lev, IsEq(l), cls[i], i) /\ Because(l, i)

Propagate ==
  /\ phase = "run" /\ SingletonsTaken
  /\ \/ expect.what = "assert" /\ Assert1(Len(cls))
     \/ expect.what = "any" /\ \E i \in Pick(UnitsOf) : Assert1(i)

Report ==
  /\ phase = "run" /\ expect.what = "any"
  /\ \E i \in Pick({ j \in DOMAIN cls : ClauseFalse(live, cls[j]) }) : Conflict(cls[i], lev, i)
       /\ todo' = [problem |-> todo.problem, m |-> todo.m, at |-> i] /\ UNCHANGED <<why, given>>

LearnOne ==
  /\ phase = "run" /\ expect.what = "conflict" /\ lev > 0 /\ mode.alg # "ch"
  /\ \E c \in { Analyse(cls[todo.at], given) } : Learn(c)
  /\ Same3

JumpBack ==
  /\ phase = "run" /\ expect.what = "back"
  /\ LET b == AssertingLevel(cls[Len(cls)]) IN
       Backjump(b, cnt.back + 1, IF RestartDue(cnt.back + 1) THEN 0 ELSE b)
  /\ Same3

TurnOver ==
  /\ phase = "run" /\ expect.what = "conflict" /\ lev > 0 /\ mode.alg = "ch"
  /\ Flip(Negation(dom, opens[lev]))
  /\ Same3

Pending == UnitsOf # {} \/ SomeClauseFalse \/ ~SingletonsTaken

FreeChoices == UNION { { cls[i][k] : k \in Open(cls[i]) } : i \in { j \in DOMAIN cls : ~ClauseTrue(live, cls[j]) } }
(* Of the values a heuristic may choose; the specification says which it does. *)
RankedChoices ==
  LET vs == { v \in DOMAIN dom : Cardinality(live[v]) > 1 }
      all == UNION { IF IsBV THEN { SetLit(v, {x}) : x \in live[v] }
                     ELSE { Eq(v, x) : x \in live[v] } \union { Neq(dom, v, x) : x \in live[v] } : v \in vs }
  IN { l \in all : PreferredDecision(mode, dom, live, cls, norig, act, l) }
Options == IF mode.heur = "free" THEN FreeChoices
           ELSE IF mode.heur = "lazy" THEN { l \in FreeChoices : PreferredDecision(mode, dom, live, cls, norig, act, l) }
           ELSE RankedChoices

(* With an activity or counting heuristic the search goes on until every      *)
(* variable has its value.                                                    *)
Finished == IF mode.heur \in {"free", "lazy"} THEN \A i \in DOMAIN cls : ClauseTrue(live, cls[i])
            ELSE \A v \in DOMAIN dom : Cardinality(live[v]) = 1

DecideOn ==
  /\ phase = "run" /\ expect.what = "any" /\ ~Pending /\ ~Finished
  /\ \E l \in Pick(Options) : Decide(l)
  /\ Same3

Stats == [dec |-> cnt.dec, unit |-> cnt.unit, ent |-> cnt.ent, rest |-> cnt.rest, vars |-> Len(dom), cls |-> Len(cls),
          back |-> cnt.back + (IF mode.alg = "ch" /\ SomeClauseFalse THEN 1 ELSE 0)]
Answer(verdict, model) ==
  \E e \in { [verdict |-> verdict, verdicts |-> <<verdict>>, rc |-> 0, model |-> model, verified |-> "CORRECT",
               hasstats |-> TRUE, stats |-> Stats, log |-> TRUE] } : End(e)

GiveUp ==
  /\ phase = "run" /\ expect.what = "conflict" /\ lev = 0
  /\ Answer("UNSAT", <<>>) /\ Same3

Succeed ==
  /\ phase = "run" /\ expect.what = "any" /\ ~Pending
  /\ Finished = TRUE     \* (a value, not one successor for each way it is true)
  /\ Answer("SAT", [v \in DOMAIN dom |-> <<v, IF IsBV THEN live[v] ELSE { CHOOSE x \in live[v] : TRUE }>>])
  /\ Same3

Next == \/ Start \/ CarryOut \/ TakeOnly \/ TakeSingleton \/ Propagate \/ Report \/ LearnOne \/ JumpBack
        \/ TurnOver \/ DecideOn \/ GiveUp \/ Succeed

Spec == Init /\ [][Next]_mcvars

-----------------------------------------------------------------------------
Done == phase = "idle" /\ expect.what # "start"
(* A run goes on until it has answered.  Every step but the first and the    *)
(* last changes a counter or a level in a way that cannot recur, so a finite *)
(* state graph without dead ends means that every run ends.                  *)
Progress ==
  ~Done => \/ expect.what \in {"start", "dec", "flip", "only", "assert", "conflict", "back"}
           \/ Pending \/ Finished \/ Options # {}

(* The bookkeeping of live and hist agree. *)
Consistent ==
  phase = "run" =>
    /\ \A v \in DOMAIN dom : live[v] = hist[v][Len(hist[v])].live
    /\ \A v \in DOMAIN dom : \A j \in DOMAIN hist[v] : hist[v][j].lev <= lev
    /\ Len(opens) <= lev
    /\ mode.alg # "ch" => Len(opens) = lev
=============================================================================
