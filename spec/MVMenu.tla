------------------------------- MODULE MVMenu -------------------------------
(***************************************************************************)
(* Command lines that start no task: the help menu, and options without      *)
(* their number.                                                            *)
(*                                                                          *)
(* The program shows the menu and reads a number.  A choice is answered by   *)
(* the page of its task, after which two characters are waited for (the end  *)
(* of the line and a key); any other number shows the menu again.  Choosing  *)
(* 0, something that is no number, or the end of the input end the program.  *)
(*                                                                          *)
(* input is what the program has not read yet (character codes); at is what  *)
(* it does next: "menu", "page" (of choice), "stop", "gone" (it has ended).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES prog, input, at, choice, i
vars == <<prog, input, at, choice, i>>
Enforced == { IOEnv.PROPERTY }
Trace == ndJsonDeserialize(IOEnv.TRACE)
G(labels, cond) == ((labels \intersect Enforced # {}) => cond) = TRUE

(* What each page is about: the task's option, and the fields it takes. *)
Page(task, fields) == [task |-> task, fields |-> fields]
Solving == {"-file", "-time"}
Converting == {"-file", "-model"}
Pages ==
  [ src |-> << Page("-genben", {"-var", "-clause", "-clausesize", "-sat", "-domain", "-drand", "-bool", "-file"}),
               Page("-solvech", Solving), Page("-solvenc", Solving),
               Page("-b2f", Converting), Page("-linenc", Converting), Page("-quadenc", Converting) >>,
    bitvec |-> << Page("-solvenc", Solving) >> ]

TasksOf(p) == { Pages[p][k].task : k \in DOMAIN Pages[p] }
(* Options that are followed by a number. *)
Numeric(p, task) ==
  CASE task = "-genben"  -> {"-var", "-clause", "-clausesize", "-sat", "-domain", "-drand", "-bool"}
    [] task = "-solvenc" -> {"-var", "-clause", "-clausesize", "-time", "-restart", "-restarts"}
    [] task = "-solvech" -> {"-var", "-clause", "-clausesize", "-time"}
    [] OTHER             -> {}

-----------------------------------------------------------------------------
(* Reading a number.                                                         *)
Blank == {9, 10, 11, 12, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57
From(s, k) == SubSeq(s, k, Len(s))
FirstNot(s, S, k) == CHOOSE j \in k .. Len(s) + 1 : /\ \A m \in k .. j - 1 : s[m] \in S
                                                    /\ j <= Len(s) => s[j] \notin S
Value(s) ==
  LET V[k \in 0 .. Len(s)] == IF k = 0 THEN 0 ELSE IF V[k-1] > 999999 THEN V[k-1] ELSE 10 * V[k-1] + (s[k] - 48)
  IN V[Len(s)]
(* [ok, value, rest]; a value beyond a million stands for any such.  A         *)
(* number no int can hold is no number; of those with ten digits, which are    *)
(* some of each, none is put in.                                               *)
Number(s) ==
  LET a == FirstNot(s, Blank, 1)
      signed == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF signed THEN a + 1 ELSE a
      c == FirstNot(s, 48 .. 57, b)
      digits == c - FirstNot(s, {48}, b)
  IN IF c = b \/ digits > 10 THEN [ok |-> FALSE, value |-> 0, rest |-> <<>>]
     ELSE [ok |-> TRUE, value |-> (IF signed /\ s[a] = 45 THEN -1 ELSE 1) * Value(SubSeq(s, b, c - 1)), rest |-> From(s, c)]

Choices(p) == DOMAIN Pages[p]

-----------------------------------------------------------------------------
(* Nothing but a task named by the first word keeps the menu away.           *)
Start(e) ==
  /\ prog' = e.prog /\ input' = e.input /\ choice' = 0
  /\ at' = IF e.words # <<>> /\ e.words[1] \in TasksOf(e.prog) THEN "task" ELSE "menu"

(* The menu is shown, lists every choice, and a number is read.              *)
Menu(e) ==
  LET n == Number(input)
      known == n.ok /\ n.value \in Choices(prog)
  IN
  /\ G({"C27"}, at = "menu")
  /\ G({"C27"}, Choices(prog) \union {0} \subseteq { e.items[k] : k \in DOMAIN e.items })
  /\ at' = IF ~n.ok \/ n.value = 0 THEN "stop" ELSE IF known THEN "page" ELSE "menu"
  /\ choice' = IF known THEN n.value ELSE 0
  /\ input' = IF at' = "menu" THEN From(n.rest, 3) ELSE n.rest
  /\ prog' = prog

ShowPage(e) ==
  /\ G({"C27"}, at = "page")
  /\ G({"C27"}, at = "page" => LET p == Pages[prog][choice] IN
                                 e.task = p.task /\ p.fields \subseteq { e.fields[k] : k \in DOMAIN e.fields })
  /\ at' = "menu" /\ choice' = 0 /\ input' = From(input, 3) /\ prog' = prog

Stop(e) ==
  /\ G({"C27"}, at = "stop" /\ e.rc >= 0 /\ e.rc < 126)
  /\ at' = "gone" /\ UNCHANGED <<prog, input, choice>>

(* A task whose last word is an option that wants a number: the run reports   *)
(* something, starts nothing, and does not crash.                             *)
Lacking(e) ==
  /\ G({"C27"}, e.words[Len(e.words)] \in Numeric(prog, e.words[1]) =>
                  e.rc > 0 /\ e.rc < 126 /\ e.said /\ ~e.started)
  /\ at' = "gone" /\ UNCHANGED <<prog, input, choice>>

Ev(e) == CASE e.e = "new"   -> prog' = "src" /\ input' = <<>> /\ at' = "gone" /\ choice' = 0
           [] e.e = "start" -> Start(e)
           [] e.e = "menu"  -> Menu(e)
           [] e.e = "page"  -> ShowPage(e)
           [] e.e = "stop"  -> Stop(e)
           [] e.e = "lack"  -> Lacking(e)

Init == prog = "src" /\ input = <<>> /\ at = "gone" /\ choice = 0 /\ i = 1
Next == i <= Len(Trace) /\ Ev(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
View == i
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
