------------------------------ MODULE MCLife ------------------------------
(* Every life of a small project, up to the bounds: definitions move between *)
(* D states, are staged, reset, made into versions, applied and reverted,    *)
(* with failures, lost acknowledgements, interrupted makes and histories     *)
(* broken or tampered with by hand. The commands behave as Podo.tla says     *)
(* they must; checked are (1) that no step is one Judge objects to and (2)    *)
(* what the clauses are for: the schema is always the one the ledger tells,  *)
(* nothing staged is ever lost or doubled. Every edge of the state graph is   *)
(* printed and replayed into podo (pv/lifewalk.py).                           *)
EXTENDS Podo, IOUtils

CONSTANTS D, MaxVersions, MaxStage
Mut == IOEnv.MUT      \* "" or the name of a mistake: then some property must fail

H == "h"
P == [name |-> "database", hist |-> H, defs |-> "d", db |-> "db", meta |-> "m"]

VARIABLES w, def, mode, last, ok
(* mode: "" in order; otherwise how the history was broken or tampered with (keep = the files before) *)
VARIABLE keep

vars == <<w, def, mode, keep, last, ok>>

(* the definitions a history leads to *)
Ends(F) == LET cs == Concat(F, Chain(F), LAMBDA v : v.ch) IN IF cs = <<>> THEN 0 ELSE Last(cs)[2]

File(n, p, ch) == [dir |-> H, file |-> n, ok |-> TRUE, h |-> "", name |-> n, prev |-> p, ch |-> ch,
                   up |-> [i \in DOMAIN ch |-> <<"u", ch[i]>>], down |-> [i \in DOMAIN ch |-> <<"d", ch[Len(ch) + 1 - i]>>]]
World0 == [files |-> {File("init", "", <<>>), File("stage", "init", <<>>)}, other |-> {}, dbs |-> {[db |-> "db", log |-> <<>>, sch |-> {}]}, leds |-> {}]

Cmd(c, t, rej) == [cmd |-> c, cfg |-> <<P>>, prof |-> "database", target |-> t, reject |-> rej, defsok |-> TRUE, reach |-> TRUE]
Ev(c, t, rej, code, fault, lost, would, out) ==
  [cmd |-> c, cfg |-> <<P>>, prof |-> "database", target |-> t, reject |-> rej, defsok |-> TRUE, reach |-> TRUE, under |-> <<>>, code |-> code, err |-> code # 0, killed |-> FALSE,
   timeout |-> FALSE, fault |-> fault, lost |-> lost, touched |-> IF c \in {"up", "down", "status"} THEN <<"db">> ELSE <<>>, commits |-> 1, out |-> out, would |-> would, wouldok |-> TRUE,
   found |-> TRUE, cfgok |-> TRUE, hist |-> H, clear |-> FALSE, made |-> FALSE, full |-> -1, plain |-> TRUE, label |-> TRUE, bears |-> TRUE,
   said |-> [head |-> "", to |-> "", steps |-> <<>>, none |-> FALSE, rest |-> ""]]
Says_(e, head, to, steps, none) == [e EXCEPT !.said = [head |-> head, to |-> to, steps |-> steps, none |-> none, rest |-> ""]]
NoOut == [version |-> "", staged |-> <<>>, unstaged |-> <<>>, none |-> FALSE]

F0 == Dir(w, H)
Sound == InOrder(F0)
Put(v) == [w EXCEPT !.files = {f \in @ : f.file # v.file} \cup {v}]
StageNow == Get(Norm(F0), Stage_)
PutStage(ch, prev) == [w EXCEPT !.files = {f \in Norm(@) : f.file # Stage_} \cup {File(Stage_, prev, ch)}]
NMade == Cardinality(F0) - 2
VName(k) == "v" \o ToString(k)

(* one command: label, judged event, next world *)
Step(label, e, x) ==
  /\ w' = x
  /\ ok' = Judge(w, e, x)
  /\ last' = label
  /\ UNCHANGED <<def, mode, keep>>

Refusal(c, t) == Step(c \o " " \o t, Ev(c, t, <<>>, 1, "", FALSE, <<>>, NoOut), w)

DoStage ==
  IF ~Sound THEN Refusal("stage", "")
  ELSE LET s == StageNow
           end == Ends(F0)
           x == IF end = def THEN PutStage(s.ch, s.prev)
                ELSE IF Mut = "stage-replaces" THEN PutStage(<<<<end, def>>>>, s.prev)
                ELSE PutStage(Append(s.ch, <<end, def>>), s.prev)
       IN  /\ end # def => Len(s.ch) < MaxStage
           /\ LET new == IF end = def THEN <<>> ELSE IF Mut = "stage-shows-all" THEN Get(x.files, Stage_).up ELSE <<<<"u", <<end, def>>>>>>
              IN  Step("stage", Says_(Ev("stage", "", <<>>, 0, "", FALSE, <<>>, NoOut), "", "", IF new = <<>> THEN <<>> ELSE <<[v |-> Stage_, run |-> new]>>, new = <<>>), x)
DoReset ==
  IF Chain(F0) = <<>> \/ ~InOrder(F0) THEN Refusal("reset", "")
  ELSE Step("reset", Ev("reset", "", <<>>, 0, "", FALSE, <<>>, NoOut), IF Mut = "reset-reparents" THEN PutStage(<<>>, Init_) ELSE PutStage(<<>>, StageNow.prev))
MadeWorld ==
  LET s == StageNow
      n == VName(NMade + 1)
      v == File(n, s.prev, s.ch)
      stage == IF Mut = "make-keeps-stage" THEN File(Stage_, n, s.ch) ELSE File(Stage_, n, <<>>)
      all == {f \in Norm(F0) : f.file # Stage_}
  IN  [w EXCEPT !.files = (IF Mut = "make-overwrites" /\ NMade > 0 THEN {f \in all : f.file # VName(NMade)} \cup {[v EXCEPT !.file = VName(NMade), !.name = VName(NMade)]} ELSE all \cup {v}) \cup {stage}]
DoMake ==
  IF Chain(F0) = <<>> \/ ~InOrder(F0) THEN Refusal("make", "")
  ELSE IF Empty(StageNow) THEN Step("make", Says_(Ev("make", "", <<>>, 0, "", FALSE, <<>>, NoOut), "", "", <<>>, TRUE), w)
  ELSE /\ NMade < MaxVersions
       /\ Step("make", Says_(Ev("make", "", <<>>, 0, "", FALSE, <<>>, NoOut), "", VName(NMade + (IF Mut = "make-names-last" THEN 0 ELSE 1)), <<>>, FALSE), MadeWorld)
(* killed between its two writes *)
Interrupt ==
  /\ Sound /\ Twin(F0) = {} /\ ~Empty(StageNow) /\ NMade < MaxVersions
  /\ w' = [w EXCEPT !.files = @ \cup {File(VName(NMade + 1), StageNow.prev, StageNow.ch)}]
  /\ ok' = JCrash(w, Ev("make", "", <<>>, 1, "kill", FALSE, <<>>, NoOut), w')
  /\ last' = "interrupt"
  /\ UNCHANGED <<def, mode, keep>>

Targets == {"", "nope", "init"} \cup {VName(k) : k \in 1..MaxVersions}
Wrong(c, t) ==
  LET good == Migrated(w, Cmd(c, t, <<>>))
      p == P
      plan == Plan(w, Cmd(c, t, <<>>))
  IN  CASE Mut = "down-from-files" /\ c = "down" ->
             SetDb(w, p, DbOf(w, p).log \o FoldLeft(LAMBDA acc, n : acc \o (IF Has(F0, n) /\ Get(F0, n).ok THEN Get(F0, n).down ELSE <<>>), <<>>, plan.vs), plan.rows)
        [] Mut = "up-repeats" /\ c = "up" /\ Len(Rows(w, p)) > 1 /\ plan.vs # <<>> -> SetDb(w, p, DbOf(w, p).log \o Last(Rows(w, p)).up \o plan.run, plan.rows)
        [] Mut = "down-oldest-first" /\ c = "down" -> SetDb(w, p, DbOf(w, p).log \o FoldLeft(LAMBDA acc, v : acc \o v.down, <<>>, SubSeq(Rows(w, p), Len(plan.rows) + 1, Len(Rows(w, p)))), plan.rows)
        [] Mut = "up-stage" /\ c = "up" /\ t = "" /\ plan.ok -> SetDb(w, p, DbOf(w, p).log \o plan.run \o StageNow.up, plan.rows \o <<Row(StageNow)>>)
        [] OTHER -> good
Migrate(c, t) ==
  LET k == Cmd(c, t, <<>>)
      plan == Plan(w, k)
  IN  IF ~plan.ok THEN Refusal(c, t)
      ELSE Step(c \o " " \o t, Says_(Ev(c, t, <<>>, 0, "", FALSE, <<>>, NoOut), IF Mut = "shows-target" THEN plan.to ELSE Current(w, P), plan.to,
                 [i \in DOMAIN plan.vs |-> [v |-> plan.vs[i], run |-> plan.each[i]]], plan.vs = <<>>), IF Mut = "" \/ plan.vs = <<>> THEN Migrated(w, k) ELSE Wrong(c, t))
(* fails on the way, or after the commit and before the acknowledgement *)
MigrateFails(c, t) ==
  LET k == Cmd(c, t, <<>>) IN
  /\ Plan(w, k).ok /\ Plan(w, k).vs # <<>>
  /\ Step("fail " \o c \o " " \o t, Ev(c, t, <<>>, 1, "error", FALSE, <<>>, NoOut),
          IF Mut = "commit-each" /\ Len(Plan(w, k).vs) > 1 /\ c = "up" THEN Migrated(w, Cmd(c, Plan(w, k).vs[1], <<>>)) ELSE w)
MigrateLost(c, t) ==
  LET k == Cmd(c, t, <<>>) IN
  /\ Plan(w, k).ok /\ Plan(w, k).vs # <<>>
  /\ Step("lost " \o c \o " " \o t, Ev(c, t, <<>>, 1, "drop-after", TRUE, <<>>, NoOut), Migrated(w, k))
MigrateRejected(c, t) ==
  LET k == Cmd(c, t, <<>>) IN
  /\ Plan(w, k).ok /\ Plan(w, k).run # <<>>
  /\ LET bad == <<Last(Plan(w, k).run)>>
         x == IF Mut = "reject-ignored" THEN SetDb(w, P, DbOf(w, P).log \o SubSeq(Plan(w, k).run, 1, Len(Plan(w, k).run) - 1), Plan(w, k).rows) ELSE w
     IN  Step("reject " \o c \o " " \o t, Ev(c, t, bad, 1, "", FALSE, <<>>, NoOut), x)

DoStatus ==
  IF ~Sound THEN Refusal("status", "")
  ELSE LET would == IF Ends(F0) = def THEN <<>> ELSE <<<<"u", <<Ends(F0), def>>>>>>
           out == [version |-> IF Initialised(w, P) THEN Current(w, P) ELSE "not there", staged |-> StageNow.up, unstaged |-> would, none |-> Empty(StageNow) /\ would = <<>>]
       IN  Step("status", Ev("status", "", <<>>, 0, "", FALSE, would, out), w)

Edit(d) == /\ d # def /\ def' = d /\ last' = "edit " \o ToString(d) /\ ok' = {} /\ UNCHANGED <<w, mode, keep>>

(* by hand: break the history, or change what the ledger was filled from; and put it back *)
Broken(k) ==
  LET vs == {f \in F0 : f.file \notin {Init_, Stage_}}
      some == CHOOSE f \in F0 : f.file = (IF vs = {} THEN Stage_ ELSE "v1")
  IN  CASE k = "unreadable" -> (F0 \ {some}) \cup {[some EXCEPT !.ok = FALSE, !.h = "x", !.name = "", !.prev = "", !.ch = <<>>, !.up = <<>>, !.down = <<>>]}
        [] k = "fork" -> F0 \cup {File("fork", some.prev, <<<<7, 7>>>>)}
        [] k = "missing" -> F0 \ {some}
        [] k = "circle" -> (F0 \ {some}) \cup {[some EXCEPT !.prev = some.file]}
        [] k = "stray" -> F0 \cup {File("stray", "ghost", <<<<7, 7>>>>)}
        [] k = "noinit" -> {f \in F0 : f.file # Init_}
        [] k = "gone" -> {}
        [] k = "tamper" -> {IF f.file = Stage_ \/ f.file = Init_ THEN f ELSE [f EXCEPT !.down = <<<<"d", <<9, 9>>>>>>, !.up = <<<<"u", <<9, 9>>>>>>] : f \in F0}
Kinds == {"unreadable", "fork", "missing", "circle", "stray", "noinit", "gone", "tamper"}
Break(k) ==
  /\ mode = "" /\ Twin(F0) = {}
  /\ Broken(k) # F0
  /\ w' = [w EXCEPT !.files = Broken(k)]
  /\ mode' = k /\ keep' = F0 /\ last' = "break " \o k /\ ok' = {} /\ UNCHANGED def
Restore ==
  /\ mode # ""
  /\ w' = [w EXCEPT !.files = keep]
  /\ mode' = "" /\ keep' = {} /\ last' = "restore" /\ ok' = {} /\ UNCHANGED def

(* with a tampered history only down is of interest; with init missing, reset and make may do either *)
Init == /\ w = World0 /\ def = 0 /\ mode = "" /\ keep = {} /\ last = "" /\ ok = {}
Next ==
  \/ mode = "" /\ \E d \in 0..(D - 1) : Edit(d)
  \/ mode \notin {"tamper"} /\ DoStage
  \/ mode \notin {"tamper", "noinit"} /\ (DoReset \/ DoMake)
  \/ mode = "" /\ Interrupt
  \/ mode \notin {"tamper"} /\ DoStatus
  \/ mode \notin {"tamper", "noinit"} /\ \E t \in Targets : Migrate("up", t)
  \/ \E t \in Targets : Migrate("down", t)
  \/ mode = "" /\ \E t \in {"", "v2"} : MigrateFails("up", t) \/ MigrateLost("up", t) \/ MigrateRejected("up", t)
  \/ \E t \in {"", "init"} : MigrateFails("down", t) \/ MigrateLost("down", t) \/ MigrateRejected("down", t)
  \/ \E k \in Kinds : Break(k)
  \/ Restore
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Judged == ok = {}
(* the schema is the one the ledger tells: reverting undoes exactly what was applied *)
RECURSIVE Net(_, _)
Nonsense == <<<<-1, -1>>>>
Net(log, st) ==
  IF log = <<>> THEN st
  ELSE IF st = Nonsense THEN st
  ELSE IF Head(log)[1] = "u" THEN Net(Tail(log), Append(st, Head(log)[2]))
  ELSE IF st # <<>> /\ Last(st) = Head(log)[2] THEN Net(Tail(log), SubSeq(st, 1, Len(st) - 1))
  ELSE Nonsense
SchemaIsLedger == Net(DbOf(w, P).log, <<>>) = FoldLeft(LAMBDA acc, r : acc \o r.ch, <<>>, IF Initialised(w, P) THEN Rows(w, P) ELSE <<>>)
(* the versions of a history in order lead from definitions to definitions without a gap or a repetition *)
Path(cs) == \A i \in DOMAIN cs : cs[i][1] = (IF i = 1 THEN 0 ELSE cs[i - 1][2])
NoGap == mode = "" => Sound /\ Path(Concat(Norm(F0), Chain(F0), LAMBDA v : v.ch))
(* what is applied is a prefix of what is made *)
LedgerInHistory == mode = "" => IsPrefix(Names(Rows(w, P)), Versions(F0))

(* states that differ only in how they were reached are the same; one that breaks an invariant never hides behind one that does not *)
Core == <<w.files, w.leds, def, mode, keep>>
View == <<Core, Judged, SchemaIsLedger>>
Edge == PrintT("EDGE|~|" \o ToString(Core) \o "|~|" \o last' \o "|~|" \o ToString(Core'))
NextE == Next /\ (IF Mut = "" THEN Edge ELSE TRUE)
SpecE == Init /\ [][NextE]_vars
=============================================================================
