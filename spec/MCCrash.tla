------------------------------ MODULE MCCrash ------------------------------
(* stage, reset and make as the file operations they consist of, killed      *)
(* between any two of them or in the middle of a write, run again, killed     *)
(* again. PROTO is how a version file is replaced: "rename" (podo's way: a    *)
(* hidden temporary, then rename), "inplace" (truncate and write), "remove"   *)
(* (remove, then rename), "stagefirst" (rename, but make empties the stage    *)
(* before it writes the version), "notwin" (as rename, but an interrupted     *)
(* make is not recognised: the stage is made a second time). Checked: what    *)
(* Podo.tla says about crashes (JCrash) and about running the command again   *)
(* (JAgain), using the reading (Norm) podo has to have.                       *)
EXTENDS Podo, IOUtils

CONSTANTS D, MaxCrashes, MaxCommands
Proto == IOEnv.PROTO

H == "h"
P == [name |-> "database", hist |-> H, defs |-> "d", db |-> "db", meta |-> "m"]
VARIABLES w, def, cmd, ops, from, crashes, done, bad
(* cmd: the command under way or "", ops: what it still has to do, from: the world before the first of its crashes *)
vars == <<w, def, cmd, ops, from, crashes, done, bad>>

Ends(F) == LET cs == Concat(F, Chain(F), LAMBDA v : v.ch) IN IF cs = <<>> THEN 0 ELSE Last(cs)[2]
File(n, p, ch) == [dir |-> H, file |-> n, ok |-> TRUE, h |-> "", name |-> n, prev |-> p, ch |-> ch,
                   up |-> [i \in DOMAIN ch |-> <<"u", ch[i]>>], down |-> [i \in DOMAIN ch |-> <<"d", ch[Len(ch) + 1 - i]>>]]
Torn(v) == [v EXCEPT !.ok = FALSE, !.h = "x", !.name = "", !.prev = "", !.ch = <<>>, !.up = <<>>, !.down = <<>>]
World0 == [files |-> {File("init", "", <<>>), File("stage", "init", <<>>)}, other |-> {}, dbs |-> {[db |-> "db", log |-> <<>>, sch |-> {}]}, leds |-> {}]

Ev(c, code, full) ==
  [cmd |-> c, cfg |-> <<P>>, prof |-> "database", target |-> "", reject |-> <<>>, defsok |-> TRUE, reach |-> TRUE, under |-> <<>>, code |-> code, err |-> code # 0, killed |-> code = -9,
   timeout |-> FALSE, fault |-> "", lost |-> FALSE, touched |-> <<>>, commits |-> 0, out |-> <<>>, would |-> <<>>, wouldok |-> FALSE,
   found |-> TRUE, cfgok |-> TRUE, hist |-> H, clear |-> FALSE, made |-> FALSE, full |-> full, label |-> TRUE, bears |-> TRUE]

Replace(v) ==
  CASE Proto = "inplace" -> <<<<"torn", v>>, <<"put", v>>>>
    [] Proto = "remove" -> <<<<"remove", v>>, <<"put", v>>>>
    [] OTHER -> <<<<"put", v>>>>     \* everything before the rename happens in a file nobody reads
Read(x) == IF Proto = "notwin" THEN Dir(x, H) ELSE Norm(Dir(x, H))
Full(x, d) == IF Ends(Norm(Dir(x, H))) = d THEN 0 ELSE 1
Fresh(x) == LET n == Cardinality({f \in Dir(x, H) : f.file \notin {Init_, Stage_}}) IN "v" \o ToString(n + 1)
Work(c) ==
  LET F == Read(w)
      s == Get(F, Stage_)
  IN  CASE c = "stage" -> IF Ends(F) = def THEN <<>> ELSE Replace(File(Stage_, s.prev, Append(s.ch, <<Ends(F), def>>)))
        [] c = "reset" -> Replace(File(Stage_, s.prev, <<>>))
        [] c = "make" -> IF Empty(s) THEN <<>>
                         ELSE LET n == Fresh(w) IN
                              IF Proto = "stagefirst" THEN Replace(File(Stage_, n, <<>>)) \o Replace(File(n, s.prev, s.ch))
                              ELSE Replace(File(n, s.prev, s.ch)) \o Replace(File(Stage_, n, <<>>))
Do(op) ==
  LET v == op[2]
      rest == {f \in w.files : f.file # v.file}
  IN  [w EXCEPT !.files = CASE op[1] = "put" -> rest \cup {v} [] op[1] = "torn" -> rest \cup {Torn(v)} [] op[1] = "remove" -> rest]

Loads == Chain(Read(w)) # <<>>
(* after a crash the same command is run again *)
Start(c) == /\ cmd = "" /\ bad = {}
            /\ IF from = <<>> THEN done < MaxCommands /\ from' = <<c, w, Full(w, def)>> /\ done' = done + 1 ELSE from[1] = c /\ UNCHANGED <<from, done>>
            /\ IF Loads THEN cmd' = c /\ ops' = Work(c) /\ UNCHANGED bad ELSE cmd' = "" /\ ops' = <<>> /\ bad' = {<<"C11.loads", ToString(w.files)>>}
            /\ UNCHANGED <<w, def, crashes>>
Go == /\ cmd # "" /\ ops # <<>>
      /\ w' = Do(Head(ops)) /\ ops' = Tail(ops)
      /\ UNCHANGED <<def, cmd, from, crashes, done, bad>>
Finish == /\ cmd # "" /\ ops = <<>>
          /\ bad' = JAgain(from[2], Ev(cmd, 0, from[3]), w)
          /\ cmd' = "" /\ from' = <<>>
          /\ UNCHANGED <<w, def, ops, crashes, done>>
Crash == /\ cmd # "" /\ crashes < MaxCrashes
         /\ bad' = JCrash(from[2], Ev(cmd, -9, from[3]), w)
         /\ cmd' = "" /\ ops' = <<>> /\ crashes' = crashes + 1
         /\ UNCHANGED <<w, def, from, done>>
Edit == /\ cmd = "" /\ from = <<>>
        /\ \E d \in 0..(D - 1) : d # def /\ def' = d
        /\ UNCHANGED <<w, cmd, ops, from, crashes, done, bad>>
Init == w = World0 /\ def = 0 /\ cmd = "" /\ ops = <<>> /\ from = <<>> /\ crashes = 0 /\ done = 0 /\ bad = {}
Next == (\E c \in {"stage", "reset", "make"} : Start(c)) \/ Go \/ Finish \/ Crash \/ Edit
Spec == Init /\ [][Next]_vars

Safe == bad = {}
Whole == cmd = "" => InOrder(Dir(w, H))
=============================================================================
