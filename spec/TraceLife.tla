---------------------------- MODULE TraceLife ----------------------------
(* Binds Podo.tla to podo: a trace is what was done to a project (commands   *)
(* run for real, files edited by hand) and the world observed after every    *)
(* step. Every command is judged by Judge/JPair/JCrash; "env" events are the  *)
(* user's own edits and only move the world.                                 *)
EXTENDS Podo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Want == IOEnv.WANT

VARIABLES t, i, w
VARIABLE start   \* the world before the crashes a run of events began with

Ev(k) == Traces[t].ev[k]
Db(d) == [db |-> d.db, log |-> d.log, sch |-> Range(d.sch)]
World(j) == [files |-> Range(j.files), other |-> Range(j.other), dbs |-> {Db(d) : d \in Range(j.dbs)}, leds |-> Range(j.leds)]

Viols(e, x) ==
  CASE e.e = "cmd" -> Judge(w, e, x)
    [] e.e = "pair" -> JPair(w, e.a, e.b, x)
    [] e.e = "crash" -> JCrash(w, e, x)
    [] e.e = "again" -> Judge(w, e, x) \cup JAgain(start, e, x)
    [] e.e = "works" -> JWorks(w, e, x)
    [] e.e = "io" -> JIo(w, e, x)
    [] OTHER -> {}

Report(e, x) ==
  \A v \in Viols(e, x) : Want \in {"all", SubSeq(v[1], 1, 3)} => PrintT("VIOL|~|" \o ToString(t) \o "|~|" \o ToString(i + 1) \o "|~|" \o v[1] \o "|~|" \o v[2])

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ w = [files |-> {}, other |-> {}, dbs |-> {}, leds |-> {}]
        /\ start = w
Next == /\ i < Len(Traces[t].ev)
        /\ LET x == World(Ev(i + 1).post)
           IN  /\ Report(Ev(i + 1), x)
               /\ w' = x
               /\ start' = IF Ev(i + 1).e = "crash" THEN start ELSE x
        /\ i' = i + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, i, w, start>>
=============================================================================
