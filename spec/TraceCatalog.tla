---------------------------- MODULE TraceCatalog ----------------------------
(* Binds Catalog.tla to podo: every event of a trace is a stage or a made    *)
(* version as podo wrote it to disk, its changes and SQL statements parsed   *)
(* into operations. One behaviour per trace. The state is the catalog at the *)
(* tip of the history; the clauses of C01-C04 are evaluated on every event   *)
(* and each one that fails is printed.                                       *)
EXTENDS Catalog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Want == IOEnv.WANT

VARIABLES t, i, tip

Ev(k) == Traces[t].ev[k]

Diff(c, d) ==
  ToString([only_in_the_first |-> BareSet(c) \ BareSet(d), only_in_the_second |-> BareSet(d) \ BareSet(c)])
Bad(clause, ok, detail) == IF ok THEN {} ELSE {<<clause, detail>>}

Scripts(base, e) ==
  LET rec == Fold(base, e.changes)
      up == Exec(base, e.ups)
      post == IF up.why = "" THEN up.c ELSE rec
      dn == Exec(post, e.downs)
  IN  Bad("C04.up", up.why = "", up.why \o " (statement " \o ToString(up.at) \o ")")
      \cup Bad("C03.runs", up.why = "", up.why \o " (statement " \o ToString(up.at) \o ")")
      \cup (IF up.why = "" THEN Bad("C03.same", Same(up.c, rec), Diff(up.c, rec)) ELSE {})
      \cup Bad("C04.down", dn.why = "", dn.why \o " (statement " \o ToString(dn.at) \o ")")
      \cup Bad("C02.runs", dn.why = "", dn.why \o " (statement " \o ToString(dn.at) \o ")")
      \cup (IF dn.why = "" THEN Bad("C02.restore", Same(dn.c, base), Diff(dn.c, base)) ELSE {})

(* What one run of stage added to changes and scripts that were there        *)
(* already: the last changes and up statements, the first down statements.   *)
Step(base, e) ==
  LET pre == Fold(base, SubSeq(e.changes, 1, e.had[1]))
      mine == SubSeq(e.changes, e.had[1] + 1, Len(e.changes))
      post == Fold(pre, mine)
      before == Exec(base, SubSeq(e.ups, 1, e.had[2]))
      ups == SubSeq(e.ups, e.had[2] + 1, Len(e.ups))
      after == Exec(before.c, ups)
      downs == SubSeq(e.downs, 1, Len(e.downs) - e.had[3])
      back == Exec(after.c, downs)
  IN  Bad("C20.idle", Idle(pre, post, mine) = {}, ToString(Idle(pre, post, mine)))
      \cup (IF before.why = "" /\ after.why = ""
            THEN Bad("C20.up", LostData(before.c, after.c, ups) = {}, ToString(LostData(before.c, after.c, ups)))
                 \cup (IF back.why = ""
                       THEN Bad("C20.down", LostData(after.c, back.c, downs) = {}, ToString(LostData(after.c, back.c, downs))) ELSE {})
            ELSE {})

Viols(base, e) ==
  CASE e.e = "stage" ->
         LET rec == Fold(base, e.changes)
             want == Described(Img(e.defs))
         IN  Bad("C01.converge", Same(rec, want), Diff(rec, want))
             \cup Bad("C01.again", e.again = 0, "a second stage recorded " \o ToString(e.again) \o " more")
             \cup Scripts(base, e)
             \cup (IF Want \in {"all", "C20"} THEN Step(base, e) ELSE {})
    [] e.e = "version" -> Scripts(base, e)
    (* a live database cloned into definitions: staging them must describe it *)
    [] e.e = "clone" ->
         LET rec == Fold(base, e.changes)
             live == Img(e.live)
         IN  Bad("C13.same", Same(rec, live), Diff(rec, live))
             \cup Bad("C13.again", e.again = 0, "a second stage recorded " \o ToString(e.again) \o " more")
    (* what clone may not do, whether or not it succeeds *)
    [] e.e = "cloned" ->
         Bad("C13.files", e.files = <<>>, ToString(e.files))
         \cup Bad("C13.db", e.db = <<>>, ToString(e.db))
         \cup Bad("C13.exit", e.fault \/ e.exit = 0, "exit status " \o ToString(e.exit))
    (* the same catalog written differently must stage to the same result *)
    [] e.e = "variant" ->
         LET rec == Fold(base, e.changes)
             want == Described(Img(e.defs))
         IN  Bad("C12.same", Same(rec, want), Diff(rec, want))
    (* staged again after a reset: the whole difference between the tip and the definitions *)
    [] e.e = "restage" ->
         LET rec == Fold(base, e.changes)
             want == Described(Img(e.defs))
         IN  Bad("C09.whole", Same(rec, want), Diff(rec, want))
    (* staged by one of several profiles: its own definitions *)
    [] e.e = "mine" ->
         LET rec == Fold(base, e.changes)
             want == Described(Img(e.defs))
         IN  Bad("C16.defs", Same(rec, want), Diff(rec, want))
    [] OTHER -> {}

(* "move" is a made version whose scripts were judged as the stage they came from *)
After(base, e) == IF e.e \in {"version", "move"} THEN Fold(base, e.changes) ELSE base

Report(e) ==
  \A v \in Viols(tip, e) : Want \in {"all", SubSeq(v[1], 1, 3)} => PrintT("VIOL|~|" \o ToString(t) \o "|~|" \o ToString(i + 1) \o "|~|" \o v[1] \o "|~|" \o v[2])

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ tip = {}
Next == /\ i < Len(Traces[t].ev)
        /\ Report(Ev(i + 1))
        /\ tip' = After(tip, Ev(i + 1))
        /\ i' = i + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, i, tip>>
=============================================================================
