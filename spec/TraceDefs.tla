----------------------------- MODULE TraceDefs -----------------------------
(* Binds Definitions.tla to podo: an event is one set of definition files    *)
(* staged for real. deep: the project held only the init version, so that    *)
(* the changes staged are the whole meaning of the definitions.              *)
EXTENDS Definitions, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Want == IOEnv.WANT

VARIABLES t, i

Ev(k) == Traces[t].ev[k]
Bad(clause, ok, detail) == IF ok THEN {} ELSE {<<clause, detail>>}
Delta(c, d) == ToString([only_in_the_first |-> BareSet(c) \ BareSet(d), only_in_the_second |-> BareSet(d) \ BareSet(c)])

(* the catalog before: what init makes *)
Begin(e) == Img(e.tip)
Viols(e) ==
  CASE e.e = "defs" ->
         IF ~WellFormed(e.files)
         THEN Bad("C12.refuses", e.code # 0, "malformed definitions are accepted")
              \cup Bad("C12.hang", ~e.timeout, "still running")
              \cup Bad("C12.message", e.code = 0 \/ e.err, "refused without a message")
              \cup Bad("C12.effect", e.same, "stage or history changed: " \o e.change)
         ELSE Bad("C12.accepts", e.code = 0 \/ ~Closed(e.files), "well-formed definitions are refused")
              \cup Bad("C12.hang", ~e.timeout, "still running")
              \cup Bad("C12.effect", e.code = 0 \/ e.same, "refused, but stage or history changed: " \o e.change)
              \cup (IF e.code = 0 /\ e.deep
                    THEN LET rec == Fold(Begin(e), e.changes)
                             want == Described(Denotes(e.files))
                         IN  Bad("C12.same", Same(rec, want), Delta(rec, want))
                              \cup Bad("TOOL.meaning", e.objs = <<>> \/ Same(Img(e.objs), Denotes(e.files)), Delta(Img(e.objs), Denotes(e.files)))
                    ELSE {})
    (* the same thing written differently, when it is already staged *)
    [] e.e = "respelt" ->
         IF WellFormed(e.files) /\ WellFormed(e.before) /\ Same(Denotes(e.files), Denotes(e.before))
         THEN Bad("C12.accepts", e.code = 0 \/ ~Closed(e.files), "well-formed definitions are refused")
              \cup Bad("C12.again", e.code # 0 \/ e.more = 0, ToString(e.more) \o " changes recorded for definitions that mean the same")
         ELSE {<<"TOOL.respelt", "not the same meaning">>}
    [] OTHER -> {}

Report(e) ==
  \A v \in Viols(e) : Want \in {"all", SubSeq(v[1], 1, 3)} \/ SubSeq(v[1], 1, 4) = "TOOL" => PrintT("VIOL|~|" \o ToString(t) \o "|~|" \o ToString(i + 1) \o "|~|" \o v[1] \o "|~|" \o v[2])

Init == /\ t \in DOMAIN Traces
        /\ i = 0
Next == /\ i < Len(Traces[t].ev)
        /\ Report(Ev(i + 1))
        /\ i' = i + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
