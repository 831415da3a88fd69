----------------------------- MODULE TraceNames -----------------------------
(* Binds Names.tla to podo: two projects live through the same history, one  *)
(* with plain names and one with every name replaced by sigma. A step is     *)
(* what podo recorded in both. The plain project is the reference: whatever  *)
(* works there has to work, and to mean the same, under the other names.     *)
EXTENDS Names, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, plain, tip      \* the catalogs at the tips of the two histories

Ev(k) == Traces[t].ev[k]
Bad(clause, ok, detail) == IF ok THEN {} ELSE {<<clause, detail>>}
Diff(c, d) == ToString([only_in_the_first |-> c \ d, only_in_the_second |-> d \ c])
Differ(clause, sigma, c, d) == Bad(clause, IsRenamed(sigma, c, d), Diff(RenCat(sigma, c), Shape(d)))

Script(clause, sigma, c, d, p, h) ==
  LET x == Exec(c, p)
      y == Exec(d, h)
  IN  IF x.why # "" THEN {}
      ELSE IF y.why # "" THEN Bad(clause, FALSE, y.why \o " (statement " \o ToString(y.at) \o ")")
      ELSE Differ(clause, sigma, x.c, y.c)

Viols(e) ==
  LET c == Fold(plain, e.plain.changes)
      d == Fold(tip, e.changes)
  IN  Bad("C18.refused", e.ok, "refused: " \o e.why)
      \cup (IF ~e.ok THEN {}
            ELSE Bad("C18.kinds", Bag(e.plain.changes) = Bag(e.changes), Diff(Bag(e.plain.changes), Bag(e.changes)))
                 \cup Bad("C18.again", e.plain.again # 0 \/ e.again = 0, "a second stage recorded " \o ToString(e.again) \o " more")
                 \cup Differ("C18.changes", e.sigma, c, d)
                 \cup Bad("C18.texts", ~Same(c, Described(Img(e.plain.defs))) \/ Same(d, Described(Img(e.defs))), Diff(BareSet(d), BareSet(Described(Img(e.defs)))))
                 \cup Bad("C18.statements", Len(e.plain.ups) = Len(e.ups) /\ Len(e.plain.downs) = Len(e.downs), "another number of statements")
                 \cup Script("C18.up", e.sigma, plain, tip, e.plain.ups, e.ups)
                 \cup Script("C18.down", e.sigma, c, d, e.plain.downs, e.downs))

Report(e) == \A v \in Viols(e) : PrintT("VIOL|~|" \o ToString(t) \o "|~|" \o ToString(i + 1) \o "|~|" \o v[1] \o "|~|" \o v[2])

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ plain = {}
        /\ tip = {}
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Ev(i + 1)
           IN  /\ Report(e)
               /\ plain' = IF e.made THEN Fold(plain, e.plain.changes) ELSE plain
               /\ tip' = IF e.made THEN Fold(tip, e.changes) ELSE tip
        /\ i' = i + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, i, plain, tip>>
=============================================================================
