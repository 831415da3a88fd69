-------------------------------- MODULE Diff --------------------------------
(* The design podo's staging follows: given the catalog at the tip and the   *)
(* catalog the definitions describe, a list of changes grouped in phases so  *)
(* that what depends on an object is dropped before it and created after it. *)
(* Order inside a phase is not fixed (podo iterates hash maps); SetToSeq and  *)
(* its reverse are both examined by MCDiff.                                   *)
EXTENDS Catalog, SequencesExt

Key(o) == <<o.k, o.s, o.r, o.n>>
Has1(c, o) == \E x \in c : Key(x) = Key(o)
Get(c, o) == CHOOSE x \in c : Key(x) = Key(o)

SameObj(x, y) == Bare(x) = Bare(y)
Timing(o) == [f \in DOMAIN o.a \cap {"deferrable", "deferred"} |-> o.a[f]]
Rest(o) == [Bare(o) EXCEPT !.a = [f \in DOMAIN o.a \ {"deferrable", "deferred"} |-> o.a[f]]]

(* pieces of work between A and B *)
Gone(A, B) == {x \in A : ~Has1(B, x)}
New(A, B) == {y \in B : ~Has1(A, y)}
Changed(A, B) == {y \in B : Has1(A, y) /\ ~SameObj(Get(A, y), y)}
Altered1(A, B) == {y \in Changed(A, B) : \/ y.k = "column"
                                         \/ y.k = "fk" /\ Rest(y) = Rest(Get(A, y))}
Replaced(A, B) == Changed(A, B) \ Altered1(A, B)

(* a table that goes takes its columns along; one that comes brings them *)
InTable(o, t) == o.k = "column" /\ o.s = t.s /\ o.r = t.r
Drops(A, B) ==
  LET out == Gone(A, B) \cup {Get(A, y) : y \in Replaced(A, B)}
      tables == {x \in out : x.k = "table"}
  IN  {x \in out : ~(\E t \in tables : InTable(x, t))}
Creates(A, B) ==
  LET in == New(A, B) \cup Replaced(A, B)
      tables == {x \in in : x.k = "table"}
  IN  {x \in in : ~(\E t \in tables : InTable(x, t))}

DropPhase == [view |-> 1, fk |-> 2, index |-> 3, ck |-> 4, uq |-> 4, pk |-> 4, function |-> 5, table |-> 6, column |-> 7, sequence |-> 8, schema |-> 20]
CreatePhase == [schema |-> 9, sequence |-> 10, table |-> 11, column |-> 12, function |-> 14, ck |-> 15, uq |-> 15, pk |-> 15, index |-> 16, fk |-> 17, view |-> 18]

(* a unit of work: [ph, up, down], up and down being lists of operations *)
DropOps(x) == <<[op |-> "drop", p |-> Path(x)]>>
CreateOps(c, x) ==
  IF x.k = "table" THEN <<[op |-> "create", o |-> x]>> \o SetToSeq({[op |-> "create", o |-> y] : y \in {z \in c : InTable(z, x)}})
                   ELSE <<[op |-> "create", o |-> x]>>
(* a sequence nobody else's name needs is dropped late: a column default may *)
(* still use it                                                              *)
DropPh(B, x) ==
  IF x.k = "sequence" /\ ~NameTaken(B, x.s, x.r) THEN 19 ELSE DropPhase[x.k]

AlterOps(from, to) ==
  IF to.k = "fk" THEN <<[op |-> "alter", p |-> <<"constraint", to.s, to.r, to.n>>, a |-> Timing(to)]>>
  ELSE SetToSeq({[op |-> "alter", p |-> Path(to), a |-> (f :> to.a[f]), refs |-> IF f = "default" THEN to.refs ELSE from.refs]
                   : f \in {g \in DOMAIN to.a : to.a[g] # from.a[g]}})

Units(A, B) ==
  {[ph |-> DropPh(B, x), up |-> DropOps(x), down |-> CreateOps(A, x)] : x \in Drops(A, B)}
  \cup {[ph |-> CreatePhase[x.k], up |-> CreateOps(B, x), down |-> DropOps(x)] : x \in Creates(A, B)}
  \cup {[ph |-> 13, up |-> AlterOps(Get(A, y), y), down |-> AlterOps(y, Get(A, y))] : y \in Altered1(A, B)}

Work(A, B, backwards) ==
  LET U == Units(A, B)
      q(ph) == LET s == SetToSeq({u \in U : u.ph = ph}) IN IF backwards THEN Reverse(s) ELSE s
  IN  FlattenSeq([ph \in 1..20 |-> q(ph)])

Ups(w) == [i \in DOMAIN w |-> w[i].up]
Downs(w) == Reverse([i \in DOMAIN w |-> w[i].down])

(* C01-C04 and C20 of the design, for one pair of catalogs *)
PairHolds(A, B, backwards) ==
  LET w == Work(A, B, backwards)
      rec == Fold(A, Ups(w))
      up == Exec(A, Ups(w))
      dn == Exec(up.c, Downs(w))
  IN  /\ Same(rec, B)
      /\ up.why = ""
      /\ Same(up.c, rec)
      /\ dn.why = ""
      /\ Same(dn.c, A)
      /\ Units(rec, B) = {}
      /\ LostData(A, up.c, Ups(w)) = {}
      /\ LostData(up.c, dn.c, Downs(w)) = {}
      /\ Idle(A, B, Ups(w)) = {}

(* Pairs the design cannot serve; each is a finding recorded in              *)
(* known_findings.txt.                                                       *)
Limit(A, B) ==
  LET pairs == {<<A, B>>, <<B, A>>} IN
  \/ \E q \in pairs : \E f \in q[1] :                                  \* key-under-fk
        /\ f.k = "fk" /\ f \in q[2]
        /\ \E x \in q[1] : /\ x.k \in {"pk", "uq", "index"} /\ IsKeyOf(x, f)
                           /\ ~(\E y \in q[2] : Path(y) = Path(x) /\ SameObj(x, y))
  \/ \E v \in A \cap B : /\ v.k = "view"                               \* type-under-view
                         /\ \E c \in Altered1(A, B) : /\ c.k = "column" /\ Path(c) \in Img(v.refs)
                                                      /\ c.a.type # Get(A, c).a.type
  \/ \E y \in Changed(A, B) : /\ y.k \in {"pk", "uq"}                  \* alter-unique, alter-pk
                              /\ Rest(y) = Rest(Get(A, y))
  \/ \E q \in pairs : \E c \in q[1] :                                  \* sequence-in-use
        /\ c.k = "column" /\ Has1(q[2], c)
        /\ \E p \in Img(c.refs) : \E x \in q[1] : /\ Path(x) = p
                                                    /\ \/ x.k = "sequence" /\ Has1(q[2], x) /\ ~SameObj(x, Get(q[2], x))
                                                       \/ ~Has1(q[2], x) /\ NameTaken(q[2], x.s, x.r)
  \/ \E q \in pairs : \E x \in Gone(q[1], q[2]) :                      \* a sequence name taken over by a key
        x.k = "sequence" /\ \E y \in q[2] : y.k \in {"uq", "pk"} /\ y.s = x.s /\ y.n = x.r
=============================================================================
