------------------------------- MODULE Names -------------------------------
(* Renaming. sigma is a function from names to names (the identity outside   *)
(* its domain); applied to a catalog it renames every object and every       *)
(* mention of one. Texts (expressions, queries, bodies) mention names too:   *)
(* they are left out here, and compared with the renamed definitions instead.*)
EXTENDS Catalog

Ren(sigma, x) == IF x \in DOMAIN sigma THEN sigma[x] ELSE x
RenSeq(sigma, q) == [i \in DOMAIN q |-> Ren(sigma, q[i])]

Texts == {"default", "expr", "query", "keys", "body"}
NoText(a) == [f \in (DOMAIN a) \ Texts |-> a[f]]

RenObj(sigma, o) ==
  [k |-> o.k, s |-> Ren(sigma, o.s), r |-> Ren(sigma, o.r), n |-> IF o.k = "function" THEN o.n ELSE Ren(sigma, o.n),
   cols |-> RenSeq(sigma, o.cols), ref |-> [s |-> Ren(sigma, o.ref.s), r |-> Ren(sigma, o.ref.r), cols |-> RenSeq(sigma, o.ref.cols)], a |-> NoText(o.a)]
RenCat(sigma, c) == {RenObj(sigma, o) : o \in c}
Shape(c) == RenCat(<<>>, c)
(* d is c renamed *)
IsRenamed(sigma, c, d) == RenCat(sigma, c) = Shape(d)

Flatten(lists) == LET RECURSIVE F(_)
                      F(i) == IF i > Len(lists) THEN <<>> ELSE lists[i] \o F(i + 1)
                  IN  F(1)
(* what operations do, whatever they do it to *)
Kind(op) == <<op.op, IF op.op = "create" THEN op.o.k ELSE IF Has(op, "p") THEN op.p[1] ELSE "">>
Bag(lists) == LET q == Flatten(lists)
                  kinds == {Kind(q[i]) : i \in DOMAIN q}
              IN  {<<k, Cardinality({i \in DOMAIN q : Kind(q[i]) = k})>> : k \in kinds}
=============================================================================
