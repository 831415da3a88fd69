---------------------------- MODULE Definitions ----------------------------
(* What definition files may say and what they mean.                         *)
(*                                                                           *)
(* A definitions directory is a sequence of files [ok, nodes]; ok is FALSE   *)
(* when a file is not a YAML mapping with distinct string keys. A node is    *)
(* one entry of a mapping:                                                   *)
(*   kw    the keyword its key begins with, "?" when there is none           *)
(*   name  what follows the keyword, "" when nothing does                    *)
(*   k     kind of its value: null str bool int names (a list of strings)    *)
(*         map other                                                         *)
(*   v     the value of a str, bool or int                                   *)
(*   list  the value of names, or the single name of a str                   *)
(*   kids  the entries of a map                                              *)
(*   x     SQL texts in canonical form (where the value is SQL)              *)
EXTENDS Catalog

Objects_ == {"schema", "table", "view", "index", "sequence", "function", "column", "constraint"}
Named == Objects_ \cup {"on", "references", "owned by"}

Deferral == "deferrable" :> "bool" @@ "initially deferred" :> "bool"
(* the attributes each kind of object has and the type of their values *)
Body == [ pk |-> "primary key" :> "names" @@ Deferral,
          uq |-> "unique" :> "names" @@ Deferral,
          ck |-> "check" :> "str" @@ Deferral,
          fk |-> "foreign key" :> "names" @@ "references" :> "names" @@ "match" :> "str" @@ "on update" :> "str" @@ "on delete" :> "str" @@ Deferral,
          view |-> "as" :> "str",
          index |-> "on" :> "names" @@ "unique" :> "bool" @@ "using" :> "str",
          sequence |-> "as" :> "str" @@ "increment" :> "int" @@ "minvalue" :> "int" @@ "maxvalue" :> "int" @@ "start" :> "int" @@ "cache" :> "int" @@ "cycle" :> "bool" @@ "owned by" :> "str",
          function |-> "as" :> "str" @@ "language" :> "str" @@ "returns" :> "str" @@ "volatility" :> "str" ]
Needs == [ pk |-> {"primary key"}, uq |-> {"unique"}, ck |-> {"check"}, fk |-> {"foreign key", "references"}, view |-> {"as"}, index |-> {"on"}, sequence |-> {}, function |-> {"as"} ]
ConType == [ pk |-> "primary key", uq |-> "unique", ck |-> "check", fk |-> "foreign key" ]

IsMap(n) == n.k \in {"null", "map"}
Kids(n) == IF n.k = "map" THEN n.kids ELSE <<>>
Kws(n) == {c.kw : c \in Img(Kids(n))}
With(n, kws) == {c \in Img(Kids(n)) : c.kw \in kws}

ValueOk(ty, n) ==
  CASE ty = "str" -> n.k = "str"
    [] ty = "bool" -> n.k = "bool"
    [] ty = "int" -> n.k = "int"
    [] ty = "names" -> n.k = "str" \/ (n.k = "names" /\ n.list # <<>>)

KeyOk(n) == n.kw # "?" /\ (n.name = "" \/ n.kw \in Named)
RECURSIVE KeysOk(_)
KeysOk(q) == \A i \in DOMAIN q : KeyOk(q[i]) /\ KeysOk(Kids(q[i]))

Once(q) == \A i, j \in DOMAIN q : i # j => (q[i].kw # q[j].kw \/ (q[i].kw \in Objects_ /\ q[i].name # q[j].name))
AttrsOk(kind, n) ==
  /\ n.name # "" /\ IsMap(n) /\ Once(Kids(n))
  /\ \A c \in Img(Kids(n)) : /\ c.kw \in DOMAIN Body[kind]
                             /\ (c.kw \in Named) = (c.name # "")
                             /\ ValueOk(Body[kind][c.kw], c)
                             /\ c.kw = "references" => Len(c.x.to) \in {1, 2}
  /\ Needs[kind] \subseteq Kws(n)
ConKind(n) == {k \in ConKinds : ConType[k] \in Kws(n)}
ColumnOk(n) == n.name # "" /\ n.k = "str" /\ n.x.ok
TableOk(n) ==
  /\ n.name # "" /\ IsMap(n) /\ Once(Kids(n))
  /\ \A c \in Img(Kids(n)) :
       CASE c.kw = "column" -> ColumnOk(c)
         [] c.kw = "constraint" -> IsMap(c) /\ Cardinality(ConKind(c)) = 1 /\ (\A k \in ConKind(c) : AttrsOk(k, c))
         [] OTHER -> FALSE
SchemaOk(n) ==
  /\ n.kw = "schema" /\ n.name # "" /\ IsMap(n)
  /\ \A c \in Img(Kids(n)) :
       CASE c.kw = "table" -> TableOk(c)
         [] c.kw \in {"view", "index", "sequence", "function"} -> AttrsOk(c.kw, c)
         [] OTHER -> FALSE

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Entries(files) == Flat([i \in DOMAIN files |-> files[i].nodes])
(* everything defined in a schema, in whatever file *)
Parts(files) == LET E == Entries(files) IN Flat([i \in DOMAIN E |-> [j \in DOMAIN Kids(E[i]) |-> [s |-> E[i].name, n |-> Kids(E[i])[j]]]])
(* relations of a schema share one name space; functions have their own *)
Space(n) == IF n.kw = "function" THEN "function" ELSE "relation"
NothingTwice(files) ==
  LET P == Parts(files) IN \A i, j \in DOMAIN P : i # j => ~(P[i].s = P[j].s /\ Space(P[i].n) = Space(P[j].n) /\ P[i].n.name = P[j].n.name)

WellFormed(files) ==
  /\ \A i \in DOMAIN files : files[i].ok
  /\ LET E == Entries(files) IN KeysOk(E) /\ (\A i \in DOMAIN E : SchemaOk(E[i]))
  /\ NothingTwice(files)

-----------------------------------------------------------------------------
(* What well-formed definitions describe.                                    *)
NoRef == [s |-> "", r |-> "", cols |-> <<>>]
Obj(k, s, r, n, cols, ref, a, refs) == [k |-> k, s |-> s, r |-> r, n |-> n, cols |-> cols, ref |-> ref, a |-> a, refs |-> refs]
Given(n, kw) == kw \in Kws(n)
The(n, kw) == CHOOSE c \in Img(Kids(n)) : c.kw = kw
Value(n, kw, dflt) == IF Given(n, kw) THEN The(n, kw).v ELSE dflt
Text(n, kw, dflt) == IF Given(n, kw) THEN The(n, kw).x.t ELSE dflt

Lowest == [int2 |-> "-32768", int4 |-> "-2147483648", int8 |-> "-9223372036854775808"]
Highest == [int2 |-> "32767", int4 |-> "2147483647", int8 |-> "9223372036854775807"]

Constraint(s, t, n) ==
  LET k == CHOOSE k \in ConKinds : ConType[k] \in Kws(n)
      d == [deferrable |-> Value(n, "deferrable", "false"), deferred |-> Value(n, "initially deferred", "false")]
      main == The(n, ConType[k])
  IN CASE k \in {"pk", "uq"} -> Obj(k, s, t, n.name, main.list, NoRef, d, <<>>)
       [] k = "ck" -> Obj(k, s, t, n.name, <<>>, NoRef, [expr |-> main.x.t] @@ d, main.x.refs)
       [] k = "fk" -> LET to == The(n, "references")
                          at == IF Len(to.x.to) = 1 THEN <<s, to.x.to[1]>> ELSE to.x.to
                      IN  Obj(k, s, t, n.name, main.list, [s |-> at[1], r |-> at[2], cols |-> to.list],
                              [match |-> Text(n, "match", "SIMPLE"), upd |-> Text(n, "on update", "NO ACTION"), del |-> Text(n, "on delete", "NO ACTION")] @@ d, <<>>)

Column(s, t, n) == Obj("column", s, t, n.name, <<>>, NoRef, [type |-> n.x.type, notnull |-> n.x.notnull, default |-> n.x.default], n.x.refs)
Table(s, n) ==
  {Obj("table", s, n.name, "", <<>>, NoRef, <<>>, <<>>)}
  \cup {Column(s, n.name, c) : c \in With(n, {"column"})}
  \cup {Constraint(s, n.name, c) : c \in With(n, {"constraint"})}
View(s, n) == LET q == The(n, "as") IN Obj("view", s, n.name, "", <<>>, NoRef, [query |-> q.x.t], q.x.refs)
Index(s, n) ==
  LET on == The(n, "on")
  IN  Obj("index", s, n.name, "", on.x.cols, [s |-> s, r |-> on.name, cols |-> <<>>],
          [unique |-> Value(n, "unique", "false"), method |-> Value(n, "using", "btree"), keys |-> on.x.t], on.x.refs)
Sequence(s, n) ==
  LET type == Text(n, "as", "int8")
      inc == Value(n, "increment", "1")
      down == SubSeq(inc, 1, 1) = "-"
      min == Value(n, "minvalue", IF down THEN Lowest[type] ELSE "1")
      max == Value(n, "maxvalue", IF down THEN "-1" ELSE Highest[type])
      own == Given(n, "owned by")
      by == The(n, "owned by")
  IN  Obj("sequence", s, n.name, "", <<>>, IF own THEN [s |-> s, r |-> by.name, cols |-> <<by.v>>] ELSE NoRef,
          [type |-> type, inc |-> inc, min |-> min, max |-> max, start |-> Value(n, "start", IF down THEN max ELSE min), cache |-> Value(n, "cache", "1"), cycle |-> Value(n, "cycle", "false")],
          IF own THEN <<<<"column", s, by.name, by.v>>>> ELSE <<>>)
Function(s, n) ==
  Obj("function", s, n.x.f, n.x.args, <<>>, NoRef,
      [args |-> n.x.args, body |-> The(n, "as").v, language |-> Text(n, "language", "sql"), returns |-> Text(n, "returns", "void"), volatility |-> Text(n, "volatility", "VOLATILE"), opts |-> ""], <<>>)

Part(s, n) ==
  CASE n.kw = "table" -> Table(s, n)
    [] n.kw = "view" -> {View(s, n)}
    [] n.kw = "index" -> {Index(s, n)}
    [] n.kw = "sequence" -> {Sequence(s, n)}
    [] n.kw = "function" -> {Function(s, n)}
Denotes(files) ==
  {Obj("schema", e.name, "", "", <<>>, NoRef, <<>>, <<>>) : e \in Img(Entries(files))}
  \cup UNION {Part(p.s, p.n) : p \in Img(Parts(files))}

(* Everything that indexes, keys and foreign keys refer to is defined. podo  *)
(* may refuse definitions that refer to nothing, or accept them.             *)
Closed(files) ==
  LET P == Parts(files)
      tables == {<<p.s, p.n.name>> : p \in {p \in Img(P) : p.n.kw = "table"}}
      columns == UNION {{<<p.s, p.n.name, c.name>> : c \in With(p.n, {"column"})} : p \in {p \in Img(P) : p.n.kw = "table"}}
      has(s, t, names) == <<s, t>> \in tables /\ \A i \in DOMAIN names : <<s, t, names[i]>> \in columns
      refd(s, x) == \A i \in DOMAIN x.refs : LET q == x.refs[i] IN q[1] = "column" => <<q[2], q[3], q[4]>> \in columns
      con(s, t, n) == \A c \in Img(Kids(n)) :
        CASE c.kw \in {"primary key", "unique", "foreign key"} -> has(s, t, c.list)
          [] c.kw = "check" -> refd(s, c.x)
          [] c.kw = "references" -> (IF Len(c.x.to) = 1 THEN has(s, c.x.to[1], c.list) ELSE has(c.x.to[1], c.x.to[2], c.list))
          [] OTHER -> TRUE
      part(s, n) ==
        CASE n.kw = "table" -> \A c \in With(n, {"constraint"}) : con(s, n.name, c)
          [] n.kw = "index" -> LET on == The(n, "on") IN has(s, on.name, <<>>) /\ refd(s, on.x)
          [] n.kw = "sequence" /\ Given(n, "owned by") -> has(s, The(n, "owned by").name, <<The(n, "owned by").v>>)
          [] OTHER -> TRUE
  IN  \A p \in Img(P) : part(p.s, p.n)
=============================================================================
