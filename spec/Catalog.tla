------------------------------ MODULE Catalog ------------------------------
(* The part of PostgreSQL podo depends on: a catalog of schema objects and  *)
(* the effect and the acceptability of every DDL operation on it.           *)
(*                                                                          *)
(* A catalog is a set of objects                                            *)
(*   [k |-> kind, s |-> schema, r |-> relation, n |-> name,                 *)
(*    cols |-> seq of column names, ref |-> [s, r, cols],                   *)
(*    a |-> attributes (record of strings), refs |-> seq of paths]          *)
(* with kind in schema table column view index sequence function pk uq ck   *)
(* fk; a path is <<k, s, r, n>>.  refs are the objects the definition text  *)
(* mentions: a default its sequence, a check or an index its columns, a     *)
(* view its relations and columns, an owned sequence its column.            *)
(*                                                                          *)
(* Operations: [op |-> "create", o], [op |-> "drop", p],                    *)
(* [op |-> "alter", p, a], [op |-> "rename", p, to], [op |-> "noop"],       *)
(* [op |-> "bad", why] (text PostgreSQL's grammar rejects).                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Img(q) == {q[i] : i \in DOMAIN q}
Has(r, f) == f \in DOMAIN r
Flag(op, f) == IF Has(op, f) THEN op[f] ELSE FALSE

RelKinds == {"table", "view", "index", "sequence"}
ConKinds == {"pk", "uq", "ck", "fk"}

Path(o) == <<o.k, o.s, o.r, o.n>>

(* "constraint" and "rel" name an object whose exact kind is not known *)
Is(o, p) ==
  /\ o.s = p[2] /\ o.r = p[3]
  /\ \/ o.k = p[1] /\ (o.n = p[4] \/ (p[1] = "function" /\ p[4] = "*"))
     \/ p[1] = "constraint" /\ o.k \in ConKinds /\ o.n = p[4]
     \/ p[1] = "rel" /\ o.k \in {"table", "view"}
At(c, p) == {o \in c : Is(o, p)}
Exists(c, p) == \E o \in c : Is(o, p)

HasSchema(c, s) == \E o \in c : o.k = "schema" /\ o.s = s
HasTable(c, s, t) == \E o \in c : o.k = "table" /\ o.s = s /\ o.r = t
HasColumn(c, s, t, x) == \E o \in c : o.k = "column" /\ o.s = s /\ o.r = t /\ o.n = x
(* tables, views, sequences, indexes and the indexes behind primary keys and *)
(* unique constraints share one name space per schema                        *)
NameTaken(c, s, n) ==
  \E o \in c : /\ o.s = s
               /\ \/ o.k \in RelKinds /\ o.r = n
                  \/ o.k \in {"pk", "uq"} /\ o.n = n

ColumnRefsOk(c, o) ==
  \A p \in Img(o.refs) :
     CASE p[1] = "column" -> \/ HasColumn(c, p[2], p[3], p[4])
                             \/ \E v \in c : v.k = "view" /\ v.s = p[2] /\ v.r = p[3]
       [] OTHER -> Exists(c, p)

(* a foreign key needs a non-deferrable key over exactly its target columns *)
IsKeyOf(o, f) ==
  /\ o.s = f.ref.s
  /\ \/ o.k \in {"pk", "uq"} /\ o.r = f.ref.r /\ o.a.deferrable = "false"
     \/ o.k = "index" /\ o.a.unique = "true" /\ o.ref.r = f.ref.r
  /\ Len(o.cols) = Len(f.ref.cols)
  /\ Img(o.cols) = Img(f.ref.cols)

Distinct(q) == Cardinality(Img(q)) = Len(q)

-----------------------------------------------------------------------------
(* What goes away together with an object, and what keeps it in place.      *)
Owned1(c, x) ==
  CASE x.k = "table" ->
         {o \in c : \/ o.k \in ConKinds \cup {"column"} /\ o.s = x.s /\ o.r = x.r
                    \/ o.k = "index" /\ o.ref.s = x.s /\ o.ref.r = x.r}
    [] x.k = "column" ->
         {o \in c : \/ o.k \in ConKinds /\ o.s = x.s /\ o.r = x.r /\ x.n \in Img(o.cols)
                    \/ o.k \in {"ck", "index", "sequence"} /\ Path(x) \in Img(o.refs)}
    [] OTHER -> {}
Owned(c, X) ==
  LET one == X \cup UNION {Owned1(c, x) : x \in X}
  IN  one \cup UNION {Owned1(c, x) : x \in one}

(* objects outside R that depend on something in R *)
Blockers(c, R) ==
  LET P == {Path(x) : x \in R}
      rels == {<<x.s, x.r>> : x \in {y \in R : y.k \in {"table", "view"}}}
      schemas == {x.s : x \in {y \in R : y.k = "schema"}}
      keys == {x \in R : x.k \in {"pk", "uq", "index"}}
      (* calls name a function without the types of its arguments *)
      fns == {p \in {<<"function", x.s, x.r, "*">> : x \in {y \in R : y.k = "function"}} : ~(\E o \in c \ R : Is(o, p))}
  IN  {o \in c \ R :
         \/ o.k # "schema" /\ o.s \in schemas
         \/ o.k = "fk" /\ <<o.ref.s, o.ref.r>> \in rels
         \/ o.k = "fk" /\ \E x \in Img(o.ref.cols) : <<"column", o.ref.s, o.ref.r, x>> \in P
         \/ o.k = "fk" /\ (\E x \in keys : IsKeyOf(x, o)) /\ ~(\E x \in c \ R : IsKeyOf(x, o))
         \/ o.k = "view" /\ \E p \in Img(o.refs) : p \in P \/ (p[1] = "rel" /\ <<p[2], p[3]>> \in rels)
         \/ o.k = "column" /\ \E p \in Img(o.refs) : p \in P
         \/ o.k = "function" /\ \E p \in Img(o.refs) : p[1] = "rel" /\ <<p[2], p[3]>> \in rels
         \/ fns \cap Img(o.refs) # {}}

RECURSIVE Cascade(_, _)
Cascade(c, R) ==
  LET B == {o \in Blockers(c, R) : o.k # "column"}
  IN  IF B = {} THEN R ELSE Cascade(c, Owned(c, R \cup B))

-----------------------------------------------------------------------------
(* Why PostgreSQL would refuse an operation; "" when it would accept it.    *)
CreateWhy(c, o) ==
  LET onTable == o.k \in ConKinds \cup {"column"} IN
  CASE o.k = "schema" -> IF HasSchema(c, o.s) THEN "schema already exists" ELSE ""
    [] ~HasSchema(c, o.s) -> "schema does not exist"
    [] o.k \in RelKinds /\ NameTaken(c, o.s, o.r) -> "relation name already in use"
    [] o.k = "function" /\ Exists(c, Path(o)) -> "function already exists"
    [] onTable /\ ~HasTable(c, o.s, o.r) -> "table does not exist"
    [] o.k = "index" /\ ~HasTable(c, o.ref.s, o.ref.r) -> "indexed table does not exist"
    [] o.k = "index" /\ o.a.unique = "true" /\ o.a.method # "btree" -> "access method does not support unique indexes"
    [] o.k = "column" /\ Exists(c, Path(o)) -> "column already exists"
    [] o.k \in ConKinds /\ Exists(c, <<"constraint", o.s, o.r, o.n>>) -> "constraint already exists"
    [] o.k \in {"pk", "uq"} /\ NameTaken(c, o.s, o.n) -> "relation name already in use"
    [] o.k \in {"pk", "uq", "fk"} /\ ~(\A x \in Img(o.cols) : HasColumn(c, o.s, o.r, x)) -> "column does not exist"
    [] o.k \in {"pk", "uq"} /\ ~Distinct(o.cols) -> "column appears twice"
    [] o.k = "pk" /\ (\E x \in c : x.k = "pk" /\ x.s = o.s /\ x.r = o.r) -> "second primary key"
    [] o.k = "ck" /\ (o.a.deferrable = "true" \/ o.a.deferred = "true") -> "check constraints cannot be deferrable"
    [] o.k = "fk" /\ ~HasTable(c, o.ref.s, o.ref.r) -> "referenced table does not exist"
    [] o.k = "fk" /\ Len(o.cols) # Len(o.ref.cols) -> "referencing and referenced columns disagree"
    [] o.k = "fk" /\ ~(\E x \in c : IsKeyOf(x, o)) -> "no unique constraint matching the referenced columns"
    [] ~ColumnRefsOk(c, o) -> "mentions something that does not exist"
    [] OTHER -> ""

DropWhy(c, op) ==
  LET X == At(c, op.p) IN
  CASE X = {} -> IF Flag(op, "ifex") THEN "" ELSE "does not exist"
    [] ~Flag(op, "cascade") /\ Blockers(c, Owned(c, X)) # {} -> "other objects depend on it"
    [] OTHER -> ""

AlterWhy(c, op) ==
  LET X == At(c, op.p) IN
  CASE X = {} -> "does not exist"
    [] op.p[1] = "constraint" /\ (\A x \in X : x.k # "fk") -> "only foreign keys can be altered"
    [] op.p[1] = "column" /\ Has(op.a, "type")
         /\ (\E v \in c : v.k = "view" /\ op.p \in Img(v.refs)) -> "column type used by a view"
    [] op.p[1] = "column" /\ Has(op.a, "notnull") /\ op.a.notnull = "false"
         /\ (\E x \in c : x.k = "pk" /\ x.s = op.p[2] /\ x.r = op.p[3] /\ op.p[4] \in Img(x.cols)) -> "column is in a primary key"
    [] Has(op, "refs") /\ (\E p \in Img(op.refs) : ~Exists(c, p)) -> "mentions something that does not exist"
    [] OTHER -> ""

RenameWhy(c, op) ==
  CASE ~Exists(c, op.p) -> "does not exist"
    [] HasColumn(c, op.p[2], op.p[3], op.to) -> "column already exists"
    [] OTHER -> ""

Skips(c, op) == op.op = "create" /\ Flag(op, "ifex") /\ (Exists(c, Path(op.o)) \/ (op.o.k \in RelKinds /\ NameTaken(c, op.o.s, op.o.r)))

Why(c, op) ==
  CASE op.op = "create" -> IF Skips(c, op) \/ (Flag(op, "orrep") /\ Exists(c, Path(op.o))) THEN "" ELSE CreateWhy(c, op.o)
    [] op.op = "drop" -> DropWhy(c, op)
    [] op.op = "alter" -> AlterWhy(c, op)
    [] op.op = "rename" -> RenameWhy(c, op)
    [] op.op = "bad" -> "not valid SQL: " \o op.why
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* What an operation does.                                                  *)
NotNull(o) == [o EXCEPT !.a = [o.a EXCEPT !.notnull = "true"]]

CreateEffect(c, o) ==
  LET base == {x \in c : Path(x) # Path(o)} IN
  IF o.k = "pk"
  THEN LET mine == {x \in base : x.k = "column" /\ x.s = o.s /\ x.r = o.r /\ x.n \in Img(o.cols)}
       IN  (base \ mine) \cup {NotNull(x) : x \in mine} \cup {o}
  ELSE base \cup {o}

DropEffect(c, op) ==
  LET R == Owned(c, At(c, op.p)) IN
  IF Flag(op, "cascade")
  THEN LET R2 == Cascade(c, R)
           P == {Path(x) : x \in R2}
       IN  {IF o.k = "column" /\ (\E p \in Img(o.refs) : p \in P \/ (p[4] = "*" /\ (\E x \in R2 : Is(x, p))))
            THEN [o EXCEPT !.a = [o.a EXCEPT !.default = ""], !.refs = <<>>] ELSE o : o \in c \ R2}
  ELSE c \ R

Altered(o, op) ==
  LET o1 == [o EXCEPT !.a = op.a @@ o.a]
      o2 == IF Has(op, "refs") THEN [o1 EXCEPT !.refs = op.refs] ELSE o1
  IN  IF Has(op, "ref") THEN [o2 EXCEPT !.ref = op.ref] ELSE o2
AlterEffect(c, op) ==
  LET X == At(c, op.p) IN (c \ X) \cup {Altered(x, op) : x \in X}

RenIn(q, from, to) == [i \in DOMAIN q |-> IF q[i] = from THEN to ELSE q[i]]
RenameEffect(c, op) ==
  LET p == op.p
      q == <<p[1], p[2], p[3], op.to>>
      R(o) ==
        LET o1 == IF Is(o, p) THEN [o EXCEPT !.n = op.to] ELSE o
            o2 == IF o1.k \in ConKinds /\ o1.s = p[2] /\ o1.r = p[3] THEN [o1 EXCEPT !.cols = RenIn(@, p[4], op.to)] ELSE o1
            o3 == IF o2.k = "fk" /\ o2.ref.s = p[2] /\ o2.ref.r = p[3]
                  THEN [o2 EXCEPT !.ref = [@ EXCEPT !.cols = RenIn(@, p[4], op.to)]] ELSE o2
        IN  [o3 EXCEPT !.refs = RenIn(@, p, q)]
  IN  {R(o) : o \in c}

Effect(c, op) ==
  CASE op.op = "create" -> IF Skips(c, op) THEN c ELSE CreateEffect(c, op.o)
    [] op.op = "drop" -> DropEffect(c, op)
    [] op.op = "alter" -> AlterEffect(c, op)
    [] op.op = "rename" -> RenameEffect(c, op)
    [] OTHER -> c

-----------------------------------------------------------------------------
(* Replaying recorded changes: effects only.                                *)
RECURSIVE FoldOps(_, _, _)
FoldOps(c, ops, i) == IF i > Len(ops) THEN c ELSE FoldOps(Effect(c, ops[i]), ops, i + 1)
RECURSIVE FoldAll(_, _, _)
FoldAll(c, lists, i) == IF i > Len(lists) THEN c ELSE FoldAll(FoldOps(c, lists[i], 1), lists, i + 1)
Fold(c, lists) == FoldAll(c, lists, 1)

(* Executing a script: statements one after the other, stopping at the      *)
(* first one the server refuses.                                            *)
RECURSIVE StmtOps(_, _, _)
StmtOps(c, ops, i) ==
  IF i > Len(ops) THEN [c |-> c, why |-> ""]
  ELSE LET w == Why(c, ops[i]) IN
       IF w # "" THEN [c |-> c, why |-> w] ELSE StmtOps(Effect(c, ops[i]), ops, i + 1)
RECURSIVE ExecFrom(_, _, _)
ExecFrom(c, script, i) ==
  IF i > Len(script) THEN [c |-> c, why |-> "", at |-> 0]
  ELSE LET r == StmtOps(c, script[i], 1) IN
       IF r.why # "" THEN [c |-> c, why |-> r.why, at |-> i] ELSE ExecFrom(r.c, script, i + 1)
Exec(c, script) == ExecFrom(c, script, 1)

Bare(o) == [k |-> o.k, s |-> o.s, r |-> o.r, n |-> o.n, cols |-> o.cols, ref |-> o.ref, a |-> o.a]

(* What a script does to the data. Rows live in tables, values in columns    *)
(* and sequences; whatever goes away takes them along, also when something   *)
(* of the same name is put in its place. "wipe" empties what it names.       *)
Paths(c) == {Path(o) : o \in c}
RECURSIVE LostIn(_, _, _)
LostIn(c, ops, i) ==
  IF i > Len(ops) THEN {}
  ELSE LET d == Effect(c, ops[i])
           here == (Paths(c) \ Paths(d)) \cup (IF ops[i].op = "wipe" THEN {ops[i].p} ELSE {})
       IN  here \cup LostIn(d, ops, i + 1)
RECURSIVE LostFrom(_, _, _)
LostFrom(c, script, i) ==
  IF i > Len(script) THEN {}
  ELSE LostIn(c, script[i], 1) \cup LostFrom(FoldOps(c, script[i], 1), script, i + 1)
(* what must keep its data on the way from a to b: the tables and columns    *)
(* that are in both, the sequences that do not change                        *)
Keepers(a, b) ==
  LET stays(x) == \/ x.k \in {"table", "column"} /\ Exists(b, Path(x))
                  \/ x.k = "sequence" /\ (\E z \in b : z.k = "sequence" /\ z.s = x.s /\ z.r = x.r /\ z.a = x.a)
  IN  {Path(x) : x \in {y \in a : stays(y)}}
LostData(a, b, script) == Keepers(a, b) \cap LostFrom(a, script, 1)

(* objects a list of changes drops or creates although they are the same     *)
(* before and after, to the word where the words are known ("raw")           *)
OpPath(op) == IF op.op = "create" THEN Path(op.o) ELSE IF op.op = "drop" THEN op.p ELSE <<"", "", "", "">>
Raw(o) == IF Has(o, "raw") THEN o.raw ELSE ""
Idle(a, b, lists) ==
  {p \in {OpPath(op) : op \in UNION {Img(l) : l \in Img(lists)}} :
     \E x \in At(a, p) : \E y \in b : Path(y) = Path(x) /\ Bare(y) = Bare(x) /\ Raw(y) = Raw(x)}

(* Equality of catalogs: every attribute of every object. refs are derived   *)
(* from the attributes.                                                      *)
BareSet(c) == {Bare(o) : o \in c}
Same(c, d) == BareSet(c) = BareSet(d)

(* what definitions describe: columns of a primary key are not null even     *)
(* where the definition does not say so                                      *)
Described(c) ==
  {IF o.k = "column" /\ (\E x \in c : x.k = "pk" /\ x.s = o.s /\ x.r = o.r /\ o.n \in Img(x.cols))
   THEN NotNull(o) ELSE o : o \in c}
=============================================================================
