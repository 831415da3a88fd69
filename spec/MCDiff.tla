------------------------------- MODULE MCDiff -------------------------------
(* Systematic small catalogs, in slices: each slice fixes a base and varies  *)
(* one kind of object and what surrounds it. Every ordered pair of catalogs   *)
(* of a slice is a state; PairHolds is checked on each. The catalogs and the  *)
(* pairs are also written out and replayed into podo (pv/slices.py).          *)
EXTENDS Diff, Json, IOUtils

NoRef == [s |-> "", r |-> "", cols |-> <<>>]
Obj(k, s, r, n, cols, ref, a, refs) == [k |-> k, s |-> s, r |-> r, n |-> n, cols |-> cols, ref |-> ref, a |-> a, refs |-> refs]
Schema(s) == Obj("schema", s, "", "", <<>>, NoRef, <<>>, <<>>)
Table(s, t) == Obj("table", s, t, "", <<>>, NoRef, <<>>, <<>>)
Col(s, t, c, ty, nn, d) == Obj("column", s, t, c, <<>>, NoRef, [type |-> ty, notnull |-> nn, default |-> d], <<>>)
IntC(s, t, c) == Col(s, t, c, "int4", "true", "")
SeqCol(s, t, c, ss, q) ==
  Obj("column", s, t, c, <<>>, NoRef, [type |-> "int4", notnull |-> "false", default |-> "nextval ( '\"" \o ss \o "\".\"" \o q \o "\"' :: regclass )"],
      <<<<"sequence", ss, q, "">>>>)
KeyC(k, s, t, n, cols, d, i) == Obj(k, s, t, n, cols, NoRef, [deferrable |-> d, deferred |-> i], <<>>)
Pk(s, t, cols) == KeyC("pk", s, t, t \o "_pkey", cols, "false", "false")
Uq(s, t, n, cols) == KeyC("uq", s, t, n, cols, "false", "false")
Ck(s, t, n, c, e) == Obj("ck", s, t, n, <<>>, NoRef, [expr |-> c \o e, deferrable |-> "false", deferred |-> "false"], <<<<"column", s, t, c>>>>)
FkA(s, t, n, cols, rs, rt, rcols, m, u, d, df, dd) ==
  Obj("fk", s, t, n, cols, [s |-> rs, r |-> rt, cols |-> rcols], [match |-> m, upd |-> u, del |-> d, deferrable |-> df, deferred |-> dd], <<>>)
Fk(s, t, n, cols, rs, rt, rcols) == FkA(s, t, n, cols, rs, rt, rcols, "SIMPLE", "NO ACTION", "NO ACTION", "false", "false")
Ix(s, n, t, cols, keys, u, m, refcols) ==
  Obj("index", s, n, "", cols, [s |-> s, r |-> t, cols |-> <<>>], [unique |-> u, method |-> m, keys |-> keys],
      [i \in DOMAIN refcols |-> <<"column", s, t, refcols[i]>>])
Ix1(s, n, t, c, u) == Ix(s, n, t, <<c>>, c, u, "btree", <<c>>)
View(s, v, rs, rt, c) ==
  Obj("view", s, v, "", <<>>, NoRef, [query |-> "select x . " \o c \o " from " \o rs \o " . " \o rt \o " x"], <<<<"rel", rs, rt, "">>, <<"column", rs, rt, c>>>>)
SeqA(s, q, ty, inc, mn, mx, st, ca, cy) ==
  Obj("sequence", s, q, "", <<>>, NoRef, [type |-> ty, inc |-> inc, min |-> mn, max |-> mx, start |-> st, cache |-> ca, cycle |-> cy], <<>>)
Big == "9223372036854775807"
Sq(s, q) == SeqA(s, q, "int8", "1", "1", Big, "1", "1", "false")
Fn(s, f, args, body, lang, ret, vol) ==
  Obj("function", s, f, args, <<>>, NoRef, [args |-> args, body |-> body, language |-> lang, returns |-> ret, volatility |-> vol, opts |-> ""], <<>>)
Fn0(s, f) == Fn(s, f, "", "select 1", "sql", "int4", "VOLATILE")

P == "public"
Pub == {Schema(P)}
TabA == {Table(P, "a"), IntC(P, "a", "id"), IntC(P, "a", "k")}
TabB == {Table(P, "b"), IntC(P, "b", "id"), IntC(P, "b", "k")}
Opt(x) == {{}, x}
One(xs) == {{}} \cup {{x} : x \in xs}

(* slice name -> [base, list of option sets]; an option is a set of objects *)
Slices == [
  column |-> [base |-> Pub \cup {Table(P, "a"), IntC(P, "a", "id")},
    opts |-> <<One({Col(P, "a", "x", ty, nn, d) : ty \in {"text", "varchar(20)"}, nn \in {"true", "false"}, d \in {"", "'a'", "'b'"}})>>],
  colconstraints |-> [base |-> Pub \cup {Table(P, "a"), IntC(P, "a", "id")},
    opts |-> <<One({Col(P, "a", "x", "int4", "true", ""), Col(P, "a", "x", "int4", "true", "0")}), One({Col(P, "a", "y", "int4", "true", "")}),
               One({Uq(P, "a", "a_uq", <<"x">>), Uq(P, "a", "a_uq", <<"x", "y">>)}), One({Ck(P, "a", "a_ck", "x", " > 0")}),
               One({Ix1(P, "a_ix", "a", "x", "false"), Ix1(P, "a_ix", "a", "y", "true")}), One({Pk(P, "a", <<"x">>), Pk(P, "a", <<"y", "x">>)})>>],
  keys |-> [base |-> Pub \cup TabA,
    opts |-> <<One({Pk(P, "a", <<"id">>), Pk(P, "a", <<"id", "k">>), Pk(P, "a", <<"k", "id">>), KeyC("pk", P, "a", "a_pk2", <<"id">>, "true", "true"),
                    KeyC("pk", P, "a", "a_pkey", <<"k">>, "true", "false")}),
               One({Uq(P, "a", "a_uq", <<"k">>), Uq(P, "a", "a_uq", <<"k", "id">>), Uq(P, "a", "a_uq2", <<"k">>), KeyC("uq", P, "a", "a_uq", <<"id">>, "true", "false"),
                    KeyC("uq", P, "a", "a_uq", <<"id", "k">>, "true", "true")})>>],
  fkattrs |-> [base |-> Pub \cup TabA \cup TabB \cup {Pk(P, "a", <<"id">>)},
    opts |-> <<One({FkA(P, "b", "b_fk", <<"k">>, P, "a", <<"id">>, m, u, d, t[1], t[2])
                     : m \in {"SIMPLE", "FULL"}, u \in {"NO ACTION", "CASCADE"}, d \in {"NO ACTION", "SET NULL", "RESTRICT"}, t \in {<<"false", "false">>, <<"true", "false">>, <<"true", "true">>}}
                   \cup {FkA(P, "b", "b_fk", <<"k">>, P, "a", <<"id">>, "SIMPLE", u, d, "false", "false") : u \in {"SET DEFAULT", "RESTRICT", "SET NULL"}, d \in {"SET DEFAULT", "CASCADE"}})>>],
  fkcols |-> [base |-> Pub \cup TabA \cup TabB,
    opts |-> <<One({Pk(P, "a", <<"id">>), Pk(P, "a", <<"id", "k">>)}), One({Uq(P, "a", "a_uq", <<"k">>), Uq(P, "a", "a_uq", <<"k", "id">>)}),
               One({Ix(P, "a_ix", "a", <<"k">>, "k", "true", "btree", <<"k">>)}),
               One({Fk(P, "b", "b_fk", <<"k">>, P, "a", <<"id">>), Fk(P, "b", "b_fk", <<"k">>, P, "a", <<"k">>), Fk(P, "b", "b_fk", <<"id">>, P, "a", <<"id">>),
                    Fk(P, "b", "b_fk", <<"id", "k">>, P, "a", <<"id", "k">>), Fk(P, "b", "b_fk", <<"id", "k">>, P, "a", <<"k", "id">>)})>>],
  topology |-> [base |-> Pub,
    opts |-> <<Opt(TabA \cup {Pk(P, "a", <<"id">>)}), Opt(TabB \cup {Pk(P, "b", <<"id">>)}), Opt({Schema("app"), Table("app", "c"), IntC("app", "c", "id"), Pk("app", "c", <<"id">>)}),
               One({Fk(P, "a", "a_fk", <<"k">>, P, "b", <<"id">>), Fk(P, "a", "a_fk", <<"k">>, P, "a", <<"id">>), Fk(P, "a", "a_fk", <<"k">>, "app", "c", <<"id">>)}),
               One({Fk(P, "b", "b_fk", <<"k">>, P, "a", <<"id">>)}), One({Fk("app", "c", "c_fk", <<"id">>, P, "b", <<"id">>), Fk("app", "c", "c_fk", <<"id">>, P, "a", <<"id">>)})>>],
  index |-> [base |-> Pub \cup TabA \cup TabB,
    opts |-> <<One({Ix(P, "ix", t, <<"id">>, ks, u, "btree", <<"id">>) : t \in {"a", "b"}, ks \in {"id", "id desc", "id nulls first"}, u \in {"true", "false"}}
                   \cup {Ix(P, "ix", t, <<"id">>, "id", "false", "hash", <<"id">>) : t \in {"a", "b"}}
                   \cup {Ix(P, "ix", "a", <<"id", "k">>, "id, k", "false", "btree", <<"id", "k">>), Ix(P, "ix", "a", <<"k", "id">>, "k, id", "false", "btree", <<"k", "id">>),
                         Ix(P, "ix", "a", <<>>, "id + 1", "false", "btree", <<"id">>)}),
               One({Ix1(P, "ix2", "a", "k", "false")})>>],
  sequence |-> [base |-> Pub,
    opts |-> <<One({Sq(P, "s"), SeqA(P, "s", "int4", "1", "1", "2147483647", "1", "1", "false"), SeqA(P, "s", "int2", "1", "1", "32767", "1", "1", "false"),
                    SeqA(P, "s", "int8", "5", "1", Big, "1", "1", "false"), SeqA(P, "s", "int8", "1", "-7", Big, "1", "1", "false"), SeqA(P, "s", "int8", "1", "1", "99", "1", "1", "false"),
                    SeqA(P, "s", "int8", "1", "1", Big, "42", "1", "false"), SeqA(P, "s", "int8", "1", "1", Big, "1", "20", "false"), SeqA(P, "s", "int8", "1", "1", Big, "1", "1", "true"),
                    SeqA(P, "s", "int8", "-1", "-9223372036854775808", "-1", "-1", "1", "false"), SeqA(P, "s", "int4", "-2", "-100", "50", "10", "3", "true")}), One({Sq(P, "s2")})>>],
  function |-> [base |-> Pub,
    opts |-> <<One({Fn0(P, "f"), Fn(P, "f", "", "select 2", "sql", "int4", "VOLATILE"), Fn(P, "f", "", "select 1", "plpgsql", "int4", "VOLATILE"), Fn(P, "f", "", "select 1", "sql", "text", "VOLATILE"),
                    Fn(P, "f", "", "select 1", "sql", "int4", "STABLE"), Fn(P, "f", "", "select 1", "sql", "int4", "IMMUTABLE"), Fn(P, "f", "", "it's $$ \\ \"x\"", "sql", "int4", "VOLATILE")}),
               One({Fn(P, "f", "a int4", "select 1", "sql", "int4", "VOLATILE"), Fn(P, "f", "a int4", "select 3", "sql", "int4", "VOLATILE")}), One({Fn0(P, "g")})>>],
  view |-> [base |-> Pub,
    opts |-> <<Opt(TabA), One({Col(P, "a", "x", "text", "false", ""), Col(P, "a", "x", "varchar(20)", "false", "")}), Opt(TabB),
               One({View(P, "v", P, "a", "id"), View(P, "v", P, "a", "x"), View(P, "v", P, "b", "id")}), One({View(P, "w", P, "a", "x")})>>],
  relnames |-> [base |-> Pub \cup TabA,
    opts |-> <<One({Sq(P, "n"), View(P, "n", P, "a", "id"), Ix1(P, "n", "a", "k", "true")}) \cup {{Table(P, "n"), IntC(P, "n", "id")}, {Table(P, "n"), Col(P, "n", "z", "text", "false", "")}},
               One({Uq(P, "a", "n", <<"k">>), Ck(P, "a", "n", "k", " > 0")}), One({Sq(P, "m")}) \cup {{Table(P, "m"), IntC(P, "m", "id")}}>>],
  connames |-> [base |-> Pub \cup TabA \cup TabB \cup {Uq(P, "b", "b_uq", <<"id">>)},
    opts |-> <<One({KeyC("pk", P, "a", "c", <<"id">>, "false", "false"), Uq(P, "a", "c", <<"k">>), Ck(P, "a", "c", "id", " > 0"), Ck(P, "a", "c", "k", " > 0"), Ck(P, "a", "c", "k", " > 1"),
                    Fk(P, "a", "c", <<"k">>, P, "b", <<"id">>)}), One({Ck(P, "a", "d", "id", " <> 0")}), One({Ck(P, "b", "c", "id", " > 0")})>>],
  schema |-> [base |-> Pub \cup TabA \cup {Pk(P, "a", <<"id">>)},
    opts |-> <<Opt({Schema("app")}), Opt({Table("app", "t"), IntC("app", "t", "id")}), One({Fk("app", "t", "t_fk", <<"id">>, P, "a", <<"id">>), Uq("app", "t", "t_uq", <<"id">>)}),
               One({Sq("app", "s")}), One({Fn0("app", "f")}), One({View("app", "v", P, "a", "id"), View(P, "v", "app", "t", "id")}), One({Ix1("app", "ix", "t", "id", "false")})>>],
  seqdefault |-> [base |-> Pub \cup {Table(P, "a"), IntC(P, "a", "id")},
    opts |-> <<One({Sq(P, "s"), SeqA(P, "s", "int8", "2", "1", Big, "1", "1", "false")}), One({SeqCol(P, "a", "x", P, "s"), SeqCol(P, "a", "x", "app", "s"), Col(P, "a", "x", "int4", "false", ""), Col(P, "a", "x", "int4", "false", "0")}),
               Opt({Schema("app"), Sq("app", "s")}), One({View(P, "v", P, "a", "x")}), Opt({Table(P, "b"), SeqCol(P, "b", "x", P, "s")})>>]
]
Names == DOMAIN Slices

RECURSIVE Combos(_, _)
Combos(opts, i) ==
  IF i > Len(opts) THEN {{}} ELSE {x \cup y : x \in opts[i], y \in Combos(opts, i + 1)}
(* a catalog counts when it can be created from nothing and is all there *)
Creatable(c) == LET e == Exec({}, Ups(Work({}, c, FALSE))) IN e.why = "" /\ Same(e.c, c)
Catalogs(n) == TLCEval(SetToSeq(TLCEval({c \in {Slices[n].base \cup x : x \in Combos(Slices[n].opts, 1)} : Creatable(c)})))

Only == IOEnv.SLICE
Use == IF Only = "all" THEN Names ELSE {Only}
(* computed once: TLC keeps register 1 *)
ASSUME TLCSet(1, TLCEval([n \in Use |-> Catalogs(n)]))
Cats == TLCGet(1)
ASSUME JsonSerialize(IOEnv.CATS, [n \in Use |-> [i \in DOMAIN Cats[n] |-> SetToSeq(Cats[n][i])]])
ASSUME \A n \in Use : PrintT("SLICE|~|" \o n \o "|~|" \o ToString(Len(Cats[n])))

(* which pairs this run looks at: all that differ in one attribute (one in 4  *)
(* of them in large slices unless NEAR is 1), one in                          *)
(* NEAR of those that differ in at most two objects, one in FAR of the others *)
Num(v) == atoi(v)
Seed == Num(IOEnv.SEED)
Fields(x, y) == Cardinality({f \in DOMAIN x.a : x.a[f] # y.a[f]}) + (IF x.cols # y.cols THEN 1 ELSE 0) + (IF x.ref # y.ref THEN 1 ELSE 0)
Pick(m, a, b) ==
  LET A == Cats[m][a]
      B == Cats[m][b]
      d == Cardinality(A \ B) + Cardinality(B \ A)
      single == d = 2 /\ \A x \in A \ B, y \in B \ A : Path(x) = Path(y) /\ Fields(x, y) = 1
      mod == IF single THEN (IF Len(Cats[m]) > 60 /\ Num(IOEnv.NEAR) > 1 THEN 4 ELSE 1) ELSE IF d <= 2 THEN Num(IOEnv.NEAR) ELSE Num(IOEnv.FAR)
  IN  a # b /\ (((a * 31 + b * 17 + Seed * 7) * 7919 + a * b * 13) % 10007) % mod = 0

VARIABLES n, i, j, lim
Init == n \in Use /\ i \in DOMAIN Cats[n] /\ j = 0 /\ lim = FALSE
Next == /\ j = 0
        /\ \E b \in DOMAIN Cats[n] :
             /\ Pick(n, i, b)
             /\ j' = b
             /\ lim' = Limit(Cats[n][i], Cats[n][b])
             /\ IF lim' THEN TRUE ELSE PrintT("PAIR|~|" \o n \o "|~|" \o ToString(i) \o "|~|" \o ToString(b))
        /\ UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i, j, lim>>

DesignHolds == (j > 0 /\ ~lim) => /\ PairHolds(Cats[n][i], Cats[n][j], FALSE)
                                 /\ PairHolds(Cats[n][i], Cats[n][j], TRUE)
=============================================================================
