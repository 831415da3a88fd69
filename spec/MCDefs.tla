------------------------------ MODULE MCDefs ------------------------------
(* Definition files that differ from well-formed ones in one place, all of   *)
(* them: an entry with any keyword, with and without a name and with any     *)
(* kind of value, put anywhere; every attribute left out, given twice or     *)
(* given another kind of value; every object given another kind of value or  *)
(* no name; the same thing defined twice. They are written to CASES and      *)
(* staged in podo; the model itself is checked for the laws a reader of      *)
(* definitions relies on.                                                    *)
EXTENDS Definitions, Json, IOUtils, SequencesExt

Keywords == {"foreign key", "initially deferred", "not null", "on delete", "on update", "owned by", "primary key", "as", "cache", "check", "column", "constraint", "cycle", "default",
             "deferrable", "function", "volatility", "increment", "index", "language", "match", "maxvalue", "method", "minvalue", "on", "references", "returns", "schema", "sequence", "start",
             "table", "type", "unique", "using", "view"}
Values == {"null", "str", "bool", "int", "names", "empty", "map", "other"}

X(kw, v) == CASE kw = "column" -> [ok |-> v # "", type |-> "int4", notnull |-> "false", default |-> "", refs |-> <<>>]
              [] kw = "references" -> [to |-> <<"t">>]
              [] kw = "function" -> [f |-> "f", args |-> ""]
              [] kw = "on" -> [t |-> "k", refs |-> <<>>, cols |-> <<>>]
              [] kw = "as" -> [t |-> "int8", refs |-> <<>>]
              [] OTHER -> [t |-> "T", refs |-> <<>>]
Plain(kw, name, k, v, list, kids) == [kw |-> kw, name |-> name, k |-> k, v |-> v, list |-> list, kids |-> kids, x |-> X(kw, v)]
N(kw, name, value) ==
  CASE value = "str" -> Plain(kw, name, "str", "int8", <<"int8">>, <<>>)
    [] value = "bool" -> Plain(kw, name, "bool", "true", <<>>, <<>>)
    [] value = "int" -> Plain(kw, name, "int", "7", <<>>, <<>>)
    [] value = "names" -> Plain(kw, name, "names", "", <<"a">>, <<>>)
    [] value = "empty" -> Plain(kw, name, "names", "", <<>>, <<>>)
    [] value = "map" -> Plain(kw, name, "map", "", <<>>, <<>>)
    [] OTHER -> Plain(kw, name, value, "", <<>>, <<>>)
Map(kw, name, kids) == Plain(kw, name, "map", "", <<>>, kids)

(* every name that appears in the trees below as that of a column or table *)
Cols == <<N("column", "a", "str"), N("column", "int8", "str")>>
TableT == Map("table", "t", Cols)
Minimal == [ top |-> <<Map("schema", "app", <<>>)>>,
             schema |-> <<>>,
             table |-> <<N("column", "a", "str")>>,
             pk |-> <<N("primary key", "", "str")>>,
             uq |-> <<N("unique", "", "names")>>,
             ck |-> <<N("check", "", "str")>>,
             fk |-> <<N("foreign key", "", "names"), N("references", "t", "names")>>,
             view |-> <<N("as", "", "str")>>,
             index |-> <<N("on", "t", "names")>>,
             sequence |-> <<>>,
             function |-> <<N("as", "", "str")>> ]
Deferring == <<N("deferrable", "", "bool"), N("initially deferred", "", "bool")>>
Full == [ top |-> <<Map("schema", "app", <<>>), Map("schema", "other", <<>>)>>,
          schema |-> <<TableT, Map("view", "v", Minimal.view), Map("index", "i", Minimal.index), Map("sequence", "q", <<>>), Map("function", "f", Minimal.function)>>,
          table |-> Cols \o <<Map("constraint", "c", Minimal.pk)>>,
          pk |-> Minimal.pk \o Deferring, uq |-> Minimal.uq \o Deferring, ck |-> Minimal.ck \o Deferring,
          fk |-> Minimal.fk \o Deferring \o <<N("match", "", "str"), N("on update", "", "str"), N("on delete", "", "str")>>,
          view |-> Minimal.view,
          index |-> Minimal.index \o <<N("unique", "", "bool"), N("using", "", "str")>>,
          sequence |-> <<N("as", "", "str"), N("increment", "", "int"), N("minvalue", "", "int"), N("maxvalue", "", "int"), N("start", "", "int"), N("cache", "", "int"), N("cycle", "", "bool")>>,
          function |-> Minimal.function \o <<N("language", "", "str"), N("returns", "", "str"), N("volatility", "", "str")>> ]
Kinds == DOMAIN Minimal

File(nodes) == [ok |-> TRUE, nodes |-> nodes]
Public(body) == <<File(<<Map("schema", "public", body)>>)>>
(* the object of a kind, as an entry, and files that contain it *)
KwOf(kind) == IF kind \in ConKinds THEN "constraint" ELSE kind
Inside(kind, n) ==
  CASE kind = "schema" -> <<File(<<n>>)>>
    [] kind \in ConKinds -> Public(<<Map("table", "t", Append(Cols, n))>>)
    [] kind = "index" -> Public(<<TableT, n>>)
    [] OTHER -> Public(<<n>>)
Tree(kind, body) == IF kind = "top" THEN <<File(body)>> ELSE Inside(kind, Map(KwOf(kind), "n", body))

Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Arbitrary == SetToSeq({N(kw, name, v) : kw \in Keywords \cup {"?"}, name \in {"", "z"}, v \in Values})
Shapes == SetToSeq({"", "z"} \X Values)
Over(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

OneKind(k) ==
  LET full(i) == Over(Shapes, LAMBDA s : Tree(k, [Full[k] EXCEPT ![i] = N(Full[k][i].kw, s[1], s[2])]))
  IN  Over(Arbitrary, LAMBDA n : Tree(k, Append(Minimal[k], n)))
      \o <<Tree(k, Minimal[k]), Tree(k, Full[k])>>
      \o [i \in DOMAIN Full[k] |-> Tree(k, Drop(Full[k], i))]
      \o [i \in DOMAIN Full[k] |-> Tree(k, Append(Full[k], Full[k][i]))]
      \o Flat([i \in DOMAIN Full[k] |-> full(i)])
      \o (IF k = "top" THEN <<>> ELSE Over(Shapes, LAMBDA s : Inside(k, N(KwOf(k), s[1], s[2]))))

(* the same name twice, in one file and in two *)
Schemaful == {"table", "view", "index", "sequence", "function"}
Twos == SetToSeq(Schemaful \X Schemaful \X {"n", "m"})
Two(p) == <<TableT, Map(p[1], "n", Minimal[p[1]]), Map(p[2], p[3], Minimal[p[2]])>>
Split(q) == [i \in DOMAIN q |-> File(<<Map("schema", "public", <<q[i]>>)>>)]
(* one file not a mapping at all *)
Broken == <<<<File(Minimal.top), [ok |-> FALSE, nodes |-> <<>>]>>, <<[ok |-> FALSE, nodes |-> <<>>]>>>>

Cases == Flat(Over(SetToSeq(Kinds), OneKind)) \o Over(Twos, LAMBDA p : Public(Two(p))) \o Over(Twos, LAMBDA p : Split(Two(p))) \o Broken

ASSUME ndJsonSerialize(IOEnv.CASES, Over(Cases, LAMBDA f : [files |-> f]))

-----------------------------------------------------------------------------
VARIABLE at
Init == at \in DOMAIN Cases
Next == FALSE /\ UNCHANGED at
Spec == Init /\ [][Next]_at
files == Cases[at]

RECURSIVE Turn(_)
Turn(q) == [i \in DOMAIN q |-> LET n == q[Len(q) + 1 - i] IN [n EXCEPT !.kids = Turn(n.kids)]]
Turned == [i \in DOMAIN files |-> [files[Len(files) + 1 - i] EXCEPT !.nodes = Turn(@)]]
(* every entry of a schema in a file of its own *)
Pieces(n) == IF n.kw = "schema" /\ n.k = "map" /\ n.kids # <<>> THEN [j \in DOMAIN n.kids |-> File(<<[n EXCEPT !.kids = <<n.kids[j]>>]>>)] ELSE <<File(<<n>>)>>
Scattered == Flat([i \in DOMAIN files |-> IF files[i].ok THEN Flat([j \in DOMAIN files[i].nodes |-> Pieces(files[i].nodes[j])]) ELSE <<files[i]>>])
SameMeaning(g) == WellFormed(files) = WellFormed(g) /\ (WellFormed(files) => Denotes(files) = Denotes(g))
OrderFree == SameMeaning(Turned)
(* entries that repeat an attribute stay in one mapping: scattering a schema keeps them together *)
SplitFree == SameMeaning(Scattered)
(* every object is described once *)
OneEach == WellFormed(files) => \A o, p \in Denotes(files) : (o.k = p.k /\ o.s = p.s /\ o.r = p.r /\ o.n = p.n) => o = p
===========================================================================
