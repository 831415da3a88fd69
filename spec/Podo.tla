------------------------------- MODULE Podo -------------------------------
(* The life of a podo project: history directories, databases with their    *)
(* ledgers, and what each command may do to them. A world is a record       *)
(*   files : set of history files [dir, file, ok, h, name, prev, ch, up, down] *)
(*           (ok: readable as a version; h: contents of one that is not;    *)
(*            prev "" for none; ch/up/down: sequences of opaque ids)        *)
(*   other : set of all other files of the project [path, h]                *)
(*   dbs   : set of databases [db, log, sch]: statements committed so far   *)
(*           and schemas that exist                                         *)
(*   leds  : set of ledgers [db, meta, rows], rows in order of application, *)
(*           each row [name, prev, ch, up, down]                            *)
(* and a command c is a record                                              *)
(*   cmd, cfg (sequence of profiles [name, hist, defs, db, meta]), prof,    *)
(*   target ("" for none), reject (ids the server rejects), defsok, reach,  *)
(*   plain (the stage's scripts are those of its changes).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Init_ == "init"
Stage_ == "stage"
Empty(v) == v.ch = <<>> /\ v.up = <<>> /\ v.down = <<>>
SameContent(v, u) == v.ch = u.ch /\ v.up = u.up /\ v.down = u.down
Row(v) == [name |-> v.name, prev |-> v.prev, ch |-> v.ch, up |-> v.up, down |-> v.down]

-----------------------------------------------------------------------------
(* History directories *)
Dir(w, d) == {f \in w.files : f.dir = d}
Has(F, n) == \E f \in F : f.file = n
Get(F, n) == CHOOSE f \in F : f.file = n
Readable(F) == \A f \in F : f.ok /\ f.name = f.file
Children(F, n) == {f \in F : f.prev = n}

(* make was interrupted between its two writes: the version and the stage it came from stand side by side *)
Twin(F) ==
  IF Readable(F) /\ Has(F, Stage_)
  THEN LET s == Get(F, Stage_)
       IN  {m \in F : m.file # Stage_ /\ m.prev # "" /\ m.prev = s.prev /\ ~Empty(m) /\ SameContent(m, s) /\ Children(F, m.file) = {}}
  ELSE {}
NewStage(d, p) == [dir |-> d, file |-> Stage_, ok |-> TRUE, h |-> "", name |-> Stage_, prev |-> p, ch |-> <<>>, up |-> <<>>, down |-> <<>>]
Norm(F) ==
  IF Cardinality(Twin(F)) = 1
  THEN LET m == CHOOSE m \in Twin(F) : TRUE
       IN  {f \in F : f.file # Stage_} \cup {NewStage(m.dir, m.file)}
  ELSE F

(* names from the child of init (or init itself, when bottom is reached there) up to n; <<>> when the walk breaks or circles *)
RECURSIVE Walk(_, _, _)
Walk(F, n, acc) ==
  IF n \in Range(acc) THEN <<>>
  ELSE IF n = Init_ THEN <<n>> \o acc
  ELSE IF ~Has(F, n) \/ Get(F, n).prev = "" THEN <<>>
  ELSE Walk(F, Get(F, n).prev, <<n>> \o acc)

(* the chain of versions init .. stage of a history that is in order, else <<>> *)
Chain(F0) ==
  IF ~Readable(F0) \/ ~Has(F0, Stage_) THEN <<>>
  ELSE LET F == Norm(F0)
           c == Walk(F, Stage_, <<>>)
       IN  IF {f.file : f \in F} \subseteq Range(c) THEN c ELSE <<>>
WithInit(F) == Has(F, Init_) /\ Get(F, Init_).prev = ""
InOrder(F) == Chain(F) # <<>> /\ WithInit(F)
Versions(F) == LET c == Chain(F) IN SubSeq(c, 1, Len(c) - 1)
Pos(s, x) == IF x \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
Concat(F, ns, field(_)) == FoldLeft(LAMBDA acc, n : acc \o field(Get(F, n)), <<>>, ns)

-----------------------------------------------------------------------------
(* Ledgers *)
Profiles(c) == {p \in Range(c.cfg) : p.name = c.prof}
Known(c) == Profiles(c) # {}
Sel(c) == CHOOSE p \in Profiles(c) : TRUE
Led(w, p) == {l \in w.leds : l.db = p.db /\ l.meta = p.meta}
Initialised(w, p) == Led(w, p) # {}
InitRow == [name |-> Init_, prev |-> "", ch |-> <<>>, up |-> <<>>, down |-> <<>>]
(* the row up and down record for init when they create the ledger: the init version *)
FirstRow(w, p) == LET F == Dir(w, p.hist) IN IF Has(F, Init_) /\ Get(F, Init_).ok THEN Row(Get(F, Init_)) ELSE InitRow
Rows(w, p) == IF Initialised(w, p) THEN (CHOOSE l \in Led(w, p) : TRUE).rows ELSE <<FirstRow(w, p)>>
Names(rows) == [i \in DOMAIN rows |-> rows[i].name]
Current(w, p) == Last(Rows(w, p)).name
DbOf(w, p) == CHOOSE d \in w.dbs : d.db = p.db
SetDb(w, p, log, rows) ==
  [w EXCEPT !.dbs = {d \in @ : d.db # p.db} \cup {[db |-> p.db, log |-> log, sch |-> DbOf(w, p).sch \cup {p.meta}]},
            !.leds = (@ \ Led(w, p)) \cup {[db |-> p.db, meta |-> p.meta, rows |-> rows]}]

-----------------------------------------------------------------------------
(* What up and down have to do: plan.ok, plan.run = statements, plan.rows = ledger afterwards, plan.each = statements per version of plan.vs *)
Refuse(why) == [ok |-> FALSE, why |-> why, run |-> <<>>, rows |-> <<>>, vs |-> <<>>, to |-> "", each |-> <<>>]
UpPlan(w, c) ==
  LET p == Sel(c)
      F == Norm(Dir(w, p.hist))
      rows == Rows(w, p)
      cur == Last(rows).name
  IN  IF Chain(Dir(w, p.hist)) = <<>> THEN Refuse("history")
      ELSE LET vs == Versions(Dir(w, p.hist))
               t == IF c.target = "" THEN Last(vs) ELSE c.target
           IN  IF Pos(vs, t) = 0 THEN Refuse("unknown")
               ELSE IF Pos(vs, cur) = 0 THEN Refuse("unknown")
               ELSE IF Pos(vs, cur) > Pos(vs, t) THEN Refuse("behind")
               ELSE LET r == SubSeq(vs, Pos(vs, cur) + 1, Pos(vs, t))
                    IN  [ok |-> TRUE, why |-> "", vs |-> r, run |-> Concat(F, r, LAMBDA v : v.up),
                         to |-> t, each |-> [i \in DOMAIN r |-> Get(F, r[i]).up],
                         rows |-> rows \o [i \in DOMAIN r |-> Row(Get(F, r[i]))]]
DownPlan(w, c) ==
  LET p == Sel(c)
      rows == Rows(w, p)
      ns == Names(rows)
      t == IF c.target # "" THEN Pos(ns, c.target) ELSE IF Len(rows) = 1 THEN 1 ELSE Len(rows) - 1
      gone == Reverse(SubSeq(rows, t + 1, Len(rows)))
  IN  IF t = 0 THEN Refuse("unknown")
      ELSE [ok |-> TRUE, why |-> "", vs |-> Names(gone), run |-> FoldLeft(LAMBDA acc, v : acc \o v.down, <<>>, gone), rows |-> SubSeq(rows, 1, t),
            to |-> IF c.target = "" /\ Len(rows) = 1 THEN "" ELSE ns[t], each |-> [i \in DOMAIN gone |-> gone[i].down]]
Plan(w, c) == IF c.cmd = "up" THEN UpPlan(w, c) ELSE DownPlan(w, c)
Rejected(c, plan) == Range(plan.run) \cap Range(c.reject) # {}
Works(w, c) == Known(c) /\ c.reach /\ Plan(w, c).ok /\ ~Rejected(c, Plan(w, c))
(* the world after the command did all of its work; unchanged when there is none or it cannot *)
Migrated(w, c) ==
  IF ~Works(w, c) \/ Plan(w, c).vs = <<>> THEN w
  ELSE LET plan == Plan(w, c) IN SetDb(w, Sel(c), DbOf(w, Sel(c)).log \o plan.run, plan.rows)

-----------------------------------------------------------------------------
(* Judging one step w -> x of command e (c with: code, err, timeout, fault, lost, touched, commits, out, ...):   *)
(* the set of <<clause, detail>> that fail. "fault" is "" when nothing was injected (or it was never reached).   *)
Bad(clause, ok, detail) == IF ok THEN {} ELSE {<<clause, detail>>}
Delta(a, b) == IF a = b THEN "" ELSE "before " \o ToString(a \ b) \o " after " \o ToString(b \ a)
Change(w, x) == Delta(w.files, x.files) \o Delta(w.other, x.other) \o Delta(w.dbs, x.dbs) \o Delta(w.leds, x.leds)
SameDb(w, x) == w.dbs = x.dbs /\ w.leds = x.leds
Made(F) == {f \in F : f.ok /\ f.file # Stage_}
(* histories are compared as podo reads them: an interrupted make counts as made *)
Hist(w, d) == Norm(Dir(w, d))
Except(w, d) == {f \in w.files : f.dir # d}
SameHist(w, x, d) == Hist(w, d) = Hist(x, d) /\ Except(w, d) = Except(x, d)

JAll(w, e, x) ==
  Bad("C08.immutable", Made(w.files) \subseteq x.files, "altered or removed: " \o ToString(Made(w.files) \ x.files))
  \cup Bad("C17.message", e.code = 0 \/ e.killed \/ e.err, "exit status " \o ToString(e.code) \o " and nothing on standard error")
  \cup (IF ~Known(e) /\ e.cmd # "init"
        THEN Bad("C16.unknown", e.code # 0 /\ x = w /\ e.touched = <<>>, "exit status " \o ToString(e.code) \o ", " \o Change(w, x) \o ", databases " \o ToString(e.touched))
        ELSE IF e.cmd = "init" THEN Bad("C15.db", SameDb(w, x) /\ e.touched = <<>>, Change(w, x))
        ELSE LET p == Sel(e)
                 mine == IF e.cmd = "clone" THEN {f \in w.other \cup x.other : f.path \in Range(e.under)} ELSE {}
             IN  Bad("C16.files", Except(w, p.hist) = Except(x, p.hist) /\ w.other \ mine = x.other \ mine, Change(w, x))
                 \cup Bad("C16.db", /\ Range(e.touched) \subseteq {p.db}
                                    /\ {d \in w.dbs : d.db # p.db} = {d \in x.dbs : d.db # p.db}
                                    /\ w.leds \ Led(w, p) = x.leds \ Led(x, p), "databases " \o ToString(e.touched) \o " " \o Change(w, x)))

(* what a command that worked says it did: said.head (version the database was at), said.to (version aimed at or made),  *)
(* said.steps (sequence of [v, run]: versions and the statements shown under each), said.none ("nothing to do"),         *)
(* said.rest (anything else)                                                                                              *)
Told(e, head, to, steps, none) ==
  LET o == e.said
  IN  Bad("C21." \o e.cmd, o.head = head /\ o.to = to /\ o.steps = steps /\ o.none = none /\ o.rest = "",
          "says " \o ToString(o) \o " where it had " \o ToString(<<head, to, steps, none>>))

ToldPlan(w, e, plan) == Told(e, Current(w, Sel(e)), plan.to, [i \in DOMAIN plan.vs |-> [v |-> plan.vs[i], run |-> plan.each[i]]], plan.vs = <<>>)

(* a command that has to refuse *)
Refused(tag, w, e, x, why) ==
  Bad(tag \o ".refuse", e.code # 0 \/ e.fault # "", why \o ": exit status 0")
  \cup Bad(tag \o ".effect", x = w, why \o ": " \o Change(w, x))
  \cup Bad(tag \o ".bounded", ~e.timeout, why \o ": still running")

(* nothing stands in the way of a command: then it does its work *)
Works_(tag, ok, why) == Bad(tag \o ".works", ok, why) \cup Bad("C17.exit", ok, why)

JStage(w, e, x) ==
  LET p == Sel(e)
      F == Dir(w, p.hist)
      G == Dir(x, p.hist)
  IN  IF ~InOrder(F) THEN Refused("C10", w, e, x, "history out of order")
      ELSE IF ~e.defsok THEN Refused("C12", w, e, x, "malformed definitions")
      ELSE Works_("C09", e.code = 0, "stage: exit status " \o ToString(e.code))
           \cup Bad("C09.db", SameDb(w, x) /\ e.touched = <<>>, Change(w, x))
           \cup Bad("C09.only", {f \in Hist(w, p.hist) : f.file # Stage_} = {f \in Hist(x, p.hist) : f.file # Stage_} /\ w.other = x.other, Change(w, x))
           \cup (IF e.code # 0 THEN Bad("C09.failed", SameHist(w, x, p.hist), Change(w, x))
                 ELSE IF ~Has(G, Stage_) \/ ~Get(G, Stage_).ok THEN {<<"C09.append", "no readable stage">>}
                 ELSE LET a == Get(Norm(F), Stage_)
                          b == Get(Norm(G), Stage_)
                      IN  Bad("C09.append", b.name = Stage_ /\ b.prev = a.prev /\ IsPrefix(a.ch, b.ch) /\ IsPrefix(a.up, b.up) /\ IsSuffix(a.down, b.down),
                              "stage was " \o ToString(a) \o " is " \o ToString(b))
                          \cup (LET new == SubSeq(b.up, Len(a.up) + 1, Len(b.up))
                               IN  Told(e, "", "", IF new = <<>> THEN <<>> ELSE <<[v |-> Stage_, run |-> new]>>, new = <<>>)))

JReset(w, e, x) ==
  LET p == Sel(e)
      F == Dir(w, p.hist)
  IN  IF Chain(F) = <<>> THEN Refused("C10", w, e, x, "history out of order")
      ELSE IF ~InOrder(F) /\ e.code # 0 THEN Bad("C10.effect", x = w, Change(w, x))
      ELSE Works_("C09", e.code = 0, "reset: exit status " \o ToString(e.code))
           \cup Bad("C09.db", SameDb(w, x) /\ e.touched = <<>>, Change(w, x))
           \cup Bad("C09.reset", e.code # 0 \/ (Hist(x, p.hist) = {f \in Hist(w, p.hist) : f.file # Stage_} \cup {NewStage(p.hist, Get(Norm(F), Stage_).prev)} /\ w.other = x.other),
                    Change(w, x))

JMake(w, e, x) ==
  LET p == Sel(e)
      F == Dir(w, p.hist)
      H == Hist(w, p.hist)
      G == Hist(x, p.hist)
      new == {f \in G : ~Has(H, f.file)}
  IN  IF Chain(F) = <<>> THEN Refused("C10", w, e, x, "history out of order")
      ELSE IF ~InOrder(F) /\ e.code # 0 THEN Bad("C10.effect", x = w, Change(w, x))
      ELSE IF ~e.label /\ e.code # 0 THEN Bad("C08.effect", x = w, Change(w, x))
      ELSE LET s == Get(H, Stage_)
           IN  Works_("C08", e.code = 0, "make: exit status " \o ToString(e.code))
               \cup Bad("C08.db", SameDb(w, x) /\ e.touched = <<>>, Change(w, x))
               \cup (IF e.code # 0 THEN {}
                     ELSE IF Empty(s) THEN Bad("C08.empty", SameHist(w, x, p.hist) /\ w.other = x.other, Change(w, x)) \cup Told(e, "", "", <<>>, TRUE)
                     ELSE Bad("C08.move", Cardinality(new) = 1 /\ (LET m == CHOOSE m \in new : TRUE IN m.ok /\ SameContent(m, s) /\ m.prev = s.prev /\ m.name = m.file), "stage " \o ToString(s) \o " became " \o ToString(new))
                          \cup Bad("C08.label", e.bears, "the version is not called by its label: " \o ToString({f.file : f \in new}))
                          \cup Bad("C08.tip", Cardinality(new) # 1 \/ G = {f \in H : f.file # Stage_} \cup new \cup {NewStage(p.hist, (CHOOSE m \in new : TRUE).file)}, Change(w, x))
                          \cup Bad("C08.other", w.other = x.other, Change(w, x))
                          \cup (IF Cardinality(new) = 1 THEN Told(e, "", (CHOOSE m \in new : TRUE).file, <<>>, FALSE) ELSE {}))

Tag(c) == IF c.cmd = "up" THEN "C06" ELSE "C07"
JMigrate(w, e, x) ==
  LET p == Sel(e)
      plan == Plan(w, e)
      all == Migrated(w, e)
      done == x = all
      none == x = w
  IN  Bad("C16.hist", w.files = x.files /\ w.other = x.other, Change(w, x))
      \cup (IF e.fault # ""
            THEN (* something failed on the way: all or nothing, and the exit status says which *)
                 Bad("C05.atomic", none \/ done, Change(w, x))
                 \cup Bad("C05.success", e.code # 0 \/ done, "reported success, but " \o Change(all, x))
                 \cup Bad("C17.success", e.code # 0 \/ done, "exit status 0, but " \o Change(all, x))
                 \cup Bad("C05.failure", e.code = 0 \/ none \/ e.lost, "reported failure, but " \o Change(w, x))
                 \cup (IF e.code = 0 /\ plan.ok THEN ToldPlan(w, e, plan) ELSE {})
                 \cup Bad("C05.hang", ~e.timeout, "still running after " \o e.fault)
            ELSE IF ~e.reach THEN Bad("C17.exit", e.code # 0, "no database: exit status 0") \cup Bad("C05.failure", none, Change(w, x))
            ELSE IF plan.why = "history" THEN Refused("C10", w, e, x, "history out of order")
            ELSE IF ~plan.ok THEN Refused(Tag(e), w, e, x, "version " \o e.target \o " " \o plan.why) \cup Bad("C17.exit", e.code # 0, "cannot go to " \o e.target \o ": exit status 0")
            ELSE IF Rejected(e, plan)
            THEN Bad("C05.failure", none, "a statement is rejected: " \o Change(w, x)) \cup Bad("C17.exit", e.code # 0, "a statement is rejected: exit status 0")
            ELSE IF plan.vs = <<>>
            THEN Bad(Tag(e) \o ".nothing", none, Change(w, x))
                 \cup (IF e.code = 0 THEN ToldPlan(w, e, plan) ELSE {})
                 \cup Bad("C17.exit", e.code = 0 \/ (~WithInit(Dir(w, p.hist)) /\ e.cmd = "up"), e.cmd \o " with nothing to do: exit status " \o ToString(e.code))
            ELSE Works_(Tag(e), e.code = 0 \/ (~WithInit(Dir(w, p.hist)) /\ e.cmd = "up"), e.cmd \o ": exit status " \o ToString(e.code))
                 \cup (IF e.code # 0 THEN Bad("C05.failure", none, Change(w, x))
                       ELSE Bad(Tag(e) \o ".run", DbOf(x, p).log = DbOf(all, p).log,
                                "to execute " \o ToString(plan.run) \o ", executed beyond the log before: " \o
                                ToString(SubSeq(DbOf(x, p).log, Len(DbOf(w, p).log) + 1, Len(DbOf(x, p).log))))
                            \cup Bad(Tag(e) \o ".ledger", x.leds = all.leds /\ DbOf(x, p).sch = DbOf(all, p).sch, "expected " \o ToString(plan.rows) \o " found " \o Delta(w.leds, x.leds))
                            \cup Bad("C05.success", done, Change(all, x))
                            \cup Bad("C05.once", e.commits <= 1, ToString(e.commits) \o " commits")
                            \cup ToldPlan(w, e, plan)))

RECURSIVE Count(_, _)
Count(s, a) == IF s = <<>> THEN 0 ELSE (IF Head(s) = a THEN 1 ELSE 0) + Count(Tail(s), a)
SameBag(s, u) == Len(s) = Len(u) /\ \A a \in Range(s) : Count(s, a) = Count(u, a)
JStatus(w, e, x) ==
  LET p == Sel(e)
      F == Dir(w, p.hist)
      o == e.out
  IN  Bad("C19.readonly", x = w, Change(w, x))
      \cup (IF ~InOrder(F) THEN Refused("C10", w, e, x, "history out of order")
            ELSE IF ~e.defsok THEN Refused("C12", w, e, x, "malformed definitions")
            ELSE Works_("C19", e.code = 0, "status: exit status " \o ToString(e.code))
                 \cup (IF e.code # 0 THEN {}
                       ELSE LET s == Get(Norm(F), Stage_)
                                known == {f.file : f \in F} \cup Range(Names(Rows(w, p)))
                                sure == e.reach /\ Initialised(w, p)
                            IN  Bad("C19.version", IF e.fault = "" /\ sure THEN o.version = Current(w, p)
                                                   ELSE o.version # "" /\ (o.version \in known => (sure /\ o.version = Current(w, p))), "says " \o o.version)
                                \cup Bad("C19.staged", IF e.plain THEN o.staged = s.up ELSE Len(o.staged) = Len(s.ch) \/ o.staged = s.up, "says " \o ToString(o.staged) \o " staged: " \o ToString(s.up))
                                \cup (IF e.wouldok THEN Bad("C19.unstaged", SameBag(o.unstaged, e.would), "says " \o ToString(o.unstaged) \o " stage would add " \o ToString(e.would))
                                                        \cup Bad("C19.none", /\ o.none => s.ch = <<>> /\ e.would = <<>>
                                                                           /\ Empty(s) /\ e.would = <<>> => o.none, "says no changes: " \o ToString(o.none))
                                      ELSE {})))

JInit(w, e, x) ==
  IF e.found
  THEN Bad("C15.keep", x = w, Change(w, x)) \cup (IF e.code = 0 THEN Told(e, "", "here", <<>>, FALSE) ELSE {}) \cup Bad("C17.exit", (e.code = 0) <=> e.cfgok, "init in a project: exit status " \o ToString(e.code))
  ELSE LET F == {f \in x.files : f.dir = e.hist} IN
       Bad("C15.keep", w.files \subseteq x.files /\ w.other \subseteq x.other, Change(w, x))
       \cup (IF Dir(w, e.hist) = {} /\ e.clear
             THEN Bad("C17.exit", e.code = 0, "init: exit status " \o ToString(e.code))
                  \cup Bad("C15.project", e.made /\ Chain(F) = <<Init_, Stage_>> /\ Empty(Get(F, Stage_)), ToString(F))
                  (* nothing else appears, and nothing is left to stage *)
                  \cup Bad("C15.only", x.files \ w.files = F /\ {f.path : f \in x.other \ w.other} = Range(e.under), ToString({f.path : f \in x.other \ w.other}))
                  \cup Bad("C15.agree", e.full = 0, "stage would record " \o ToString(e.full) \o " changes (-1: fails)")
             ELSE {})

JClone(w, e, x) == Bad("C13.db", SameDb(w, x), Change(w, x)) \cup Bad("C13.files", w.files = x.files, Change(w, x))

Judge(w, e, x) ==
  JAll(w, e, x) \cup
  (IF ~Known(e) /\ e.cmd # "init" THEN {}
   ELSE CASE e.cmd = "stage" -> JStage(w, e, x)
          [] e.cmd = "reset" -> JReset(w, e, x)
          [] e.cmd = "make" -> JMake(w, e, x)
          [] e.cmd \in {"up", "down"} -> JMigrate(w, e, x)
          [] e.cmd = "status" -> JStatus(w, e, x)
          [] e.cmd = "init" -> JInit(w, e, x)
          [] e.cmd = "clone" -> JClone(w, e, x))

-----------------------------------------------------------------------------
(* Two sessions at once: as if one came after the other, or the later one failed without effect *)
Says(w, c, code) == (code = 0) <=> Works(w, c)
Serial(w, a, b, x) ==
  LET w1 == Migrated(w, a)
      w2 == Migrated(w1, b)
  IN  Says(w, a, a.code) /\ ((x = w2 /\ Says(w1, b, b.code)) \/ (x = w1 /\ b.code # 0))
JPair(w, a, b, x) ==
  Bad("C14.serial", Serial(w, a, b, x) \/ Serial(w, b, a, x),
      a.cmd \o " " \o a.target \o " ended with " \o ToString(a.code) \o ", " \o b.cmd \o " " \o b.target \o " with " \o ToString(b.code) \o ": " \o Change(w, x))
  \cup Bad("C14.hang", ~a.timeout /\ ~b.timeout, "still running")

-----------------------------------------------------------------------------
(* stage, reset or make killed at some moment: every file whole, nothing lost, the history still in order *)
Everything(w, d) == LET F == Hist(w, d) IN Concat(F, Chain(F), LAMBDA v : v.ch)
JCrash(w, e, x) ==
  LET p == Sel(e)
      F == Dir(w, p.hist)
      G == Dir(x, p.hist)
  IN  IF ~InOrder(F) THEN {}
      ELSE Bad("C11.whole", \A f \in G : f.ok, "unreadable: " \o ToString({f.file : f \in {f \in G : ~f.ok}}))
           \cup Bad("C11.loads", InOrder(G), ToString({<<f.file, f.prev>> : f \in G}))
           \cup Bad("C11.only", Except(w, p.hist) = Except(x, p.hist) /\ w.other = x.other /\ SameDb(w, x), Change(w, x))
           \cup Bad("C11.made", Made(F) \subseteq G, ToString(Made(F) \ G))
           \cup (IF ~InOrder(G) THEN {}
                 ELSE LET a == Get(Norm(F), Stage_)
                          b == Get(Norm(G), Stage_)
                          rest == {f \in Norm(F) : f.file # Stage_} = {f \in Norm(G) : f.file # Stage_}
                      IN  CASE e.cmd = "stage" -> Bad("C11.lost", rest /\ b.prev = a.prev /\ (b = a \/ (IsPrefix(a.ch, b.ch) /\ IsPrefix(a.up, b.up) /\ IsSuffix(a.down, b.down)
                                                                  /\ (e.full >= 0 => Len(b.ch) = Len(a.ch) + e.full))), "stage was " \o ToString(a) \o " is " \o ToString(b))
                            [] e.cmd = "reset" -> Bad("C11.lost", rest /\ (b = a \/ b = NewStage(p.hist, a.prev)), "stage was " \o ToString(a) \o " is " \o ToString(b))
                            [] e.cmd = "make" -> Bad("C11.lost", (Norm(G) = Norm(F)) \/ (Everything(w, p.hist) = Everything(x, p.hist) /\ Empty(b) /\ Len(Chain(G)) = Len(Chain(F)) + 1), Change(w, x))
                            [] OTHER -> {})

(* the same command run again after any number of crashes that began in w0: the work is complete, once *)
JAgain(w0, e, x) ==
  LET p == Sel(e)
      F == Dir(w0, p.hist)
      G == Dir(x, p.hist)
  IN  IF ~InOrder(F) THEN {}
      ELSE IF e.code # 0 \/ ~InOrder(G) THEN {<<"C11.again", "exit status " \o ToString(e.code) \o " " \o ToString({<<f.file, f.prev>> : f \in G})>>}
      ELSE LET a == Get(Norm(F), Stage_)
               b == Get(Norm(G), Stage_)
           IN  CASE e.cmd = "make" ->
                      Bad("C11.again", Empty(b) /\ Everything(w0, p.hist) = Everything(x, p.hist) /\ Len(Chain(G)) = Len(Chain(F)) + (IF Empty(a) THEN 0 ELSE 1), Change(w0, x))
                 [] e.cmd = "stage" -> Bad("C11.again", IsPrefix(a.ch, b.ch) /\ (e.full >= 0 => Len(b.ch) = Len(a.ch) + e.full), "stage was " \o ToString(a) \o " is " \o ToString(b))
                 [] e.cmd = "reset" -> Bad("C11.again", b = NewStage(p.hist, a.prev), "stage is " \o ToString(b))
                 [] OTHER -> {}

(* a command that has to work on a project as init made it *)
Done(vs) == {v \in vs : SubSeq(v[1], 1, 3) # "C21"}
JWorks(w, e, x) ==
  {<<"C15.works", e.cmd \o ": " \o v[1] \o " " \o v[2]>> : v \in Done(Judge(w, e, x))} \cup Bad("C15.works", e.code = 0, e.cmd \o ": exit status " \o ToString(e.code))
  \cup Bad("C15.works", e.cmd \in {"up", "down"} \/ x = w, e.cmd \o ": " \o Change(w, x))

(* a command some of whose writes failed: when it says it worked, it did *)
JIo(w, e, x) ==
  Bad("C17.message", e.code = 0 \/ e.err, "exit status " \o ToString(e.code) \o " and nothing on standard error")
  \cup Bad("C17.success", e.code # 0 \/ e.made, e.fault \o ": exit status 0")
  \cup (IF e.code # 0 THEN {} ELSE {<<"C17.success", e.fault \o ": exit status 0, but " \o v[1] \o " " \o v[2]>> : v \in Done(Judge(w, e, x))})
=============================================================================
