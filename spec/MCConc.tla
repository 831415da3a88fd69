------------------------------ MODULE MCConc ------------------------------
(* Two sessions migrating one database, statement by statement, under        *)
(* PostgreSQL's read committed isolation: every statement sees what is       *)
(* committed when it starts and what its own transaction did; a key or a     *)
(* schema another open transaction has just written makes it wait for that   *)
(* transaction; the ledger is locked (LOCK = "yes") before it is read.       *)
(* Checked: every outcome is that of a serial execution, or of one in which  *)
(* a session that lost the race did nothing. Without the lock (LOCK = "no")  *)
(* that is false; there the schedules of all behaviours with at most         *)
(* SWITCHES changes of turn are printed, "hot" when the outcome is wrong,    *)
(* and replayed into podo (pv/pairs.py).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, IOUtils

Locks == IOEnv.LOCK = "yes"
Switches == atoi(IOEnv.SWITCHES)
Schedules == IOEnv.SCHED = "yes"

(* versions: 0 is init; two checkouts share 1 and differ above it *)
ChainOf(k) == IF k = 1 THEN <<0, 1, 2, 3>> ELSE <<0, 1, 12>>
Prev(v) == CASE v = 0 -> -1 [] v = 1 -> 0 [] v = 2 -> 1 [] v = 3 -> 2 [] v = 12 -> 1
Pos(s, x) == IF x \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
None == -9

(* what a command does to a ledger on its own: [ok, rows, eff] *)
Serial1(rows0, c) ==
  LET rows == IF rows0 = <<>> THEN <<0>> ELSE rows0
      cur == Last(rows)
      ch == ChainOf(c.hist)
  IN  IF c.cmd = "up"
      THEN LET t == IF c.t = None THEN Last(ch) ELSE c.t
               a == Pos(ch, cur)
               b == Pos(ch, t)
           IN  IF a = 0 \/ b = 0 \/ a > b THEN [ok |-> FALSE, rows |-> rows0, eff |-> <<>>]
               ELSE IF a = b THEN [ok |-> TRUE, rows |-> rows0, eff |-> <<>>]
               ELSE [ok |-> TRUE, rows |-> rows \o SubSeq(ch, a + 1, b), eff |-> [i \in 1..(b - a) |-> <<"up", ch[a + i]>>]]
      ELSE LET b == IF c.t # None THEN Pos(rows, c.t) ELSE IF Len(rows) = 1 THEN 1 ELSE Len(rows) - 1
           IN  IF b = 0 THEN [ok |-> FALSE, rows |-> rows0, eff |-> <<>>]
               ELSE IF b = Len(rows) THEN [ok |-> TRUE, rows |-> rows0, eff |-> <<>>]
               ELSE [ok |-> TRUE, rows |-> SubSeq(rows, 1, b), eff |-> [i \in 1..(Len(rows) - b) |-> <<"down", rows[Len(rows) + 1 - i]>>]]

VARIABLES rows, log, exists, ss, sched, turn, switches, init

S == {1, 2}
Other(i) == 3 - i
Me(i) == ss[i]
(* rows a session sees: committed ones, its own inserts and deletes *)
Sees(i) == SelectSeq(rows, LAMBDA r : r \notin Range(Me(i).del)) \o Me(i).ins
Open(i) == Me(i).pc \notin {"done", "failed"}

Idle(c) == [c |-> c, pc |-> "exists", mk |-> FALSE, cur |-> 0, todo |-> <<>>, ins |-> <<>>, del |-> <<>>, eff |-> <<>>, lock |-> FALSE]
Set(i, f) == ss' = [ss EXCEPT ![i] = f]
Fail(i) == /\ ss' = [ss EXCEPT ![i] = [@ EXCEPT !.pc = "failed", !.ins = <<>>, !.del = <<>>, !.eff = <<>>, !.lock = FALSE, !.mk = FALSE]]
           /\ UNCHANGED <<rows, log, exists>>
Stay == UNCHANGED <<rows, log, exists>>

Exists(i) == /\ Me(i).pc = "exists"
             /\ Set(i, [Me(i) EXCEPT !.pc = IF exists THEN "lock" ELSE "schema"])
             /\ Stay
(* a schema the other is just creating: wait for it to end *)
Schema(i) == /\ Me(i).pc = "schema"
             /\ ~Me(Other(i)).mk
             /\ IF exists THEN Fail(i) ELSE Set(i, [Me(i) EXCEPT !.pc = "table", !.mk = TRUE]) /\ Stay
Table(i) == /\ Me(i).pc = "table"
            /\ Set(i, [Me(i) EXCEPT !.pc = "lock", !.ins = <<0>>])
            /\ Stay
Lock(i) == /\ Me(i).pc = "lock"
           /\ Locks => ~Me(Other(i)).lock
           /\ Set(i, [Me(i) EXCEPT !.pc = "read", !.lock = Locks])
           /\ Stay
Read(i) == LET v == Sees(i)
               c == Me(i).c
               n == Last(v)
               ch == ChainOf(c.hist)
           IN /\ Me(i).pc = "read"
              /\ IF c.cmd = "up"
                 THEN LET t == IF c.t = None THEN Last(ch) ELSE c.t
                          a == Pos(ch, n)
                          b == Pos(ch, t)
                      IN  IF a = 0 \/ b = 0 \/ a > b THEN Fail(i)
                          ELSE IF a = b THEN Set(i, [Me(i) EXCEPT !.pc = "done", !.ins = <<>>, !.mk = FALSE, !.lock = FALSE]) /\ Stay
                          ELSE Set(i, [Me(i) EXCEPT !.pc = "exec", !.cur = n, !.todo = SubSeq(ch, a + 1, b)]) /\ Stay
                 ELSE IF c.t = None /\ n = 0 THEN Set(i, [Me(i) EXCEPT !.pc = "done", !.ins = <<>>, !.mk = FALSE, !.lock = FALSE]) /\ Stay
                 ELSE Set(i, [Me(i) EXCEPT !.pc = "range", !.cur = n]) /\ Stay
Range_(i) == LET v == Sees(i)
                 c == Me(i).c
                 t == IF c.t = None THEN Prev(Me(i).cur) ELSE c.t
                 a == Pos(v, Me(i).cur)
                 b == Pos(v, t)
             IN /\ Me(i).pc = "range"
                /\ IF a = 0 \/ b = 0 THEN Fail(i)
                   ELSE IF b >= a THEN Set(i, [Me(i) EXCEPT !.pc = "done", !.ins = <<>>, !.mk = FALSE, !.lock = FALSE]) /\ Stay
                   ELSE Set(i, [Me(i) EXCEPT !.pc = "get", !.todo = Reverse(SubSeq(v, b + 1, a))]) /\ Stay
Get(i) == /\ Me(i).pc = "get"
          /\ IF Head(Me(i).todo) \in Range(Sees(i)) THEN Set(i, [Me(i) EXCEPT !.pc = "exec"]) /\ Stay ELSE Fail(i)
Exec(i) == /\ Me(i).pc = "exec"
           /\ Set(i, [Me(i) EXCEPT !.pc = "record", !.eff = Append(@, <<Me(i).c.cmd, Head(Me(i).todo)>>)])
           /\ Stay
(* the row of the version: its key and the reference to its predecessor are checked against what is committed *)
Record(i) ==
  LET v == Head(Me(i).todo)
      rest == Tail(Me(i).todo)
      o == Me(Other(i))
      next(m) == IF rest = <<>> THEN [m EXCEPT !.pc = "commit", !.todo = <<>>] ELSE [m EXCEPT !.pc = IF Me(i).c.cmd = "up" THEN "exec" ELSE "get", !.todo = rest]
  IN /\ Me(i).pc = "record"
     /\ IF Me(i).c.cmd = "up"
        THEN /\ ~(Open(Other(i)) /\ (v \in Range(o.ins) \/ v \in Range(o.del) \/ Prev(v) \in Range(o.del)))
             /\ IF v \in Range(Sees(i)) \/ Prev(v) \notin Range(Sees(i)) THEN Fail(i)
                ELSE Set(i, next([Me(i) EXCEPT !.ins = Append(@, v)])) /\ Stay
        ELSE /\ ~(Open(Other(i)) /\ (v \in Range(o.del) \/ \E x \in Range(o.ins) : Prev(x) = v))
             /\ IF v \notin Range(Sees(i)) \/ (\E x \in Range(Sees(i)) : Prev(x) = v) THEN Fail(i)
                ELSE Set(i, next([Me(i) EXCEPT !.del = Append(@, v)])) /\ Stay
Commit(i) == /\ Me(i).pc = "commit"
             /\ rows' = Sees(i)
             /\ log' = log \o Me(i).eff
             /\ exists' = (exists \/ Me(i).mk)
             /\ Set(i, [Me(i) EXCEPT !.pc = "done", !.ins = <<>>, !.del = <<>>, !.eff = <<>>, !.lock = FALSE, !.mk = FALSE])

Act(i) == Exists(i) \/ Schema(i) \/ Table(i) \/ Lock(i) \/ Read(i) \/ Range_(i) \/ Get(i) \/ Exec(i) \/ Record(i) \/ Commit(i)
(* a change of turn is free when the other cannot go on *)
Stuck(i) == ~ENABLED Act(i)
Next == \E i \in S :
          /\ Act(i)
          /\ turn' = i
          /\ switches' = IF turn \in {0, i} \/ ~Open(turn) THEN switches ELSE switches + 1
          /\ Schedules => switches' <= Switches
          (* the steps a schedule counts: the lock is not one of them *)
          /\ sched' = IF Schedules /\ Me(i).pc # "lock" THEN Append(sched, i) ELSE sched
          /\ UNCHANGED init

Rows0 == {<<>>, <<0>>, <<0, 1>>, <<0, 1, 2>>, <<0, 1, 2, 3>>, <<0, 1, 12>>}
Cmds == {[cmd |-> "up", hist |-> h, t |-> t] : h \in {1, 2}, t \in {None, 1, 2}} \cup {[cmd |-> "down", hist |-> h, t |-> t] : h \in {1}, t \in {None, 0, 1}}
Init == /\ rows \in Rows0
        /\ exists = (rows # <<>>)
        /\ log = <<>>
        /\ \E a, b \in Cmds : ss = [i \in S |-> Idle(IF i = 1 THEN a ELSE b)]
        /\ sched = <<>> /\ turn = 0 /\ switches = 0
        /\ init = rows
Spec == Init /\ [][Next]_<<rows, log, exists, ss, sched, turn, switches, init>>

-----------------------------------------------------------------------------
Ended == \A i \in S : ~Open(i)
Says(i) == Me(i).pc = "done"
Outcome(i) ==
  LET j == Other(i)
      r1 == Serial1(init, Me(i).c)
      r2 == Serial1(r1.rows, Me(j).c)
  IN  \/ rows = r2.rows /\ log = r1.eff \o r2.eff /\ Says(i) = r1.ok /\ Says(j) = r2.ok
      \/ rows = r1.rows /\ log = r1.eff /\ Says(i) = r1.ok /\ ~Says(j)
Serializable == Ended => (\E i \in S : Outcome(i))
NeverStuck == Ended \/ (\E i \in S : ENABLED Act(i))

Show == Ended => PrintT("SCHED|~|" \o (IF Serializable THEN "cold" ELSE "hot") \o "|~|" \o ToString(init) \o "|~|" \o ToString(ss[1].c) \o "|~|" \o ToString(ss[2].c) \o "|~|" \o ToString(sched))
=============================================================================
