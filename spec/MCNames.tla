------------------------------ MODULE MCNames ------------------------------
(* Names as sequences of characters and the ways SQL writes them. The model  *)
(* shows that writing a name in double quotes with every double quote in it  *)
(* doubled is read back as exactly that name whatever it consists of and     *)
(* whatever follows, and likewise for strings; and that nothing simpler      *)
(* (HOW other than "double") is. The names it enumerates are written to      *)
(* NAMES and used in every position of the projects podo is tried on.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

How == IOEnv.HOW
Longest == 3
(* one character of every kind that SQL, YAML or shells may treat specially; *)
(* N stands for a letter that is not ASCII                                   *)
Chars == {"a", "B", "7", "_", "\"", "'", " ", "\\", "$", ";", "-", ".", "(", "/", "N", "%", ":", "{", "#", ","}
Plain(c) == c \in {"a", "7", "_"}

RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET w == Words(n - 1) IN w \cup {Append(x, c) : x \in {y \in w : Len(y) = n - 1}, c \in Chars}
(* YAML keys are trimmed: names neither begin nor end with a space *)
All == {w \in Words(Longest) : w # <<>> /\ w[1] # " " /\ w[Len(w)] # " "}

RECURSIVE Doubled(_, _)
Doubled(w, q) == IF w = <<>> THEN <<>> ELSE (IF Head(w) = q THEN <<q, q>> ELSE <<Head(w)>>) \o Doubled(Tail(w), q)
RECURSIVE Escaped(_, _)
Escaped(w, q) == IF w = <<>> THEN <<>> ELSE (IF Head(w) = q THEN <<"\\", q>> ELSE <<Head(w)>>) \o Escaped(Tail(w), q)
Quoted(w, q) ==
  CASE How = "double" -> <<q>> \o Doubled(w, q) \o <<q>>
    [] How = "surround" -> <<q>> \o w \o <<q>>
    [] How = "escape" -> <<q>> \o Escaped(w, q) \o <<q>>
    [] How = "needed" -> IF \A i \in DOMAIN w : Plain(w[i]) THEN w ELSE <<q>> \o Doubled(w, q) \o <<q>>

(* how PostgreSQL reads an identifier at the beginning of a text: <<name, rest>> *)
Lower(c) == IF c = "B" THEN "b" ELSE c
RECURSIVE Inside(_, _, _)
Inside(t, q, got) ==
  IF t = <<>> THEN <<<<"unterminated">>, <<>>>>
  ELSE IF Head(t) # q THEN Inside(Tail(t), q, Append(got, Head(t)))
  ELSE IF Len(t) > 1 /\ t[2] = q THEN Inside(Tail(Tail(t)), q, Append(got, q))
  ELSE <<got, Tail(t)>>
RECURSIVE Bareword(_, _)
Bareword(t, got) == IF t # <<>> /\ Head(t) \in {"a", "B", "7", "_", "$", "N"} THEN Bareword(Tail(t), Append(got, Lower(Head(t)))) ELSE <<got, t>>
Read(t, q) ==
  IF t = <<>> THEN <<<<"nothing">>, <<>>>>
  ELSE IF Head(t) = q THEN Inside(Tail(t), q, <<>>)
  ELSE IF Head(t) \in {"a", "B", "_", "N"} THEN Bareword(t, <<>>)
  ELSE <<<<"syntax error">>, t>>

(* what stands behind a name in a statement *)
Behind == {<<>>, <<".", "\"", "a", "\"">>, <<" ", "a">>, <<",", " ">>, <<"(">>, <<";">>}

VARIABLE w
Init == w \in All
Next == FALSE /\ UNCHANGED w
Spec == Init /\ [][Next]_w
Literal == \A q \in {"\"", "'"} : \A b \in Behind : Read(Quoted(w, q) \o b, q) = <<w, b>>

RECURSIVE Text(_)
Text(x) == IF x = <<>> THEN "" ELSE Head(x) \o Text(Tail(x))
ASSUME IOEnv.NAMES = "" \/ ndJsonSerialize(IOEnv.NAMES, <<[names |-> SetToSeq({Text(x) : x \in All})]>>)
=============================================================================
