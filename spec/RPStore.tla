------------------------------ MODULE RPStore ------------------------------
(* What a client knows: sessions with the messages of each, what leads to a  *)
(* session (nonce, subject, session id, logout state), and the values the    *)
(* program has set on the client.  Two clients "a" and "b" side by side, and *)
(* one export, taken of one of them at some time, from which that client can *)
(* be made anew, more than once.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
Cs == IF Focus = "dump" THEN {"a", "b"} ELSE {"a"}
K == CASE Focus = "items" -> 2 [] Focus = "x" -> 3 [] OTHER -> 2        \* sessions 1..K
T == CASE Focus = "items" -> 2 [] Focus = "x" -> 0 [] OTHER -> 1        \* kinds of messages
V == CASE Focus = "items" -> 3 [] OTHER -> 2                             \* messages
X == CASE Focus = "items" -> 0 [] Focus = "x" -> 2 [] OTHER -> 1        \* kinds of references
N == CASE Focus = "x" -> 3 [] OTHER -> 1                                 \* values of each kind
A == CASE Focus = "dump" -> 1 [] OTHER -> 0                              \* things set on the client
None == <<>>
Absent == [on |-> FALSE, iss |-> 0, it |-> [t \in 1..T |-> 0]]
Empty == [st |-> [k \in 1..K |-> Absent], x |-> [y \in 1..X |-> [v \in 1..N |-> 0]], at |-> [i \in 1..A |-> 0]]
Start == [at |-> [c \in Cs |-> Empty], d |-> None]
\* what the messages hold: the parameter p, or its verified form, and q
P(v, orig) == CASE v = 1 -> 1 [] v = 2 -> 2 [] v = 3 -> (IF orig THEN 3 ELSE 4) [] OTHER -> 0
Q(v) == IF v = 2 THEN 2 ELSE 0
----------------------------------------------------------------------------
NoRes == [n |-> 0, p |-> 0, q |-> 0]
R(t, out, res) == [s |-> t, out |-> out, res |-> res, wire |-> <<>>, aw |-> FALSE, touch |-> {}]
Fail == R(s, "fail", NoRes)
Ok(t) == R(t, "ok", NoRes)
Says(n) == R(s, "ok", [NoRes EXCEPT !.n = n])
Me(e) == s.at[e.c]
Now(e, m) == Ok([s EXCEPT !.at[e.c] = m])
Later(x, y) == IF y # 0 THEN y ELSE x
Step(e) ==
  LET m == IF e.t = "none" THEN Empty ELSE Me(e) IN
  CASE e.t = "create" -> Now(e, [m EXCEPT !.st[e.k] = [Absent EXCEPT !.on = TRUE, !.iss = e.i]])
    \* storing begins a session if need be, one without an issuer
    [] e.t = "store"  -> Now(e, [m EXCEPT !.st[e.k].on = TRUE, !.st[e.k].it[e.m] = e.v])
    [] e.t = "get"    -> IF m.st[e.k].it[e.m] = 0 THEN Fail ELSE Says(m.st[e.k].it[e.m])
    [] e.t = "iss"    -> IF m.st[e.k].iss = 0 THEN Fail ELSE Says(m.st[e.k].iss)
    [] e.t = "extend" -> LET v == m.st[e.k].it[e.m] IN R(s, "ok", [NoRes EXCEPT !.p = P(v, e.orig), !.q = Q(v)])
    \* what comes later in the list given takes precedence
    [] e.t = "multi"  -> IF ~m.st[e.k].on THEN Fail ELSE
                         LET u == m.st[e.k].it[e.o[1]]
                             w == m.st[e.k].it[e.o[2]]
                         IN R(s, "ok", [NoRes EXCEPT !.p = Later(P(u, e.orig), P(w, e.orig)), !.q = Later(Q(u), Q(w))])
    [] e.t = "bind"   -> Now(e, [m EXCEPT !.x[e.x][e.v] = e.k])
    [] e.t = "by"     -> IF m.x[e.x][e.v] = 0 THEN Fail ELSE Says(m.x[e.x][e.v])
    [] e.t = "rm"     -> IF ~m.st[e.k].on THEN Fail ELSE
                         Now(e, [m EXCEPT !.st[e.k] = Absent,
                                          !.x = [y \in 1..X |-> [v \in 1..N |-> IF m.x[y][v] = e.k THEN 0 ELSE m.x[y][v]]]])
    [] e.t = "set"    -> Now(e, [m EXCEPT !.at[e.a] = e.v])
    [] e.t = "dump"   -> Ok([s EXCEPT !.d = <<[of |-> e.c, is |-> m]>>])
    [] e.t = "load"   -> Now(e, s.d[1].is)
----------------------------------------------------------------------------
Size(m) == Cardinality({k \in 1..K : m.st[k].on}) + Cardinality({k \in 1..K : \E t \in 1..T : m.st[k].it[t] # 0})
           + Cardinality({y \in 1..X : \E v \in 1..N : m.x[y][v] # 0}) + Cardinality({i \in 1..A : m.at[i] # 0})
Most == IF Focus # "dump" THEN 99 ELSE IF Wide THEN 4 ELSE 3
Fits(t) == \A c \in Cs : Size(t.at[c]) <= IF c = "a" THEN Most ELSE 1
Events ==
  {[t |-> "create", c |-> c, k |-> k, i |-> i] : c \in Cs, k \in 1..K, i \in IF Focus = "items" THEN 1..2 ELSE {1}}
  \cup {[t |-> "store", c |-> c, k |-> k, m |-> m, v |-> v] : c \in Cs, k \in 1..K, m \in 1..T, v \in 1..V}
  \cup {[t |-> "get", c |-> c, k |-> k, m |-> m] : c \in Cs, k \in 1..K, m \in 1..T}
  \cup {[t |-> "iss", c |-> c, k |-> k] : c \in Cs, k \in 1..K}
  \cup {[t |-> "extend", c |-> c, k |-> k, m |-> m, orig |-> o] : c \in Cs, k \in 1..K, m \in 1..T, o \in BOOLEAN}
  \cup {[t |-> "multi", c |-> c, k |-> k, o |-> o, orig |-> b] :
           c \in Cs, k \in 1..K, o \in IF T = 2 THEN {<<1, 2>>, <<2, 1>>} ELSE {}, b \in BOOLEAN}
  \cup {[t |-> "bind", c |-> c, x |-> x, v |-> v, k |-> k] : c \in Cs, x \in 1..X, v \in 1..N, k \in 1..K}
  \cup {[t |-> "by", c |-> c, x |-> x, v |-> v] : c \in Cs, x \in 1..X, v \in 1..N}
  \cup {[t |-> "rm", c |-> c, k |-> k] : c \in Cs, k \in 1..K}
  \cup {[t |-> "set", c |-> c, a |-> a, v |-> v] : c \in Cs, a \in 1..A, v \in 0..2}
  \cup (IF Focus = "dump" THEN {[t |-> "dump", c |-> c] : c \in Cs} \cup {[t |-> "load", c |-> c] : c \in Cs} ELSE {})
May(e) ==
  /\ e.t = "create" => ~Me(e).st[e.k].on
  /\ e.t = "bind" => Me(e).st[e.k].on
  /\ e.t = "load" => (s.d # None /\ s.d[1].of = e.c)
  /\ (e.t = "set" /\ e.v = 0) => Me(e).at[e.a] # 0
  /\ Fits(Step(e).s)

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in {x \in Events : May(x)} : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == s.at
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([focus |-> Focus]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in {x \in Events : May(x)}}]))
----------------------------------------------------------------------------
\* everything of a session, references to it included
Sess(m, k) == [st |-> m.st[k], x |-> {<<y, v>> \in (1..X) \X (1..N) : m.x[y][v] = k}]
\* nothing leads to a session that isn't there
Leads == \A c \in Cs : \A y \in 1..X : \A v \in 1..N : s.at[c].x[y][v] # 0 => s.at[c].st[s.at[c].x[y][v]].on
PropC32 ==
  [][LET e == ev'
         m == s.at[e.c]
         n == s'.at[e.c]
         r == Step(e) IN
      \* reading changes nothing
      /\ e.t \in {"get", "iss", "extend", "multi", "by"} => s' = s
      \* one client's doings are not seen at the other, one session's not in another
      /\ \A c \in Cs \ {e.c} : s'.at[c] = s.at[c]
      /\ e.t \in {"create", "store", "rm"} => \A k \in (1..K) \ {e.k} : Sess(n, k) = Sess(m, k)
      /\ e.t = "store" => /\ n.st[e.k].it[e.m] = e.v /\ n.st[e.k].iss = m.st[e.k].iss
                          /\ \A t \in (1..T) \ {e.m} : n.st[e.k].it[t] = m.st[e.k].it[t]
      /\ e.t = "bind" => n.x[e.x][e.v] = e.k /\ n.st = m.st
                         /\ \A y \in 1..X : \A v \in 1..N : (y # e.x \/ v # e.v) => n.x[y][v] = m.x[y][v]
      /\ (e.t = "rm" /\ r.out = "ok") => Sess(n, e.k) = [st |-> Absent, x |-> {}]
     ]_vars
PropC21 ==
  [][LET e == ev' IN
      \* an export is of the moment it was made, and stays that
      /\ e.t # "dump" => s'.d = s.d
      /\ e.t = "dump" => s'.at = s.at /\ s'.d[1].is = s.at[e.c]
      /\ e.t = "load" => s'.at[e.c] = s.d[1].is
     ]_vars
=============================================================================
