------------------------------ MODULE RPFresh ------------------------------
(* Values an attacker must not know beforehand, or see used twice.  The      *)
(* processes of a relying party may have their ordinary random generators in *)
(* the same position: they were copied from one that had started it, or the  *)
(* application sets it (to repeat some calculation, say).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
Procs == {1, 2}
K == IF Wide THEN 3 ELSE 2
\* how a client is set up: PKCE, request objects by reference, how it authenticates
Cfgs == [pkce : {"", "S256", "S512"}, ref : BOOLEAN, auth : {"client_secret_basic", "client_secret_jwt", "private_key_jwt"}, dpop : BOOLEAN]
NoCfg == [pkce |-> "?", ref |-> FALSE, auth |-> "", dpop |-> FALSE]
(* n: how many values were ever made, so that the next one is number n + 1;  *)
(* p: per process the sessions it has begun, and how far they are; pos: have *)
(* the generators been put in their first position, and nothing was made     *)
(* since                                                                     *)
Start == [c |-> NoCfg, up |-> [p \in Procs |-> FALSE], ss |-> [p \in Procs |-> <<>>], pos |-> FALSE, made |-> [k \in {"state", "nonce", "verifier", "file", "jti", "proof", "logout", "seed"} |-> 0]]
----------------------------------------------------------------------------
\* what an action makes, all of it new
Kinds(e) ==
  CASE e.t = "start"  -> {"seed"}
    [] e.t = "begin"  -> {"state", "nonce"} \cup (IF s.c.pkce # "" THEN {"verifier"} ELSE {}) \cup (IF s.c.ref THEN {"file"} ELSE {})
    [] e.t = "finish" -> (IF s.c.auth # "client_secret_basic" THEN {"jti"} ELSE {}) \cup (IF s.c.dpop THEN {"proof"} ELSE {})
    [] e.t = "logout" -> {"logout"}
    [] OTHER -> {}
After(e) ==
  CASE e.t = "set"    -> [s EXCEPT !.c = e.c]
    [] e.t = "reseed" -> [s EXCEPT !.pos = TRUE]
    [] e.t = "start"  -> [s EXCEPT !.up[e.p] = TRUE, !.pos = FALSE]
    [] e.t = "begin"  -> [s EXCEPT !.ss[e.p] = Append(@, "begun"), !.pos = FALSE]
    [] e.t = "finish" -> [s EXCEPT !.ss[e.p][e.i] = "done", !.pos = FALSE]
    [] e.t = "logout" -> [s EXCEPT !.ss[e.p][e.i] = "out", !.pos = FALSE]
Result(e) == [k \in Kinds(e) |-> "new"]
Step(e) ==
  LET t == After(e) IN
  [s |-> [t EXCEPT !.made = [k \in DOMAIN @ |-> IF k \in Kinds(e) THEN @[k] + 1 ELSE @[k]]],
   out |-> "ok", res |-> Result(e), wire |-> <<>>, aw |-> FALSE, touch |-> {}]
Events ==
  IF s.c = NoCfg THEN {[t |-> "set", c |-> c] : c \in Cfgs} ELSE
  (IF s.pos THEN {} ELSE {[t |-> "reseed"]})
  \cup {[t |-> "start", p |-> p] : p \in {p \in Procs : ~s.up[p]}}
  \cup {[t |-> "begin", p |-> p] : p \in {p \in Procs : s.up[p] /\ Len(s.ss[p]) < K}}
  \cup UNION {{[t |-> "finish", p |-> p, i |-> i] : i \in {i \in DOMAIN s.ss[p] : s.ss[p][i] = "begun"}} : p \in Procs}
  \cup UNION {{[t |-> "logout", p |-> p, i |-> i] : i \in {i \in DOMAIN s.ss[p] : s.ss[p][i] = "done"}} : p \in Procs}

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == [n |-> s.made]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))
----------------------------------------------------------------------------
Sum(f) == LET RECURSIVE Go(_) Go(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Go(D \ {x}) IN Go(DOMAIN f)
\* as many different values as were made: one state and one nonce for each session and so on
Counted ==
  LET n == Len(s.ss[1]) + Len(s.ss[2]) IN
  /\ s.made["state"] = n /\ s.made["nonce"] = n
  /\ s.made["verifier"] = IF s.c.pkce \in {"", "?"} THEN 0 ELSE n
  /\ s.made["seed"] = Cardinality({p \in Procs : s.up[p]})
PropC29 ==
  [][\* where the generator stands makes no difference
     /\ (ev'.t = "reseed") => (s'.made = s.made)
     /\ \A k \in DOMAIN s.made : s'.made[k] = s.made[k] + (IF k \in Kinds(ev') THEN 1 ELSE 0)
     ]_vars
=============================================================================
