----------------------------- MODULE RPNegotiate ---------------------------
(* What a client prefers against what a provider supports.                   *)
(*                                                                           *)
(* One parameter is varied at a time, its values are 1, 2 and 3; 1 is what   *)
(* the standard takes for granted, where it does.  Providers A and B are     *)
(* negotiated with in any order.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>

Provs == IF Wide THEN {"A", "B", "C"} ELSE {"A", "B"}
----------------------------------------------------------------------------
\* single-valued, several values, and what nothing is matched with
Single == {"token_endpoint_auth_method", "id_token_signed_response_alg", "subject_type", "request_object_signing_alg",
           "request_object_encryption_alg", "request_object_encryption_enc", "userinfo_signed_response_alg",
           "userinfo_encrypted_response_alg", "userinfo_encrypted_response_enc", "id_token_encrypted_response_alg",
           "id_token_encrypted_response_enc", "token_endpoint_auth_signing_alg"}
Multi == {"response_types", "grant_types", "default_acr_values", "scope"}
Own1 == {"client_name", "application_type"}
OwnN == {"contacts"}
Pars == Single \cup Multi \cup Own1 \cup OwnN
\* metadata that a provider has to give, those that have to list 1
Given == {"id_token_signed_response_alg", "subject_type", "response_types"}
Lists1 == {"id_token_signed_response_alg", "scope"}
Range(q) == {q[i] : i \in 1..Len(q)}
\* what silence means
Silent == <<0>>
Means(par, prov) ==
  IF prov # Silent THEN Range(prov)
  ELSE CASE par = "token_endpoint_auth_method" -> {1}
         [] par = "grant_types" -> {1, 2}
         [] OTHER -> 1..3

Matches(pref, L) == SelectSeq(pref, LAMBDA v : v \in L)
Chosen(par, pref, prov) ==
  LET m == Matches(pref, Means(par, prov)) IN IF par \in Multi \cup OwnN THEN m ELSE IF m = <<>> THEN <<>> ELSE <<m[1]>>
Fails(par, pref, prov) == par \in Single /\ Chosen(par, pref, prov) = <<>>

----------------------------------------------------------------------------
Seqs == {q \in UNION {[1..n -> 1..3] : n \in 1..3} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
\* str: the preference is given as a string
Cfg(p, q, st, m) == [par |-> p, pref |-> q, str |-> st, mode |-> m]
NValues(p) == IF p \in {"subject_type", "application_type"} THEN 2 ELSE 3
Cfgs == {Cfg(p, q, FALSE, m) : p \in Single \cup Multi \cup OwnN, q \in Seqs, m \in {"def", "own"}}
        \cup {Cfg(p, <<v>>, TRUE, m) : p \in Single \cup Own1, v \in 1..3, m \in {"def", "own"}}
NoCfg == Cfg("", <<>>, FALSE, "")
ProvLists(p) ==
  IF p \in Own1 \cup OwnN THEN {Silent} ELSE
  {q \in Seqs : (p \in Lists1) => (1 \in Range(q))} \cup (IF p \in Given THEN {} ELSE {Silent})

None == [on |-> FALSE, val |-> <<>>]
R(t, out, res) == [s |-> t, out |-> out, res |-> res, wire |-> <<>>, aw |-> TRUE, touch |-> {}]
NoRes == [reg |-> <<>>]
\* what is registered isn't said where there is nothing, or where it depends on other parameters
Registered(c, val) == IF c.mode = "def" /\ val # <<>> /\ c.par \notin {"grant_types", "scope"} THEN val ELSE <<>>
DoNego(e) ==
  LET c == s.cfg val == Chosen(c.par, c.pref, e.prov) IN
  IF Fails(c.par, c.pref, e.prov) THEN R(s, "config", NoRes)
  ELSE R([s EXCEPT !.cl[e.p] = [on |-> TRUE, val |-> val]], "ok", [reg |-> Registered(c, val)])
Step(e) ==
  CASE e.t = "setup" -> R([s EXCEPT !.cfg = e.cfg], "ok", NoRes)
    [] e.t = "nego" -> DoNego(e)

Events ==
  IF s.cfg = NoCfg THEN {[t |-> "setup", cfg |-> c] : c \in {c \in Cfgs : \A i \in 1..Len(c.pref) : c.pref[i] <= NValues(c.par)}}
  ELSE {[t |-> "nego", p |-> p, prov |-> q] :
          p \in {p \in Provs : ~s.cl[p].on},
          q \in {q \in ProvLists(s.cfg.par) : \A i \in 1..Len(q) : q[i] <= NValues(s.cfg.par)}}
Init == s = [cfg |-> NoCfg, cl |-> [p \in Provs |-> None]] /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == s.cl
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([provs |-> Provs]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
(* C15, said without the functions above                                     *)
PropC15 ==
  [][(ev'.t = "nego") =>
      LET c == s.cfg x == s'.cl[ev'.p] q == ev'.prov IN
      /\ \A p \in Provs : (p # ev'.p) => (s'.cl[p] = s.cl[p])
      /\ x.on =>
          /\ \A i \in 1..Len(x.val) : \E j \in 1..Len(c.pref) : c.pref[j] = x.val[i]
          \* only what the provider lists
          /\ (q # Silent /\ c.par \notin Own1 \cup OwnN) => \A i \in 1..Len(x.val) : \E j \in 1..Len(q) : q[j] = x.val[i]
          \* nothing that is preferred to it
          /\ (c.par \in Single) => (Len(x.val) = 1 /\ \A j \in 1..Len(c.pref) : (c.pref[j] = x.val[1]) =>
                  \A k \in 1..(j - 1) : (q # Silent /\ c.pref[k] \notin Range(q)) \/ (q = Silent /\ c.pref[k] \notin Means(c.par, q)))
          \* all that both have, in the client's order
          /\ (c.par \in Multi /\ q # Silent) =>
                \A i, j \in 1..Len(c.pref) : (i < j /\ {c.pref[i], c.pref[j]} \subseteq Range(q)) =>
                    \E a, b \in 1..Len(x.val) : a < b /\ x.val[a] = c.pref[i] /\ x.val[b] = c.pref[j]
      /\ ~x.on => (c.par \in Single /\ q # Silent => Range(q) \cap Range(c.pref) = {})
     ]_vars
=============================================================================
