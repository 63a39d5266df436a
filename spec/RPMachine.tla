------------------------------ MODULE RPMachine ----------------------------
(* A client that acts on its own behalf (RFC 6749, section 4.4), next to     *)
(* another one, in the same process, that users log in with.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
(* What it got is kept under a key, of which one is the default              *)
Keys == {"", "k1"} \cup IF Wide THEN {"k2"} ELSE {}
None == [at |-> 0, rem |-> -1, rt |-> 0]
\* u: the user's session: "" not logged in, else whether it has a refresh token
Start == [auth |-> "?", m |-> [k \in Keys |-> None], u |-> ""]
Auths == {"client_secret_basic", "client_secret_post"}

Bad == {"err400", "err400f", "err200", "http500", "http302", "garbage", "noat", "notype"}
Tok(k, n, life, rt) == [k |-> k, n |-> n, life |-> life, rt |-> rt]
Nth(k) == IF s.m[k].at = 0 THEN 1 ELSE 3 - s.m[k].at
Good(n) == {Tok(k, n, l, r) : k \in {"json", "jsonsilent", "form"}, l \in {0, -1, 1, 2}, r \in {0, n}}
Bads == {Tok(k, 0, 0, 0) : k \in Bad}
----------------------------------------------------------------------------
NoRes == [tok |-> 0, rem |-> -1, rt |-> 0]
R(t, out, res, w) == [s |-> t, out |-> out, res |-> res, wire |-> w, aw |-> FALSE, touch |-> {}]
Life(t) == IF t.life = 0 THEN 99 ELSE IF t.life = -1 THEN 0 ELSE t.life
Req(grant, k, n, auth, scope) == [grant |-> grant, key |-> k, n |-> n, auth |-> auth, scope |-> scope]
Got(k, x, keep) == LET rt == IF x.rt # 0 THEN x.rt ELSE IF keep THEN s.m[k].rt ELSE 0
                   IN [s EXCEPT !.m[k] = [at |-> x.n, rem |-> Life(x), rt |-> rt]]
Said(x) == [tok |-> x.n, rem |-> Life(x), rt |-> x.rt]
Get(e) == LET w == <<Req("client_credentials", "", 0, s.auth, e.scope)>> IN
  IF e.tok.k \in Bad THEN R(s, "fail", NoRes, w) ELSE R(Got(e.k, e.tok, FALSE), "ok", Said(e.tok), w)
Refresh(e) ==
  IF s.m[e.k].rt = 0 THEN R(s, "exc", NoRes, <<>>)
  ELSE LET w == <<Req("refresh_token", e.k, s.m[e.k].rt, "", "")>> IN
    IF e.tok.k \in Bad THEN R(s, "fail", NoRes, w) ELSE R(Got(e.k, e.tok, TRUE), "ok", Said(e.tok), w)
Login(e) == R([s EXCEPT !.u = e.rt], "ok", NoRes, <<Req("authorization_code", "user", 0, "client_secret_basic", "")>>)
Urefresh(e) == IF s.u # "rt" THEN R(s, "exc", NoRes, <<>>)
               ELSE R(s, "ok", NoRes, <<Req("refresh_token", "user", 1, "client_secret_basic", "")>>)
Step(e) ==
  CASE e.t = "set"     -> R([s EXCEPT !.auth = e.auth], "ok", NoRes, <<>>)
    [] e.t = "get"     -> Get(e)
    [] e.t = "refresh" -> Refresh(e)
    [] e.t = "login"   -> Login(e)
    [] e.t = "urefresh" -> Urefresh(e)
    [] e.t = "tick"    -> R([s EXCEPT !.m = [k \in Keys |-> IF @[k].rem \in 1..98 THEN [@[k] EXCEPT !.rem = @ - 1] ELSE @[k]]], "ok", NoRes, <<>>)
Events ==
  IF s.auth = "?" THEN {[t |-> "set", auth |-> a] : a \in Auths} ELSE
  {[t |-> "get", k |-> k, tok |-> x, scope |-> sc] : k \in Keys, x \in Good(1) \cup Good(2) \cup Bads, sc \in {""}}
  \cup {[t |-> "get", k |-> k, tok |-> Tok("json", Nth(k), 1, Nth(k)), scope |-> "a b"] : k \in Keys}
  \cup {[t |-> "refresh", k |-> k, tok |-> x] : k \in Keys, x \in Good(1) \cup Good(2) \cup Bads}
  \cup (IF s.u = "" THEN {[t |-> "login", rt |-> r] : r \in {"rt", "no"}} ELSE {[t |-> "urefresh"]})
  \cup (IF \E k \in Keys : s.m[k].rem \in 1..98 THEN {[t |-> "tick"]} ELSE {})
\* a token is followed by the other one
Ok(e) == (e.t \in {"get", "refresh"} /\ e.tok.k \notin Bad) => (e.tok.n = Nth(e.k))

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in {x \in Events : Ok(x)} : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == [m |-> [k \in Keys |-> [s.m[k] EXCEPT !.at = IF s.m[k].rem = 0 THEN 0 ELSE @]]]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([keys |-> Keys]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in {x \in Events : Ok(x)}}]))
----------------------------------------------------------------------------
PropC28 ==
  [][(ev'.t # "set") =>
     LET r == Step(ev') IN
      \* one key's tokens are of no concern to the others
      /\ \A k \in Keys : (s'.m[k] # s.m[k] /\ ev'.t # "tick") => (ev'.k = k)
      /\ \A k \in Keys : (s'.m[k].at # s.m[k].at) => (r.out = "ok" /\ s'.m[k].at = ev'.tok.n)
      /\ (r.out \in {"exc", "fail"}) => (s' = s)
      \* what is refreshed is what was got, and without a refresh token nothing is sent
      /\ (ev'.t = "refresh") => IF s.m[ev'.k].rt = 0 THEN r.wire = <<>> ELSE r.wire[1].n = s.m[ev'.k].rt
      /\ (ev'.t = "refresh" /\ r.out = "ok") => (s'.m[ev'.k].rt # 0)
      \* the other client does as it did before
      /\ (ev'.t = "urefresh" /\ s.u = "no") => (r.wire = <<>>)
     ]_vars
=============================================================================
