----------------------------- MODULE RPRequest -----------------------------
(* What the requests of a relying party say: authorization requests (plain,  *)
(* as request objects, pushed), token and refresh requests with their client *)
(* authentication and code verifiers, user info requests with their tokens,  *)
(* and DPoP proofs.                                                          *)
(*                                                                           *)
(* The first event configures the RP for two providers, A and B.  A session  *)
(* remembers the parameters it was started with.  Random values are not part *)
(* of the state: a code verifier is "the one of session i", which the        *)
(* executor establishes from the challenges it has seen.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
Issuers == {"A", "B"}

----------------------------------------------------------------------------
(* Configurations                                                            *)
\* am: authentication method, alg: preferred signing algorithm ("": none),
\* pa: what the provider says it supports; pk, pl: PKCE method and length;
\* dp: algorithms for DPoP; ro: request objects; rs: configured request
\* arguments; um: how user info is asked for; st: set up statically or
\* dynamically
Base == [am |-> "client_secret_basic", alg |-> "", pa |-> "all", pk |-> "", pl |-> 64, dp |-> "", ro |-> "",
         rs |-> 0, um |-> "get", st |-> "static"]
None == [Base EXCEPT !.am = "-"]

Methods == {"client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"}
JWTs == {"client_secret_jwt", "private_key_jwt"}
HS == {"HS256", "HS384", "HS512"}
AS == {"RS256", "RS384", "RS512", "PS256", "ES256"}

\* what the client ends up signing assertions with, "*" where it is left open
AlgOf(p) ==
  IF p.am \notin JWTs THEN ""
  ELSE IF p.alg # "" THEN p.alg
  ELSE CASE p.am = "client_secret_jwt" -> (CASE p.pa = "all" -> "HS256" [] p.pa = "hs" -> "HS512" [] OTHER -> "*")
         [] OTHER -> (CASE p.pa = "all" -> "ES256" [] p.pa = "as" -> "RS384" [] OTHER -> "RS256")

AuthOf(p) ==
  CASE p.am \in {"", "client_secret_basic"} -> "basic"
    [] p.am = "client_secret_post" -> "post"
    [] OTHER -> p.am \o ":" \o AlgOf(p)

\* the first algorithm of the client's that the provider supports
DpOf(p) == CASE p.dp \in {"", "none", "silent", "empty"} -> "" [] p.dp = "first" -> "ES256" [] p.dp = "second" -> "ES256"
             [] p.dp = "order" -> "ES384" [] p.dp = "rsa" -> "RS256" [] p.dp = "rsa5" -> "RS512"

\* configured request arguments
CfgArgs(p) == CASE p.rs = 1 -> [sc |-> 0, cl |-> 2, x |-> 2, pr |-> 0]
                [] p.rs = 2 -> [sc |-> 2, cl |-> 0, x |-> 0, pr |-> 2]
                [] p.rs = 3 -> [sc |-> 0, cl |-> 0, x |-> 3, pr |-> 0]      \* of the service
                [] p.rs = 4 -> [sc |-> 4, cl |-> 2, x |-> 0, pr |-> 0]
                [] OTHER -> [sc |-> 0, cl |-> 0, x |-> 0, pr |-> 0]

----------------------------------------------------------------------------
(* Authorization requests                                                    *)
\* scopes: 1 openid, 2 openid email, 3 openid offline_access, 4 (said without openid) profile,
\* 5 openid email offline_access
NoArgs == [rt |-> "", sc |-> 0, ru |-> 0, cl |-> 0, x |-> 0, pr |-> 0]
First(a, b) == IF a # 0 THEN a ELSE b

\* NoPar: no such thing
NoPar == [rt |-> "", sc |-> 0, ru |-> 0, cl |-> 0, x |-> 0, pr |-> 0, ch |-> "", ok |-> FALSE]
Params(p, a) ==
  LET c == CfgArgs(p)
      sc == First(a.sc, First(c.sc, 1))
  IN [rt |-> IF a.rt = "" THEN "code" ELSE a.rt,
      sc |-> sc, ru |-> First(a.ru, 1), cl |-> First(a.cl, c.cl), x |-> First(a.x, c.x),
      pr |-> LET q == First(a.pr, c.pr) IN IF q = 0 /\ sc \in {3, 5} THEN 3 ELSE q,   \* 3: consent
      ch |-> p.pk, ok |-> TRUE]

Exchanges(rt) == rt \in {"code", "code id_token", "code token", "code id_token token"}

W(ep, iss) == [ep |-> ep, iss |-> iss, i |-> 0, x |-> 0, auth |-> "", ver |-> 0, dp |-> "", par |-> NoPar]
NoRes == [sess |-> 0, ep |-> "", how |-> "", par |-> NoPar, fresh |-> FALSE]
R(t, out, res, wire, touch) == [s |-> t, out |-> out, res |-> res, wire |-> wire, aw |-> FALSE, touch |-> touch]
Refused == R(s, "exc", NoRes, <<>>, {})

Ready == s.P["A"].am # "-"
Open(i) == i \in 1..Len(s.S) /\ s.S[i].open
Prof(i) == s.P[s.S[i].iss]

Pushed(p) == p.ro \in {"par", "parlax", "parurl"}
DoBegin(e) ==
  LET p == s.P[e.iss]
      par == Params(p, e.a)
      n == Len(s.S) + 1
      w == IF Pushed(p) THEN <<[W("par", e.iss) EXCEPT !.par = par]>> ELSE <<>>
  IN IF p.ro \in {"reqnokey", "urinokey"} THEN Refused      \* nothing to encrypt it with
     ELSE IF Pushed(p) /\ e.pa \notin {"ok", "created"} THEN R(s, "exc", NoRes, w, {})
     ELSE R([s EXCEPT !.S = Append(@, [iss |-> e.iss, par |-> par, open |-> TRUE, code |-> FALSE, at |-> 0, rt |-> 0,
                                       ver |-> p.pk # "", k |-> 0])],
            "ok", [sess |-> n, ep |-> e.iss, how |-> p.ro, par |-> par, fresh |-> TRUE], w, {})

\* a session from before PKCE was switched on
DoOld(e) == R([s EXCEPT !.S = Append(@, [iss |-> e.iss, par |-> [Params(s.P[e.iss], NoArgs) EXCEPT !.ch = ""], open |-> TRUE,
                                         code |-> TRUE, at |-> 0, rt |-> 0, ver |-> FALSE, k |-> 0])],
              "ok", [NoRes EXCEPT !.sess = Len(s.S) + 1], <<>>, {})

\* the authorization request is built again for the same session
DoRedo(e) ==
  LET x == s.S[e.i]
      p == s.P[x.iss]
      w == IF Pushed(p) THEN <<[W("par", x.iss) EXCEPT !.par = [x.par EXCEPT !.ch = p.pk]]>> ELSE <<>>
  IN R([s EXCEPT !.S[e.i].ver = (p.pk # ""), !.S[e.i].par.ch = p.pk], "ok",
       [sess |-> e.i, ep |-> x.iss, how |-> p.ro, par |-> [x.par EXCEPT !.ch = p.pk], fresh |-> TRUE], w, {e.i})

DoCode(e) == R([s EXCEPT !.S[e.i].code = TRUE], "ok", NoRes, <<>>, {e.i})

----------------------------------------------------------------------------
(* Token endpoint, user info                                                 *)
At(i, k) == i * 100 + k * 10 + 1
Rt(i, k) == i * 100 + k * 10 + 2
TokW(i, ep) == [W(ep, s.S[i].iss) EXCEPT !.auth = AuthOf(Prof(i)), !.dp = DpOf(Prof(i))]

DoTok(e) ==
  LET x == s.S[e.i]
      p == Prof(e.i)
      w == <<[TokW(e.i, "token") EXCEPT !.i = e.i, !.x = x.par.ru, !.ver = IF p.pk # "" THEN e.i ELSE 0]>>
  IN IF ~Open(e.i) \/ ~x.code THEN Refused
     ELSE IF p.pk # "" /\ ~x.ver THEN Refused
     ELSE IF e.k # "ok" THEN R(s, "exc", NoRes, w, {})
     ELSE R([s EXCEPT !.S[e.i] = [x EXCEPT !.at = At(e.i, x.k + 1), !.rt = Rt(e.i, x.k + 1), !.k = @ + 1]], "ok", NoRes, w,
            {e.i})

DoRef(e) ==
  LET x == s.S[e.i]
      w == <<[TokW(e.i, "refresh") EXCEPT !.i = x.rt]>>
  IN IF ~Open(e.i) \/ x.rt = 0 THEN Refused
     ELSE IF e.k # "ok" THEN R(s, "exc", NoRes, w, {})
     ELSE R([s EXCEPT !.S[e.i] = [x EXCEPT !.at = At(e.i, x.k + 1), !.rt = IF e.n THEN Rt(e.i, x.k + 1) ELSE @, !.k = @ + 1]],
            "ok", NoRes, w, {e.i})

UiHow(p) == CASE p.um = "get" -> "GET:header" [] p.um = "post" -> "POST:header" [] OTHER -> "POST:body"
DoUi(e) ==
  LET x == s.S[e.i]
      w == <<[W("ui", x.iss) EXCEPT !.i = x.at, !.auth = UiHow(Prof(e.i)), !.dp = DpOf(Prof(e.i))]>>
  IN IF ~Open(e.i) \/ x.at = 0 THEN Refused
     ELSE IF e.k # "ok" THEN R(s, "exc", NoRes, w, {}) ELSE R(s, "ok", NoRes, w, {e.i})

Step(e) ==
  CASE e.t = "setup" -> R([s EXCEPT !.P = e.P], "ok", NoRes, <<>>, {})
    [] e.t = "begin" -> DoBegin(e)
    [] e.t = "old" -> DoOld(e)
    [] e.t = "redo" -> DoRedo(e)
    [] e.t = "code" -> DoCode(e)
    [] e.t = "tok" -> DoTok(e)
    [] e.t = "ref" -> DoRef(e)
    [] e.t = "ui" -> DoUi(e)
    [] e.t = "clear" -> R([s EXCEPT !.S[e.i].open = FALSE], "ok", NoRes, <<>>, {e.i})
    [] e.t = "tick" -> R([s EXCEPT !.clk = @ + e.dt], "ok", NoRes, <<>>, {})
    [] e.t = "reload" -> R(s, "ok", NoRes, <<>>, {})

----------------------------------------------------------------------------
(* What is explored                                                          *)
Mk(p, q) == [A |-> p, B |-> q]
Other(m) == IF m = "client_secret_post" THEN "client_secret_basic" ELSE "client_secret_post"
F(x) == Focus = x
ProfilesC17 ==
  {[Base EXCEPT !.am = m, !.alg = a, !.um = u, !.st = st] :
      m \in Methods, a \in {""} \cup HS \cup AS, u \in {"get", "post", "body"}, st \in {"static", "dynamic"}}
  \cup {[Base EXCEPT !.am = m, !.pa = pa] : m \in JWTs, pa \in {"hs", "as", "silent"}}
  \cup {[Base EXCEPT !.am = ""]}
OkC17(p) == /\ (p.am \notin JWTs) => (p.alg = "")
            /\ (p.alg \in HS) => (p.am = "client_secret_jwt")
            /\ (p.alg \in AS) => (p.am = "private_key_jwt" /\ p.pa # "hs")
            /\ (p.pa = "hs") => (p.am = "client_secret_jwt")
            /\ (p.pa = "as") => (p.am = "private_key_jwt")
            /\ (p.um # "get") => (p.st = "static" /\ p.alg = "")
            /\ (p.st = "dynamic") => (p.alg \in {"", "HS256", "RS256"})
Setups ==
  CASE F("C17") -> {Mk(p, [Base EXCEPT !.am = Other(p.am)]) : p \in {p \in ProfilesC17 : OkC17(p)}}
                   \cup {Mk([Base EXCEPT !.am = "client_secret_jwt", !.dp = "first", !.pk = "S256"],
                            [Base EXCEPT !.am = "private_key_jwt", !.ro = "request"])}
    [] F("C18") -> {Mk([Base EXCEPT !.pk = m, !.pl = l], [Base EXCEPT !.pk = n, !.pl = 50])
                      : m \in {"S256"}, l \in {43}, n \in {"", "S256"}}
                   \cup (IF Wide THEN {Mk([Base EXCEPT !.pk = m, !.pl = l], [Base EXCEPT !.pk = n, !.pl = 50])
                      : m \in {"S256", "S384", "S512"}, l \in {43, 64, 128}, n \in {"", "S256", "S384"}} ELSE {})
    [] F("C18b") -> {Mk([Base EXCEPT !.pk = m, !.pl = l, !.ro = r], [Base EXCEPT !.pk = "S256", !.am = "client_secret_post"])
                      : m \in {"S256", "S384", "S512"}, l \in {43, 128}, r \in {"", "request", "request_uri", "par", "parlax"}}
    [] F("C19") -> {Mk([Base EXCEPT !.dp = d, !.um = u, !.pk = k], [Base EXCEPT !.dp = e])
                      : d \in {"first", "second", "order", "rsa", "rsa5", "none", "silent", "empty"}, e \in {"", "first", "second"},
                        u \in {"get", "post", "body"}, k \in {""}}
    [] OTHER -> {Mk([Base EXCEPT !.ro = r, !.rs = c, !.pk = k], [Base EXCEPT !.rs = IF c = 1 THEN 2 ELSE 1])
                      : r \in {"", "request", "request_uri", "reqes", "reqenc", "urienc", "reqnokey", "urinokey",
                               "par", "parlax", "parurl"}, c \in 0..4,
                        k \in IF Wide THEN {"", "S256"} ELSE {""}}
                   \cup {Mk([Base EXCEPT !.ro = r, !.pk = "S256"], [Base EXCEPT !.rs = 2, !.pk = "S384", !.ro = q])
                      : r \in {"", "request", "request_uri", "par", "parlax", "parurl"}, q \in {"", "request", "reqenc"}}

MaxSess == CASE F("C18") -> 3 [] OTHER -> 2
MaxK == IF F("C18") THEN 1 ELSE 2
Full == [rt |-> "code id_token token", sc |-> 2, ru |-> 2, cl |-> 1, x |-> 1, pr |-> 1]
Args ==
  IF F("C20") /\ Len(s.S) > 0 /\ ~Wide THEN {NoArgs, Full}
  ELSE IF F("C20")
  THEN {NoArgs} \cup {[NoArgs EXCEPT !.rt = r] : r \in {"id_token", "code id_token", "id_token token"}}
       \cup {[NoArgs EXCEPT !.sc = c] : c \in 1..5} \cup {[NoArgs EXCEPT !.ru = 2], [NoArgs EXCEPT !.cl = 1], [NoArgs EXCEPT !.x = 1]}
       \cup {[NoArgs EXCEPT !.sc = c, !.pr = 1, !.cl = 1] : c \in {0, 3}}
       \cup {Full}
  ELSE {NoArgs, [NoArgs EXCEPT !.ru = 2]}
PushAns == IF F("C20") THEN {"ok", "created", "err400", "s500", "neterr", "nouri"} ELSE {"ok"}

Fails == {"err400", "s500", "neterr"}
Opened == {i \in 1..Len(s.S) : s.S[i].open}
Events ==
  IF ~Ready THEN {[t |-> "setup", P |-> q] : q \in Setups}
  ELSE
  (IF Len(s.S) < MaxSess
   THEN {[t |-> "begin", iss |-> k, a |-> a, pa |-> x] : k \in Issuers, a \in Args, x \in {"ok"}}
        \cup UNION {{[t |-> "begin", iss |-> k, a |-> NoArgs, pa |-> x] : x \in IF Pushed(s.P[k]) THEN PushAns ELSE {}} : k \in Issuers}
        \cup UNION {{[t |-> "old", iss |-> k] : x \in IF s.P[k].pk # "" /\ F("C18") THEN {1} ELSE {}} : k \in Issuers}
   ELSE {})
  \cup UNION {
    {[t |-> "code", i |-> i] : i \in {j \in Opened : ~s.S[j].code /\ s.S[j].par.rt = "code" /\ ~F("C20")}},
    {[t |-> "redo", i |-> i] : i \in {j \in Opened : ~s.S[j].code /\ s.S[j].ver /\ s.S[j].par.rt = "code" /\ F("C18")}},
    UNION {{[t |-> "tok", i |-> i, k |-> k] : k \in {"ok"} \cup Fails} : i \in {j \in Opened : s.S[j].par.rt = "code" /\ s.S[j].k < MaxK /\ ~F("C20")}},
    UNION {{[t |-> "ref", i |-> i, k |-> k, n |-> n] : k \in {"ok"} \cup Fails, n \in BOOLEAN}
             : i \in {j \in Opened : s.S[j].rt # 0 /\ s.S[j].k < MaxK}},
    UNION {{[t |-> "ui", i |-> i, k |-> k] : k \in {"ok", "err400"}} : i \in {j \in Opened : s.S[j].at # 0}},
    {[t |-> "clear", i |-> i] : i \in IF F("C18") THEN Opened ELSE {}},
    {[t |-> "reload"] : x \in IF Len(s.S) > 0 THEN {1} ELSE {}},
    {[t |-> "tick", dt |-> 7] : x \in IF s.clk = 0 /\ ~F("C20") /\ ~F("C18") THEN {1} ELSE {}} }

Init == s = [P |-> [k \in Issuers |-> None], S |-> <<>>, clk |-> 0] /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == Len(s.S) <= MaxSess

View == [n |-> Len(s.S), sess |-> [i \in 1..Len(s.S) |-> [known |-> s.S[i].open, par |-> IF s.S[i].open THEN s.S[i].par ELSE NoPar,
                                                        nonce |-> IF s.S[i].open THEN i ELSE 0]],
         cfg |-> TRUE]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
(* The properties, stated on steps                                           *)
TokenReq(w) == w.ep \in {"token", "refresh"}
\* C17: a request authenticates as its provider is configured, and only
\* requests to the token endpoint carry client credentials
PropC17 == [][\A n \in 1..Len(Step(ev').wire) : LET w == Step(ev').wire[n] IN
                /\ TokenReq(w) => w.auth = AuthOf(s.P[w.iss])
                /\ (w.ep = "ui") => (w.auth \in {"GET:header", "POST:header", "POST:body"} /\ w.i = s.S[ev'.i].at)
                /\ (w.ep = "refresh") => w.i = s.S[ev'.i].rt]_vars
\* C18: the verifier sent is that of the session, and there is one if and only if PKCE is on
PropC18 == [][\A n \in 1..Len(Step(ev').wire) : LET w == Step(ev').wire[n] IN
                (w.ep = "token") => IF s.P[w.iss].pk = "" THEN w.ver = 0 ELSE (w.ver = ev'.i /\ s.S[ev'.i].ver)]_vars
\* C19
PropC19 == [][\A n \in 1..Len(Step(ev').wire) : LET w == Step(ev').wire[n] IN
                (w.ep \in {"token", "refresh", "ui"}) => w.dp = DpOf(s.P[w.iss])]_vars
\* C20: what is stored is what was sent
PropC20 == [][(ev'.t = "begin" /\ Len(s'.S) > Len(s.S)) =>
                LET x == s'.S[Len(s'.S)] IN x.par = Step(ev').res.par /\ x.par.ok /\ Step(ev').res.ep = x.iss /\ s'.P = s.P]_vars
=============================================================================
