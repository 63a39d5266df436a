------------------------------ MODULE RPSetup -------------------------------
(* Getting to know providers: discovery, registration and several providers  *)
(* at once.                                                                  *)
(*                                                                           *)
(* Every discovery document a provider serves announces its own set of       *)
(* endpoints and keys (numbered by v), every registration gives its own      *)
(* credentials (numbered by n, 0 being the configured ones).  So the wire    *)
(* tells which document and whose credentials were used.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>

Provs == IF Focus = "C06" /\ Wide THEN {"A", "B", "C"} ELSE {"A", "B"}

----------------------------------------------------------------------------
(* Configurations.  mode of a provider:                                      *)
(*   def   nothing of its own, the default configuration: registers          *)
(*   reg   a configuration of its own without client id: registers           *)
(*   own   a configuration of its own with client id and secret              *)
(*   stat  as own, and the metadata is configured as well                    *)
(* key: the configuration is found by the issuer ("url") or a name ("name")  *)
(* slash: the issuers end with a slash                                       *)
Registers(m) == m \in {"def", "reg"}
Opt == {"", "gen", "conf", "nosup"}
\* what else is in the configurations
PlainX == [rts |-> <<"code">>, jw |-> "uri", fp |-> FALSE, bc |-> "", fc |-> "", ru |-> "", pl |-> ""]
RtLists == {<<"code">>, <<"id_token">>, <<"code", "id_token">>, <<"id_token", "code">>, <<"code id_token">>,
            <<"code", "code id_token token">>, <<"id_token token", "code id_token">>,
            <<"code token">>, <<"code id_token token">>, <<"id_token token">>}
\* jw: where the client's keys are: the location the handler publishes, one in the configuration,
\* the keys in the configuration or with the handler
Jws == {"uri", "curi", "cset", "hset", "uri+cset", "curi+cset", "puri", "pset", "uri+pset", "curi+pset"}
NoCfg == [mode |-> "-"]

Modes == {"def", "reg", "own", "stat"}
Cfgs ==
  CASE Focus = "C06" ->
         [mode : [Provs -> Modes], key : {"url"}, slash : {FALSE}, allow : {"-"}, x : {PlainX}]
         \cup [mode : [Provs -> {"reg", "own"}], key : {"name"}, slash : {FALSE}, allow : {"-"}, x : {PlainX}]
    [] Focus = "C14" ->
         [mode : {[p \in Provs |-> m] : m \in {"def", "own", "reg"}}, key : {"url"}, slash : BOOLEAN, allow : {"-", "false"}, x : {PlainX}]
         \cup [mode : {[p \in Provs |-> m] : m \in {"def", "own"}}, key : {"url"}, slash : {FALSE}, allow : {"true"}, x : {PlainX}]
         \cup [mode : {[p \in Provs |-> m] : m \in {"reg"}}, key : {"name"}, slash : BOOLEAN, allow : {"-"}, x : {PlainX}]
    [] Focus = "C21" ->
         [mode : {[p \in Provs |-> m] : m \in Modes} \cup {("A" :> "reg" @@ "B" :> "stat")}, key : {"url"}, slash : {FALSE}, allow : {"-"},
          x : {[PlainX EXCEPT !.rts = <<"code", "id_token">>], [PlainX EXCEPT !.bc = "gen", !.fc = "gen"]}]
    [] Focus = "C16" ->
         LET X1 == [PlainX EXCEPT !.rts = <<"code", "id_token">>]
             Xs == {[X1 EXCEPT !.rts = r, !.fp = f] : r \in RtLists, f \in BOOLEAN}
                   \cup {[X1 EXCEPT !.jw = j] : j \in Jws}
                   \cup (IF Wide THEN {[X1 EXCEPT !.bc = a, !.fc = b, !.ru = c, !.pl = d] : a \in Opt, b \in Opt, c \in Opt \ {"nosup"}, d \in {"", "conf"}}
                         ELSE {[X1 EXCEPT !.bc = a] : a \in Opt} \cup {[X1 EXCEPT !.fc = a] : a \in Opt} \cup {[X1 EXCEPT !.ru = a] : a \in Opt \ {"nosup"}}
                              \cup {[X1 EXCEPT !.pl = "conf", !.bc = a] : a \in Opt} \cup {[X1 EXCEPT !.bc = "gen", !.fc = "gen", !.ru = "gen"]}) IN
         [mode : {[p \in Provs |-> m] : m \in {"def", "reg", "own"}}, key : {"url"}, slash : {FALSE}, allow : {"-"}, x : {X1}]
         \cup [mode : {[p \in Provs |-> "def"]}, key : {"url"}, slash : {FALSE}, allow : {"-"}, x : Xs]
         \cup [mode : {[p \in Provs |-> "reg"]}, key : {"name"}, slash : {FALSE}, allow : {"-"}, x : Xs]

----------------------------------------------------------------------------
(* What the provider answers                                                 *)
IssKinds == {"same", "other", "prefix", "suffix", "case", "scheme", "sub", "2slash", "port", "user", "query", "empty"}
Missing == {"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "response_types_supported",
            "subject_types_supported", "id_token_signing_alg_values_supported", "RS256", "openid"}
Disc(st, iss, miss) == [st |-> st, iss |-> iss, miss |-> miss]
GoodD == Disc("ok", "same", "")
BadSt == {"404", "400", "500", "302", "neterr", "garbage", "error", "empty"}
Discs ==
  CASE Focus = "C14" -> {Disc("ok", i, "") : i \in IssKinds} \cup {Disc("ok", "same", m) : m \in Missing} \cup {Disc(b, "same", "") : b \in BadSt}
    [] Focus = "C06" -> {GoodD, Disc("ok", "other", ""), Disc("500", "same", "")}
    [] OTHER -> {GoodD, Disc("ok", "same", "token_endpoint")}

\* ids other than the own which a client that allows a mismatch accepts
Allowed == {"other", "prefix", "suffix", "case", "sub"}
Accepted(d) == d.st = "ok" /\ d.miss = "" /\ (d.iss = "same" \/ (s.cfg.allow = "true" /\ d.iss \in Allowed))

\* rat: the client is given access to its registration
Reg(st, exp) == [st |-> st, exp |-> exp, rat |-> FALSE]
RegA(st, exp) == [st |-> st, exp |-> exp, rat |-> TRUE]
RegOk == {"200", "201"}
BadReg == {"400", "401", "500", "302", "neterr", "garbage", "error", "noid", "halfuri", "empty"}
Regs ==
  CASE Focus = "C16" -> {Reg(o, x) : o \in RegOk, x \in {0, 1, 2}} \cup {Reg(b, 0) : b \in BadReg} \cup {RegA("201", 1)}
    [] Focus = "C06" -> {Reg("201", 1), Reg("400", 0)}
    [] Focus = "C21" -> {Reg("201", 1), RegA("201", 2)}
    [] OTHER -> {Reg("201", 1)}

----------------------------------------------------------------------------
(* State                                                                     *)
NoClient == [on |-> FALSE, v |-> 0, n |-> 0, exp |-> 0, rat |-> FALSE]
Empty == [cfg |-> NoCfg, cl |-> [p \in Provs |-> NoClient], v |-> [p \in Provs |-> 0], r |-> [p \in Provs |-> 0],
          names |-> [p \in Provs |-> {}], sess |-> <<>>]

Mode(p) == s.cfg.mode[p]
\* the name of the provider that is its issuer id
Real == IF s.cfg.slash THEN "s" ELSE "n"
\* names it may be asked by: without and with a slash, or the one in the configuration
Asks(p) == IF s.cfg.key = "name" THEN {"c"}
           ELSE IF Mode(p) = "def" /\ s.cfg.allow # "true" /\ Focus = "C14" THEN {"n", "s"} ELSE {Real}

Cred(p, n) == p \o ToString(n)
W(ep, p, v, c) == [ep |-> ep, p |-> p, v |-> v, c |-> c]

\* the registration request
Has(x, rt) == \E i \in 1..Len(x.rts) : x.rts[i] = rt
Implicit(x) == \E i \in 1..Len(x.rts) : x.rts[i] # "code"
WithCode(x) == \E i \in 1..Len(x.rts) : x.rts[i] \in {"code", "code id_token", "code token", "code id_token token"}
Kept(o) == IF o = "nosup" THEN "" ELSE o
\* if there are both, either will do
JwOf(j) == IF j \in {"uri", "curi", "puri"} THEN "uri" ELSE IF j \in {"cset", "hset", "pset"} THEN "set" ELSE "one"
NoReq == [rts |-> <<>>, ac |-> FALSE, im |-> FALSE, jw |-> "", bc |-> "", fc |-> "", ru |-> "", pl |-> "", name |-> ""]
RegReq(name) ==
  LET x == s.cfg.x IN
  [rts |-> x.rts, ac |-> WithCode(x), im |-> Implicit(x), jw |-> JwOf(x.jw),
   bc |-> Kept(x.bc), fc |-> Kept(x.fc), ru |-> Kept(x.ru),
   pl |-> IF x.pl = "conf" THEN "conf" ELSE IF x.bc = "gen" \/ x.fc = "gen" THEN "gen" ELSE "", name |-> name]

NoRes == [sess |-> 0, p |-> "", v |-> 0, c |-> "", rt |-> "", cb |-> "", req |-> NoReq]
R(t, out, res, wire) == [s |-> t, out |-> out, res |-> res, wire |-> wire, aw |-> FALSE, touch |-> {}]

\* a session begins with the client there is
Begin(t, p, rt, w, req) ==
  LET c == t.cl[p] IN
  R([t EXCEPT !.sess = Append(@, [p |-> p, rt |-> rt, st |-> "begun"])], "ok",
    [sess |-> Len(t.sess) + 1, p |-> p, v |-> c.v, c |-> Cred(p, c.n), rt |-> rt, cb |-> "ok", req |-> req], w)

DoBegin(e) ==
  LET p == e.p m == Mode(p) on == s.cl[p].on IN
  IF on /\ (e.name \in s.names[p] \/ e.name = Real) THEN Begin(s, p, e.rt, <<>>, NoReq)
  ELSE IF m = "stat" THEN
    Begin([s EXCEPT !.cl[p] = [on |-> TRUE, v |-> 0, n |-> 0, exp |-> 0, rat |-> FALSE], !.names[p] = {e.name, Real}], p, e.rt, <<>>, NoReq)
  ELSE
    LET v == s.v[p] + 1
        t == [s EXCEPT !.v[p] = v]
        w == <<W("disc", p, 0, "")>> IN
    IF ~Accepted(e.d) THEN R(t, "exc", NoRes, w)
    \* it is the provider known by another name
    ELSE IF on THEN Begin([t EXCEPT !.names[p] = @ \cup {e.name}], p, e.rt, w, NoReq)
    ELSE IF ~Registers(m) THEN
      Begin([t EXCEPT !.cl[p] = [on |-> TRUE, v |-> v, n |-> 0, exp |-> 0, rat |-> FALSE], !.names[p] = {e.name, Real}], p, e.rt, w, NoReq)
    ELSE
      LET n == s.r[p] + 1
          w2 == Append(w, W("reg", p, v, ""))
          t2 == [t EXCEPT !.r[p] = n]
          q == RegReq(IF e.b THEN "b" ELSE "") IN
      IF e.r.st \notin RegOk THEN R(t2, "exc", [NoRes EXCEPT !.req = q], w2)
      ELSE Begin([t2 EXCEPT !.cl[p] = [on |-> TRUE, v |-> v, n |-> n, exp |-> e.r.exp, rat |-> e.r.rat], !.names[p] = {e.name, Real}], p, e.rt, w2, q)

\* the login is finished.  k: what the provider's answer is like
\*   ok, err: an error; key: the ID Token is signed by another provider, stale: with a key
\*   that an earlier document announced; aud: for another client; iss: from another issuer
DoFin(e) ==
  LET x == s.sess[e.i] p == x.p c == s.cl[p]
      tok == IF x.rt = "code" THEN <<W("token", p, c.v, Cred(p, c.n))>> ELSE <<>>
      ui == IF x.rt = "code" THEN <<W("ui", p, c.v, ToString(e.i))>> ELSE <<>> IN
  IF e.k = "ok" THEN R([s EXCEPT !.sess[e.i].st = "in"], "ok", [NoRes EXCEPT !.sess = e.i], tok \o ui)
  ELSE R([s EXCEPT !.sess[e.i].st = "no"], "exc", NoRes, tok)
\* user info once more
DoUi(e) ==
  LET x == s.sess[e.i] IN R(s, "ok", [NoRes EXCEPT !.sess = e.i], <<W("ui", x.p, s.cl[x.p].v, ToString(e.i))>>)

\* the client looks at its registration
DoRead(e) ==
  LET c == s.cl[e.p] IN
  IF ~c.rat THEN R(s, "exc", NoRes, <<>>)
  ELSE R(s, IF e.k = "ok" THEN "ok" ELSE "exc", NoRes, <<W("read", e.p, c.v, Cred(e.p, c.n))>>)

Step(e) ==
  CASE e.t = "setup" -> R([s EXCEPT !.cfg = e.cfg], "ok", NoRes, <<>>)
    [] e.t = "begin" -> DoBegin(e)
    [] e.t = "fin" -> DoFin(e)
    [] e.t = "ui" -> DoUi(e)
    [] e.t = "read" -> DoRead(e)
    \* all there is goes to a new handler with the same configuration
    [] e.t = "reload" -> R(s, "ok", NoRes, <<>>)

----------------------------------------------------------------------------
MaxSess == IF Focus = "C06" THEN 3 ELSE 2
MaxV == IF Focus = "C14" /\ Wide THEN 4 ELSE IF Focus = "C06" THEN 3 ELSE 2
MaxTotal == IF Focus = "C06" THEN (IF Wide THEN 5 ELSE 4) ELSE IF Wide THEN 5 ELSE 4
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* the response types that can be used: form_post and the combinations are left to RPCore
Usable(x) == {x.rts[i] : i \in 1..Len(x.rts)}
Finishable(rt) == rt \in {"code", "id_token"}
Kinds == IF Focus = "C16" THEN {"ok", "aud"} ELSE {"ok", "err", "key", "aud", "iss", "stale"}
BeginProvs == IF Focus = "C06" THEN Provs ELSE IF Focus = "C14" THEN {"A"} ELSE Provs

Events ==
  IF s.cfg = NoCfg THEN {[t |-> "setup", cfg |-> c] : c \in Cfgs}
  ELSE
    (IF Len(s.sess) < MaxSess /\ Sum(s.v, Provs) < MaxTotal
     THEN {[t |-> "begin", p |-> p, name |-> n, d |-> d, r |-> r, rt |-> rt, b |-> b] :
             p \in {p \in BeginProvs : s.v[p] < MaxV}, n \in {"n", "s", "c"}, d \in Discs, r \in Regs, rt \in Usable(s.cfg.x),
             b \in IF Focus = "C14" THEN {FALSE} ELSE BOOLEAN}
     ELSE {})
    \cup {[t |-> "fin", i |-> i, k |-> k] : i \in {i \in 1..Len(s.sess) : s.sess[i].st = "begun" /\ Finishable(s.sess[i].rt)}, k \in Kinds}
    \cup {[t |-> "ui", i |-> i] : i \in {i \in 1..Len(s.sess) : s.sess[i].st = "in" /\ s.sess[i].rt = "code" /\ Focus # "C16"}}
    \cup (IF Focus \in {"C16", "C21"} THEN {[t |-> "read", p |-> p, k |-> k] : p \in {p \in Provs : s.cl[p].on}, k \in {"ok", "401", "500", "neterr", "garbage"}} ELSE {})
    \cup (IF Focus = "C21" THEN {[t |-> "reload"]} ELSE {})
\* what the code doesn't get to see isn't varied
Apt(e) ==
  CASE e.t = "begin" ->
         LET on == s.cl[e.p].on IN
         /\ e.name \in Asks(e.p) \cup (IF on THEN {Real} ELSE {})
         /\ (Mode(e.p) = "stat" \/ (on /\ (e.name \in s.names[e.p] \/ e.name = Real))) => (e.d = GoodD)
         /\ (~Registers(Mode(e.p)) \/ on \/ ~Accepted(e.d)) => (e.r = Reg("201", 1) /\ ~e.b)
         /\ (s.cfg.allow = "true") => e.d.iss \in Allowed \cup {"same"}
         /\ (Focus = "C21") => (e.d = GoodD /\ ~e.b)
         /\ (Focus = "C16" /\ s.cfg.x # [PlainX EXCEPT !.rts = <<"code", "id_token">>]) => (e.r \in {Reg("201", 1), Reg("400", 0)} /\ e.d = GoodD)
    [] e.t = "read" -> (~s.cl[e.p].rat) => (e.k = "ok")
    [] e.t = "fin" ->
         LET x == s.sess[e.i] IN
         /\ (e.k = "stale") => (s.cl[x.p].v > 1)
    [] OTHER -> TRUE

Init == s = Empty /\ ev = [t |-> "init"]
Next == \E e \in Events : Apt(e) /\ ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == Len(s.sess) <= MaxSess

View == [cl |-> s.cl, sess |-> [i \in 1..Len(s.sess) |-> s.sess[i].p]]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([provs |-> Provs, focus |-> Focus]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in {e \in Events : Apt(e)}}]))

----------------------------------------------------------------------------
(* C14, C16 and C06, on steps.                                               *)
Wire == Step(ev').wire
PropC14 ==
  [][(ev'.t = "begin") =>
      LET p == ev'.p d == ev'.d IN
      \* whatever comes from a document is there because it is the provider's
      /\ (s'.cl[p].v # s.cl[p].v) => (d.st = "ok" /\ d.miss = "" /\ (d.iss = "same" \/ s.cfg.allow = "true"))
      \* a document that isn't accepted leaves nothing behind and nothing more is sent
      /\ (Len(Wire) > 0 /\ ~Accepted(d)) => (s'.cl = s.cl /\ s'.sess = s.sess /\ Len(Wire) = 1 /\ Wire[1].ep = "disc")
      \* and doesn't stand in the way
      /\ (Accepted(d) /\ ev'.r.st \in RegOk) => (s'.cl[p].on /\ Len(s'.sess) > Len(s.sess))
     ]_vars
PropC06 ==
  [][(ev'.t \in {"begin", "fin", "ui"}) =>
      LET p == IF ev'.t = "begin" THEN ev'.p ELSE s.sess[ev'.i].p IN
      /\ \A q \in Provs : (q # p) => (s'.cl[q] = s.cl[q] /\ s'.names[q] = s.names[q])
      /\ \A n \in 1..Len(Wire) : Wire[n].p = p /\ (Wire[n].ep \in {"token", "ui"} => Wire[n].v = s'.cl[p].v)
     ]_vars
PropC16 ==
  [][/\ (ev'.t \in {"read", "reload"}) => (s' = s)
     /\ (ev'.t = "read") => (\A n \in 1..Len(Wire) : Wire[n].ep = "read" /\ Wire[n].p = ev'.p /\ Wire[n].c = Cred(ev'.p, s.cl[ev'.p].n))
     /\ (ev'.t = "begin") =>
      LET p == ev'.p regs == {n \in 1..Len(Wire) : Wire[n].ep = "reg"} IN
      /\ (regs # {}) => (Registers(Mode(p)) /\ ~s.cl[p].on /\ Cardinality(regs) = 1)
      /\ (Registers(Mode(p)) /\ ~s.cl[p].on /\ s'.cl[p].on) => (regs # {} /\ s'.cl[p].n > s.cl[p].n)
      /\ (s.cl[p].on) => (s'.cl[p] = s.cl[p])
     ]_vars
=============================================================================
