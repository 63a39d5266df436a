------------------------------ MODULE RPOAuth2 -----------------------------
(* Logins at authorization servers that do OAuth 2.0 (RFC 6749) and not      *)
(* OpenID Connect: no ID tokens; a user is known by what the user info says, *)
(* if there is any.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
(* Servers A and B are used by the same relying party, both configured; ui:  *)
(* has user info; auth: how the client authenticates                         *)
Styles == {"plain", "github", "linkedin"}
Srv(st, u, m) == [style |-> st, ui |-> u, auth |-> m]
Cfgs == {[A |-> Srv("plain", FALSE, "client_secret_basic"), B |-> Srv("github", TRUE, "client_secret_post")],
         [A |-> Srv("plain", TRUE, "client_secret_post"), B |-> Srv("plain", TRUE, "")],
         [A |-> Srv("github", TRUE, "client_secret_post"), B |-> Srv("linkedin", TRUE, "client_secret_basic")],
         [A |-> Srv("linkedin", TRUE, "client_secret_post"), B |-> Srv("plain", FALSE, "client_secret_post")]}
NoCfg == [A |-> Srv("", FALSE, ""), B |-> Srv("", FALSE, "")]
K == 2
AS == {"A", "B"}
Subs == {"s1", "s2"}
(* A session: as: where; uri: which redirect URI was given; at: the access   *)
(* token it holds, rem: for how long, 99: no end was given; rt: its refresh  *)
(* token; info: user info                                                    *)
NoS == [as |-> "", uri |-> 0, at |-> 0, rem |-> -1, rt |-> 0, info |-> 0, gone |-> FALSE]
Start == [c |-> NoCfg, ss |-> <<>>, who |-> [a \in AS |-> [u \in Subs |-> 0]]]

(* Answers of the token endpoint. fmt: form or JSON, and whether that is     *)
(* said.  n: the token; life: 0 not given, -1 none; rt: a refresh token, 0 if none    *)
Bad == {"err400", "err400f", "err200", "http500", "http302", "garbage", "noat", "notype"}
Tok(k, n, life, rt) == [k |-> k, n |-> n, life |-> life, rt |-> rt]
\* the server decides on the form; form is all that github's clients expect when nothing is said
GoodFmt(st) == IF st = "github" THEN {"form", "formsilent", "json"} ELSE {"json", "jsonsilent", "form"}
Good(st, n) == {Tok(k, n, l, r) : k \in GoodFmt(st), l \in (IF Wide THEN {0, -1, 1, 2} ELSE {0, -1, 2}), r \in {0, n}}
TokOk(st, t) == /\ t.k \in GoodFmt(st)
                \* says nothing about lifetime, which linkedin must
                /\ ~(st = "linkedin" /\ t.life = 0)
\* neither token_type nor refresh tokens belong to linkedin's answers
TokBad(st) == {Tok(k, 0, 0, 0) : k \in IF st = "linkedin" THEN Bad \ {"notype"} ELSE Bad}
Uis(n) == {[k |-> "ok", sub |-> u, v |-> n] : u \in Subs \cup {""}} \cup {[k |-> k, sub |-> "", v |-> 0] : k \in {"err401", "http500", "garbage", "http302"}}
NoUi == [k |-> "", sub |-> "", v |-> 0]
----------------------------------------------------------------------------
NoRes == [tok |-> 0, rem |-> -1, sub |-> "", info |-> 0, yes |-> FALSE, sess |-> 0]
R(t, out, res, w, touch) == [s |-> t, out |-> out, res |-> res, wire |-> w, aw |-> FALSE, touch |-> touch]
Auth(a) == IF s.c[a].auth = "" THEN "client_secret_basic" ELSE s.c[a].auth
TokReq(i, a) == [to |-> "token", as |-> a, grant |-> "code", sess |-> i, uri |-> s.ss[i].uri, n |-> 0, auth |-> Auth(a)]
RefReq(i) == [to |-> "token", as |-> s.ss[i].as, grant |-> "refresh", sess |-> i, uri |-> 0, n |-> s.ss[i].rt, auth |-> Auth(s.ss[i].as)]
UiReq(i, a, n) == [to |-> "ui", as |-> a, grant |-> "", sess |-> i, uri |-> 0, n |-> n, auth |-> IF s.c[a].style = "github" THEN "query" ELSE "header"]
Life(t) == IF t.life = 0 THEN 99 ELSE IF t.life = -1 THEN 0 ELSE t.life
SetTok(t, i, k, keep) == [t EXCEPT !.ss[i].at = k.n, !.ss[i].rem = Life(k),
                          !.ss[i].rt = IF k.rt # 0 THEN k.rt ELSE IF keep THEN @ ELSE 0]
\* the session counts as this user's from now on
Known(t, i, a, u) == IF u = "" THEN t ELSE [t EXCEPT !.who[a][u] = i]
Live(i) == i \in 1..Len(s.ss) /\ ~s.ss[i].gone

Begin(e) == LET t == [s EXCEPT !.ss = Append(@, [NoS EXCEPT !.as = e.as, !.uri = e.uri])]
            IN R(t, "ok", [NoRes EXCEPT !.sess = Len(t.ss)], <<>>, {Len(t.ss)})
(* A response that comes to the callback of server e.as                      *)
RespOk(e) == /\ e.r.state = "own" /\ Live(e.i) /\ s.ss[e.i].as = e.as
             /\ e.r.code /\ e.r.iss \in {"", "right"} /\ e.r.cid \in {"", "right"}
Callback(e) ==
  LET a == e.as i == e.i IN
  IF ~RespOk(e) THEN R(s, "exc", NoRes, <<>>, {})
  ELSE IF e.r.err THEN R(s, "err", NoRes, <<>>, {})
  ELSE LET st == s.c[a].style w1 == <<TokReq(i, a)>> IN
    IF ~TokOk(st, e.tok) THEN R(s, "fail", NoRes, w1, {i})
    ELSE LET t == SetTok(s, i, e.tok, FALSE) IN
      IF ~s.c[a].ui THEN R(t, "ok", [NoRes EXCEPT !.tok = e.tok.n, !.sess = i], w1, {i})
      ELSE LET w2 == Append(w1, UiReq(i, a, e.tok.n)) IN
        IF e.ui.k # "ok" THEN R(t, "fail", NoRes, w2, {i})
        ELSE R(Known([t EXCEPT !.ss[i].info = e.ui.v], i, a, e.ui.sub), "ok",
               [NoRes EXCEPT !.tok = e.tok.n, !.sub = e.ui.sub, !.info = e.ui.v, !.sess = i], w2, {i})
Refresh(e) ==
  LET i == e.i IN
  IF ~Live(i) \/ s.ss[i].rt = 0 THEN R(s, "exc", NoRes, <<>>, {})
  ELSE LET st == s.c[s.ss[i].as].style w == <<RefReq(i)>> IN
    IF e.tok.k \in Bad THEN R(s, "fail", NoRes, w, {i})
    ELSE R(SetTok(s, i, e.tok, TRUE), "ok", [NoRes EXCEPT !.tok = e.tok.n, !.sess = i], w, {i})
Info(e) ==
  LET i == e.i IN
  IF ~Live(i) \/ s.ss[i].at = 0 THEN R(s, "exc", NoRes, <<>>, {})
  ELSE LET w == <<UiReq(i, s.ss[i].as, s.ss[i].at)>> IN
    IF e.ui.k # "ok" THEN R(s, "fail", NoRes, w, {i})
    ELSE R([s EXCEPT !.ss[i].info = e.ui.v], "ok", [NoRes EXCEPT !.info = e.ui.v, !.sub = e.ui.sub], w, {i})
Valid(e) == LET i == e.i IN
  IF Live(i) /\ s.ss[i].rem > 0 THEN R(s, "ok", [NoRes EXCEPT !.tok = s.ss[i].at, !.rem = s.ss[i].rem], <<>>, {})
  ELSE R(s, "exc", NoRes, <<>>, {})
\* nobody said who the user is: no authentication
Active(e) == IF Live(e.i) THEN R(s, "ok", NoRes, <<>>, {}) ELSE R(s, "exc", NoRes, <<>>, {})
Who(e) == LET i == s.who[e.as][e.sub] IN IF i = 0 THEN R(s, "exc", NoRes, <<>>, {}) ELSE R(s, "ok", [NoRes EXCEPT !.sess = i], <<>>, {})
Clear(e) == LET i == e.i IN
  IF ~Live(i) THEN R(s, "exc", NoRes, <<>>, {})
  ELSE R([s EXCEPT !.ss[i] = [NoS EXCEPT !.as = s.ss[i].as, !.gone = TRUE],
                   !.who = [a \in AS |-> [u \in Subs |-> IF @[a][u] = i THEN 0 ELSE @[a][u]]]], "ok", NoRes, <<>>, {i})
Tick == R([s EXCEPT !.ss = [i \in DOMAIN @ |-> IF @[i].rem \in 1..98 THEN [@[i] EXCEPT !.rem = @ - 1] ELSE @[i]]], "ok", NoRes, <<>>, {})
Step(e) ==
  CASE e.t = "set"    -> R([s EXCEPT !.c = e.c], "ok", NoRes, <<>>, {})
    [] e.t = "begin"  -> Begin(e)
    [] e.t = "cb"     -> Callback(e)
    [] e.t = "refresh" -> Refresh(e)
    [] e.t = "info"   -> Info(e)
    [] e.t = "valid"  -> Valid(e)
    [] e.t = "active" -> Active(e)
    [] e.t = "who"    -> Who(e)
    [] e.t = "clear"  -> Clear(e)
    [] e.t = "tick"   -> Tick

Resp == [code : BOOLEAN, iss : {"", "right", "other"}, cid : {"", "right", "other"}, err : BOOLEAN, state : {"own", "unknown", "none"}]
Fine == [code |-> TRUE, iss |-> "", cid |-> "", err |-> FALSE, state |-> "own"]
Resps == {r \in Resp : /\ (r.err => (r = [Fine EXCEPT !.err = TRUE]))
                       /\ Cardinality({f \in {"code", "iss", "cid", "state"} : r[f] # Fine[f]}) <= 1}
NoTok == Tok("", 0, 0, 0)
Next3(n) == IF n = 0 THEN 1 ELSE 3 - n
\* with a good response everything varies, though not all at once
\* the second session is there to be disturbed, and to disturb
Nth(i) == IF i = 2 /\ ~Wide THEN 1 ELSE Next3(s.ss[i].at)
Rich == Wide \/ Len(s.ss) = 1
FewBad == {x \in Bad : Rich \/ x \in {"err400", "noat"}}
Calls(i) ==
  LET a == s.ss[i].as st == s.c[a].style n == Nth(i) v == IF Rich THEN Next3(s.ss[i].info) ELSE 1
      own == [t |-> "cb", i |-> i, as |-> a, r |-> Fine, tok |-> NoTok, ui |-> NoUi]
      gt == {x \in Good(st, n) : (st # "linkedin" \/ (x.rt = 0 /\ x.life # -1)) /\ (Rich \/ (x.life = 2 /\ x.rt = 0 /\ x.k # "form"))}
      gu == IF s.c[a].ui THEN {u \in Uis(v) : Rich \/ u.k = "err401" \/ (u.k = "ok" /\ u.sub \in {"", "s1"})} ELSE {NoUi}
      sometok == CHOOSE x \in gt : x.life = 2 /\ x.rt = 0
      someui == IF s.c[a].ui THEN [k |-> "ok", sub |-> IF i = 1 THEN "" ELSE "s1", v |-> v] ELSE NoUi
  IN {[own EXCEPT !.r = r, !.tok = sometok, !.ui = someui] : r \in {y \in Resps : Rich \/ y.err \/ y.state # "own"}}
     \cup {[own EXCEPT !.tok = x, !.ui = someui] : x \in gt \cup {x \in TokBad(st) : x.k \in FewBad}}
     \cup {[own EXCEPT !.tok = sometok, !.ui = u] : u \in gu}
     \cup (IF Wide THEN {[own EXCEPT !.tok = x, !.ui = u] : x \in gt, u \in gu} ELSE {})
     \cup {[own EXCEPT !.as = b, !.tok = sometok, !.ui = someui, !.r = r] : b \in AS \ {a}, r \in {Fine, [Fine EXCEPT !.iss = "right"]}}
Refreshes(i) ==
  LET st == s.c[s.ss[i].as].style n == Nth(i) IN
  {[t |-> "refresh", i |-> i, tok |-> x] : x \in {y \in Good("plain", n) : (Rich /\ (y.life = 0 \/ y.k = "json")) \/ (y.life = 0 /\ y.k = "json")} \cup {y \in TokBad("plain") : y.k \in FewBad}}
Events ==
  IF s.c = NoCfg THEN {[t |-> "set", c |-> c] : c \in Cfgs} ELSE
  {e \in {[t |-> "begin", as |-> a, uri |-> u] : a \in AS, u \in {1, 2}} : Len(s.ss) < K /\ (Len(s.ss) = 0 \/ Wide \/ (e.uri = 2 /\ s.ss[1].rem \in {-1, 2} /\ s.ss[1].info \in {0, 1} /\ s.ss[1].at \in {0, 1}))}
  \cup UNION {IF s.ss[i].gone
              THEN {[t |-> "valid", i |-> i], [t |-> "active", i |-> i], [t |-> "clear", i |-> i],
                    [t |-> "cb", i |-> i, as |-> s.ss[i].as, r |-> Fine, tok |-> NoTok, ui |-> NoUi],
                    [t |-> "refresh", i |-> i, tok |-> NoTok], [t |-> "info", i |-> i, ui |-> NoUi]}
              ELSE {[t |-> "valid", i |-> i], [t |-> "active", i |-> i], [t |-> "clear", i |-> i]}
                   \cup Calls(i) \cup Refreshes(i)
                   \cup (IF s.c[s.ss[i].as].ui
                         THEN {[t |-> "info", i |-> i, ui |-> u] : u \in {y \in Uis(Next3(s.ss[i].info)) : Wide \/ (Rich /\ y.sub = "") \/ y.k = "err401"}} ELSE {})
              : i \in 1..Len(s.ss)}
  \cup {[t |-> "who", as |-> a, sub |-> u] : a \in {a \in AS : \E i \in DOMAIN s.ss : s.ss[i].as = a}, u \in Subs}
  \cup {[t |-> "tick"] : x \in {i \in DOMAIN s.ss : s.ss[i].rem \in 1..98 /\ (Rich \/ s.ss[i].rem = 2)}}

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
ViewS(x) == [tok |-> IF x.rem > 0 THEN x.at ELSE 0, rem |-> IF x.rem > 0 THEN x.rem ELSE 0, info |-> x.info, gone |-> x.gone]
View == [i \in DOMAIN s.ss |-> ViewS(s.ss[i])]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))
----------------------------------------------------------------------------
TypeOK == \A i \in DOMAIN s.ss : /\ s.ss[i].at \in 0..2 /\ (s.ss[i].at = 0 <=> s.ss[i].rem = -1)
                                 /\ s.ss[i].gone => s.ss[i] = [NoS EXCEPT !.as = s.ss[i].as, !.gone = TRUE]
\* a user's session is one of that server's
WhoOK == \A a \in AS, u \in Subs : s.who[a][u] # 0 => (Live(s.who[a][u]) /\ s.ss[s.who[a][u]].as = a)
PropC27 ==
  [][(ev'.t # "set") =>
     LET r == Step(ev') IN
      \* a code is only used in the session, and at the server, that asked for it
      /\ \A j \in DOMAIN r.wire : r.wire[j].as = s.ss[r.wire[j].sess].as /\ Live(r.wire[j].sess)
      /\ (r.wire # <<>> /\ ev'.t = "cb") => (ev'.as = s.ss[ev'.i].as /\ ev'.r.state = "own" /\ ev'.r.iss # "other" /\ ev'.r.cid # "other")
      \* no other session changes
      /\ \A i \in DOMAIN s.ss : (s'.ss[i] # s.ss[i] /\ ev'.t # "tick") => (ev'.i = i)
      \* what fails gives no tokens
      /\ \A i \in DOMAIN s.ss : (s'.ss[i].at # s.ss[i].at /\ s'.ss[i].at # 0) => (ev'.t \in {"cb", "refresh"} /\ s'.ss[i].at = ev'.tok.n)
      \* a refresh keeps what the answer doesn't replace
      /\ (ev'.t = "refresh" /\ r.out = "ok") => (s'.ss[ev'.i].rt # 0 /\ s'.ss[ev'.i].info = s.ss[ev'.i].info)
      /\ (ev'.t = "valid" /\ r.out = "ok") => (s.ss[ev'.i].rem > 0)
     ]_vars
=============================================================================
