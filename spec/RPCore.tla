------------------------------- MODULE RPCore -------------------------------
(* The session life cycle of the relying party: authorization responses,     *)
(* token exchange, refresh, user info, logout, clearing, reloading.          *)
(*                                                                           *)
(* State s:                                                                  *)
(*   P   - what is known about each provider (constant during a run)         *)
(*         alg: algorithm registered for ID tokens ("any" = none registered) *)
(*         sid: announces session ids;  lo/ui: end_session/userinfo in use   *)
(*   clk - the time, in seconds                                              *)
(*   S   - the sessions, in the order they were started                      *)
(*   so, si - subject / session id -> session that last logged in with it    *)
(*   lo  - the logout states made so far, each with the session it is for    *)
(*                                                                           *)
(* Every token, code, ... is an integer; 0 means "none".  The environment    *)
(* picks the integers, so events carry them.                                 *)
EXTENDS Integers, Sequences, FiniteSets

NoTok == [v |-> 0, exp |-> 0]
NoIdt == [id |-> 0, sub |-> "", sid |-> "", exp |-> 0, own |-> 0]

HasCode(rt) == rt \in {"code", "code id_token", "code token", "code id_token token"}
HasIdt(rt)  == rt \in {"id_token", "id_token token", "code id_token", "code id_token token"}
HasAt(rt)   == rt \in {"token", "id_token token", "code token", "code id_token token"}
\* the token endpoint is asked when the result has to come from there
Exchanges(rt) == rt \in {"code", "code id_token"}
\* and, when the caller wants to collect what there is (col), whenever there is a code
Asks(rt, col, code) == Exchanges(rt) \/ (col /\ HasAt(rt) /\ code # 0)

NewSess(iss, rt, ru, sc) ==
  [iss |-> iss, rt |-> rt, ru |-> ru, sc |-> sc, open |-> TRUE, k |-> 0,
   code |-> 0, atA |-> NoTok, atT |-> NoTok, rtok |-> 0,
   idtA |-> NoIdt, idtT |-> NoIdt, ui |-> ""]

NoRes == [at |-> 0, idt |-> 0, sub |-> "", src |-> "", sess |-> 0, hint |-> 0, plru |-> 0, ep |-> ""]

Req(ep, iss, v, x) == [ep |-> ep, iss |-> iss, v |-> v, x |-> x]

R(s, out, res, wire, touch) ==
  [s |-> s, out |-> out, res |-> res, wire |-> wire, aw |-> FALSE, touch |-> touch]
Refused(s) == R(s, "exc", NoRes, <<>>, {})

Open(s, i) == i \in 1..Len(s.S) /\ s.S[i].open
Started(s, iss) == \E i \in 1..Len(s.S) : s.S[i].iss = iss

Last(x) == IF x.idtT.id # 0 THEN x.idtT ELSE x.idtA
LastAt(x) == IF x.atT.v # 0 THEN x.atT ELSE x.atA
\* ttl: 0 not given, -1 none at all
Exp(s, ttl) == IF ttl = 0 THEN 0 ELSE s.clk + ttl

----------------------------------------------------------------------------
(* ID tokens.  t.id = 0: there is none.                                      *)
(*  sig: who signed and how     iss/aud/azp: what they name                  *)
(*  exp/iat: relative to now (MISSING = -9999)   nonce: session whose nonce  *)
(*  it carries (0 absent, -1 altered)   ath/ch: access token and code hash   *)
MISSING == -9999

SigOK(alg, sig) == CASE alg = "none" -> sig = "none"
                     [] alg = "any"  -> sig \in {"op", "op2"}
                     [] OTHER        -> sig = "op"

\* sk: the clock difference the provider's configuration allows
ClaimsOK(t, sk) ==
  /\ t.iss = "op"
  /\ t.sub # ""
  /\ \/ t.aud \in {"me", "listme"} /\ t.azp \in {"none", "me"}
     \/ t.aud = "me+other" /\ t.azp = "me"
  /\ t.exp # MISSING /\ t.iat # MISSING
  /\ t.exp >= -sk /\ t.iat <= sk /\ t.exp >= t.iat

HashOK(h, there) == there => (h = "ok")

FrontIdtOK(s, i, m) ==
  /\ SigOK(s.P[s.S[i].iss].alg, m.idt.sig)
  /\ ClaimsOK(m.idt, s.P[s.S[i].iss].sk)
  /\ m.idt.nonce = i
  /\ (m.idt.sig # "none") => /\ HashOK(m.idt.ath, m.at # 0)
                             /\ HashOK(m.idt.ch, m.code # 0)
TokIdtOK(s, i, t) ==
  /\ SigOK(s.P[s.S[i].iss].alg, t.sig)
  /\ ClaimsOK(t, s.P[s.S[i].iss].sk)
  /\ t.nonce = i
  /\ (s.S[i].idtA.id # 0) => (t.sub = s.S[i].idtA.sub)   \* the same user as in the front channel
\* a refreshed ID token may leave the nonce out, and is about the same user
RefIdtOK(s, i, t) ==
  /\ SigOK(s.P[s.S[i].iss].alg, t.sig)
  /\ ClaimsOK(t, s.P[s.S[i].iss].sk)
  /\ t.nonce \in {0, i}
  /\ (Last(s.S[i]).id # 0) => (t.sub = Last(s.S[i]).sub)

Keep(s, t) == IF t.id = 0 THEN NoIdt
              ELSE [id |-> t.id, sub |-> t.sub, sid |-> t.sid, exp |-> s.clk + t.exp, own |-> t.nonce]

----------------------------------------------------------------------------
(* The authorization response                                                *)
AuthzOK(s, iss, m) ==
  /\ Open(s, m.st) /\ s.S[m.st].iss = iss
  /\ m.iss \in {"none", "self"} /\ m.cid \in {"none", "self"} /\ m.aud \in {"none", "me"}
  /\ (m.idt.id # 0) => FrontIdtOK(s, m.st, m)

AuthzStore(s, m) ==
  LET x == s.S[m.st] IN
  [s EXCEPT !.S[m.st] = [x EXCEPT !.code = m.code, !.atA = [v |-> m.at, exp |-> IF m.at = 0 THEN 0 ELSE Exp(s, m.ttl)],
                                  !.idtA = Keep(s, m.idt), !.k = @ + 1]]

DoAuthz(s, iss, m) ==
  IF ~Started(s, iss) THEN [s |-> s, out |-> "exc"]
  ELSE IF m.err THEN [s |-> s, out |-> IF Open(s, m.st) /\ s.S[m.st].iss = iss THEN "err" ELSE "fail"]
  ELSE IF AuthzOK(s, iss, m) THEN [s |-> AuthzStore(s, m), out |-> "ok"]
  ELSE [s |-> s, out |-> "exc"]

(* The token endpoint *)
TokOK(s, i, ta) == ta.k = "ok" /\ ((ta.idt.id # 0) => TokIdtOK(s, i, ta.idt))

SetSub(s, iss, sub, i) == [s EXCEPT !.so[iss][sub] = i]

DoToken(s, i, ta) ==
  LET x == s.S[i]
      w == <<Req("token", x.iss, x.code, x.ru)>>
  IN IF x.code = 0 THEN [s |-> s, out |-> "exc", wire |-> <<>>]
     ELSE IF ~TokOK(s, i, ta) THEN [s |-> s, out |-> "exc", wire |-> w]
     ELSE LET s1 == [s EXCEPT !.S[i] = [x EXCEPT !.atT = [v |-> ta.at, exp |-> Exp(s, ta.ttl)],
                                !.rtok = ta.rtok, !.idtT = Keep(s, ta.idt), !.k = @ + 1]]
          IN [s |-> IF ta.idt.id # 0 THEN SetSub(s1, x.iss, ta.idt.sub, i) ELSE s1,
              out |-> "ok", wire |-> w]

(* refresh: what the answer does not replace stays *)
RefOK(s, i, ta) == ta.k = "ok" /\ ((ta.idt.id # 0) => RefIdtOK(s, i, ta.idt))
DoRefresh(s, i, ta, sc) ==
  LET x == s.S[i]
      w == <<Req("refresh", x.iss, x.rtok, IF sc # 0 THEN sc ELSE x.sc)>>
  IN IF x.rtok = 0 THEN [s |-> s, out |-> "exc", wire |-> <<>>, aw |-> TRUE]
     ELSE IF ~RefOK(s, i, ta) THEN [s |-> s, out |-> "exc", wire |-> w, aw |-> FALSE]
     ELSE [s |-> [s EXCEPT !.S[i] = [x EXCEPT !.atT = [v |-> ta.at, exp |-> Exp(s, ta.ttl)],
                                !.rtok = IF ta.rtok # 0 THEN ta.rtok ELSE @,
                                !.idtT = IF ta.idt.id # 0 THEN [Keep(s, ta.idt) EXCEPT !.own = i] ELSE @,
                                !.k = @ + 1]],
           out |-> "ok", wire |-> w, aw |-> FALSE]

(* user info *)
UiOK(x, ua) == /\ ua.k = "ok" /\ ua.sub # ""
               /\ (Last(x).id # 0) => (ua.sub = Last(x).sub)
DoUI(s, i, at, ua) ==
  LET x == s.S[i]
      w == <<Req("ui", x.iss, at, 0)>>
  IN IF at = 0 THEN [s |-> s, out |-> "exc", wire |-> <<>>]
     ELSE IF UiOK(x, ua) THEN [s |-> [s EXCEPT !.S[i].ui = ua.sub], out |-> "ok", wire |-> w]
     ELSE [s |-> s, out |-> "exc", wire |-> w]

----------------------------------------------------------------------------
(* Finishing a login                                                         *)
Bind(s, i, t, uisub) ==      \* make the session findable
  LET x == s.S[i]
      s1 == IF s.P[x.iss].sid /\ t.id # 0 /\ t.sid # "" THEN [s EXCEPT !.si[x.iss][t.sid] = i] ELSE s
  IN SetSub(s1, x.iss, IF t.id # 0 THEN t.sub ELSE uisub, i)

\* what the response type promises to come with the authorization response
Complete(x) == /\ (HasIdt(x.rt) /\ ~Exchanges(x.rt)) => (x.idtA.id # 0)
               /\ HasAt(x.rt) => (x.atA.v # 0)

DoFinalize(s, ev) ==
  LET a == DoAuthz(s, ev.iss, ev.m) IN
  IF a.out # "ok" THEN R(s, a.out, NoRes, <<>>, {})
  ELSE LET i == ev.m.st
           x == a.s.S[i]
           asks == Asks(x.rt, ev.col, x.code)
           t == IF ~Complete(x) THEN [s |-> a.s, out |-> "exc", wire |-> <<>>]
                ELSE IF asks THEN DoToken(a.s, i, ev.ta)
                ELSE [s |-> a.s, out |-> "ok", wire |-> <<>>]
       IN IF t.out # "ok" THEN R(t.s, "exc", NoRes, t.wire, {i})
          ELSE LET y   == t.s.S[i]
                   at  == IF asks THEN y.atT.v ELSE y.atA.v
                   idt == IF asks THEN Last(y) ELSE y.idtA
                   u   == IF at # 0 /\ s.P[x.iss].ui THEN DoUI(t.s, i, at, ev.ua)
                          ELSE [s |-> t.s, out |-> "ok", wire |-> <<>>]
               IN IF u.out # "ok" THEN R(u.s, "exc", NoRes, t.wire \o u.wire, {i})
                  ELSE R(Bind(u.s, i, idt, ev.ua.sub), "ok",
                         [NoRes EXCEPT !.at = at, !.idt = idt.id, !.sess = i,
                            !.src = IF u.wire # <<>> THEN "ui" ELSE "idt",
                            !.sub = IF u.wire # <<>> THEN ev.ua.sub ELSE idt.sub],
                         t.wire \o u.wire, {i})

DoLogout(s, ev) ==
  IF ~Open(s, ev.i) THEN Refused(s)
  ELSE LET x == s.S[ev.i] IN
       IF ~s.P[x.iss].lo THEN Refused(s)
       ELSE R([s EXCEPT !.lo = Append(@, ev.i)], "ok",
              [NoRes EXCEPT !.hint = Last(x).id, !.plru = ev.uri, !.ep = x.iss, !.sess = ev.i],
              <<>>, {})

DoClear(s, i) ==
  IF ~Open(s, i) THEN Refused(s)
  ELSE LET drop(f) == [iss \in DOMAIN f |-> [v \in DOMAIN f[iss] |-> IF f[iss][v] = i THEN 0 ELSE f[iss][v]]]
       IN R([s EXCEPT !.S[i].open = FALSE,
                      !.so = drop(@), !.si = drop(@),
                      !.lo = [k \in DOMAIN @ |-> IF @[k] = i THEN 0 ELSE @[k]]],
            "ok", NoRes, <<>>, {i})

(* Back-channel logout: t is the logout token *)
LtOK(s, iss, t) ==
  /\ t.sig = (IF s.P[iss].alg = "none" THEN "none" ELSE "op")
  /\ t.iss = "op" /\ t.aud \in {"me", "listme", "me+other"}
  /\ t.ev = "ok" /\ t.iat # MISSING /\ t.iat <= 0
  /\ t.jti /\ ~t.nonce
  /\ (t.sub # "" \/ t.sid # "")
DoBack(s, ev) ==
  IF ~Started(s, ev.iss) \/ ~LtOK(s, ev.iss, ev.lt) THEN Refused(s)
  ELSE LET f == IF ev.lt.sub # "" THEN s.so[ev.iss] ELSE s.si[ev.iss]
           v == IF ev.lt.sub # "" THEN ev.lt.sub ELSE ev.lt.sid
           o == IF v \in DOMAIN f THEN f[v] ELSE 0
       IN IF o = 0 THEN Refused(s)
          ELSE R(s, "ok", [NoRes EXCEPT !.sess = o], <<>>, {})

Simple(r, i) == R(r.s, r.out, NoRes, r.wire, IF r.out = "ok" THEN {i} ELSE {})

Step(s, ev) ==
  CASE ev.t = "begin" ->
         R([s EXCEPT !.S = Append(@, NewSess(ev.iss, ev.rt, ev.ru, ev.sc))], "ok",
           [NoRes EXCEPT !.sess = Len(s.S) + 1, !.ep = ev.iss], <<>>, {})
    [] ev.t = "fin" -> DoFinalize(s, ev)
    [] ev.t = "fauth" ->
         LET a == DoAuthz(s, ev.iss, ev.m)
         IN R(a.s, a.out, NoRes, <<>>, IF a.out = "ok" THEN {ev.m.st} ELSE {})
    [] ev.t = "tok" ->
         IF ~Open(s, ev.i) THEN Refused(s)
         ELSE LET r == DoToken(s, ev.i, ev.ta)
              IN [Simple(r, ev.i) EXCEPT !.res.at = IF r.out = "ok" THEN ev.ta.at ELSE 0]
    [] ev.t = "ref" ->
         IF ~Open(s, ev.i) THEN Refused(s)
         ELSE LET r == DoRefresh(s, ev.i, ev.ta, ev.sc)
              IN [Simple(r, ev.i) EXCEPT !.aw = r.aw, !.res.at = IF r.out = "ok" THEN ev.ta.at ELSE 0]
    [] ev.t = "ui" ->       \* ev.at: explicit token; 0: the session's latest
         IF ~Open(s, ev.i) \/ ~s.P[s.S[ev.i].iss].ui THEN Refused(s)
         ELSE LET x == s.S[ev.i]
                  at == IF ev.at # 0 THEN ev.at ELSE LastAt(x).v
                  r == DoUI(s, ev.i, at, ev.ua)
              IN [Simple(r, ev.i) EXCEPT !.res.sub = IF r.out = "ok" THEN ev.ua.sub ELSE ""]
    [] ev.t = "logout" -> DoLogout(s, ev)
    [] ev.t = "clear" -> DoClear(s, ev.i)
    [] ev.t = "back" -> DoBack(s, ev)
    [] ev.t = "tick" -> R([s EXCEPT !.clk = @ + ev.dt], "ok", NoRes, <<>>, {})
    [] ev.t = "reload" -> R(s, "ok", NoRes, <<>>, {})
    [] OTHER -> R(s, "ok", NoRes, <<>>, {})

----------------------------------------------------------------------------
(* What can be seen                                                          *)
Valid(s, x) ==   \* get_valid_access_token
  LET C == <<x.atT, x.atA>>
      live(c) == c.v # 0 /\ (c.exp = 0 \/ c.exp > s.clk)
      inf == {j \in 1..2 : C[j].v # 0 /\ C[j].exp = 0}
      fin == {j \in 1..2 : live(C[j])}
  IN IF inf # {} THEN C[CHOOSE j \in inf : \A k \in inf : j <= k]
     ELSE IF fin = {} THEN NoTok
     ELSE C[CHOOSE j \in fin : \A k \in fin : C[j].exp > C[k].exp \/ (C[j].exp = C[k].exp /\ j <= k)]

SessView(s, i) ==
  LET x == s.S[i]
      v == Valid(s, x)
  IN IF ~x.open THEN [known |-> FALSE, iss |-> "", ui |-> "", act |-> FALSE, vat |-> 0, vexp |-> 0, nonce |-> 0]
     ELSE [known |-> TRUE, iss |-> x.iss, ui |-> x.ui,
           act |-> Last(x).id # 0 /\ s.clk < Last(x).exp,
           vat |-> v.v, vexp |-> v.exp, nonce |-> i]

View(s) == [clk |-> s.clk, sess |-> [i \in 1..Len(s.S) |-> SessView(s, i)],
            so |-> s.so, si |-> s.si, lo |-> s.lo]

Init0(P, subs, sids) ==
  [P |-> P, clk |-> 0, S |-> <<>>,
   so |-> [iss \in DOMAIN P |-> [u \in subs |-> 0]],
   si |-> [iss \in DOMAIN P |-> [u \in sids |-> 0]], lo |-> <<>>]
=============================================================================
