------------------------------ MODULE RPCoreMC ------------------------------
(* Bounded exploration of RPCore.  Focus selects which calls, and which      *)
(* deviating messages, are explored on top of the ordinary ones.             *)
EXTENDS RPCore, TLC, Json

CONSTANTS Focus,   \* the property being worked on
          Wide,    \* TRUE: thorough bounds
          Emit,    \* TRUE: print every transition for the replay
          Long     \* TRUE: long random histories (RPCoreSim)

VARIABLES s, ev
vars == <<s, ev>>

ASSUME Wide \in BOOLEAN /\ Emit \in BOOLEAN /\ Long \in BOOLEAN
\* the clock difference allowed, in seconds
Skew == CASE Focus = "C03b" -> 40 [] Focus = "C03n" -> 0 [] OTHER -> 15
Prof(alg, sid, lo, ui) == [alg |-> alg, sid |-> sid, lo |-> lo, ui |-> ui, sk |-> Skew]
Profiles ==
  CASE Focus = "C03"  -> [A |-> Prof("RS256", TRUE, TRUE, TRUE)]
    [] Focus = "C03b" -> [A |-> Prof("any", TRUE, TRUE, TRUE)]
    [] Focus = "C03n" -> [A |-> Prof("none", TRUE, TRUE, TRUE)]
    [] Focus \in {"C02", "C04", "C07", "C08", "C09", "C10"} -> [A |-> Prof("RS256", TRUE, TRUE, TRUE)]
    [] Focus = "C13" -> [A |-> Prof("RS256", TRUE, TRUE, TRUE), B |-> Prof("any", FALSE, FALSE, TRUE)]
    [] Focus = "C25" -> [A |-> Prof("RS256", TRUE, TRUE, TRUE), B |-> Prof("any", FALSE, FALSE, FALSE)]
    [] OTHER -> [A |-> Prof("RS256", TRUE, TRUE, TRUE), B |-> Prof("any", TRUE, TRUE, TRUE)]
Issuers == DOMAIN Profiles
SUBS == {"u1", "u2"}
SIDS == {"s1", "s2"}

F(set) == Focus \in set
Pick(a, b) == IF Wide THEN b ELSE a

MaxSess == CASE Long -> 4
             [] F({"C03", "C03b", "C03n"}) -> 1
             [] F({"C25", "C08", "C10"}) -> Pick(1, 2)
             [] F({"C05"}) -> Pick(2, 3)
             [] F({"C11", "C01"}) -> Pick(2, 3)
             [] OTHER -> 2
MaxK    == CASE Long -> 7
             [] F({"C08", "C09"}) -> Pick(4, 5)
             [] F({"C10"}) -> Pick(3, 4)
             [] F({"C11"}) -> Pick(2, 3)
             [] F({"C05"}) -> Pick(2, 3)
             [] F({"C01"}) -> 1
             [] OTHER -> Pick(2, 3)
MaxLo   == CASE Long -> 8
             [] F({"C13"}) -> 3 [] F({"C11"}) -> Pick(1, 2) [] F({"C09", "C05", "C21"}) -> 1 [] OTHER -> 0
MaxClk  == CASE Long -> 100000
             [] F({"C08"}) -> 120 [] F({"C10"}) -> 130 [] OTHER -> 0

AllRT == {"code", "id_token", "id_token token", "token", "code id_token", "code token", "code id_token token"}
RTs(i) == CASE F({"C03", "C03b"}) -> {"code", "id_token", "id_token token", "code id_token", "code id_token token"}
          [] F({"C03n"}) -> {"code", "id_token"}
          [] F({"C25"}) -> AllRT
          [] F({"C02", "C10"}) -> {"code", "id_token", "code id_token"}
          [] F({"C08"}) -> {"code", "id_token token", "code id_token token"}
          [] F({"C04"}) -> {"code", "id_token token"}
          [] F({"C07"}) -> {"code", "id_token token", "code id_token token"}
          [] Long -> AllRT
          [] F({"C12", "C13"}) -> {"code", "id_token"} \cup (IF i = 1 THEN {"code id_token"} ELSE {})
          [] F({"C01", "C05", "C11", "C21", "C09"}) -> IF i = 2 THEN {"code", "code id_token token"} ELSE {"code"}
          [] OTHER -> {"code"}

----------------------------------------------------------------------------
(* ordinary messages *)
Id(i, what, k) == i * 1000 + what * 100 + k       \* unique values
BaseIdt(i, sub, k) ==
  [id |-> Id(i, 4, k), sig |-> IF Profiles[s.S[i].iss].alg = "none" THEN "none" ELSE "op", iss |-> "op",
   aud |-> "me", azp |-> "none",
   exp |-> 300, iat |-> 0, sub |-> sub, sid |-> "", nonce |-> i, ath |-> "ok", ch |-> "ok"]
NoT == [id |-> 0, sig |-> "op", iss |-> "op", aud |-> "me", azp |-> "none", exp |-> 0, iat |-> 0,
        sub |-> "", sid |-> "", nonce |-> 0, ath |-> "ok", ch |-> "ok"]
Msg(i, idt) ==
  LET x == s.S[i] IN
  [st |-> i, iss |-> "none", cid |-> "none", aud |-> "none", err |-> FALSE,
   code |-> IF HasCode(x.rt) THEN Id(i, 1, x.k) ELSE 0,
   at |-> IF HasAt(x.rt) THEN Id(i, 2, x.k) ELSE 0, ttl |-> 600,
   idt |-> IF HasIdt(x.rt) THEN idt ELSE NoT]
Ans(i, sub) == [k |-> "ok", at |-> Id(i, 3, s.S[i].k), ttl |-> 600, rtok |-> Id(i, 5, s.S[i].k), idt |-> BaseIdt(i, sub, s.S[i].k + 10)]
Ui(sub) == [k |-> "ok", sub |-> sub]
BadAns == [k |-> "err400", at |-> 0, ttl |-> 0, rtok |-> 0, idt |-> NoT]

Fin(iss, m, ta, ua) == [t |-> "fin", iss |-> iss, m |-> m, ta |-> ta, ua |-> ua, col |-> FALSE]
Collecting(e) == IF e.t = "fin" THEN [e EXCEPT !.col = TRUE] ELSE e
Fauth(iss, m) == [t |-> "fauth", iss |-> iss, m |-> m]
Tok(i, ta) == [t |-> "tok", i |-> i, ta |-> ta]
Ref(i, ta, sc) == [t |-> "ref", i |-> i, ta |-> ta, sc |-> sc]
UI(i, at, ua) == [t |-> "ui", i |-> i, at |-> at, ua |-> ua]
Logout(i, uri) == [t |-> "logout", i |-> i, uri |-> uri]
Clear(i) == [t |-> "clear", i |-> i]
Back(iss, lt) == [t |-> "back", iss |-> iss, lt |-> lt]
Tick(dt) == [t |-> "tick", dt |-> dt]
Reload == [t |-> "reload"]
Begin(iss, rt, ru, sc) == [t |-> "begin", iss |-> iss, rt |-> rt, ru |-> ru, sc |-> sc]

Dev(b, f, vals) == {[b EXCEPT ![f] = v] : v \in vals}

SigV  == {"op2", "evil", "evilkid", "otherop", "rp", "hs", "none", "strip", "mod"}
AudV  == {"other", "me+other", "missing", "mesuffix", "meprefix", "listme", "empty"}
IdtDevs(b) ==
  Dev(b, "sig", SigV) \cup Dev(b, "iss", {"other", "slash", "prefix", "suffix", "case", "missing"}) \cup
  Dev(b, "aud", AudV) \cup Dev(b, "azp", {"me", "other"}) \cup {[b EXCEPT !.aud = "me+other", !.azp = z] : z \in {"me", "other"}} \cup
  Dev(b, "exp", {0, 1 - Skew, -Skew, -Skew - 1, -Skew - 100, MISSING}) \cup Dev(b, "iat", {Skew - 1, Skew, Skew + 1, Skew + 200, MISSING}) \cup
  Dev(b, "sub", {""})
HashDevs(b) == Dev(b, "ath", {"bad", "missing", "short", "other"}) \cup Dev(b, "ch", {"bad", "missing", "short", "other"})
\* exp and iat move together in an expired token
IdtAll(b) == {IF v.exp < 0 /\ v.exp # MISSING /\ v.iat = 0 THEN [v EXCEPT !.iat = v.exp - 60] ELSE v : v \in IdtDevs(b)}
Pairs(b) == UNION {IdtAll(v) : v \in IdtAll(b)}

FailKinds == {"err400", "err401", "err200", "s500", "s503", "s404", "garbage", "empty", "neterr", "timeout", "s302", "s400ok",
              "s401ok", "list", "noat", "notype", "badttl", "html"}
UiFails == {"err400", "err401", "err200", "s500", "s503", "s404", "garbage", "empty", "neterr", "s302", "s400ok", "list", "html"}

Ev0 == {[t |-> "init"]}
Opened == {i \in 1..Len(s.S) : s.S[i].open}
All == 1..Len(s.S)
Done(i) == s.S[i].k > 0
CanFin(i) == s.S[i].k = 0 \/ (s.S[i].rt = "code" /\ (Long \/ F({"C05", "C01"})))
SubOf(i) == IF Last(s.S[i]).id # 0 THEN Last(s.S[i]).sub ELSE "u1"

GoodFin(i, sub) == Fin(s.S[i].iss, Msg(i, BaseIdt(i, sub, s.S[i].k)), Ans(i, sub), Ui(sub))

----------------------------------------------------------------------------
Begins ==
  {Begin(iss, rt, ru, sc) : iss \in Issuers, rt \in RTs(Len(s.S) + 1),
     ru \in IF F({"C05"}) THEN {1, 2} ELSE {1}, sc \in IF F({"C05", "C09"}) THEN {1, 2} ELSE {1}}

Ordinary ==
  {GoodFin(i, sub) : i \in {j \in Opened : CanFin(j)},
                     sub \in IF F({"C07", "C11", "C12", "C05", "C21"}) THEN SUBS ELSE {"u1"}}

EvC01 ==
  LET good(i) == Msg(i, NoT) IN
  UNION {
    UNION {{Fauth(iss, v) : iss \in Issuers,
             v \in Dev(good(i), "st", {0, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10})
               \cup {[good(i) EXCEPT !.iss = x, !.cid = y] : x \in {"none", "self", "other", "slash", "prefix"},
                                                          y \in {"none", "self", "other", "prefix"}}
               \cup Dev(good(i), "aud", {"me", "other"})
               \cup Dev(good(i), "err", {TRUE})} : i \in All},
    {Clear(i) : i \in All} }

EvC02 ==
  LET nn == {0, -1, -2, -3} \cup All IN
  UNION {
    UNION { {Fin(s.S[i].iss, Msg(i, [BaseIdt(i, "u1", s.S[i].k) EXCEPT !.nonce = n]), [Ans(i, "u1") EXCEPT !.idt.nonce = n2], Ui("u1"))
               : n \in IF HasIdt(s.S[i].rt) THEN nn ELSE {i}, n2 \in IF Exchanges(s.S[i].rt) THEN nn ELSE {i}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Tok(i, [Ans(i, "u1") EXCEPT !.idt.nonce = n]) : n \in nn} : i \in {j \in Opened : Done(j) /\ s.S[j].code # 0 /\ s.S[j].k < MaxK}},
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.idt.nonce = n], 0) : n \in nn} : i \in {j \in Opened : Done(j) /\ s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    {Clear(i) : i \in Opened} }

Devs3(b) == IF Wide THEN Pairs(b) ELSE IdtAll(b)
Lacking(i) == {Fin(s.S[i].iss, m, Ans(i, "u1"), Ui("u1")) :
                 m \in {Msg(i, NoT), [Msg(i, NoT) EXCEPT !.at = 0, !.ttl = 0], [Msg(i, NoT) EXCEPT !.code = 0],
                        [Msg(i, BaseIdt(i, "u1", 0)) EXCEPT !.at = 0, !.ttl = 0],
                        [Msg(i, [BaseIdt(i, "u1", 0) EXCEPT !.ch = "missing"]) EXCEPT !.code = 0]}}
EvC03 ==
  UNION {
    UNION { Lacking(i) : i \in {j \in Opened : CanFin(j) /\ s.S[j].rt # "code"}},
    UNION { {Fin(s.S[i].iss, Msg(i, v), Ans(i, "u1"), Ui("u1"))
               : v \in IF HasIdt(s.S[i].rt) THEN Devs3(BaseIdt(i, "u1", 0)) \cup HashDevs(BaseIdt(i, "u1", 0)) ELSE {}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Fin(s.S[i].iss, [Msg(i, v) EXCEPT !.aud = x], Ans(i, "u1"), Ui("u1"))
               : v \in IF HasIdt(s.S[i].rt) THEN {BaseIdt(i, "u1", 0)} \cup Dev(BaseIdt(i, "u1", 0), "sig", SigV) ELSE {},
                 x \in {"other", "me"}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Fin(s.S[i].iss, Msg(i, BaseIdt(i, "u1", 0)), [Ans(i, "u1") EXCEPT !.idt = v], Ui("u1"))
               : v \in IF Exchanges(s.S[i].rt) THEN Devs3(Ans(i, "u1").idt) ELSE {}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.idt = v], 0) : v \in Devs3(Ans(i, "u1").idt)} : i \in {j \in Opened : Done(j) /\ s.S[j].rtok # 0 /\ s.S[j].k = 2}} }

EvC04 ==
  UNION {
    UNION { {Fin(s.S[i].iss, Msg(i, BaseIdt(i, "u1", 0)), [Ans(i, "u1") EXCEPT !.k = k], Ui("u1"))
              : k \in IF Exchanges(s.S[i].rt) THEN FailKinds ELSE {}}
            \cup {Fin(s.S[i].iss, Msg(i, BaseIdt(i, "u1", 0)), Ans(i, "u1"), [k |-> k, sub |-> "u1"]) : k \in UiFails}
            : i \in {j \in Opened : CanFin(j)}},
    UNION { {Tok(i, [Ans(i, "u1") EXCEPT !.k = k]) : k \in FailKinds \cup {"ok"}} : i \in {j \in Opened : s.S[j].code # 0 /\ s.S[j].k < MaxK}},
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.k = k], 0) : k \in FailKinds \cup {"ok"}} : i \in {j \in Opened : Done(j) /\ s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    UNION { {UI(i, 0, [k |-> k, sub |-> SubOf(i)]) : k \in UiFails \cup {"ok"}} : i \in {j \in Opened : Done(j)}} }

EvC05 ==
  UNION {
    UNION {{Fauth(s.S[i].iss, Msg(i, NoT))} : i \in {j \in Opened : s.S[j].k < MaxK - 1}},
    {Tok(i, Ans(i, SubOf(i))) : i \in {j \in Opened : s.S[j].code # 0 /\ s.S[j].k < MaxK}},
    {Tok(i, BadAns) : i \in {j \in Opened : s.S[j].code # 0}},
    {Ref(i, Ans(i, SubOf(i)), sc) : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}, sc \in {0, 2}},
    {UI(i, 0, Ui(SubOf(i))) : i \in {j \in Opened : Done(j)}},
    {Clear(i) : i \in Opened} }

EvC07 ==
  LET subs == {"u1", "u2", "", "u1x", "U1", "u", "u1 "} IN
  UNION {
    UNION { {Fin(s.S[i].iss, Msg(i, BaseIdt(i, sub, 0)), Ans(i, sub2), [k |-> "ok", sub |-> us])
              : sub \in SUBS, sub2 \in IF Exchanges(s.S[i].rt) THEN SUBS ELSE {"u1"}, us \in subs} : i \in {j \in Opened : CanFin(j)}},
    UNION { {UI(i, a, [k |-> "ok", sub |-> us]) : us \in subs, a \in {0, 77}} : i \in {j \in Opened : Done(j)}},
    UNION { {Ref(i, [Ans(i, sub) EXCEPT !.idt = v], 0) : sub \in SUBS, v \in {NoT} \cup {BaseIdt(i, su, s.S[i].k + 10) : su \in SUBS}}
               : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK + 1}},
    {Tok(i, Ans(i, sub)) : i \in {j \in Opened : s.S[j].rt = "code id_token token" /\ s.S[j].k = 1}, sub \in SUBS} }

EvC08 ==
  LET ttls == {0, -1, 30, 60, 90} IN   \* -1: over when it is received
  UNION {
    UNION { {Fin(s.S[i].iss, [Msg(i, BaseIdt(i, "u1", 0)) EXCEPT !.ttl = a], [Ans(i, "u1") EXCEPT !.ttl = b], Ui("u1"))
              : a \in IF HasAt(s.S[i].rt) THEN ttls ELSE {0}, b \in IF Exchanges(s.S[i].rt) THEN ttls ELSE {0}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.ttl = a, !.idt = NoT], 0) : a \in ttls} : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    UNION { {Tok(i, [Ans(i, "u1") EXCEPT !.ttl = a]) : a \in ttls} : i \in {j \in Opened : s.S[j].rt = "code id_token token" /\ s.S[j].k = 1}},
    {Tick(dt) : dt \in {29, 30, 31}} }

EvC09 ==
  UNION {
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.rtok = r, !.idt = v], sc)
              : r \in {0, Ans(i, "u1").rtok}, v \in {NoT, Ans(i, "u1").idt}, sc \in {0, 2}} \cup {Ref(i, BadAns, 0)}
              : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    {Ref(i, BadAns, 0) : i \in {j \in Opened : s.S[j].rtok = 0}},
    {Fin(s.S[i].iss, Msg(i, NoT), [Ans(i, "u1") EXCEPT !.rtok = 0], Ui("u1")) : i \in {j \in Opened : CanFin(j) /\ s.S[j].rt = "code"}},
    {UI(i, 0, Ui("u1")) : i \in {j \in Opened : Done(j)}},
    {UI(i, 0, Ui("u2")) : i \in {j \in Opened : Done(j)}},
    {Logout(i, 0) : i \in {j \in Opened : Done(j)}} }

EvC10 ==
  LET exps == {0, 40, 60, -10} IN
  UNION {
    UNION { {Fin(s.S[i].iss, Msg(i, [BaseIdt(i, "u1", 0) EXCEPT !.exp = a, !.iat = IF a < 0 THEN -60 ELSE 0]),
                 [Ans(i, "u1") EXCEPT !.idt.exp = b, !.idt.iat = IF b < 0 THEN -60 ELSE 0], Ui("u1"))
              : a \in IF HasIdt(s.S[i].rt) THEN exps ELSE {40}, b \in IF Exchanges(s.S[i].rt) THEN exps \cup {-100} ELSE {40}} : i \in {j \in Opened : CanFin(j)}},
    UNION { {Ref(i, [Ans(i, "u1") EXCEPT !.idt = v], 0) : v \in {NoT, [Ans(i, "u1").idt EXCEPT !.exp = 60], [Ans(i, "u1").idt EXCEPT !.exp = 60, !.sig = "evil"],
                  [Ans(i, "u1").idt EXCEPT !.exp = 20]}}
              : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    {UI(i, 0, Ui("u1")) : i \in {j \in Opened : Done(j)}},
    {Tick(dt) : dt \in {39, 40, 41, 60}} }

FinSid(i, sub, sid) == Fin(s.S[i].iss, Msg(i, [BaseIdt(i, sub, 0) EXCEPT !.sid = sid]), [Ans(i, sub) EXCEPT !.idt.sid = sid], Ui(sub))
EvC11 ==
  UNION {
    {FinSid(i, "u1", sid) : i \in {j \in Opened : CanFin(j)}, sid \in SIDS},
    UNION {{Fauth(s.S[i].iss, Msg(i, NoT))} : i \in {j \in Opened : s.S[j].k < MaxK - 1}},
    {Tok(i, [Ans(i, "u1") EXCEPT !.idt.sub = u]) : i \in {j \in Opened : s.S[j].code # 0 /\ s.S[j].k < MaxK}, u \in SUBS},
    {Fauth(s.S[i].iss, Msg(i, NoT)) : i \in All \ Opened},
    {Logout(i, 0) : i \in All},
    {Clear(i) : i \in All} }

LtBase(sub, sid) == [sig |-> "op", iss |-> "op", aud |-> "me", ev |-> "ok", iat |-> 0, jti |-> TRUE, nonce |-> FALSE, sub |-> sub, sid |-> sid]
LtDevs(b) ==
  Dev(b, "sig", SigV) \cup Dev(b, "iss", {"other", "slash", "prefix", "missing"}) \cup
  Dev(b, "aud", AudV) \cup
  Dev(b, "ev", {"missing", "other", "extra", "nonempty", "string", "empty"}) \cup
  Dev(b, "iat", {1, 16, 200, -200, MISSING}) \cup Dev(b, "jti", {FALSE}) \cup Dev(b, "nonce", {TRUE})
EvC12 ==
  UNION {
    {FinSid(i, u, sid) : i \in {j \in Opened : CanFin(j)}, sid \in {"s1", "s2", ""}, u \in SUBS},
    {Back(iss, LtBase(u, sid)) : iss \in Issuers, u \in SUBS \cup {""}, sid \in SIDS \cup {""}},
    {Back(iss, v) : iss \in Issuers, v \in LtDevs(LtBase("u1", "")) \cup LtDevs(LtBase("", "s1"))},
    {Clear(i) : i \in Opened} }

EvC13 ==
  UNION {
    {Logout(i, u) : i \in All, u \in {0, 1}},
    {Logout(99, 0)},
    UNION {{Ref(i, [Ans(i, "u1") EXCEPT !.idt = v], 0) : v \in {NoT, Ans(i, "u1").idt}} : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    {Clear(i) : i \in Opened} }

EvC21 ==
  UNION {
    {Reload},
    UNION {{Fauth(s.S[i].iss, Msg(i, NoT))} : i \in {j \in Opened : s.S[j].k = 0}},
    {Tok(i, Ans(i, SubOf(i))) : i \in {j \in Opened : s.S[j].code # 0 /\ s.S[j].k < MaxK}},
    {FinSid(i, "u1", "s1") : i \in {j \in Opened : CanFin(j)}},
    {Ref(i, [Ans(i, SubOf(i)) EXCEPT !.idt = NoT, !.rtok = 0], 0) : i \in {j \in Opened : s.S[j].rtok # 0 /\ s.S[j].k < MaxK}},
    {UI(i, 0, Ui(u)) : i \in {j \in Opened : Done(j)}, u \in SUBS},
    {Back(iss, LtBase("u1", "")) : iss \in Issuers}, {Back(iss, LtBase("", "s1")) : iss \in Issuers},
    {Back(iss, [LtBase("u1", "") EXCEPT !.sig = "evil"]) : iss \in Issuers},
    {Fauth(s.S[i].iss, [Msg(i, NoT) EXCEPT !.iss = "other"]) : i \in Opened},
    {Tok(i, [Ans(i, SubOf(i)) EXCEPT !.idt.nonce = -1]) : i \in {j \in Opened : s.S[j].code # 0}},
    {Tok(i, [Ans(i, SubOf(i)) EXCEPT !.idt.sig = "op2"]) : i \in {j \in Opened : s.S[j].code # 0 /\ s.S[j].k < MaxK}},
    {Logout(i, 0) : i \in Opened},
    {Clear(i) : i \in Opened} }

EvC25 ==
  LET kinds == {"ok", "err400", "s500", "garbage", "neterr", "s302"}
      fin(i) == {Fin(s.S[i].iss, Msg(i, [BaseIdt(i, "u1", 0) EXCEPT !.sid = sid]), [Ans(i, "u1") EXCEPT !.k = k1, !.idt.sid = sid], [Ui("u1") EXCEPT !.k = k2])
                  : sid \in {"", "s1"}, k1 \in IF Exchanges(s.S[i].rt) THEN kinds ELSE {"ok"},
                    k2 \in IF s.P[s.S[i].iss].ui THEN kinds ELSE {"ok"}}
      err(i) == {Fin(s.S[i].iss, [Msg(i, BaseIdt(i, "u1", 0)) EXCEPT !.err = TRUE], Ans(i, "u1"), Ui("u1"))}
      bad(i) == IF HasIdt(s.S[i].rt) THEN {Fin(s.S[i].iss, Msg(i, [BaseIdt(i, "u1", 0) EXCEPT !.sig = "evil"]), Ans(i, "u1"), Ui("u1"))} ELSE {}
      bad2(i) == IF Exchanges(s.S[i].rt) THEN {Fin(s.S[i].iss, Msg(i, BaseIdt(i, "u1", 0)), [Ans(i, "u1") EXCEPT !.idt.sig = "evil"], Ui("u1"))} ELSE {}
      \* collecting: token endpoint good, failing, or without (a good) ID token
      col(i) == {Collecting(Fin(s.S[i].iss, [Msg(i, BaseIdt(i, "u1", 0)) EXCEPT !.code = c], ta, [Ui("u1") EXCEPT !.k = k2]))
                  : c \in {0, Msg(i, NoT).code}, k2 \in IF s.P[s.S[i].iss].ui THEN {"ok", "err400"} ELSE {"ok"},
                    ta \in {[Ans(i, "u1") EXCEPT !.k = k1] : k1 \in kinds} \cup
                           {[Ans(i, "u1") EXCEPT !.idt = v] : v \in {NoT, [BaseIdt(i, "u1", 10) EXCEPT !.sig = "evil"], BaseIdt(i, "u2", 10)}}}
      noidt(i) == IF s.S[i].rt = "code id_token" THEN
                  {Fin(s.S[i].iss, Msg(i, [BaseIdt(i, "u1", 0) EXCEPT !.sid = sid]), [Ans(i, "u1") EXCEPT !.idt = NoT], Ui("u1")) : sid \in {"", "s1"}} ELSE {}
  IN UNION {fin(i) \cup err(i) \cup bad(i) \cup bad2(i) \cup noidt(i) \cup (IF HasAt(s.S[i].rt) THEN col(i) ELSE {}) : i \in {j \in Opened : CanFin(j)}}

Focused ==
  CASE Focus = "C01" -> EvC01 [] Focus = "C02" -> EvC02
    [] Focus \in {"C03", "C03b", "C03n"} -> EvC03
    [] Focus = "C04" -> EvC04 [] Focus = "C05" -> EvC05 [] Focus = "C07" -> EvC07 [] Focus = "C08" -> EvC08
    [] Focus = "C09" -> EvC09 [] Focus = "C10" -> EvC10 [] Focus = "C11" -> EvC11 [] Focus = "C12" -> EvC12
    [] Focus = "C13" -> EvC13 [] Focus = "C21" -> EvC21 [] Focus = "C25" -> EvC25
    [] OTHER -> {}

\* where there is no user info endpoint in use, or no ID token, the focus decides
OKBegin(e) == ~(F({"C25"}) /\ e.iss = "B" /\ ~(HasIdt(e.rt) \/ Exchanges(e.rt)))

----------------------------------------------------------------------------
Init == s = Init0(Profiles, SUBS, SIDS) /\ ev = [t |-> "init"]

Do(e) == ev' = e /\ s' = Step(s, e).s

Events == (IF Len(s.S) < MaxSess THEN {b \in Begins : OKBegin(b)} ELSE {}) \cup Ordinary \cup Focused

Next == \E e \in Events : Do(e)

Spec == Init /\ [][Next]_vars

\* sessions beyond a bound are not continued
InBounds == /\ \A i \in All : s.S[i].k <= MaxK + 1
            /\ Len(s.lo) <= MaxLo
            /\ s.clk <= MaxClk
Hide == s

----------------------------------------------------------------------------
(* What the replay needs: for every state found what can be seen in it and   *)
(* what every event does there (g is empty when the state stays the same).   *)
Strip(x) == [x EXCEPT !.P = 0]
Edge(e) == LET r == Step(s, e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<Strip(r.s)>>]
ASSUME Emit => PrintT("@P" \o ToJson(Profiles))
EmitState ==
  Emit => PrintT("@E" \o ToJson([s |-> Strip(s), v |-> View(s),
                                  E |-> IF InBounds THEN {Edge(e) : e \in Events} ELSE {}]))

----------------------------------------------------------------------------
(* The properties, stated on what the state says happened and not on the     *)
(* guards that Step uses.                                                    *)
\* C02/C03: every ID token a session holds was made for that session
InvNonce == \A i \in All : \A t \in {s.S[i].idtA, s.S[i].idtT} : (t.id # 0) => (t.own = i)
\* C05: whatever a session holds was issued in it (ids say for whom they were made)
InvOwn == \A i \in All : LET x == s.S[i] IN
             \A v \in {x.code, x.atA.v, x.atT.v, x.rtok, x.idtA.id, x.idtT.id} : (v # 0) => (v \div 1000 = i)
\* C07: stored user info is about the user of the verified ID token at the time
\* C11: nothing leads to a cleared session
InvClear == LET dead == All \ Opened IN
             /\ \A iss \in Issuers : /\ \A u \in SUBS : s.so[iss][u] \notin dead
                                     /\ \A u \in SIDS : s.si[iss][u] \notin dead
             /\ \A k \in 1..Len(s.lo) : s.lo[k] \notin dead
\* lookups stay within a provider
InvIss == \A iss \in Issuers :
             /\ \A u \in SUBS : (s.so[iss][u] # 0) => (s.S[s.so[iss][u]].iss = iss)
             /\ \A u \in SIDS : (s.si[iss][u] # 0) => (s.S[s.si[iss][u]].iss = iss)
\* C08: a token reported valid is one of the session's and alive
InvValid == \A i \in Opened : LET v == Valid(s, s.S[i]) IN
             IF v.v = 0
             THEN \A c \in {s.S[i].atA, s.S[i].atT} : c.v = 0 \/ (c.exp # 0 /\ c.exp <= s.clk)
             ELSE /\ v \in {s.S[i].atA, s.S[i].atT}
                  /\ v.exp = 0 \/ v.exp > s.clk
                  /\ (v.exp # 0) => (\A c \in {s.S[i].atA, s.S[i].atT} : (c.v # 0) => (c.exp # 0 /\ c.exp <= v.exp))
\* C10
InvActive == \A i \in Opened : SessView(s, i).act => (\E t \in {s.S[i].idtA, s.S[i].idtT} : t.id # 0 /\ t.exp > s.clk)

\* --- about steps ---
Same(i) == s.S[i] = s'.S[i]
\* C01/C04/C05: a step that does not succeed, or is about another session, leaves a session alone
OutOf == Step(s, ev').out
Subject == IF ev'.t \in {"tok", "ref", "ui", "logout", "clear"} THEN ev'.i
           ELSE IF ev'.t \in {"fin", "fauth"} THEN ev'.m.st ELSE 0
PropIsolation == [][\A i \in All : (i # Subject) => Same(i)]_vars
PropFail == [][(OutOf # "ok" /\ ev'.t # "fin") => s' = s]_vars
PropFailFin == [][(OutOf # "ok" /\ ev'.t = "fin") =>
                   /\ s'.si = s.si
                   /\ \A i \in All : s'.S[i].ui = s.S[i].ui]_vars
\* C01: acceptance needs an open session of that very provider
PropAuthz == [][(ev'.t \in {"fin", "fauth"} /\ OutOf = "ok") =>
                 /\ ev'.m.st \in Opened /\ s.S[ev'.m.st].iss = ev'.iss
                 /\ ev'.m.iss \in {"none", "self"} /\ ev'.m.cid \in {"none", "self"} /\ ev'.m.aud # "other"]_vars
\* C03: acceptance of an ID token
Tokens(e) == IF e.t = "fin" THEN {e.m.idt} \cup (IF Asks(s.S[e.m.st].rt, e.col, e.m.code) THEN {e.ta.idt} ELSE {})
             ELSE IF e.t = "fauth" THEN {e.m.idt}
             ELSE IF e.t \in {"tok", "ref"} THEN {e.ta.idt} ELSE {}
PropIdt == [][(OutOf = "ok") => (\A t \in Tokens(ev') : (t.id # 0) =>
                /\ t.sig \notin {"evil", "evilkid", "otherop", "rp", "hs", "strip", "mod"}
                /\ t.iss \notin {"other", "slash", "prefix", "suffix", "case", "missing"}
                /\ t.aud \notin {"other", "missing", "mesuffix", "meprefix", "empty"} /\ t.azp # "other"
                /\ t.exp >= -Skew /\ t.iat <= Skew /\ t.iat > -9999
                /\ t.sub # ""
                /\ t.nonce \in {Subject} \cup (IF ev'.t = "ref" THEN {0} ELSE {})
                /\ (t.sig = "none" => s.P[s.S[Subject].iss].alg = "none"))]_vars
\* C04: only good answers succeed
PropAns == [][(OutOf = "ok") =>
               (/\ (ev'.t \in {"tok", "ref"}) => (ev'.ta.k = "ok")
                /\ (ev'.t = "ui") => (ev'.ua.k = "ok")
                /\ (ev'.t = "fin" /\ Asks(s.S[ev'.m.st].rt, ev'.col, ev'.m.code)) => (ev'.ta.k = "ok"))]_vars
\* C05: what is sent for a session belongs to it
PropWire == [][LET w == Step(s, ev').wire IN
                \A k \in 1..Len(w) :
                  /\ w[k].iss = s'.S[Subject].iss
                  /\ (w[k].ep = "token") => (w[k].v \div 1000 = Subject /\ w[k].x = s.S[Subject].ru)
                  /\ (w[k].ep = "refresh") => (w[k].v = s.S[Subject].rtok)
                  /\ (w[k].ep = "ui" /\ w[k].v # 77) => (w[k].v \div 1000 = Subject)]_vars
\* C07
PropSub == [][(OutOf = "ok" /\ ev'.t \in {"ui", "fin"} /\ s'.S[Subject].ui # s.S[Subject].ui) =>
                LET t == Last(s'.S[Subject]) IN
                  /\ s'.S[Subject].ui # ""
                  /\ (t.id # 0) => (s'.S[Subject].ui = t.sub)]_vars
\* C09
PropRefresh == [][(ev'.t = "ref" /\ OutOf = "ok") =>
                   LET x == s.S[ev'.i]  y == s'.S[ev'.i] IN
                     /\ x.rtok # 0 /\ y.rtok # 0
                     /\ y.atT.v = ev'.ta.at
                     /\ LastAt(y).v = ev'.ta.at
                     /\ (ev'.ta.rtok = 0) => (y.rtok = x.rtok)
                     /\ (ev'.ta.idt.id = 0) => (Last(y) = Last(x))
                     /\ (Last(x).id # 0) => (Last(y).sub = Last(x).sub)]_vars
\* C11: clearing removes one session and nothing else
PropClear == [][(ev'.t = "clear" /\ OutOf = "ok") =>
                 /\ ~s'.S[ev'.i].open
                 /\ \A iss \in Issuers : \A u \in SUBS :
                        (s.so[iss][u] # ev'.i) => (s'.so[iss][u] = s.so[iss][u])
                 /\ \A k \in 1..Len(s.lo) : (s.lo[k] # ev'.i) => (s'.lo[k] = s.lo[k])]_vars
\* C12: processing a logout token changes nothing and yields an open session of that provider
PropBack == [][(ev'.t = "back") =>
                /\ s' = s
                /\ (OutOf = "ok") => LET o == Step(s, ev').res.sess IN
                     /\ o \in Opened /\ s.S[o].iss = ev'.iss
                     /\ ev'.lt.sig = "op" /\ ev'.lt.iss = "op" /\ ev'.lt.ev = "ok"]_vars
\* C13
PropLogout == [][(ev'.t = "logout" /\ OutOf = "ok") =>
                  /\ Len(s'.lo) = Len(s.lo) + 1 /\ s'.lo[Len(s'.lo)] = ev'.i
                  /\ \A k \in 1..Len(s.lo) : s'.lo[k] = s.lo[k]]_vars
=============================================================================
