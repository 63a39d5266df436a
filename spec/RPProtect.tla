------------------------------ MODULE RPProtect ----------------------------
(* User info that comes signed, encrypted or both: OpenID Connect Core,      *)
(* sections 5.3.2 and 5.3.4, and what a client registers about it.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
(* The client: dyn: registered itself, sig/enc: what it registered,          *)
(* plist: the signing algorithm the provider announces, if any               *)
Cfgs == {c \in [dyn : BOOLEAN, sig : {"", "RS256", "ES256"}, enc : BOOLEAN, plist : {"", "ES256", "both"}] :
           \* it can only register what the provider knows
           /\ (c.plist = "ES256" => c.sig # "RS256")}
NoCfg == [dyn |-> FALSE, sig |-> "?", enc |-> FALSE, plist |-> ""]
(* A response: form: json, jws, jwe (a jws in a jwe), jwejson (json in a jwe)*)
(* label: its content type; key: who signed; tam: what was changed           *)
(* afterwards; to: who can decrypt it; ealg: as registered or another one    *)
Base(c) == [form |-> IF c.enc THEN (IF c.sig # "" THEN "jwe" ELSE "jwejson") ELSE IF c.sig # "" THEN "jws" ELSE "json",
            label |-> "right", alg |-> IF c.sig # "" THEN c.sig ELSE IF c.plist = "ES256" THEN "ES256" ELSE "RS256", key |-> "op", tam |-> "",
            iss |-> "op", aud |-> "me", sub |-> "own", to |-> "me", ealg |-> "reg", v |-> 1]
Field(r, f, x) == [r EXCEPT ![f] = x]
Labels == {"right", "wrong", "none", "text"}
Keys == {"op", "stranger", "forged", "nokid", "mac", "pubmac"}
Deviate(r) ==
  {Field(r, "form", x) : x \in {"json", "jws", "jwe", "jwejson"}}
  \cup {Field(r, "label", x) : x \in Labels}
  \cup (IF r.form = "json" THEN {} ELSE
          {Field(r, "to", x) : x \in {"me", "other", "op"}} \cup {Field(r, "ealg", x) : x \in {"reg", "alg", "enc"}})
  \cup (IF r.form \in {"jws", "jwe"} THEN
          {Field(r, "alg", x) : x \in {"RS256", "ES256", "RS512", "none", "None"}}
          \cup {Field(r, "key", x) : x \in Keys} \cup {Field(r, "tam", x) : x \in {"", "body", "sig", "nosig", "head"}}
          \cup {Field(r, "iss", x) : x \in {"op", "", "other", "slash"}} \cup {Field(r, "aud", x) : x \in {"me", "", "other"}}
        ELSE {})
  \cup {Field(r, "sub", x) : x \in {"own", "other", ""}}
\* fields that mean nothing for the form have one value
Norm(r) ==
  LET a == IF r.form \in {"jws", "jwe"} THEN r ELSE [r EXCEPT !.alg = "RS256", !.key = "op", !.tam = "", !.iss = "op", !.aud = "me"]
      b == IF r.form \in {"jwe", "jwejson"} THEN a ELSE [a EXCEPT !.to = "me", !.ealg = "reg"]
  IN IF b.key \in {"mac", "pubmac"} \/ b.alg \in {"none", "None"} THEN [b EXCEPT !.alg = IF b.key = "op" THEN b.alg ELSE "HS256", !.tam = ""] ELSE b
Responses(c) ==
  LET one == {Norm(r) : r \in Deviate(Base(c))}
      two == UNION {{Norm(r) : r \in Deviate(x)} : x \in one}
      three == IF Wide THEN UNION {{Norm(r) : r \in Deviate(x)} : x \in two} ELSE {}
  IN one \cup two \cup three

Signed(r) == r.form \in {"jws", "jwe"}
Encrypted(r) == r.form \in {"jwe", "jwejson"}
AlgOk(c, r) == IF c.sig # "" THEN r.alg = c.sig
               ELSE IF c.plist = "ES256" THEN r.alg = "ES256" ELSE IF c.plist = "both" THEN r.alg \in {"RS256", "ES256"} ELSE r.alg \in {"RS256", "ES256", "RS512"}
SigBad(c, r) == Signed(r) /\ (r.key # "op" \/ r.tam # "" \/ ~AlgOk(c, r))
EncBad(c, r) == Encrypted(r) /\ (r.to # "me" \/ (c.enc /\ r.ealg # "reg"))
Bad(c, r) == SigBad(c, r) \/ EncBad(c, r) \/ r.sub # "own"
\* left open: what isn't as registered or labelled, but neither false
Open(c, r) == \/ (c.sig # "") # Signed(r)
              \/ c.enc # Encrypted(r)
              \/ r.label # "right"
              \/ (Signed(r) /\ (r.iss # "op" \/ r.aud # "me"))
Verdict(c, r) == IF Bad(c, r) THEN "exc" ELSE IF Open(c, r) THEN "open" ELSE "ok"
----------------------------------------------------------------------------
(* One session is kept; have: the user info it holds, 0: none                *)
NoRes == [v |-> 0, exact |-> TRUE, open |-> FALSE]
R(t, out, v, op, w) == [s |-> t, out |-> out, res |-> [v |-> v, exact |-> TRUE, open |-> op], wire |-> w, aw |-> FALSE, touch |-> {}]
Judge(e, t) ==
  LET d == Verdict(s.c, e.r) IN
  CASE d = "ok"   -> R(t, "ok", e.r.v, FALSE, <<>>)
    [] d = "open" -> R(s, "ok", e.r.v, TRUE, <<>>)
    [] d = "exc"  -> R(s, "exc", 0, FALSE, <<>>)
Start == [c |-> NoCfg, have |-> 0]
Step(e) == IF e.t = "set" THEN R([s EXCEPT !.c = e.c], "ok", 0, FALSE, <<>>)
           ELSE Judge(e, [s EXCEPT !.have = e.r.v])

Events ==
  IF s = Start THEN {[t |-> "set", c |-> c] : c \in Cfgs} ELSE
  {[t |-> "login", r |-> r, keep |-> Verdict(s.c, r) = "ok"] : r \in IF s.have = 0 THEN Responses(s.c) ELSE {}}
  \* once more in the session that is kept
  \cup (IF s.have = 0 THEN {} ELSE {[t |-> "again", r |-> Field(r, "v", v)] : v \in {3 - s.have}, r \in {x \in Responses(s.c) : Verdict(s.c, x) # "open"}})

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == [have |-> s.have]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
PropC26 ==
  [][(ev'.t # "set") =>
     LET r == Step(ev') x == ev'.r c == s.c IN
      \* nothing unsigned or signed by others counts as signed, and nothing for others as meant for this client
      /\ (r.out = "ok" /\ x.form \in {"jws", "jwe"}) =>
            /\ x.key = "op" /\ x.tam = "" /\ x.alg \notin {"none", "None", "HS256"}
            /\ (c.sig # "") => (x.alg = c.sig)
      /\ (r.out = "ok" /\ x.form \in {"jwe", "jwejson"}) => x.to = "me"
      /\ (r.out = "ok") => x.sub = "own"
      \* only what was accepted is kept, and it is all that is kept
      /\ (r.s.have # s.have) => (r.out = "ok" /\ r.s.have = x.v)
      /\ (r.out = "exc") => (r.s = s)
      \* what is as agreed is accepted
      /\ (x = Base(c) \/ x = [Base(c) EXCEPT !.v = 2]) => (r.out = "ok" /\ r.s.have = x.v)
     ]_vars
=============================================================================
