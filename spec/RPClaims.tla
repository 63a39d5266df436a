------------------------------- MODULE RPClaims -----------------------------
(* Claims about a user that come from others than the provider: OpenID       *)
(* Connect Core, section 5.6.2.                                              *)
(*                                                                           *)
(* The value of a claim is known by where it comes from: "op" or a source.   *)
(* A user info response says for each claim where it is from, and what its   *)
(* sources are like.  A source always has values for all claims, and more.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>

Room == IF Wide THEN 2 ELSE 1
Claims == {"c1", "c2", "c3"}
Srcs == {"s1", "s2"}
----------------------------------------------------------------------------
(* A response: from : claim -> "", "op", "s1", "s2" or "sx" (no such source) *)
(* sub: the source the subject is attributed to, src: what the sources are   *)
None == [kind |-> "none", how |-> ""]
\* an aggregated source's token is signed by: somebody known, the provider, somebody unknown; it is
\* forged, altered, unsigned, no JWT, MACed with a public key
Sigs == {"ok", "op", "unknown", "forged", "nokid", "altered", "none", "nonesig", "plain", "garbage", "pubmac", "swapped"}
Agg(h) == [kind |-> "agg", how |-> h]
\* a distributed source is asked with its token, or without
Dist(h) == [kind |-> "dist", how |-> h]
SrcKinds == {None} \cup {Agg(h) : h \in Sigs} \cup {Dist("token"), Dist("plain")}

Verifies(k) == k.kind = "agg" /\ k.how \in {"ok", "op"}
\* a token that doesn't verify may also make the response refused
Soft(src) == \E x \in Srcs : src[x].kind = "agg" /\ ~Verifies(src[x])

UiClaims(u) ==
  [c \in Claims |-> IF u.from[c] = "op" THEN "op"
                    ELSE IF u.from[c] \in Srcs THEN (IF Verifies(u.src[u.from[c]]) THEN u.from[c] ELSE "")
                    ELSE ""]
NoClaims == [c \in Claims |-> ""]
NoRes == [cl |-> NoClaims, sub |-> "", more |-> FALSE, soft |-> FALSE]
Res(cl, soft) == [cl |-> cl, sub |-> "op", more |-> FALSE, soft |-> soft]
R(t, out, res, wire) == [s |-> t, out |-> out, res |-> res, wire |-> wire, aw |-> FALSE, touch |-> {}]

HasDist(u) == \E x \in Srcs : u.src[x].kind = "dist"
\* user info with sources that are still to be asked is kept
DoUi(e) ==
  LET u == e.u soft == Soft(u.src) cl == UiClaims(u) IN
  R(IF HasDist(u) /\ ~soft /\ Len(s) < Room THEN Append(s, [u |-> u, cl |-> cl]) ELSE s, "ok", Res(cl, soft), <<>>)

\* sources are asked in turn until one fails.  cb: there is a function that has tokens
W(x, t) == [src |-> x, tok |-> t]
Tok(k, cb) == IF k.how = "token" THEN "own" ELSE IF cb THEN "cb" ELSE "none"
AnsOk(a) == a \in {"ok", "ok2"}
RECURSIVE Ask(_, _, _, _, _)
Ask(xs, u, cl, e, w) ==
  IF xs = <<>> THEN [ok |-> TRUE, cl |-> cl, w |-> w]
  ELSE LET x == xs[1] k == u.src[x] IN
       IF k.kind # "dist" THEN Ask(Tail(xs), u, cl, e, w)
       ELSE LET w2 == Append(w, W(x, Tok(k, e.cb))) IN
            IF ~AnsOk(e.ans[x]) THEN [ok |-> FALSE, cl |-> cl, w |-> w2]
            ELSE Ask(Tail(xs), u, [c \in Claims |-> IF u.from[c] = x THEN x ELSE cl[c]], e, w2)
DoFetch(e) ==
  LET r == Ask(<<"s1", "s2">>, s[e.i].u, s[e.i].cl, e, <<>>) IN
  IF r.ok THEN R(s, "ok", Res(r.cl, FALSE), r.w) ELSE R(s, "exc", NoRes, r.w)

Step(e) == CASE e.t = "ui" -> DoUi(e) [] e.t = "fetch" -> DoFetch(e)

----------------------------------------------------------------------------
Froms == {f \in [Claims -> {"", "op", "s1", "s2", "sx"}] : f["c3"] \in {"op", "s1"} /\ (Wide \/ f["c2"] # "sx")}
Uis == {u \in [from : Froms, sub : {"", "s1"}, src : [Srcs -> SrcKinds]] :
          /\ (u.sub = "s1") => (u.src["s1"] # None)
          \* at most one of the sources is out of order, or both in the same way
          /\ Wide \/ (Soft(u.src) => (\E x \in Srcs : Verifies(u.src[x]) \/ u.src[x].kind # "agg") \/ u.src["s1"] = u.src["s2"])
          /\ (Wide \/ u.from["c1"] # "" \/ u.from["c2"] # "")}
Answers == {"ok", "ok2", "404", "500", "302", "neterr", "garbage", "list"}
Fetches ==
  UNION {{[t |-> "fetch", i |-> i, cb |-> cb, ans |-> a] : cb \in BOOLEAN, a \in {a \in [Srcs -> Answers] :
            \A x \in Srcs : (s[i].u.src[x].kind # "dist") => a[x] = "ok"}} : i \in 1..Len(s)}
Events == {[t |-> "ui", u |-> u] : u \in IF s = <<>> THEN Uis ELSE {u \in Uis : Wide /\ u.sub = "" /\ u.from["c1"] = "s1" /\ u.from["c2"] = "s2" /\ u.from["c3"] = "op" /\ HasDist(u)}} \cup Fetches

Init == s = <<>> /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == Len(s) <= 2
\* what was told about the users stays as it was
View == [n |-> Len(s)]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([room |-> Room]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
PropC24 ==
  [][LET r == Step(ev') IN
      \* a source is the source of what is attributed to it
      /\ \A c \in Claims, x \in Srcs : (r.res.cl[c] = x) =>
            LET u == IF ev'.t = "ui" THEN ev'.u ELSE s[ev'.i].u IN
            /\ u.from[c] = x
            /\ (u.src[x].kind = "agg") => u.src[x].how \in {"ok", "op"}
            /\ (u.src[x].kind = "dist") => (ev'.t = "fetch" /\ AnsOk(ev'.ans[x]))
      /\ \A c \in Claims : (ev'.t = "ui" /\ ev'.u.from[c] = "op") => (r.res.cl[c] = "op")
      /\ (r.out = "ok") => (r.res.sub = "op")
      \* nobody but distributed sources is asked, at most once, with their own token if they have one
      /\ (ev'.t = "ui") => (r.wire = <<>>)
      /\ \A n \in 1..Len(r.wire) :
            /\ s[ev'.i].u.src[r.wire[n].src].kind = "dist"
            /\ (s[ev'.i].u.src[r.wire[n].src].how = "token") => (r.wire[n].tok = "own")
      /\ (ev'.t = "fetch" /\ \E x \in Srcs : s[ev'.i].u.src[x].kind = "dist" /\ ~AnsOk(ev'.ans[x])) => (r.out = "exc")
     ]_vars
=============================================================================
