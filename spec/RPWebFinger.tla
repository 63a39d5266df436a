----------------------------- MODULE RPWebFinger ----------------------------
(* From a user identifier to a provider: OpenID Connect Discovery 1.0,       *)
(* section 2.                                                                *)
(*                                                                           *)
(* An identifier is its parts; strings only exist in the executor.  A        *)
(* WebFinger answer is a status and a list of links.  The state is what is   *)
(* configured, which providers there are clients for, and the sessions.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>

----------------------------------------------------------------------------
(* Identifiers                                                               *)
Id == [pre : {"", "=", "@", "!"}, sch : {"", "acct", "https", "http"}, usr : BOOLEAN, host : BOOLEAN, port : BOOLEAN,
       path : 0..2, q : BOOLEAN, frag : BOOLEAN]
Joe == [pre |-> "", sch |-> "acct", usr |-> TRUE, host |-> TRUE, port |-> FALSE, path |-> 0, q |-> FALSE, frag |-> FALSE]

NoRes == [sch |-> "", usr |-> FALSE, port |-> FALSE, path |-> 0, q |-> FALSE]
Bare(d) == ~d.port /\ d.path = 0 /\ ~d.q /\ ~d.frag
\* may it be used at all?
Usable(d) == /\ d.pre = ""
             /\ d.host
             /\ (d.sch = "acct") => d.usr
\* the normalized identifier
Norm(d) == [sch |-> IF d.sch # "" THEN d.sch ELSE IF Bare(d) THEN "acct" ELSE "https",
            usr |-> d.usr, port |-> d.port, path |-> d.path, q |-> d.q]

----------------------------------------------------------------------------
(* Answers                                                                   *)
\* iss: the issuer relation, near: almost that, other: some other
Rels == {"iss", "near", "other"}
\* issuers: A and B over https, H and U over http (U written HTTP), n: no href
Hrefs == {"A", "B", "H", "U", "n"}
Issuers == {"A", "B", "H", "U"}
Http(h) == h \in {"H", "U"}
Bad == {"404", "500", "302", "neterr", "garbage", "nolinks", "empty", "error"}
Link(r, h) == [rel |-> r, href |-> h]
Ok(ls) == [st |-> "ok", links |-> ls]

\* 0: there is none
First(ls) == IF \E i \in 1..Len(ls) : ls[i].rel = "iss" THEN CHOOSE i \in 1..Len(ls) : ls[i].rel = "iss" /\ \A j \in 1..(i - 1) : ls[j].rel # "iss"
             ELSE 0
\* the issuer found, "" if there is none to be used
Found(a) ==
  IF a.st # "ok" THEN "" ELSE
  LET i == First(a.links) IN
  IF i = 0 THEN ""
  ELSE LET h == a.links[i].href IN IF h = "n" THEN "" ELSE IF Http(h) /\ s.cfg.allow # "yes" THEN "" ELSE h

----------------------------------------------------------------------------
W(ep, k, r) == [ep |-> ep, iss |-> k, res |-> r]
R(t, out, res, wire) == [s |-> t, out |-> out, res |-> res, wire |-> wire, aw |-> FALSE, touch |-> {}]
SetUp(k) ==
  IF k \in s.known THEN <<>>
  ELSE <<W("disc", k, NoRes)>> \o (IF k \in s.cfg.own THEN <<>> ELSE <<W("reg", k, NoRes)>>)
Began(k) == [s EXCEPT !.known = @ \cup {k}, !.sess = Append(@, k)]

DoUser(e) ==
  IF ~Usable(e.id) THEN R(s, "exc", [sess |-> 0, iss |-> ""], <<>>)
  ELSE LET w == <<W("wf", "", Norm(e.id))>> k == Found(e.a) IN
    IF k = "" THEN R(s, "exc", [sess |-> 0, iss |-> ""], w)
    ELSE R(Began(k), "ok", [sess |-> Len(s.sess) + 1, iss |-> k], w \o SetUp(k))
DoIss(e) == R(Began(e.iss), "ok", [sess |-> Len(s.sess) + 1, iss |-> e.iss], SetUp(e.iss))

Step(e) ==
  CASE e.t = "setup" -> R([s EXCEPT !.cfg = e.cfg], "ok", [sess |-> 0, iss |-> ""], <<>>)
    [] e.t = "user" -> DoUser(e)
    [] e.t = "iss" -> DoIss(e)

----------------------------------------------------------------------------
Cfgs == [allow : {"", "yes", "no"}, own : {{}, {"A"}, {"A", "B"}}]
NoCfg == [allow |-> "-", own |-> {}]
Lists ==
  {<<>>} \cup {<<Link(r, h)>> : r \in Rels, h \in Hrefs}
  \cup {<<Link(r, h), Link(q, g)>> : r \in Rels, q \in Rels, h \in Hrefs, g \in {"A", "B", "H"}}
  \cup (IF Wide THEN {<<Link(r, h), Link(q, g), Link("iss", f)>> : r \in Rels, q \in Rels, h \in Hrefs, g \in Hrefs, f \in {"A", "B", "H"}}
        ELSE {<<Link(r, "B"), Link(q, g), Link("iss", "A")>> : r \in {"near", "other"}, q \in Rels, g \in {"B", "H", "n"}})
Answers == {Ok(ls) : ls \in Lists} \cup {[st |-> b, links |-> <<Link("iss", "A")>>] : b \in Bad}
MaxSess == IF Wide THEN 3 ELSE 2

Events ==
  IF s.cfg = NoCfg THEN {[t |-> "setup", cfg |-> c] : c \in Cfgs}
  ELSE
    (IF Len(s.sess) < MaxSess
     \* an upper case HTTP that is allowed is left open
     THEN {[t |-> "user", id |-> Joe, a |-> a] :
             a \in {a \in Answers : s.cfg.allow = "yes" => \A n \in 1..Len(a.links) : a.links[n].href # "U"}} \cup {[t |-> "iss", iss |-> k] : k \in {"A", "B"}}
     ELSE {})
    \cup (IF s.sess = <<>> /\ s.cfg.allow = "" /\ s.cfg.own = {}
          THEN {[t |-> "user", id |-> d, a |-> Ok(<<Link("iss", "A")>>)] :
                  d \in {d \in Id : d.pre = "" \/ (~d.port /\ ~d.frag)}}
          ELSE {})

Init == s = [cfg |-> NoCfg, known |-> {}, sess |-> <<>>] /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == Len(s.sess) <= MaxSess

View == [known |-> [k \in Issuers |-> k \in s.known], sess |-> s.sess]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
(* C23, on steps.                                                            *)
Asked(w) == {w[n].iss : n \in {n \in 1..Len(w) : w[n].ep # "wf"}}
PropC23 ==
  [][(ev'.t = "user") =>
      LET w == Step(ev').wire ls == ev'.a.links IN
      \* reserved identifiers and those without a host go nowhere
      /\ (ev'.id.pre # "" \/ ~ev'.id.host) => (w = <<>> /\ s' = s)
      \* there is one query and it comes first, and nobody but the issuer found is asked anything else
      /\ (w # <<>>) => (w[1].ep = "wf" /\ w[1].res.sch \in {"acct", "https", "http"} /\ \A n \in 2..Len(w) : w[n].ep # "wf")
      /\ \A k \in Asked(w) \cup (s'.known \ s.known) :
            /\ ev'.a.st = "ok"
            /\ \E i \in 1..Len(ls) : ls[i].rel = "iss" /\ ls[i].href = k /\ \A j \in 1..(i - 1) : ls[j].rel # "iss"
            /\ Http(k) => s.cfg.allow = "yes"
      /\ (Len(s'.sess) > Len(s.sess)) => s'.sess[Len(s'.sess)] \in s'.known
      /\ \A n \in 1..Len(w) : (w[n].ep = "reg") => w[n].iss \notin s.cfg.own
     ]_vars
\* an e-mail address is an account, something with a port, path, query or fragment a URL
ASSUME \A d \in Id : (Usable(d) /\ d.sch = "") =>
          LET n == Norm(d) IN (n.sch = "acct") <=> (~d.port /\ d.path = 0 /\ ~d.q /\ ~d.frag)
=============================================================================
