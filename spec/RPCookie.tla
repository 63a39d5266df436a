------------------------------ MODULE RPCookie ------------------------------
(* Cookies: made with a payload, a time stamp and keys; given back by a      *)
(* browser that can put together anything from what it has seen.             *)
(*                                                                           *)
(* jar: the cookies made so far.  A cookie is a sequence of parts; a part is *)
(* a value (loads, times) or an opaque term (signature, nonce, ciphertext,   *)
(* tag) that only somebody with the keys can make.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wide, Emit, Long
VARIABLES jar, ev
vars == <<jar, ev>>

\* payloads: 1, 2, 3 unrelated (3: the empty one); 4: payload 1 and the first
\* characters of time stamp 1, so that <<4, time 2>> and <<1, time 1>> have the
\* same characters in all.  Time stamp 0: not given, the present time.
Loads == {1, 2, 3, 4}
Times == {0, 1, 2}
Seeds == {1, 2}
EKeys == {0, 1, 2}          \* 0: no encryption key
Dealers == {1, 2, 3}        \* 1: with an encryption key, 2: another one, 3: without

V(k, n) == [k |-> k, a |-> n, b |-> 0, c |-> 0, d |-> 0]
Term(k, l, t, s, e) == [k |-> k, a |-> l, b |-> t, c |-> s, d |-> e]

\* n-th cookie: how its parts look
Parts(x, n) ==
  IF x.ke = 0
  THEN <<Term("load", x.l, IF x.d = 0 THEN 0 ELSE 1, x.ty, 0), V("time", x.t), Term("mac", x.l, x.t, x.ks, x.ty)>>
  ELSE <<V("time", x.t), Term("iv", n, 0, 0, 0),
         IF x.l = 3 /\ x.d = 0 THEN V("empty", 0) ELSE Term("ct", n, 0, 0, 0), Term("tag", n, 0, 0, 0)>>

Cookie(l, t, ks, ke, d, ty) == [l |-> l, t |-> t, ks |-> ks, ke |-> ke, d |-> d, ty |-> ty]

NoVal == [l |-> 0, t |-> 0, ty |-> 0]
R(j, out, res) == [s |-> j, out |-> out, res |-> res, wire |-> <<>>, aw |-> FALSE, touch |-> {}]

\* Reading: the parts have to be those of a cookie that was made with these keys
Genuine(parts, ks, ke) ==
  {n \in 1..Len(jar) : jar[n].ks = ks /\ jar[n].ke = ke /\ Parts(jar[n], n) = parts}
Got(parts, alt, ks, ke) ==
  IF alt # "none" \/ Genuine(parts, ks, ke) = {} THEN R(jar, "fail", NoVal)
  ELSE LET n == CHOOSE m \in Genuine(parts, ks, ke) : TRUE
       IN R(jar, "ok", [l |-> jar[n].l, t |-> jar[n].t, ty |-> 0])

\* what a browser puts together: part p of the cookies c[1..], then an alteration
Built(src) == [p \in 1..Len(src) |-> Parts(jar[src[p][1]], src[p][1])[src[p][2]]]

\* dealers: seed 10+d, encryption key d (none for 3)
DSeed(d) == 10 + d
DKey(d) == IF d = 3 THEN 0 ELSE 10 + d
Step(e) ==
  CASE e.t = "make" -> R(Append(jar, Cookie(e.l, e.ts, e.ks, e.ke, 0, 0)), "ok", NoVal)
    [] e.t = "read" -> Got(Built(e.src), e.alt, e.ks, e.ke)
    [] e.t = "noname" -> R(jar, "fail", NoVal)
    [] e.t = "deal" -> R(Append(jar, Cookie(e.l, 0, DSeed(e.d), DKey(e.d), e.d, e.ty)), "ok", NoVal)
    [] e.t = "dget" ->
         LET g == Got(Built(e.src), e.alt, DSeed(e.d), DKey(e.d)) IN
         IF g.out # "ok" THEN g
         ELSE LET n == CHOOSE m \in Genuine(Built(e.src), DSeed(e.d), DKey(e.d)) : TRUE
              IN [g EXCEPT !.res.ty = jar[n].ty]
    [] OTHER -> R(jar, "ok", NoVal)

----------------------------------------------------------------------------
Max == 2
Len4(n) == IF jar[n].ke = 0 THEN 3 ELSE 4
Own(n) == [p \in 1..Len4(n) |-> <<n, p>>]
\* single parts replaced by those of another cookie of the same form, parts moved
Spliced(n) ==
  UNION {{[Own(n) EXCEPT ![p] = <<m, p>>] : p \in 1..Len4(n)} : m \in {m \in 1..Len(jar) : m # n /\ Len4(m) = Len4(n)}}
  \cup UNION {{[p \in 1..Len4(n) |-> IF p \in P THEN <<m, p>> ELSE <<n, p>>] : P \in SUBSET (1..Len4(n))}
               : m \in IF Wide THEN {m \in 1..Len(jar) : m # n /\ Len4(m) = Len4(n)} ELSE {}}
  \cup {[Own(n) EXCEPT ![1] = <<n, 2>>, ![2] = <<n, 1>>]}
  \cup {Append(Own(n), <<n, 1>>), SubSeq(Own(n), 1, Len4(n) - 1), SubSeq(Own(n), 2, Len4(n)), <<<<n, 1>>>>}
  \cup UNION {{Own(n) \o Own(m)} : m \in 1..Len(jar)}
Alts == {"none", "flip1", "flip2", "flip3", "flip4", "cut1", "cut2", "cut3", "cut4", "more1", "more2", "more3", "more4",
         "empty1", "empty2", "empty3", "empty4", "junk2", "junk3", "junk4", "uni1", "uni2", "uni3", "shift", "unshift",
         "swapcase", "sep1", "sep2", "sep3", "blank"}
Keys == {<<ks, ke>> : ks \in Seeds, ke \in EKeys}
Reads ==
  UNION {
    {[t |-> "read", src |-> Own(n), alt |-> "none", ks |-> k[1], ke |-> k[2]] : n \in 1..Len(jar), k \in Keys},
    UNION {{[t |-> "read", src |-> x, alt |-> "none", ks |-> k[1], ke |-> k[2]] : x \in Spliced(n), k \in {<<jar[n].ks, jar[n].ke>>}}
            : n \in {n \in 1..Len(jar) : jar[n].d = 0}},
    UNION {{[t |-> "read", src |-> Own(n), alt |-> a, ks |-> jar[n].ks, ke |-> jar[n].ke] : a \in Alts \ {"none"}}
            : n \in {n \in 1..Len(jar) : jar[n].d = 0}},
    {[t |-> "noname", src |-> Own(n)] : n \in 1..Len(jar)},
    UNION {{[t |-> "dget", src |-> Own(n), alt |-> a, d |-> d] : a \in Alts, d \in IF jar[n].d = 0 THEN {} ELSE {jar[n].d}} : n \in 1..Len(jar)},
    UNION {{[t |-> "dget", src |-> x, alt |-> "none", d |-> jar[n].d] : x \in Spliced(n)} : n \in {n \in 1..Len(jar) : jar[n].d # 0}},
    {[t |-> "dget", src |-> Own(n), alt |-> "none", d |-> d] : n \in {n \in 1..Len(jar) : jar[n].d # 0}, d \in Dealers} }
\* cookies of the same maker and form first: those are the ones that can be mixed up
Makes ==
  IF Len(jar) >= Max THEN {}
  ELSE {[t |-> "make", l |-> l, ts |-> ts, ks |-> ks, ke |-> ke] : l \in Loads, ts \in Times, ks \in Seeds,
          ke \in IF Wide \/ jar = <<>> THEN EKeys ELSE {0, 1}}
       \cup {[t |-> "deal", l |-> l, ty |-> ty, d |-> d] : l \in Loads, ty \in {1, 2}, d \in Dealers}

Events == Makes \cup Reads
Init == jar = <<>> /\ ev = [t |-> "init"]
Next == \E e \in Events : ev' = e /\ jar' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == jar
InBounds == Len(jar) <= Max

View == [n |-> Len(jar)]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = jar THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> jar, v |-> View, E |-> {Edge(e) : e \in Events}]))

----------------------------------------------------------------------------
\* C22: a value that is read was put into a cookie, under the keys used for
\* reading and with that protection, together with that time stamp
PropRead == [][ev'.t \in {"read", "dget"} =>
  LET r == Step(ev') IN (r.out = "ok") =>
     \E n \in 1..Len(jar) :
        /\ jar[n].l = r.res.l /\ jar[n].t = r.res.t
        /\ (ev'.t = "read") => (jar[n].ks = ev'.ks /\ jar[n].ke = ev'.ke)
        /\ (ev'.t = "dget") => (jar[n].ty = r.res.ty /\ jar[n].ks = DSeed(ev'.d))]_vars
\* ... and what was made can be read
InvRead == \A n \in 1..Len(jar) :
  LET g == Got(Parts(jar[n], n), "none", jar[n].ks, jar[n].ke) IN g.out = "ok" /\ g.res.l = jar[n].l /\ g.res.t = jar[n].t
=============================================================================
