------------------------------- MODULE RPConn ------------------------------
(* How the relying party talks to others: every connection is made the way   *)
(* the handler was told to, what a server says about going elsewhere is not  *)
(* obeyed, and what a server left with the relying party (a cookie) is for   *)
(* that server only.  Two handlers with different settings in one process.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
Hs == {"A", "B"}
\* "dyn": found by web finger, registers there; "stat": all configured, pushes
\* its authorization requests
Ps == {"dyn", "stat"}
(* def: nothing said; off: do not verify; ca: verify by this CA; cert: use    *)
(* this client certificate; both; own: nothing said but the key jar handed    *)
(* over has its own CA for fetching keys; proxy; lib: an HTTP library object  *)
(* with a CA of its own                                                      *)
Confs == {"def", "off", "ca", "cert", "both", "own", "proxy", "lib"}
L(v, c, p) == [v |-> v, c |-> c, p |-> p]
Label(conf) ==
  CASE conf = "off"   -> L("off", FALSE, FALSE)
    [] conf = "ca"    -> L("ca", FALSE, FALSE)
    [] conf = "cert"  -> L("on", TRUE, FALSE)
    [] conf = "both"  -> L("ca", TRUE, FALSE)
    [] conf = "proxy" -> L("on", FALSE, TRUE)
    [] conf = "lib"   -> L("ca", FALSE, FALSE)
    [] OTHER          -> L("on", FALSE, FALSE)
\* for fetching keys
Keys(conf) == IF conf = "own" THEN L("own", FALSE, FALSE) ELSE Label(conf)
----------------------------------------------------------------------------
NoRes == [jw |-> <<>>]
R(t, out, res, w) == [s |-> t, out |-> out, res |-> res, wire |-> w, aw |-> FALSE, touch |-> {}]
Req(h, k) == [k |-> k, l |-> Label(s.conf[h]), ck |-> ""]
\* what is asked for, in this order
Asks(e) ==
  CASE e.t = "enter"   -> IF e.p = "stat" THEN <<"par">>
                          ELSE (IF e.by = "user" THEN <<"webfinger">> ELSE <<>>)
                               \o IF s.st[e.h][e.p] = "0" THEN <<"discovery", "registration">> ELSE <<>>
    [] e.t = "finish"  -> IF e.p = "dyn" THEN <<"token", "userinfo", "source">> ELSE <<"token", "userinfo">>
    [] e.t = "refresh" -> <<"token">>
    [] e.t = "regread" -> <<"read">>
    [] OTHER           -> <<>>
To(e, st) == [s EXCEPT !.st[e.h][e.p] = st]
Done(e) == CASE e.t = "enter" -> To(e, "begun") [] e.t = "finish" -> To(e, "in") [] OTHER -> s
\* one of the answers says: go elsewhere
Gone(e) ==
  CASE e.t = "enter" -> IF Asks(e)[e.red] = "registration" THEN To(e, "x")
                        ELSE s
    [] e.t = "finish" -> To(e, "over")
    [] OTHER -> s
Step(e) ==
  CASE e.t = "set" -> R([s EXCEPT !.conf[e.h] = e.conf, !.share = e.share], "ok", NoRes, <<>>)
    [] OTHER ->
       LET a == Asks(e)
           n == IF e.red = 0 THEN Len(a) ELSE e.red
           w == [i \in 1..n |-> Req(e.h, a[i])]
           res == [jw |-> IF s.conf[e.h] = "lib" THEN <<L("on", FALSE, FALSE), L("ca", FALSE, FALSE)>>
                          ELSE <<Keys(s.conf[e.h])>>]
       IN IF e.red = 0 THEN R(Done(e), "ok", res, w) ELSE R(Gone(e), "fail", res, w)
----------------------------------------------------------------------------
On(h) == s.conf[h] # ""
Acts ==
  {[t |-> "enter", h |-> h, p |-> p, by |-> b, red |-> 0, rot |-> FALSE] : h \in Hs, p \in Ps, b \in {"user", "name"}}
  \cup {[t |-> t, h |-> h, p |-> p, by |-> "", red |-> 0, rot |-> r] : t \in {"finish", "refresh", "regread"}, h \in Hs, p \in Ps,
                                                                     r \in BOOLEAN}
May(e) ==
  /\ On(e.h)
  /\ s.st[e.h][e.p] # "x"
  /\ e.t = "enter" => (e.p = "stat" => e.by = "name")
  /\ e.t = "finish" => s.st[e.h][e.p] = "begun"
  /\ e.t = "refresh" => (s.st[e.h][e.p] = "in" /\ ~e.rot)
  /\ e.t = "regread" => (e.p = "dyn" /\ s.st[e.h]["dyn"] \notin {"0", "x"} /\ ~e.rot)
Reds(e) == {[e EXCEPT !.red = i] : i \in 0..Len(Asks(e))}
Events ==
  {[t |-> "set", h |-> h, conf |-> c, share |-> sh] : h \in {x \in Hs : ~On(x)}, c \in Confs, sh \in BOOLEAN}
  \cup UNION {Reds(e) : e \in {x \in Acts : May(x)}}
\* A is set up first; sharing the key jar is for B to decide, and makes sense
\* only if A's has no settings of its own
Ok(e) == /\ e.t = "set" => CASE e.h = "A" -> ~e.share
                             [] OTHER -> On("A") /\ (e.share => (e.conf # "own" /\ s.conf["A"] # "own"))
                                             /\ (Wide \/ e.conf \in {"def", "off", "both"})

Init == s = [conf |-> [h \in Hs |-> ""], share |-> FALSE, st |-> [h \in Hs |-> [p \in Ps |-> "0"]]] /\ ev = [t |-> "init"]
Next == \E e \in {x \in Events : Ok(x)} : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == [x |-> 0]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in {x \in Events : Ok(x)}}]))
----------------------------------------------------------------------------
PropC30 ==
  [][(ev'.t # "set") =>
     LET r == Step(ev') IN
      \* as this handler was told, for each and every request
      /\ \A i \in 1..Len(r.wire) : r.wire[i].l = Label(s.conf[ev'.h]) /\ r.wire[i].ck = ""
      /\ \A i \in 1..Len(r.res.jw) : r.res.jw[i].c = Label(s.conf[ev'.h]).c
      /\ (s.conf[ev'.h] # "off") => \A i \in 1..Len(r.wire) : r.wire[i].l.v # "off"
      \* who is sent elsewhere doesn't go there
      /\ (ev'.red # 0) => (r.out = "fail" /\ Len(r.wire) = ev'.red)
      \* the other handler is as it was
      /\ \A h \in Hs \ {ev'.h} : s'.st[h] = s.st[h] /\ s'.conf[h] = s.conf[h]
     ]_vars
=============================================================================
