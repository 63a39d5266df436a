------------------------------ MODULE RPCoreSim -----------------------------
(* Long random histories of RPCore, for the simulator: every step is printed *)
(* with its result and what can be seen afterwards.                          *)
EXTENDS RPCoreMC, Randomization

VARIABLE r
Some == [out |-> "ok", res |-> NoRes, wire |-> <<>>, aw |-> FALSE, touch |-> {}]

Other(c) ==
  CASE c = 1 -> EvC01 [] c = 2 -> EvC02 [] c = 3 -> EvC03 [] c = 4 -> EvC04 [] c = 5 -> EvC05
    [] c = 6 -> EvC07 [] c = 7 -> EvC08 [] c = 8 -> EvC09 [] c = 9 -> EvC10 [] c = 10 -> EvC11
    [] c = 11 -> EvC12 [] c = 12 -> EvC13 [] OTHER -> EvC21

Good == {GoodFin(i, u) : i \in {j \in Opened : s.S[j].k = 0}, u \in SUBS}

Choice(c, d) ==
  LET N == IF Len(s.S) < MaxSess THEN {b \in Begins : OKBegin(b)} ELSE {} IN
  CASE c <= 2 /\ N # {} -> N
    [] c \in {3, 4} /\ Good # {} -> Good
    [] c = 5 -> Other(d)
    [] c = 6 /\ s.S # <<>> -> {Reload}
    [] OTHER -> Focused

SimInit == Init /\ r = Some
SimNext ==
  \* (a constant expression would be evaluated only once)
  \E c \in {RandomElement(1..(14 + 0 * s.clk))} : \E d \in {RandomElement(1..(13 + 0 * s.clk))} :
    \E E \in {Choice(c, d)} :
      \E e \in {IF E = {} THEN (IF Len(s.S) < MaxSess THEN RandomElement({b \in Begins : OKBegin(b)}) ELSE Reload) ELSE RandomElement(E)} :
        LET x == Step(s, e) IN
          /\ ev' = e /\ s' = x.s
          /\ r' = [out |-> x.out, res |-> x.res, wire |-> x.wire, aw |-> x.aw, touch |-> x.touch]
SimSpec == SimInit /\ [][SimNext]_<<s, ev, r>>

EmitStep ==
  (Emit /\ TLCGet("level") > 1) =>
    PrintT("@S" \o ToJson([l |-> TLCGet("level"), e |-> ev, out |-> r.out, res |-> r.res, wire |-> r.wire,
                          aw |-> r.aw, touch |-> r.touch, v |-> View(s)]))
ASSUME Emit => PrintT("@I" \o ToJson(View(Init0(Profiles, SUBS, SIDS))))
=============================================================================
