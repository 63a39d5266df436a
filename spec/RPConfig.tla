------------------------------ MODULE RPConfig -----------------------------
(* A relying party made from a configuration: the same whichever form that   *)
(* is written in, with the domain and port it is to run at in all its URIs,  *)
(* and another one made from the same source, elsewhere, is independent.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus, Wide, Emit, Long
VARIABLES s, ev
vars == <<s, ev>>
----------------------------------------------------------------------------
(* The source: form, which class reads it (RPConfiguration itself; or         *)
(* Configuration that has one as a part, of the same or of a nested           *)
(* dictionary), domain and port in it (0 none), whether its certificates are  *)
(* not to be verified, whether it names a seed                                *)
Forms == {"dict", "json", "yaml", "py"}
Srcs == [form : Forms, cls : {"self", "flat", "path"}, dom : {0, 1}, port : {0, 1}, off : BOOLEAN]
\* two relying parties of it; what is said by argument
Ls == {1, 2}
Args == [dom : {0, 2, 3}, port : {0, 2, 3}]
None == [dom |-> -1, port |-> -1]
Start == [src |-> <<>>, at |-> [l \in Ls |-> None]]
The == s.src[1]
Where(a) == [dom |-> IF a.dom # 0 THEN a.dom ELSE The.dom, port |-> IF a.port # 0 THEN a.port ELSE The.port]
V == IF The.off THEN "off" ELSE "on"
----------------------------------------------------------------------------
No == [dom |-> -1, port |-> -1]
NoRes == [base |-> No, ru |-> No, pl |-> No, fc |-> No, bc |-> No, v |-> "", keys |-> 0]
R(t, out, res) == [s |-> t, out |-> out, res |-> res, wire |-> <<>>, aw |-> FALSE, touch |-> {}]
Step(e) ==
  CASE e.t = "write" -> R([s EXCEPT !.src = <<e.src>>], "ok", NoRes)
    [] e.t = "load" ->
         R([s EXCEPT !.at[e.l] = Where(e.a)], "ok", [NoRes EXCEPT !.base = Where(e.a)])
    [] e.t = "static" ->
         R(s, "ok", [NoRes EXCEPT !.ru = s.at[e.l], !.pl = s.at[e.l], !.v = V])
    [] e.t = "dyn" ->
         R(s, "ok",
           [NoRes EXCEPT !.ru = s.at[e.l], !.pl = s.at[e.l], !.fc = s.at[e.l], !.bc = s.at[e.l], !.v = V])
    [] e.t = "gen" ->
         R(s, "ok", [NoRes EXCEPT !.ru = s.at[e.l], !.v = V])
    \* whoever comes first makes the keys, whoever follows finds them
    [] e.t = "keys" -> R(s, "ok", [NoRes EXCEPT !.keys = 1])
Events ==
  IF s.src = <<>> THEN {[t |-> "write", src |-> x] : x \in Srcs} ELSE
  {[t |-> "load", l |-> l, a |-> a] : l \in {x \in Ls : s.at[x] = None}, a \in Args}
  \cup {[t |-> t, l |-> l] : t \in {"static", "dyn", "gen", "keys"}, l \in {x \in Ls : s.at[x] # None}}
Ok(e) == CASE e.t = "load" -> /\ e.l = 2 => s.at[1] # None
                              /\ e.l = 1 => (e.a.dom # 3 /\ e.a.port # 3)
                              /\ Wide \/ e.l = 1 \/ e.a \in {[dom |-> 3, port |-> 3], [dom |-> 0, port |-> 0]}
           [] OTHER -> TRUE

Init == s = Start /\ ev = [t |-> "init"]
Next == \E e \in {x \in Events : Ok(x)} : ev' = e /\ s' = Step(e).s
Spec == Init /\ [][Next]_vars
Hide == s
InBounds == TRUE
View == [x |-> 0]
Edge(e) == LET r == Step(e) IN
  [e |-> e, out |-> r.out, res |-> r.res, wire |-> r.wire, aw |-> r.aw, touch |-> r.touch,
   g |-> IF r.s = s THEN <<>> ELSE <<r.s>>]
ASSUME Emit => PrintT("@P" \o ToJson([x |-> 0]))
EmitState == Emit => PrintT("@E" \o ToJson([s |-> s, v |-> View, E |-> {Edge(e) : e \in {x \in Events : Ok(x)}}]))
----------------------------------------------------------------------------
PropC31 ==
  [][(ev'.t # "write") =>
     LET r == Step(ev')
         at == s'.at[ev'.l] IN
      \* what is said by argument comes first, then what the source says
      /\ (ev'.t = "load") => (\A f \in {"dom", "port"} : at[f] = IF ev'.a[f] # 0 THEN ev'.a[f] ELSE The[f])
      /\ \A f \in {"base", "ru", "pl", "fc", "bc"} : r.res[f] \in {No, at}
      /\ (ev'.t # "load") => at = s.at[ev'.l]
      \* form and class don't matter
      /\ \A x \in Srcs : (x.dom = The.dom /\ x.port = The.port /\ x.off = The.off /\ ev'.t = "load") =>
            at = [f \in {"dom", "port"} |-> IF ev'.a[f] # 0 THEN ev'.a[f] ELSE x[f]]
      \* certificates are verified unless the source says not to
      /\ (r.res.v = "off") => The.off
      /\ \A l \in Ls \ {ev'.l} : s'.at[l] = s.at[l]
     ]_vars
=============================================================================
