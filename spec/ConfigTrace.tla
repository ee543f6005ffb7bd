---------------------------- MODULE ConfigTrace ----------------------------
(* Real objects, built by their shortest constructor, next to objects built *)
(* by the longest: the one whose options the specification expects must     *)
(* say the same.                                                            *)
EXTENDS Config, TraceRun
CStart(cs) == [class |-> "", opts |-> <<>>, fit |-> <<>>, data |-> 0]
CAfter(s, ev) ==
  CASE ev.op = "build" -> LET o == Built(Documented[ev.class], ev.given) IN [class |-> ev.class, opts |-> o, fit |-> o, data |-> 0]
    [] ev.op = "set" -> [s EXCEPT !.opts = With(@, ev.name, ev.value)]
    [] ev.op = "train" /\ ev.end = "ok" -> [s EXCEPT !.fit = s.opts, !.data = ev.data]
    [] OTHER -> s
Expected(s, ev) == {i \in DOMAIN ev.refs : Twins(s.fit, s.data, s.opts, ev.refs[i].fit, ev.refs[i].data, ev.refs[i].now)}
CBad(s, ev) ==
  CASE ev.op = "build" ->
         ClauseIf(ev.end = (IF Acceptable(ev.class, Built(Documented[ev.class], ev.given)) THEN "ok" ELSE "panic"), "builds-what-is-acceptable")
    [] ev.op = "set" -> ClauseIf(ev.name \in DOMAIN s.opts, "unknown-option")
    [] ev.op = "train" -> ClauseIf(ev.end \in {"ok", "err"}, "trains")
    [] ev.op = "read" -> ClauseIf(ev.name \in DOMAIN s.opts /\ ev.value = s.opts[ev.name], "shows-its-options")
    [] ev.op = "behave" ->
         IF ev.end = "panic" THEN {"behaves"}
         ELSE IF Expected(s, ev) = {} THEN {"no-reference"}
         ELSE ClauseIf(\A i \in Expected(s, ev) : ev.refs[i].says = ev.says, "behaves-as-configured")
    [] OTHER -> {"unknown-event"}
=============================================================================
