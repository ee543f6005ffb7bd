------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* An object with two options that act in training (a, b) and one that     *)
(* shapes answers (predictive), built by one of three constructors, set,   *)
(* trained and asked in every order.  The object's own fields are followed *)
(* next to the options the caller believes it to have.                     *)
(* Resets: setting b writes the default of a.  Forgets: setting an option  *)
(* drops what was learned.  Live: what was learned is read through the     *)
(* options of today.  Stale: one constructor carries a default of its own. *)
(***************************************************************************)
\* ACTIONS MakeDefault MakeShort MakeFull Set Train Ask
EXTENDS Config
CONSTANTS Top, Steps, Resets, Forgets, Live, Stale
VARIABLES here,   \* the object: fields, fitted
          opts,   \* what the caller believes
          fit, data, said, steps
vars == <<here, opts, fit, data, said, steps>>
Defaults == [a |-> 1, b |-> 2, predictive |-> Off]
None == [a |-> -1, b |-> -1, predictive |-> -1]
Nobody == [made |-> FALSE, f |-> Defaults, learned |-> None, on |-> 0]
Init == here = Nobody /\ opts = None /\ fit = None /\ data = 0 /\ said = <<>> /\ steps = 0
Born(f) == [made |-> TRUE, f |-> f, learned |-> None, on |-> 0]
Fresh == ~here.made /\ fit' = None /\ data' = 0 /\ said' = <<>> /\ steps' = 0
MakeDefault == Fresh /\ here' = Born(Defaults) /\ opts' = Built(Defaults, <<>>)
MakeShort == /\ Fresh
             /\ \E x \in 0..Top : /\ here' = Born([a |-> x, b |-> IF Stale THEN 1 ELSE 2, predictive |-> Off])
                                  /\ opts' = Built(Defaults, [a |-> x])
MakeFull == /\ Fresh
            /\ \E x, y \in 0..Top : /\ here' = Born([a |-> x, b |-> y, predictive |-> Off])
                                    /\ opts' = Built(Defaults, [a |-> x, b |-> y])
Step == here.made /\ steps < Steps /\ steps' = steps + 1
Set == /\ Step
       /\ \E o \in DOMAIN Defaults : \E x \in (IF o = "predictive" THEN {Off, On} ELSE 0..Top) :
            /\ here' = [here EXCEPT !.f = IF Resets /\ o = "b" THEN [@ EXCEPT !.b = x, !.a = 1] ELSE [@ EXCEPT ![o] = x],
                                    !.learned = IF Forgets /\ o # "predictive" THEN None ELSE @,
                                    !.on = IF Forgets /\ o # "predictive" THEN 0 ELSE @]
            /\ opts' = With(opts, o, x)
       /\ said' = <<>> /\ UNCHANGED <<fit, data>>
Train == /\ Step
         /\ \E d \in 1..2 : here' = [here EXCEPT !.learned = here.f, !.on = d] /\ data' = d
         /\ fit' = opts /\ said' = <<>> /\ UNCHANGED opts
\* the answer is made of everything it may depend on
Ask == /\ Step
       /\ said' = <<[learned |-> IF Live /\ here.on # 0 THEN here.f ELSE here.learned, on |-> here.on, now |-> here.f]>>
       /\ UNCHANGED <<here, opts, fit, data>>
Next == MakeDefault \/ MakeShort \/ MakeFull \/ Set \/ Train \/ Ask
Spec == Init /\ [][Next]_vars
BehavesAsConfigured == said # <<>> => Twins(fit, data, opts, said[1].learned, said[1].on, said[1].now)
ShowsItsOptions == here.made => here.f = opts
=============================================================================
