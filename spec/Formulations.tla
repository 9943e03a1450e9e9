---------------------------- MODULE Formulations ----------------------------
(***************************************************************************)
(* Builders and the models they formulate, as a state machine.  Several    *)
(* builders describe the same decay (plain, all subsystems, other order of *)
(* chains, other order of states), others describe a second decay whose    *)
(* particles have the same names; a model is formulated with options, and  *)
(* the user may change a model that was formulated.                        *)
(*                                                                         *)
(* What is formulated is a function of builder and options alone: it does  *)
(* not depend on the history, and formulating changes neither builder nor  *)
(* earlier models.  The value of the intensity does not even depend on     *)
(* the builder nor on the clean-up of summations, only on the decay.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Builders, Refs, Depth

Options == [b : Builders, ref : Refs, cleanup : BOOLEAN, coef : BOOLEAN]
(* the part of the options that the value of the intensity depends on *)
DecayOf(b) == IF b <= 4 THEN 1 ELSE 2
ValueKey(o) == <<DecayOf(o.b), o.ref, o.coef>>

VARIABLES made,     \* sequence of options formulated so far
          edited,   \* positions of the models that the user changed
          log,      \* all steps
          model,    \* options -> identity of the model
          value     \* value key -> value of the intensity

vars == <<made, edited, log, model, value>>

TypeOK == /\ made \in Seq(Options)
          /\ edited \subseteq DOMAIN made
          /\ DOMAIN model = { made[n] : n \in DOMAIN made }
          /\ DOMAIN value = { ValueKey(o) : o \in DOMAIN model }

Init == made = <<>> /\ edited = {} /\ log = <<>> /\ model = <<>> /\ value = <<>>

(* formulate with options o: the result is model number id, its intensity  *)
(* has value v                                                             *)
Formulate(o, id, v) ==
  /\ o \in DOMAIN model => id = model[o]
  /\ ValueKey(o) \in DOMAIN value => v = value[ValueKey(o)]
  /\ made' = Append(made, o)
  /\ UNCHANGED edited
  /\ model' = (o :> id) @@ model
  /\ value' = (ValueKey(o) :> v) @@ value

(* the user changes what the n-th model consists of: nothing else changes  *)
Edit(n) == edited' = edited \cup {n} /\ UNCHANGED <<made, model, value>>

(* Histories for the conformance check: identities are abstract.  Every     *)
(* second formulation repeats an earlier one or varies it by neutral        *)
(* options.                                                                 *)
GenFormulate ==
  /\ Len(made) < Depth
  /\ \E o \in Options :
       /\ Len(made) % 4 = 1 => \E n \in DOMAIN made : ValueKey(o) = ValueKey(made[n])
       /\ Len(made) % 4 = 3 => \E n \in DOMAIN made : n # Len(made) /\ o = made[n]
       /\ Formulate(o, o, ValueKey(o))
       /\ log' = Append(log, [op |-> "formulate", n |-> 0] @@ o)
GenEdit ==
  /\ Len(made) < Depth
  /\ \E n \in DOMAIN made \ edited : Edit(n) /\ log' = Append(log, [op |-> "edit", n |-> n])
GenNext == \/ GenFormulate /\ (Len(made') = Depth => PrintT("HISTORY " \o ToJson(log')))
           \/ GenEdit
HistoryIndependent == \A o \in DOMAIN model : model[o] = o /\ value[ValueKey(o)] = ValueKey(o)
============================================================================
