---------------------------- MODULE Registration -----------------------------
(***************************************************************************)
(* Registering lineshapes, as a state machine.  A decay has chains 1..N    *)
(* with resonance names; two amplitude builders of the same decay each     *)
(* have their own registry.  A lineshape is registered or looked up by     *)
(* name (the first chain with it), by chain, or by something that does not *)
(* identify a chain, which is refused without effect.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,         \* number of chains
          NameSet,   \* names that resonances can have
          Shapes,    \* lineshapes; 0 stands for none
          Depth

VARIABLES names,     \* name of the resonance of each chain
          reg,       \* builder -> chain -> lineshape last registered, or 0
          hist       \* sequence of actions

vars == <<names, reg, hist>>

Chains   == 1..N
Builders == {1, 2}
Unknown  == "nobody"
Ids == [by : {"name"}, name : NameSet \cup {Unknown}, chain : {0}]
       \cup [by : {"chain"}, name : {""}, chain : Chains]
       \cup [by : {"foreign chain", "number"}, name : {""}, chain : {0}]

(* the chain that an identifier means, or 0 *)
Resolve(nm, id) ==
  IF id.by = "chain" THEN id.chain
  ELSE IF id.by = "name" /\ \E c \in Chains : nm[c] = id.name
  THEN CHOOSE c \in Chains : nm[c] = id.name /\ \A d \in Chains : nm[d] = id.name => c <= d
  ELSE 0

(* names up to renaming: a name is used only after the one before it *)
Init == /\ names \in [Chains -> NameSet]
        /\ reg = [b \in Builders |-> [c \in Chains |-> 0]]
        /\ hist = <<>>

Register(b, id, shape) ==
  LET c == Resolve(names, id) IN
  /\ reg' = IF c = 0 THEN reg ELSE [reg EXCEPT ![b][c] = shape]
  /\ UNCHANGED names
Observe == UNCHANGED <<names, reg>>      \* looking up and formulating

Record(act) == hist' = Append(hist, act)
Act(op, b, id, shape) == [op |-> op, on |-> b, id |-> id, shape |-> shape]
NoId == [by |-> "", name |-> "", chain |-> 0]

Next ==
  /\ Len(hist) < Depth
  /\ \E b \in Builders :
       \/ \E id \in Ids, shape \in Shapes \ {0} :
             Register(b, id, shape) /\ Record(Act("register", b, id, shape))
       \/ \E id \in Ids : Observe /\ Record(Act("get", b, id, 0))
       \/ Observe /\ Record(Act("formulate", b, NoId, 0))

(* Generation: registrations on the first builder prevail, every third     *)
(* step formulates.                                                        *)
GenNext ==
  /\ Next
  /\ (Len(hist') % 3 = 0) = (hist'[Len(hist')].op = "formulate")
  /\ Len(hist') % 4 # 1 => hist'[Len(hist')].on = 1
  /\ Len(hist') = Depth => PrintT("HISTORY " \o ToJson([names |-> names, steps |-> hist']))

(* the registry is what the last registration for each chain says *)
Concerning(b, c) == { n \in DOMAIN hist : hist[n].op = "register" /\ hist[n].on = b /\ Resolve(names, hist[n].id) = c }
LastWins ==
  \A b \in Builders, c \in Chains :
    reg[b][c] = IF Concerning(b, c) = {} THEN 0
                ELSE hist[CHOOSE n \in Concerning(b, c) : \A q \in Concerning(b, c) : q <= n].shape
(* a chain is only reached by its name if no earlier chain has it *)
FirstOnly == \A c \in Chains : Resolve(names, [by |-> "name", name |-> names[c], chain |-> 0]) = c
                               <=> \A d \in 1..(c - 1) : names[d] # names[c]
Holds == LastWins /\ FirstOnly
==============================================================================
