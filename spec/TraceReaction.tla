---------------------------- MODULE TraceReaction -----------------------------
(***************************************************************************)
(* Checks recorded operations on reactions against module Reaction.  Each  *)
(* event has the transitions before (pre) and after (post) the operation,  *)
(* as sequences.                                                           *)
(***************************************************************************)
EXTENDS Reaction, TraceBase

VARIABLES idx, verdict

Pre(e) == SeqSet(e.pre)
Post(e) == SeqSet(e.post)
Once(s) == Cardinality(SeqSet(s)) = Len(s)
RECURSIVE SumOver(_, _)
SumOver(s, n) == IF n = 0 THEN 0 ELSE Cardinality(Permuted(s[n])) + SumOver(s, n - 1)
V(e) == SeqSet(e.arg.nodes)

Compare(name, got, expected) ==
  { name \o ": missing" : t \in expected \ got } \cup { name \o ": unexpected" : t \in got \ expected }

Sequence(e, expected) == \* one result for each transition, in order, unless the container sorts
  IF e.sorts THEN SeqSet(e.post) = SeqSet(expected) /\ Len(e.post) = Len(expected) ELSE e.post = expected

Expected(e) ==
  CASE e.op = "normalise" -> { Normal(t) : t \in Pre(e) }
    [] e.op = "permute"   -> PermutedAll(Pre(e))
    [] e.op = "convert"   -> { Converted(t) : t \in Pre(e) }
    [] e.op = "filter"    -> Filtered(Pre(e), V(e))

JudgeOp(e) ==
  IF e.raised # "" THEN {e.op \o " raised " \o e.raised} ELSE
  Compare(e.op, Post(e), Expected(e))
  \cup Clause(e.op \o ": input changed", e.kept)
  \cup Clause(e.op \o ": type of the result", e.typed)
  \cup (CASE e.op = "normalise" -> Clause("one result for each transition", Sequence(e, [n \in DOMAIN e.pre |-> Normal(e.pre[n])]))
          [] e.op = "permute"   -> Clause("each permutation once", Len(e.post) = SumOver(e.pre, Len(e.pre)))
          [] OTHER              -> Clause(e.op \o ": repeated results", Once(e.post)))

JudgeDecay(e) ==
  IF e.raised # "" THEN {"decay raised " \o e.raised} ELSE
  LET first == Converted(Normal(e.pre[1]))
      keyed == { [key |-> st.id, st |-> st] : st \in DecayStates(first) }
  IN Compare("states", SeqSet(e.states), keyed)
     \cup Compare("chains", SeqSet(e.chains), DecayChains(Pre(e), e.arg.select, V(e)))
     \cup Clause("repeated chains", Once(e.chains))
     \cup Clause("states of the chains", e.same)
     \cup Clause("decay: input changed", e.kept)

(* renumbering of any topology *)
JudgeTopology(e) ==
  IF e.raised # "" THEN {"topology raised " \o e.raised} ELSE
  Compare("topology", Post(e), NormalEdges(Pre(e)))
  \cup Clause("topology: idempotent", NormalEdges(Post(e)) = Post(e) /\ SeqSet(e.again) = Post(e))
  \cup Clause("topology: nodes", e.nodes)

Fails(e) == CASE e.kind = "op"       -> JudgeOp(e)
              [] e.kind = "decay"    -> JudgeDecay(e)
              [] e.kind = "topology" -> JudgeTopology(e)
              [] e.kind = "refuse"   -> Clause("accepted: " \o e.what, e.raised # "")

Init == /\ idx \in 1..Len(Trace) /\ verdict = FALSE
Next == /\ ~verdict /\ Report(idx, Fails(Trace[idx])) /\ verdict' = TRUE /\ UNCHANGED idx
================================================================================
