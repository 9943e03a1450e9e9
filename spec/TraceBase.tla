------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading recorded observations and reporting verdicts.  A trace file has *)
(* one JSON object per line.  A verdict is the set of the names of the     *)
(* clauses that the observation violates; it is always reported, so that   *)
(* the checker knows that every line has been judged.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Report(n, fails) == PrintT("JUDGE " \o ToJson([i |-> n, fails |-> fails]))

(* a named clause: empty if it holds *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
SeqSet(s) == { s[n] : n \in DOMAIN s }
============================================================================
