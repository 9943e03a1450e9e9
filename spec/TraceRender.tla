------------------------------ MODULE TraceRender -----------------------------
(***************************************************************************)
(* Judges renderings by the code: LaTeX with white space as one blank,     *)
(* tables as cells without surrounding blanks.                             *)
(***************************************************************************)
EXTENDS Render, TraceBase
VARIABLES idx, verdict

KindOf(x) == x.what     \* "particle", "state", "chain", "other"
Trees(items) == [n \in DOMAIN items |-> items[n].tree]
Particles(items) == [n \in DOMAIN items |-> items[n].tree.p]

JudgeTable(ev) ==
  LET kind == TableKind({ ev.items[n].what : n \in DOMAIN ev.items })
      header == IF kind = "particles" THEN ParticleHeader(Particles(ev.items)) ELSE ChainHeader(Trees(ev.items))
      rows == IF kind = "particles" THEN ParticleTable(Particles(ev.items)) ELSE ChainTable(Trees(ev.items))
  IN IF kind = "refused" THEN Clause("table refused", ev.raised # "")
     ELSE IF ev.raised # "" THEN {"raised " \o ev.raised}
     ELSE Clause("whole lines", ev.whole)
          \cup Clause("header", Len(ev.lines) >= 2 /\ ev.lines[1] = header /\ ev.lines[2] = Dashes(header))
          \cup Clause("one row per item", Len(ev.lines) = 2 + Len(rows))
          \cup (IF Len(ev.lines) # 2 + Len(rows) THEN {}
                ELSE { "row of a " \o kind \o " table" : n \in { n \in DOMAIN rows : ~Fits(ev.lines[n + 2], rows[n]) } })

Judge(ev) ==
  CASE ev.kind = "table" -> JudgeTable(ev)
    [] ev.raised # "" -> {"raised " \o ev.raised}
    [] ev.kind = "tree" -> Clause("LaTeX", ev.latex = TreeLatex(ev.tree, ev.mode))
    [] ev.kind = "sequence" -> Clause("LaTeX of the sequence", ev.latex = SeqLatex(ev.trees, ev.mode))
    [] ev.kind = "line" -> Clause("LaTeX of the lineshape", ev.latex = LineLatex(ev.line))
    (* defined expression: its rows, with what each symbol and value is    *)
    [] ev.kind = "defined" ->
         Clause("one row per parameter", Len(ev.rows) = 1 + Len(ev.parameters))
         \cup (IF Len(ev.rows) # 1 + Len(ev.parameters) THEN {}
               ELSE Clause("expression", ev.rows[1] = IF ev.same THEN <<ev.expression>> ELSE <<ev.expression, ev.unfolded>>)
                    \cup Clause("parameters", \A n \in DOMAIN ev.parameters : ev.rows[n + 1] = ev.parameters[n]))
    [] ev.kind = "indexed" -> Clause("indices", ev.latex = ev.base \o "_{" \o ev.indices \o "}")

Init == idx \in 1..Len(Trace) /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ LET fails == Judge(Trace[idx])
           IN /\ Report(idx, fails)
              /\ verdict' = IF fails = {} THEN "accepted" ELSE "rejected"
        /\ UNCHANGED idx
================================================================================
