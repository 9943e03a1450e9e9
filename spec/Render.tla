-------------------------------- MODULE Render --------------------------------
(***************************************************************************)
(* How decays are shown in LaTeX and in Markdown tables.                   *)
(*                                                                         *)
(* Particle p: [name, latex, spin (doubled), parity (0 if unknown), mass   *)
(* and width in tenths of MeV, index (-1 if it is no state)].              *)
(* Tree: [kind |-> "particle", p] or [kind |-> "node", p, ls, one, two]    *)
(* with ls = <<>> or <<L, doubled S>>.  White space is one blank.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Even(n) == n % 2 = 0
HalfStr(n) == IF Even(n) THEN ToString(n \div 2) ELSE ToString(n) \o "/2"
SpinLatex(n) == IF Even(n) THEN ToString(n \div 2) ELSE "\\frac{" \o ToString(n) \o "}{2}"
Jp(p) == IF p.parity = 0 THEN "J=" \o SpinLatex(p.spin)
         ELSE SpinLatex(p.spin) \o "^" \o (IF p.parity < 0 THEN "-" ELSE "+")

Modes == {"plain", "with", "only", "both"}
ParticleLatex(p, mode) ==
  CASE mode = "plain" -> p.latex
    [] mode = "with" -> p.latex \o "\\left[" \o Jp(p) \o "\\right]"
    [] OTHER -> Jp(p)
IsState(p) == p.index >= 0
Arrow(ls) == IF ls = <<>> THEN "\\to" ELSE "\\xrightarrow[S=" \o HalfStr(ls[2]) \o "]{L=" \o ToString(ls[1]) \o "}"
RECURSIVE TreeLatex(_, _)
TreeLatex(t, mode) ==
  IF t.kind = "particle" THEN ParticleLatex(t.p, mode)
  ELSE LET body == ParticleLatex(t.p, mode) \o " " \o Arrow(t.ls) \o " " \o TreeLatex(t.one, mode) \o " " \o TreeLatex(t.two, mode)
       IN IF IsState(t.p) THEN body ELSE "\\left(" \o body \o "\\right)"
RECURSIVE Rows(_, _)
Rows(ts, mode) == IF ts = <<>> THEN "" ELSE TreeLatex(Head(ts), mode) \o " \\\\ " \o Rows(Tail(ts), mode)
SeqLatex(ts, mode) == "\\begin{array}{c} " \o Rows(ts, mode) \o "\\end{array}"

(* a chain is a tree of a state to a resonance with two states and a state *)
Isobar(t) == IF t.one.kind = "node" THEN t.one ELSE t.two

(* lineshapes: their invariant, mass, width(s), angular momenta in LaTeX   *)
RECURSIVE Commaed(_)
Commaed(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Commaed(Tail(s))
Call(f, args) == f \o "\\left(" \o args \o "\\right)"
LineLatex(x) ==
  LET swp == x.s \o "; " \o x.mass \o ", " \o Head(x.widths)
      swc == x.s \o ", " \o x.mass \o ", " \o Head(x.widths)
  IN CASE x.type = "BreitWigner" ->
            Call("\\mathcal{R}^\\mathrm{BW}_{" \o (IF x.numeric THEN "L=" ELSE "") \o Head(x.ls) \o "}", swp)
       [] x.type = "SimpleBreitWigner" -> Call("\\mathcal{R}^\\mathrm{BW}", swp)
       [] x.type = "RelativisticBreitWigner" -> Call("\\mathcal{R}_{" \o Head(x.ls) \o "}", swc)
       [] x.type = "BreitWignerMinL" -> Call("\\mathcal{R}^\\mathrm{BW}_{" \o x.ls[1] \o "," \o x.ls[2] \o "}", x.s)
       [] x.type = "BuggBreitWigner" -> Call("\\mathcal{R}^\\mathrm{Bugg}", x.s)
       [] x.type = "FlatteSWave" -> Call("\\mathcal{R}^\\mathrm{Flatte}", x.s)
       [] x.type = "ChannelArguments" -> Call("\\Gamma^\\text{channel}", swc)
       [] x.type = "MultichannelBreitWigner" ->
            Call("\\mathcal{R}^\\mathrm{BW}_\\mathrm{multi}", x.s \o "; " \o Commaed(x.widths))

(* numbers in MeV: to the nearest whole number, both at a half, with       *)
(* commas at the thousands                                                 *)
Nearest(m) == { n \in { m \div 10, m \div 10 + 1 } : (10 * n - m) \in -5..5 }
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Commas(_)
Commas(n) == IF n < 1000 THEN ToString(n) ELSE Commas(n \div 1000) \o "," \o Pad3(n % 1000)
MeV(m) == { Commas(n) : n \in Nearest(m) }

(* tables: a header, a line of dashes, and rows of sets of allowed cells   *)
AnyState(items) == \E n \in DOMAIN items : IsState(items[n])
ParticleHeader(items) == (IF AnyState(items) THEN <<"index">> ELSE <<>>)
                         \o <<"name", "LaTeX", "$J^P$", "mass (MeV)", "width (MeV)">>
ParticleRow(p, index) ==
  (IF index THEN << {IF IsState(p) THEN ToString(p.index) ELSE ""} >> ELSE <<>>)
  \o << {"`" \o p.name \o "`"}, {"$" \o p.latex \o "$"}, {"$" \o Jp(p) \o "$"}, MeV(p.mass), MeV(p.width) >>
ParticleTable(items) == [n \in DOMAIN items |-> ParticleRow(items[n], AnyState(items))]

HasDecayLS(ts) == \E n \in DOMAIN ts : Isobar(ts[n]).ls # <<>>
HasProdLS(ts)  == \E n \in DOMAIN ts : ts[n].ls # <<>>
ChainHeader(ts) == <<"resonance", "$J^P$", "mass (MeV)", "width (MeV)">>
                   \o (IF HasDecayLS(ts) THEN <<"$L_\\mathrm{dec}^\\mathrm{min}$">> ELSE <<>>)
                   \o (IF HasProdLS(ts) THEN <<"$L_\\mathrm{prod}^\\mathrm{min}$">> ELSE <<>>)
LCell(ls) == {IF ls = <<>> THEN "" ELSE ToString(ls[1])}
ChainRow(t, dec, prod) ==
  LET i == Isobar(t) IN
  << {"$" \o i.p.latex \o " \\to " \o i.one.p.latex \o " " \o i.two.p.latex \o "$"}, {"$" \o Jp(i.p) \o "$"}, MeV(i.p.mass), MeV(i.p.width) >>
  \o (IF dec THEN << LCell(i.ls) >> ELSE <<>>) \o (IF prod THEN << LCell(t.ls) >> ELSE <<>>)
ChainTable(ts) == [n \in DOMAIN ts |-> ChainRow(ts[n], HasDecayLS(ts), HasProdLS(ts))]

Dashes(header) == [n \in DOMAIN header |-> "---"]
Fits(cells, row) == Len(cells) = Len(row) /\ \A n \in DOMAIN row : cells[n] \in row[n]

(* which sequences have a table; kinds: of their items                     *)
TableKind(kinds) == IF kinds = {} THEN "refused"
                    ELSE IF kinds \subseteq {"particle", "state"} THEN "particles"
                    ELSE IF kinds = {"chain"} THEN "chains" ELSE "refused"
=============================================================================
