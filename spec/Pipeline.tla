------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The front end as a whole: a state machine that reads the lines of a     *)
(* session one after the other (a file is a session of one "line"), each   *)
(* through scanning, parsing and resolving, and keeps the globals.         *)
(*                                                                         *)
(* A case is [id, mode, lines]: mode "file", "repl" or "expr", and every   *)
(* line is [s, n] (clusters and repetition counts).                        *)
(*                                                                         *)
(* Fine = TRUE: one lexeme / top-level statement / scoping operation per   *)
(* step.  Fine = FALSE: one phase per step (for very long inputs).         *)
(***************************************************************************)
EXTENDS Resolver, Report

CONSTANTS Cases,        \* the set of cases
          Fine,         \* BOOLEAN
          Emits         \* BOOLEAN: write every finished case to a file in IOEnv.OUT

VARIABLES case,         \* the case under way
          ln,           \* number of the line under way
          ph,           \* "scan", "parse", "resolve", "next", "done"
          sc, ps, rs,   \* states of the three machines
          k,            \* operations resolved so far
          res           \* results of the lines handled so far
vars == <<case, ln, ph, sc, ps, rs, k, res>>

src   == case.lines[ln].s
cnt   == case.lines[ln].n
G     == Grammar(sc.toks, case.mode = "repl")
Ops   == ProgramOps(ps.out)

Init ==
  /\ case \in Cases
  /\ ln = 1 /\ ph = "scan" /\ k = 0 /\ res = <<>>
  /\ sc = ScanInit /\ ps = ParseInit /\ rs = ResInit(<<>>)

Scan ==
  /\ ph = "scan"
  /\ sc' = IF Fine THEN ScanStep(src, cnt, sc) ELSE ScanAll(src, cnt)
  /\ ph' = IF ~sc'.done THEN "scan" ELSE IF sc'.errs = <<>> THEN "parse" ELSE "next"
  /\ UNCHANGED <<case, ln, ps, rs, k, res>>

RECURSIVE ParseAll(_, _)
ParseAll(g, p) == IF p.done THEN p ELSE ParseAll(g, ParseStep(g, p))

Parse ==
  /\ ph = "parse"
  /\ ps' = IF case.mode = "expr" THEN ParseLone(G)
           ELSE IF Fine THEN ParseStep(G, ps) ELSE ParseAll(G, ps)
  /\ ph' = IF ~ps'.done THEN "parse"
           ELSE IF ps'.errs = <<>> /\ case.mode # "expr" THEN "resolve" ELSE "next"
  /\ UNCHANGED <<case, ln, sc, rs, k, res>>

Resolve ==
  /\ ph = "resolve"
  /\ LET ops == Ops IN
       IF Fine /\ k < Len(ops)
       THEN /\ rs' = ResStep(rs, ops[k + 1]) /\ k' = k + 1 /\ ph' = ph
       ELSE /\ rs' = IF Fine THEN rs ELSE FoldLeft(ResStep, rs, ops)
            /\ k' = k /\ ph' = "next"
  /\ UNCHANGED <<case, ln, sc, ps, res>>

\* What became of a line: tokens, tree, bindings and causes, and the phase
\* that rejected it ("" if it was accepted).
Outcome ==
  LET by == IF sc.errs # <<>> THEN "scan" ELSE IF ps.errs # <<>> THEN "parse"
            ELSE IF rs.errs # <<>> THEN "resolve" ELSE ""
  IN  [ by |-> by, toks |-> sc.toks,
        errs |-> sc.errs \o ps.errs \o rs.errs,
        ast  |-> IF ps.errs = <<>> THEN ps.out ELSE <<>>,
        bind |-> IF by = "" THEN rs.out ELSE <<>> ]

NextLine ==
  /\ ph = "next"
  /\ res' = Append(res, Outcome)
  /\ IF ln < Len(case.lines)
     THEN /\ ln' = ln + 1 /\ ph' = "scan"
          /\ sc' = ScanInit /\ ps' = ParseInit /\ k' = 0
          /\ rs' = ResInit(rs.sc[1])
     ELSE /\ ph' = "done" /\ UNCHANGED <<ln, sc, ps, rs, k>>
          /\ (Emits => JsonSerialize(IOEnv.OUT \o "/" \o case.id,
                 [id |-> case.id, mode |-> case.mode, lines |-> case.lines, res |-> res',
                  cli |-> Cli(case.mode, res')]))
  /\ UNCHANGED case

Next == Scan \/ Parse \/ Resolve \/ NextLine
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Design invariants, checked in every state of every case. *)

CountKind(ts, kind) == Len(SelectSeq(ts, LAMBDA t : t.k = kind))
\* Open blocks have strictly increasing, positive widths, and exactly the
\* Indents without an Outdent are open.
BlocksInv ==
  /\ \A j \in 1..Len(sc.ind) : sc.ind[j] > (IF j = 1 THEN 0 ELSE sc.ind[j - 1])
  /\ CountKind(sc.toks, "Indent") - CountKind(sc.toks, "Outdent") = Len(sc.ind)
\* The end closes all blocks and is marked by the only Eof.
EndInv == ph # "scan" => /\ sc.ind = <<>>
                         /\ Last(sc.toks).k = "Eof" /\ CountKind(sc.toks, "Eof") = 1
\* Tokens are located in reading order.
LeqLoc(l1, c1, l2, c2) == l1 < l2 \/ (l1 = l2 /\ c1 <= c2)
OrderInv == \A j \in 2..Len(sc.toks) :
  LeqLoc(sc.toks[j-1].l, sc.toks[j-1].c, sc.toks[j].l, sc.toks[j].c)
\* A rejected line has causes and no tree; an accepted one has no causes.
VerdictInv == \A r \in {res[j] : j \in 1..Len(res)} : (r.by = "") <=> (r.errs = <<>>)
\* Between top-level statements only the globals are open; slots are unique.
ScopeInv ==
  /\ Depth(rs) >= 1
  /\ (ph # "resolve" => Depth(rs) = 1 /\ rs.fn = <<>> /\ rs.cl = <<>> /\ ~rs.skip)
  /\ \A j \in 1..Depth(rs) : /\ Len(rs.sc[j]) <= MaxSlots
                             /\ Cardinality(Names(rs.sc[j])) = Len(rs.sc[j])
TypeInv == ph \in {"scan", "parse", "resolve", "next", "done"}
AllInv == TypeInv /\ BlocksInv /\ EndInv /\ OrderInv /\ VerdictInv /\ ScopeInv

\* Every step gets ahead (so every case ends), and globals only grow.
Progress == [][ \/ ph' # ph \/ ln' # ln \/ sc'.p > sc.p \/ ps'.i > ps.i \/ k' > k ]_vars
Globals(r) == [j \in 1..Len(r.sc[1]) |-> r.sc[1][j].x]
Stable == [][ IsPrefix(Globals(rs), Globals(rs')) ]_vars
=============================================================================
