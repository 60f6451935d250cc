------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* How verdicts reach the user: the command line and the message of the    *)
(* WebAssembly entry point.  r is the sequence of outcomes of the lines of *)
(* a case (Pipeline.tla).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Place(e) == ToString(e.l) \o ":" \o ToString(e.c)

\* One line of standard error per cause.
CliLine(e) == "[line " \o Place(e) \o "] Error"
              \o (IF e.h THEN " at '" \o e.t \o "'" ELSE "") \o ": " \o e.m
LinesOf(r) == [j \in 1..Len(r.errs) |-> CliLine(r.errs[j])]

\* Standard output as a sequence of prompts (0) and programs of lines (their
\* number).  A session prompts for every line and once more at the end.
Shown(r, j) == IF r[j].by = "" THEN <<j>> ELSE <<>>
Cli(mode, r) ==
  [ status |-> IF mode = "file" /\ r[1].by # "" THEN 65 ELSE 0,
    out    |-> IF mode = "file" THEN Shown(r, 1)
               ELSE FlattenSeq([j \in 1..Len(r) |-> <<0>> \o Shown(r, j)]) \o <<0>>,
    err    |-> FlattenSeq([j \in 1..Len(r) |-> LinesOf(r[j])]) ]

\* The pieces of a thrown message, in order: place, text (if any), message.
Pieces(e) == <<Place(e)>> \o (IF e.h THEN <<e.t>> ELSE <<>>) \o <<e.m>>
Thrown(r) == [j \in 1..Len(r.errs) |-> Pieces(r.errs[j])]
=============================================================================
