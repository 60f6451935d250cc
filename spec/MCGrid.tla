------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Finite input spaces, enumerated completely by TLC.  A grid is a list of *)
(* slots, a slot a list of alternatives; a case takes one alternative of   *)
(* every slot.  In a grid of kind "text" the alternatives are cluster      *)
(* sequences and the text is their concatenation; in a grid of kind        *)
(* "session" every slot is one line.                                       *)
(***************************************************************************)
EXTENDS Lawful

Grids == JsonDeserialize(IOEnv.GRIDS)
IsFine == IOEnv.FINE = "1"
LawsUpTo == atoi(IOEnv.LAWS)

RECURSIVE Size(_, _)
Size(slots, i) == IF i > Len(slots) THEN 1 ELSE Len(slots[i]) * Size(slots, i + 1)
RECURSIVE Pick(_, _, _)
Pick(slots, i, q) ==
  IF i > Len(slots) THEN <<>>
  ELSE <<slots[i][(q % Len(slots[i])) + 1]>>
       \o Pick(slots, i + 1, q \div Len(slots[i]))
Line(s) == [s |-> s, n |-> Ones(s)]
GridCase(f, q) ==
  LET ch == Pick(f.slots, 1, q) IN
  [ id |-> f.id \o ":" \o ToString(q), mode |-> f.mode,
    lines |-> IF f.kind = "text" THEN <<Line(FlattenSeq(ch))>>
              ELSE [i \in 1..Len(ch) |-> Line(ch[i])] ]

GridInit ==
  /\ \E f \in 1..Len(Grids) : \E q \in 0..(Size(Grids[f].slots, 1) - 1) :
       case = GridCase(Grids[f], q)
  /\ ln = 1 /\ ph = "scan" /\ k = 0 /\ res = <<>>
  /\ sc = ScanInit /\ ps = ParseInit /\ rs = ResInit(<<>>)
GridSpec == GridInit /\ [][Next]_vars
=============================================================================
