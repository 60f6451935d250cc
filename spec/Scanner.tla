------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The scanner of jtran/whitespace as a state machine.                     *)
(*                                                                         *)
(* The input is a sequence s of grapheme clusters (strings); n[i] >= 1     *)
(* says how often s[i] is repeated (1 except in inputs that probe very     *)
(* long lines, texts, words and indentations).  One step of the machine    *)
(* consumes one lexeme, exactly as one call of the code's scan_token does; *)
(* a last step (EndOfText) closes open blocks.                             *)
(*                                                                         *)
(* State (one record):                                                     *)
(*   p     next cluster          line, col  position of s[p]               *)
(*   ind   stack of the widths of open indented blocks                     *)
(*   bsp   spaces seen at the beginning of this line                       *)
(*   bol   only spaces (or a comment) seen on this line so far             *)
(*   foll  the last token asks for the line to be continued                *)
(*   cont  this line continues the previous one                            *)
(*   abut  s[p-1] was not blank                                            *)
(*   toks, errs   what has been emitted                                    *)
(*   done  the end has been handled                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Functions, Chars

Max16 == 65535
Sat(x) == IF x > Max16 THEN Max16 ELSE x

Tok(k, x, l, c, v) == [k |-> k, x |-> x, l |-> l, c |-> c, v |-> v]
\* An error cause.  h: does it carry the text of a token (t)?
Err(l, c, m)       == [l |-> l, c |-> c, h |-> FALSE, t |-> "", m |-> m]
ErrAt(l, c, t, m)  == [l |-> l, c |-> c, h |-> TRUE,  t |-> t,  m |-> m]

ScanInit ==
  [ p |-> 1, line |-> 1, col |-> 1, ind |-> <<>>, bsp |-> 0, bol |-> TRUE,
    foll |-> FALSE, cont |-> FALSE, abut |-> FALSE,
    toks |-> <<>>, errs |-> <<>>, done |-> FALSE ]

RECURSIVE Rep(_, _)
Rep(c, k) == IF k = 1 THEN c
             ELSE LET h == Rep(c, k \div 2)
                  IN  IF k % 2 = 0 THEN h \o h ELSE h \o h \o c

\* The text s[i..j], with repetitions.
RECURSIVE Text(_, _, _, _)
Text(s, n, i, j) ==
  IF i > j THEN ""
  ELSE IF i = j THEN (IF n[i] = 1 THEN s[i] ELSE Rep(s[i], n[i]))
  ELSE LET m == (i + j) \div 2 IN Text(s, n, i, m) \o Text(s, n, m + 1, j)

RECURSIVE SumN(_, _, _)
SumN(n, i, j) == IF i > j THEN 0
                 ELSE IF i = j THEN n[i]
                 ELSE LET m == (i + j) \div 2 IN SumN(n, i, m) + SumN(n, m + 1, j)

\* The end (exclusive) of the run of clusters satisfying P that starts at i.
RECURSIVE RunEnd(_, _, _)
RunEnd(P(_), s, i) == IF i <= Len(s) /\ P(s[i]) THEN RunEnd(P, s, i + 1) ELSE i

At(s, i, c) == i <= Len(s) /\ s[i] = c

---------------------------------------------------------------------------
(* Pieces of a step *)

EmitAt(st, k, x, v, l, c) == [st EXCEPT !.toks = Append(@, Tok(k, x, l, c, v))]
Emit(st, k, x, v) == EmitAt(st, k, x, v, st.line, st.col)
Complain(st, l, c, m) == [st EXCEPT !.errs = Append(@, Err(l, c, m))]

RECURSIVE EmitN(_, _, _, _)
EmitN(st, k, x, i) == IF i = 0 THEN st ELSE EmitN(Emit(st, k, x, ""), k, x, i - 1)

\* The first token of a line compares the line's indentation with the open
\* blocks.  c is the first cluster of that token.
LineStart(st, c) ==
  IF ~st.bol THEN st
  ELSE
    LET top  == IF st.ind = <<>> THEN 0 ELSE Last(st.ind)
        b    == st.bsp
        keep == SelectSeq(st.ind, LAMBDA w : w <= b)
        outs == EmitN([st EXCEPT !.bol = FALSE, !.ind = keep],
                      "Outdent", c, Len(st.ind) - Len(keep))
        hit  == b = 0 \/ (keep # <<>> /\ Last(keep) = b)
    IN  IF b = top THEN [st EXCEPT !.bol = FALSE]
        ELSE IF b > top
        THEN IF st.cont THEN [st EXCEPT !.bol = FALSE]
             ELSE Emit([st EXCEPT !.bol = FALSE, !.ind = Append(@, b)],
                       "Indent", c, "")
        ELSE IF hit THEN outs
             ELSE Complain(outs, st.line, st.col,
                    "Outdent does not match any previous indentation level")

\* After s[p] = line end (k of them): a new line begins.
NewLine(st, k) ==
  [st EXCEPT !.line = @ + k, !.col = 1, !.bsp = 0, !.bol = TRUE,
             !.cont = IF st.bol THEN @ ELSE st.foll,
             !.foll = IF st.bol THEN @ ELSE FALSE]

\* Move over s[p..q-1], all on one line.
Skip(st, n, q) == [st EXCEPT !.p = q, !.col = Sat(@ + SumN(n, st.p, q - 1))]

\* A token that is not blank: what follows abuts it.
After(st, f) == [st EXCEPT !.abut = TRUE, !.foll = f]

---------------------------------------------------------------------------
(* The actions *)

IsSpace(s, st)     == s[st.p] = " "
Space(s, n, st) ==
  [Skip(st, n, st.p + 1) EXCEPT
     !.bsp = IF st.bol THEN Sat(@ + n[st.p]) ELSE @, !.abut = FALSE]

IsTab(s, st)       == s[st.p] = "\t"
Tab(s, n, st) ==
  [Skip(Complain(st, st.line, st.col,
          "Illegal tab character; all whitespace must be spaces"), n, st.p + 1)
     EXCEPT !.abut = FALSE]

IsReturn(s, st)    == s[st.p] = CR
CarriageReturn(s, n, st) == [Skip(st, n, st.p + 1) EXCEPT !.abut = FALSE]

IsLineEnd(s, st)   == s[st.p] \in LineEnds
LineEnd(s, n, st) ==
  LET st1 == IF ~st.bol /\ ~st.foll THEN Emit(st, "Terminator", s[st.p], "")
             ELSE st
  IN  [NewLine(st1, n[st.p]) EXCEPT !.p = st.p + 1, !.abut = FALSE]

IsComment(s, st)   == s[st.p] = "/" /\ At(s, st.p + 1, "/")
Comment(s, n, st) ==
  LET q == RunEnd(LAMBDA c : c \notin LineEnds, s, st.p)
  IN  [Skip(st, n, q) EXCEPT !.abut = TRUE]

IsBackslash(s, st) == s[st.p] = "\\"
Backslash(s, n, st) ==
  LET a == RunEnd(LAMBDA c : c = " ", s, st.p + 1)
      b == IF At(s, a, CR) THEN a + 1 ELSE a
  IN  IF b <= Len(s) /\ s[b] \in LineEnds
      THEN [NewLine(st, n[b]) EXCEPT !.p = b + 1, !.cont = TRUE, !.abut = FALSE]
      ELSE [Skip(Complain(st, st.line, st.col, "Unexpected character: '\\'"), n, b)
              EXCEPT !.abut = FALSE]

IsPunct(s, st)     == s[st.p] \in Puncts /\ ~IsComment(s, st)
Punct(s, n, st) ==
  LET c   == s[st.p]
      two == c \in MayTakeEqual /\ At(s, st.p + 1, "=")
      k   == IF two THEN Punct2[c]
             ELSE IF c = "(" /\ st.abut THEN "LeftParenAbutting" ELSE Punct1[c]
      x   == IF two THEN c \o "=" ELSE c
      st1 == Emit(LineStart(st, c), k, x, "")
  IN  After(Skip(st1, n, st.p + Len(x)), c \in Continuing)

\* A string runs to the next quote; line ends inside it count.
Inside(s, n, st, q) ==
  FoldLeft(LAMBDA a, i :
             IF s[i] \in LineEnds THEN [l |-> a.l + n[i], c |-> 1]
             ELSE [a EXCEPT !.c = Sat(@ + n[i])],
           [l |-> st.line, c |-> Sat(st.col + 1)],
           [i \in 1..(q - st.p - 1) |-> st.p + i])

IsQuote(s, st)     == s[st.p] = "\""
String(s, n, st) ==
  LET q   == RunEnd(LAMBDA c : c # "\"", s, st.p + 1)
      st1 == LineStart(st, "\"")
      pos == Inside(s, n, st, q)
  IN  IF q > Len(s)
      THEN [Complain(st1, pos.l, pos.c, "Unterminated string.")
              EXCEPT !.p = q, !.line = pos.l, !.col = pos.c, !.abut = TRUE,
                     !.foll = FALSE]
      ELSE [After(Emit(st1, "String", "\"" \o Text(s, n, st.p + 1, q - 1) \o "\"",
                        Text(s, n, st.p + 1, q - 1)), FALSE)
              EXCEPT !.p = q + 1, !.line = pos.l, !.col = Sat(pos.c + 1)]

IsNumber(s, st)    == s[st.p] \in Digits
Number(s, n, st) ==
  LET a == RunEnd(IsDigit, s, st.p)
      q == IF At(s, a, ".") /\ a < Len(s) /\ s[a + 1] \in Digits
           THEN RunEnd(IsDigit, s, a + 1) ELSE a
      x == Text(s, n, st.p, q - 1)
  IN  After(Skip(Emit(LineStart(st, s[st.p]), "Number", x, x), n, q), FALSE)

IsWord(s, st)      == IsLetter(s[st.p])
Word(s, n, st) ==
  LET q == RunEnd(IsWordChar, s, st.p)
      x == Text(s, n, st.p, q - 1)
      k == IF x \in DOMAIN Keywords THEN Keywords[x] ELSE "Identifier"
  IN  After(Skip(Emit(LineStart(st, s[st.p]), k, x, ""), n, q), FALSE)

IsBad(s, st) == ~ \/ s[st.p] \in {" ", "\t", CR, "\\", "\""} \cup LineEnds \cup Puncts
                  \/ IsNumber(s, st) \/ IsWord(s, st)
Bad(s, n, st) ==
  After(Skip(Complain(LineStart(st, s[st.p]), st.line, st.col,
               "Unexpected token: " \o s[st.p]), n, st.p + 1), FALSE)

IsEnd(s, st) == st.p > Len(s)
EndOfText(s, n, st) ==
  [Emit([EmitN(st, "Outdent", "", Len(st.ind)) EXCEPT !.ind = <<>>],
        "Eof", "", "") EXCEPT !.done = TRUE]

\* The machine is deterministic: exactly one guard holds in every state.
ScanStep(s, n, st) ==
  IF IsEnd(s, st) THEN EndOfText(s, n, st)
  ELSE CASE IsWord(s, st)      -> Word(s, n, st)
         [] IsSpace(s, st)     -> Space(s, n, st)
         [] IsLineEnd(s, st)   -> LineEnd(s, n, st)
         [] IsComment(s, st)   -> Comment(s, n, st)
         [] IsPunct(s, st)     -> Punct(s, n, st)
         [] IsNumber(s, st)    -> Number(s, n, st)
         [] IsQuote(s, st)     -> String(s, n, st)
         [] IsBackslash(s, st) -> Backslash(s, n, st)
         [] IsReturn(s, st)    -> CarriageReturn(s, n, st)
         [] IsTab(s, st)       -> Tab(s, n, st)
         [] IsBad(s, st)       -> Bad(s, n, st)

\* Run to completion.  Every step consumes a cluster, so Len(s)+1 steps do.
ScanAll(s, n) ==
  FoldLeft(LAMBDA st, i : IF st.done THEN st ELSE ScanStep(s, n, st),
           ScanInit, [i \in 1..(Len(s) + 1) |-> i])

Ones(s) == [i \in 1..Len(s) |-> 1]
=============================================================================
