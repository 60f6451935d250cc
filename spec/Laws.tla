-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties as statements about finished lines, independent of how   *)
(* the machines of Scanner, Parser and Resolver arrive there: what the     *)
(* tokens have to do with the text, the blocks with the indentation, the   *)
(* tree with the tokens, and the bindings with the scopes.  TLC checks     *)
(* them on every line of every (small) case.                               *)
(***************************************************************************)
EXTENDS Resolver, FiniteSetsExt


---------------------------------------------------------------------------
(* The text: where every cluster is *)

Positions(s) ==
  FoldLeft(LAMBDA acc, c :
      LET p == Last(acc) IN
      Append(acc, IF c \in LineEnds THEN <<p[1] + 1, 1>> ELSE <<p[1], p[2] + 1>>),
    << <<1, 1>> >>, s)

Layout == {"Indent", "Outdent", "Eof"}
WordKinds == {"Identifier"} \cup {Keywords[w] : w \in DOMAIN Keywords}
Single == {"Bang", "Equal", "Less", "Greater"}
Spelling == [kd \in {Punct1[c] : c \in Puncts} |-> CHOOSE c \in Puncts : Punct1[c] = kd]
         @@ [kd \in {Punct2[c] : c \in MayTakeEqual} |->
               (CHOOSE c \in MayTakeEqual : Punct2[c] = kd) \o "="]
         @@ ("LeftParenAbutting" :> "(")

\* How many clusters a token covers, given that it begins at s[o].
RECURSIVE QuoteAt(_, _)
QuoteAt(s, i) == IF i > Len(s) \/ s[i] = "\"" THEN i ELSE QuoteAt(s, i + 1)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ s[i] \in WordChars THEN WordEnd(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN DigitsEnd(s, i + 1) ELSE i
NumberEnd(s, i) ==
  LET a == DigitsEnd(s, i) IN
  IF a < Len(s) /\ s[a] = "." /\ s[a + 1] \in Digits THEN DigitsEnd(s, a + 1) ELSE a
TokenEnd(s, kd, o) ==
  CASE kd \in WordKinds   -> WordEnd(s, o)
    [] kd = "Number"      -> NumberEnd(s, o)
    [] kd = "String"      -> QuoteAt(s, o + 1) + 1
    [] kd = "Terminator"  -> o + 1
    [] OTHER             -> o + Len(Spelling[kd])

Piece(s, i, j) == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(s, i, j - 1))

\* What lies between two tokens: blanks, comments, line ends, backslashes
\* that continue a line.  The result: is it so, where are the line ends that
\* count, and is there a backslash?
RECURSIVE Gap(_, _, _, _)
Gap(s, i, j, a) ==
  IF i >= j THEN a
  ELSE CASE s[i] \in LineEnds     -> Gap(s, i + 1, j, [a EXCEPT !.ends = @ \cup {i}])
         [] s[i] \in {" ", CR}    -> Gap(s, i + 1, j, a)
         [] s[i] = "/" /\ i + 1 < j /\ s[i + 1] = "/" ->
              Gap(s, Min({q \in i..j : q = j \/ s[q] \in LineEnds}), j, a)
         [] s[i] = "\\" ->
              LET q == Min({q \in (i + 1)..j : q = j \/ s[q] \notin {" ", CR}}) IN
              IF q < j /\ s[q] \in LineEnds
              THEN Gap(s, q + 1, j, [a EXCEPT !.back = @ \cup {q}])
              ELSE [a EXCEPT !.ok = FALSE]
         [] OTHER -> [a EXCEPT !.ok = FALSE]
GapOf(s, i, j) == Gap(s, i, j, [ok |-> TRUE, ends |-> {}, back |-> {}])

ContinuingKinds == {"LeftParen", "LeftParenAbutting", "LeftBrace", "LeftBracket",
  "Colon", "Comma", "Dot", "Minus", "Plus", "Star", "Slash", "Less", "Greater",
  "LessEqual", "GreaterEqual"}

\* The tokens with their places in the text: [k, x, v, o, e] (o: first
\* cluster, e: after the last), without layout.
Placed(s, toks) ==
  LET pos == Positions(s)
      vis == SelectSeq(toks, LAMBDA t : t.k \notin Layout)
      off(t) == LET at == {o \in 1..Len(s) : pos[o] = <<t.l, t.c>>}
                IN  IF at = {} THEN 0 ELSE CHOOSE o \in at : TRUE
  IN  [j \in 1..Len(vis) |->
         LET t == vis[j]
             o == off(t)
         IN  [k |-> t.k, x |-> t.x, v |-> t.v, o |-> o,
              e |-> IF o = 0 THEN 0 ELSE TokenEnd(s, t.k, o)]]

\* C05, C06, C07: every token is the longest piece of its kind at its place,
\* with the text and value of that piece; in order; and what lies between is
\* insignificant.
TextLaw(s, P) ==
  /\ \A j \in 1..Len(P) :
       LET t == P[j] IN
       /\ t.o > 0 /\ t.e > t.o /\ t.e <= Len(s) + 1
       /\ t.x = Piece(s, t.o, t.e)
       /\ j = 1 \/ P[j - 1].e <= t.o
       /\ t.k \in WordKinds =>
            /\ s[t.o] \in Letters
            /\ t.o = 1 \/ s[t.o - 1] \notin Letters
            /\ t.k = IF t.x \in DOMAIN Keywords THEN Keywords[t.x] ELSE "Identifier"
       /\ t.k = "Number" => s[t.o] \in Digits /\ t.v = t.x
       /\ t.k = "String" => /\ s[t.o] = "\"" /\ s[t.e - 1] = "\"" /\ t.e > t.o + 1
                            /\ t.v = Piece(s, t.o + 1, t.e - 1)
       /\ t.k = "Terminator" => s[t.o] \in LineEnds
       /\ t.k \in Single => ~(t.e <= Len(s) /\ s[t.e] = "=")
       /\ t.k = "Slash" => ~(t.e <= Len(s) /\ s[t.e] = "/")
       \* C09: a parenthesis abuts exactly if what precedes it is not blank
       /\ t.k = "LeftParenAbutting" =>
            t.o > 1 /\ s[t.o - 1] \notin {" ", CR} \cup LineEnds
       /\ t.k = "LeftParen" => t.o = 1 \/ s[t.o - 1] \in {" ", CR} \cup LineEnds
  /\ \A j \in 1..(Len(P) + 1) :
       GapOf(s, IF j = 1 THEN 1 ELSE P[j - 1].e,
             IF j > Len(P) THEN Len(s) + 1 ELSE P[j].o).ok

\* C03: after a token that ends a line but does not ask for more, the first
\* line end (unless after a backslash) is a Terminator; no other line end is.
NewlineLaw(s, P) ==
  \A j \in 1..(Len(P) + 1) :
    LET from == IF j = 1 THEN 1 ELSE P[j - 1].e
        to   == IF j > Len(P) THEN Len(s) + 1 ELSE P[j].o
        gap  == GapOf(s, from, to)
        open == j > 1 /\ P[j - 1].k \notin ContinuingKinds \cup {"Terminator"}
    IN  IF j <= Len(P) /\ P[j].k = "Terminator"
        THEN open /\ gap.ends = {} /\ gap.back = {}
        ELSE open => (gap.ends = {} \/ (gap.back # {} /\ Min(gap.back) < Min(gap.ends)))

\* C02: the lines' indentations, and the blocks they open and close.
FirstOnLine(s, P, j) ==
  /\ P[j].k # "Terminator"
  /\ LET b == Max({0} \cup {i \in 1..(P[j].o - 1) : s[i] \in LineEnds})
     IN  \A i \in (b + 1)..(P[j].o - 1) : s[i] \in {" ", CR}
Width(s, P, j) ==
  LET b == Max({0} \cup {i \in 1..(P[j].o - 1) : s[i] \in LineEnds})
  IN  Cardinality({i \in (b + 1)..(P[j].o - 1) : s[i] = " "})
\* Does the line that begins with token j continue an earlier one?
Continued(s, P, j) ==
  \/ j > 1 /\ P[j - 1].k \in ContinuingKinds
  \/ GapOf(s, IF j = 1 THEN 1 ELSE P[j - 1].e, P[j].o).back # {}
NestLaw(s, P, toks) ==
  LET firsts == SelectSeq([j \in 1..Len(P) |-> j], LAMBDA j : FirstOnLine(s, P, j))
      L == [i \in 1..Len(firsts) |->
              [w |-> Width(s, P, firsts[i]), c |-> Continued(s, P, firsts[i])]]
      \* the levels open after line i: those of earlier lines (which opened
      \* one) that no line since was indented less than
      Open(i) == {L[q].w : q \in {q \in 1..i : /\ L[q].w > 0 /\ ~L[q].c
                                               /\ \A m \in q..i : L[m].w >= L[q].w}}
      \* the n-th visible token in toks, and the blocks open before it
      Nth(n) == CHOOSE z \in 1..Len(toks) :
                 /\ toks[z].k \notin Layout
                 /\ Cardinality({y \in 1..z : toks[y].k \notin Layout}) = n
      Count(z, kd) == Cardinality({y \in 1..z : toks[y].k = kd})
  IN  /\ \A i \in 1..Len(L) :
           LET z == Nth(firsts[i]) IN
           /\ L[i].w = 0 \/ L[i].w \in Open(i) \/ (L[i].c /\ \A w \in Open(i) : w < L[i].w)
           /\ i > 1 /\ L[i].w > 0 /\ Open(i - 1) # {} /\ L[i].w < Max(Open(i - 1))
                => L[i].w \in Open(i - 1)
           /\ Count(z, "Indent") - Count(z, "Outdent") = Cardinality(Open(i))
      \* only the beginning of a line or the end opens or closes anything
      /\ \A z \in 1..Len(toks) : toks[z].k \in {"Indent", "Outdent"} =>
           \E y \in (z + 1)..Len(toks) :
             /\ \A q \in z..(y - 1) : toks[q].k \in {"Indent", "Outdent"}
             /\ \/ toks[y].k = "Eof" /\ toks[z].k = "Outdent"
                \/ \E i \in 1..Len(L) : Nth(firsts[i]) = y
      /\ \A z \in 1..(Len(toks) - 1) : toks[z].k = "Indent" => toks[z + 1].k # "Indent"

---------------------------------------------------------------------------
(* The tree and the tokens *)

\* C08-C11: read in order, the tree has the words, literals and operators of
\* the text: nothing is dropped, invented, repeated or moved.
Counted == ({"Identifier", "This", "Super", "Number", "String", "Fun", "Class",
             "Var", "Print", "Return", "If", "Else", "Break", "Continue", "Dot"}
            \cup UNION {DOMAIN Levels[i] : i \in 1..Len(Levels)} \cup {"Bang"})
TokenYield(toks) ==
  LET ts == SelectSeq(toks, LAMBDA t : t.k \in Counted)
  IN  [i \in 1..Len(ts) |-> IF ts[i].k = "String" THEN ts[i].v ELSE ts[i].x]

SpellOp == [o \in {Levels[i][kd] : <<i, kd>> \in {<<i, kd>> \in (1..Len(Levels)) \X
                     UNION {DOMAIN Levels[q] : q \in 1..Len(Levels)} : kd \in DOMAIN Levels[i]}} |->
  CASE o = "Or" -> "or" [] o = "And" -> "and" [] o = "NotEqual" -> "!="
    [] o = "Equal" -> "==" [] o = "Less" -> "<" [] o = "LessEqual" -> "<="
    [] o = "Greater" -> ">" [] o = "GreaterEqual" -> ">=" [] o = "Plus" -> "+"
    [] o = "Minus" -> "-" [] o = "Multiply" -> "*" [] o = "Divide" -> "/"]

RECURSIVE YE(_), YS(_), YEs(_), YSs(_)
YEs(es) == FoldLeft(LAMBDA acc, e : acc \o YE(e), <<>>, es)
YSs(ss) == FoldLeft(LAMBDA acc, s : acc \o YS(s), <<>>, ss)
YF(params, body) == [i \in 1..Len(params) |-> params[i][1]] \o YSs(body)
YE(e) ==
  LET t == e[1] IN
  CASE t \in {"True", "False", "Nil"} -> <<>>
    [] t \in {"Num", "Str", "Variable"} -> <<e[2]>>
    [] t = "Assign"   -> <<e[2]>> \o YE(e[3])
    [] t = "Super"    -> <<"super", ".", e[2]>>
    [] t \in {"Binary", "Logical"} -> YE(e[2]) \o <<SpellOp[e[3]]>> \o YE(e[4])
    [] t = "Unary"    -> <<IF e[2] = "Not" THEN "!" ELSE "-">> \o YE(e[3])
    [] t = "Get"      -> YE(e[2]) \o <<".", e[3]>>
    [] t = "Grouping" -> YE(e[2])
    [] t = "GetIndex" -> YE(e[2]) \o YE(e[3])
    [] t = "Set"      -> YE(e[2]) \o <<".", e[3]>> \o YE(e[4])
    [] t = "SetIndex" -> YE(e[2]) \o YE(e[3]) \o YE(e[4])
    [] t = "Call"     -> YE(e[2]) \o YEs(e[3])
    [] t = "Array"    -> YEs(e[2])
    [] t = "Map"      -> FoldLeft(LAMBDA acc, m : acc \o <<m[1]>> \o YE(m[2]), <<>>, e[2])
    [] t = "Function" -> <<"fun">> \o YF(e[2], e[3])
YS(s) ==
  LET t == s[1] IN
  CASE t = "Block"    -> YSs(s[2])
    [] t = "Break"    -> <<"break">>
    [] t = "Continue" -> <<"continue">>
    [] t = "Expression" -> YE(s[2])
    [] t = "Print"    -> <<"print">> \o YE(s[2])
    [] t = "Return"   -> <<"return">> \o YE(s[2])
    [] t = "Var"      -> <<"var", s[2]>> \o YE(s[3])
    [] t = "If"       -> <<"if">> \o YE(s[2]) \o YS(s[3])
                         \o (IF Len(s) = 4 THEN <<"else">> \o YS(s[4]) ELSE <<>>)
    [] t = "While"    -> YE(s[2]) \o YS(s[3])
    [] t = "WhileInc" -> YE(s[2]) \o YE(s[4]) \o YS(s[3])
    [] t = "Fun"      -> <<"fun", s[2]>> \o YF(s[3], s[4])
    [] t = "Class"    -> <<"class", s[2]>>
                         \o (IF s[3] = <<>> THEN <<>> ELSE <<"<", s[3][1]>>)
                         \o FoldLeft(LAMBDA acc, m :
                              acc \o (IF m[4] = "ClassMethod" THEN <<"class">> ELSE <<>>)
                                  \o <<m[1]>> \o YF(m[2], m[3]), <<>>, s[4])
YieldLaw(toks, tree) == YSs(tree) = TokenYield(toks)

\* C08, C09: how tight an expression is; what may be an operand of what.
\* loc(t): the kind of the token at a location.
Level(op) == CHOOSE i \in 1..Len(Levels) : \E kd \in DOMAIN Levels[i] : Levels[i][kd] = op
Tight(e) ==
  CASE e[1] \in {"Assign", "Set", "SetIndex"} -> 0
    [] e[1] \in {"Binary", "Logical"} -> Level(e[3])
    [] e[1] = "Unary" -> 7
    [] OTHER -> 8
\* Does it end in the arguments of a call without parentheses?
KindIn(T, loc) == IF loc \in DOMAIN T THEN T[loc] ELSE ""
RECURSIVE Ragged(_, _)
Ragged(e, T) ==
  CASE e[1] = "Call" -> KindIn(T, e[4]) # "LeftParenAbutting"
    [] e[1] \in {"Binary", "Logical"} -> Ragged(e[4], T)
    [] e[1] = "Unary" -> Ragged(e[3], T)
    [] OTHER -> FALSE
\* C07, C08, C09: every operator groups what it may and stands where it is
\* located.
RECURSIVE GoodE(_, _), GoodS(_, _)
GoodE(e, T) ==
  LET t == e[1]
      all(es) == \A i \in 1..Len(es) : GoodE(es[i], T)
      body(ss) == \A i \in 1..Len(ss) : GoodS(ss[i], T)
      params(ps) == \A i \in 1..Len(ps) : KindIn(T, ps[i][2]) = "Identifier"
  IN
  CASE t \in {"Num", "Str", "True", "False", "Nil"} -> TRUE
    [] t = "Variable" -> KindIn(T, e[3]) = IF e[2] = "this" THEN "This" ELSE "Identifier"
    [] t = "Assign"   -> KindIn(T, e[4]) = "Equal" /\ e[2] # "this" /\ GoodE(e[3], T)
    [] t = "Super"    -> KindIn(T, e[3]) = "Super"
    [] t = "Binary"   ->
         /\ GoodE(e[2], T) /\ GoodE(e[4], T)
         /\ KindIn(T, e[5]) \in DOMAIN Levels[Level(e[3])]
         /\ Levels[Level(e[3])][KindIn(T, e[5])] = e[3]
         /\ Tight(e[2]) >= Tight(e) /\ Tight(e[4]) > Tight(e) /\ ~Ragged(e[2], T)
    [] t = "Logical"  ->
         /\ GoodE(e[2], T) /\ GoodE(e[4], T)
         /\ Tight(e[2]) >= Tight(e) /\ Tight(e[4]) > Tight(e) /\ ~Ragged(e[2], T)
    [] t = "Unary"    ->
         /\ GoodE(e[3], T) /\ Tight(e[3]) >= 7
         /\ KindIn(T, e[4]) = IF e[2] = "Not" THEN "Bang" ELSE "Minus"
    [] t = "Get"      -> GoodE(e[2], T) /\ Tight(e[2]) = 8 /\ KindIn(T, e[4]) = "Dot"
                         /\ ~Ragged(e[2], T)
    [] t = "Grouping" -> GoodE(e[2], T)
    [] t = "GetIndex" -> GoodE(e[2], T) /\ GoodE(e[3], T) /\ Tight(e[2]) = 8
                         /\ KindIn(T, e[4]) = "LeftBracket" /\ ~Ragged(e[2], T)
    [] t = "Set"      -> GoodE(e[2], T) /\ GoodE(e[4], T) /\ Tight(e[2]) = 8
                         /\ KindIn(T, e[5]) = "Equal"
    [] t = "SetIndex" -> GoodE(e[2], T) /\ GoodE(e[3], T) /\ GoodE(e[4], T)
                         /\ Tight(e[2]) = 8 /\ KindIn(T, e[5]) = "Equal"
    [] t = "Call"     -> GoodE(e[2], T) /\ all(e[3]) /\ Tight(e[2]) = 8
                         /\ Len(e[3]) <= MaxArgs /\ ~Ragged(e[2], T)
                         /\ KindIn(T, e[4]) \in JuxtaStart \cup {"LeftParenAbutting"}
                         /\ (e[3] = <<>> => KindIn(T, e[4]) = "LeftParenAbutting")
    [] t = "Array"    -> all(e[2])
    [] t = "Map"      -> /\ all([i \in 1..Len(e[2]) |-> e[2][i][2]])
                         /\ Cardinality({e[2][i][1] : i \in 1..Len(e[2])}) = Len(e[2])
    [] t = "Function" -> params(e[2]) /\ body(e[3]) /\ KindIn(T, e[5]) = "Fun"
                         /\ Len(e[2]) <= MaxArgs /\ e[4] = "Plain"
GoodS(s, T) ==
  LET t == s[1]
      body(ss) == \A i \in 1..Len(ss) : GoodS(ss[i], T)
      params(ps) == \A i \in 1..Len(ps) : KindIn(T, ps[i][2]) = "Identifier"
  IN
  CASE t = "Block"    -> body(s[2])
    [] t = "Break"    -> KindIn(T, s[2]) = "Break"
    [] t = "Continue" -> KindIn(T, s[2]) = "Continue"
    [] t \in {"Expression", "Print"} -> GoodE(s[2], T)
    [] t = "Return"   -> GoodE(s[2], T) /\ KindIn(T, s[3]) = "Return"
    [] t = "Var"      -> GoodE(s[3], T) /\ KindIn(T, s[4]) = "Identifier"
    [] t = "If"       -> GoodE(s[2], T) /\ GoodS(s[3], T)
                         /\ (Len(s) = 4 => GoodS(s[4], T))
    [] t = "While"    -> GoodE(s[2], T) /\ GoodS(s[3], T)
    [] t = "WhileInc" -> GoodE(s[2], T) /\ GoodS(s[3], T) /\ GoodE(s[4], T)
    [] t = "Fun"      -> params(s[3]) /\ body(s[4]) /\ s[5] = "Plain"
                         /\ KindIn(T, s[6]) = "Identifier" /\ Len(s[3]) <= MaxArgs
    [] t = "Class"    ->
         /\ KindIn(T, s[5]) = "Identifier"
         /\ s[3] # <<>> => KindIn(T, s[3][2]) = "Identifier"
         /\ \A i \in 1..Len(s[4]) :
              /\ params(s[4][i][2]) /\ body(s[4][i][3]) /\ KindIn(T, s[4][i][5]) = "Identifier"
              /\ s[4][i][4] = "Initializer" => s[4][i][1] = "init"
              /\ s[4][i][4] = "Method" => s[4][i][1] # "init"
KindsByPlace(toks) ==
  LET vis == SelectSeq(toks, LAMBDA t : t.k \notin Layout)
  IN  [loc \in {<<vis[i].l, vis[i].c>> : i \in 1..Len(vis)} |->
         (CHOOSE t \in {vis[i] : i \in 1..Len(vis)} : <<t.l, t.c>> = loc).k]
TreeLaw(toks, tree) ==
  LET T == KindsByPlace(toks) IN
  \A i \in 1..Len(tree) : GoodS(tree[i], T)

\* C12: every break and continue stands in a loop of its function.
RECURSIVE LoopE(_), LoopS(_, _)
LoopEs(es) == \A i \in 1..Len(es) : LoopE(es[i])
LoopSs(ss, in) == \A i \in 1..Len(ss) : LoopS(ss[i], in)
LoopE(e) ==
  LET t == e[1] IN
  CASE t = "Function" -> LoopSs(e[3], FALSE)
    [] t \in {"Num", "Str", "True", "False", "Nil", "Variable", "Super"} -> TRUE
    [] t = "Map" -> LoopEs([i \in 1..Len(e[2]) |-> e[2][i][2]])
    [] t = "Array" -> LoopEs(e[2])
    [] t = "Call" -> LoopE(e[2]) /\ LoopEs(e[3])
    [] t \in {"Assign", "Unary"} -> LoopE(e[3])
    [] t \in {"Get", "Grouping"} -> LoopE(e[2])
    [] t = "GetIndex" -> LoopE(e[2]) /\ LoopE(e[3])
    [] t = "SetIndex" -> LoopE(e[2]) /\ LoopE(e[3]) /\ LoopE(e[4])
    [] OTHER -> LoopE(e[2]) /\ LoopE(e[4])
LoopS(s, in) ==
  LET t == s[1] IN
  CASE t \in {"Break", "Continue"} -> in
    [] t = "Block" -> LoopSs(s[2], in)
    [] t \in {"Expression", "Print", "Return"} -> LoopE(s[2])
    [] t = "Var" -> LoopE(s[3])
    [] t = "If" -> LoopE(s[2]) /\ LoopS(s[3], in) /\ (Len(s) = 4 => LoopS(s[4], in))
    [] t = "While" -> LoopE(s[2]) /\ LoopS(s[3], TRUE)
    [] t = "WhileInc" -> LoopE(s[2]) /\ LoopS(s[3], TRUE) /\ LoopE(s[4])
    [] t = "Fun" -> LoopSs(s[4], FALSE)
    [] t = "Class" -> \A i \in 1..Len(s[4]) : LoopSs(s[4][i][3], FALSE)
LoopLaw(tree) == LoopSs(tree, FALSE)

---------------------------------------------------------------------------
(* Scopes, in terms of the scoping operations of an accepted text.  G: the  *)
(* globals before it.                                                       *)

\* The scopes open at operation q: the begins before q without their end,
\* innermost last; 0 stands for the global scope.
OpenAt(ops) ==
  FoldLeft(LAMBDA acc, op :
      LET now == Last(acc) IN
      Append(acc, CASE op.o = "begin" -> Append(now, Len(acc))
                    [] op.o = "end"   -> Front(now)
                    [] OTHER          -> now),
    << <<0>> >>, ops)
\* Names entered into scope z by the operations before q, each once, in order.
EnteredBefore(ops, open, globals, z, q) ==
  FoldLeft(LAMBDA acc, j :
      LET op   == ops[j]
          here == Last(open[j]) = z
          \* is it a use of a name that no open scope has?
          adds == \/ op.o \in {"declare", "name"} /\ here
                  \/ /\ z = 0 /\ op.o \in {"use", "set", "super"}
                     /\ \A y \in 2..Len(open[j]) : \A i \in 1..(j - 1) :
                          ~(/\ ops[i].o \in {"declare", "name"} /\ ops[i].x = op.x
                            /\ Last(open[i]) = open[j][y])
      IN  IF adds /\ ~Contains(acc, op.x) THEN Append(acc, op.x) ELSE acc,
    IF z = 0 THEN globals ELSE <<>>, [j \in 1..(q - 1) |-> j])
PlaceOf(seq, x) == (CHOOSE i \in 1..Len(seq) : seq[i] = x) - 1

\* C13, C14: the bindings are those of the innermost scope that declared the
\* name earlier, and slots count the names of a scope in order.
ScopeLaw(ops, globals, bind) ==
  LET open == OpenAt(ops)
      refs == SelectSeq([j \in 1..Len(ops) |-> j],
                LAMBDA j : ops[j].o \in {"use", "set", "super", "declare"})
      Decl(j, y) == \E i \in 1..(j - 1) :
                      /\ ops[i].o \in {"declare", "name"} /\ ops[i].x = ops[j].x
                      /\ Last(open[i]) = open[j][y]
      Where(j) == IF ops[j].o = "declare" THEN Len(open[j])
                  ELSE Max({1} \cup {y \in 2..Len(open[j]) : Decl(j, y)})
      Slot(j) == PlaceOf(EnteredBefore(ops, open, globals, open[j][Where(j)], j + 1),
                         ops[j].x)
  IN  /\ Len(bind) = Len(refs)
      /\ \A r \in 1..Len(refs) :
           LET j == refs[r] IN
           bind[r] = << IF ops[j].o = "declare" THEN "var" ELSE ops[j].o,
                        ops[j].x, ops[j].l, ops[j].c,
                        Len(open[j]) - Where(j), Slot(j) >>

\* C15, C16: nothing that is accepted breaks a rule.
RuleLaw(ops) ==
  LET open == OpenAt(ops)
      Before2(j, kinds) == {i \in 1..(j - 1) : ops[i].o \in kinds}
      \* the classes and functions around operation j, by their opening
      Around(j, o, e) == {i \in Before2(j, {o}) :
          Cardinality({q \in i..(j - 1) : ops[q].o = o})
            - Cardinality({q \in i..(j - 1) : ops[q].o = e}) > 0
          /\ \A q \in i..(j - 1) :
               Cardinality({p \in i..q : ops[p].o = o})
                 - Cardinality({p \in i..q : ops[p].o = e}) > 0}
      Innermost(j, o, e) == LET a == Around(j, o, e) IN
                            IF a = {} THEN "" ELSE ops[Max(a)].a
  IN  \A j \in 1..Len(ops) :
        LET op == ops[j] IN
        /\ op.o \in {"declare", "name"} /\ Last(open[j]) # 0 =>
             ~\E i \in 1..(j - 1) : /\ ops[i].o \in {"declare", "name"}
                                    /\ ops[i].x = op.x /\ Last(open[i]) = Last(open[j])
        /\ op.o = "inherit" => FALSE
        /\ op.o = "use" /\ op.x = "this" => Around(j, "class", "classEnd") # {}
        /\ op.o = "super" => Innermost(j, "class", "classEnd") = "sub"
        /\ op.o = "return" => /\ Around(j, "fun", "funEnd") # {}
                              /\ op.a = "value" => Innermost(j, "fun", "funEnd") # "Initializer"
        \* not directly in one's own initializer, unless defined before
        /\ op.o = "use" => ~\E i \in 1..(j - 1) :
             /\ ops[i].o = "declare" /\ ops[i].x = op.x /\ Last(open[i]) = Last(open[j])
             /\ \A q \in (i + 1)..(j - 1) : ~(ops[q].o = "define" /\ ops[q].x = op.x
                                              /\ open[q] = open[i])
             /\ ~\E q \in 1..(i - 1) : /\ ops[q].o \in {"define", "name"} /\ ops[q].x = op.x
                                       /\ Last(open[q]) = Last(open[i])

=============================================================================
